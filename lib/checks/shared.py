"""C05: what threads working on different compilers share. C16: detected CPU properties are used only after detection."""
from flow import *
from common import *
import base

# records of one compiler object: not shared
LIBRARY = ("sljit_compiler", "sljit_jump", "sljit_label", "sljit_const", "sljit_memory_fragment")
LOCK, UNLOCK = ("pthread_mutex_lock",), ("pthread_mutex_unlock",)


def gname(e):
    """global variable an lvalue stores into / an expression denotes"""
    r = root(e)
    return r[1] if r[0] == "v" and r[1].startswith("::") else None


def reads_of(e, out):
    """global variables read by evaluating e (not: their address taken), and members read"""
    if not isinstance(e, tuple) or not e:
        return
    k = e[0]
    if k == "v":
        if e[1].startswith("::"):
            out.add(e[1])
        return
    if k in ("s", "i", "f", "F"):
        return
    if k == "&":
        x = e[1]
        while x[0] in ("m", "x", "t"):
            if x[0] == "x":
                reads_of(x[2], out)
                if x[4] != "a":
                    reads_of(x[1], out)
                    return
                x = x[1]
            elif x[0] == "m":
                x = x[1]
            else:
                x = x[2]
        if x[0] == "*":
            reads_of(x[1], out)
        return
    if k == "m":
        out.add(("m", e[3], e[2]))
    for x in e[1:]:
        reads_of(x, out)


def node_reads(n):
    out = set()
    if n.k == "set":
        reads_of(n.b, out)
        # the address computation of the target
        a = n.a
        if a[0] != "v":
            s = set()
            reads_of(a, s)
            r = gname(a)
            top = ("m", a[3], a[2]) if a[0] == "m" else None
            s.discard(top)
            if r and a[0] in ("m", "x"):
                s.discard(r)
            out |= s
    elif n.k == "call":
        for a in n.c:
            reads_of(a, out)
    elif n.k in ("br", "sw", "ret"):
        if n.a is not None:
            reads_of(n.a, out)
    return out


class Locks(Client):
    """ps: locks held"""

    def __init__(self, res, u, entry, acc, macc):
        self.res, self.u, self.entry, self.acc, self.macc = res, u, entry, acc, macc

    def skip_call(self, name):
        return name not in self.touch

    def access(self, fn, n, ps):
        for r in node_reads(n):
            if isinstance(r, tuple):
                self.macc.setdefault((r[1], r[2]), []).append((ps, "r", fn.name, n.line))
            else:
                self.acc.setdefault(r, []).append((ps, "r", fn.name, n.line))

    def on_set(self, an, fn, n, ps, env):
        self.access(fn, n, ps)
        g = gname(n.a)
        if g:
            self.acc.setdefault(g, []).append((ps, "w", fn.name, n.line))
        elif n.a[0] == "m":
            self.macc.setdefault((n.a[3], n.a[2]), []).append((ps, "w", fn.name, n.line))
        return ps

    def on_call(self, an, fn, n, ps, env):
        self.access(fn, n, ps)
        if n.b in LOCK or n.b in UNLOCK:
            l = show(n.c[0])
            self.res.note("lock_sites", fn.where(n.line))
            if n.b in LOCK:
                if l in ps:
                    self.res.add("%s:twice" % fn.name, "%s acquires %s while it already holds it" % (fn.name, l), fn.where(n.line), ["reached from " + self.entry])
                    return []
                return [(ps | {l}, ZERO, None)]
            if l not in ps:
                self.res.add("%s:notheld" % fn.name, "%s releases %s without holding it" % (fn.name, l), fn.where(n.line), ["reached from " + self.entry])
                return []
            return [(ps - {l}, ZERO, None)]
        return None

    def on_edge(self, an, fn, n, ps, env, edge, env2):
        self.access(fn, n, ps)
        return ps

    def on_ret(self, an, fn, n, ps, env):
        self.access(fn, n, ps)
        return ps


def deps(fn, e, through_calls=True):
    """variables and memory the value of e can come from (intraprocedural closure over assignments)"""
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or not x or x in seen:
            continue
        seen.add(x)
        k = x[0]
        if k == "v":
            v = x[1]
            if v.startswith("::"):
                out.add(("global", v))
            elif v in fn.params:
                out.add(("parameter", v))
            else:
                for n in fn.cfg.nodes:
                    if n.k == "set" and root(n.a) == x:
                        todo.append(n.b)
                    elif n.k == "call" and n.a == v:
                        out.add(("call", n.b if isinstance(n.b, str) else "?"))
                        if through_calls:
                            todo += list(n.c)
            continue
        if k == "F":
            out.add(("compiler field", x[1]))
            continue
        if k in ("s", "i", "f"):
            continue
        if k == "&":
            r = root(x[1])
            if r[0] == "v" and r[1].startswith("::"):
                continue
        if k == "*" or (k == "x" and x[4] == "p"):
            out.add(("memory", show(x)))
        todo += [y for y in x[1:] if isinstance(y, tuple)]
    return out


def touching(u, mutable):
    """functions that access shared objects, take locks or handle blocks, and their callers"""
    t, calls = set(), {}
    for f in u.funcs.values():
        calls[f.name] = set()
        for n in f.cfg.nodes:
            if n.k == "call":
                if n.b in LOCK or n.b in UNLOCK:
                    t.add(f.name)
                calls[f.name].add(n.b if isinstance(n.b, str) else "?")
            r = node_reads(n)
            if n.k == "set":
                r.add(gname(n.a))
                if n.a[0] == "m":
                    r.add(("m", n.a[3], n.a[2]))
            if any((x in mutable) if not isinstance(x, tuple) else x[1] not in LIBRARY for x in r if x):
                t.add(f.name)
    ch = True
    while ch:
        ch = False
        for f in calls:
            if f not in t and calls[f] & t:
                t.add(f)
                ch = True
    return t


def escapes(e, mutable, out):
    """shared objects whose address is part of the value of e"""
    if not isinstance(e, tuple) or not e:
        return
    k = e[0]
    if k == "&":
        g = gname(e[1])
        if g:
            out.add(g)
        escapes(e[1], mutable, out)
        return
    if k == "v":
        if e[1] in mutable and mutable[e[1]]["len"] >= 0:
            out.add(e[1])
        return
    if k == "x" and e[4] == "a":
        r = root(e)
        if r[0] == "v":
            escapes(e[2], mutable, out)
            return
    if k in ("s", "i", "f", "F"):
        return
    for x in e[1:]:
        escapes(x, mutable, out)


def escape_rules(u, res, mutable):
    for fn in u.funcs.values():
        for n in fn.cfg.nodes:
            out = set()
            if n.k == "set":
                escapes(n.b, mutable, out)
                if gname(n.a) in mutable:
                    out = set()
                # stores through a shared pointer
                r = root(n.a)
                if r[0] == "mem":
                    b = r[1]
                    while b[0] in ("t", "p+", "p-", "x", "*"):
                        b = b[2] if b[0] == "t" else b[1]
                    if b[0] == "v" and b[1] in mutable:
                        bad = [d for d in deps(fn, n.b) if d[0] in ("parameter", "compiler field", "memory")]
                        if bad and not ("free_block" in mutable[b[1]]["type"]):
                            res.add("%s:data" % b[1].lstrip(":"), "%s writes data of one compiler (%s %s) to memory shared through %s" % (
                                fn.name, bad[0][0], bad[0][1].lstrip(":"), b[1].lstrip(":")), fn.where(n.line))
            elif n.k == "call" and n.b not in LOCK and n.b not in UNLOCK:
                for a in n.c:
                    escapes(a, mutable, out)
            elif n.k == "ret" and n.a is not None:
                escapes(n.a, mutable, out)
            for g in out:
                if g in mutable and "mutex" not in mutable[g]["type"]:
                    res.add("%s:escape" % g.lstrip(":"), "%s works on the shared object %s through a pointer" % (fn.name, g.lstrip(":")), fn.where(n.line))


def unit(u, res):
    mutable = {}
    for name, g in u.globals.items():
        if not g["const"] and not name.startswith("::vp_"):
            mutable[name] = g
    escape_rules(u, res, mutable)
    acc, macc = {}, {}
    fns = api(u)
    base.need(len(fns) > 40, "public functions not found in " + u.name)
    touch = touching(u, mutable)
    for name in sorted(fns):
        cl = Locks(res, u, name, acc, macc)
        cl.touch = touch
        an = Analysis(u, cl)
        out = an.run(name, frozenset())
        res.count("functions")
        res.count("steps", an.steps)
        for ps, rv in out:
            if ps:
                res.add("%s:kept" % name, "%s can return without releasing %s" % (name, ", ".join(sorted(ps))), fns[name].where())
    guarded = {}
    for g, l in sorted(acc.items()):
        if g not in mutable or "mutex" in mutable[g]["type"]:
            continue
        if not any(x[1] == "w" for x in l):
            continue
        res.note("shared_objects", g.lstrip(":"))
        common = frozenset.intersection(*[x[0] for x in l])
        res.count("shared_accesses", len({x[1:] for x in l}))
        if common:
            guarded[g] = common
            continue
        # not protected: it may only cache a property of the machine
        bare = sorted({(x[2], x[3]) for x in l if not x[0]})
        writers = sorted({x[2] for x in l if x[1] == "w"})
        # a probe of the system made once under a lock (double checked) may be handed memory to probe
        probe = len({x[3] for x in l if x[1] == "w"}) == 1 and frozenset.intersection(*[x[0] for x in l if x[1] == "w"])
        for w in writers:
            fn = u.funcs[w]
            st = [n for n in fn.cfg.nodes if n.k == "set" and gname(n.a) == g]
            for n in st:
                bad = [d for d in deps(fn, n.b, not probe) if d[0] in ("parameter", "compiler field", "memory") or (d[0] == "global" and d[1] in mutable and d[1] == g)]
                if bad:
                    b = bare[0]
                    res.add("%s:unlocked" % g.lstrip(":"), "%s is changed by %s (depending on %s %s) but accessed without a lock in %s" % (
                        g.lstrip(":"), w, bad[0][0], bad[0][1].lstrip(":"), b[0]), u.loc(b[1]))
            # one store per execution, and nothing else initialised after it
            for n in st:
                seen, todo = set(), [t for t, _ in n.succ]
                while todo:
                    i = todo.pop()
                    if i in seen:
                        continue
                    seen.add(i)
                    m = fn.cfg.nodes[i]
                    if m.k == "set" and gname(m.a) == g:
                        res.add("%s:partial" % g.lstrip(":"), "an intermediate value of %s is visible to other threads in %s" % (g.lstrip(":"), w), fn.where(n.line))
                    todo += [t for t, _ in m.succ]
                if n.b[0] == "i":
                    # a mere flag: what it stands for must be complete
                    for i in seen:
                        m = fn.cfg.nodes[i]
                        h = gname(m.a) if m.k == "set" else None
                        late = {h} if h else set()
                        if m.k == "call" and isinstance(m.b, str) and m.b in u.funcs:
                            late = written(u, m.b)
                        late = {x for x in late if x in mutable and x != g and x not in guarded}
                        if late:
                            res.add("%s:order" % g.lstrip(":"), "%s sets %s before it initialises %s" % (w, g.lstrip(":"), ", ".join(sorted(x.lstrip(":") for x in late))), fn.where(n.line))
    # memory reachable from the guarded objects
    recs = {}
    for g, locks in guarded.items():
        t = mutable[g]["type"]
        if t.startswith("struct ") and t.endswith("*"):
            r = t[7:].rstrip(" *")
            recs[r] = locks
            for f in (u.records.get(r) or {"fields": []})["fields"]:
                if f[1].startswith("struct ") and not f[1].endswith("*"):
                    recs[f[1][7:]] = locks
    written_fields = set()
    for (rec, field), l in macc.items():
        if rec in recs:
            res.note("guarded_fields", "%s.%s" % (rec, field))
            for ps, rw, f, line in l:
                if not recs[rec] & ps and not (rw == "r" and field == "executable_offset"):
                    res.add("%s.%s:unlocked" % (rec, field), "%s accesses %s.%s without holding %s" % (f, rec, field, ", ".join(sorted(recs[rec]))), u.loc(line))
    for g in guarded:
        res.note("guarded", g.lstrip(":"))


def written(u, name, seen=None):
    seen = seen if seen is not None else set()
    if name in seen:
        return set()
    seen.add(name)
    r = set()
    for n in u.funcs[name].cfg.nodes:
        if n.k == "set" and gname(n.a):
            r.add(gname(n.a))
        elif n.k == "call" and isinstance(n.b, str) and n.b in u.funcs:
            r |= written(u, n.b, seen)
    return r


EX = ["-DVP_BUILTIN_EXEC"]
VARIANTS = [("core", EX), ("prot", EX + ["-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"]),
            ("wx", EX + ["-DVP_BUILTIN_WX", "-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1"])]


def check(pid):
    ck = base.Check(pid)
    sp = []
    for a in base.facts.ALL:
        for v, x in VARIANTS if a in ("x86_64", "aarch64") else VARIANTS[:1]:
            for m in ("rel", "dbg") if a in ("x86_64",) else ("rel",):
                sp.append(dict(arch=a, mode=m, variant=v, extra=tuple(x)))
    rs = base.run_configs(unit, sp)
    return ck.finish(rs, "shared state", {"functions": 300, "guarded": 2, "lock_sites": 4})
