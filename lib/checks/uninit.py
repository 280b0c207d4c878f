"""C06: records, out parameters and locals are initialised before they are used or handed over."""
from flow import *
from common import *
import base
from ir import show

ALLOC = {"ensure_abuf": 1, "vp_malloc": 0, "malloc": 0, "mmap": 1}
COMPILER = "sljit_compiler"
FLEX = {("sljit_memory_fragment", "memory")}
LISTS = {"sljit_label": ("labels", "last_label"), "sljit_jump": ("jumps", "last_jump"), "sljit_const": ("consts", "last_const")}


def strip(e):
    while isinstance(e, tuple) and e[0] == "t":
        e = e[2]
    return e


def uses(n):
    s = set()

    def go(x):
        if not isinstance(x, tuple) or not x or x[0] in ("s", "i", "f", "F"):
            return
        if x[0] == "v":
            s.add(x)
            return
        if x[0] == "&":
            # the address, not the value
            go(addr_part(x[1]))
            return
        for y in x[1:]:
            if isinstance(y, tuple):
                for z in (y if y and isinstance(y[0], tuple) else (y,)):
                    go(z)

    def addr_part(x):
        """what the computation of the address of x reads"""
        while True:
            if x[0] == "v":
                return ("i", 0)
            if x[0] == "m":
                x = x[1]
            elif x[0] == "x" and x[4] == "a":
                go(x[2])
                x = x[1]
            elif x[0] == "x":
                go(x[2])
                return x[1]
            elif x[0] == "*":
                return x[1]
            else:
                return x
    if n.k == "set":
        go(n.b)
        if n.a[0] not in ("v", "F"):
            go(addr_part(n.a))
    elif n.k == "call":
        for a in n.c:
            go(a)
        if not isinstance(n.b, str):
            go(n.b[1])
    elif n.k in ("br", "sw", "ret") and n.a is not None:
        go(n.a)
    elif n.k == "asm":
        for x in n.c:
            go(x)
    return s


def addresses(n):
    """locals whose address is taken"""
    s = set()

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "&" and isinstance(x[1], tuple):
            r = root(x[1])
            if r[0] == "v":
                s.add(r)
        for y in x[1:]:
            if isinstance(y, tuple):
                for z in (y if y and isinstance(y[0], tuple) else (y,)):
                    go(z)
    for e in (n.a, n.b, n.c):
        if isinstance(e, tuple):
            go(e)
            for x in e:
                if isinstance(x, tuple):
                    go(x)
    return s


def candidates(f, written):
    """locals for which the path-insensitive analysis cannot show that they are assigned before every use"""
    cfg = f.cfg
    loc = {("v", v) for v in f.ltypes if not v.startswith("%")}
    skip = {("v", v) for v, t in f.ltypes.items() if "[" in t}
    structs = {("v", v) for v, t in f.ltypes.items() if (t.startswith("struct") or t.startswith("union")) and not t.endswith("*") and "[" not in t}
    gen = {}
    for n in cfg.nodes:
        g = set()
        if n.k == "set":
            r = root(n.a)
            if r[0] == "v":
                g.add(r)
        if n.k == "asm":
            g |= {root(x) for x in n.b}
        if n.k == "call":
            for i, a in enumerate(n.c):
                a = strip(a)
                if a[0] == "&" and a[1][0] == "v":
                    if not (isinstance(n.b, str) and n.b in f.unit.funcs) or i in written.get(n.b, ()):
                        g.add(a[1])
                elif a[0] == "&":
                    g |= addresses(n)
        elif addresses(n):
            g |= addresses(n)
        gen[n.id] = g
    inn = {n.id: None for n in cfg.nodes}
    inn[cfg.entry] = set()
    work = [cfg.entry]
    while work:
        i = work.pop()
        n = cfg.nodes[i]
        o = inn[i] | gen[i]
        if n.k == "decl":
            o = o - {("v", n.a)}
        for t, _ in n.succ:
            new = o if inn[t] is None else inn[t] & o
            if inn[t] is None or new != inn[t]:
                inn[t] = set(new)
                work.append(t)
    out = set()
    for n in cfg.nodes:
        if inn[n.id] is not None:
            out |= (uses(n) & loc) - inn[n.id] - skip
            # unwritten out parameters
            if n.k == "call" and isinstance(n.b, str) and n.b in f.unit.funcs:
                for i, a in enumerate(n.c):
                    a = strip(a)
                    if a[0] == "&" and a[1] in loc and i not in written.get(n.b, ()) and a[1] not in inn[n.id] and a[1] not in skip:
                        out.add(a[1])
    return out, structs


def must_write(u):
    """function -> indices of pointer parameters whose target is assigned on every path to a return"""
    r = {}
    for f in u.funcs.values():
        idx = []
        for i, p in enumerate(f.params):
            if "*" not in (f.ptypes.get(p) or ""):
                continue
            cfg = f.cfg
            st, seen, ok = [cfg.entry], set(), True
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                n = cfg.nodes[x]
                if n.k == "set" and n.a[0] in ("*", "m") and strip(n.a[1]) in (("v", p), ("*", ("v", p))) and n.a[0] == "*":
                    continue
                if n.k == "ret":
                    ok = False
                    break
                st.extend(t for t, _ in n.succ)
            if ok:
                idx.append(i)
        if idx:
            r[f.name] = tuple(idx)
    return r


class Layout:
    """leaves (byte ranges) of a record"""

    def __init__(self, u, rec):
        self.u, self.rec = u, rec
        self.size = u.records[rec]["size"]
        self.leaves = []
        self.add(rec, 0, "", self.size)
        self.leaves.sort()

    def add(self, rec, base_, pre, end):
        fs = self.u.records[rec]["fields"]
        for i, (name, ty, off, bits) in enumerate(fs):
            o = base_ + off // 8
            e = base_ + self.u.records[rec]["size"] if i + 1 == len(fs) else base_ + fs[i + 1][2] // 8
            if (rec, name) in FLEX:
                continue
            m = ty[7:] if ty.startswith("struct ") and not ty.endswith("*") and "[" not in ty else None
            if m in self.u.records and not self.u.records[m]["union"]:
                self.add(m, o, pre + name + ".", e)
            elif ty.startswith("union ") or bits:
                self.leaves.append((o, o + max(bits // 8, 1), pre + name))

    def at(self, off):
        for o, e, nm in self.leaves:
            if o <= off < e:
                return nm
        return None


class Rec(Client):
    """ps: () or (aliases {(fn, var, offset)}, assigned leaves, escaped, linked)"""
    max_ctx = 300

    def __init__(self, u, res, fn, site, lay, want_link, key, what, codes, loop=False):
        self.codes, self.loop = codes, loop
        self.u, self.res, self.root, self.site, self.lay = u, res, fn, site, lay
        self.want_link, self.key, self.what = want_link, key, what
        self.ends = 0

    # ---- expressions
    def offset(self, rec, field):
        for name, ty, off, bits in self.u.records.get(rec, {"fields": ()})["fields"]:
            if name == field:
                return off // 8
        return None

    def ptr(self, e, fn, ps):
        """offset in the object an address expression denotes, or None"""
        e = strip(e)
        if e[0] == "v":
            for f, v, o in ps[0]:
                if f == fn.name and v == e[1]:
                    return o
            return None
        if e[0] == "&":
            return self.loc(e[1], fn, ps)
        return None

    def loc(self, e, fn, ps):
        """offset of an lvalue in the object, or None"""
        k = e[0]
        if k == "*":
            return self.ptr(e[1], fn, ps)
        if k == "x" and e[4] == "p":
            return self.ptr(e[1], fn, ps)
        if k == "m":
            b = self.loc(e[1], fn, ps)
            if b is None:
                return None
            o = self.offset(e[3], e[2])
            return None if o is None else b + o
        if k == "F" and self.lay.rec == COMPILER:
            o = self.offset(COMPILER, e[1])
            return o
        if k == "v" and self.site is None and fn is self.root and e == self.var:
            return 0
        return None

    def reads(self, n, e, fn, ps, addr=False):
        if not isinstance(e, tuple) or not e or e[0] in ("s", "i", "f"):
            return
        if e[0] == "&":
            if e[1][0] in ("m", "x", "*"):
                self.reads(n, e[1][1], fn, ps, True) if e[1][0] == "m" else self.reads(n, e[1][1], fn, ps)
            return
        if e[0] == "F":
            return
        if e[0] in ("m", "*", "x") or (e[0] == "v" and self.site is None):
            o = self.loc(e, fn, ps)
            if o is not None:
                nm = self.lay.at(o)
                if not addr and nm and nm not in ps[1] and self.lay.rec != COMPILER:
                    self.res.add("%s:read:%s" % (self.key, nm), "%s reads %s of %s before it is set" % (fn.name, nm, self.what), fn.where(n.line))
                return
        if e[0] == "m":
            self.reads(n, e[1], fn, ps, addr)
            return
        for y in e[1:]:
            if isinstance(y, tuple):
                for z in (y if y and isinstance(y[0], tuple) else (y,)):
                    self.reads(n, z, fn, ps)

    # ---- hooks (only paths on which no error is recorded)
    def entry_env(self, fn, ps):
        return {("F", "error"): ZERO}

    def ps_facts(self, ps):
        return {("F", "error"): ZERO}

    def mem_facts(self, an, env):
        return [(("F", "error"), ZERO)]

    def param_facts(self, an, fn, callee, args, env):
        return Client.param_facts(self, an, fn, callee, args, env) + \
            [(("v", p), (1, None, frozenset())) for p, a in zip(callee.params, args) if strip(a)[0] == "&"]

    def result(self, name):
        return ZERO if name in self.codes else TOP

    def on_set(self, an, fn, n, ps, env):
        if n.a == ("F", "error") and not contains(ev(n.b, env), 0):
            return None
        if ps == ():
            return ps
        self.reads(n, n.b, fn, ps)
        al, asg, esc, lk = ps
        o = self.loc(n.a, fn, ps)
        if n.a[0] != "v" and o is None and n.a[0] == "m":
            pass
        src = self.ptr(n.b, fn, ps)
        if n.a[0] == "v" and not n.a[1].startswith("::"):
            al = frozenset(x for x in al if (x[0], x[1]) != (fn.name, n.a[1]))
            if src is not None:
                al |= {(fn.name, n.a[1], src)}
            if self.site is None and fn is self.root and n.a == self.var:
                asg = asg | {l[2] for l in self.lay.leaves}
        elif src is not None and o is None:
            esc = True
            if n.a[0] == "F":
                if n.a[1].startswith("last_"):
                    lk = lk | {"last"}
                else:
                    lk = lk | {"chain"}
            elif n.a[0] == "m" and n.a[2] == "next" and n.a[1][0] == "*" and strip(n.a[1][1])[0] == "F" and strip(n.a[1][1])[1].startswith("last_"):
                lk = lk | {"chain"}
                if "last" in lk:
                    lk = lk | {"self"}
            elif n.a[0] == "m" and n.a[2] == "next":
                lk = lk | {"next"}
        if o is not None and not (n.a[0] == "v"):
            nm = self.lay.at(o)
            if nm:
                asg = asg | {nm}
        return (al, asg, esc, lk)

    def on_edge(self, an, fn, n, ps, env, edge, env2):
        if ps != ():
            self.reads(n, n.a, fn, ps)
        return ps

    def on_call(self, an, fn, n, ps, env):
        if self.site is not None and fn is self.root and n.id == self.site:
            # failed, or the object
            a = [(ps, ZERO, None)] if self.fail else []
            return a + [((frozenset({(fn.name, n.a, 0)}), frozenset(), False, frozenset()), (1, None, frozenset()), None)]
        if ps == ():
            if isinstance(n.b, str) and n.b in self.u.funcs:
                return [(ps, self.result(n.b), None)]
            return None
        for a in n.c:
            self.reads(n, a, fn, ps)
        al, asg, esc, lk = ps
        pa = [(i, self.ptr(a, fn, ps)) for i, a in enumerate(n.c)]
        pa = [(i, o) for i, o in pa if o is not None]
        if isinstance(n.b, str) and n.b in ("memset", "memcpy", "memmove", "__builtin_memset", "__builtin_memcpy", "vp_zero") and pa and pa[0][0] == 0:
            sz = ev(n.c[-1], env)
            if isconst(sz):
                o = pa[0][1]
                asg = asg | {nm for a, b, nm in self.lay.leaves if o <= a and b <= o + sz[0]}
            return [((al, asg, esc, lk), TOP, None)]
        if isinstance(n.b, str) and n.b in self.u.funcs:
            if not pa:
                return [(ps, self.result(n.b), None)]
            return None
        if pa and not (isinstance(n.b, str) and n.b.startswith("vp_")):
            # handed to something outside of the library, which fills it
            asg = asg | {l[2] for l in self.lay.leaves}
            return [((al, asg, esc, lk), TOP, None)]
        return [(ps, TOP, None)]

    def call_ps(self, an, fn, n, ps, env):
        if ps == ():
            return ps
        g = self.u.funcs[n.b]
        al = set(ps[0])
        for p, a in zip(g.params, n.c):
            o = self.ptr(a, fn, ps)
            if o is not None:
                al.add((g.name, p, o))
        return (frozenset(al),) + ps[1:]

    def ret_ps(self, an, fn, n, ps, p2, env):
        if p2 == ():
            return p2
        al = set(p2[0])
        rv = [x for x in al if x[1] == "%ret"]
        al = {x for x in al if x[0] == fn.name}
        for f, v, o in rv:
            if n.a:
                al.add((fn.name, n.a, o))
        return (frozenset(al),) + p2[1:]

    def on_ret(self, an, fn, n, ps, env):
        if ps == ():
            return ps
        if n.a is not None:
            self.reads(n, n.a, fn, ps)
        al, asg, esc, lk = ps
        o = self.ptr(n.a, fn, ps) if n.a is not None else None
        if fn is not self.root:
            if o is not None:
                al = al | {(fn.name, "%ret", o)}
            return (al, asg, esc, lk)
        self.final(fn, n, ps, env, o)
        return ps

    def final(self, fn, n, ps, env, o):
        al, asg, esc, lk = ps
        if self.site is None:
            return
        e = n.a
        if e is not None:
            v = ev(e, env)
            ptr = "*" in (fn.ret or "")
            if ptr and v == ZERO:
                return
            if not ptr and fn.ret != "void" and not contains(v, 0):
                return
        if o is not None:
            esc = True
        if not esc:
            if self.want_link:
                self.res.add(self.key + ":lost", "%s can succeed without linking %s into the list of the compiler" % (fn.name, self.what), fn.where(n.line))
            return
        self.ends += 1
        miss = [nm for _, _, nm in self.lay.leaves if nm not in asg]
        for nm in miss:
            self.res.add("%s:unset:%s" % (self.key, nm), "%s can succeed without setting %s of %s" % (fn.name, nm, self.what), fn.where(n.line))
        if self.want_link:
            if "self" in lk:
                self.res.add(self.key + ":self", "%s links %s behind itself" % (fn.name, self.what), fn.where(n.line))
            if not ({"last", "chain"} <= lk or self.loop and lk & {"next", "chain"}):
                self.res.add(self.key + ":link", "%s can succeed without linking %s into its list (%s)" % (fn.name, self.what, " and ".join(sorted({"last", "chain"} - lk))), fn.where(n.line))


def alloc_sites(u):
    for f in u.funcs.values():
        for n in f.cfg.nodes:
            if n.k == "call" and isinstance(n.b, str) and n.b in ALLOC and n.a:
                # the variable which receives the pointer
                for m in f.cfg.nodes:
                    if m.k == "set" and m.a[0] == "v" and strip(m.b) == ("v", n.a):
                        ty = f.type_of(m.a[1]) or ""
                        if ty.startswith("struct ") and ty.endswith(" *"):
                            yield f, n, ty[7:-2].strip()


def by_size(u, rec, size):
    """the record allocated through a pointer to its first member"""
    if u.records[rec]["size"] == size or rec == "sljit_memory_fragment":
        return rec
    for r, d in u.records.items():
        if d["size"] == size and d["fields"] and d["fields"][0][1] == "struct " + rec:
            return r
    return rec


def cyclic(cfg, i):
    st, seen = [t for t, _ in cfg.nodes[i].succ], set()
    while st:
        x = st.pop()
        if x == i:
            return True
        if x not in seen:
            seen.add(x)
            st.extend(t for t, _ in cfg.nodes[x].succ)
    return False


def error_codes(u):
    """functions which return zero exactly if they have recorded no error (all they return is the recorded error,
    zero, an error constant or the result of such a function)"""
    r = {f.name for f in u.funcs.values() if f.ret == "int"}
    while True:
        bad = set()
        for name in r:
            f = u.funcs[name]
            tmp = {n.a: n.b for n in f.cfg.nodes if n.k == "call" and n.a}
            sets = {}
            for n in f.cfg.nodes:
                if n.k == "set" and n.a[0] == "v":
                    sets.setdefault(n.a[1], []).append(strip(n.b))

            def good(e, d=0):
                """True: an error code; None: a constant"""
                e = strip(e)
                if e == ("F", "error"):
                    return True
                if e[0] == "i" and 0 <= e[1] <= 8:
                    return None
                if e[0] == "?":
                    a, b = good(e[2], d + 1), good(e[3], d + 1)
                    return False if a is False or b is False else a or b
                if e[0] == "v" and e[1] in tmp:
                    return tmp[e[1]] in r
                if e[0] == "v" and e[1] in sets and e[1] not in f.params and d < 4:
                    l = [good(x, d + 1) for x in sets[e[1]]]
                    return False if False in l else (True if True in l else None)
                return False
            l = [good(n.a) for n in f.cfg.nodes if n.k == "ret" and n.a is not None]
            if False in l or True not in l:
                bad.add(name)
        if not bad:
            return r
        r -= bad


def unit(u, res):
    codes = error_codes(u)
    written = must_write(u)
    # (1) locals
    for f in u.funcs.values():
        c, structs = candidates(f, written)
        res.count("functions")
        res.count("locals", len([v for v in f.ltypes if not v.startswith("%")]))
        for v in sorted(c):
            t = f.ltypes[v[1]]
            if v in structs:
                rec = t.replace("struct ", "").replace("union ", "").strip()
                if rec not in u.records:
                    continue
                lay = Layout(u, rec)
            else:
                lay = Layout.__new__(Layout)
                lay.u, lay.rec, lay.size, lay.leaves = u, "", 8, [(0, 64, "the value")]
            cl = Rec(u, res, f, None, lay, False, "%s:%s" % (f.name, v[1]), "the local variable %s of %s" % (v[1], f.name), codes)
            cl.var = v
            an = Analysis(u, cl)
            an.run(f.name, (frozenset(), frozenset(), False, frozenset()))
            res.note("path_sensitive_locals", "%s.%s" % (f.name, v[1]))
    # (2) records
    for f, n, rec in alloc_sites(u):
        if rec not in u.records or rec.startswith("sljit_serialized"):
            continue
        size = n.c[ALLOC[n.b]]
        sz = ev(size, {})
        r2 = by_size(u, rec, sz[0]) if isconst(sz) else rec
        lay = Layout(u, r2)
        if isconst(sz) and rec != "sljit_memory_fragment" and sz[0] < lay.size:
            res.add("%s:size:%s" % (f.name, rec), "%s allocates %d bytes for a struct %s of %d" % (f.name, sz[0], rec, lay.size), f.where(n.line))
        first = r2
        while first not in LISTS and u.records.get(first) and u.records[first]["fields"] and u.records[first]["fields"][0][1].startswith("struct ") \
                and not u.records[first]["fields"][0][1].endswith("*"):
            first = u.records[first]["fields"][0][1][7:]
        cl = Rec(u, res, f, n.id, lay, first in LISTS, "%s:%s" % (f.name, r2), "the new struct %s" % r2, codes, cyclic(f.cfg, n.id))
        cl.fail = True
        cl.var = None
        an = Analysis(u, cl)
        an.run(f.name, ())
        res.count("records")
        res.note("record_sites", f.where(n.line))
        if not cl.ends:
            res.note("record_sites_without_success", "%s %s" % (f.where(n.line), r2))


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("rel", "dbg")))
    return ck.finish(rs, "definite initialisation", {"records": 150, "locals": 5000, "record_sites": 60})
