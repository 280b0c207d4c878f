"""C14: argument checks, assertions and verbose output only observe."""
from flow import *
from common import *
import base
from checks import testmode
from ir import show

OUT = {"printf": None, "puts": None, "putchar": None, "vprintf": None, "perror": None, "write": None, "syslog": None,
       "fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "fflush": 0, "dprintf": None,
       "__builtin_printf": None, "__builtin_puts": None, "__builtin_putchar": None, "__builtin_fprintf": 0, "__builtin_fputc": 1, "__builtin_fputs": 1}
ASSERTS = ("vp_assert", "vp_unreachable")
# the serialized form contains the values the checks need (C12)
SERIAL = ("sljit_serialize_compiler", "sljit_deserialize_compiler")


def atoms(e, out):
    """variables and compiler fields mentioned"""
    if not isinstance(e, tuple) or not e:
        return
    if e[0] in ("v", "F"):
        out.add(e)
        return
    if e[0] in ("s", "i", "f"):
        return
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    atoms(y, out)
            else:
                atoms(x, out)


def uses(n):
    s = set()
    if n.k == "set":
        atoms(n.b, s)
        if n.a[0] not in ("v", "F"):
            atoms(n.a, s)
    elif n.k == "call":
        for a in n.c:
            atoms(a, s)
        if not isinstance(n.b, str):
            atoms(n.b[1], s)
    elif n.k in ("br", "sw", "ret"):
        atoms(n.a, s)
    elif n.k == "asm":
        for x in n.b + n.c:
            atoms(x, s)
    return s


class Pair:
    """one function in the build without (R) and with (D) checks"""

    def __init__(self, r, d, ur, ud, res, core):
        self.core = core
        self.r, self.d, self.ur, self.ud, self.res = r, d, ur, ud, res
        self.gone = {f[0] for f in ud.records["sljit_compiler"]["fields"]} - {f[0] for f in ur.records["sljit_compiler"]["fields"]}
        self.sizes = set()
        for name, rec in ud.records.items():
            o = ur.records.get(name)
            if o and rec.get("size") != o.get("size"):
                self.sizes.add((o.get("size"), rec.get("size")))
        self.tmp = {}
        self.erase()

    @staticmethod
    def avars(e):
        s = set()
        atoms(e, s)
        return s

    def erase(self):
        """nodes of D which only the checks need: a local whose every use is in such a node is not needed either"""
        d = self.d
        er = set()
        self.results = set()
        for n in d.cfg.nodes:
            if n.k in ("nop", "decl"):
                er.add(n.id)
            elif n.k == "call" and isinstance(n.b, str) and (n.b in ASSERTS or (n.b in self.ud.funcs and n.b not in self.ur.funcs)):
                er.add(n.id)
                if n.a:
                    self.results.add(("v", n.a))
            elif n.k == "set" and n.a[0] == "F" and n.a[1] in self.gone:
                er.add(n.id)
            elif n.k == "set" and n.a[0] == "m" and n.b[0] == "b" and n.b[1] == "|" and n.b[2] == n.a and \
                    {x for x in self.avars(n.b[3])} and self.avars(n.b[3]) & {("v", v) for v in d.ltypes if v not in set(self.r.ltypes) | set(self.r.params)}:
                # bits that only an assertion looks at (size of a jump on x86)
                er.add(n.id)
        rl = set(self.r.ltypes) | set(self.r.params)
        self.dbgvars = {("v", v) for v in d.ltypes if v not in rl}
        def dead_d(n, needed):
            return n.k == "set" and n.a[0] == "v" and n.a not in needed and (n.a in self.dbgvars or n.a[1].startswith("%")) or self.idle(n, needed)

        def dead_r(n, needed):
            return n.k == "set" and n.a[0] == "v" and n.a not in needed and n.a[1].startswith("%") or self.idle(n, needed)
        self.er = self.grow(d.cfg, er, dead_d, True)
        self.er_r = self.grow(self.r.cfg, {n.id for n in self.r.cfg.nodes if n.k in ("nop", "decl")}, dead_r, False)

    def grow(self, cfg, er, dead, d):
        """nodes without an effect besides values which only such nodes use"""
        idle_br = set()
        while True:
            needed = set()
            for n in cfg.nodes:
                if n.id not in er and n.id not in idle_br:
                    needed |= uses(n)
            new = {n.id for n in cfg.nodes if n.id not in er and dead(n, needed)}
            er |= new
            nb = {n.id for n in cfg.nodes if n.k in ("br", "sw") and n.id not in idle_br
                  and len({self.skip0(cfg, er, t, d, {n.id}) for t, _ in n.succ}) == 1}
            idle_br |= nb
            if not new and not nb:
                return er

    def idle(self, n, needed):
        """call without effect, whose result is not needed"""
        return n.k == "call" and n.a is not None and isinstance(n.b, str) and n.b in self.ur.funcs and n.b not in self.core and ("v", n.a) not in needed

    def check_branch(self, n):
        """branch on the result of an argument check: the edge taken by valid arguments"""
        if n.k != "br":
            return None
        e, neg = n.a, False
        while True:
            if e[0] == "t":
                e = e[2]
            elif e[0] == "u" and e[1] == "!":
                neg, e = not neg, e[2]
            elif e[0] == "b" and e[1] in ("==", "!=") and e[3] == ("i", 0):
                neg, e = neg ^ (e[1] == "=="), e[2]
            else:
                break
        if e in self.results:
            return "T" if neg else "F"
        return None

    def skip(self, cfg, er, i, d):
        seen = set()
        while True:
            n = cfg.nodes[i]
            if i in seen:
                return i
            seen.add(i)
            if i in er and len(n.succ) == 1:
                i = n.succ[0][0]
                continue
            if n.k in ("br", "sw"):
                if d and n.k == "br":
                    t = self.check_branch(n)
                    if t:
                        i = [x for x, e in n.succ if e == t][0]
                        continue
                # a branch whose arms both come to the same place (only erased nodes inside)
                ts = {self.skip0(cfg, er, x, d, seen) for x, _ in n.succ}
                if len(ts) == 1:
                    i = ts.pop()
                    continue
            return i

    def skip0(self, cfg, er, i, d, seen):
        while True:
            n = cfg.nodes[i]
            if i in er and len(n.succ) == 1 and i not in seen:
                i = n.succ[0][0]
                continue
            if n.k == "br" and i not in seen:
                if d:
                    t = self.check_branch(n)
                    if t:
                        i = [x for x, e in n.succ if e == t][0]
                        continue
                ts = {self.skip0(cfg, er, x, d, seen | {i}) for x, _ in n.succ}
                if len(ts) == 1:
                    i = ts.pop()
                    continue
            return i

    def eq(self, a, b):
        if a == b and not isinstance(a, tuple):
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a and b and a[0] == "v" == b[0] and a[1].startswith("%") and b[1].startswith("%"):
                return self.tmp.setdefault(b[1], a[1]) == a[1]
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, int) and isinstance(b, int):
            return (a, b) in self.sizes
        return False

    def same(self, n, m):
        if n.k != m.k:
            return False
        if n.k == "ret":
            if self.eq(n.a, m.a):
                return True
            # the recorded error is what a call that fails returns (C02)
            return m.a == ("F", "error") and n.a is not None and n.a[0] == "v" and n.a[1].startswith("%")
        if n.k == "call":
            if not (self.eq(n.b, m.b) and self.eq(n.c, m.c)):
                return False
            return (n.a is None) == (m.a is None) and (n.a is None or self.eq(("v", n.a), ("v", m.a)))
        if n.k == "asm":
            return self.eq(n.a, m.a) and self.eq(n.b, m.b) and self.eq(n.c, m.c)
        return self.eq(n.a, m.a) and self.eq(n.b, m.b)

    def run(self):
        r, d = self.r.cfg, self.d.cfg
        st, seen, tmps = [(r.entry, d.entry)], set(), {}
        while st:
            i, j = st.pop()
            i, j = self.skip(r, self.er_r, i, False), self.skip(d, self.er, j, True)
            if (i, j) in seen:
                continue
            seen.add((i, j))
            n, m = r.nodes[i], d.nodes[j]
            if not self.same(n, m):
                return (n, m)
            if len(n.succ) != len(m.succ):
                return (n, m)
            if n.k in ("br", "sw"):
                md = {e: t for t, e in m.succ}
                for t, e in n.succ:
                    if e not in md:
                        return (n, m)
                    st.append((t, md[e]))
            else:
                for (t, _), (s, _) in zip(n.succ, m.succ):
                    st.append((t, s))
        self.res.count("node_pairs", len(seen))
        return None


def describe(f, n):
    if n.k == "call":
        return "call of %s" % (n.b if isinstance(n.b, str) else show(n.b[1]))
    if n.k == "set":
        return "%s = %s" % (show(n.a), show(n.b)[:60])
    return "%s %s" % ({"br": "test of", "sw": "switch on", "ret": "return"}.get(n.k, n.k), show(n.a)[:60] if n.a is not None else "")


def compare(ur, ud, res, core):
    for name, r in sorted(ur.funcs.items()):
        d = ud.funcs.get(name)
        if d is None:
            res.add("missing:" + name, "%s does not exist when checks are compiled in" % name, r.where())
            continue
        if name in SERIAL:
            continue
        p = Pair(r, d, ur, ud, res, core)
        res.count("compared_functions")
        x = p.run()
        if x:
            n, m = x
            res.add("differs:" + name, "%s does something else when checks, assertions or verbose output are compiled in: '%s' without (%s), '%s' with them"
                    % (name, describe(r, n), r.where(n.line), describe(d, m)), d.where(m.line))


class Obs(Client):
    """output calls: only to compiler->verbose when it is set"""
    max_ctx = 300

    def __init__(self, u, res, root, dbgonly):
        self.u, self.res, self.root, self.dbgonly = u, res, root, dbgonly

    def skip_call(self, name):
        return name not in self.dbgonly

    def mem_facts(self, an, env):
        v = env.get(("F", "verbose"))
        return [(("F", "verbose"), v)] if v is not None else []

    def on_call(self, an, fn, n, ps, env):
        if not isinstance(n.b, str) or n.b not in OUT or n.b in self.u.funcs:
            return None
        self.res.note("output_calls", fn.where(n.line))
        i = OUT[n.b]
        s = n.c[i] if i is not None and i < len(n.c) else None
        while s is not None and s[0] == "t":
            s = s[2]
        v = ev(s, env) if s is not None else None
        if s is not None and s[0] == "v":
            # a local copy of the stream
            v2 = {x.b for x in fn.cfg.nodes if x.k == "set" and x.a == s}
            if v2 and all(strip(x) == ("F", "verbose") for x in v2):
                s = ("F", "verbose")
        if s != ("F", "verbose"):
            self.res.add("stream:%s" % fn.name, "%s writes output with %s to another stream than the one given to sljit_compiler_verbose" % (fn.name, n.b), fn.where(n.line))
        elif contains(v, 0):
            self.res.add("null:%s" % fn.name, "%s writes verbose output although compiler->verbose may be NULL (called by %s)" % (fn.name, self.root), fn.where(n.line))
        return None


def strip(e):
    while e[0] == "t":
        e = e[2]
    return e


def postdom(cfg):
    """post-dominator sets (small functions only)"""
    ids = [n.id for n in cfg.nodes]
    exits = {n.id for n in cfg.nodes if not n.succ}
    pd = {i: ({i} if i in exits else set(ids)) for i in ids}
    ch = True
    while ch:
        ch = False
        for i in reversed(ids):
            if i in exits:
                continue
            s = None
            for t, _ in cfg.nodes[i].succ:
                s = set(pd[t]) if s is None else s & pd[t]
            s = (s or set()) | {i}
            if s != pd[i]:
                pd[i] = s
                ch = True
    return pd


def region(cfg, pd):
    """nodes executed or not depending on compiler->verbose, directly or through another such node"""
    reg, st = set(), []

    def add(b):
        n = cfg.nodes[b]
        for t, _ in n.succ:
            seen, w = set(), [t]
            while w:
                x = w.pop()
                if x in seen or (x in pd[b] and x != b):
                    continue
                seen.add(x)
                if x not in reg:
                    reg.add(x)
                    if cfg.nodes[x].k in ("br", "sw"):
                        st.append(x)
                w.extend(y for y, _ in cfg.nodes[x].succ)
    for n in cfg.nodes:
        if n.k == "br":
            s = set()
            atoms(n.a, s)
            if ("F", "verbose") in s:
                st.append(n.id)
    done = set()
    while st:
        b = st.pop()
        if b not in done:
            done.add(b)
            add(b)
    return reg


def dbg_only(u, ur, res, dbgonly, core):
    rec = {f[0] for f in ur.records["sljit_compiler"]["fields"]}
    outside_only = {}
    for name in sorted(dbgonly):
        f = u.funcs[name]
        cfg = f.cfg
        res.count("check_functions")
        # (a) what a check may change: the fields only the checks have
        for n in cfg.nodes:
            bad = None
            if n.k == "set":
                r = root(n.a)
                if r[0] == "F" and r[1] in rec:
                    bad = "sets compiler->%s" % r[1]
                elif r[0] == "mem":
                    bad = "stores to memory (%s)" % show(n.a)
                elif r[0] == "v" and r[1].startswith("::"):
                    bad = "sets the variable %s" % r[1][2:]
            elif n.k == "call" and isinstance(n.b, str) and n.b in ur.funcs and n.b in core and not query(u, n):
                bad = "calls %s, which changes %s" % (n.b, core[n.b])
            elif n.k == "asm":
                bad = "executes assembly"
            if bad:
                res.add("effect:%s:%s" % (name, bad), "%s is compiled in only for checks or verbose output, but %s" % (name, bad), f.where(n.line))
        # (b) nothing but output depends on compiler->verbose
        s = set()
        for n in cfg.nodes:
            s |= {x for x in uses(n) if n.k == "br"}
        if ("F", "verbose") not in s:
            continue
        res.count("verbose_guards")
        pd = postdom(cfg)
        reg = region(cfg, pd)
        used_out = set()
        for n in cfg.nodes:
            if n.id not in reg:
                used_out |= live_uses(cfg, n, reg)
        for n in cfg.nodes:
            if n.id not in reg:
                continue
            bad = None
            if n.k == "set":
                if n.a[0] == "F":
                    bad = "sets compiler->%s" % n.a[1]
                elif n.a[0] == "v" and reaches_use(cfg, n, reg):
                    bad = "sets %s, which is used afterwards," % n.a[1]
            elif n.k == "call" and isinstance(n.b, str):
                if n.b in dbgonly:
                    if writes_fields(u, n.b, dbgonly):
                        bad = "calls %s, which changes the state of the checks," % n.b
                elif n.b in ASSERTS or n.b in OUT:
                    pass
                elif n.b in core and not query(u, n):
                    bad = "calls " + n.b
            elif n.k == "ret" and n.a is not None and n.a != ("i", 0):
                bad = "returns %s" % show(n.a)
            if bad:
                res.add("verbose:%s:%s" % (name, bad), "%s %s only if verbose output is enabled" % (name, bad), f.where(n.line))


def query(u, n):
    """a support query (C10: it changes nothing)"""
    for p, q in testmode.QUERIES:
        if (p in n.b if p[0] == "_" else n.b.startswith(p)):
            k = u.k(q)
            return any(a[0] == "b" and a[1] == "|" and ("i", k) in (a[2], a[3]) for a in map(strip, n.c))
    return False


def live_uses(cfg, n, reg):
    return uses(n)


def reaches_use(cfg, n, reg):
    """the value set by n is used by a node outside of the region before being overwritten"""
    v = n.a
    st, seen = [t for t, _ in n.succ], set()
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        m = cfg.nodes[i]
        if i not in reg and v in uses(m):
            return True
        if m.k == "set" and m.a == v and i not in reg:
            continue
        st.extend(t for t, _ in m.succ)
    return False


def writes_fields(u, name, dbgonly, seen=None):
    seen = seen if seen is not None else set()
    if name in seen:
        return False
    seen.add(name)
    for n in u.funcs[name].cfg.nodes:
        if n.k == "set" and not is_local_store(u.funcs[name], n.a):
            return True
        if n.k == "call" and n.b in dbgonly and writes_fields(u, n.b, dbgonly, seen):
            return True
    return False


def changes(u, name, memo, stack=()):
    """something a function of the library (transitively) changes besides static caches, or None"""
    if name in memo:
        return memo[name]
    if name in stack:
        return None
    f = u.funcs[name]
    r = None
    for n in f.cfg.nodes:
        if n.k == "set":
            x = root(n.a)
            if x[0] == "F":
                r = "compiler->" + x[1]
            elif x[0] == "mem":
                r = show(n.a)
        elif n.k == "call" and n.b in u.funcs:
            r = changes(u, n.b, memo, stack + (name,)) or r
        if r:
            break
    memo[name] = r
    return r


def unit(u, res):
    spec = dict(arch=u.cfg.arch, mode="rel")
    ur = base.load(spec)
    base.need("sljit_compiler" in u.records and "sljit_compiler" in ur.records, "struct sljit_compiler not found")
    dbgonly = {n for n in u.funcs if n not in ur.funcs}
    core = {}
    memo = {}
    for n in ur.funcs:
        c = changes(ur, n, memo)
        if c:
            core[n] = c
    compare(ur, u, res, core)
    dbg_only(u, ur, res, dbgonly, core)
    # output
    called = set()
    for n, f in u.funcs.items():
        if n not in dbgonly:
            for x in f.cfg.nodes:
                if x.k == "call" and isinstance(x.b, str):
                    if x.b in dbgonly:
                        called.add(x.b)
                    if x.b in OUT and x.b not in u.funcs:
                        res.add("core-output:" + n, "%s writes output with %s" % (n, x.b), f.where(x.line))
    for n in sorted(called):
        an = Analysis(u, Obs(u, res, n, dbgonly))
        an.run(n, ())
        res.count("steps", an.steps)
    # the stream is what the user has set
    for n, f in u.funcs.items():
        for x in f.cfg.nodes:
            if x.k == "set" and x.a == ("F", "verbose"):
                v = strip(x.b)
                if v == ("i", 0):
                    continue
                ok = n in api(u) and v[0] == "v" and v[1] in f.const_params and "FILE" in (f.ptypes.get(v[1]) or "")
                res.note("stream_setters", n)
                if not ok:
                    res.add("setter:" + n, "%s changes the output stream to %s" % (n, show(v)), f.where(x.line))


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("dbg", "def")))
    return ck.finish(rs, "comparison of builds with and without checks, effects of the checks, streams of all output",
                     {"compared_functions": 1500, "node_pairs": 30000, "check_functions": 300, "output_calls": 60, "verbose_guards": 100, "stream_setters": 1})
