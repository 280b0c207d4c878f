"""C08: [SLJIT_SP + n] operands are moved to the local area exactly once before they reach machine code."""
from flow import *
from common import *
import base

IDENT = ("t",)


def strip(e):
    while e[0] == "t":
        e = e[2]
    return e


class SpOff(Client):
    """ps: frozenset of (variable, number of adjustments) for values derived from the offset operand"""
    max_ctx = 200

    def __init__(self, res, entry, pair, off, u):
        self.res, self.entry, self.pair, self.off, self.u = res, entry, pair, off, u
        self.stores = 0

    def taint(self, e, ps, env):
        """set of adjustment counts the value of e may carry (empty: not derived from the operand)"""
        if not isinstance(e, tuple) or not e:
            return frozenset()
        k = e[0]
        if k == "v":
            return frozenset(c for v, c in ps if v == e[1])
        if k in ("i", "s", "F", "f"):
            return frozenset()
        if k == "m":
            r = e
            while r[0] == "m":
                r = r[1]
            return frozenset(c for v, c in ps if v == r[1]) if r[0] == "v" else frozenset()
        if k == "&":
            return frozenset()
        if k == "b" and e[1] in CMP or k in ("&&", "||") or (k == "u" and e[1] == "!"):
            return frozenset()
        if k == "b" and e[1] == "+":
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                v = ev(y, env)
                if isconst(v) and v[0] == self.off:
                    t = self.taint(x, ps, env)
                    if t:
                        return frozenset(min(c + 1, 3) for c in t)
        if k == "?":
            return self.taint(e[2], ps, env) | self.taint(e[3], ps, env)
        r = frozenset()
        for x in e[1:]:
            r |= self.taint(x, ps, env)
        return r

    def bad(self, fn, n, t):
        self.stores += 1
        w = sorted(t - {1})
        if w:
            self.res.add("%s:%s:%d" % (self.entry, self.pair, w[0]),
                         "%s: operand %s = [SLJIT_SP + n] reaches the generated code %s (in %s)" % (
                             self.entry, self.pair,
                             "without the offset of the local area" if w[0] == 0 else "with the offset of the local area added %d times" % w[0], fn.name),
                         fn.where(n.line))

    def on_set(self, an, fn, n, ps, env):
        t = self.taint(n.b, ps, env)
        if is_local_store(fn, n.a):
            v = root(n.a)[1]
            keep = ps
            if n.a[0] in ("v", "t"):
                keep = frozenset(x for x in ps if x[0] != v)
            return keep | frozenset((v, c) for c in t)
        if t:
            self.bad(fn, n, t)
        return ps

    def call_ps(self, an, fn, n, ps, env):
        g = an.unit.funcs[n.b]
        r = set()
        for p, a in zip(g.params, n.c):
            for c in self.taint(a, ps, env):
                r.add((p, c))
        return frozenset(r)

    def ret_ps(self, an, fn, n, before, after, env):
        r = set(before)
        if n.a:
            r = {x for x in r if x[0] != n.a}
            r |= {(n.a, c) for v, c in after if v == "%ret"}
        # values handed back through pointers to locals
        for i, a in enumerate(n.c):
            if a[0] == "&" and a[1][0] == "v":
                r |= {(a[1][1], c) for v, c in after if v == "%out"}
        return frozenset(r)

    def on_ret(self, an, fn, n, ps, env):
        if n.a is not None:
            return frozenset(("%ret", c) for c in self.taint(n.a, ps, env))
        return frozenset()

    def on_call(self, an, fn, n, ps, env):
        if isinstance(n.b, str) and n.b in an.unit.funcs:
            if not self.call_ps(an, fn, n, ps, env) and n.b not in self.keep:
                return [(ps, TOP, None)] if not n.a else None
            return None
        if n.b in ("memcpy", "memmove"):
            return None
        return None

    keep = ()


def unit(u, res):
    off = u.k("SLJIT_LOCALS_OFFSET")
    sp = u.k("SLJIT_MEM1_SP")
    if off == 0:
        return
    res.note("architectures", u.cfg.arch)
    for name, fn in sorted(compiler_api(u).items()):
        if name.endswith("_update"):
            continue            # the base register is modified: not an access to the local area
        pairs = [(p, p + "w") for p in fn.params if p + "w" in fn.params]
        if "offset" in fn.params and "dstw" in fn.params:
            pairs.append((None, "offset"))
        for p, w in pairs:
            cl = SpOff(res, name, (p or "SLJIT_SP") + "/" + w, off, u)
            an = Analysis(u, cl)
            facts = [(("F", "error"), ZERO)]
            if p:
                facts.append((("v", p), const(sp)))
            an.run(name, frozenset([(w, 0)]), facts)
            res.count("operands")
            if cl.stores:
                res.count("operands_reaching_code")
            else:
                res.note("not_stored", name + "." + w)
            res.count("steps", an.steps)


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("rel",)))
    return ck.finish(rs, "SP offset", {"operands_reaching_code": 100})
