"""C09: every call is validated with its own arguments before anything else, and switching the
validation off for an internal call never affects a call of the user."""
from flow import *
from common import *
import base
from checks.errors import SCRATCH, ERR, is_ptr

SKIP = ("F", "skip_checks")
BAD = const(5)


def validators(u):
    """functions whose result makes a caller record SLJIT_ERR_BAD_ARGUMENT"""
    v = set()
    for f in u.funcs.values():
        nodes = f.cfg.nodes
        src = {}
        for n in nodes:
            if n.k == "call" and n.a and isinstance(n.b, str):
                src[n.a] = n.b
        for n in nodes:
            if n.k == "set" and n.a[0] == "v" and n.b[0] == "v" and n.b[1] in src:
                src[n.a[1]] = src[n.b[1]]
        for n in nodes:
            if n.k != "br":
                continue
            names = {src[x] for x in vars_of(n.a) if x in src}
            if not names:
                continue
            for t, e in n.succ:
                m = nodes[t]
                for _ in range(4):
                    if m.k == "set" and m.a == ERR and m.b[0] == "i" and m.b[1] == 5:
                        v |= names
                        break
                    if m.k in ("nop", "set", "decl") and len(m.succ) == 1:
                        m = nodes[m.succ[0][0]]
                    else:
                        break
    return v & set(u.funcs)


def vars_of(e):
    if not isinstance(e, tuple) or not e:
        return set()
    if e[0] == "v":
        return {e[1]}
    if e[0] in ("s", "i", "f", "F"):
        return set()
    r = set()
    for x in e[1:]:
        r |= vars_of(x)
    return r


class Args(Client):
    """ps: (validated, parameters of the entry function changed so far, error, skip_checks); -1 = not known"""
    max_ctx = 300

    def __init__(self, res, u, entry, vals):
        self.res, self.u, self.entry, self.vals = res, u, entry, vals
        self.validated, self.found = set(), []
        self.bits = sum({u.k(c) for c in ("SLJIT_MEM_SUPP", "SLJIT_SIMD_TEST", "SLJIT_ATOMIC_TEST")})

    def ps_facts(self, ps):
        return {ERR: const(ps[2]) if ps[2] >= 0 else NZ, SKIP: const(ps[3]) if ps[3] >= 0 else TOP}

    def mem_facts(self, an, env):
        return [(k, v) for k, v in env.items() if k in (ERR, SKIP)]

    def rep(self, key, msg, where):
        self.found.append(("%s:%s" % (self.entry, key), "%s %s" % (self.entry, msg), where))

    def call_ps(self, an, fn, n, ps, env):
        return (ps[0], frozenset(), ps[2], ps[3])

    def ret_ps(self, an, fn, n, before, ps, env):
        return (ps[0] or n.b in self.vals, before[1], ps[2], ps[3])

    def on_set(self, an, fn, n, ps, env):
        if fn.name == self.entry and n.a[0] == "v" and n.a[1] in fn.params and n.b != n.a:
            ps = (ps[0], ps[1] | {n.a[1]}, ps[2], ps[3])
        if is_local_store(fn, n.a):
            return ps
        p = root(n.a)
        v = ev(n.b, env)
        c = v[0] if isconst(v) else -1
        if p == ERR:
            if v == BAD and not ps[0]:
                self.rep("unasked", "refuses its arguments before validating them", fn.where(n.line))
            return (ps[0], ps[1], c, ps[3])
        if p == SKIP:
            return (ps[0], ps[1], ps[2], c)
        if fn.name in self.vals or fn.name.startswith("check_"):
            return ps
        if not ps[0] and not (p[0] == "F" and p[1] in SCRATCH) and not (p[0] == "v" and p[1].startswith("::")):
            if n.a[0] == "*" and n.a[1][0] == "v" and n.a[1][1] in fn.params and v == ZERO:
                return ps
            self.rep("early", "changes %s before its arguments are validated" % show(n.a), fn.where(n.line))
        if ps[2] == 5:
            self.rep("late", "goes on after refusing its arguments (store to %s)" % show(n.a), fn.where(n.line))
        return ps

    def param_facts(self, an, fn, callee, args, env):
        return self.param_bits(callee, args, env, self.bits, True)

    def on_call(self, an, fn, n, ps, env):
        if not isinstance(n.b, str):
            return None
        if n.b in self.vals and any(k[0] == n.b for k in an.stack):
            # the query made while printing an already accepted call: same operands, accepted again
            return [(ps, ZERO, None)]
        if n.b in self.vals and fn.name == self.entry and not ps[0]:
            self.args(fn, n, ps)
        elif n.b in ("vp_malloc", "vp_malloc_exec") and not ps[0]:
            self.rep("early", "allocates before its arguments are validated", fn.where(n.line))
        return None

    def args(self, fn, n, ps):
        have = [a[1] for a in map(strip, n.c) if a[0] == "v"]
        alias = aliases(fn)
        have = [alias.get(x, x) for x in have]
        self.validated.add(n.b)
        vp = self.u.funcs[n.b].params
        own = [p for p in fn.params if p != "exec_allocator_data"]
        for p in own:
            if p in ps[1]:
                self.rep("changed", "validates its parameter %s after changing it" % p, fn.where(n.line))
            if p not in have:
                self.rep("arg", "does not pass its parameter %s to %s" % (p, n.b), fn.where(n.line))
        order = [x for x in have if x in own]
        if order != [p for p in own if p in order] and len(order) == len(set(order)):
            self.rep("order", "passes its parameters in another order to %s" % n.b, fn.where(n.line))


def strip(a):
    while a[0] == "t":
        a = a[2]
    return a


def aliases(fn):
    r = {}
    for n in fn.cfg.nodes:
        if n.k == "set" and n.a[0] == "v" and n.a[1] not in fn.params:
            b = strip(n.b)
            x = b[1] if b[0] == "v" and b[1] in fn.const_params else None
            r[n.a[1]] = x if n.a[1] not in r else None
    return {k: v for k, v in r.items() if v}


def unit(u, res):
    vals = validators(u)
    base.need(len(vals) > 20, "argument checks not found in " + u.name)
    apis = compiler_api(u)
    called = {n.b for f in u.funcs.values() for n in f.cfg.nodes if n.k == "call" and isinstance(n.b, str)}
    for name in sorted(u.funcs):
        if name.startswith("check_sljit_") and name not in called:
            res.add("%s:unused" % name, "the argument check %s is not applied anywhere" % name, u.funcs[name].where())
    for name, fn in sorted(apis.items()):
        cl = Args(res, u, name, vals)
        an = Analysis(u, cl)
        out = an.run(name, (False, frozenset(), 0, 0), [(ERR, ZERO), (SKIP, ZERO)])
        res.count("functions")
        res.count("steps", an.steps)
        res.note("api", name)
        if cl.validated:
            res.count("validated")
            res.note("validated", name)
        for (val, ch, err, skip), rv in out:
            if cl.validated and not val:
                cl.rep("path", "can return without validating its arguments", fn.where())
            if err == 5 and fn.ret != "void":
                if is_ptr(fn) and rv != ZERO or not is_ptr(fn) and rv != BAD:
                    cl.rep("ret", "does not return SLJIT_ERR_BAD_ARGUMENT (NULL) after refusing its arguments", fn.where())
            if not err and skip:
                cl.rep("leak", "can return with the argument checks of the next call switched off", fn.where())
        for f in cl.found if cl.validated else [x for x in cl.found if x[0].endswith(":leak")]:
            res.add(*f)


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("dbg",)))
    # a function that validates its arguments on one target does so on all
    every = set().union(*[r.sets.get("validated", set()) for r in rs])
    for r in rs:
        for name in sorted((every & r.sets["api"]) - r.sets.get("validated", set())):
            r.add("%s:unchecked" % name, "%s does not validate its arguments on this target" % name, r.config)
    return ck.finish(rs, "argument checks", {"functions": 400, "validated": 300})
