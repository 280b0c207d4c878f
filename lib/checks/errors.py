"""C01 sticky errors, C02 failure propagation: property simulation over every public function."""
from flow import *
from common import *
import base, os

ERRS = {1: "SLJIT_ERR_COMPILED", 2: "SLJIT_ERR_ALLOC_FAILED", 3: "SLJIT_ERR_EX_ALLOC_FAILED",
        4: "SLJIT_ERR_UNSUPPORTED", 5: "SLJIT_ERR_BAD_ARGUMENT"}
ERR = ("F", "error")
# documented not to be refused in the error state
EXEMPT = {
    "sljit_free_compiler": "destroys the compiler in any state",
    "sljit_compiler_verbose": "only selects the trace stream",
    "sljit_set_current_flags": "records what the caller knows about the flags, emits and returns nothing",
}
# per-call working values that every call writes before reading them (that they are is checked by C07)
SCRATCH = ("skip_checks", "mode32", "mode", "cache_arg", "cache_argw", "shift_imm", "imm")


# SLJIT_SIMD_TEST, SLJIT_MEM_SUPP, SLJIT_ATOMIC_TEST
TEST_BITS = set()


class ErrClient(Client):
    def __init__(self, res, mode, entry):
        self.res, self.mode, self.entry = res, mode, entry
        self.bits = None

    def mem_facts(self, an, env):
        return [(k, v) for k, v in env.items() if k == ERR]

    def param_facts(self, an, fn, callee, args, env):
        # flags that select "test only" behaviour decide whether a call may emit at all
        return self.param_bits(callee, args, env, sum(TEST_BITS), True)


class Sticky(ErrClient):
    """runs with the error field equal to one of the error codes"""

    def effect(self, fn, n, what):
        self.res.add("%s:%s:effect" % (self.entry, fn.name),
                     "%s has an effect although the compiler already holds an error: %s in %s" % (self.entry, what, fn.name),
                     fn.where(n.line))

    def on_set(self, an, fn, n, ps, env):
        if not is_local_store(fn, n.a):
            p = root(n.a)
            if p[0] == "F" and p[1] in SCRATCH:
                return ps
            if p == ERR and ev(n.b, env) == env.get(ERR):
                return ps
            if n.a[0] == "*" and n.a[1][0] == "v" and n.a[1][1] in fn.params and fn.name == self.entry and ev(n.b, env) == ZERO:
                return ps       # "nothing produced" reported through an output parameter
            self.effect(fn, n, "store to " + show(n.a))
        return ps

    def on_call(self, an, fn, n, ps, env):
        if isinstance(n.b, str):
            if n.b in an.unit.funcs or n.b in PURE or n.b in IO:
                return None
            if n.b.startswith("__builtin") or n.b == "vp_unreachable":
                return None
            self.effect(fn, n, "call of " + n.b)
        else:
            self.effect(fn, n, "indirect call")
        return None


def is_ptr(fn):
    return fn.ret.endswith("*")


def sticky_unit(u, res):
    apis = compiler_api(u)
    for name, fn in sorted(apis.items()):
        if name in EXEMPT:
            continue
        res.count("functions")
        res.note("api", name)
        for code in sorted(ERRS):
            an = Analysis(u, Sticky(res, u.cfg.mode, name))
            out = an.run(name, "s", [(ERR, const(code))])
            res.count("runs")
            res.count("steps", an.steps)
            if not out:
                res.add("%s:noreturn" % name, "%s never returns in the error state" % name, fn.where())
            for ps, rv in out:
                if fn.ret == "void":
                    continue
                if is_ptr(fn):
                    if rv != ZERO:
                        res.add("%s:ret" % name, "%s can return a non-NULL value while the compiler holds %s" % (name, ERRS[code]), fn.where())
                elif rv != const(code):
                    res.add("%s:ret" % name, "%s can return something else than the recorded error while the compiler holds %s" % (name, ERRS[code]), fn.where())


def sticky(pid):
    ck = base.Check(pid)
    rs = base.run_configs(sticky_unit, base.specs(base.facts.ALL, ("rel", "dbg")))
    return ck.finish(rs, "sticky", {"functions": 100})


class Prop(ErrClient):
    """ps: (allocations that failed, value of the error field)"""

    def ps_facts(self, ps):
        return {ERR: const(ps[1])} if ps[1] >= 0 else {ERR: NZ}

    def mem_facts(self, an, env):
        return [(k, v) for k, v in env.items() if k == ERR]

    def call_ps(self, an, fn, n, ps, env):
        return (((1,) if ps[0] else ()), ps[1])

    def ret_ps(self, an, fn, n, before, ps, env):
        return ((before[0] or ((1,) if ps[0] else ())), ps[1])

    def check_deref(self, fn, n, e, ps, env):
        for p in derefs(e):
            if ps[0] and ev(p, env) == ZERO:
                self.res.add("%s:null" % fn.name, "%s dereferences the NULL pointer `%s' returned by a failed allocation" % (fn.name, show(p)), fn.where(n.line), ["reached from " + self.entry])
                return True
        return False

    def on_set(self, an, fn, n, ps, env):
        if self.check_deref(fn, n, n.a, ps, env) or self.check_deref(fn, n, n.b, ps, env):
            return []
        if not is_local_store(fn, n.a):
            p = root(n.a)
            if p == ERR:
                v = ev(n.b, env)
                if v == const(5):
                    return []       # argument check failed: outside the scope of this rule
                if ps[1] and contains(v, 0):
                    self.res.add("%s:clear" % fn.name, "the error code is overwritten with a value that may be zero in %s" % fn.name, fn.where(n.line))
                return (ps[0], v[0] if isconst(v) else -1)
        return ps

    def on_call(self, an, fn, n, ps, env):
        if any([self.check_deref(fn, n, a, ps, env) for a in n.c]):
            return []
        if ps[0] and isinstance(n.b, str) and n.b in ("memcpy", "memmove", "memset", "__builtin_memcpy"):
            for a in n.c[:2]:
                if ev(a, env) == ZERO:
                    self.res.add("%s:null" % fn.name, "%s passes the NULL pointer `%s' returned by a failed allocation to %s" % (fn.name, show(a), n.b), fn.where(n.line), ["reached from " + self.entry])
                    return []
        if n.b == "vp_malloc":
            self.res.note("alloc_sites", fn.name)
            e2 = kill(env, frozenset([("v", n.a)]))
            # failures of different sites are kept apart within the function
            return [(ps, NZ, e2), ((tuple(sorted(set(ps[0] or ()) | {n.line}))[:5], ps[1]), ZERO, e2)]
        return None


# may refuse a request without an error (documented in sljitLir.h)
NULL_OK = ("sljit_alloc_memory",)


def culprits(an, u):
    """innermost functions that swallow a failure"""
    bad = set()
    for k, v in an.memo.items():
        f = u.funcs[k[0]]
        if k[1] == ((), 0) and f.ret == "int" and any(p[1] and contains(rv, 0) for p, rv in v):
            bad.add(k[0])
    return ["failure swallowed in " + b + " (" + u.funcs[b].where() + ")" for b in sorted(bad)
            if not any(n.k == "call" and n.b in bad and n.b != b for n in u.funcs[b].cfg.nodes)]


def exit_rules(res, name, fn, out):
    ptr = is_ptr(fn)
    for (failed, err), rv in sorted(out, key=repr):
        if failed and err == 0:
            res.add("%s:lost" % name, "%s returns after a failed allocation without recording an error" % name, fn.where())
            continue
        if fn.ret == "void":
            continue
        if ptr:
            if not err and contains(rv, 0) and name not in NULL_OK:
                res.add("%s:null0" % name, "%s can return NULL without recording an error" % name, fn.where())
            if err and rv != ZERO:
                res.add("%s:ret" % name, "%s can return a non-NULL value although an error was recorded" % name, fn.where())
        elif err:
            if contains(rv, 0):
                res.add("%s:ret" % name, "%s can return SLJIT_SUCCESS although an error was recorded" % name, fn.where())
            elif isconst(rv) and err > 0 and rv[0] != err:
                res.add("%s:ret" % name, "%s returns another code (%s) than the recorded one (%s)" % (name, ERRS.get(rv[0], rv[0]), ERRS.get(err, err)), fn.where())
        elif isconst(rv) and rv[0] not in (0, 4):
            res.add("%s:ret0" % name, "%s returns an error code (%s) it does not record" % (name, ERRS.get(rv[0], rv[0])), fn.where())
        elif not isconst(rv) and not (rv[0] == 0 and rv[1] is not None and rv[1] <= 4):
            res.add("%s:ret0" % name, "%s can return a value that is no status code although nothing failed" % name, fn.where())


def prop_unit(u, res):
    apis = compiler_api(u)
    TEST_BITS.update(u.k(c) for c in ("SLJIT_MEM_SUPP", "SLJIT_SIMD_TEST", "SLJIT_ATOMIC_TEST"))
    for name, fn in sorted(apis.items()):
        if name in ("sljit_free_compiler", "sljit_generate_code", "sljit_serialize_compiler"):
            continue
        res.count("functions")
        an = Analysis(u, Prop(res, u.cfg.mode, name))
        out = an.run(name, ((), 0), [(ERR, ZERO)])
        res.count("steps", an.steps)
        k = len(res.findings)
        exit_rules(res, name, fn, out)
        for i in range(k, len(res.findings)):
            res.findings[i] = res.findings[i][:4] + (culprits(an, u),)
        if os.environ.get("VP_DUMP"):
            print(u.name, name, an.steps, sorted(out, key=repr))
    # functions creating a compiler report by returning NULL
    for name, fn in sorted(api(u).items()):
        if fn.ret == "struct sljit_compiler *":
            res.count("constructors")
            an = Analysis(u, Prop(res, u.cfg.mode, name))
            out = an.run(name, ((), 0), [])
            res.count("steps", an.steps)
            for (failed, err), rv in sorted(out, key=repr):
                if failed and rv != ZERO:
                    res.add("%s:ret" % name, "%s can return a non-NULL value after a failed allocation" % name, fn.where())
                if os.environ.get("VP_DUMP"):
                    print(u.name, name, failed, err, rv)


def propagate(pid):
    ck = base.Check(pid)
    rs = base.run_configs(prop_unit, base.specs(base.facts.ALL, ("rel","dbg")))
    return ck.finish(rs, "propagate", {"functions": 40, "constructors": 1})
