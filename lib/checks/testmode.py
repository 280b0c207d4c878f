"""C10: support queries are pure and their answer agrees with the real call."""
from flow import *
from common import *
import base
from checks.errors import SCRATCH, ERR

QUERIES = (("_update", "SLJIT_MEM_SUPP"), ("sljit_emit_simd_", "SLJIT_SIMD_TEST"), ("sljit_emit_atomic_", "SLJIT_ATOMIC_TEST"))


CPU = ("getauxval", "sysctlbyname", "elf_aux_info", "syscall", "__get_cpuid", "__get_cpuid_count")


class Query(Client):
    """ps: 0 = same path as the other variant of the call, 1 = after the two variants part, 2 = has emitted"""
    max_ctx = 200

    def __init__(self, res, entry, bit, test):
        self.res, self.entry, self.bit, self.test = res, entry, bit, test
        self.split = 0

    def param_facts(self, an, fn, callee, args, env):
        return Client.param_facts(self, an, fn, callee, args, env) + self.param_bits(callee, args, env, self.bit)

    def mem_facts(self, an, env):
        return [(k, v) for k, v in env.items() if k == ERR]

    def effect(self, fn, n, what):
        self.res.add("%s:%s:effect" % (self.entry, fn.name),
                     "%s used as a support query has an effect: %s in %s" % (self.entry, what, fn.name), fn.where(n.line))

    def on_set(self, an, fn, n, ps, env):
        if is_local_store(fn, n.a):
            return ps
        p = root(n.a)
        if p[0] == "F" and p[1] in SCRATCH:
            return ps
        if p[0] == "v" and p[1].startswith("::"):
            return ps           # lazily detected CPU features
        if p == ERR and ev(n.b, env) == const(5):
            return []           # argument check failed
        if self.test:
            self.effect(fn, n, "store to " + show(n.a))
            return []
        return 2

    def on_call(self, an, fn, n, ps, env):
        if isinstance(n.b, str) and (n.b in an.unit.funcs or n.b in PURE or n.b in IO or n.b in CPU or n.b.startswith("__builtin") or n.b == "vp_unreachable"):
            return None
        if self.test:
            self.effect(fn, n, "call of " + (n.b if isinstance(n.b, str) else "a function pointer"))
            return []
        return [(2, TOP, None)]

    def on_edge(self, an, fn, n, ps, env, edge, env2):
        if ps or n.k != "br" or truth(ev(n.a, env)) is None:
            return ps
        # would the outcome be open without knowing the query bit?
        e2 = {}
        for k, v in env.items():
            if k[0] == "K" and (v[0] | v[1]) & self.bit:
                v = (v[0] & ~self.bit, v[1] & ~self.bit)
            elif k[0] == "b" and k[1] == "&" and k[3][0] == "i" and k[3][1] & self.bit:
                continue
            elif k[0] == "v" and isconst(v) is False:
                v = (v[0], v[1], v[2] - {0})
            e2[k] = v
        if truth(ev(n.a, e2)) is None:
            self.split += 1
            return 1
        return ps


def unit(u, res):
    for name, fn in sorted(compiler_api(u).items()):
        for pat, flag in QUERIES:
            if (name.startswith(pat) or name.endswith(pat)) and len(fn.params) > 1:
                bit = u.k(flag)
                break
        else:
            continue
        p = ("v", fn.params[1])
        res.note("functions", name)
        # with verbose output the real call asks the query itself: compare the two without it
        for test in ((True, False) if u.cfg.mode == "rel" else (True,)):
            cl = Query(res, name, bit, test)
            an = Analysis(u, cl)
            out = an.run(name, 0, [(ERR, ZERO), (("K", p), (0, bit) if test else (bit, 0))])
            res.count("runs")
            if test:
                res.count("decided_queries", 1 if cl.split else 0)
                for ps, rv in out if u.cfg.mode == "rel" else ():
                    if ps == 1 and rv != ZERO:
                        res.add("%s:test" % name, "%s with %s: the query can return something else than success where the real call would go on" % (name, flag), fn.where())
                    if not isconst(rv) or rv[0] not in (0, 4):
                        res.add("%s:testret" % name, "%s with %s can return something else than success or SLJIT_ERR_UNSUPPORTED" % (name, flag), fn.where())
            else:
                for ps, rv in out:
                    if rv == const(4) and ps:
                        res.add("%s:real" % name, "%s can return SLJIT_ERR_UNSUPPORTED %s" % (
                            name, "after emitting instructions" if ps == 2 else "although the query with the same arguments (%s) returns success" % flag), fn.where())


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("rel", "dbg")))
    return ck.finish(rs, "support queries", {"runs": 200, "decided_queries": 60})
