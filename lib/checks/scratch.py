"""C07: per-call working values of the compiler are written before they are read in every call."""
from flow import *
from common import *
import base

# "Temporary fields" of struct sljit_compiler: address caches and operand size modes.
# (imm of PPC and shift_imm of ARM-32 are left out: which bits of `flags' announce that they are
# valid depends on the operation, a correlation this domain does not express.)
FIELDS = ("mode32", "mode", "cache_arg", "cache_argw")


def reads(e, out):
    if not isinstance(e, tuple) or not e:
        return
    if e[0] == "F":
        out.add(e[1])
        return
    if e[0] in ("s", "i", "v", "f"):
        return
    for x in e[1:]:
        reads(x, out)


def touching(u, fields):
    """functions that (or whose callees) read or write one of the fields"""
    t, calls = set(), {}
    for f in u.funcs.values():
        calls[f.name] = set()
        for n in f.cfg.nodes:
            s = set()
            for e in (n.a, n.b, n.c):
                if isinstance(e, tuple):
                    reads(e, s)
                    for x in e:
                        reads(x, s)
            if s & fields:
                t.add(f.name)
            if n.k == "call" and isinstance(n.b, str):
                calls[f.name].add(n.b)
    ch = True
    while ch:
        ch = False
        for f in calls:
            if f not in t and calls[f] & t:
                t.add(f)
                ch = True
    return t


class Scratch(Client):
    max_ctx = 400

    def __init__(self, res, entry, fields, touch):
        self.res, self.entry, self.fields, self.touch = res, entry, fields, touch

    def skip_call(self, name):
        return name not in self.touch

    def use(self, fn, n, e, ps):
        s = set()
        reads(e, s)
        for f in (s & self.fields) - ps:
            self.res.add("%s:%s" % (self.entry, f),
                         "%s depends on the value an earlier call left in compiler->%s: it is read in %s before this call has set it" % (self.entry, f, fn.name),
                         fn.where(n.line))

    def on_set(self, an, fn, n, ps, env):
        self.use(fn, n, n.b, ps)
        if n.a[0] == "F" and n.a[1] in self.fields:
            self.res.note("write_sites", fn.where(n.line))
            return ps | {n.a[1]}
        if n.a[0] != "F":
            self.use(fn, n, n.a, ps)
        return ps

    def on_call(self, an, fn, n, ps, env):
        for a in n.c:
            self.use(fn, n, a, ps)
        return None

    def on_ret(self, an, fn, n, ps, env):
        if n.a is not None:
            self.use(fn, n, n.a, ps)
        return ps

    def on_edge(self, an, fn, n, ps, env, edge, env2):
        self.use(fn, n, n.a, ps)
        return ps

    def param_facts(self, an, fn, callee, args, env):
        return self.param_bits(callee, args, env) + Client.param_facts(self, an, fn, callee, args, env)


def unit(u, res):
    rec = u.records.get("sljit_compiler")
    base.need(rec, "struct sljit_compiler not found")
    fields = frozenset(f[0] for f in rec["fields"]) & frozenset(FIELDS)
    if not fields:
        return
    for f in fields:
        res.note("fields", u.cfg.arch + "." + f)
    touch = touching(u, fields)
    for name in sorted(compiler_api(u)):
        if name in ("sljit_free_compiler",):
            continue
        an = Analysis(u, Scratch(res, name, fields, touch))
        an.run(name, frozenset())
        res.count("functions")
        res.count("steps", an.steps)


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("rel", "dbg")))
    return ck.finish(rs, "scratch fields", {"functions": 500})
