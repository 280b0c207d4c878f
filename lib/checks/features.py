"""C16: values cached from the system (CPU features, page size) are determined before they are used."""
from flow import *
from common import *
import base
from checks.shared import gname, node_reads, reads_of


def caches(u):
    """mutable scalar objects with static storage that some function of the library fills in, with their initial value"""
    r = {}
    for name, g in u.globals.items():
        if g["const"] or name.startswith("::vp_") or "mutex" in g["type"] or g["len"] >= 0:
            continue
        w = [n for f in u.funcs.values() for n in f.cfg.nodes if n.k == "set" and n.a == ("v", name)]
        if not w:
            continue
        # bookkeeping that starts out valid is no cache: a cache is only ever filled, never updated
        if any(("v", name) in mention(n.b) for n in w) or "free_block" in g["type"]:
            continue
        i = g.get("init")
        v = 0
        if i:
            v = i[1] if i[0] == "i" else (-i[2][1] if i[0] == "u" and i[1] == "-" and i[2][0] == "i" else None)
        if v is not None:
            r[name] = v
    return r


def mention(e):
    out = set()

    def go(x):
        if isinstance(x, tuple) and x:
            if x[0] == "v":
                out.add(x)
            elif x[0] not in ("s", "i", "f", "F"):
                for y in x[1:]:
                    go(y)
    go(e)
    return out


def tests(e, g):
    """the only use of g in the condition e is the comparison with a constant that tells whether it is set"""
    if not isinstance(e, tuple) or not e:
        return True
    if e == g:
        return True     # truth value
    if e[0] == "u" and e[1] == "!":
        return tests(e[2], g)
    if e[0] == "t":
        return tests(e[2], g)
    if e[0] == "b" and e[1] in CMP:
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            while x[0] == "t":
                x = x[2]
            if x == g and isconst(ev(y, {})):
                return True
    return g not in mention(e)


class Feat(Client):
    """ps: caches known to be filled"""

    def __init__(self, res, u, entry, cs, flags, touch):
        self.res, self.u, self.entry, self.cs, self.flags, self.touch = res, u, entry, cs, flags, touch

    def skip_call(self, name):
        return name not in self.touch

    def mem_facts(self, an, env):
        return [(k, v) for k, v in env.items() if k[0] == "v" and k[1] in self.cs]

    def use(self, fn, n, ps, skip=()):
        for g in node_reads(n):
            if g in self.cs:
                if n.k == "br" and tests(n.a, ("v", g)):
                    continue
                self.res.note("uses", fn.where(n.line))
                if g not in ps and self.entry:
                    self.res.add("%s:%s" % (self.entry, g.lstrip(":")), "%s may use %s (in %s) before it was determined" % (self.entry, g.lstrip(":"), fn.name), fn.where(n.line))

    def on_set(self, an, fn, n, ps, env):
        self.use(fn, n, ps)
        if n.a[0] == "v" and n.a[1] in self.cs:
            g = n.a[1]
            if n.b[0] == "i" and self.flags is not None:
                self.flags.setdefault(g, []).append(ps)
            return ps | {g}
        return ps

    def on_call(self, an, fn, n, ps, env):
        self.use(fn, n, ps)
        return None

    def on_ret(self, an, fn, n, ps, env):
        self.use(fn, n, ps)
        return ps

    def on_edge(self, an, fn, n, ps, env, edge, env2):
        self.use(fn, n, ps)
        for g in mention(n.a):
            g = g[1]
            if g in self.cs and g not in ps and not contains(ev(("v", g), env2), self.cs[g]):
                ps = ps | {g} | self.implied.get(g, frozenset())
        return ps

    implied = {}
    lenient = {}

    def ret_ps(self, an, fn, n, ps_before, ps_after, env):
        return ps_after | self.lenient.get(n.b, frozenset())


def optional(u, cs):
    """{function: caches} for caches whose initial value is itself a valid answer ("none"): nobody tests them to decide
    whether they must be determined, so a call of the function that determines them is what counts"""
    calls = {f.name: {n.b for n in f.cfg.nodes if n.k == "call" and isinstance(n.b, str)} for f in u.funcs.values()}
    r = {}
    for g in cs:
        direct = {f.name for f in u.funcs.values() for n in f.cfg.nodes if n.k == "set" and n.a == ("v", g)}
        det = set(direct)
        while True:
            more = {f for f in calls if calls[f] & det} - det
            if not more:
                break
            det |= more
        if any(n.k == "br" and ("v", g) in mention(n.a) and tests(n.a, ("v", g)) and f.name not in direct
               and calls[f.name] & det for f in u.funcs.values() for n in f.cfg.nodes):
            continue
        if any(n.k == "br" and ("v", g) in mention(n.a) and f.name in direct for f in u.funcs.values() for n in f.cfg.nodes):
            continue
        for d in direct:
            if not u.funcs[d].params:
                r[d] = r.get(d, frozenset()) | {g}
    return r


def touching(u, cs):
    t, calls = set(), {}
    for f in u.funcs.values():
        calls[f.name] = set()
        for n in f.cfg.nodes:
            if n.k == "call" and isinstance(n.b, str):
                calls[f.name].add(n.b)
            r = set(node_reads(n))
            if n.k == "set":
                r.add(gname(n.a))
            if r & set(cs):
                t.add(f.name)
    ch = True
    while ch:
        ch = False
        for f in calls:
            if f not in t and calls[f] & t:
                t.add(f)
                ch = True
    return t


def unit(u, res):
    cs = caches(u)
    if not cs:
        return
    for g in cs:
        res.note("caches", u.cfg.arch + ":" + g.lstrip(":"))
    touch = touching(u, cs)
    fns = api(u)
    # what stands behind a mere "done" flag, and what every compiler object implies
    flags = {}
    Feat.lenient = optional(u, cs)
    cl = Feat(res, u, None, cs, flags, touch)
    an = Analysis(u, cl)
    base.need("sljit_create_compiler" in fns, "sljit_create_compiler not found")
    init = [(("v", g), const(v)) for g, v in cs.items()]
    out = an.run("sljit_create_compiler", frozenset(), init)
    implied = {g: frozenset.intersection(*l) for g, l in flags.items()}
    live = [ps for ps, rv in out if rv != ZERO]
    have = frozenset.intersection(*live) if live else frozenset()
    for g in have:
        res.note("set_by_create", u.cfg.arch + ":" + g.lstrip(":"))
    for name in sorted(fns):
        if name not in touch:
            continue
        fn = fns[name]
        comp = fn.params and fn.ptypes[fn.params[0]] == "struct sljit_compiler *"
        cl = Feat(res, u, name, cs, None, touch)
        cl.implied = implied
        an = Analysis(u, cl)
        an.run(name, have if comp else frozenset())
        res.count("functions")
        res.count("steps", an.steps)


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("rel",)))
    return ck.finish(rs, "determined before use", {"functions": 50, "uses": 20})
