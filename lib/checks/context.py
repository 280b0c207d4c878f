"""C11: sljit_set_context establishes the same function context as sljit_emit_enter."""
import base
from common import *
from values import *


def direct(u):
    w, calls = {}, {}
    for f in u.funcs.values():
        w[f.name], calls[f.name] = set(), set()
        for n in f.cfg.nodes:
            if n.k == "set":
                r = root(n.a)
                if r[0] == "F":
                    w[f.name].add(r[1])
            elif n.k == "call" and isinstance(n.b, str):
                calls[f.name].add(n.b)
    return w, calls


def effects(u):
    w, calls = direct(u)
    r = {f: set(s) for f, s in w.items()}
    ch = True
    while ch:
        ch = False
        for f in r:
            for g in calls[f]:
                if g in r and not r[g] <= r[f]:
                    r[f] |= r[g]
                    ch = True
    return r


# what a context is set up by, and what starts or restores a whole compiler
SETUP = ("sljit_emit_enter", "sljit_set_context")
OTHER = ("sljit_create_compiler", "sljit_deserialize_compiler")


def consistent(a, b):
    return all(b.get(k, v) == v for k, v in a.items())


def unit(u, res):
    eff = effects(u)
    fs = [u.funcs.get(s) for s in SETUP]
    base.need(all(fs), "sljit_emit_enter or sljit_set_context not found")
    everyday = set()
    for name in api(u):
        if name not in SETUP + OTHER:
            everyday |= eff[name]
    ctx = sorted((eff[SETUP[0]] | eff[SETUP[1]]) - everyday)
    for f in ctx:
        res.note("members", f)
    if u.cfg.mode == "dbg":
        checks(u, eff, res)
    args = [a for a in fs[0].params if a in fs[1].params]
    for m in ctx:
        vals = []
        for fn in fs:
            ev = Evaluator(u, eff)
            env = {("v", a): lin(("P", a)) for a in fn.params}
            got = []
            try:
                runs = ev.run(fn, {("F", m)}, Path(env, {}))
            except Opaque as e:
                res.note("not_numbered", "%s %s: %s" % (fn.name, m, e))
                vals = None
                break
            for p, _ in runs:
                got.append((p.env.get(("F", m)), p.lits))
            res.count("values", len(got))
            vals.append(got)
            missing = [l for v, l in got if v is None]
            if missing:
                cond = " and ".join(sorted("%s%s" % ("" if pol else "not ", pretty(a)) for a, pol in missing[0].items())) or "always"
                res.add("%s:%s" % (fn.name, m), "%s leaves the value an earlier function had in compiler->%s (%s)" % (fn.name, m, cond[:160]),
                        fn.where())
        if vals is None:
            continue
        res.count("comparisons")
        if any(v is None for g in vals for v, l in g):
            continue
        enter, ctxv = vals
        # the loops and temporaries of the two functions may be written differently: a value is
        # compared where both are functions of the arguments alone
        done = False
        for v, l in ctxv:
            for w, k in enter:
                if not consistent(l, k):
                    continue
                both = dict(l)
                both.update(k)
                if feasible(both) is False:
                    continue
                if same(v, w, both):
                    res.count("equal")
                    continue
                if not done:
                    done = True
                    cond = " and ".join(sorted("%s%s" % ("" if pol else "not ", pretty(a)) for a, pol in both.items())) or "always"
                    res.add("value:%s" % m, "sljit_set_context sets compiler->%s to %s, but for the same arguments sljit_emit_enter sets it to %s (%s)" % (
                        m, pretty(v)[:200], pretty(w)[:200], cond[:200]), fs[1].where())


def accepted(u, eff, name):
    """conditions under which the argument check of a function passes: set of conjunctions"""
    fn = u.funcs.get(name)
    if not fn:
        return None, None
    ev = Evaluator(u, eff)
    ev.asserted = name
    env = {("v", a): lin(("P", a)) for a in fn.params}
    # functions used by the check are opaque, but they get the same arguments
    r = set()
    for p, v in ev.run(fn, {("v", "%ret")}, Path(env, {})):
        if v is None or v == lin_const(0):
            r.add(frozenset(p.lits.items()))
    return fn, r


def checks(u, eff, res):
    try:
        fe, a = accepted(u, eff, "check_sljit_emit_enter")
        fc, b = accepted(u, eff, "check_sljit_set_context")
    except Opaque as e:
        res.note("not_numbered", "argument checks: %s" % e)
        return
    if not fe or not fc:
        return
    res.count("accepted_conditions", len({x for s in a for x in s}))
    if a == b:
        return

    def only(x, y):
        z = {l for s in y for l in s}
        return sorted({"%s%s" % ("" if pol else "not ", pretty(at)) for s in x for at, pol in s if (at, pol) not in z})
    res.add("accepts", "check_sljit_set_context does not accept the same arguments as check_sljit_emit_enter (only the former requires: %s; only the latter: %s)" % (
        "; ".join(only(b, a))[:200] or "-", "; ".join(only(a, b))[:200] or "-"), fc.where())


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("rel", "dbg")))
    return ck.finish(rs, "value numbering", {"comparisons": 120, "equal": 120})
