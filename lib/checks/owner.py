"""C03: every resource acquired on any path is released exactly once or handed over."""
from flow import *
from common import *
import base

# acquiring primitives: kind, failure value
ACQ = {"vp_malloc": ("memory", 0), "vp_malloc_exec": ("executable memory", 0), "mmap": ("mapping", -1), "open": ("descriptor", -1),
       "open64": ("descriptor", -1), "shm_open": ("descriptor", -1), "memfd_create": ("descriptor", -1), "mmap64": ("mapping", -1),
       "mkostemp": ("descriptor", -1), "mkostemp64": ("descriptor", -1), "mkstemp": ("descriptor", -1)}
REL = {"vp_free": "memory", "vp_free_exec": "executable memory", "munmap": "mapping", "close": "descriptor"}
# what the library documents as the counterpart of each call that hands a resource to the caller
PAIRS = [("sljit_create_compiler", "sljit_free_compiler"), ("sljit_allocate_stack", "sljit_free_stack"), ("sljit_generate_code", "sljit_free_code"),
         ("sljit_malloc_exec", "sljit_free_exec"), ("alloc_chunk", "free_chunk")]
GENS = 3
FAILED = "failed"


class St:
    """immutable state: objects, bindings of pointer parameters to the caller's variables, allocator data tokens"""
    __slots__ = ("objs", "bind", "tok", "h")

    def __init__(self, objs=(), bind=(), tok=()):
        self.objs, self.bind, self.tok = frozenset(objs), frozenset(bind), frozenset(tok)
        self.h = hash((self.objs, self.bind, self.tok))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.objs == o.objs and self.bind == o.bind and self.tok == o.tok

    def __repr__(self):
        return repr(sorted(self.objs, key=repr))

    def with_objs(self, objs):
        return St(objs, self.bind, self.tok)


# object: (id, kind, live?, places, null fields, allocator token)
def root(e):
    e = strip(e)
    while e[0] in ("p+", "p-"):
        e = strip(e[1])
    return e


def strip(e):
    while e[0] == "t":
        e = e[2]
    return e


class Own(Client):
    max_ctx = 200
    nullasserts = {}
    unt = {}
    acquirers = {a for a, _ in PAIRS} - {"sljit_generate_code"}

    def __init__(self, u, res, entry, touch, selfc, summ=(), chains=False, external=True):
        self.u, self.res, self.entry, self.touch, self.selfc = u, res, entry, touch, selfc
        self.summ, self.chains, self.external = summ, chains, external
        self.stored = set()      # compiler fields that get objects
        self.lists = set()
        self.nullasserts = {}
        self.unt = {}

    def skip_call(self, name):
        return name not in self.touch or name in self.selfc

    def bad(self, fn, n, key, msg):
        self.res.add("%s:%s" % (self.entry, key), msg, fn.where(n.line), ["reached from " + self.entry])

    # ---- places
    def place(self, e, fn, st):
        """trackable place of an lvalue, or None; also the object whose member it is"""
        e = strip(e)
        if e[0] == "v":
            return ("v", "" if e[1].startswith("::") else fn.name, e[1]), None
        if e[0] == "F":
            return ("F", e[1]), None
        if e[0] == "*":
            p = strip(e[1])
            if p[0] == "v":
                for f, v, pl in st.bind:
                    if f == fn.name and v == p[1]:
                        return pl, None
            o = self.resolve(p, fn, st)
            if o:
                return ("o", o, "*"), o
            return None, None
        path = []
        while e[0] == "m":
            path.append(e[2])
            e = strip(e[1])
        if path:
            if e[0] == "*":
                o = self.resolve(e[1], fn, st)
                if o:
                    return ("o", o, ".".join(reversed(path))), o
                return None, None
            if e[0] == "v":
                return ("v", "" if e[1].startswith("::") else fn.name, e[1] + "." + ".".join(reversed(path))), None
        return None, None

    def resolve(self, e, fn, st):
        """id of the object an expression points into"""
        e = strip(e)
        k = e[0]
        if k == "p+" or (k == "p-" and not self.resolve(e[2], fn, st)):
            return self.resolve(e[1], fn, st)
        if k == "b" and e[1] == "-":
            return self.resolve(e[2], fn, st) if strip(e[3])[0] == "i" else None
        if k == "b" and e[1] in ("+", "&", "|", "^"):
            return self.resolve(e[2], fn, st) or self.resolve(e[3], fn, st)
        if k == "&":
            x = e[1]
            while x[0] in ("m", "t") or (x[0] == "x" and x[4] == "a"):
                x = x[2] if x[0] == "t" else x[1]
            if x[0] in ("*",) or x[0] == "x":
                return self.resolve(x[1], fn, st)
            return None
        if k == "x" and len(e) > 4 and e[4] == "a":
            return None
        if k in ("v", "F", "m", "*"):
            p, _ = self.place(e, fn, st)
            if p:
                for o in st.objs:
                    if p in o[3]:
                        return o[0]
        return None

    def obj(self, st, i):
        for o in st.objs:
            if o[0] == i:
                return o

    def token(self, e, fn, st):
        e = strip(e)
        if e[0] == "v":
            for f, v, t in st.tok:
                if f == fn.name and v == e[1]:
                    return t
            if fn.name == self.entry and e[1] in fn.params and e[1] in fn.const_params:
                return "parameter " + e[1]
        if e[0] == "F":
            for f, v, t in st.tok:
                if f == "F" and v == e[1]:
                    return t
            return "compiler->" + e[1]
        return None

    # ---- checks
    def derefd(self, fn, n, es, st, env):
        for e in es:
            if e is None:
                continue
            for p in derefs(e):
                r = root(p)
                if r[0] in ("v", "F", "m") and ev(r, env) == ZERO:
                    self.bad(fn, n, "%s:null" % fn.name, "%s accesses memory through `%s', which is NULL here (a failed acquisition)" % (fn.name, show(r)))
                i = self.resolve(p, fn, st)
                if i and self.obj(st, i)[1] == FAILED:
                    self.bad(fn, n, "%s:null" % fn.name, "%s accesses memory through `%s' after its acquisition failed" % (fn.name, show(r)))
                elif i and not self.obj(st, i)[2]:
                    self.bad(fn, n, "%s:freed" % fn.name, "%s uses %s it already released (`%s')" % (fn.name, self.obj(st, i)[1], show(p)))
            if self.compobj(st) is False and self.reads_f(e):
                self.bad(fn, n, "%s:freed" % fn.name, "%s uses the compiler object it already released" % fn.name)

    def reads_f(self, e):
        if not isinstance(e, tuple) or not e:
            return False
        if e[0] == "F":
            return True
        if e[0] in ("s", "i", "f"):
            return False
        return any(self.reads_f(x) for x in e[1:])

    def compobj(self, st):
        """None: the compiler is not an object of this call; else whether it is live"""
        for o in st.objs:
            if o[6]:
                return o[2]
        return None

    def drop(self, fn, n, st, places, why):
        """places disappear"""
        objs, lost = set(), []
        for o in st.objs:
            pl = o[3] - places
            if pl != o[3]:
                if not pl:
                    if o[2]:
                        lost.append(o)
                    continue
                o = o[:3] + (pl,) + o[4:]
            objs.add(o)
        for o in lost:
            self.bad(fn, n, "%s:leak" % o[0][0], "%s can lose the %s acquired in %s without releasing it (%s)" % (fn.name, o[1], o[0][0], why))
        st = st.with_objs(objs)
        for o in lost:
            st = self.dead(fn, n, st, o, why)
        return st

    def dead(self, fn, n, st, o, why):
        """everything reachable only through o is gone, too"""
        pl = {p for x in st.objs for p in x[3] if p[0] == "o" and p[1] == o[0]}
        if o[6]:
            pl |= {p for x in st.objs for p in x[3] if p[0] == "F"}
        if any(f.startswith("+") for f in o[4]):
            self.bad(fn, n, "%s:list" % fn.name, "%s can lose the rest of a list of %s (%s)" % (fn.name, o[1], why))
        return self.drop(fn, n, st, frozenset(pl), why) if pl else st

    def untested(self, name):
        """parameters a function accesses memory through without testing them first"""
        r = self.unt.get(name)
        if r is not None:
            return r
        g, r = self.u.funcs[name], set()
        for p in g.params:
            if not g.ptypes.get(p, "").endswith("*") or p not in g.const_params:
                continue
            seen, todo = set(), [g.cfg.entry]
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                m = g.cfg.nodes[i]
                es = [m.a, m.b] if m.k == "set" else (list(m.c) if m.k == "call" else [m.a])
                if any(root(x) == ("v", p) for e in es if isinstance(e, tuple) and e for x in derefs(e)):
                    r.add(p)
                    break
                if m.k in ("br", "sw") and ("v", p) in mentions(m.a):
                    continue
                todo += [t for t, _ in m.succ]
        self.unt[name] = r
        return r

    # ---- hooks
    def on_set(self, an, fn, n, ps, env):
        st = ps
        self.derefd(fn, n, (n.b,) + ((n.a,) if n.a[0] not in ("v", "F") else ()), st, env)
        p, within = self.place(n.a, fn, st)
        i = self.resolve(n.b, fn, st)
        t = self.token(n.b, fn, st)
        outs = [st]
        if p is None:
            if i:
                # handed over to memory we know nothing about (the caller's)
                o = self.obj(st, i)
                outs = [self.fold(st.with_objs((st.objs - {o}) | {o[:3] + (o[3] | {("out",)},) + o[4:]}))]
            return outs
        zero = ev(n.b, env) == ZERO
        # loading the next element of an owned list
        if i is None and self.chains and not zero:
            src = strip(n.b)
            sp, so = self.place(src, fn, st) if src[0] == "m" else (None, None)
            if so and self.obj(st, so)[2] and src[2] in self.listfields and sp[2] not in self.obj(st, so)[4]:
                outs = []
                f = sp[2]
                deep = [o for o in st.objs if ("o", so, f + "+") in o[3]]
                for d in deep:
                    # the next element may be one a variable already refers to
                    objs = {o[:3] + (frozenset(("o", d[0], f + "+") if q == ("o", so, f + "+") else q for q in o[3]),) + o[4:] for o in st.objs if o is not d}
                    objs.add(d[:3] + (d[3] - {("o", so, f + "+")} | {sp},) + d[4:])
                    s2 = st.with_objs(objs)
                    par = self.obj(s2, so)
                    s2 = s2.with_objs((s2.objs - {par}) | {par[:4] + (par[4] - {"+" + f},) + par[5:]})
                    outs.append((Wrap(s2), d[0]))
                x = self.new(fn, n, st, (self.obj(st, so)[1], None), {sp})
                nul = self.obj(st, so)
                par = self.obj(x.st, so)
                x.st = x.st.with_objs((x.st.objs - {par}) | {par[:4] + (par[4] - {"+" + sp[2]},) + par[5:]})
                if deep:
                    x.st = x.st.with_objs({o[:3] + (frozenset(("o", x.created, f + "+") if q == ("o", so, f + "+") else q for q in o[3]),) + o[4:] for o in x.st.objs})
                outs.append((x, x.created))
                if "+" + sp[2] not in nul[4] and not deep:
                    outs.append((Wrap(st.with_objs((st.objs - {nul}) | {nul[:4] + (nul[4] | {sp[2]},) + nul[5:]})), None))
                res = []
                for w, c in outs:
                    res.append(self.fold(self.assign(fn, n, w.st, p, within, c, c is None, t)))
                return res
        return self.fold(self.assign(fn, n, st, p, within, i, zero, t))

    def assign(self, fn, n, st, p, within, i, zero, t):
        if i:
            o = self.obj(st, i)
            if p not in o[3]:
                comp = o[6] or (p[0] == "v" and self.u.funcs.get(p[1]) is not None and self.vtype(p) == "struct sljit_compiler *" and o[1] == "memory" and o[2])
                st = st.with_objs((st.objs - {o}) | {o[:3] + (o[3] | {p},) + o[4:6] + (comp,)})
            if p[0] == "F":
                self.stored.add(p[1])
            st = self.unplace(fn, n, st, p, i)
        else:
            st = self.unplace(fn, n, st, p, None)
        if within:
            o = self.obj(st, within)
            if o:
                if "+" + p[2] in o[4]:
                    self.bad(fn, n, "%s:list" % fn.name, "%s can lose the rest of a list of %s (overwritten)" % (fn.name, o[1]))
                nf = o[4] | {p[2]} if zero else o[4] - {p[2], "+" + p[2]}
                if nf != o[4]:
                    st = st.with_objs((st.objs - {o}) | {o[:4] + (nf,) + o[5:]})
        # allocator data
        key = (p[1], p[2]) if p[0] == "v" else (("F", p[1]) if p[0] == "F" else None)
        if key:
            old = {x for x in st.tok if (x[0], x[1]) == key}
            new = {(key[0], key[1], t)} if t and (key[0] == "F" or "void *" in (self.vtype(p) or "")) and self.isdata(p, t) else set()
            if old != new:
                st = St(st.objs, st.bind, (st.tok - old) | new)
        return st

    def isdata(self, p, t):
        if p[0] == "F":
            return t.startswith("parameter") and self.ftype(p[1]) == "void *"
        return True

    def ftype(self, f):
        for x in self.u.records["sljit_compiler"]["fields"]:
            if x[0] == f:
                return x[1]
        return None

    def vtype(self, p):
        f = self.u.funcs.get(p[1])
        return (f.ptypes.get(p[2]) or f.ltypes.get(p[2])) if f else None

    def unplace(self, fn, n, st, p, keep):
        objs, lost = set(), None
        for o in st.objs:
            if o[0] != keep and p in o[3]:
                pl = o[3] - {p}
                if not pl:
                    if o[2]:
                        lost = o
                    continue
                o = o[:3] + (pl,) + o[4:]
            objs.add(o)
        st = st.with_objs(objs)
        if lost:
            self.bad(fn, n, "%s:leak" % lost[0][0], "%s can lose the %s acquired in %s without releasing it (overwritten)" % (fn.name, lost[1], lost[0][0]))
            st = self.dead(fn, n, st, lost, "overwritten")
        return st

    def new(self, fn, n, st, kt, places):
        used = {o[0][2] for o in st.objs if o[0][:2] == (fn.name, n.id)}
        g = next((g for g in range(GENS) if g not in used), None)
        if g is None:
            # summarise: forget an older object of this place that only other objects refer to
            for o in sorted(st.objs, key=repr):
                if o[0][:2] == (fn.name, n.id) and all(p[0] in ("o", "out", "F") for p in o[3]):
                    g = o[0][2]
                    st = st.with_objs({x[:3] + (frozenset(q for q in x[3] if q[:2] != ("o", o[0])) | ({("out",)} if any(q[:2] == ("o", o[0]) for q in x[3]) else frozenset()),) + x[4:] for x in st.objs if x != o})
                    break
            else:
                raise base.Broken("too many objects at %s: %s" % (fn.where(n.line), st))
        i = (fn.name, n.id, g)
        o = (i, kt[0], True, frozenset(places), frozenset(), kt[1], False)
        return Wrap(st.with_objs(st.objs | {o}), i)

    def failed(self, fn, n, st, places):
        i = (fn.name, n.id, "failed")
        old = self.obj(st, i)
        if old:
            places = places | old[3]
            st = st.with_objs(st.objs - {old})
        return st.with_objs(st.objs | {(i, FAILED, False, frozenset(places), frozenset(), None, False)})

    def on_call(self, an, fn, n, ps, env):
        st = ps
        self.derefd(fn, n, n.c, st, env)
        if n.b == "vp_exec_offset" and ev(n.c[0], env) == ZERO:
            self.bad(fn, n, "%s:null" % fn.name, "%s asks for the executable offset of a failed acquisition" % fn.name)
        if n.b in self.u.funcs and self.skip_call(n.b):
            for p, a in zip(self.u.funcs[n.b].params, n.c):
                r = root(a)
                i = self.resolve(r, fn, st)
                if ((r[0] in ("v", "F", "m") and ev(r, env) == ZERO) or (i and self.obj(st, i)[1] == FAILED)) and p in self.untested(n.b):
                    self.bad(fn, n, "%s:null" % fn.name, "%s passes `%s', which is NULL here (a failed acquisition), to %s, which accesses memory through it" % (fn.name, show(r), n.b))
        if n.b == "vp_assert":
            e2 = self.facts(n.c[0], fn, st, env)
            return [] if assume(n.c[0], True, e2) is None else None
        if n.b in ACQ and n.b not in an.unit.funcs:
            kind, fail = ACQ[n.b]
            self.res.note("sites", fn.where(n.line))
            tok = self.token(n.c[1], fn, st) if n.b.startswith("vp_") else None
            fl = st
            if n.a:
                fl = self.unplace(fn, n, st, ("v", fn.name, n.a), None)
            w = self.new(fn, n, fl, (kind, tok), {("v", fn.name, n.a)} if n.a else set())
            if not n.a:
                self.bad(fn, n, "%s:leak" % fn.name, "%s drops the result of %s" % (fn.name, n.b))
            ok = (1, None, frozenset()) if kind == "descriptor" else (None, None, frozenset([0, -1, (1 << 64) - 1, (1 << 32) - 1]))
            if kind in ("memory", "executable memory"):
                ok = NZ
            if fail == 0 and n.a:
                fl = self.failed(fn, n, fl, {("v", fn.name, n.a)})
            return [(w.st, ok, None), (fl, const(fail), None)]
        if n.b in REL and n.b not in an.unit.funcs:
            self.res.note("releases", fn.where(n.line))
            i = self.resolve(n.c[0], fn, st)
            if i:
                o = self.obj(st, i)
                if o[1] == FAILED:
                    return [(st, TOP, None)]
                if not o[2]:
                    self.bad(fn, n, "%s:twice" % fn.name, "%s releases the same %s twice" % (fn.name, o[1]))
                if o[1] != REL[n.b]:
                    self.bad(fn, n, "%s:kind" % fn.name, "%s releases %s with %s" % (fn.name, o[1], n.b))
                if n.b.startswith("vp_") and o[5]:
                    t = self.token(n.c[1], fn, st)
                    if t and t != o[5]:
                        self.bad(fn, n, "%s:data" % fn.name, "%s passes %s when it releases %s that was acquired with %s" % (fn.name, t, o[1], o[5]))
                f = o[:2] + (False,) + o[3:]
                st = st.with_objs((st.objs - {o}) | {f})
                st = self.dead(fn, n, st, f, "its owner was released")
            if n.a:
                st = self.unplace(fn, n, st, ("v", fn.name, n.a), None)
            return [(st, TOP, None)]
        if n.b in self.summ and n.b != self.entry and n.c:
            i = self.resolve(n.c[0], fn, st)
            if i:
                o = self.obj(st, i)
                if not o[2] and o[1] != FAILED:
                    self.bad(fn, n, "%s:twice" % fn.name, "%s passes what it already released to %s" % (fn.name, n.b))
                gone = {i}
                while True:
                    m = {x[0] for x in st.objs if any(p[0] == "o" and p[1] in gone or (p[0] == "F" and o[6]) for p in x[3])} - gone
                    if not m:
                        break
                    gone |= m
                st = st.with_objs({(x[:2] + (False,) + x[3:]) if x[0] in gone else x for x in st.objs})
            return [(st, TOP, None)]
        if n.a and (not isinstance(n.b, str) or n.b not in an.unit.funcs or self.skip_call(n.b)):
            st = self.unplace(fn, n, st, ("v", fn.name, n.a), None)
            return [(st, TOP, None)]
        return None

    def on_edge(self, an, fn, n, ps, env, edge, env2):
        self.derefd(fn, n, (n.a,), ps, env)
        if n.k == "br" and ps.objs and assume(n.a, edge == "T", self.facts(n.a, fn, ps, env)) is None:
            return None     # an acquired object is not NULL
        return ps

    def facts(self, e, fn, st, env):
        """env, and: what refers to an object we own is not NULL"""
        add = {}

        def go(x):
            if not isinstance(x, tuple) or not x or x[0] in ("s", "i", "f"):
                return
            if x[0] in ("v", "F", "m", "*"):
                p, _ = self.place(x, fn, st)
                if p and ev(x, env) == TOP and any(p in o[3] and o[1] not in ("descriptor", "mapping", FAILED) for o in st.objs):
                    add[x] = NZ
                elif p and ev(x, env) == TOP and any(p in o[3] and o[1] == FAILED for o in st.objs):
                    add[x] = ZERO
            for y in x[1:]:
                go(y)
        go(e)
        if add:
            env = dict(env)
            env.update(add)
        return env

    def call_ps(self, an, fn, n, ps, env):
        st = ps
        g = self.u.funcs[n.b]
        objs, bind, tok = set(st.objs), set(st.bind), set(st.tok)
        for p, a in zip(g.params, n.c):
            i = self.resolve(a, fn, st)
            if i:
                o = next(x for x in objs if x[0] == i)
                objs.remove(o)
                comp = o[6] or g.ptypes.get(p) == "struct sljit_compiler *"
                objs.add(o[:3] + (o[3] | {("v", g.name, p)},) + o[4:6] + (comp,))
            x = strip(a)
            if x[0] == "&":
                pl, _ = self.place(x[1], fn, st)
                if pl:
                    bind.add((g.name, p, pl))
            elif x[0] == "v":
                for f, v, pl in st.bind:
                    if f == fn.name and v == x[1]:
                        bind.add((g.name, p, pl))
            if g.ptypes.get(p) == "void *":
                t = self.token(a, fn, st)
                if t:
                    tok.add((g.name, p, t))
        return St(objs, bind, tok)

    def leave(self, fn, n, st, env):
        """the variables of fn disappear"""
        pl = {p for o in st.objs for p in o[3] if p[0] == "v" and p[1] == fn.name}
        if n.a is not None and fn.ret.endswith("*") and ev(n.a, env) != ZERO:
            # successful completion: variables which the code asserts to be NULL hold nothing any more
            # (whether they do depends on the contents of the instruction buffer, see DESIGN.md)
            null = self.asserted(fn) & {p[2] for p in pl}
            gone = {o[0] for o in st.objs if any(p == ("v", fn.name, v) for p in o[3] for v in null)}
            if gone:
                self.res.note("asserted", "%s:%s" % (fn.name, ",".join(sorted(null))))
                st = st.with_objs({(o[:3] + (o[3] | {("out",)}, frozenset(f for f in o[4] if not f.startswith("+"))) + o[5:]) if o[0] in gone else o for o in st.objs})
        st = self.fold(self.drop(fn, n, st, frozenset(pl), "returns"))
        return St(st.objs, (b for b in st.bind if b[0] != fn.name), (t for t in st.tok if t[0] != fn.name))

    def asserted(self, fn):
        r = self.nullasserts.get(fn.name)
        if r is None:
            r = set()
            for x in fn.cfg.nodes:
                if x.k == "call" and x.b == "vp_assert":
                    r |= {v for v, t in fn.ltypes.items() if t.endswith("*") and assume(x.c[0], True, {("v", v): NZ}) is None}
            self.nullasserts[fn.name] = r
        return r

    def fold(self, st):
        """elements of a list that only their predecessor refers to are summarised ("+field": there is an element)"""
        if len(st.objs) < 2:
            return st
        ch = True
        while ch:
            ch = False
            for o in sorted(st.objs, key=repr):
                if all(p == ("out",) for p in o[3]) or (not o[2] and all(p[0] in ("o", "out") for p in o[3])):
                    # no longer ours / released and forgotten: what it refers to is out of sight
                    objs = set()
                    for y in st.objs - {o}:
                        q = frozenset(("out",) if p[:2] == ("o", o[0]) else p for p in y[3])
                        objs.add(y[:3] + (q,) + y[4:])
                    st, ch = st.with_objs(objs), True
                    break
                if not o[2] or len(o[3]) != 1:
                    continue
                p = next(iter(o[3]))
                if p[0] != "o" or p[2].rstrip("+") not in self.listfields:
                    continue
                x = self.obj(st, p[1])
                if not x or not x[2] or x is o or any(q[:2] == ("o", o[0]) and q[2].rstrip("+") not in self.listfields for y in st.objs for q in y[3]):
                    continue
                f = p[2].rstrip("+")
                objs = set()
                for y in st.objs - {o, x}:
                    q = frozenset(("o", x[0], f + "+") if r[:2] == ("o", o[0]) else r for r in y[3])
                    objs.add(y[:3] + (q,) + y[4:])
                q = frozenset(("o", x[0], f + "+") if r[:2] == ("o", o[0]) else r for r in x[3])
                objs.add(x[:3] + (q, (x[4] - {f}) | {"+" + f}) + x[5:])
                st, ch = st.with_objs(objs), True
                break
        # canonical numbers
        sites = {}
        for o in st.objs:
            if o[1] != FAILED:
                sites.setdefault(o[0][:2], []).append(o)
        ren = {}
        for s, l in sites.items():
            if len(l) == 1 and l[0][0][2] == 0:
                continue
            for g, o in enumerate(sorted(l, key=lambda o: repr((sorted((p[0], "" if p[0] == "o" else p, p[2] if p[0] == "o" else "") for p in o[3]), o[2], sorted(o[4]), o[0][2])))):
                if o[0][2] != g:
                    ren[o[0]] = s + (g,)
        if ren:
            st = st.with_objs({(ren.get(o[0], o[0]),) + o[1:3] + (frozenset(("o", ren.get(p[1], p[1]), p[2]) if p[0] == "o" else p for p in o[3]),) + o[4:] for o in st.objs})
        return st

    def on_ret(self, an, fn, n, ps, env):
        st = ps
        if n.a is not None:
            self.derefd(fn, n, (n.a,), st, env)
            i = self.resolve(n.a, fn, st)
            if fn.name in self.acquirers and ev(n.a, env) == ZERO and not (i and self.obj(st, i)[1] == FAILED):
                i = None
                st = self.failed(fn, n, st, {("r",)})
            if i:
                o = self.obj(st, i)
                if not o[2] and o[1] != FAILED and fn.ret.endswith("*"):
                    self.bad(fn, n, "%s:freed" % fn.name, "%s returns %s it already released" % (fn.name, o[1]))
                st = st.with_objs((st.objs - {o}) | {o[:3] + (o[3] | {("r",)},) + o[4:]})
        return self.leave(fn, n, st, env)

    def ret_ps(self, an, fn, n, before, ps, env):
        st = ps
        p = ("v", fn.name, n.a) if n.a else None
        if p:
            keep = next((o[0] for o in st.objs if ("r",) in o[3]), None)
            st = self.unplace(fn, n, st, p, keep)
        objs, lost = set(), None
        for o in st.objs:
            if ("r",) in o[3]:
                pl = o[3] - {("r",)} | ({p} if p else set())
                if not pl:
                    if o[2]:
                        lost = o
                    continue
                o = o[:3] + (pl,) + o[4:]
            objs.add(o)
        st = st.with_objs(objs)
        if lost:
            self.bad(fn, n, "%s:leak" % lost[0][0], "%s drops the %s returned by %s" % (fn.name, lost[1], n.b))
        return st


class Wrap:
    def __init__(self, st, created=None):
        self.st, self.created = st, created


def touching(u):
    calls = {f.name: {n.b for n in f.cfg.nodes if n.k == "call" and isinstance(n.b, str)} for f in u.funcs.values()}
    t = {f for f in calls if calls[f] & (set(ACQ) | set(REL))}
    direct = {f for f in calls if calls[f] & set(ACQ)}
    while True:
        m = {f for f in calls if calls[f] & t} - t
        if not m:
            return t, direct
        t |= m


def leftovers(res, u, entry, out, fn):
    """live objects at the end of a public function that nobody can reach"""
    for st, rv in out:
        for o in st.objs:
            if not o[2]:
                continue
            if self_reach(o, st):
                continue
            res.add("%s:%s:leak" % (entry, o[0][0]), "%s can return without releasing the %s acquired in %s, which nothing refers to any more" % (entry, o[1], o[0][0]), fn.where(), [])


def self_reach(o, st, seen=()):
    for p in o[3]:
        if p[0] in ("r", "out") or (p[0] == "v" and p[1] == ""):
            return True
        if p[0] == "F":
            c = next((x for x in st.objs if x[6]), None)
            if c is None or c[0] == o[0]:
                return True
            if c[2] and c[0] not in seen and self_reach(c, st, seen + (o[0],)):
                return True
        if p[0] == "o":
            c = next((x for x in st.objs if x[0] == p[1]), None)
            if c is None or (c[2] and c[0] not in seen and self_reach(c, st, seen + (o[0],))):
                return True
    return False


def unit(u, res):
    touch, direct = touching(u)
    fns = api(u)
    pairs = [(a, b) for a, b in PAIRS if a in u.funcs and b in u.funcs and (a in touch or b in touch)]
    if "alloc_chunk" in u.funcs:
        # blocks of the free list allocator live in chunks: only the chunks themselves are acquired and released
        pairs = [x for x in pairs if x[0] != "sljit_malloc_exec"]
        if "sljit_malloc_exec" in {n.b for f in u.funcs.values() if f.name != "sljit_free_code" for n in f.cfg.nodes if n.k == "call"}:
            pairs = [x for x in pairs if x[0] != "sljit_generate_code"]
    summ = {b for _, b in pairs}
    # functions that keep what they acquire in the compiler object need not be followed into
    selfc, fields = set(), set()
    listf = listfields(u)
    for f in sorted(direct):
        fn = u.funcs[f]
        if f in fns and f != "sljit_alloc_memory":
            continue
        cl = Own(u, base.Result(u.name), f, touch, set(), summ)
        cl.listfields = listf
        try:
            out = Analysis(u, cl).run(f, St())
        except base.Broken:
            continue
        if cl.res.findings:
            continue
        if all(any(p[0] == "F" for p in o[3]) for st, rv in out for o in st.objs) and \
           not any(pt.endswith("**") for pt in fn.ptypes.values()):
            selfc.add(f)
            cl = Own(u, res, f, touch, set(), summ)
            cl.listfields = listf
            out = Analysis(u, cl).run(f, St())
            fields |= cl.stored
            res.count("functions")
            leftovers(res, u, f, out, fn)
    outs = {}
    entries = [f for f in sorted(set(fns) | {a for a, _ in pairs}) if f in touch and f in u.funcs]
    # recompute what is touched when self contained functions are not followed
    calls = {f.name: {n.b for n in f.cfg.nodes if n.k == "call" and isinstance(n.b, str)} for f in u.funcs.values()}
    t2 = {f for f in calls if f not in selfc and calls[f] & (set(ACQ) | set(REL))}
    while True:
        m = {f for f in calls if f not in selfc and calls[f] & t2} - t2
        if not m:
            break
        t2 |= m
    for f in entries:
        if f not in t2:
            continue
        fn = u.funcs[f]
        cl = Own(u, res, f, t2, selfc, summ)
        cl.listfields = listf
        cl.chains = f not in summ
        an = Analysis(u, cl)
        out = an.run(f, St())
        outs[f] = out
        fields |= cl.stored
        res.count("functions")
        res.count("steps", an.steps)
        leftovers(res, u, f, out, fn)
    for a, b in pairs:
        pair(u, res, a, b, outs.get(a, ()), t2, selfc, summ, listf, fields)
    for f in fields:
        res.note("fields", f)


def listfields(u):
    """fields through which records of one type are chained"""
    return {x[0] for name, rec in u.records.items() for x in rec["fields"] if x[1] == "struct %s *" % name}


def pair(u, res, a, b, out, touch, selfc, summ, listf, fields):
    g = u.funcs[b]
    p = g.params[0]
    n = 0
    for st, rv in out:
        ro = next((o for o in st.objs if ("r",) in o[3]), None)
        if not ro:
            continue
        n += 1
        objs = set()
        for o in st.objs:
            pl = set(o[3])
            if ("r",) in pl:
                pl = (pl - {("r",)}) | {("v", b, p)}
            if o[2]:
                objs.add(o[:3] + (frozenset(pl), o[4] if False else frozenset()) + o[5:6] + (o[6] or (o is ro and g.ptypes[p] == "struct sljit_compiler *"),))
        # the counterpart gets its own allocator data argument
        tok = [(t[0], t[1], t[2]) for t in st.tok if t[0] == "F"]
        objs = {o[:5] + (None if o[5] is None or not tok and o[5].startswith("parameter") else o[5],) + o[6:] for o in objs}
        cl = Own(u, res, b, touch, selfc, summ)
        cl.listfields, cl.chains = listf, True
        an = Analysis(u, cl)
        end = an.run(b, St(objs, (), tok))
        res.count("steps", an.steps)
        for e, _ in end:
            for o in e.objs:
                if o[2]:
                    res.add("%s:%s:kept" % (b, o[0][0]), "%s can leave %s unreleased that %s acquired (in %s)" % (b, o[1], a, o[0][0]), g.where())
        if a == "sljit_create_compiler":
            kept = {q[1] for o in objs for q in o[3] if q[0] == "F"}
            for f in fields - kept:
                res.note("later_fields", f)
    if n == 0:
        raise base.Broken("%s hands over nothing" % a)
    res.note("pairs", a + "/" + b)


def check(pid):
    ck = base.Check(pid)
    # without assertions the length of the list of patches of ARMv6 depends on the contents of the instruction buffer
    sp = [x for x in base.specs(base.facts.ALL, ("rel", "dbg")) if (x["arch"], x["mode"]) != ("armv6", "rel")]
    ex = ("-DVP_BUILTIN_EXEC",)
    for v, x in (("core", ex), ("prot", ex + ("-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1",)),
                 ("wx", ex + ("-DVP_BUILTIN_WX", "-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1"))):
        for a in ("x86_64", "aarch64"):
            sp.append(dict(arch=a, mode="rel", variant=v, extra=x))
    sp.append(dict(arch="x86_64", mode="rel", variant="simplestack", extra=("-DSLJIT_UTIL_SIMPLE_STACK_ALLOCATION=1",)))
    rs = base.run_configs(unit, sp)
    return ck.finish(rs, "ownership", {"functions": 60, "sites": 5, "releases": 5})
