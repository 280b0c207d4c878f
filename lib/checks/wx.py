"""C04: executable memory is opened before it is written, closed and (where needed) flushed from the
instruction cache afterwards, over the whole range written."""
from flow import *
from common import *
import base

# targets whose instruction cache is coherent with data writes
COHERENT = ("x86_64", "x86_32", "x86_64win", "s390x", "x86_32_fastcall")
EXEC = ("exec",)


def lin_add(a, b, k=1):
    d = dict(a)
    for t, c in b:
        d[t] = d.get(t, 0) + k * c
    return tuple(sorted(((t, c) for t, c in d.items() if c), key=repr))


def lin_const(n):
    return ((1, n),) if n else ()


def diff(a, b, noexec=True):
    """constant a - b, or None; the offset between the two mappings is ignored"""
    d = [(t, c) for t, c in lin_add(a, b, -1) if not (noexec and t == EXEC)]
    if not d:
        return 0
    if len(d) == 1 and d[0][0] == 1:
        return d[0][1]
    return None


def coef(a, t):
    return dict(a).get(t, 0)


STORE_SIZE = {"char": 1, "unsigned char": 1, "signed char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
              "long": 8, "unsigned long": 8}


class Patch(Client):
    """ps: (variables, open ranges, written ranges)
    variables: {(function, name): linear form}; open: {(lo, hi)}; written: {(lo, size, flush wanted, closed)}"""

    def __init__(self, u, res, entry, coherent, execs, pools):
        self.u, self.res, self.entry, self.coherent = u, res, entry, coherent
        self.execs, self.pools = execs, pools
        self.stores = 0

    def bad(self, fn, n, key, msg):
        self.res.add("%s:%s" % (self.entry, key), "%s: %s" % (self.entry, msg), fn.where(n.line))

    def lin(self, e, env, vs, fn):
        k = e[0]
        if k == "i":
            return lin_const(e[1])
        if k == "v":
            r = vs.get((fn.name, e[1]))
            if r is not None:
                return r
            v = ev(e, env)
            return lin_const(v[0]) if isconst(v) else ((e + (fn.name,), 1),)
        if k == "t":
            return self.lin(e[2], env, vs, fn)
        if k == "p+":
            i = self.lin(e[2], env, vs, fn)
            return lin_add(self.lin(e[1], env, vs, fn), tuple((t, c * e[3]) for t, c in i))
        if k == "p-":
            i = self.lin(e[2], env, vs, fn)
            return lin_add(self.lin(e[1], env, vs, fn), tuple((t, c * e[3]) for t, c in i), -1)
        if k == "b" and e[1] in ("+", "-"):
            return lin_add(self.lin(e[2], env, vs, fn), self.lin(e[3], env, vs, fn), 1 if e[1] == "+" else -1)
        if k == "b" and e[1] in ("*", "<<"):
            a, b = self.lin(e[2], env, vs, fn), self.lin(e[3], env, vs, fn)
            for x, y in ((a, b), (b, a)):
                if e[1] == "<<" and x is a:
                    continue
                if not x or (len(x) == 1 and x[0][0] == 1):
                    c = x[0][1] if x else 0
                    c = 1 << c if e[1] == "<<" else c
                    return tuple((t, q * c) for t, q in y if q * c)
        if k == "u" and e[1] == "-":
            return tuple((t, -c) for t, c in self.lin(e[2], env, vs, fn))
        if k == "&":
            a = self.lv(e[1], env, vs, fn)
            if a is not None:
                return a
        v = ev(e, env)
        if isconst(v):
            return lin_const(v[0])
        if k == "?":
            return ((("e", fn.name, e), 1),)
        return ((("e", fn.name, e), 1),)

    def lv(self, e, env, vs, fn):
        """address of an lvalue"""
        k = e[0]
        if k == "*":
            return self.lin(e[1], env, vs, fn)
        if k == "x" and e[4] == "p":
            i = self.lin(e[2], env, vs, fn)
            return lin_add(self.lin(e[1], env, vs, fn), tuple((t, c * e[3]) for t, c in i))
        if k == "m":
            return self.lv(e[1], env, vs, fn)
        if k == "t":
            return self.lv(e[2], env, vs, fn)
        return None

    def resolve(self, l, env, fn, up=None):
        """conditional parts that have become constant on this path; up: else their upper/lower bound"""
        for t, c in l:
            if isinstance(t, tuple) and t[0] == "e" and t[1] == fn.name:
                v = ev(t[2], env)
                if t[2][0] == "?":
                    w = truth(ev(t[2][1], env))
                    if w is not None:
                        v = ev(t[2][2] if w else t[2][3], env)
                b = v[0] if isconst(v) else None
                if b is None and up is not None:
                    b = v[1] if up == (c > 0) else v[0]
                if b is not None:
                    l = lin_add(lin_add(l, ((t, c),), -1), lin_const(b * c))
        return l

    def drop_var(self, st, key, atom, nid=0):
        """the old value of a variable that is assigned lives on under another name"""
        def hit(t):
            return t == atom or (isinstance(t, tuple) and t[0] == "e" and t[1] == key[0] and ("v", key[1]) in mentions(t[2]))

        def ren(l):
            if not any(hit(t) for t, c in l):
                return l
            return tuple(sorted([(("old", key, nid, t) if hit(t) else t, c) for t, c in l], key=repr))
        vs, op, wr = st
        return ({k: ren(v) for k, v in vs.items()}, {(ren(x), ren(y)) for x, y in op}, {(ren(w[0]),) + w[1:] for w in wr})

    def pack(self, vs, op, wr):
        return (tuple(sorted(vs.items(), key=repr)), frozenset(op), frozenset(wr))

    def on_set(self, an, fn, n, ps, env):
        vs, op, wr = dict(ps[0]), set(ps[1]), set(ps[2])
        if n.a[0] == "v" and not n.a[1].startswith("::"):
            l = self.lin(n.b, env, vs, fn)
            key = (fn.name, n.a[1])
            vs.pop(key, None)
            tmp = self.drop_var(({None: l, **vs}, op, wr), key, n.a + (fn.name,), n.id)
            vs, op, wr = dict(tmp[0]), tmp[1], tmp[2]
            l = vs.pop(None)
            # only pointers into the code and offsets matter
            if any(isinstance(t, tuple) for t, c in l) and len(l) < 5:
                vs[key] = l
            return self.pack(vs, op, wr)
        r = root(n.a)
        if r[0] != "mem":
            return ps
        lo = self.lv(n.a, env, vs, fn)
        if lo is None:
            return ps
        if n.a[0] == "m":
            size = 1
        else:
            size = n.a[2] if n.a[0] == "*" else n.a[3]
        self.store(fn, n, lo, size, n.b, env, vs, op, wr)
        return self.pack(vs, op, wr)

    def store(self, fn, n, lo, size, val, env, vs, op, wr):
        self.stores += 1
        if not any(self.covers(o, lo, size, env, fn) for o in op):
            self.bad(fn, n, "%s:unopened" % fn.name, "code memory is written in %s without SLJIT_UPDATE_WX_FLAGS(.., 0) covering the bytes written" % fn.name)
        if coef(lo, EXEC):
            self.bad(fn, n, "%s:mapping" % fn.name, "code memory is written in %s through the executable mapping" % fn.name)
        v = val
        while v[0] == "t":
            v = v[2]
        # a pool entry holds the new value itself and is read as data
        l = self.lin(v, env, vs, fn) if v[0] == "v" else ()
        data = len(l) == 1 and l[0][1] == 1 and l[0][0] in self.pools
        wr.add((lo, size, not (data or self.coherent), False))

    def covers(self, rng, lo, size, env, fn):
        a, b = rng
        d1, d2 = diff(a, lo), diff(b, lo)
        if d1 is None:
            d1 = diff(self.resolve(a, env, fn, True), self.resolve(lo, env, fn))
        if d2 is None:
            d2 = diff(self.resolve(b, env, fn, False), self.resolve(lo, env, fn))
        return d1 is not None and d2 is not None and d1 <= 0 and d2 >= size

    def inside(self, rng, outer, env, fn):
        d1, d2 = diff(outer[0], rng[0]), diff(outer[1], rng[1])
        if d1 is None:
            d1 = diff(self.resolve(outer[0], env, fn, True), self.resolve(rng[0], env, fn, False))
        if d2 is None:
            d2 = diff(self.resolve(outer[1], env, fn, False), self.resolve(rng[1], env, fn, True))
        return d1 is not None and d2 is not None and d1 <= 0 and d2 >= 0

    def on_call(self, an, fn, n, ps, env):
        if not isinstance(n.b, str):
            return None
        vs, op, wr = dict(ps[0]), set(ps[1]), set(ps[2])
        if n.b == "vp_update_wx_flags":
            a, b = self.lin(n.c[0], env, vs, fn), self.lin(n.c[1], env, vs, fn)
            v = ev(n.c[2], env)
            if v == ZERO:
                op.add((a, b))
            elif isconst(v):
                w2 = set()
                for lo, size, fl, cl in wr:
                    w2.add((lo, size, fl, cl or self.covers((a, b), lo, size, env, fn)))
                wr = {w for w in w2 if w[2] or not w[3]}
                op = {o for o in op if not self.inside(o, (a, b), env, fn)}
            else:
                self.bad(fn, n, "wxarg", "the access mode given to SLJIT_UPDATE_WX_FLAGS is not constant")
            self.res.count("wx_calls")
            return [(self.pack(vs, op, wr), None, None)]
        if n.b == "vp_cache_flush":
            a, b = self.lin(n.c[0], env, vs, fn), self.lin(n.c[1], env, vs, fn)
            if (coef(a, EXEC), coef(b, EXEC)) != (self.execs, self.execs) and not self.coherent:
                self.bad(fn, n, "flushmap", "the instruction cache is not flushed at the address the code is executed from")
                return [(ps, None, None)]
            w2 = set()
            for lo, size, fl, cl in wr:
                w2.add((lo, size, fl and not self.covers((a, b), lo, size, env, fn), cl))
            wr = {w for w in w2 if w[2] or not w[3]}
            self.res.count("flush_calls")
            return [(self.pack(vs, op, wr), None, None)]
        if n.b in ("memcpy", "memmove", "memset", "__builtin_memcpy", "__builtin___memcpy_chk"):
            lo = self.lin(n.c[0], env, vs, fn)
            sz = ev(n.c[2], env)
            self.store(fn, n, lo, sz[0] if isconst(sz) else 1 << 40, ("i", 0), env, vs, op, wr)
            return [(self.pack(vs, op, wr), None, None)]
        if n.a:
            vs.pop((fn.name, n.a), None)
        return None

    def call_ps(self, an, fn, n, ps, env):
        g = an.unit.funcs[n.b]
        vs = dict(ps[0])
        new = {(g.name, p): self.lin(a, env, vs, fn) for p, a in zip(g.params, n.c)}
        new = {k: v for k, v in new.items() if any(isinstance(t, tuple) for t, c in v)}
        self.callers = getattr(self, "callers", {})
        return self.pack(new, ps[1], ps[2])

    def ret_ps(self, an, fn, n, before, after, env):
        vs = dict(before[0])
        if n.a:
            rv = dict(after[0]).get(("ret", n.b))
            atom = ("v", n.a, fn.name)
            vs.pop((fn.name, n.a), None)
            vs, op, wr = self.drop_var((vs, after[1], after[2]), (fn.name, n.a), atom, n.id)
            if rv is not None:
                vs[(fn.name, n.a)] = rv
            return self.pack(vs, op, wr)
        return self.pack(vs, after[1], after[2])

    def on_ret(self, an, fn, n, ps, env):
        vs = {}
        if n.a is not None:
            l = self.lin(n.a, env, dict(ps[0]), fn)
            if len(l) < 6:
                vs[("ret", fn.name)] = l
        r = (tuple(sorted(vs.items(), key=repr)), ps[1], ps[2])
        return r


A = ("addr",)


def run_patch(u, res, name, execs, init, final):
    fn = u.funcs.get(name)
    base.need(fn is not None, name + " not found")
    coh = u.cfg.arch.split("_prot")[0] in COHERENT
    atoms = [("p", i) for i in range(len(fn.params))]
    vs = {}
    for i, p in enumerate(fn.params):
        vs[(name, p)] = ((atoms[i], 1),)
    vs[(name, fn.params[0])] = lin_add(((A, 1),), ((EXEC, 1),) if init else ())
    vs[(name, fn.params[-1])] = ((EXEC, 1),)
    cl = Patch(u, res, name, coh, 1, set(atoms))
    an = Analysis(u, cl)
    op, wr = set(), set()
    lo, hi = lin_add(((A, 1),), ((EXEC, 1),) if init else ()), None
    if init:
        hi = lin_add(lo, ((atoms[1], 1),))
    if init == "end":
        op = {(lo, hi)}
        wr = set()
    outs = an.run(name, cl.pack(vs, op, wr), [])
    res.count("functions")
    res.count("steps", an.steps)
    res.count("stores", cl.stores)
    res.note("entries", u.cfg.arch + ":" + name)
    return cl, fn, outs, lo, hi, coh


def patch_unit(u, res):
    for name in ("sljit_set_jump_addr", "sljit_set_const"):
        if name not in u.funcs:
            continue
        cl, fn, outs, _, _, coh = run_patch(u, res, name, 1, None, None)
        for ps, rv in outs:
            if ps[1]:
                res.add(name + ":open", "%s can return while code memory it opened is still writable" % name, fn.where())
            if any(not w[3] for w in ps[2]):
                res.add(name + ":open", "%s can return while code memory it wrote is not made executable again" % name, fn.where())
            if any(w[2] for w in ps[2]):
                res.add(name + ":flush", "%s can return although the instruction cache is not flushed for all the bytes it wrote" % name, fn.where())
        if not cl.stores:
            res.add(name + ":nostore", "%s writes nothing" % name, fn.where())
    cl, fn, outs, lo, hi, coh = run_patch(u, res, "sljit_read_only_buffer_start_writing", 1, "start", None)
    for ps, rv in outs:
        if not any(diff(a, lo) == 0 and diff(b, hi) == 0 for a, b in ps[1]):
            res.add(fn.name + ":open", "sljit_read_only_buffer_start_writing can return without making exactly the buffer writable", fn.where())
        r = dict(ps[0]).get(("ret", fn.name))
        if r is None or diff(r, ((A, 1),), False) != 0:
            res.add(fn.name + ":addr", "sljit_read_only_buffer_start_writing does not return the writable address of the buffer", fn.where())
    # the caller has written the buffer: state of the next call
    name = "sljit_read_only_buffer_end_writing"
    fn = u.funcs.get(name)
    base.need(fn is not None, name + " not found")
    calls = []

    class End(Patch):
        def on_call(self, an, fn, n, ps, env):
            r = Patch.on_call(self, an, fn, n, ps, env)
            if n.b == "vp_cache_flush":
                vs = dict(ps[0])
                a, b = self.lin(n.c[0], env, vs, fn), self.lin(n.c[1], env, vs, fn)
                lo = ((A, 1), (EXEC, 1))
                if diff(a, lo, False) == 0 and diff(b, lin_add(lo, ((("p", 1), 1),)), False) == 0:
                    return [((ps[0], ps[1], frozenset()), None, None)]
            return r
    vs = {(name, p): ((("p", i), 1),) for i, p in enumerate(fn.params)}
    lo = ((A, 1), (EXEC, 1))
    hi = lin_add(lo, ((("p", 1), 1),))
    vs[(name, fn.params[0])] = lo
    vs[(name, fn.params[-1])] = ((EXEC, 1),)
    cl = End(u, res, name, u.cfg.arch in COHERENT, 1, set())
    an = Analysis(u, cl)
    for ps, rv in an.run(name, cl.pack(vs, {(lo, hi)}, {(((("pending",), 1),), 0, True, True)}), []):
        if ps[1]:
            res.add(name + ":open", "%s can return while the buffer is still writable" % name, fn.where())
        if ps[2]:
            res.add(name + ":flush", "%s can return without flushing the instruction cache for exactly the buffer" % name, fn.where())
    res.count("functions")


MARK = ("vp_cache_flush", "vp_update_wx_flags", "vp_malloc_exec", "vp_exec_offset")


def reach(u, names):
    """functions from which one of the names is called"""
    r = set(names)
    ch = True
    while ch:
        ch = False
        for f in u.funcs.values():
            if f.name not in r and any(n.k == "call" and n.b in r for n in f.cfg.nodes):
                r.add(f.name)
                ch = True
    return r


def strip(e):
    while e[0] == "t":
        e = e[2]
    return e


class Gen(Client):
    """ps: (kinds of the pointers, flushed, closed, allocated); a kind is (b|c|e, times moved to the
    executable mapping): start of the code, write position, end computed from the recorded size"""

    def __init__(self, u, res, coherent):
        self.u, self.res, self.coherent = u, res, coherent
        self.reach = reach(u, MARK)
        self.stores = 0

    def skip_call(self, name):
        return name not in self.reach

    def is_exec(self, fn, e):
        e = strip(e)
        if e == ("F", "executable_offset"):
            return True
        if e[0] != "v":
            return False
        for n in fn.cfg.nodes:
            if n.k == "set" and n.a == e and strip(n.b) != ("i", 0) and (strip(n.b) == ("F", "executable_offset") or strip(n.b)[0] == "m" and strip(n.b)[2] == "executable_offset"):
                return True
            if n.k == "set" and n.a == ("F", "executable_offset") and strip(n.b) == e:
                return True
            if n.k == "call" and n.b in self.reach and ("&", e) in n.c:
                return True
        return e[1] in fn.params and fn.params.index(e[1]) in self.execp.get(fn.name, ())

    execp = {}

    def kind(self, fn, e, vs):
        e = strip(e)
        if e[0] == "v":
            return vs.get((fn.name, e[1]))
        if e[0] == "p+":
            k = self.kind(fn, e[1], vs)
            if k is None:
                return None
            if self.is_exec(fn, e[2]):
                return (k[0], k[1] + 1)
            i = strip(e[2])
            if k[0] == "b" and e[3] == 1 and i == ("F", "executable_size"):
                return ("e", k[1])
            if k[0] == "b" and i[0] == "b" and i[1] == ">>" and strip(i[2]) == ("F", "executable_size") and i[3][0] == "i" and 1 << i[3][1] == e[3]:
                return ("e", k[1])
            if k[0] == "b" and i[0] == "b" and i[1] == "/" and strip(i[2]) == ("F", "executable_size") and strip(i[3])[0] == "i" and strip(i[3])[1] == e[3]:
                return ("e", k[1])
            return ("i" if k[0] == "b" else k[0], k[1])
        if e[0] == "b" and e[1] == "+":
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                k = self.kind(fn, x, vs)
                if k:
                    if self.is_exec(fn, y):
                        return (k[0], k[1] + 1)
                    if k[0] == "b":
                        return ("e" if strip(y) == ("F", "executable_size") else "i", k[1])
                    return k
        if e[0] == "b" and e[1] == "-":
            return self.kind(fn, e[2], vs) if strip(e[3])[0] == "i" else None
        if e[0] == "b" and e[1] in ("|", "&"):
            # alignment and the Thumb bit
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                if strip(y)[0] == "i" or ev(y, {}) != TOP:
                    return self.kind(fn, x, vs)
        return None

    def to_bad(self, fn, n, what):
        self.res.add("generate:to:%s" % n.b, "the range of the %s in %s does not end at the write position of the generated code" % (what, fn.name), fn.where(n.line))

    def pack(self, vs, rest):
        return (tuple(sorted((k, v) for k, v in vs.items() if k[0] == "ret" or k[1] in self.relevant(k[0]))),) + tuple(rest)

    def relevant(self, name):
        """variables that can reach the flush, the access change or the return value"""
        r = self.slices.get(name)
        if r is None:
            def names(e, out):
                if e[0] == "v":
                    out.add(e[1])
                for x in e[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        names(x, out)
                return out
            r = set()
            nodes = self.u.funcs[name].cfg.nodes
            while True:
                k = len(r)
                for n in nodes:
                    if n.k == "ret" and n.a is not None or n.k == "set" and n.a[0] == "v" and n.a[1] in r:
                        names(n.a if n.k == "ret" else n.b, r)
                    elif n.k == "call" and (n.b in self.reach or n.a in r):
                        for a in n.c:
                            names(a, r)
                if len(r) == k:
                    break
            self.slices[name] = r
        return r

    def on_set(self, an, fn, n, ps, env):
        vs = dict(ps[0])
        if n.a[0] == "v" and not n.a[1].startswith("::"):
            key = (fn.name, n.a[1])
            b = strip(n.b)
            old = vs.get(key)
            k = self.kind(fn, n.b, vs)
            if b[0] == "m" and b[2] == "buffer" and ps[3]:
                k = ("b", 0)
            if k and k[0] == "i":
                # moving on the write position
                k = ("c", k[1]) if b[0] == "p+" and strip(b[1]) == n.a and old and old[0] == "b" else k
            vs.pop(key, None)
            if k:
                vs[key] = k
            return self.pack(vs, ps[1:])
        if n.a[0] in ("*", "x") and root(n.a)[0] == "mem":
            self.stores += 1
            if (ps[1] or ps[2]):
                self.res.add("generate:late", "code is still written in %s after it was flushed or made executable" % fn.name, fn.where(n.line))
        return ps

    def on_call(self, an, fn, n, ps, env):
        if not isinstance(n.b, str):
            return None
        vs = dict(ps[0])
        if n.b == "vp_malloc_exec":
            vs.pop((fn.name, n.a), None)
            if n.a:
                vs[(fn.name, n.a)] = ("b", 0)
            return [(self.pack(vs, (ps[1], ps[2], True)), TOP, None)]
        if n.b == "vp_exec_offset":
            return [(ps, TOP, None)]
        if n.b in ("vp_update_wx_flags", "vp_cache_flush"):
            a, b = self.kind(fn, n.c[0], vs), self.kind(fn, n.c[1], vs)
            fl = n.b == "vp_cache_flush"
            self.ends.setdefault((fn.name, n.id), (fn, n, set()))[2].add(b and b[0])
            v = ("i", 1) if fl else n.c[2]
            if not fl and ev(v, env) == ZERO:
                return [((ps[0], ps[1], False, ps[3]), None, None)]
            what = "instruction cache flush" if fl else "SLJIT_UPDATE_WX_FLAGS"
            if not (fl and self.coherent):
                if a is None or a[0] != "b":
                    self.res.add("generate:from:%s" % n.b, "the range of the %s in %s does not begin at the start of the generated code" % (what, fn.name), fn.where(n.line))
                elif b is None:
                    self.to_bad(fn, n, what)
                elif a[1] != b[1] or (fl and a[1] != 1):
                    self.res.add("generate:map:%s" % n.b, "the range of the %s in %s is not the executable address of the generated code" % (what, fn.name), fn.where(n.line))
            self.res.count("flush_calls" if fl else "wx_calls")
            return [((ps[0], ps[1] or fl, ps[2] or not fl, ps[3]), None, None)]
        if self.skip_call(n.b) or n.b not in an.unit.funcs:
            args = [self.kind(fn, a, vs) for a in n.c]
            g = an.unit.funcs.get(n.b)
            if (ps[1] or ps[2]) and any(args) and (g is None and n.b not in PURE and n.b not in ("vp_free",) or g is not None and "mem" in (an.modset(n.b) or ())):
                self.res.add("generate:late", "code may still be written by %s after it was flushed or made executable" % n.b, fn.where(n.line))
            if n.a:
                ks = [k for k in args if k]
                vs.pop((fn.name, n.a), None)
                if ks and g is not None and g.ret.endswith("*"):
                    vs[(fn.name, n.a)] = ("c", ks[0][1])
            return [(self.pack(vs, ps[1:]), TOP, None)]
        return None

    def call_ps(self, an, fn, n, ps, env):
        g = an.unit.funcs[n.b]
        vs = dict(ps[0])
        new = {}
        for i, (p, a) in enumerate(zip(g.params, n.c)):
            k = self.kind(fn, a, vs)
            if k:
                new[(g.name, p)] = k
            if self.is_exec(fn, a):
                self.execp.setdefault(g.name, set()).add(i)
        return self.pack(new, ps[1:])

    def on_ret(self, an, fn, n, ps, env):
        vs = {}
        if n.a is not None:
            k = self.kind(fn, n.a, dict(ps[0]))
            b = strip(n.a)
            if b[0] == "m" and b[2] == "buffer":
                k = ("b", 0)
                ps = ps[:3] + (True,)
            if k:
                vs[("ret", fn.name)] = k
        return self.pack(vs, ps[1:])

    def ret_ps(self, an, fn, n, before, after, env):
        vs = dict(before[0])
        if n.a:
            vs.pop((fn.name, n.a), None)
            k = dict(after[0]).get(("ret", n.b))
            if k:
                vs[(fn.name, n.a)] = k
        return self.pack(vs, after[1:])


def gen_unit(u, res):
    coh = u.cfg.arch in COHERENT
    cl = Gen(u, res, coh)
    cl.execp, cl.ends, cl.slices = {}, {}, {}
    an = Analysis(u, cl)
    fn = u.funcs.get("sljit_generate_code")
    base.need(fn is not None, "sljit_generate_code not found")
    outs = an.run(fn.name, ((), False, False, False), [])
    for f, nd, ks in cl.ends.values():
        # nothing was written on some paths only
        if not ks & {"c", "e", None} and not (nd.b == "vp_cache_flush" and coh):
            cl.to_bad(f, nd, nd.b)
    n = 0
    for ps, rv in outs:
        if rv == ZERO or not ps[3]:
            continue
        n += 1
        if not ps[2]:
            res.add("generate:open", "sljit_generate_code can return code that was not made executable", fn.where())
        if not ps[1] and not coh:
            res.add("generate:flush", "sljit_generate_code can return code that was not flushed from the instruction cache", fn.where())
        r = dict(ps[0]).get(("ret", fn.name))
        if r is not None and r != ("b", 1):
            res.add("generate:ret", "sljit_generate_code returns something else than the executable address of the start of the code", fn.where())
        if r is None:
            res.add("generate:ret", "sljit_generate_code returns something else than the start of the code", fn.where())
    res.count("functions")
    res.count("steps", an.steps)
    res.count("generate_returns", n)
    res.count("stores", cl.stores)


def both(u, res):
    patch_unit(u, res)
    gen_unit(u, res)


def check(pid):
    ck = base.Check(pid)
    x = dict(extra=["-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"], variant="prot")
    rs = base.run_configs(both, base.specs(base.facts.ALL, ("rel", "dbg"), **x))
    return ck.finish(rs, "wx", {"functions": 40, "stores": 40, "generate_returns": 16})
