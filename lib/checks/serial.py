"""C12: serialization saves and restores everything later calls depend on, in the same order."""
from flow import *
from common import *
import base
from checks import scratch

SER, DES = "sljit_serialize_compiler", "sljit_deserialize_compiler"
PRE = "sljit_serialized_"
HEADER = PRE + "compiler"
DEBUG = PRE + "debug_info"
# compiler fields that are not copied, and why
OTHER = {"error": "only compilers without an error are serialized", "abuf": "holds the records of the lists", "allocator_data": "given by the caller",
         "user_data": "not used by the library", "verbose": "output stream", "skip_checks": "zero between calls (C09)",
         "executable_offset": "set by code generation", "executable_size": "set by code generation",
         "imm": "working value of one call", "shift_imm": "working value of one call"}
LISTS = {"buf": "memory", "labels": PRE + "label", "jumps": PRE + "jump", "consts": PRE + "const", "cpool": "cpool", "cpool_unique": "cpool_unique"}
LASTS = ("last_label", "last_jump", "last_const")
RECS = ("sljit_label", "sljit_extended_label", "sljit_jump", "sljit_const", "sljit_memory_fragment")
SAME = {PRE + "label": ("sljit_label", "sljit_extended_label"), PRE + "aligned_label": ("sljit_label", "sljit_extended_label"),
        PRE + "jump": ("sljit_jump",), PRE + "const": ("sljit_const",)}
GROUPS = ({PRE + "label", PRE + "aligned_label"}, {"cpool", "cpool_unique"})


def strip(e):
    while e[0] == "t":
        e = e[2]
    return e


def member(e):
    """(record, path) of a member access"""
    path = []
    rec = None
    while e[0] == "m":
        path.append(e[2])
        rec = e[3]
        e = e[1]
        if e[0] == "x" and e[4] == "a":
            e = e[1]
    return (rec, ".".join(reversed(path))) if rec else None


def walk(e):
    if not isinstance(e, tuple) or not e or e[0] in ("s", "i", "f"):
        return
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    yield from walk(y)
            else:
                yield from walk(x)


class Copy(Client):
    """ps: (origins of locals, what was stored from where, kinds met, kinds met since the last size check, members of the record being filled)"""
    max_ctx = 400

    def __init__(self, u, res, entry, hsize):
        self.u, self.res, self.entry, self.hsize = u, res, entry, hsize
        self.saved, self.before, self.where, self.ends = {}, {}, {}, []
        self.unchecked, self.computed = {}, {}

    def skip_call(self, name):
        f = self.u.funcs[name]
        return name in ("sljit_free_compiler", "sljit_create_compiler", "ensure_abuf", "ensure_buf")

    def origin(self, e, fn, ps):
        e = strip(e)
        k = e[0]
        if k == "F":
            return {e}
        if k == "m":
            m = member(e)
            return {m} if m else set()
        if k == "v":
            return {o for f, v, o in ps[0] if f == fn.name and v == e[1]}
        if k == "?":
            return self.origin(e[2], fn, ps) | self.origin(e[3], fn, ps)
        if k == "x" and e[4] == "p":
            return {("[]", o) for o in self.origin(e[2], fn, ps)}
        return set()

    def vtype(self, fn, e):
        e = strip(e)
        return (fn.ptypes.get(e[1]) or fn.ltypes.get(e[1]) or "") if e[0] == "v" else ""

    def events(self, fn, n, es):
        out = []
        for e in es:
            for x in walk(e):
                if x[0] == "m" and str(x[3]).startswith(PRE) and x[3] != HEADER:
                    out.append(x[3])
                elif x[0] == "*" and x[2] == self.word and self.vtype(fn, x[1]) == "unsigned char *":
                    out.append("word")
        if n.k == "call" and n.b in ("memcpy", "__builtin_memcpy", "memmove"):
            for a in n.c[:2]:
                for x in walk(a):
                    if x[0] == "F" and x[1] in LISTS:
                        out.append(LISTS[x[1]])
                    elif x[0] == "m" and x[3] == "sljit_memory_fragment" and x[2] == "memory":
                        out.append("memory")
        if n.k == "set" and n.b[0] == "p+" and n.b[2][0] == "i" and n.b[2][1] * n.b[3] == self.hsize:
            out.append("end of header")
        return out

    def meet(self, fn, n, es, ps):
        org, st, kinds, since, fill = ps
        for k in self.events(fn, n, es):
            self.before.setdefault(k, set()).update(kinds - {k})
            self.where.setdefault(k, fn.where(n.line))
            kinds = kinds | {k}
            if k == "end of header":
                continue
            g = next((x for x in GROUPS if k in x), {k})
            if since and not since <= g:
                self.unchecked.setdefault(k, fn.where(n.line))
            since = since | {k}
        return (org, st, kinds, since, fill)

    def on_set(self, an, fn, n, ps, env):
        ps = self.meet(fn, n, (n.b, n.a), ps)
        org, st, kinds, since, fill = ps
        o = self.origin(n.b, fn, ps)
        a = n.a
        if a[0] == "v":
            org = frozenset(x for x in org if x[:2] != (fn.name, a[1])) | frozenset((fn.name, a[1], x) for x in o)
            t = self.vtype(fn, a)
            if self.entry == SER and t.startswith("struct " + PRE):
                fill = self.filled(fn, n, fill, t[7:-2])
                fill = fill | {(t[7:-2], "")}
        elif a[0] == "F":
            if self.entry == SER and a[1] != "error":
                self.res.add("%s:F:%s" % (SER, a[1]), "serialization modifies compiler->%s" % a[1], fn.where(n.line))
            for x in o or {None}:
                self.saved.setdefault(a, {}).setdefault(x, fn.where(n.line))
            st = frozenset(x for x in st if x[0] != a) | frozenset((a, x) for x in (o or {None}))
        elif a[0] == "m":
            m = member(a)
            if m:
                if self.entry == SER and m[0] in RECS:
                    self.res.add("%s:%s" % (SER, ".".join(m)), "serialization modifies the %s member of a struct %s of the compiler" % (m[1], m[0]), fn.where(n.line))
                for x in o or {None}:
                    self.saved.setdefault(m, {}).setdefault(x, fn.where(n.line))
                if m[0] in SAME and not any(y[0] in SAME[m[0]] for y in o):
                    for x in walk(n.b):
                        y = member(x) if x[0] == "m" else None
                        if y and y[0] in SAME[m[0]]:
                            self.computed.setdefault(m, set()).add(y)
                if m[0] and m[0].startswith(PRE):
                    fill = fill | {(m[0], m[1])}
        return (org, st, kinds, since, fill)

    def filled(self, fn, n, fill, rec):
        if (rec, "") not in fill:
            return fill
        for f in self.u.records[rec]["fields"]:
            if (rec, f[0]) not in fill:
                self.res.add("%s:%s.%s:unset" % (SER, rec, f[0]), "a struct %s can be left without its member %s in the serialized data" % (rec, f[0]), fn.where(n.line))
        return frozenset(x for x in fill if x[0] != rec)

    def on_call(self, an, fn, n, ps, env):
        p2 = self.meet(fn, n, n.c, ps)
        if n.a:
            p2 = (frozenset(x for x in p2[0] if x[:2] != (fn.name, n.a)),) + p2[1:]
        if p2 != ps and (n.b not in self.u.funcs or self.skip_call(n.b)):
            return [(p2, TOP, None)]
        return None

    def call_ps(self, an, fn, n, ps, env):
        g = self.u.funcs[n.b]
        add = set()
        for p, a in zip(g.params, n.c):
            add |= {(g.name, p, o) for o in self.origin(a, fn, ps)}
        return (ps[0] | add,) + ps[1:]

    def on_ret(self, an, fn, n, ps, env):
        o = set()
        if n.a is not None:
            ps = self.meet(fn, n, (n.a,), ps)
            o = self.origin(n.a, fn, ps)
        if fn.name == self.entry:
            if n.a is not None and ev(n.a, env) != ZERO:
                if self.entry == SER:
                    for r in sorted({x[0] for x in ps[4] if x[1] == ""}):
                        self.filled(fn, n, ps[4], r)
                self.ends.append((ps[1], fn.where(n.line)))
        org = frozenset(x for x in ps[0] if x[0] != fn.name)
        if fn.name != self.entry:
            org |= frozenset(("", "r", x) for x in o)
        return (org,) + ps[1:]

    def ret_ps(self, an, fn, n, before, ps, env):
        r = {x[2] for x in ps[0] if x[0] == ""}
        org = frozenset(x for x in ps[0] if x[0] != "" and x[:2] != (fn.name, n.a))
        if n.a:
            org |= frozenset((fn.name, n.a, x) for x in r)
        return (org,) + ps[1:]

    def on_edge(self, an, fn, n, ps, env, edge, env2):
        ps = self.meet(fn, n, (n.a,), ps)
        for x in walk(n.a):
            if x[0] == "p-" or (x[0] == "b" and x[1] in ("<", ">", "<=", ">=") and x[4] == "p"):
                return ps[:3] + (frozenset(),) + ps[4:]
        return ps


def written(u):
    """compiler fields assigned, and read, outside construction, destruction and (de)serialization"""
    w, r = set(), set()
    for f in u.funcs.values():
        if f.name in ("sljit_create_compiler", "sljit_free_compiler", SER, DES):
            continue
        for n in f.cfg.nodes:
            if n.k == "set" and n.a[0] == "F":
                w.add(n.a[1])
            s = set()
            for e in (n.a if not (n.k == "set" and n.a[0] == "F") else None, n.b, n.c):
                if isinstance(e, tuple):
                    scratch.reads(("x",) + (e,), s)
                    for x in e:
                        scratch.reads(x, s)
            r |= s
    return w & r


def live(u, field):
    """a public function can read the value an earlier call left in the field: where"""
    fields = frozenset([field])
    touch = scratch.touching(u, fields)
    for name in sorted(compiler_api(u)):
        if name in ("sljit_free_compiler", SER) or name not in touch:
            continue
        r = base.Result(u.name)
        Analysis(u, scratch.Scratch(r, name, fields, touch)).run(name, frozenset())
        if r.findings:
            return r.findings[0]
    return None


def unit(u, res):
    if SER not in u.funcs:
        raise base.Broken("no serialization")
    base.need(HEADER in u.records and DES in u.funcs, "struct %s not found" % HEADER)
    word = 8 if "64" in u.cfg.arch or u.cfg.arch == "s390x" else 4
    out = {}
    for f in (SER, DES):
        hs = next((x[2] for n in u.funcs[f].cfg.nodes for e in (n.a, n.b) if isinstance(e, tuple) for m in walk(e) if m[0] == "m" and m[3] == HEADER
                   for x in [m[1]] if x[0] == "*"), None)
        if hs is None:
            hs = next((x[2] for g in u.funcs.values() for n in g.cfg.nodes for e in (n.a, n.b) if isinstance(e, tuple) for m in walk(e) if m[0] == "m" and m[3] == HEADER
                       for x in [m[1]] if x[0] == "*"), 0)
        cl = Copy(u, res, f, hs)
        cl.word = word
        an = Analysis(u, cl)
        an.run(f, (frozenset(), frozenset(), frozenset(), frozenset(["start"]), frozenset()))
        res.count("steps", an.steps)
        base.need(cl.ends, "%s never succeeds" % f)
        out[f] = cl
    s, d = out[SER], out[DES]
    # the fields
    need = written(u) - set(OTHER) - set(LISTS) - set(scratch.FIELDS) - set(LASTS)
    # members of the serialized structures that hold exactly one field
    holds = {}
    for m, os in s.saved.items():
        if m[0] and m[0].startswith(PRE):
            holds[m] = set(os)
    for f in sorted(need):
        ms = {m for m, os in holds.items() if os == {("F", f)}}
        res.count("fields")
        if not ms:
            l = live(u, f)
            if l:
                res.add("saved:" + f, "compiler->%s is not serialized, but later calls depend on it: %s" % (f, l[1]), l[2])
            else:
                res.note("working", f)
            continue
        res.note("saved", "%s <- %s" % (f, ",".join(sorted(m[1] for m in ms))))
        for st, w in d.ends:
            got = {x for t, x in st if t == ("F", f)}
            if not got:
                res.add("restored:" + f, "sljit_deserialize_compiler can succeed without restoring compiler->%s" % f, w)
            elif not got <= ms:
                res.add("restored:" + f, "compiler->%s was saved in %s, but is not restored from there" % (f, ", ".join(m[1] for m in ms)),
                        d.saved[("F", f)][sorted(got, key=repr)[0]])
    for f in LASTS:
        for st, w in d.ends:
            if not any(t == ("F", f) for t, x in st):
                res.add("restored:" + f, "sljit_deserialize_compiler can succeed without setting compiler->%s" % f, w)
    # members of records
    for m, os in sorted(holds.items()):
        if m[0] not in SAME:
            continue
        back = {t for t, xs in d.saved.items() if m in xs or ("[]", m) in xs}
        for o in os - {None}:
            if o[0] not in SAME[m[0]]:
                continue
            res.count("members")
            if o not in back:
                res.add("member:%s.%s" % o, "the member %s of struct %s is saved in %s.%s, but not restored from there" % (o[1], o[0], m[0], m[1]), d.where.get(m[0], ""))
        for o in s.computed.get(m, ()):
            if o not in back and not any(o[1].startswith(t[1] + ".") or t[1].startswith(o[1] + ".") for t in back if t[0] == o[0]):
                res.add("member:%s.%s" % o, "the member %s of struct %s is saved in %s.%s in some form, but not restored from there" % (o[1], o[0], m[0], m[1]), d.where.get(m[0], ""))
        for t in back:
            if t[0] in RECS and not any(o and o[0] in RECS and o == t for o in os) and not (None in os):
                res.add("member:%s.%s" % t, "the member %s of struct %s is restored from %s.%s, which holds something else" % (t[1], t[0], m[0], m[1]), list(d.saved[t].values())[0])
    # the sections
    ks, kd = set(s.where), set(d.where)
    for f, k in sorted(LISTS.items()):
        if f in [x[0] for x in u.records["sljit_compiler"]["fields"]]:
            for a, b, c in ((ks, SER, "saved"), (kd, DES, "restored")):
                if k not in a:
                    res.add("section:" + f, "the contents of compiler->%s are not %s" % (f, c), u.funcs[b].where())
    for k in sorted((ks ^ kd) - {"word", "end of header"}):
        res.add("section:" + k, "%s is handled on one side of the serialization only" % k, s.where.get(k) or d.where.get(k))
    both = sorted(ks & kd)
    for i, a in enumerate(both):
        for b in both[i + 1:]:
            x = (a in s.before[b], b in s.before[a])
            y = (a in d.before[b], b in d.before[a])
            res.count("orders")
            if x != y:
                res.add("order:%s:%s" % (a, b), "%s and %s are not read in the order in which they are written" % (a, b), d.where[b])
    for k, w in d.unchecked.items():
        res.add("size:" + k, "sljit_deserialize_compiler reads %s without comparing its size with the end of the buffer" % k, w)
    res.count("sections", len(both))


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("rel", "dbg")))
    return ck.finish(rs, "serialization", {"fields": 100, "members": 50, "orders": 100})
