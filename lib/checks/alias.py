"""C17: an operation reads its sources before it changes the destination, also when they are the same register."""
from flow import *
from common import *
import base, insn
from checks.regs import table

TABS = {"::reg_map": "r", "::freg_map": "f", "::vreg_map": "v", "::reg_lmap": "r", "::freg_lmap": "f"}
U64 = (1 << 64) - 1
NONE = frozenset()
TOPW = frozenset([(0, U64)])

# public function -> (destination, register file, sources)
OPS = {
    "sljit_emit_op1": ("dst", "r", ("src",)),
    "sljit_emit_op2": ("dst", "r", ("src1", "src2")),
    "sljit_emit_op2cmpz": ("dst", "r", ("src1", "src2")),
    "sljit_emit_op2r": ("dst_reg", "r", ("src1", "src2")),
    "sljit_emit_op2_shift": ("dst", "r", ("src1", "src2")),
    "sljit_emit_shift_into": ("dst_reg", "r", ("src1_reg", "src3")),
    "sljit_emit_select": ("dst_reg", "r", ("src1", "src2_reg")),
    "sljit_emit_fop1": ("dst", "rf", ("src",)),
    "sljit_emit_fop2": ("dst", "f", ("src1", "src2")),
    "sljit_emit_fop2r": ("dst_freg", "f", ("src1", "src2")),
    "sljit_emit_fselect": ("dst_freg", "f", ("src1", "src2_freg")),
    "sljit_emit_mem": ("reg", "m", ("mem",)),
    "sljit_emit_atomic_load": ("dst_reg", "r", ("mem_reg",)),
    "sljit_emit_simd_op2": ("dst_vreg", "v", ("src1_vreg", "src2")),
    "sljit_emit_simd_lane_replicate": ("vreg", "v", ("src",)),
    "sljit_emit_simd_extend": ("vreg", "v", ("src",)),
    "sljit_emit_simd_replicate": ("vreg", "v", ("src",)),
}


def orw(a, b):
    return (a[0] | b[0], (a[1] | b[1]) & ~((a[0] & ~a[1]) | (b[0] & ~b[1])))


class Alias(Client):
    """ps: (variables derived from the source operand, variables holding register numbers or instruction words, destination written?)"""
    max_ctx = 1000000
    regtabs = TABS      # tables of machine register numbers: the index is followed, not the number

    def __init__(self, res, u, tabs, k):
        self.res, self.u, self.tabs, self.k = res, u, tabs, k
        self.entry = self.what = ""
        self.opmask = insn.OPMASK[u.cfg.arch]
        self.decode = insn.DECODE[u.cfg.arch]
        self.consts = {}
        self.reads = self.writes = self.unknown = 0

    # -- values
    def tbits(self, e, ps, env):
        """the bits of e which come from the source operand"""
        if not ps[0]:
            return 0
        k = e[0]
        if k == "v":
            for v, m in ps[0]:
                if v == e[1]:
                    return m
            return 0
        if k in ("i", "s", "F", "f", "x", "*", "m", "&"):
            return 0
        if k == "b" and e[1] in CMP or k in ("&&", "||") or (k == "u" and e[1] == "!"):
            return 0
        if k == "t":
            m = self.tbits(e[2], ps, env)
            return m & ((1 << int(e[1][1:])) - 1) if m and e[1] in RANGES else m
        if k == "?":
            t = truth(ev(e[1], env))
            return (0 if t is False else self.tbits(e[2], ps, env)) | (0 if t else self.tbits(e[3], ps, env))
        if k == "b":
            x, y = self.tbits(e[2], ps, env), self.tbits(e[3], ps, env)
            if not x and not y:
                return 0
            if e[1] in ("|", "^"):
                return x | y
            if e[1] == "&":
                for m, o in ((x, e[3]), (y, e[2])):
                    c = ev(o, env)
                    if isconst(c):
                        return m & c[0] & U64
                return x | y
            s = ev(e[3], env)
            if e[1] in ("<<", ">>") and isconst(s) and 0 <= s[0] < 64:
                return (x << s[0]) & U64 if e[1] == "<<" else x >> s[0]
            return U64
        return U64 if any(isinstance(x, tuple) and x and self.tbits(x, ps, env) for x in e[1:]) else 0

    def tainted(self, e, ps, env):
        return bool(self.tbits(e, ps, env))

    def known(self, e, env):
        z, o = kb(e, env)
        v = ev(e, env)
        if isconst(v):
            return (v[0] & U64, 0)
        if v[0] is not None and v[0] >= 0 and v[1] is not None:
            z |= ~((1 << v[1].bit_length()) - 1)
        return (o & U64, ~(z | o) & U64)

    def word(self, e, ps, env):
        """-> (set of (value, unknown bits), fields): an instruction word or a part of it"""
        k = e[0]
        if k == "i":
            return frozenset([(e[1] & U64, 0)]), NONE
        if k == "t":
            return self.word(e[2], ps, env)
        if k == "v":
            for v, w, f in ps[1]:
                if v == e[1]:
                    c = ev(e, env)
                    return w, f
            return frozenset([self.known(e, env)]), NONE
        if k == "x" and e[1][0] == "v" and e[1][1].startswith("::"):
            t = self.regtabs.get(e[1][1])
            if t:
                i = e[2]
                while i[0] == "t":
                    i = i[2]
                if i[0] == "?":
                    c = truth(ev(i[1], env))
                    alt = [i[2], i[3]] if c is None else [i[2] if c else i[3]]
                    return frozenset([(0, 0)]), NONE.union(*(self.word(e[:2] + (a,) + e[3:], ps, env)[1] for a in alt))
                v = ev(e[2], env)
                return frozenset([(0, 0)]), frozenset([(0, t, v, self.tainted(e[2], ps, env), e[2][1] if e[2][0] == "v" else None)])
            n = e[1][1]
            if n == "::freg_ebit_map" and self.regtabs:
                return frozenset([(0, 0)]), NONE
            if n not in self.consts:
                self.consts[n] = table(self.u, n)
            t = self.consts[n]
            if t:
                v = ev(e[2], env)
                z, o = kb(e[2], env)
                c = [x for i, x in enumerate(t) if contains(v, i) and not (i & z) and (i & o) == o & U64]
                if c:
                    return frozenset((x & U64, 0) for x in c), NONE
            return TOPW, NONE
        if k == "b" and e[1] in ("|", "+", "^"):
            a, fa = self.word(e[2], ps, env)
            b, fb = self.word(e[3], ps, env)
            if len(a) * len(b) > 64:
                a = frozenset([self.hull(a)])
                if len(b) > 64:
                    b = frozenset([self.hull(b)])
            if e[1] == "^":
                return frozenset(((x[0] ^ y[0]) & ~(x[1] | y[1]), x[1] | y[1]) for x in a for y in b), fa | fb
            return frozenset(self.orw(x, y) for x in a for y in b), fa | fb
        if k == "b" and e[1] == "<<":
            s = ev(e[3], env)
            a, fa = self.word(e[2], ps, env)
            if isconst(s) and 0 <= s[0] < 64:
                s = s[0]
                return (frozenset(((x << s) & U64, (y << s) & U64) for x, y in a),
                        frozenset((f[0] + s,) + f[1:] for f in fa))
            return TOPW, NONE
        if k == "b" and e[1] == "&":
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                c = ev(y, env)
                if isconst(c):
                    a, fa = self.word(x, ps, env)
                    return frozenset((v & c[0] & U64, m & c[0] & U64) for v, m in a), fa
        if k == "b" and e[1] in CMP or k in ("&&", "||") or (k == "u" and e[1] == "!"):
            v = ev(e, env)
            return frozenset([(v[0], 0) if isconst(v) else (0, 1)]), NONE
        if k == "?":
            t = truth(ev(e[1], env))
            if t is not None:
                return self.word(e[2] if t else e[3], ps, env)
            a, fa = self.word(e[2], ps, env)
            b, fb = self.word(e[3], ps, env)
            return a | b, fa | fb
        return frozenset([self.known(e, env)]), NONE

    def orw(self, x, y):
        """x | y; an immediate of unknown value is taken to stay within its field"""
        m = self.opmask
        for a, b in ((x, y), (y, x)):
            if bin(a[1] & 0xffffffff).count("1") >= 12 and b[0] & ~b[1] & m and not a[0] & ~a[1] & m:
                a = (a[0], 0)
                return orw(a, b)
        return orw(x, y)

    @staticmethod
    def hull(ws):
        ws = list(ws)
        v, u = ws[0]
        for x, y in ws[1:]:
            u |= y | (v ^ x)
            v |= x
        return (v & ~u, u)

    # -- state
    def bind(self, ps, var, e, env, op=False):
        t, b, w = ps
        t = frozenset(x for x in t if x[0] != var)
        b = frozenset((x[0], x[1], frozenset(f[:4] + (None,) if f[4] == var else f for f in x[2])) for x in b if x[0] != var)
        if e is not None:
            m = self.tbits(e, ps, env)
            if m and ("v", var) in mentions(e):
                m = U64     # a loop
            if m:
                t = t | {(var, m)}
            ws, fs = self.word(e, ps, env)
            if fs:
                b = b | {(var, ws, fs)}
            elif len(ws) > 1 and len(ws) <= 32 and all(not u for v, u in ws):
                # a table entry: one of several opcodes
                b = b | {(var, ws, fs)}
            elif op and len(ws) == 1 and all(not u and v & self.opmask for v, u in ws):
                # paths with different opcodes are kept apart
                b = b | {(var, ws, fs)}
        return (t, b, w)

    def on_set(self, an, fn, n, ps, env):
        if n.a[0] == "v" and not n.a[1].startswith("::"):
            return self.bind(ps, n.a[1], n.b, env, fn.ltypes.get(n.a[1]) == "unsigned int")
        return ps

    def call_ps(self, an, fn, n, ps, env):
        g = an.unit.funcs[n.b]
        t, b = set(), set()
        for p, a in zip(g.params, n.c):
            m = self.tbits(a, ps, env)
            if m:
                t.add((p, m))
            ws, fs = self.word(a, ps, env)
            fs = self.values(fs, env)
            if fs or 1 < len(ws) <= 32 and all(not u for v, u in ws):
                b.add((p, ws, fs))
        return (frozenset(t), frozenset(b), ps[2])

    def ret_ps(self, an, fn, n, before, after, env):
        t, b, w = before
        if n.a:
            t = frozenset(x for x in t if x[0] != n.a)
            b = frozenset(x for x in b if x[0] != n.a)
            for v, m in after[0]:
                if v == "%ret":
                    t = t | {(n.a, m)}
            for x in after[1]:
                if x[0] == "%ret":
                    b = b | {(n.a,) + x[1:]}
        return (t, b, after[2])

    def on_ret(self, an, fn, n, ps, env):
        t, b = NONE, NONE
        if n.a is not None:
            m = self.tbits(n.a, ps, env)
            if m:
                t = frozenset([("%ret", m)])
            ws, fs = self.word(n.a, ps, env)
            if fs:
                b = frozenset([("%ret", ws, self.values(fs, env))])
        return (t, b, ps[2])

    @staticmethod
    def values(fs, env):
        """fields with the present values of their index variables"""
        return frozenset(f[:2] + ((meet(f[2], ev(("v", f[4]), env)) or f[2]) if f[4] else f[2], f[3], None) for f in fs)

    def param_facts(self, an, fn, callee, args, env):
        r = Client.param_facts(self, an, fn, callee, args, env) + self.param_bits(callee, args, env)
        return r + [f for f in self.param_ranges(callee, args, env) if f[0][0] == "b"]

    def mem_facts(self, an, env):
        return [(k, v) for k, v in env.items() if k[0] == "F" and k[1] == "error"]

    def on_call(self, an, fn, n, ps, env):
        if n.b in insn.LEAF:
            return self.emit(fn, n, ps, env, insn.LEAF[n.b])
        if isinstance(n.b, str) and n.b in an.unit.funcs:
            return None
        return None

    def emit(self, fn, n, ps, env, width):
        ws, fs = self.word(n.c[1], ps, env)
        if not fs:
            return [(ps, ZERO, None)]
        fs = self.values(fs, env)
        reads, writes = set(), set()
        for w in ws:
            d = self.decode(w, width)
            if d is None:
                self.unknown += 1
                self.res.note("undecided", fn.where(n.line))
                continue
            for f in fs:
                role = d.get(f[0], "")
                if role in ("mv", "add"):
                    two = any(g[0] == 2 for g in fs)
                    role = ("w" if role == "mv" else "rw") if two else "r"
                if "r" in role:
                    reads.add(f)
                if "w" in role:
                    writes.add(f)
        for s, tab, v, t, x in reads:
            if t and tab in self.tabs and contains(v, self.k):
                self.reads += 1
                if ps[2]:
                    self.res.add("%s:%s:%s:%s" % (self.u.cfg.arch, self.entry, self.what, fn.name),
                                 "%s with %s: an instruction emitted by %s reads the source after the destination register was changed" % (
                                     self.entry, self.what, fn.name), fn.where(n.line))
        wr = any(tab in self.tabs and isconst(v) and v[0] == self.k for s, tab, v, t, x in writes)
        if wr:
            self.writes += 1
            ps = (ps[0], ps[1], True)
        return [(ps, ZERO, None)]


K, K2 = 2, 3


# the operations each function accepts, and the parameter they are in
OPCODES = {
    "sljit_emit_op1": ("op", "OP1", ()),
    "sljit_emit_op2": ("op", "OP2", ()),
    "sljit_emit_op2cmpz": ("op", "OP2", ()),
    "sljit_emit_op2r": ("op", "OP2R", ()),
    "sljit_emit_shift_into": ("op", ("SHL", "MSHL", "LSHR", "MLSHR"), ()),
    "sljit_emit_select": ("type", None, ()),
    "sljit_emit_fselect": ("type", None, ()),
    "sljit_emit_fop1": ("op", "FOP1", ("CMP_F64",)),
    "sljit_emit_fop2": ("op", "FOP2", ()),
    "sljit_emit_fop2r": ("op", "FOP2R", ()),
}


def wide(u):
    return u.cfg.arch in ("aarch64", "riscv64", "riscv64_ext", "riscv64_c", "loongarch64", "mips64el", "ppc64le", "x86_64", "s390x")


def opcodes(u, name):
    """-> (label, opcode name, 32 bit?, facts about the operation parameter)"""
    if name not in OPCODES:
        yield "", None, False, []
        return
    par, names, skip = OPCODES[name]
    b32 = u.k("SLJIT_32")
    if names is None:
        names = [None]
    elif isinstance(names, str):
        names = [x for x in base.facts.OPCODES[names] if x not in skip]
    for n in names:
        for w in (0, 1) if wide(u) or names == [None] or "F64" in (n or "") else (0,):
            o, z = 0, 0
            if n is not None:
                o = u.k("SLJIT_" + n)
                z = (b32 - 1) & ~o
            if wide(u) or w or names == [None] or "F64" in (n or ""):
                o, z = (o | b32, z) if w else (o, z | b32)
            yield (n or "") + ("32" if w else ""), n, bool(w), [(("K", ("v", par)), (z, o))]


def scenarios(u, name, fn):
    """-> (description, tables, facts, tainted parameter)"""
    for label, op, w, f in opcodes(u, name):
        for d, tabs, facts, s in aliases(u, name, fn):
            if name == "sljit_emit_fop1":
                # conversions to integers may share the base register of the source, the others the float register
                if op in ("CONV_F64_FROM_SW", "CONV_F64_FROM_S32", "CONV_F64_FROM_UW", "CONV_F64_FROM_U32") or \
                        ("r" in tabs) != op.endswith("FROM_F64"):
                    continue
            yield (label + " " + d).strip(), tabs, facts + f, s


def aliases(u, name, fn):
    """-> (description, tables, facts, tainted parameter)"""
    dst, kind, srcs = OPS[name]
    mem1 = u.k("SLJIT_MEM1_SP") - u.k("SLJIT_SP")     # SLJIT_MEM
    vec = "v" if "::vreg_map" in u.globals and kind == "v" else "f"
    for s in srcs:
        if s not in fn.params or dst not in fn.params:
            continue
        for f in ("r", "f") if kind == "rf" else (("f",) if kind == "f" else (vec,) if kind == "v" else ("r",)):
            base_ = [(("v", dst), const(K)), (("F", "error"), ZERO)]
            if kind == "m":
                # a load
                st = u.k("SLJIT_MEM_STORE")
                base_.append((("K", ("v", "type")), (st, 0)))
            if dst + "w" in fn.params:
                base_.append((("v", dst + "w"), ZERO))
            if kind != "m" and not s.startswith("mem"):
                x = base_ + [(("v", s), const(K))]
                if s + "w" in fn.params:
                    x.append((("v", s + "w"), ZERO))
                if name == "sljit_emit_simd_replicate" or name == "sljit_emit_fop1" and f == "r":
                    pass
                else:
                    yield "%s == %s" % (dst, s), (f,), x, s
            if s == "mem_reg":
                yield "%s == %s" % (dst, s), ("r",), base_ + [(("v", s), const(K))], s
            if s + "w" in fn.params and f == "r":
                for d, v in (("[%s]" % dst, mem1 | K), ("[%s+x]" % dst, mem1 | K | (K2 << 8)), ("[x+%s]" % dst, mem1 | K2 | (K << 8))):
                    yield "%s == %s" % (s, d), ("r",), base_ + [(("v", s), const(v))], s
                if kind == "m":
                    for p, q in ((K, 5), (5, K)):
                        for d, v in (("[first]" if p == K else "[second]", mem1 | K), ("[x+first]" if p == K else "[x+second]", mem1 | K2 | (K << 8)),
                                     ("[first+x]" if p == K else "[second+x]", mem1 | K | (K2 << 8))):
                            yield "pair load from " + d, ("r",), base_[1:] + [(("v", dst), const(p | (q << 8))), (("v", s), const(v))], s


def unit(u, res):
    shared = {}
    for name, fn in sorted(compiler_api(u).items()):
        if name not in OPS:
            continue
        for what, tabs, facts, s in scenarios(u, name, fn):
            # the summaries of the helper functions are the same for all the scenarios
            if tabs not in shared:
                shared[tabs] = Analysis(u, Alias(res, u, tabs, K))
            an = shared[tabs]
            cl = an.client
            cl.entry, cl.what = name, what
            outs = an.run(name, (frozenset([(s, U64)]), NONE, False), facts)
            res.count("scenarios")
            if any(ps[2] for ps, rv in outs):
                res.note("decided", (u.cfg.arch, name, what))
            else:
                res.note("no_events", "%s %s %s" % (u.cfg.arch, name, what))
    for an in shared.values():
        res.count("steps", an.steps)
        res.count("contexts", len(an.memo))
        res.count("source_reads", an.client.reads)
        res.count("destination_writes", an.client.writes)


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs([a for a in base.facts.ALL if a in insn.DECODE], ("rel",)))
    return ck.finish(rs, "sources before destination", {"decided": 3500})
