"""C18: a successful operation writes its destination.  C19: it writes no other register of the program."""
from flow import *
from common import *
import base, insn
from checks.alias import Alias, NONE, wide

# registers of the scenarios: destination, sources, base and index of source memory operands, base and index of destinations
D, S1, S2, S3, B, X, DB, DX, P2 = 2, 3, 4, 5, 6, 7, 8, 9, 10


def bits(e, r):
    if e[0] == "b" and e[1] == "&" and e[2][0] == "v" and e[3][0] == "i":
        r.add((e[2][1], e[3][1]))
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            bits(x, r)


class Effects(Alias):
    refine_args = True

    """ps[2]: (which of the required effects (kind, table, register) the emitted instructions have, memory operand whose address is cached);
    kind is w(rite) or r(ead)"""

    def __init__(self, res, u, required, allowed):
        Alias.__init__(self, res, u, (), 0)
        self.required, self.allowed = required, allowed
        self.limit = {"r": u.k("SLJIT_NUMBER_OF_REGISTERS"), "f": u.k("SLJIT_NUMBER_OF_FLOAT_REGISTERS"),
                      "v": u.k("SLJIT_NUMBER_OF_VECTOR_REGISTERS")}
        self.others = 0

    def done(self, ps, what=None):
        """ps with the effects `what` (None: any effect)"""
        return (ps[0], ps[1], (ps[2][0] | frozenset(i for i, r in enumerate(self.required) if what is None or r in what),) + ps[2][1:])

    def tag(self, ps, tags):
        return (ps[0], ps[1], ps[2][:2] + (tags,)) if tags != ps[2][2] else ps

    def tested(self, fn):
        """(variable, bit) tested by branches of the function"""
        r = fn.__dict__.get("_tested")
        if r is None:
            r = set()
            for n in fn.cfg.nodes:
                if n.k == "br":
                    bits(n.a, r)
            fn._tested = r
        return r

    def on_set(self, an, fn, n, ps, env):
        if n.a == ("F", "cache_arg"):
            v = ev(n.b, env)
            return (ps[0], ps[1], (ps[2][0], v[0] if isconst(v) else None, ps[2][2]))
        if n.a == ("F", "error") and ev(n.b, env) != ZERO:
            return None     # not a success (C01, C02)
        if n.a[0] == "v" and not n.a[1].startswith("::"):
            v, tags = n.a[1], ps[2][2]
            b = n.b
            if b[0] == "b" and b[1] == "|" and b[2] == n.a and b[3][0] == "i":
                # a flag set on some paths only
                if (v, b[3][1]) in self.tested(fn):
                    tags = tags | {(v, b[3][1], "|")}
            else:
                tags = frozenset(x for x in tags if x[0] != v)
                if b[0] == "v":
                    tags = tags | {(v,) + x[1:] for x in ps[2][2] if x[0] == b[1]}
            ps = self.tag(ps, tags)
        return Alias.on_set(self, an, fn, n, ps, env)

    def on_edge(self, an, fn, n, ps, env, edge, env2):
        # the result of a call is forgotten when it was tested
        if any(x[2] == "=" for x in ps[2][2]):
            m = mentions(n.a)
            ps = self.tag(ps, frozenset(x for x in ps[2][2] if x[2] != "=" or ("v", x[0]) not in m))
        return ps

    def call_ps(self, an, fn, n, ps, env):
        return self.tag(Alias.call_ps(self, an, fn, n, ps, env), NONE)

    def on_ret(self, an, fn, n, ps, env):
        return self.tag(Alias.on_ret(self, an, fn, n, ps, env), NONE)

    def ret_ps(self, an, fn, n, before, after, env):
        return self.tag(Alias.ret_ps(self, an, fn, n, before, after, env), frozenset(x for x in before[2][2] if x[0] != n.a))

    def ret_val(self, an, fn, n, ps, rv, several):
        return self.tag(ps, ps[2][2] | {(n.a, rv[0], "=")}) if several and n.a and isconst(rv) else ps

    def param_facts(self, an, fn, callee, args, env):
        r = Alias.param_facts(self, an, fn, callee, args, env)
        for p, a in zip(callee.params, args):
            if callee.ptypes.get(p) in ("long", "int") and a[0] == "v":
                v = ev(a, env)
                if v[0] is not None and not isconst(v) and v[1] is not None and -65536 <= v[0] and v[1] <= 65536:
                    r.append((("v", p), v))
        return r

    def ps_facts(self, ps):
        r = {("F", "error"): ZERO}
        if ps[2][1] is not None:
            r[("F", "cache_arg")] = const(ps[2][1])
        return r

    def mem_facts(self, an, env):
        return [(k, v) for k, v in env.items() if k[0] == "F" and k[1] in ("error", "cache_arg") and isconst(v)]

    def on_call(self, an, fn, n, ps, env):
        if n.b in insn.LEAF:
            return self.emit(fn, n, ps, env, insn.LEAF[n.b])
        if n.b == "ensure_buf":
            # code that is not written by the instruction functions: anything may happen
            self.res.note("direct", fn.where(n.line))
            return [(self.done(ps), NZ, None)]
        return None

    def emit(self, fn, n, ps, env, width):
        ws, fs = self.word(n.c[1], ps, env)
        fs = self.values(fs, env)
        got = set()
        if not fs and any(u & 0xffff == 0xffff for v, u in ws):
            self.res.note("undecided", fn.where(n.line))
            return [(self.done(ps), ZERO, None)]
        for w in ws:
            d = self.decode(w, width)
            if d is None:
                self.res.note("undecided", fn.where(n.line))
            for f in fs:
                s, tab, v = f[:3]
                role = "?" if d is None else d.get(s, "")
                if role in ("mv", "add"):
                    two = any(g[0] == 2 for g in fs)
                    role = ("w" if role == "mv" else "rw") if two else "r"
                if role == "?" or not isconst(v):
                    # an instruction whose effect is not known may be the expected one
                    got.update(r for r in self.required if self.same(r[1], tab) and contains(v, r[2]) and (role == "?" or r[0] in role))
                    continue
                got.update(r for r in self.required if self.same(r[1], tab) and r[2] == v[0] and r[0] in role)
                if "w" in role and 1 <= v[0] <= self.limit[tab]:
                    self.writes += 1
                    if not any(self.same(t, tab) and v[0] == i for t, i in self.allowed):
                        self.res.add("%s:%s:%s" % (self.u.cfg.arch, self.entry, fn.name),
                                     "%s (%s): an instruction emitted by %s changes register %d (%s), which is not an operand to be changed" % (
                                         self.entry, self.what, fn.name, v[0], {"r": "general", "f": "float", "v": "vector"}[tab]),
                                     fn.where(n.line))
        return [(self.done(ps, got), ZERO, None)]

    @staticmethod
    def same(a, b):
        return a == b or a in "fv" and b in "fv"


def bit(par, zeros=0, ones=0):
    return (("K", ("v", par)), (zeros, ones))


class Scenario:
    def __init__(self, label, facts, required, allowed):
        self.label, self.facts, self.required, self.allowed = label, facts, tuple(required), tuple(allowed)


def operand(u, par, kind, freg=False, dst=False, idx=None):
    """facts for an operand of a kind"""
    mem = u.k("SLJIT_MEM1_SP") - u.k("SLJIT_SP")
    b, x = (DB, DX) if dst else (B, X)
    if kind == "reg":
        return [(("v", par), const(idx)), (("v", par + "w"), ZERO)]
    if kind == "imm":
        return [(("v", par), const(u.k("SLJIT_IMM")))]
    if kind == "mem":
        return [(("v", par), const(mem | b))]
    if kind == "mem0":
        return [(("v", par), const(mem))]
    if kind == "sp":
        return [(("v", par), const(mem | u.k("SLJIT_SP")))]
    if kind == "mem2":
        return [(("v", par), const(mem | b | (x << 8)))]
    raise KeyError(kind)


def opfacts(u, name, par):
    b32 = u.k("SLJIT_32")
    o = u.k("SLJIT_" + name)
    for w in (0, 1):
        yield name + ("32" if w else ""), w, [bit(par, (b32 - 1) & ~o | (0 if w else b32), o | (b32 if w else 0))]


def dest(u, kind, t="r"):
    """required and allowed effects of a destination"""
    if kind == "reg":
        return [("w", t, D)], [(t, D)]
    if kind in ("mem", "mem2"):
        return [("r", "r", DB)], []
    return [], []


def ops(cls, *skip):
    return [x for x in base.facts.OPCODES[cls] if x not in skip]


def scenarios(u):
    """-> {function: [Scenario]}"""
    r = {}

    def add(fn, label, facts, req, allow):
        r.setdefault(fn, []).append(Scenario(label, facts + [(("F", "error"), ZERO)], req, allow))

    for n in ops("OP1"):
        for l, w, f in opfacts(u, n, "op"):
            for d, s in (("reg", "reg"), ("reg", "mem"), ("reg", "mem2"), ("reg", "imm"), ("reg", "sp"), ("reg", "mem0"),
                         ("mem", "reg"), ("mem", "imm"), ("mem2", "reg"), ("mem", "mem"), ("mem2", "mem2"), ("sp", "reg"), ("mem0", "reg")):
                req, al = dest(u, d)
                if s == "imm" and d == "reg" and u.cfg.arch == "aarch64":
                    req = []        # immediates are loaded in a loop over their non-zero parts
                add("sljit_emit_op1", "%s %s, %s" % (l, d, s), f + operand(u, "dst", d, dst=True, idx=D) + operand(u, "src", s, idx=S1), req, al)
    two = [("reg", "reg"), ("mem", "reg"), ("reg", "mem"), ("imm", "reg"), ("reg", "imm"), ("mem2", "reg"), ("reg", "mem2"), ("mem", "mem"),
           ("mem", "mem2"), ("mem2", "mem"), ("imm", "mem"), ("mem", "imm")]
    for n in ops("OP2"):
        for l, w, f in opfacts(u, n, "op"):
            for fn in ("sljit_emit_op2", "sljit_emit_op2cmpz"):
                if fn == "sljit_emit_op2cmpz" and n not in ("ADD", "SUB", "AND", "OR", "XOR", "SHL", "LSHR", "ASHR"):
                    continue
                for d in ("reg", "mem", "mem2", "sp"):
                    for s, t in two if d in ("reg", "mem") else two[:2]:
                        req, al = dest(u, d)
                        add(fn, "%s %s, %s, %s" % (l, d, s, t), f + operand(u, "dst", d, dst=True, idx=D) + operand(u, "src1", s, idx=S1) +
                            operand(u, "src2", t, idx=S2), req, al)
            for s, t in two:
                add("sljit_emit_op2u", "%s %s, %s" % (l, s, t), f + operand(u, "src1", s, idx=S1) + operand(u, "src2", t, idx=S2), [], [])
    for n in ops("OP2R"):
        for l, w, f in opfacts(u, n, "op"):
            for s, t in two:
                req, al = dest(u, "reg")
                add("sljit_emit_op2r", "%s %s, %s" % (l, s, t), f + [(("v", "dst_reg"), const(D))] + operand(u, "src1", s, idx=S1) +
                    operand(u, "src2", t, idx=S2), req, al)
    for n in ("SHL", "MSHL", "LSHR", "MLSHR"):
        for l, w, f in opfacts(u, n, "op"):
            for t in ("reg", "mem", "mem2", "imm"):
                for s2 in (S1, S2):
                    add("sljit_emit_shift_into", "%s %s%s" % (l, t, " rotate" if s2 == S1 else ""), f + [
                        (("v", "dst_reg"), const(D)), (("v", "src1_reg"), const(S1)), (("v", "src2_reg"), const(s2))] +
                        operand(u, "src3", t, idx=S3), *dest(u, "reg"))
    b32 = u.k("SLJIT_32")
    for w in (0, 1):
        f = [bit("type", 0 if w else b32, b32 if w else 0)]
        for s in ("reg", "mem", "mem2", "imm"):
            add("sljit_emit_select", "%s%s" % (s, "32" if w else ""), f + [(("v", "dst_reg"), const(D)), (("v", "src2_reg"), const(S2))] +
                operand(u, "src1", s, idx=S1), *dest(u, "reg"))
            if s != "imm":
                add("sljit_emit_fselect", "%s%s" % (s, "32" if w else ""), f + [(("v", "dst_freg"), const(D)), (("v", "src2_freg"), const(S2))] +
                    operand(u, "src1", s, idx=S1), *dest(u, "reg", "f"))
            for t in ("reg", "mem", "imm"):
                add("sljit_emit_cmp", "%s, %s%s" % (s, t, " 32" if w else ""), f + operand(u, "src1", s, idx=S1) + operand(u, "src2", t, idx=S2), [], [])
                if s != "imm" and t != "imm":
                    add("sljit_emit_fcmp", "%s, %s%s" % (s, t, " 32" if w else ""), f + operand(u, "src1", s, idx=S1) +
                        operand(u, "src2", t, idx=S2), [], [])
    for n in ops("FOP1"):
        for l, w, f in opfacts(u, n, "op"):
            st = "r" if n.startswith("CONV_S") else "f"
            for d, s in (("reg", "reg"), ("reg", "mem"), ("reg", "mem2"), ("mem", "reg"), ("mem2", "mem"), ("mem", "mem2"), ("reg", "imm"), ("mem", "imm")):
                if s == "imm" and not n.startswith("CONV_F64_FROM_"):
                    continue
                if s == "imm" and n == "CONV_F64_FROM_F32":
                    continue
                req, al = dest(u, d, st)
                if n == "CMP_F64":
                    req, al = [], []
                add("sljit_emit_fop1", "%s %s, %s" % (l, d, s), f + operand(u, "dst", d, dst=True, idx=D) + operand(u, "src", s, idx=S1), req, al)
    ftwo = [x for x in two if "imm" not in x]
    for cls, fn, dst in (("FOP2", "sljit_emit_fop2", "dst"), ("FOP2R", "sljit_emit_fop2r", "dst_freg")):
        for n in ops(cls):
            for l, w, f in opfacts(u, n, "op"):
                for d in ("reg", "mem", "mem2") if dst == "dst" else ("reg",):
                    for s, t in ftwo:
                        add(fn, "%s %s, %s, %s" % (l, d, s, t), f + operand(u, dst, d, dst=True, idx=D) + operand(u, "src1", s, idx=S1) +
                            operand(u, "src2", t, idx=S2), *dest(u, d, "f"))
    for fn in ("sljit_emit_fset32", "sljit_emit_fset64"):
        add(fn, "", [(("v", "freg"), const(D))], *dest(u, "reg", "f"))
    add("sljit_emit_fcopy", "to float", [(("v", "op"), const(1)), (("v", "freg"), const(D)), (("v", "reg"), const(S1))], *dest(u, "reg", "f"))
    add("sljit_emit_fcopy", "to float 32", [(("v", "op"), const(1 | b32)), (("v", "freg"), const(D)), (("v", "reg"), const(S1))], *dest(u, "reg", "f"))
    add("sljit_emit_fcopy", "from float", [(("v", "op"), const(2)), (("v", "freg"), const(S1)), (("v", "reg"), const(D))], *dest(u, "reg"))
    add("sljit_emit_fcopy", "from float 32", [(("v", "op"), const(2 | b32)), (("v", "freg"), const(S1)), (("v", "reg"), const(D))], *dest(u, "reg"))
    if not wide(u):
        add("sljit_emit_fcopy", "pair to float", [(("v", "op"), const(1)), (("v", "freg"), const(D)), (("v", "reg"), const(S1 | (S2 << 8)))],
            *dest(u, "reg", "f"))
        add("sljit_emit_fcopy", "pair from float", [(("v", "op"), const(2)), (("v", "freg"), const(S1)), (("v", "reg"), const(D | (P2 << 8)))],
            [("w", "r", D), ("w", "r", P2)], [("r", D), ("r", P2)])
    for n in ("MOV", "MOV_S32", "AND", "OR", "XOR"):
        for l, w, f in opfacts(u, n, "op"):
            for d in ("reg", "mem", "mem2"):
                add("sljit_emit_op_flags", "%s %s" % (l, d), f + operand(u, "dst", d, dst=True, idx=D), *dest(u, d))
    for n, req in (("LMUL_UW", 2), ("LMUL_SW", 2), ("DIVMOD_UW", 2), ("DIVMOD_SW", 2), ("DIV_UW", 1), ("DIV_SW", 1), ("NOP", 0), ("BREAKPOINT", 0),
                   ("MEMORY_BARRIER", 0), ("ENDBR", 0)):
        for l, w, f in opfacts(u, n, "op"):
            # 32 bit ARM divides with a call
            add("sljit_emit_op0", l, [(("v", "op"), const(f[0][1][1]))], [("w", "r", i + 1) for i in range(req) if not (n.startswith("DIV") and u.cfg.arch.startswith(("armv", "armt")))],
                [("r", i + 1) for i in range(req)])
    for n in ops("SRC_DST"):
        if n in ("FAST_ENTER", "GET_RETURN_ADDRESS"):
            for d in ("reg", "mem", "mem2"):
                add("sljit_emit_op_dst", "%s %s" % (n, d), [(("v", "op"), const(u.k("SLJIT_" + n)))] + operand(u, "dst", d, dst=True, idx=D),
                    *dest(u, d))
        elif "SKIP" not in n:
            for s in ("reg", "mem", "mem2")["PREFETCH" in n:]:
                add("sljit_emit_op_src", "%s %s" % (n, s), [(("v", "op"), const(u.k("SLJIT_" + n)))] + operand(u, "src", s, idx=S1), [], [])
    st = u.k("SLJIT_MEM_STORE")
    supp = u.k("SLJIT_MEM_SUPP")
    for n in ops("OP1")[:9]:
        o = u.k("SLJIT_" + n)
        for l, w, f in opfacts(u, n, "type"):
            z, on = f[0][1]
            for m in ("mem", "mem2", "sp", "mem0"):
                add("sljit_emit_mem", "load %s %s" % (l, m), [bit("type", z | st, on), (("v", "reg"), const(D))] + operand(u, "mem", m), *dest(u, "reg"))
                add("sljit_emit_mem", "store %s %s" % (l, m), [bit("type", z, on | st), (("v", "reg"), const(S1))] + operand(u, "mem", m, dst=True),
                    [("r", "r", DB)] if m in ("mem", "mem2") else [], [])
                if n == "MOV" and not w:
                    add("sljit_emit_mem", "load pair %s" % m, [bit("type", z | st, on), (("v", "reg"), const(D | (P2 << 8)))] + operand(u, "mem", m),
                        [("w", "r", D), ("w", "r", P2)], [("r", D), ("r", P2)])
                    add("sljit_emit_mem", "store pair %s" % m, [bit("type", z, on | st), (("v", "reg"), const(S1 | (S2 << 8)))] +
                        operand(u, "mem", m, dst=True), [("r", "r", S1), ("r", "r", S2)], [])
            for m in ("mem", "mem2"):
                add("sljit_emit_mem_update", "load %s %s" % (l, m), [bit("type", z | st | supp, on), (("v", "reg"), const(D))] + operand(u, "mem", m),
                    [("w", "r", D), ("w", "r", B)], [("r", D), ("r", B)])
                add("sljit_emit_mem_update", "store %s %s" % (l, m), [bit("type", z | supp, on | st), (("v", "reg"), const(S1))] + operand(u, "mem", m),
                    [("r", "r", S1), ("w", "r", B)], [("r", B)])
    for l, w, f in opfacts(u, "MOV_F64", "type"):
        z, on = f[0][1]
        for m in ("mem", "mem2", "sp", "mem0"):
            add("sljit_emit_fmem", "load %s %s" % (l, m), [bit("type", z | st, on), (("v", "freg"), const(D))] + operand(u, "mem", m), *dest(u, "reg", "f"))
            add("sljit_emit_fmem", "store %s %s" % (l, m), [bit("type", z, on | st), (("v", "freg"), const(S1))] + operand(u, "mem", m, dst=True),
                [("r", "f", S1)], [])
        for m in ("mem", "mem2"):
            add("sljit_emit_fmem_update", "load %s %s" % (l, m), [bit("type", z | st | supp, on), (("v", "freg"), const(D))] + operand(u, "mem", m),
                [("w", "f", D), ("w", "r", B)], [("f", D), ("r", B)])
            add("sljit_emit_fmem_update", "store %s %s" % (l, m), [bit("type", z | supp, on | st), (("v", "freg"), const(S1))] + operand(u, "mem", m),
                [("r", "f", S1), ("w", "r", B)], [("r", B)])
    # a quad register of 32 bit ARM is a pair of float registers, the first one odd
    arm = u.cfg.arch.startswith(("armv", "armt"))
    V = 1 if arm else D

    def vdest():
        return [("w", "v", V)], [("v", V)] + ([("v", V + 1)] if arm else [])
    test = u.k("SLJIT_SIMD_TEST")
    sst = 1     # SLJIT_SIMD_STORE
    for m in ("reg", "mem", "mem2"):
        add("sljit_emit_simd_mov", "load %s" % m, [bit("type", test | sst, 0), (("v", "vreg"), const(V))] + operand(u, "srcdst", m, idx=S1),
            *vdest())
        add("sljit_emit_simd_mov", "store %s" % m, [bit("type", test, sst), (("v", "vreg"), const(S1))] + operand(u, "srcdst", m, idx=V, dst=True),
            *(vdest() if m == "reg" else dest(u, m, "v")))
        add("sljit_emit_simd_extend", m, [bit("type", test, 0), (("v", "vreg"), const(V))] + operand(u, "src", m, idx=S1), *vdest())
        add("sljit_emit_simd_op2", m, [bit("type", test, 0), (("v", "dst_vreg"), const(V)), (("v", "src1_vreg"), const(S1))] +
            operand(u, "src2", m, idx=S2), *vdest())
    fl = u.k("SLJIT_SIMD_FLOAT")
    for m in ("reg", "mem", "mem2", "imm"):
        for isf in (0, 1):
            z, on = (test, fl) if isf else (test | fl, 0)
            k = "float " if isf else ""
            if m == "imm" and isf:
                continue
            add("sljit_emit_simd_replicate", k + m, [bit("type", z, on), (("v", "vreg"), const(V))] + operand(u, "src", m, idx=S1), *vdest())
            add("sljit_emit_simd_lane_mov", k + "load " + m, [bit("type", z | sst, on), (("v", "vreg"), const(V))] + operand(u, "srcdst", m, idx=S1),
                *vdest())
            if m != "imm":
                add("sljit_emit_simd_lane_mov", k + "store " + m, [bit("type", z | u.k("SLJIT_SIMD_LANE_ZERO"), on | sst), (("v", "vreg"), const(S1))] +
                    operand(u, "srcdst", m, idx=D, dst=True), *dest(u, m, "f" if isf else "r"))
    add("sljit_emit_simd_lane_replicate", "", [bit("type", test, 0), (("v", "vreg"), const(V)), (("v", "src"), const(S1))], *vdest())
    for m in ("reg", "mem", "mem2"):
        add("sljit_emit_simd_sign", m, [bit("type", test | sst, 0), (("v", "vreg"), const(S1))] + operand(u, "dst", m, idx=D, dst=True), *dest(u, m, "r"))
    at = u.k("SLJIT_ATOMIC_TEST")
    for n in ops("OP1")[:9]:
        for l, w, f in opfacts(u, n, "op"):
            z, on = f[0][1]
            add("sljit_emit_atomic_load", l, [bit("op", z | at, on), (("v", "dst_reg"), const(D)), (("v", "mem_reg"), const(S1))], *dest(u, "reg"))
            add("sljit_emit_atomic_store", l, [bit("op", z | at, on), (("v", "src_reg"), const(S1)), (("v", "mem_reg"), const(S2)),
                                               (("v", "temp_reg"), const(S3))], [("r", "r", S1), ("r", "r", S2)], [("r", S3)])
    for d in ("reg", "mem", "mem2"):
        add("sljit_get_local_base", d, operand(u, "dst", d, dst=True, idx=D), *dest(u, d))
        for n in ("MOV", "MOV_S32", "MOV32", "MOV_U8"):
            for l, w, f in opfacts(u, n, "op"):
                add("sljit_emit_const", "%s %s" % (l, d), f + operand(u, "dst", d, dst=True, idx=D), *dest(u, d))
        for o, n in ((1, "MOV_ABS_ADDR"), (2, "ADD_ABS_ADDR")):
            # the address itself is loaded by instructions written by sljit_generate_code
            req, al = dest(u, d)
            add("sljit_emit_op_addr", n + " " + d, [(("v", "op"), const(o))] + operand(u, "dst", d, dst=True, idx=D), req if o == 2 or d != "reg" else [], al)
    for s in ("reg", "mem", "mem2", "imm"):
        add("sljit_emit_ijump", s, [(("v", "type"), const(u.k("SLJIT_JUMP")))] + operand(u, "src", s, idx=S1), [], [])
    return r


def unit(u, res, pid="C18"):
    shared = {}
    api = compiler_api(u)
    for name, ss in sorted(scenarios(u).items()):
        fn = api.get(name) or u.funcs.get(name)
        if fn is None:
            continue
        for sc in ss:
            known = set(fn.params)
            facts = [f for f in sc.facts if f[0][0] == "F" or (f[0][1] if f[0][0] == "v" else f[0][1][1]) in known]
            key = (sc.required, sc.allowed)
            if key not in shared:
                shared[key] = Analysis(u, Effects(res if pid == "C19" else base.Result(u.name), u, sc.required, sc.allowed))
            an = shared[key]
            cl = an.client
            cl.entry, cl.what = name, sc.label
            outs = an.run(name, (NONE, NONE, (NONE, None, NONE)), facts)
            res.count("scenarios")
            ptr = fn.ret.endswith("*")
            good = [ps for ps, rv in outs if (rv != ZERO if ptr else contains(rv, 0))]
            if not good:
                res.note("unsupported", "%s %s %s" % (u.cfg.arch, name, sc.label))
                continue
            res.note("supported", (u.cfg.arch, name, sc.label))
            for ps in good:
                for i, q in enumerate(sc.required):
                    res.count("obligations")
                    if i not in ps[2][0] and pid == "C18":
                        res.add("%s:%s:%s" % (u.cfg.arch, name, sc.label),
                                "%s (%s) can report success without an instruction that %s register %d" % (
                                    name, sc.label, "writes" if q[0] == "w" else "reads", q[2]), fn.where(fn.line))
                        break
    for an in shared.values():
        res.count("steps", an.steps)
        res.count("contexts", len(an.memo))
        res.count("register_writes", an.client.writes)


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs([a for a in base.facts.ALL if a in insn.DECODE], ("rel",)), (pid,))
    return ck.finish(rs, "destinations are written" if pid == "C18" else "no other registers are written",
                     {"supported": 20000, "obligations": 20000, "register_writes": 12000} if pid == "C18" else {"supported": 20000, "register_writes": 12000})
