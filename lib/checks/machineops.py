"""C22: memory operands.  C23: immediate operands."""
from flow import *
from common import *
import base, insn, machine
from machine import add, sub, con, ext, sym, shl, shr, ror, bitop, reduce, mul, mulk
from checks.alias import Alias, NONE, wide
from checks.regs import table

LOST = "lost"


class TooLong(Exception):
    pass


class Code(Alias):
    """ps[2]: state of the abstract machine after the instructions emitted so far"""
    regtabs = {}

    def __init__(self, res, u):
        Alias.__init__(self, res, u, (), 0)
        self.why = set()
        self.safe = {}
        self.W = machine.STEP[u.cfg.arch][1]

    def word(self, e, ps, env):
        v = ev(e, env)
        if isconst(v):
            return frozenset([(v[0] & 0xffffffffffffffff, 0)]), NONE
        return Alias.word(self, e, ps, env)

    def emit(self, fn, n, ps, env, width):
        st = ps[2]
        if st == LOST:
            return [(ps, ZERO, None)]
        ws, fs = self.word(n.c[1], ps, env)
        if len(ws) != 1 or fs or any(u & 0xffffffff for v, u in ws):
            self.why.add(("unknown", fn.where(n.line), str(sorted(ws)[:2])))
            return [((ps[0], ps[1], LOST), ZERO, None)]
        (w, _), = ws
        w &= (1 << width) - 1
        if n.b.endswith("literal"):
            lit = ev(n.c[2], env)
            if w & 0xfffff000 & ~0xf000 == 0xe59f0000 and isconst(lit) and n.b == "push_inst_with_literal":
                s = machine.State(st, 32)
                s.w(w >> 12 & 15, con(lit[0], 32))
                return [((ps[0], ps[1], s.freeze()), ZERO, None)]
            nst = None
            if w >> 28 < 14 and w & 0xfff000 == 0x9ff000 and self.u.cfg.arch == "armv6":
                # a conditional load of the program counter
                s = machine.State(st, 32)
                s.d["br"] = ("jump", machine.arm_condition(s.d.get("nzcv"), w >> 28))
                nst = s.freeze()
        else:
            nst = machine.step(self.u.cfg.arch, st, w, width)
        if nst is None:
            self.why.add(("not understood", fn.where(n.line), "%0*x" % (width // 4, w)))
            nst = LOST
        return [((ps[0], ps[1], nst), ZERO, None)]

    def on_set(self, an, fn, n, ps, env):
        if n.a == ("F", "error") and ev(n.b, env) != ZERO:
            return None     # not a success (C01, C02)
        if n.a[0] == "F":
            # fields of the compiler keep their value over calls
            v = ev(n.b, env)
            b = frozenset(x for x in ps[1] if x[0] != n.a)
            if isconst(v):
                b = b | {(n.a, v[0], NONE)}
            return (ps[0], b, ps[2])
        ps = Alias.on_set(self, an, fn, n, ps, env)
        if n.a[0] == "v" and not n.a[1].startswith("::"):
            # the values a variable has in different rounds of a loop are kept apart
            v = ev(n.b, env)
            b = frozenset(x for x in ps[1] if x[0] != n.a[1])
            if isconst(v):
                b = b | {(n.a[1], frozenset([(v[0] & machine.M64, 0)]), NONE)}
            if b != ps[1]:
                ps = (ps[0], b, ps[2])
            if an.steps > self.limit:
                raise TooLong
        return ps

    def on_call(self, an, fn, n, ps, env):
        if n.b in insn.LEAF:
            return self.emit(fn, n, ps, env, insn.LEAF[n.b])
        if n.b == "ensure_abuf":
            return [(ps, NZ, None)]
        if n.b == "ensure_buf":
            return [((ps[0], ps[1], LOST), NZ, None)]
        if n.b in ("__builtin_clz", "__builtin_clzl", "__builtin_clzll", "__builtin_ctz", "__builtin_ctzl", "__builtin_ctzll"):
            v = ev(n.c[0], env)
            W = {"z": 32, "ll": 64}.get(n.b[-1] if n.b[-1] == "z" else n.b[-2:], self.W)
            if isconst(v) and v[0] & ((1 << W) - 1):
                v = v[0] & ((1 << W) - 1)
                return [(ps, const(W - v.bit_length() if "clz" in n.b else (v & -v).bit_length() - 1), None)]
        return None

    def ps_facts(self, ps):
        r = {x[0]: const(x[1]) for x in fields(ps)}
        r[("F", "error")] = ZERO
        return r

    def call_ps(self, an, fn, n, ps, env):
        r = Alias.call_ps(self, an, fn, n, ps, env)
        return (r[0], r[1] | fields(ps), r[2])

    def on_ret(self, an, fn, n, ps, env):
        r = Alias.on_ret(self, an, fn, n, ps, env)
        return (r[0], r[1] | fields(ps), r[2])

    def ret_ps(self, an, fn, n, before, after, env):
        r = Alias.ret_ps(self, an, fn, n, before, after, env)
        return (r[0], r[1] - fields(before) | fields(after), r[2])

    def on_edge(self, an, fn, n, ps, env, edge, env2):
        if ps[2] != LOST and truth(ev(n.a, env)) is None and n.k == "br":
            v = [x[1] for x in mentions(n.a) if x[0] == "v" and not x[1].startswith("::")]
            if v and not self.harmless(fn, n):
                # a choice that depends on a value that was lost
                self.why.add(("choice", fn.where(n.line), str(v)))
                return (ps[0], ps[1], LOST)
        return ps

    def harmless(self, fn, n):
        """the choice only decides about writes to memory"""
        key = (fn.name, n.id)
        if key not in self.safe:
            ns = fn.cfg.nodes
            region, out = {n.id}, {t for t, _ in n.succ}
            while len(out) > 1 and len(region) < 30:
                x = next((x for x in sorted(out) if ns[x].k in ("br", "nop") or ns[x].k == "set" and (ns[x].a[0] != "v" or ns[x].a[1][0] == "%")), None)
                if x is None:
                    break
                region.add(x)
                out = (out | {t for t, _ in ns[x].succ}) - region
            tmp = [ns[x].a for x in region if ns[x].k == "set" and ns[x].a[0] == "v"]
            self.safe[key] = len(out) == 1 and not any(t in mentions(e) for t in tmp for x in ns if x.id not in region for e in (x.a, x.b, *(x.c if isinstance(x.c, (list, tuple)) else ()))
                                                       if isinstance(e, tuple) and e and e[0] != "call")
        return self.safe[key]

    def on_asm(self, n, env):
        if n.a.split()[:1] in (["cntlzd"], ["cntlzw"]) and len(n.b) == 1 and len(n.c) == 1:
            v = ev(n.c[0], env)
            W = 64 if n.a.split()[0] == "cntlzd" else 32
            if isconst(v):
                return const(W - (v[0] & ((1 << W) - 1)).bit_length())

    def param_facts(self, an, fn, callee, args, env):
        r = Alias.param_facts(self, an, fn, callee, args, env)
        for p, a in zip(callee.params, args):
            v = ev(a, env)
            if isconst(v) and callee.ptypes.get(p) not in ("int", "unsigned int"):
                r.append((("v", p), v))
        return r

    def mem_facts(self, an, env):
        return [(k, v) for k, v in env.items() if k[0] == "F" and isconst(v)]


POINTERS = ("sljit_emit_jump", "sljit_emit_cmp", "sljit_emit_fcmp")


def fields(ps):
    return frozenset(x for x in ps[1] if isinstance(x[0], tuple))


class Runner:
    def __init__(self, u, res):
        self.u, self.res = u, res
        self.cl = Code(res, u)
        self.an = Analysis(u, self.cl)
        self.W = machine.STEP[u.cfg.arch][1]

    def run(self, name, facts, before=None, start=None):
        """final machine states of successful paths (None: lost on some); with the fields and the machine state before the call: pairs of these after it"""
        an = self.an
        an.memo, an.ctx, an.refs, an.outs = {}, {}, {}, {}
        an.done, an.hit, an.order = set(), set(), []
        self.cl.why = set()
        fn = self.u.funcs[name]
        known = set(fn.params)
        fs = [(("F", "error"), ZERO)] + [f for f in facts if f[0][0] == "F" or (f[0][1] if f[0][0] == "v" else f[0][1][1]) in known]
        fs += [(x[0], const(x[1])) for x in before or ()]
        init = frozenset([(("r", table(self.u, "::reg_map")[self.u.k("TMP_ZERO")]), con(0, self.W))]) if self.u.cfg.arch.startswith("ppc") else NONE
        if start is not None:
            init = frozenset(init | start)
        self.cl.limit = an.steps + 20000
        an.stack = []
        try:
            outs = an.run(name, (NONE, NONE if before is None else before, init), fs)
        except TooLong:
            return [LOST] if before is None else [(NONE, LOST)]
        if before is not None:
            return [(fields(ps), ps[2]) for ps, rv in outs if (rv != ZERO if name in POINTERS else contains(rv, 0))]
        return [ps[2] for ps, rv in outs if contains(rv, 0)]


# registers of the scenarios: destination, sources, base and index of the memory operands
D, S1, S2, B, X, B2 = 2, 3, 4, 6, 7, 8


def registers(u, i):
    """other registers for the scenarios: short instruction forms take some registers only"""
    n = u.k("SLJIT_SP") - 1
    globals().update(zip(("D", "S1", "S2", "B", "X", "B2"), ((2, 3, 4, 6, 7, 8), (1, 2, 3, 3, 1, 2), (n, n - 1, n - 2, n - 1, n, n - 2))[i]))


MOVES = {"MOV": (None, False), "MOV_U8": (1, False), "MOV_S8": (1, True), "MOV_U16": (2, False), "MOV_S16": (2, True), "MOV_U32": (4, False),
         "MOV_S32": (4, True), "MOV32": (4, None), "MOV_P": (None, False)}


def limits(W, step=1):
    """the limits of instruction fields, and their neighbours"""
    r = {0, 1, -1, 4, 8, -8}
    for k in range(3, W, step):
        for v in ((1 << k) - 1, 1 << k, (1 << k) + 8, (1 << k) - 8, -(1 << k), -(1 << k) - 1, -(1 << k) + 8, -(1 << k) - 8):
            r.add(v)
        if base.tier() == "thorough":
            for v in (3, 4, 6, 10, 12, 16, 24):
                r.update(((1 << k) - v, (1 << k) + v, -(1 << k) + v, -(1 << k) - v))
            r.update((3 << k, 5 << k, -3 << k, -5 << k, 0x7f << k, 0xff << k, 0x1ff << k, 0x7ff << k, 0xfff << k, -0x800 << k, 0xffff << k, -0x8000 << k))
    return wrapped(r, W)


def wrapped(r, W):
    return sorted({machine.sx(v, W) for v in r}, key=lambda v: (abs(v), v))


def mixed(W):
    """values with several parts to be loaded"""
    r = {0x12345678, 0x7ffff800, 0x7fffffff, -0x80000000, 0x80000800, 0xfffff800, 0xffff0000, 0xff00ff, 0xff00ff00, 0xabababab, 0x55555555, 0x3fc00, 0xff0000, 0xfff000,
         0xffffff, 0x1000800, 0x801000, -0x12345678, 0x8000, 0x18000, 0x7fff8000, 0xff000000}
    if W == 64:
        r |= {0x123456789abcdef0, 0x7fffffffffffffff, -0x8000000000000000, 0x7fffffff80000000, 0x80000000, 0xffffffff, 0x100000800, 0x7fffffff800, 0x80000000000,
              -0x80000000800, 0xffff0000ffff, 0xffff00000000, 0x5555555555555555, 0xff00ff00ff00ff00, 0x1234000000000000, 0x1234567800000000, 0x12340000ffff5678,
              -0x123456789abcdef0, 0x8000000080000000, 0x7ffff7ff800, 0x7fffffff7ff, 0x800000008000, 0x80007fff8000, 0xfffffffffffff, 0x10000000000000, -0x10000000000001}
    return r


def patterns(W):
    """values for moves only: two halves with different limits, and runs of ones"""
    full = base.tier() == "thorough"
    r = set()
    h = W // 2
    his = [0x12345678, 0x80000000, 0x7ffff, 0x7ffffffe, 0xffff0000, 0x00010000, 0xfffffffe] + ([1, 0x7fffffff, 0xfff, 0x800, 0x1000, 0x7ff, 0x8000, 0xffff, 0x80007fff, 0xfff80000, 0x5a5a5a5a] if full else [])
    for hi in his if W == 64 else ():
        for k in range(6, 33):
            for d in (-0x800, -1, 0, 1, 0x7ff, 0x800) if full or k > 24 or k in (11, 12, 15, 16) else (0, -1):
                r.add(hi << 32 | ((1 << k) + d) & 0xffffffff)
                r.add(hi << 32 | (-(1 << k) + d) & 0xffffffff)
    for a in range(0, W, 1 if full else 3):
        for n in range(1, W - a + 1, 1 if full else 4):
            r.update((((1 << n) - 1) << a, ~(((1 << n) - 1) << a)))
    for e in (2, 4, 8, 16, 32):
        for n in range(1, e, 1 if full or e < 16 else 3):
            for a in range(0, e, 1 if full or e < 8 else 3):
                x = ((1 << n) - 1) << a
                x = (x | x >> e) & ((1 << e) - 1)
                v = sum(x << i for i in range(0, W, e))
                r.update((v, v ^ 1, v ^ (1 << (W - 1)), v ^ 1 << h))
    for i in range(2000 if full else 200):
        v = machine.mix(i, W)
        r.add(v & machine.mix(i, 1) if i & 1 else v | machine.mix(i, 2) if i & 2 else v >> i % 48)
        for j in range(0, W, 8):
            # bytes of zeros and ones
            if machine.mix(i, j) % 3:
                v = v & ~(255 << j) | (255 << j if machine.mix(i, j, 7) & 1 else 0)
        r.add(v)
    return wrapped(r, W)


def compared(u, W):
    """the constants values are compared with in the source, and their neighbours"""
    r = set()

    def go(e):
        if e[0] == "b" and e[1] in CMP:
            for x in (e[2], e[3]):
                while x[0] == "t":
                    x = x[2]
                if x[0] == "i" and abs(x[1]) >= 32:
                    r.update((x[1] - 1, x[1], x[1] + 1))
        for x in e[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                go(x)

    for fn in u.funcs.values():
        for n in fn.cfg.nodes:
            if n.k == "br":
                go(n.a)
    return r


class Ops(Runner):
    def __init__(self, u, res):
        Runner.__init__(self, u, res)
        self.map = table(u, "::reg_map")
        self.mem = u.k("SLJIT_MEM1_SP") - u.k("SLJIT_SP")
        self.arch = u.cfg.arch
        self.big = u.cfg.arch in ("aarch64",)

    def reg(self, i):
        n = self.map[i]
        if self.arch == "aarch64" and n == 31:
            n = "sp"
        return sym(("r", n))

    def place(self, par, kind, off=0, base_=B):
        """-> facts of a memory operand, its address"""
        W, m = self.W, self.mem
        if kind == "base":
            return [(("v", par), const(m | base_)), (("v", par + "w"), const(off))], add(self.reg(base_), con(off, W), W)
        if kind == "sp":
            sp = self.u.k("SLJIT_SP")
            return [(("v", par), const(m | sp)), (("v", par + "w"), const(off))], add(self.reg(sp), con(off + self.u.k("SLJIT_LOCALS_OFFSET"), W), W)
        if kind == "index":
            return [(("v", par), const(m | base_ | X << 8)), (("v", par + "w"), const(off))], add(self.reg(base_), shl(self.reg(X), off, W), W)
        return [(("v", par), const(m)), (("v", par + "w"), const(off))], con(off, W)

    def value(self, par, what):
        """a register or an immediate -> facts, value"""
        if isinstance(what, tuple):
            return [(("v", par), const(self.u.k("SLJIT_IMM"))), (("v", par + "w"), const(what[0]))], con(what[0], self.W)
        return [(("v", par), const(what)), (("v", par + "w"), ZERO)], self.reg(what)

    def op(self, name, w32=False, par="op"):
        return [(("v", par), const(self.u.k("SLJIT_" + name) | (self.u.k("SLJIT_32") if w32 else 0)))]

    def expect(self, name, label, facts, want, events, small=()):
        """want: function of a final state -> True, False or None (unknown)"""
        self.cl.entry, self.cl.what = name, label
        outs = self.run(name, facts)
        self.res.count("scenarios")
        if outs and len(self.res.samples) < 2 and "0x1" in label:
            self.res.sample("%s %s %s" % (self.arch, name, label))
        verdict = []
        for st in outs:
            if st == LOST or st is None:
                verdict.append(None)
                continue
            d = dict(st)
            if None in [x for e in d.get("ev", ()) for x in e] and events is not None:
                verdict.append(None)
                continue
            oks = [True]
            if events is not None:
                evs = d.get("ev", ())
                if [e[:2] for e in evs] != [e[:2] for e in events]:
                    oks = [False]
                else:
                    for e, x in zip(evs, events):
                        oks += [machine.equal(p, q, self.cl.W if j == 0 else e[1] * 8, self.cl.W, small, self.arch.startswith("arm")) for j, (p, q) in enumerate(zip(e[2:], x[2:]))]
            if want:
                oks.append(want(d))
            verdict.append(False if False in oks else None if None in oks else True)
        if outs and None not in verdict:
            self.res.count("decided")
            self.res.note("operations", "%s %s" % (name, label.split()[0]))
        elif outs:
            self.res.note("undecided", "%s %s %s %s" % (self.arch, name, label, sorted(self.cl.why)[:1]))
        if False in verdict:
            st = dict(outs[verdict.index(False)])
            self.bad(name, label, st)

    def bad(self, name, label, st):
        fn = self.u.funcs[name]
        acc = ["%s %d bytes at %s" % ({"ld": "load of", "st": "store of"}[e[0]], e[1], show(e[2])) for e in st.get("ev", ())]
        self.res.add("%s:%s:%s" % (self.arch, name, label.split()[0]), "%s with %s: the emitted instructions do not compute the result from the given operands%s" % (
            name, label, " (%s)" % ", ".join(acc) if acc else ""), fn.where(fn.line if hasattr(fn, "line") else 0))


def show(v):
    if v is None:
        return "?"
    p = ["%s%s" % ("" if k == 1 else "%d*" % k, "r%s" % s[1] if s[0] == "r" else "(%s)" % s[0]) for s, k in sorted(v[1], key=repr)]
    return " + ".join(p + [hex(v[0])])


def same(o, r, n, val, small=()):
    """register r has the value val, modulo 2^n"""
    return lambda d: machine.equal(d.get(("r", r), sym(("r", r))), val, n, o.W, small, o.arch.startswith("arm"))


def memory(u, res):
    o = Ops(u, res)
    for i in range(3):
        registers(u, i)
        operands(o, u, i)
    registers(u, 0)
    twice(o)


def operands(o, u, other):
    W, m = o.W, o.map
    offs = limits(W)
    seen = compared(u, W)
    some = wrapped({0, 8, 255, 256, 2040, 2047, 2048, 4088, 4095, 4096, 4104, 32760, 32767, 32768, 65536, 0x12345678, -8, -255, -256, -257, -2048, -2049, -4096, -32768, -32769,
                    0x7fffffff, -0x80000000} | mixed(W), W)
    if other:
        offs = wrapped(set(range(0, 0x240, 4)) | {1, 2, 3, 5, 0x1f, 0x21, 0x3e, 0x42, -4, -8, -252, -256, 0x3f8, 0x400, 0x7f8, 0xff8, 0xffc, 0xfff, 0x1000, 0x7ff8, 0x12345678}, W)
        seen = set()
        some = offs[::5]
    local = [0, 4, 8, 120, 124, 128, 248, 256, 504, 508, 512, 1016, 1020, 1024, 2040, 2048, 4080, 4088, 4096, 16376, 32736, 32760, 32768, 32776, 65528]
    for name, (size, signed) in MOVES.items():
        size = size or W // 8
        if size * 8 > W:
            continue
        for kind, vs in (("base", offs if name in ("MOV", "MOV_S8", "MOV_U16", "MOV32", "MOV_S16") else some), ("sp", local), ("index", (0, 1, 2, 3)), ("abs", some)):
            if kind == "base" and name in ("MOV", "MOV_U8"):
                vs = wrapped(set(vs) | seen, W)
            for off in vs:
                f, addr = o.place("src", kind, off)
                n = 32 if name == "MOV32" or size * 8 == W == 32 else W
                ld = sym(("ld", size, bool(signed) and size * 8 < W, addr))
                fd, _ = o.value("dst", D)
                o.expect("sljit_emit_op1", "%s from %s %#x" % (name, kind, off), o.op(name) + fd + f, same(o, m[D], n, ld), [("ld", size, addr)])
                f, addr = o.place("dst", kind, off)
                fs, v = o.value("src", S1)
                o.expect("sljit_emit_op1", "%s to %s %#x" % (name, kind, off), o.op(name) + f + fs, None, [("st", size, addr, reduce(v, size * 8))])
    for name, w32, size in (("MOV_F64", False, 8), ("MOV_F64", True, 4)):
        if o.arch == "armv7_soft":
            continue
        for kind, vs in (("base", offs), ("sp", local), ("index", (0, 1, 2, 3)), ("abs", some)):
            for off in vs:
                f, addr = o.place("src", kind, off)
                o.expect("sljit_emit_fop1", "%s%s from %s %#x" % (name, "32" if w32 else "", kind, off), o.op(name, w32) + [(("v", "dst"), const(2)), (("v", "dstw"), ZERO)] + f,
                         None, [("ld", size, addr)])
                f, addr = o.place("dst", kind, off)
                o.expect("sljit_emit_fop1", "%s%s to %s %#x" % (name, "32" if w32 else "", kind, off), o.op(name, w32) + f + [(("v", "src"), const(3)), (("v", "srcw"), ZERO)],
                         None, [("st", size, addr)])


def twice(o):
    """operations with several memory operands"""
    W, m = o.W, o.map
    first = [0, 2040, 4096, 0x12340, 0x7fff0, -0x23450, 0x12345670]
    delta = [0, 8, 0x7f0, 0x800, 0xff8, 0x1000, 0x7ff8, 0x8000, 0x12000, -8, -0x800, -0x1008, -0x9000]
    for name, w32 in (("SUB", False), ("SUB", True)):
        if w32 and W == 32:
            continue
        size = 4 if w32 else W // 8
        for a in first:
            for d in delta:
                b = machine.sx(a + d, W)
                for b2 in (B, B2):
                    f1, a1 = o.place("src1", "base", a)
                    f2, a2 = o.place("src2", "base", b, b2)
                    fd, _ = o.value("dst", D)
                    l1, l2 = (sym(("ld", size, False, x)) for x in (a1, a2))
                    v = sub(l1, l2, W)
                    lab = "%s%s from [%d+%#x], [%d+%#x]" % (name, "32" if w32 else "", B, a, b2, b)
                    o.expect("sljit_emit_op2", lab, o.op(name, w32) + fd + f1 + f2, same(o, m[D], size * 8, v), None)
                    f3, a3 = o.place("dst", "base", b, b2)
                    f2, v2 = o.value("src2", S2)
                    lab = "%s%s to [%d+%#x] from [%d+%#x]" % (name, "32" if w32 else "", b2, b, B, a)
                    o.expect("sljit_emit_op2", lab, o.op(name, w32) + f3 + f1 + f2, None,
                             [("ld", size, a1), ("st", size, a3, reduce(sub(l1, v2, W), size * 8))])
                    if not w32:
                        f1, v1 = o.value("src1", S1)
                        f2, a2 = o.place("src2", "base", a)
                        lab = "%s to [%d+%#x] from register, [%d+%#x]" % (name, b2, b, B, a)
                        o.expect("sljit_emit_op2", lab, o.op(name, w32) + f3 + f1 + f2, None,
                                 [("ld", size, a2), ("st", size, a3, reduce(sub(v1, sym(("ld", size, False, a2)), W), size * 8))])


def check_memory(pid):
    ck = base.Check(pid)
    rs = base.run_configs(memory, base.specs([a for a in base.facts.ALL if a in machine.STEP], ("rel",)))
    return ck.finish(rs, "the sequence of memory accesses of the emitted instructions is the documented one", {"decided": 40000})


# -- results of operations

def result(name, a, b, n, W):
    """the documented results of an operation on n bits"""
    a, b = reduce(a, n), reduce(b, n)
    if name == "ADD":
        return add(a, b, n)
    if name == "SUB":
        return sub(a, b, n)
    if name == "MUL":
        return mul(a, b, n)
    if name in ("AND", "OR", "XOR"):
        return bitop({"AND": "&", "OR": "|", "XOR": "^"}[name], a, b, n)
    return machine.shv({"SHL": "<<", "LSHR": ">>", "ASHR": ">>s", "ROTL": "rol", "ROTR": "ror"}[name.lstrip("M") if name[0] == "M" and name != "MUL" else name], a, b, n)


def arithmetic(u, res):
    o = Ops(u, res)
    for i in range(3):
        registers(u, i)
        values(o, u, i)


def values(o, u, other):
    W, m = o.W, o.map
    wide = wrapped(set(limits(W)) | mixed(W) | {v for v in compared(u, W)}, W)
    few = wrapped({0, 1, -1, 2, 255, 256, -255, -256, 2047, 2048, -2048, -2049, 4095, 4096, -4095, -4096, 32767, 32768, -32768, -32769, 65535, 65536, 0x7fffffff, -0x80000000,
                   0xff0000, 0xfff000, 0x1000000, 0x7ff, 0x800, 0xff00ff} | mixed(W), W)
    if other:
        few = wide = wrapped(set(range(-8, 9)) | {15, 16, 31, 32, -31, -32, -33, 63, 64, 127, 128, 255, 256, -255, -256, -257, 1020, 1024, 2047, -2048, 4095, 65535, 0xff00ff}, W)
    elif base.tier() == "thorough":
        few = wide
    # moves
    for name, (size, signed) in MOVES.items():
        n = 8 * (size or W // 8)
        if n > W:
            continue
        for v in (wrapped(set(wide) | set(patterns(W)), W) if name == "MOV" and not other else wide if name == "MOV32" else few):
            if name == "MOV" or n == W or -(1 << (n - 1)) <= v < 1 << n:
                fd, _ = o.value("dst", D)
                f, c = o.value("src", (v,))
                bits_ = 32 if name == "MOV32" else W
                val = reduce(c, n) if signed is None else ext(c, n, signed, W)
                o.expect("sljit_emit_op1", "%s of %#x" % (name, v), o.op(name) + fd + f, same(o, m[D], bits_, val), [])
        for s in (S1, D):
            fd, _ = o.value("dst", D)
            f, c = o.value("src", s)
            bits_ = 32 if name == "MOV32" else W
            o.expect("sljit_emit_op1", "%s of register%s" % (name, " to itself" if s == D else ""), o.op(name) + fd + f,
                     same(o, m[D], bits_, c if signed is None else ext(c, n, signed, W)), [])
        for v in few:
            if -(1 << (n - 1)) <= v < 1 << n:
                f, addr = o.place("dst", "base", 64)
                fs, c = o.value("src", (v,))
                o.expect("sljit_emit_op1", "%s of %#x to memory" % (name, v), o.op(name) + f + fs, None, [("st", n // 8, addr, reduce(c, n))])
    # arithmetic
    for w32 in (False, True):
        n = 32 if w32 else W
        if w32 and W == 32:
            continue
        for name in ("ADD", "SUB", "AND", "OR", "XOR", "MUL", "SHL", "MSHL", "LSHR", "MLSHR", "ASHR", "MASHR", "ROTL", "ROTR"):
            shift = name not in ("ADD", "SUB", "AND", "OR", "XOR", "MUL")
            imms = range(n) if shift else wide if name in ("ADD", "SUB", "AND") and not w32 else few
            if name in ("AND", "OR") and not w32 and not other:
                imms = wrapped(set(imms) | set(patterns(W)[::7 if base.tier() == "quick" else 1]), W)
            pairs = [(S1, (v,)) for v in imms] + [(S1, S2), (D, S1), (S1, D), (D, D), (S1, S1)]
            if not shift:
                pairs += [((v,), S1) for v in imms] + [(D, (v,)) for v in few]
            else:
                pairs += [(D, (v,)) for v in (0, 1, 7, n // 2, n - 1)] + [((v,), S1) for v in (1, -1, 0x12345)]
            for x, y in pairs:
                if w32 and any(isinstance(z, tuple) and not -0x80000000 <= z[0] < 0x80000000 for z in (x, y)):
                    continue
                fd, _ = o.value("dst", D)
                f1, a = o.value("src1", x)
                f2, b = o.value("src2", y)
                # without M the shift count must be less than n
                small = () if not shift or name[0] == "M" or isinstance(y, tuple) else ((machine.single(b), n),)
                lab = "%s%s of %s, %s" % (name, "32" if w32 else "", *("%#x" % z if isinstance(z, tuple) else "r%d" % z for z in (x, y)))
                o.expect("sljit_emit_op2", lab, o.op(name, w32) + fd + f1 + f2, same(o, m[D], n, result(name, a, b, n, W), small), [])
                if x != D and y != D and not shift and (x, y) in pairs[::7]:
                    f, addr = o.place("dst", "base", 64)
                    r = result(name, a, b, n, W)
                    o.expect("sljit_emit_op2", lab + " to memory", o.op(name, w32) + f + f1 + f2, None, [("st", n // 8, addr, r)])


def check_arithmetic(pid):
    ck = base.Check(pid)
    rs = base.run_configs(arithmetic, base.specs([a for a in base.facts.ALL if a in machine.STEP], ("rel",)))
    return ck.finish(rs, "the destination of the emitted instructions has the documented value", {"decided": 30000})
