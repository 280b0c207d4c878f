"""C24: the condition that is read after an operation is the documented one."""
from flow import *
from common import *
import base, machine
from machine import add, sub, con, ext, sym, reduce, mulk, cmp, neg, fit, bitop
from checks.machineops import Ops, LOST, MOVES, fields, result, same, registers, wrapped, show, D, S1, S2
import checks.machineops as mo

MEM = 5     # base register of memory operands


def named(q):
    return "%#x" % q if isinstance(q, tuple) else "memory" if isinstance(q, str) else "r%d" % q


TYPES = {"EQUAL": 0, "LESS": 2, "GREATER": 4, "SIG_LESS": 6, "SIG_GREATER": 8, "OVERFLOW": 10, "CARRY": 12}


def truth_of(op, t, a, b, n):
    """the documented meaning of a condition, as 0 or 1"""
    a, b = reduce(a, n), reduce(b, n)
    if t == "EQUAL":
        return cmp("=", a, b, n) if op == "SUB" else cmp("=", result(op, a, b, n, n), con(0, n), n)
    if t == "LESS":
        return cmp("<u", a, b, n)
    if t == "GREATER":
        return cmp("<u", b, a, n)
    if t == "SIG_LESS":
        return cmp("<s", a, b, n)
    if t == "SIG_GREATER":
        return cmp("<s", b, a, n)
    if t == "OVERFLOW":
        return cmp("vadd" if op == "ADD" else "vsub", a, b, n)
    if t == "CARRY":
        return cmp("<u", a, b, n) if op == "SUB" else cmp("<u", add(a, b, n), b, n)


class Cond(Ops):
    def start(self):
        """registers hold 32 bit values in the form the machine keeps them"""
        return {}

    def sequence(self, calls, init):
        """-> list of (machine state) after the calls; None when nothing succeeds"""
        states = [(frozenset(), frozenset(init.items()))]
        for k, (name, facts) in enumerate(calls):
            nxt = []
            for fs, st in states:
                nxt += self.again(name, facts, fs, st)
            states = list(dict.fromkeys(nxt))
            if not states:
                return None
        return [st for fs, st in states]

    def again(self, name, facts, fs, st):
        if st == LOST:
            return [(fs, LOST)]
        key = (name, tuple(facts), fs, st)
        if key in self.cache:
            return self.cache[key]
        r = self.run(name, facts, fs, st)
        if LOST in [s for f, s in r]:
            self.lost = sorted(self.cl.why)[:1]
        if len(self.cache) > 400:
            self.cache.clear()
        self.cache[key] = r
        return r

    cache = {}
    lost = None

    def judge(self, name, label, outs, want, calls):
        self.res.count("scenarios")
        if not outs:
            self.res.note("nothing", "%s %s" % (name, label.split()[0]))
            return
        verdict = [None if st == LOST or st is None else want(dict(st)) for st in outs]
        if None not in verdict:
            self.res.count("decided")
            self.res.note("conditions", "%s" % label.split(" of ")[0])
        else:
            self.res.note("undecided", "%s %s %s %s" % (self.arch, name, label, self.lost))
        if False in verdict:
            st = dict(outs[verdict.index(False)])
            fn = self.u.funcs[name]
            self.res.add("%s:%s:%s" % (self.arch, name, label.split(" of ")[0]), "%s: %s: the emitted instructions do not compute the documented result (instructions of %s)" % (
                name, label, ", ".join(c[0] for c in calls)), fn.where(fn.line if hasattr(fn, "line") else 0))


def conditions(u, res):
    o = Cond(u, res)
    o.cache = {}
    for i in range(2):
        registers(u, i)
        D, S1, S2 = mo.D, mo.S1, mo.S2
        sweep(o, u, i, D, S1, S2)


def stale(o):
    """flags have unknown values before the operations"""
    c = lambda i: cmp("<u", sym(("r", "flag%d" % i)), sym(("r", "flag")), 64)
    if o.arch.startswith("ppc"):
        r = {("cr", f): tuple(c(4 * f + i) for i in range(4)) for f in range(8)}
        r["xer"] = tuple(c(32 + i) for i in range(3))
        return r
    if o.arch.startswith(("arm", "aarch")):
        return {"nzcv": ("sub", sym(("r", "flag1")), sym(("r", "flag2")), o.W)}
    return {}


def sweep(o, u, other, D, S1, S2):
    W, m = o.W, o.map
    few = wrapped({0, 1, -1, 2, 255, 256, -255, -256, 2047, 2048, -2047, -2048, -2049, 4095, 4096, -4095, -4096, 32767, 32768, -32767, -32768, -32769, 65535, 65536, 0x7fffffff, -0x80000000,
                   0xff0000, 0x12345678, -0x12345678} | ({0x80000000, 0xffffffff, -0x8000000000000000, 0x7fffffffffffffff, 0x123456789abcdef} if W == 64 else set()), W)
    if other:
        few = wrapped({0, 1, -1, 7, 8, -7, -8, 255, 256, -255, -256, 2048, -2048}, W)
    Z = u.k("SLJIT_SET_Z")
    for w32 in (False, True):
        n = 32 if w32 else W
        if w32 and W == 32:
            continue
        init = stale(o)
        if w32 and not o.arch.startswith(("ppc", "aarch64")):
            # 32 bit values are kept sign extended
            for i in set(range(1, u.k("SLJIT_SP"))) - {MEM}:
                init[("r", m[i])] = sym(("x", 32, True, o.reg(i)))
        def val(par, what, n=n):
            if isinstance(what, str):
                # a memory operand
                f, a = o.place(par, "base", {"x": 16, "y": 0x12340}[what], MEM)
                return f, sym(("ld", n // 8, False, a))
            f, v = o.value(par, what)
            s = machine.single(v)
            return f, init.get(s, v) if s else v
        imm32 = [v for v in few if not w32 or -0x80000000 <= v < 0x80000000]
        compares(o, u, init, val, n, imm32, S1, S2, "32" if w32 else "")
        chains(o, u, init, val, n, imm32, D, S1, S2)
        if w32:
            kept(o, u, init, val, n, imm32, D, S1, S2)
        for op in ("SUB", "ADD", "AND", "OR", "XOR", "SHL", "LSHR", "ASHR"):
            types = TYPES if op == "SUB" else ("EQUAL", "OVERFLOW", "CARRY") if op == "ADD" else ("EQUAL",)
            shift = op in ("SHL", "LSHR", "ASHR")
            imms = (1, 5, n - 1) if shift else [v for v in few if not w32 or -0x80000000 <= v < 0x80000000]
            if op in ("OR", "XOR"):
                imms = imms[::3]
            pairs = [(S1, (v,)) for v in imms] + [(S1, S2), (S1, S1), (D, S1), (S1, D), (D, D)] + [(D, (v,)) for v in imms[::3]]
            if not shift:
                pairs += [((v,), S1) for v in imms[:: 2 if op == "SUB" else 5]]
            if not other:
                pairs += [("x", S1), (S1, "x"), ("x", "y")] + ([("x", (v,)) for v in imms[::5]] + [((v,), "x") for v in imms[::10]] if not shift else [])
            for x, y in pairs:
                f1, a = val("src1", x)
                f2, b = val("src2", y)
                small = () if not shift or isinstance(y, tuple) else ((machine.single(b), n),)
                often = (x, y) in pairs[::5] or isinstance(y, int)
                for t in types:
                    for z in ((False, True) if t != "EQUAL" and (x, y) in pairs[::6] else (False,)):
                        for into in ((None, D) if op not in ("OR", "XOR") else (D,)):
                            fl = u.k("SLJIT_" + op) | (u.k("SLJIT_32") if w32 else 0) | (Z if z or t == "EQUAL" else 0) | (TYPES[t] << 10)
                            lab0 = "%s%s%s of %s, %s%s" % (op, "32" if w32 else "", "+Z" if z else "", *map(named, (x, y)), " into register" if into else "")
                            if into:
                                fd, _ = o.value("dst", into)
                                first = ("sljit_emit_op2", [(("v", "op"), const(fl))] + fd + f1 + f2)
                            else:
                                first = ("sljit_emit_op2u", [(("v", "op"), const(fl))] + f1 + f2)
                            consume(o, u, first, init, op, t, a, b, n, lab0, D, small, z, into, often)
                            if into:
                                outs = o.sequence([first], init)
                                o.judge(first[0], "result with flags %s: %s" % (t, lab0), outs, same(o, m[into], n, result(op, a, b, n, W), small), [first])


def compares(o, u, init, val, n, few, S1, S2, suffix):
    """sljit_emit_cmp: the jump is taken if the condition holds"""
    for x, y in [(S1, (v,)) for v in few] + [((v,), S1) for v in few[::2]] + [(S1, S2), (S2, S1), ("x", S1), (S1, "x"), ("x", "y")] + [("x", (v,)) for v in few[::4]] + [((v,), "x") for v in few[::6]]:
        f1, a = val("src1", x)
        f2, b = val("src2", y)
        for t in list(TYPES)[:5]:
            T = truth_of("SUB", t, a, b, n)
            for k in (0, 1):
                lab = "%s%s%s of %s, %s" % ("NOT_" if k else "", t, suffix, *map(named, (x, y)))
                calls = [("sljit_emit_cmp", [(("v", "type"), const(TYPES[t] + k | (u.k("SLJIT_32") if suffix else 0)))] + f1 + f2)]
                o.judge("sljit_emit_cmp", "jump if " + lab, o.sequence(calls, init), taken(o, neg(T) if k else T), calls)


def kept(o, u, init, val, n, few, D, S1, S2):
    """32 bit results are compared correctly by 32 bit comparisons"""
    m, I = o.map, u.k("SLJIT_32")
    few = few[::3]
    calls = []
    for name in MOVES:
        w, s = MOVES[name]
        if w and w <= 4 or name == "MOV32":
            # the value as a 32 bit value
            for x in [(v,) for v in few] + [S1]:
                f1, a = val("src", x)
                r = ext(reduce(a, 8 * w), 8 * w, s, 32) if w and w < 4 else reduce(a, 32)
                op = u.k("SLJIT_" + name) if name == "MOV32" or w == 4 else u.k("SLJIT_" + name) | I
                fd, _ = o.value("dst", D)
                if name != "MOV_U32":
                    calls.append((name, ("sljit_emit_op1", [(("v", "op"), const(op))] + fd + f1), r, ()))
    for op in ("ADD", "SUB", "AND", "OR", "XOR", "MUL", "SHL", "LSHR", "ASHR", "ROTL", "ROTR"):
        shift = op in ("SHL", "LSHR", "ASHR", "ROTL", "ROTR")
        for x, y in [(S1, (v,)) for v in ((0, 1, 7, 31) if shift else few)] + [(S1, S2)] + ([] if shift else [((v,), S1) for v in few[::2]]):
            f1, a = val("src1", x)
            f2, b = val("src2", y)
            small = () if not shift or isinstance(y, tuple) else ((("r", m[y]), 32),)
            fd, _ = o.value("dst", D)
            calls.append(("%s of %s, %s" % (op, *map(named, (x, y))),
                          ("sljit_emit_op2", [(("v", "op"), const(u.k("SLJIT_" + op) | I))] + fd + f1 + f2), result(op, reduce(a, 32), reduce(b, 32), 32, 32), small))
    for lab, first, r, small in calls:
        for t in ("EQUAL", "LESS", "SIG_LESS"):
            fa, _ = o.value("src1", D)
            fb, b = val("src2", S2)
            T = truth_of("SUB", t, r, b, 32)
            seq = [first, ("sljit_emit_cmp", [(("v", "type"), const(TYPES[t] | I))] + fa + fb)]
            o.judge("sljit_emit_cmp", "jump if %s of a 32 bit result of %s" % (t, lab), o.sequence(seq, init), taken(o, T, small), seq)


def chains(o, u, init, val, n, few, D, S1, S2):
    """additions and subtractions of long integers"""
    i = u.k("SLJIT_32") if n < o.W else 0
    for op in ("ADD", "SUB"):
        for x, y, p, q in [(S1, (v,), S2, S1) for v in few[:6]] + [((v,), S1, S1, S2) for v in few[:6]] + [(S1, S2, S1, (v,)) for v in few] + [(S1, S2, (v,), S1) for v in few] + [
                (S1, S2, S2, S2), (S1, S2, D, S1), (S1, S2, S1, D), (S1, S2, D, D)] + [(S1, S2, D, (v,)) for v in few[:6]] + [(S1, S2, "x", S1), (S1, S2, S1, "x"), (S1, S2, "x", "y"), (S1, S2, "x", (5,)), ("x", S2, S1, "y"), ("x", "y", S1, D)]:
            f1, a = val("src1", x)
            f2, b = val("src2", y)
            f3, c = val("src1", p)
            f4, d = val("src2", q)
            fd, _ = o.value("dst", D)
            a, b, c, d = (reduce(v, n) for v in (a, b, c, d))
            T = truth_of(op, "CARRY", a, b, n)
            r, T2 = machine.carried(c, d, T, n, op == "SUB")
            if op == "SUB" and machine.isk(d) and o.arch.startswith(("arm", "aarch")):
                # with the other carry
                T2 = neg(machine.carried(c, sub(con(-1, n), d, n), neg(T), n, False)[1])
            ty = TYPES["CARRY"]
            lab = "%sC%s of %s after %s" % (op, "32" if i else "", ", ".join(map(named, (p, q))), ", ".join(map(named, (x, y))))
            first = ("sljit_emit_op2u", [(("v", "op"), const(u.k("SLJIT_" + op) | i | ty << 10))] + f1 + f2)
            for s in (0, 1):
                second = ("sljit_emit_op2", [(("v", "op"), const(u.k("SLJIT_" + op + "C") | i | (ty << 10 if s else 0)))] + fd + f3 + f4)
                o.judge("sljit_emit_op2", ("result with carry: " if s else "result: ") + lab, o.sequence([first, second], init), same(o, o.map[D], n, r), [first, second])
                if s:
                    for k in (0, 1):
                        third = ("sljit_emit_jump", [(("v", "type"), const(ty + k))])
                        o.judge("sljit_emit_jump", "jump if %sCARRY after %s" % ("NOT_" if k else "", lab), o.sequence([first, second, third], init), taken(o, neg(T2) if k else T2), [first, second, third])
                if i:
                    fa, _ = o.value("src1", D)
                    fb, e = val("src2", S2)
                    third = ("sljit_emit_cmp", [(("v", "type"), const(i | TYPES["LESS"]))] + fa + fb)
                    o.judge("sljit_emit_cmp", "jump if LESS of " + lab, o.sequence([first, second, third], init), taken(o, cmp("<u", r, reduce(e, n), n)), [first, second, third])


def taken(o, c, small=()):
    """the conditional jump is taken if c holds"""
    def f(d):
        if "br" not in d:
            return False
        kind, b = d["br"]
        return machine.equal(b if b is None else fit(neg(b) if kind == "skip" else b, o.W), fit(c, o.W), o.W, o.W, small, o.arch.startswith("arm"))
    return f


def combined(o, u, first, init, ty, T, lab, R, small):
    """and / or / xor of a flag and a register, and the zero flag of the result"""
    fd, v = o.value("dst", R)
    v = init.get(machine.single(v), v)
    Z = u.k("SLJIT_SET_Z")
    for op in ("AND", "OR", "XOR"):
        for n in (o.W, 32)[: 2 if o.W == 64 else 1]:
            i = u.k("SLJIT_32") if n < o.W else 0
            if not o.arch.startswith(("ppc", "aarch64")) and bool(i) != (o.reg(R) != v):
                continue
            r = bitop(op[0].replace("A", "&").replace("O", "|").replace("X", "^"), reduce(v, n), fit(T, n), n)
            calls = [first, ("sljit_emit_op_flags", [(("v", "op"), const(u.k("SLJIT_" + op) | i)), (("v", "type"), const(ty))] + fd)]
            o.judge("sljit_emit_op_flags", "%s%s with type %d after %s" % (op, "32" if i else "", ty, lab), o.sequence(calls, init), same(o, o.map[R], n, r, small), calls)
            calls = [first, ("sljit_emit_op_flags", [(("v", "op"), const(u.k("SLJIT_" + op) | i | Z)), (("v", "type"), const(ty))] + fd), ("sljit_emit_jump", [(("v", "type"), const(0))])]
            o.judge("sljit_emit_jump", "jump if EQUAL after %s%s with type %d after %s" % (op, "32" if i else "", ty, lab), o.sequence(calls, init), taken(o, cmp("=", r, con(0, n), n), small), calls)


def consume(o, u, first, init, op, t, a, b, n, lab, D, small, z, into, often):
    W, m = o.W, o.map
    T = truth_of(op, t, a, b, n)
    R = D + 1 if D < u.k("SLJIT_SP") - 4 else D - 3
    for k in (0, 1) if often else ():
        ty = TYPES[t] + k
        want = fit(neg(T) if k else T, W)
        fd, _ = o.value("dst", R)
        calls = [first, ("sljit_emit_op_flags", [(("v", "op"), const(u.k("SLJIT_MOV"))), (("v", "type"), const(ty))] + fd)]
        o.judge("sljit_emit_op_flags", "%s%s after %s" % ("NOT_" if k else "", t, lab), o.sequence(calls, init), same(o, m[R], W, want, small), calls)
    for k in (0, 1):
        ty = TYPES[t] + k
        calls = [first, ("sljit_emit_jump", [(("v", "type"), const(ty))])]
        o.judge("sljit_emit_jump", "jump if %s%s after %s" % ("NOT_" if k else "", t, lab), o.sequence(calls, init), taken(o, neg(T) if k else T, small), calls)
    if z or t == "EQUAL" and into and often:
        combined(o, u, first, init, ty, T if not k else neg(T), lab, R, small)
    if z:
        T = truth_of(op, "EQUAL", a, b, n)
        fd, _ = o.value("dst", R)
        calls = [first, ("sljit_emit_op_flags", [(("v", "op"), const(u.k("SLJIT_MOV"))), (("v", "type"), const(0))] + fd)]
        o.judge("sljit_emit_op_flags", "EQUAL after %s" % lab, o.sequence(calls, init), same(o, m[R], W, fit(T, W), small), calls)


def check_conditions(pid):
    ck = base.Check(pid)
    rs = base.run_configs(conditions, base.specs([a for a in base.facts.ALL if a in machine.STEP], ("rel",)))
    return ck.finish(rs, "the value of the condition after the operation is the documented one", {"decided": 60000})
