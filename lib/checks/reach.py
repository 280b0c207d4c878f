"""C20: operations accepted by the argument checks reach no code marked unreachable and no assertion that fails."""
from flow import *
from common import *
import base, insn
from checks import effects
from checks.effects import Effects, Scenario, bit, operand, NONE


class Reach(Effects):
    """the argument checks are part of the program: refused arguments end in the error state"""
    tracked = ("error", "cache_arg", "skip_checks")

    def __init__(self, res, u):
        self.res, self.u = res, u
        self.required = self.allowed = ()
        self.entry = self.what = ""
        self.bad = 0
        self.asserts = set()

    # instruction words are of no interest
    def bind(self, ps, var, e, env, op=False):
        return ps

    def word(self, e, ps, env):
        return NONE, NONE

    def mem_facts(self, an, env):
        return [(k, v) for k, v in env.items() if k[0] == "F" and k[1] in self.tracked and isconst(v)]

    def on_call(self, an, fn, n, ps, env):
        if n.b in insn.LEAF:
            return [(ps, ZERO, None)]
        if n.b in ("ensure_buf", "ensure_abuf"):
            return [(ps, NZ, None)]
        if n.b == "vp_unreachable":
            if self.in_loop(fn, n):
                # the end of a search for a number
                self.res.note("loops", fn.where(n.line))
                return []
            self.found(fn, n, "reaches code marked unreachable")
            return []
        if n.b == "vp_assert":
            self.asserts.add(fn.where(n.line))
            if ev(n.c[0], env) == ZERO:
                self.found(fn, n, "fails an assertion")
                return []
        return None

    def param_facts(self, an, fn, callee, args, env):
        r = Effects.param_facts(self, an, fn, callee, args, env)
        for p, a in zip(callee.params, args):
            if callee.ptypes.get(p) in ("unsigned long", "long", "unsigned char", "unsigned short"):
                v = ev(a, env)
                if isconst(v):
                    r.append((("v", p), v))
        return r

    @staticmethod
    def in_loop(fn, n):
        """is the code entered from a branch of a loop?"""
        nodes = fn.cfg.nodes
        src = [p for p in nodes if any(t == n.id for t, e in p.succ)]
        while len(src) == 1 and src[0].k == "nop":
            src = [p for p in nodes if any(t == src[0].id for t, e in p.succ)]
        for p in src:
            seen, todo = set(), [t for t, e in p.succ]
            while todo:
                x = todo.pop()
                if x == p.id:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo += [t for t, e in nodes[x].succ]
        return False

    def found(self, fn, n, what):
        self.res.add("%s:%s:%s:%s" % (self.u.cfg.arch, self.entry, fn.name, show(n.c[0]) if n.c else ""),
                     "%s (%s) %s in %s" % (self.entry, self.what, what, fn.name), fn.where(n.line))


def scenarios(u):
    r = effects.scenarios(u)
    k, b32 = u.k, u.k("SLJIT_32")

    def add(fn, label, facts):
        r.setdefault(fn, []).append(Scenario(label, facts, (), ()))

    def types(lo, hi):
        return [(i, [(("v", "type"), const(i))]) for i in range(lo, hi + 1)]

    def types32(lo, hi):
        return [("%d%s" % (i, "/32" if w else ""), [(("v", "type"), const(i | w))]) for i in range(lo, hi + 1) for w in (0, b32)]
    last = k("SLJIT_JUMP") - 1
    for fn in ("sljit_emit_select", "sljit_emit_fselect", "sljit_emit_cmp", "sljit_emit_fcmp", "sljit_emit_op_flags"):
        r.pop(fn, None)
    for i, f in types32(0, last):
        for s in ("reg", "mem", "imm"):
            add("sljit_emit_select", "condition %s %s" % (i, s), f + [(("v", "dst_reg"), const(2)), (("v", "src2_reg"), const(4))] + operand(u, "src1", s, idx=3))
            if s != "imm":
                add("sljit_emit_fselect", "condition %s %s" % (i, s), f + [(("v", "dst_freg"), const(2)), (("v", "src2_freg"), const(4))] +
                    operand(u, "src1", s, idx=3))
    for i, f in types(0, last):
        add("sljit_emit_jump", "condition %d" % i, f)
        for n in ("MOV", "MOV32", "AND", "OR", "XOR"):
            for w in (0, b32):
                for d in ("reg", "mem"):
                    add("sljit_emit_op_flags", "%s%s %s, condition %d" % (n, "32" if w else "", d, i),
                        f + [bit("op", ~(k("SLJIT_" + n) | w | k("SLJIT_SET_Z")) & 0xffffffff, k("SLJIT_" + n) | w)] + operand(u, "dst", d, dst=True, idx=2))
    for i, f in types32(0, last):
        for s, t in (("reg", "reg"), ("reg", "mem"), ("mem", "imm"), ("imm", "reg")):
            add("sljit_emit_cmp", "%s %s, %s" % (i, s, t), f + operand(u, "src1", s, idx=3) + operand(u, "src2", t, idx=4))
            if t != "imm" and s != "imm":
                add("sljit_emit_fcmp", "%s %s, %s" % (i, s, t), f + operand(u, "src1", s, idx=3) + operand(u, "src2", t, idx=4))
    for t in ("JUMP", "FAST_CALL"):
        add("sljit_emit_jump", t, [(("v", "type"), const(k("SLJIT_" + t)))])
        for s in ("reg", "mem", "imm"):
            add("sljit_emit_ijump", t + " " + s, [(("v", "type"), const(k("SLJIT_" + t)))] + operand(u, "src", s, idx=3))
    for t in ("CALL", "CALL_REG_ARG"):
        v = k("SLJIT_JUMP") + (2 if t == "CALL" else 3)
        add("sljit_emit_call", t, [(("v", "type"), const(v))])
        for s in ("reg", "mem", "imm"):
            add("sljit_emit_icall", t + " " + s, [(("v", "type"), const(v))] + operand(u, "src", s, idx=3))
    for n in base.facts.OPCODES["OP1"][:9] + ["MOV_F64"]:
        for s in ("reg", "mem", "imm"):
            for w in (0, b32):
                add("sljit_emit_return", "%s%s %s" % (n, "32" if w else "", s), [(("v", "op"), const(k("SLJIT_" + n) | w))] + operand(u, "src", s, idx=3))
    for s in ("reg", "mem", "imm"):
        add("sljit_emit_return_to", s, operand(u, "src", s, idx=3))
    return r


def unit(u, res):
    cl = Reach(res, u)
    an = Analysis(u, cl)
    for name, ss in sorted(scenarios(u).items()):
        fn = u.funcs.get(name)
        if fn is None:
            continue
        res.note("functions", name)
        for sc in ss:
            known = set(fn.params)
            facts = [(("F", "error"), ZERO), (("F", "skip_checks"), ZERO)] + [f for f in sc.facts if f[0][0] != "F" and (f[0][1] if f[0][0] == "v" else f[0][1][1]) in known]
            cl.entry, cl.what = name, sc.label
            outs = an.run(name, (NONE, NONE, (NONE, None, NONE)), facts)
            res.count("scenarios")
            ptr = fn.ret.endswith("*")
            if any((rv != ZERO if ptr else contains(rv, 0)) for ps, rv in outs):
                res.note("accepted", (u.cfg.arch, name, sc.label))
    for p in cl.asserts:
        res.note("asserts", (u.cfg.arch, p))
    # the places the rule is about
    for f in u.funcs.values():
        for n in f.cfg.nodes:
            if n.k == "call" and n.b == "vp_unreachable":
                res.note("unreachable", (u.cfg.arch, f.where(n.line)))
    res.count("steps", an.steps)
    res.count("contexts", len(an.memo))


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("chk",)))
    return ck.finish(rs, "unreachable code", {"accepted": 20000, "unreachable": 25})
