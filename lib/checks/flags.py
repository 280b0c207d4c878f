"""C21: operations documented not to modify the status flags leave them alone."""
from flow import *
from common import *
import base, insn
from checks import effects
from checks.effects import Effects, Scenario, bit, operand, NONE


class Flags(Effects):
    """the flags are machine registers on some architectures (EQUAL_FLAG, OTHER_FLAG), a status register on others"""

    def __init__(self, res, u):
        Effects.__init__(self, res, u, (), ())
        self.flagregs = {u.k(n) for n in ("EQUAL_FLAG", "OTHER_FLAG")} if u.cfg.arch.startswith(("riscv", "loong", "mips")) else set()
        self.raw = u.cfg.arch.startswith("mips")
        self.sets = insn.FLAGS.get(u.cfg.arch)
        self.words = 0

    def emit(self, fn, n, ps, env, width):
        ws, fs = self.word(n.c[1], ps, env)
        fs = self.values(fs, env)
        it = max(ps[2][0], default=0)
        for w in ws:
            self.words += 1
            what = self.sets and self.sets(w, width)
            if what and what.startswith("16 bit") and it:
                what = None         # does not change flags in an IT block
            if what == "carry" and self.keeps_carry(w, fs):
                what = None
            if what == "carry" and self.entry == "sljit_emit_jump":
                what = None         # documented: jumps may destroy the carry flag
            if not what and self.flagregs:
                d = self.decode(w, width) or {}
                if self.raw:
                    for s in (11, 16):
                        if "w" in d.get(s, "") and not any(f[0] == s for f in fs) and insn.bits(w, 31 << s) is not None \
                                and insn.bits(w, 31 << s) >> s in self.flagregs and not insn.sure(w, 0xfc000000, 0x44000000):
                            what = "register %d" % (insn.bits(w, 31 << s) >> s)
                else:
                    for f in fs:
                        if f[1] == "r" and isconst(f[2]) and f[2][0] in self.flagregs and "w" in d.get(f[0], ""):
                            what = "flag register"
            if what:
                self.res.add("%s:%s:%s" % (self.u.cfg.arch, self.entry, fn.name),
                             "%s (%s) emits an instruction which changes the status flags (%s) in %s" % (self.entry, self.what, what, fn.name),
                             fn.where(n.line))
        it = max(it - 1, 0)
        if width == 16 and any(insn.sure(w, 0xff00, 0xbf00) for w in ws):
            # an IT instruction: the lowest bit set in its mask is its length
            it = max((4 - min((i for i in range(4) if not insn.sure(w, 1 << i, 0)), default=3) for w in ws if insn.sure(w, 0xff00, 0xbf00)), default=4)
        return [((ps[0], ps[1], (frozenset([it]) if it else NONE,) + ps[2][1:]), ZERO, None)]

    def keeps_carry(self, w, fs):
        """SUBFE with zero operands: -1 + carry carries if the carry is set"""
        z = self.u.k("TMP_ZERO")
        return insn.sure(w, 0xfc0007fe, 31 << 26 | 136 << 1) and all(any(f[0] == s and f[2] == const(z) for f in fs) for s in (11, 16))


MOVES = "MOV MOV_U8 MOV_S8 MOV_U16 MOV_S16 MOV_U32 MOV_S32 MOV32 MOV_P".split()
# function -> first words of the labels of its scenarios (None: all)
PRESERVE = {
    "sljit_emit_op0": ("NOP", "BREAKPOINT", "MEMORY_BARRIER", "ENDBR"),
    "sljit_emit_op1": MOVES,
    "sljit_emit_fop1": ("MOV_F64",),
    "sljit_emit_op_src": ("FAST_RETURN", "PREFETCH_L1", "PREFETCH_L2", "PREFETCH_L3", "PREFETCH_ONCE"),
    "sljit_emit_op_dst": None,
    "sljit_emit_op_flags": ("MOV", "MOV32", "MOV_S32"),
    "sljit_emit_select": None, "sljit_emit_fselect": None,
    "sljit_emit_ijump": None,
    "sljit_emit_mem": None, "sljit_emit_mem_update": None, "sljit_emit_fmem": None, "sljit_emit_fmem_update": None,
    "sljit_emit_simd_mov": None, "sljit_emit_simd_replicate": None, "sljit_emit_simd_lane_mov": None, "sljit_emit_simd_lane_replicate": None,
    "sljit_emit_simd_extend": None, "sljit_emit_simd_sign": None, "sljit_emit_simd_op2": None,
    "sljit_emit_atomic_load": None, "sljit_emit_const": None, "sljit_emit_op_addr": ("MOV_ABS_ADDR",),
}


def plain(u, s):
    """facts of a scenario; moves set no flags"""
    r = []
    for k, v in s.facts:
        if k == ("K", ("v", "op")):
            k, v = ("v", "op"), const(v[1])
        r.append((k, v))
    return r


def scenarios(u):
    r = {}
    for fn, ss in effects.scenarios(u).items():
        if fn in PRESERVE:
            p = PRESERVE[fn]
            keep = [s for s in ss if p is None or s.label.split()[0] in p or s.label.split()[0][:-2] in p and s.label.split()[0].endswith("32")]
            if keep:
                r[fn] = [Scenario(s.label, plain(u, s), (), ()) for s in keep]
    for t in range(u.k("SLJIT_JUMP") + 1):
        r.setdefault("sljit_emit_jump", []).append(Scenario("type %d" % t, [(("v", "type"), const(t))], (), ()))
    return r


def unit(u, res):
    api = {}
    cl = Flags(res, u)
    an = Analysis(u, cl)
    for name, ss in sorted(scenarios(u).items()):
        fn = u.funcs.get(name)
        if fn is None:
            continue
        res.note("functions", name)
        for sc in ss:
            known = set(fn.params)
            facts = [f for f in sc.facts if f[0][0] == "F" or (f[0][1] if f[0][0] == "v" else f[0][1][1]) in known]
            cl.entry, cl.what = name, sc.label
            outs = an.run(name, (NONE, NONE, (NONE, None, NONE)), facts)
            res.count("scenarios")
            ptr = fn.ret.endswith("*")
            if any((rv != ZERO if ptr else contains(rv, 0)) for ps, rv in outs):
                res.note("supported", (u.cfg.arch, name, sc.label))
    res.count("steps", an.steps)
    res.count("contexts", len(an.memo))
    res.count("words", cl.words)


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs([a for a in base.facts.ALL if a in insn.DECODE], ("rel",)))
    return ck.finish(rs, "flags are not modified", {"supported": 3500, "words": 7000})
