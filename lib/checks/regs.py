"""C15: machine registers. Every virtual register has a machine register of its own; the saved ones are those the
calling convention preserves."""
from flow import *
from common import *
import base
from facts import Broken

# machine registers (integer, float) a called function has to preserve; return registers; stack pointer.
# From the procedure call standards: System V AMD64/i386 psABI, AAPCS32, AAPCS64, RISC-V psABI, s390x ELF ABI,
# LoongArch psABI, OpenPOWER ELFv2/System V PPC, MIPS O32/N64.
ABI = {
    "x86_64": ({3, 5, 12, 13, 14, 15}, set(), 0, 0, 4),
    "x86_32": ({3, 5, 6, 7}, set(), 0, None, 4),
    "arm32": (set(range(4, 12)), set(range(8, 16)), 0, 0, 13),
    "aarch64": (set(range(19, 30)), set(range(8, 16)), 0, 0, 31),
    "riscv": ({8, 9} | set(range(18, 28)), {8, 9} | set(range(18, 28)), 10, 10, 2),
    "s390x": (set(range(6, 14)), set(range(8, 16)), 2, 0, 15),
    "loongarch64": (set(range(22, 32)), set(range(24, 32)), 4, 0, 3),
    "ppc": (set(range(14, 32)), set(range(14, 32)), 3, 1, 1),
    "mips32": ({30} | set(range(16, 24)), set(range(20, 32)), 2, 0, 29),
    "mips64": ({30, 28} | set(range(16, 24)), set(range(24, 32)), 2, 0, 29),
}
# registers the convention gives another fixed meaning (hard wired zero, assembler/kernel/thread/global pointer, platform register)
FIXED = {"riscv": {0, 3, 4}, "loongarch64": {0, 2, 21}, "ppc": {2, 13}, "mips32": {0, 26, 27, 28}, "mips64": {0, 26, 27, 28},
         "aarch64": {18}, "arm32": set(), "x86_64": set(), "x86_32": set(), "s390x": set()}
KINDS = (("int", "", "SLJIT_GP_REGISTER"), ("float", "FLOAT_", "SLJIT_FLOAT_REGISTER"), ("vector", "VECTOR_", "SLJIT_SIMD_REG_128"))
TMPS = {"int": ("TMP_REG1 TMP_REG2 TMP_REG3 TMP_PC TMP_LR TMP_FP EQUAL_FLAG OTHER_FLAG TMP_CALL_REG RETURN_ADDR_REG "
                "PIC_ADDR_REG TMP_ZERO").split(),
        "float": ["TMP_FREG", "TMP_FREG1", "TMP_FREG2", "TMP_FREG3"], "vector": ["TMP_VREG1", "TMP_VREG2"]}
# names of one register by design (a role a temporary register also has)
ALIAS = {"RETURN_ADDR_REG", "PIC_ADDR_REG", "TMP_CALL_REG"}
# temporary names that are machine register numbers, not virtual ones
MACHINE = {"mips32": {"EQUAL_FLAG", "OTHER_FLAG", "RETURN_ADDR_REG"}, "mips64": {"EQUAL_FLAG", "OTHER_FLAG", "RETURN_ADDR_REG"}}
INTERNAL = ("s390x",)


def family(a):
    return {"armv7": "arm32", "armv6": "arm32", "armv7_soft": "arm32", "armt2": "arm32", "riscv64": "riscv", "riscv64_ext": "riscv", "riscv64_c": "riscv", "riscv32_c": "riscv",
            "riscv32": "riscv", "ppc64le": "ppc", "ppc32": "ppc", "mips32el": "mips32", "mips64el": "mips64"}.get(a, a)


def opt(u, name):
    try:
        return u.k(name)
    except Broken:
        return None


def table(u, name):
    g = u.globals.get(name)
    if not g or not g["const"] or g["len"] < 0 or not g.get("init") or g["init"][0] != "il":
        return None
    r = []
    for x in g["init"][1:]:
        v = ev(tuplify(x), {})
        if not isconst(v):
            return None
        r.append(v[0])
    return r + [0] * (g["len"] - len(r))


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, (list, tuple)) else x


class Index(Client):
    """evaluates sljit_get_register_index for one register"""

    def __init__(self, u):
        self.u, self.out, self.used = u, set(), set()
        self.tabs = {}

    def look(self, e, env):
        """e with the entries of constant tables put in"""
        if not isinstance(e, tuple) or not e or e[0] in ("v", "i", "F", "s"):
            return e
        if e[0] == "x" and e[1][0] == "v" and e[1][1].startswith("::"):
            if e[1][1] not in self.tabs:
                self.tabs[e[1][1]] = table(self.u, e[1][1])
            t, i = self.tabs[e[1][1]], ev(self.look(e[2], env), env)
            if t is not None and isconst(i) and 0 <= i[0] < len(t):
                self.used.add(e[1][1])
                return ("i", t[i[0]])
        return tuple(self.look(x, env) for x in e)

    def on_set(self, an, fn, n, ps, env):
        return ps

    def on_ret(self, an, fn, n, ps, env):
        if n.a is None:
            return ps
        v = ev(self.look(n.a, env), env)
        if fn.name == "sljit_get_register_index":
            self.out.add(v[0] if isconst(v) else None)
        return [(ps, v)]


def index(u, ty, reg):
    cl = Index(u)
    fn = u.funcs["sljit_get_register_index"]
    an = Analysis(u, cl)
    an.run("sljit_get_register_index", 0, [(("v", fn.params[0]), const(ty)), (("v", fn.params[1]), const(reg))])
    if len(cl.out) != 1 or None in cl.out:
        raise Broken("%s: sljit_get_register_index(%d, %d) is not decided: %s" % (u.name, ty, reg, cl.out))
    return cl.out.pop(), cl.used


def unit(u, res):
    a = u.cfg.arch
    fam = family(a)
    isave, fsave, ret, fret, sp = ABI[fam]
    gl = {k: table(u, k) for k in u.globals if u.globals[k]["len"] >= 0}
    for kind, pre, ty in KINDS:
        n, saved, ntmp = (u.k("SLJIT_NUMBER_OF_%s%s" % (m, x)) for m, x in
                          (("", pre + "REGISTERS"), ("SAVED_" + pre, "REGISTERS"), ("TEMPORARY_" + pre, "REGISTERS")))
        first = u.k("SLJIT_FIRST_SAVED_%sREG" % pre)
        base_ = u.k({"int": "SLJIT_TMP_REGISTER_BASE", "float": "SLJIT_TMP_FREGISTER_BASE", "vector": "SLJIT_TMP_VREGISTER_BASE"}[kind])
        fn = u.funcs["sljit_get_register_index"]
        w = fn.where()
        mach, used = {}, set()
        for r in list(range(1, n + 1)) + list(range(base_, base_ + ntmp)):
            v, us = index(u, u.k(ty), r)
            used |= us
            mach[r] = v
            res.note("registers", (a, kind, r))
            res.count("registers_decided")
        if kind == "vector" and not any(v >= 0 for v in mach.values()):
            continue
        if len(used) != 1:
            raise Broken("%s: %s register numbers come from tables %s" % (u.name, kind, sorted(used)))
        tn = used.pop()
        tab = gl[tn]
        tw = u.loc(u.globals[tn]["line"])
        res.note("tables", (a, tn))
        mask = ~1 if kind == "vector" and fam == "arm32" else -1

        def name(r):
            if kind == "int" and r == n + 1:
                return "SP"
            p = {"int": "", "float": "F", "vector": "V"}[kind]
            return p + ("R%d" % (r - 1) if r < first else "S%d" % (n - r)) if r <= n else "temporary %sR%d" % (p, r - base_)
        virt = {}
        for r, v in mach.items():
            if v < 0:
                # only the registers x86-32 documents as emulated have no machine register
                if not (a == "x86_32" and kind == "int" and 4 <= r <= 9):
                    res.add("%s:%s:%d:none" % (a, kind, r), "sljit_get_register_index says %s has no machine register" % name(r), w)
                continue
            if not (0 <= r < len(tab)) or tab[r] & mask != v:
                res.add("%s:%s:%d:table" % (a, kind, r), "sljit_get_register_index reports %d for %s" % (v, name(r)), w)
            virt[r] = tab[r]
        if kind == "int":
            virt[n + 1] = tab[n + 1]
            if tab[n + 1] != sp:
                res.add("%s:sp" % a, "SLJIT_SP is mapped to machine register %d, the stack pointer is %d" % (tab[n + 1], sp), tw)
        lim = 8 if a == "x86_32" else 16 if a in ("x86_64", "s390x") or fam == "arm32" else 32
        seen = {}
        for r, v in sorted(virt.items()):
            if not 0 <= v < lim:
                res.add("%s:%s:%d:range" % (a, kind, r), "%s is mapped to machine register %d, which does not exist" % (name(r), v), tw)
            if v in seen:
                res.add("%s:%s:%d:shared" % (a, kind, r), "%s and %s are both mapped to machine register %d (%s)" % (name(seen[v]), name(r), v, tn[2:]), tw)
            seen[v] = r
            res.count("mappings")
            if r <= n and kind in ("int", "float"):
                keep = isave if kind == "int" else fsave
                if kind == "int" and v in FIXED[fam]:
                    res.add("%s:%s:%d:fixed" % (a, kind, r), "%s is mapped to machine register %d, which the platform reserves" % (name(r), v), tw)
                if r >= first and v not in keep:
                    res.add("%s:%s:%d:saved" % (a, kind, r), "%s is a saved register, but the calling convention does not preserve machine register %d" % (name(r), v), tw)
                if r < first and v in keep:
                    res.add("%s:%s:%d:scratch" % (a, kind, r), "%s is a scratch register the prologue does not save, but the calling convention preserves machine register %d" % (name(r), v), tw)
                res.count("convention")
        if kind == "int" and tab[u.k("SLJIT_RETURN_REG")] != ret:
            res.add("%s:ret" % a, "the return register is mapped to machine register %d instead of %d" % (tab[u.k("SLJIT_RETURN_REG")], ret), tw)
        if kind == "float" and fret is not None and tab[u.k("SLJIT_RETURN_FREG")] != fret:
            res.add("%s:fret" % a, "the float return register is mapped to machine register %d instead of %d" % (tab[u.k("SLJIT_RETURN_FREG")], fret), tw)
        if u.k("SLJIT_" + {"int": "S0", "float": "FS0", "vector": "VS0"}[kind]) != n or first != n - saved + 1:
            res.add("%s:%s:first" % (a, kind), "the saved %s registers are not the last %d ones" % (kind, saved), tw)
        # internal temporaries
        tmp = {}
        for t in TMPS[kind]:
            v = opt(u, t)
            if v is None:
                continue
            if t in MACHINE.get(fam, ()) and kind == "int":
                m = v
            elif v == 0 and t == "TMP_ZERO":
                # the hard wired zero register
                m = tab[0]
                if not (m in FIXED[fam] or fam == "aarch64" and m == 31):
                    res.add("%s:tmpzero" % a, "TMP_ZERO is machine register %d" % m, tw)
                continue
            elif not 0 <= v < len(tab):
                res.add("%s:%s:oob" % (a, t), "%s indexes past the end of %s" % (t, tn[2:]), tw)
                continue
            else:
                m = tab[v]
            res.count("temporaries")
            for r, x in virt.items():
                if x == m and r <= n + (kind == "int") and not (t in MACHINE.get(fam, ()) and False):
                    res.add("%s:%s:live" % (a, t), "%s shares machine register %d with %s" % (t, m, name(r)), tw)
            if t in ALIAS:
                continue
            if m in tmp:
                res.add("%s:%s:twice" % (a, t), "%s and %s are both machine register %d" % (tmp[m], t, m), tw)
            tmp[m] = t
        # entries past the virtual registers are temporaries: none may be a live register (the x86-32 emulated ones have no meaning)
        for r in range(n + (2 if kind == "int" else 1), min(len(tab), len(u.globals[tn]["init"]) - 1)):
            if kind != "int" and fam in ("arm32", "mips32") and r >= n + 1 + ntmp:
                break
            for q, x in virt.items():
                if q <= n + (kind == "int") and x == tab[r]:
                    res.add("%s:%s:tail%d" % (a, kind, r), "temporary register %d of %s is the machine register %d of %s" % (r, tn[2:], x, name(q)), tw)
        # the second halves of 64 bit floats
        if kind == "float" and fam in ("arm32", "mips32"):
            half = n + ntmp
            eb = gl.get("::freg_ebit_map")
            if len(tab) < 2 * half + 1 or fam == "arm32" and (not eb or len(eb) != len(tab)):
                raise Broken("%s: the float tables have no second halves" % u.name)
            for r in range(1, half + 1):
                res.count("halves")
                if fam == "arm32":
                    ok = tab[r + half] == tab[r] and eb[r] == 0 and eb[r + half] == 1
                else:
                    ok = tab[r + half] == tab[r] + 1 and tab[r] % 2 == 0
                if not ok:
                    res.add("%s:half:%d" % (a, r), "the second half of float register %s is not the upper half of machine register %d" % (name(r), tab[r]), tw)
        # companion tables holding the low bits
        lm = gl.get(tn[:-3] + "lmap")
        if lm is not None:
            for r in range(1, len(tab)):
                res.count("low_bits")
                if r >= len(lm) or lm[r] != tab[r] & 7:
                    res.add("%s:%s:low%d" % (a, kind, r), "the low bits of %s do not match its machine register %d" % (name(r), tab[r]), tw)
        elif a == "x86_64":
            raise Broken("x86_64: no table of low register bits beside " + tn)


def check(pid):
    ck = base.Check(pid)
    rs = base.run_configs(unit, base.specs(base.facts.ALL, ("rel",)))
    return ck.finish(rs, "register tables", {"tables": 30, "mappings": 700, "convention": 500, "temporaries": 60, "halves": 60, "low_bits": 20})
