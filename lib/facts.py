"""Build configurations and fact extraction (runs tool/sljfacts on /repo's current sources)."""
import os, json, subprocess, hashlib, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TOOL = os.path.join(VERIF, "tool", "sljfacts")


class Broken(Exception):
    """The analysis itself cannot run (missing anchor, parse error): never a verdict."""


# name -> (clang target args, extra -D).  They mirror /opt/vp/configs.txt plus targets the
# repository supports but the build here does not run (riscv32, big endian ppc64, armv6, soft float).
ARCHS = {
    "x86_64": ["--target=x86_64-linux-gnu"],
    "x86_32": ["--target=i686-linux-gnu"],
    "aarch64": ["--target=aarch64-linux-gnu"],
    "armv7": ["--target=arm-linux-gnueabihf", "-march=armv7-a", "-marm"],
    "armv6": ["--target=arm-linux-gnueabihf", "-march=armv7-a", "-marm", "-DSLJIT_CONFIG_ARM_V6=1"],
    "armv7_soft": ["--target=arm-linux-gnueabihf", "-march=armv7-a", "-marm", "-D__SOFTFP__=1"],
    "armt2": ["--target=arm-linux-gnueabihf", "-march=armv7-a", "-mthumb"],
    "riscv64": ["--target=riscv64-linux-gnu", "-march=rv64g"],
    "riscv64_c": ["--target=riscv64-linux-gnu", "-march=rv64gc"],
    "riscv64_ext": ["--target=riscv64-linux-gnu", "-march=rv64gv_zba_zbb"],
    "riscv32": ["--target=i686-linux-gnu", "-DSLJIT_CONFIG_RISCV_32=1"],
    "riscv32_c": ["--target=i686-linux-gnu", "-DSLJIT_CONFIG_RISCV_32=1", "-DSLJIT_CONFIG_RISCV_COMPRESSED=200"],
    "s390x": ["--target=s390x-linux-gnu", "-march=z13"],
    "loongarch64": ["--target=loongarch64-linux-gnu"],
    "ppc64le": ["--target=powerpc64le-linux-gnu"],
    "ppc32": ["--target=powerpc-linux-gnu"],
    "mips32el": ["--target=mipsel-linux-gnu"],
    "mips64el": ["--target=mips64el-linux-gnuabi64"],
}
# built by the test configurations
BUILT = ["x86_64", "x86_32", "aarch64", "armv7", "armt2", "riscv64", "riscv64_ext", "s390x",
         "loongarch64", "ppc64le", "ppc32", "mips32el", "mips64el"]
ALL = list(ARCHS)

MODES = {
    "dbg": ["-DSLJIT_ARGUMENT_CHECKS=1", "-DSLJIT_DEBUG=1", "-DSLJIT_VERBOSE=1"],   # all checks on
    "rel": ["-DSLJIT_ARGUMENT_CHECKS=0", "-DSLJIT_DEBUG=0", "-DSLJIT_VERBOSE=0"],   # release
    "chk": ["-DSLJIT_ARGUMENT_CHECKS=1", "-DSLJIT_DEBUG=1", "-DSLJIT_VERBOSE=0"],   # argument checks, assertions, no output
    "def": ["-DSLJIT_ARGUMENT_CHECKS=0", "-DSLJIT_DEBUG=1", "-DSLJIT_VERBOSE=1"],   # defaults
}

# Customisation points documented in sljitConfigInternal.h ("feel free to redefine") are bound to
# marker functions so that the rules see them on every target, also where they normally vanish.
MARKERS_H = r"""
#ifndef VP_MARKERS_H
#define VP_MARKERS_H
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
void vp_assert(int);
void vp_unreachable(void);
void *vp_malloc(unsigned long, void *);
void vp_free(void *, void *);
void *vp_malloc_exec(unsigned long, void *);
void vp_free_exec(void *, void *);
void vp_cache_flush(void *, void *);
#ifndef VP_BUILTIN_WX
void vp_update_wx_flags(void *, void *, int);
#define SLJIT_UPDATE_WX_FLAGS(from, to, x) vp_update_wx_flags((void*)(from), (void*)(to), (x))
#endif
#define SLJIT_ASSERT(x) vp_assert(!!(x))
#define SLJIT_UNREACHABLE() vp_unreachable()
#define SLJIT_MALLOC(size, data) vp_malloc((size), (data))
#define SLJIT_FREE(ptr, data) vp_free((void*)(ptr), (data))
#ifndef VP_BUILTIN_EXEC
#define SLJIT_MALLOC_EXEC(size, data) vp_malloc_exec((size), (data))
#define SLJIT_FREE_EXEC(ptr, data) vp_free_exec((void*)(ptr), (data))
long vp_exec_offset(void *);
#define SLJIT_EXEC_OFFSET(ptr) ((sljit_sw)vp_exec_offset((void*)(ptr)))
#endif
#define SLJIT_CACHE_FLUSH(from, to) vp_cache_flush((void*)(from), (void*)(to))
#endif
"""


def ensure_tool():
    src = os.path.join(VERIF, "tool", "sljfacts.cpp")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "tool"), "sljfacts"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(TOOL):
        raise Broken("cannot build tool/sljfacts: " + r.stdout[-2000:])


_res = None


def resource_dir():
    global _res
    if _res is None:
        for c in ("clang-18", "clang"):
            if shutil.which(c):
                _res = subprocess.run([c, "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
                break
        else:
            _res = "/usr/lib/llvm-18/lib/clang/18"
    return _res


# macro values the rules need (absent ones are skipped)
CONSTS = """SLJIT_MEM_SUPP SLJIT_MEM_STORE SLJIT_SIMD_TEST SLJIT_ATOMIC_TEST SLJIT_SUCCESS SLJIT_ERR_COMPILED SLJIT_ERR_ALLOC_FAILED
SLJIT_ERR_EX_ALLOC_FAILED SLJIT_ERR_UNSUPPORTED SLJIT_ERR_BAD_ARGUMENT SLJIT_LOCALS_OFFSET
SLJIT_NUMBER_OF_REGISTERS SLJIT_NUMBER_OF_SAVED_REGISTERS SLJIT_NUMBER_OF_TEMPORARY_REGISTERS SLJIT_TMP_REGISTER_BASE
SLJIT_NUMBER_OF_FLOAT_REGISTERS SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS SLJIT_TMP_FREGISTER_BASE
SLJIT_NUMBER_OF_VECTOR_REGISTERS SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS SLJIT_NUMBER_OF_TEMPORARY_VECTOR_REGISTERS SLJIT_TMP_VREGISTER_BASE
SLJIT_GP_REGISTER SLJIT_FLOAT_REGISTER SLJIT_SIMD_REG_128 SLJIT_SP SLJIT_S0 SLJIT_FS0 SLJIT_VS0 SLJIT_RETURN_REG SLJIT_RETURN_FREG
SLJIT_FIRST_SAVED_REG SLJIT_FIRST_SAVED_FLOAT_REG SLJIT_FIRST_SAVED_VECTOR_REG
TMP_REG1 TMP_REG2 TMP_REG3 TMP_FREG TMP_FREG1 TMP_FREG2 TMP_FREG3 TMP_VREG1 TMP_VREG2 TMP_ZERO TMP_PC TMP_LR TMP_FP TMP_CALL_REG
EQUAL_FLAG OTHER_FLAG RETURN_ADDR_REG PIC_ADDR_REG""".split()
# operations, by the base constant of their class
OPCODES = {
    "OP0": "BREAKPOINT NOP LMUL_UW LMUL_SW DIVMOD_UW DIVMOD_SW DIV_UW DIV_SW MEMORY_BARRIER ENDBR SKIP_FRAMES_BEFORE_RETURN".split(),
    "OP1": "MOV MOV_U8 MOV_S8 MOV_U16 MOV_S16 MOV_U32 MOV_S32 MOV32 MOV_P CLZ CTZ REV REV_U16 REV_S16 REV_U32 REV_S32".split(),
    "OP2": "ADD ADDC SUB SUBC MUL AND OR XOR SHL MSHL LSHR MLSHR ASHR MASHR ROTL ROTR".split(),
    "OP2R": ["MULADD"],
    "SRC_DST": "FAST_RETURN SKIP_FRAMES_BEFORE_FAST_RETURN PREFETCH_L1 PREFETCH_L2 PREFETCH_L3 PREFETCH_ONCE FAST_ENTER GET_RETURN_ADDRESS".split(),
    "FOP1": "MOV_F64 CONV_F64_FROM_F32 CONV_SW_FROM_F64 CONV_S32_FROM_F64 CONV_F64_FROM_SW CONV_F64_FROM_S32 CONV_F64_FROM_UW CONV_F64_FROM_U32 "
            "CMP_F64 NEG_F64 ABS_F64".split(),
    "FOP2": "ADD_F64 SUB_F64 MUL_F64 DIV_F64".split(),
    "FOP2R": ["COPYSIGN_F64"],
}
CONSTS += ["SLJIT_" + o for c in OPCODES.values() for o in c] + ["SLJIT_32", "SLJIT_SET_Z", "SLJIT_IMM", "SLJIT_R0", "SLJIT_R1", "SLJIT_FR0", "SLJIT_VR0", "SLJIT_SIMD_FLOAT", "SLJIT_SIMD_LANE_ZERO",
           "SLJIT_JUMP", "SLJIT_FAST_CALL"]
# derived constants: name -> expression
EXPRS = {"SLJIT_MEM1_SP": "SLJIT_MEM1(SLJIT_SP)", "SLJIT_F64_SECOND_FR0": "SLJIT_F64_SECOND(1)"}


class Config:
    def __init__(self, arch, mode="dbg", variant="", main="sljitLir.c", srcdir="sljit_src", extra=(), markers=True,
                 append=""):
        self.arch, self.mode, self.variant = arch, mode, variant
        self.main, self.srcdir, self.extra, self.markers, self.append = main, srcdir, list(extra), markers, append

    @property
    def name(self):
        n = "%s/%s" % (self.arch, self.mode)
        if self.variant:
            n += "/" + self.variant
        if self.main != "sljitLir.c":
            n += ":" + self.main
        return n

    def args(self):
        a = ["-resource-dir", resource_dir(), "-w", "-std=gnu11"] + ARCHS[self.arch] + MODES[self.mode]
        a += ["-I" + os.path.join(REPO, "sljit_src")]
        if self.srcdir != "sljit_src":
            a += ["-I" + os.path.join(REPO, self.srcdir)]
        return a + self.extra


def extract(cfg):
    """-> raw facts dict"""
    ensure_tool()
    w = tempfile.mkdtemp(prefix="vpfacts.")
    try:
        return extract_in(cfg, w)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def extract_in(cfg, w):
    tag = hashlib.sha1((cfg.name + repr(cfg.extra) + cfg.append).encode()).hexdigest()[:16]
    tu = os.path.join(w, tag + ".c")
    with open(tu, "w") as f:
        if cfg.markers:
            f.write(MARKERS_H)
        f.write('#include "%s"\n' % cfg.main)
        f.write(cfg.append)
        for c in CONSTS:
            f.write("#ifdef %s\nconst long vp_k_%s = (long)(%s);\n#endif\n" % (c, c, c))
        if cfg.srcdir == "sljit_src":
            for c, x in EXPRS.items():
                f.write("const long vp_k_%s = (long)(%s);\n" % (c, x))
    out = os.path.join(w, tag + ".json")
    cmd = [TOOL, out, tu, "--"] + cfg.args()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        raise Broken("cannot parse configuration %s:\n%s" % (cfg.name, r.stdout[-3000:]))
    with open(out) as f:
        d = json.load(f)
    return d


def rel(path):
    p = os.path.normpath(path)
    r = os.path.normpath(REPO)
    return os.path.relpath(p, r) if p.startswith(r + "/") else p
