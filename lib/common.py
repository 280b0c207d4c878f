"""Facts about the library shared by several rules."""
from flow import ev, isconst, contains, ZERO


def api(u):
    """public functions (declared in sljitLir.h) with a body in this configuration"""
    r = {}
    for p in u.protos:
        if p[0] in u.funcs and u.file_of(p[1]).endswith("sljitLir.h"):
            r[p[0]] = u.funcs[p[0]]
    return r


def compiler_api(u):
    return {n: f for n, f in api(u).items() if f.params and f.ptypes[f.params[0]] == "struct sljit_compiler *"}


def root(lv):
    """storage a store goes to: ("v", name), ("F", field) or ("mem", pointer expression)"""
    while True:
        k = lv[0]
        if k in ("v", "F"):
            return lv
        if k == "m":
            lv = lv[1]
        elif k == "t":
            lv = lv[2]
        elif k == "x" and lv[4] == "a":
            lv = lv[1]
        elif k == "x":
            return ("mem", lv[1])
        elif k == "*":
            return ("mem", lv[1])
        else:
            return ("mem", lv)


def is_local_store(fn, lv):
    """store to a local variable (also a local array or struct), not through a pointer"""
    r = root(lv)
    return r[0] == "v" and not r[1].startswith("::")


def derefs(e):
    """pointer expressions dereferenced by evaluating e"""
    out = []

    def go(x, addr):
        if not isinstance(x, tuple) or not x:
            return
        k = x[0]
        if k == "*":
            if not addr:
                out.append(x[1])
            go(x[1], False)
        elif k == "x":
            if x[4] == "a":
                go(x[1], addr)
            else:
                if not addr:
                    out.append(x[1])
                go(x[1], False)
            go(x[2], False)
        elif k == "&":
            go(x[1], True)
        elif k == "m":
            go(x[1], addr)
        elif k in ("s", "i", "v", "F", "f"):
            return
        else:
            for y in x[1:]:
                go(y, False)
    go(e, False)
    return out


ALLOC = ("vp_malloc",)
IO = ("fprintf", "printf", "fputs", "fputc", "putc", "puts", "vfprintf", "fwrite")
PURE = ("strlen", "memcmp", "__builtin_clz", "__builtin_ctz", "__builtin_clzl", "__builtin_ctzl", "strcmp", "getpagesize",
        "sysconf", "__builtin_expect", "__builtin_popcount", "abs", "vp_assert")
