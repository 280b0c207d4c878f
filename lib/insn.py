"""Which registers a machine instruction reads and writes, by the position of its register fields.

An instruction word is known as (value, unknown bits); decode(arch, width, words) returns {(shift, table): "r"|"w"|"rw"|""} as a
function of the field position.  Undecided words give None."""
M = (1 << 64) - 1


def bits(w, mask):
    """value of the masked bits, None if some are unknown"""
    v, u = w
    return None if u & mask else v & mask


def riscv(w, width):
    if width == 16:
        q, f3 = bits(w, 3), bits(w, 0xe000)
        if q is None or f3 is None:
            return None
        f3 >>= 13
        if q == 1:
            if f3 in (0, 1):
                return {7: "rw"}
            if f3 in (2, 3):
                return {7: "w"}
            if f3 == 4:
                return {7: "rw", 2: "r"}
            return {7: "r"}
        if q == 2:
            if f3 == 0:
                return {7: "rw"}
            if f3 in (1, 2, 3):
                return {7: "w"}
            if f3 == 4:
                b = bits(w, 0x1000)
                if b is None:
                    return None
                # C.MV/C.ADD have a second register, C.JR/C.JALR have none
                return {7: ("mv" if not b else "add"), 2: "r"}
            return {2: "r", 7: "r"}
        if f3 in (0, 1, 2, 3):
            return {7: "r", 2: "w"}
        return {7: "r", 2: "r"}
    op = bits(w, 0x7f)
    if op is None:
        return None
    if op in (0x23, 0x63, 0x27, 0x73):
        return {7: "w" if op == 0x73 else "r", 15: "r", 20: "r"}
    return {7: "w", 15: "r", 20: "r", 27: "r"}


def loongarch(w, width):
    t = bits(w, 0xffc00000)
    if t is None:
        # the major opcode is enough for most
        t = bits(w, 0xfc000000)
        if t is None:
            return None
        if t in (0x28 << 24, 0x20 << 24, 0x38 << 24, 0x2c << 24):
            return None
        t6 = t >> 26
    else:
        t6 = t >> 26
    d = {0: "w", 5: "r", 10: "r", 15: "r"}
    if t6 in (0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x10, 0x11):
        d[0] = "r"
        return d
    if t6 in (0x0a, 0x0b):
        if t >> 22 in (0xa4, 0xa5, 0xa6, 0xa7, 0xad, 0xaf, 0xb1, 0xb3):
            d[0] = "r"
        return d
    if t6 == 0x08:
        if (t >> 24) in (0x21, 0x23):
            d[0] = "rw"
        return d
    if t6 == 0x0c or t6 == 0x0d:
        # vector element loads and stores
        s = t >> 24
        d[0] = "r" if s in (0x31, 0x33) else "w"
        return d
    if t6 == 0x09:
        return d
    if t6 == 0x0e:
        u = bits(w, 0xffff8000)
        if u is None:
            return None
        if u in (0x38100000, 0x38140000, 0x38180000, 0x381c0000, 0x38380000, 0x383c0000, 0x38440000, 0x384c0000):
            d[0] = "r"
        elif 0x38580000 <= u < 0x38600000:
            d[0] = "rw"
        return d
    if t in (0x00400000, 0x00600000) or (t & 0xff800000) == 0x00800000:
        if t == 0x00600000 or (t & 0xffc00000) == 0x00800000:
            d[0] = "rw"     # bstrins
        return d
    return d


def arm64(w, width):
    d = {0: "w", 5: "r", 16: "r", 10: "r"}
    c = bits(w, 0x0a000000)
    if c is None:
        return None
    if c == 0x08000000:
        k = bits(w, 0x3b000000)
        if k is None:
            return None
        g = (k >> 27) & 7
        if k & 0x3f000000 & ~0x04000000 == 0x08000000:
            x = bits(w, 0x00e00000)
            if x is None:
                return None
            o2, l, o1 = x >> 23 & 1, x >> 22 & 1, x >> 21 & 1
            if (k & 0x04000000) or bits(w, 0x04000000):
                d[0] = "w" if l else "r"
                return d
            if o1 and o2:
                return {16: "rw", 0: "r", 5: "r", 10: "r"}
            d[0] = "w" if l else "r"
            d[16] = "r" if l or o2 else "w"
            return d
        if g == 1:
            # SIMD structures
            l = bits(w, 0x00400000)
            if l is None:
                return None
            one = bits(w, 0x01000000)
            d[0] = ("rw" if one else "w") if l else "r"
            return d
        if g == 5:
            x = bits(w, 0x00400000)
            if x is None:
                return None
            d[0] = d[10] = "w" if x else "r"
            p = bits(w, 0x01800000)
            if p is None or p in (0x00800000, 0x01800000):
                d[5] = "rw"
            return d
        if g == 3:
            return d
        if g == 7:
            # an opc that is not known for certain may still be known to be a load
            o = bits(w, 0x00c00000)
            v, s = bits(w, 0x04000000), bits(w, 0xc0000000)
            if o is None:
                if w[0] & 0x00400000 and not w[1] & 0x00400000:
                    d[0] = "w"
                else:
                    return None
            elif o == 0:
                d[0] = "r"
            elif o == 0x00800000 and v is not None and v and s == 0:
                d[0] = "r"
            elif o == 0x00800000 and v == 0 and s == 0xc0000000:
                d[0] = ""       # PRFM
            if bits(w, 0x01000000) == 0:
                y = bits(w, 0x00200c00)
                if y in (0x400, 0xc00):
                    d[5] = "rw"
                if y == 0x00200000:
                    d[0], d[16] = "w", "r"
            return d
        return d
    t = bits(w, 0x7c000000)
    if t == 0x34000000:
        d[0] = "r"
        return d
    x = bits(w, 0x7f800000)
    if x in (0x72800000, 0x33000000):
        d[0] = "rw"
    y = bits(w, 0xffe0fc00)
    if y is not None and (y & 0xfffffc00) == 0x4e001c00 or bits(w, 0xffe08400) == 0x6e000400:
        d[0] = "rw"
    if bits(w, 0xfff00000) == 0xd5100000:
        d[0] = "r"
    return d


def mips(w, width):
    op = bits(w, 0xfc000000)
    if op is None:
        return None
    op >>= 26
    d = {11: "w", 21: "r", 16: "r", 6: "w"}
    if op == 0:
        f = bits(w, 0x3f)
        if f is None:
            return d
        if f in (0x0a, 0x0b, 0x01):
            d[11] = "rw"
        return d
    if op == 0x1c:
        return {11: "w", 21: "r", 16: ""}
    if op == 0x1f:
        f = bits(w, 0x3f)
        if f is None:
            return None
        if f < 4:
            return {21: "r", 16: "w"}
        if f < 8:
            return {21: "r", 16: "rw"}
        if f in (0x20, 0x24):
            return d
        if f in (0x36, 0x37):
            return {21: "r", 16: "w"}
        if f in (0x26, 0x27):
            return {21: "r", 16: "rw"}
        return d
    if 8 <= op <= 15 or op in (0x18, 0x19, 0x1d):
        return {21: "r", 16: "w"}
    if op in (0x22, 0x26, 0x1a, 0x1b, 0x38, 0x3c):
        return {21: "r", 16: "rw"}
    if 0x20 <= op <= 0x27 or op in (0x30, 0x34, 0x37, 0x31, 0x35):
        return {21: "r", 16: "w"}
    if op == 0x11:
        rs = bits(w, 0x03e00000)
        if rs is None:
            # formats of arithmetic instructions
            b = bits(w, 0x02000000)
            if not b:
                return None
            rs = 0x10 << 21
        rs >>= 21
        if rs in (0, 1, 2, 3):
            return {16: "w", 11: "r"}
        if rs in (4, 5, 6, 7):
            return {16: "r", 11: "rw" if rs == 7 else "w"}
        if rs in (8, 9, 13):
            return {16: "r"}
        f = bits(w, 0x3f)
        if f in (0x10, 0x11, 0x12, 0x13):
            return {6: "rw", 11: "r", 16: "r"}
        return {6: "w", 11: "r", 16: "r"}
    return {21: "r", 16: "r", 11: "r", 6: "r"}


PPC_LOGIC = {28, 60, 476, 124, 444, 412, 316, 284, 24, 536, 792, 824, 27, 539, 794, 826, 827, 26, 58, 538, 570, 954, 922, 986, 219, 155, 187}
PPC_STORE = {151, 215, 407, 149, 662, 918, 660, 150, 214, 727, 663, 983, 694, 726}
PPC_STOREU = {183, 247, 439, 181, 759, 695}
PPC_LOADU = {53, 55, 119, 311, 375, 373, 567, 631}


def ppc(w, width):
    op = bits(w, 0xfc000000)
    if op is None:
        return None
    op >>= 26
    d = {21: "w", 16: "r", 11: "r", 6: "r"}
    if op == 31:
        xo = bits(w, 0x7fe)
        if xo is None:
            return None
        xo >>= 1
        if xo in PPC_LOGIC or xo & ~1 == 826:
            return {21: "r", 16: "w", 11: "r"}
        if xo in PPC_STORE:
            return {21: "r", 16: "r", 11: "r"}
        if xo in PPC_STOREU:
            return {21: "r", 16: "rw", 11: "r"}
        if xo in PPC_LOADU:
            return {21: "w", 16: "rw", 11: "r"}
        if xo in (0, 32, 467, 144):
            return {21: "r", 16: "r", 11: "r"}
        return d
    if 24 <= op <= 29 or op in (21, 23):
        return {21: "r", 16: "w", 11: "r"}
    if op == 20:
        return {21: "r", 16: "rw", 11: "r"}
    if op == 30:
        return {21: "r", 16: "rw" if bits(w, 0x1c) == 0xc else "w", 11: "r"}
    if op in (36, 38, 44, 52, 54):
        return {21: "r", 16: "r"}
    if op in (37, 39, 45, 53, 55):
        return {21: "r", 16: "rw"}
    if op == 62:
        return {21: "r", 16: "r" if bits(w, 3) == 0 else "rw"}
    if op in (33, 35, 41, 43, 49, 51):
        return {21: "w", 16: "rw"}
    if op == 58:
        return {21: "w", 16: "rw" if bits(w, 3) == 1 else "r"}
    if op in (10, 11):
        return {21: "", 16: "r", 11: "r"}
    if op in (16, 18, 19):
        return {}
    return d


def arm32(w, width):
    c = bits(w, 0xf0000000)
    if c is None:
        c = 0xe0000000      # the condition
    n = bits(w, 0x0e000000)
    if n is None:
        # loads and stores of words and bytes: the form of the offset is open
        n2 = bits(w, 0x0c000000)
        if n2 != 0x04000000:
            return None
        n = 0x04000000
    if c == 0xf0000000:
        t = bits(w, 0xff000000)
        if t is None:
            return None
        if t == 0xf4000000:
            l = bits(w, 0x00200000)
            if l is None:
                return None
            return {12: ("w" if bits(w, 0x00800000) == 0 else "rw") if l else "r", 16: "r", 0: "r"}
        return {12: "w", 16: "r", 0: "r"}
    d = {12: "w", 16: "r", 0: "r", 8: "r"}
    l = bits(w, 0x00100000)
    if n in (0, 0x02000000):
        if n == 0:
            if bits(w, 0xf0) is None:
                x = None
                # register shifts have unknown bits 5..6 and 7..11 only
                if not w[1] & 0x10 and not w[0] & 0x10:
                    x = 0
            else:
                x = bits(w, 0xf0) >> 4
            if x is None:
                return None
            if x == 9:
                t = bits(w, 0x0ff00000)
                if t is None:
                    return None
                t >>= 20
                if t < 4:
                    return {16: "w", 12: "r", 8: "r", 0: "r"}
                if t < 16:
                    return {16: "w", 12: "w", 8: "r", 0: "r"}
                if l:
                    return {12: "w", 16: "r"}
                return {12: "w", 16: "r", 0: "r"}
            if x in (11, 13, 15):
                if l is None:
                    return None
                r = "w" if l or x == 13 else "r"
                p = bits(w, 0x01200000)
                return {12: r, 16: "r" if p == 0x01000000 else "rw", 0: "r", "pair": not l}
        o = bits(w, 0x01e00000)
        if o is None:
            # MOVW/MOVT or two alternatives of data processing
            return d if not (w[0] & 0x01000000 and not w[0] & 0x00800000) else None
        o >>= 21
        if 8 <= o <= 11:
            if l:
                return {12: "", 16: "r", 0: "r", 8: "r"}
            if n == 0x02000000:
                return {12: "rw" if o == 10 else "w"}
            return d
        return d
    if n in (0x04000000, 0x06000000):
        if n == 0x06000000 and bits(w, 0x10):
            if bits(w, 0x0fd000f0) == 0x07100010:
                return {16: "w", 8: "r", 0: "r", 12: "r"}
            if bits(w, 0x0ff000f0) == 0x00600090:
                return {16: "w", 12: "r", 8: "r", 0: "r"}
            if bits(w, 0x0fe00070) == 0x07c00010:
                return {12: "rw", 0: "r"}
            return d
        if l is None:
            return None
        p = bits(w, 0x01200000)
        return {12: "w" if l else "r", 16: "r" if p in (0x01000000, None) else "rw", 0: "r"}
    if n == 0x0c000000:
        # VLDR/VSTR, VMOV of two core registers
        t = bits(w, 0x0fe00000)
        if t == 0x0c400000:
            if l is None:
                return None
            return {12: "w" if l else "r", 16: "w" if l else "r", 0: "r" if l else "w"}
        if l is None:
            return None
        return {12: "w" if l else "r", 16: "r"}
    if n == 0x0e000000:
        if bits(w, 0x10):
            if l is None:
                return None
            if bits(w, 0x0fe00f00) == 0x0ee00a00:
                return {12: "w" if l else "r"}
            if bits(w, 0x0f900f00) == 0x0e800b00:
                return {12: "r", 16: "w"}       # VDUP
            return {12: "w" if l else "r", 16: "r" if l else "rw", "mov": 1}
        if bits(w, 0x0fbe0000) == 0x0eb40000:
            return {12: "r", 0: "r"}
        return d
    return {12: "r", 16: "r", 0: "r", 8: "r"}


def thumb2(w, width):
    if width == 16:
        h = bits(w, 0xf800)
        if h is None:
            h5 = None
            return None
        h >>= 11
        if h in (0, 1, 2):
            return {0: "w", 3: "r", 6: "r"}
        if h == 3:
            return {0: "w", 3: "r", 6: "r"}
        if h in (4,):
            return {8: "w"}
        if h == 5:
            return {8: "r"}
        if h in (6, 7):
            return {8: "rw"}
        if h == 8:
            o = bits(w, 0xffc0)
            if o is None:
                return None
            o >>= 6
            if o < 0x110:
                if o in (0x108, 0x10a, 0x10b):
                    return {0: "r", 3: "r"}
                if o in (0x109, 0x10f):
                    return {0: "w", 3: "r"}
                return {0: "rw", 3: "r"}
            if o in (0x11c, 0x11d, 0x11e, 0x11f):
                return {3: "r"}
            if o >> 2 == 0x45:
                return {0: "r", 3: "r", "hi": 1}
            return {0: "rw" if o >> 2 == 0x44 else "w", 3: "r", "hi": 1}
        if h in (10, 11):
            o = bits(w, 0xfe00)
            if o is None:
                return None
            return {0: "r" if (o >> 9) in (0x28, 0x29, 0x2a) else "w", 3: "r", 6: "r"}
        if h in (9, 19, 20, 21):
            return {8: "w"}
        if h == 18:
            return {8: "r"}
        if h in (12, 14, 16):
            return {0: "r", 3: "r"}
        if h in (13, 15, 17):
            return {0: "w", 3: "r"}
        if h == 22 or h == 23:
            o = bits(w, 0xff00)
            if o in (0xb200, 0xba00):
                return {0: "w", 3: "r"}
            return {0: "r"}
        return {0: "r", 3: "r", 8: "r"}
    t = bits(w, 0xfbf08000)
    if t in (0xf2400000, 0xf2c00000):   # MOVW, MOVT
        return {8: "w" if t == 0xf2400000 else "rw"}
    t = bits(w, 0xfe000000)
    if t is None:
        return None
    t >>= 25
    l = bits(w, 0x00100000)
    d = {8: "w", 16: "r", 0: "r", 12: "r"}
    if t == 0x7c and bits(w, 0xff100000) == 0xf9000000:
        # NEON loads and stores
        return arm32((w[0] & 0x00ffffff | 0xf4000000, w[1]), 32)
    if t == 0x7c:           # f8..f9 loads and stores
        if l is None:
            return None
        if bits(w, 0x0800) and not bits(w, 0x00800000):
            p = bits(w, 0x0d00)
        return {12: "w" if l else "r", 16: "r" if not (bits(w, 0x00800800) == 0x800 and bits(w, 0x100)) else "rw", 0: "r"}
    if t == 0x7d:           # fa, fb
        o = bits(w, 0xff800000)
        if o is None:
            return None
        if o == 0xfb800000:
            q = bits(w, 0xfff000f0)
            if q in (0xfb9000f0, 0xfbb000f0):
                return {8: "w", 16: "r", 0: "r", 12: ""}
            return {8: "w", 12: "w", 16: "r", 0: "r"}
        return d
    if t in (0x78, 0x79):   # f0..f3: immediates
        if bits(w, 0x8000):
            return {}
        if bits(w, 0x0100000) and False:
            return d
        if bits(w, 0x03f00000) == 0x02c00000:
            return {8: "rw"}
        if bits(w, 0x03f00000) == 0x03600000:
            return {8: "rw", 16: "r"}
        return d
    if t in (0x74, 0x75):   # e8..eb
        if t == 0x75:
            return d
        x = bits(w, 0x00400000)
        if x is None or l is None:
            return None
        if x:
            p = bits(w, 0x01200000)
            if p == 0:
                # exclusive
                if bits(w, 0x00800000):
                    return {12: "w" if l else "r", 0: "w" if not l else "r", 16: "r", 8: "r"}
                return {12: "w" if l else "r", 8: "w" if not l else "r", 16: "r"}
            return {12: "w" if l else "r", 8: "w" if l else "r", 16: "r" if p == 0x01000000 else "rw"}
        return {16: "r"}
    if t in (0x76, 0x77, 0x7e, 0x7f):
        v = (w[0] & 0x0fffffff, w[1])
        if t in (0x77, 0x7f) and bits(w, 0x01000000):
            return {12: "w", 16: "r", 0: "r"}       # NEON
        if t in (0x7e, 0x7f):
            return {12: "w", 16: "r", 0: "r"}
        return arm32((v[0] | 0xe0000000, v[1]), 32)
    return None


DECODE = {"riscv64": riscv, "riscv64_c": riscv, "riscv32_c": riscv, "riscv64_ext": riscv, "riscv32": riscv, "loongarch64": loongarch, "aarch64": arm64, "mips32el": mips, "mips64el": mips,
          "ppc64le": ppc, "ppc32": ppc, "armv7": arm32, "armv6": arm32, "armv7_soft": arm32, "armt2": thumb2}
# where the main opcode of an instruction word is
OPMASK = {"riscv64": 0x7f, "riscv64_c": 0x7f, "riscv32_c": 0x7f, "riscv64_ext": 0x7f, "riscv32": 0x7f, "loongarch64": 0xfe000000, "aarch64": 0x1e000000, "mips32el": 0xfc000000,
          "mips64el": 0xfc000000, "ppc64le": 0xfc000000, "ppc32": 0xfc000000, "armv7": 0xfff00000, "armv6": 0xfff00000, "armv7_soft": 0xfff00000,
          "armt2": 0xf000f800}
LEAF = {"push_inst": 32, "push_inst16": 16, "push_inst32": 32, "push_inst_with_literal": 32, "push_inst_with_unique_literal": 32}


# -- status flags: does a machine instruction change them for certain?
def sure(w, mask, value):
    """the masked bits are known to have the value"""
    return not w[1] & mask and w[0] & mask == value


def arm64_flags(w, width):
    if sure(w, 0x3f000000, 0x31000000) or sure(w, 0x3f000000, 0x2b000000):
        return "ADDS/SUBS"
    if sure(w, 0x7f800000, 0x72000000) or sure(w, 0x7f000000, 0x6a000000):
        return "ANDS"
    if sure(w, 0x3fe00000, 0x3a000000):
        return "ADCS/SBCS"
    if sure(w, 0x3fe00000, 0x3a400000):
        return "CCMP"
    if sure(w, 0xff20fc00, 0x1e202000) or sure(w, 0xff200c00, 0x1e200400):
        return "FCMP"
    return None


def arm32_flags(w, width):
    if sure(w, 0x0fffffff, 0x0ef1fa10):
        return "VMRS"
    if sure(w, 0x0c100000, 0x00100000) and not sure(w, 0xf0000000, 0xf0000000):
        if sure(w, 0x02000000, 0x02000000) or sure(w, 0x10, 0) or sure(w, 0x80, 0):
            return "S bit"
        if sure(w, 0x0fc000f0, 0x00000090) or sure(w, 0x0f8000f0, 0x00800090):
            return "MULS"
    return None


def thumb2_flags(w, width):
    if width == 16:
        if sure(w, 0xc000, 0) and not sure(w, 0xffff, 0) and not w[1] & 0xf800:
            return "16 bit arithmetic"
        if sure(w, 0xfc00, 0x4000):
            return "16 bit data processing"
        if sure(w, 0xff00, 0x4500):
            return "CMP"
        return None
    if sure(w, 0xffffffff, 0xeef1fa10):
        return "VMRS"
    if sure(w, 0xfa008000, 0xf0000000) and sure(w, 0x00100000, 0x00100000):
        return "S bit"
    if sure(w, 0xfe000000, 0xea000000) and sure(w, 0x00100000, 0x00100000):
        return "S bit"
    if sure(w, 0xff90f0f0, 0xfa10f000):
        return "S bit"
    return None


PPC_CMP = {0: "cmp", 32: "cmpl", 144: "mtcrf"}
PPC_CA = {8: "subfc", 10: "addc", 136: "subfe", 138: "adde", 200: "subfze", 202: "addze", 232: "subfme", 234: "addme", 792: "sraw", 824: "srawi", 794: "srad",
          826: "sradi", 827: "sradi"}


def ppc_flags(w, width):
    op = bits(w, 0xfc000000)
    if op is None:
        return None
    op >>= 26
    if op in (8, 12, 13):
        return "carry"
    # status flags are in CR0 and CR1
    cr = bits(w, 0x03800000)
    other = cr is not None and cr >> 23 > 1
    if op in (10, 11):
        return None if other else "cmpi"
    if op in (28, 29):
        return "record form"
    if op in (20, 21, 23, 30) and sure(w, 1, 1):
        return "record form"
    if op == 31:
        xo = bits(w, 0x7fe)
        if xo is None:
            return None
        xo >>= 1
        if xo in PPC_CMP:
            return None if other and xo != 144 else PPC_CMP[xo]
        if xo == 467 and sure(w, 0x1ff800, 1 << 16):
            return "mtxer"
        if xo & 511 in PPC_CA and xo & 511 < 300 or xo in PPC_CA:
            return "carry"
        if sure(w, 1, 1):
            return "record form"
        if xo & 512 and (xo & 511) in (8, 10, 40, 104, 136, 138, 200, 202, 232, 234, 235, 233, 266, 491, 489, 459, 457):
            return "overflow"
        return None
    if op == 63:
        xo = bits(w, 0x7fe)
        if xo is not None and xo >> 1 in (0, 32, 64, 128):
            return None if other else "fcmp"
        if sure(w, 1, 1) and xo is not None:
            return "record form"
    return None


def mips_flags(w, width):
    """registers 1 and 3 hold the flags"""
    op = bits(w, 0xfc000000)
    if op is None:
        return None
    op >>= 26
    if op == 0x11:
        if sure(w, 0x03e00030, 0x02000030) or sure(w, 0x03e00030, 0x02200030):
            return "C.cond"
    return None


FLAGS = {"aarch64": arm64_flags, "armv7": arm32_flags, "armv6": arm32_flags, "armv7_soft": arm32_flags, "armt2": thumb2_flags, "ppc64le": ppc_flags,
         "ppc32": ppc_flags, "mips32el": mips_flags, "mips64el": mips_flags}
