"""Abstract machines: what emitted instruction words (all bits known) do to registers and memory.

A value is a linear combination of symbols modulo 2^W: (constant, frozenset of (symbol, coefficient)); None is unknown.  Symbols are initial
register contents ("r", n) / ("f", n), loaded values ("ld", size, signed, address) and opaque terms over values.  A state is a frozenset of
(key, value): registers, and ("ev",): the memory accesses so far, in order."""

EMPTY = frozenset()
M64 = (1 << 64) - 1


ORDER = {}


def order(v):
    """a key of values that does not depend on the order of their sets"""
    if v not in ORDER:
        if len(ORDER) > 300000:
            ORDER.clear()
        ORDER[v] = show(v)
    return ORDER[v]


def show(v):
    if isinstance(v, tuple):
        return "(%s)" % ",".join(order(x) if isinstance(x, (tuple, frozenset)) else str(x) for x in v)
    if isinstance(v, frozenset):
        return "{%s}" % ",".join(sorted(order(x) if isinstance(x, (tuple, frozenset)) else str(x) for x in v))
    return str(v)


def con(c, W):
    return (c & ((1 << W) - 1), EMPTY)


def sym(s):
    return (0, frozenset([(s, 1)]))


def single(v):
    """the symbol if v is exactly one symbol"""
    if v is not None and v[0] == 0 and len(v[1]) == 1:
        (s, c), = v[1]
        if c == 1:
            return s
    return None


def isk(v):
    return v is not None and not v[1]


def lin(terms, c, W):
    d = {}
    m = (1 << W) - 1
    for s, k in terms:
        if s[0] == "x" and s[1] < W and k & m and s[1] + (k & -k).bit_length() - 1 >= W:
            # the bits that were cleared do not matter
            y = s[3]
            c += y[0] * k
            for q, p in y[1]:
                d[q] = d.get(q, 0) + p * k
            continue
        d[s] = d.get(s, 0) + k
    return (c & m, frozenset((s, k & m) for s, k in d.items() if k & m))


def add(a, b, W):
    if a is None or b is None:
        return None
    return lin(list(a[1]) + list(b[1]), a[0] + b[0], W)


def mulk(a, k, W):
    if a is None:
        return None
    return lin([(s, c * k) for s, c in a[1]], a[0] * k, W)


def sub(a, b, W):
    return add(a, mulk(b, -1, W), W)


def mul(a, b, W):
    if a is None or b is None:
        return None
    if isk(a):
        return mulk(b, a[0], W)
    if isk(b):
        return mulk(a, b[0], W)
    return sym(("*", min((a, b), key=order), max((a, b), key=order)))


def reduce(v, n):
    """v modulo 2^n"""
    if v is None:
        return None
    t, c = [], v[0]
    for s, k in v[1]:
        if s[0] == "x" and s[1] >= n:
            y = reduce(s[3], n)
            c += y[0] * k
            t += [(q, p * k) for q, p in y[1]]
        elif s[0] in "|^&" and len(s) == 3:
            # the constant matters in its low bits only
            y = bitop(s[0], reduce(s[1], n), (s[2] & ((1 << n) - 1), EMPTY), n)
            c += y[0] * k
            t += [(q, p * k) for q, p in y[1]]
        elif s[0] in "|^&" and len(s) == 4:
            y = bitop(s[0], reduce(s[1], n), reduce(s[2], n), n)
            c += y[0] * k
            t += [(q, p * k) for q, p in y[1]]
        elif s[0] == "*":
            y = mul(reduce(s[1], n), reduce(s[2], n), n)
            c += y[0] * k
            t += [(q, p * k) for q, p in y[1]]
        elif s[0] == "ite":
            y = ite(s[1], reduce(s[2], n), reduce(s[3], n), n)
            c += y[0] * k
            t += [(q, p * k) for q, p in y[1]]
        elif s[0] == "ld" and s[1] * 8 >= n:
            t.append((("ld", s[1], False, s[3]), k))
        else:
            t.append((s, k))
    return lin(t, c, n)


def ext(v, n, signed, W):
    """the low n bits of v, extended to W"""
    if v is None:
        return None
    v = reduce(v, n)
    if isk(v):
        c = v[0]
        if signed and c >> (n - 1):
            c -= 1 << n
        return con(c, W)
    if n >= W:
        return v
    s = single(v)
    if s and (s[0] == "ld" and s[1] * 8 <= n or s[0] == "x" and s[1] <= n):
        b = s[1] * 8 if s[0] == "ld" else s[1]
        if not s[2] and b < n or b == n and s[2] == signed or signed and s[2]:
            return v
        if b == n and s[0] == "ld":
            return sym(("ld", s[1], signed, s[3]))
    if s and s[0] in ("bool",):
        return v
    if s and s[0] == "ite":
        return ite(s[1], ext(s[2], n, signed, W), ext(s[3], n, signed, W), W)
    if isbool(v, n):
        return fit((v[0], frozenset((q, sx(k, n) & 0xffffffffffffffff) for q, k in v[1])), W)
    if s and s[0] == "&" and len(s) == 3 and not s[2] >> (n - 1):
        return v
    if s and s[0] == ">>" and not s[3] and s[4] - s[2] < n:
        return v
    return sym(("x", n, signed, v))


def top(v, W):
    """v < 2^top"""
    if isk(v):
        return v[0].bit_length()
    s = single(v)
    if s and s[0] in ("x", "ld") and not s[2]:
        return s[1] * 8 if s[0] == "ld" else s[1]
    if s and s[0] == ">>" and not s[3]:
        return s[4] - s[2]
    return 1 if s and s[0] == "bool" else W


def low(v):
    """v is a multiple of 2^low"""
    s = single(v)
    if s and s[0] == "x":
        return low(s[3])
    return min([(k & -k).bit_length() - 1 for _, k in v[1]] + ([(v[0] & -v[0]).bit_length() - 1] if v[0] else []), default=64)


def isbool(v, W):
    """is v 0 or 1?"""
    if isk(v):
        return v[0] < 2
    if len(v[1]) != 1:
        return False
    (s, k), = v[1]
    return s[0] == "bool" and (v[0], k) in ((0, 1), (1, (1 << W) - 1))


def bitop(op, a, b, W):
    if a is None or b is None:
        return None
    m = (1 << W) - 1
    if isk(a) and isk(b):
        return con({"&": a[0] & b[0], "|": a[0] | b[0], "^": a[0] ^ b[0]}[op], W)
    if isk(a):
        a, b = b, a
    if isk(b):
        c = b[0]
        if op == "&":
            if c == 0:
                return b
            if c == m:
                return a
            if not c & (c + 1):
                return ext(a, c.bit_length(), False, W)
        elif c == 0:
            return a
        elif op == "|" and c == m:
            return b
        elif op == "^" and c == m:
            return sub(con(-1, W), a, W)
        elif c == 1 and op in "^&" and isbool(a, W):
            return a if op == "&" else sub(con(1, W), a, W)
        s = single(a)
        if s and s[0] == op and len(s) == 3 and isinstance(s[2], int):
            return bitop(op, s[1], con({"&": c & s[2], "|": c | s[2], "^": c ^ s[2]}[op], W), W)
        if s and s[0] == "x" and not s[2] and op == "&":
            return bitop(op, s[3], con(c & ((1 << s[1]) - 1), W), W)
        if op in "|^":
            # disjoint bits
            lo_ = min([(k & -k).bit_length() - 1 for _, k in a[1]] + ([(a[0] & -a[0]).bit_length() - 1] if a[0] else []))
            if c < 1 << lo_:
                return add(a, b, W)
            if s and s[0] in ("ld", "x") and not s[2]:
                n = s[1] * 8 if s[0] == "ld" else s[1]
                if not c & ((1 << n) - 1):
                    return add(a, b, W)
        return sym((op, a, c))
    if a == b:
        return con(0, W) if op == "^" else a
    if op in "|^":
        for x, y in ((a, b), (b, a)):
            if top(x, W) <= low(y):
                if W == 64 and narrow(x, True) and narrow(y, True) and not (narrow(x, False) and narrow(y, False)):
                    return ext(add(reduce(x, 32), reduce(y, 32), 32), 32, True, W)
                return add(x, y, W)
            p, q = single(x), single(y)
            if p and q and p[0] == "sh<<" and q[0] == "sh>>" and p[1] == q[1] and p[3] == q[3] == W and op == "|":
                if add(p[2], q[2], W.bit_length() - 1) == con(0, W):
                    return sym(("shror", p[1], q[2], W))
    for x, y in ((a, b), (b, a)):
        c = flag(y, W)
        if c is not None and flag(x, W) is None:
            # one of two results
            return ite(c, bitop(op, x, con(1, W), W), bitop(op, x, con(0, W), W), W)
    return sym((op, min((a, b), key=order), max((a, b), key=order), 0))


def flag(v, W):
    """a normal form of values that are 0 or 1, as a 64 bit value; None for others"""
    if v is None or len(v[1]) != 1:
        return None
    p = parity(v, W)
    if p is None:
        return None
    r = None
    for x in sorted((cmp("<s", x[1], con(0, x[2]), x[2]) if x[0] == "sign" else sym(x) for x in p if x != "1"), key=order):
        r = x if r is None else sym(("^", min((r, x), key=order), max((r, x), key=order), 0))
    return con(int("1" in p), 64) if r is None else neg(r) if "1" in p else r


def shl(a, k, W):
    return mulk(a, 1 << k, W) if k < W else con(0, W)


def shr(a, k, signed, W):
    if a is None:
        return None
    if k == 0:
        return a
    if isk(a):
        c = a[0] - (1 << W) if signed and a[0] >> (W - 1) else a[0]
        return con(c >> k, W)
    lowm = (1 << k) - 1
    if not a[0] & lowm and all(not c & lowm for _, c in a[1]):
        return ext((a[0] >> k, frozenset((s, c >> k) for s, c in a[1])), W - k, signed, W)
    s = single(a)
    if s and s[0] == ">>" and s[3] == signed and s[4] == W:
        return shr(s[1], min(s[2] + k, W - 1), signed, W) if signed or s[2] + k < W else con(0, W)
    if s and s[0] == "x" and s[1] < W and s[2] == signed:
        if k >= s[1]:
            return con(0, W) if not signed else sym((">>", s[3], s[1] - 1, True, s[1]))
        return sym((">>", s[3], k, signed, s[1]))
    return sym((">>", a, k, signed, W))


def ror(a, k, W):
    if a is None:
        return None
    k %= W
    if not k:
        return a
    if isk(a):
        return con(a[0] >> k | a[0] << (W - k), W)
    return add(shl(a, W - k, W), shr(a, k, False, W), W)


def sx(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


class Lost(Exception):
    pass


class State:
    """a mutable view of a machine state"""

    def __init__(self, items, W, zero=None):
        self.d = dict(items)
        self.W, self.zero = W, zero

    def r(self, n):
        if n == self.zero:
            return con(0, self.W)
        return self.d.get(("r", n), sym(("r", n)))

    def w(self, n, v):
        if n != self.zero:
            self.d[("r", n)] = v

    def f(self, n):
        return self.d.get(("f", n), sym(("f", n)))

    def wf(self, n, v):
        self.d[("f", n)] = v

    def event(self, *e):
        self.d["ev"] = self.d.get("ev", ()) + (e,)

    def load(self, n, size, signed, addr, f=False):
        self.event("ld", size, addr)
        v = None if addr is None else sym(("ld", size, signed and not f, addr))
        if f:
            self.wf(n, v)
        else:
            self.w(n, v if size * 8 < self.W or v is None else sym(("ld", size, False, addr)))

    def store(self, n, size, addr, f=False):
        v = self.f(n) if f else self.r(n)
        self.event("st", size, addr, reduce(v, size * 8) if not f else v)

    def freeze(self):
        return frozenset(self.d.items())


def fld(w, lo, n):
    return (w >> lo) & ((1 << n) - 1)


# -- comparison of values

def relax(v, n):
    """v modulo 2^n when all shift counts are in range"""
    if v is None:
        return None
    r = con(v[0], n)
    for s, k in v[1]:
        if s[0].startswith("long"):
            s = shv(s[0][4:], relax(s[1], s[3]), relax(s[2], s[3].bit_length() - 1), s[3])
        elif s[0] == "x":
            s = ext(relax(s[3], s[1]), s[1], s[2], n) if s[1] < n else relax(s[3], n)
        elif s[0] in "|&^" and len(s) == 4:
            s = bitop(s[0], relax(s[1], n), relax(s[2], n), n)
        elif s[0] == ">>":
            s = shr(relax(s[1], s[4]), s[2], s[3], s[4])
        elif s[0] == "bool":
            s = fit(cmp(s[1], relax(s[2], s[4]), relax(s[3], s[4]), s[4]), n)
        elif s[0] == "ite":
            s = ite(fit(relax(s[1], 64), 64), relax(s[2], n), relax(s[3], n), n)
        else:
            s = sym(s)
        r = add(r, mulk(s, k, n), n)
    return r


def mix(*a):
    x = 0x9e3779b97f4a7c15
    for v in a:
        x = (x ^ (v & 0xffffffffffffffff)) * 0xbf58476d1ce4e5b9 & 0xffffffffffffffff
        x ^= x >> 29
    return x * 0x94d049bb133111eb & 0xffffffffffffffff


class Valuation:
    """concrete values of the registers and of the memory: number i of a fixed list"""
    SPECIAL = (0, -1, 1, -0x80000000, 0x7fffffff, -0x8000000000000000, 0x80, 0x8000, 0xffff, 0x7fffffffffffffff, 2, 0xffffffff)

    def __init__(self, i, W, small=()):
        self.i, self.W, self.small = i, W, small

    def reg(self, s):
        n = mix(self.i, int.from_bytes(str(s).encode()[-8:], "little") if not isinstance(s[1], int) else s[1] + (100 if s[0] == "f" else 0))
        v = n if self.i < 8 else self.SPECIAL[(n >> 7) % len(self.SPECIAL)]
        if self.i >= 32 and (self.near and self.i & 1):
            v = self.near[(n >> 9) % len(self.near)]
        elif self.i >= 32:
            # few values: registers are often equal
            v = self.SPECIAL[(n >> 7) % 3 + self.i // 4 % 4] + (n >> 13 & 1)
        for r, k in self.small:
            if s == r:
                v = (n >> 9) % k
        return v

    def mem(self, a, n):
        return sum((mix(77, self.i, a + j) >> 11 & 255) << 8 * j for j in range(n))

    def of(self, v):
        return sum((self.symbol(s) * k for s, k in v[1]), v[0])

    def symbol(self, s):
        o = s[0]
        if o in ("r", "f"):
            return self.reg(s)
        if o == "ld":
            v = self.mem(self.of(s[3]) & ((1 << self.W) - 1), s[1])
            return sx(v, 8 * s[1]) if s[2] else v
        if o == "x":
            v = self.of(s[3]) & ((1 << s[1]) - 1)
            return sx(v, s[1]) if s[2] else v
        if o in ("|", "&", "^"):
            a, b = self.of(s[1]), s[2] if len(s) == 3 else self.of(s[2])
            return a | b if o == "|" else a & b if o == "&" else a ^ b
        if o == "*":
            return self.of(s[1]) * self.of(s[2])
        if o == ">>":
            v = self.of(s[1]) & ((1 << s[4]) - 1)
            return (sx(v, s[4]) if s[3] else v) >> s[2]
        if o[:2] == "sh" or o[:4] == "long":
            n = s[3]
            k, v = self.of(s[2]), self.of(s[1]) & ((1 << n) - 1)
            if o[:2] == "sh":
                k, o = k % n, o[2:]
            else:
                k, o = k & ((1 << (8 if self.W == 32 and n == 32 and self.arm else n.bit_length())) - 1), o[4:]
            if o == "ror":
                return v >> k % n | v << (n - k % n) & ((1 << n) - 1)
            if o == "<<":
                return v << k & ((1 << n) - 1)
            return (sx(v, n) if o == ">>s" else v) >> k
        if o == "ite":
            return self.of(s[2] if self.of(s[1]) else s[3])
        if o == "bool":
            n = s[4]
            m = (1 << n) - 1
            a, b = self.of(s[2]) & m, self.of(s[3]) & m
            k = s[1]
            if k == "=":
                return int(a == b)
            if k == "<u":
                return int(a < b)
            a, b = sx(a, n), sx(b, n)
            if k == "<s":
                return int(a < b)
            v = a + b if k == "vadd" else a - b
            return int(v != sx(v, n))
        raise Lost

    arm = False
    near = ()


def parity(v, n, depth=0):
    """a value that is 0 or 1 as a sum modulo 2 (a set of atoms), or None"""
    if v is None or depth > 8:
        return None
    if isk(v):
        return frozenset(["1"]) if v[0] == 1 else EMPTY if v[0] == 0 else None
    if len(v[1]) != 1:
        return None
    (s, k), = v[1]
    if (v[0], k) == (1, (1 << n) - 1):
        r = parity(sym(s), n, depth + 1)
        return None if r is None else r ^ {"1"}
    if (v[0], k) != (0, 1):
        return None
    if s[0] == "^":
        x, y = parity(s[1], n, depth + 1), parity(s[2] if len(s) == 4 else con(s[2], n), n, depth + 1)
        return None if x is None or y is None else x ^ y
    if s[0] in ("|", "&") and len(s) == 4:
        x, y = flag(s[1], n), flag(s[2], n)
        return None if x is None or y is None else frozenset([(s[0], min((x, y), key=order), max((x, y), key=order), 0)])
    if s[0] == ">>" and not s[3] and s[2] == s[4] - 1:
        return sign(s[1], s[4], depth + 1)
    if s[0] == "x" and s[1] < n:
        return parity(s[3], s[1], depth + 1)
    if s[0] == "bool":
        o, a, b, n = s[1:]
        if o == "<s" and b == con(0, n):
            return sign(a, n, depth + 1)
        if o == "=" and isk(b) and not b[0]:
            for q in (a, mulk(a, -1, n)):
                r = parity(q, n, depth + 1)
                if r is not None:
                    return r ^ {"1"}
        if o in ("vadd", "vsub"):
            r = sub(a, b, n) if o == "vsub" else add(a, b, n)
            c = cmp("<u", a, b, n) if o == "vsub" else cmp("<u", r, b, n)
            x = [sign(q, n, depth + 1) for q in (a, b, r)] + [parity(reduce(c, 64), 64, depth + 1)]
            return None if None in x else x[0] ^ x[1] ^ x[2] ^ x[3]
        return frozenset([s])
    return None


def sign(v, n, depth=0):
    """the highest bit of an n bit value as a sum modulo 2"""
    v = reduce(v, n)
    if isk(v):
        return frozenset(["1"]) if v[0] >> (n - 1) else EMPTY
    m = (1 << n) - 1
    if len(v[1]) == 1:
        (s, k), = v[1]
        if (v[0], k) == (m, m):
            r = sign(sym(s), n, depth + 1)
            return None if r is None else r ^ {"1"}
        if (v[0], k) == (0, 1):
            if s[0] == "^":
                x, y = sign(s[1], n, depth + 1), sign(s[2] if len(s) == 4 else con(s[2], n), n, depth + 1)
                return None if x is None or y is None else x ^ y
            if s[0] == "x" and s[1] <= n:
                return EMPTY if not s[2] else sign(s[3], s[1], depth + 1)
            if s[0] == "ld" and s[1] * 8 < n and not s[2] or s[0] == "bool" and n > 1:
                return EMPTY
    return frozenset([("sign", v, n)])


def constants(v, depth=0):
    r = {v[0]} if v and v[0] else set()
    for s, k in v[1] if v else ():
        for x in s[1:]:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], frozenset) and depth < 6:
                r |= constants(x, depth + 1)
    return r


def equal(a, b, n, W, small=(), arm=False):
    """are a and b equal modulo 2^n?  False only when there is a valuation of the registers and of the memory for which they differ"""
    if a is None or b is None:
        return None
    a, b = reduce(a, n), reduce(b, n)
    if a == b or small and relax(a, n) == relax(b, n):
        return True
    p = parity(a, n)
    if p is not None and p == parity(b, n):
        return True
    try:
        near = sorted({(c + d) & ((1 << W) - 1) for c in constants(a) | constants(b) for d in (-1, 0, 1)})[:40]
        for i in range(64):
            v = Valuation(i, W, small)
            v.near = near
            v.arm = arm
            if (v.of(a) - v.of(b)) & ((1 << n) - 1):
                return False
    except Lost:
        pass
    return None


# -- RISC-V
def riscv(st, w, width):
    W = st.W
    st.zero = 0
    A = lambda a, b: add(a, b, W)
    K = lambda c: con(c, W)
    if width == 16:
        q, f3, rd, rs2 = w & 3, w >> 13, fld(w, 7, 5), fld(w, 2, 5)
        im = sx(fld(w, 12, 1) << 5 | fld(w, 2, 5), 6)
        rdc, rs2c = 8 + fld(w, 7, 3), 8 + fld(w, 2, 3)
        if q == 1 and f3 == 0:
            return st.w(rd, A(st.r(rd), K(im)))
        if q == 1 and f3 == 1 and W == 64:
            return st.w(rd, ext(A(st.r(rd), K(im)), 32, True, W))
        if q == 1 and f3 == 2:
            return st.w(rd, K(im))
        if q == 1 and f3 == 3 and rd != 2:
            return st.w(rd, K(im << 12))
        if q == 1 and f3 == 4:
            s, k = fld(w, 10, 2), im & 63
            if s < 2:
                return st.w(rdc, shr(st.r(rdc), k, s == 1, W))
            if s == 2:
                return st.w(rdc, bitop("&", st.r(rdc), K(im), W))
            s = fld(w, 5, 2) | fld(w, 12, 1) << 2
            a, b = st.r(rdc), st.r(rs2c)
            if s < 4:
                return st.w(rdc, sub(a, b, W) if s == 0 else bitop("^|&"[s - 1], a, b, W))
            if s < 6:
                return st.w(rdc, ext(sub(a, b, W) if s == 4 else A(a, b), 32, True, W))
        if q == 2 and f3 == 0:
            return st.w(rd, shl(st.r(rd), im & 63, W))
        if q == 2 and f3 == 4 and rs2:
            return st.w(rd, A(st.r(rd), st.r(rs2)) if fld(w, 12, 1) else st.r(rs2))
        if q == 2:
            o8 = fld(w, 12, 1) << 5 | fld(w, 5, 2) << 3 | fld(w, 2, 3) << 6
            o4 = fld(w, 12, 1) << 5 | fld(w, 4, 3) << 2 | fld(w, 2, 2) << 6
            s8 = fld(w, 10, 3) << 3 | fld(w, 7, 3) << 6
            s4 = fld(w, 9, 4) << 2 | fld(w, 7, 2) << 6
            sp = st.r(2)
            if f3 == 1:
                return st.load(rd, 8, True, A(sp, K(o8)), True)
            if f3 == 2:
                return st.load(rd, 4, True, A(sp, K(o4)))
            if f3 == 3:
                return st.load(rd, 8, True, A(sp, K(o8))) if W == 64 else st.load(rd, 4, False, A(sp, K(o4)), True)
            if f3 == 5:
                return st.store(rs2, 8, A(sp, K(s8)), True)
            if f3 == 6:
                return st.store(rs2, 4, A(sp, K(s4)))
            if f3 == 7:
                return st.store(rs2, 8, A(sp, K(s8))) if W == 64 else st.store(rs2, 4, A(sp, K(s4)), True)
        if q == 0:
            o8 = fld(w, 10, 3) << 3 | fld(w, 5, 2) << 6
            o4 = fld(w, 10, 3) << 3 | fld(w, 6, 1) << 2 | fld(w, 5, 1) << 6
            b = st.r(rdc)
            if f3 == 0 and fld(w, 5, 8):
                n = fld(w, 11, 2) << 4 | fld(w, 7, 4) << 6 | fld(w, 6, 1) << 2 | fld(w, 5, 1) << 3
                return st.w(rs2c, A(st.r(2), K(n)))
            if f3 == 1:
                return st.load(rs2c, 8, False, A(b, K(o8)), True)
            if f3 == 2:
                return st.load(rs2c, 4, True, A(b, K(o4)))
            if f3 == 3:
                return st.load(rs2c, 8, True, A(b, K(o8))) if W == 64 else st.load(rs2c, 4, False, A(b, K(o4)), True)
            if f3 == 5:
                return st.store(rs2c, 8, A(b, K(o8)), True)
            if f3 == 6:
                return st.store(rs2c, 4, A(b, K(o4)))
            if f3 == 7:
                return st.store(rs2c, 8, A(b, K(o8))) if W == 64 else st.store(rs2c, 4, A(b, K(o4)), True)
            if f3 == 4:
                f6 = fld(w, 10, 3)
                n = fld(w, 6, 1) | fld(w, 5, 1) << 1
                if f6 == 0:
                    return st.load(rs2c, 1, False, A(b, K(n)))
                if f6 == 1:
                    return st.load(rs2c, 2, bool(fld(w, 6, 1)), A(b, K(n & 2)))
                if f6 == 2:
                    return st.store(rs2c, 1, A(b, K(n)))
                if f6 == 3 and not fld(w, 6, 1):
                    return st.store(rs2c, 2, A(b, K(n & 2)))
        if q == 1 and f3 in (6, 7):
            c = cmp("=", st.r(rdc), K(0), W)
            st.d["br"] = ("skip", c if f3 == 6 else neg(c))
            return
        raise Lost
    op, rd, f3, rs1, rs2, f7 = w & 0x7f, fld(w, 7, 5), fld(w, 12, 3), fld(w, 15, 5), fld(w, 20, 5), w >> 25
    im = sx(w >> 20, 12)
    if op == 0x37:
        return st.w(rd, K(sx(w & 0xfffff000, 32)))
    if op == 0x03 and f3 != 7:
        return st.load(rd, 1 << (f3 & 3), f3 < 4, A(st.r(rs1), K(im)))
    if op == 0x07 and f3 in (2, 3):
        return st.load(rd, 1 << f3, False, A(st.r(rs1), K(im)), True)
    sm = sx(f7 << 5 | rd, 12)
    if op == 0x23 and f3 < 4:
        return st.store(rs2, 1 << f3, A(st.r(rs1), K(sm)))
    if op == 0x27 and f3 in (2, 3):
        return st.store(rs2, 1 << f3, A(st.r(rs1), K(sm)), True)
    a, b = st.r(rs1), st.r(rs2)
    if op == 0x63 and f3 not in (2, 3):
        c = cmp({0: "=", 4: "<s", 6: "<u"}[f3 & 6], a, b, W)
        st.d["br"] = ("skip", neg(c) if f3 & 1 else c)
        return
    if op in (0x13, 0x1b):
        n = W if op == 0x13 else 32
        if op == 0x1b:
            if f3 == 0:
                return st.w(rd, ext(A(a, K(im)), 32, True, W))
            if f3 == 1 and f7 == 0:
                return st.w(rd, ext(shl(a, rs2, W), 32, True, W))
            if f3 == 5 and f7 in (0, 0x20):
                return st.w(rd, ext(shr(reduce(a, 32), rs2, f7 != 0, 32), 32, True, W))
            if f3 == 5 and f7 == 0x30:
                return st.w(rd, ext(ror(reduce(a, 32), rs2, 32), 32, True, W))
            if f3 == 1 and f7 >> 1 == 2:
                return st.w(rd, shl(ext(a, 32, False, W), w >> 20 & 63, W))
            raise Lost
        if f3 == 0:
            return st.w(rd, A(a, K(im)))
        if f3 == 2:
            return st.w(rd, fit(cmp("<s", a, K(im), W), W))
        if f3 == 3:
            return st.w(rd, fit(cmp("<u", a, K(im), W), W))
        if f3 in (4, 6, 7):
            return st.w(rd, bitop({4: "^", 6: "|", 7: "&"}[f3], a, K(im), W))
        k = w >> 20 & (W - 1)
        f6 = w >> 26
        if f3 == 1 and f6 == 0:
            return st.w(rd, shl(a, k, W))
        if f3 == 5 and f6 in (0, 0x10):
            return st.w(rd, shr(a, k, f6 != 0, W))
        if f3 == 5 and f6 == 0x18 and (w >> 20 != 0x6b8 and w >> 20 != 0x698):
            return st.w(rd, ror(a, k, W))
        if f3 == 1 and w >> 20 in (0x604, 0x605):
            return st.w(rd, ext(a, 8 << (w >> 20 & 1), True, W))
        raise Lost
    if op == 0x33:
        if f7 == 0:
            if f3 == 0:
                return st.w(rd, A(a, b))
            if f3 in (2, 3):
                return st.w(rd, fit(cmp("<s" if f3 == 2 else "<u", a, b, W), W))
            if f3 in (4, 6, 7):
                return st.w(rd, bitop({4: "^", 6: "|", 7: "&"}[f3], a, b, W))
            if f3 in (1, 5):
                return st.w(rd, shv("<<" if f3 == 1 else ">>", a, b, W))
        if f7 == 0x20:
            if f3 == 0:
                return st.w(rd, sub(a, b, W))
            if f3 == 5:
                return st.w(rd, shv(">>s", a, b, W))
            if f3 in (4, 6, 7):
                return st.w(rd, bitop({4: "^", 6: "|", 7: "&"}[f3], a, sub(K(-1), b, W), W))
        if f7 == 0x10 and f3 in (2, 4, 6):
            return st.w(rd, A(b, shl(a, f3 >> 1, W)))
        if f7 == 0x04 and f3 == 4 and rs2 == 0:
            return st.w(rd, ext(a, 16, False, W))
        if f7 == 0x30 and f3 == 5:
            return st.w(rd, shv("ror", a, b, W))
        if f7 == 0x30 and f3 == 1:
            return st.w(rd, shv("rol", a, b, W))
        if f7 == 1 and f3 == 0:
            return st.w(rd, mul(a, b, W))
    if op == 0x3b:
        S = lambda v: ext(v, 32, True, W)
        if f7 == 0 and f3 == 0:
            return st.w(rd, S(A(a, b)))
        if f7 == 0x20 and f3 == 0:
            return st.w(rd, S(sub(a, b, W)))
        if f7 in (0, 0x20) and f3 in (1, 5):
            return st.w(rd, S(shv("<<" if f3 == 1 else ">>s" if f7 else ">>", reduce(a, 32), b, 32)))
        if f7 == 0x10 and f3 in (2, 4, 6):
            return st.w(rd, A(b, shl(ext(a, 32, False, W), f3 >> 1, W)))
        if f7 == 0x30 and f3 in (1, 5):
            return st.w(rd, S(shv("ror" if f3 == 5 else "rol", reduce(a, 32), b, 32)))
        if f7 == 0x04 and f3 == 0:
            return st.w(rd, A(b, ext(a, 32, False, W)))
        if f7 == 0x04 and f3 == 4 and rs2 == 0:
            return st.w(rd, ext(a, 16, False, W))
        if f7 == 1 and f3 == 0:
            return st.w(rd, S(mul(a, b, W)))
    if op == 0x53:
        if f7 in (0x10, 0x11) and f3 == 0 and rs1 == rs2:
            return st.wf(rd, st.f(rs1))
    raise Lost


def shv(op, a, b, W):
    """shift by a register: the count is taken modulo W"""
    if a is None or b is None:
        return None
    n = reduce(b, W.bit_length() - 1)
    if isk(n):
        k = n[0]
        return {"<<": lambda: shl(a, k, W), ">>": lambda: shr(a, k, False, W), ">>s": lambda: shr(a, k, True, W), "ror": lambda: ror(a, k, W),
                "rol": lambda: ror(a, W - k, W)}[op]()
    if op == "rol":
        op, n = "ror", reduce(mulk(n, -1, W), W.bit_length() - 1)
    return sym(("sh" + op, a, n, W))


def below(v, n):
    """is v < 2^n for certain"""
    s = single(v)
    return v is not None and (isk(v) and v[0] < 1 << n or bool(s) and (s[0] == "x" and s[1] <= n and not s[2] or s[0] == "ld" and s[1] * 8 <= n and not s[2]))


def narrow(v, signed):
    """does v fit 32 bits, sign extended (or zero extended)?"""
    if isk(v):
        return v[0] < 1 << 31 or signed and v[0] >= (1 << 64) - (1 << 31) or not signed and v[0] < 1 << 32
    t = single(v)
    if not t:
        # not of a sign extended value
        return signed and len(v[1]) == 1 and v[0] == M64 and max(k for _, k in v[1]) == M64 and narrow((0, frozenset((q, 1) for q, _ in v[1])), True)
    if t[0] == "bool":
        return True
    if t[0] == "&" and len(t) == 3 and t[2] < 1 << (31 if signed else 32):
        return True
    if t[0] == "ite":
        return narrow(t[2], signed) and narrow(t[3], signed)
    if t[0] in "|&^":
        return all(narrow(x if isinstance(x, tuple) else con(x, 64), signed) for x in t[1:3])
    n = t[1] * 8 if t[0] == "ld" else t[1] if t[0] == "x" else t[4] - t[2] if t[0] == ">>" and not t[3] else 64
    if t[0] not in ("ld", "x", ">>"):
        return False
    sg = bool(t[2]) if t[0] != ">>" else False
    return n < 32 and (signed or not sg) or n == 32 and sg == signed


def span(v):
    """limits of a 64 bit value as a signed value without overflows, or None"""
    lo = hi = sx(v[0], 64)
    for t, k in v[1]:
        k = sx(k, 64)
        if abs(k) > 2:
            return None
        if t[0] == "bool":
            p, q = 0, 1
        elif narrow(sym(t), True):
            p, q = -1 << 31, (1 << 31) - 1
        elif narrow(sym(t), False):
            p, q = 0, (1 << 32) - 1
        else:
            return None
        lo, hi = lo + min(p * k, q * k), hi + max(p * k, q * k)
    return lo, hi


def cmp(op, a, b, n):
    """1 if the comparison holds for the n bit values a and b, else 0"""
    if a is None or b is None:
        return None
    a, b = reduce(a, n), reduce(b, n)
    if n == 64 and (narrow(a, True) and narrow(b, True) or op != "<s" and narrow(a, False) and narrow(b, False)):
        a, b, n = reduce(a, 32), reduce(b, 32), 32
    if n == 64 and low(a) >= 32 and low(b) >= 32:
        a, b, n = shr(a, 32, False, 64), shr(b, 32, False, 64), 32
        return cmp(op, a, b, 32)
    if op == "<u" and n == 64 and narrow(b, True) and narrow(sub(a, b, n), True):
        a, b, n = add(reduce(b, 32), reduce(sub(a, b, n), 32), 32), reduce(b, 32), 32
    if op == "<u" and flag(b, n) is not None and not isk(b):
        # below 0 or 1
        (t, k), = b[1]
        v = 1 if k == 1 else 0
        c = dict(a[1]).get(t, 0)
        return bitop("&", fit(b, 64) if v else neg(sym(t)), cmp("=", sub(a, mulk(sub(sym(t), con(v, n), n), c, n), n), con(0, n), n), 64)
    if op == "=":
        a, b = sub(a, b, n), con(0, n)
        if n == 64:
            r = span(a)
            if r and r[0] > -1 << 32 and r[1] < 1 << 32:
                return cmp(op, reduce(a, 32), con(0, 32), 32)
        s = single(a)
        if s and s[0] == "bool":
            return sub(con(1, 64), a, 64)
        if s is None and not isk(a) and a[0] == 1 and len(a[1]) == 1:
            (t, k), = a[1]
            if t[0] == "bool" and k == (1 << n) - 1:
                return sym(t)
        a = min((a, mulk(a, -1, n)), key=order)
    if isk(a) and isk(b):
        f = (lambda v: sx(v, n)) if op == "<s" else lambda v: v
        return con(int(a[0] == b[0] if op == "=" else f(a[0]) < f(b[0])), 64)
    if op[0] == "<" and a == b:
        return con(0, 64)
    if op == "<u":
        if b == con(0, n):
            return b
        if b == con(1, n):
            return cmp("=", a, con(0, n), n)
        if a == con(0, n):
            return sub(con(1, 64), cmp("=", b, a, n), 64)
        # x < y is the carry of y + (x - y)
        d = sub(a, b, n)
        if isk(d):
            b, d = d, b
        if isk(b) and (b[0] > 1 << (n - 1) or b[0] == 1 << (n - 1) and order(a) < order(d)):
            # and the carry of x + k is the opposite of x < -k
            a, b, d = d, mulk(b, -1, n), a
            return sub(con(1, 64), cmp("=", a, con(0, n), n) if b[0] == 1 else sym(("bool", op, a, b, n)), 64)
        if b == con(1, n):
            return cmp("=", a, con(0, n), n)
        b = b if isk(b) else min((b, d), key=order)
    if op == "vadd":
        if order(b) < order(a) or isk(a):
            a, b = b, a
        if isk(b):
            return con(0, 64) if not b[0] else cmp("vsub", a, mulk(b, -1, n), n) if b[0] != 1 << (n - 1) else sym(("bool", op, a, b, n))
    if op == "vsub" and b == con(0, n):
        return b
    return sym(("bool", op, a, b, n))


def neg(v, W=64):
    """not, of 0 or 1"""
    return None if v is None else sub(con(1, W), v, W)


def fit(v, W):
    """0 or 1 as a value of W bits"""
    return v if v is None else lin([(s, sx(k, 64)) for s, k in v[1]], sx(v[0], 64), W)


# -- LoongArch
def loongarch(st, w, width):
    W = 64
    st.zero = 0
    A = lambda a, b: add(a, b, W)
    K = lambda c: con(c, W)
    S = lambda v: ext(v, 32, True, W)
    rd, rj, rk = w & 31, fld(w, 5, 5), fld(w, 10, 5)
    a, b = st.r(rj), st.r(rk)
    i12, u12 = sx(fld(w, 10, 12), 12), fld(w, 10, 12)
    o10, o7, o17 = w >> 22, w >> 25, w >> 15
    if 0x16 <= w >> 26 <= 0x1b or w >> 26 in (0x10, 0x11):
        o = w >> 26
        c = cmp("=" if o < 0x18 else "<s" if o < 0x1a else "<u", a, st.r(rd) if o > 0x11 else K(0), W)
        st.d["br"] = ("skip", neg(c) if o & 1 else c)
        return
    if o10 == 0x08:
        return st.w(rd, fit(cmp("<s", a, K(i12), W), W))
    if o10 == 0x09:
        return st.w(rd, fit(cmp("<u", a, K(i12), W), W))
    if o10 == 0x0a:
        return st.w(rd, S(A(a, K(i12))))
    if o10 == 0x0b:
        return st.w(rd, A(a, K(i12)))
    if o10 == 0x0c:
        return st.w(rd, bitop("|", ext(a, 52, False, W), K(i12 << 52), W))
    if o10 in (0x0d, 0x0e, 0x0f):
        return st.w(rd, bitop("&|^"[o10 - 0x0d], a, K(u12), W))
    if o7 == 0x0a:
        return st.w(rd, K(sx(fld(w, 5, 20), 20) << 12))
    if o7 == 0x0b:
        return st.w(rd, A(ext(st.r(rd), 32, False, W), K(sx(fld(w, 5, 20), 20) << 32)))
    if 0xa0 <= o10 <= 0xaa or o10 in (0xac, 0xad, 0xae, 0xaf):
        m = A(a, K(i12))
        n = o10 & 3
        if o10 < 0xa4:
            return st.load(rd, 1 << n, True, m)
        if o10 < 0xa8:
            return st.store(rd, 1 << n, m)
        if o10 < 0xab:
            return st.load(rd, 1 << n, False, m)
        s = 4 if o10 < 0xae else 8
        return st.store(rd, s, m, True) if o10 & 1 else st.load(rd, s, False, m, True)
    if w >> 24 in (0x24, 0x25, 0x26, 0x27):
        m = A(a, K(sx(fld(w, 10, 14), 14) << 2))
        n = w >> 24 & 3
        return st.store(rd, 8 if n > 1 else 4, m) if n & 1 else st.load(rd, 8 if n > 1 else 4, True, m)
    if w >> 23 == 0x70 and o17 & 7 == 0:
        m, n = A(a, b), fld(w, 18, 5)
        t = {0x00: ("l", 1, 1), 0x01: ("l", 2, 1), 0x02: ("l", 4, 1), 0x03: ("l", 8, 1), 0x04: ("s", 1), 0x05: ("s", 2), 0x06: ("s", 4), 0x07: ("s", 8),
             0x08: ("l", 1, 0), 0x09: ("l", 2, 0), 0x0a: ("l", 4, 0), 0x0c: ("fl", 4), 0x0d: ("fl", 8), 0x0e: ("fs", 4), 0x0f: ("fs", 8)}.get(n)
        if t is None:
            raise Lost
        if t[0] == "l":
            return st.load(rd, t[1], bool(t[2]), m)
        if t[0] == "s":
            return st.store(rd, t[1], m)
        return st.load(rd, t[1], False, m, True) if t[0] == "fl" else st.store(rd, t[1], m, True)
    if o17 in (0x20, 0x21, 0x22, 0x23, 0x24, 0x25):
        return st.w(rd, {0x20: lambda: S(A(a, b)), 0x21: lambda: A(a, b), 0x22: lambda: S(sub(a, b, W)), 0x23: lambda: sub(a, b, W),
                         0x24: lambda: fit(cmp("<s", a, b, W), W), 0x25: lambda: fit(cmp("<u", a, b, W), W)}[o17]())
    if o17 in (0x29, 0x2a, 0x2b):
        return st.w(rd, bitop("&|^"[o17 - 0x29], a, b, W))
    if o17 == 0x28:
        return st.w(rd, sub(K(-1), bitop("|", a, b, W), W))
    if o17 == 0x2d:
        return st.w(rd, bitop("&", a, sub(K(-1), b, W), W))
    if o17 == 0x2c:
        return st.w(rd, bitop("|", a, sub(K(-1), b, W), W))
    if o17 in (0x2e, 0x2f, 0x30):
        return st.w(rd, S(shv({0x2e: "<<", 0x2f: ">>", 0x30: ">>s"}[o17], reduce(a, 32), b, 32)))
    if o17 in (0x31, 0x32, 0x33):
        return st.w(rd, shv({0x31: "<<", 0x32: ">>", 0x33: ">>s"}[o17], a, b, W))
    if o17 == 0x36:
        return st.w(rd, S(shv("ror", reduce(a, 32), b, 32)))
    if o17 == 0x37:
        return st.w(rd, shv("ror", a, b, W))
    if o17 in (0x38, 0x3b):
        return st.w(rd, S(mul(a, b, W)) if o17 == 0x38 else mul(a, b, W))
    if w >> 17 in (0x02, 0x16):    # ALSL.W, ALSL.D
        v = A(shl(a, fld(w, 15, 2) + 1, W), b)
        return st.w(rd, S(v) if w >> 17 == 2 else v)
    if o17 in (0x81, 0x89, 0x91, 0x99):
        k = fld(w, 10, 5)
        x = reduce(a, 32)
        return st.w(rd, S({0x81: lambda: shl(a, k, W), 0x89: lambda: shr(x, k, False, 32), 0x91: lambda: shr(x, k, True, 32), 0x99: lambda: ror(x, k, 32)}[o17]()))
    if w >> 16 in (0x41, 0x45, 0x49, 0x4d):
        k = fld(w, 10, 6)
        return st.w(rd, {0x41: lambda: shl(a, k, W), 0x45: lambda: shr(a, k, False, W), 0x49: lambda: shr(a, k, True, W), 0x4d: lambda: ror(a, k, W)}[w >> 16]())
    if w >> 10 in (0x16, 0x17):
        return st.w(rd, ext(a, 16 if w >> 10 == 0x16 else 8, True, W))
    if o10 in (2, 3):
        m, l = fld(w, 16, 6), fld(w, 10, 6)
        if m < l:
            raise Lost
        if o10 == 3:
            return st.w(rd, shr(shl(a, 63 - m, W), 63 - m + l, False, W))
        x = st.r(rd)
        if l == 0 and m == 63:
            return st.w(rd, a)
        if l == 32 and m == 63:
            return st.w(rd, A(ext(x, 32, False, W), shl(a, 32, W)))
        if l == 0:
            return st.w(rd, A(shl(shr(x, m + 1, False, W), m + 1, W), ext(a, m + 1, False, W))) if isk(x) or m == 31 and False else lost()
        raise Lost
    if w >> 21 == 3:
        m, l = fld(w, 16, 5), fld(w, 10, 5)
        if w & 0x8000 and m >= l:
            return st.w(rd, S(shr(shl(reduce(a, 32), 31 - m, 32), 31 - m + l, False, 32)))
        raise Lost
    if w >> 10 in (0x4525, 0x4526):     # FMOV.S, FMOV.D
        return st.wf(rd, st.f(rj))
    raise Lost


def lost():
    raise Lost


# -- MIPS
def mips(st, w, width):
    W = st.W
    st.zero = 0
    A = lambda a, b: add(a, b, W)
    K = lambda c: con(c, W)
    S = (lambda v: ext(v, 32, True, W))
    op, rs, rt, rd, sa, fn = w >> 26, fld(w, 21, 5), fld(w, 16, 5), fld(w, 11, 5), fld(w, 6, 5), w & 63
    im, um = sx(w, 16), w & 0xffff
    a, b = st.r(rs), st.r(rt)
    if w == 0:
        return
    if op in (4, 5) or op in (6, 7) and rt == 0 or op == 1 and rt < 2:
        c = cmp("=", a, b, W) if op in (4, 5) else cmp("<s", K(0), a, W) if op in (6, 7) else cmp("<s", a, K(0), W)
        st.d["br"] = ("skip", neg(c) if op in (5, 6) or op == 1 and rt == 1 else c)
        return
    if op == 9:
        return st.w(rt, S(A(a, K(im))))
    if op == 25 and W == 64:
        return st.w(rt, A(a, K(im)))
    if op in (10, 11):
        return st.w(rt, fit(cmp("<s" if op == 10 else "<u", a, K(im), W), W))
    if op in (12, 13, 14):
        return st.w(rt, bitop("&|^"[op - 12], a, K(um), W))
    if op == 15:
        return st.w(rt, A(a, K(sx(um << 16, 32))) if rs else K(sx(um << 16, 32)))
    m = A(a, K(im))
    ld = {32: (1, True), 33: (2, True), 35: (4, True), 36: (1, False), 37: (2, False), 39: (4, False), 55: (8, True)}.get(op)
    if ld:
        return st.load(rt, ld[0], ld[1], m)
    s = {40: 1, 41: 2, 43: 4, 63: 8}.get(op)
    if s:
        return st.store(rt, s, m)
    if op in (49, 53):
        return st.load(rt, 4 if op == 49 else 8, False, m, True)
    if op in (57, 61):
        return st.store(rt, 4 if op == 57 else 8, m, True)
    if op == 0:
        if fn in (0, 2, 3):
            x = reduce(b, 32)
            if fn == 2 and rs == 1:
                return st.w(rd, S(ror(x, sa, 32)))
            return st.w(rd, S(shl(b, sa, W) if fn == 0 else shr(x, sa, fn == 3, 32)))
        if fn in (4, 6, 7):
            if fn == 6 and sa == 1:
                return st.w(rd, S(shv("ror", reduce(b, 32), a, 32)))
            return st.w(rd, S(shv({4: "<<", 6: ">>", 7: ">>s"}[fn], reduce(b, 32), a, 32)))
        if W == 64 and fn in (56, 58, 59, 60, 62, 63):
            k = sa + (32 if fn >= 60 else 0)
            if fn in (58, 62) and rs == 1:
                return st.w(rd, ror(b, k, W))
            return st.w(rd, shl(b, k, W) if fn in (56, 60) else shr(b, k, fn in (59, 63), W))
        if W == 64 and fn in (20, 22, 23):
            if fn == 22 and sa == 1:
                return st.w(rd, shv("ror", b, a, W))
            return st.w(rd, shv({20: "<<", 22: ">>", 23: ">>s"}[fn], b, a, W))
        if fn in (33, 35, 45, 47) and (fn < 40 or W == 64):
            v = A(a, b) if fn in (33, 45) else sub(a, b, W)
            return st.w(rd, S(v) if fn < 40 else v)
        if fn in (36, 37, 38):
            return st.w(rd, bitop("&|^"[fn - 36], a, b, W))
        if fn == 39:
            return st.w(rd, sub(K(-1), bitop("|", a, b, W), W))
        if fn in (24, 25, 28, 29):
            st.d["lo"] = mul(a, b, W) if fn > 25 else S(mul(a, b, W))
            st.d["hi"] = None
            return
        if fn in (16, 18):
            return st.w(rd, st.d.get("hi" if fn == 16 else "lo"))
        if fn in (42, 43):
            return st.w(rd, fit(cmp("<s" if fn == 42 else "<u", a, b, W), W))
    if op == 28 and fn == 2:
        return st.w(rd, S(mul(a, b, W)))
    if op == 31:
        if fn == 32 and sa in (16, 24):
            return st.w(rd, ext(b, 8 if sa == 16 else 16, True, W))
        if fn == 0:
            return st.w(rt, S(ext(shr(reduce(a, 32), sa, False, 32), rd + 1, False, 32)))
        if W == 64 and fn in (1, 2, 3):
            p = sa + (32 if fn == 2 else 0)
            n = rd + 1 + (32 if fn == 1 else 0)
            return st.w(rt, ext(shr(a, p, False, W), n, False, W))
        if fn in (4, 5, 6, 7) and (fn == 4 or W == 64):
            p = sa + (32 if fn == 6 else 0)
            q = rd + (32 if fn in (5, 6) else 0)
            if p == 32 and q == 63:
                return st.w(rt, A(ext(b, 32, False, W), shl(a, 32, W)))
            if p == 0 and q == 31 and fn != 4 and isk(b):
                return st.w(rt, A(con(b[0] >> 32 << 32, W), ext(a, 32, False, W)))
        raise Lost
    if op == 17 and fn == 6 and rs in (16, 17):
        return st.wf(sa, st.f(rd))
    raise Lost


# -- PowerPC
def ppc(st, w, width):
    op, rt, ra, rb, W = w >> 26, fld(w, 21, 5), fld(w, 16, 5), fld(w, 11, 5), st.W
    xer = st.d.get("xer", (None, None, None))

    def compare(f, a, b, n, u):
        c = "<u" if u else "<s"
        st.d[("cr", f)] = (cmp(c, a, b, n), cmp(c, b, a, n), cmp("=", a, b, n), st.d.get("xer", (None,))[0])

    if op in (10, 11):
        if fld(w, 22, 1) or W == 32 and fld(w, 21, 1):
            raise Lost
        n = 64 if fld(w, 21, 1) else 32
        return compare(fld(w, 23, 3), st.r(ra), con(w & 0xffff if op == 10 else sx(w, 16), n), n, op == 10)
    xo = fld(w, 1, 10)
    if op == 31 and xo in (0, 32):
        if fld(w, 22, 1) or w & 1 or W == 32 and fld(w, 21, 1):
            raise Lost
        n = 64 if fld(w, 21, 1) else 32
        return compare(fld(w, 23, 3), st.r(ra), st.r(rb), n, xo == 32)
    if op == 31 and xo == 19 and not fld(w, 20, 1):
        return st.w(rt, sym(("crs", tuple(st.d.get(("cr", f)) for f in range(8)))))
    if op == 31 and xo in (339, 467) and fld(w, 11, 10) == 1 << 5:
        if xo == 339:
            return st.w(rt, sym(("crs", (xer,))))
        st.d["xer"] = (con(0, 64),) * 3 if st.r(rt) == con(0, W) else (None,) * 3
        return
    if op == 19 and xo == 528:
        bo, bi = rt, ra
        f = st.d.get(("cr", bi // 4))
        c = f[bi & 3] if f else None
        st.d["br"] = ("jump", con(1, 64) if bo == 20 else c if bo == 12 else neg(c) if bo == 4 else None)
        return
    target = ra if op in (20, 21, 23, 28, 29, 30) or op == 31 and xo & 31 in (24, 26, 27, 28) else rt
    y = xo & 511
    arith = op == 31 and y in (8, 10, 40, 104, 233, 235, 266, 136, 138, 202, 200, 234, 232)
    a, b = st.r(ra), st.r(rb)
    k = con(sx(w, 16), W)
    carry = (cmp("<u", add(a, k, W), k, W) if op in (12, 13) else neg(cmp("<u", k, a, W)) if op == 8 else cmp("<u", add(a, b, W), b, W) if arith and y == 10 else
             neg(cmp("<u", b, a, W)) if arith and y == 8 else 0)
    ppcop(st, w, width)
    if carry != 0:
        xer = (xer[0], xer[1], carry)
    elif arith and y in (136, 138) and xer[2] is not None:
        k = carried(a, b, xer[2], W, False)[1] if y == 138 else neg(carried(b, a, neg(xer[2]), W, True)[1])
        xer = (xer[0], xer[1], k)
    elif arith and y in (202, 200, 234, 232) or op == 31 and xo in (792, 794, 824, 826, 827):
        xer = (xer[0], xer[1], None)
    if arith and fld(w, 10, 1):
        o = {266: ("vadd", a, b), 10: ("vadd", a, b), 40: ("vsub", b, a), 8: ("vsub", b, a), 104: ("vsub", con(0, W), a)}.get(y)
        v = cmp(*o, W) if o else None
        xer = (v if xer[0] == con(0, 64) else None, v, xer[2])
    st.d["xer"] = xer
    if op in (13, 28, 29) or w & 1 and op in (20, 21, 23, 30, 31):
        compare(0, st.r(target), con(0, W), W, False)


def ppcop(st, w, width):
    W = st.W
    A = lambda a, b: add(a, b, W)
    K = lambda c: con(c, W)
    op, rt, ra, rb, rc = w >> 26, fld(w, 21, 5), fld(w, 16, 5), fld(w, 11, 5), w & 1
    im, um = sx(w, 16), w & 0xffff
    z = K(0) if ra == 0 else st.r(ra)
    if op in (14, 15):
        return st.w(rt, A(z, K(im << 16 if op == 15 else im)))
    if op in (24, 25, 26, 27, 28, 29):
        c = um << 16 if op & 1 else um
        return st.w(ra, bitop({12: "|", 13: "^", 14: "&"}[op >> 1], st.r(rt), K(c), W))
    if op in (12, 13):
        return st.w(rt, A(st.r(ra), K(im)))
    if op == 8:
        return st.w(rt, sub(K(im), st.r(ra), W))
    if op == 7:
        return st.w(rt, mul(st.r(ra), K(im), W))
    d = {34: ("l", 1, 0), 40: ("l", 2, 0), 42: ("l", 2, 1), 32: ("l", 4, 0), 38: ("s", 1), 44: ("s", 2), 36: ("s", 4),
         48: ("fl", 4), 50: ("fl", 8), 52: ("fs", 4), 54: ("fs", 8)}

    def mem(t, m, up, zero):
        if t[0] == "l":
            st.load(rt, t[1], bool(t[2]), m)
        elif t[0] == "s":
            st.store(rt, t[1], m)
        elif t[0] == "fl":
            st.load(rt, t[1], False, m, True)
        else:
            st.store(rt, t[1], m, True)
        if up:
            if t[0] == "l" and rt == ra or not ra:
                raise Lost
            st.w(ra, m)

    if op in d or op - 1 in d and op & 1:
        up = op not in d
        return mem(d[op - up], A(st.r(ra) if up else z, K(im)), up, False)
    if op == 58 and W == 64:
        x = w & 3
        m = A(st.r(ra) if x == 1 else z, K(im & ~3))
        if x < 3:
            return mem(("l", 8, 0) if x < 2 else ("l", 4, 1), m, x == 1, False)
    if op == 62 and W == 64:
        x = w & 3
        m = A(st.r(ra) if x == 1 else z, K(im & ~3))
        if x < 2:
            return mem(("s", 8), m, x == 1, False)
    if op == 21:
        sh, mb, me = rb, fld(w, 6, 5), fld(w, 1, 5)
        x = reduce(st.r(rt), 32)
        if mb <= me:
            mask = ((1 << (me - mb + 1)) - 1) << (31 - me)
        else:
            mask = ((1 << 32) - 1) & ~(((1 << (mb - me - 1)) - 1) << (32 - mb))
        s = single(x)
        if s and s[0] == "crs":
            i = (sh - 1) & 31
            f = s[1][i // 4] if i // 4 < len(s[1]) and mask == 1 else None
            return st.w(ra, fit(f[i & 3], W) if f else None)
        return st.w(ra, ext(rotmask(x, sh, mask, 32), 32, False, W))
    if op == 30 and W == 64:
        xo = fld(w, 2, 3)
        sh = rb | fld(w, 1, 1) << 5
        mb = fld(w, 6, 5) | fld(w, 5, 1) << 5
        x = st.r(rt)
        if xo == 0:
            return st.w(ra, rotmask(x, sh, (1 << (64 - mb)) - 1, 64))
        if xo == 1:
            return st.w(ra, rotmask(x, sh, ((1 << 64) - 1) ^ ((1 << (63 - mb)) - 1), 64))
        if fld(w, 1, 4) == 8 and mb == 0:
            return st.w(ra, shv("rol", x, st.r(rb), 64))
        if xo == 3:
            # insert: bits mb .. 63-sh
            mask = ((1 << (64 - mb)) - 1) & ~((1 << sh) - 1)
            return st.w(ra, A(bitop("&", st.r(ra), K(~mask), W), bitop("&", ror(x, 64 - sh, 64) if not isk(x) else shl(x, sh, W), K(mask), W))) \
                if isk(x) and isk(st.r(ra)) else ins(st, ra, x, sh, mask, W)
        raise Lost
    if op == 31:
        xo = fld(w, 1, 10)
        x = {87: ("l", 1, 0), 279: ("l", 2, 0), 343: ("l", 2, 1), 23: ("l", 4, 0), 341: ("l", 4, 1), 21: ("l", 8, 0), 215: ("s", 1), 407: ("s", 2), 151: ("s", 4),
             149: ("s", 8), 535: ("fl", 4), 599: ("fl", 8), 663: ("fs", 4), 727: ("fs", 8)}
        if xo in x:
            return mem(x[xo], A(z, st.r(rb)), False, False)
        if xo - 32 in x:
            return mem(x[xo - 32], A(st.r(ra), st.r(rb)), True, False)
        a, b, s = st.r(ra), st.r(rb), st.r(rt)
        y = xo & 511
        if y == 266 or y == 10:
            return st.w(rt, A(a, b))
        if y == 40 or y == 8:
            return st.w(rt, sub(b, a, W))
        if y == 104:
            return st.w(rt, mulk(a, -1, W))
        c = st.d.get("xer", (None,) * 3)[2]
        if y in (136, 138, 200, 202, 232, 234) and c is not None:
            # a or ~a, b or 0 or -1, and the carry
            if not y & 2:
                a = sub(K(-1), a, W)
            return st.w(rt, A(A(a, b if y < 200 else K(0) if y < 232 else K(-1)), fit(c, W)))
        if y == 235 or y == 233:
            return st.w(rt, mul(a, b, W) if y == 233 or W == 32 else ext(mul(ext(a, 32, True, W), ext(b, 32, True, W), W), 32, False, W))
        if xo in (28, 444, 316):
            return st.w(ra, bitop({28: "&", 444: "|", 316: "^"}[xo], s, b, W))
        if xo == 124:
            return st.w(ra, sub(K(-1), bitop("|", s, b, W), W))
        if xo == 60:
            return st.w(ra, bitop("&", s, sub(K(-1), b, W), W))
        if xo in (954, 922, 986):
            return st.w(ra, ext(s, {954: 8, 922: 16, 986: 32}[xo], True, W))
        if xo == 824:
            return st.w(ra, ext(shr(reduce(s, 32), rb, True, 32), 32, True, W))
        if xo in (826, 827):
            return st.w(ra, shr(s, rb | (xo & 1) << 5, True, W))
        if xo in (24, 536, 792):
            return st.w(ra, ppcsh(xo, s, b, 32, W))
        if xo in (27, 539, 794):
            return st.w(ra, ppcsh(xo, s, b, 64, W))
    if op == 23:
        mb, me = fld(w, 6, 5), fld(w, 1, 5)
        if mb == 0 and me == 31:
            return st.w(ra, ext(shv("rol", reduce(st.r(rt), 32), st.r(rb), 32), 32, False, W))
    if op == 63 and fld(w, 1, 10) == 72:
        return st.wf(rt, st.f(rb))
    raise Lost


def ins(st, ra, x, sh, mask, W):
    old = st.r(ra)
    if mask == ((1 << 64) - 1) ^ 0xffffffff and sh == 32:
        return st.w(ra, add(ext(old, 32, False, W), shl(x, 32, W), W))
    raise Lost


def ppcsh(xo, s, b, n, W):
    """shift counts have one bit more than needed: only known counts"""
    if not isk(b):
        o = {24: "<<", 27: "<<", 536: ">>", 539: ">>"}.get(xo, ">>s")
        v = shv(o, reduce(s, n), b, n) if below(b, n.bit_length() - 1) else sym(("long" + o, reduce(s, n), reduce(b, n.bit_length()), n))
        return ext(v, n, o == ">>s", W)
    k = b[0] & (2 * n - 1)
    x = reduce(s, n)
    if xo in (24, 27):
        return ext(shl(x, k, n), n, False, W)
    if xo in (536, 539):
        return ext(shr(x, k, False, n), n, False, W) if k < n else con(0, W)
    return ext(shr(x, min(k, n - 1), True, n), n, True, W)


def rotmask(x, sh, mask, n):
    """rotate left, then and"""
    if x is None:
        return None
    full = (1 << n) - 1
    if isk(x):
        return con((x[0] << sh | x[0] >> (n - sh)) & full & mask, n)
    if not mask & ((1 << sh) - 1):
        return bitop("&", shl(x, sh, n), con(mask, n), n) if mask != (full >> sh) << sh else shl(x, sh, n)
    k = n - sh
    if sh and mask <= (1 << sh) - 1:
        # a right shift
        v = shr(x, k, False, n)
        return v if mask == (1 << sh) - 1 else bitop("&", v, con(mask, n), n)
    return bitop("&", ror(x, k, n) if sh else x, con(mask, n), n)


# -- status flags of ARM: ("sub", a, b, n), ("add", a, b, n) or ("logic", value, carry, n)
def carried(a, b, c, n, minus):
    """a + b + c or a - b - c for c = 0 or 1, and its carry or borrow"""
    k = fit(c, n)
    if minus:
        return sub(sub(a, b, n), k, n), bitop("|", cmp("<u", a, b, n), cmp("<u", sub(a, b, n), k, n), 64)
    return add(add(a, b, n), k, n), bitop("|", cmp("<u", add(a, b, n), b, n), cmp("<u", add(add(a, b, n), k, n), k, n), 64)


def armadc(st, a, b, n, minus, S):
    """with the carry, which is inverted after a subtraction"""
    c = arm_condition(st.d.get("nzcv"), 2)
    if c is None:
        raise Lost
    if minus and isk(b):
        b, minus = sub(con(-1, n), b, n), 0
    v, o = carried(a, b, neg(c) if minus else c, n, minus)
    if S:
        st.d["nzcv"] = ("adc", v, neg(o) if minus else o, n)
    return v


def arm_condition(f, cc):
    """0 or 1, or None"""
    r = arm_positive(f, cc & ~1)
    return neg(r) if cc & 1 else r


def arm_positive(f, cc):
    if f is None:
        return None
    k, a, b, n = f
    z = con(0, n)
    if a is None:
        return None
    if k == "adc":
        return {0: lambda: cmp("=", a, z, n), 2: lambda: b, 4: lambda: cmp("<s", a, z, n)}.get(cc, lambda: None)()
    if k == "logic":
        if cc == 0:
            return cmp("=", a, z, n)
        if cc == 2:
            return b
        return cmp("<s", a, z, n) if cc == 4 else con(0, 64) if cc == 6 and b is not None else None
    if b is None:
        return None
    if k == "add" and isk(b) and b[0] and b[0] != 1 << (n - 1):
        k, b = "sub", mulk(b, -1, n)
    if k == "add":
        v = add(a, b, n)
        return {0: lambda: cmp("=", v, z, n), 2: lambda: cmp("<u", v, b, n), 4: lambda: cmp("<s", v, z, n), 6: lambda: cmp("vadd", a, b, n)}.get(cc, lambda: None)()
    return {0: lambda: cmp("=", a, b, n), 2: lambda: neg(cmp("<u", a, b, n)), 4: lambda: cmp("<s", sub(a, b, n), z, n), 6: lambda: cmp("vsub", a, b, n),
            8: lambda: cmp("<u", b, a, n), 10: lambda: neg(cmp("<s", a, b, n)), 12: lambda: cmp("<s", b, a, n)}.get(cc, lambda: None)()


def ite(c, x, y, W):
    """x if c (0 or 1) else y"""
    if c is None or x is None or y is None:
        return None
    c = flag(c, 64) or c
    if isk(c):
        return x if c[0] else y
    (s, k), = c[1]
    if c[0]:
        x, y = y, x
    # a choice by the same condition
    p, q = single(x), single(y)
    if p and p[0] == "ite" and p[1] == sym(s):
        x = p[2]
    if q and q[0] == "ite" and q[1] == sym(s):
        y = q[3]
    if x == y:
        return x
    d = sub(x, y, W)
    if isk(d):
        return add(y, mulk(fit(sym(s), W), d[0], W), W)
    return sym(("ite", sym(s), x, y))


# -- ARM64
def a64imm(w, W):
    """decode a logical immediate"""
    n, r, s = fld(w, 22, 1), fld(w, 16, 6), fld(w, 10, 6)
    l = (n << 6 | (~s & 0x3f)).bit_length() - 1
    if l < 1:
        raise Lost
    e = 1 << l
    s, r = s & (e - 1), r & (e - 1)
    p = (1 << (s + 1)) - 1
    p = (p >> r | p << (e - r)) & ((1 << e) - 1)
    v = 0
    for i in range(0, W, e):
        v |= p << i
    return v & ((1 << W) - 1)


def arm64(st, w, width):
    sf = w >> 31
    n = 64 if sf else 32
    rd, rn, rm = w & 31, fld(w, 5, 5), fld(w, 16, 5)
    K = lambda c: con(c, 64)

    def R(i, sp=False):
        if i == 31 and not sp:
            return K(0)
        return reduce(st.r(i if i != 31 else "sp"), n)

    def Wr(i, v, sp=False):
        if i == 31 and not sp:
            return
        st.w(i if i != 31 else "sp", ext(v, n, False, 64) if n == 32 else v)

    X = lambda i: st.r("sp" if i == 31 else i)
    op = fld(w, 24, 5)
    if w >> 24 == 0x54 and not w & 16:
        st.d["br"] = ("skip", arm_condition(st.d.get("nzcv"), w & 15) if w & 15 < 14 else None)
        return
    if w >> 24 & 0x7f in (0x34, 0x35):
        c = cmp("=", R(rd), con(0, n), n)
        st.d["br"] = ("skip", neg(c) if w >> 24 & 1 else c)
        return
    if op == 0x11:       # add/sub immediate
        im = fld(w, 10, 12) << (12 if fld(w, 22, 1) else 0)
        S = fld(w, 29, 1)
        a = R(rn, True)
        if S:
            st.d["nzcv"] = ("sub" if fld(w, 30, 1) else "add", a, con(im, n), n)
        return Wr(rd, sub(a, con(im, n), n) if fld(w, 30, 1) else add(a, con(im, n), n), not S)
    if op == 0x12 and not fld(w, 23, 1):
        o = fld(w, 29, 2)
        if o == 3:
            st.d["nzcv"] = ("logic", bitop("&", R(rn), con(a64imm(w, n), n), n), con(0, 64), n)
        return Wr(rd, bitop("&|^&"[o], R(rn), con(a64imm(w, n), n), n), o != 3)
    if op == 0x12:
        o, hw, im = fld(w, 29, 2), fld(w, 21, 2) * 16, fld(w, 5, 16)
        if o == 0:
            return Wr(rd, con(~(im << hw), n))
        if o == 2:
            return Wr(rd, con(im << hw, n))
        if o == 3:
            a = R(rd)
            if isk(a):
                return Wr(rd, con(a[0] & ~(0xffff << hw) | im << hw, n))
        raise Lost
    if op == 0x13 and not fld(w, 23, 1):
        o, r, s = fld(w, 29, 2), fld(w, 16, 6), fld(w, 10, 6)
        a = R(rn)
        if o in (0, 2):
            sg = o == 0
            if s >= r:
                return Wr(rd, shr(shl(a, n - 1 - s, n), n - 1 - s + r, sg, n))
            return Wr(rd, shl(ext(a, s + 1, sg, n), n - r, n))
        if o == 1:
            if s >= r and r == 0:
                d = R(rd)
                if isk(d) and isk(a):
                    m = (1 << (s + 1)) - 1
                    return Wr(rd, con(d[0] & ~m | a[0] & m, n))
            if s < r and n - r + s + 1 == n:
                return Wr(rd, add(ext(R(rd), n - r, False, n), shl(a, n - r, n), n))
        raise Lost
    if op == 0x13:
        if rn == rm:
            return Wr(rd, ror(R(rn), fld(w, 10, 6), n))
        raise Lost
    if op == 0x0b and not fld(w, 21, 1):   # add/sub shifted register
        b = shift64(R(rm), fld(w, 22, 2), fld(w, 10, 6), n)
        a = R(rn)
        if fld(w, 29, 1):
            st.d["nzcv"] = ("sub" if fld(w, 30, 1) else "add", a, b, n)
        return Wr(rd, sub(a, b, n) if fld(w, 30, 1) else add(a, b, n))
    if op == 0x0b:
        o, k = fld(w, 13, 3), fld(w, 10, 3)
        b = shl(ext(st.r(rm) if rm != 31 else K(0), min(8 << (o & 3), n), o > 3, n), k, n)
        a = R(rn, True)
        if fld(w, 29, 1):
            st.d["nzcv"] = ("sub" if fld(w, 30, 1) else "add", a, b, n)
        return Wr(rd, sub(a, b, n) if fld(w, 30, 1) else add(a, b, n), not fld(w, 29, 1))
    if op == 0x0a:
        b = shift64(R(rm), fld(w, 22, 2), fld(w, 10, 6), n)
        if fld(w, 21, 1):
            b = sub(con(-1, n), b, n)
        a = R(rn)
        v = bitop("&|^&"[fld(w, 29, 2)], a, b, n)
        if fld(w, 29, 2) == 3:
            st.d["nzcv"] = ("logic", v, con(0, 64), n)
        return Wr(rd, v)
    if op == 0x1a and fld(w, 21, 3) == 4 and fld(w, 29, 1) == 0:    # CSEL, CSINC, CSINV, CSNEG
        o = fld(w, 30, 1) << 1 | fld(w, 10, 1)
        c = arm_condition(st.d.get("nzcv"), fld(w, 12, 4)) if fld(w, 12, 4) < 14 else con(1, 64)
        y = R(rm)
        y = (y, add(y, con(1, n), n), sub(con(-1, n), y, n), mulk(y, -1, n))[o]
        return Wr(rd, ite(c, R(rn), y, n))
    if op == 0x1a and fld(w, 29, 2) == 0 and fld(w, 21, 3) == 6:
        o = fld(w, 10, 6)
        if o in (8, 9, 10, 11):
            return Wr(rd, shv(("<<", ">>", ">>s", "ror")[o - 8], R(rn), R(rm), n))
    if op == 0x1b and fld(w, 29, 2) == 0 and fld(w, 21, 3) == 0:
        p = mul(R(rn), R(rm), n)
        a = R(fld(w, 10, 5))
        return Wr(rd, sub(a, p, n) if fld(w, 15, 1) else add(a, p, n))
    if op == 0x1a and fld(w, 21, 3) == 0 and fld(w, 10, 6) == 0:     # ADC, ADCS, SBC, SBCS
        return Wr(rd, armadc(st, R(rn), R(rm), n, fld(w, 30, 1), fld(w, 29, 1)))
    if op & 0x1a == 0x18 and fld(w, 27, 3) == 7:
        size, V, o = w >> 30, fld(w, 26, 1), fld(w, 22, 2)
        sc = size
        if V and o >= 2:
            if size:
                raise Lost
            sc, o = 4, o - 2
        base = X(rn)
        wb = None
        if fld(w, 24, 1):
            m = add(base, K(fld(w, 10, 12) << sc), 64)
        elif fld(w, 21, 1):
            if fld(w, 10, 2) != 2:
                raise Lost
            opt = fld(w, 13, 3)
            x = st.r(rm) if rm != 31 else K(0)
            if opt in (2, 6):
                x = ext(x, 32, opt == 6, 64)
            m = add(base, shl(x, sc if fld(w, 12, 1) else 0, 64), 64)
        else:
            k = fld(w, 10, 2)
            m = add(base, K(sx(fld(w, 12, 9), 9)), 64)
            if k & 1:
                wb = m
            elif k == 2:
                raise Lost
            if k == 1:
                m = base
        if V:
            if sc == 4:
                raise Lost
            if o == 0:
                st.store(rd, 1 << size, m, True)
            else:
                st.load(rd, 1 << size, False, m, True)
        elif o == 0:
            if rd == 31:
                st.event("st", 1 << size, m, con(0, 8 << size))
            else:
                st.store(rd, 1 << size, m)
        elif size == 3 and o >= 2:
            if rd != 31 or True:
                return      # prefetch
        else:
            signed = o >= 2
            if rd == 31:
                raise Lost
            st.load(rd, 1 << size, signed, m)
            if o == 3 and signed:
                st.w(rd, ext(st.r(rd), 32, False, 64))
        if wb is not None:
            st.w("sp" if rn == 31 else rn, wb)
        return
    if fld(w, 25, 5) == 0x14 and fld(w, 30, 2) in (0, 1, 2) and fld(w, 27, 3) == 5:
        V, L, k = fld(w, 26, 1), fld(w, 22, 1), fld(w, 23, 3)
        opc = w >> 30
        if V or opc == 1:
            raise Lost
        size = 8 if opc == 2 else 4
        base = X(rn)
        m = add(base, K(sx(fld(w, 15, 7), 7) * size), 64)
        wb = m if k in (1, 3) else None
        if k == 1:
            m = base
        m2 = add(m, K(size), 64)
        for q, mm in ((rd, m), (fld(w, 10, 5), m2)):
            if L:
                st.load(q, size, False, mm)
            elif q == 31:
                st.event("st", size, mm, con(0, size * 8))
            else:
                st.store(q, size, mm)
        if wb is not None:
            st.w("sp" if rn == 31 else rn, wb)
        return
    if w & 0xffbffc00 == 0x1e204000:
        return st.wf(rd, st.f(rn))
    raise Lost


def shift64(v, t, k, n):
    return shl(v, k, n) if t == 0 else shr(v, k, t == 2, n) if t < 3 else ror(v, k, n)


# -- ARM
def conditional(st, cc, f):
    """an instruction that is executed if a condition holds"""
    c = arm_condition(st.d.get("nzcv"), cc)
    s2 = State(st.d.items(), st.W)
    f(s2)
    for k in set(st.d) | set(s2.d):
        if k == "it":
            continue
        a, b = st.d.get(k, sym(k) if k[0] == "r" else None), s2.d.get(k, sym(k) if k[0] == "r" else None)
        if a != b:
            if k[0] != "r" or k == "ev":
                raise Lost
            st.d[k] = ite(c, b, a, st.W)


def arm32(st, w, width):
    W = 32
    K = lambda c: con(c, W)
    A = lambda a, b: add(a, b, W)
    if w & 0x0ffffff0 == 0x012fff10:
        st.d["br"] = ("jump", arm_condition(st.d.get("nzcv"), w >> 28) if w >> 28 < 14 else con(1, 64))
        return
    if w >> 28 < 14:
        return conditional(st, w >> 28, lambda s2: arm32(s2, w & 0x0fffffff | 0xe0000000, width))
    if w >> 28 != 14:
        raise Lost
    rn, rd, rs, rm = fld(w, 16, 4), fld(w, 12, 4), fld(w, 8, 4), w & 15
    t = fld(w, 25, 3)
    if rn == 15 and (t == 2 or t == 3 and not w & 16):
        raise Lost

    def shifted():
        k, ty = fld(w, 7, 5), fld(w, 5, 2)
        x = st.r(rm)
        if w & 16:
            y = st.r(rs)
            return t2sh(ty, x, y)
        if ty == 0:
            return shl(x, k, W)
        if k == 0:
            if ty == 3:
                raise Lost
            return K(0) if ty == 1 else shr(x, 31, True, W)
        return shr(x, k, ty == 2, W) if ty < 3 else ror(x, k, W)

    def finish(load, size, signed, off, p, u, wbit):
        base = st.r(rn)
        m = add(base, off, W) if u else sub(base, off, W)
        a = m if p else base
        if load:
            if rd == rn and (not p or wbit):
                raise Lost
            if size == 8:
                st.load(rd, 4, False, a)
                st.load(rd + 1, 4, False, A(a, K(4)))
            else:
                st.load(rd, size, signed, a)
        elif size == 8:
            st.store(rd, 4, a)
            st.store(rd + 1, 4, A(a, K(4)))
        else:
            st.store(rd, size, a)
        if not p or wbit:
            st.w(rn, m)

    p, u, b, wb, L = fld(w, 24, 1), fld(w, 23, 1), fld(w, 22, 1), fld(w, 21, 1), fld(w, 20, 1)
    if t in (2, 3) and not (t == 3 and w & 16):
        return finish(L, 1 if b else 4, False, K(w & 0xfff) if t == 2 else shifted(), p, u, wb)
    if t == 0 and w & 0x90 == 0x90 and fld(w, 5, 2):
        off = K(fld(w, 8, 4) << 4 | w & 15) if b else st.r(rm)
        sh = fld(w, 5, 2)
        if L:
            return finish(True, {1: 2, 2: 1, 3: 2}[sh], sh > 1, off, p, u, wb)
        if sh == 1:
            return finish(False, 2, False, off, p, u, wb)
        return finish(sh == 2, 8, False, off, p, u, wb)
    if t == 0 and w & 0x0fe000f0 == 0x90:
        v = mul(st.r(rm), st.r(rs), W)
        if fld(w, 20, 1):
            st.d["nzcv"] = ("logic", v, None, W)
        return st.w(rn, v)
    if t == 3 and w & 16:
        if w & 0x0fff03f0 in (0x06af0070, 0x06bf0070, 0x06ef0070, 0x06ff0070) and fld(w, 10, 2) == 0:
            return st.w(rd, ext(st.r(rm), 16 if w & 0x00100000 else 8, not w & 0x00400000, W))
        raise Lost
    if t in (0, 1):
        o, S = fld(w, 21, 4), fld(w, 20, 1)
        if t == 1 and w & 0x0ff00000 == 0x03000000:
            return st.w(rd, K(rn << 12 | w & 0xfff))
        if t == 1 and w & 0x0ff00000 == 0x03400000:
            return st.w(rd, A(ext(st.r(rd), 16, False, W), K((rn << 12 | w & 0xfff) << 16)))
        if 8 <= o < 12 and not S or rd == 15:
            raise Lost
        if t == 1:
            k = fld(w, 8, 4) * 2
            x = w & 255
            y = K(x >> k | x << (32 - k) if k else x)
        else:
            if w & 0x90 == 0x90:
                raise Lost
            y = shifted()
        a = st.r(rn)
        inv = lambda v: sub(K(-1), v, W)
        if o in (5, 6, 7):
            if w >> 28 != 14:
                raise Lost
            return st.w(rd, armadc(st, a if o < 7 else y, y if o < 7 else a, W, o > 5, S))
        if S:
            st.d["nzcv"] = {2: ("sub", a, y, W), 3: ("sub", y, a, W), 4: ("add", a, y, W), 10: ("sub", a, y, W), 11: ("add", a, y, W)}.get(o) or \
                ("logic", y if o == 13 else inv(y) if o == 15 else bitop({0: "&", 8: "&", 1: "^", 9: "^", 12: "|", 14: "&"}[o], a, inv(y) if o == 14 else y, W), None, W)
        if o in (0, 1, 12):
            return st.w(rd, bitop({0: "&", 1: "^", 12: "|"}[o], a, y, W))
        if o == 2:
            return st.w(rd, sub(a, y, W))
        if o == 3:
            return st.w(rd, sub(y, a, W))
        if o == 4:
            return st.w(rd, A(a, y))
        if o == 13:
            return st.w(rd, y)
        if o == 14:
            return st.w(rd, bitop("&", a, sub(K(-1), y, W), W))
        if o == 15:
            return st.w(rd, sub(K(-1), y, W))
        if 8 <= o < 12:
            return
        raise Lost
    if t == 4:
        raise Lost
    return vfp(st, w)


def vfp(st, w):
    """VLDR, VSTR, VMOV (the condition field is 'always')"""
    W = 32
    if w & 0x0f200e00 == 0x0d000a00:
        d = fld(w, 12, 4)
        dbl = fld(w, 8, 1)
        n = ("d", d | fld(w, 22, 1) << 4) if dbl else ("s", d << 1 | fld(w, 22, 1))
        base = st.r(fld(w, 16, 4))
        if fld(w, 16, 4) == 15:
            raise Lost
        off = con((w & 255) * 4, W)
        m = add(base, off, W) if fld(w, 23, 1) else sub(base, off, W)
        return st.load(n, 8 if dbl else 4, False, m, True) if fld(w, 20, 1) else st.store(n, 8 if dbl else 4, m, True)
    if w & 0x0fbf0ed0 == 0x0eb00a40:
        if fld(w, 8, 1):
            return st.wf(("d", fld(w, 12, 4) | fld(w, 22, 1) << 4), st.f(("d", w & 15 | fld(w, 5, 1) << 4)))
        return st.wf(("s", fld(w, 12, 4) << 1 | fld(w, 22, 1)), st.f(("s", (w & 15) << 1 | fld(w, 5, 1))))
    raise Lost


# -- Thumb-2
def t2imm(i12):
    t, b = i12 >> 8, i12 & 255
    if t == 0:
        return b
    if t == 1:
        return b << 16 | b
    if t == 2:
        return b << 24 | b << 8
    if t == 3:
        return b << 24 | b << 16 | b << 8 | b
    k = i12 >> 7
    x = 0x80 | i12 & 0x7f
    return (x >> k | x << (32 - k)) & 0xffffffff


def thumb2(st, w, width):
    it = st.d.pop("it", ())
    if width == 16 and w >> 8 == 0xbf and w & 15:
        if it:
            raise Lost
        n = 4 - (w & -w & 15).bit_length() + 1
        st.d["it"] = tuple(fld(w, 4, 4) if i == 0 else fld(w, 5, 3) << 1 | fld(w, 4 - i, 1) for i in range(n))
        return
    if it:
        if 14 in it:
            raise Lost
        if width == 16 and w & 0xff87 == 0x4700 and not it[1:]:
            st.d["br"] = ("jump", arm_condition(st.d.get("nzcv"), it[0]))
            return
        if it[1:]:
            st.d["it"] = it[1:]
        return conditional(st, it[0], lambda s2: thumb(s2, w, width, True))
    thumb(st, w, width, False)


def thumb(st, w, width, inside):
    W = 32

    def fl(*f):
        if not inside:
            st.d["nzcv"] = f + (W,)

    def S16(d, v):
        fl("logic", v, None)
        st.w(d, v)

    K = lambda c: con(c, W)
    A = lambda a, b: add(a, b, W)
    if width == 16:
        a3, b3, c3 = w & 7, fld(w, 3, 3), fld(w, 6, 3)
        t = w >> 11
        if t < 3:
            k = fld(w, 6, 5)
            x = st.r(b3)
            if t and k == 0:
                k = 32
            if k == 32:
                return S16(a3, K(0) if t == 1 else shr(x, 31, True, W))
            return S16(a3, shl(x, k, W) if t == 0 else shr(x, k, t == 2, W))
        if t == 3:
            y = K(c3) if fld(w, 10, 1) else st.r(c3)
            fl("sub" if fld(w, 9, 1) else "add", st.r(b3), y)
            return st.w(a3, sub(st.r(b3), y, W) if fld(w, 9, 1) else A(st.r(b3), y))
        if 4 <= t < 8:
            d, i = fld(w, 8, 3), K(w & 255)
            if t == 4:
                return S16(d, i)
            if inside and t == 5:
                raise Lost
            fl("add" if t == 6 else "sub", st.r(d), i)
            if t == 5:
                return
            return st.w(d, A(st.r(d), i) if t == 6 else sub(st.r(d), i, W))
        if t == 8:
            if not fld(w, 10, 1):
                o = fld(w, 6, 4)
                a, b = st.r(a3), st.r(b3)
                if inside and o in (8, 10, 11):
                    raise Lost
                if o in (0, 1, 12):
                    return S16(a3, bitop({0: "&", 1: "^", 12: "|"}[o], a, b, W))
                if o in (2, 3, 4, 7):
                    return S16(a3, t2sh({2: 0, 3: 1, 4: 2, 7: 3}[o], a, b))
                if o in (5, 6):
                    return st.w(a3, armadc(st, a, b, W, o == 6, not inside))
                if o == 9:
                    fl("sub", K(0), b)
                    return st.w(a3, mulk(b, -1, W))
                if o == 13:
                    return S16(a3, mul(a, b, W))
                if o == 14:
                    return S16(a3, bitop("&", a, sub(K(-1), b, W), W))
                if o == 15:
                    return S16(a3, sub(K(-1), b, W))
                if o in (8, 10, 11):
                    return fl("logic", bitop("&", a, b, W), None) if o == 8 else fl("sub" if o == 10 else "add", a, b)
                raise Lost
            d, m, o = w & 7 | fld(w, 7, 1) << 3, fld(w, 3, 4), fld(w, 8, 2)
            if 15 in (d, m):
                raise Lost
            if o == 0:
                return st.w(d, A(st.r(d), st.r(m)))
            if o == 2:
                return st.w(d, st.r(m))
            if o == 1 and not inside:
                return fl("sub", st.r(d), st.r(m))
            raise Lost
        if t in (10, 11):
            o = fld(w, 9, 3)
            m = A(st.r(b3), st.r(c3))
            return [lambda: st.store(a3, 4, m), lambda: st.store(a3, 2, m), lambda: st.store(a3, 1, m), lambda: st.load(a3, 1, True, m),
                    lambda: st.load(a3, 4, False, m), lambda: st.load(a3, 2, False, m), lambda: st.load(a3, 1, False, m), lambda: st.load(a3, 2, True, m)][o]()
        k = fld(w, 6, 5)
        b = st.r(b3)
        if t in (12, 13, 14, 15, 16, 17):
            s = 4 if t < 14 else 1 if t < 16 else 2
            m = A(b, K(k * s))
            return st.load(a3, s, False, m) if t & 1 else st.store(a3, s, m)
        if t in (18, 19):
            m = A(st.r(13), K((w & 255) * 4))
            d = fld(w, 8, 3)
            return st.load(d, 4, False, m) if t & 1 else st.store(d, 4, m)
        if t == 21:
            return st.w(fld(w, 8, 3), A(st.r(13), K((w & 255) * 4)))
        if w >> 8 == 0xb0:
            k = K((w & 127) * 4)
            return st.w(13, sub(st.r(13), k, W) if w & 128 else A(st.r(13), k))
        if w >> 8 == 0xb2:
            return st.w(a3, ext(st.r(b3), 8 if w & 0x40 else 16, not w & 0x80, W))
        raise Lost
    h, l = w >> 16, w & 0xffff
    rn, rd = h & 15, fld(l, 8, 4)
    if h >> 11 == 0x1e and not l >> 15:
        i12 = fld(h, 10, 1) << 11 | fld(l, 12, 3) << 8 | l & 255
        o = fld(h, 5, 4)
        if fld(h, 9, 1):
            # plain immediates
            i16 = rn << 12 | i12
            if fld(h, 4, 5) in (4,):
                return st.w(rd, K(i16))
            if fld(h, 4, 5) == 12:
                return st.w(rd, A(ext(st.r(rd), 16, False, W), K(i16 << 16)))
            if rn == 15:
                raise Lost
            if fld(h, 4, 5) == 0:
                return st.w(rd, A(st.r(rn), K(i12)))
            if fld(h, 4, 5) == 10:
                return st.w(rd, sub(st.r(rn), K(i12), W))
            raise Lost
        y = K(t2imm(i12))
        S = fld(h, 4, 1)
        return t2alu(st, o, S, rn, rd, y)
    if h >> 9 == 0x75:
        k, ty = fld(l, 12, 3) << 2 | fld(l, 6, 2), fld(l, 4, 2)
        x = st.r(l & 15)
        if ty == 0:
            y = shl(x, k, W)
        elif k == 0:
            if ty == 3:
                raise Lost
            y = K(0) if ty == 1 else shr(x, 31, True, W)
        else:
            y = shr(x, k, ty == 2, W) if ty < 3 else ror(x, k, W)
        return t2alu(st, fld(h, 5, 4), fld(h, 4, 1), rn, rd, y)
    if h >> 8 == 0xfa and l >> 12 == 15:
        m = st.r(l & 15)
        if not h & 0x80 and not l & 0xf0:
            v = t2sh(fld(h, 5, 2), st.r(rn), m)
            if fld(h, 4, 1):
                st.d["nzcv"] = ("logic", v, None, W)
            return st.w(rd, v)
        if rn == 15 and l & 0xf0 == 0x80:
            o = h >> 4 & 15
            if o in (0, 1, 4, 5):
                return st.w(rd, ext(m, 16 if o < 2 else 8, not o & 1, W))
        raise Lost
    if h >> 4 == 0xfb0 and l & 0xf0f0 == 0xf000:
        return st.w(rd, mul(st.r(rn), st.r(l & 15), W))
    if h >> 9 == 0x7c:
        if rn == 15:
            raise Lost
        size, L, signed = 1 << fld(h, 5, 2), fld(h, 4, 1), bool(fld(h, 8, 1))
        rt = l >> 12
        base = st.r(rn)
        wb = None
        if size == 8:
            raise Lost
        if fld(h, 7, 1):
            m = A(base, K(l & 0xfff))
        elif l & 0xfc0 == 0:
            m = A(base, shl(st.r(l & 15), fld(l, 4, 2), W))
        elif l & 0x800:
            p, u, q = fld(l, 10, 1), fld(l, 9, 1), fld(l, 8, 1)
            x = A(base, K(l & 255)) if u else sub(base, K(l & 255), W)
            m = x if p else base
            if q:
                wb = x
        else:
            raise Lost
        if L:
            if rt == 15:
                return      # PLD
            if wb is not None and rt == rn:
                raise Lost
            st.load(rt, size, signed, m)
        else:
            st.store(rt, size, m)
        if wb is not None:
            st.w(rn, wb)
        return
    if h >> 9 == 0x74 and h & 0x40:
        # LDRD, STRD
        p, u, q, L = fld(h, 8, 1), fld(h, 7, 1), fld(h, 5, 1), fld(h, 4, 1)
        if not (p or q) or rn == 15:
            raise Lost
        base = st.r(rn)
        x = A(base, K((l & 255) * 4)) if u else sub(base, K((l & 255) * 4), W)
        m = x if p else base
        for r, a in ((l >> 12, m), (rd, A(m, K(4)))):
            if L:
                st.load(r, 4, False, a)
            else:
                st.store(r, 4, a)
        if q:
            st.w(rn, x)
        return
    if h >> 12 == 14:
        return vfp(st, w)
    raise Lost


def t2sh(ty, a, b):
    if a is None or b is None:
        return None
    if not isk(b):
        if ty == 3 or below(b, 5):
            return shv(("<<", ">>", ">>s", "ror")[ty], a, b, 32)
        return sym(("long" + ("<<", ">>", ">>s")[ty], a, reduce(b, 8), 32))
    k = b[0] & 255
    if k == 0:
        return a
    if k >= 32 and ty < 2:
        return con(0, 32)
    return shl(a, k, 32) if ty == 0 else shr(a, k, False, 32) if ty == 1 else shr(a, min(k, 31), True, 32) if ty == 2 else ror(a, k & 31, 32)


def t2alu(st, o, S, rn, rd, y):
    W = 32
    a = st.r(rn)
    inv = lambda v: sub(con(-1, W), v, W)
    if o in (10, 11) and rd != 15:
        return st.w(rd, armadc(st, a, y, W, o == 11, S))
    if S:
        if o in (8, 13, 14):
            st.d["nzcv"] = ("add", a, y, W) if o == 8 else ("sub", a, y, W) if o == 13 else ("sub", y, a, W)
        elif o < 5:
            st.d["nzcv"] = ("logic", {0: lambda: bitop("&", a, y, W), 1: lambda: bitop("&", a, inv(y), W), 4: lambda: bitop("^", a, y, W),
                                      2: lambda: y if rn == 15 else bitop("|", a, y, W), 3: lambda: inv(y) if rn == 15 else bitop("|", a, inv(y), W)}[o](), None, W)
        else:
            raise Lost
    if rd == 15:
        return      # a comparison
    if o in (0, 4):
        return st.w(rd, bitop("&" if o == 0 else "^", a, y, W))
    if o == 1:
        return st.w(rd, bitop("&", a, inv(y), W))
    if o == 2:
        return st.w(rd, y if rn == 15 else bitop("|", a, y, W))
    if o == 3:
        return st.w(rd, inv(y) if rn == 15 else bitop("|", a, inv(y), W))
    if o == 8:
        return st.w(rd, add(a, y, W))
    if o == 13:
        return st.w(rd, sub(a, y, W))
    if o == 14:
        return st.w(rd, sub(y, a, W))
    raise Lost


STEP = {"riscv64": (riscv, 64), "riscv64_c": (riscv, 64), "riscv32_c": (riscv, 32), "riscv64_ext": (riscv, 64), "riscv32": (riscv, 32), "loongarch64": (loongarch, 64), "mips32el": (mips, 32), "mips64el": (mips, 64),
        "ppc64le": (ppc, 64), "ppc32": (ppc, 32), "aarch64": (arm64, 64), "armv7": (arm32, 32), "armv6": (arm32, 32), "armv7_soft": (arm32, 32),
        "armt2": (thumb2, 32)}


def step(arch, items, w, width):
    """the state after an instruction; None if it is not understood"""
    f, W = STEP[arch]
    st = State(items, W)
    if "br" in st.d:
        return items    # the jump itself
    try:
        f(st, w, width)
    except Lost:
        return None
    return st.freeze()
