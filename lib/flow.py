"""Path-sensitive, interprocedural dataflow (property simulation).

A state is (ps, env): `ps` is the client's property state, `env` a map from pure expressions to
abstract values (integer interval + excluded constants).  At every program point states with equal
`ps` are merged (env facts that differ are joined), so branch correlation is kept exactly where it
matters for the property and the exploration stays finite.  Functions are summarised per
(entry ps, constant arguments) and summaries are iterated to a fixpoint.
"""
import heapq
import itertools
from ir import show

INF = None
TOP = (None, None, frozenset())


def const(n):
    return (n, n, frozenset())


NZ = (None, None, frozenset([0]))
ZERO = const(0)


def isconst(v):
    return v[0] is not None and v[0] == v[1]


def norm(v):
    lo, hi, ex = v
    if ex:
        while lo is not None and lo in ex and (hi is None or lo <= hi):
            lo += 1
        while hi is not None and hi in ex and (lo is None or lo <= hi):
            hi -= 1
        ex = frozenset(x for x in ex if (lo is None or x >= lo) and (hi is None or x <= hi))
    if lo is not None and hi is not None and lo > hi:
        return None
    return (lo, hi, ex)


def meet(a, b):
    lo = a[0] if b[0] is None else (b[0] if a[0] is None else max(a[0], b[0]))
    hi = a[1] if b[1] is None else (b[1] if a[1] is None else min(a[1], b[1]))
    return norm((lo, hi, a[2] | b[2]))


def contains(v, n):
    return (v[0] is None or v[0] <= n) and (v[1] is None or v[1] >= n) and n not in v[2]


def join(a, b):
    if a == b:
        return a
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    ex = set()
    for x in a[2]:
        if not contains(b, x):
            ex.add(x)
    for x in b[2]:
        if not contains(a, x):
            ex.add(x)
    if not contains(a, 0) and not contains(b, 0):
        ex.add(0)
    return norm((lo, hi, frozenset(ex))) or TOP


def truth(v):
    if isconst(v):
        return v[0] != 0
    if not contains(v, 0):
        return True
    return None


RANGES = {}
for _b in (8, 16, 32, 64):
    RANGES["u%d" % _b] = (0, 2 ** _b - 1)
    RANGES["s%d" % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)


TABLES = {}     # the constant tables of the present unit: entries known to ev


def use_tables(u):
    t = u.__dict__.get("_tables")
    if t is None:
        t = u._tables = {}
        for n, g in u.globals.items():
            if g["const"] and 0 < g["len"] <= 128 and g.get("init") and g["init"][0] == "il":
                r = [ev(tuples(x), {}) for x in g["init"][1:]]
                if all(isconst(x) for x in r):
                    t[n] = [x[0] for x in r] + [0] * (g["len"] - len(r))
    if TABLES is not t and TABLES != t:
        TABLES.clear()
        TABLES.update(t)


def tuples(x):
    return tuple(tuples(y) for y in x) if isinstance(x, (list, tuple)) else x


def entries(e, env):
    """possible entries of a constant table, None if unknown"""
    t = TABLES[e[1][1]]
    i = ev(e[2], env)
    if isconst(i):
        return [t[i[0]]] if 0 <= i[0] < len(t) else None
    z, o = kb(e[2], env)
    if i[0] is None or i[1] is None or i[0] < 0 or i[1] >= len(t):
        if M64 & ~z >= len(t):
            return None
        i = (0, M64 & ~z, i[2])
    return [t[n] for n in range(i[0], i[1] + 1) if n not in i[2] and not n & z and n & o == o] or None


def wrap(n, ty):
    if ty not in RANGES:
        return n
    lo, hi = RANGES[ty]
    m = hi - lo + 1
    return (n - lo) % m + lo


def binop(op, a, b, ty):
    try:
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        elif op == "/":
            if b == 0: return None
            r = abs(a) // abs(b)
            r = r if (a < 0) == (b < 0) else -r
        elif op == "%":
            if b == 0: return None
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            r = a - q * b
        elif op == "&": r = a & b
        elif op == "|": r = a | b
        elif op == "^": r = a ^ b
        elif op == "<<":
            if b < 0 or b > 64: return None
            r = a << b
        elif op == ">>":
            if b < 0 or b > 64: return None
            r = a >> b
        elif op == "==": return int(a == b)
        elif op == "!=": return int(a != b)
        elif op == "<": return int(a < b)
        elif op == "<=": return int(a <= b)
        elif op == ">": return int(a > b)
        elif op == ">=": return int(a >= b)
        else: return None
    except Exception:
        return None
    return wrap(r, ty)


CMP = ("==", "!=", "<", "<=", ">", ">=")


def cmp_iv(op, a, b):
    """truth of a op b on values, or None"""
    if op == "!=":
        r = cmp_iv("==", a, b)
        return None if r is None else not r
    if op == ">":
        return cmp_iv("<", b, a)
    if op == ">=":
        return cmp_iv("<=", b, a)
    if op == "==":
        if isconst(a) and isconst(b):
            return a[0] == b[0]
        if isconst(a) and not contains(b, a[0]):
            return False
        if isconst(b) and not contains(a, b[0]):
            return False
        if (a[1] is not None and b[0] is not None and a[1] < b[0]) or (b[1] is not None and a[0] is not None and b[1] < a[0]):
            return False
        return None
    if op == "<":
        if a[1] is not None and b[0] is not None and a[1] < b[0]:
            return True
        if a[0] is not None and b[1] is not None and a[0] >= b[1]:
            return False
        return None
    if op == "<=":
        if a[1] is not None and b[0] is not None and a[1] <= b[0]:
            return True
        if a[0] is not None and b[1] is not None and a[0] > b[1]:
            return False
        return None


def ev(e, env):
    """abstract value of a pure expression"""
    k = e[0]
    if k == "i":
        return const(e[1])
    f = env.get(e)
    if k in ("v", "F", "m"):
        if f is None or not isconst(f):
            zo = env.get(("K", e))
            if zo is not None and zo[0] >> 63:
                if zo[0] | zo[1] == M64:
                    return const(zo[1])
                b = (zo[1], M64 & ~zo[0], frozenset())
                return (meet(f, b) or b) if f else b
        return f or TOP
    r = None
    if k == "b":
        a, b = ev(e[2], env), ev(e[3], env)
        op = e[1]
        if op in ("&", "|") and not (isconst(a) and isconst(b)):
            z, o = kb(e, env)
            w = int(e[4][1:]) if e[4] in RANGES else 64
            m = (1 << w) - 1
            if ((z | o) & m) == m:
                r = const(wrap(o & m, e[4]))
                return r if f is None else (meet(f, r) or r)
            if o & m:
                f = NZ if f is None else (meet(f, NZ) or NZ)
            if z >> 63:
                b0 = (o, M64 & ~z, frozenset())
                f = b0 if f is None else (meet(f, b0) or b0)
        if isconst(a) and isconst(b):
            n = binop(op, a[0], b[0], e[4] if op not in CMP else "s64")
            if n is not None:
                r = const(n)
        elif op in CMP:
            if e[4] and e[4][0] == "u" and ((a[0] is not None and a[0] < 0) or (b[0] is not None and b[0] < 0)):
                t = None
            else:
                t = cmp_iv(op, a, b)
            r = (0, 1, frozenset()) if t is None else const(int(t))
        elif op == "&":
            for x, y in ((a, b), (b, a)):
                if isconst(x) and x[0] >= 0:
                    r = (0, x[0], frozenset())
                    if x[0] == 0:
                        r = ZERO
                    if y[0] is not None and y[0] >= 0 and y[1] is not None and y[1] < x[0]:
                        r = (0, y[1], frozenset())
                    break
        elif op == "+" and (isconst(a) or isconst(b)):
            c, x = (a[0], b) if isconst(a) else (b[0], a)
            lo = None if x[0] is None else x[0] + c
            hi = None if x[1] is None else x[1] + c
            if (lo is None or wrap(lo, e[4]) == lo) and (hi is None or wrap(hi, e[4]) == hi) and (lo is not None or hi is not None):
                r = (lo, hi, frozenset())
        elif op == "-" and isconst(b):
            c, x = b[0], a
            lo = None if x[0] is None else x[0] - c
            hi = None if x[1] is None else x[1] - c
            if (lo is None or wrap(lo, e[4]) == lo) and (hi is None or wrap(hi, e[4]) == hi) and (lo is not None or hi is not None):
                r = (lo, hi, frozenset())
        elif op == "|":
            if not contains(a, 0) or not contains(b, 0):
                r = NZ
            if a == ZERO or b == ZERO:
                x = b if a == ZERO else a
                if x[0] is not None and x[0] >= 0:
                    r = x
            elif a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
                hi = None
                if a[1] is not None and b[1] is not None:
                    hi = (1 << max(a[1], b[1]).bit_length()) - 1
                r = norm((max(a[0], b[0]), hi, r[2] if r else frozenset())) or r
        elif op == ">>" and isconst(b) and a[0] is not None and a[0] >= 0 and 0 <= b[0] < 64:
            r = (a[0] >> b[0], None if a[1] is None else a[1] >> b[0], frozenset())
    elif k == "&&":
        a, b = truth(ev(e[1], env)), truth(ev(e[2], env))
        r = const(0) if a is False or b is False else (const(1) if a and b else (0, 1, frozenset()))
    elif k == "||":
        a, b = truth(ev(e[1], env)), truth(ev(e[2], env))
        r = const(1) if a or b else (const(0) if a is False and b is False else (0, 1, frozenset()))
    elif k == "u":
        a = ev(e[2], env)
        if e[1] == "!":
            t = truth(a)
            r = (0, 1, frozenset()) if t is None else const(int(not t))
        elif isconst(a):
            if e[1] == "-":
                r = const(wrap(-a[0], e[3]))
            elif e[1] == "~":
                r = const(wrap(~a[0], e[3]))
            elif e[1] == "+":
                r = a
    elif k == "?":
        t = truth(ev(e[1], env))
        if t is None:
            r = join(ev(e[2], env), ev(e[3], env))
        else:
            r = ev(e[2] if t else e[3], env)
    elif k == "t":
        a = ev(e[2], env)
        if e[1] in RANGES:
            lo, hi = RANGES[e[1]]
            if isconst(a):
                r = const(wrap(a[0], e[1]))
            elif a[0] is not None and a[1] is not None and a[0] >= lo and a[1] <= hi:
                r = a
            elif len(e) > 3 and e[3] in RANGES and RANGES[e[3]][1] - RANGES[e[3]][0] <= hi - lo and not contains(a, 0):
                r = NZ
            elif e[1][0] == "u" and int(e[1][1:]) < 32:
                r = (lo, hi, frozenset())
        else:
            r = a
    elif k == "&":
        r = NZ
    elif k == "p+":
        a = ev(e[1], env)
        b = ev(e[2], env)
        if b == ZERO:
            r = a
        elif not contains(a, 0):
            r = NZ
    elif k in ("s", "f"):
        r = NZ
    elif k == "x" and e[1][0] == "v" and e[1][1] in TABLES:
        for n in entries(e, env) or ():
            r = const(n) if r is None else join(r, const(n))
    if r is None:
        return f or TOP
    if f:
        return meet(f, r) or r
    return r


SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
NEGC = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def refine(env, key, val):
    """env with key additionally constrained to val; None when contradictory"""
    k = key[0]
    if k == "i":
        return env if contains(val, key[1]) else None
    cur = ev(key, env)
    m = meet(cur, val)
    if m is None:
        return None
    if m == cur:
        return env
    env = dict(env)
    env[key] = m
    if k == "b" and key[1] == "&":
        for i, j in ((2, 3), (3, 2)):
            if key[i][0] == "i" and key[i][1] > 0:
                c = key[i][1]
                if isconst(m):
                    env = set_kb(env, key[j], c & ~m[0] & M64, c & m[0] & M64)
                elif not contains(m, 0) and c & (c - 1) == 0:
                    env = set_kb(env, key[j], 0, c)
                if env is None:
                    return None
                break
    if k == "t" and len(key) > 3 and key[1] in RANGES and key[3] in RANGES:
        a, b = RANGES[key[1]], RANGES[key[3]]
        if b[0] >= a[0] and b[1] <= a[1]:
            env = refine(env, key[2], m)
            if env is None:
                return None
        elif key[1][1:] == key[3][1:]:
            # same width, other sign: only exact facts carry over
            if isconst(m):
                env = refine(env, key[2], const(wrap(m[0], key[3])))
            elif not contains(m, 0):
                env = refine(env, key[2], NZ)
            elif m[0] is not None and m[1] is not None and m[0] >= b[0] and m[1] <= b[1] and key[1][0] == "u":
                env = refine(env, key[2], m)
            if env is None:
                return None
    elif k == "t" and m == NZ:
        e2 = refine(env, key[2], NZ)
        if e2 is None:
            return None
        env = e2
    if k == "b" and key[1] == "&" and not contains(m, 0):
        for i, j in ((2, 3), (3, 2)):
            if key[i][0] == "i":
                e2 = refine(env, key[j], NZ)
                if e2 is None:
                    return None
                env = e2
    if k == "b" and key[1] in ("+", "-") and key[3][0] == "i" and isconst(m):
        c = key[3][1] if key[1] == "-" else -key[3][1]
        e2 = refine(env, key[2], const(m[0] + c))
        if e2 is None:
            return None
        env = e2
    # consistency of related masked facts
    if isconst(m) and k in ("v", "F", "m"):
        zo = env.get(("K", key))
        if zo is not None and ((m[0] & zo[0] & M64) or (~m[0] & zo[1] & M64)):
            return None
        for kk, vv in env.items():
            if kk[0] == "b" and kk[1] == "&" and kk[2] == key and kk[3][0] == "i":
                if not contains(vv, m[0] & kk[3][1]):
                    return None
            elif kk[0] == "b" and kk[1] == "&" and kk[3] == key and kk[2][0] == "i":
                if not contains(vv, m[0] & kk[2][1]):
                    return None
    return env


M64 = (1 << 64) - 1


def kb(e, env):
    """known bits of e: (bits known to be 0, bits known to be 1)"""
    k = e[0]
    if k == "i":
        return (~e[1] & M64, e[1] & M64)
    if k in ("v", "F", "m"):
        z, o = env.get(("K", e), (0, 0))
        f = env.get(e)
        if f is not None:
            if isconst(f):
                return (~f[0] & M64, f[0] & M64)
            if f[0] is not None and f[0] >= 0 and f[1] is not None:
                z |= M64 & ~((1 << f[1].bit_length()) - 1)
        return (z, o)
    if k == "t":
        z, o = kb(e[2], env)
        if e[1] in RANGES:
            w = int(e[1][1:])
            m = (1 << w) - 1
            if w < 64:
                hi = M64 & ~m
                if e[1][0] == "u":
                    return ((z & m) | hi, o & m)
                sb = 1 << (w - 1)
                if z & sb:
                    return ((z & m) | hi, o & m)
                if o & sb:
                    return (z & m, (o & m) | hi)
                return (z & m, o & m)
            # widening to 64 bits
            if len(e) > 3 and e[3] in RANGES and int(e[3][1:]) < 64:
                return (z, o)
        return (z, o)
    if k == "b":
        op = e[1]
        if op in CMP:
            return (M64 & ~1, 0)
        if op in ("&", "|", "^"):
            (z1, o1), (z2, o2) = kb(e[2], env), kb(e[3], env)
            if op == "&":
                return (z1 | z2, o1 & o2)
            if op == "|":
                return (z1 & z2, o1 | o2)
            return ((z1 & z2) | (o1 & o2), (z1 & o2) | (o1 & z2))
        if op in ("<<", ">>") and e[3][0] == "i" and 0 <= e[3][1] < 64:
            z, o = kb(e[2], env)
            n = e[3][1]
            if e[4] in ("u8", "u16", "u32"):
                # unsigned values do not have bits outside of their type
                m = (1 << int(e[4][1:])) - 1
                if op == "<<":
                    return ((((z << n) | ((1 << n) - 1)) & m) | (M64 & ~m), (o << n) & m)
                return (((z & m) >> n) | (M64 & ~(m >> n)), (o & m) >> n)
            if op == "<<":
                return (((z << n) | ((1 << n) - 1)) & M64, (o << n) & M64)
            if z >> 63 or (e[4] and e[4][0] == "u"):
                return ((z >> n) | (M64 & ~(M64 >> n)), o >> n)
        return (0, 0)
    if k == "u" and e[1] == "~":
        z, o = kb(e[2], env)
        return (o, z)
    if k == "u" and e[1] == "!":
        return (M64 & ~1, 0)
    if k in ("&&", "||"):
        return (M64 & ~1, 0)
    if k == "x" and e[1][0] == "v" and e[1][1] in TABLES:
        z, o = M64, M64
        for n in entries(e, env) or (0, -1):
            z &= ~n
            o &= n
        return (z & M64, o & M64)
    if k == "?":
        c = truth(ev(e[1], env))
        if c is not None:
            return kb(e[2] if c else e[3], env)
        (z1, o1), (z2, o2) = kb(e[2], env), kb(e[3], env)
        return (z1 & z2, o1 & o2)
    return (0, 0)


def set_kb(env, x, z, o):
    """env with more known bits for x, None if contradictory"""
    while x[0] == "t" and x[1] in RANGES and ((z | o) >> int(x[1][1:])) == 0 and len(x) > 3 and x[3] in RANGES \
            and int(x[3][1:]) >= (z | o).bit_length():
        x = x[2]
    if x[0] not in ("v", "F", "m"):
        return env
    z0, o0 = kb(x, env)
    z |= z0
    o |= o0
    if z & o:
        return None
    if (z, o) == (z0, o0):
        return env
    env = dict(env)
    env[("K", x)] = (z, o)
    return env


def assume(e, t, env):
    k = e[0]
    v = ev(e, env)
    tv = truth(v)
    if tv is not None and tv != t:
        return None
    if k == "u" and e[1] == "!":
        return assume(e[2], not t, env)
    if k == "&&":
        if t:
            env = assume(e[1], True, env)
            return None if env is None else assume(e[2], True, env)
        if truth(ev(e[1], env)):
            return assume(e[2], False, env)
        if truth(ev(e[2], env)):
            return assume(e[1], False, env)
        return env
    if k == "||":
        if not t:
            env = assume(e[1], False, env)
            return None if env is None else assume(e[2], False, env)
        if truth(ev(e[1], env)) is False:
            return assume(e[2], True, env)
        if truth(ev(e[2], env)) is False:
            return assume(e[1], True, env)
        return env
    if k == "t" and tv is None and e[2][0] in ("&&", "||", "u", "b"):
        r = assume(e[2], t, env)
        if r is None:
            return None
        env = r
    if k == "b" and e[1] in CMP:
        op = e[1] if t else NEGC[e[1]]
        a, b = ev(e[2], env), ev(e[3], env)
        for x, y, o, other in ((e[2], b, op, a), (e[3], a, SWAP[op], b)):
            if x[0] == "i":
                continue
            val = None
            uns = e[4] and e[4][0] == "u"
            if o == "==":
                val = y
            elif o == "!=" and isconst(y):
                val = (None, None, frozenset([y[0]]))
            elif o == "<" and y[1] is not None:
                val = (0 if uns else None, y[1] - 1, frozenset())
            elif o == "<=" and y[1] is not None:
                val = (0 if uns else None, y[1], frozenset())
            elif o == ">" and y[0] is not None:
                val = (y[0] + 1, None, frozenset())
            elif o == ">=" and y[0] is not None:
                val = (y[0], None, frozenset())
            if val is not None and val != TOP:
                env = refine(env, x, val)
                if env is None:
                    return None
        if e[1] == "==" and not isconst(b) and not isconst(a):
            env = refine(env, e, NZ if t else ZERO)
        elif not isconst(a) and not isconst(b):
            env = refine(env, e, NZ if t else ZERO)
        return env
    return refine(env, e, NZ if t else ZERO)


# ---------------------------------------------------------------------------
_mcache = {}


def mentions(e):
    """frozenset of places an expression depends on: ('v',x) ('F',f) ('m',rec,field) 'mem'"""
    r = _mcache.get(e)
    if r is not None:
        return r
    s = set()

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        k = x[0]
        if k == "v":
            s.add(("v", x[1]))
        elif k == "F":
            s.add(x)
        elif k == "m":
            s.add(("m", x[3], x[2]))
            go(x[1])
        elif k == "x" and x[4] == "a":
            go(x[1])
            go(x[2])
        elif k in ("x", "*"):
            s.add("mem")
            if k == "*" and x[1][0] == "v":
                s.add(("*", x[1][1]))
            for y in x[1:]:
                go(y)
        elif k == "s":
            pass
        else:
            for y in x[1:]:
                go(y)
    go(e)
    r = frozenset(s)
    _mcache[e] = r
    return r


def place(lv):
    """what a store to lv modifies"""
    k = lv[0]
    if k == "v":
        return ("v", lv[1])
    if k == "F":
        return lv
    if k == "m":
        return ("m", lv[3], lv[2])
    if k == "t":
        return place(lv[2])
    if k == "x" and lv[4] == "a":
        return place(lv[1])
    return "mem"


def kill(env, places):
    if not places:
        return env
    out = None
    for k in env:
        m = mentions(k) & places
        if m:
            if len(m) == 1 and "mem" in m and k[0] == "*" and ("L", k[1]) in env:
                continue        # target is a local of the caller that only this parameter refers to
            if out is None:
                out = dict(env)
            del out[k]
    return env if out is None else out


def merge(a, b, widen):
    out = {}
    # bits known on both sides, also where one or both sides know the exact value
    for x in {k[1] if k[0] == "K" else k for e in (a, b) for k, v in e.items()
              if k[0] == "K" or (k[0] in ("v", "F", "m") and isconst(v))}:
        va = a.get(x)
        if va is not None and isconst(va) and va == b.get(x):
            continue
        z1, o1 = kb(x, a)
        if not (z1 | o1):
            continue
        z2, o2 = kb(x, b)
        z1 &= z2
        o1 &= o2
        if z1 or o1:
            out[("K", x)] = (z1, o1)
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        if k[0] == "K":
            continue
        if v != w:
            j = join(v, w)
            if widen:
                j = (j[0] if j[0] == v[0] else None, j[1] if j[1] == v[1] else None, j[2])
            if j == TOP:
                continue
            v = j
        out[k] = v
    return out


COMPILER = "sljit_compiler"
PSIZE = {"int *": (4,), "unsigned int *": (4,), "long *": (4, 8), "unsigned long *": (4, 8), "long long *": (8,), "unsigned long long *": (8,)}


class Client:
    """Override the hooks.  `ps` values must be hashable."""
    inter = True            # descend into callees with a body
    refine_args = False     # what an outcome of a callee says about its parameters holds for the arguments
    max_ctx = 48

    def entry_env(self, fn, ps):
        return {}

    def on_set(self, an, fn, n, ps, env):
        """-> ps, or list of ps; None = path ends"""
        return ps

    def on_call(self, an, fn, n, ps, env):
        """-> None for default handling, or list of (ps, retval, env)"""
        return None

    def on_ret(self, an, fn, n, ps, env):
        """-> (ps, retval) recorded as outcome"""
        return ps

    def on_edge(self, an, fn, n, ps, env, edge, env2):
        return ps

    def on_asm(self, n, env):
        """value of the output of inline assembly, if known"""
        return None

    def call_ps(self, an, fn, n, ps, env):
        return ps

    def ret_ps(self, an, fn, n, ps_before, ps_after, env):
        return ps_after

    def ret_val(self, an, fn, n, ps, rv, several):
        """property state after a call which returned rv; several: other values are possible with the same state"""
        return ps

    def ps_facts(self, ps):
        """facts implied by the property state (re-established after calls)"""
        return None

    def skip_call(self, name):
        return False

    def param_facts(self, an, fn, callee, args, env):
        """values passed to the callee as facts"""
        r = []
        for p, a in zip(callee.params, args):
            v = ev(a, env)
            if isconst(v) and callee.ptypes.get(p) in ("int", "unsigned int"):
                r.append((("v", p), v))
        return r

    def param_bits(self, callee, args, env, mask=M64, direct=False):
        """known bits of integer arguments; direct: only those the argument expression itself sets"""
        r = []
        for p, a in zip(callee.params, args):
            if callee.ptypes.get(p) in ("int", "unsigned int", "unsigned long", "long") and a[0] not in ("i",):
                z, o = kb(a, env)
                z, o = z & mask, o & mask
                if direct:
                    o |= kb(a, {})[1] & 0xffffffff
                if z or o:
                    r.append((("K", ("v", p)), (z, o)))
        return r

    def param_ranges(self, callee, args, env):
        """intervals of integer arguments, and of their masked parts"""
        r = []
        for p, a in zip(callee.params, args):
            ty = callee.ptypes.get(p)
            if ty not in ("int", "unsigned int"):
                continue
            v = ev(a, env)
            if v != TOP and not (v[0] in (None, 0) and v[1] is None and not v[2]):
                r.append((("v", p), v))
            x, c = a, 0
            if a[0] == "b" and a[1] == "|":
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    if y[0] == "i":
                        c = y[1]
                        break
            if x[0] == "v":
                for kk, vv in env.items():
                    if kk[0] == "b" and kk[1] == "&" and kk[2] == x and kk[3][0] == "i" and not kk[3][1] & c:
                        r.append((("b", "&", ("v", p), kk[3], kk[4]), vv))
        return r

    def mem_facts(self, an, env):
        """compiler-field facts carried into callees"""
        return []


def components(nodes, succ, entry):
    """strongly connected components in topological order (Tarjan, iterative)"""
    index, low, on, st, out = {}, {}, set(), [], []
    for root in [entry] + [n for n in nodes if n != entry]:
        if root in index:
            continue
        index[root] = low[root] = len(index)
        st.append(root)
        on.add(root)
        work = [(root, iter(succ(root)))]
        while work:
            n, it = work[-1]
            for t in it:
                if t not in nodes:
                    continue
                if t not in index:
                    index[t] = low[t] = len(index)
                    st.append(t)
                    on.add(t)
                    work.append((t, iter(succ(t))))
                    break
                if t in on:
                    low[n] = min(low[n], index[t])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == index[n]:
                    c = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        c.append(x)
                        if x == n:
                            break
                    out.append(c)
    return out[::-1]


def wto(cfg):
    """node -> position in a weak topological order: a loop is finished before anything behind it is looked at"""
    succ = lambda n: [t for t, _ in cfg.nodes[n].succ]
    reach, todo = {cfg.entry}, [cfg.entry]
    while todo:
        for t in succ(todo.pop()):
            if t not in reach:
                reach.add(t)
                todo.append(t)
    pred = {}
    for n in reach:
        for t in succ(n):
            pred.setdefault(t, []).append(n)
    out = {}

    def place_(nodes, entry):
        for c in components(nodes, succ, entry):
            if len(c) == 1:
                out[c[0]] = len(out)
                continue
            cs = set(c)
            heads = [n for n in c if n == entry or any(p not in cs for p in pred.get(n, ()))]
            h = min(heads)
            out[h] = len(out)
            rest = cs - {h}
            first = [t for t in succ(h) if t in rest]
            place_(rest, first[0] if first else min(rest))

    place_(reach, cfg.entry)
    return out


class Analysis:
    def __init__(self, unit, client):
        self.unit, self.client = unit, client
        use_tables(unit)
        self.memo = {}
        self.stack = []
        self.ctx = {}
        self.visited = set()
        self.mods = None
        self.done, self.hit, self.order = set(), set(), []
        self.steps = 0
        self.fn_seen = set()
        self.refs = {}          # key -> (ps, constant result) -> {parameter: value}
        self.outs = {}          # key -> ps -> {pointer parameter: value of its target at every return}

    # ---- mod summaries
    def modset(self, name):
        if self.mods is None:
            self._build_mods()
        return self.mods.get(name)

    def _build_mods(self):
        u = self.unit
        if getattr(u, "_mods", None) is not None:
            self.mods = u._mods
            return
        direct, calls = {}, {}
        for f in u.funcs.values():
            d, c = set(), set()
            for n in f.cfg.nodes:
                if n.k == "set":
                    p = place(n.a)
                    if not (p != "mem" and p[0] == "v" and not p[1].startswith("::")):
                        d.add(p)
                elif n.k == "call":
                    if isinstance(n.b, str):
                        c.add(n.b)
                    else:
                        d.add("mem")
                    for a in n.c:
                        if a[0] == "&":
                            pl = place(a[1])
                            if pl != "mem" and pl[0] != "v":
                                d.add(pl)
            direct[f.name], calls[f.name] = d, c
        ch = True
        while ch:
            ch = False
            for f in direct:
                for g in calls[f]:
                    if g in direct and not direct[g] <= direct[f]:
                        direct[f] |= direct[g]
                        ch = True
                    elif g not in direct and "mem" not in direct[f] and g in ("memcpy", "memmove", "memset", "__builtin_memcpy"):
                        direct[f].add("mem")
                        ch = True
        self.mods = {k: frozenset(v) for k, v in direct.items()}
        u._mods = self.mods

    def call_kills(self, n):
        ks = set()
        if isinstance(n.b, str):
            m = self.modset(n.b)
            if m:
                ks |= m
            elif m is None and n.b in ("memcpy", "memmove", "memset", "__builtin_memcpy"):
                ks.add("mem")
        else:
            ks.add("mem")
        for a in n.c:
            if a[0] == "v":
                ks.add(("*", a[1]))
            if a[0] == "&":
                ks.add(place(a[1]))
                if place(a[1]) == "mem":
                    ks.add("mem")
        return ks

    # ---- driver
    def run(self, name, ps, facts=()):
        """outcomes of function `name` from property state ps"""
        return self.summary((name, ps, tuple(sorted(facts, key=repr))))

    def summary(self, key):
        if key in self.done:
            return self.memo[key]
        if key in self.stack:
            self.hit.add(key)
            return self.memo.get(key, frozenset())
        while True:
            mark = len(self.order)
            self.hit.discard(key)
            self.stack.append(key)
            old = self.memo.get(key, frozenset())
            res = self.analyse(key) | old
            self.stack.pop()
            self.memo[key] = res
            if key in self.hit and res != old:
                # recursive: recompute everything that may have used the incomplete summary
                for k in self.order[mark:]:
                    self.done.discard(k)
                del self.order[mark:]
                continue
            break
        self.hit.discard(key)
        self.done.add(key)
        self.order.append(key)
        return res

    def callee(self, fn, n, ps, env):
        """default interprocedural handling -> list of (ps', retval)"""
        g = self.unit.funcs[n.b]
        facts = self.client.param_facts(self, fn, g, n.c, env) + self.client.mem_facts(self, env)
        back = []
        for p, a in zip(g.params, n.c):
            if a[0] == "&" and a[1][0] == "v" and not a[1][1].startswith("::"):
                v = ev(a[1], env)
                if isconst(v):
                    for sz in PSIZE.get(g.ptypes.get(p), ()):
                        facts.append((("*", ("v", p), sz), v))
                facts.append((("L", ("v", p)), const(1)))
                back.append((a[1], p))
        cps = self.client.call_ps(self, fn, n, ps, env)
        key = (n.b, cps, tuple(sorted(facts, key=repr)))
        c = self.ctx.setdefault(n.b, set())
        if key not in c:
            if len(c) >= self.client.max_ctx:
                key = (n.b, cps, tuple(sorted(self.client.mem_facts(self, env), key=repr)))
            c.add(key)
        res = []
        sm = self.summary(key)
        states = [p for p, _ in sm]
        refs = self.refs.get(key, {}) if self.client.refine_args else {}
        for p2, rv in sm:
            e2 = None
            rf = refs.get((p2, rv if isconst(rv) else None))
            if rf:
                e2 = env
                for p, a in zip(g.params, n.c):
                    if p in rf and a[0] == "v":
                        e2 = refine(e2, a, rf[p])
                        if e2 is None:
                            break
                if e2 is None:
                    continue
                e2 = kill(e2, frozenset(self.call_kills(n) | ({("v", n.a)} if n.a else set())))
                if n.a and "%ret" in rf:
                    e2 = dict(e2)
                    e2[("K", ("v", n.a))] = rf["%ret"]
            o = self.outs.get(key, {}).get(p2) if back else None
            if o:
                if e2 is None:
                    e2 = kill(env, frozenset(self.call_kills(n) | ({("v", n.a)} if n.a else set())))
                for lv, p in back:
                    if p in o:
                        e2 = dict(e2)
                        e2[lv] = o[p]
            q = self.client.ret_val(self, fn, n, self.client.ret_ps(self, fn, n, ps, p2, env), rv, states.count(p2) > 1)
            res.append((q, rv, e2))
        return res

    def analyse(self, key):
        name, ps0, facts = key
        fn = self.unit.funcs[name]
        self.fn_seen.add(name)
        cl = self.client
        cfg = fn.cfg
        env0 = dict(cl.entry_env(fn, ps0))
        for k, v in facts:
            env0[k] = v
        table = [None] * len(cfg.nodes)
        cnt = {}
        out = {}
        outs = self.outs[key] = {}
        refs = self.refs[key] = {}
        work = []
        order = fn.__dict__.get("_wto")
        if order is None:
            order = fn._wto = wto(cfg)
        pending = set()
        seq = itertools.count()

        def queue(nid, ps):
            # in topological order as far as there are no loops
            if (nid, ps) not in pending:
                pending.add((nid, ps))
                heapq.heappush(work, (order[nid], next(seq), nid, ps))

        def push(nid, ps, env):
            tb = table[nid]
            if tb is None:
                tb = table[nid] = {}
            cur = tb.get(ps)
            if cur is None:
                tb[ps] = env
                queue(nid, ps)
                return
            if cur is env:
                return
            c = cnt[(nid, ps)] = cnt.get((nid, ps), 0) + 1
            m = merge(cur, env, c > 6)
            if m != cur:
                tb[ps] = m
                queue(nid, ps)

        push(cfg.entry, ps0, env0)
        while work:
            _, _, nid, ps = heapq.heappop(work)
            pending.discard((nid, ps))
            env = table[nid][ps]
            n = cfg.nodes[nid]
            self.steps += 1
            k = n.k
            if k == "set":
                r = cl.on_set(self, fn, n, ps, env)
                if r is None:
                    continue
                pss = r if isinstance(r, list) else [r]
                v = ev(n.b, env)
                e2 = kill(env, frozenset([place(n.a)] + ([("*", n.a[1][1])] if n.a[0] == "*" and n.a[1][0] == "v" else [])))
                if n.a[0] in ("v", "F", "m"):
                    zo = kb(n.b, env)
                    if zo != (0, 0) and not isconst(v):
                        e2 = dict(e2)
                        e2[("K", n.a)] = zo
                    if n.b[0] in ("v", "F", "m") and place(n.a) not in mentions(n.b):
                        add = {}
                        for kk, vv in env.items():
                            if kk[0] == "b" and kk[1] == "&" and kk[2] == n.b and kk[3][0] == "i":
                                add[("b", "&", n.a, kk[3], kk[4])] = vv
                        if add:
                            e2 = dict(e2)
                            e2.update(add)
                if v != TOP and n.a[0] == "*" and n.a[1][0] == "v" and n.a[1][1] in fn.ptypes:
                    e2 = dict(e2)
                    e2[n.a] = v
                elif v != TOP and n.a[0] in ("v", "F", "m"):
                    if not (mentions(n.a) - {place(n.a)}) or place(n.a) not in mentions(n.a[1] if n.a[0] == "m" else ("i", 0)):
                        e2 = dict(e2)
                        e2[n.a] = v
                for p in pss:
                    for t, _ in n.succ:
                        push(t, p, e2)
            elif k == "call":
                if n.b == "vp_assert":
                    e2 = assume(n.c[0], True, env)
                    if e2 is None:
                        continue
                    r = cl.on_call(self, fn, n, ps, env)
                    if r == []:
                        continue
                    for t, _ in n.succ:
                        push(t, ps, e2)
                    continue
                r = cl.on_call(self, fn, n, ps, env)
                fresh = False
                if r is None:
                    if isinstance(n.b, str) and cl.inter and n.b in self.unit.funcs and not cl.skip_call(n.b):
                        r = self.callee(fn, n, ps, env)
                        fresh = True
                    else:
                        r = [(ps, TOP, None)]
                ks = None
                for item in r:
                    p, rv, e2 = item
                    if e2 is None:
                        if ks is None:
                            ks = frozenset(self.call_kills(n) | ({("v", n.a)} if n.a else set()))
                        e2 = kill(env, ks)
                    elif n.a and not fresh:
                        e2 = kill(e2, frozenset([("v", n.a)]))
                    if n.a and rv is not None and rv != TOP:
                        e2 = dict(e2)
                        e2[("v", n.a)] = rv
                    pf = cl.ps_facts(p)
                    if pf:
                        e2 = dict(e2)
                        e2.update(pf)
                    for t, _ in n.succ:
                        push(t, p, e2)
            elif k == "br":
                for t, edge in n.succ:
                    e2 = assume(n.a, edge == "T", env)
                    if e2 is None:
                        continue
                    p = cl.on_edge(self, fn, n, ps, env, edge, e2)
                    if p is None:
                        continue
                    push(t, p, e2)
            elif k == "sw":
                v = ev(n.a, env)
                for t, edge in n.succ:
                    if edge[0] == "case":
                        e2 = refine(env, n.a, (edge[1], edge[2], frozenset()))
                    else:
                        exs = set()
                        for lo, hi in edge[1]:
                            if hi - lo < 64:
                                exs.update(range(lo, hi + 1))
                        if isconst(v) and any(lo <= v[0] <= hi for lo, hi in edge[1]):
                            continue
                        e2 = refine(env, n.a, (None, None, frozenset(exs)))
                    if e2 is None:
                        continue
                    p = cl.on_edge(self, fn, n, ps, env, edge, e2)
                    if p is None:
                        continue
                    push(t, p, e2)
            elif k == "ret":
                r = cl.on_ret(self, fn, n, ps, env)
                od = {kk[1][1]: vv for kk, vv in env.items()
                      if kk[0] == "*" and kk[1][0] == "v" and kk[1][1] in fn.const_params}
                for p in ([x for x, _ in r] if isinstance(r, list) else [r]):
                    if p in outs:
                        o = outs[p]
                        outs[p] = {q: join(o[q], od[q]) for q in o if q in od}
                    else:
                        outs[p] = od
                rv = ev(n.a, env) if n.a is not None else TOP
                if cl.refine_args:
                    rd = {}
                    for q in fn.const_params:
                        v = env.get(("v", q))
                        if v is not None and v != env0.get(("v", q)):
                            rd[q] = v
                    if n.a is not None and not isconst(rv):
                        zo = kb(n.a, env)
                        if zo != (0, 0):
                            rd["%ret"] = zo
                    for p, v in (r if isinstance(r, list) else [(r, rv)]):
                        key2 = (p, v) if isconst(v) else (p, None)
                        o = refs.get(key2)
                        refs[key2] = rd if o is None else {q: (o[q][0] & rd[q][0], o[q][1] & rd[q][1]) if q == "%ret" else join(o[q], rd[q])
                                                           for q in o if q in rd}
                if isinstance(r, list):
                    for p, v in r:
                        out.setdefault(p, set()).add(v)
                elif r is not None:
                    out.setdefault(r, set()).add(rv)
            else:
                if k == "decl":
                    env = kill(env, frozenset([("v", n.a)]))
                elif k == "asm":
                    r = cl.on_asm(n, env)
                    env = kill(env, frozenset([place(x) for x in n.b]) | {"mem"})
                    if r is not None:
                        env = dict(env)
                        env[n.b[0]] = r
                for t, _ in n.succ:
                    push(t, ps, env)
        res = set()
        for p, vs in out.items():
            # keep zero / constants / rest apart
            z, cs, rest = None, set(), None
            for v in vs:
                if isconst(v):
                    cs.add(v)
                else:
                    rest = v if rest is None else join(rest, v)
            if len(cs) > 12:
                refs.pop((p, None), None)
                nzc = [c for c in cs if c != ZERO]
                j = nzc[0]
                for c in nzc[1:]:
                    j = join(j, c)
                rest = j if rest is None else join(rest, j)
                cs = {c for c in cs if c == ZERO}
            for c in cs:
                res.add((p, c))
            if rest is not None:
                res.add((p, rest))
        return frozenset(res)
