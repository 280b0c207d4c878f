"""Lowering of the extracted statement trees to per-function control-flow graphs of simple nodes.

Node kinds:
  set   lv rv        assignment (both pure expressions)
  call  dst fn args  fn = function name or ("expr", e); dst = temp variable name or None
  br    cond         two successors, edges "T"/"F"
  sw    e            successors with edges ("case", lo, hi) / ("default", [(lo,hi)..])
  ret   e
  nop
"""
import sys
sys.setrecursionlimit(20000)


class Node:
    __slots__ = ("id", "k", "line", "a", "b", "c", "succ", "uid")

    def __init__(self, id, k, line, a=None, b=None, c=None):
        self.id, self.k, self.line, self.a, self.b, self.c = id, k, line, a, b, c
        self.succ = []

    def __repr__(self):
        return "%d:%s %s %s %s -> %s" % (self.id, self.k, show(self.a) if isinstance(self.a, (list, tuple)) else self.a,
                                         show(self.b) if isinstance(self.b, (list, tuple)) else self.b, self.c, self.succ)


def canon(t):
    """compiler->field becomes ("F", field): the library works on one compiler object at a time"""
    if t[0] == "m" and t[3] == "sljit_compiler":
        return ("F", t[2])
    if t[0] == "*" and isinstance(t[1], tuple) and t[1][0] == "&" and not (len(t[1]) > 2):
        return t[1][1]
    return t


def T(e):
    """hashable form of an expression"""
    if isinstance(e, (list, tuple)):
        t = tuple(T(x) for x in e)
        return canon(t) if t else t
    return e


def show(e):
    if e is None:
        return ""
    if not isinstance(e, (list, tuple)):
        return str(e)
    k = e[0]
    if k == "i":
        return str(e[1]) if abs(e[1]) < 4096 else hex(e[1])
    if k == "s":
        return '"%s"' % e[1][:20]
    if k in ("v", "f"):
        return e[1].lstrip(":")
    if k == "F":
        return "compiler->" + e[1]
    if k == "m":
        if e[1][0] == "*":
            return show(e[1][1]) + "->" + e[2]
        return show(e[1]) + "." + e[2]
    if k == "x":
        return "%s[%s]" % (show(e[1]), show(e[2]))
    if k == "*":
        return "*" + show(e[1])
    if k == "&":
        return "&" + show(e[1])
    if k == "u":
        return e[1] + show(e[2])
    if k == "b":
        return "(%s %s %s)" % (show(e[2]), e[1], show(e[3]))
    if k in ("&&", "||"):
        return "(%s %s %s)" % (show(e[1]), k, show(e[2]))
    if k == "?":
        return "(%s ? %s : %s)" % tuple(show(x) for x in e[1:4])
    if k == "t":
        return show(e[2])
    if k == "p+":
        return "(%s + %s)" % (show(e[1]), show(e[2]))
    if k == "p-":
        return "(%s - %s)" % (show(e[1]), show(e[2]))
    return str(e)


def has_side(e):
    if not isinstance(e, list):
        return False
    if not e:
        return False
    if e[0] in ("c", "=", "op=", "++", "stmtexpr"):
        return True
    if e[0] == "s":
        return False
    return any(has_side(x) for x in e[1:])


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


class Func:
    def __init__(self, raw, unit):
        self.name, self.line, self.static, self.ret, self.retc = raw["name"], raw["line"], raw["static"], raw["ret"], raw["retc"]
        self.params = [p[0] for p in raw["params"]]
        self.ptypes = {p[0]: p[1] for p in raw["params"]}
        self.ltypes = {l[0]: l[1] for l in raw["locals"]}
        self.body = raw["body"]
        self.unit = unit
        self._cfg = None
        self._cp = None

    def type_of(self, v):
        return self.ptypes.get(v) or self.ltypes.get(v)

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Lower(self).run()
        return self._cfg

    @property
    def const_params(self):
        """parameters never assigned in the body"""
        if self._cp is None:
            w = set()
            for n in self.cfg.nodes:
                if n.k == "set" and n.a[0] == "v":
                    w.add(n.a[1])
                elif n.k == "call":
                    w.update(a[1][1] for a in n.c if a[0] == "&" and a[1][0] == "v")
                elif n.k == "asm":
                    w.update(x[1] for x in n.b if x[0] == "v")
            self._cp = frozenset(self.params) - w
        return self._cp

    def where(self, line=None):
        return self.unit.loc(line if line is not None else self.line)


class Cfg:
    def __init__(self, nodes, entry):
        self.nodes, self.entry = nodes, entry
        self._preds = None

    @property
    def preds(self):
        if self._preds is None:
            self._preds = {n.id: [] for n in self.nodes}
            for n in self.nodes:
                for t, e in n.succ:
                    self._preds[t].append((n.id, e))
        return self._preds


class Lower:
    def __init__(self, fn):
        self.fn = fn
        self.nodes = []
        self.tmp = 0
        self.cur = None       # list of dangling (node, edge) to be patched
        self.brk, self.cont, self.sw = [], [], []
        self.labels, self.gotos = {}, []
        self.line = fn.line

    def new(self, k, line=None, a=None, b=None, c=None):
        n = Node(len(self.nodes), k, line or self.line, a, b, c)
        self.nodes.append(n)
        for (p, e) in self.cur:
            p.succ.append((n.id, e))
        self.cur = [(n, None)]
        return n

    def t(self):
        self.tmp += 1
        return "%%%d" % self.tmp

    def run(self):
        self.cur = []
        entry = self.new("nop")
        self.stmt(self.fn.body)
        if self.cur:
            end = self.fn.body[3] if self.fn.body and self.fn.body[0] == "blk" else self.line
            self.new("ret", end, None)
            self.cur = []
        for n, name in self.gotos:
            if name in self.labels:
                n.succ.append((self.labels[name].id, None))
        # prune unreachable
        seen, st = set(), [entry.id]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(t for t, _ in self.nodes[x].succ)
        keep = [n for n in self.nodes if n.id in seen]
        remap = {n.id: i for i, n in enumerate(keep)}
        for n in keep:
            n.id = remap[n.id]
            n.succ = [(remap[t], e) for t, e in n.succ]
        return Cfg(keep, 0)

    # ---- expressions: returns pure expr (tuple), emitting nodes for side effects
    def ex(self, e):
        if e is None or not isinstance(e, list):
            return e
        if not has_side(e):
            return T(e)
        k = e[0]
        if k == "c":
            callee = e[1]
            # evaluate args in order
            args = [self.ex(a) for a in e[2]]
            args = [self.stable(a, e[2], i) for i, a in enumerate(args)]
            fn = callee[1] if callee[0] == "f" else ("expr", self.ex(callee))
            dst = None if e[4] == "void" else self.t()
            self.new("call", e[3], dst, fn, tuple(args))
            return ("v", dst) if dst else ("i", 0)
        if k == "=":
            lv = self.lval(e[1])
            rv = self.ex(e[2])
            self.new("set", e[3], lv, self.castto(e[4], rv))
            return lv
        if k == "op=":
            lv = self.lval(e[2])
            rv = self.ex(e[3])
            if e[4]:
                if e[1] == "-":
                    rv = ("u", "-", rv, "s64")
                r = ("p+", lv, rv, e[4])
            else:
                r = ("b", e[1], lv, rv, e[5])
            self.new("set", e[6], lv, r)
            return lv
        if k == "++":
            lv = self.lval(e[1])
            if e[4]:
                r = ("p+", lv, ("i", e[3]), e[4])
            else:
                r = ("b", "+", lv, ("i", e[3]), e[5])
            if e[2] == "post":
                t = self.t()
                self.new("set", None, ("v", t), lv)
                self.new("set", None, lv, r)
                return ("v", t)
            self.new("set", None, lv, r)
            return lv
        if k in ("&&", "||", "?"):
            t = self.t()
            if k == "?":
                tr, fa = self.cond(e[1])
                self.cur = tr
                v = self.ex(e[2])
                self.new("set", None, ("v", t), v)
                end = self.cur
                self.cur = fa
                v = self.ex(e[3])
                self.new("set", None, ("v", t), v)
                self.cur = self.cur + end
                return ("v", t)
            tr, fa = self.cond(e)
            self.cur = tr
            self.new("set", None, ("v", t), ("i", 1))
            end = self.cur
            self.cur = fa
            self.new("set", None, ("v", t), ("i", 0))
            self.cur = self.cur + end
            return ("v", t)
        if k == ",":
            self.ex(e[1])
            return self.ex(e[2])
        if k == "stmtexpr":
            self.stmt(e[1])
            return ("unk", "stmtexpr")
        return canon(tuple([k] + [self.ex(x) if isinstance(x, list) else x for x in e[1:]]))

    def castto(self, ty, rv):
        return rv

    def stable(self, a, raw, i):
        # an earlier argument mentioning a variable that a later argument modifies does not occur
        return a

    def lval(self, e):
        return self.ex(e)

    # ---- conditions: returns (true dangling, false dangling)
    def cond(self, e):
        k = e[0]
        if k == "i":
            n = self.new("nop")
            return ([(n, None)], []) if e[1] else ([], [(n, None)])
        if k == "u" and e[1] == "!":
            t, f = self.cond(e[2])
            return f, t
        if k == "&&":
            t, f = self.cond(e[1])
            self.cur = t
            if not t:
                return [], f
            t2, f2 = self.cond(e[2])
            return t2, f + f2
        if k == "||":
            t, f = self.cond(e[1])
            self.cur = f
            if not f:
                return t, []
            t2, f2 = self.cond(e[2])
            return t + t2, f2
        if k == ",":
            self.ex(e[1])
            return self.cond(e[2])
        if k == "?":
            t, f = self.cond(e[1])
            rt, rf = [], []
            if t:
                self.cur = t
                a, b = self.cond(e[2])
                rt += a
                rf += b
            if f:
                self.cur = f
                a, b = self.cond(e[3])
                rt += a
                rf += b
            return rt, rf
        if k == "t":
            if e[2][0] in ("&&", "||") or (e[2][0] == "u" and e[2][1] == "!"):
                return self.cond(e[2])
        if k == "b" and e[1] in ("==", "!=") and e[3] == ["i", 0] and e[2][0] in ("b", "&&", "||", "u", "t"):
            x = e[2]
            while x[0] == "t":
                x = x[2]
            if (x[0] == "b" and x[1] in NEG) or x[0] in ("&&", "||") or (x[0] == "u" and x[1] == "!"):
                t, f = self.cond(x)
                return (f, t) if e[1] == "==" else (t, f)
        p = self.ex(e)
        if p[0] == "i":
            n = self.new("nop")
            return ([(n, None)], []) if p[1] else ([], [(n, None)])
        n = self.new("br", None, p)
        self.cur = []
        return [(n, "T")], [(n, "F")]

    # ---- statements
    def stmt(self, s):
        if s is None:
            return
        k = s[0]
        if not self.cur and k not in ("case", "default", "label", "blk", "if", "while", "do", "for", "switch"):
            return
        old = self.line
        self.line = s[1]
        if k == "blk":
            for x in s[2]:
                self.stmt(x)
        elif k == "expr":
            e = s[2]
            if isinstance(e, list) and e[0] in ("&&", "||", "?") and has_side(e):
                t, f = self.cond(e) if e[0] != "?" else (None, None)
                if t is None:
                    self.ex(e)
                else:
                    self.cur = t + f
            else:
                self.ex(e)
        elif k == "decl":
            if s[3] is not None:
                v = self.ex(s[3])
                if v[0] == "il":
                    self.new("set", s[1], ("v", s[2]), v)
                else:
                    self.new("set", s[1], ("v", s[2]), v)
            else:
                self.new("decl", s[1], s[2])
        elif k == "if":
            if not self.cur:
                self.stmt(s[3])
                self.stmt(s[4])
            else:
                t, f = self.cond(s[2])
                self.cur = t
                self.stmt(s[3])
                end = self.cur
                self.cur = f
                self.stmt(s[4])
                self.cur = self.cur + end
        elif k == "while":
            if self.cur:
                h = self.new("nop")
                t, f = self.cond(s[2])
                self.brk.append([])
                self.cont.append([])
                self.cur = t
                self.stmt(s[3])
                for (p, e) in self.cur + self.cont.pop():
                    p.succ.append((h.id, e))
                self.cur = f + self.brk.pop()
        elif k == "do":
            if self.cur:
                h = self.new("nop")
                self.brk.append([])
                self.cont.append([])
                self.stmt(s[2])
                self.cur = self.cur + self.cont.pop()
                if self.cur:
                    t, f = self.cond(s[3])
                    for (p, e) in t:
                        p.succ.append((h.id, e))
                    self.cur = f
                self.cur = self.cur + self.brk.pop()
        elif k == "for":
            if self.cur:
                self.stmt(s[2])
                h = self.new("nop")
                if s[3] is not None:
                    t, f = self.cond(s[3])
                else:
                    t, f = self.cur, []
                self.brk.append([])
                self.cont.append([])
                self.cur = t
                self.stmt(s[5])
                self.cur = self.cur + self.cont.pop()
                if self.cur and s[4] is not None:
                    self.ex(s[4])
                for (p, e) in self.cur:
                    p.succ.append((h.id, e))
                self.cur = f + self.brk.pop()
        elif k == "switch":
            if self.cur:
                v = self.ex(s[2])
                n = self.new("sw", s[1], v)
                self.cur = []
                self.sw.append({"node": n, "cases": [], "default": None})
                self.brk.append([])
                self.stmt(s[3])
                info = self.sw.pop()
                allc = [(lo, hi) for lo, hi, _ in info["cases"]]
                for lo, hi, t in info["cases"]:
                    n.succ.append((t.id, ("case", lo, hi)))
                end = self.cur + self.brk.pop()
                if info["default"] is not None:
                    n.succ.append((info["default"].id, ("default", tuple(allc))))
                else:
                    end = end + [(n, ("default", tuple(allc)))]
                self.cur = end
        elif k == "case":
            lo = s[2][1]
            hi = s[3][1] if s[3] else lo
            n = self.new("nop", s[1])
            if self.sw:
                self.sw[-1]["cases"].append((lo, hi, n))
            self.stmt(s[4])
        elif k == "default":
            n = self.new("nop", s[1])
            if self.sw:
                self.sw[-1]["default"] = n
            self.stmt(s[2])
        elif k == "label":
            n = self.new("nop", s[1])
            self.labels[s[2]] = n
            self.stmt(s[3])
        elif k == "goto":
            n = self.new("nop", s[1])
            self.gotos.append((n, s[2]))
            self.cur = []
        elif k == "break":
            self.brk[-1].extend(self.cur)
            self.cur = []
        elif k == "continue":
            self.cont[-1].extend(self.cur)
            self.cur = []
        elif k == "return":
            v = self.ex(s[2])
            self.new("ret", s[1], v)
            self.cur = []
        elif k == "asm":
            self.new("asm", s[1], s[2], tuple(T(x) for x in s[3]), tuple(T(x) for x in s[4]))
        else:
            self.new("unk", s[1], k)
        self.line = old


class Unit:
    """All functions of one build configuration."""

    def __init__(self, cfg, raw):
        self.cfg = cfg
        self.name = cfg.name
        self.files = raw["files"]
        self.funcs = {}
        for f in raw["functions"]:
            self.funcs[f["name"]] = Func(f, self)
        self.globals = {g["name"]: g for g in raw["globals"] if g["def"]}
        self.records = raw["records"]
        self.protos = raw["protos"]

    def k(self, name):
        """value of a macro listed in facts.CONSTS"""
        g = self.globals.get("::vp_k_" + name)
        if g is None or not g.get("init") or g["init"][0] != "i":
            from facts import Broken
            raise Broken("constant %s is not defined in %s" % (name, self.name))
        return g["init"][1]

    def loc(self, line):
        from facts import rel
        i, l = divmod(line or 0, 1000000)
        f = rel(self.files[i]) if i < len(self.files) else "?"
        return "%s:%d" % (f, l)

    def file_of(self, line):
        from facts import rel
        i = (line or 0) // 1000000
        return rel(self.files[i]) if i < len(self.files) else "?"
