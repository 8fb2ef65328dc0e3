"""Abstract meaning of operators, built-ins, attribute access and calls."""
from __future__ import annotations

import ast
import functools
import importlib
import sys
import re
import builtins
import string

from .dom import *  # noqa
from .terms import *  # noqa
from . import terms as TT

OPNAME = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}

STR_METHODS_STR = {"strip", "lstrip", "rstrip", "replace", "upper", "lower", "title", "capitalize", "casefold",
                   "expandtabs", "zfill", "ljust", "rjust", "center", "removeprefix", "removesuffix", "translate",
                   "swapcase", "format", "join", "format_map"}
STR_METHODS_LIST = {"split", "rsplit", "splitlines"}
STR_METHODS_BOOL = {"startswith", "endswith", "isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower",
                    "isdecimal", "isnumeric", "isidentifier", "istitle", "isascii", "isprintable"}
STR_METHODS_INT = {"count", "find", "rfind", "index", "rindex"}
ALL_STR_METHODS = STR_METHODS_STR | STR_METHODS_LIST | STR_METHODS_BOOL | STR_METHODS_INT | {
    "partition", "rpartition", "encode", "maketrans"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault",
            "popitem", "add", "discard", "$del", "__setitem__", "__delitem__"}


@functools.lru_cache(None)
def ext_truth(name):
    """The truth of something of the standard library; None when it depends on the process or is not known."""
    if name in ("typing.TYPE_CHECKING", "typing_extensions.TYPE_CHECKING"):
        return False
    parts = name.split(".")
    if parts[0] not in sys.stdlib_module_names:
        return None
    try:
        obj, i = importlib.import_module(parts[0]), 1
        for i, q in enumerate(parts[1:], 1):
            if not hasattr(obj, q):
                obj = importlib.import_module(".".join(parts[:i + 1]))
            else:
                obj = getattr(obj, q)
    except Exception:
        return None
    if callable(obj) or type(obj).__name__ == "module":
        return True
    if parts[0] in ("os", "sys", "platform", "time", "locale", "posix", "site", "sysconfig", "threading"):
        return None
    return bool(obj) if isinstance(obj, (str, int, float, tuple, frozenset)) else None


IMPURE_PREFIXES = (
    "time.", "random.", "os.", "locale.", "secrets.", "uuid.", "socket.", "subprocess.", "requests.", "urllib.request",
    "platform.", "getpass.", "tempfile.", "shutil.", "sys.", "threading.", "builtins.open", "builtins.input",
    "io.open", "builtins.print", "pathlib.", "builtins.id", "builtins.hash", "builtins.globals",
    "builtins.exec", "builtins.eval", "http.",
)


TAG_METHODS = {"lower", "upper", "casefold", "title", "capitalize", "swapcase", "strip", "lstrip", "rstrip", "replace",
               "removeprefix", "removesuffix", "encode", "find", "index", "count"}


class Models:
    # ------------------------------------------------------------------ truth
    def truth(self, st, v):
        out = []
        for s, x in self.norm(st, v):
            out += self._truth(s, x)
        return out

    def _truth(self, st, v):
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, TupV):
            return [(st, bool(v.items))]
        if isinstance(v, Ref):
            o = self.heap_get(st, v)
            if isinstance(o, ListO):
                return self.segs_truth(st, o.segs)
            if isinstance(o, DictO):
                if any(not g for _, g in o.entries.values()):
                    return [(st, True)]
                if not o.entries and o.base is None and not o.unk:
                    return [(st, False)]
                return self.decide(st, ("truthy", Sym("dict", (v.id,))))
            if isinstance(o, InstO):
                for n in ("__bool__", "__len__"):
                    f = o.cls.find(n)
                    if f and isinstance(f[1], FuncV):
                        return self.decide(st, ("truthy", Sym("inst", (v.id,))))
            return [(st, True)]
        if isinstance(v, Sym):
            k = v.ty.kind
            if k == "inst":
                cl = self.classes_of(st, v) or ()
                for c in cl:
                    ci = self.classes.get(c)
                    if ci and any(isinstance((ci.find(n) or (0, 0))[1], FuncV) for n in ("__bool__", "__len__")):
                        return self.decide(st, ("truthy", v))
                return [(st, True)]
            if v.op == "len":
                return self.truth(st, v.args[0])
            if v.op == "lookup":
                r = self.lookup_split(st, v, lambda w: (bool(w.v) if isinstance(w, Const) else True if isinstance(
                    w, (ClassV, FuncV, EnumM, BoundV, ModV)) else bool(w.items) if isinstance(w, TupV) else None))
                if r is not None:
                    return r
            if v.op == "meth" and v.args[0] == "count" and len(v.args) == 3 and self.ty_of(v.args[1]).kind == "str":
                return self.decide(st, ("contains", v.args[1], v.args[2]))
            if v.op == "meth" and v.args[0] in ("strip", "rstrip", "lstrip") and len(v.args) == 2:
                return [(s, not b) for s, b in self.decide(st, ("blank", self.strip_base(v.args[1])))]
            if v.op == "pred":
                return [(s, b == v.args[1]) for s, b in self.decide(st, v.args[0])]
            if v.op == "typeof":
                return [(st, True)]
            if v.op == "md" or k == "str":
                pass
            if k == "none":
                return [(st, False)]
            if v.op in ("cls", "method"):
                return [(st, True)]
            if k in ("int", "float"):
                lo, hi = self.rng(st, v)
                if lo is not None and lo > 0:
                    return [(st, True)]
                return self.decide(st, ("truthy", v))
            vs = st.vals.get(v)
            if vs is None:
                vs = v.ty.lits
            if vs is not None and all(isinstance(c, Const) for c in vs):
                bs = {bool(c.v) for c in vs}
                if len(bs) == 1:
                    return [(st, bs.pop())]
                out = []
                for b in (True, False):
                    s = st.copy()
                    s.vals[v] = frozenset(c for c in vs if bool(c.v) == b)
                    s.facts[("truthy", v)] = b
                    out.append((s, b))
                return out
            return self.decide(st, ("truthy", v))
        if isinstance(v, Ext):
            b = ext_truth(v.name)
            return [(st, b)] if b is not None else self.decide(st, ("truthy", v))
        return [(st, True)]

    def strip_base(self, t):
        while isinstance(t, Sym) and t.op == "meth" and t.args[0] in ("strip", "rstrip", "lstrip") \
                and len(t.args) == 2:
            t = t.args[1]
        return t

    def segs_truth(self, st, segs):
        if not segs:
            return [(st, False)]
        if any(s[0] == "e" for s in segs):
            return [(st, True)]
        if len(segs) == 1 and segs[0][0] == "rep":
            r = segs[0][1]
            if not r.partial and all(any(x[0] == "e" for x in a.segs) for a in r.alts) and isinstance(r.source, Sym):
                return self.truth(st, r.source) if r.source.ty.kind == "list" else self.decide(
                    st, ("truthy", r.source))
        if all(s[0] == "cond" for s in segs):
            cur = [(st, False)]
            for s in segs:
                nxt = []
                for s1, b in cur:
                    if b:
                        nxt.append((s1, True))
                        continue
                    for s2, g in self.fork_guard(s1, s[1]):
                        nxt += self.segs_truth(s2, s[2] if g else s[3])
                cur = nxt
            return cur
        return self.decide(st, ("nonempty", tuple(segs)))

    def rng(self, st, v):
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            return (v.v, v.v)
        r = st.rng.get(v)
        if r is not None:
            return r
        if isinstance(v, Sym):
            if v.op in ("len", "idx"):
                return (0, None)
            if v.op == "bin" and v.args[0] == "+":
                a, b = self.rng(st, v.args[1]), self.rng(st, v.args[2])
                return (a[0] + b[0] if a[0] is not None and b[0] is not None else None,
                        a[1] + b[1] if a[1] is not None and b[1] is not None else None)
            if v.op == "bin" and v.args[0] == "-":
                b = v.args[2]
                a = self.rng(st, v.args[1])
                if isinstance(b, Const) and isinstance(b.v, int):
                    return (a[0] - b.v if a[0] is not None else None, a[1] - b.v if a[1] is not None else None)
        return (None, None)

    # ------------------------------------------------------------------ compare
    def compare1(self, st, op, a, b, node, fr):
        out = []
        for s1, x in self.norm(st, a):
            for s2, y in self.norm(s1, b):
                out += self._cmp(s2, op, x, y, node, fr)
        return out

    def _b(self, lst, neg=False):
        return [(s, Const(bool(b) != neg)) for s, b in lst]

    def _cmp(self, st, op, a, b, node, fr):
        if isinstance(op, (ast.Is, ast.IsNot)):
            return self._b(self.is_(st, a, b), isinstance(op, ast.IsNot))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return self._b(self.eq_(st, a, b), isinstance(op, ast.NotEq))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.in_(st, a, b, node, fr)
            return [(s, v if isinstance(v, Raised) else Const(v != isinstance(op, ast.NotIn))) for s, v in r]
        # ordering
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                v = {ast.Lt: lambda: a.v < b.v, ast.LtE: lambda: a.v <= b.v, ast.Gt: lambda: a.v > b.v,
                     ast.GtE: lambda: a.v >= b.v}[type(op)]()
                return [(st, Const(bool(v)))]
            except TypeError:
                return [(st, self.exc("TypeError", ("cmp",), where=self.where(fr, node)))]
        for x in (a, b):
            if isinstance(x, Sentinel):
                return [(st, self.exc("TypeError", ("opt", getattr(x, "src", x)), where=self.where(fr, node)))]
        if isinstance(op, ast.Gt):
            return self._b(self.lt_(st, b, a))
        if isinstance(op, ast.GtE):
            return self._b(self.lt_(st, a, b), True)
        if isinstance(op, ast.LtE):
            return self._b(self.lt_(st, b, a), True)
        return self._b(self.lt_(st, a, b))

    def lt_(self, st, a, b):
        """a < b"""
        for x, y, sw in ((a, b, False), (b, a, True)):
            # x is count/find of a text, y a constant
            if isinstance(x, Sym) and x.op == "meth" and x.args[0] in ("count", "find", "rfind") and len(x.args) == 3 \
                    and isinstance(y, Const) and isinstance(y.v, int) and self.ty_of(x.args[1]).kind == "str":
                has = ("contains", x.args[1], x.args[2])
                cnt = x.args[0] == "count"
                if not sw and y.v == (1 if cnt else 0):          # count < 1, find < 0
                    return [(s, not q) for s, q in self.decide(st, has)]
                if sw and y.v == (0 if cnt else -1):             # 0 < count, -1 < find
                    return self.decide(st, has)
        # len(x) against small constants
        if isinstance(a, Const) and isinstance(b, Sym) and b.op == "len" and a.v == 0:
            return self.truth(st, b.args[0])
        if isinstance(b, Const) and isinstance(a, Sym) and a.op == "len" and b.v == 1:
            return [(s, not t) for s, t in self.truth(st, a.args[0])]
        if isinstance(b, Const) and b.v == 0 and isinstance(a, Sym) and a.op == "len":
            return [(st, False)]
        ra, rb = self.rng(st, a), self.rng(st, b)
        if ra[1] is not None and rb[0] is not None and ra[1] < rb[0]:
            return [(st, True)]
        if ra[0] is not None and rb[1] is not None and ra[0] >= rb[1]:
            return [(st, False)]
        # finite domains
        for t, c, sw in ((a, b, False), (b, a, True)):
            if isinstance(t, Sym) and isinstance(c, Const) and st.vals.get(t) is not None \
                    and all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in st.vals[t]):
                out = []
                for want in (True, False):
                    keep = frozenset(x for x in st.vals[t] if ((c.v < x.v) if sw else (x.v < c.v)) == want)
                    if keep:
                        s = st.copy()
                        s.vals[t] = keep
                        out.append((s, want))
                return out
        # "there is leading whitespace":  0 < len(x) - len(x.lstrip())
        return self.decide(st, ("lt", a, b))

    def is_(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sentinel):
                if isinstance(y, Sentinel):
                    return [(st, x == y)]
                if is_unknown(y):
                    return self.decide(st, ("is", y, x))
                if isinstance(y, Sym) and y.op == "elemany":
                    return self.decide(st, ("is", y, x))
                return [(st, False)]
        if isinstance(a, Const) and isinstance(b, Const):
            return [(st, a == b)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const):
                if isinstance(y, Sym):
                    if x.v is None:
                        if y.op == "lookup":
                            r = self.lookup_split(st, y, lambda v: (v == NONE_V if isinstance(
                                v, (Const, ClassV, FuncV, TupV, EnumM, Ref, Sentinel, ModV, BoundV)) else None))
                            if r is not None:
                                return r
                        if y.ty.kind in ("any",) or is_unknown(y) or (self.nullable and self.nullable(y)):
                            return self.decide(st, ("isnone", y))
                        return [(st, y.ty.kind == "none")]
                    if isinstance(x.v, bool):
                        if y.ty.kind == "bool":
                            return [(s, t == x.v) for s, t in self.truth(st, y)]
                        if y.ty.kind != "any":
                            return [(st, False)]
                        return self.decide(st, ("eqc", y, x))
                    return self.eq_(st, x, y)
                return [(st, False)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.op == "cls" and isinstance(y, ClassV):
                return self.cls_exact(st, x.args[0], {y.info.name})
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a == b:
                return [(st, True)]
            x, y = (a, b) if isinstance(a, Sym) else (b, a)
            if x.ty.kind in ("str", "int", "float", "bool", "none", "bytes") and not x.ty.opt and not is_unknown(x) and \
                    isinstance(y, (Ref, TupV, FuncV, ClassV, ModV, BoundV, EnumM)):
                return [(st, False)]
            return self.decide(st, ("is", a, b))
        return [(st, a == b)]

    def cls_exact(self, st, t, names):
        cl = self.classes_of(st, t)
        if cl is None:
            return self.decide(st, ("isinst", t, tuple(sorted(names))))
        yes, no = cl & frozenset(names), cl - frozenset(names)
        out = []
        if yes:
            out.append((self.narrow_cls(st, t, yes), True))
        if no:
            out.append((self.narrow_cls(st, t, no), False))
        return out

    def tag_values(self, st, t):
        """A text computed from the tag of an instance alone -> (instance, {class: text}), else None."""
        if not isinstance(t, Sym):
            return None
        if t.op == "typeof":
            cl = self.classes_of(st, t.args[0])
            if not cl:
                return None
            vals = {k: self.tag(k) for k in cl}
            return (t.args[0], {k: v.v for k, v in vals.items()}) if all(
                v is not None and isinstance(v.v, str) for v in vals.values()) else None
        if t.op == "meth" and len(t.args) >= 2 and t.args[0] in TAG_METHODS and all(
                isinstance(a, Const) for a in t.args[2:]):
            r, fn = self.tag_values(st, t.args[1]), lambda x: getattr(x, t.args[0])(*[a.v for a in t.args[2:]])
        elif t.op == "slice" and all(isinstance(a, Const) for a in t.args[1:]):
            r, fn = self.tag_values(st, t.args[0]), lambda x: x[t.args[1].v:t.args[2].v]
        elif t.op == "index" and isinstance(t.args[1], Const):
            r, fn = self.tag_values(st, t.args[0]), lambda x: x[t.args[1].v]
        elif t.op == "len":
            r, fn = self.tag_values(st, t.args[0]), len
        else:
            return None
        if r is None:
            return None
        try:
            return r[0], {k: fn(v) for k, v in r[1].items()}
        except Exception:
            return None

    def decide_tag(self, st, pred):
        """A predicate on a text computed from an instance's tag: told apart by the instance's class."""
        k = pred[0]
        if k == "strpred" and len(pred) == 4 and all(
                isinstance(a, Const) or isinstance(a, TupV) and all(isinstance(i, Const) for i in a.items)
                for a in pred[3]):
            t, fn = pred[2], lambda x: bool(getattr(x, pred[1])(*[a.v if isinstance(a, Const) else tuple(
                i.v for i in a.items) for a in pred[3]]))
        elif k == "contains" and len(pred) == 3 and isinstance(pred[2], Const):
            t, fn = pred[1], lambda x: pred[2].v in x
        elif k in ("eqc", "eq") and len(pred) == 3 and isinstance(pred[2], Const):
            t, fn = pred[1], lambda x: x == pred[2].v
        elif k == "substr_of" and len(pred) == 3 and isinstance(pred[2], Const):
            t, fn = pred[1], lambda x: x in pred[2].v
        elif k == "truthy":
            t, fn = pred[1], bool
        else:
            return None
        if not isinstance(t, Sym) or t.op not in ("typeof", "meth", "slice", "index", "len"):
            return None
        r = self.tag_values(st, t)
        if r is None:
            return None
        try:
            return self.cls_exact(st, r[0], {c for c, v in r[1].items() if fn(v)})
        except Exception:
            return None

    def const_of(self, v):
        if isinstance(v, EnumM) and any(isinstance(c, Ext) and c.name in ("builtins.str", "enum.StrEnum",
                                                                          "builtins.int", "enum.IntEnum")
                                        for c in v.cls.mro):
            return v.value
        if isinstance(v, Ext) and self.runtime:
            from .interp import process_value
            return process_value(v)
        return v

    def eq_(self, st, a, b):
        a, b = self.const_of(a), self.const_of(b)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return [(st, bool(a.v == b.v))]
            except Exception:
                return [(st, False)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sentinel):
                return self.is_(st, x, y)
            if isinstance(x, EnumM):
                if isinstance(y, EnumM):
                    return [(st, x == y)]
                if isinstance(y, Sym) and (y.ty.kind == "any" or is_unknown(y)):
                    vs = st.vals.get(y)
                    if vs is not None:
                        return self.eq_vals(st, y, x, vs)
                    return self.decide(st, ("eqc", y, x))
                return [(st, False)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and isinstance(y, Sym):
                return self.eq_const(st, y, x)
            if isinstance(x, Const) and isinstance(y, Ref):
                return [(st, False)]
            if isinstance(x, Ref) and isinstance(y, Sym):
                o = self.heap_get(st, x)
                if isinstance(o, ListO) and not o.segs:
                    return [(s, not t) for s, t in self.truth(st, y)]
        if isinstance(a, ClassV) and isinstance(b, Sym) and b.op == "cls":
            return self.cls_exact(st, b.args[0], {a.info.name})
        if isinstance(b, ClassV) and isinstance(a, Sym) and a.op == "cls":
            return self.cls_exact(st, a.args[0], {b.info.name})
        if a == b:
            return [(st, True)]
        if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, TupV) and isinstance(b, TupV):
                pass
            return self.decide(st, ("eq", a, b))
        return [(st, False)]

    def eq_vals(self, st, t, c, vs):
        out = []
        if c in vs:
            s = st.copy()
            s.vals[t] = frozenset([c])
            out.append((s, True))
        rest = vs - {c}
        if rest:
            s = st.copy()
            s.vals[t] = rest
            out.append((s, False))
        return out

    def eq_const(self, st, t, c):
        if t.op in ("otherkey", "unknowntag"):
            return [(st, False)]
        if t.op == "typeof":
            base = t.args[0]
            return self.cls_exact(st, base, {k for k in (self.classes_of(st, base) or ()) if self.tag(k) == c})
        if t.op in ("meth", "slice", "index", "len"):
            r = self.tag_values(st, t)
            if r is not None:
                return self.cls_exact(st, r[0], {k for k, v in r[1].items() if v == c.v})
        if t.op == "clsname":
            base = t.args[0]
            if self.classes_of(st, base) is not None:
                return self.cls_exact(st, base, {c.v})
        if t.ty.kind == "str" and not isinstance(c.v, str):
            return [(st, False)]
        if t.ty.kind in ("int", "float", "bool") and isinstance(c.v, str):
            return [(st, False)]
        if t.ty.kind in ("list", "dict", "inst"):
            return [(st, False)]
        if c.v == "" and isinstance(c.v, str):
            return [(s, not b) for s, b in self._truth(st, t)] if t.ty.kind == "str" else self.decide(
                st, ("eqc", t, c))
        if t.op == "meth" and len(t.args) == 3 and (t.args[0] == "count" and c == Const(0) or t.args[0] in (
                "find", "rfind") and c == Const(-1)) and self.ty_of(t.args[1]).kind == "str":
            return [(s, not b) for s, b in self.decide(st, ("contains", t.args[1], t.args[2]))]
        if t.op == "lookup":
            r = self.lookup_split(st, t, lambda v: v == c if isinstance(v, (Const, ClassV, FuncV)) else None)
            if r is not None:
                return r
        if t.op == "len" and c.v == 0:
            return [(s, not b) for s, b in self.truth(st, t.args[0])]
        if isinstance(c.v, bool) and t.ty.kind == "bool":
            return [(s, b == c.v) for s, b in self.truth(st, t)]
        vs = st.vals.get(t)
        if vs is None:
            vs = t.ty.lits
        if vs is not None:
            return self.eq_vals(st, t, c, vs)
        if c in st.nvals.get(t, ()):
            return [(st, False)]
        lo, hi = self.rng(st, t)
        if isinstance(c.v, (int, float)) and not isinstance(c.v, bool):
            if (lo is not None and c.v < lo) or (hi is not None and c.v > hi):
                return [(st, False)]
        if st.facts.get(("truthy", t)) is False and c.v:
            return [(st, False)]
        self.nstates += 1
        y = st.copy()
        y.vals[t] = frozenset([c])
        y.facts[("eqc", t, c)] = True
        n = st.copy()
        n.nvals[t] = n.nvals.get(t, frozenset()) | {c}
        n.facts[("eqc", t, c)] = False
        f = st.facts.get(("eqc", t, c))
        if f is not None:
            return [(st, f)]
        return [(y, True), (n, False)]

    def in_(self, st, a, b, node, fr):
        if isinstance(b, Sentinel):
            return [(st, self.exc("TypeError", ("opt", getattr(b, "src", b)), where=self.where(fr, node)))]
        if isinstance(b, Const):
            if isinstance(b.v, str):
                if isinstance(a, Const):
                    try:
                        return [(st, a.v in b.v)]
                    except TypeError:
                        return [(st, self.exc("TypeError", ("in",), where=self.where(fr, node)))]
                return self.decide(st, ("substr_of", a, b))
            return [(st, self.exc("TypeError", ("in",), where=self.where(fr, node)))]
        if isinstance(b, ClassV) and b.info.is_enum:
            vs = list(b.info.members.values())
            return self.in_values(st, a, vs + [m.value for m in vs])
        if isinstance(b, TupV):
            return self.in_values(st, a, list(b.items))
        if isinstance(b, Ref):
            o = self.heap_get(st, b)
            if isinstance(o, ListO):
                if all(s[0] == "e" for s in o.segs):
                    return self.in_values(st, a, [s[1] for s in o.segs])
                return self.decide(st, ("inlist", a, tuple(o.segs)))
            if isinstance(o, DictO):
                return self.dict_has(st, b, o, a)
            if isinstance(o, InstO):
                f = o.cls.find("__contains__")
                if f and isinstance(f[1], FuncV):
                    out = []
                    for s, v in self.call(st, BoundV(f[1], b), [a], {}, node, fr):
                        out += [(s, v)] if isinstance(v, Raised) else self.truth(s, v)
                    return out
        if isinstance(b, Sym):
            if b.ty.kind == "dict" or b.op in ("json", "get", "copyof"):
                return self.decide(st, ("haskey", strip_copy(b), a))
            if b.ty.kind in ("str",):
                return self.decide(st, ("contains", b, a))
            return self.decide(st, ("contains", b, a))
        return self.decide(st, ("inlist", a, b))

    def in_values(self, st, a, vs):
        vs = [self.const_of(v) for v in vs]
        a = self.const_of(a)
        if isinstance(a, (Const, EnumM, ClassV)):
            if a in vs:
                return [(st, True)]
            if any(isinstance(v, Sym) for v in vs):
                cur, out = [st], []
                for v in vs:
                    nxt = []
                    for s in cur:
                        for s2, b in self.eq_(s, a, v):
                            (out.append((s2, True)) if b else nxt.append(s2))
                    cur = nxt
                return out + [(s, False) for s in cur]
            return [(st, False)]
        if isinstance(a, Sym):
            cs = frozenset(v for v in vs if isinstance(v, Const))
            if any(isinstance(v, (Sym, Ref)) for v in vs):
                return self.decide(st, ("inlist", a, tuple(vs)))
            if len(cs) == 1 and len(set(vs)) == 1 and a.op != "lookup":
                return self.eq_const(st, a, next(iter(cs)))
            if a.op in ("otherkey", "unknowntag"):
                return [(st, False)]
            if a.op == "typeof":
                cl = self.classes_of(st, a.args[0]) or frozenset()
                return self.cls_exact(st, a.args[0], {k for k in cl if self.tag(k) in cs})
            if a.op in ("meth", "slice", "index", "len"):
                r = self.tag_values(st, a)
                if r is not None:
                    return self.cls_exact(st, r[0], {k for k, v in r[1].items() if Const(v) in cs})
            if a.op == "cls":
                return self.cls_exact(st, a.args[0], {v.info.name for v in vs if isinstance(v, ClassV)})
            if a.op == "clsname" and self.classes_of(st, a.args[0]) is not None:
                return self.cls_exact(st, a.args[0], {c.v for c in cs})
            dom = st.vals.get(a)
            if dom is None:
                dom = a.ty.lits
            if dom is not None:
                out = []
                y, n = dom & cs, dom - cs
                if y:
                    s = st.copy()
                    s.vals[a] = y
                    out.append((s, True))
                if n:
                    s = st.copy()
                    s.vals[a] = n
                    out.append((s, False))
                return out
            if a.ty.kind == "str" and not any(isinstance(c.v, str) for c in cs):
                return [(st, False)]
            if a.ty.kind == "str" and not all(isinstance(c.v, str) for c in cs):
                cs = frozenset(c for c in cs if isinstance(c.v, str))
                if len(cs) == 1:
                    return self.eq_const(st, a, next(iter(cs)))
            p = ("inset", a, cs)
            if p in st.facts:
                return [(st, st.facts[p])]
            y = st.copy()
            y.vals[a] = cs - st.nvals.get(a, frozenset())
            y.facts[p] = True
            n = st.copy()
            n.nvals[a] = n.nvals.get(a, frozenset()) | cs
            n.facts[p] = False
            for c in cs:
                n.facts[("eqc", a, c)] = False
                if c == EMPTY and a.ty.kind == "str":
                    n.facts[("truthy", a)] = True
            return ([(y, True)] if y.vals[a] else []) + [(n, False)]
        return [(st, a in vs)]

    # ------------------------------------------------------------------ operators
    def binop(self, st, op, a, b, node, fr):
        out = []
        for s1, x in self.norm(st, a):
            for s2, y in self.norm(s1, b):
                out.append(self._binop(s2, op, x, y, node, fr))
        return out

    def is_str(self, v):
        return (isinstance(v, Const) and isinstance(v.v, str)) or (isinstance(v, Sym) and v.ty.kind == "str")

    def _binop(self, st, op, a, b, node, fr):
        n = OPNAME.get(type(op), "?")
        if isinstance(a, ClassV) or isinstance(b, ClassV) or (isinstance(a, Ext) and n == "|"):
            return st, Sym("alias", (n, a, b))
        for x in (a, b):
            if isinstance(x, Sentinel):
                return st, self.exc("TypeError", ("opt", getattr(x, "src", x)), where=self.where(fr, node))
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                import operator as O
                f = {"+": O.add, "-": O.sub, "*": O.mul, "/": O.truediv, "//": O.floordiv, "%": O.mod, "**": O.pow,
                     "|": O.or_, "&": O.and_, "^": O.xor, "<<": O.lshift, ">>": O.rshift}.get(n)
                if n == "*" and isinstance(a.v, (str, int)) and isinstance(b.v, (str, int)) and \
                        isinstance(a.v, str) + isinstance(b.v, str) == 1 and max(x.v for x in (a, b) if isinstance(x.v, int)) > 10000:
                    return st, unk("big constant")
                if n == "%" and isinstance(a.v, str):
                    return self.percent(st, a, b, node, fr)
                if n == "**" and isinstance(b.v, int) and abs(b.v) > 64:
                    return st, unk("big constant")
                return st, Const(f(a.v, b.v))
            except ZeroDivisionError:
                return st, self.exc("ZeroDivisionError", ("op",), where=self.where(fr, node))
            except Exception:
                return st, self.exc("TypeError", ("op",), where=self.where(fr, node))
        la = self.heap_get(st, a) if isinstance(a, Ref) else None
        lb = self.heap_get(st, b) if isinstance(b, Ref) else None
        if n == "+":
            if isinstance(la, ListO) or isinstance(lb, ListO):
                sa = la.segs if isinstance(la, ListO) else ((ident_rep(a, elem_of(a)),) if isinstance(a, Sym) else None)
                sb = lb.segs if isinstance(lb, ListO) else ((ident_rep(b, elem_of(b)),) if isinstance(b, Sym) else None)
                if sa is not None and sb is not None:
                    s = st.copy()
                    return s, self.alloc(s, ListO(tuple(sa) + tuple(sb)))
                return st, self.exc("TypeError", ("op",), where=self.where(fr, node))
            if isinstance(a, TupV) and isinstance(b, TupV):
                return st, TupV(a.items + b.items)
            sa, sb = self.is_str(a), self.is_str(b)
            if sa or sb:
                other = b if sa else a
                if (isinstance(other, Const) and not isinstance(other.v, str)) or \
                        (isinstance(other, Sym) and other.ty.kind in ("int", "float", "list", "dict", "inst", "none",
                                                                      "bool")):
                    return st, self.exc("TypeError", ("op",), where=self.where(fr, node))
                if isinstance(other, (Sym, Const)):
                    return st, cat([a, b])
                return st, unk("str + ?", STR)
            if isinstance(a, Sym) and isinstance(b, Sym) and a.ty.kind == "list" and b.ty.kind == "list":
                s = st.copy()
                return s, self.alloc(s, ListO((ident_rep(a, elem_of(a)), ident_rep(b, elem_of(b)))))
        if n == "*":
            for x, y, lx in ((a, b, la), (b, a, lb)):
                if self.is_str(x):
                    if y == Const(1):
                        return st, x
                    if x == EMPTY:
                        return st, EMPTY
                    return st, Sym("mul", (x, y), STR)
                if isinstance(lx, ListO):
                    s = st.copy()
                    if isinstance(y, Const) and isinstance(y.v, int):
                        return s, self.alloc(s, ListO(lx.segs * max(0, min(y.v, 200))))
                    # [c] * len(S)  ==  [c for _ in S]
                    if isinstance(y, Sym) and y.op == "len" and all(g[0] == "e" for g in lx.segs):
                        return s, self.alloc(s, ListO((("rep", Rep(y.args[0], [Alt((), lx.segs)])),)))
                    return s, self.alloc(s, ListO((("mul", lx.segs, y),)))
        if n == "%" and self.is_str(a):
            return self.percent(st, a, b, node, fr)
        if n in ("&", "-") and isinstance(la, ListO) and isinstance(lb, ListO):
            g = self.shared(la.segs, lb.segs, n == "&")
            if g is not None:
                s = st.copy()
                return s, self.alloc(s, ListO(g, kind="set"))
        if n == "|" and isinstance(la, ListO) and isinstance(lb, ListO) and la.kind == lb.kind == "set":
            s = st.copy()
            return s, self.alloc(s, ListO(tuple(la.segs) + tuple(g for g in lb.segs if g not in la.segs), kind="set"))
        if n == "|" and (isinstance(la, DictO) or isinstance(lb, DictO)):
            s = st.copy()
            r = self.alloc(s, DictO())
            cur = [(s, None)]
            for d in (a, b):
                cur = [(s3, x) for s2, _ in cur for s3, x in self.call_method(s2, r, "update", [d], {}, node, fr)]
            return cur[0][0], r if not isinstance(cur[0][1], Raised) else cur[0][1]
        # integers
        if n in ("+", "-") and isinstance(b, Const) and isinstance(a, Sym) and a.op == "bin" and a.args[0] in "+-" \
                and isinstance(a.args[2], Const) and isinstance(b.v, int) and isinstance(a.args[2].v, int):
            k = (a.args[2].v if a.args[0] == "+" else -a.args[2].v) + (b.v if n == "+" else -b.v)
            if k == 0:
                return st, a.args[1]
            return st, Sym("bin", ("+", a.args[1], Const(k)) if k > 0 else ("-", a.args[1], Const(-k)), a.ty)
        if n == "+" and isinstance(a, Const) and isinstance(b, Sym):
            return self._binop(st, op, b, a, node, fr)
        if n in ("+", "-") and b == Const(0):
            return st, a
        if n == "*" and b == Const(1):
            return st, a
        kinds = {self.ty_of(x).kind for x in (a, b)}
        ty = INT if kinds <= {"int", "bool"} and n != "/" else (FLOAT if kinds <= {"int", "float", "bool"} else ANY)
        if n == "*" and isinstance(a, Const) and isinstance(b, Sym):
            a, b = b, a
        return st, Sym("bin", (n, a, b), ty)

    def percent(self, st, a, b, node, fr):
        named = self.heap_get(st, b) if isinstance(b, Ref) else None
        if isinstance(a, Const) and isinstance(named, DictO) and named.base is None and not named.unk and re.search(
                r"%\(", a.v):
            # the values by name, in the order of their use
            ks = re.findall(r"%\((.*?)\)", a.v)
            got = [named.entries.get(Const(k)) for k in ks]
            if all(x is not None and not x[1] for x in got):
                return self.percent(st, Const(re.sub(r"%\(.*?\)", "%", a.v)), TupV([x[0] for x in got]), node, fr)
        vals = list(b.items) if isinstance(b, TupV) else [b]
        if not isinstance(a, Const):
            if isinstance(a, Sym) and not is_unknown(a) and all(isinstance(x, (Sym, Const)) for x in vals):
                return st, Sym("meth", ("%", a) + tuple(vals), STR)
            return st, unk("%", STR)
        out, i, fmt = [], 0, a.v
        j = 0
        while j < len(fmt):
            if fmt[j] != "%":
                k = fmt.find("%", j)
                k = len(fmt) if k < 0 else k
                out.append(Const(fmt[j:k]))
                j = k
                continue
            c = fmt[j + 1: j + 2]
            if c == "%":
                out.append(Const("%"))
            elif c in "sd" and c:
                if i >= len(vals):
                    return st, self.exc("TypeError", ("format",), where=self.where(fr, node))
                r = self.to_str(st, vals[i], node, fr)
                if len(r) != 1:
                    return st, unk("%", STR)
                st, w = r[0]
                if isinstance(w, Raised):
                    return st, w
                out.append(w)
                i += 1
            elif re.match(r"0?\d+d", fmt[j + 1:]) and i < len(vals):
                m = re.match(r"0?\d+d", fmt[j + 1:]).group()
                r = self.to_str(st, vals[i], node, fr, spec=Const(m))
                if len(r) != 1 or isinstance(r[0][1], Raised):
                    return st, unk("% format", STR)
                st, w = r[0]
                out.append(w)
                i += 1
                j += len(m) + 1
                continue
            else:
                return st, unk("% format", STR)
            j += 2
        return st, cat(out)

    def to_str(self, st, v, node, fr, conv=-1, spec=None):
        out = []
        for s, x in self.norm(st, v):
            if isinstance(x, Ref) and self.unordered(s, x):
                s = s.copy().ev("setorder", "str()", self.where(fr, node))
            if isinstance(x, Sentinel):
                s = s.copy().ev("leak", getattr(x, "src", x), self.where(fr, node))
                out.append((s, Sym("leak", (x.name,), STR)))
                continue
            if conv in (114, 97):
                out.append((s, Const(repr(x.v)) if isinstance(x, Const) else Sym("repr", (x,), STR)))
                continue
            if spec is not None and spec != EMPTY:
                if isinstance(x, Const) and isinstance(spec, Const):
                    try:
                        out.append((s, Const(format(x.v, spec.v))))
                        continue
                    except Exception:
                        out.append((s, self.exc("ValueError", ("format",), where=self.where(fr, node))))
                        continue
                if isinstance(spec, Const) and spec.v in ("s", "d") and isinstance(x, Sym):
                    out.append((s, x if x.ty.kind == "str" else Sym("str", (x,), STR)))
                    continue
                out.append((s, Sym("fmt", (x, spec), STR)))
                continue
            if isinstance(x, Const):
                out.append((s, Const(str(x.v))))
            elif isinstance(x, Sym) and x.ty.kind == "str":
                out.append((s, x))
            elif isinstance(x, EnumM):
                c = self.const_of(x)
                if any(isinstance(k, Ext) and k.name == "enum.StrEnum" for k in x.cls.mro):
                    out.append((s, Const(str(x.value.v))))
                else:
                    out.append((s, Const(f"{x.cls.name}.{x.name}")))
            elif isinstance(x, Sym):
                out.append((s, Sym("str", (x,), STR)))
            elif isinstance(x, ExcV):
                out.append((s, Sym("excstr", (x.origin,), STR)))
            elif isinstance(x, Ref) and isinstance(self.heap_get(s, x), InstO):
                f = self.heap_get(s, x).cls.find("__str__")
                if f and isinstance(f[1], FuncV):
                    out += self.call(s, BoundV(f[1], x), [], {}, node, fr)
                else:
                    out.append((s, Sym("str", (x,), STR)))
            elif isinstance(x, (ClassV, FuncV, Ref, TupV, Ext)):
                out.append((s, Sym("str", (x,), STR)))
            else:
                out.append((s, unk("str()", STR)))
        return out

    # ------------------------------------------------------------------ attributes
    def getattr(self, st, o, name, node, fr, default=None):
        out = []
        for s, v in self.norm(st, o):
            out += self._getattr(s, v, name, node, fr)
        return out

    def attr_err(self, st, origin, node, fr):
        return [(st, self.exc("AttributeError", origin, where=self.where(fr, node)))]

    def vars_of(self, st, t, ci):
        """t.__dict__ of a model: its fields; writing to it changes the model."""
        ent = {}
        for n, f in ci.fields.items():
            if n == "type" and self.is_model(ci.name) and self.tag(ci.name) is not None and not self.free_type:
                ent[Const(n)] = (self.tag(ci.name), ())
            else:
                ent[Const(n)] = (Sym("field", (t, n), f.ty), ())
        s = st.copy()
        return s, self.alloc(s, DictO(ent, owner=("vars", t)))

    def bind_member(self, st, owner, val, selfv, clsv, node, fr):
        """A class attribute `val` seen through an instance."""
        if isinstance(val, FuncV):
            if val.kind == "class":
                return [(st, BoundV(val, clsv))]
            if val.kind == "static":
                return [(st, val)]
            return [(st, BoundV(val, selfv))]
        if isinstance(val, PropV):
            return self.call(st, val.fget if isinstance(val.fget, FuncV) else val.fget, [selfv], {}, node, fr)
        return [(st, val)]

    def _getattr(self, st, v, name, node, fr):
        if isinstance(v, Sentinel):
            if name in ("__class__", "__name__", "name"):
                return [(st, unk(name))]
            return self.attr_err(st, ("opt", getattr(v, "src", v)), node, fr)
        if isinstance(v, Ref):
            o = self.heap_get(st, v)
            if isinstance(o, InstO):
                if name in o.fields:
                    return [(st, o.fields[name])]
                if name == "__class__":
                    return [(st, ClassV(o.cls))]
                if name == "__dict__":
                    s = st.copy()
                    return [(s, self.alloc(s, DictO({Const(k): (x, ()) for k, x in o.fields.items()})))]
                f = o.cls.find(name)
                if f is None:
                    if any(isinstance(c, Ext) and c.name not in ("object",) and not c.name.startswith("func_args")
                           for c in o.cls.mro):
                        return [(st, MethV(v, name))]
                    return self.attr_err(st, ("attr", o.cls.name, name), node, fr)
                if f[1] is None:
                    return [(st, FuncV(None, "", f[0].name + "." + name, (), native=("extmeth", f[0].name, name, v),
                                       name=name))]
                return self.bind_member(st, f[0], f[1], v, ClassV(o.cls), node, fr)
            return [(st, MethV(v, name))]
        if isinstance(v, Sym):
            return self.sym_attr(st, v, name, node, fr)
        if isinstance(v, ClassV):
            return self.class_attr(st, v, name, node, fr)
        if isinstance(v, ModV):
            k = (("mod", v.name), name)
            w = self.env_get(st, k)
            if w is not None:
                if self.runtime and v.name == self.PKG + ".settings" and isinstance(w, Const):
                    return [(st, Sym("cfg", (name,), BOOL if isinstance(w.v, bool) else ANY))]
                return [(st, w)]
            full = v.name + "." + name
            if full in self.modules:
                return [(st, ModV(full))]
            return self.attr_err(st, ("attr", v.name, name), node, fr)
        if isinstance(v, Ext):
            from .interp import canon_ext
            return [(st, canon_ext(v.name + "." + name))]
        if isinstance(v, EnumM):
            if name == "value" or name == "_value_":
                return [(st, v.value)]
            if name == "name" or name == "_name_":
                return [(st, Const(v.name))]
            if name == "__class__":
                return [(st, ClassV(v.cls))]
            f = v.cls.find(name)
            if f and f[1] is not None:
                return self.bind_member(st, f[0], f[1], v, ClassV(v.cls), node, fr)
            if self.is_str(self.const_of(v)):
                return [(st, MethV(self.const_of(v), name))]
            return self.attr_err(st, ("attr", v.cls.name, name), node, fr)
        if isinstance(v, NTupV):
            names = self.ntup_names(v.cls) or []
            if name in names:
                return [(st, v.items[names.index(name)])]
            if name == "__class__":
                return [(st, ClassV(v.cls))]
            f = v.cls.find(name)
            if f and f[1] is not None:
                return self.bind_member(st, f[0], f[1], v, ClassV(v.cls), node, fr)
            return [(st, MethV(v, name))] if hasattr(tuple, name) or name in ("_replace", "_asdict", "_fields") else \
                self.attr_err(st, ("attr", v.cls.name, name), node, fr)
        if isinstance(v, ExcV):
            if v.ref is not None:
                return self._getattr(st, v.ref, name, node, fr)
            if name == "args":
                return [(st, TupV(v.args))]
            return [(st, Sym("excattr", (v.origin, name)))]
        if isinstance(v, SuperV):
            after = v.cls
            selfv = v.self
            if isinstance(selfv, ClassV):
                start = selfv.info
            elif isinstance(selfv, Ref):
                start = self.heap_get(st, selfv).cls
            elif isinstance(selfv, Sym):
                cl = self.classes_of(st, selfv)
                if not cl or len(cl) != 1:
                    return [(st, unk("super()." + name))]
                start = self.classes[next(iter(cl))]
            else:
                return [(st, unk("super()." + name))]
            f = start.find(name, after=after)
            if f is None:
                return self.attr_err(st, ("attr", "super", name), node, fr)
            if f[1] is None:
                return [(st, FuncV(None, "", f[0].name + "." + name, (), native=("extmeth", f[0].name, name, selfv),
                                   name=name))]
            if isinstance(f[1], FuncV) and f[1].kind == "class":
                return [(st, BoundV(f[1], ClassV(start)))]
            return self.bind_member(st, f[0], f[1], selfv, ClassV(start), node, fr)
        if isinstance(v, FieldV):
            d = {"name": Const(v.name), "type": v.type, "default": v.default, "default_factory": v.factory,
                 "init": Const(v.init), "compare": Const(v.compare)}
            if name in d:
                return [(st, d[name])]
            return [(st, unk("field." + name))]
        if isinstance(v, FuncV):
            if name == "__name__":
                return [(st, Const(v.name))]
            if name == "__wrapped__":
                return [(st, v)]
            k = (("fnattr", v.qual), name)
            w = self.env_get(st, k)
            if w is not None:
                return [(st, w)]
            return [(st, MethV(v, name))]
        if isinstance(v, BoundV) and name == "__self__":
            return [(st, v.self)]
        if isinstance(v, BoundV) and name == "__func__":
            return [(st, v.func)]
        if isinstance(v, BoundV) and name == "__name__":
            return [(st, Const(v.func.name))]
        if isinstance(v, Const):
            if v.v is None:
                return self.attr_err(st, ("none", name), node, fr)
            if not hasattr(v.v, name):
                return self.attr_err(st, ("attr", type(v.v).__name__, name), node, fr)
            return [(st, MethV(v, name))]
        return [(st, MethV(v, name))]

    def class_attr(self, st, v, name, node, fr):
        ci = v.info
        if name == "__name__" or name == "__qualname__":
            return [(st, Const(ci.name))]
        if name == "__mro__":
            return [(st, TupV([ClassV(c) if isinstance(c, ClassInfo) else c for c in ci.mro]))]
        if name == "__dict__":
            s = st.copy()
            ns = {Const(k): (x, ()) for k, x in ci.ns.items()}
            for (f, n), x in list(st.env.items()):
                if f == ("clsattr", ci.qual):
                    ns[Const(n)] = (x, ())
            return [(s, self.alloc(s, DictO(ns)))]
        if name == "__module__":
            return [(st, Const(ci.mod))]
        if name == "__dataclass_fields__" and ci.dc is not None:
            s = st.copy()
            return [(s, self.alloc(s, DictO({Const(n): (f, ()) for n, f in ci.fields.items()})))]
        if name == "__members__" and ci.is_enum:
            s = st.copy()
            return [(s, self.alloc(s, DictO({Const(n): (m, ()) for n, m in ci.members.items()})))]
        if name == "__annotations__":
            s = st.copy()
            return [(s, self.alloc(s, DictO({Const(n): (x, ()) for n, x in ci.ann_rt.items()})))]
        # run-time class attributes
        for c in ci.mro:
            if isinstance(c, ClassInfo):
                w = self.env_get(st, (("clsattr", c.qual), name))
                if w is not None:
                    return [(st, w)]
                if name in c.ns:
                    val = c.ns[name]
                    if isinstance(val, FuncV) and val.kind == "class":
                        return [(st, BoundV(val, v))]
                    if isinstance(val, PropV):
                        return [(st, val)]
                    return [(st, val)]
            elif (c.name, name) in EXT_CLASS_ATTRS:
                return [(st, FuncV(None, "", c.name + "." + name, (), native=("extmeth", c.name, name, None),
                                   name=name))]
        return self.attr_err(st, ("attr", ci.name, name), node, fr)

    def sym_attr(self, st, t, name, node, fr):
        if t.op == "cls":
            if name in ("__name__", "__qualname__"):
                cl = self.classes_of(st, t.args[0])
                if cl and len(cl) == 1:
                    return [(st, Const(next(iter(cl))))]
                return [(st, Sym("clsname", (t.args[0],), STR))]
            return [(st, Sym("clsattr", (t, name)))]
        if name in MOMENT_ATTRS and is_moment(t):
            return [(st, Sym("attr", (t, name), ANY if name == "tzinfo" else INT))]
        if name in ("days", "seconds", "microseconds") and t.ty.kind == "any" and (
                t.op in ("bin", "abs") or t.op == "ext" and t.args[0] in ("datetime.timedelta", "builtins.abs")):
            return [(st, Sym("attr", (t, name), INT))]
        if t.ty.kind == "inst" and name != "__class__":
            cl = self.classes_of(st, t)
            if not cl:
                return [(st, unk("attribute of unknown class"))]
            groups = {}
            for c in sorted(cl):
                ci = self.classes.get(c)
                if ci is None:
                    continue
                if name == "type" and self.is_model(c) and not self.free_type:
                    key = ("typeof",)
                elif name in ci.fields:
                    key = ("field", ci.fields[name].ty)
                else:
                    f = ci.find(name)
                    if f is None:
                        key = ("none",)
                    elif f[1] is None:
                        key = ("ext", f[0].name)
                    else:
                        key = ("member", f[0].qual, name)
                groups.setdefault(key, []).append(c)
            out = []
            for key, cs in groups.items():
                s = st if len(groups) == 1 else self.narrow_cls(st, t, cs)
                if key[0] == "typeof":
                    tags = {self.tag(c) for c in cs}
                    if len(tags) == 1 and None not in tags:
                        out.append((s, tags.pop()))
                    else:
                        out.append((s, Sym("typeof", (t,), STR)))
                elif key[0] == "field":
                    out.append((s, Sym("field", (t, name), key[1])))
                elif key[0] == "none":
                    if name == "__dict__" and len(cs) == 1:
                        out.append(self.vars_of(s, t, self.classes[cs[0]]))
                    elif name == "__dict__":
                        out.append((s, Sym("vars", (t,), DICT)))
                    else:
                        out += self.attr_err(s, ("attr", "|".join(cs), name), node, fr)
                elif key[0] == "ext":
                    out.append((s, FuncV(None, "", key[1] + "." + name, (), native=("extmeth", key[1], name, t),
                                         name=name)))
                else:
                    ci = self.classes[cs[0]]
                    owner, val = ci.find(name)
                    if name in ("to_markdown", "to_dict") and isinstance(val, FuncV):
                        # (a decorator's wrapper has a name of its own)
                        out.append((s, BoundV(val if val.name == name else val.renamed(name), t)))
                        continue
                    clsv = ClassV(ci) if len(cs) == 1 else Sym("cls", (t,))
                    out += self.bind_member(s, owner, val, t, clsv, node, fr)
            # child conversion: one bound method for all the classes (interception re-dispatches)
            if name in ("to_markdown", "to_dict"):
                bs = [(s, v) for s, v in out if isinstance(v, BoundV)]
                if len(bs) == len(out) and len(out) > 1:
                    return [(st, bs[0][1])]
            return out
        if name == "__class__":
            cl = self.classes_of(st, t)
            if cl and len(cl) == 1:
                return [(st, ClassV(self.classes[next(iter(cl))]))]
            return [(st, Sym("cls", (t,)))]
        return [(st, MethV(t, name))]

    def setattr(self, st, o, name, v, node, fr):
        out = []
        for s, x in self.norm(st, o):
            if isinstance(x, Ref) and isinstance(self.heap_get(s, x), InstO):
                ob = self.heap_get(s, x)
                if ob.frozen:
                    out.append((s, self.exc("FrozenInstanceError", ("frozen", ob.cls.name),
                                            where=self.where(fr, node))))
                    continue
                s = s.copy()
                s.heap[x.id] = InstO(ob.cls, {**ob.fields, name: v}, ob.frozen)
                if x.id in self.base_heap:
                    s.ev("global_write", "instance", name, fr.func, self.where(fr, node), None, None)
                out.append((s, NONE_V))
            elif isinstance(x, ClassV):
                if not self.runtime:
                    x.info.ns[name] = v             # while the modules are loaded: part of the class
                    out.append((s, NONE_V))
                    continue
                s = s.copy()
                s.env[(("clsattr", x.info.qual), name)] = v
                s.ev("class_write", x.info.name, name, self.where(fr, node))
                out.append((s, NONE_V))
            elif isinstance(x, FuncV):
                s = s.copy()
                s.env[(("fnattr", x.qual), name)] = v
                if self.runtime:
                    s.ev("global_write", x.qual, name, fr.func, self.where(fr, node), None, None)
                out.append((s, NONE_V))
            elif isinstance(x, ModV):
                s = s.copy()
                s.env[(("mod", x.name), name)] = v
                s.ev("global_write", x.name, name, fr.func, self.where(fr, node), None, None)
                out.append((s, NONE_V))
            elif isinstance(x, Sym) and x.ty.kind == "inst":
                # models are frozen: plain assignment raises
                cl = self.classes_of(s, x) or ()
                frozen = all(self.classes[c].dc is not None and self.classes[c].dc.get("frozen") == TRUE
                             for c in cl if c in self.classes) and cl
                s = s.copy().ev("mutate", x, name, self.where(fr, node))
                if frozen:
                    out.append((s, self.exc("FrozenInstanceError", ("frozen", "|".join(sorted(cl))),
                                            where=self.where(fr, node))))
                else:
                    out.append((s, NONE_V))
            else:
                out.append((s.copy().ev("mutate", x, name, self.where(fr, node)), NONE_V))
        return out

    # ------------------------------------------------------------------ items
    def key_missing(self, st, key, node, fr):
        return (st, self.exc("KeyError", ("haskey", key), where=self.where(fr, node)))

    def dict_has(self, st, ref, o, key):
        if isinstance(key, Sym) and key.op in ("otherkey", "unknowntag") and o.base is None and not o.unk:
            return [(st, False)]
        if key in o.entries:
            return self.fork_guard(st, o.entries[key][1])
        if isinstance(o.unk, tuple) and o.unk[0] in ("put", "one") and o.unk[-2] == key:
            return [(st, True)]
        if key in o.deleted:
            return [(st, False)]
        if o.base is not None:
            return self.decide(st, ("haskey", strip_copy(o.base), key))
        if isinstance(key, (Const, EnumM, ClassV)) and not o.unk and all(
                isinstance(k, (Const, EnumM, ClassV)) for k in o.entries):
            return [(st, False)]
        if isinstance(key, Sym) and not o.unk and all(isinstance(k, (Const, ClassV)) for k in o.entries):
            # symbolic key against a concrete table
            return self.in_values(st, key, list(o.entries))
        return self.decide(st, ("haskey", Sym("dict", (ref.id,)), key))

    def by_class(self, st, o, key):
        """The value a table gives for the type tag of an instance, told apart by its class -> [(state, value)]."""
        if not (isinstance(key, Sym) and key.op == "typeof") or o.base is not None or o.unk:
            return None
        t = key.args[0]
        cs = self.classes_of(st, t)
        if not cs:
            return None
        groups = {}
        for c in sorted(cs):
            tag = self.tag(c)
            if tag is None or tag not in o.entries or o.entries[tag][1]:
                return None
            groups.setdefault(o.entries[tag][0], []).append(c)
        if len(groups) > 4:
            return None
        return [(self.narrow_cls(st, t, g) if len(groups) > 1 else st, v) for v, g in groups.items()]

    def lookup_split(self, st, t, test):
        """Split a table lookup by a test of the entry's value (True/False/None=unclear); None if unclear."""
        ents, key = t.args
        dom = st.vals.get(key)
        ents = [(k, v) for k, v in ents if dom is None or k in dom]
        res = [(k, test(v)) for k, v in ents]
        if any(b is None for _, b in res):
            return None
        out = []
        for b in (True, False):
            ks = frozenset(k for k, x in res if x == b)
            if ks:
                s = st.copy()
                if len(ks) < len(res) or dom is not None:
                    s.vals[key] = ks
                out.append((s, b))
        return out

    def dict_get(self, st, ref, o, key):
        """key known to be present -> value"""
        if key in o.entries:
            return o.entries[key][0]
        if isinstance(o.unk, tuple) and o.unk[0] in ("put", "one"):
            return o.unk[-1] if o.unk[-2] == key else unk("dict value")
        if o.base is not None:
            return self.json_get(o.base, key, o.deep)
        if isinstance(key, Sym):
            vals = tuple((k, v[0]) for k, v in o.entries.items())
            tys = {self.ty_of(v).kind for _, v in vals if isinstance(v, (Const, Sym))}
            ty = STR if vals and tys == {"str"} and all(isinstance(v, (Const, Sym)) for _, v in vals) else ANY
            return Sym("lookup", (vals, key), ty)
        return unk("dict value")

    def json_get(self, base, key, deep=False):
        b = base
        if isinstance(b, Sym) and b.op == "copyof":
            deep, b = True, b.args[0]
        ty = ANY
        if isinstance(key, Const):
            ty = self.json_types.get((b, key.v)) or {
                "attrs": DICT, "content": Ty("list", elem=DICT), "marks": Ty("list", elem=DICT)}.get(key.v, ANY)
            if key.v == "type":
                ty = STR
        g = Sym("get", (b, key), ty)
        return Sym("copyof", (g,), ty) if deep else g

    def getitem(self, st, o, k, node, fr):
        if isinstance(o, Sym) and o.op == "match" and isinstance(k, Const) and isinstance(k.v, int):
            return [(st, Sym("matched", (o.args[0], k), STR))]
        out = []
        for s, x in self.norm(st, o):
            for s2, key in self.norm(s, k):
                out += self._getitem(s2, x, key, node, fr)
        return out

    def _getitem(self, st, o, k, node, fr):
        if isinstance(o, Ref) and isinstance(self.heap_get(st, o), ListO) and self.unordered(st, o):
            st = st.copy().ev("setorder", "indexing", self.where(fr, node))
        if isinstance(o, Sentinel):
            return [(st, self.exc("TypeError", ("opt", getattr(o, "src", o)), where=self.where(fr, node)))]
        if isinstance(o, Ext) or isinstance(o, (ClassV,)) and not (isinstance(o, ClassV) and o.info.is_enum):
            return [(st, Sym("alias", (o, k), self.alias_ty(o, k)))]
        if isinstance(o, ClassV):
            if isinstance(k, Const) and k.v in o.info.members:
                return [(st, o.info.members[k.v])]
            if isinstance(k, Const):
                return [self.key_missing(st, k, node, fr)]
            return [(st, unk("enum item"))]
        if isinstance(o, TupV):
            if isinstance(k, Const) and isinstance(k.v, int):
                try:
                    return [(st, o.items[k.v])]
                except IndexError:
                    return [(st, self.exc("IndexError", ("index", o), where=self.where(fr, node)))]
            if all(isinstance(i, Const) for i in o.items) and isinstance(k, Sym) and k.ty.kind == "bool":
                return [(s, o.items[1 if b else 0]) for s, b in self.truth(st, k)]
            return [(st, unk("tuple index"))]
        if isinstance(o, Const):
            if isinstance(o.v, str) and isinstance(k, Const) and isinstance(k.v, int):
                try:
                    return [(st, Const(o.v[k.v]))]
                except IndexError:
                    return [(st, self.exc("IndexError", ("index", o), where=self.where(fr, node)))]
            if isinstance(o.v, str):
                return [(st, Sym("index", (o, k), STR))]
            return [(st, self.exc("TypeError", ("item",), where=self.where(fr, node)))]
        if isinstance(o, Ref):
            ob = self.heap_get(st, o)
            if isinstance(ob, DictO):
                out = []
                if isinstance(k, Ref) and isinstance(self.heap_get(st, k), (ListO, DictO)):
                    return [(st, self.exc("TypeError", ("unhashable",), where=self.where(fr, node)))]
                for s, b in self.dict_has(st, o, ob, k):
                    if b:
                        # a finite symbolic key: split on its possible values
                        vs = s.vals.get(k) if isinstance(k, Sym) else None
                        if vs is not None and len(vs) <= 4 and all(v in ob.entries for v in vs):
                            for v in vs:
                                s2 = s.copy()
                                s2.vals[k] = frozenset([v])
                                out.append((s2, ob.entries[v][0]))
                            continue
                        got = self.by_class(s, ob, k)
                        if got is not None:
                            out += got
                            continue
                        out.append((s, self.dict_get(s, o, ob, k)))
                    else:
                        out.append(self.key_missing(s, k, node, fr))
                return out
            if isinstance(ob, ListO):
                return self.list_index(st, o, ob, k, node, fr)
            if isinstance(ob, InstO):
                f = ob.cls.find("__getitem__")
                if f and isinstance(f[1], FuncV):
                    return self.call(st, BoundV(f[1], o), [k], {}, node, fr)
            return [(st, unk("item"))]
        if isinstance(o, Sym):
            if o.ty.kind == "dict" or o.op in ("json", "copyof", "get") and o.ty.kind == "any":
                out = []
                for s, b in self.decide(st, ("haskey", strip_copy(o), k)):
                    out.append((s, self.json_get(o, k)) if b else self.key_missing(s, k, node, fr))
                return out
            if o.ty.kind in ("list", "str", "any") or o.op == "slice":
                # index variable of the same sequence -> the arbitrary element
                if isinstance(k, Sym) and k.op == "idx" and k.args[0] == o:
                    return [(st, elem_of(o))]
                # X[1:][i] etc. are not resolved
                val = Sym("index", (o, k), elem_ty(o))
                if isinstance(k, Const) and isinstance(k.v, int):
                    need = k.v + 1 if k.v >= 0 else -k.v
                    if need == 1:
                        out = []
                        for s, b in self._truth(st, o):
                            if b:
                                out.append((s, val))
                            else:
                                out.append((s, self.exc("IndexError", ("index", o), where=self.where(fr, node))))
                        return out
                    out = []
                    for s, b in self.lt_(st, Sym("len", (o,), INT), Const(need)):
                        if b:
                            out.append((s, self.exc("IndexError", ("index", o), where=self.where(fr, node))))
                        else:
                            out.append((s, val))
                    return out
                return [(st, val)]
            return [(st, unk("item"))]
        return [(st, unk("item"))]

    def alias_ty(self, o, k):
        return ANY

    def spread(self, st, segs):
        """The states in which it is known which of the conditional items are there."""
        i = next((i for i, x in enumerate(segs) if x[0] == "cond"), None)
        if i is None:
            return [(st, segs)]
        live, out = [st], []
        for pred, want in segs[i][1]:
            nxt = []
            for s in live:
                for s1, b in self.decide(s, pred):
                    if b == want:
                        nxt.append(s1)
                    else:
                        out += self.spread(s1, segs[:i] + tuple(segs[i][3]) + segs[i + 1:])
            live = nxt
        for s in live:
            out += self.spread(s, segs[:i] + tuple(segs[i][2]) + segs[i + 1:])
        return out

    def list_index(self, st, ref, ob, k, node, fr):
        segs = ob.segs
        if isinstance(k, Const) and 0 < sum(x[0] == "cond" for x in segs) <= 4 and all(x[0] in ("e", "cond") for x in segs):
            out = []
            for s, xs in self.spread(st, tuple(segs)):
                out += self.list_index(s, ref, ListO(xs, ob.kind), k, node, fr)
            return out
        if isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool):
            i = k.v
            if all(s[0] == "e" for s in segs):
                try:
                    return [(st, segs[i][1])]
                except IndexError:
                    return [(st, self.exc("IndexError", ("index", ref), where=self.where(fr, node)))]
            if i >= 0 and len(segs) > i and all(s[0] == "e" for s in segs[: i + 1]):
                return [(st, segs[i][1])]
            if i < 0 and len(segs) >= -i and all(s[0] == "e" for s in segs[i:]):
                return [(st, segs[i][1])]
            ids = [s for s in segs if is_ident(s)]
            if len(segs) == 1 and len(ids) == 1 and i in (0, -1):
                return self._getitem(st, ids[0][1].source, k, node, fr)
            out = []
            for s, b in self.segs_truth(st, segs):
                if b:
                    out.append((s, Sym("index", (Sym("listv", (tuple(segs),), LIST), k))))
                elif i in (0, -1):
                    out.append((s, self.exc("IndexError", ("index", ref), where=self.where(fr, node))))
            return out
        if isinstance(k, Sym) and k.op == "idx":
            if len(segs) == 1 and segs[0][0] == "rep":
                r = segs[0][1]
                if r.source == k.args[0] and len(r.alts) == 1 and len(r.alts[0].segs) == 1 and \
                        r.alts[0].segs[0][0] == "e" and not r.partial and not r.rev:
                    return [(st, r.alts[0].segs[0][1])]
        return [(st, opaque(ANY, "index", Sym("listv", (tuple(segs),), LIST), k))]

    def mk_slice(self, o, lo, hi, step):
        return Sym("slice", (o, lo, hi), (o.ty if isinstance(o, Sym) else STR if isinstance(o, Const) else LIST).w(opt=False, lits=None))

    def slice_(self, st, o, lo, hi, step, node, fr):
        if isinstance(o, Sentinel):
            return [(st, self.exc("TypeError", ("opt", getattr(o, "src", o)), where=self.where(fr, node)))]
        full = lo in (NONE_V, Const(0)) and hi == NONE_V and step in (NONE_V, Const(1))
        rev = lo == NONE_V and hi == NONE_V and step == Const(-1)
        consts = all(isinstance(x, Const) for x in (lo, hi, step))
        if isinstance(o, Const) and consts:
            try:
                return [(st, Const(o.v[slice(lo.v, hi.v, step.v)]))]
            except Exception:
                return [(st, unk("slice"))]
        if isinstance(o, Const) and isinstance(o.v, str) and step in (NONE_V, Const(1)) and \
                all(isinstance(x, (Const, Sym)) for x in (lo, hi)):
            return [(st, self.mk_slice(o, NONE_V if lo == Const(0) else lo, hi, step))]
        if isinstance(o, TupV) and consts:
            return [(st, TupV(o.items[slice(lo.v, hi.v, step.v)]))]
        if isinstance(o, Ref):
            ob = self.heap_get(st, o)
            if isinstance(ob, ListO):
                s = st.copy()
                if full:
                    return [(s, self.alloc(s, ListO(ob.segs)))]
                if rev:
                    return [(s, self.alloc(s, ListO(self.reverse_segs(ob.segs))))]
                if consts and all(x[0] == "e" for x in ob.segs):
                    return [(s, self.alloc(s, ListO(ob.segs[slice(lo.v, hi.v, step.v)])))]
                if consts and step in (NONE_V, Const(1)) and isinstance(lo.v, int) and lo.v > 0 and hi.v is None \
                        and all(x[0] == "e" for x in ob.segs[:lo.v]) and len(ob.segs) >= lo.v:
                    return [(s, self.alloc(s, ListO(ob.segs[lo.v:])))]
                if len(ob.segs) == 1 and is_ident(ob.segs[0]) and step in (NONE_V, Const(1)):
                    return [(st, self.mk_slice(ob.segs[0][1].source, lo, hi, step))]
                if step in (NONE_V, Const(1)):
                    lv = Sym("listv", (tuple(ob.segs),), LIST)
                    return [(st, self.mk_slice(lv, lo, hi, step))]
                return [(s, self.alloc(s, ListO((unk_seg("slice", "slice", ob.segs, lo, hi, step),))))]
            return [(st, unk("slice"))]
        if isinstance(o, Sym):
            if full:
                return [(st, o)]
            if o.ty.kind == "list" and step in (NONE_V, Const(1)) and (
                    lo in (NONE_V, Const(0)) and hi == Const(1) or lo == Const(-1) and hi == NONE_V):
                # at most one element
                out = []
                for s, b in self.truth(st, o):
                    s = s.copy()
                    out.append((s, self.alloc(s, ListO(
                        [("e", Sym("index", (o, Const(0) if lo != Const(-1) else lo), elem_ty(o)))] if b else []))))
                return out
            if rev and o.ty.kind == "list":
                s = st.copy()
                return [(s, self.alloc(s, ListO([ident_rep(o, elem_of(o), rev=True)])))]
            if step not in (NONE_V, Const(1)):
                return [(st, unk("slice"))]
            if lo == Const(0):
                lo = NONE_V
            x = unended(o, -hi.v) if consts and lo == NONE_V and isinstance(hi.v, int) else \
                unended(o, lo.v, True) if consts and hi == NONE_V and isinstance(lo.v, int) else None
            if x is not None:
                return [(st, x)]
            return [(st, self.mk_slice(o, lo, hi, step))]
        return [(st, unk("slice"))]

    def reverse_segs(self, segs):
        out = []
        for s in reversed(segs):
            if s[0] == "rep":
                r = s[1]
                out.append(("rep", Rep(r.source, [Alt(a.guard, tuple(reversed(a.segs)), a.events, a.exit)
                                                  for a in r.alts], r.partial, not r.rev, r.why, r.id)))
            elif s[0] == "cond":
                out.append(("cond", s[1], tuple(self.reverse_segs(s[2])), tuple(self.reverse_segs(s[3]))))
            else:
                out.append(s)
        return tuple(out)

    def setitem(self, st, o, k, v, node, fr):
        out = []
        for s, x in self.norm(st, o):
            s = s.copy()
            x = self.promote(s, x)
            if isinstance(x, Sentinel):
                out.append((s, self.exc("TypeError", ("opt", x), where=self.where(fr, node))))
            elif isinstance(x, Ref):
                ob = self.heap_get(s, x)
                if self.runtime and x.id in self.base_heap:
                    s.ev("global_write", self.global_name(x), "item", fr.func, self.where(fr, node), k, self.deepval(s, v))
                if isinstance(ob, DictO):
                    if isinstance(ob.owner, tuple):
                        s.ev("mutate", ob.owner[1], "item", self.where(fr, node))
                    ent = dict(ob.entries)
                    if isinstance(k, (Const, EnumM, ClassV)) or k in ent:
                        if k in ent:
                            ent[k] = (v, ())
                        else:
                            ent[k] = (v, ())
                        s.heap[x.id] = DictO(ent, ob.base, ob.deleted - {k}, ob.owner, ob.unk, ob.deep)
                    elif isinstance(k, Sym) and k.op == "otherkey":
                        ent[k] = (v, ())
                        s.heap[x.id] = DictO(ent, ob.base, ob.deleted, ob.owner, ob.unk, ob.deep)
                    else:
                        # one symbolic key per turn of a loop (see interp.summarise)
                        u = ("one", ob.unk[1], k, v) if isinstance(ob.unk, tuple) and ob.unk[0] == "prev" and not ent \
                            and isinstance(k, Sym) else ("put", k, v) if ob.base is None and not isinstance(ob.unk, tuple) else True
                        s.heap[x.id] = DictO(ent, ob.base, ob.deleted, ob.owner, u, ob.deep)
                        s.facts[("haskey", Sym("dict", (x.id,)), k)] = True
                elif isinstance(ob, ListO):
                    if isinstance(k, Const) and isinstance(k.v, int) and all(g[0] == "e" for g in ob.segs) \
                            and -len(ob.segs) <= k.v < len(ob.segs):
                        segs = list(ob.segs)
                        segs[k.v] = ("e", v)
                        s.heap[x.id] = ListO(segs, ob.kind)
                    elif isinstance(k, Const) and k.v in (0, -1) and len(ob.segs) == 1 and is_ident(ob.segs[0]):
                        for s2, r in self.list_index(s, x, ob, k, node, fr):
                            if isinstance(r, Raised):
                                out.append((s2, r))
                                continue
                            s2 = s2.copy()
                            src = ob.segs[0][1].source
                            sl = self.mk_slice(src, Const(1) if k.v == 0 else NONE_V, NONE_V if k.v == 0 else Const(-1),
                                               NONE_V)
                            rest = ident_rep(sl, elem_of(sl))
                            s2.heap[x.id] = ListO([("e", v), rest] if k.v == 0 else [rest, ("e", v)], ob.kind)
                            out.append((s2, NONE_V))
                        continue
                    elif isinstance(k, Sym) and k.op == "idx" and ob.segs and ob.segs[0][0] == "prev" and (
                            len(ob.segs) == 1 or len(ob.segs) == 2 and ob.segs[1][0] == "unk" and
                            isinstance(ob.segs[1][1], tuple) and ob.segs[1][1][1] == k):
                        # the item of this turn of a loop is replaced (see interp.summarise)
                        s.heap[x.id] = ListO((ob.segs[0], ("unk", ("set", k, v))), ob.kind)
                    else:
                        s.heap[x.id] = ListO((unk_seg("item assignment", "set", ob.segs, k, v),), ob.kind)
                out.append((s, NONE_V))
            else:
                s.ev("mutate", x, "item", self.where(fr, node), k, v)
                out.append((s, NONE_V))
        return out

    def promote(self, st, x):
        """A container inside a deep copy is about to be changed: give it an object of its own.  Changes st."""
        if not (isinstance(x, Sym) and x.op == "copyof" and isinstance(x.args[0], Sym) and x.args[0].op == "get"):
            return x
        g = x.args[0]
        homes = [i for i, o in st.heap.items() if isinstance(o, DictO) and o.deep and o.base == g.args[0] and
                 g.args[1] not in o.entries and g.args[1] not in o.deleted and not o.unk]
        if len(homes) != 1 or x.ty.kind not in ("dict", "any", "list"):
            return x
        r = self.alloc(st, ListO([ident_rep(x, elem_of(x))]) if x.ty.kind == "list" else DictO({}, g, deep=True))
        o = st.heap[homes[0]]
        st.heap[homes[0]] = DictO({**o.entries, g.args[1]: (r, ())}, o.base, o.deleted, o.owner, o.unk, o.deep)
        for k, v in list(st.env.items()):
            if isinstance(v, Sym) and v == x:
                st.env[k] = r
        return r

    def deepval(self, st, v, d=0):
        """The value with the containers it refers to spelled out (for side-effect records)."""
        if isinstance(v, Ref) and d < 4:
            o = self.heap_get(st, v)
            if isinstance(o, DictO):
                items = [x for k, (x, _) in o.entries.items()] + [k for k in o.entries if isinstance(k, Sym)]
                if o.base is not None:
                    items.append(o.base)
                return TupV(tuple(self.deepval(st, x, d + 1) for x in items if isinstance(x, V)))
            if isinstance(o, ListO):
                return Sym("listv", (tuple(o.segs),), LIST)
            if isinstance(o, InstO):
                return TupV(tuple(self.deepval(st, x, d + 1) for x in o.fields.values()))
        return v

    def global_name(self, ref):
        for (fid, n), v in self.base_env.items():
            if v == ref:
                return f"{fid[1]}.{n}"
        return "module-level object"

    # ------------------------------------------------------------------ sequences
    def list_append(self, st, ref, v):
        o = self.heap_get(st, ref)
        st.heap[ref.id] = ListO(o.segs + (("e", v),), o.kind)

    def list_extend(self, st, ref, it, node, fr):
        out = []
        for s, x in self.norm(st, it):
            for s2, segs in self.segments(s, x, node, fr):
                if isinstance(segs, Raised):
                    out.append((s2, segs))
                    continue
                s3 = s2.copy()
                if self.unordered(s, x):
                    s3.ev("setorder", "extend", self.where(fr, node))
                if self.runtime and ref.id in self.base_heap:
                    s3.ev("global_write", self.global_name(ref), "extend", fr.func, self.where(fr, node), None, None)
                o = self.heap_get(s3, ref)
                s3.heap[ref.id] = ListO(o.segs + tuple(segs), o.kind)
                out.append((s3, NONE_V))
        return out

    def segments(self, st, v, node, fr):
        """v already normalised -> list of (state, segs | Raised)"""
        if isinstance(v, Sentinel):
            return [(st, self.exc("TypeError", ("opt", getattr(v, "src", v)), where=self.where(fr, node)))]
        if isinstance(v, TupV):
            return [(st, tuple(("e", i) for i in v.items))]
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return [(st, tuple(("e", Const(c)) for c in v.v[:500]))]
            return [(st, self.exc("TypeError", ("iter",), where=self.where(fr, node)))]
        if isinstance(v, Ref):
            o = self.heap_get(st, v)
            if isinstance(o, ListO):
                return [(st, o.segs)]
            if isinstance(o, IterO):
                s = st.copy()
                s.heap[v.id] = IterO((), True)
                return [(s, o.segs)]
            if isinstance(o, DictO):
                return [(st, tuple((g[0], g[1], tuple(("e", x[1].items[0]) for x in g[2]), ()) if g[0] == "cond" else
                                   (("e", g[1].items[0]) if g[0] == "e" else g) for g in self.dict_items(st, v, o)))]
            if isinstance(o, InstO):
                f = o.cls.find("__iter__")
                if f and isinstance(f[1], FuncV):
                    out = []
                    for s, w in self.call(st, BoundV(f[1], v), [], {}, node, fr):
                        if isinstance(w, Raised):
                            out.append((s, w))
                        else:
                            for s2, w2 in self.norm(s, w):
                                out += self.segments(s2, w2, node, fr)
                    return out
            return [(st, (("unk", "iter"),))]
        if isinstance(v, ClassV) and v.info.is_enum:
            seen, out = set(), []
            for m in v.info.members.values():
                if m.name not in seen:
                    seen.add(m.name)
                    out.append(("e", m))
            return [(st, tuple(out))]
        if isinstance(v, Sym):
            if is_unknown(v):
                return [(st, (ident_rep(v, unk("item of unknown")),))]
            if v.op == "range" and isinstance(v.args[0], Sym) and v.args[0].op == "len":
                src = v.args[0].args[0]
                return [(st, (ident_rep(src, Sym("idx", (src,), INT)),))]
            if v.op == "listv":
                return [(st, v.args[0])]
            if v.op == "slice" and isinstance(v.args[0], Sym) and v.args[0].op == "listv":
                return [(st, (ident_rep(v, Sym("elem", (v,))),))]
            if v.ty.kind == "dict" or v.op in ("json",):
                items = self.json_items(v)
                return [(st, tuple((g[0], g[1], tuple(("e", x[1].items[0]) for x in g[2]), ()) if g[0] == "cond" else
                                   ("rep", Rep(g[1].source, [Alt((), [("e", otherkey())])])) for g in items))]
            if v.ty.kind in ("int", "float", "bool", "none"):
                return [(st, self.exc("TypeError", ("iter",), where=self.where(fr, node)))]
            return [(st, (ident_rep(v, elem_of(v)),))]
        if isinstance(v, Ext):
            return [(st, (ident_rep(unk(v.name, LIST), unk("item")),))]
        return [(st, (("unk", "iter"),))]

    def json_items(self, base):
        """items() of a symbolic JSON object: declared keys (each maybe present) + unknown keys."""
        b = strip_copy(base)
        segs = []
        for k in self.universe.get(b, ()):
            segs.append(("cond", ((("haskey", b, Const(k)), True),),
                         (("e", TupV([Const(k), self.json_get(base, Const(k))])),), ()))
        segs.append(("rep", Rep(Sym("otheritems", (b,), LIST),
                                [Alt((), [("e", TupV([otherkey(), Sym("get", (b, otherkey()))]))])])))
        return segs

    def dict_items(self, st, ref, o):
        segs = []
        if o.base is not None:
            b = strip_copy(o.base)
            for k in self.universe.get(b, ()):
                kk = Const(k)
                if kk in o.entries or kk in o.deleted:
                    continue
                segs.append(("cond", ((("haskey", b, kk), True),),
                             (("e", TupV([kk, self.json_get(o.base, kk, o.deep)])),), ()))
            segs.append(("rep", Rep(Sym("otheritems", (b,), LIST),
                                    [Alt((), [("e", TupV([otherkey(), Sym("get", (b, otherkey()))]))])])))
        for k, (v, g) in o.entries.items():
            e = ("e", TupV([k, v]))
            segs.append(("cond", g, (e,), ()) if g else e)
        if isinstance(o.unk, tuple) and o.unk[0] == "pairs" and not segs:
            segs.append(("rep", o.unk[1]))
        elif o.unk:
            segs.append(("unk", "dict"))
        return segs

    # ------------------------------------------------------------------ isinstance
    def type_names(self, c):
        """Flatten the 2nd argument of isinstance -> list of ('cls', info) | ('ext', name)"""
        if isinstance(c, TupV):
            return [x for i in c.items for x in self.type_names(i)]
        if isinstance(c, ClassV):
            return [("cls", c.info)]
        if isinstance(c, Ext):
            return [("ext", c.name)]
        if isinstance(c, Sym) and c.op == "alias" and c.args and c.args[0] == "|":
            return self.type_names(c.args[1]) + self.type_names(c.args[2])
        if isinstance(c, Sym) and c.op == "typeof_opt":
            return [("ext", "func_args._Sentinel")]
        return [("?", None)]

    def isinstance_(self, st, v, c, node, fr):
        """-> list of (state, V(bool))"""
        out = []
        tn = self.type_names(c)
        for s, x in self.norm(st, v):
            out += [(s2, Const(b)) for s2, b in self._isinst(s, x, tn)]
        return out

    KIND2EXT = {"str": {"builtins.str"}, "int": {"builtins.int", "numbers.Number", "numbers.Integral"},
                "float": {"builtins.float", "builtins.int", "numbers.Number"},
                "bool": {"builtins.bool", "builtins.int"}, "list": {"builtins.list"}, "dict": {"builtins.dict"},
                "bytes": {"builtins.bytes"}, "none": {"builtins.NoneType"}}
    ABCS = {"list": {"collections.abc.Sequence", "collections.abc.Iterable", "typing.Sequence", "typing.Iterable",
                     "collections.abc.MutableSequence", "collections.abc.Sized", "collections.abc.Collection"},
            "dict": {"collections.abc.Mapping", "typing.Mapping", "collections.abc.Iterable",
                     "collections.abc.MutableMapping"},
            "str": {"collections.abc.Sequence", "collections.abc.Iterable", "typing.Sequence", "typing.Iterable"}}

    def _isinst(self, st, x, tn):
        exts = {n for k, n in tn if k == "ext"}
        infos = [n for k, n in tn if k == "cls"]
        if any(k == "?" for k, _ in tn):
            return self.decide(st, ("unk", next(TT._unk)))
        if "builtins.object" in exts:
            return [(st, True)]
        if isinstance(x, Sentinel):
            return [(st, "func_args._Sentinel" in exts)]

        def kind(kd):
            if kd == "float":
                return bool(exts & {"builtins.float", "numbers.Number"})
            if kd == "bool":
                return bool(exts & {"builtins.bool", "builtins.int"})
            return bool(exts & (self.KIND2EXT.get(kd, set()) | self.ABCS.get(kd, set())))

        if isinstance(x, Const):
            for e in exts:
                t = getattr(builtins, e.split(".")[-1], None) if e.startswith("builtins.") else None
                if isinstance(t, type) and isinstance(x.v, t):
                    return [(st, True)]
                if e == "builtins.NoneType" and x.v is None:
                    return [(st, True)]
            return [(st, False)]
        if isinstance(x, TupV):
            return [(st, "builtins.tuple" in exts)]
        if isinstance(x, EnumM):
            return [(st, x.cls in infos or any(x.cls.is_sub(i.name) for i in infos) or "enum.Enum" in exts)]
        if isinstance(x, ClassV):
            return [(st, "builtins.type" in exts)]
        if isinstance(x, ExcV):
            if any(i.name in x.names for i in infos) or any(e.split(".")[-1] in x.names for e in exts):
                return [(st, True)]
            m = self.exc_match(x, TupV(tuple([ClassV(i) for i in infos] + [Ext(e) for e in sorted(exts)])))
            if m == "maybe":
                return self.decide(st, ("isinst", x, tuple(sorted(exts | {i.name for i in infos}))))
            return [(st, m == "yes")]
        if isinstance(x, Ref):
            o = self.heap_get(st, x)
            if isinstance(o, ListO):
                kd = "set" if o.kind == "set" else "list"
                return [(st, kind("list") if kd == "list" else bool(exts & {"builtins.set", "builtins.frozenset"}))]
            if isinstance(o, DictO):
                return [(st, kind("dict"))]
            if isinstance(o, InstO):
                return [(st, any(o.cls.is_sub(i.name) for i in infos))]
            return [(st, False)]
        if isinstance(x, Sym):
            k = x.ty.kind
            if k == "inst":
                cl = self.classes_of(st, x)
                if not cl:
                    return self.decide(st, ("isinst", x, tuple(sorted(i.name for i in infos))))
                return self.cls_exact(st, x, {c for c in cl if c in self.classes and
                                              any(self.classes[c].is_sub(i.name) for i in infos)})
            if k == "any" or is_unknown(x):
                f = st.facts
                for p, b in f.items():
                    if p[0] == "isinst" and p[1] == x and b and not (set(p[2]) & exts):
                        return [(st, False)]
                return self.decide(st, ("isinst", x, tuple(sorted(exts | {i.name for i in infos}))))
            return [(st, kind(k))]
        if isinstance(x, (FuncV, BoundV, MethV, Ext)):
            return [(st, bool(exts & {"collections.abc.Callable", "typing.Callable"}))]
        return self.decide(st, ("isinst", x, tuple(sorted(exts))))


def otherkey():
    return Sym("otherkey", (), STR)
