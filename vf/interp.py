"""Path-sensitive abstract interpreter over the Python AST.

It never imports or runs the analysed package.  Every construct is given an abstract
meaning over the domain of dom.py: declared types, symbolic terms, facts about terms,
and loop summaries (`Rep`).  A construct without a precise meaning yields an `unknown`
term; rules treat anything that depends on one as undecided.
"""
from __future__ import annotations

import time
import ast
import builtins
import itertools
import os

from .dom import *  # noqa
from .terms import *  # noqa
from . import terms as TT
from .models import Models
from .calls import Calls
from . import calls as _calls, rewrite, regex


class Budget(Exception):
    pass


class AnchorMissing(Exception):
    pass


class Frame:
    __slots__ = ("fid", "mod", "chain", "func", "cls", "selfv", "globals_", "nonlocals", "on_yield", "fv", "locals_")

    def __init__(self, fid, mod, chain, func="", cls=None, selfv=None):
        self.fid, self.mod, self.chain, self.func, self.cls, self.selfv = fid, mod, chain, func, cls, selfv
        self.globals_, self.nonlocals = set(), set()
        self.on_yield = None
        self.fv = None
        self.locals_ = None


def holds(x, what, d=0):
    """Does a term, segment or container of them contain `what`?"""
    if isinstance(x, tuple):
        return x == what or any(holds(y, what, d + 1) for y in x)
    if isinstance(x, Sym):
        return any(holds(y, what, d + 1) for y in x.args)
    if isinstance(x, Rep):
        return holds(x.source, what) or any(holds(a.guard, what) or holds(a.segs, what) for a in x.alts)
    if isinstance(x, TupV):
        return any(holds(y, what, d + 1) for y in x.items)
    return False


def vague_guard(g):
    for q in g[1:]:
        for v in q if isinstance(q, tuple) else (q,):
            if isinstance(v, V) and has_unknown(v):
                return True
    return False


LIST_MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"}

CANON = {
    "OPT": OPT, "REQ": REQ,
}
EXT_SUBMODULES = {"func_args.api", "func_args.arg", "func_args.exc", "func_args.dataclass", "func_args.type_hint"}


def canon_ext(dotted):
    if dotted == "typing.TYPE_CHECKING":
        return FALSE
    if dotted == "dataclasses.MISSING":
        return MISSING
    parts = dotted.split(".")
    if parts[0] == "func_args" and len(parts) > 1:
        leaf = parts[-1]
        if leaf in CANON:
            return CANON[leaf]
        if len(parts) == 2 and "func_args." + leaf in EXT_SUBMODULES:
            return Ext(dotted)
        return Ext("func_args." + leaf)
    if dotted.startswith("typing_extensions."):
        return canon_ext("typing." + dotted.split(".", 1)[1])
    return Ext(dotted)


PROCESS_VALUES = {"sys.platform": STR, "sys.byteorder": STR, "sys.executable": STR, "sys.prefix": STR, "os.name": STR,
                  "os.sep": STR, "os.altsep": ANY, "os.linesep": STR, "os.pathsep": STR, "os.curdir": STR, "os.extsep": STR,
                  "time.timezone": INT, "time.altzone": INT, "time.daylight": INT, "sys.maxsize": INT,
                  "sys.argv": Ty("list", elem=STR)}


def process_value(v):
    """What a variable of the standard library that differs from process to process stands for."""
    return Sym("ext", (v.name, (), ()), PROCESS_VALUES[v.name]) if v.name in PROCESS_VALUES else v


def accumulates(node):
    for b in node.body:
        for n in ast.walk(b):
            if isinstance(n, (ast.AugAssign, ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ("append", "extend", "insert", "write"):
                return True
    return False


class Engine(Models, Calls):
    PKG = "atlas_doc_parser"

    def __init__(self, root="/repo", overlay=None):
        self.root = root
        self.overlay = overlay or {}
        self.base_env, self.base_heap = {}, {}
        self.modules = {}      # name -> dict(path, tree, is_pkg, state)
        self.classes = {}      # name -> ClassInfo
        self.class_dups = set()
        self.counter = itertools.count(1)
        self.stack = []
        self.runtime = False
        self.universe = {}     # JSON term -> declared keys of the object being parsed
        self.json_types = {}
        self.nstates = 0
        self.budget = 60000
        self.deadline = float("inf")
        self.calls_seen = 0
        self.md_policy = None  # hook deciding what child conversions may raise
        self.mark_policy = None
        self.stmts_done = set()
        self.funcs_done = set()
        self.unknowns = {}
        self.sources = {}
        self.intercept_parse = True
        self.loop_steps = {}
        self._mutated = {}
        self._bodies = {}
        self._consuming = {}
        self.root_cls = None
        self.free_type = False
        self.nullable = None
        self.in_loop = []
        self._closure_cache = {}
        self.load_all()

    # ------------------------------------------------------------------ loading
    def load_all(self):
        pkgdir = os.path.join(self.root, self.PKG)
        if not os.path.isdir(pkgdir):
            raise AnchorMissing(f"package directory {pkgdir} not found")
        for d, ds, fs in os.walk(pkgdir):
            ds[:] = sorted(x for x in ds if x not in ("tests", "__pycache__", "docs"))
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)
                    self._add_file(rel, p)
        for rel in self.overlay:
            if rel.endswith(".py") and rel not in self.sources:
                self._add_file(rel, os.path.join(self.root, rel))
        self.init_state = State()
        for m in sorted(self.modules):
            self.load(m)
        self.base_env = self.init_state.env
        self.base_heap = self.init_state.heap
        self.init_events = self.init_state.events
        self.init_state = None
        self.runtime = True
        self._resolve_types()

    def _add_file(self, rel, p):
        src = self.overlay.get(rel)
        if src is None:
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
        name = rel[:-3].replace(os.sep, ".")
        is_pkg = name.endswith(".__init__")
        if is_pkg:
            name = name[: -len(".__init__")]
        self.sources[rel] = src
        self.modules[name] = dict(path=rel, tree=ast.parse(src, rel), is_pkg=is_pkg, state=0)

    def load(self, name):
        m = self.modules.get(name)
        if m is None or m["state"]:
            return
        m["state"] = 1
        # parents first
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        fid = ("mod", name)
        fr = Frame(fid, name, ())
        st = self.init_state
        st.env[(fid, "__name__")] = Const(name)
        st.env[(fid, "__file__")] = Const(m["path"])
        saved = self.stack
        self.stack = []
        try:
            res = self.block(m["tree"].body, st, fr)
        finally:
            self.stack = saved
        # a module body is straight-line code: keep the first normal outcome
        for s, sig in res:
            if sig[0] != "raise":
                self.adopt(s)
                break
        else:
            m["load_error"] = res[0][1][1] if res else None
            if res:
                self.adopt(res[0][0])
        m["state"] = 2

    def adopt(self, s):
        if s is not self.init_state:
            t = self.init_state
            t.env, t.heap, t.facts, t.events = s.env, s.heap, s.facts, s.events
            t.cls, t.vals, t.nvals, t.rng = s.cls, s.vals, s.nvals, s.rng

    def new_state(self):
        s = State()
        return s

    def heap_get(self, st, ref):
        o = st.heap.get(ref.id)
        if o is None:
            o = self.base_heap.get(ref.id)
        return o

    def alloc(self, st, obj):
        r = Ref(next(self.counter))
        st.heap[r.id] = obj
        return r

    def env_get(self, st, k):
        v = st.env.get(k)
        if v is None:
            v = self.base_env.get(k)
        return v

    def mod_of_frame(self, fr):
        return self.modules[fr.mod]

    def where(self, fr, node):
        path = self.modules[fr.mod]["path"] if fr.mod in self.modules else fr.mod
        return (path, getattr(node, "lineno", 0), fr.func or "<module>")

    # ------------------------------------------------------------------ annotations
    def _resolve_types(self):
        for ci in list(self.classes.values()):
            for fv in ci.fields.values():
                if fv.owner == ci.name:
                    fv.ty = self.parse_ann(ci.ann.get(fv.name), ci.mod)
                    if fv.default == OPT:
                        fv.ty = fv.ty.w(opt=True)
        self.widen_marks()
        for ci in list(self.classes.values()):
            for n, fv in ci.fields.items():
                if fv.owner != ci.name and fv.owner in self.classes:
                    src = self.classes[fv.owner].fields.get(n)
                    if src is not None:
                        fv.ty = src.ty

    def widen_marks(self):
        """The parser accepts any mark in `marks`, whatever the annotation says."""
        marks = frozenset(c for c in self.classes if self.tag(c) is not None and self.classes[c].is_sub("BaseMark"))
        nodes = frozenset(c for c in self.classes if self.tag(c) is not None and self.classes[c].is_sub("BaseNode"))
        for ci in self.classes.values():
            for n, fv in ci.fields.items():
                if fv.owner != ci.name or not self.is_model(ci.name):
                    continue
                if n == "marks" and fv.ty.kind == "list":
                    fv.ty = fv.ty.w(elem=Ty("inst", classes=marks))
                elif n == "content" and fv.ty.kind == "list":
                    e = fv.ty.elem
                    cl = frozenset(c for c in (e.classes or ()) if c in nodes) if e is not None else frozenset()
                    fv.ty = fv.ty.w(elem=Ty("inst", classes=cl or nodes))

    def parse_ann(self, a, mod):
        if a is None:
            return ANY
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                try:
                    return self.parse_ann(ast.parse(a.value, mode="eval").body, mod)
                except SyntaxError:
                    return ANY
            if a.value is None:
                return NONE
            return ANY
        if isinstance(a, (ast.Name, ast.Attribute)):
            n = a.id if isinstance(a, ast.Name) else a.attr
            simple = {"str": STR, "int": INT, "float": FLOAT, "bool": BOOL, "list": LIST, "dict": DICT,
                      "List": LIST, "Dict": DICT, "Any": ANY, "T_DATA": DICT, "T_KWARGS": DICT, "bytes": BYTES}
            if n in simple:
                return simple[n]
            if n in self.classes:
                return Ty("inst", classes=[n])
            v = self.base_env.get((("mod", mod), n)) or (self.init_state and self.init_state.env.get((("mod", mod), n)))
            if isinstance(v, Sym) and v.op == "alias":
                return v.ty
            if n in ("T_NODE", "T_MARK"):
                return ANY
            if n[:4] in ("Node", "Mark"):
                return Ty("inst", classes=[])
            return ANY
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return self._union([self.parse_ann(a.left, mod), self.parse_ann(a.right, mod)])
        if isinstance(a, ast.Subscript):
            h = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, "attr", "")
            items = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if h in ("list", "List", "Sequence", "Iterable", "Tuple", "tuple", "set", "frozenset"):
                return Ty("list", elem=self._union([self.parse_ann(i, mod) for i in items]))
            if h in ("dict", "Dict", "Mapping"):
                return DICT
            if h in ("Union",):
                return self._union([self.parse_ann(i, mod) for i in items])
            if h in ("Optional",):
                return self._union([self.parse_ann(items[0], mod), NONE])
            if h == "Literal":
                lits = [i.value for i in items if isinstance(i, ast.Constant)]
                others = [i for i in items if not isinstance(i, ast.Constant)]
                opt = any(isinstance(i, ast.Name) and i.id == "OPT" for i in others)
                if lits and all(isinstance(x, str) for x in lits):
                    return Ty("str", lits=[Const(x) for x in lits], opt=opt)
                if lits and all(isinstance(x, bool) for x in lits):
                    return BOOL
                if lits and all(isinstance(x, int) for x in lits):
                    return INT
                return Ty("any", opt=opt) if lits or not opt else Ty("never", opt=True)
            if h in ("Annotated", "Final", "ClassVar"):
                return self.parse_ann(items[0], mod)
        return ANY

    def _union(self, tys):
        tys = [t for t in tys if t.kind != "never"] or tys
        opt = any(t.opt for t in tys)
        kinds = {t.kind for t in tys}
        if len(tys) == 1:
            return tys[0]
        if kinds == {"inst"}:
            cl = frozenset().union(*[t.classes or frozenset() for t in tys])
            return Ty("inst", opt=opt, classes=cl)
        if len(kinds) == 1:
            return Ty(tys[0].kind, opt=opt, elem=tys[0].elem)
        return Ty("any", opt=opt)

    def tag(self, cname):
        ci = self.classes.get(cname)
        if ci is None:
            return None
        f = ci.fields.get("type")
        if f is not None and isinstance(f.default, Const):
            return f.default
        return None

    def is_model(self, cname):
        ci = self.classes.get(cname)
        return bool(ci and ci.is_sub("BaseMarkOrNode"))

    # ------------------------------------------------------------------ facts
    def classes_of(self, st, t):
        c = st.cls.get(t)
        if c is None and isinstance(t, Sym):
            c = t.ty.classes
        return c

    def fact(self, st, pred):
        return st.facts.get(pred)

    def decide(self, st, pred):
        """-> list of (state, bool)"""
        v = st.facts.get(pred)
        if v is not None:
            return [(st, v)]
        r = self.decide_tag(st, pred)
        if r is not None:
            return r
        v = self.implied(st, pred)
        if v is not None:
            return [(st, v)]
        out = []
        self.nstates += 1
        if self.nstates > self.budget:
            raise Budget()
        if not self.nstates % 64:
            self.tick()
        for b in (True, False):
            s = st.copy()
            s.facts[pred] = b
            self.derive(s, pred, b)
            out.append((s, b))
        return out

    def implied(self, st, pred):
        k = pred[0]
        if k == "isopt":
            if isinstance(pred[1], Sym) and not pred[1].ty.opt:
                return False
        if k == "truthy":
            t = pred[1]
            if st.facts.get(("blank", t)) is False:
                return True
            if isinstance(t, Sym):
                if t.op == "cat" and any(isinstance(p, Const) for p in t.args):
                    return True
                if t.op == "cat" and any(st.facts.get(("truthy", p)) is True for p in t.args):
                    return True
                if t.op == "meth" and t.args[0] in ("split", "rsplit") and len(t.args) >= 3 and t.args[2] != NONE_V and \
                        not (isinstance(t.args[2], Sym) and t.args[2].op == "kwarg" and t.args[2].args[0] != "sep"):
                    return True
                if any(f[0] == "lt" and b and isinstance(f[2], Sym) and f[2].op == "len" and f[2].args[0] == t and
                       isinstance(f[1], Const) and f[1].v >= 0 for f, b in st.facts.items()):
                    return True
                if t in self.in_loop:
                    return True         # one of its elements is at hand
                if t.op == "len":
                    return st.facts.get(("truthy", t.args[0]))
        if k == "blank":
            t = pred[1]
            if st.facts.get(("truthy", t)) is False:
                return True
            if isinstance(t, Sym) and t.op == "cat" and any(isinstance(p, Const) and p.v.strip() for p in t.args):
                return False
            if isinstance(t, Sym) and t.op == "meth" and t.args[0] in ("strip", "rstrip", "lstrip") \
                    and len(t.args) == 2:
                return st.facts.get(("blank", t.args[1]))
        if k == "contains":
            t, c = pred[1], pred[2]
            if isinstance(t, Sym) and t.op == "cat" and isinstance(c, Const):
                if any(isinstance(p, Const) and isinstance(c.v, str) and c.v in p.v for p in t.args):
                    return True
        return None

    def derive(self, st, pred, b):
        k = pred[0]
        if k == "blank" and b is False:
            st.facts.setdefault(("truthy", pred[1]), True)
        if k == "truthy" and b is False and isinstance(pred[1], Sym) and pred[1].ty.kind == "str":
            st.facts.setdefault(("blank", pred[1]), True)
        if k == "contains" and b is True:
            st.facts.setdefault(("truthy", pred[1]), True)

    def fork_guard(self, st, guard):
        """guard: tuple of (pred, bool) -> list of (state, holds)"""
        out = [(st, True)]
        for pred, want in guard:
            nxt = []
            for s, ok in out:
                if not ok:
                    nxt.append((s, False))
                    continue
                for s2, b in self.decide(s, pred):
                    nxt.append((s2, b == want))
            out = nxt
        return out

    def narrow_cls(self, st, t, keep):
        s = st.copy()
        s.cls[t] = frozenset(keep)
        return s

    def phi(self, pred, a, b):
        if a == b:
            return a
        ty = ANY
        ta = a.ty if isinstance(a, Sym) else None
        tb = b.ty if isinstance(b, Sym) else None
        if ta is not None and tb is not None and ta == tb:
            ty = ta
        elif isinstance(a, Const) and isinstance(b, Const) and type(a.v) is type(b.v) and isinstance(a.v, str):
            ty = STR
        elif ta is not None and ta.kind == "str" and isinstance(b, Const) and isinstance(b.v, str):
            ty = STR
        elif tb is not None and tb.kind == "str" and isinstance(a, Const) and isinstance(a.v, str):
            ty = STR
        return Sym("phi", (pred, a, b), ty)

    def norm(self, st, v):
        """Resolve phi and optional-ness -> list of (state, value)."""
        if isinstance(v, Sym):
            if v.op == "phi":
                out = []
                for s, b in self.decide(st, v.args[0]):
                    out += self.norm(s, v.args[1] if b else v.args[2])
                return out
            if v.ty.opt:
                out = []
                for s, b in self.decide(st, self.isopt_pred(v)):
                    out.append((s, OPTV(strip_copy(v)) if b else v))
                return out
        elif isinstance(v, Ext) and self.runtime:
            v = process_value(v)
        return [(st, v)]

    # ------------------------------------------------------------------ exceptions
    def exc(self, name, origin, args=(), where=None):
        c = getattr(builtins, name, None)
        names = [k.__name__ for k in c.__mro__ if k is not object] if isinstance(c, type) else [name, "Exception",
                                                                                                "BaseException"]
        return Raised(ExcV(names, args, origin, where))

    def exc_from_class(self, info, args, origin, where, ref=None):
        names = []
        for c in info.mro:
            if isinstance(c, ClassInfo):
                names.append(c.name)
            else:
                n = c.name.split(".")[-1]
                b = getattr(builtins, n, None)
                if isinstance(b, type):
                    names += [k.__name__ for k in b.__mro__ if k is not object and k.__name__ not in names]
                else:
                    names.append(n)
                    if n == "ParamError":
                        names += ["Exception", "BaseException"]
        if "BaseException" not in names:
            names += [x for x in ("Exception", "BaseException") if x not in names]
        return ExcV(names, args, origin, where, ref=ref)

    def any_exc(self, origin, where=None, names=("Exception", "BaseException")):
        return Raised(ExcV(names, (), origin, where, any=True))

    def handler_names(self, v):
        if isinstance(v, TupV):
            out = []
            for i in v.items:
                out += self.handler_names(i)
            return out
        if isinstance(v, ClassV):
            return [(v.info.name, self.exc_from_class(v.info, (), ("x",), None).names)]
        if isinstance(v, Ext):
            n = v.name.split(".")[-1]
            b = getattr(builtins, n, None) if v.name.startswith("builtins.") else None
            if isinstance(b, type):
                return [(n, tuple(k.__name__ for k in b.__mro__ if k is not object))]
            return [(n, (n, "Exception", "BaseException"))]
        return [("?", ("?",))]

    def exc_match(self, exc, hv):
        """-> 'yes' | 'no' | 'maybe'"""
        res = "no"
        for n, names in self.handler_names(hv):
            if n in exc.names:
                return "yes"
            if n == "?":
                res = "maybe"
            elif exc.any and exc.names[0] in names:
                if exc.origin[0] == "other" and "UnimplementedTypeError" in names:
                    continue
                res = "maybe"
        return res

    # ------------------------------------------------------------------ names
    def lookup(self, st, fr, name):
        if name in fr.globals_:
            fids = (("mod", fr.mod),)
        else:
            fids = (fr.fid,) + fr.chain
        for fid in fids:
            k = (fid, name)
            v = self.env_get(st, k)
            if v is not None:
                if self.runtime and fid == ("mod", self.PKG + ".settings") and isinstance(v, Const):
                    return Sym("cfg", (name,), BOOL if isinstance(v.v, bool) else ANY)
                return v
        if hasattr(builtins, name):
            return Ext("builtins." + name)
        return None

    def assign_name(self, st, fr, name, v):
        if name in fr.globals_:
            fid = ("mod", fr.mod)
            if self.runtime:
                st.ev("global_write", fr.mod + "." + name, "global", fr.func, (self.modules[fr.mod]["path"], 0, fr.func),
                      self.base_env.get((fid, name)), self.deepval(st, v))
        elif name in fr.nonlocals:
            fid = fr.fid
            for f in fr.chain:
                if self.env_get(st, (f, name)) is not None:
                    fid = f
                    break
        else:
            fid = fr.fid
        if isinstance(v, Sym) and self.fresh_list(v) and name in self.mutated_names(fr):
            v = self.alloc(st, ListO([ident_rep(v, elem_of(v))]))
        st.env[(fid, name)] = v

    def fresh_list(self, v):
        """Is this term a list made by the expression itself (nothing else refers to it)?"""
        if not isinstance(v, Sym):
            return False
        if v.op == "meth":
            return v.args[0] in ("split", "rsplit", "splitlines")
        return v.op in ("slice", "copyof", "listv") and v.ty.kind == "list"

    def mutated_names(self, fr):
        """Names of the running function that are changed in place somewhere in it."""
        node = fr.fv.node if fr.fv is not None else None
        if node is None:
            return frozenset()
        got = self._mutated.get(id(node))
        if got is None:
            got = set()
            for n in ast.walk(node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LIST_MUTATORS \
                        and isinstance(n.func.value, ast.Name):
                    got.add(n.func.value.id)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                        isinstance(n.value, ast.Name):
                    got.add(n.value.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    got.add(n.target.id)
            self._mutated[id(node)] = got
        return got

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        cur = [(st, NORMAL)]
        for s in stmts:
            nxt = []
            self.tick()
            for st1, sig in cur:
                if sig is not NORMAL:
                    nxt.append((st1, sig))
                else:
                    nxt += self.stmt(s, st1, fr)
            cur = self.dedupe(nxt)
            if len(cur) > 3000:
                raise Budget()
        return cur

    def dedupe(self, lst):
        return lst

    def stmt(self, s, st, fr):
        if self.runtime:
            self.stmts_done.add((fr.mod, s.lineno, s.col_offset))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note_unknown(fr, s, "statement " + type(s).__name__)
            return [(st, NORMAL)]
        return m(s, st, fr)

    def note_unknown(self, fr, node, why):
        if self.runtime:
            k = (self.modules[fr.mod]["path"] if fr.mod in self.modules else "?", getattr(node, "lineno", 0), why)
            self.unknowns[k] = self.unknowns.get(k, 0) + 1

    def s_Pass(self, s, st, fr):
        return [(st, NORMAL)]

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(st, NORMAL)]
        return [(s1, ("raise", v.exc) if isinstance(v, Raised) else NORMAL) for s1, v in self.ev(s.value, st, fr)]

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [(st, ("ret", NONE_V))]
        return [(s1, ("raise", v.exc) if isinstance(v, Raised) else ("ret", v)) for s1, v in self.ev(s.value, st, fr)]

    def s_Break(self, s, st, fr):
        return [(st, BREAK)]

    def s_Continue(self, s, st, fr):
        return [(st, CONTINUE)]

    def s_Global(self, s, st, fr):
        fr.globals_ |= set(s.names)
        return [(st, NORMAL)]

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)
        return [(st, NORMAL)]

    def s_Assert(self, s, st, fr):
        out = []
        for s1, v in self.ev(s.test, st, fr):
            if isinstance(v, Raised):
                out.append((s1, ("raise", v.exc)))
                continue
            for s2, b in self.truth(s1, v):
                out.append((s2, NORMAL if b else ("raise", self.exc("AssertionError", ("raise", fr.func),
                                                                     where=self.where(fr, s)).exc)))
        return out

    def s_Assign(self, s, st, fr):
        out = []
        for s1, v in self.ev(s.value, st, fr):
            if isinstance(v, Raised):
                out.append((s1, ("raise", v.exc)))
                continue
            cur = [(s1, NORMAL)]
            for t in s.targets:
                nxt = []
                for s2, sig in cur:
                    if sig is NORMAL:
                        nxt += self.assign(t, v, s2, fr)
                    else:
                        nxt.append((s2, sig))
                cur = nxt
            out += cur
        return out

    def s_AnnAssign(self, s, st, fr):
        if fr.fid[0] == "cls" and isinstance(s.target, ast.Name):
            pass
        if s.value is None:
            return [(st, NORMAL)]
        out = []
        for s1, v in self.ev(s.value, st, fr):
            if isinstance(v, Raised):
                out.append((s1, ("raise", v.exc)))
            else:
                out += self.assign(s.target, v, s1, fr)
        return out

    def s_AugAssign(self, s, st, fr):
        out = []
        # evaluate target as expression
        load = self._as_load(s.target)
        for s1, vals in self.seq([load, s.value], st, fr):
            if isinstance(vals, Raised):
                out.append((s1, ("raise", vals.exc)))
                continue
            old, rhs = vals
            # in-place list extension
            if isinstance(s.op, ast.Add) and isinstance(old, Ref) and isinstance(self.heap_get(s1, old), ListO):
                for s2, r in self.list_extend(s1, old, rhs, s, fr):
                    out.append((s2, ("raise", r.exc) if isinstance(r, Raised) else NORMAL))
                continue
            if isinstance(s.op, ast.BitOr) and isinstance(old, Ref) and isinstance(self.heap_get(s1, old), DictO):
                for s2, r in self.call_method(s1, old, "update", [rhs], {}, s, fr):
                    out.append((s2, ("raise", r.exc) if isinstance(r, Raised) else NORMAL))
                continue
            shared = isinstance(old, Sym) and old.ty.kind in ("list", "dict") and not self.fresh_list(old) and \
                old.op not in ("bin", "fold", "loopvar", "loopout", "last", "phi", "unknown")
            for s2, v in self.binop(s1, s.op, old, rhs, s, fr):
                if isinstance(v, Raised):
                    out.append((s2, ("raise", v.exc)))
                else:
                    if shared and isinstance(s.target, ast.Name):
                        # `x += [...]` changes the list itself
                        s2 = s2.copy().ev("mutate", old, "+=", self.where(fr, s))
                    out += self.assign(s.target, v, s2, fr)
        return out

    def _as_load(self, t):
        if isinstance(t, ast.Name):
            n = ast.Name(id=t.id, ctx=ast.Load())
        elif isinstance(t, ast.Attribute):
            n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        elif isinstance(t, ast.Subscript):
            n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        else:
            return t
        return ast.copy_location(n, t)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st = st.copy()
            self.assign_name(st, fr, t.id, v)
            return [(st, NORMAL)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, fr)
        if isinstance(t, ast.Attribute):
            out = []
            for s1, o in self.ev(t.value, st, fr):
                if isinstance(o, Raised):
                    out.append((s1, ("raise", o.exc)))
                    continue
                for s2, r in self.setattr(s1, o, t.attr, v, t, fr):
                    out.append((s2, ("raise", r.exc) if isinstance(r, Raised) else NORMAL))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s1, vals in self.seq([t.value, t.slice], st, fr):
                if isinstance(vals, Raised):
                    out.append((s1, ("raise", vals.exc)))
                    continue
                for s2, r in self.setitem(s1, vals[0], vals[1], v, t, fr):
                    out.append((s2, ("raise", r.exc) if isinstance(r, Raised) else NORMAL))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        self.note_unknown(fr, t, "assignment target")
        return [(st, NORMAL)]

    def unpack(self, t, v, st, fr):
        elts = t.elts
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        out = []
        for s1, v1 in self.norm(st, v):
            items = None
            if len(elts) > 1 and self.unordered(s1, v1):
                s1 = s1.copy().ev("setorder", "unpacking", self.where(fr, t))
            if isinstance(v1, TupV):
                items = list(v1.items)
            elif isinstance(v1, Ref) and isinstance(self.heap_get(s1, v1), ListO):
                segs = self.heap_get(s1, v1).segs
                if all(x[0] == "e" for x in segs):
                    items = [x[1] for x in segs]
            if items is not None:
                if star is None and len(items) == len(elts):
                    vals = items
                elif star is not None and len(items) >= len(elts) - 1:
                    k = len(elts) - 1 - star
                    s1 = s1.copy()
                    mid = items[star:len(items) - k]
                    vals = items[:star] + [self.alloc(s1, ListO([("e", m) for m in mid]))] + items[len(items) - k:]
                else:
                    out.append((s1, ("raise", self.exc("ValueError", ("unpack",), where=self.where(fr, t)).exc)))
                    continue
            else:
                need = len(elts) - (star is not None)
                if isinstance(v1, Sym) and v1.ty.kind == "list" and need and not (v1.op == "meth" and need == 1 and
                                                                                  star is not None):
                    # too short (or not exactly as long) a list
                    n = Sym("len", (v1,), INT)
                    short = []
                    for s2, b in (self._truth(s1, v1) if need == 1 and star is not None else
                                  [(a, not c) for a, c in self.decide(s1, ("lt", n, Const(need)))] if star is not None
                                  else self.decide(s1, ("eqc", n, Const(need)))):
                        if b:
                            s1 = s2
                        else:
                            short.append(s2)
                    out += [(s2, ("raise", self.exc("ValueError", ("unpack",), where=self.where(fr, t)).exc))
                            for s2 in short]
                    if short and s1 in short:
                        continue
                vals = []
                for i, e in enumerate(elts):
                    if star is not None and i == star and i == len(elts) - 1:
                        vals.append(self.mk_slice(v1, Const(i), NONE_V, NONE_V))
                    elif star is not None and i >= star:
                        vals.append(unk("unpack"))
                    elif isinstance(v1, Sym) and not is_unknown(v1):
                        vals.append(Sym("index", (v1, Const(i)), elem_ty(v1)))
                    else:
                        vals.append(unk("unpack"))
            cur = [(s1, NORMAL)]
            for e, x in zip(elts, vals):
                nxt = []
                for s2, sig in cur:
                    nxt += self.assign(e, x, s2, fr) if sig is NORMAL else [(s2, sig)]
                cur = nxt
            out += cur
        return out

    def s_Delete(self, s, st, fr):
        cur = [(st, NORMAL)]
        for t in s.targets:
            nxt = []
            for s1, sig in cur:
                if sig is not NORMAL:
                    nxt.append((s1, sig))
                elif isinstance(t, ast.Name):
                    s2 = s1.copy()
                    s2.env.pop((fr.fid, t.id), None)
                    nxt.append((s2, NORMAL))
                elif isinstance(t, ast.Subscript):
                    for s2, vals in self.seq([t.value, t.slice], s1, fr):
                        if isinstance(vals, Raised):
                            nxt.append((s2, ("raise", vals.exc)))
                            continue
                        for s3, r in self.call_method(s2, vals[0], "$del", [vals[1]], {}, t, fr):
                            nxt.append((s3, ("raise", r.exc) if isinstance(r, Raised) else NORMAL))
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s1, fr):
                        if isinstance(o, Raised):
                            nxt.append((s2, ("raise", o.exc)))
                        else:
                            nxt.append((s2.copy().ev("mutate", o, "del " + t.attr, self.where(fr, t)), NORMAL))
                else:
                    nxt.append((s1, NORMAL))
            cur = nxt
        return cur

    def s_If(self, s, st, fr):
        out = []
        for s1, v in self.ev(s.test, st, fr):
            if isinstance(v, Raised):
                out.append((s1, ("raise", v.exc)))
                continue
            for s2, b in self.truth(s1, v):
                out += self.block(s.body if b else s.orelse, s2, fr)
        return out

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.env.get((fr.fid, "$exc"))
            if cur is None:
                for f in fr.chain:
                    cur = cur or st.env.get((f, "$exc"))
            if cur is None:
                return [(st, ("raise", self.exc("RuntimeError", ("raise", fr.func), where=self.where(fr, s)).exc))]
            return [(st, ("raise", cur))]
        out = []
        for s1, v in self.ev(s.exc, st, fr):
            if isinstance(v, Raised):
                out.append((s1, ("raise", v.exc)))
                continue
            if isinstance(v, (ClassV, Ext)):
                for s2, w in self.call(s1, v, [], {}, s, fr):
                    out.append((s2, ("raise", w.exc if isinstance(w, Raised) else self.to_exc(s2, w, fr, s))))
            else:
                out.append((s1, ("raise", self.to_exc(s1, v, fr, s))))
        return out

    def to_exc(self, st, v, fr, node):
        if isinstance(v, ExcV):
            if v.where is None:
                return ExcV(v.names, v.args, v.origin, self.where(fr, node), v.any, v.ref)
            return v
        if isinstance(v, Ref):
            o = self.heap_get(st, v)
            if isinstance(o, InstO):
                return self.exc_from_class(o.cls, (), ("raise", fr.func), self.where(fr, node), ref=v)
        return ExcV(("Exception", "BaseException"), (), ("unknown",), self.where(fr, node), any=True)

    def s_Try(self, s, st, fr):
        out = []
        for s1, sig in self.block(s.body, st, fr):
            if sig[0] == "raise":
                out += self.handle(s, s1, sig[1], fr)
            elif sig is NORMAL and s.orelse:
                out += self.block(s.orelse, s1, fr)
            else:
                out.append((s1, sig))
        if s.finalbody:
            fin = []
            for s1, sig in out:
                for s2, sig2 in self.block(s.finalbody, s1, fr):
                    if sig2 is not NORMAL and sig[0] == "raise":
                        s2 = s2.copy().ev("caught", sig[1].origin, sig[1].names[0], self.where(fr, s))
                    fin.append((s2, sig if sig2 is NORMAL else sig2))
            out = fin
        return out

    s_TryStar = s_Try

    def handle(self, s, st, exc, fr):
        out = []
        pending, partly = [st], False
        for h in s.handlers:
            nxt = []
            for s1 in pending:
                if h.type is None:
                    m = [(s1, "yes")]
                else:
                    m = []
                    for s2, hv in self.ev(h.type, s1, fr):
                        m.append((s2, "no" if isinstance(hv, Raised) else self.exc_match(exc, hv)))
                for s2, r in m:
                    partly = partly or r == "maybe"
                    if r in ("yes", "maybe"):
                        s3 = s2.copy()
                        if exc.origin[0] not in ("haskey", "missing"):
                            s3.ev("caught", exc.origin, exc.names[0], self.where(fr, h))
                        old = s3.env.get((fr.fid, "$exc"))
                        s3.env[(fr.fid, "$exc")] = exc
                        if h.name:
                            s3.env[(fr.fid, h.name)] = exc
                        for s4, sig in self.block(h.body, s3, fr):
                            s4 = s4.copy()
                            if old is None:
                                s4.env.pop((fr.fid, "$exc"), None)
                            else:
                                s4.env[(fr.fid, "$exc")] = old
                            if h.name:
                                s4.env.pop((fr.fid, h.name), None)
                            if sig[0] == "raise" and sig[1].origin == exc.origin and s4.events and \
                                    s4.events[-1][:2] == ("caught", exc.origin):
                                # re-raised untouched: the catch had no effect
                                s4.events = s4.events[:-1]
                            out.append((s4, sig))
                    if r in ("no", "maybe"):
                        nxt.append(s2)
            pending = nxt
        if partly and exc.origin[0] == "child":
            pending = [s1.copy().ev("partly", exc.origin, self.where(fr, s)) for s1 in pending]
        out += [(s1, ("raise", exc)) for s1 in pending]
        return out

    def s_With(self, s, st, fr):
        return self._with(s, 0, st, fr)

    def _with(self, s, i, st, fr):
        if i == len(s.items):
            return self.block(s.body, st, fr)
        item = s.items[i]
        out = []
        for s1, cm in self.ev(item.context_expr, st, fr):
            if isinstance(cm, Raised):
                out.append((s1, ("raise", cm.exc)))
                continue
            if isinstance(cm, Sym) and cm.op == "suppress":
                for s2, sig in self._with(s, i + 1, s1, fr):
                    if sig[0] == "raise":
                        m = self.exc_match(sig[1], TupV(cm.args[0]))
                        if m in ("yes", "maybe"):
                            s3 = s2.copy()
                            if sig[1].origin[0] not in ("haskey", "missing"):
                                s3.ev("caught", sig[1].origin, sig[1].names[0], self.where(fr, s))
                            out.append((s3, NORMAL))
                        if m == "maybe" and sig[1].origin[0] == "child":
                            s2 = s2.copy().ev("partly", sig[1].origin, self.where(fr, s))
                        if m in ("no", "maybe"):
                            out.append((s2, sig))
                    else:
                        out.append((s2, sig))
                continue
            if isinstance(cm, Sym) and cm.op == "nullcontext":
                out += self._with(s, i + 1, s1, fr)
                continue
            if isinstance(cm, Sym) and cm.op == "ctxgen":
                func, args, kwargs = cm.args
                def hook(st2, val, _fr=fr, _i=i, _item=item):
                    res = []
                    curs = [(st2, NORMAL)]
                    if _item.optional_vars is not None:
                        curs = self.assign(_item.optional_vars, val, st2, _fr)
                    for s3, sig in curs:
                        if sig is not NORMAL:
                            res.append((s3, Raised(sig[1])))
                            continue
                        for s4, sig2 in self._with(s, _i + 1, s3, _fr):
                            if sig2[0] == "raise":
                                res.append((s4, Raised(sig2[1])))
                            else:
                                s4 = s4.copy()
                                s4.env[(_fr.fid, "$sig%d" % id(s))] = SigV(sig2)
                                res.append((s4, NONE_V))
                    return res
                for s2, v in self.call_func(s1, func, list(args), dict(kwargs), s, fr, on_yield=hook):
                    if isinstance(v, Raised):
                        out.append((s2, ("raise", v.exc)))
                    else:
                        sv = s2.env.get((fr.fid, "$sig%d" % id(s)))
                        s2 = s2.copy()
                        s2.env.pop((fr.fid, "$sig%d" % id(s)), None)
                        out.append((s2, sv.sig if sv is not None else NORMAL))
                continue
            cmo = self.heap_get(s1, cm) if isinstance(cm, Ref) else None
            if isinstance(cmo, ListO) and cmo.kind == "strio":
                curs = [(s1, NORMAL)]
                if item.optional_vars is not None:
                    curs = self.assign(item.optional_vars, cm, s1, fr)
                for s2, sig in curs:
                    out += self._with(s, i + 1, s2, fr) if sig is NORMAL else [(s2, sig)]
                continue
            # unknown context manager: run the body; it may swallow exceptions
            self.note_unknown(fr, s, "context manager")
            curs = [(s1, NORMAL)]
            if item.optional_vars is not None:
                curs = self.assign(item.optional_vars, unk("ctx"), s1, fr)
            for s2, sig in curs:
                out += self._with(s, i + 1, s2, fr) if sig is NORMAL else [(s2, sig)]
        return out

    # definitions
    def s_FunctionDef(self, s, st, fr):
        out = []
        for s1, fv in self.make_func(s, st, fr):
            if isinstance(fv, Raised):
                out.append((s1, ("raise", fv.exc)))
            else:
                out += self.assign(ast.copy_location(ast.Name(id=s.name, ctx=ast.Store()), s), fv, s1, fr)
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, st, fr):
        out = []
        defaults = list(s.args.defaults)
        kwd = [d for d in s.args.kw_defaults if d is not None]
        for s1, vals in self.seq(defaults + kwd, st, fr):
            if isinstance(vals, Raised):
                out.append((s1, vals))
                continue
            dv = vals[: len(defaults)]
            kv = vals[len(defaults):]
            kwdefaults, j = {}, 0
            for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
                if d is not None:
                    kwdefaults[a.arg] = kv[j]
                    j += 1
            qual = (fr.func + "." if fr.func else "") + getattr(s, "name", "<lambda>")
            chain = fr.chain if fr.fid[0] == "cls" else (fr.fid,) + fr.chain
            isgen = not isinstance(s, ast.Lambda) and _has_yield(s)
            fv = FuncV(s, fr.mod, qual, chain, tuple(dv), kwdefaults, cls=None, name=getattr(s, "name", "<lambda>"),
                       isgen=isgen)
            cur = [(s1, fv)]
            for d in reversed(getattr(s, "decorator_list", [])):
                nxt = []
                for s2, f in cur:
                    if isinstance(f, Raised):
                        nxt.append((s2, f))
                        continue
                    for s3, dval in self.ev(d, s2, fr):
                        if isinstance(dval, Raised):
                            nxt.append((s3, dval))
                        else:
                            nxt += self.decorate_func(s3, dval, f, s, fr)
                cur = nxt
            out += cur
        return out

    def decorate_func(self, st, d, f, node, fr):
        if isinstance(d, Ext):
            n = d.name
            if n == "builtins.classmethod":
                return [(st, f.with_kind("class") if isinstance(f, FuncV) else f)]
            if n == "builtins.staticmethod":
                return [(st, f.with_kind("static") if isinstance(f, FuncV) else f)]
            if n in ("builtins.property", "functools.cached_property"):
                return [(st, PropV(f))]
            if n in ("functools.lru_cache", "functools.cache", "abc.abstractmethod", "typing.overload",
                     "typing.override", "typing.final", "typing.no_type_check"):
                return [(st, f)]
            if n == "contextlib.contextmanager":
                return [(st, f.with_kind("ctx") if isinstance(f, FuncV) else f)]
        if isinstance(d, Sym) and d.op in ("lru_cache", "wraps"):
            return [(st, f)]
        if isinstance(d, (FuncV, PartialV, BoundV)) and isinstance(f, FuncV):
            base = f if f.kind not in ("class", "static") else f.with_kind("func")
            out = []
            for s2, v in self.call(st, d, [base], {}, node, fr):
                if isinstance(v, FuncV) and f.kind in ("class", "static"):
                    v = v.with_kind(f.kind)
                out.append((s2, v))
            return out
        self.note_unknown(fr, node, "decorator")
        return [(st, unk("decorator"))]

    def s_ClassDef(self, s, st, fr):
        out = []
        for s1, vals in self.seq(list(s.bases) + [k.value for k in s.keywords], st, fr):
            if isinstance(vals, Raised):
                out.append((s1, ("raise", vals.exc)))
                continue
            bases = vals[: len(s.bases)]
            qual = f"{fr.mod}.{(fr.func + '.') if fr.func else ''}{s.name}"
            ci = ClassInfo(s.name, fr.mod, qual, s)
            ci.bases = [b for b in bases if isinstance(b, (ClassV, Ext))] or []
            ci.mro = self.c3(ci)
            ci.is_enum = any(isinstance(c, Ext) and c.name.startswith("enum.") for c in ci.mro)
            fid = ("cls", qual, next(self.counter))
            cfr = Frame(fid, fr.mod, ((fr.fid,) + fr.chain) if fr.fid[0] != "cls" else fr.chain,
                        func=(fr.func + "." if fr.func else "") + s.name)
            res = self.block(s.body, s1, cfr)
            s2, sig = res[0]
            if sig[0] == "raise":
                out.append((s2, sig))
                continue
            for (f, n), v in list(s2.env.items()):
                if f == fid and not n.startswith("$"):
                    if isinstance(v, FuncV) and v.cls is None and v.native is None:
                        v.cls = ci
                    if isinstance(v, PropV) and isinstance(v.fget, FuncV) and v.fget.cls is None:
                        v.fget.cls = ci
                    ci.ns[n] = v
            for b in s.body:
                if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                    ci.ann[b.target.id] = b.annotation
                    ci.ann_rt[b.target.id] = self.ann_value(b.annotation, s2, cfr)
            if ci.is_enum:
                for n, v in list(ci.ns.items()):
                    if not n.startswith("_") and isinstance(v, (Const, TupV)):
                        m = EnumM(ci, n, v)
                        # aliases: same value as an earlier member
                        alias = next((x for x in ci.members.values() if x.value == v), None)
                        ci.members[n] = alias or m
                        ci.ns[n] = alias or m
            cv = ClassV(ci)
            self.register_class(ci)
            cur = [(s2, cv)]
            for d in reversed(s.decorator_list):
                nxt = []
                for s3, c in cur:
                    for s4, dv in self.ev(d, s3, fr):
                        if isinstance(dv, Raised):
                            nxt.append((s4, dv))
                        else:
                            nxt += self.decorate_class(s4, dv, c, s, fr)
                cur = nxt
            for s3, c in cur:
                if isinstance(c, Raised):
                    out.append((s3, ("raise", c.exc)))
                else:
                    out += self.assign(ast.copy_location(ast.Name(id=s.name, ctx=ast.Store()), s), c, s3, fr)
        return out

    def register_class(self, ci):
        if ci.name in self.classes and self.classes[ci.name].qual != ci.qual:
            self.class_dups.add(ci.name)
        self.classes[ci.name] = ci

    def c3(self, ci):
        seqs = []
        bases = []
        for b in ci.bases:
            if isinstance(b, ClassV):
                seqs.append(list(b.info.mro))
                bases.append(b.info)
            else:
                n = b.name
                lst = [b]
                if n.startswith("builtins."):
                    t = getattr(builtins, n.split(".")[-1], None)
                    if isinstance(t, type):
                        lst = [Ext("builtins." + k.__name__) for k in t.__mro__ if k is not object]
                seqs.append(lst + [Ext("object")])
                bases.append(b)
        if not bases:
            return [ci, Ext("object")]
        seqs.append(list(bases))
        res = [ci]
        while True:
            seqs = [q for q in seqs if q]
            if not seqs:
                return res
            for q in seqs:
                c = q[0]
                if not any(c in r[1:] for r in seqs):
                    break
            else:
                return res
            res.append(c)
            seqs = [[x for x in q if x != c] for q in seqs]

    def ann_value(self, a, st, fr):
        if self._future_ann(fr.mod):
            return Const(ast.unparse(a))
        try:
            r = self.ev(a, st.copy(), fr)
        except Exception:
            return unk("annotation")
        if len(r) == 1 and not isinstance(r[0][1], Raised):
            return r[0][1]
        return unk("annotation")

    def _future_ann(self, mod):
        m = self.modules[mod]
        if "fut" not in m:
            m["fut"] = any(isinstance(b, ast.ImportFrom) and b.module == "__future__" and
                           any(x.name == "annotations" for x in b.names) for b in m["tree"].body)
        return m["fut"]

    def decorate_class(self, st, d, c, node, fr):
        if isinstance(d, Ext) and d.name == "dataclasses.dataclass":
            self.make_dataclass(c.info, {})
            return [(st, c)]
        if isinstance(d, Sym) and d.op == "dataclass_deco":
            self.make_dataclass(c.info, dict(d.args[0]))
            return [(st, c)]
        if isinstance(d, FuncV):
            return self.call(st, d, [c], {}, node, fr)
        if isinstance(d, Ext) and d.name in ("enum.unique", "typing.final", "functools.total_ordering"):
            return [(st, c)]
        self.note_unknown(fr, node, "class decorator")
        c.info.decorators.append(d)
        return [(st, c)]

    def make_dataclass(self, ci, kw):
        ci.dc = kw
        fields = {}
        for b in reversed(ci.mro[1:]):
            if isinstance(b, ClassInfo) and b.dc is not None:
                for n, f in b.fields.items():
                    fields[n] = f
        for n, a in ci.ann.items():
            txt = ast.unparse(a)
            if "ClassVar" in txt:
                continue
            dv = ci.ns.get(n, MISSING)
            factory, init, compare = MISSING, True, True
            kwo = False
            if isinstance(dv, Sym) and dv.op == "fieldspec":
                d = dict(dv.args[0])
                factory = d.get("default_factory", MISSING)
                init = d.get("init", TRUE) != FALSE
                compare = d.get("compare", TRUE) != FALSE
                kwo = d.get("kw_only", FALSE) == TRUE
                dv = d.get("default", MISSING)
                if dv == MISSING:
                    ci.ns.pop(n, None)
                else:
                    ci.ns[n] = dv
            f = FieldV(n, ANY, ci.ann_rt.get(n, ANY), dv, factory, init, compare, owner=ci.name, kw_only=kwo,
                       lineno=a.lineno)
            fields[n] = f
        # own copies so that types can be patched per class
        ci.fields = {n: FieldV(f.name, f.ty, f.type, f.default, f.factory, f.init, f.compare, f.owner, f.kw_only,
                               f.lineno) for n, f in fields.items()}

    # imports
    def s_Import(self, s, st, fr):
        st = st.copy()
        for a in s.names:
            if a.name in self.modules:
                self.ensure(a.name, st)
                v = ModV(a.name if a.asname else a.name.split(".")[0])
            else:
                v = canon_ext(a.name if a.asname else a.name.split(".")[0])
            if self.runtime and a.name not in self.modules:
                st.ev("import", a.name, self.where(fr, s))
            self.assign_name(st, fr, a.asname or a.name.split(".")[0], v)
        return [(st, NORMAL)]

    def ensure(self, mod, st):
        """Load `mod` while another module is being loaded (shares the init state)."""
        if not self.runtime and self.modules[mod]["state"] == 0:
            # publish the current state, load, and pull results back
            self.adopt(st)
            self.load(mod)
            t = self.init_state
            st.env, st.heap, st.facts, st.events = t.env, t.heap, t.facts, t.events
            st.env = dict(st.env)

    def abs_mod(self, fr, s):
        if not s.level:
            return s.module or ""
        m = self.modules[fr.mod]
        parts = fr.mod.split(".")
        if not m["is_pkg"]:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    def s_ImportFrom(self, s, st, fr):
        if s.module == "__future__":
            return [(st, NORMAL)]
        base = self.abs_mod(fr, s)
        st = st.copy()
        for a in s.names:
            full = base + "." + a.name
            v = None
            if base in self.modules:
                self.ensure(base, st)
                if a.name == "*":
                    allv = self.env_get(st, (("mod", base), "__all__"))
                    for (f, n), w in list(self.base_env.items()) + list(st.env.items()):
                        if f == ("mod", base) and not n.startswith("_"):
                            self.assign_name(st, fr, n, w)
                    continue
                v = self.env_get(st, (("mod", base), a.name))
                if v is not None and self.runtime and base == self.PKG + ".settings" and isinstance(v, Const):
                    v = Sym("cfg", (a.name,), BOOL if isinstance(v.v, bool) else ANY)
                if v is None and full in self.modules:
                    self.ensure(full, st)
                    v = ModV(full)
                if v is None:
                    if not self.runtime and self.modules[base]["state"] == 1:
                        return [(st, ("raise", self.exc("ImportError", ("circular", full),
                                                        where=self.where(fr, s)).exc))]
                    return [(st, ("raise", self.exc("ImportError", ("import", full),
                                                    where=self.where(fr, s)).exc))]
            elif base.split(".")[0] == self.PKG:
                # unknown package module (e.g. excluded tests)
                v = Ext(full)
            else:
                v = canon_ext(full)
                if self.runtime:
                    st.ev("import", full, self.where(fr, s))
            self.assign_name(st, fr, a.asname or a.name, v)
        return [(st, NORMAL)]

    # ------------------------------------------------------------------ match
    def s_Match(self, s, st, fr):
        out = []
        for s1, v in self.ev(s.subject, st, fr):
            if isinstance(v, Raised):
                out.append((s1, ("raise", v.exc)))
                continue
            pending = [s1]
            for c in s.cases:
                nxt = []
                for s2 in pending:
                    for s3, ok in self.pat(c.pattern, v, s2, fr):
                        if not ok:
                            nxt.append(s3)
                            continue
                        if c.guard is not None:
                            for s4, g in self.ev(c.guard, s3, fr):
                                if isinstance(g, Raised):
                                    out.append((s4, ("raise", g.exc)))
                                    continue
                                for s5, b in self.truth(s4, g):
                                    if b:
                                        out += self.block(c.body, s5, fr)
                                    else:
                                        nxt.append(s5)
                        else:
                            out += self.block(c.body, s3, fr)
                pending = nxt
            out += [(x, NORMAL) for x in pending]
        return out

    def pat(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            out = []
            for s1, w in self.ev(p.value, st, fr):
                for s2, r in self.compare1(s1, ast.Eq(), v, w, p, fr):
                    out += [(s3, b) for s3, b in self.truth(s2, r)] if not isinstance(r, Raised) else []
            return out
        if isinstance(p, ast.MatchSingleton):
            out = []
            for s2, r in self.compare1(st, ast.Is(), v, Const(p.value), p, fr):
                out += self.truth(s2, r)
            return out
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                s1 = st.copy()
                if p.name:
                    self.assign_name(s1, fr, p.name, v)
                return [(s1, True)]
            out = []
            for s1, ok in self.pat(p.pattern, v, st, fr):
                if ok and p.name:
                    s1 = s1.copy()
                    self.assign_name(s1, fr, p.name, v)
                out.append((s1, ok))
            return out
        if isinstance(p, ast.MatchOr):
            out, pending = [], [st]
            for q in p.patterns:
                nxt = []
                for s1 in pending:
                    for s2, ok in self.pat(q, v, s1, fr):
                        (out.append((s2, True)) if ok else nxt.append(s2))
                pending = nxt
            return out + [(x, False) for x in pending]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            out = []
            for s1, c in self.ev(p.cls, st, fr):
                for s2, r in self.isinstance_(s1, v, c, p, fr):
                    out += self.truth(s2, r)
            return out
        if isinstance(p, ast.MatchClass) and not p.patterns:
            out = []
            for s1, ok in self.pat(ast.copy_location(ast.MatchClass(cls=p.cls, patterns=[], kwd_attrs=[],
                                                                    kwd_patterns=[]), p), v, st, fr):
                if not ok:
                    out.append((s1, False))
                    continue
                cur = [s1]
                for attr, q in zip(p.kwd_attrs, p.kwd_patterns):
                    nxt = []
                    for s2 in cur:
                        for s3, w in self.getattr(s2, v, attr, p, fr):
                            if isinstance(w, Raised):
                                out.append((s3, False))
                                continue
                            for s4, ok2 in self.pat(q, w, s3, fr):
                                (nxt.append(s4) if ok2 else out.append((s4, False)))
                    cur = nxt
                out += [(s2, True) for s2 in cur]
            return out
        if isinstance(p, ast.MatchSequence):
            r = self.seq_pat(p, v, st, fr)
            if r is not None:
                return r
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            r = self.map_pat(p, v, st, fr)
            if r is not None:
                return r
        self.note_unknown(fr, p, "match pattern")
        yes = st.copy()
        for q in ast.walk(p):
            nm = getattr(q, "name", None) or getattr(q, "rest", None)
            if isinstance(nm, str):
                self.assign_name(yes, fr, nm, unk("match"))
        out = []
        for s1, b in self.decide(yes, ("unk", next(TT._unk))):
            out.append((s1, b))
        return out

    def seq_pat(self, p, v, st, fr):
        ps = p.patterns
        star = next((i for i, q in enumerate(ps) if isinstance(q, ast.MatchStar)), None)
        need = len(ps) - (star is not None)
        out = []
        for s1, x in self.norm(st, v):
            if isinstance(x, (Const, Sentinel)) or isinstance(x, Sym) and x.ty.kind in (
                    "str", "int", "bool", "float", "none", "dict", "inst"):
                out.append((s1, False))
                continue
            items = None
            if isinstance(x, TupV):
                items = list(x.items)
            elif isinstance(x, Ref) and isinstance(self.heap_get(s1, x), ListO):
                segs = self.heap_get(s1, x).segs
                if any(g[0] != "e" for g in segs):
                    return None
                items = [g[1] for g in segs]
            if items is not None:
                if len(items) != need if star is None else len(items) < need:
                    out.append((s1, False))
                    continue
                s1 = s1.copy()
                if star is None:
                    vals = items
                else:
                    k = len(ps) - 1 - star
                    mid = self.alloc(s1, ListO([("e", m) for m in items[star:len(items) - k]]))
                    vals = items[:star] + [mid] + items[len(items) - k:]
                branches = [(s1, True)]
            elif isinstance(x, Sym) and x.ty.kind == "list":
                n = Sym("len", (x,), INT)
                if star is not None:
                    if need == 0:
                        branches = [(s1, True)]
                    elif need == 1:
                        branches = self._truth(s1, x)
                    else:
                        branches = [(s2, not b) for s2, b in self.decide(s1, ("lt", n, Const(need)))]
                elif need == 0:
                    branches = [(s2, not b) for s2, b in self._truth(s1, x)]
                else:
                    branches = []
                    for s2, b in self._truth(s1, x):
                        branches += self.decide(s2, ("eqc", n, Const(need))) if b else [(s2, False)]
                vals = []
                for i in range(len(ps)):
                    if star is None or i < star:
                        vals.append(Sym("index", (x, Const(i)), elem_ty(x)))
                    elif i == star:
                        k = len(ps) - 1 - star
                        vals.append(self.mk_slice(x, Const(star) if star else NONE_V, Const(-k) if k else NONE_V, NONE_V))
                    else:
                        vals.append(Sym("index", (x, Const(i - len(ps))), elem_ty(x)))
            else:
                return None
            for s2, b in branches:
                if not b:
                    out.append((s2, False))
                    continue
                cur = [s2]
                for q, w in zip(ps, vals):
                    nxt = []
                    for s3 in cur:
                        if isinstance(q, ast.MatchStar):
                            if q.name:
                                s3 = s3.copy()
                                self.assign_name(s3, fr, q.name, w)
                            nxt.append(s3)
                            continue
                        for s4, ok in self.pat(q, w, s3, fr):
                            (nxt.append(s4) if ok else out.append((s4, False)))
                    cur = nxt
                out += [(s3, True) for s3 in cur]
        return out

    def map_pat(self, p, v, st, fr):
        out = []
        cur = [st]
        for kx, q in zip(p.keys, p.patterns):
            nxt = []
            for s1 in cur:
                for s2, k in self.ev(kx, s1, fr):
                    for s3, h in self.compare1(s2, ast.In(), k, v, p, fr):
                        if isinstance(h, Raised):
                            return None
                        for s4, b in self.truth(s3, h):
                            if not b:
                                out.append((s4, False))
                                continue
                            for s5, w in self.getitem(s4, v, k, p, fr):
                                if isinstance(w, Raised):
                                    continue
                                for s6, ok in self.pat(q, w, s5, fr):
                                    (nxt.append(s6) if ok else out.append((s6, False)))
            cur = nxt
        return out + [(s1, True) for s1 in cur]

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st, fr):
        out = []
        for s1, it in self.ev(s.iter, st, fr):
            if isinstance(it, Raised):
                out.append((s1, ("raise", it.exc)))
                continue

            def body(s2, item):
                res = []
                for s3, sig in self.assign(s.target, item, s2, fr):
                    if sig is NORMAL:
                        res += self.block(s.body, s3, fr)
                    else:
                        res.append((s3, sig))
                return res

            for s2, sig in self.iterate(s1, it, body, s, fr):
                if sig is NORMAL and s.orelse:
                    out += self.block(s.orelse, s2, fr)
                elif sig is BREAK:
                    out.append((s2, NORMAL))
                else:
                    out.append((s2, sig))
        return out

    s_AsyncFor = s_For

    def iterate(self, st, it, body, node, fr):
        """Run `body(state, item)` for each item of `it`.
        -> list of (state, NORMAL | BREAK | ret | raise)."""
        out = []
        for s0, it0 in self.norm(st, it):
            if isinstance(node, ast.For) and self.unordered(s0, it0) and accumulates(node):
                s0 = s0.copy().ev("setorder", "for loop", self.where(fr, node))
            elif isinstance(node, ast.For) and self.unordered(s0, it0):
                s0 = self.filled_by_hash(s0, node, fr)
            for s1, segs in self.segments(s0, it0, node, fr):
                if isinstance(segs, Raised):
                    out.append((s1, ("raise", segs.exc)))
                else:
                    res = self.run_segs(s1, segs, body, node, fr)
                    if isinstance(node, ast.For) and self.unordered(s0, it0):
                        res = [(s2.copy().ev("setorder", "returning from a loop, maybe,", self.where(fr, node)), sig)
                               if sig[0] == "ret" and not isinstance(sig[1], Const) else (s2, sig) for s2, sig in res]
                    out += res
        return out

    def unordered(self, st, v):
        """Is v a hash-ordered container of more than one element?"""
        o = self.heap_get(st, v) if isinstance(v, Ref) else None
        if isinstance(o, DictO):
            return o.owner == "hashed" and (len(o.entries) > 1 or bool(o.unk))
        return isinstance(o, ListO) and o.kind in ("set", "ulist") and \
            not (len(o.segs) <= 1 and all(g[0] == "e" for g in o.segs))

    def filled_by_hash(self, st, node, fr):
        """The dictionaries that a loop over a set fills have their keys in no fixed order."""
        for n in ast.walk(node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                r = self.lookup(st, fr, n.value.id)
                o = self.heap_get(st, r) if isinstance(r, Ref) else None
                if isinstance(o, DictO) and o.owner == "fresh":
                    st = st.copy()
                    st.heap[r.id] = DictO(o.entries, o.base, o.deleted, "hashed", o.unk, o.deep)
        return st

    def run_segs(self, st, segs, body, node, fr):
        cur = [(st, NORMAL)]
        done = []
        for seg in segs:
            nxt = []
            for s1, _ in cur:
                if seg[0] == "e":
                    res = body(s1, seg[1])
                elif seg[0] == "cond":
                    res = []
                    for s2, b in self.fork_guard(s1, seg[1]):
                        r2 = self.run_segs(s2, seg[2] if b else seg[3], body, node, fr)
                        res += r2
                elif seg[0] == "rep":
                    res = self.sym_loop(s1, seg[1], body, node, fr)
                elif seg[0] == "mul":
                    rep = Rep(Sym("range", (seg[2],), Ty("list", elem=INT)), [Alt((), seg[1])])
                    res = self.sym_loop(s1, rep, body, node, fr)
                elif len(seg) == 3 and seg[0] == "unk":
                    rep = Rep(seg[2], [Alt((), [("e", elem_of(seg[2]))])])
                    res = self.sym_loop(s1, rep, body, node, fr)
                else:
                    rep = Rep(unk("segment " + str(seg[0]), LIST), [Alt((), [("e", unk("item"))])])
                    res = self.sym_loop(s1, rep, body, node, fr)
                nrm = []
                for s2, sig in res:
                    if sig is NORMAL or sig is CONTINUE:
                        nrm.append(s2)
                    else:
                        done.append((s2, sig))
                nxt += nrm
            nxt = self.merge_all(nxt)
            cur = [(x, NORMAL) for x in nxt]
            if len(cur) > 400:
                raise Budget()
        return cur + done

    # ---- merging of states after an unrolled iteration
    def merge_all(self, states):
        if len(states) < 2:
            return states
        states = self.merge_pass(list(states), None)
        return self.merge_pass(states, ("haskey", "isopt", "phi"))

    def merge_pass(self, states, kinds):
        changed = True
        while changed and len(states) > 1:
            changed = False
            self.tick()
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    m = self.merge2(states[i], states[j], kinds)
                    if m is not None:
                        states[i] = m
                        del states[j]
                        changed = True
                        break
                if changed:
                    break
        return states

    def tick(self):
        if time.monotonic() > self.deadline:
            raise Budget()

    def merge2(self, a, b, kinds):
        if a.events != b.events:
            return None
        if kinds is None and a.facts.keys() != b.facts.keys():
            return None
        piv = [p for p, v in a.facts.items() if p in b.facts and b.facts[p] != v]
        if len(piv) != 1:
            if not piv and a.env == b.env and a.heap == b.heap and a.cls == b.cls and a.vals == b.vals:
                return a
            return None
        p = piv[0]
        if kinds is not None and p[0] not in kinds:
            return None
        if kinds is None and not (len(p) > 1 and isinstance(p[1], Sym) and p[1].op == "get"):
            return None
        if a.facts[p] is False:
            a, b = b, a
        m = State()
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                w = self.base_env.get(k)
            if w is None:
                continue
            m.env[k] = v if v == w else self.phi(p, v, w)
        for k, v in a.heap.items():
            w = b.heap.get(k)
            if w is None:
                w = self.base_heap.get(k)
            if w is None or w is v or w == v:
                m.heap[k] = v
                continue
            mm = self.merge_obj(p, v, w)
            if mm is None:
                return None
            m.heap[k] = mm
        for k, w in b.heap.items():
            if k not in a.heap:
                v = self.base_heap.get(k)
                if v is None:
                    m.heap[k] = w
                else:
                    mm = self.merge_obj(p, v, w)
                    if mm is None:
                        return None
                    m.heap[k] = mm
        m.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        for n in ("cls", "vals"):
            x, y, z = getattr(a, n), getattr(b, n), getattr(m, n)
            for k in x:
                if k in y:
                    z[k] = x[k] | y[k]
        for k in a.nvals:
            if k in b.nvals:
                m.nvals[k] = a.nvals[k] & b.nvals[k]
        for k in a.rng:
            if b.rng.get(k) == a.rng[k]:
                m.rng[k] = a.rng[k]
        m.events = a.events
        return m

    def merge_obj(self, p, v, w):
        if v == w:
            return v
        if isinstance(v, DictO) and isinstance(w, DictO):
            if v.base != w.base or v.unk != w.unk or v.deep != w.deep:
                return None
            dele = v.deleted & w.deleted
            if v.deleted != w.deleted:
                return None
            ent = {}
            for k in list(v.entries) + [k for k in w.entries if k not in v.entries]:
                x, y = v.entries.get(k), w.entries.get(k)
                if x is None or y is None:
                    if v.base is not None:
                        return None
                    ent[k] = (x[0], x[1] + ((p, True),)) if y is None else (y[0], y[1] + ((p, False),))
                elif x == y:
                    ent[k] = x
                elif x[1] == y[1]:
                    ent[k] = (self.phi(p, x[0], y[0]), x[1])
                else:
                    return None
            return DictO(ent, v.base, dele, v.owner, v.unk, v.deep)
        if isinstance(v, ListO) and isinstance(w, ListO) and v.kind == w.kind:
            i = 0
            while i < len(v.segs) and i < len(w.segs) and v.segs[i] == w.segs[i]:
                i += 1
            return ListO(v.segs[:i] + (("cond", ((p, True),), v.segs[i:], w.segs[i:]),), v.kind)
        if isinstance(v, InstO) and isinstance(w, InstO) and v.cls is w.cls and set(v.fields) == set(w.fields):
            return InstO(v.cls, {k: x if x == w.fields[k] else self.phi(p, x, w.fields[k])
                                 for k, x in v.fields.items()}, v.frozen)
        return None

    # ---- symbolic loops
    def sym_loop(self, st, rep, body, node, fr):
        """Summarise `for item in <rep>: body` for an arbitrary element."""
        lid = ("L", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), len(self.stack))
        carried_vars, carried_lists = set(), set()
        vals = {}
        for attempt in range(7):
            s0 = st.copy()
            for k in carried_vars:
                init = self.env_get(st, k)
                lv = Sym("loopvar", (lid, k[1]), self.var_ty(st, init))
                s0.env[k] = lv
                if k in vals:
                    s0.vals[lv] = vals[k]
                if isinstance(init, Const) and isinstance(init.v, int) and not isinstance(init.v, bool):
                    pass
            for i in carried_lists:
                o = self.heap_get(st, Ref(i))
                if isinstance(o, ListO):
                    # the third component: which list it is, when it was empty before the loop
                    s0.heap[i] = ListO((("prev", lid, i, "more") if o.segs else ("prev", lid, i),), o.kind)
                elif isinstance(o, DictO):
                    s0.heap[i] = DictO({}, None, frozenset(), o.owner, unk=("prev", lid))
                elif isinstance(o, IterO) and len(o.segs) == 1 and o.segs[0][0] == "count":
                    s0.heap[i] = IterO((("count", Sym("loopvar", (lid, f"iter{i}"), INT), o.segs[0][2]),), True)
                elif isinstance(o, IterO):
                    s0.heap[i] = IterO((("unk", "iterator advanced in loop"),), True)
            snapshot = s0.copy()
            results = []   # (state, sig, alt)
            for alt in rep.alts:
                for s1 in self.apply_guard(s0, alt.guard):
                    for e in alt.events:
                        s1.events = s1.events + (e,)
                    self.in_loop.append(rep.source)
                    try:
                        res = self.run_segs(s1.copy(), alt.segs, body, node, fr) if alt.segs else [(s1, NORMAL)]
                    finally:
                        self.in_loop.pop()
                    for s2, sig in res:
                        results.append((s2, sig, alt))
            # what did the body change?
            cv, cl = set(carried_vars), set(carried_lists)
            for s2, sig, _ in results:
                if sig[0] in ("raise", "ret"):
                    continue
                for k, v in s2.env.items():
                    if str(k[1]).startswith("$"):
                        continue
                    old = self.env_get(snapshot, k)
                    if old is not None and old != v:
                        cv.add(k)
                for i, o in s2.heap.items():
                    old = snapshot.heap.get(i) or self.base_heap.get(i)
                    if old is not None and old is not o and not (old == o):
                        cl.add(i)
            newvals = {}
            if cv == carried_vars and cl == carried_lists:
                # finite flags: all values constant
                for k in carried_vars:
                    init = self.env_get(st, k)
                    lv = Sym("loopvar", (lid, k[1]), self.var_ty(st, init))
                    if k in vals and vals[k] is None:
                        continue
                    vs = {init} if isinstance(init, (Const, EnumM)) else None
                    if vs is not None:
                        for s2, sig, _ in results:
                            if sig[0] in ("raise", "ret"):
                                continue
                            v = self.env_get(s2, k)
                            if v == lv:
                                continue
                            if isinstance(v, (Const, EnumM)):
                                vs.add(v)
                            else:
                                vs = None
                                break
                    if vs is not None:
                        newvals[k] = frozenset(vs) | vals.get(k, frozenset())
                if newvals == vals:
                    break
                if attempt >= 4:
                    vals = {}
                    break
                vals = newvals
            carried_vars, carried_lists = cv, cl
        return self.summarise(st, snapshot, rep, results, carried_vars, carried_lists, vals, lid, node, fr)

    def ty_of(self, v):
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, Const):
            return {str: STR, bool: BOOL, int: INT, float: FLOAT}.get(type(v.v), ANY)
        return ANY

    def var_ty(self, st, v):
        ty = self.ty_of(v)
        if ty.opt and st.facts.get(self.isopt_pred(v)) is False:
            ty = ty.w(opt=False)
        return ty

    def apply_guard(self, st, guard):
        """Assume a recorded guard (facts about the element) -> list of states."""
        s = st.copy()
        for g in guard:
            if g[0] == "fact":
                if g[1] in s.facts and s.facts[g[1]] != g[2]:
                    return []
                s.facts[g[1]] = g[2]
                self.derive(s, g[1], g[2])
            elif g[0] == "cls":
                c = s.cls.get(g[1])
                n = g[2] if c is None else (c & g[2])
                if not n:
                    return []
                s.cls[g[1]] = n
            elif g[0] == "vals":
                c = s.vals.get(g[1])
                n = g[2] if c is None else (c & g[2])
                if not n:
                    return []
                s.vals[g[1]] = n
            elif g[0] == "nvals":
                s.nvals[g[1]] = s.nvals.get(g[1], frozenset()) | g[2]
            elif g[0] == "rng":
                s.rng[g[1]] = g[2]
        return [s]

    def diff_guard(self, old, new):
        g = []
        for k, v in new.facts.items():
            if old.facts.get(k) != v:
                g.append(("fact", k, v))
        for k, v in new.cls.items():
            if old.cls.get(k) != v:
                g.append(("cls", k, v))
        for k, v in new.vals.items():
            if old.vals.get(k) != v:
                g.append(("vals", k, v))
        for k, v in new.nvals.items():
            if old.nvals.get(k) != v:
                g.append(("nvals", k, v))
        for k, v in new.rng.items():
            if old.rng.get(k) != v:
                g.append(("rng", k, v))
        return tuple(g)

    def summarise(self, st, snap, rep, results, cvars, clists, vals, lid, node, fr):
        out = []
        live = []
        broke = False
        self.loop_steps.setdefault(("exits", lid, rep.source), []).append(
            (tuple((self.diff_guard(snap, s2), "break" if sig is BREAK or alt.exit == "break" else
                    sig[0] if sig[0] in ("raise", "ret") else "next") for s2, sig, alt in results
                   if not fails_within(s2, snap, sig)), dict(st.facts), rep.partial and not any(
                       alt.exit == "break" for _, _, alt in results)))
        for s2, sig, alt in results:
            if sig[0] in ("raise", "ret"):
                # leaves the loop: an arbitrary number of earlier iterations precede it
                for i in clists:
                    o = s2.heap.get(i)
                    pre = self.heap_get(st, Ref(i))
                    if isinstance(o, ListO) and isinstance(pre, ListO):
                        s2.heap[i] = ListO(pre.segs + o.segs, o.kind)
                s2.ev("loopexit", sig[0], rep.source, self.where(fr, node))
                out.append((s2, sig))
            else:
                if sig is BREAK:
                    broke = True
                live.append((s2, sig, alt))
        if not live:
            # the loop may also run zero times
            z = st.copy()
            z.facts[("truthy", rep.source)] = False
            out.append((z, NORMAL))
            return out
        ex = st.copy()
        partial = rep.partial or broke
        rev = rep.rev
        # events
        evs = []
        for s2, sig, alt in live:
            d = s2.events[len(snap.events):]
            evs.append((self.diff_guard(snap, s2), d, sig[0]))
        if any(d for _, d, _ in evs):
            ex.ev("loop", rep.source, tuple(evs), partial, self.where(fr, node))
        if broke:
            ex.ev("break", rep.source, self.where(fr, node))
        # lists / dicts
        for i in clists:
            pre = self.heap_get(st, Ref(i))
            if isinstance(pre, ListO):
                now = [s2.heap.get(i) for s2, _, _ in live]
                if all(isinstance(o, ListO) for o in now):
                    marker = ("prev", lid, i, "more") if pre.segs else ("prev", lid, i)
                    self.loop_steps.setdefault(("list", marker, rep.source), []).append(
                        (pre.segs, tuple((self.diff_guard(snap, s2), o.segs) for (s2, _, _), o in zip(live, now)
                                         if not fails_within(s2, snap, NORMAL)), dict(st.facts)))
                new = self.items_replaced(pre, [(self.diff_guard(snap, s2), s2.heap.get(i),
                                                 s2.events[len(snap.events):]) for s2, _, _ in live], rep) \
                    if not broke else None
                if new is not None:
                    ex.heap[i] = ListO((new,), pre.kind)
                    continue
                alts, fronts, ok = [], [], True
                for s2, sig, alt in live:
                    o = s2.heap.get(i)
                    marker = ("prev", lid, i, "more") if pre.segs else ("prev", lid, i)
                    if not isinstance(o, ListO) or o.segs.count(marker) != 1:
                        ok = False
                        break
                    j = o.segs.index(marker)
                    rest = (self.diff_guard(snap, s2), s2.events[len(snap.events):],
                            "break" if sig is BREAK else "next")
                    fronts.append(Alt(rest[0], o.segs[:j], *rest[1:]))
                    alts.append(Alt(rest[0], o.segs[j + 1:], *rest[1:]))
                if not ok:
                    cut = self.thrown_away(snap, live, i, marker, pre)
                    ex.heap[i] = ListO((("unk", ("cut", cut) if cut else "list rewritten in loop",
                                        opaque(LIST, "rewritten", marker, rep.source)),), pre.kind)
                    continue
                front, back = any(a.segs for a in fronts), any(a.segs for a in alts)
                segs = pre.segs
                if front:
                    r = Rep(rep.source, fronts, partial=partial, rev=not rev, why=rep.why, id=lid)
                    segs = (("rep", r),) + segs
                if back or not front:
                    if not front:
                        alts = self.by_first(st, snap, live, alts, cvars, clists, vals, lid)
                    r = Rep(rep.source, alts, partial=partial, rev=rev, why=rep.why, id=lid)
                    segs = segs + (("rep", r),)
                ex.heap[i] = ListO(segs, pre.kind)
            elif isinstance(pre, DictO):
                r = self.dict_pairs(pre, [(self.diff_guard(snap, s2), s2.heap.get(i),
                                           s2.events[len(snap.events):], "break" if sig is BREAK else "next")
                                          for s2, sig, _ in live], rep, partial, rev, lid)
                ex.heap[i] = DictO({}, None, frozenset(), pre.owner, unk=("pairs", r)) if r is not None else \
                    DictO(dict(pre.entries), pre.base, pre.deleted, pre.owner, unk=True, deep=pre.deep)
            elif isinstance(pre, InstO):
                flds = dict(pre.fields)
                for s2, sig, alt in live:
                    o = s2.heap.get(i)
                    if isinstance(o, InstO):
                        for k, v in o.fields.items():
                            if flds.get(k) != v:
                                flds[k] = unk("field updated in loop")
                ex.heap[i] = InstO(pre.cls, flds, pre.frozen)
            else:
                ex.heap[i] = IterO((("unk", "iterator advanced in loop"),))
                if isinstance(pre, IterO) and len(pre.segs) == 1 and pre.segs[0][0] == "count":
                    lv, news = Sym("loopvar", (lid, f"iter{i}"), INT), []
                    for s2, _, _ in live:
                        o = s2.heap.get(i)
                        if not (isinstance(o, IterO) and len(o.segs) == 1 and o.segs[0][0] == "count"):
                            break
                        news.append((self.diff_guard(snap, s2), o.segs[0][1]))
                    else:
                        self.loop_steps.setdefault((lv, rep.source), []).append(
                            (pre.segs[0][1], tuple(news), dict(st.facts)))
                        ex.heap[i] = IterO((("count", Sym("loopout", (lid, lv.args[1], rep.source, pre.segs[0][1],
                                                                      tuple(news)), INT), pre.segs[0][2]),), True)
        # objects allocated in the body and still referenced through carried vars: keep them
        for s2, _, _ in live:
            for i, o in s2.heap.items():
                if i not in ex.heap and i not in self.base_heap:
                    ex.heap[i] = o
        # variables
        for k in cvars:
            init = self.env_get(st, k)
            lv = Sym("loopvar", (lid, k[1]), self.var_ty(st, init))
            ex.env[k] = self.out_var(st, k, init, lv, live, snap, rep, partial, lid, ex, vals, cvars, clists)
            self.loop_steps.setdefault((lv, rep.source), []).append(
                (init, tuple((self.diff_guard(snap, s2), self.env_get(s2, k)) for s2, _, _ in live), dict(st.facts)))
        # names first bound in the body
        seen = {}
        for s2, _, _ in live:
            for k, v in s2.env.items():
                if k not in ex.env and k not in self.base_env and k[0] == fr.fid:
                    seen.setdefault(k, []).append(v)
        for k, vs in seen.items():
            ex.env[k] = Sym("last", (lid, k[1], rep.source, tuple(dict.fromkeys(vs))),
                            self.ty_of(vs[0]))
        out.append((ex, NORMAL))
        return out

    def by_first(self, st, snap, live, alts, cvars, clists, vals, lid, need=None):
        """Alternatives of an accumulating loop whose form depends on whether anything was accumulated before:
        a flag (or a separator variable) changed by exactly the steps that accumulate, or the list itself being
        empty.  They are told apart by the fact ("firstout", loop)."""
        def side_of(guard, is_flag):
            side, rest = None, []
            for g in guard:
                b = is_flag(g)
                if b is None:
                    rest.append(g)
                else:
                    side = b
            return side, tuple(rest)

        fact = ("firstout", lid)
        cands = []
        for i in clists:
            pre = self.heap_get(st, Ref(i))
            if not isinstance(pre, ListO) or pre.segs:
                continue
            key = ("nonempty", (("prev", lid, i),))
            emits = [len(s2.heap[i].segs) > 1 if isinstance(s2.heap.get(i), ListO) else None for s2, _, _ in live]
            if any(g[0] == "fact" and g[1] == key for a in alts for g in a.guard):
                cands.append((lambda g, key=key: (not g[2]) if g[0] == "fact" and g[1] == key else None,
                              emits, None))
        for k in cvars:
            init = self.env_get(st, k)
            lv = Sym("loopvar", (lid, k[1]), self.var_ty(st, init))
            ws = {self.env_get(s2, k) for s2, _, _ in live} - {lv}
            if k in vals and vals[k] is not None and len(vals[k]) == 2 and init in vals[k] and len(ws) == 1 and \
                    init not in ws and len({bool(x.v) for x in vals[k] if isinstance(x, Const)}) == 2:
                w = next(iter(ws))

                def is_flag(g, lv=lv, init=init, w=w):
                    if g[0] == "fact" and g[1] == ("truthy", lv):
                        return g[2] == bool(init.v)
                    if g[0] == "fact" and g[1][0] in ("is", "eqc", "eq") and g[1][1] == lv and g[1][2] in (init, w):
                        return g[2] == (g[1][2] == init)
                    if g[0] == "vals" and g[1] == lv and len(g[2]) == 1:
                        return g[2] == frozenset([init])
                    if g[0] == "nvals" and g[1] == lv and len(g[2]) == 1:
                        return g[2] == frozenset([w])
                    return None
                emits = []
                for s2, _, _ in live:
                    v = self.env_get(s2, k)
                    side, _ = side_of(self.diff_guard(snap, s2), is_flag)
                    emits.append(v == w or side is False)
                cands.append((is_flag, emits, (lv, init, w)))
            elif init == Const(0) and ws == {Sym("bin", ("+", lv, Const(1)), INT)}:
                def counted(g, lv=lv):
                    if g[0] == "fact" and g[1] == ("truthy", lv):
                        return not g[2]
                    if g[0] == "fact" and g[1][0] in ("eqc", "eq") and g[1][1:] == (lv, Const(0)):
                        return g[2]
                    if g[0] == "fact" and g[1] == ("lt", Const(0), lv):
                        return not g[2]
                    return None
                cands.append((counted, [self.env_get(s2, k) != lv for s2, _, _ in live], None))
        for is_flag, emits, sep in cands:
            if any((e is None) or e != bool(a.segs) for e, a in zip(emits, alts)) or not any(emits):
                continue
            out = []
            used = False
            for a in alts:
                side, rest = side_of(a.guard, is_flag)
                dep = sep is not None and any(mentions(v, sep[0]) for v in seg_values(a.segs))
                if side is not None and a.segs:
                    used = True
                if not a.segs:
                    b = Alt(rest, a.segs, a.events, a.exit)
                    if b not in out:
                        out.append(b)
                    continue
                if dep:
                    used = True
                for first in (True, False):
                    if side is not None and side != first:
                        continue
                    segs = subst(a.segs, {sep[0]: sep[1] if first else sep[2]}) if dep else a.segs
                    if dep:
                        segs = tuple(("e", cat(pieces(s[1]))) if s[0] == "e" else s for s in segs)
                    out.append(Alt(rest + (("fact", fact, first),), segs, a.events, a.exit))
            if need is not None and any(side_of(a.guard, is_flag)[0] is not True for a, n in zip(alts, need) if n):
                continue
            if used:
                return out
        return alts if need is None else None

    def thrown_away(self, snap, live, i, marker, pre):
        """The condition under which a turn of the loop removes what earlier turns collected in list i, when it is
        clear that it is kept nowhere else."""
        for s2, sig, alt in live:
            o = s2.heap.get(i)
            if not isinstance(o, ListO) or holds(tuple(g for g in o.segs if g[0] != "unk"), marker) or \
                    o.segs and not (o.segs[0][:2] == ("unk", "pop") or all(g[0] == "e" for g in o.segs)):
                continue
            g = self.diff_guard(snap, s2)
            if any(vague_guard(x) for x in g) or any(
                    x[0] == "fact" and x[2] is False and holds(x[1], marker) for x in g):
                continue
            if any(holds(v, marker) for k, v in s2.env.items() if snap.env.get(k) is not v) or any(
                    holds(getattr(h, "segs", None) or tuple(getattr(h, "entries", {}).values()) or
                          tuple(getattr(h, "fields", {}).values()), marker)
                    for j, h in s2.heap.items() if j != i and snap.heap.get(j) is not h):
                continue
            return " and ".join(map(show_guard, g)) or "always"
        return None

    def out_var(self, st, k, init, lv, live, snap, rep, partial, lid, ex, vals, cvars, clists):
        news = []
        for s2, sig, alt in live:
            news.append((self.diff_guard(snap, s2), self.env_get(s2, k), "break" if sig is BREAK else "next",
                         s2.events[len(snap.events):]))
        # string accumulation
        if all(v == lv or (isinstance(v, Sym) and v.op == "cat" and v.args[0] == lv and
                           not any(mentions(p, lv) for p in v.args[1:])) for _, v, _, _ in news) \
                and any(v != lv for _, v, _, _ in news):
            alts = [Alt(g, [("e", cat(v.args[1:]))] if v != lv else [], e, x) for g, v, x, e in news]
            alts = self.by_first(st, snap, live, alts, cvars, clists, vals, lid)
            r = Rep(rep.source, alts, partial, rep.rev, rep.why, id=lid)
            return cat([init, join(EMPTY, [("rep", r)])])
        if all(v == lv or (isinstance(v, Sym) and v.op == "cat" and v.args[-1] == lv and
                           not any(mentions(p, lv) for p in v.args[:-1])) for _, v, _, _ in news) \
                and any(v != lv for _, v, _, _ in news):
            alts = [Alt(g, [("e", cat(v.args[:-1]))] if v != lv else [], e, x) for g, v, x, e in news]
            r = Rep(rep.source, alts, partial, not rep.rev, rep.why, id=lid)
            return cat([join(EMPTY, [("rep", r)]), init])
        # the first text put out replaces the empty text there was
        if init == EMPTY and not rep.rev and any(isinstance(v, Sym) and v.op == "cat" and v.args[0] == lv
                                                 for _, v, _, _ in news):
            whole = [v != lv and not (isinstance(v, Sym) and v.op == "cat" and v.args[0] == lv) for _, v, _, _ in news]
            parts = [[] if v == lv else [("e", v if w else cat(v.args[1:]))] for w, (_, v, _, _) in zip(whole, news)]
            if any(whole) and not any(mentions(x[1], lv) for p in parts for x in p):
                alts = self.by_first(st, snap, live, [Alt(g, p, e, x) for p, (g, _, x, e) in zip(parts, news)],
                                     cvars, clists, vals, lid, whole)
                if alts is not None:
                    return join(EMPTY, [("rep", Rep(rep.source, alts, partial, rep.rev, rep.why, id=lid))])
        # None until the first text is put out
        if init == NONE_V and not rep.rev and not partial and all(x == "next" for _, _, x, _ in news):
            isnone = ("isnone", lv)
            alts = []
            for g, v, x, e in news:
                side = next((b for f in g if f[0] == "fact" and f[1] == isnone for b in (f[2],)), None)
                rest = tuple(f for f in g if not (f[0] == "fact" and f[1] == isnone))
                if v == lv:
                    alts += [Alt(rest, [], e, x)] if Alt(rest, [], e, x) not in alts else []
                    continue
                text = v if side is True else cat(v.args[1:]) if side is False and isinstance(v, Sym) and \
                    v.op == "cat" and v.args[0] == lv else None
                if text is None or mentions(text, lv) or not self.is_str(text):
                    break
                alts.append(Alt(rest + (("fact", ("firstout", lid), side),), [("e", text)], e, x))
            else:
                if any(a.segs for a in alts):
                    r = Rep(rep.source, alts, partial, rep.rev, rep.why, id=lid)
                    plain = []
                    for a in alts:
                        if ("fact", ("firstout", lid), False) in a.guard:
                            continue
                        b = Alt(tuple(f for f in a.guard if f[1] != ("firstout", lid)), a.segs, a.events, a.exit)
                        if b not in plain:
                            plain.append(b)
                    some = ("rep", Rep(rep.source, plain, partial, rep.rev, rep.why, id=lid))
                    return self.phi(("nonempty", (some,)), join(EMPTY, [("rep", r)]), NONE_V)
        # lists rebuilt with `x = x + [...]`
        if k in vals and vals[k] is not None:
            o = Sym("loopout", (lid, k[1], rep.source, init, tuple((g, v) for g, v, _, _ in news)), self.ty_of(init))
            ex.vals[o] = vals[k]
            return o
        if all(isinstance(v, Sym) or v == lv for _, v, _, _ in news) and any(
                isinstance(v, Sym) and v != lv and mentions(v, lv) for _, v, _, _ in news):
            ty = self.ty_of(init)
            for _, v, _, _ in news:
                if isinstance(v, Sym) and v.ty.kind != "any":
                    ty = v.ty.w(opt=False)
            return Sym("fold", (init, lv, rep.source, tuple((g, v) for g, v, _, _ in news), partial, rep.rev), ty)
        return Sym("loopout", (lid, k[1], rep.source, init, tuple((g, v) for g, v, _, _ in news)), self.ty_of(init))

    def s_While(self, s, st, fr):
        # 1. index loops:  while i < len(X)
        r = self.index_while(s, st, fr)
        if r is None:
            r = self.consume_while(s, st, fr)
        if r is not None:
            return r
        # 2. unroll while the test stays decidable
        forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
        cur, out, res = [st], [], []
        for n in range(70):
            nxt = []
            for s1 in cur:
                steps, raised = [], []
                for s2, v in self.ev(s.test, s1, fr):
                    if isinstance(v, Raised):
                        raised.append((s2, ("raise", v.exc)))
                    else:
                        steps += self.truth(s2, v)
                if len({b for _, b in steps}) > 1 or n == 69:
                    # 3. general: summarise as a loop over an unknown number of steps
                    res += self.gen_while(s, s1, fr)
                    continue
                out += raised
                for s3, b in steps:
                    if not b:
                        out += self.block(s.orelse, s3, fr) if s.orelse else [(s3, NORMAL)]
                        continue
                    done = self.block(s.body, s3, fr)
                    on = sum(sig is NORMAL or sig is CONTINUE for _, sig in done)
                    if forever and on and on < len(done):
                        # the body decides when to stop
                        res += self.gen_while(s, s1, fr)
                        continue
                    for s4, sig in done:
                        if sig is BREAK:
                            out.append((s4, NORMAL))
                        elif sig is NORMAL or sig is CONTINUE:
                            nxt.append(s4)
                        else:
                            out.append((s4, sig))
            if not nxt:
                break
            cur = nxt
        return out + res

    def consume_while(self, s, st, fr):
        """while Q: x = Q.pop(0); …  is  for x in Q: …  when nothing else looks at Q."""
        if id(s) not in self._consuming:
            self._consuming[id(s)] = (s, rewrite.consuming(s))
        got = self._consuming[id(s)][1]
        if got is None:
            return None
        q, inplace, loop = got
        k = (fr.fid, q)
        v = self.env_get(st, k)
        if inplace == "iter-none":
            # the elements are never None
            o = self.heap_get(st, v) if isinstance(v, Ref) else None
            if not (isinstance(o, IterO) and all(
                    g[0] == "e" and never_none(g[1]) or g[0] == "rep" and all(
                        x[0] == "e" and never_none(x[1]) for a in g[1].alts for x in a.segs) for g in o.segs)):
                return None
            out = []
            broke = any(isinstance(x, ast.Break) for b in loop.body for x in ast.walk(b))
            for s1, sig in self.s_For(loop, st, fr):
                if sig is NORMAL:
                    s1 = s1.copy()
                    s1.env[(fr.fid, loop.target.id)] = unk("where a loop was left") if broke else NONE_V
                out.append((s1, sig))
            return out
        if inplace == "iter":
            return self.s_For(loop, st, fr) if isinstance(v, Ref) and isinstance(self.heap_get(st, v), IterO) else None
        if isinstance(v, Sym):
            if v.ty.kind != "list" or v.ty.opt and st.facts.get(self.isopt_pred(v)) is not False or inplace and not self.fresh_list(v):
                return None
        elif not (isinstance(v, Ref) and isinstance(self.heap_get(st, v), ListO)) or v.id in self.base_heap:
            return None
        out = []
        for s1, sig in self.s_For(loop, st, fr):
            s1 = s1.copy()
            if sig is NORMAL:
                broke = any(isinstance(x, ast.Break) for b in loop.body for x in ast.walk(b))
                left = ListO((("unk", "what a loop left"),) if broke else ())
                if inplace and isinstance(v, Ref):
                    s1.heap[v.id] = left
                else:
                    s1.env[k] = self.alloc(s1, left)
            s1.env.pop((fr.fid, f"${q}0"), None)
            out.append((s1, sig))
        return out

    def gen_while(self, s, st, fr):
        src = Sym("while", (s.lineno, s.col_offset), LIST)
        forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
        stop = ("ret", Ref(-next(self.counter)))

        def body(s1, item):
            res = []
            for s2, v in self.ev(s.test, s1, fr):
                if isinstance(v, Raised):
                    res.append((s2, ("raise", v.exc)))
                    continue
                for s3, b in self.truth(s2, v):
                    if b:
                        for s4, sig in self.block(s.body, s3, fr):
                            # a break of an endless loop keeps what is known at the break
                            res.append((s4, stop if forever and sig is BREAK else sig))
            return res

        out = []
        rep = Rep(src, [Alt((), [("e", unk("while"))])])
        exits = self.sym_loop(st, rep, body, s, fr)
        if forever:
            ends = [(s1, NORMAL if sig == stop else sig) for s1, sig in exits if sig is not NORMAL]
            if ends:
                return [self.while_fix(s1, sig, src) for s1, sig in ends]
        for s1, sig in exits:
            if sig is NORMAL:
                got = []
                if not forever:
                    for s2, v in self.ev(s.test, s1, fr):
                        if isinstance(v, Raised):
                            continue
                        got += [s3 for s3, b in self.truth(s2, v) if not b]
                for s3 in got or [s1]:
                    # normalise:  while "a" in t: t = t.replace("a", b)   -> fixpoint term
                    s3, _ = self.while_fix(s3, NORMAL, src)
                    out += self.block(s.orelse, s3, fr) if s.orelse else [(s3, NORMAL)]
            else:
                out.append(self.while_fix(s1, sig, src))
        return out

    def while_fix(self, st, sig, src):
        """Facts known when the loop is left that say `x.replace(a, b)` no longer changes x, for a variable x
        whose every step is that replacement: x is the fixpoint term."""
        m = {}

        def steps(x):
            if isinstance(x, Sym) and x.op == "fold" and x.args[2] == src:
                return x.args[1], x.args[0], [v for _, v in x.args[3]]
            if isinstance(x, Sym) and x.op == "loopvar":
                rec = self.loop_steps.get((x, src))
                if rec:
                    return x, rec[-1][0], [v for _, v in rec[-1][1]]
            return None

        def shrink(x):
            r = steps(x)
            if r is None:
                return None
            lv, init, news = r
            news = [one_replaced(v, lv) or v for v in news]
            ab = {v.args[2:] for v in news if isinstance(v, Sym) and v.op == "meth" and v.args[0] == "replace"
                  and len(v.args) == 4 and v.args[1] == lv}
            if len(ab) != 1 or any(not (isinstance(v, Sym) and v.op == "meth" and v.args[1:2] == (lv,) and
                                        v.args[2:] in ab) for v in news):
                return None
            return (init,) + next(iter(ab))

        def is_rep(y, x, r):
            return isinstance(y, Sym) and y.op == "meth" and y.args == ("replace", x) + r[1:]

        for f, b in st.facts.items():
            if f[0] == "truthy" and b is False:
                # no second piece:  head, sep, tail = t.partition(a)
                f = rest_of_split(f[1]) or searched(f[1]) or f
            if f[0] == "contains" and b is False:
                r = shrink(f[1])
                if r and f[2] == r[1]:
                    m[f[1]] = self.mk_fix(*r)
            elif f[0] == "eq" and b is True:
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    n = isinstance(x, Sym) and x.op == "len"
                    if n:
                        x = x.args[0]
                        if isinstance(y, Sym) and y.op == "len":
                            y = y.args[0]
                    r = shrink(x)
                    if not r or n and not (isinstance(r[1], Const) and isinstance(r[2], Const) and
                                           len(r[1].v) != len(r[2].v)):
                        continue
                    if is_rep(y, x, r):
                        m[x] = m[y] = self.mk_fix(*r)
                    # prev = t; t = t.replace(a, b)   until prev == t
                    z = y.args[0:5] if isinstance(y, Sym) and y.op in ("loopout", "fold") else None
                    if z and y.op == "fold":
                        z = (None, None, z[2], z[0], z[3])
                    if z and z[2] == src and z[4]:
                        lv = x.args[1] if x.op == "fold" else x
                        a = r[1].v if isinstance(r[1], Const) else None
                        i = z[3]
                        if n and isinstance(i, Sym) and i.op == "len":
                            i = i.args[0]
                        if n and isinstance(i, Const) and isinstance(i.v, int) and i.v >= 0:
                            continue
                        if all(v == (Sym("len", (lv,)) if n else lv) for _, v in z[4]) and (
                                isinstance(i, Const) and (not isinstance(i.v, str) or isinstance(a, str) and a not in i.v)
                                or is_rep(r[0], i, r)):
                            m[x] = m[y] = self.mk_fix(*r)
        if not m:
            return st, sig
        st = st.copy()
        for k, v in st.env.items():
            st.env[k] = subst(v, m)
        for i, o in st.heap.items():
            if isinstance(o, ListO):
                st.heap[i] = ListO(subst(tuple(o.segs), m), o.kind)
        # when something that stays the same can stop the loop as well, the text is its fixpoint only where it did not
        also = {k: b for k, b in st.facts.items() for x in k[1:] if isinstance(x, Sym) and x.op == "fold" and x in m and any(
            g[0] == "fact" and not any(isinstance(y, Sym) and y.op == "loopvar" for z in g[1][1:] if isinstance(z, V)
                                       for y in subterms(z)) for al in x.args[3] for g in al[0])}
        st.facts = {subst(k, m): b for k, b in st.facts.items()}
        st.facts.update(also)
        if sig[0] == "ret" and isinstance(sig[1], V):
            sig = ("ret", subst(sig[1], m))
        return st, sig

    def mk_fix(self, x, a, b):
        while isinstance(x, Sym) and ((x.op == "meth" and x.args[0] == "replace" and x.args[2:] == (a, b)) or
                                      (x.op == "replace_fix" and x.args[1:] == (a, b))):
            x = x.args[1] if x.op == "meth" else x.args[0]
        return Sym("replace_fix", (x, a, b), STR)

    def index_while(self, s, st, fr):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and isinstance(t.left, ast.Name)):
            return None
        k = (fr.fid, t.left.id)
        init = self.env_get(st, k)
        if init != Const(0) or s.orelse:
            return None
        out = []
        for s1, n in self.ev(t.comparators[0], st, fr):
            if not (isinstance(n, Sym) and n.op == "len"):
                return None
            src = n.args[0]
            idx = Sym("idx", (src,), INT)

            bad = []

            def body(s2, item):
                s2 = s2.copy()
                s2.env[k] = idx
                res = []
                for s3, sig in self.block(s.body, s2, fr):
                    if sig is NORMAL or sig is CONTINUE:
                        if self.env_get(s3, k) != Sym("bin", ("+", idx, Const(1)), INT):
                            bad.append(1)
                        s3 = s3.copy()
                        s3.env[k] = init
                    res.append((s3, sig))
                return res

            res = self.run_segs(s1, [ident_rep(src, elem_of(src))], body, s, fr)
            if bad:
                return None
            for s2, sig in res:
                s2 = s2.copy()
                s2.env[k] = n
                out.append((s2, NORMAL if sig is BREAK else sig))
        return out

    # ------------------------------------------------------------------ comprehension
    def comp(self, e, st, fr, kind):
        """-> list of (state, Ref|Raised); kind in list/set/dict/gen"""
        st = st.copy()
        acc = self.alloc(st, DictO() if kind == "dict" else ListO(kind="set" if kind == "set" else "list"))
        hashorder = []
        fid = ("comp", next(self.counter))
        cfr = Frame(fid, fr.mod, (fr.fid,) + fr.chain, fr.func, fr.cls, fr.selfv)
        cfr.on_yield = fr.on_yield

        def level(i, s0):
            if i == len(e.generators):
                res = []
                if kind == "dict":
                    for s1, vals in self.seq([e.key, e.value], s0, cfr):
                        if isinstance(vals, Raised):
                            res.append((s1, ("raise", vals.exc)))
                        else:
                            for s2, r in self.setitem(s1, acc, vals[0], vals[1], e, cfr):
                                res.append((s2, ("raise", r.exc) if isinstance(r, Raised) else NORMAL))
                else:
                    for s1, v in self.ev(e.elt, s0, cfr):
                        if isinstance(v, Raised):
                            res.append((s1, ("raise", v.exc)))
                        else:
                            s1 = s1.copy()
                            self.list_append(s1, acc, v)
                            res.append((s1, NORMAL))
                return res
            g = e.generators[i]
            res = []
            for s1, it in self.ev(g.iter, s0, fr if i == 0 else cfr):
                if isinstance(it, Raised):
                    res.append((s1, ("raise", it.exc)))
                    continue
                if self.unordered(s1, it):
                    hashorder.append(it)

                def body(s2, item):
                    r2 = []
                    for s3, sig in self.assign(g.target, item, s2, cfr):
                        if sig is not NORMAL:
                            r2.append((s3, sig))
                            continue
                        curs = [(s3, NORMAL)]
                        for cond in g.ifs:
                            nxt = []
                            for s4, sg in curs:
                                if sg is not NORMAL:
                                    nxt.append((s4, sg))
                                    continue
                                for s5, cv in self.ev(cond, s4, cfr):
                                    if isinstance(cv, Raised):
                                        nxt.append((s5, ("raise", cv.exc)))
                                        continue
                                    for s6, b in self.truth(s5, cv):
                                        nxt.append((s6, NORMAL if b else CONTINUE))
                            curs = nxt
                        for s4, sg in curs:
                            if sg is NORMAL:
                                r2 += level(i + 1, s4)
                            else:
                                r2.append((s4, sg))
                    return r2

                res += self.iterate(s1, it, body, e, cfr)
            return res

        out = []
        for s1, sig in level(0, st):
            if sig[0] == "raise":
                out.append((s1, Raised(sig[1])))
            else:
                o = self.heap_get(s1, acc)
                if hashorder and isinstance(o, ListO) and o.kind == "list":
                    s1 = s1.copy()
                    s1.heap[acc.id] = ListO(o.segs, "ulist")
                elif hashorder and isinstance(o, DictO) and o.owner == "fresh":
                    s1 = s1.copy()
                    s1.heap[acc.id] = DictO(o.entries, o.base, o.deleted, "hashed", o.unk, o.deep)
                out.append((s1, acc))
        return out

    def items_replaced(self, pre, turns, rep):
        """`for i, x in enumerate(xs): xs[i] = ...`: every item is replaced in its own turn, or stays."""
        if rep.partial or rep.rev or len(pre.segs) != 1 or not is_ident(pre.segs[0]) or \
                pre.segs[0][1].source != rep.source or not any(len(o.segs) > 1 for _, o, _ in turns
                                                               if isinstance(o, ListO)):
            return None
        alts = []
        for g, o, ev in turns:
            if not isinstance(o, ListO) or not o.segs or o.segs[0][0] != "prev" or len(o.segs) > 2:
                return None
            v = elem_of(rep.source)
            if len(o.segs) == 2:
                u = o.segs[1]
                if u[0] != "unk" or not isinstance(u[1], tuple) or u[1][1] != Sym("idx", (rep.source,), INT):
                    return None
                v = u[1][2]
            alts.append(Alt(g, [("e", v)], ev, "next"))
        return ("rep", Rep(rep.source, alts, why=rep.why))

    def dict_pairs(self, pre, ends, rep, partial, rev, lid):
        """A dictionary filled by a loop, one entry per turn: its items as a Rep, or None."""
        if pre.entries or pre.base is not None or pre.deleted or pre.unk or not isinstance(rep.source, Sym):
            return None
        src, el = rep.source, elem_of(rep.source)
        alts, keys = [], []
        for g, o, evs, exit_ in ends:
            if not isinstance(o, DictO) or o.entries or o.base is not None or o.deleted or \
                    not isinstance(o.unk, tuple) or o.unk[1] != lid:
                return None
            if o.unk[0] == "prev":
                alts.append(Alt(g, (), evs, exit_))
            elif o.unk[0] == "one":
                keys.append(o.unk[2])
                alts.append(Alt(g, (("e", TupV([o.unk[2], o.unk[3]])),), evs, exit_))
            else:
                return None
        idx = Sym("idx", (src,), INT)
        if all(k == idx or k.op == "bin" and k.args[0] == "+" and k.args[1] == idx and isinstance(k.args[2], Const)
               for k in keys) and len(set(keys)) == 1:
            return Rep(src, alts, partial, rev, rep.why, lid)
        if not all(mentions(k, el) and not any(is_unknown(x) or isinstance(x, Sym) and x.op == "ext" and
                                               not (x.args[0] == "builtins.id" and x.args[1] == (el,))
                                               for x in subterms(k)) for k in keys):
            return None
        # several elements may share a key: the values are those of a selection of the elements
        some = Sym("set", (src,), src.ty)
        m = {el: elem_of(some)}
        return Rep(some, [Alt(a.guard, tuple(("e", s[1].like([subst(x, m) for x in s[1].items])) for s in a.segs),
                              a.events, a.exit) for a in alts], partial, rev, rep.why, lid)

    # ------------------------------------------------------------------ expressions
    def seq(self, exprs, st, fr):
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for s1, vals in cur:
                if isinstance(vals, Raised):
                    nxt.append((s1, vals))
                    continue
                for s2, v in self.ev(e, s1, fr):
                    nxt.append((s2, v if isinstance(v, Raised) else vals + [v]))
            cur = nxt
        return cur

    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note_unknown(fr, e, "expression " + type(e).__name__)
            return [(st, unk(type(e).__name__))]
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return [(st, Const(e.value))]

    def e_Name(self, e, st, fr):
        v = self.lookup(st, fr, e.id)
        if v is None:
            return [(st, self.exc("NameError", ("unbound", e.id), where=self.where(fr, e)))]
        return [(st, v)]

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s1, v in self.ev(e.value, st, fr):
            if isinstance(v, Raised):
                out.append((s1, v))
                continue
            tfr = fr
            if fr.fid[0] == "comp":
                # binds in the enclosing function frame
                fid = next(f for f in fr.chain if f[0] != "comp")
                s1 = s1.copy()
                s1.env[(fid, e.target.id)] = v
                out.append((s1, v))
                continue
            for s2, sig in self.assign(e.target, v, s1, tfr):
                out.append((s2, v))
        return out

    def e_Attribute(self, e, st, fr):
        out = []
        for s1, o in self.ev(e.value, st, fr):
            if isinstance(o, Raised):
                out.append((s1, o))
            else:
                out += self.getattr(s1, o, e.attr, e, fr)
        return out

    def e_Subscript(self, e, st, fr):
        out = []
        if isinstance(e.slice, ast.Slice):
            parts = [e.value, e.slice.lower or ast.Constant(None), e.slice.upper or ast.Constant(None),
                     e.slice.step or ast.Constant(None)]
            for s1, vals in self.seq(parts, st, fr):
                if isinstance(vals, Raised):
                    out.append((s1, vals))
                    continue
                for s2, o in self.norm(s1, vals[0]):
                    out += self.slice_(s2, o, vals[1], vals[2], vals[3], e, fr)
            return out
        for s1, vals in self.seq([e.value, e.slice], st, fr):
            if isinstance(vals, Raised):
                out.append((s1, vals))
            else:
                out += self.getitem(s1, vals[0], vals[1], e, fr)
        return out

    def e_Slice(self, e, st, fr):
        return [(st, unk("slice"))]

    def e_Tuple(self, e, st, fr):
        return [(s, v if isinstance(v, Raised) else v) for s, v in self._seq_display(e.elts, st, fr, "tuple")]

    def e_List(self, e, st, fr):
        return self._seq_display(e.elts, st, fr, "list")

    def e_Set(self, e, st, fr):
        return self._seq_display(e.elts, st, fr, "set")

    def _seq_display(self, elts, st, fr, kind):
        cur, hashed = [(st, [])], False
        for x in elts:
            nxt = []
            for s1, segs in cur:
                if isinstance(segs, Raised):
                    nxt.append((s1, segs))
                    continue
                if isinstance(x, ast.Starred):
                    for s2, v in self.ev(x.value, s1, fr):
                        if isinstance(v, Raised):
                            nxt.append((s2, v))
                            continue
                        for s3, v2 in self.norm(s2, v):
                            hashed = hashed or self.unordered(s3, v2)
                            for s4, sg in self.segments(s3, v2, x, fr):
                                nxt.append((s4, sg if isinstance(sg, Raised) else segs + list(sg)))
                else:
                    for s2, v in self.ev(x, s1, fr):
                        nxt.append((s2, v if isinstance(v, Raised) else segs + [("e", v)]))
            cur = nxt
        out = []
        for s1, segs in cur:
            if isinstance(segs, Raised):
                out.append((s1, segs))
            elif kind == "tuple" and not hashed and all(g[0] == "e" for g in segs):
                out.append((s1, TupV([g[1] for g in segs])))
            else:
                s1 = s1.copy()
                out.append((s1, self.alloc(s1, ListO(segs, "ulist" if hashed and kind in ("list", "tuple") else kind))))
        return out

    def e_Dict(self, e, st, fr):
        st = st.copy()
        ref = self.alloc(st, DictO())
        cur = [(st, None)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s1, r in cur:
                if isinstance(r, Raised):
                    nxt.append((s1, r))
                    continue
                if k is None:
                    for s2, d in self.ev(v, s1, fr):
                        if isinstance(d, Raised):
                            nxt.append((s2, d))
                        else:
                            for s3, x in self.call_method(s2, ref, "update", [d], {}, e, fr):
                                nxt.append((s3, x if isinstance(x, Raised) else None))
                else:
                    for s2, vals in self.seq([k, v], s1, fr):
                        if isinstance(vals, Raised):
                            nxt.append((s2, vals))
                        else:
                            for s3, x in self.setitem(s2, ref, vals[0], vals[1], e, fr):
                                nxt.append((s3, x if isinstance(x, Raised) else None))
            cur = nxt
        return [(s1, r if isinstance(r, Raised) else ref) for s1, r in cur]

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    def e_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        out = []
        vals = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE_V)]
        for s1, v in vals:
            if isinstance(v, Raised):
                out.append((s1, v))
            elif fr.on_yield is not None:
                out += fr.on_yield(s1, v)
            else:
                out.append((s1, unk("yield")))
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        for s1, it in self.ev(e.value, st, fr):
            if isinstance(it, Raised):
                out.append((s1, it))
                continue

            def body(s2, item):
                if fr.on_yield is None:
                    return [(s2, NORMAL)]
                return [(s3, ("raise", r.exc) if isinstance(r, Raised) else NORMAL)
                        for s3, r in fr.on_yield(s2, item)]

            for s2, sig in self.iterate(s1, it, body, e, fr):
                out.append((s2, Raised(sig[1]) if sig[0] == "raise" else NONE_V))
        return out

    def e_IfExp(self, e, st, fr):
        out = []
        for s1, v in self.ev(e.test, st, fr):
            if isinstance(v, Raised):
                out.append((s1, v))
                continue
            for s2, b in self.truth(s1, v):
                out += self.ev(e.body if b else e.orelse, s2, fr)
        return out

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        out = []
        cur = [st]
        for i, x in enumerate(e.values):
            nxt = []
            for s1 in cur:
                for s2, v in self.ev(x, s1, fr):
                    if isinstance(v, Raised):
                        out.append((s2, v))
                        continue
                    if i == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            vv = v
                            if isinstance(v, Sym) and (v.op == "phi" or v.ty.opt):
                                nv = self.norm(s3, v)
                                vv = nv[0][1] if len(nv) == 1 else v
                            if isinstance(vv, Sym) and vv.ty.kind == "bool":
                                vv = Const(b)
                            if isinstance(vv, Sym) and not b and vv.ty.kind == "str":
                                vv = EMPTY
                            out.append((s3, vv))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        out = []
        for s1, v in self.ev(e.operand, st, fr):
            if isinstance(v, Raised):
                out.append((s1, v))
            elif isinstance(e.op, ast.Not):
                out += [(s2, Const(not b)) for s2, b in self.truth(s1, v)]
            elif isinstance(v, Const):
                try:
                    r = -v.v if isinstance(e.op, ast.USub) else (+v.v if isinstance(e.op, ast.UAdd) else ~v.v)
                    out.append((s1, Const(r)))
                except TypeError:
                    out.append((s1, self.exc("TypeError", ("op",), where=self.where(fr, e))))
            else:
                out.append((s1, Sym("un", (type(e.op).__name__, v), self.ty_of(v).w(opt=False))))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        for s1, vals in self.seq([e.left, e.right], st, fr):
            if isinstance(vals, Raised):
                out.append((s1, vals))
            else:
                out += self.binop(s1, e.op, vals[0], vals[1], e, fr)
        return out

    def e_Compare(self, e, st, fr):
        out = []
        for s1, vals in self.seq([e.left] + e.comparators, st, fr):
            if isinstance(vals, Raised):
                out.append((s1, vals))
                continue
            cur = [s1]
            res = []
            for i, op in enumerate(e.ops):
                nxt = []
                for s2 in cur:
                    for s3, r in self.compare1(s2, op, vals[i], vals[i + 1], e, fr):
                        if isinstance(r, Raised):
                            res.append((s3, r))
                            continue
                        if i == len(e.ops) - 1:
                            res.append((s3, r))
                            continue
                        for s4, b in self.truth(s3, r):
                            if b:
                                nxt.append(s4)
                            else:
                                res.append((s4, FALSE))
                cur = nxt
            out += res
        return out

    def e_JoinedStr(self, e, st, fr):
        cur = [(st, [])]
        for p in e.values:
            nxt = []
            for s1, ps in cur:
                if isinstance(ps, Raised):
                    nxt.append((s1, ps))
                    continue
                if isinstance(p, ast.Constant):
                    nxt.append((s1, ps + [Const(p.value)]))
                    continue
                for s2, v in self.ev(p.value, s1, fr):
                    if isinstance(v, Raised):
                        nxt.append((s2, v))
                        continue
                    specs = [(s2, None)]
                    if p.format_spec is not None:
                        specs = self.ev(p.format_spec, s2, fr)
                    for s3, spec in specs:
                        if isinstance(spec, Raised):
                            nxt.append((s3, spec))
                            continue
                        for s4, w in self.to_str(s3, v, p, fr, conv=p.conversion, spec=spec):
                            nxt.append((s4, w if isinstance(w, Raised) else ps + [w]))
            cur = nxt
        return [(s1, ps if isinstance(ps, Raised) else cat(ps)) for s1, ps in cur]

    def e_FormattedValue(self, e, st, fr):
        return self.e_JoinedStr(ast.copy_location(ast.JoinedStr(values=[e]), e), st, fr)

    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args \
                and self.lookup(st, fr, "super") == Ext("builtins.super"):
            f = fr
            cls = fr.cls
            selfv = fr.selfv
            if cls is None or selfv is None:
                return [(st, unk("super"))]
            return [(st, SuperV(cls, selfv))]
        out = []
        for s1, fv in self.ev(e.func, st, fr):
            if isinstance(fv, Raised):
                out.append((s1, fv))
                continue
            for s2, a in self.ev_args(e, s1, fr):
                if isinstance(a, Raised):
                    out.append((s2, a))
                    continue
                args, kwargs = a
                out += self.call(s2, fv, args, kwargs, e, fr)
        return out

    def ev_args(self, e, st, fr):
        cur = [(st, ([], {}))]
        for x in e.args:
            nxt = []
            for s1, a in cur:
                if isinstance(a, Raised):
                    nxt.append((s1, a))
                    continue
                if isinstance(x, ast.Starred):
                    for s2, v in self.ev(x.value, s1, fr):
                        if isinstance(v, Raised):
                            nxt.append((s2, v))
                            continue
                        for s3, v2 in self.norm(s2, v):
                            for s4, sg in self.segments(s3, v2, x, fr):
                                if isinstance(sg, Raised):
                                    nxt.append((s4, sg))
                                elif all(g[0] == "e" for g in sg):
                                    nxt.append((s4, (a[0] + [g[1] for g in sg], a[1])))
                                else:
                                    nxt.append((s4, (a[0] + [StarV(tuple(sg))], a[1])))
                else:
                    for s2, v in self.ev(x, s1, fr):
                        nxt.append((s2, v if isinstance(v, Raised) else (a[0] + [v], a[1])))
            cur = nxt
        for k in e.keywords:
            nxt = []
            for s1, a in cur:
                if isinstance(a, Raised):
                    nxt.append((s1, a))
                    continue
                for s2, v in self.ev(k.value, s1, fr):
                    if isinstance(v, Raised):
                        nxt.append((s2, v))
                        continue
                    if k.arg is not None:
                        kw = dict(a[1])
                        kw[k.arg] = v
                        nxt.append((s2, (a[0], kw)))
                        continue
                    for s3, v2 in self.norm(s2, v):
                        kw = dict(a[1])
                        o = self.heap_get(s3, v2) if isinstance(v2, Ref) else None
                        if isinstance(o, DictO) and o.base is None and not o.unk and \
                                all(isinstance(q, Const) for q in o.entries):
                            for q, (val, guard) in o.entries.items():
                                kw[q.v] = GuardedV(val, guard) if guard else val
                        else:
                            kw["**"] = v2
                        nxt.append((s3, (a[0], kw)))
            cur = nxt
        return cur


class StarV(V):
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs


class GuardedV(V):
    """A keyword argument passed only when `guard` holds."""
    __slots__ = ("v", "guard")

    def __init__(self, v, guard):
        self.v, self.guard = v, guard


class SigV(V):
    __slots__ = ("sig",)

    def __init__(self, sig):
        self.sig = sig


class OPTV(Sentinel):
    """The OPT sentinel, remembering which optional term produced it."""
    __slots__ = ("src",)

    def __init__(self, src):
        super().__init__("OPT")
        self.src = src


def _has_yield(f):
    stack = list(f.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


_calls.GuardedV = GuardedV


def rest_of_split(t):
    """("contains", x, a) for t = x.split(a)[1:]"""
    if isinstance(t, Sym) and t.op == "slice" and t.args[1:] == (Const(1), NONE_V):
        w = t.args[0]
        if isinstance(w, Sym) and w.op == "meth" and w.args[0] == "split" and len(w.args) == 3 and \
                isinstance(w.args[2], Const):
            return ("contains", w.args[1], w.args[2])
    return None


def searched(t):
    """("contains", x, a) for t = re.search(a, x) with a pattern that stands for itself"""
    if isinstance(t, Sym) and t.op == "ext" and t.args[0] == "re.search" and len(t.args[1]) == 2 and not t.args[2] and \
            isinstance(t.args[1][0], Const) and isinstance(t.args[1][0].v, str):
        a = regex.literal(t.args[1][0].v)
        return ("contains", t.args[1][1], Const(a)) if a else None
    return None


def one_replaced(v, x):
    """x.replace(a, b) for v = head + b + tail with (head, _, tail) = x.partition(a), where a is a run of one
    character and b the run that is one shorter: doing that until no a is left ends in the same text."""
    if not (isinstance(v, Sym) and v.op == "cat" and len(v.args) == 3):
        return None
    h, b, t = v.args
    if not (isinstance(h, Sym) and h.op == "index" and h.args[1] == Const(0) and isinstance(b, Const) and isinstance(
            t, Sym) and t.op == "join" and len(t.args[1]) == 1 and t.args[1][0][0] == "rep"):
        return None
    w, r = h.args[0], t.args[1][0][1]
    f = rest_of_split(r.source)
    if f is None or f[1] != x or f[2] != t.args[0] or w != r.source.args[0] or \
            r != ident_rep(r.source, elem_of(r.source))[1]:
        return None
    a = f[2].v
    if not (isinstance(a, str) and len(set(a)) == 1 and len(a) > 1 and b.v == a[1:]):
        return None
    return Sym("meth", ("replace", x, f[2], b), STR)


def never_none(v):
    return isinstance(v, (Const, TupV)) and v != NONE_V or isinstance(v, Sym) and v.ty.kind in (
        "str", "int", "inst", "list", "dict") and not v.ty.opt


def fails_within(st, snap, sig):
    """Does a child or a mark fail on the way?"""
    return any(e[0] == "caught" and e[1][0] in ("child", "mark") for e in st.events[len(snap.events):]) or \
        sig[0] == "raise" and sig[1].origin[0] in ("child", "mark")
