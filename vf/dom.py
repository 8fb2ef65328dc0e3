"""Abstract domain: values, terms, heap objects, states.

Nothing here ever holds an object of the analysed program: a *value* is an
abstract description of what an expression may evaluate to.
"""
from __future__ import annotations

# how a statement ends
NORMAL, BREAK, CONTINUE = ("normal",), ("break",), ("continue",)


# --------------------------------------------------------------------------- types
class Ty:
    """Declared shape of a value (from annotations)."""
    __slots__ = ("kind", "opt", "elem", "classes", "lits", "_h")

    def __init__(self, kind, opt=False, elem=None, classes=None, lits=None):
        self.kind, self.opt, self.elem = kind, opt, elem
        self.classes = frozenset(classes) if classes is not None else None
        self.lits = frozenset(lits) if lits is not None else None
        self._h = hash((kind, opt, elem, self.classes, self.lits))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ty) and (self.kind, self.opt, self.elem, self.classes, self.lits) == (
            o.kind, o.opt, o.elem, o.classes, o.lits)

    def w(self, **k):
        d = dict(kind=self.kind, opt=self.opt, elem=self.elem, classes=self.classes, lits=self.lits)
        d.update(k)
        return Ty(**d)

    def __repr__(self):
        s = self.kind
        if self.elem:
            s += f"[{self.elem}]"
        return s + ("?" if self.opt else "")


ANY = Ty("any")
STR = Ty("str")
INT = Ty("int")
FLOAT = Ty("float")
BOOL = Ty("bool")
NONE = Ty("none")
LIST = Ty("list", elem=ANY)
LSTR = Ty("list", elem=STR)
DICT = Ty("dict")
BYTES = Ty("bytes")


# --------------------------------------------------------------------------- values
class V:
    __slots__ = ()


class Const(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return hash(("C", type(self.v), self.v))

    def __repr__(self):
        return repr(self.v)


NONE_V = Const(None)
TRUE = Const(True)
FALSE = Const(False)
EMPTY = Const("")


class Sentinel(V):
    """OPT / REQ / other unique external singletons."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Sentinel) and o.name == self.name

    def __hash__(self):
        return hash(("S", self.name))

    def __repr__(self):
        return self.name


OPT = Sentinel("OPT")
REQ = Sentinel("REQ")
MISSING = Sentinel("dataclasses.MISSING")


class Ext(V):
    """An object imported from outside the package, by dotted name."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("X", self.name))

    def __repr__(self):
        return f"<{self.name}>"


class Sym(V):
    """A symbolic term op(args) with a declared type."""
    __slots__ = ("op", "args", "ty", "_h")

    def __init__(self, op, args, ty=ANY):
        self.op, self.args, self.ty = op, tuple(args), ty
        self._h = hash((op, self.args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Sym) and o._h == self._h and o.op == self.op and o.args == self.args)

    def __repr__(self):
        from .terms import show
        return show(self)


class TupV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, TupV) and o.items == self.items

    def __hash__(self):
        return hash(("T", self.items))

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"

    def like(self, items):
        return TupV(items)


class NTupV(TupV):
    """A named tuple."""
    __slots__ = ("cls",)

    def __init__(self, items, cls):
        self.items, self.cls = tuple(items), cls

    def __eq__(self, o):
        return isinstance(o, TupV) and o.items == self.items

    def __hash__(self):
        return hash(("T", self.items))

    def like(self, items):
        return NTupV(items, self.cls)


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("R", self.id))

    def __repr__(self):
        return f"&{self.id}"


class ModV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(("M", self.name))

    def __repr__(self):
        return f"<module {self.name}>"


class FuncV(V):
    """A function/lambda of the package (or a native model when `native` is set)."""
    __slots__ = ("node", "mod", "qual", "chain", "defaults", "kwdefaults", "cls", "kind", "native", "name", "isgen")

    def __init__(self, node, mod, qual, chain, defaults=(), kwdefaults=None, cls=None, kind="func", native=None,
                 name=None, isgen=False):
        self.node, self.mod, self.qual, self.chain = node, mod, qual, chain
        self.defaults, self.kwdefaults, self.cls, self.kind = defaults, kwdefaults or {}, cls, kind
        self.native, self.name, self.isgen = native, name, isgen

    def with_kind(self, kind):
        return FuncV(self.node, self.mod, self.qual, self.chain, self.defaults, self.kwdefaults, self.cls, kind,
                     self.native, self.name, self.isgen)

    def renamed(self, name):
        return FuncV(self.node, self.mod, self.qual, self.chain, self.defaults, self.kwdefaults, self.cls, self.kind,
                     self.native, name, self.isgen)

    def key(self):
        return (self.mod, self.qual, id(self.node), self.chain)

    def __eq__(self, o):
        return isinstance(o, FuncV) and self.key() == o.key() and self.native is o.native

    def __hash__(self):
        return hash(("F", self.key()))

    def __repr__(self):
        return f"<fn {self.qual}>"


class BoundV(V):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and (o.func, o.self) == (self.func, self.self)

    def __hash__(self):
        return hash(("B", self.func, self.self))

    def __repr__(self):
        return f"<bound {self.func} of {self.self}>"


class MethV(V):
    """Bound built-in method `recv.name` of a modelled value."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, MethV) and (o.recv, o.name) == (self.recv, self.name)

    def __hash__(self):
        return hash(("ME", self.recv, self.name))

    def __repr__(self):
        return f"<{self.recv}.{self.name}>"


class PartialV(V):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, tuple(args), tuple(kwargs.items())

    def __eq__(self, o):
        return isinstance(o, PartialV) and (o.func, o.args, o.kwargs) == (self.func, self.args, self.kwargs)

    def __hash__(self):
        return hash(("P", self.func, self.args, self.kwargs))


class SuperV(V):
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class ClassV(V):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.info is self.info

    def __hash__(self):
        return hash(("K", self.info.qual))

    def __repr__(self):
        return f"<class {self.info.name}>"


class EnumM(V):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumM) and o.cls is self.cls and o.name == self.name

    def __hash__(self):
        return hash(("E", self.cls.qual, self.name))

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class FieldV(V):
    """A dataclasses.Field."""
    __slots__ = ("name", "ty", "type", "default", "factory", "init", "compare", "owner", "kw_only", "lineno")

    def __init__(self, name, ty, type_, default, factory, init=True, compare=True, owner=None, kw_only=False,
                 lineno=0):
        self.name, self.ty, self.type, self.default, self.factory = name, ty, type_, default, factory
        self.init, self.compare, self.owner, self.kw_only, self.lineno = init, compare, owner, kw_only, lineno

    def __eq__(self, o):
        return isinstance(o, FieldV) and (o.name, o.owner) == (self.name, self.owner)

    def __hash__(self):
        return hash(("FD", self.name, self.owner))

    def __repr__(self):
        return f"<field {self.name}>"


class PropV(V):
    __slots__ = ("fget",)

    def __init__(self, fget):
        self.fget = fget


class ExcV(V):
    """An exception object.  `names`: class + base names; `any`: an unknown subclass."""
    __slots__ = ("names", "args", "origin", "where", "any", "ref")

    def __init__(self, names, args=(), origin=("raise",), where=None, any=False, ref=None):
        self.names, self.args, self.origin, self.where, self.any, self.ref = (
            tuple(names), tuple(args), origin, where, any, ref)

    def __eq__(self, o):
        return isinstance(o, ExcV) and (o.names, o.args, o.origin, o.any) == (
            self.names, self.args, self.origin, self.any)

    def __hash__(self):
        return hash(("EX", self.names, self.origin))

    def __repr__(self):
        return f"<exc {self.names[0]} {self.origin}>"


class Raised:
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"Raised({self.exc})"


# --------------------------------------------------------------------------- heap objects
class Obj:
    __slots__ = ()


class Rep:
    """Summary of a loop's contribution to a list/string: for each element of `source`,
    exactly one alternative contributes its segments."""
    __slots__ = ("source", "alts", "partial", "rev", "why", "id")

    def __init__(self, source, alts, partial=False, rev=False, why="", id=None):
        self.source, self.alts, self.partial, self.rev, self.why, self.id = (
            source, tuple(alts), partial, rev, why, id)

    def key(self):
        return (self.source, self.alts, self.partial, self.rev)

    def __eq__(self, o):
        return isinstance(o, Rep) and o.key() == self.key()

    def __hash__(self):
        return hash(("REP", self.source, self.partial, self.rev, self.alts))

    def __repr__(self):
        from .terms import show
        return f"<rep {show(self.source)} {self.alts}>"


class Alt:
    """One alternative of a Rep: guard facts, contributed segments, events, exit kind."""
    __slots__ = ("guard", "segs", "events", "exit")

    def __init__(self, guard, segs, events=(), exit="next"):
        self.guard, self.segs, self.events, self.exit = tuple(guard), tuple(segs), tuple(events), exit

    def __eq__(self, o):
        return isinstance(o, Alt) and (o.guard, o.segs, o.exit) == (self.guard, self.segs, self.exit)

    def __hash__(self):
        return hash((self.guard, self.segs, self.exit))

    def __repr__(self):
        return f"Alt({self.guard}=>{self.segs}{'' if self.exit == 'next' else self.exit})"


# list segments: ("e", value) | ("rep", Rep) | ("alt", pred, segsT, segsF) | ("mul", segs, n)
#                | ("prev", loopid) | ("unk", why)
class ListO(Obj):
    __slots__ = ("segs", "kind")

    def __init__(self, segs=(), kind="list"):
        self.segs, self.kind = tuple(segs), kind

    def __eq__(self, o):
        return isinstance(o, ListO) and (o.segs, o.kind) == (self.segs, self.kind)

    def __hash__(self):
        return hash((self.segs, self.kind))


class DictO(Obj):
    """entries: key(hashable python const or V) -> (value, guard) ; guard () = definite.
    base: term of the symbolic dict it was copied from (keys not in entries/deleted)."""
    __slots__ = ("entries", "base", "deleted", "owner", "unk", "deep")

    def __init__(self, entries=None, base=None, deleted=frozenset(), owner="fresh", unk=False, deep=False):
        self.entries, self.base, self.deleted, self.owner, self.unk, self.deep = (
            entries or {}, base, deleted, owner, unk, deep)
        if (self.entries or base is not None or deleted) and not isinstance(unk, bool):
            self.unk = True

    def __eq__(self, o):
        return isinstance(o, DictO) and (list(o.entries.items()), o.base, o.deleted, o.unk, o.deep) == (
            list(self.entries.items()), self.base, self.deleted, self.unk, self.deep)

    __hash__ = None


class InstO(Obj):
    __slots__ = ("cls", "fields", "frozen")

    def __init__(self, cls, fields, frozen=False):
        self.cls, self.fields, self.frozen = cls, fields, frozen

    def __eq__(self, o):
        return isinstance(o, InstO) and o.cls is self.cls and o.fields == self.fields

    __hash__ = None


class IterO(Obj):
    """An iterator over remaining segments."""
    __slots__ = ("segs", "started")

    def __init__(self, segs, started=False):
        self.segs, self.started = tuple(segs), started

    def __eq__(self, o):
        return isinstance(o, IterO) and o.segs == self.segs

    __hash__ = None


# --------------------------------------------------------------------------- state
class State:
    __slots__ = ("env", "heap", "facts", "cls", "vals", "nvals", "rng", "events")

    def __init__(self):
        self.env, self.heap, self.facts = {}, {}, {}
        self.cls, self.vals, self.nvals, self.rng = {}, {}, {}, {}
        self.events = ()

    def copy(self):
        s = State.__new__(State)
        s.env, s.heap, s.facts = dict(self.env), dict(self.heap), dict(self.facts)
        s.cls, s.vals, s.nvals, s.rng = dict(self.cls), dict(self.vals), dict(self.nvals), dict(self.rng)
        s.events = self.events
        return s

    def ev(self, *e):
        self.events = self.events + (e,)
        return self


class ClassInfo:
    def __init__(self, name, mod, qual, node):
        self.name, self.mod, self.qual, self.node = name, mod, qual, node
        self.bases = []          # values
        self.ns = {}             # name -> value
        self.mro = []            # ClassInfo | Ext
        self.ann = {}            # own annotations: name -> AST
        self.ann_rt = {}         # own annotations: runtime value
        self.dc = None           # dataclass kwargs or None
        self.fields = {}         # name -> FieldV (dataclass)
        self.is_enum = False
        self.members = {}
        self.decorators = []

    def __repr__(self):
        return f"<ClassInfo {self.name}>"

    def find(self, name, after=None):
        """Look a name up in the MRO -> (owner, value) | None; Ext owners return (Ext, None)."""
        mro = self.mro
        if after is not None:
            i = next((k for k, c in enumerate(mro) if c is after), -1)
            mro = mro[i + 1:]
        for c in mro:
            if isinstance(c, ClassInfo):
                if name in c.ns:
                    return c, c.ns[name]
            else:
                if (c.name, name) in EXT_CLASS_ATTRS:
                    return c, None
        return None

    def is_sub(self, name):
        return any((c.name if isinstance(c, ClassInfo) else c.name.split(".")[-1]) == name for c in self.mro)


EXT_CLASS_ATTRS = {
    ("func_args.BaseFrozenModel", "__post_init__"),
    ("func_args.BaseFrozenModel", "_validate"),
    ("func_args.BaseFrozenModel", "to_dict"),
    ("func_args.BaseFrozenModel", "to_kwargs"),
    ("func_args.BaseFrozenModel", "_split_req_opt"),
    ("func_args.BaseModel", "__post_init__"),
    ("func_args.BaseModel", "_validate"),
    ("func_args.BaseModel", "to_dict"),
    ("func_args.BaseModel", "to_kwargs"),
    ("object", "__setattr__"), ("object", "__init__"), ("object", "__new__"), ("object", "__repr__"),
    ("object", "__eq__"), ("object", "__hash__"), ("object", "__init_subclass__"), ("object", "__str__"),
}
