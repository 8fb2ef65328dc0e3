"""Analysis context: runs the abstract interpreter on the entry points the rules need,
caches the results, and collects obligations."""
from __future__ import annotations

import ast
import json
import os
import time
import traceback

from .dom import *  # noqa
from .terms import *  # noqa
from .interp import Engine, Frame, Budget, AnchorMissing
from .calls import *  # noqa

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NODE0 = ast.Pass(lineno=0, col_offset=0)

OK, BAD, UND = "ok", "violation", "undecided"


class Report:
    """Obligations of one property."""

    def __init__(self, prop):
        self.prop = prop
        self.items = []          # (status, rule, instance, message, where)
        self.analysed = {}

    def add(self, status, rule, inst, msg="", where=None):
        self.items.append((status, rule, inst, msg, where))

    def ok(self, rule, inst, msg=""):
        self.add(OK, rule, inst, msg)

    def bad(self, rule, inst, msg, where=None):
        self.add(BAD, rule, inst, msg, where)

    def und(self, rule, inst, msg, where=None):
        self.add(UND, rule, inst, msg, where)

    def verdict(self, rule, inst, problems, where=None, note=""):
        """problems: list of (status, message[, where]) ; empty -> ok."""
        bads = [p for p in problems if p[0] == BAD]
        unds = [p for p in problems if p[0] == UND]
        if bads:
            for p in bads[:3]:
                self.bad(rule, inst, p[1], p[2] if len(p) > 2 and p[2] else where)
        elif unds:
            self.und(rule, inst, "; ".join(dict.fromkeys(p[1] for p in unds[:3])),
                     unds[0][2] if len(unds[0]) > 2 and unds[0][2] else where)
        else:
            self.ok(rule, inst, note)

    def count(self, status):
        return sum(1 for i in self.items if i[0] == status)


class Path:
    __slots__ = ("st", "v", "exc", "steps")

    def __init__(self, st, v, steps=None):
        self.st = st
        self.steps = steps or {}
        self.exc = v.exc if isinstance(v, Raised) else None
        self.v = None if self.exc is not None else v

    @property
    def facts(self):
        return self.st.facts

    @property
    def events(self):
        return self.st.events


class Ctx:
    def __init__(self, root="/repo", overlay=None):
        self.E = Engine(root, overlay)
        self.root = root
        with open(os.path.join(HERE, "spec", "contract.json")) as f:
            self.spec = json.load(f)
        self.cache = {}
        self.failures = {}
        self.deadline = time.monotonic() + 480
        self.paths = 0
        self.tags = {}
        for kind in ("node", "mark"):
            for tag, c in self.spec["tags"][kind].items():
                self.tags[c] = (kind, tag)
        self.node_classes = list(self.spec["tags"]["node"].values())
        self.mark_classes = list(self.spec["tags"]["mark"].values())
        self._mark_exc = None
        self._raisers = {}

    # ------------------------------------------------------------------ helpers
    def cls(self, name):
        return self.E.classes.get(name)

    def frame(self, ci):
        return Frame(("top",), ci.mod, (), "<entry>")

    def where_of(self, cname, meth=None):
        ci = self.cls(cname)
        if ci is None:
            return None
        if meth:
            m = ci.find(meth)
            if m and isinstance(m[1], FuncV):
                fv = m[1]
                return (self.E.modules[fv.mod]["path"], fv.node.lineno, fv.qual)
        return (self.E.modules[ci.mod]["path"], ci.node.lineno, cname)

    def guarded(self, key, fn):
        if key in self.cache:
            return self.cache[key]
        E = self.E
        E.nstates = 0
        E.stack = []
        E.deadline = min(time.monotonic() + 40, self.deadline)
        saved = (E.md_policy, E.mark_policy, E.root_cls, dict(E.universe))
        try:
            E.loop_steps = {}
            r = fn()
            steps = E.loop_steps
            r = [Path(s, v, steps) for s, v in r]
            self.paths += len(r)
        except Budget:
            r = None
            self.failures[key] = "state budget exhausted"
        except RecursionError:
            r = None
            self.failures[key] = "recursion limit of the analyser"
        except AnchorMissing:
            raise
        except Exception as e:  # analyser limitation: undecided, never a verdict
            r = None
            self.failures[key] = "analyser error: " + "".join(
                traceback.format_exception_only(type(e), e)).strip() + " @ " + traceback.format_tb(
                e.__traceback__)[-1].strip().split("\n")[0]
        finally:
            E.md_policy, E.mark_policy, E.root_cls = saved[:3]
            E.universe = saved[3]
            E.stack = []
        self.cache[key] = r
        return r

    def why(self, key):
        return self.failures.get(key, "not analysed")

    def me(self, cname):
        return Sym("self", (cname,), Ty("inst", classes=[cname]))

    # ------------------------------------------------------------------ entry points
    def method(self, cname, meth):
        ci = self.cls(cname)
        if ci is None:
            return None
        m = ci.find(meth)
        if m is None or not isinstance(m[1], FuncV):
            return None
        return m[1]

    def md(self, cname, ig=False, level=None, policy=None):
        """Paths of instance.to_markdown(...).
        policy: None = any child may fail; else set of classes that may fail."""
        key = ("md", cname, ig, level, policy)

        def run():
            E = self.E
            ci = self.cls(cname)
            f = self.method(cname, "to_markdown")
            E.root_cls = cname
            E.mark_policy = self.mark_policy
            if policy is None:
                E.md_policy = None
            else:
                E.md_policy = lambda cs, igv: (not cs) or igv != TRUE or bool(set(cs) & policy)
            kw = {}
            if ig is not None:
                kw["ignore_error"] = Const(ig)
            if level is not None:
                kw["level"] = Sym("param", ("level",), INT) if level == "sym" else Const(level)
            return E.call(State(), BoundV(f, self.me(cname)), [], kw, NODE0, self.frame(ci))

        if self.method(cname, "to_markdown") is None:
            self.failures[key] = "no to_markdown method"
            self.cache[key] = None
            return None
        return self.guarded(key, run)

    TEXT = Sym("param", ("text",), STR)

    def mk(self, cname):
        key = ("mk", cname)

        def run():
            E = self.E
            ci = self.cls(cname)
            E.root_cls = cname
            f = self.method(cname, "to_markdown")
            return E.call(State(), BoundV(f, self.me(cname)), [self.TEXT], {}, NODE0, self.frame(ci))

        if self.method(cname, "to_markdown") is None:
            self.failures[key] = "no to_markdown method"
            self.cache[key] = None
            return None
        return self.guarded(key, run)

    def mark_excs(self):
        """mark class -> set of exception name tuples its to_markdown may raise."""
        if self._mark_exc is None:
            d = {}
            for c in self.mark_classes:
                r = self.mk(c)
                if r is None:
                    d[c] = {("Exception", "BaseException")}
                else:
                    d[c] = {tuple(p.exc.names) for p in r if p.exc is not None}
            self._mark_exc = d
        return self._mark_exc

    def mark_policy(self, cs):
        out = set()
        ex = self._mark_exc
        if ex is None:
            return [("Exception", "BaseException")]
        for c in cs:
            out |= ex.get(c, {("Exception", "BaseException")})
        return sorted(out)

    def prepare_marks(self):
        self.mark_excs()

    @staticmethod
    def given(t):
        """A value read from the input: JSON may have null there."""
        return strip_copy(t).op == "get"

    def json(self, cname):
        return Sym("json", (cname,), DICT)

    def fd(self, cname, st=None, tag=""):
        key = ("fd", cname, tag)

        def run():
            E = self.E
            ci = self.cls(cname)
            E.root_cls = cname
            f = self.method(cname, "from_dict")
            js = self.json(cname)
            E.universe = {js: frozenset(ci.fields)}
            E.nullable = self.given if tag == "null" else None
            try:
                return E.call(st.copy() if st else State(), BoundV(f, ClassV(ci)), [js], {}, NODE0, self.frame(ci))
            finally:
                E.nullable = None

        if self.method(cname, "from_dict") is None:
            self.failures[key] = "no from_dict method"
            self.cache[key] = None
            return None
        return self.guarded(key, run)

    def td(self, cname):
        key = ("td", cname)

        def run():
            E = self.E
            ci = self.cls(cname)
            E.root_cls = cname
            out = []
            fr = self.frame(ci)
            for s, m in E.getattr(State(), self.me(cname), "to_dict", NODE0, fr):
                if isinstance(m, Raised):
                    out.append((s, m))
                else:
                    out += E.call(s, m, [], {}, NODE0, fr)
            return out

        def free():
            # what is written is the model's own tag, whatever it is; a field may hold None
            self.E.free_type = True
            self.E.nullable = lambda t: strip_copy(t).op == "field" and t.ty.kind in ("str", "int", "float", "bool", "dict")
            try:
                return run()
            finally:
                self.E.free_type = False
                self.E.nullable = None

        return self.guarded(key, free)

    def func(self, mod, name):
        v = self.E.base_env.get((("mod", mod), name))
        return v

    def call_fn(self, key, fv, args, kwargs=None, st=None, universe=None, intercept=True, root=None):
        def run():
            E = self.E
            E.root_cls = root
            if universe:
                E.universe = universe
            old = E.intercept_parse
            E.intercept_parse = intercept
            E.nullable = self.given if key[-1] == "null" else None
            try:
                return E.call(st.copy() if st else State(), fv, list(args), dict(kwargs or {}), NODE0,
                              Frame(("top",), fv.mod if isinstance(fv, FuncV) else E.PKG, (), "<entry>"))
            finally:
                E.intercept_parse = old
                E.nullable = None
        return self.guarded(key, run)

    # ------------------------------------------------------------------ term access
    def field(self, base, cname, name):
        """The symbolic term of `base.name` as the interpreter builds it."""
        ci = self.cls(cname)
        f = ci.fields.get(name) if ci else None
        return Sym("field", (base, name), f.ty if f else ANY)

    def heap(self, p, v):
        return self.E.heap_get(p.st, v) if isinstance(v, Ref) else None

    def dump(self, st, v, d=0):
        E = self.E
        if d > 6:
            return "…"
        if isinstance(v, Ref):
            o = E.heap_get(st, v)
            if isinstance(o, InstO):
                return f"{o.cls.name}({', '.join(k + '=' + self.dump(st, x, d + 1) for k, x in o.fields.items())})"
            if isinstance(o, DictO):
                return "{" + ", ".join(f"{k!r}: {self.dump(st, x, d + 1)}" + (" (conditional)" if g else "")
                                       for k, (x, g) in o.entries.items()) + "}"
            if isinstance(o, ListO):
                return show_segs(o.segs)
        return show(v)

    def facts_str(self, p):
        out = [("" if b else "not ") + show_pred(k) for k, b in p.facts.items()]
        out += [f"{show(k)} in {{{', '.join(map(repr, sorted(v, key=repr)))}}}" for k, v in p.st.vals.items()]
        out += [f"{show(k)} is a {'|'.join(sorted(v))}" for k, v in p.st.cls.items()]
        return " and ".join(out) or "always"


def walk_events(events, guard=()):
    """Yield (event, guard, signal-of-the-loop-alternative) recursively through loop summaries."""
    for e in events:
        if e[0] == "loop":
            yield e, guard
            for g, evs, sig in e[2]:
                yield from walk_events(evs, guard + tuple(g))
        else:
            yield e, guard


def event_lists(events):
    """Every sequence of events: the path's own and the one of each loop alternative."""
    yield events
    for e in events:
        if e[0] == "loop":
            for _, evs, _ in e[2]:
                yield from event_lists(evs)
