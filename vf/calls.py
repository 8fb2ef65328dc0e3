"""Abstract meaning of calls: package functions, constructors, built-ins, libraries."""
from __future__ import annotations

import ast
import builtins
import string

from . import rewrite
from . import regex

from .dom import *  # noqa
from .terms import *  # noqa
from .models import (STR_METHODS_STR, STR_METHODS_LIST, STR_METHODS_BOOL, STR_METHODS_INT, ALL_STR_METHODS, MUTATORS,
                     otherkey)

PYTYPES = {"str": str, "int": int, "float": float, "bool": bool, "list": list, "dict": dict, "bytes": bytes,
           "none": type(None)}
SAFE_EXT = ("re.", "textwrap.", "html.", "string.", "typing.", "dataclasses.", "enum.", "functools.", "itertools.",
            "logging.", "operator.", "collections.", "contextlib.", "warnings.", "abc.", "types.")
LOGNAMES = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log"}


ORDER_KEPT = {"builtins.enumerate", "builtins.zip", "builtins.map", "builtins.filter", "itertools.chain", "itertools.islice",
              "itertools.chain.from_iterable", "itertools.compress", "itertools.takewhile", "itertools.dropwhile",
              "dict.fromkeys", "builtins.dict.fromkeys", "itertools.filterfalse", "itertools.starmap"}
ORDER_DECIDES = {"builtins.iter", "functools.reduce", "builtins.str", "builtins.repr", "builtins.max", "builtins.min",
                 "builtins.ascii"}


class Calls:
    # ------------------------------------------------------------------ dispatcher
    def call(self, st, f, args, kwargs, node, fr):
        self.calls_seen += 1
        out = []
        for s, g in self.norm(st, f):
            out += self._call(s, g, list(args), dict(kwargs), node, fr)
        return out

    def _call(self, st, f, args, kwargs, node, fr):
        if isinstance(f, FuncV):
            if f.native is not None:
                return self.call_native(st, f, args, kwargs, node, fr)
            if f.kind == "ctx":
                return [(st, Sym("ctxgen", (f, tuple(args), tuple(kwargs.items()))))]
            if self.runtime and self.intercept_parse and f.name in ("parse_node", "parse_mark") and f.cls is None:
                r = self.intercept_parse_call(st, f, args, kwargs, node, fr)
                if r is not None:
                    return r
            if f.name == "get_fields" and f.cls is None and False:
                pass
            return self.call_func(st, f, args, kwargs, node, fr)
        if isinstance(f, BoundV):
            fn, me = f.func, f.self
            if isinstance(fn, FuncV) and self.runtime:
                if fn.name == "to_markdown" and isinstance(me, Sym) and me.op != "self" and me.ty.kind == "inst":
                    return self.child_markdown(st, fn, me, args, kwargs, node, fr)
                if fn.name == "to_dict" and isinstance(me, Sym) and me.op != "self" and me.ty.kind == "inst" \
                        and not args and not kwargs:
                    return [(st, Sym("todict", (me,), DICT))]
                if fn.name == "from_dict" and isinstance(me, ClassV) and self.root_cls is not None and \
                        me.info.name != self.root_cls and len(args) + len(kwargs) == 1:
                    a0 = self.pristine(st, (args or list(kwargs.values()))[0])
                    if isinstance(a0, Sym):
                        return self.nested_from_dict(st, me, a0, node, fr)
            if isinstance(fn, FuncV) and fn.kind == "ctx":
                return [(st, Sym("ctxgen", (fn.with_kind("func"), tuple([me] + args), tuple(kwargs.items()))))]
            return self._call(st, fn.with_kind("func") if isinstance(fn, FuncV) and fn.kind == "class" else fn,
                              [me] + args, kwargs, node, fr)
        if isinstance(f, ClassV):
            return self.construct(st, f, args, kwargs, node, fr)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self._call(st, f.func, list(f.args) + args, kw, node, fr)
        if isinstance(f, MethV):
            return self.call_method(st, f.recv, f.name, args, kwargs, node, fr)
        if isinstance(f, Ext):
            return self.call_ext(st, f.name, args, kwargs, node, fr)
        if isinstance(f, Ref):
            o = self.heap_get(st, f)
            if isinstance(o, InstO):
                m = o.cls.find("__call__")
                if m and isinstance(m[1], FuncV):
                    return self._call(st, BoundV(m[1], f), args, kwargs, node, fr)
        if isinstance(f, Sentinel):
            return [(st, self.exc("TypeError", ("opt", getattr(f, "src", f)), where=self.where(fr, node)))]
        if isinstance(f, Const):
            return [(st, self.exc("TypeError", ("call", repr(f.v)), where=self.where(fr, node)))]
        if isinstance(f, Sym) and f.op == "wraps" and len(args) == 1:
            return [(st, args[0])]
        self.note_unknown(fr, node, "call of an unresolved value")
        return [(st.copy().ev("unkcall", self.where(fr, node)), unk("call"))]

    # ------------------------------------------------------------------ interception
    def class_groups(self, st, t):
        return self.classes_of(st, t)

    def child_markdown(self, st, fn, me, args, kwargs, node, fr):
        cl = self.classes_of(st, me)
        if not cl:
            # unknown class: assume the base signature
            return self._child_md(st, me, frozenset(), args, kwargs, node, fr)
        groups = {}
        for c in sorted(cl):
            ci = self.classes.get(c)
            if ci is None:
                continue
            m = ci.find("to_markdown")
            if m is None or not isinstance(m[1], FuncV):
                groups.setdefault(("none",), []).append(c)
                continue
            if m[1].node is not None and m[1].node.args.vararg is not None and args:
                # a wrapper that passes its arguments on: the signature is the one all elements share
                base = self.classes.get("BaseMark" if ci.is_sub("BaseMark") else "BaseNode")
                b = base.find("to_markdown") if base is not None else None
                m = b if b is not None and isinstance(b[1], FuncV) else m
            if ci.is_sub("BaseMark"):
                r = self.bind_static(m[1], [me] + args, kwargs)
                groups.setdefault(("bad", r[1]) if r[0] == "bad" else ("mark", tuple(sorted(r[1].items(),
                                  key=lambda kv: kv[0]))), []).append(c)
            else:
                r = self.bind_static(m[1], [me] + args, kwargs)
                if r[0] == "bad":
                    groups.setdefault(("bad", r[1]), []).append(c)
                else:
                    groups.setdefault(("node", tuple(sorted(r[1].items(), key=lambda kv: kv[0]))), []).append(c)
        out = []
        for key, cs in groups.items():
            s = st if len(groups) == 1 else self.narrow_cls(st, me, cs)
            if key[0] == "none":
                out += self.attr_err(s, ("attr", "|".join(cs), "to_markdown"), node, fr)
            elif key[0] == "bad":
                out.append((s, self.exc("TypeError", ("badcall", "|".join(cs), key[1]), where=self.where(fr, node))))
            elif key[0] == "mark":
                d = dict(key[1])
                text = d.get("text")
                if text is None:
                    text = next((v for k, v in d.items() if k != "self"), unk("text"))
                for s1, x in self.norm(s, text):
                    if isinstance(x, Sentinel):
                        s1 = s1.copy().ev("leak", getattr(x, "src", x), self.where(fr, node))
                    s2 = s1.copy().ev("markcall", me, self.where(fr, node))
                    out.append((s2, Sym("mk", (me, x), STR)))
                    for names in (self.mark_policy(cs) if self.mark_policy else ()):
                        out.append((s1.copy(), Raised(ExcV(names, (), ("mark", me), self.where(fr, node)))))
            else:
                out += self._child_md2(s, me, frozenset(cs), dict(key[1]), node, fr)
        return out

    def _child_md(self, st, me, cs, args, kwargs, node, fr):
        d = dict(kwargs)
        if args:
            d["ignore_error"] = args[0]
        return self._child_md2(st, me, cs, d, node, fr)

    def _child_md2(self, st, me, cs, d, node, fr):
        d = {k: v for k, v in d.items() if not isinstance(v, str)}
        kw = []
        for k, v in sorted(d.items()):
            if isinstance(v, GuardedV):
                v = unk("guarded argument")
            if (k == "ignore_error" and v == FALSE) or (k == "level" and v == Const(0)):
                continue
            kw.append((k, v))
        s = st.copy().ev("child", me, tuple(kw), self.where(fr, node))
        out = [(s, Sym("md", (me, tuple(kw)), STR))]
        ig = dict(kw).get("ignore_error", FALSE)
        if self.md_policy is None or self.md_policy(cs, ig):
            s2 = st.copy().ev("child", me, tuple(kw), self.where(fr, node))
            out.append((s2, self.any_exc(("child", me), self.where(fr, node))))
        return out

    def pristine(self, st, v):
        """An unmodified (shallow or deep) copy of a symbolic dict, as a term."""
        if isinstance(v, Ref):
            o = self.heap_get(st, v)
            if isinstance(o, DictO) and o.base is not None and not o.entries and not o.deleted and not o.unk:
                return Sym("copyof", (strip_copy(o.base),), DICT) if o.deep else o.base
        return v

    def nested_from_dict(self, st, cv, arg, node, fr):
        s = st.copy().ev("nested_from_dict", cv.info.name, arg, self.where(fr, node))
        return [(s, Sym("fromdict", (cv.info.name, arg), Ty("inst", classes=[cv.info.name]))),
                (s.copy(), self.any_exc(("other", "attrs", cv.info.name), self.where(fr, node)))]

    def intercept_parse_call(self, st, f, args, kwargs, node, fr):
        vals = list(args) + list(kwargs.values())
        if len(vals) != 1 or not isinstance(vals[0], (Sym, Ref)):
            return None
        v = vals[0]
        out = []
        for s, x in self.norm(st, v):
            if isinstance(x, Ref):
                o = self.heap_get(s, x)
                if isinstance(o, DictO) and o.base is not None and not o.entries and not o.deleted:
                    x = Sym("copyof", (strip_copy(o.base),), DICT) if o.deep else o.base
                else:
                    return None
            cat_ = "node" if f.name == "parse_node" else "mark"
            cls = [c for c in self.classes if self.tag(c) is not None and
                   self.classes[c].is_sub("BaseNode" if cat_ == "node" else "BaseMark")]
            ev = ("parse", cat_, x, self.where(fr, node))
            out.append((s.copy().ev(*ev), Sym("parsed", (cat_, x), Ty("inst", classes=cls))))
            out.append((s.copy().ev(*ev), self.any_exc(("unimpl", cat_, x), self.where(fr, node),
                                                         ("UnimplementedTypeError", "Exception", "BaseException"))))
            e = self.any_exc(("other", cat_, x), self.where(fr, node))
            out.append((s.copy().ev(*ev), e))
        return out

    # ------------------------------------------------------------------ binding
    def bind_static(self, fv, args, kwargs):
        """Cheap signature check -> ("ok", {name: value}) | ("bad", why)"""
        a = fv.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        got = {}
        rest = []
        for i, v in enumerate(args):
            if isinstance(v, StarV_()):
                return ("ok", {"*": "?"})
            if i < len(pos):
                got[pos[i]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None:
            return ("bad", "too many positional arguments")
        names = set(pos[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in got and k in names:
                return ("bad", f"multiple values for argument {k!r}")
            if k not in names and a.kwarg is None:
                return ("bad", f"unexpected keyword argument {k!r}")
            got[k] = v
        nodef = pos[: len(pos) - len(a.defaults)] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if "**" not in kwargs:
            for n in nodef:
                if n not in got:
                    return ("bad", f"missing argument {n!r}")
        # the receiver itself is not an argument
        if pos:
            got.pop(pos[0], None)
        return ("ok", got)

    def bind(self, st, fv, args, kwargs, node, fr):
        """-> list of (state, {name: value} | Raised)"""
        from .interp import StarV, GuardedV as GV
        a = fv.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        defaults = dict(zip(pos[len(pos) - len(fv.defaults):], fv.defaults)) if fv.defaults else {}
        defaults.update(fv.kwdefaults)

        def bad(s, why):
            return [(s, self.exc("TypeError", ("call", fv.qual, why), where=self.where(fr, node)))]

        env, star, extra = {}, None, []
        i = 0
        for v in args:
            if isinstance(v, StarV):
                star = v
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(("e", v))
            i += 1
        if star is not None:
            if i < len(pos):
                for p in pos[i:]:
                    if p not in kwargs:
                        env[p] = unk("*args")
            extra += list(star.segs)
        if extra and a.vararg is None and star is None:
            return bad(st, "too many positional arguments")
        curs = [(st, env, {})]
        dstar = kwargs.get("**")
        for k, v in kwargs.items():
            if k == "**":
                continue
            nxt = []
            for s, e, kwx in curs:
                if isinstance(v, GV):
                    opts = [(s2, v.v if b else None) for s2, b in self.fork_guard(s, v.guard)] \
                        if (k in pos or k in kwonly) else [(s, v)]
                else:
                    opts = [(s, v)]
                for s2, w in opts:
                    if w is None:
                        nxt.append((s2, e, kwx))
                    elif k in pos[len(a.posonlyargs):] or k in kwonly:
                        if k in e:
                            return bad(s2, f"multiple values for {k!r}")
                        nxt.append((s2, {**e, k: w}, kwx))
                    elif a.kwarg is not None:
                        nxt.append((s2, e, {**kwx, k: w}))
                    else:
                        return bad(s2, f"unexpected keyword {k!r}")
            curs = nxt
        out = []
        for s, e, kwx in curs:
            e = dict(e)
            missing = None
            for p in pos + kwonly:
                if p not in e:
                    if dstar is not None:
                        e[p] = unk("**kwargs")
                    elif p in defaults:
                        e[p] = defaults[p]
                    else:
                        missing = p
                        break
            if missing is not None:
                out += bad(s, f"missing argument {missing!r}")
                continue
            if a.vararg is not None:
                if all(x[0] == "e" for x in extra):
                    e[a.vararg.arg] = TupV([x[1] for x in extra])
                else:
                    s = s.copy()
                    e[a.vararg.arg] = self.alloc(s, ListO(extra))
            if a.kwarg is not None:
                s = s.copy()
                ent = {}
                for k, v in kwx.items():
                    ent[Const(k)] = (v.v, v.guard) if isinstance(v, GV) else (v, ())
                base, unkd, deep = None, False, False
                if dstar is not None:
                    o = self.heap_get(s, dstar) if isinstance(dstar, Ref) else None
                    if isinstance(o, DictO):
                        ent = {**o.entries, **ent}
                        base, unkd, deep = o.base, o.unk, o.deep
                    elif isinstance(dstar, Sym):
                        base = dstar
                    else:
                        unkd = True
                e[a.kwarg.arg] = self.alloc(s, DictO(ent, base, unk=unkd, deep=deep))
            out.append((s, e))
        return out

    def call_func(self, st, fv, args, kwargs, node, fr, on_yield=None):
        from .interp import Frame, Budget
        if len(self.stack) > 60:
            self.note_unknown(fr, node, "call depth")
            return [(st, unk("call depth"))]
        if sum(1 for k in self.stack if k == id(fv.node)) >= 3:
            # recursion over data of unknown depth: nothing can be said about the whole entry
            raise Budget("recursion in " + fv.qual)
        if self.runtime:
            self.funcs_done.add((fv.mod, fv.qual))
        out = []
        for s, env in self.bind(st, fv, args, kwargs, node, fr):
            if isinstance(env, Raised):
                out.append((s, env))
                continue
            fid = ("fn", next(self.counter))
            nf = Frame(fid, fv.mod, fv.chain, fv.qual, fv.cls, None)
            nf.fv = fv
            a = fv.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            if fv.cls is not None and pos and fv.kind != "static":
                nf.selfv = env[pos[0]]
            elif fr is not None and fv.cls is None and fr.selfv is not None and fid in fv.chain:
                nf.selfv, nf.cls = fr.selfv, fr.cls
            s = s.copy()
            for k, v in env.items():
                s.env[(fid, k)] = v
            acc = None
            if fv.isgen:
                if on_yield is not None:
                    nf.on_yield = on_yield
                else:
                    acc = self.alloc(s, ListO())

                    def oy(s2, v, acc=acc):
                        s2 = s2.copy()
                        self.list_append(s2, acc, v)
                        return [(s2, NONE_V)]
                    nf.on_yield = oy
            counting = acc is not None and rewrite.counts_up(fv.node)
            self.stack.append(id(fv.node))
            try:
                if counting:
                    # def numbers(n): ...; while True: yield n; n += 1
                    res = [(s2, self.counter_from(s2, self.env_get(s2, (fid, counting[0])), counting[1]))
                           if sig is NORMAL else (s2, sig) for s2, sig in self.block(fv.node.body[:-1], s, nf)]
                elif isinstance(fv.node, ast.Lambda):
                    res = [(s2, ("raise", v.exc) if isinstance(v, Raised) else ("ret", v))
                           for s2, v in self.ev(fv.node.body, s, nf)]
                else:
                    res = self.block(self.body_of(fv), s, nf)
            finally:
                self.stack.pop()
            keep = self.has_closure(fv.node)
            if len(res) > 3000:
                raise Budget()
            for s2, sig in res:
                if not keep:
                    s2 = s2.copy()
                    for k in [k for k in s2.env if k[0] == fid]:
                        del s2.env[k]
                if sig[0] == "raise":
                    out.append((s2, Raised(sig[1])))
                elif acc is not None and counting and sig[0] == "ret" and isinstance(sig[1], Ref):
                    out.append((s2, sig[1]))
                elif acc is not None:
                    out.append((s2, acc))
                elif sig[0] == "ret":
                    out.append((s2, sig[1]))
                else:
                    out.append((s2, NONE_V))
        return out

    def counter_from(self, st, n, step):
        if isinstance(n, Sym) and n.ty.kind == "int" or isinstance(n, Const) and isinstance(n.v, int):
            return ("ret", self.alloc(st, IterO((("count", n, Const(step)),))))
        return ("ret", self.alloc(st, IterO((("unk", "count"),))))

    def body_of(self, fv):
        """The statements of a function; self-calls in tail position are loops."""
        got = self._bodies.get(id(fv.node))
        if got is None:
            name, method = fv.node.name, fv.cls is not None and fv.kind != "static"
            a = fv.node.args
            first = (a.posonlyargs + a.args)[0].arg if method and a.posonlyargs + a.args else None

            def is_self(c):
                f = c.func
                if fv.cls is None or fv.kind == "static" and isinstance(f, ast.Name):
                    return isinstance(f, ast.Name) and f.id == name
                if isinstance(f, ast.Attribute) and f.attr == name and isinstance(f.value, ast.Name):
                    return f.value.id == first if first else f.value.id == fv.cls.name
                return False

            new = None
            if fv.cls is None or sum(name in c.ns for c in self.classes.values()) <= 1:
                new = rewrite.tail_loop(fv.node, is_self, method)
            got = self._bodies[id(fv.node)] = (fv.node, new.body if new is not None else fv.node.body)
        return got[1]

    def has_closure(self, n):
        c = self._closure_cache.get(id(n))
        if c is None:
            c = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef))
                    for x in ast.walk(n) if x is not n)
            self._closure_cache[id(n)] = c
        return c

    # ------------------------------------------------------------------ constructors
    def is_exc_class(self, ci):
        for c in ci.mro:
            if isinstance(c, Ext):
                n = c.name.split(".")[-1]
                t = getattr(builtins, n, None)
                if isinstance(t, type) and issubclass(t, BaseException):
                    return True
                if n == "ParamError":
                    return True
        return False

    def construct(self, st, cv, args, kwargs, node, fr):
        from .interp import GuardedV as GV, StarV
        ci = cv.info
        if ci.is_enum:
            v = args[0] if args else unk("enum")
            if isinstance(v, Const):
                for m in ci.members.values():
                    if m.value == v:
                        return [(st, m)]
                return [(st, self.exc("ValueError", ("enum", ci.name), where=self.where(fr, node)))]
            if isinstance(v, EnumM):
                return [(st, v)]
            return [(st, Sym("enumof", (ci.name, v))),
                    (st, self.exc("ValueError", ("enum", ci.name), where=self.where(fr, node)))]
        if self.is_exc_class(ci):
            init = ci.find("__init__")
            s = st.copy()
            ref = self.alloc(s, InstO(ci, {"args": TupV([a for a in args if isinstance(a, V)])}))
            e = self.exc_from_class(ci, tuple(args), ("raise", fr.func if fr else ""), self.where(fr, node), ref=ref)
            if init and isinstance(init[1], FuncV):
                out = []
                for s2, r in self.call_func(s, init[1], [ref] + args, kwargs, node, fr):
                    out.append((s2, r if isinstance(r, Raised) else e))
                return out
            e.args = tuple(args) + tuple(kwargs.values())
            return [(s, e)]
        names = self.ntup_names(ci)
        if names is not None:
            return self.construct_ntup(st, ci, names, args, kwargs, node, fr)
        nw = ci.find("__new__")
        if nw and isinstance(nw[1], FuncV):
            self.note_unknown(fr, node, "__new__")
            return [(st, unk("__new__"))]
        init = ci.find("__init__")
        dc_init = ci.dc is not None and not (init and isinstance(init[1], FuncV) and
                                             self.dc_rank(ci) > self.init_rank(ci))
        if ci.dc is None:
            base = next((c for c in ci.mro[1:] if isinstance(c, ClassInfo) and c.dc is not None), None)
            if base is not None and not (init and isinstance(init[1], FuncV)):
                # un-decorated subclass of a dataclass: inherits __init__ of the base
                return self.construct_dc(st, ci, base.fields, args, kwargs, node, fr)
        if dc_init:
            return self.construct_dc(st, ci, ci.fields, args, kwargs, node, fr)
        s = st.copy()
        ref = self.alloc(s, InstO(ci, {}))
        if init and isinstance(init[1], FuncV):
            return [(s2, r if isinstance(r, Raised) else ref)
                    for s2, r in self.call_func(s, init[1], [ref] + args, kwargs, node, fr)]
        if (args or kwargs) and not any(isinstance(c, Ext) and c.name != "object" for c in ci.mro):
            return [(s, self.exc("TypeError", ("call", ci.name), where=self.where(fr, node)))]
        return [(s, ref)]

    def ntup_names(self, ci):
        if getattr(ci, "ntup", None) is not None:
            return ci.ntup
        for c in ci.mro:
            if isinstance(c, ClassInfo) and getattr(c, "ntup", None) is not None:
                return c.ntup
            if isinstance(c, ClassInfo) and any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in c.bases):
                return list(c.ann)
        return None

    def construct_ntup(self, st, ci, names, args, kwargs, node, fr):
        from .interp import StarV
        if any(isinstance(a, StarV) for a in args) or "**" in kwargs:
            return [(st, unk("named tuple"))]
        vals = dict(zip(names, args))
        if len(args) > len(names) or any(k in vals or k not in names for k in kwargs):
            return [(st, self.exc("TypeError", ("call", ci.name), where=self.where(fr, node)))]
        vals.update(kwargs)
        for n in names:
            if n not in vals:
                f = ci.find(n)
                if f is None or f[1] is None:
                    return [(st, self.exc("TypeError", ("missing", ci.name, n), where=self.where(fr, node)))]
                vals[n] = f[1]
        return [(st, NTupV([vals[n] for n in names], ci))]

    def x_collections_namedtuple(self, st, args, kw, node, fr):
        name = args[0] if args else kw.get("typename")
        spec = args[1] if len(args) > 1 else kw.get("field_names")
        names = None
        if isinstance(spec, Const) and isinstance(spec.v, str):
            names = spec.v.replace(",", " ").split()
        else:
            for s, segs in self.segments(st, spec, node, fr) if spec is not None else ():
                if not isinstance(segs, Raised) and all(g[0] == "e" and isinstance(g[1], Const) for g in segs):
                    names = [g[1].v for g in segs]
        if not isinstance(name, Const) or names is None:
            return [(st, unk("namedtuple"))]
        ci = ClassInfo(name.v, fr.mod if fr else "", f"{fr.mod if fr else ''}.{name.v}", node)
        ci.bases = [Ext("builtins.tuple")]
        ci.mro = [ci, Ext("builtins.tuple")]
        ci.ntup = names
        d = kw.get("defaults")
        if d is not None:
            for s, segs in self.segments(st, d, node, fr):
                if isinstance(segs, Raised) or not all(g[0] == "e" for g in segs):
                    return [(st, unk("namedtuple"))]
                for n, g in zip(names[len(names) - len(segs):], segs):
                    ci.ns[n] = g[1]
        return [(st, ClassV(ci))]

    def init_rank(self, ci):
        return next((i for i, c in enumerate(ci.mro) if isinstance(c, ClassInfo) and "__init__" in c.ns), 999)

    def dc_rank(self, ci):
        return next((i for i, c in enumerate(ci.mro) if isinstance(c, ClassInfo) and c.dc is not None and
                     c.dc.get("init", TRUE) != FALSE), 999)

    def construct_dc(self, st, ci, fields, args, kwargs, node, fr):
        from .interp import GuardedV as GV, StarV
        names = [n for n, f in fields.items() if f.init and not f.kw_only]
        vals = {}

        def bad(why):
            return [(st, self.exc("TypeError", ("call", ci.name, why), where=self.where(fr, node)))]

        for i, v in enumerate(args):
            if isinstance(v, StarV):
                for n in names[i:]:
                    vals.setdefault(n, unk("*args"))
                break
            if i >= len(names):
                return bad("too many positional arguments")
            vals[names[i]] = v
        loose = None
        for k, v in kwargs.items():
            if k == "**":
                loose = v
                continue
            if k not in fields or not fields[k].init:
                return bad(f"unexpected keyword {k!r}")
            if k in vals:
                return bad(f"multiple values for {k!r}")
            vals[k] = v
        curs = [(st, {})]
        for n, f in fields.items():
            nxt = []
            for s, flds in curs:
                if isinstance(flds, Raised):
                    nxt.append((s, flds))
                    continue
                dflts = self.field_default(s, f, node, fr)
                for s1, dv in dflts:
                    if isinstance(dv, Raised):
                        nxt.append((s1, dv))
                        continue
                    if n not in vals:
                        if loose is not None:
                            nxt.append((s1, {**flds, n: unk("**kwargs")}))
                        elif dv is None:
                            nxt.append((s1, self.exc("TypeError", ("missing", ci.name, n),
                                                     where=self.where(fr, node))))
                        else:
                            nxt.append((s1, {**flds, n: dv}))
                        continue
                    v = vals[n]
                    if not isinstance(v, GV):
                        nxt.append((s1, {**flds, n: v}))
                        continue
                    if len(v.guard) == 1 and dv is not None:
                        p, want = v.guard[0]
                        b = s1.facts.get(p)
                        if b is not None:
                            nxt.append((s1, {**flds, n: v.v if b == want else dv}))
                        else:
                            nxt.append((s1, {**flds, n: self.phi(p, v.v, dv) if want else self.phi(p, dv, v.v)}))
                        continue
                    for s2, b in self.fork_guard(s1, v.guard):
                        if b:
                            nxt.append((s2, {**flds, n: v.v}))
                        elif dv is not None:
                            nxt.append((s2, {**flds, n: dv}))
                        else:
                            nxt.append((s2, self.exc("TypeError", ("missing", ci.name, n),
                                                     where=self.where(fr, node))))
            curs = nxt
        out = []
        dcinfo = ci.dc if ci.dc is not None else next(c.dc for c in ci.mro if isinstance(c, ClassInfo) and
                                                      c.dc is not None)
        frozen = dcinfo.get("frozen") == TRUE
        for s, flds in curs:
            if isinstance(flds, Raised):
                out.append((s, flds))
                continue
            s = s.copy()
            ref = self.alloc(s, InstO(ci, flds, frozen))
            pi = ci.find("__post_init__")
            if pi is None:
                out.append((s, ref))
            elif pi[1] is None:
                out += [(s2, r if isinstance(r, Raised) else ref) for s2, r in self.validate(s, ref, node, fr)]
            else:
                out += [(s2, r if isinstance(r, Raised) else ref)
                        for s2, r in self.call_func(s, pi[1], [ref], {}, node, fr)]
        return out

    def field_default(self, st, f, node, fr):
        if f.factory != MISSING:
            if isinstance(f.factory, Sentinel):
                # default_factory=REQ: calling the sentinel
                return [(st, self.exc("TypeError", ("missing", f.owner, f.name), where=self.where(fr, node)))]
            return self.call(st, f.factory, [], {}, node, fr)
        if f.default == MISSING:
            return [(st, None)]
        return [(st, f.default)]

    def validate(self, st, ref, node, fr):
        """func_args BaseModelMixin._validate."""
        o = self.heap_get(st, ref) if isinstance(ref, Ref) else None
        if not isinstance(o, InstO):
            return [(st, NONE_V)]
        curs, out = [st], []
        for n, f in o.cls.fields.items():
            if not f.init:
                continue
            nxt = []
            for s in curs:
                ob = self.heap_get(s, ref)
                for s2, isreq, v in self.req_split(s, ob.fields.get(n)):
                    if isreq:
                        out.append((s2, Raised(ExcV(("ParamError", "Exception", "BaseException"), (Const(n),),
                                                    ("param", o.cls.name, n), self.where(fr, node)))))
                    else:
                        if v is not ob.fields.get(n):
                            s2 = s2.copy()
                            s2.heap[ref.id] = InstO(ob.cls, {**ob.fields, n: v}, ob.frozen)
                        nxt.append(s2)
            curs = nxt
        return [(s, NONE_V) for s in curs] + out

    def req_split(self, st, v):
        if isinstance(v, Sentinel):
            return [(st, v == REQ, v)]
        if isinstance(v, Sym) and v.op == "phi" and any(x == REQ for x in subterms(v)):
            out = []
            for s, b in self.decide(st, v.args[0]):
                out += self.req_split(s, v.args[1] if b else v.args[2])
            return out
        return [(st, False, v)]

    # ------------------------------------------------------------------ natives
    def call_native(self, st, f, args, kwargs, node, fr):
        kind, owner, name, me = f.native
        if me is None and args:
            me, args = args[0], args[1:]
        if name in ("__post_init__", "_validate") and owner.startswith("func_args"):
            if isinstance(me, Ref):
                o = self.heap_get(st, me)
                if name == "__post_init__" and isinstance(o, InstO):
                    m = o.cls.find("_validate")
                    if m and isinstance(m[1], FuncV):
                        return self.call_func(st, m[1], [me], {}, node, fr)
                return self.validate(st, me, node, fr)
            return [(st, NONE_V)]
        if name == "to_dict":
            return self.asdict(st, me, None, node, fr)
        if name == "to_kwargs":
            out = []
            for s, d in self.getattr(st, me, "to_dict", node, fr):
                if isinstance(d, Raised):
                    out.append((s, d))
                    continue
                for s2, v in self.call(s, d, [], {}, node, fr):
                    out += [(s2, v)] if isinstance(v, Raised) else self.remove_optional(s2, v, node, fr)
            return out
        if name == "__new__":
            return self.x_object___new__(st, ([me] if me is not None else []) + args, kwargs, node, fr)
        if name == "__setattr__" and len(args) == 2 and isinstance(args[0], Const):
            if isinstance(me, Ref) and isinstance(self.heap_get(st, me), InstO):
                s = st.copy()
                o = self.heap_get(s, me)
                s.heap[me.id] = InstO(o.cls, {**o.fields, args[0].v: args[1]}, o.frozen)
                return [(s, NONE_V)]
            return [(st.copy().ev("mutate", me, args[0].v, self.where(fr, node)), NONE_V)]
        if name in ("__init__", "__init_subclass__"):
            if isinstance(me, Ref) and isinstance(self.heap_get(st, me), InstO):
                s = st.copy()
                o = self.heap_get(s, me)
                s.heap[me.id] = InstO(o.cls, {**o.fields, "args": TupV(args)}, o.frozen)
                return [(s, NONE_V)]
            return [(st, NONE_V)]
        if name in ("__eq__",):
            return [(st, Sym("eq", (me, args[0] if args else NONE_V), BOOL))]
        return [(st, unk(owner + "." + name))]

    def remove_optional(self, st, v, node, fr):
        """remove_optional(**v) for a dict value."""
        out = []
        for s, x in self.norm(st, v):
            o = self.heap_get(s, x) if isinstance(x, Ref) else None
            if isinstance(x, Sym) and x.op == "asdict":
                out += self.clean_asdict(s, x, node, fr)
                continue
            if not isinstance(o, DictO):
                if isinstance(x, Sentinel):
                    out.append((s, self.exc("TypeError", ("opt", getattr(x, "src", x)), where=self.where(fr, node))))
                else:
                    out.append((s, Sym("cleaned", (x,), DICT)))
                continue
            curs = [(s, {})]
            for k, (val, g) in o.entries.items():
                nxt = []
                for s1, ent in curs:
                    nxt += self._clean_entry(s1, ent, k, val, g)
                curs = nxt
            for s1, ent in curs:
                s1 = s1.copy()
                out.append((s1, self.alloc(s1, DictO(ent, o.base, o.deleted, "hashed" if o.owner == "hashed" else "fresh",
                                                     o.unk, o.deep))))
        return out

    def _clean_entry(self, s, ent, k, val, g):
        if isinstance(val, Sentinel):
            return [(s, ent)] if val == OPT else [(s, {**ent, k: (val, g)})]
        if isinstance(val, Sym) and val.op == "phi":
            # phi(p, x, OPT) -> entry guarded by p
            p, x, y = val.args
            if y == OPT and not (isinstance(x, Sym) and (x.op == "phi" or x.ty.opt)):
                return [(s, {**ent, k: (x, g + ((p, True),))})]
            if x == OPT and not (isinstance(y, Sym) and (y.op == "phi" or y.ty.opt)):
                return [(s, {**ent, k: (y, g + ((p, False),))})]
            if any(t == OPT or (isinstance(t, Sym) and t.ty.opt) for t in (x, y)):
                out = []
                for s2, b in self.decide(s, p):
                    out += self._clean_entry(s2, ent, k, x if b else y, g)
                return out
            return [(s, {**ent, k: (val, g)})]
        if isinstance(val, Sym) and val.ty.opt:
            pred = self.isopt_pred(val)
            b = s.facts.get(pred)
            if b is True:
                return [(s, ent)]
            if b is False:
                return [(s, {**ent, k: (val, g)})]
            return [(s, {**ent, k: (val, g + ((pred, False),))})]
        return [(s, {**ent, k: (val, g)})]

    def isopt_pred(self, v):
        return ("isopt", strip_copy(v))

    # dataclasses.asdict ------------------------------------------------------------
    def asdict(self, st, me, factory, node, fr):
        out = []
        for s, x in self.norm(st, me):
            fields = None
            if isinstance(x, Ref) and isinstance(self.heap_get(s, x), InstO):
                o = self.heap_get(s, x)
                fields = [(n, o.fields.get(n, unk("field"))) for n in o.cls.fields]
            elif isinstance(x, Sym) and x.ty.kind == "inst":
                cl = self.classes_of(s, x)
                if cl and len(cl) == 1:
                    ci = self.classes[next(iter(cl))]
                    fields = []
                    for n, f in ci.fields.items():
                        if n == "type" and self.is_model(ci.name) and self.tag(ci.name) is not None and \
                                not self.free_type:
                            fields.append((n, self.tag(ci.name)))
                        else:
                            fields.append((n, Sym("field", (x, n), f.ty)))
            if fields is None:
                if isinstance(x, Sentinel):
                    out.append((s, self.exc("TypeError", ("opt", getattr(x, "src", x)), where=self.where(fr, node))))
                else:
                    out.append((s, unk("asdict", DICT)))
                continue
            desc = self.factory_desc(s, factory, node, fr)
            s = s.copy()
            ent = []
            for n, v in fields:
                if isinstance(v, Sym) and v.ty.kind in ("inst", "list", "dict", "any"):
                    kd = "dict" if v.ty.kind == "inst" else v.ty.kind
                    v = Sym("asdict", (v, desc), Ty(kd, opt=v.ty.opt, elem=DICT if v.ty.elem is not None and
                                                    v.ty.elem.kind == "inst" else v.ty.elem))
                elif isinstance(v, Ref):
                    v = Sym("asdict", (v, desc))
                ent.append((n, v))
            if factory is None:
                out.append((s, self.alloc(s, DictO({Const(n): (v, ()) for n, v in ent}))))
            else:
                lst = self.alloc(s, ListO([("e", TupV([Const(n), v])) for n, v in ent]))
                out += self.call(s, factory, [lst], {}, node, fr)
        return out

    def factory_desc(self, st, factory, node, fr):
        if factory is None or factory == Ext("builtins.dict"):
            return "raw"
        probe = Sym("probe", (), STR.w(opt=True))
        s = st.copy()
        lst = self.alloc(s, ListO([("e", TupV([Const("k"), probe])), ("e", TupV([Const("j"), Const(1)]))]))
        verdict = set()
        for s2, r in self.call(s, factory, [lst], {}, node, fr):
            o = self.heap_get(s2, r) if isinstance(r, Ref) else None
            if not isinstance(o, DictO):
                return "?"
            isopt = s2.facts.get(("isopt", probe))
            e = o.entries.get(Const("k"))
            if Const("j") not in o.entries:
                return "?"
            if e is None:
                verdict.add("clean" if isopt is True else "drops")
            elif e[1] == ((("isopt", probe), False),):
                verdict.add("clean")
            elif isopt is False:
                pass
            else:
                verdict.add("raw")
        return verdict.pop() if len(verdict) == 1 else ("clean" if not verdict else "?")

    def clean_asdict(self, st, x, node, fr):
        """remove_optional(**asdict-of-nested-dataclass)"""
        src = x.args[0]
        cl = self.classes_of(st, src) if isinstance(src, Sym) else None
        if not cl or len(cl) != 1:
            return [(st, Sym("cleaned", (x,), DICT))]
        out = []
        ci = self.classes[next(iter(cl))]
        nested = any(f.ty.kind in ("inst", "any") for f in ci.fields.values())
        return [(st, Sym("cleaned", (x,), DICT))]

    # ------------------------------------------------------------------ methods
    def str_args_check(self, st, vals, node, fr):
        for v in vals:
            if isinstance(v, Sentinel):
                return self.exc("TypeError", ("opt", getattr(v, "src", v)), where=self.where(fr, node))
        return None

    def call_method(self, st, recv, name, args, kwargs, node, fr):
        out = []
        for s, r in self.norm(st, recv):
            cur = [(s, [])]
            for a in args:
                nxt = []
                for s1, l in cur:
                    if name in ("append", "add", "insert", "setdefault", "get", "update", "extend", "pop", "format"):
                        nxt.append((s1, l + [a]))
                    else:
                        for s2, x in self.norm(s1, a):
                            nxt.append((s2, l + [x]))
                cur = nxt
            for s1, l in cur:
                out += self._method(s1, r, name, l, kwargs, node, fr)
        return out

    def _method(self, st, r, name, args, kwargs, node, fr):
        if isinstance(r, Sentinel):
            return self.attr_err(st, ("opt", getattr(r, "src", r)), node, fr)
        if name in ("__contains__", "__getitem__") and len(args) == 1 and not kwargs and not (
                isinstance(r, Ref) and not isinstance(self.heap_get(st, r), (ListO, DictO)) or
                isinstance(r, Sym) and r.ty.kind not in ("list", "dict", "str") and r.op not in ("json", "get", "copyof")):
            if name == "__getitem__":
                return self.getitem(st, r, args[0], node, fr)
            return [(s, b if isinstance(b, Raised) else Const(b)) for s, b in self.in_(st, args[0], r, node, fr)]
        if isinstance(r, Const) and isinstance(r.v, str) or isinstance(r, Sym) and r.ty.kind == "str":
            return self.str_method(st, r, name, args, kwargs, node, fr)
        if isinstance(r, Const):
            return [(st, unk("method of constant"))]
        if isinstance(r, Ref):
            o = self.heap_get(st, r)
            if isinstance(o, DictO):
                return self.dict_method(st, r, o, name, args, kwargs, node, fr)
            if isinstance(o, ListO):
                return self.list_method(st, r, o, name, args, kwargs, node, fr)
            if isinstance(o, IterO) and name == "__next__":
                return self.next_(st, r, None, node, fr)
            return [(st, unk("method " + name))]
        if isinstance(r, NTupV):
            names = self.ntup_names(r.cls) or []
            if name == "_replace" and not args and "**" not in kwargs and set(kwargs) <= set(names):
                return [(st, r.like([kwargs.get(n, x) for n, x in zip(names, r.items)]))]
            if name == "_asdict" and not args:
                s = st.copy()
                return [(s, self.alloc(s, DictO({Const(n): (x, ()) for n, x in zip(names, r.items)})))]
        if isinstance(r, TupV):
            if name == "index" or name == "count":
                return [(st, Sym("meth", (name, r) + tuple(args), INT))]
            return [(st, unk("tuple method"))]
        if isinstance(r, Sym):
            return self.sym_method(st, r, name, args, kwargs, node, fr)
        if isinstance(r, FuncV):
            if name in ("cache_clear", "cache_info"):
                return [(st, NONE_V)]
        self.note_unknown(fr, node, "method " + name)
        return [(st, unk("method " + name))]

    # strings
    def str_method(self, st, r, name, args, kwargs, node, fr):
        if name not in ALL_STR_METHODS:
            if not hasattr(str, name):
                return self.attr_err(st, ("attr", "str", name), node, fr)
            return [(st, unk("str." + name))]
        if name == "join":
            return self.str_join(st, r, args, node, fr)
        if name == "maketrans":
            return self.x_str_maketrans(st, args, kwargs, node, fr)
        if name == "translate" and len(args) == 1 and isinstance(args[0], Sym) and args[0].op == "transtab":
            tab = args[0].args[0]
            if not any(k != k2 and k in v2 for k, _ in tab for k2, v2 in tab):
                curs = [(st, r)]
                for k, v in tab:
                    curs = [x for s, t in curs for x in ([(s, t)] if isinstance(t, Raised) else
                            self.str_method(s, t, "replace", [Const(k), Const(v)], {}, node, fr))]
                return curs
        if name in ("removesuffix", "removeprefix") and len(args) == 1 and not kwargs and isinstance(args[0], Const) and \
                isinstance(args[0].v, str):
            x = unended(r, len(args[0].v), name == "removeprefix", args[0].v)
            if x is not None:
                return [(st, x)]
        if name in ("format", "format_map"):
            return self.str_format(st, r, name, args, kwargs, node, fr)
        from .interp import StarV
        if any(isinstance(a, StarV) for a in args) or "**" in kwargs:
            return [(st, unk("str." + name, STR if name in STR_METHODS_STR else ANY))]
        # keyword -> positional
        order = {"split": ["sep", "maxsplit"], "rsplit": ["sep", "maxsplit"], "splitlines": ["keepends"],
                 "expandtabs": ["tabsize"], "encode": ["encoding", "errors"]}.get(name, [])
        dfl = {"sep": NONE_V, "maxsplit": Const(-1), "keepends": FALSE, "tabsize": Const(8)}
        args = list(args)
        for k, v in kwargs.items():
            if k not in order:
                return [(st, self.exc("TypeError", ("call", "str." + name), where=self.where(fr, node)))]
            i = order.index(k)
            while len(args) <= i:
                args.append(dfl.get(order[len(args)], NONE_V))
            args[i] = v
        if name in ("split", "rsplit"):
            if len(args) == 2 and args[1] == Const(-1):
                args = args[:1]
            if len(args) == 1 and args[0] == NONE_V:
                args = []
            if name == "rsplit" and len(args) < 2:
                name = "split"
        if name == "splitlines" and args == [FALSE]:
            args = []
        if name in ("strip", "lstrip", "rstrip") and args == [NONE_V]:
            args = []
        bad = self.str_args_check(st, args, node, fr)
        if bad:
            return [(st, bad)]
        if isinstance(r, Const) and all(isinstance(a, Const) for a in args):
            try:
                v = getattr(r.v, name)(*[a.v for a in args])
            except Exception as e:
                return [(st, self.exc(type(e).__name__, ("call", "str." + name), where=self.where(fr, node)))]
            if isinstance(v, list):
                s = st.copy()
                return [(s, self.alloc(s, ListO([("e", Const(x)) for x in v])))]
            if isinstance(v, tuple):
                return [(st, TupV([Const(x) for x in v]))]
            return [(st, Const(v))]
        if name == "replace" and isinstance(r, Const) and len(args) == 2 and isinstance(args[0], Const) and args[0].v and \
                isinstance(args[1], Sym) and args[1].ty.kind == "str":
            # a placeholder in a constant text
            ps = r.v.split(args[0].v)
            return [(st, cat([y for x in ps for y in (args[1], Const(x))][1:]))]
        if name in ("ljust", "rjust") and args and args[1:] in ([], [Const(" ")]) and r == EMPTY and \
                isinstance(args[0], Sym):
            return [(st, Sym("mul", (Const(" "), args[0]), STR))]
        if name == "startswith" and isinstance(args[0], TupV) or name == "endswith" and isinstance(args[0], TupV):
            pass
        if name == "isspace":
            return [(s3, v) for s2, b in self.decide(st, ("truthy", r)) for s3, v in (
                [(s2, FALSE)] if not b else [(s4, Const(c)) for s4, c in self.decide(
                    s2, ("blank", self.strip_base(r)))])]
        if name in STR_METHODS_BOOL:
            return [(st, Sym("pred", (("strpred", name, r, tuple(args)), True), BOOL))]
        if name in STR_METHODS_INT:
            t = Sym("meth", (name, r) + tuple(args), INT)
            if name == "count":
                s = st.copy()
                s.rng[t] = (0, None)
                st = s
            if name in ("index", "rindex"):
                return [(st, t), (st, self.exc("ValueError", ("call", "str.index"), where=self.where(fr, node)))]
            return [(st, t)]
        if isinstance(r, Sym) and args and isinstance(args[0], Const) and isinstance(args[0].v, str) and args[0].v and (
                name == "partition" and len(args) == 1 or name == "split" and args[1:] == [Const(1)]):
            whole = Sym("meth", ("split", r, args[0]), LSTR)
            head = Sym("index", (whole, Const(0)), STR)
            rest = Sym("slice", (whole, Const(1), NONE_V), LSTR)
            out = []
            for s, b in self.decide(st, ("truthy", rest)):
                tail = join(args[0], [ident_rep(rest, elem_of(rest))])
                if name == "partition":
                    out.append((s, TupV([head, args[0], tail] if b else [head, EMPTY, EMPTY])))
                else:
                    s = s.copy()
                    out.append((s, self.alloc(s, ListO([("e", head), ("e", tail)] if b else [("e", head)]))))
            return out
        if name in STR_METHODS_LIST:
            if not args and name == "splitlines" or len(args) == 1 and name == "split" and isinstance(args[0], Const):
                pass
            return [(st, Sym("meth", (name, r) + tuple(args), LSTR))]
        if name in ("partition", "rpartition"):
            return [(st, TupV([Sym("part", (name, r, args[0] if args else NONE_V, i), STR) for i in range(3)]))]
        if name == "encode":
            return [(st, Sym("meth", (name, r) + tuple(args), BYTES))]
        return [(st, Sym("meth", (name, r) + tuple(args), STR))]

    def str_join(self, st, sep, args, node, fr):
        if len(args) != 1:
            return [(st, self.exc("TypeError", ("call", "join"), where=self.where(fr, node)))]
        out = []
        for s, x in self.norm(st, args[0]):
            if self.unordered(s, x):
                s = s.copy().ev("setorder", "join", self.where(fr, node))
            for s2, segs in self.segments(s, x, node, fr):
                if isinstance(segs, Raised):
                    out.append((s2, segs))
                    continue
                out += self.join_segs(s2, sep, list(segs), node, fr)
        return out

    def join_segs(self, st, sep, segs, node, fr):
        # resolve top-level optional elements / conditional segments of constant arity
        curs = [(st, [])]
        for g in segs:
            nxt = []
            for s, acc in curs:
                if isinstance(acc, Raised):
                    nxt.append((s, acc))
                elif g[0] == "e":
                    for s2, v in self.norm(s, g[1]):
                        bad = self.not_str(v)
                        if bad:
                            org = ("opt", getattr(v, "src", v)) if isinstance(v, Sentinel) else ("join", bad)
                            nxt.append((s2, self.exc("TypeError", org, where=self.where(fr, node))))
                        else:
                            nxt.append((s2, acc + [("e", v)]))
                elif g[0] == "cond":
                    for s2, b in self.fork_guard(s, g[1]):
                        for s3, sub in self.expand_conds(s2, g[2] if b else g[3]):
                            nxt.append((s3, acc + sub))
                else:
                    if g[0] == "rep":
                        worst = None
                        for a in g[1].alts:
                            for q in a.segs:
                                if q[0] == "e" and self.not_str(q[1]):
                                    worst = q[1]
                        if worst is not None:
                            org = ("opt", getattr(worst, "src", worst)) if isinstance(worst, Sentinel) else \
                                ("join", repr(worst))
                            nxt.append((s, self.exc("TypeError", org, where=self.where(fr, node))))
                            continue
                    nxt.append((s, acc + [g]))
            curs = nxt
        return [(s, a if isinstance(a, Raised) else join(sep, a)) for s, a in curs]

    def expand_conds(self, st, segs):
        curs = [(st, [])]
        for g in segs:
            nxt = []
            for s, acc in curs:
                if g[0] == "cond":
                    for s2, b in self.fork_guard(s, g[1]):
                        for s3, sub in self.expand_conds(s2, g[2] if b else g[3]):
                            nxt.append((s3, acc + sub))
                else:
                    nxt.append((s, acc + [g]))
            curs = nxt
        return curs

    def not_str(self, v):
        if isinstance(v, Sentinel):
            return v.name
        if isinstance(v, Const):
            return None if isinstance(v.v, str) else repr(v.v)
        if isinstance(v, Sym) and v.ty.kind in ("int", "float", "list", "dict", "inst", "none", "bool"):
            return repr(v)
        if isinstance(v, MethV) and is_unknown(v.recv):
            return None
        if isinstance(v, (TupV, Ref, FuncV, ClassV, MethV, BoundV)):
            return repr(v)
        return None

    def str_format(self, st, r, name, args, kwargs, node, fr):
        from .interp import StarV, GuardedV as GV
        if isinstance(r, Sym) and name == "format" and not is_unknown(r) and "**" not in kwargs and \
                all(isinstance(a, V) and not isinstance(a, (StarV, GV, Ref)) for a in list(args) + list(kwargs.values())):
            return [(st, Sym("meth", ("format", r) + tuple(args) + tuple(kwargs.values()), STR))]
        if not isinstance(r, Const) or name != "format" or any(isinstance(a, StarV) for a in args) or "**" in kwargs:
            return [(st, unk("format", STR))]
        curs = [(st, [])]
        auto = 0
        try:
            parts = list(string.Formatter().parse(r.v))
        except ValueError:
            return [(st, self.exc("ValueError", ("format",), where=self.where(fr, node)))]
        for lit, fld, spec, conv in parts:
            nxt = []
            if fld is not None:
                if fld == "":
                    key = auto
                    auto += 1
                elif fld.isdigit():
                    key = int(fld)
                else:
                    key = fld
                if isinstance(key, int):
                    if key >= len(args):
                        return [(st, self.exc("IndexError", ("format",), where=self.where(fr, node)))]
                    base, path = args[key], ""
                else:
                    import re
                    m = re.match(r"^([A-Za-z_0-9]*)((?:\.[A-Za-z_]\w*)*)$", key)
                    if not m:
                        return [(st, unk("format", STR))]
                    root, path = m.group(1), m.group(2)
                    if root.isdigit():
                        base = args[int(root)] if int(root) < len(args) else None
                    elif root == "":
                        base = args[auto] if auto < len(args) else None
                        auto += 1
                    else:
                        base = kwargs.get(root)
                    if base is None:
                        return [(st, self.exc("KeyError", ("format", key), where=self.where(fr, node)))]
                if isinstance(base, GV):
                    return [(st, unk("format", STR))]
            for s, ps in curs:
                if isinstance(ps, Raised):
                    nxt.append((s, ps))
                    continue
                if lit:
                    ps = ps + [Const(lit)]
                if fld is None:
                    nxt.append((s, ps))
                    continue
                vs = [(s, base)]
                for a in [p for p in path.split(".") if p]:
                    v2 = []
                    for s1, b in vs:
                        v2 += [(s1, b)] if isinstance(b, Raised) else self.getattr(s1, b, a, node, fr)
                    vs = v2
                for s1, b in vs:
                    if isinstance(b, Raised):
                        nxt.append((s1, b))
                        continue
                    cv = {"r": 114, "s": 115, "a": 97}.get(conv, -1)
                    for s2, w in self.to_str(s1, b, node, fr, conv=cv, spec=Const(spec) if spec else None):
                        nxt.append((s2, w if isinstance(w, Raised) else ps + [w]))
            curs = nxt
        return [(s, ps if isinstance(ps, Raised) else cat(ps)) for s, ps in curs]

    # lists
    def list_method(self, st, r, o, name, args, kwargs, node, fr):
        s = st.copy()
        if o.kind == "strio":
            if name == "write" and len(args) == 1:
                out = []
                for s2, v in self.norm(s, args[0]):
                    bad = self.not_str(v)
                    if bad:
                        out.append((s2, self.exc("TypeError", ("opt", getattr(v, "src", v)) if isinstance(
                            v, Sentinel) else ("join", bad), where=self.where(fr, node))))
                        continue
                    s2 = s2.copy()
                    self.list_append(s2, r, v)
                    out.append((s2, Sym("len", (v,), INT)))
                return out
            if name == "writelines" and len(args) == 1:
                return [(s2, v) for s2, v in self.list_extend(s, r, args[0], node, fr)]
            if name == "getvalue" and not args:
                return self.join_segs(s, EMPTY, list(o.segs), node, fr)
            if name in ("__enter__",):
                return [(s, r)]
            if name in ("close", "flush", "__exit__"):
                return [(s, NONE_V)]
            s.heap[r.id] = ListO((("unk", name),), o.kind)
            return [(s, unk("StringIO." + name))]
        if name == "popleft" and not args:
            name, args = "pop", [Const(0)]
        elif name == "appendleft":
            name, args = "insert", [Const(0)] + list(args)
        elif name == "extendleft":
            name, args = "sort", []
        if self.runtime and r.id in self.base_heap and name in MUTATORS:
            s.ev("global_write", self.global_name(r), name, fr.func, self.where(fr, node), None, args[-1] if args else None)
        if name in ("append", "add"):
            if o.kind == "set":
                if ("e", args[0]) not in o.segs:
                    s.heap[r.id] = ListO(o.segs + (("e", args[0]),), o.kind)
            else:
                self.list_append(s, r, args[0])
            return [(s, NONE_V)]
        if name in ("extend", "update"):
            return [(s2, v) for s2, v in self.list_extend(s, r, args[0], node, fr)]
        if name == "insert":
            if args[0] == Const(0):
                s.heap[r.id] = ListO((("e", args[1]),) + o.segs, o.kind)
            elif isinstance(args[0], Sym) and args[0].op == "len" and False:
                pass
            elif isinstance(args[0], Const) and isinstance(args[0].v, int) and 0 <= args[0].v <= len(o.segs) and \
                    all(x[0] == "e" for x in o.segs[:args[0].v]):
                i = args[0].v
                s.heap[r.id] = ListO(o.segs[:i] + (("e", args[1]),) + o.segs[i:], o.kind)
            else:
                s.heap[r.id] = ListO((unk_seg("insert", "insert", o.segs, *args[:2]),), o.kind)
            return [(s, NONE_V)]
        if name == "pop" and o.kind == "set" and not args and self.unordered(s, r):
            s = s.ev("setorder", "pop", self.where(fr, node))
        if name == "pop":
            i = args[0] if args else Const(-1)
            if isinstance(i, Const) and i.v in (0, -1):
                out = []
                for s2, v in self.list_index(s, r, o, i, node, fr):
                    if isinstance(v, Raised):
                        out.append((s2, v))
                        continue
                    s2 = s2.copy()
                    g = o.segs[i.v] if o.segs else None
                    if g is not None and g[0] == "e":
                        s2.heap[r.id] = ListO(o.segs[1:] if i.v == 0 else o.segs[:-1], o.kind)
                    elif len(o.segs) == 1 and is_ident(o.segs[0]):
                        src = o.segs[0][1].source
                        sl = self.mk_slice(src, Const(1) if i.v == 0 else NONE_V, NONE_V if i.v == 0 else Const(-1),
                                           NONE_V)
                        s2.heap[r.id] = ListO([ident_rep(sl, elem_of(sl))], o.kind)
                    else:
                        s2.heap[r.id] = ListO((unk_seg("pop", "pop", o.segs, i),), o.kind)
                    out.append((s2, v))
                return out
            s.heap[r.id] = ListO((unk_seg("pop", "pop", o.segs, i),), o.kind)
            return [(s, opaque(ANY, "index", Sym("listv", (tuple(o.segs),), LIST), i))]
        if name == "copy":
            return [(s, self.alloc(s, ListO(o.segs, o.kind)))]
        if name == "clear":
            s.heap[r.id] = ListO((), o.kind)
            return [(s, NONE_V)]
        if name == "reverse":
            s.heap[r.id] = ListO(self.reverse_segs(o.segs), o.kind)
            return [(s, NONE_V)]
        if name == "sort":
            self.sort_key(s, kwargs.get("key"), o.segs, node, fr)
        if name in ("sort", "remove", "discard", "$del"):
            if name == "$del" and isinstance(args[0], Const) and isinstance(args[0].v, int) and \
                    all(x[0] == "e" for x in o.segs) and -len(o.segs) <= args[0].v < len(o.segs):
                l = list(o.segs)
                del l[args[0].v]
                s.heap[r.id] = ListO(l, o.kind)
            elif name == "$del" and isinstance(args[0], Const) and args[0].v in (0, -1) and len(o.segs) == 1 and \
                    is_ident(o.segs[0]):
                return [(s2, v if isinstance(v, Raised) else NONE_V)
                        for s2, v in self.list_method(st, r, o, "pop", [args[0]], {}, node, fr)]
            else:
                s.heap[r.id] = ListO((unk_seg(name, "pop" if name == "$del" else name, o.segs, *args[:1]),), o.kind)
            return [(s, NONE_V)]
        if name in ("index", "count"):
            return [(s, Sym("meth", (name, Sym("listv", (o.segs,), LIST)) + tuple(args), INT))]
        if name in ("issubset", "issuperset", "isdisjoint"):
            return [(s, unk(name, BOOL))]
        if name in ("intersection", "difference") and len(args) == 1 and not kwargs:
            got = [(s2, g if isinstance(g, Raised) else self.shared(o.segs, g, name == "intersection"))
                   for s2, g in self.segments(s, args[0], node, fr)]
            if all(g is not None for _, g in got):
                out = []
                for s2, g in got:
                    s2 = s2.copy()
                    out.append((s2, g if isinstance(g, Raised) else self.alloc(s2, ListO(g, kind="set"))))
                return out
        if name in ("union", "intersection", "difference"):
            return [(s, unk(name, LIST))]
        if name in ("send", "close", "throw", "__next__"):
            return [(s, unk(name))]
        if not hasattr(list, name) and not hasattr(set, name):
            return self.attr_err(s, ("attr", "list", name), node, fr)
        return [(s, unk("list." + name))]

    def shared(self, sa, sb, both):
        """The elements of `sa` that `sb` has too (both) or lacks, when the elements of one side are constants."""
        def const(g):
            return g[0] == "e" and isinstance(g[1], (Const, EnumM, ClassV)) or g[0] == "cond" and not g[3] and \
                len(g[1]) == 1 and len(g[2]) == 1 and const(g[2][0])

        def key(g):
            return g[1] if g[0] == "e" else g[2][0][1]

        def other(g):
            # keys that no declared key is equal to
            return g[0] == "rep" and isinstance(g[1].source, Sym) and g[1].source.op == "otheritems"
        if both and not all(const(g) for g in sa):
            sa, sb = sb, sa
        if not all(const(g) for g in sa) or not all(const(g) or other(g) for g in sb):
            return None
        has = {key(g): g for g in sb if const(g)}
        out = []
        for g in sa:
            h = has.get(key(g))
            if h is None:
                if not both:
                    out.append(g)
            elif h[0] == "e":
                if both:
                    out.append(g)
            elif g[0] == "e":
                p, w = h[1][0]
                out.append(("cond", ((p, w if both else not w),), (("e", key(g)),), ()))
            elif g[1] == h[1]:
                if both:
                    out.append(g)
            else:
                return None
        return out

    # dicts
    def dict_method(self, st, r, o, name, args, kwargs, node, fr):
        if isinstance(o.owner, tuple) and name in MUTATORS:
            st = st.copy().ev("mutate", o.owner[1], name, self.where(fr, node))
        if self.runtime and r.id in self.base_heap and name in MUTATORS:
            st = st.copy().ev("global_write", self.global_name(r), name, fr.func, self.where(fr, node),
                              args[0] if args else None, self.deepval(st, args[1]) if len(args) > 1 else None)
        if name in ("get", "pop", "setdefault"):
            dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE_V)
            out = []
            for s, k in self.norm(st, args[0]):
                if isinstance(k, Sym) and s.vals.get(k) is not None and name == "get" and o.base is None:
                    pass
                for s2, b in self.dict_has(s, r, o, k):
                    o2 = self.heap_get(s2, r)
                    if b:
                        vs = s2.vals.get(k) if isinstance(k, Sym) else None
                        if name == "get" and vs is not None and len(vs) <= 4 and all(v in o2.entries for v in vs):
                            for v in vs:
                                s3 = s2.copy()
                                s3.vals[k] = frozenset([v])
                                out.append((s3, o2.entries[v][0]))
                            continue
                        got = self.by_class(s2, o2, k) if name == "get" else None
                        if got is not None:
                            out += got
                            continue
                        v = self.dict_get(s2, r, o2, k)
                        if name == "pop":
                            s2 = s2.copy()
                            ent = dict(o2.entries)
                            ent.pop(k, None)
                            s2.heap[r.id] = DictO(ent, o2.base, o2.deleted | {k}, o2.owner, o2.unk, o2.deep)
                        out.append((s2, v))
                    elif name == "get":
                        out.append((s2, dflt))
                    elif name == "pop":
                        if len(args) > 1:
                            out.append((s2, dflt))
                        else:
                            out.append(self.key_missing(s2, k, node, fr))
                    else:
                        for s3, x in self.setitem(s2, r, k, dflt, node, fr):
                            out.append((s3, x if isinstance(x, Raised) else dflt))
            return out
        if name == "$del":
            out = []
            for s2, b in self.dict_has(st, r, o, args[0]):
                if b:
                    s2 = s2.copy()
                    ent = dict(o.entries)
                    ent.pop(args[0], None)
                    s2.heap[r.id] = DictO(ent, o.base, o.deleted | {args[0]}, o.owner, o.unk, o.deep)
                    out.append((s2, NONE_V))
                else:
                    out.append(self.key_missing(s2, args[0], node, fr))
            return out
        s = st.copy()
        if name == "items":
            return [(s, self.alloc(s, ListO(self.dict_items(s, r, o))))]
        if name in ("keys", "values"):
            i = 0 if name == "keys" else 1
            segs = [self._pick(g, i) for g in self.dict_items(s, r, o)]
            return [(s, self.alloc(s, ListO(segs)))]
        if name == "copy":
            return [(s, self.alloc(s, DictO(dict(o.entries), o.base, o.deleted, "fresh", o.unk, o.deep)))]
        if name == "clear":
            s.heap[r.id] = DictO({}, None, frozenset(), o.owner)
            return [(s, NONE_V)]
        if name == "update":
            return self.dict_update(s, r, args, kwargs, node, fr)
        if not hasattr(dict, name):
            return self.attr_err(s, ("attr", "dict", name), node, fr)
        if name in MUTATORS:
            s.heap[r.id] = DictO({}, None, frozenset(), o.owner, True)
        return [(s, unk("dict." + name))]

    def _pick(self, g, i):
        if g[0] == "e":
            return ("e", g[1].items[i]) if isinstance(g[1], TupV) else ("e", unk("item"))
        if g[0] == "cond":
            return ("cond", g[1], tuple(self._pick(x, i) for x in g[2]), tuple(self._pick(x, i) for x in g[3]))
        if g[0] == "rep":
            r = g[1]
            return ("rep", Rep(r.source, [Alt(a.guard, tuple(self._pick(x, i) for x in a.segs), a.events, a.exit)
                                          for a in r.alts], r.partial, r.rev, r.why, r.id))
        return g

    def dict_update(self, st, r, args, kwargs, node, fr):
        from .interp import GuardedV as GV
        curs = [(st, NONE_V)]
        for a in args:
            nxt = []
            for s, _ in curs:
                for s1, x in self.norm(s, a):
                    xo = self.heap_get(s1, x) if isinstance(x, Ref) else None
                    s1 = s1.copy()
                    o = self.heap_get(s1, r)
                    if isinstance(xo, DictO):
                        ent = dict(o.entries)
                        base, dele, unkd = o.base, o.deleted, o.unk or xo.unk
                        if xo.base is not None:
                            if o.base is None and not o.entries:
                                base, dele = xo.base, xo.deleted
                            else:
                                unkd = True
                        for k, (v, g) in xo.entries.items():
                            if not g:
                                ent[k] = (v, ())
                            elif k not in ent and base is None:
                                ent[k] = (v, g)
                            elif k in ent and not ent[k][1] and len(g) == 1:
                                ent[k] = (self.phi(g[0][0], v, ent[k][0]) if g[0][1] else
                                          self.phi(g[0][0], ent[k][0], v), ())
                            else:
                                unkd = True
                        s1.heap[r.id] = DictO(ent, base, dele, o.owner, unkd, o.deep or (xo.deep and base is xo.base))
                        nxt.append((s1, NONE_V))
                    elif isinstance(x, Sym) and (x.ty.kind == "dict" or x.op in ("json", "get", "copyof")):
                        deep = isinstance(x, Sym) and x.op == "copyof"
                        if not o.entries and o.base is None:
                            s1.heap[r.id] = DictO({}, strip_copy(x) if deep else x, frozenset(), o.owner, o.unk, deep)
                        else:
                            s1.heap[r.id] = DictO(dict(o.entries), o.base, o.deleted, o.owner, True, o.deep)
                        nxt.append((s1, NONE_V))
                    elif isinstance(x, Sentinel):
                        nxt.append((s1, self.exc("TypeError", ("opt", getattr(x, "src", x)),
                                                 where=self.where(fr, node))))
                    else:
                        for s2, segs in self.segments(s1, x, node, fr):
                            if isinstance(segs, Raised):
                                nxt.append((s2, segs))
                                continue
                            s2 = s2.copy()
                            o = self.heap_get(s2, r)
                            ent, unkd = dict(o.entries), o.unk
                            for g in segs:
                                u = self._pairs(g, (), ent)
                                unkd = unkd or u
                            s2.heap[r.id] = DictO(ent, o.base, o.deleted, o.owner, unkd, o.deep)
                            nxt.append((s2, NONE_V))
            curs = nxt
        out = []
        for s, v in curs:
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            s = s.copy()
            o = self.heap_get(s, r)
            ent, unkd = dict(o.entries), o.unk
            for k, w in kwargs.items():
                if k == "**":
                    unkd = True
                elif isinstance(w, GV):
                    ent[Const(k)] = (w.v, w.guard)
                else:
                    ent[Const(k)] = (w, ())
            s.heap[r.id] = DictO(ent, o.base, o.deleted, o.owner, unkd, o.deep)
            out.append((s, NONE_V))
        return out

    def _pairs(self, g, guard, ent):
        """Add a (key, value) segment to `ent`; True when it cannot be represented."""
        if g[0] == "e" and isinstance(g[1], TupV) and len(g[1].items) == 2:
            k, v = g[1].items
            if isinstance(k, (Const, EnumM, ClassV)) or (isinstance(k, Sym) and k.op == "otherkey"):
                ent[k] = (v, guard)
                return False
            return True
        if g[0] == "cond":
            u = False
            for x in g[2]:
                u = self._pairs(x, guard + tuple(g[1]), ent) or u
            if g[3]:
                if len(g[1]) == 1:
                    p, w = g[1][0]
                    for x in g[3]:
                        u = self._pairs(x, guard + ((p, not w),), ent) or u
                else:
                    u = True
            return u
        if g[0] == "rep" and isinstance(g[1].source, Sym) and g[1].source.op == "otheritems":
            u = False
            for a in g[1].alts:
                for x in a.segs:
                    u = self._pairs(x, guard, ent) or u
            return u
        return True

    # symbolic receivers
    def sym_method(self, st, r, name, args, kwargs, node, fr):
        k = r.ty.kind
        if name in MUTATORS and r.op == "copyof":
            s = st.copy()
            x = self.promote(s, r)
            if isinstance(x, Ref):
                return self.call_method(s, x, name, args, kwargs, node, fr)
        if r.op == "ext" and r.args[0] == "re.compile" and name == "sub" and not set(kwargs) - {"repl", "string", "count"}:
            return self.x_re_sub(st, [r] + list(args), kwargs, node, fr)
        if r.op == "match" and name in ("group", "__getitem__") and not kwargs and all(
                isinstance(x, Const) and isinstance(x.v, int) for x in args) and len(args) < 2:
            return [(st, Sym("matched", (r.args[0],) + tuple(args or [Const(0)]), STR))]
        if r.op == "ext" and isinstance(r.args[0], str) and r.args[0].startswith("logging."):
            if name in LOGNAMES:
                return [(st.copy().ev("log", name, tuple(a for a in args if isinstance(a, V)),
                                      self.where(fr, node)), NONE_V)]
            return [(st, Sym("ext", (r.args[0] + "()." + name, (), ())))]
        jsonish = (r.op in ("json", "get", "copyof") or r.op == "field" and r.args[1] != "attrs") and k == "any"
        if k == "dict" or (jsonish and name in ("get", "items", "keys", "values", "pop", "update", "setdefault",
                                                "copy")):
            if name == "get":
                dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE_V)
                out = []
                for s, kk in self.norm(st, args[0]):
                    for s2, b in self.decide(s, ("haskey", strip_copy(r), kk)):
                        out.append((s2, self.json_get(r, kk) if b else dflt))
                return out
            if name == "copy":
                s = st.copy()
                deep = r.op == "copyof"
                return [(s, self.alloc(s, DictO({}, strip_copy(r) if deep else r, deep=deep)))]
            if name in ("items", "keys", "values"):
                s = st.copy()
                segs = self.json_items(r)
                if name != "items":
                    segs = [self._pick(g, 0 if name == "keys" else 1) for g in segs]
                return [(s, self.alloc(s, ListO(segs)))]
            if name in MUTATORS:
                s = st.copy().ev("mutate", r, name, self.where(fr, node), *args)
                if name in ("pop", "setdefault"):
                    out = []
                    for s2, b in self.decide(s, ("haskey", strip_copy(r), args[0])):
                        if b:
                            out.append((s2, self.json_get(r, args[0])))
                        elif len(args) > 1:
                            out.append((s2, args[1]))
                        else:
                            out.append(self.key_missing(s2, args[0], node, fr))
                    return out
                return [(s, NONE_V)]
            return [(st, unk("dict." + name))]
        if k == "list" or (jsonish and name in MUTATORS):
            if name in MUTATORS and self.fresh_list(r):
                self.note_unknown(fr, node, "change of a temporary list")
                return [(st, unk("pop") if name == "pop" else NONE_V)]
            if name in MUTATORS:
                s = st.copy().ev("mutate", r, name, self.where(fr, node))
                return [(s, unk("pop") if name == "pop" else NONE_V)]
            if name == "copy":
                s = st.copy()
                return [(s, self.alloc(s, ListO([ident_rep(r, elem_of(r))])))]
            if name in ("index", "count"):
                return [(st, Sym("meth", (name, r) + tuple(args), INT))]
            if not hasattr(list, name):
                return self.attr_err(st, ("attr", "list", name), node, fr)
            return [(st, unk("list." + name))]
        if k in ("int", "float", "bool"):
            if not hasattr(PYTYPES[k], name):
                return self.attr_err(st, ("attr", k, name), node, fr)
            return [(st, Sym("meth", (name, r) + tuple(args)))]
        if k == "none":
            return self.attr_err(st, ("none", name), node, fr)
        # values of unknown type: strings in practice, or objects from libraries
        if is_unknown(r):
            self.note_unknown(fr, node, "method of an unknown value")
            ty = STR if name in STR_METHODS_STR else (LSTR if name in STR_METHODS_LIST else ANY)
            return [(st.copy().ev("unkcall", self.where(fr, node)), unk("method " + name, ty))]
        if is_moment(r):
            from .interp import StarV, GuardedV as GV
            if any(isinstance(a, StarV) for a in args) or "**" in kwargs:
                return [(st, unk("method " + name))]
            kw = tuple(Sym("kwarg", (k, x.v if isinstance(x, GV) else x)) for k, x in kwargs.items())
            if name == "astimezone" and not args and "tz" in kwargs:
                args, kw = [kwargs["tz"]], ()
            return [(st, Sym("meth", (name, r) + tuple(args) + kw,
                             STR if name in ("isoformat", "strftime", "ctime") else ANY))]
        if name in ALL_STR_METHODS:
            return self.str_method(st, Sym(r.op, r.args, STR), name, args, kwargs, node, fr)
        return [(st, Sym("meth", (name, r) + tuple(args) + tuple(
            Sym("kwarg", (k, x)) for k, x in kwargs.items() if isinstance(x, V))))]

    # ------------------------------------------------------------------ libraries
    def call_ext(self, st, name, args, kwargs, node, fr):
        if name.startswith("$"):
            if len(args) == 2:
                return self.operator_obj(st, name, args, kwargs, node, fr)
            return [(st, self.exc("TypeError", ("call", name), where=self.where(fr, node)))]
        m = getattr(self, "x_" + name.replace("builtins.", "").replace(".", "_"), None)
        if m is not None:
            hashed = [a for a in args if isinstance(a, Ref) and self.unordered(st, a)]
            if hashed and name in ORDER_DECIDES:
                # what comes out depends on the order of a set
                one = name in ("builtins.max", "builtins.min")
                if not one or "key" in kwargs:
                    what = name.split(".")[-1]
                    st = st.copy().ev("setorder", what + (" with a key" if one else ""), self.where(fr, node))
            out = m(st, args, kwargs, node, fr)
            if hashed and name in ORDER_KEPT:
                # ... as does the order of these
                for s, v in out:
                    o = self.heap_get(s, v) if isinstance(v, Ref) else None
                    if isinstance(o, ListO) and o.kind == "list":
                        s.heap[v.id] = ListO(o.segs, "ulist")
                    elif isinstance(o, DictO) and o.owner in (None, "fresh"):
                        s.heap[v.id] = DictO(o.entries, o.base, o.deleted, "hashed", o.unk, o.deep)
            return out
        short = name.split(".")[-1]
        if name == "builtins.str." + short and short in ALL_STR_METHODS and short != "maketrans" and args and (
                isinstance(args[0], Const) and isinstance(args[0].v, str) or
                isinstance(args[0], Sym) and args[0].ty.kind == "str" and not args[0].ty.opt):
            # str.rstrip(x) is x.rstrip()
            return self.call_method(st, args[0], short, list(args[1:]), kwargs, node, fr)
        if name.startswith("builtins."):
            t = getattr(builtins, short, None)
            if isinstance(t, type) and issubclass(t, BaseException):
                return [(st, ExcV([k.__name__ for k in t.__mro__ if k is not object], tuple(args),
                                  ("raise", fr.func if fr else ""), self.where(fr, node)))]
        if name == "func_args.ParamError":
            return [(st, ExcV(("ParamError", "Exception", "BaseException"), tuple(args),
                              ("raise", fr.func if fr else ""), self.where(fr, node)))]
        # generic external call
        s = st.copy().ev("ext", name, self.where(fr, node))
        for v in list(args) + list(kwargs.values()):
            if isinstance(v, Sentinel) or (isinstance(v, Sym) and v.ty.opt):
                out = []
                for s2, x in self.norm(s, v):
                    if isinstance(x, Sentinel) and name.split(".")[0] not in ("typing", "dataclasses", "builtins"):
                        out.append((s2.copy().ev("leak", getattr(x, "src", x), self.where(fr, node)),
                                    unk("sentinel passed to " + name)))
                    else:
                        out.append((s2, Sym("ext", (name, tuple(args), tuple(kwargs.items())))))
                return out
        from .interp import StarV, GuardedV as GV
        kws = tuple((k, self.deepval(s, v.v if isinstance(v, GV) else v)) for k, v in kwargs.items())
        val = Sym("ext", (name, tuple(self.deepval(s, a) if not isinstance(a, StarV) else unk("*") for a in args), kws))
        out = [(s, val)]
        if self.runtime and not name.startswith(SAFE_EXT):
            out.append((s.copy(), self.any_exc(("ext", name), self.where(fr, node))))
        return out

    # -- builtins
    def x_object(self, st, args, kw, node, fr):
        # a unique marker object
        return [(st, Sentinel(f"object@{fr.mod if fr else ''}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"))]

    def x_isinstance(self, st, args, kw, node, fr):
        return self.isinstance_(st, args[0], args[1], node, fr)

    def x_issubclass(self, st, args, kw, node, fr):
        a = args[0]
        if isinstance(a, ClassV):
            ok = any(k == "cls" and a.info.is_sub(n.name) or k == "ext" and any(
                isinstance(c, Ext) and c.name == n for c in a.info.mro) for k, n in self.type_names(args[1]))
            return [(st, Const(ok))]
        return self._b(self.decide(st, ("issub", a, args[1])))

    def len_term(self, segs):
        if all(g[0] == "e" for g in segs):
            return Const(len(segs))
        if len(segs) == 1 and segs[0][0] == "rep" and not segs[0][1].partial and all(
                len(a.segs) == 1 and a.segs[0][0] == "e" for a in segs[0][1].alts):
            return Sym("len", (segs[0][1].source,), INT)
        return Sym("len", (Sym("listv", (tuple(segs),), LIST),), INT)

    def x_len(self, st, args, kw, node, fr):
        out = []
        for s, x in self.norm(st, args[0]):
            if isinstance(x, Sentinel):
                out.append((s, self.exc("TypeError", ("opt", getattr(x, "src", x)), where=self.where(fr, node))))
            elif isinstance(x, Const) and isinstance(x.v, (str, bytes)):
                out.append((s, Const(len(x.v))))
            elif isinstance(x, TupV):
                out.append((s, Const(len(x.items))))
            elif isinstance(x, Ref) and isinstance(self.heap_get(s, x), ListO):
                out.append((s, self.len_term(self.heap_get(s, x).segs)))
            elif isinstance(x, Ref) and isinstance(self.heap_get(s, x), DictO):
                o = self.heap_get(s, x)
                if o.base is None and not o.unk and all(not g for _, g in o.entries.values()):
                    out.append((s, Const(len(o.entries))))
                else:
                    out.append((s, unk("len(dict)", INT)))
            elif isinstance(x, Sym):
                if x.ty.kind in ("int", "float", "bool", "none"):
                    out.append((s, self.exc("TypeError", ("len",), where=self.where(fr, node))))
                else:
                    out.append((s, Sym("len", (x,), INT)))
            else:
                out.append((s, unk("len", INT)))
        return out

    def x_str(self, st, args, kw, node, fr):
        if not args:
            return [(st, EMPTY)]
        return self.to_str(st, args[0], node, fr)

    def x_str_maketrans(self, st, args, kw, node, fr):
        o = self.heap_get(st, args[0]) if len(args) == 1 and isinstance(args[0], Ref) else None
        tab = None
        if isinstance(o, DictO) and o.base is None and not o.unk:
            tab = []
            for k, (v, g) in o.entries.items():
                if g or not isinstance(k, Const) or not isinstance(v, Const):
                    tab = None
                    break
                key = chr(k.v) if isinstance(k.v, int) else k.v
                val = "" if v.v is None else chr(v.v) if isinstance(v.v, int) else v.v
                if not isinstance(key, str) or len(key) != 1:
                    return [(st, self.exc("ValueError", ("call", "maketrans"), where=self.where(fr, node)))]
                tab.append((key, val))
        elif len(args) in (2, 3) and all(isinstance(a, Const) and isinstance(a.v, str) for a in args):
            if len(args[0].v) != len(args[1].v):
                return [(st, self.exc("ValueError", ("call", "maketrans"), where=self.where(fr, node)))]
            tab = list(dict(list(zip(args[0].v, args[1].v)) + [(c, "") for a in args[2:] for c in a.v]).items())
        if tab is None:
            return [(st, unk("maketrans"))]
        return [(st, Sym("transtab", (tuple(tab),), DICT))]

    def x_repr(self, st, args, kw, node, fr):
        return self.to_str(st, args[0], node, fr, conv=114)

    def x_format(self, st, args, kw, node, fr):
        return self.to_str(st, args[0], node, fr, spec=args[1] if len(args) > 1 else None)

    def _num(self, st, args, node, fr, name, ty):
        out = []
        if not args:
            return [(st, Const(0))]
        for s, x in self.norm(st, args[0]):
            if isinstance(x, Sentinel):
                out.append((s, self.exc("TypeError", ("opt", getattr(x, "src", x)), where=self.where(fr, node))))
            elif isinstance(x, Const):
                try:
                    out.append((s, Const({"int": int, "float": float}[name](x.v))))
                except Exception as e:
                    out.append((s, self.exc(type(e).__name__, ("call", name), where=self.where(fr, node))))
            elif isinstance(x, Sym) and x.ty.kind == ty.kind:
                out.append((s, x))
            else:
                out.append((s, Sym(name, (x,), ty)))
                if not (isinstance(x, Sym) and x.ty.kind in ("int", "float", "bool")):
                    out.append((s, self.exc("ValueError", ("conv", name), where=self.where(fr, node))))
        return out

    def x_int(self, st, args, kw, node, fr):
        return self._num(st, args, node, fr, "int", INT)

    def x_float(self, st, args, kw, node, fr):
        return self._num(st, args, node, fr, "float", FLOAT)

    def x_bool(self, st, args, kw, node, fr):
        if not args:
            return [(st, FALSE)]
        return self._b(self.truth(st, args[0]))

    def x_range(self, st, args, kw, node, fr):
        if len(args) == 1 or (len(args) == 2 and args[0] == Const(0)):
            n = args[-1]
            out = []
            for s, x in self.norm(st, n):
                if isinstance(x, Const) and isinstance(x.v, int) and x.v <= 300:
                    s = s.copy()
                    out.append((s, self.alloc(s, ListO([("e", Const(i)) for i in range(x.v)]))))
                elif isinstance(x, Sentinel):
                    out.append((s, self.exc("TypeError", ("opt", getattr(x, "src", x)), where=self.where(fr, node))))
                else:
                    out.append((s, Sym("range", (x,), Ty("list", elem=INT))))
            return out
        if all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
            r = range(*[a.v for a in args])
            if len(r) <= 300:
                s = st.copy()
                return [(s, self.alloc(s, ListO([("e", Const(i)) for i in r])))]
        return [(st, Sym("range3", tuple(args), Ty("list", elem=INT)))]

    def _seg_map(self, g, fn):
        if g[0] == "e":
            return ("e", fn(g[1]))
        if g[0] == "rep":
            r = g[1]
            return ("rep", Rep(r.source, [Alt(a.guard, tuple(self._seg_map(x, fn) for x in a.segs), a.events, a.exit)
                                          for a in r.alts], r.partial, r.rev, r.why, r.id))
        if g[0] == "cond":
            return ("cond", g[1], tuple(self._seg_map(x, fn) for x in g[2]), tuple(self._seg_map(x, fn) for x in g[3]))
        return g

    def x_enumerate(self, st, args, kw, node, fr):
        start = args[1] if len(args) > 1 else kw.get("start", Const(0))
        out = []
        for s, x in self.norm(st, args[0]):
            for s2, segs in self.segments(s, x, node, fr):
                if isinstance(segs, Raised):
                    out.append((s2, segs))
                    continue
                for s3, st0 in self.norm(s2, start):
                    s3 = s3.copy()
                    if all(g[0] == "e" for g in segs) and isinstance(st0, Const):
                        res = [("e", TupV([Const(st0.v + i), g[1]])) for i, g in enumerate(segs)]
                    elif len(segs) == 1 and segs[0][0] == "rep":
                        r = segs[0][1]
                        one = not r.partial and not r.rev and len(r.alts) == 1 and len(r.alts[0].segs) == 1
                        idx = Sym("idx", (r.source,), INT) if one and isinstance(r.source, Sym) else unk("index", INT)
                        n = idx if st0 == Const(0) else Sym("bin", ("+", idx, st0), INT)
                        res = [self._seg_map(segs[0], lambda v: TupV([n, v]))]
                    else:
                        res = [self._seg_map(g, lambda v: TupV([unk("index", INT), v])) for g in segs]
                    out.append((s3, self.alloc(s3, ListO(res))))
        return out

    def counted(self, segs, other):
        """`segs` are the numbers n, n+1, … of range(n, n + len(other)): n, or None."""
        if len(segs) != 1 or not is_ident(segs[0]) or not isinstance(segs[0][1].source, Sym):
            return None
        src = segs[0][1].source
        if src.op == "range":
            return Const(0) if src.args[0] == self.len_term(other) else None
        if src.op != "range3" or len(src.args) == 3 and src.args[2] != Const(1):
            return None
        lo, hi = src.args[:2]
        n = self.len_term(other)
        if n is not None and hi in (Sym("bin", ("+", lo, n), INT), Sym("bin", ("+", n, lo), INT)):
            return lo
        return None

    def x_zip(self, st, args, kw, node, fr):
        curs = [(st, [])]
        for a in args:
            nxt = []
            for s, acc in curs:
                if isinstance(acc, Raised):
                    nxt.append((s, acc))
                    continue
                for s1, x in self.norm(s, a):
                    for s2, sg in self.segments(s1, x, node, fr):
                        nxt.append((s2, sg if isinstance(sg, Raised) else acc + [tuple(sg)]))
            curs = nxt
        out = []
        for s, ls in curs:
            if isinstance(ls, Raised):
                out.append((s, ls))
                continue
            s = s.copy()
            if all(all(g[0] == "e" for g in l) for l in ls):
                res = [("e", TupV([g[1] for g in t])) for t in zip(*ls)]
            elif all(len(l) == 1 and l[0][0] == "rep" and len(l[0][1].alts) == 1 and len(l[0][1].alts[0].segs) == 1
                     and l[0][1].alts[0].segs[0][0] == "e" and not l[0][1].partial for l in ls) and \
                    len({(l[0][1].source, l[0][1].rev) for l in ls}) == 1:
                r = ls[0][0][1]
                res = [("rep", Rep(r.source, [Alt(r.alts[0].guard, [("e", TupV([l[0][1].alts[0].segs[0][1]
                                                                                for l in ls]))])], False, r.rev))]
            elif len(ls) == 2 and self.zip_short(ls):
                # the other list has no item for some items of the source: the last ones are left out
                i = self.zip_short(ls) - 1
                r = ls[i][0][1]
                t = [None, None]
                t[i], t[1 - i] = r.alts[0].segs[0][1], unk("zip item")
                res = [("rep", Rep(r.source, [Alt(r.alts[0].guard, [("e", TupV(t))])], True, r.rev, "zip"))]
            elif len(ls) == 2 and any(self.counted(ls[i], ls[1 - i]) is not None for i in (0, 1)):
                # zip(xs, range(n, n + len(xs))) numbers the items as enumerate(xs, n) does
                i = 0 if self.counted(ls[0], ls[1]) is not None else 1
                st0 = self.counted(ls[i], ls[1 - i])
                for s2, num in self.x_enumerate(s, [self.alloc(s, ListO(ls[1 - i])), st0], {}, node, fr):
                    if i == 1 and not isinstance(num, Raised):
                        sg = self.heap_get(s2, num).segs
                        num = self.alloc(s2, ListO([self._seg_map(g, lambda v: TupV(v.items[::-1])) for g in sg]))
                    out.append((s2, num))
                continue
            else:
                z = opaque(LIST, "zip", *(Sym("listv", (tuple(l),), LIST) for l in ls))
                e = elem_of(z)
                res = [("rep", Rep(z, [Alt((), [("e", TupV([Sym("index", (e, Const(i)), self.common_ty(l))
                                                            for i, l in enumerate(ls)]))])], why="zip"))]
            out.append((s, self.alloc(s, ListO(res))))
        return out

    def common_ty(self, segs):
        """The type of all the items of a list, if they have one."""
        tys = set()
        for g in segs:
            if g[0] == "e":
                tys.add(self.ty_of(g[1]))
            elif g[0] == "rep":
                tys |= {self.common_ty(a.segs) for a in g[1].alts if a.segs}
            elif g[0] == "cond":
                tys |= {self.common_ty(x) for x in g[2:4] if x}
            else:
                tys.add(ANY)
        return next(iter(tys)) if len(tys) == 1 else ANY

    def zip_short(self, ls):
        """1 + the index of the list with one item for every item of the source, when the other has none for some; or 0."""
        for i in (0, 1):
            a, b = ls[i], ls[1 - i]
            if len(a) == len(b) == 1 and a[0][0] == b[0][0] == "rep" and a[0][1].source == b[0][1].source and \
                    not a[0][1].partial and len(a[0][1].alts) == 1 and len(a[0][1].alts[0].segs) == 1 and \
                    a[0][1].alts[0].segs[0][0] == "e" and not b[0][1].partial and not a[0][1].rev and not b[0][1].rev and \
                    all(len(x.segs) <= 1 and all(g[0] == "e" for g in x.segs) for x in b[0][1].alts) and \
                    any(not x.segs for x in b[0][1].alts):
                return i + 1
        return 0

    def x_map(self, st, args, kw, node, fr):
        f = args[0]
        if len(args) != 2:
            return [(st, unk("map", LIST))]

        return self._comp_like(st, args[1], lambda s, v: self.call(s, f, [v], {}, node, fr), None, node, fr)

    def x_filter(self, st, args, kw, node, fr):
        f = args[0]

        def cond(s, v):
            if f == NONE_V:
                return [(s2, b) for s2, b in self.truth(s, v)]
            out = []
            for s2, r in self.call(s, f, [v], {}, node, fr):
                out += [(s2, r)] if isinstance(r, Raised) else self.truth(s2, r)
            return out
        return self._comp_like(st, args[1], lambda s, v: [(s, v)], cond, node, fr)

    def _comp_like(self, st, it, fn, cond, node, fr):
        st = st.copy()
        acc = self.alloc(st, ListO())

        def body(s, item):
            res = []
            tests = cond(s, item) if cond else [(s, True)]
            for s1, b in tests:
                if isinstance(b, Raised):
                    res.append((s1, ("raise", b.exc)))
                    continue
                if not b:
                    res.append((s1, NORMAL))
                    continue
                for s2, v in fn(s1, item):
                    if isinstance(v, Raised):
                        res.append((s2, ("raise", v.exc)))
                    else:
                        s2 = s2.copy()
                        self.list_append(s2, acc, v)
                        res.append((s2, NORMAL))
            return res
        return [(s, Raised(sig[1]) if sig[0] == "raise" else acc) for s, sig in self.iterate(st, it, body, node, fr)]

    def _to_list(self, st, args, node, fr, kind):
        if not args:
            s = st.copy()
            return [(s, self.alloc(s, ListO(kind=kind)))]
        out = []
        for s, x in self.norm(st, args[0]):
            if kind == "list" and self.unordered(s, x):
                s = s.copy().ev("setorder", "list", self.where(fr, node))
            for s2, segs in self.segments(s, x, node, fr):
                if isinstance(segs, Raised):
                    out.append((s2, segs))
                else:
                    s2 = s2.copy()
                    out.append((s2, self.alloc(s2, ListO(segs, kind))))
        return out

    def x_list(self, st, args, kw, node, fr):
        return self._to_list(st, args, node, fr, "list")

    def x_set(self, st, args, kw, node, fr):
        return self._to_list(st, args, node, fr, "set")

    x_frozenset = x_set

    def x_collections_deque(self, st, args, kw, node, fr):
        if kw or len(args) > 1:
            return [(st, unk("deque"))]
        return self._to_list(st, args, node, fr, "list")

    def x_io_StringIO(self, st, args, kw, node, fr):
        s = st.copy()
        if kw or len(args) > 1 or args and args[0] != EMPTY:
            return [(s, unk("StringIO"))]
        return [(s, self.alloc(s, ListO((), "strio")))]

    def x_print(self, st, args, kw, node, fr):
        f = kw.get("file")
        o = self.heap_get(st, f) if isinstance(f, Ref) else None
        sep, end = kw.get("sep", Const(" ")), kw.get("end", Const("\n"))
        if not isinstance(o, ListO) or o.kind != "strio" or not all(
                isinstance(x, Const) and isinstance(x.v, str) for x in (sep, end)) or any(
                self.not_str(a) or isinstance(a, Sentinel) for a in args):
            s = st.copy().ev("ext", "builtins.print", self.where(fr, node))
            if isinstance(o, ListO):
                s.heap[f.id] = ListO((("unk", "print"),), o.kind)
            return [(s, NONE_V)]
        s = st.copy()
        out = []
        for i, a in enumerate(args):
            out += ([sep] if i else []) + [a]
        s.heap[f.id] = ListO(o.segs + (("e", cat(out + [end])),), o.kind)
        return [(s, NONE_V)]

    def x_tuple(self, st, args, kw, node, fr):
        out = []
        for s, r in self._to_list(st, args, node, fr, "list"):
            o = self.heap_get(s, r) if isinstance(r, Ref) else None
            if o is not None and all(g[0] == "e" for g in o.segs):
                out.append((s, TupV([g[1] for g in o.segs])))
            else:
                out.append((s, r))
        return out

    def x_iter(self, st, args, kw, node, fr):
        if len(args) != 1:
            return [(st, unk("iter"))]
        out = []
        for s, x in self.norm(st, args[0]):
            if isinstance(x, Ref) and isinstance(self.heap_get(s, x), IterO):
                out.append((s, x))
                continue
            for s2, segs in self.segments(s, x, node, fr):
                if isinstance(segs, Raised):
                    out.append((s2, segs))
                else:
                    s2 = s2.copy()
                    out.append((s2, self.alloc(s2, IterO(segs))))
        return out

    def x_next(self, st, args, kw, node, fr):
        out = []
        for s, x in self.norm(st, args[0]):
            out += self.next_(s, x, args[1] if len(args) > 1 else None, node, fr)
        return out

    def next_(self, st, x, dflt, node, fr):
        o = self.heap_get(st, x) if isinstance(x, Ref) else None
        if not isinstance(o, (IterO, ListO)):
            return [(st, unk("next"))]
        if self.unordered(st, x):
            some = len(o.segs) > 1 or any(g[0] != "e" for g in o.segs)
            cond = any(g[0] not in ("e", "rep") or g[0] == "rep" and any(a.guard for a in g[1].alts) for g in o.segs)
            if some:
                st = st.copy().ev("setorder", "the first of some items, maybe," if cond else "next", self.where(fr, node))
        stop = self.exc("StopIteration", ("next",), where=self.where(fr, node)) if dflt is None else dflt
        if not o.segs:
            return [(st, stop)]
        g = o.segs[0]
        if g[0] == "unk":
            return [(st, unk("next"))]
        if g[0] == "count":
            s = st.copy()
            n, step = g[1], g[2]
            if isinstance(n, Const) and isinstance(step, Const):
                m = Const(n.v + step.v)
            elif isinstance(n, Sym) and n.op == "bin" and n.args[0] == "+" and isinstance(n.args[2], Const) and \
                    isinstance(step, Const):
                m = Sym("bin", ("+", n.args[1], Const(n.args[2].v + step.v)), INT)
            else:
                m = Sym("bin", ("+", n, step), INT)
            s.heap[x.id] = IterO((("count", m, step),), True)
            return [(s, n)]
        if g[0] == "e":
            s = st.copy()
            s.heap[x.id] = IterO(o.segs[1:], True) if isinstance(o, IterO) else ListO(o.segs[1:], o.kind)
            return [(s, g[1])]
        if g[0] == "rep" and is_ident(g) and isinstance(g[1].source, Sym):
            src = g[1].source
            out = []
            for s, b in self._truth(st, src):
                if b:
                    s = s.copy()
                    sl = self.mk_slice(src, Const(1), NONE_V, NONE_V)
                    segs = (ident_rep(sl, elem_of(sl)),) + o.segs[1:]
                    s.heap[x.id] = IterO(segs, True) if isinstance(o, IterO) else ListO(segs, o.kind)
                    out.append((s, Sym("index", (src, Const(0)), elem_ty(src))))
                elif len(o.segs) == 1:
                    out.append((s, stop))
                else:
                    s = s.copy()
                    s.heap[x.id] = IterO(o.segs[1:], True)
                    out += self.next_(s, x, dflt, node, fr)
            return out
        # first of a filtered sequence
        s = st.copy()
        s.heap[x.id] = IterO((("unk", "next"),), True)
        out = []
        for s2, b in self.segs_truth(s, o.segs):
            out.append((s2, Sym("first", (tuple(o.segs),)) if b else stop))
        return out

    def sort_key(self, st, key, segs, node, fr):
        """What the order is decided by: one event per kind of element."""
        if key is None or key == NONE_V:
            return
        xs = [g[1] for g in segs if g[0] == "e"][:3] + [x[1] for g in segs if g[0] == "rep" for a in g[1].alts
                                                         for x in a.segs if x[0] == "e"][:3]
        for x in xs:
            try:
                for s2, v in self.call(st.copy(), key, [x], {}, node, fr):
                    if not isinstance(v, Raised):
                        st.ev("sortkey", v, self.where(fr, node))
            except NotImplementedError:
                pass

    def x_sorted(self, st, args, kw, node, fr):
        out = []
        srcs = []
        for s, x in self.norm(st, args[0]) if args else []:
            dedup = self.unordered(s, x)
            if dedup and "key" in kw:
                s = s.copy().ev("setorder", "sorted with a key", self.where(fr, node))
            srcs += [(s2, r, dedup) for s2, r in self._to_list(s, [x], node, fr, "sorted")]
        for s, r, dedup in srcs:
            o = self.heap_get(s, r) if isinstance(r, Ref) else None
            if o is None:
                out.append((s, r))
                continue
            o = ListO(o.segs, "list")
            s = s.copy()
            s.heap[r.id] = o
            self.sort_key(s, kw.get("key"), o.segs, node, fr)
            vals = [g[1] for g in o.segs if g[0] == "e"]
            if len(vals) == len(o.segs) and not kw and all(isinstance(v, Const) for v in vals):
                try:
                    vals = sorted(vals, key=lambda c: c.v)
                    s = s.copy()
                    s.heap[r.id] = ListO([("e", v) for v in vals])
                    out.append((s, r))
                    continue
                except TypeError:
                    pass
            s = s.copy()
            t = Sym("sorted", (tuple(o.segs), "set" if dedup else "all", "key" if "key" in kw else ""), LIST)
            s.heap[r.id] = ListO([ident_rep(t, Sym("elem", (t,)))]) \
                if len(vals) != len(o.segs) else ListO([("unk", "sorted")])
            out.append((s, r))
        return out

    def x_reversed(self, st, args, kw, node, fr):
        out = []
        for s, r in self._to_list(st, args, node, fr, "list"):
            o = self.heap_get(s, r) if isinstance(r, Ref) else None
            if o is not None:
                s = s.copy()
                s.heap[r.id] = ListO(self.reverse_segs(o.segs), o.kind)
            out.append((s, r))
        return out

    def _anyall(self, st, args, node, fr, is_any):
        out = []
        for s, x in self.norm(st, args[0]):
            for s2, segs in self.segments(s, x, node, fr):
                if isinstance(segs, Raised):
                    out.append((s2, segs))
                    continue
                cur = [s2]
                for g in segs:
                    nxt = []
                    for s3 in cur:
                        if g[0] == "e":
                            for s4, b in self.truth(s3, g[1]):
                                (out.append((s4, Const(is_any))) if b == is_any else nxt.append(s4))
                        else:
                            for s4, b in self.decide(s3, ("any" if is_any else "all", (g,))):
                                (out.append((s4, Const(is_any))) if b == is_any else nxt.append(s4))
                    cur = nxt
                out += [(s3, Const(not is_any)) for s3 in cur]
        return out

    def x_any(self, st, args, kw, node, fr):
        return self._anyall(st, args, node, fr, True)

    def x_all(self, st, args, kw, node, fr):
        return self._anyall(st, args, node, fr, False)

    def x_sum(self, st, args, kw, node, fr):
        start = args[1] if len(args) > 1 else kw.get("start")
        o = self.heap_get(st, start) if isinstance(start, Ref) else None
        if isinstance(o, ListO):
            # a list of lists, flattened
            st = st.copy()
            return self.flattened(st, self.alloc(st, ListO(list(o.segs))), args[0], node, fr)
        out = []
        for s, x in self.norm(st, args[0]):
            for s2, segs in self.segments(s, x, node, fr):
                if isinstance(segs, Raised):
                    out.append((s2, segs))
                    continue
                out.append((s2, Sym("sum", (tuple(segs),), INT)))
        return out

    def _minmax(self, st, args, kw, node, fr, name):
        vals = args
        if len(args) == 1:
            out = []
            for s0, x in self.norm(st, args[0]):
                if isinstance(x, Sentinel):
                    out.append((s0, self.exc("TypeError", ("opt", getattr(x, "src", x)), where=self.where(fr, node))))
                    continue
                if is_unknown(x):
                    out.append((s0, unk(name, INT)))
                    continue
                for s1, segs in self.segments(s0, x, node, fr):
                    if isinstance(segs, Raised):
                        out.append((s1, segs))
                        continue
                    segs = tuple(segs)
                    if isinstance(x, Sym):
                        v = Sym(name, (x,), elem_ty(x))
                    else:
                        vs = [y for y in seg_values(segs) if isinstance(y, V)]
                        ints = any(isinstance(y, Const) and isinstance(y.v, int) or isinstance(y, Sym) and
                                   y.ty.kind == "int" for y in vs)
                        v = Sym(name, (Sym("listv", (segs,), LIST),), INT if ints else ANY)
                    if set(kw) - {"default"}:
                        v = unk(name, ANY)
                    for s2, some in self.segs_truth(s1, segs):
                        out.append((s2, v if some else kw["default"] if "default" in kw else
                                    self.exc("ValueError", (name, "of nothing"), where=self.where(fr, node))))
            return out
        curs = [(st, [])]
        for a in vals:
            curs = [(s2, l + [x]) for s, l in curs for s2, x in self.norm(s, a)]
        out = []
        for s, l in curs:
            if any(isinstance(x, Sentinel) for x in l):
                sx = next(x for x in l if isinstance(x, Sentinel))
                out.append((s, self.exc("TypeError", ("opt", getattr(sx, "src", sx)), where=self.where(fr, node))))
            elif all(isinstance(x, Const) for x in l) and "key" not in kw:
                try:
                    out.append((s, Const((min if name == "min" else max)(x.v for x in l))))
                except TypeError:
                    out.append((s, self.exc("TypeError", (name,), where=self.where(fr, node))))
            else:
                t = Sym(name, tuple(l), INT)
                lo = [self.rng(s, x)[0] for x in l]
                hi = [self.rng(s, x)[1] for x in l]
                s = s.copy()
                if name == "max":
                    k = [x for x in lo if x is not None]
                    s.rng[t] = (max(k) if k else None, max(hi) if None not in hi else None)
                else:
                    k = [x for x in hi if x is not None]
                    s.rng[t] = (min(lo) if None not in lo else None, min(k) if k else None)
                # max(c, x) where x >= c is x
                for i, x in enumerate(l):
                    others = [y for j, y in enumerate(l) if j != i]
                    r = self.rng(s, x)
                    if name == "max" and all(isinstance(y, Const) and r[0] is not None and r[0] >= y.v
                                             for y in others):
                        t = x
                    if name == "min" and all(isinstance(y, Const) and r[1] is not None and r[1] <= y.v
                                             for y in others):
                        t = x
                out.append((s, t))
        return out

    def x_min(self, st, args, kw, node, fr):
        return self._minmax(st, args, kw, node, fr, "min")

    def x_max(self, st, args, kw, node, fr):
        return self._minmax(st, args, kw, node, fr, "max")

    def x_divmod(self, st, args, kw, node, fr):
        out = []
        for s, q in self.binop(st, ast.FloorDiv(), args[0], args[1], node, fr):
            if isinstance(q, Raised):
                out.append((s, q))
                continue
            for s2, r in self.binop(s, ast.Mod(), args[0], args[1], node, fr):
                out.append((s2, r if isinstance(r, Raised) else TupV([q, r])))
        return out

    def x_abs(self, st, args, kw, node, fr):
        if isinstance(args[0], Const):
            return [(st, Const(abs(args[0].v)))]
        num = isinstance(args[0], Sym) and args[0].ty.kind in ("int", "float", "bool")
        return [(st, Sym("abs", (args[0],), args[0].ty if num else ANY))]

    def x_dict(self, st, args, kw, node, fr):
        s = st.copy()
        r = self.alloc(s, DictO())
        if "**" in kw:
            kw = dict(kw)
            args = list(args) + [kw.pop("**")]
        return [(s2, v if isinstance(v, Raised) else r)
                for s2, v in self.dict_update(s, r, args, kw, node, fr)]

    x_collections_OrderedDict = x_dict

    def x_collections_defaultdict(self, st, args, kw, node, fr):
        s = st.copy()
        return [(s, self.alloc(s, DictO(unk=True)))]

    def x_getattr(self, st, args, kw, node, fr):
        out = []
        if not isinstance(args[1], Const):
            if isinstance(args[1], Sym) and args[1].ty.kind == "str":
                return [(st, Sym("dynattr", tuple(args[:2])))]
            return [(st, unk("getattr"))]
        for s, v in self.getattr(st, args[0], args[1].v, node, fr):
            if isinstance(v, Raised) and len(args) > 2 and "AttributeError" in v.exc.names:
                out.append((s, args[2]))
            elif isinstance(v, MethV) and len(args) > 2 and self.lacks(v):
                out.append((s, args[2]))
            else:
                out.append((s, v))
        return out

    def lacks(self, m):
        """Does the receiver of a MethV certainly lack the attribute?"""
        r = m.recv
        if isinstance(r, Const):
            return not hasattr(r.v, m.name)
        if isinstance(r, Ref) or isinstance(r, TupV):
            return not any(hasattr(t, m.name) for t in (list, dict, set, tuple))
        if isinstance(r, Sym):
            k = r.ty.kind
            if k in PYTYPES:
                return not hasattr(PYTYPES[k], m.name)
            if r.op in ("get", "json", "copyof", "asdict", "todict", "alias"):
                return not any(hasattr(t, m.name) for t in PYTYPES.values())
        return False

    def x_hasattr(self, st, args, kw, node, fr):
        if not isinstance(args[1], Const):
            return [(st, unk("hasattr", BOOL))]
        out = []
        for s, x in self.norm(st, args[0]):
            if isinstance(x, Ext) or (isinstance(x, Sym) and x.op == "alias"):
                has = args[1].v not in ("from_dict", "to_dict", "to_markdown")
                out.append((s, Const(has)) if not has else (s, unk("hasattr", BOOL)))
                continue
            for s2, v in self._getattr(s, x, args[1].v, node, fr):
                if isinstance(v, Raised):
                    out.append((s2, FALSE))
                elif isinstance(v, MethV):
                    if self.lacks(v):
                        out.append((s2, FALSE))
                    elif isinstance(v.recv, Sym) and v.recv.ty.kind == "any":
                        out += self._b(self.decide(s2, ("hasattr", v.recv, args[1].v)))
                    else:
                        out.append((s2, TRUE))
                else:
                    out.append((s2, TRUE))
        return out

    def x_setattr(self, st, args, kw, node, fr):
        if isinstance(args[1], Const):
            return self.setattr(st, args[0], args[1].v, args[2], node, fr)
        return [(st.copy().ev("mutate", args[0], "?", self.where(fr, node)), NONE_V)]

    def x_object___setattr__(self, st, args, kw, node, fr):
        return self.call_native(st, FuncV(None, "", "object.__setattr__", (),
                                          native=("extmeth", "object", "__setattr__", args[0])), args[1:], kw, node, fr)

    def x_object___new__(self, st, args, kw, node, fr):
        ci = args[0].info if args and isinstance(args[0], ClassV) else None
        if ci is None or ci.is_enum or self.is_exc_class(ci) or self.ntup_names(ci) is not None or len(args) > 1 or kw:
            self.note_unknown(fr, node, "__new__")
            return [(st, unk("__new__"))]
        # no field is set yet: reading one gives the default, which is a class attribute
        s = st.copy()
        flds = {f.name: f.default for f in ci.fields.values() if isinstance(f.default, V)} \
            if ci.dc is not None and isinstance(ci.fields, dict) else {}
        return [(s, self.alloc(s, InstO(ci, flds)))]

    def x_delattr(self, st, args, kw, node, fr):
        return [(st.copy().ev("mutate", args[0], "?", self.where(fr, node)), NONE_V)]

    def x_callable(self, st, args, kw, node, fr):
        out = []
        for s, x in self.norm(st, args[0]):
            if isinstance(x, (FuncV, BoundV, MethV, ClassV, Ext, PartialV)):
                out.append((s, TRUE))
            elif isinstance(x, (Const, TupV, Sentinel, EnumM)):
                out.append((s, FALSE))
            else:
                out += self._b(self.decide(s, ("callable", x)))
        return out

    def x_type(self, st, args, kw, node, fr):
        if len(args) != 1:
            return [(st, unk("type()"))]
        out = []
        for s, x in self.norm(st, args[0]):
            if isinstance(x, Sentinel):
                out.append((s, Sym("typeof_opt", (x.name,))))
            elif isinstance(x, Const):
                out.append((s, Ext("builtins." + type(x.v).__name__)))
            elif isinstance(x, Ref) and isinstance(self.heap_get(s, x), InstO):
                out.append((s, ClassV(self.heap_get(s, x).cls)))
            elif isinstance(x, Ref):
                out.append((s, Ext("builtins." + ("list" if isinstance(self.heap_get(s, x), ListO) else "dict"))))
            elif isinstance(x, Sym) and x.ty.kind == "inst":
                cl = self.classes_of(s, x)
                if cl and len(cl) == 1:
                    out.append((s, ClassV(self.classes[next(iter(cl))])))
                else:
                    out.append((s, Sym("cls", (x,))))
            elif isinstance(x, Sym) and x.ty.kind in PYTYPES and x.ty.kind != "none":
                out.append((s, Ext("builtins." + x.ty.kind)))
            elif isinstance(x, EnumM):
                out.append((s, ClassV(x.cls)))
            else:
                out.append((s, Sym("typeobj", (x,))))
        return out

    def x_super(self, st, args, kw, node, fr):
        if len(args) == 2 and isinstance(args[0], ClassV):
            return [(st, SuperV(args[0].info, args[1]))]
        return [(st, unk("super"))]

    def x_chr(self, st, args, kw, node, fr):
        if isinstance(args[0], Const):
            return [(st, Const(chr(args[0].v)))]
        return [(st, Sym("chr", tuple(args), STR))]

    def x_ord(self, st, args, kw, node, fr):
        if isinstance(args[0], Const):
            return [(st, Const(ord(args[0].v)))]
        return [(st, Sym("ord", tuple(args), INT))]

    def x_vars(self, st, args, kw, node, fr):
        if args:
            return self.getattr(st, args[0], "__dict__", node, fr)
        return [(st, unk("vars"))]

    def x_property(self, st, args, kw, node, fr):
        return [(st, PropV(args[0]))]

    def x_slice(self, st, args, kw, node, fr):
        return [(st, unk("slice"))]

    # -- copy
    def deepcopy(self, st, v, deep=True):
        if isinstance(v, (Const, Sentinel, ClassV, EnumM, Ext, FuncV)):
            return st, v
        if isinstance(v, Sym):
            if v.ty.kind in ("str", "int", "float", "bool", "none"):
                return st, v
            if v.ty.kind == "dict" or v.op == "json":
                s = st.copy()
                if deep:
                    return s, self.alloc(s, DictO({}, strip_copy(v), deep=True))
                return s, self.alloc(s, DictO({}, v))
            if v.ty.kind == "list" and not deep:
                s = st.copy()
                return s, self.alloc(s, ListO([ident_rep(v, elem_of(v))]))
            return st, Sym("copyof", (strip_copy(v),), v.ty)
        if isinstance(v, TupV):
            items = []
            for i in v.items:
                st, w = self.deepcopy(st, i) if deep else (st, i)
                items.append(w)
            return st, TupV(items)
        if isinstance(v, Ref):
            o = self.heap_get(st, v)
            s = st.copy()
            if isinstance(o, DictO):
                ent = {}
                for k, (x, g) in o.entries.items():
                    if deep:
                        s, x = self.deepcopy(s, x)
                    ent[k] = (x, g)
                return s, self.alloc(s, DictO(ent, o.base, o.deleted, "fresh", o.unk, o.deep or deep))
            if isinstance(o, ListO):
                segs = o.segs
                if deep:
                    segs = tuple(self._seg_map(g, lambda x: Sym("copyof", (strip_copy(x),), x.ty)
                                               if isinstance(x, Sym) and x.ty.kind not in ("str", "int", "bool",
                                                                                           "float") else x)
                                 for g in segs)
                return s, self.alloc(s, ListO(segs, o.kind))
            if isinstance(o, InstO):
                flds = {}
                for k, x in o.fields.items():
                    if deep:
                        s, x = self.deepcopy(s, x)
                    flds[k] = x
                return s, self.alloc(s, InstO(o.cls, flds, o.frozen))
        return st, unk("copy")

    def x_copy_deepcopy(self, st, args, kw, node, fr):
        return [self.deepcopy(s, x) for s, x in self.norm(st, args[0])]

    def x_copy_copy(self, st, args, kw, node, fr):
        return [self.deepcopy(s, x, False) for s, x in self.norm(st, args[0])]

    # -- dataclasses
    def x_dataclasses_fields(self, st, args, kw, node, fr):
        out = []
        for s, x in self.norm(st, args[0]):
            ci = None
            if isinstance(x, ClassV):
                ci = x.info
            elif isinstance(x, Ref) and isinstance(self.heap_get(s, x), InstO):
                ci = self.heap_get(s, x).cls
            elif isinstance(x, Sym):
                cl = self.classes_of(s, x)
                if cl and len(cl) == 1:
                    ci = self.classes[next(iter(cl))]
            if ci is None:
                out.append((s, unk("fields", LIST)))
                continue
            flds = ci.fields
            if ci.dc is None:
                b = next((c for c in ci.mro if isinstance(c, ClassInfo) and c.dc is not None), None)
                flds = b.fields if b else {}
            out.append((s, TupV(list(flds.values()))))
        return out

    def x_dataclasses_asdict(self, st, args, kw, node, fr):
        return self.asdict(st, args[0], kw.get("dict_factory"), node, fr)

    def x_dataclasses_replace(self, st, args, kw, node, fr):
        out = []
        for s, x in self.norm(st, args[0]):
            if isinstance(x, Ref) and isinstance(self.heap_get(s, x), InstO):
                o = self.heap_get(s, x)
                s = s.copy()
                out.append((s, self.alloc(s, InstO(o.cls, {**o.fields, **kw}, o.frozen))))
            else:
                out.append((s, Sym("replaced", (x, tuple(sorted(kw.items(), key=lambda t: t[0]))),
                                   x.ty if isinstance(x, Sym) else ANY)))
        return out

    def x_dataclasses_field(self, st, args, kw, node, fr):
        return [(st, Sym("fieldspec", (tuple(kw.items()),)))]

    def x_dataclasses_dataclass(self, st, args, kw, node, fr):
        if args and isinstance(args[0], ClassV):
            self.make_dataclass(args[0].info, kw)
            return [(st, args[0])]
        return [(st, Sym("dataclass_deco", (tuple(kw.items()),)))]

    def x_dataclasses_is_dataclass(self, st, args, kw, node, fr):
        out = []
        for s, x in self.norm(st, args[0]):
            if isinstance(x, ClassV):
                out.append((s, Const(any(isinstance(c, ClassInfo) and c.dc is not None for c in x.info.mro))))
            elif isinstance(x, Ref):
                o = self.heap_get(s, x)
                out.append((s, Const(isinstance(o, InstO) and any(
                    isinstance(c, ClassInfo) and c.dc is not None for c in o.cls.mro))))
            elif isinstance(x, Sym) and x.ty.kind == "inst":
                out.append((s, TRUE))
            elif isinstance(x, Sym) and x.ty.kind in PYTYPES or isinstance(x, (Const, Sentinel, Ext)):
                out.append((s, FALSE))
            else:
                out += self._b(self.decide(s, ("isdataclass", x)))
        return out

    # -- func_args
    def x_func_args_remove_optional(self, st, args, kw, node, fr):
        from .interp import GuardedV as GV
        if set(kw) == {"**"}:
            return self.remove_optional(st, kw["**"], node, fr)
        s = st.copy()
        d = self.alloc(s, DictO({Const(k): ((v.v, v.guard) if isinstance(v, GV) else (v, ())) for k, v in kw.items()
                                 if k != "**"}, unk="**" in kw))
        return self.remove_optional(s, d, node, fr)

    def x_func_args_check_required(self, st, args, kw, node, fr):
        from .interp import GuardedV as GV
        curs, out = [st], []
        for k, v in kw.items():
            nxt = []
            for s in curs:
                for s2, isreq, _ in self.req_split(s, v.v if isinstance(v, GV) else v):
                    if isreq:
                        out.append((s2, Raised(ExcV(("ParamError", "Exception", "BaseException"), (Const(k),),
                                                    ("param", "?", k), self.where(fr, node)))))
                    else:
                        nxt.append(s2)
            curs = nxt
        return [(s, NONE_V) for s in curs] + out

    def x_func_args_prepare_kwargs(self, st, args, kw, node, fr):
        out = []
        for s, v in self.x_func_args_check_required(st, args, kw, node, fr):
            out += [(s, v)] if isinstance(v, Raised) else self.x_func_args_remove_optional(s, args, kw, node, fr)
        return out

    # -- text
    def x_textwrap_indent(self, st, args, kw, node, fr):
        names = ["text", "prefix", "predicate"]
        d = dict(zip(names, args))
        d.update(kw)
        out = []
        for s, t in self.norm(st, d.get("text", EMPTY)):
            for s2, p in self.norm(s, d.get("prefix", EMPTY)):
                bad = self.str_args_check(s2, [t, p], node, fr)
                if bad:
                    out.append((s2, bad))
                    continue
                out.append((s2, Sym("indent", (t, p, self.pred_kind(s2, d.get("predicate"), node, fr, p)), STR)))
        return out

    def pred_kind(self, st, f, node, fr, d0=None):
        if f is None or f == NONE_V:
            return "nonblank"
        line = Sym("line", (), STR)
        vals, some = set(), False
        for s, r in self.call(st.copy(), f, [line], {}, node, fr):
            if isinstance(r, Raised):
                return "?"
            for s2, b in self.truth(s, r):
                vals.add((b, s2.facts.get(("blank", line)), s2.facts.get(("truthy", line))))
                new = {k: x for k, x in s2.facts.items() if k not in st.facts}
                if not b and new and s2.facts.get(("truthy", line)) is not False and not any(
                        k[0] in ("eq", "eqc") and x and EMPTY in k for k, x in new.items()) and all(
                        k[0] in ("strpred", "contains", "blank", "truthy", "eqc", "eq") and not any(
                            is_unknown(q) for t in k[1:] if isinstance(t, V) for q in subterms(t)) for k in new) and \
                        not any(k[:3] == ("strpred", "startswith", line) and x and isinstance(k[3][0], Const) and
                                isinstance(d0, Const) and str(k[3][0].v).startswith(str(d0.v).strip() or "?")
                                for k, x in new.items()):
                    some = True
        if vals and all(b for b, _, _ in vals):
            return "all"
        if vals and not any(b for b, _, _ in vals):
            return "none"
        if vals and all((b and bl is False) or (not b and bl is True) for b, bl, _ in vals):
            return "nonblank"
        # textwrap passes lines with their line break, hence never empty
        if vals and all((b and t is not False) or (not b and t is False) for b, _, t in vals):
            return "all"
        return "some" if some else "?"

    def x_textwrap_dedent(self, st, args, kw, node, fr):
        return [(st, Sym("dedent", (args[0],), STR))]

    def x_re_sub(self, st, args, kw, node, fr):
        names = ["pattern", "repl", "string", "count", "flags"]
        d = dict(zip(names, args))
        d.update(kw)
        pat, repl, count = d.get("pattern"), d.get("repl"), d.get("count", Const(0))
        flags = regex.flag_value(d.get("flags"))
        if isinstance(pat, Sym) and pat.op == "ext" and pat.args[0] == "re.compile" and "flags" not in d:
            d2 = dict(zip(("pattern", "flags"), pat.args[1]))
            d2.update(dict(pat.args[2]))
            pat, flags = d2.get("pattern"), regex.flag_value(d2.get("flags"))
        out = []
        for s, t in self.norm(st, d.get("string", EMPTY)):
            bad = self.str_args_check(s, [t], node, fr)
            if bad:
                out.append((s, bad))
                continue
            p = pat.v if isinstance(pat, Const) and isinstance(pat.v, str) else None
            if p is None or flags is None or count != Const(0):
                out.append((s, Sym("resub", (pat, repl, t, count, Const(flags)), STR)))
                continue
            fn_paths = []
            if not isinstance(repl, Const) and not (isinstance(repl, Sym) and repl.ty.kind == "str"):
                # a function: what it returns for a match
                m = Sym("match", (pat,))
                res = []
                for s2, r in self.call(s.copy(), repl, [m], {}, node, fr):
                    if isinstance(r, Raised):
                        fn_paths.append((s, r))
                    else:
                        res.append(self.deepval(s2, r))
                if not fn_paths and len(set(res)) == 1 and isinstance(res[0], Const) and isinstance(res[0].v, str):
                    repl = Const(res[0].v.replace("\\", "\\\\"))
                else:
                    fn_paths.append((s, Sym("resub", (pat, Sym("replfn", (tuple(res),)), t, count, Const(flags)), STR)))
            if isinstance(repl, Const) and isinstance(repl.v, str):
                tpl = regex.template(repl.v, p, flags)
                lit = "".join(tpl) if tpl is not None and all(isinstance(x, str) for x in tpl) else None
                whole = regex.literal(p, flags)
                if lit is None and tpl is not None and whole is not None:
                    lit = "".join(whole if x == 0 else x for x in tpl) if all(x == 0 or isinstance(x, str) for x in tpl) \
                        else None
                if lit is not None and whole is not None:
                    out += self.str_method(s, t, "replace", [Const(whole), Const(lit)], {}, node, fr)
                    continue
                r = regex.run(p, flags)
                if lit is not None and r and r[1] >= 2 and lit == r[0] * (r[1] - 1):
                    x = self.mk_fix(t, Const(r[0] * r[1]), Const(lit))
                    s = s.copy()
                    s.facts[("contains", x, Const(r[0] * r[1]))] = False
                    out.append((s, x))
                    continue
                out.append((s, Sym("resub", (pat, repl, t, count, Const(flags)), STR)))
                continue
            if isinstance(repl, Sym) and repl.ty.kind == "str":
                out.append((s, Sym("resub", (pat, repl, t, count, Const(flags)), STR)))
                continue
            out += fn_paths
        return out

    def x_dict_fromkeys(self, st, args, kw, node, fr):
        out = []
        val = args[1] if len(args) > 1 else NONE_V
        for s0, x in self.norm(st, args[0]):
            for s, segs in self.segments(s0, x, node, fr):
                if isinstance(segs, Raised):
                    out.append((s, segs))
                    continue
                s = s.copy()
                if all(g[0] == "e" and isinstance(g[1], (Const, EnumM, ClassV)) for g in segs):
                    d = DictO({g[1]: (val, ()) for g in segs})
                elif len(segs) == 1 and segs[0][0] == "rep" and isinstance(segs[0][1].source, Sym) and all(
                        len(a.segs) <= 1 and all(g[0] == "e" and isinstance(g[1], Sym) and
                                                 mentions(g[1], elem_of(segs[0][1].source)) for g in a.segs)
                        for a in segs[0][1].alts):
                    # equal items are kept once: a selection of the elements
                    r = segs[0][1]
                    some = Sym("set", (r.source,), r.source.ty)
                    m = {elem_of(r.source): elem_of(some)}
                    d = DictO({}, None, frozenset(), None, unk=("pairs", Rep(some, [Alt(subst(a.guard, m), tuple(
                        ("e", TupV([subst(g[1], m), val])) for g in a.segs), a.events, a.exit) for a in r.alts],
                        r.partial, r.rev, r.why)))
                else:
                    d = DictO({}, None, frozenset(), None, unk=True)
                out.append((s, self.alloc(s, d)))
        return out

    def x_re_compile(self, st, args, kw, node, fr):
        return [(st, Sym("ext", ("re.compile", tuple(args), tuple(kw.items()))))]

    # -- functools / itertools / contextlib / typing / enum
    def x_functools_partial(self, st, args, kw, node, fr):
        return [(st, PartialV(args[0], args[1:], kw))]

    def x_functools_reduce(self, st, args, kw, node, fr):
        f, it = args[0], args[1]
        init = args[2] if len(args) > 2 else None
        if init is None:
            return [(st, unk("reduce"))]
        key = (("reduce", next(self.counter)), "acc")
        st = st.copy()
        st.env[key] = init

        def body(s, item):
            res = []
            for s2, v in self.call(s, f, [self.env_get(s, key), item], {}, node, fr):
                if isinstance(v, Raised):
                    res.append((s2, ("raise", v.exc)))
                else:
                    s2 = s2.copy()
                    s2.env[key] = v
                    res.append((s2, NORMAL))
            return res
        out = []
        for s, sig in self.iterate(st, it, body, node, fr):
            out.append((s, Raised(sig[1]) if sig[0] == "raise" else self.env_get(s, key)))
        return out

    def x_functools_wraps(self, st, args, kw, node, fr):
        return [(st, Sym("wraps", ()))]

    def x_functools_lru_cache(self, st, args, kw, node, fr):
        if args and isinstance(args[0], FuncV):
            return [(st, args[0])]
        return [(st, Sym("lru_cache", ()))]

    x_functools_cache = x_functools_lru_cache

    def x_itertools_chain(self, st, args, kw, node, fr):
        curs = [(st, [])]
        for a in args:
            nxt = []
            for s, acc in curs:
                if isinstance(acc, Raised):
                    nxt.append((s, acc))
                    continue
                for s1, x in self.norm(s, a):
                    for s2, sg in self.segments(s1, x, node, fr):
                        nxt.append((s2, sg if isinstance(sg, Raised) else acc + list(sg)))
            curs = nxt
        out = []
        for s, acc in curs:
            if isinstance(acc, Raised):
                out.append((s, acc))
            else:
                s = s.copy()
                out.append((s, self.alloc(s, ListO(acc))))
        return out

    def x_itertools_chain_from_iterable(self, st, args, kw, node, fr):
        st = st.copy()
        return self.flattened(st, self.alloc(st, ListO()), args[0], node, fr)

    def flattened(self, st, acc, it, node, fr):

        def body(s, item):
            return [(s2, ("raise", v.exc) if isinstance(v, Raised) else NORMAL)
                    for s2, v in self.list_extend(s, acc, item, node, fr)]

        return [(s, Raised(sig[1]) if sig[0] == "raise" else acc)
                for s, sig in self.iterate(st, it, body, node, fr)]

    def x_itertools_count(self, st, args, kw, node, fr):
        start = args[0] if args else kw.get("start", Const(0))
        step = args[1] if len(args) > 1 else kw.get("step", Const(1))
        out = []
        for s, n in self.norm(st, start):
            s = s.copy()
            if isinstance(n, (Const, Sym)) and isinstance(step, Const) and isinstance(step.v, int):
                out.append((s, self.alloc(s, IterO((("count", n, step),)))))
            else:
                out.append((s, self.alloc(s, IterO((("unk", "count"),)))))
        return out

    def x_contextlib_suppress(self, st, args, kw, node, fr):
        return [(st, Sym("suppress", (tuple(args),)))]

    def x_contextlib_nullcontext(self, st, args, kw, node, fr):
        return [(st, Sym("nullcontext", tuple(args)))]

    def x_typing_cast(self, st, args, kw, node, fr):
        return [(st, args[1])]

    def x_typing_TypeVar(self, st, args, kw, node, fr):
        return [(st, Sym("alias", ("TypeVar",)))]

    def x_typing_get_type_hints(self, st, args, kw, node, fr):
        s = st.copy()
        if args and isinstance(args[0], ClassV):
            ent = {}
            for c in reversed(args[0].info.mro):
                if isinstance(c, ClassInfo):
                    for n, v in c.ann_rt.items():
                        ent[Const(n)] = (v, ())
            # names only importable for type checking raise NameError
            return [(s, self.alloc(s, DictO(ent)))]
        return [(st, unk("get_type_hints"))]

    def x_enum_auto(self, st, args, kw, node, fr):
        return [(st, unk("enum.auto"))]

    def x_logging_getLogger(self, st, args, kw, node, fr):
        return [(st, Sym("ext", ("logging.getLogger", tuple(args), ())))]

    def x_warnings_warn(self, st, args, kw, node, fr):
        return [(st.copy().ev("log", "warnings.warn", tuple(args), self.where(fr, node)), NONE_V)]

    def x_operator_attrgetter(self, st, args, kw, node, fr):
        if len(args) == 1 and isinstance(args[0], Const) and isinstance(args[0].v, str):
            return [(st, PartialV(Ext("$attrget"), (args[0],), {}))]
        return [(st, unk("attrgetter"))]

    def x_operator_methodcaller(self, st, args, kw, node, fr):
        if args and isinstance(args[0], Const) and isinstance(args[0].v, str):
            return [(st, PartialV(Ext("$methcall"), (TupV(args), ), dict(kw)))]
        return [(st, unk("methodcaller"))]

    def x_operator_itemgetter(self, st, args, kw, node, fr):
        if len(args) == 1:
            return [(st, PartialV(Ext("$itemget"), (args[0],), {}))]
        return [(st, unk("itemgetter"))]

    def operator_obj(self, st, kind, args, kw, node, fr):
        spec, obj = args[0], args[1]
        if kind == "$itemget":
            return self.getitem(st, obj, spec, node, fr)
        names = (spec.items[0] if kind == "$methcall" else spec).v.split(".") if kind == "$attrget" else [spec.items[0].v]
        curs = [(st, obj)]
        for n in names:
            nxt = []
            for s, v in curs:
                nxt += [(s, v)] if isinstance(v, Raised) else self.getattr(s, v, n, node, fr)
            curs = nxt
        if kind == "$attrget":
            return curs
        out = []
        for s, m in curs:
            out += [(s, m)] if isinstance(m, Raised) else self.call(s, m, list(spec.items[1:]), kw, node, fr)
        return out


def StarV_():
    from .interp import StarV
    return StarV


class GuardedV:  # replaced at import time by interp.GuardedV
    pass
