"""Refuting an undecided obligation with a constant.

The rules read an extracted summary (a term over the fields and children of an element) as it is.  When a summary is
of a form they have no rule for, the obligation would stay undecided although the summary says everything.  Here the
summary is *folded* for a few constant elements: the fields and the children's texts are replaced by constants and the
term is simplified by the laws of the str/list operations in it.  The result is used in one direction only: if every
abstract path that the constants do not contradict ends in a text that breaks the obligation, it is broken.  A term
with anything in it that has no such law (an unknown, a state of a loop that was not followed) gives no answer.
"""
from __future__ import annotations

import datetime as _dt
import html as _html
import itertools
import json as _json
import math
import os as _os
import re
import textwrap
import urllib.parse as _up

from .dom import *  # noqa
from .terms import *  # noqa

ABSENT = type("Absent", (), {"__repr__": lambda s: "OPT"})()

PURE_STR = {"strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition", "splitlines", "replace", "upper",
            "lower", "title", "capitalize", "casefold", "swapcase", "zfill", "center", "ljust", "rjust", "expandtabs",
            "removeprefix", "removesuffix", "startswith", "endswith", "find", "rfind", "index", "rindex", "count",
            "isdigit", "isspace", "isalpha", "isalnum", "isupper", "islower", "isnumeric", "isdecimal", "isidentifier",
            "isascii", "istitle", "isprintable", "translate", "encode", "join"}
PURE_DATE = {"isoformat", "strftime", "date", "timestamp", "toordinal", "astimezone", "replace", "timetuple", "weekday",
             "utctimetuple", "total_seconds", "utcoffset"}
PURE_EXT = {
    "html.escape": _html.escape, "html.unescape": _html.unescape, "re.escape": re.escape, "math.floor": math.floor,
    "math.ceil": math.ceil, "math.trunc": math.trunc, "textwrap.dedent": textwrap.dedent,
    "textwrap.shorten": textwrap.shorten, "textwrap.fill": textwrap.fill, "textwrap.wrap": textwrap.wrap,
    "urllib.parse.quote": _up.quote, "urllib.parse.unquote": _up.unquote, "urllib.parse.quote_plus": _up.quote_plus,
    "urllib.parse.unquote_plus": _up.unquote_plus, "urllib.parse.urldefrag": _up.urldefrag,
    "urllib.parse.urljoin": _up.urljoin,
    "builtins.round": round, "builtins.abs": abs, "builtins.min": min, "builtins.max": max, "builtins.len": len,
    "builtins.int": int, "builtins.str": str, "builtins.float": float, "builtins.bool": bool, "builtins.divmod": divmod,
    "builtins.ord": ord, "builtins.chr": chr, "builtins.repr": repr, "builtins.ascii": ascii,
    "datetime.timedelta": _dt.timedelta, "datetime.datetime": _dt.datetime, "datetime.date": _dt.date,
    "datetime.date.fromordinal": _dt.date.fromordinal, "datetime.datetime.fromordinal": _dt.datetime.fromordinal,
    "datetime.timezone": _dt.timezone, "datetime.datetime.utcfromtimestamp": None, "datetime.datetime.fromtimestamp": None,
    "os.path.basename": _os.path.basename, "posixpath.basename": _os.path.basename,
    "os.path.splitext": _os.path.splitext,
}
try:
    import unicodedata as _ud
    PURE_EXT["unicodedata.normalize"] = _ud.normalize
except ImportError:     # pragma: no cover
    pass
CONST_EXT = {"datetime.timezone.utc": _dt.timezone.utc, "datetime.UTC": _dt.timezone.utc, "os.linesep": "\n",
             "builtins.str": str, "builtins.int": int}


class W:
    """A constant element: its class, fields, its own Markdown (a text, or a function of the level) if it is given."""

    def __init__(self, cls, text=None, /, mark=None, **fields):
        self.cls, self.text, self.mark, self.fields = cls, text, mark, fields

    def __repr__(self):
        if self.text is not None:
            return f"{self.cls}({self.text(0) if callable(self.text) else self.text!r})"
        return f"{self.cls}({', '.join(f'{k}={v!r}' for k, v in self.fields.items())})"


def limit(x):
    if isinstance(x, (str, list, tuple)) and len(x) > 200000:
        raise NoValue()
    return x


class Gone(NoValue):
    """The constants make a loop return: what comes after it is not reached."""


class Fold:
    """Folds terms under an assignment of constants."""

    def __init__(self, C, base, steps=None, depth=0):
        self.C, self.base, self.steps, self.depth = C, dict(base), steps or {}, depth
        self.bound = {}             # term -> value, while a loop is unfolded
        self.loops = []             # (loop id, source term, items so far)
        self.out = {}               # loop id -> has it put something out
        self.fuel = 60000
        self.memo = {}              # what terms are in the turn at hand

    # ------------------------------------------------------------------ values
    def val(self, t):
        self.fuel -= 1
        if self.fuel < 0:
            raise NoValue()
        if t in self.bound:
            return self.bound[t]
        if t in self.base:
            return self.base[t]
        if isinstance(t, Const):
            return t.v
        if isinstance(t, Sentinel):
            if t.name == "OPT":
                return ABSENT
            raise NoValue()
        if isinstance(t, TupV):
            return tuple(self.val(x) for x in t.items)
        if isinstance(t, EnumM):
            return self.val(t.value) if isinstance(t.value, V) else t.value
        if isinstance(t, Ext) and t.name in CONST_EXT:
            return CONST_EXT[t.name]
        if not isinstance(t, Sym):
            raise NoValue()
        f = getattr(self, "v_" + t.op, None)
        if f is None:
            raise NoValue()
        memo = self.memo
        if t in memo:
            x = memo[t]
            if x is NoValue:
                raise NoValue()
            return x
        try:
            x = limit(f(t, t.args))
        except Gone:
            raise
        except Exception:
            memo[t] = NoValue
            raise NoValue()
        memo[t] = x
        return x

    def v_copyof(self, t, a):
        return self.val(a[0])

    def v_get(self, t, a):
        d = self.val(a[0])
        if not isinstance(d, dict):
            raise NoValue()
        return d[self.val(a[1])]

    v_asdict = None

    def v_field(self, t, a):
        o = self.val(a[0])
        if not isinstance(o, W):
            raise NoValue()
        if a[1] in o.fields:
            return o.fields[a[1]]
        ci = self.C.cls(o.cls)
        f = ci.fields.get(a[1]) if ci else None
        if a[1] == "type" and o.cls in self.C.tags:
            return self.C.tags[o.cls][1]
        if f is not None and f.ty.opt:
            return ABSENT
        raise NoValue()

    def v_md(self, t, a):
        o = self.val(a[0])
        if not isinstance(o, W):
            raise NoValue()
        kw = {k: self.val(v) for k, v in a[1]}
        if set(kw) - {"level", "ignore_error"}:
            raise NoValue()
        if o.text is None:
            return only(self.C, o, bool(kw.get("ignore_error")), kw.get("level"), self.depth + 1)
        return o.text(kw.get("level", 0)) if callable(o.text) else o.text

    def v_mk(self, t, a):
        o, x = self.val(a[0]), self.val(a[1])
        if not isinstance(o, W) or o.mark is None or not isinstance(x, str):
            raise NoValue()
        return o.mark(x)

    def v_cat(self, t, a):
        xs = [self.val(x) for x in a]
        if any(not isinstance(x, str) for x in xs):
            raise NoValue()
        return "".join(xs)

    def v_join(self, t, a):
        xs = self.segs(a[1])
        if any(not isinstance(x, str) for x in xs):
            raise NoValue()
        return self.val(a[0]).join(xs)

    def v_listv(self, t, a):
        return list(self.segs(a[0]))

    def v_meth(self, t, a):
        r = self.val(a[1])
        pos, kw = [], {}
        for x in a[2:]:
            if isinstance(x, Sym) and x.op == "kwarg":
                kw[x.args[0]] = self.val(x.args[1])
            else:
                pos.append(self.val(x))
        ok = isinstance(r, str) and a[0] in PURE_STR or isinstance(r, (list, tuple)) and a[0] in ("count", "index") or \
            isinstance(r, (_dt.date, _dt.timedelta)) and a[0] in PURE_DATE
        if not ok or any(isinstance(x, W) for x in pos):
            raise NoValue()
        if a[0] == "astimezone" and (not pos and not kw or r.tzinfo is None) or \
                a[0] == "timestamp" and r.tzinfo is None:
            raise NoValue()         # depends on the machine
        return getattr(r, a[0])(*pos, **kw)

    def v_part(self, t, a):
        s = self.val(a[2])
        return getattr(self.val(a[1]), a[0])(s)[a[3]]

    def v_index(self, t, a):
        return self.val(a[0])[self.val(a[1])]

    def v_slice(self, t, a):
        return self.val(a[0])[slice(*[self.val(x) for x in a[1:]])]

    def v_len(self, t, a):
        return len(self.val(a[0]))

    def v_bin(self, t, a):
        import operator as O
        f = {"+": O.add, "-": O.sub, "*": O.mul, "/": O.truediv, "//": O.floordiv, "%": O.mod, "&": O.and_, "|": O.or_,
             "^": O.xor, "<<": O.lshift, ">>": O.rshift}[a[0]]
        x, y = self.val(a[1]), self.val(a[2])
        for z in (x, y):
            if isinstance(z, W) or z is ABSENT:
                raise NoValue()
        return f(x, y)

    def v_mul(self, t, a):
        x, y = self.val(a[0]), self.val(a[1])
        if isinstance(y, int) and isinstance(x, (str, list)) and y * max(1, len(x)) > 100000:
            raise NoValue()
        return x * y

    def _plain(self, f, a):
        xs = [self.val(x) for x in a]
        if any(isinstance(x, W) or x is ABSENT for x in xs):
            raise NoValue()
        return f(*xs)

    def v_str(self, t, a):
        return self._plain(str, a)

    def v_int(self, t, a):
        return self._plain(int, a)

    def v_float(self, t, a):
        return self._plain(float, a)

    def v_min(self, t, a):
        return self._plain(min, a)

    def v_max(self, t, a):
        return self._plain(max, a)

    def v_abs(self, t, a):
        return self._plain(abs, a)

    def v_round(self, t, a):
        return self._plain(round, a)

    def v_fmt(self, t, a):
        return self._plain(format, a)

    def v_pred(self, t, a):
        k = a[0]
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple)):
            raise NoValue()
        return self.pred(k[0]) == k[1]

    def v_eq(self, t, a):
        return self.pred(("eq", a[0], a[1]))

    def v_phi(self, t, a):
        return self.val(a[1] if self.pred(a[0]) else a[2])

    def v_lookup(self, t, a):
        k = self.val(a[1])
        for e in a[0]:
            if self.val(e[0]) == k:
                return self.val(e[1])
        raise NoValue()

    def v_attr(self, t, a):
        o = self.val(a[0])
        if isinstance(o, (_dt.date, _dt.timedelta)) and a[1] in MOMENT_ATTRS or \
                isinstance(o, _up.DefragResult) and a[1] in ("url", "fragment"):
            return getattr(o, a[1])
        raise NoValue()

    def v_ext(self, t, a):
        if a[0] not in PURE_EXT:
            raise NoValue()
        xs = [self.val(x) for x in a[1]]
        kw = {k: self.val(v) for k, v in a[2]}
        if any(isinstance(x, W) or x is ABSENT for x in list(xs) + list(kw.values())):
            raise NoValue()
        f = PURE_EXT[a[0]]
        if a[0] == "datetime.datetime.utcfromtimestamp":
            return _dt.datetime.fromtimestamp(*xs, tz=_dt.timezone.utc, **kw).replace(tzinfo=None)
        if a[0] == "datetime.datetime.fromtimestamp":
            tz = xs[1] if len(xs) > 1 else kw.get("tz")
            if tz is None:
                raise NoValue()
            return _dt.datetime.fromtimestamp(xs[0], tz=tz)
        return f(*xs, **kw)

    def v_dedent(self, t, a):
        return textwrap.dedent(self.val(a[0]))

    def v_indent(self, t, a):
        p = {"all": lambda l: True, "nonblank": None, "none": lambda l: False}.get(a[2], 0)
        if p == 0:
            raise NoValue()
        return textwrap.indent(self.val(a[0]), self.val(a[1]), p)

    def v_replace_fix(self, t, a):
        x, o, n = (self.val(q) for q in a)
        for _ in range(1000):
            if o not in x:
                return x
            x = x.replace(o, n)
        raise NoValue()

    def v_resub(self, t, a):
        pat, repl, text, count, flags = a
        x, c = self.val(text), self.val(count)
        if isinstance(pat, Sym) and pat.op == "ext" and pat.args[0] == "re.compile":
            fl = pat.args[1][1] if len(pat.args[1]) > 1 else dict(pat.args[2]).get("flags", Const(0))
            pat, fl = self.val(pat.args[1][0]), self.val(fl)
        else:
            pat, fl = self.val(pat), self.val(flags)
        if not isinstance(fl, int):
            raise NoValue()
        if isinstance(repl, Sym) and repl.op == "replfn":
            if len(repl.args[0]) != 1:
                raise NoValue()
            body = repl.args[0][0]

            def fn(m):
                old, memo = getattr(self, "match", None), self.memo
                self.match, self.memo = m, {}
                try:
                    return self.val(body)
                finally:
                    self.match, self.memo = old, memo
            return re.sub(pat, fn, x, count=c, flags=fl)
        r = self.val(repl)
        if not isinstance(r, str):
            raise NoValue()
        return re.sub(pat, r, x, count=c, flags=fl)

    def v_matched(self, t, a):
        m = getattr(self, "match", None)
        if m is None:
            raise NoValue()
        return m.group(*[self.val(x) for x in a[1:]])

    def v_transtab(self, t, a):
        return {self.val(k): self.val(v) for k, v in a[0]}

    def v_range(self, t, a):
        n = self.val(a[0])
        return list(range(min(n, 5000)))

    def v_range3(self, t, a):
        return list(itertools.islice(range(*[self.val(x) for x in a]), 5000))

    def v_fold(self, t, a):
        init, lv, source, alts = a[:4]
        cur = self.val(init)
        items = self.turns(lv.args[0], source)
        if len(a) > 5 and a[5]:
            if len(items) != len(self.items(source)):
                raise NoValue()
            items = items[::-1]
        old = self.bound.get(lv)
        try:
            for i, x in enumerate(items):
                self.bound[lv] = cur
                cur = self.at(source, i, x, lambda: self.choose([(g, lambda v=v: self.val(v)) for g, v in alts]),
                              items, lv.args[0])
        finally:
            self.restore(lv, old)
        return cur

    def v_loopvar(self, t, a):
        """The value of a carried variable in the turn at hand."""
        for lid, source, items, i in reversed(self.loops):
            recs = self.steps.get((t, source))
            if recs:
                got = []
                for init, news in {(r[0], r[1]) for r in recs
                                   if self.guard([("fact", k, b) for k, b in r[2].items()])}:
                    x = self.carried(t, source, items[:i], init, news)
                    if not any(same(x, y) for y in got):
                        got.append(x)
                if len(got) != 1:
                    raise NoValue()
                return got[0]
        raise NoValue()

    def v_loopout(self, t, a):
        lid, name, source, init, news = a[:5]
        return self.carried(Sym("loopvar", (lid, name), t.ty), source, self.turns(lid, source), init, news)

    def exits(self, lid, source):
        recs = self.steps.get(("exits", lid, source))
        if not recs:
            raise NoValue()
        recs = [r for r in recs if self.guard([("fact", k, b) for k, b in r[1].items()])]
        if not recs or any(r[2] for r in recs):
            raise NoValue()
        return [a for r in recs for a in r[0]]

    def turns(self, lid, source, left=None):
        """The items of the source a loop takes before it is left; with `left`, those before the turn that returns."""
        key = ("turns", lid, source, left)
        if key not in self.memo:
            self.memo[key] = NoValue
            self.memo[key] = self._turns(lid, source, left)
        if self.memo[key] is NoValue:
            raise NoValue()
        return self.memo[key]

    def _turns(self, lid, source, left):
        exits = self.exits(lid, source)
        endless = isinstance(source, Sym) and source.op == "while"
        items = range(150) if endless else self.items(source)
        if not endless and not left and all(how == "next" for _, how in exits):
            return items
        for i, x in enumerate(items):
            how = self.at(source, i, x, lambda: self.choose([(g, lambda h=h: h) for g, h in exits], endless),
                          items, lid)
            if how == "ret" and left:
                return list(items[:i])
            if how == "ret" or left and how in ("break", None):
                raise Gone()
            if how is None:
                return list(items[:i])
            if how == "break":
                return list(items[:i + 1])
            if how != "next":
                raise NoValue()
        if left:
            raise Gone()
        if endless:
            raise NoValue()
        return items

    def v_opaque(self, t, a):
        op, a = a[0], a[1:]
        if op == "rewritten":
            return list(self.grown(a[0], a[1], self.turns(a[0][1], a[1])))
        if op == "zip":
            return list(zip(*[self.val(x) for x in a]))
        x = list(self.val(a[0]))
        if op == "index":
            return x[self.val(a[1])]
        if op == "slice":
            return x[slice(*[self.val(y) for y in a[1:]])]
        if op == "pop":
            del x[self.val(a[1])]
        elif op == "insert":
            x.insert(self.val(a[1]), self.val(a[2]))
        elif op == "set":
            x[self.val(a[1])] = self.val(a[2])
        elif op == "sort" and len(a) == 1 and all(isinstance(y, str) for y in x):
            raise NoValue()
        else:
            raise NoValue()
        return x

    def grown(self, marker, source, items):
        """The list a loop has made after some turns."""
        recs = self.steps.get(("list", marker, source))
        recs = recs and [r for r in recs if self.guard([("fact", k, b) for k, b in r[2].items()])]
        if not recs or len({(r[0], r[1]) for r in recs}) != 1:
            raise NoValue()
        cur = self.segs(recs[0][0])
        old = self.bound.get(marker)
        try:
            for i, x in enumerate(items):
                self.bound[marker] = cur
                cur = self.at(source, i, x, lambda: self.choose([(g, lambda v=v: self.segs(v)) for g, v in recs[0][1]]),
                              items, marker[1])
        finally:
            self.restore(marker, old)
        return cur

    def prev(self, marker):
        if marker in self.bound:
            return self.bound[marker]
        for lid, source, items, i in reversed(self.loops):
            if lid == marker[1]:
                key = ("grown", marker)
                if key not in self.memo:
                    self.memo[key] = self.grown(marker, source, items[:i])
                return self.memo[key]
        raise NoValue()

    def carried(self, lv, source, items, init, news):
        cur = self.val(init)
        old = self.bound.get(lv)
        try:
            for i, x in enumerate(items):
                self.bound[lv] = cur
                cur = self.at(source, i, x, lambda: self.choose([(g, lambda v=v: self.val(v)) for g, v in news]),
                              items, lv.args[0])
        finally:
            self.restore(lv, old)
        return cur

    def v_last(self, t, a):
        items = self.turns(a[0], a[2])
        if not items or len(a[3]) != 1:
            raise NoValue()
        return self.at(a[2], len(items) - 1, items[-1], lambda: self.val(a[3][0]), items, a[0])

    def v_first(self, t, a):
        xs = self.segs(a[0])
        return xs[0]

    def v_set(self, t, a):
        raise NoValue()

    # ------------------------------------------------------------------ sequences
    def items(self, source):
        if isinstance(source, Sym) and source.op == "while":
            for lid in {k[1] for k in self.steps if k[0] == "exits" and k[2] == source}:
                return self.turns(lid, source)
        x = self.val(source)
        if isinstance(x, str):
            return list(x)
        if isinstance(x, (list, tuple)):
            return list(x)
        raise NoValue()

    def restore(self, k, old):
        if old is None:
            self.bound.pop(k, None)
        else:
            self.bound[k] = old

    def at(self, source, i, x, fn, items=None, lid=None):
        e, n = elem_of(source), Sym("idx", (source,), INT)
        old = self.bound.get(e), self.bound.get(n)
        self.bound[e], self.bound[n] = x, i
        self.loops.append((lid, source, items or [], i))
        memo, self.memo = self.memo, {}
        try:
            return fn()
        finally:
            self.memo = memo
            self.loops.pop()
            self.restore(e, old[0])
            self.restore(n, old[1])

    def choose(self, alts, none=False):
        """The one result of the alternatives that the constants do not exclude (None if they exclude all of them)."""
        got = []
        for g, fn in alts:
            if self.guard(g, none) is False:
                continue
            r = fn()
            if not any(same(r, q) for q in got):
                got.append(r)
        if none and not got:
            return None
        if len(got) != 1:
            raise NoValue()
        return got[0]

    def segs(self, segs):
        out = []
        for s in segs:
            if s[0] == "e":
                out.append(self.val(s[1]))
            elif s[0] == "rep":
                out += self.rep(s[1])
            elif s[0] == "cond":
                ok = [self.pred(p) == w for p, w in s[1]]
                out += self.segs(s[2] if all(ok) else s[3])
            elif s[0] == "mul":
                out += self.segs(s[1]) * self.val(s[2])
            elif s[0] == "prev":
                out += self.prev(s)
            elif s[0] == "unk" and isinstance(s[1], tuple) and s[1][0] == "set":
                out[self.val(s[1][1])] = self.val(s[1][2])
            elif s[0] == "unk" and len(s) == 3:
                out += self.val(s[2])
            else:
                raise NoValue()
            limit(out)
        return out

    def rep(self, r):
        items = self.items(r.source)
        order = range(len(items))
        out = []
        old = self.out.get(r.id)
        self.out[r.id] = False
        turns = []
        try:
            for i in order:
                alts = [(a.guard, lambda a=a: (self.segs(a.segs), a.exit, bool(a.segs))) for a in r.alts
                        if not any(e[0] == "caught" and e[1][0] in ("child", "mark") for e in a.events)]
                xs, how, put = self.at(r.source, i, items[i], lambda: self.choose(alts), items, r.id)
                turns.append(xs)
                self.out[r.id] = self.out[r.id] or put
                if how == "break":
                    break
                if how not in ("next", "continue"):
                    raise NoValue()
            else:
                if r.partial and not any(a.exit == "break" for a in r.alts):
                    raise NoValue()
        finally:
            if old is None:
                self.out.pop(r.id, None)
            else:
                self.out[r.id] = old
        for xs in (turns[::-1] if r.rev else turns):
            out += xs
        return out

    # ------------------------------------------------------------------ conditions
    def leave(self, p):
        """Stand at the turn in which a path returns from within loops."""
        for e in reversed(p.events):
            if e[0] == "loopexit" and e[1] == "ret":
                lids = {k[1] for k in self.steps if k[0] == "exits" and k[2] == e[2] and k[1][1] == e[3][1]}
                if len(lids) != 1:
                    raise NoValue()
                lid, source = lids.pop(), e[2]
                items = self.turns(lid, source, left=True)
                i = len(items)
                every = range(i + 1) if isinstance(source, Sym) and source.op == "while" else self.items(source)
                self.bound[elem_of(source)], self.bound[Sym("idx", (source,), INT)] = every[i], i
                self.loops.append((lid, source, every, i))
                self.memo = {}

    def alive(self, p):
        """Does no constant contradict the conditions of the path?"""
        return self.guard([("fact", k, b) for k, b in p.facts.items()] + [("cls", t, c) for t, c in p.st.cls.items()] +
                          [("vals", t, c) for t, c in p.st.vals.items()] +
                          [("nvals", t, c) for t, c in p.st.nvals.items()])

    def guard(self, g, strict=False):
        """False if a constant contradicts the guard, else True (nothing speaks against it)."""
        vague = False
        for x in g:
            try:
                if x[0] == "fact":
                    if self.pred(x[1]) != x[2]:
                        return False
                elif x[0] == "cls":
                    v = self.val(x[1])
                    if isinstance(v, W) and v.cls not in x[2]:
                        return False
                elif x[0] in ("vals", "nvals"):
                    v = self.val(x[1])
                    if isinstance(v, (str, int)) and any(isinstance(c, Const) and type(c.v) is type(v) and c.v == v
                                                         for c in x[2]) != (x[0] == "vals"):
                        return False
                elif x[0] == "rng":
                    v = self.val(x[1])
                    lo, hi = x[2]
                    if isinstance(v, int) and (lo is not None and v < lo or hi is not None and v > hi):
                        return False
                else:
                    vague = True
            except Gone:
                return False
            except NoValue:
                vague = True
        if vague and strict:
            raise NoValue()
        return True

    def equal(self, a, b):
        """Are two constant elements equal, field by field?"""
        if a is b:
            return True
        if a.cls != b.cls:
            return False
        if self.C.method(a.cls, "__eq__") is not None or a.fields.keys() != b.fields.keys():
            raise NoValue()
        for k, x in a.fields.items():
            y = b.fields[k]
            if isinstance(x, W) and isinstance(y, W):
                if not self.equal(x, y):
                    return False
            elif isinstance(x, (list, tuple, dict)) or isinstance(y, (list, tuple, dict)):
                raise NoValue()
            elif (x is ABSENT) != (y is ABSENT) or x is not ABSENT and not same(x, y):
                return False
        if a.text != b.text or (a.mark is None) != (b.mark is None):
            raise NoValue()
        return True

    def pred(self, k):
        self.fuel -= 1
        if self.fuel < 0:
            raise NoValue()
        op = k[0]
        if op == "isopt":
            return self.val(k[1]) is ABSENT
        if op == "truthy":
            v = self.val(k[1])
            if v is ABSENT:
                raise NoValue()
            return True if isinstance(v, W) else bool(v)
        if op == "blank":
            v = self.val(k[1])
            if not isinstance(v, str):
                raise NoValue()
            return not v.strip()
        if op in ("eqc", "eq"):
            a, b = self.val(k[1]), self.val(k[2])
            if isinstance(a, W) and isinstance(b, W):
                return self.equal(a, b)
            if isinstance(a, W) or isinstance(b, W):
                return False
            return same(a, b)
        if op == "is":
            a, b = self.val(k[1]), self.val(k[2])
            if any(x is None or x is ABSENT or isinstance(x, (bool, W)) for x in (a, b)):
                return a is b
            raise NoValue()
        if op == "isnone":
            return self.val(k[1]) is None
        if op in ("contains", "substr_of"):
            t, c = self.val(k[1]), self.val(k[2])
            if op == "substr_of":
                t, c = c, t
            if not isinstance(t, (str, list, tuple)) or isinstance(c, W):
                raise NoValue()
            return c in t
        if op == "lt":
            a, b = self.val(k[1]), self.val(k[2])
            if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
                return a < b
            raise NoValue()
        if op == "inset":
            v = self.val(k[1])
            if not isinstance(v, (str, int)):
                raise NoValue()
            return any(self.val(c) == v for c in k[2])
        if op == "inlist":
            v = self.val(k[1])
            xs = self.segs(k[2]) if isinstance(k[2], tuple) and (not k[2] or isinstance(k[2][0], tuple)) else None
            if xs is None and isinstance(k[2], tuple):
                xs = [self.val(c) for c in k[2]]
            if xs is None:
                xs = self.items(k[2])
            if isinstance(v, W):
                if any(x is v for x in xs):
                    return True
                raise NoValue()
            return any(same(v, x) for x in xs)
        if op == "haskey":
            d, k = self.val(k[1]), self.val(k[2]) if isinstance(k[2], V) else k[2]
            if not isinstance(d, dict):
                raise NoValue()
            return k in d
        if op == "strpred":
            r, args = self.val(k[2]), [self.val(x) for x in k[3]]
            if not isinstance(r, str) or k[1] not in PURE_STR:
                raise NoValue()
            return bool(getattr(r, k[1])(*args))
        if op == "nonempty":
            return bool(self.segs(k[1]))
        if op == "any":
            return any(truth(x) for x in self.segs(k[1]))
        if op == "all":
            return all(truth(x) for x in self.segs(k[1]))
        if op == "firstout":
            if k[1] not in self.out:
                raise NoValue()
            return not self.out[k[1]]
        if op == "isinst":
            v = self.val(k[1])
            names = {str(n).split(".")[-1] for n in k[2]}
            if isinstance(v, W):
                ci = self.C.cls(v.cls)
                if ci is None:
                    raise NoValue()
                return any((c.name if isinstance(c, ClassInfo) else c.name.split(".")[-1]) in names for c in ci.mro)
            if v is ABSENT:
                raise NoValue()
            return any(c.__name__ in names for c in type(v).__mro__)
        raise NoValue()


def truth(x):
    if x is ABSENT:
        raise NoValue()
    return True if isinstance(x, W) else bool(x)


def same(a, b):
    if isinstance(a, W) or isinstance(b, W):
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return False
    return a == b


# ---------------------------------------------------------------------- paths of a method
def outputs(C, w, ig=False, level=None, depth=0, param=None):
    """The texts of the paths of w.to_markdown() the constants do not contradict; None if one of them is not known."""
    if depth > 4:
        return None
    if w.cls in C.mark_classes:
        r = C.mk(w.cls)
        base = {C.me(w.cls): w, C.TEXT: param}
    else:
        sym = level is not None and has_level(C, w.cls)
        if level and not sym:
            return None
        r = C.md(w.cls, ig=ig, level="sym" if sym else None, policy=frozenset() if ig else None)
        base = {C.me(w.cls): w}
        if sym:
            base[Sym("param", ("level",), INT)] = level
    if not r:
        return None
    out = []
    for p in r:
        if p.exc is not None:
            continue
        f = Fold(C, base, p.steps, depth)
        if any(e[0] == "caught" and e[1][0] in ("child", "mark") for e in p.events):
            continue
        try:
            f.leave(p)
            if not f.alive(p):
                continue
            x = f.val(p.v)
        except Gone:
            continue
        except NoValue:
            return None
        if not isinstance(x, str):
            return None
        if x not in out:
            out.append(x)
    return out or None


def only(C, w, ig, level, depth):
    xs = outputs(C, w, ig, level, depth)
    if xs is None or len(xs) != 1:
        raise NoValue()
    return xs[0]


def has_level(C, cname):
    f = C.method(cname, "to_markdown")
    return f is not None and any(x.arg == "level" for x in f.node.args.args + f.node.args.kwonlyargs)
