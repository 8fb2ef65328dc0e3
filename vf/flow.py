"""How content flows into a rendered term.

`carry(t, e)` answers: which occurrences of element e's own Markdown does the string
term t contain, in order, and does everything between e and the root of t preserve it
(up to whitespace, line prefixes and escaping)?

An occurrence is ("ok",) | ("lossy", why) | ("unk", why) | ("first", L) (only the first
line of the carrier, to be completed by the remaining lines).
"""
from __future__ import annotations

from .dom import *  # noqa
from .terms import *  # noqa
from . import regex

LOSSY_METHODS = {"upper", "lower", "title", "capitalize", "casefold", "swapcase", "partition", "rpartition",
                 "removeprefix", "removesuffix", "translate", "center", "ljust", "rjust", "zfill"}
KEEP_METHODS = {"strip", "rstrip", "lstrip", "expandtabs", "splitlines", "split"}
WRONG_CASE = {"upper", "lower", "title", "capitalize", "casefold", "swapcase"}


def is_field(t, base, name):
    t = strip_copy(t)
    return isinstance(t, Sym) and t.op == "field" and t.args[1] == name and t.args[0] == base


def ws(s):
    return isinstance(s, str) and s != "" and not s.strip()


def regex_class(t):
    """What a substitution by a regular expression does to the text: keep / lossy / unk."""
    pat, repl, flags = t.args[0], t.args[1], t.args[4]
    if not isinstance(pat, Const) or not isinstance(pat.v, str) or not isinstance(flags, Const) or flags.v is None:
        return "unk", "regular expression substitution"
    p, f = pat.v, flags.v
    if regex.ws_only(p, f):
        return "keep", ""
    whole = regex.whole_groups(p, f)
    if isinstance(repl, Const) and isinstance(repl.v, str):
        tpl = regex.template(repl.v, p, f)
        if tpl is None:
            return "unk", "replacement"
        if any(x in whole for x in tpl):
            return "keep", ""
        lit = regex.literal(p, f)
        if lit is not None and lit in repl.v:
            return "keep", ""
        if all(isinstance(x, str) for x in tpl):
            return "lossy", f"replacing {p!r} by {repl.v!r} changes the content"
        return "unk", "replacement with groups"
    if isinstance(repl, Sym) and repl.op == "replfn":
        if all(any(isinstance(s, Sym) and s.op == "matched" and s.args[1].v in whole for s in pieces(r))
               for r in repl.args[0]):
            return "keep", ""
    return "unk", "replacement function"


def guard_lookup(guard, pred):
    for g in guard:
        if g[0] == "fact" and g[1] == pred:
            return g[2]
    return None


def unclear_cut(t):
    """A slice whose bounds the analysis cannot compare with the length."""
    def clear(b):
        return isinstance(b, Const) or isinstance(b, Sym) and b.op in ("field", "self", "param", "copyof") and \
            not any(is_unknown(s) for s in subterms(b)) and b.ty.kind == "int"
    return not all(clear(b) for b in t.args[1:3])


class Flow:
    def __init__(self, ctx, ignore=False):
        self.ctx = ctx
        self.ignore = ignore

    # ------------------------------------------------------------ transformations
    def method_class(self, t):
        """Classify `recv.name(args)` as keep / lossy / unk."""
        name, args = t.args[0], t.args[2:]
        if name in ("strip", "rstrip", "lstrip"):
            if not args or args[0] == NONE_V:
                return "keep", ""
            if isinstance(args[0], Const) and isinstance(args[0].v, str):
                return ("keep", "") if not args[0].v.strip() else ("lossy", f"{name}({args[0].v!r}) removes characters "
                                                                          f"that may belong to the content")
            return "unk", name
        if name == "replace" and len(args) >= 2:
            a, b = args[0], args[1]
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
                if a.v and a.v in b.v:
                    return "keep", ""
                if ws(a.v):
                    return "keep", ""
                return "lossy", f"replace({a.v!r}, {b.v!r}) changes the content"
            if isinstance(a, Sym) and a.ty.kind == "str" and not any(is_unknown(s) for s in subterms(a)) \
                    and a.op in ("field", "md", "strip") and isinstance(b, Const):
                return "lossy", f"replace({show(a)}, {b.v!r}) removes what may belong to the content"
            return "unk", "replace"
        if name in ("splitlines", "split"):
            if name == "split" and args and isinstance(args[0], Const) and isinstance(args[0].v, str) \
                    and args[0].v.strip():
                return "unk", "split"
            if name == "split" and len(args) > 1:
                return "unk", "split"
            return "keep", ""
        if name == "expandtabs":
            return "keep", ""
        if name in ("format", "%"):
            return "lossy", "the content is interpreted as a format string"
        if name in LOSSY_METHODS:
            if name in WRONG_CASE:
                return "lossy", f"{name}() changes the content"
            return "unk", name
        return "unk", name

    # ------------------------------------------------------------ occurrences
    def carry(self, t, e, guard=()):
        if isinstance(t, Const) or isinstance(t, Sentinel) or isinstance(t, EnumM):
            return []
        if not isinstance(t, Sym):
            return [("unk", f"value {t!r}")] if self.touches(t, e) else []
        op, a = t.op, t.args
        if op == "md":
            return [("ok",)] if a[0] == e else []
        if op == "cat":
            out = []
            for p in a:
                out += self.carry(p, e, guard)
            return out
        if op == "join":
            return self.carry_segs(a[1], e, guard)
        if op == "indent":
            return self.carry(a[0], e, guard)
        if op == "replace_fix":
            r = self.carry(a[0], e, guard)
            if r and not (ws(getattr(a[1], "v", None)) and ws(getattr(a[2], "v", None))):
                return [self.weaken(x, "lossy", "repeated replacement changes the content") for x in r]
            return r
        if op == "resub":
            r = self.carry_any(a, e, guard)
            if r:
                k, why = regex_class(t)
                if k != "keep":
                    return [self.weaken(x, k, why) for x in r]
            return r
        if op == "meth":
            r = self.carry(a[1], e, guard)
            if r:
                k, why = self.method_class(t)
                if k != "keep":
                    r = [self.weaken(x, k, why) for x in r]
            for q in a[2:]:
                if isinstance(q, V) and self.carry(q, e, guard):
                    r = r + [("unk", "argument of " + a[0])]
            return r
        if op == "mk":
            return self.carry(a[1], e, guard)
        if op in ("str", "dedent"):
            return self.carry(a[0], e, guard)
        if op == "phi":
            x, y = self.carry(a[1], e, guard + (("fact", a[0], True),)), \
                self.carry(a[2], e, guard + (("fact", a[0], False),))
            return self.either([(x, guard + (("fact", a[0], True),)), (y, guard + (("fact", a[0], False),))], e)
        if op == "fold":
            init = self.carry(a[0], e, guard)
            if init:
                for g, v in a[3]:
                    n = self.count_var(v, a[1])
                    if n == 0:
                        return [self.weaken(x, "lossy", "the text is discarded while iterating over " + show(a[2]))
                                for x in init]
                    if n is None or n > 1:
                        return [self.weaken(x, "unk", "text accumulated in an unusual way") for x in init]
                return init
            used = any(isinstance(s, Sym) and (s.op == "md" and s.args[0] == e or is_field(s, e, "content"))
                       for v in [a[0], a[2]] + [v for _, v in a[3]] if isinstance(v, V) for s in subterms(v))
            return [("unk", "fold")] if used else []
        if op == "index":
            L, i = a[0], a[1]
            if isinstance(L, Sym) and L.op == "meth" and L.args[0] in ("split", "splitlines"):
                r = self.carry(L, e, guard)
                if r:
                    if i == Const(0):
                        return [("first", L)] if all(x == ("ok",) for x in r) else r
                    return [self.weaken(x, "lossy", f"only line {show(i)} of the content is used") for x in r]
                return []
            if isinstance(L, Sym) and L.ty.kind == "str":
                return [self.weaken(x, "lossy", "only one character of the content is used")
                        for x in self.carry(L, e, guard)]
            return [("unk", "index")] if self.carry_deep(L, e) else []
        if op == "slice":
            L = a[0]
            r = self.carry(L, e, guard) if isinstance(L, Sym) else []
            if r:
                if unclear_cut(t):
                    return [self.weaken(x, "unk", "slice " + show(t)[-40:]) for x in r]
                if isinstance(L, Sym) and L.op == "meth" and L.args[0] in ("split", "splitlines"):
                    return [self.weaken(x, "lossy", f"only the lines {show(t)[-24:]} of the content are used") for x in r]
                return [self.weaken(x, "lossy", "the content is cut by a slice") for x in r]
            return []
        if op == "mul":
            r = self.carry(a[0], e, guard)
            return [self.weaken(x, "unk", "repeated") for x in r]
        if op in ("unknown",):
            return [("unk", str(a[0]))]
        if op in ("field", "elem", "self", "param", "loopvar", "len", "bin", "cfg", "idx"):
            if op == "loopvar" and t.ty.kind not in ("int", "bool"):
                return [("unk", "the text of a running loop")]
            return [("unk", f"uses {show(t)} directly")] if op == "field" and a[0] == e and \
                a[1] not in ("attrs", "type", "content", "marks") else []
        r = self.carry_any(a, e, guard)
        return [self.weaken(x, "unk", op) for x in r]

    def carry_any(self, a, e, guard):
        out = []
        for q in a:
            if isinstance(q, V):
                out += self.carry(q, e, guard)
            elif isinstance(q, tuple):
                for w in q:
                    if isinstance(w, V):
                        out += self.carry(w, e, guard)
                    elif isinstance(w, tuple):
                        out += self.carry_any(w, e, guard)
        return out

    def carry_deep(self, t, e):
        return any(isinstance(s, Sym) and s.op == "md" and s.args[0] == e for s in subterms(t))

    def weaken(self, x, kind, why):
        if x[0] == "lossy":
            return x
        if x[0] == "unk" and kind == "unk":
            return x
        return (kind, why)

    def touches(self, t, e):
        return any(s == e for s in subterms(t))

    def count_var(self, v, lv):
        """How often does v contain lv, only through preserving operations? None = unclear."""
        if v == lv:
            return 1
        if isinstance(v, Sym):
            if v.op == "mk":
                return self.count_var(v.args[1], lv)
            if v.op == "cat":
                ns = [self.count_var(p, lv) for p in v.args]
                return None if any(n is None for n in ns) else sum(ns)
            if v.op == "phi":
                x, y = self.count_var(v.args[1], lv), self.count_var(v.args[2], lv)
                return x if x == y else None
            if not mentions(v, lv):
                return 0
            return None
        return 0

    # ------------------------------------------------------------ sequences
    def carry_segs(self, segs, e, guard):
        occ = []
        for s in segs:
            if s[0] == "e":
                occ += self.carry(s[1], e, guard)
            elif s[0] == "rep":
                occ += self.carry_rep(s[1], e, guard)
            elif s[0] == "cond":
                x = self.carry_segs(s[2], e, guard + tuple(("fact", p, w) for p, w in s[1]))
                y = self.carry_segs(s[3], e, guard)
                occ += self.either([(x, guard + tuple(("fact", p, w) for p, w in s[1])),
                                    (y, guard + tuple(("fact", p, not w) for p, w in s[1][:1]))], e)
            elif s[0] == "mul":
                r = self.carry_segs(s[1], e, guard)
                occ += [self.weaken(x, "unk", "repeated") for x in r]
            elif s[0] == "unk" and isinstance(s[1], tuple) and s[1][0] == "cut":
                occ.append(("lossy", f"what was collected from earlier children is thrown away when {s[1][1]}"))
            elif s[0] in ("unk", "prev"):
                occ.append(("unk", str(s[1])))
        return self.pair_first(occ, guard)

    def pair_first(self, occ, guard):
        """Combine `first line` with a following `remaining lines`."""
        out, i = [], 0
        while i < len(occ):
            x = occ[i]
            if x[0] == "first":
                if i + 1 < len(occ) and occ[i + 1] == ("rest", x[1]):
                    out.append(("ok",))
                    i += 2
                    continue
            out.append(x)
            i += 1
        return out

    def close(self, occ, guard):
        """Resolve dangling first/rest markers under the facts of an alternative."""
        out = []
        for x in occ:
            if x[0] == "first":
                L = x[1]
                rest = Sym("slice", (L, Const(1), NONE_V))
                if guard_lookup(guard, ("truthy", rest)) is False:
                    out.append(("ok",))
                elif guard_lookup(guard, ("lt", Const(1), Sym("len", (L,), INT))) is False:
                    out.append(("ok",))
                else:
                    out.append(("lossy", "only the first line of the content is used"))
            elif x[0] == "rest":
                out.append(("lossy", "the first line of the content is dropped"))
            else:
                out.append(x)
        return out

    def carry_rep(self, r, e, guard):
        src = r.source
        el = elem_of(src)
        # (a) e is the owner of the iterated list:  for c in e.content
        if is_field(src, e, "content"):
            if not r.rev and not any(self.touches(v, el) for al in r.alts for v in seg_values(al.segs)):
                return []             # only constants per child: decoration, not a rendering
            st, why = self.each_once(r, el, guard)
            return [("ok",)] if st == "ok" else [(st, why)]
        # (b) a rewrite of the lines of some text
        if isinstance(src, Sym) and (src.op == "meth" and src.args[0] in ("split", "splitlines") or
                                     src.op == "slice"):
            base = src
            rest = None
            if src.op == "slice" and isinstance(src.args[0], Sym) and src.args[0].op == "meth" and \
                    src.args[0].args[0] in ("split", "splitlines"):
                base = src.args[0]
                if src.args[1:] == (Const(1), NONE_V):
                    rest = base
            r0 = self.carry(base, e, guard) if isinstance(base, Sym) else []
            if r0:
                st, why = self.lines_kept(r, el, guard)
                if rest is not None and all(x == ("ok",) for x in r0):
                    return [("rest", rest)] if st == "ok" else [(st, why)]
                if src.op == "slice":
                    if unclear_cut(src):
                        return [self.weaken(x, "unk", "lines " + show(src)[-40:]) for x in r0]
                    return [self.weaken(x, "lossy", "only some lines of the content are used") for x in r0]
                return r0 if st == "ok" else [self.weaken(x, st, why) for x in r0]
        # (c) iteration over a part of e.content
        part = self.partial_source(src, e)
        if part is not None:
            return [part]
        # (d) anything else: e mentioned inside the alternatives
        per = []
        for al in r.alts:
            o = self.carry_segs(al.segs, e, guard + al.guard)
            if o:
                per.append(o)
        if per:
            return [("unk", f"content used inside a loop over {show(src)}")]
        return []

    def partial_source(self, src, e):
        if isinstance(src, Sym):
            if src.op == "slice":
                s = src.args[0]
                if is_field(s, e, "content"):
                    if src.args[1:3] in ((NONE_V, NONE_V), (Const(0), NONE_V)):
                        return None
                    if unclear_cut(src):
                        return ("unk", f"the part {show(src)} of the children is rendered")
                    return ("lossy", f"only the part {show(src)} of the children is rendered")
                return self.partial_source(s, e)
            if src.op in ("sorted", "reversed", "set"):
                s = src.args[0]
                if isinstance(s, Sym) and is_field(s, e, "content"):
                    return ("lossy", f"the children are rendered in another order or multiplicity ({src.op})")
                if src.op == "sorted" and isinstance(s, tuple) and any(
                        is_field(q, e, "content") for v in seg_values(s) for q in subterms(v)):
                    if src.args[1] == "set":
                        return ("lossy", "equal children are rendered only once")
                    if src.args[2] == "":
                        return ("lossy", "the rendered children are sorted")
            if src.op == "fold" and isinstance(src.args[2], Sym) and is_field(src.args[2], e, "content"):
                for g, new in src.args[3]:
                    if isinstance(new, Sym) and new.op == "slice" and new.args[0] == src.args[1] and \
                            new.args[1:3] not in ((NONE_V, NONE_V), (Const(0), NONE_V)) and not unclear_cut(new) and \
                            not any(mentions(q, src.args[1]) for x in g for q in (x[1] if isinstance(x[1], tuple) else (x[1],))
                                    if isinstance(q, V)):
                        return ("lossy", "what was collected from an earlier child is thrown away again")
            if mentions(src, e) and src.op not in ("field",):
                if any(is_field(s, e, "content") for s in subterms(src)):
                    return ("unk", f"loop over {show(src)}")
        return None

    def each_once(self, r, el, guard):
        """Does every alternative of the loop render element `el` exactly once?"""
        if r.rev:
            return "lossy", "the children are rendered in reverse order"
        if r.partial or any(al.exit == "break" for al in r.alts):
            return "lossy", "the loop over the children may stop before the last one"
        unk_ = None
        for al in r.alts:
            g = guard + al.guard
            occ = self.close(self.carry_segs(al.segs, el, g), g)
            bad = next((x for x in occ if x[0] == "lossy"), None)
            if bad:
                return "lossy", bad[1]
            u = next((x for x in occ if x[0] == "unk"), None)
            if u:
                unk_ = unk_ or u[1]
                continue
            if len(occ) == 1:
                continue
            if len(occ) > 1:
                return "lossy", "a child is rendered more than once"
            ok = self.excused(el, g, al)
            if ok is True:
                continue
            if ok is None:
                unk_ = unk_ or f"child left out when {' and '.join(map(show_guard, al.guard)) or 'always'}"
                continue
            if any(self.touches(v, el) for v in seg_values(al.segs) if self.opaque(v, el)):
                unk_ = unk_ or "child used in an unrecognised way"
                continue
            return "lossy", ("a child is left out when " + (" and ".join(map(show_guard, al.guard)) or
                                                            "(always)"))
        if unk_:
            return "unk", unk_
        return "ok", ""

    def opaque(self, v, el):
        """Does v use el through something other than attribute tests?"""
        for s in subterms(v):
            if isinstance(s, Sym) and s.op in ("unknown", "ext", "todict"):
                return True
            if isinstance(s, Sym) and s.op == "field" and s.args[0] == el and s.args[1] not in ("attrs", "type"):
                return True
        return False

    def excused(self, el, guard, al=None):
        """May el legitimately contribute nothing under this guard? True/False/None(unclear)"""
        for g in guard:
            if g[0] != "fact":
                continue
            p, val = g[1], g[2]
            k = p[0]
            if k == "blank" and val and self.is_md_of(p[1], el):
                return True
            if k == "truthy" and not val and self.is_md_of(p[1], el):
                return True
            if k == "truthy" and not val and is_field(p[1], el, "content"):
                return True
            if k == "isopt" and val and is_field(p[1], el, "content"):
                return True
            if k in ("any", "nonempty") and not val and self.all_empty(p[1], el):
                return True
            if k == "lt" and not val and isinstance(p[2], Sym) and p[2].op == "len" and \
                    (is_field(p[2].args[0], el, "content") or self.is_md_of(p[2].args[0], el)):
                return True
        if al is not None and self.ignore:
            und = False
            for e in al.events:
                if e[0] == "caught":
                    o = e[1]
                    if o[0] in ("child", "mark", "other") and len(o) > 1 and o[1] == el:
                        return True
                    if o[0] == "child":
                        continue          # another element's failure is no excuse
                    und = True
            if und:
                return None
        for g in guard:
            if g[0] == "fact" and any(isinstance(s, Sym) and s.op == "unknown" for q in g[1][1:] if isinstance(q, V)
                                      for s in subterms(q)):
                return None
        return False

    def all_empty(self, segs, el):
        """`not any(segs)`, where segs are the texts of el's children: each of them is empty."""
        if not isinstance(segs, tuple) or len(segs) != 1 or segs[0][0] != "rep":
            return False
        r = segs[0][1]
        return is_field(r.source, el, "content") and not r.partial and \
            self.each_once(r, elem_of(r.source), ())[0] == "ok"

    def is_md_of(self, t, el):
        """t is (a whitespace-trimmed form of) el's complete Markdown."""
        while isinstance(t, Sym) and t.op == "meth" and t.args[0] in ("strip", "rstrip", "lstrip"):
            t = t.args[1]
        if isinstance(t, Sym) and t.op == "md":
            return t.args[0] == el
        if isinstance(t, Sym) and t.op in ("join", "cat", "indent", "meth", "replace_fix"):
            r = self.carry(t, el)
            return len(r) == 1 and r[0][0] == "ok"
        return False

    # ------------------------------------------------------------ line rewriting
    def lines_kept(self, r, el, guard):
        """for line in text.split(..): every non-blank line appears once, in order."""
        if r.rev:
            return "lossy", "the lines are emitted in reverse order"
        if r.partial or any(al.exit == "break" for al in r.alts):
            return "lossy", "the loop over the lines may stop before the last one"
        u = None
        for al in r.alts:
            occ = self.line_occ(al.segs, el)
            if "lossy" in occ:
                return "lossy", "a line of the content is altered"
            if "unk" in occ:
                u = u or "a line is transformed in an unrecognised way"
                continue
            n = len(occ)
            if n == 1:
                continue
            if n > 1:
                return "lossy", "a line of the content is repeated"
            if self.line_blank(el, guard + al.guard):
                continue
            if any(g[0] != "fact" or mentions_unknown(g) or "ext(" in show_guard(g) for g in al.guard):
                u = u or "line dropped under an unclear condition"
                continue
            return "lossy", "a line is left out when " + (" and ".join(map(show_guard, al.guard)) or "(always)")
        return ("unk", u) if u else ("ok", "")

    def line_blank(self, el, guard):
        for g in guard:
            if g[0] == "fact":
                p, v = g[1], g[2]
                if p[0] == "blank" and v and self.trim(p[1]) == el:
                    return True
                if p[0] == "truthy" and not v and self.trim(p[1]) == el:
                    return True
                if p[0] == "eq" and v and el in p[1:] and EMPTY in p[1:]:
                    return True
            if g[0] == "vals" and self.trim(g[1]) == el and all(isinstance(c, Const) and isinstance(c.v, str) and
                                                                not c.v.strip() for c in g[2]):
                return True
        return False

    def trim(self, t):
        while isinstance(t, Sym) and t.op == "meth" and t.args[0] in ("strip", "rstrip", "lstrip") and \
                all(isinstance(q, Const) and isinstance(q.v, str) and not q.v.strip() for q in t.args[2:]):
            t = t.args[1]
        return t

    def line_occ(self, segs, el):
        out = []
        for s in segs:
            if s[0] == "e":
                out += self.line_occ_t(s[1], el)
            elif s[0] == "cond":
                x, y = self.line_occ(s[2], el), self.line_occ(s[3], el)
                out += x if x == y else ["unk"]
            elif any(v == el for v in seg_values([s])):
                out.append("unk")
        return out

    def line_occ_t(self, t, el):
        if t == el:
            return ["ok"]
        if not isinstance(t, Sym):
            return []
        if t.op == "cat":
            return [x for p in t.args for x in self.line_occ_t(p, el)]
        if t.op == "meth":
            r = self.line_occ_t(t.args[1], el)
            if r:
                k, _ = self.method_class(t)
                return r if k == "keep" else ["lossy" if k == "lossy" else "unk"]
            return []
        if t.op == "phi":
            x, y = self.line_occ_t(t.args[1], el), self.line_occ_t(t.args[2], el)
            return x if x == y else ["unk"]
        if t.op in ("mul",):
            return []
        if t.op == "resub":
            r = self.line_occ_t(t.args[2], el)
            if r:
                k, _ = regex_class(t)
                return r if k == "keep" else ["lossy" if k == "lossy" else "unk"]
            return []
        if t.op == "slice":
            r = self.line_occ_t(t.args[0], el)
            if r and t.args[0] == el:
                # line[len(line) - len(line.lstrip()):]  keeps the text
                lo = t.args[1]
                if isinstance(lo, Sym) and mentions(lo, el) and t.args[2] == NONE_V:
                    return ["ok"] if "strip" in show(lo) else ["unk"]
                if isinstance(lo, Sym):
                    return ["unk"]
                return ["lossy"]
            return ["unk"] if r else []
        if t.op in ("len", "bin"):
            return []
        return ["unk"] if mentions(t, el) else []

    def either(self, branches, e):
        """Occurrences of a value that depends on a condition."""
        occs = [(self.close(o, g), g) for o, g in branches]
        lens = {len(o) for o, _ in occs}
        if len(lens) == 1:
            n = lens.pop()
            out = []
            for i in range(n):
                col = [o[i] for o, _ in occs]
                w = next((x for x in col if x[0] == "lossy"), None) or next((x for x in col if x[0] == "unk"), None)
                out.append(w or ("ok",))
            return out
        full = max((o for o, _ in occs), key=len)
        for o, g in occs:
            if len(o) < len(full):
                if self.excused(e, g) is True:
                    continue
                return [("lossy", "the content is left out when " + " and ".join(map(show_guard, g[-1:])))] \
                    if not any(mentions_unknown(x) for x in g[-1:]) else [("unk", "conditional content")]
        return full


def mentions_unknown(g):
    for q in g[1:]:
        vs = q if isinstance(q, tuple) else (q,)
        for v in vs:
            if isinstance(v, V) and any(is_unknown(s) for s in subterms(v)):
                return True
    return False
