"""C09-C14, C17-C19, C22-C24, C26: Markdown conversion."""
from __future__ import annotations

import math
import re

from .common import *  # noqa
from .parse import dedupe

EXEMPT = {"NodeCaption", "NodeMediaGroup", "NodeMediaInline"}
LISTS = ("NodeBulletList", "NodeOrderedList", "NodeTaskList")
WS_BLOCKS = {"NodeBulletList", "NodeOrderedList", "NodeTaskList", "NodeDecisionList", "NodeTable", "NodeCodeBlock"}


def nodes(C):
    return [c for c in C.node_classes if C.cls(c) is not None]


def has_param(C, cname, name):
    f = C.method(cname, "to_markdown")
    if f is None:
        return False
    a = f.node.args
    return name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] or a.kwarg is not None


def und_fail(C, R, rule, inst, key, cname):
    R.und(rule, inst, C.why(key), C.where_of(cname, "to_markdown"))


def runs(C, cname, ig):
    """(label, key, paths) for the plain call and, for lists, an arbitrary nesting level."""
    out = [("", ("md", cname, ig, None, None), C.md(cname, ig=ig))]
    if has_param(C, cname, "level"):
        out.append((" at any level", ("md", cname, ig, "sym", None), C.md(cname, ig=ig, level="sym")))
    return out


def miss(C, R, rule, cname):
    if C.method(cname, "to_markdown") is None:
        R.bad(rule, cname, f"{cname} has no Markdown conversion", C.where_of(cname))
        return True
    return False


# ------------------------------------------------------------------------------ C09
def c09(C, R):
    for cname in nodes(C):
        if miss(C, R, "errors propagate", cname):
            continue
        for ig in (False, None):
            for label, key, r in runs(C, cname, ig):
                inst = f"{cname}.to_markdown({'ignore_error=False' if ig is False else ''}){label}"
                w = C.where_of(cname, "to_markdown")
                if r is None:
                    R.und("errors propagate", inst, C.why(key), w)
                    continue
                probs, n = [], 0
                for p in r:
                    for e, g in walk_events(p.events):
                        if e[0] == "child":
                            n += 1
                            igv = dict(e[2]).get("ignore_error", FALSE)
                            if igv == TRUE:
                                probs.append((BAD, f"{show(e[1])} is converted with ignore_error=True although the "
                                                   f"caller did not ask for it", e[3]))
                            elif igv != FALSE:
                                probs.append((UND, f"ignore_error={show(igv)}"))
                    if p.exc is not None:
                        continue
                    for e, g in walk_events(p.events):
                        if e[0] == "caught" and e[1][0] in ("child", "mark"):
                            what = show(e[1][1]) if len(e[1]) > 1 and isinstance(e[1][1], V) else "a child"
                            probs.append((BAD, f"an error raised while "
                                               f"{'converting' if e[1][0] == 'child' else 'applying'} {what} is swallowed "
                                               f"although errors are not ignored", e[3]))
                R.verdict("errors propagate", inst, dedupe(probs), w)


# ------------------------------------------------------------------------------ C10
def raisers(C):
    """Least fixpoint: node classes whose conversion may raise although errors are ignored."""
    S = frozenset()
    while True:
        new = set()
        for c in nodes(C):
            r = C.md(c, ig=True, policy=S)
            if r is None:
                continue
            if any(p.exc is not None for p in r):
                new.add(c)
        new = frozenset(new)
        if new <= S:
            return S
        S = S | new


def c10(C, R):
    S = raisers(C)
    R.analysed["may raise with ignore_error=True"] = sorted(S)
    for cname in nodes(C):
        if miss(C, R, "failure contained", cname):
            continue
        sp = C.spec["classes"][cname]["fields"]
        w = C.where_of(cname, "to_markdown")
        for lvl in ([None, "sym"] if has_param(C, cname, "level") else [None]):
            key = ("md", cname, True, lvl, S)
            r = C.md(cname, ig=True, level=lvl, policy=S)
            inst = cname + (" at any level" if lvl else "")
            if r is None:
                R.und("failure contained", inst, C.why(key), w)
                continue
            probs, passed = [], []
            for p in r:
                if p.exc is not None and p.exc.origin[0] == "child":
                    probs.append((BAD, f"with ignore_error=True a failing {show(p.exc.origin[1])} still makes the "
                                       f"conversion fail", p.exc.where))
                for e, g in walk_events(p.events):
                    if e[0] == "child":
                        igv = dict(e[2]).get("ignore_error", FALSE)
                        if igv == FALSE:
                            passed.append((BAD, f"the request to ignore errors is not passed to {show(e[1])}", e[3]))
                        elif igv != TRUE:
                            passed.append((UND, f"ignore_error={show(igv)}", e[3]))
            if "content" in sp:
                if not probs:
                    probs += selective(C.md(cname, ig=True, level=lvl) or ())
                R.verdict("failure contained", inst, dedupe(probs), w)
                R.verdict("request passed down", inst, dedupe(passed), w)
            else:
                R.verdict("request passed down", inst, dedupe(passed), w)
            if "content" in sp and cname not in EXEMPT:
                # everything that converts is still there
                r2 = C.md(cname, ig=True, level=lvl)
                key2 = ("md", cname, True, lvl, None)
                if r2 is None:
                    R.und("siblings kept", inst, C.why(key2), w)
                    continue
                R.verdict("siblings kept", inst, dedupe(abandoned(r2) + complete_problems(C, cname, r2, ignore=True)), w)


def selective(r):
    """Failures of one and the same child are contained for some exceptions and let through for others."""
    caught = {e[1] for p in r if p.exc is None for e, g in walk_events(p.events)
              if e[0] == "caught" and e[1][0] == "child"}
    out = []
    for p in r:
        if p.exc is None or p.exc.origin[0] != "child" or p.exc.origin not in caught:
            continue
        if any(e[0] == "partly" and e[1] == p.exc.origin for e, g in walk_events(p.events)) or \
                any(k[0] == "isinst" and isinstance(k[1], ExcV) for k in p.facts):
            out.append((BAD, f"only some failures of {show(p.exc.origin[1])} are contained with ignore_error=True: "
                             f"others still make the conversion fail", p.exc.where))
    return out


def abandoned(r):
    """The failure of one child is caught outside the loop over its siblings: the later ones are never converted."""
    out = []
    for p in r:
        if p.exc is not None:
            continue
        for evs in event_lists(tuple(p.events)):
            for i, e in enumerate(evs):
                if e[0] != "loopexit" or e[1] != "raise":
                    continue
                el = elem_of(e[2])
                j = next((j for j in range(i + 1, len(evs)) if evs[j][0] == "caught"), None)
                if j is None or evs[j][1][0] not in ("child", "mark") or len(evs[j][1]) < 2 or \
                        not isinstance(evs[j][1][1], V) or not mentions(evs[j][1][1], el):
                    continue
                if any(x[0] in ("loop", "child", "unkcall") and any(isinstance(q, V) and mentions(q, e[2]) for q in x)
                       for x in evs[j + 1:]):
                    continue
                out.append((BAD, f"a failing {show(evs[j][1][1])} ends the loop over {show(e[2])}: the ones after it "
                                 f"are not converted", e[3]))
    return out


# ------------------------------------------------------------------------------ C12
def complete_problems(C, cname, r, ignore=False):
    F = Flow(C, ignore=ignore)
    me = C.me(cname)
    ft = C.field(me, cname, "content")
    out, n = [], 0
    for p in r:
        if p.exc is not None:
            continue
        n += 1
        guard = tuple(("fact", k, b) for k, b in p.facts.items())
        if isinstance(p.v, Ref) or p.v is None:
            out.append((UND, "result is not a text"))
            continue
        occ = F.close(F.carry(p.v, me, guard), guard)
        lossy = next((x for x in occ if x[0] == "lossy"), None)
        unk_ = next((x for x in occ if x[0] == "unk"), None)
        if lossy:
            out.append((BAD, lossy[1]))
        elif unk_:
            out.append((UND, unk_[1]))
        elif len(occ) > 1:
            out.append((BAD, "the children are rendered more than once"))
        elif len(occ) == 0:
            if F.excused(me, guard) is True:
                continue
            if ignore and any(e[0] == "caught" for e in p.events):
                out.append((BAD, "one failing child loses all of its siblings"))
                continue
            cut = first_cut(p.v)
            if cut is not None and not unknown_facts(p):
                out.append((BAD, f"what was collected from earlier children is thrown away when {cut}"))
                continue
            if unknown_facts(p) or has_unknown(p.v):
                out.append((UND, f"children not rendered when {C.facts_str(p)[:120]}"))
                continue
            if any(mentions(v, ft) for v in [p.v]) and not only_tests(p.v, ft):
                out.append((UND, f"children used in an unrecognised way: {show(p.v)[:160]}"))
                continue
            out.append((BAD, "the children are not rendered" + (f" when {C.facts_str(p)[:200]}" if p.facts else "")))
    if not n and not out:
        out.append((BAD, "the conversion never returns"))
    return out


def first_cut(x):
    """The condition of a ("cut", condition) item somewhere in a term."""
    if isinstance(x, tuple):
        if len(x) in (2, 3) and x[0] == "unk" and isinstance(x[1], tuple) and x[1] and x[1][0] == "cut":
            return x[1][1]
        parts = x
    elif isinstance(x, Sym):
        parts = x.args
    elif isinstance(x, Rep):
        parts = [x.source] + [a.segs for a in x.alts]
    else:
        return None
    return next((c for c in map(first_cut, parts) if c is not None), None)


def only_tests(v, ft):
    return not any(isinstance(s, Sym) and s.op in ("unknown", "ext", "fold", "elem", "index") and
                   mentions(s, ft) for s in subterms(v))


def c12(C, R):
    for cname in nodes(C):
        sp = C.spec["classes"][cname]["fields"]
        if "content" not in sp or cname in EXEMPT:
            continue
        if miss(C, R, "children complete", cname):
            continue
        for label, key, r in runs(C, cname, False):
            inst = cname + label
            w = C.where_of(cname, "to_markdown")
            if r is None:
                R.und("children complete", inst, C.why(key), w)
                continue
            R.verdict("children complete", inst, dedupe(complete_problems(C, cname, r)), w)


# ------------------------------------------------------------------------------ C11
def media_ok_raise(C, p, me, cname):
    """Is this refusal one of the documented ones?"""
    def isopt(f):
        t = Sym("field", (Sym("field", (me, "attrs")), f))
        for k, b in p.facts.items():
            if k[0] == "isopt" and k[1] == t:
                return b
        return None

    ty = Sym("field", (Sym("field", (me, "attrs")), "type"))
    tv = p.st.vals.get(ty)
    kinds = {c.v for c in tv} if tv else None
    if cname == "NodeMedia":
        if kinds is None:
            ks = {"link", "file", "external"}
            for k, b in p.facts.items():
                if k[0] == "eqc" and k[1] == ty and b is False and isinstance(k[2], Const):
                    ks.discard(k[2].v)
            kinds = ks
        if not kinds & {"link", "file", "external"}:
            return True
        if kinds == {"external"}:
            return isopt("url") is True
        if kinds == {"file"}:
            return isopt("id") is True
        return None
    if cname in ("NodeInlineCard", "NodeBlockCard"):
        return isopt("url") is True
    if cname == "NodeEmoji":
        return isopt("text") is True and isopt("shortName") is True
    return False


def opt_related(p):
    for k, b in p.facts.items():
        if k[0] == "isopt" and b:
            return True
        if k[0] == "truthy" and b is False and isinstance(k[1], Sym) and k[1].ty.kind == "list":
            return True
    return False


def c11(C, R):
    for cname in nodes(C):
        if miss(C, R, "conversion exists", cname):
            continue
        owner = C.cls(cname).find("to_markdown")[0]
        if isinstance(owner, ClassInfo) and owner.name in ("BaseNode", "BaseMarkOrNode", "Base"):
            R.bad("conversion exists", cname, f"{cname} has no Markdown conversion of its own", C.where_of(cname))
            continue
        R.ok("conversion exists", cname)
        me = C.me(cname)
        w = C.where_of(cname, "to_markdown")
        for ig in (False, True):
            for label, key, r in runs(C, cname, ig):
                inst = f"{cname}(ignore_error={ig}){label}"
                if r is None:
                    R.und("absent fields", inst, C.why(key), w)
                    continue
                R.verdict("absent fields", inst, dedupe(crash_problems(C, cname, r, me)), w)
    for cname in C.mark_classes:
        if C.cls(cname) is None:
            continue
        r = C.mk(cname)
        w = C.where_of(cname, "to_markdown")
        if r is None:
            if C.method(cname, "to_markdown") is None:
                R.bad("conversion exists", cname, f"{cname} has no Markdown conversion", w)
            else:
                R.und("absent fields", cname, C.why(("mk", cname)), w)
            continue
        R.verdict("absent fields", cname, dedupe(crash_problems(C, cname, r, C.me(cname))), w)


def crash_problems(C, cname, r, me):
    probs = []
    for p in r:
        for e, g in walk_events(p.events):
            if e[0] == "leak":
                probs.append((BAD, f"the 'not given' placeholder can end up in the text ({show(e[1]) if isinstance(e[1], V) else e[1]})",
                              e[-1] if isinstance(e[-1], tuple) else None))
        if p.exc is None:
            v = p.v
            if isinstance(v, V) and any(s == OPT or s == REQ for s in value_leaves(v)):
                probs.append((BAD, f"the 'not given' placeholder can end up in the text when {C.facts_str(p)[:120]}"))
            if isinstance(v, Sym) and v.ty.opt and maybe_opt(p, v):
                probs.append((BAD, f"the 'not given' placeholder is returned for {show(v)} "
                                   f"when {C.facts_str(p)[:120]}"))
            if v == NONE_V:
                probs.append((BAD, f"the conversion returns None when {C.facts_str(p)[:120]}"))
            continue
        e = p.exc
        o = e.origin[0]
        if o in ("child", "mark", "conv", "ext"):
            continue
        if o == "raise":
            if cname == "MarkCode" and e.names[0] == "ValueError":
                continue
            ok = media_ok_raise(C, p, me, cname)
            if ok is True:
                continue
            if e.names[0] == "NotImplementedError" and cname not in ("NodeInlineCard", "NodeBlockCard", "NodeEmoji", "NodeMedia"):
                probs.append((BAD, f"{cname} refuses to convert ({e.names[0]}) when {C.facts_str(p)[:160]}", e.where))
            elif ok is False and (opt_related(p) or not p.facts and not p.st.vals) and not unknown_facts(p):
                probs.append((BAD, f"{cname} fails with {e.names[0]} when {C.facts_str(p)[:160]}", e.where))
            elif ok is False and cname in ("NodeInlineCard", "NodeBlockCard", "NodeEmoji", "NodeMedia") and \
                    not unknown_facts(p):
                probs.append((BAD, f"{cname} refuses to convert although it has what it needs "
                                   f"(when {C.facts_str(p)[:160]})", e.where))
            else:
                probs.append((UND, f"raises {e.names[0]} when {C.facts_str(p)[:120]}"))
            continue
        if unknown_facts(p) or o == "unknown":
            probs.append((UND, f"{e.names[0]} {e.origin} when {C.facts_str(p)[:120]}"))
            continue
        probs.append((BAD, f"{cname} fails with {e.names[0]} ({describe(e)}) when {C.facts_str(p)[:200]}", e.where))
    return probs


def maybe_opt(p, v):
    """On this path nothing excludes that the optional value `v` was not given."""
    t = strip_copy(v)
    if p.facts.get(("isopt", t)) is not None:
        return p.facts[("isopt", t)]
    if p.st.vals.get(t) or p.st.cls.get(t):
        return False
    return not any(val is True and t in f[1:] and f[0] in ("eqc", "eq", "strpred", "lt", "contains", "inset", "haskey",
                                                           "blank", "isnone", "isstr") for f, val in p.facts.items())


def describe(e):
    o = e.origin
    parts = [str(o[0])] + [show(x) if isinstance(x, V) else str(x) for x in o[1:3]]
    return {"opt": "used while not given: "}.get(o[0], "") + " ".join(parts)


def value_leaves(v):
    """Values that contribute text (not conditions)."""
    stack = [v]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, Sym):
            if x.op == "phi":
                stack += [x.args[1], x.args[2]]
            elif x.op in ("cat", "str"):
                stack += list(x.args)
            elif x.op == "join":
                for s in x.args[1]:
                    if s[0] == "e":
                        stack.append(s[1])
            elif x.op in ("indent", "replace_fix"):
                stack.append(x.args[0])
            elif x.op == "meth":
                stack.append(x.args[1])


# ------------------------------------------------------------------------------ words
def fpath(t, me):
    """attribute path of a field term below `me`, or None"""
    names = []
    t = strip_copy(t) if isinstance(t, Sym) else t
    while isinstance(t, Sym) and t.op == "field":
        names.append(t.args[1])
        t = strip_copy(t.args[0]) if isinstance(t.args[0], Sym) else t.args[0]
    if t == me and names:
        return ".".join(reversed(names))
    return None


def words(v, me, facts, text=None):
    """[(facts, [pieces])]; piece = ('c', str) | ('f', path) | ('t',) | ('x', term) | ('bad', why)"""
    out = []
    for fx, seq in _expand(v, facts):
        w = []
        for q in seq:
            w.append(piece(q, me, text))
        merged = []
        for q in w:
            if q[0] == "c" and merged and merged[-1][0] == "c":
                merged[-1] = ("c", merged[-1][1] + q[1])
            elif q != ("c", ""):
                merged.append(q)
        out.append((fx, merged))
    return out


def _expand(v, facts):
    if isinstance(v, Sym) and v.op == "phi":
        k = v.args[0]
        if k in facts:
            return _expand(v.args[1] if facts[k] else v.args[2], facts)
        return _expand(v.args[1], {**facts, k: True}) + _expand(v.args[2], {**facts, k: False})
    if isinstance(v, Sym) and v.op == "cat":
        acc = [(facts, [])]
        for q in v.args:
            nxt = []
            for fx, seq in acc:
                for f2, s2 in _expand(q, fx):
                    nxt.append((f2, seq + s2))
            acc = nxt[:64]
        return acc
    if isinstance(v, Sym) and v.op == "join" and isinstance(v.args[0], Const) and all(s[0] == "e" for s in v.args[1]):
        seq = []
        for i, s in enumerate(v.args[1]):
            if i:
                seq.append(v.args[0])
            seq.append(s[1])
        return _expand(Sym("cat", seq, STR), facts)
    return [(facts, [v])]


ALTER = {"strip": 1, "lstrip": 1, "rstrip": 1, "upper": 1, "lower": 1, "title": 1, "capitalize": 1, "casefold": 1,
         "swapcase": 1, "replace": 1, "expandtabs": 1, "removeprefix": 1, "removesuffix": 1, "center": 1, "ljust": 1,
         "rjust": 1, "zfill": 1, "translate": 1, "format": 1, "%": 1}
TEMPLATE = ("format", "%")


def alters_parts(q):
    """Can the method call q, applied to a text put together of several parts, change one of the parts' values?"""
    name, args, ps = q.args[0], q.args[2:], pieces(q.args[1])
    ends = {"strip": (0, -1), "lstrip": (0,), "rstrip": (-1,)}.get(name)
    if ends is not None:
        chars = args[0].v if args and isinstance(args[0], Const) and isinstance(args[0].v, str) else None
        if args and chars is None:
            return None
        return any(not (isinstance(ps[i], Const) and ps[i].v.strip(chars)) for i in ends)
    if name == "replace":
        return True if len(args) >= 2 and isinstance(args[0], Const) else None
    if name in ("upper", "lower", "title", "capitalize", "casefold", "swapcase", "expandtabs") + TEMPLATE:
        return True
    return None


def piece(q, me, text):
    if isinstance(q, Const):
        return ("c", str(q.v)) if isinstance(q.v, (str, int)) and not isinstance(q.v, bool) else ("x", q)
    if isinstance(q, Sym):
        if text is not None and q == text:
            return ("t",)
        f = fpath(q, me)
        if f:
            return ("f", f)
        if q.op == "str":
            return piece(q.args[0], me, text)
        if q.op == "meth" and q.args[0] in ALTER:
            inner = piece(q.args[1], me, text)
            what = "the text" if inner[0] == "t" else inner[1]
            if inner[0] in ("f", "t", "bad") and q.args[0] in TEMPLATE:
                return ("bad", f"{what} is interpreted as a format string")
            if inner[0] in ("f", "t", "bad"):
                return ("bad", f"{what} is altered by {q.args[0]}()")
            if isinstance(q.args[1], Sym) and q.args[1].op == "cat" and alters_parts(q):
                for x in q.args[1].args:
                    inner = piece(x, me, text)
                    if inner[0] in ("f", "t") and isinstance(x, Sym) and not x.ty.lits and x.ty.kind in ("str", "any"):
                        return ("bad", f"{'the text' if inner[0] == 't' else inner[1]} is altered by {q.args[0]}() on "
                                       f"the text it was put into")
        if q.op == "meth" and q.args[0] in ("split", "splitlines"):
            return ("x", q)
        if q.op in ("slice", "index"):
            inner = piece(q.args[0], me, text) if isinstance(q.args[0], Sym) else ("x", q)
            if inner[0] in ("f", "t"):
                return ("bad", f"only a part of {'the text' if inner[0] == 't' else inner[1]} is used")
            if isinstance(q.args[0], Sym) and q.args[0].op == "meth" and q.args[0].args[0] in ("split", "splitlines", "partition"):
                inner = piece(q.args[0].args[1], me, text)
                if inner[0] in ("f", "t"):
                    return ("bad", f"only a part of {'the text' if inner[0] == 't' else inner[1]} is used")
        if q.op == "ext" and q.args and isinstance(q.args[0], str):
            inner = [piece(x, me, text) for x in (q.args[1] if len(q.args) > 1 and isinstance(q.args[1], tuple) else ())
                     if isinstance(x, V)]
            if any(i[0] in ("f", "t") for i in inner):
                nm = q.args[0]
                if nm in ("urllib.parse.quote", "urllib.parse.unquote", "urllib.parse.quote_plus", "html.escape",
                          "html.unescape", "textwrap.shorten", "textwrap.fill", "textwrap.dedent", "repr", "ascii",
                          "urllib.parse.urlparse", "urllib.parse.urljoin", "unicodedata.normalize", "json.dumps",
                          "re.escape"):
                    return ("bad", f"the value is altered by {nm}()")
        if q.op == "join" and isinstance(q.args[0], Const):
            segs = q.args[1]
            if len(segs) == 1 and segs[0][0] == "rep":
                r = segs[0][1]
                s = r.source
                if isinstance(s, Sym) and s.op == "meth" and s.args[0] in ("split", "splitlines"):
                    inner = piece(s.args[1], me, text)
                    if inner[0] in ("f", "t") and is_ident(segs[0]):
                        return ("bad", f"whitespace of {'the text' if inner[0] == 't' else inner[1]} is changed")
        if q.op == "resub" and isinstance(q.args[1], Sym) and piece(q.args[1], me, text)[0] in ("f", "t"):
            return ("bad", "the value is interpreted as a replacement pattern")
        if q.op == "dedent" and piece(q.args[0], me, text)[0] in ("f", "t"):
            return ("bad", "the value is altered by textwrap.dedent()")
        if q.op == "resub":
            for x in q.args:
                if isinstance(x, V) and piece(x, me, text)[0] in ("f", "t"):
                    return ("bad", "the value is altered by a regular expression")
        if q.op == "replace_fix" and piece(q.args[0], me, text)[0] in ("f", "t"):
            return ("bad", "the value is altered by a replacement")
        if q.op == "fmt" and len(q.args) == 2 and isinstance(q.args[0], V):
            inner = piece(q.args[0], me, text)
            spec = q.args[1].v if isinstance(q.args[1], Const) else q.args[1]
            if spec in ("", "s"):
                return inner
            if inner[0] in ("f", "t") and isinstance(spec, str) and q.args[0].ty.kind == "str":
                return ("bad", f"{'the text' if inner[0] == 't' else inner[1]} is formatted with {spec!r}")
        if q.op == "mul" and isinstance(q.args[0], V):
            inner = piece(q.args[0], me, text)
            if inner[0] in ("f", "t") and isinstance(q.args[1], Const) and q.args[1] != Const(1):
                return ("bad", f"{'the text' if inner[0] == 't' else inner[1]} is repeated {q.args[1].v} times")
        if q.op == "len" and not any(is_unknown(s) for s in subterms(q)):
            return ("bad", f"a length is shown ({show(q)[:60]})")
        if q.op == "fold":
            return ("fold", q)
        if q.op == "mk":
            return ("fold", q)
    return ("x", q)


def show_word(w):
    out = []
    for q in w:
        if q[0] == "c":
            out.append(repr(q[1]))
        elif q[0] == "f":
            out.append(q[1])
        elif q[0] == "t":
            out.append("text")
        elif q[0] == "bad":
            out.append(f"<{q[1]}>")
        else:
            out.append(show(q[1])[:60])
    return " + ".join(out) or "''"


def word_known(w):
    return all(q[0] in ("c", "f", "t", "bad") for q in w)


def opt_fact(facts, me, path):
    t = me
    for n in path.split("."):
        t = Sym("field", (t, n))
    for k, b in facts.items():
        if k[0] == "isopt" and isinstance(k[1], Sym) and strip_copy(k[1]) == t:
            return b
    return None


def truthy_fact(facts, me, path):
    t = me
    for n in path.split("."):
        t = Sym("field", (t, n))
    for k, b in facts.items():
        if k[0] == "truthy" and k[1] == t:
            return b
        if k[0] == "blank" and k[1] == t and b is True:
            return False
        if k[0] in ("eqc", "eq") and k[1] == t and k[2] == EMPTY:
            return not b
    return None


def trim_word(w):
    """Drop leading and trailing line breaks / blanks of the constant ends."""
    w = list(w)
    if w and w[0][0] == "c":
        w[0] = ("c", w[0][1].lstrip())
    if w and w[-1][0] == "c":
        w[-1] = ("c", w[-1][1].rstrip())
    return [q for q in w if q != ("c", "")]


def c_(s):
    return ("c", s)


def f_(s):
    return ("f", s)


def expect_leaf(cname, facts, me, p):
    """Acceptable words of a leaf under these facts, or None when the facts do not tell."""
    o = lambda f: opt_fact(facts, me, f)
    t = lambda f: truthy_fact(facts, me, f)
    if cname == "NodeText":
        out = [[f_("text")]]
        if t("text") is False:
            out.append([])
        return out
    if cname == "NodeMention":
        if o("attrs.text") is True:
            return [[c_("@Unknown")], [c_("@"), f_("attrs.id")], [f_("attrs.id")]]
        if t("attrs.text") is False:
            return [[f_("attrs.text")], [], [c_("@Unknown")]]
        return [[f_("attrs.text")]]
    if cname == "NodeEmoji":
        if o("attrs.text") is True:
            return [[f_("attrs.shortName")]]
        if t("attrs.text") is False:
            return [[f_("attrs.shortName")], [f_("attrs.text")], []]
        return [[f_("attrs.text")]]
    if cname == "NodeStatus":
        return [[c_("`"), f_("attrs.text"), c_("`")]]
    if cname in ("NodeInlineCard", "NodeBlockCard", "NodeEmbedCard"):
        return [[c_("["), f_("attrs.url"), c_("]("), f_("attrs.url"), c_(")")]]
    if cname == "NodeRule":
        return [[c_("---")], [c_("***")], [c_("___")]]
    if cname == "NodeHardBreak":
        return [[c_("  \n")], [c_("\\\n")], [c_("<br>")]]
    if cname == "NodeExtension":
        lab = [c_("[Extension: "), f_("attrs.extensionType"), c_("/"), f_("attrs.extensionKey"), c_("]")]
        lab2 = [c_("[Extension: "), f_("attrs.extensionKey"), c_("]")]
        full = [c_("[Extension: "), f_("attrs.extensionKey"), c_("] "), f_("attrs.text")]
        full2 = lab[:-1] + [c_("] "), f_("attrs.text")]
        if o("attrs.text") is True or t("attrs.text") is False:
            return [lab, lab2]
        return [full, full2]
    if cname == "NodeMedia":
        ty = Sym("field", (Sym("field", (me, "attrs")), "type"))
        vs = p.st.vals.get(ty)
        kinds = {c.v for c in vs} if vs else None
        alts = []
        if o("attrs.alt") is not True:
            alts.append(f_("attrs.alt"))
        if o("attrs.alt") is True or t("attrs.alt") is False:
            alts.append(c_("media"))
        if kinds == {"link"}:
            return [[c_("[media]")], "any"]
        if kinds is None:
            return None
        out = []
        for a in alts:
            mid = [c_("![media](")] if a[0] == "c" else [c_("!["), a, c_("](")]
            if kinds == {"external"}:
                out.append(mid + [f_("attrs.url"), c_(")")])
            elif kinds == {"file"}:
                last = mid[-1]
                out.append(mid[:-1] + [c_(last[1] + "media:"), f_("attrs.id"), c_(")")])
        return out or None
    return None


LEAVES = ["NodeText", "NodeMention", "NodeEmoji", "NodeStatus", "NodeInlineCard", "NodeBlockCard", "NodeEmbedCard",
          "NodeRule", "NodeHardBreak", "NodeExtension", "NodeMedia"]


def unfold(v):
    """The text before the marks are applied."""
    while isinstance(v, Sym) and v.op in ("fold", "mk") and not (
            v.op == "fold" and isinstance(v.args[2], Sym) and v.args[2].op == "while"):
        v = v.args[0] if v.op == "fold" else v.args[1]
    return v


def c13(C, R):
    for cname in LEAVES:
        if C.cls(cname) is None:
            R.bad("verbatim", cname, f"the model {cname} no longer exists")
            continue
        if miss(C, R, "verbatim", cname):
            continue
        me = C.me(cname)
        w = C.where_of(cname, "to_markdown")
        for ig in (False, True):
            r = C.md(cname, ig=ig)
            inst = f"{cname}" + ("" if ig is False else " (ignore_error)")
            if r is None:
                und_fail(C, R, "verbatim", inst, ("md", cname, ig, None, None), cname)
                continue
            probs, n = [], 0
            for p in r:
                if p.exc is not None:
                    continue
                n += 1
                v = unfold(p.v)
                if not isinstance(v, (Sym, Const)):
                    probs.append((UND, f"result {v!r}"))
                    continue
                for facts, wd in words(v, me, dict(p.facts)):
                    # marks applied piecewise
                    wd = [x for q in wd for x in ([q] if q[0] != "fold" else
                                                  words(unfold(q[1]), me, facts)[0][1])]
                    if any(contradicts(facts, k, b) for k, b in facts.items()):
                        continue
                    exp = expect_leaf(cname, facts, me, p)
                    if exp is None:
                        probs.append((UND, f"'{show_word(wd)}' under unclear conditions"))
                        continue
                    if "any" in exp:
                        continue
                    cands = exp if cname == "NodeHardBreak" else [trim_word(e) for e in exp]
                    got = wd if cname == "NodeHardBreak" else trim_word(wd)
                    if cname == "NodeHardBreak" and got and got[0][0] == "c" and len(got) == 1:
                        ok = "\n" in got[0][1] or got[0][1].strip() in ("<br>", "<br/>", "<br />")
                        got_bad = not ok or (got[0][1].strip() not in ("", "\\", "<br>", "<br/>", "<br />"))
                        if got_bad:
                            probs.append((BAD, f"a hard break renders as {got[0][1]!r}"))
                        continue
                    if got in cands:
                        continue
                    b = next((q[1] for q in got if q[0] == "bad"), None)
                    if b:
                        probs.append((BAD, f"{cname}: {b}"))
                    elif word_known(got) and not any(isinstance(v2, V) and has_unknown(v2)
                                                     for k in facts for v2 in k[1:] if isinstance(v2, V)):
                        probs.append((BAD, f"{cname} renders {show_word(got)} instead of {show_word(cands[0])}"
                                           + (f" when {facts_txt(facts)[:160]}" if facts else "")))
                    else:
                        probs.append((UND, f"renders {show_word(got)}"))
            if not n and not probs:
                probs.append((BAD, f"{cname} never converts"))
            R.verdict("verbatim", inst, dedupe(probs), w)


def contradicts(facts, k, b):
    return False


def facts_txt(facts):
    return " and ".join(("" if b else "not ") + show_pred(k) for k, b in facts.items())


# ------------------------------------------------------------------------------ C14
DELIM = {"MarkStrong": ("**",), "MarkEm": ("*", "_"), "MarkStrike": ("~~",)}
MARKED = ["NodeText", "NodeParagraph", "NodeMedia"]


def blank_fact(facts, text):
    for k, b in facts.items():
        if k[0] == "blank" and k[1] == text:
            return b
    for k, b in facts.items():
        if k[0] == "truthy" and k[1] == text and b is False:
            return True
        if k[0] == "truthy" and isinstance(k[1], Sym) and k[1].op == "meth" and k[1].args[0] == "strip" and \
                k[1].args[1] == text:
            return not b
    return None


def c14(C, R):
    T = C.TEXT
    for cname in C.mark_classes:
        if C.cls(cname) is None:
            R.bad("keeps the text", cname, f"the model {cname} no longer exists")
            continue
        if miss(C, R, "keeps the text", cname):
            continue
        me = C.me(cname)
        r = C.mk(cname)
        w = C.where_of(cname, "to_markdown")
        if r is None:
            R.und("keeps the text", cname, C.why(("mk", cname)), w)
            continue
        probs, n, used = [], 0, set()
        for p in r:
            nl = next((b for k, b in p.facts.items() if k[0] == "contains" and k[1] == T and k[2] == Const("\n")), None)
            if p.exc is not None:
                if cname == "MarkCode" and p.exc.names[0] == "ValueError" and nl is True:
                    n += 1
                    continue
                if unknown_facts(p):
                    probs.append((UND, C.facts_str(p)[:120]))
                else:
                    probs.append((BAD, f"{cname} fails with {p.exc.names[0]} when {C.facts_str(p)[:160]}", p.exc.where))
                continue
            n += 1
            if not isinstance(p.v, (Sym, Const)):
                probs.append((UND, f"result {p.v!r}"))
                continue
            for facts, wd in words(p.v, me, dict(p.facts), T):
                probs += mark_word(C, cname, facts, wd, me, T, nl, p)
                used.update(d for d in DELIM.get(cname, ()) if wd == [c_(d), ("t",), c_(d)])
        if not n and not probs:
            probs.append((BAD, f"{cname} never returns"))
        if len(used) > 1 and not probs:
            probs.append((BAD, f"{cname} has no fixed delimiter: it uses {' or '.join(sorted(used))}"))
        R.verdict("keeps the text", cname, dedupe(probs), w)
    for cname in MARKED:
        if C.cls(cname) is None or C.method(cname, "to_markdown") is None:
            continue
        me = C.me(cname)
        mt = C.field(me, cname, "marks")
        w = C.where_of(cname, "to_markdown")
        for ig in (False, True):
            r = C.md(cname, ig=ig)
            inst = f"{cname}.marks" + (" (ignore_error)" if ig else "")
            if r is None:
                und_fail(C, R, "applied in order", inst, ("md", cname, ig, None, None), cname)
                continue
            probs, n = [], 0
            for p in r:
                if p.exc is not None:
                    continue
                n += 1
                probs += applied(C, p, cname, me, mt)
            R.verdict("applied in order", inst, dedupe(probs), w)


def mark_word(C, cname, facts, wd, me, T, nl, p):
    bl = blank_fact(facts, T)
    unkf = any(isinstance(v, V) and has_unknown(v) for k in facts for v in k[1:] if isinstance(v, V))
    b = next((q[1] for q in wd if q[0] == "bad"), None)

    def wrong(msg):
        if unkf:
            return [(UND, msg)]
        return [(BAD, msg + (f" when {facts_txt(facts)[:120]}" if facts else ""))]
    nt = sum(1 for q in wd if q == ("t",))
    if b:
        return wrong(f"{cname}: {b}")
    vals = p.st.vals.get(T)
    if vals is not None and len(vals) == 1:
        k = next(iter(vals)).v
        wd = [("c", "".join(q[1] if q[0] == "c" else k for q in wd))] if all(q[0] in ("c", "t") for q in wd) else wd
    if cname in DELIM:
        ds = DELIM[cname]
        if bl is True:
            if wd == [("t",)] or wd == [] and truthy_text(facts, T) is False:
                return []
            return wrong(f"{cname} turns blank text into {show_word(wd)}") if word_known(wd) else [(UND, show_word(wd))]
        ok = any(wd == [c_(d), ("t",), c_(d)] for d in ds)
        if ok and bl is False:
            return []
        if ok:
            if mentions_text(facts, T) and not witness(facts, T, True):
                return [(UND, f"condition {facts_txt(facts)[:100]}")]
            return wrong(f"{cname} decorates blank text as well")
        if wd == [("t",)] and bl is None and mentions_text(facts, T) and not witness(facts, T, False):
            return [(UND, f"condition {facts_txt(facts)[:100]}")]
        return wrong(f"{cname} turns the text into {show_word(wd)} instead of {ds[0]}text{ds[0]}") \
            if word_known(wd) else [(UND, show_word(wd))]
    if cname == "MarkCode":
        if nl is True:
            return wrong("MarkCode accepts text with a line break")
        out = []
        if nl is None:
            out += wrong("MarkCode does not refuse text with a line break") if not mentions_text(facts, T, ("contains",)) or \
                not any(k[0] not in ("blank", "truthy") for k in facts) else [(UND, facts_txt(facts)[:100])]
            if bl is True and wd == [("t",)]:
                pass
        if bl is True:
            if wd == [("t",)] or (not wd):
                return out
            if len(wd) == 3 and wd[1] == ("t",):
                return out
            return out + (wrong(f"MarkCode turns blank text into {show_word(wd)}") if word_known(wd) else [(UND, show_word(wd))])
        if len(wd) == 3 and wd[1] == ("t",) and wd[0][0] == "c" and wd[2][0] == "c":
            a, z = wd[0][1], wd[2][1]
            if a.strip(" ") and set(a.strip(" ")) == {"`"} and a.strip(" ") == z.strip(" ") and set(a + z) <= {"`", " "}:
                return out
        return out + (wrong(f"MarkCode turns the text into {show_word(wd)}") if word_known(wd) else [(UND, show_word(wd))])
    if cname == "MarkLink":
        ot = opt_fact(facts, me, "attrs.title")
        tt = truthy_fact(facts, me, "attrs.title")
        withtitle = [c_("["), f_("attrs.title"), c_("]("), f_("attrs.href"), c_(")")]
        withtext = [c_("["), ("t",), c_("]("), f_("attrs.href"), c_(")")]
        if not word_known(wd):
            return [(UND, show_word(wd))]
        if wd == withtitle:
            return [] if ot is False or tt is True else wrong("the link uses its title although it may be absent")
        if wd == withtext:
            if ot is True or tt is False:
                return []
            return wrong("the link ignores its title") if ot is False and tt is not False or \
                not any("title" in show_pred(k) for k in facts) else [(UND, facts_txt(facts)[:100])]
        return wrong(f"MarkLink turns the text into {show_word(wd)} instead of [text](target)")
    if cname == "MarkIndentation":
        if len(wd) == 2 and wd[1] == ("t",) and wd[0][0] == "x":
            m = wd[0][1]
            if isinstance(m, Sym) and m.op == "mul" and m.args[0] == Const("\t"):
                if fpath(m.args[1], me) == "attrs.level":
                    return []
                if not has_unknown(m):
                    return wrong(f"the indentation is {show(m)} instead of one tab per level")
            if isinstance(m, Sym) and m.op == "mul" and isinstance(m.args[0], Const):
                return wrong(f"the indentation is {show(m)} instead of one tab per level")
            return [(UND, show_word(wd))]
        lv = p.st.vals.get(Sym("field", (Sym("field", (me, "attrs")), "level")))
        if lv is not None and len(lv) == 1:
            k = next(iter(lv)).v
            if isinstance(k, int) and (wd == [c_("\t" * k), ("t",)] or k == 0 and wd == [("t",)]):
                return []
        if truthy_fact(facts, me, "attrs.level") is False and wd == [("t",)]:
            return []
        return wrong(f"MarkIndentation turns the text into {show_word(wd)}") if word_known(wd) or \
            (nt == 0 and not any(q[0] == "x" and mentions(q[1], T) for q in wd)) else [(UND, show_word(wd))]
    # every other mark: unchanged
    if wd == [("t",)]:
        return []
    if wd == [] and truthy_text(facts, T) is False:
        return []
    return wrong(f"{cname} turns the text into {show_word(wd)} instead of leaving it unchanged") \
        if word_known(wd) else [(UND, show_word(wd))]


def witness(facts, T, want_blank):
    """Is there a text (blank or not, as asked) that satisfies every condition on T?  True / None (unclear).
    The conditions are prefix / suffix / containment / equality tests against constants."""
    tests, consts = [], {""}
    for k, b in facts.items():
        if not any(isinstance(q, V) and mentions(q, T) for q in k[1:]):
            continue
        if k[0] == "blank" and k[1] == T:
            if b is not want_blank:
                return None
            continue
        if k[0] == "truthy" and k[1] == T:
            tests.append((lambda s: bool(s), b))
            continue
        if k[0] in ("contains", "eqc", "eq") and len(k) == 3 and k[1] == T and isinstance(k[2], Const) and \
                isinstance(k[2].v, str):
            c = k[2].v
            tests.append(((lambda s, c=c: c in s) if k[0] == "contains" else (lambda s, c=c: c == s), b))
        elif k[0] == "strpred" and k[2] == T and k[1] in ("startswith", "endswith") and len(k[3]) == 1 and \
                isinstance(k[3][0], Const) and isinstance(k[3][0].v, str):
            c = k[3][0].v
            tests.append(((lambda s, c=c, f=k[1]: getattr(s, f)(c)), b))
        else:
            return None
        consts.add(c)
    cs = sorted(consts)
    for a in cs:
        for z in cs:
            for mid in ("", " ", "x", " x ", "xy"):
                for m2 in cs:
                    s = a + mid + m2 + mid + z
                    if (not s.strip()) == want_blank and all(bool(f(s)) == b for f, b in tests):
                        return True
    return None


def truthy_text(facts, T):
    for k, b in facts.items():
        if k[0] == "truthy" and k[1] == T:
            return b
    return None


def mentions_text(facts, T, skip=()):
    return any(k[0] not in skip and any(isinstance(q, V) and mentions(q, T) for q in k[1:]) for k in facts)


def applied(C, p, cname, me, mt):
    iso = next((b for k, b in p.facts.items() if k[0] == "isopt" and k[1] == mt), None)
    emp = next((b for k, b in p.facts.items() if k[0] == "truthy" and k[1] == mt), None)
    uses = [s for s in subterms(p.v) if isinstance(s, Sym) and (s.op in ("fold", "mk")) and mentions(s, mt)]
    folds = [s for s in uses if s.op == "fold"]
    tys = p.st.vals.get(Sym("field", (Sym("field", (me, "attrs")), "type")))
    if cname == "NodeMedia" and tys == frozenset([Const("link")]):
        return []
    for e, g in walk_events(p.events):
        if e[0] == "caught" and e[1][0] == "mark" and not p.exc:
            return [(UND, "marks under error handling")]
    if iso is True or emp is False:
        return [] if not folds else [(UND, "marks applied though absent")]
    if not folds:
        if has_unknown(p.v) or unknown_facts(p):
            return [(UND, "marks applied in an unrecognised way")]
        if uses:
            return [(BAD, "only some of the marks are applied")] if not any(
                isinstance(s, Sym) and s.op in ("unknown", "ext") for s in subterms(p.v)) else [(UND, "marks")]
        if iso is False or emp is True or not any(mentions(k2, mt) for k in p.facts for k2 in k[1:] if isinstance(k2, V)):
            return [(BAD, f"{cname}: the marks are not applied" + (f" when {C.facts_str(p)[:160]}" if p.facts else ""))]
        return [(UND, f"marks not applied when {C.facts_str(p)[:160]}")]
    if len(folds) > 1:
        return [(UND, "marks applied in several steps")]
    f = folds[0]
    init, lv, src, alts = f.args[0], f.args[1], f.args[2], f.args[3]
    partial = f.args[4] if len(f.args) > 4 else False
    rev = f.args[5] if len(f.args) > 5 else False
    out = []
    src0 = strip_copy(src) if isinstance(src, Sym) else src
    if src0 != mt:
        if isinstance(src0, Sym) and src0.op in ("slice", "reversed", "sorted", "set") and mentions(src0, mt):
            return [(BAD, f"the marks applied are {show(src0)}: not all of them in the order given")]
        return [(UND, f"marks from {show(src0)[:80]}")]
    if rev:
        out.append((BAD, f"{cname}: the marks are applied in reverse order"))
    if partial:
        out.append((BAD, f"{cname}: the loop over the marks may stop before the last one"))
    el = elem_of(src)
    for g, v in alts:
        n = nested_mk(v, el, lv)
        gt = " and ".join(map(show_guard, g)) or "always"
        if n == 1:
            continue
        if n == 0:
            if any(mentions_unknown(x) for x in g):
                out.append((UND, f"mark not applied when {gt}"))
            else:
                out.append((BAD, f"{cname}: a mark is not applied when {gt[:160]}"))
        elif n is None:
            out.append((UND, f"mark applied as {show(v)[:80]}"))
        else:
            out.append((BAD, f"{cname}: a mark is applied {n} times"))
    return out


def nested_mk(v, el, lv):
    """How many times el's markup is applied around lv."""
    if v == lv:
        return 0
    if isinstance(v, Sym) and v.op == "mk":
        a = nested_mk(v.args[1], el, lv)
        if a is None:
            return None
        return a + 1 if v.args[0] == el else None
    if isinstance(v, Sym) and v.op == "phi":
        a, b = nested_mk(v.args[1], el, lv), nested_mk(v.args[2], el, lv)
        return a if a == b else None
    return None


# ------------------------------------------------------------------------------ C17
def nl_free(C, t, depth=0):
    """'yes' the text has no line break | 'no' it may contain one from the content | 'und'"""
    if isinstance(t, Const):
        return "yes" if not (isinstance(t.v, str) and "\n" in t.v) else "no"
    if not isinstance(t, Sym):
        return "und"
    op, a = t.op, t.args
    if op == "cat":
        return worst(nl_free(C, q, depth) for q in a)
    if op == "join":
        return worst([nl_free(C, a[0], depth)] + [nl_segs(C, s, depth) for s in a[1]])
    if op == "meth":
        if a[0] == "replace" and len(a) >= 4 and a[2] == Const("\n"):
            if len(a) > 4:
                return "no"
            return nl_free(C, a[3], depth)
        if a[0] == "replace" and len(a) >= 4:
            return worst([nl_free(C, a[1], depth), nl_free(C, a[3], depth)])
        if a[0] in ("strip", "lstrip", "rstrip", "upper", "lower", "title", "expandtabs", "removeprefix", "removesuffix"):
            return nl_free(C, a[1], depth)
        return "und"
    if op in ("split_piece",):
        return "yes"
    if op == "elem" or op == "index":
        s = a[0]
        if isinstance(s, Sym) and s.op == "slice":
            s = s.args[0]
        if isinstance(s, Sym) and s.op == "meth" and s.args[0] in ("split", "splitlines"):
            if s.args[0] == "splitlines" and len(s.args) > 2 and s.args[2] == TRUE:
                return "no"
            if s.args[0] == "splitlines" or len(s.args) == 2 or (len(s.args) == 3 and s.args[2] == Const("\n")):
                return "yes"
            return nl_free(C, s.args[1], depth)
        return "und"
    if op == "slice":
        return nl_free(C, a[0], depth)
    if op == "mul":
        return nl_free(C, a[0], depth) if isinstance(a[0], V) else "und"
    if op == "phi":
        return worst([nl_free(C, a[1], depth), nl_free(C, a[2], depth)])
    if op == "md":
        return "no" if not isinstance(a[0], Sym) or depth > 3 else child_free(C, a[0], depth, nl_free)
    if op == "field":
        if t.ty.lits is not None:
            return "no" if any(isinstance(x, str) and "\n" in x for x in t.ty.lits) else "yes"
        return "yes" if t.ty.kind in ("int", "float", "bool") else "no"
    if op == "replace_fix":
        if a[1] == Const("\n"):
            return nl_free(C, a[2], depth)
        return worst([nl_free(C, a[0], depth), nl_free(C, a[2], depth)])
    if op == "str":
        return "und"
    if op == "resub":
        p, f = regex_of(t)
        if p is None:
            return "und"
        r = repl_safe(t, lambda s: "\n" not in s)
        if regex.eats_every(p, "\n", f):
            return "yes" if r == "const" else "no" if r == "bad" else "und"
        w = nl_free(C, a[2], depth)
        if r == "bad":
            return "no"
        if w != "yes":
            return w
        return "yes" if r in ("const", "parts") else "und"
    return "und"


def regex_of(t):
    """(pattern, flags) of a substitution when both are constants"""
    pat, fl = t.args[0], t.args[4] if len(t.args) > 4 else Const(0)
    if isinstance(pat, Const) and isinstance(pat.v, str) and isinstance(fl, Const) and isinstance(fl.v, int) and \
            t.args[3] == Const(0) and regex.tree(pat.v, fl.v) is not None:
        return pat.v, fl.v
    return None, None


def repl_safe(t, good):
    """What the replacement is made of: 'const' (acceptable constants) | 'parts' (and parts of the match) |
    'bad' (a constant that is not acceptable) | 'und'"""
    p, f = regex_of(t)
    r = t.args[1]
    if isinstance(r, Const) and isinstance(r.v, str):
        tpl = regex.template(r.v, p, f)
        if tpl is None:
            return "und"
        if not all(good(x) for x in tpl if isinstance(x, str)):
            return "bad"
        return "const" if all(isinstance(x, str) for x in tpl) else "parts"
    if isinstance(r, Sym) and r.op == "replfn":
        kind = "const"
        for v in r.args[0]:
            for s in subterms(v):
                if isinstance(s, Const):
                    if isinstance(s.v, str) and not good(s.v):
                        return "bad"
                elif not isinstance(s, Sym) or s.op not in ("cat", "mul", "len", "matched", "bin"):
                    return "und"
            for q in pieces(v):
                if isinstance(q, Sym) and q.op != "mul":
                    kind = "parts"
        return kind
    return "und"


def child_free(C, el, depth, fn):
    cs = el.ty.classes if isinstance(el, Sym) and el.ty.classes else None
    if not cs:
        return "no"
    res = []
    for c in cs:
        r = C.md(c, ig=False)
        if r is None:
            res.append("und")
            continue
        for p in r:
            if p.exc is None:
                res.append(fn(C, p.v, depth + 1))
    return worst(res)


def worst(xs):
    xs = list(xs)
    if "no" in xs:
        return "no"
    if "und" in xs:
        return "und"
    return "yes"


def nl_segs(C, s, depth):
    if s[0] == "e":
        return nl_free(C, s[1], depth)
    if s[0] == "rep":
        return worst(nl_segs(C, x, depth) for al in s[1].alts for x in al.segs)
    if s[0] == "cond":
        return worst([nl_segs(C, x, depth) for x in list(s[2]) + list(s[3])])
    if s[0] == "mul":
        return worst(nl_segs(C, x, depth) for x in s[1])
    return "und"


def pipe_safe(C, t, depth=0):
    """Content pipes are escaped: 'yes' | 'no' | 'und'"""
    if isinstance(t, Const):
        s = t.v if isinstance(t.v, str) else ""
        return "yes" if "|" not in s.replace("\\|", "") else "no"
    if not isinstance(t, Sym):
        return "und"
    op, a = t.op, t.args
    if op == "cat":
        return worst(pipe_safe(C, q, depth) for q in a)
    if op == "join":
        return worst([pipe_safe(C, a[0], depth)] + [pipe_segs(C, s, depth) for s in a[1]])
    if op == "meth":
        if a[0] == "replace" and len(a) >= 4 and a[2] == Const("|"):
            if len(a) > 4:
                return "no"
            if isinstance(a[3], Const) and isinstance(a[3].v, str):
                rest = a[3].v.replace("\\|", "").replace("&#124;", "")
                return "yes" if "|" not in rest else "no"
            return "und"
        if a[0] == "replace" and len(a) >= 4:
            if isinstance(a[2], Const) and isinstance(a[2].v, str) and ("\\" in a[2].v):
                return "no"
            return worst([pipe_safe(C, a[1], depth), pipe_safe(C, a[3], depth)])
        if a[0] in ("split", "splitlines", "strip", "lstrip", "rstrip", "expandtabs"):
            return pipe_safe(C, a[1], depth)
        return "und"
    if op in ("elem", "index", "slice"):
        return pipe_safe(C, a[0], depth)
    if op == "mul":
        return pipe_safe(C, a[0], depth)
    if op == "phi":
        return worst([pipe_safe(C, a[1], depth), pipe_safe(C, a[2], depth)])
    if op == "resub":
        p, f = regex_of(t)
        if p is None:
            return "und"
        r = repl_safe(t, lambda s: "|" not in s.replace("\\|", ""))
        if r == "bad":
            return "no"
        tp, repl = regex.tree(p, f), a[1]
        if isinstance(repl, Const) and regex.eats_every(p, "|", f):
            tpl = regex.template(repl.v, p, f)
            whole = regex.whole_groups(p, f)
            if tpl is not None and all(isinstance(x, str) or x in whole and i and isinstance(tpl[i - 1], str) and
                                       tpl[i - 1].endswith("\\") for i, x in enumerate(tpl)) and tp.getwidth() == (1, 1):
                return "yes"
        w = pipe_safe(C, a[2], depth)
        if w != "yes":
            return w
        if r in ("const", "parts") and not regex.may_eat(p, "\\", f):
            return "yes"
        return "und"
    if op == "md":
        return "no"
    if op == "field":
        return "no"
    if op == "replace_fix":
        return worst([pipe_safe(C, a[0], depth), pipe_safe(C, a[2], depth)])
    return "und"


def pipe_segs(C, s, depth):
    if s[0] == "e":
        return pipe_safe(C, s[1], depth)
    if s[0] == "rep":
        return worst(pipe_segs(C, x, depth) for al in s[1].alts for x in al.segs)
    if s[0] == "cond":
        return worst([pipe_segs(C, x, depth) for x in list(s[2]) + list(s[3])])
    if s[0] == "mul":
        return worst(pipe_segs(C, x, depth) for x in s[1])
    return "und"


def flat(t):
    """Pieces of a text: constants and opaque parts, through nested cats."""
    if isinstance(t, Sym) and t.op == "cat":
        return [x for q in t.args for x in flat(q)]
    return [t]


def line_shape(t, is_cell, count_of):
    """Shape of a '| a | b |' line.
    is_cell(segs) -> 'ok'/'bad'/None tests the repeated part. Returns (status, why)."""
    ps = [q for q in flat(t) if q != EMPTY]
    reps = [i for i, q in enumerate(ps) if not isinstance(q, Const)]
    if len(reps) != 1:
        return UND, f"line {show(t)[:120]}"
    i = reps[0]
    pre = "".join(q.v for q in ps[:i])
    post = "".join(q.v for q in ps[i + 1:])
    q = ps[i]
    if "\n" in pre.lstrip("\n") or "\n" in post:
        return BAD, "a row is spread over several lines"
    pre = pre.strip()
    post = post.strip()
    if isinstance(q, Sym) and q.op == "join" and isinstance(q.args[0], Const):
        sep = q.args[0].v
        st, why, own = is_cell(q.args[1])
        if st != OK:
            return st, why
        own_pre, own_post = own
        if "\n" in sep:
            return BAD, "a row is spread over several lines"
        tot = sep.count("|") + own_pre.count("|") + own_post.count("|")
        if tot != 1:
            return BAD, f"cells are separated by {tot} pipes"
        lead = pre.count("|") + own_pre.count("|")
        tail = post.count("|") + own_post.count("|")
        if lead != 1 or tail != 1:
            return BAD, "the row does not start and end with one pipe"
        return OK, ""
    if isinstance(q, Sym) and q.op == "mul" and isinstance(q.args[0], Const) and isinstance(q.args[0].v, str):
        st, why = count_of(q.args[1])
        if st != OK:
            return st, why
        unit = q.args[0].v
        if unit.count("|") != 1 or pre.count("|") + post.count("|") != 1:
            return BAD, f"unbalanced pipes in {show(t)[:80]}"
        if unit.strip(" |") != "---":
            return UND, f"column mark {unit!r}"
        return OK, ""
    return UND, f"line {show(t)[:120]}"


def more_columns(segs):
    """Do the segments hold further items in a case that is understood?"""
    for s in segs:
        if s[0] == "e":
            return True
        if s[0] == "mul" and s[1] and isinstance(s[2], Sym) and not has_unknown(s[2]):
            return True
        if s[0] == "cond" and not any(mentions_unknown(("fact",) + tuple(g)) if isinstance(g, tuple) and g and
                                      not isinstance(g[0], str) else mentions_unknown(g) for g in s[1]) and \
                (more_columns(s[2]) or more_columns(s[3])):
            return True
    return False


def row_cell(C, me, ft):
    def test(segs):
        if len(segs) != 1 or segs[0][0] != "rep":
            return UND, f"cells {show_segs(segs)[:100]}", ("", "")
        r = segs[0][1]
        if strip_copy(r.source) != ft:
            s = r.source
            if isinstance(s, Sym) and s.op in ("slice", "sorted", "reversed", "set") and mentions(s, ft):
                return BAD, f"only {show(s)} of the cells are rendered", ("", "")
            return UND, f"cells from {show(s)[:80]}", ("", "")
        if r.rev or r.partial:
            return BAD, "cells reversed or cut short", ("", "")
        own = None
        for al in r.alts:
            if len(al.segs) != 1 or al.segs[0][0] != "e":
                if not al.segs and not any(mentions_unknown(g) for g in al.guard):
                    if any(e[0] == "caught" for e in al.events):
                        continue
                    return BAD, "a cell is left out when " + (" and ".join(map(show_guard, al.guard)) or "always"), ("", "")
                if len(al.segs) > 1 and all(s[0] == "e" for s in al.segs):
                    return BAD, "a cell contributes several columns", ("", "")
                if any(s[0] == "e" for s in al.segs) and more_columns([s for s in al.segs if s[0] != "e"]):
                    return BAD, "a cell contributes several columns", ("", "")
                return UND, f"cell {show_segs(al.segs)[:80]}", ("", "")
            ps = flat(al.segs[0][1])
            core = [i for i, q in enumerate(ps) if not isinstance(q, Const)]
            if len(core) != 1:
                if not core:
                    return BAD, "a cell's content is replaced by a constant", ("", "")
                return UND, f"cell {show(al.segs[0][1])[:80]}", ("", "")
            a = "".join(q.v for q in ps[:core[0]])
            z = "".join(q.v for q in ps[core[0] + 1:])
            if own is not None and (own[0].strip(), own[1].strip()) != (a.strip(), z.strip()):
                return UND, "cells decorated differently", ("", "")
            own = (a, z)
            q = ps[core[0]]
            # newline-free cell text
            s = nl_free(C, q)
            if s == "no":
                return BAD, f"a cell's text may contain a line break", ("", "")
            if s == "und":
                return UND, f"cell text {show(q)[:80]}", ("", "")
            # the escaped pipes of the cell stay escaped
            got = fold_chain(q, "a \\| b")
            if got is not None and "|" in got.replace("\\|", ""):
                return BAD, f"the escaped pipes of a cell's text are bare again after {show(q)[-60:]}", ("", "")
        return OK, "", own or ("", "")
    return test


def c17(C, R):
    # (a) cells
    for cname in ("NodeTableCell", "NodeTableHeader"):
        if C.cls(cname) is None or miss(C, R, "cell text", cname):
            continue
        w = C.where_of(cname, "to_markdown")
        for ig in (False, True):
            r = C.md(cname, ig=ig)
            inst = cname + (" (ignore_error)" if ig else "")
            if r is None:
                und_fail(C, R, "cell text", inst, ("md", cname, ig, None, None), cname)
                continue
            probs = []
            for p in r:
                if p.exc is not None:
                    continue
                s = nl_free(C, p.v)
                if s == "no":
                    probs.append((BAD, "a line break of the content can reach the cell's text"))
                elif s == "und":
                    probs.append((UND, f"line breaks of {show(p.v)[:100]}"))
                s = pipe_safe(C, p.v)
                if s == "no":
                    probs.append((BAD, "an unescaped pipe of the content can reach the cell's text"))
                elif s == "und":
                    probs.append((UND, f"pipes of {show(p.v)[:100]}"))
            R.verdict("cell text", inst, dedupe(probs), w)
    # (b) rows
    cname = "NodeTableRow"
    if C.cls(cname) is not None and not miss(C, R, "row line", cname):
        me = C.me(cname)
        ft = C.field(me, cname, "content")
        w = C.where_of(cname, "to_markdown")
        for ig in (False, True):
            r = C.md(cname, ig=ig, policy=frozenset() if ig else None)
            inst = cname + (" (ignore_error)" if ig else "")
            if r is None:
                und_fail(C, R, "row line", inst, ("md", cname, ig, None, None), cname)
                continue
            probs = []
            for p in r:
                if p.exc is not None:
                    continue
                if any(k[0] == "truthy" and k[1] == ft and b is False for k, b in p.facts.items()):
                    continue
                if all(isinstance(q, Const) for q in flat(p.v)) and isinstance(p.v, (Const, Sym)) and \
                        not unknown_facts(p) and not any(k[0] == "nonempty" or k[0] == "isopt" and k[1] == ft and b
                                                         for k, b in p.facts.items()):
                    probs.append((BAD, f"the row's cells are not rendered when {C.facts_str(p)[:160]}"))
                    continue
                st, why = line_shape(p.v, row_cell(C, me, ft), lambda n: (UND, "row built by repetition"))
                if st != OK:
                    probs.append((st, why))
            R.verdict("row line", inst, dedupe(probs), w)
    # (c) the table
    cname = "NodeTable"
    if C.cls(cname) is not None and not miss(C, R, "table lines", cname):
        me = C.me(cname)
        ft = C.field(me, cname, "content")
        w = C.where_of(cname, "to_markdown")
        for ig in (False, True):
            r = C.md(cname, ig=ig, policy=raisers(C) if ig else None)
            inst = cname + (" (ignore_error)" if ig else "")
            if r is None:
                und_fail(C, R, "table lines", inst, ("md", cname, ig, None, None), cname)
                continue
            probs = []
            for p in r:
                if p.exc is not None:
                    continue
                probs += table_problems(C, p, me, ft)
            R.verdict("table lines", inst, dedupe(probs), w)


def table_problems(C, p, me, ft):
    v = p.v
    if any(k[0] == "truthy" and k[1] == ft and b is False for k, b in p.facts.items()):
        return []
    # tolerate whole-text whitespace trimming and surrounding line breaks
    ps = [q for q in flat(v) if not (isinstance(q, Const) and isinstance(q.v, str) and not q.v.strip("\n"))]
    if len(ps) != 1:
        return [(UND, f"table {show(v)[:120]}")]
    v = ps[0]
    while isinstance(v, Sym) and v.op == "meth" and v.args[0] in ("strip", "rstrip", "lstrip") and len(v.args) == 2:
        v = v.args[1]
    if not (isinstance(v, Sym) and v.op == "join" and isinstance(v.args[0], Const)):
        return [(UND, f"table {show(v)[:120]}")]
    sep, segs = v.args[0].v, v.args[1]
    if len(segs) != 1 or segs[0][0] != "rep":
        return [(UND, f"rows {show_segs(segs)[:120]}")]
    rep = segs[0][1]
    if strip_copy(rep.source) != ft:
        s = rep.source
        if isinstance(s, Sym) and s.op in ("slice", "sorted", "reversed", "set") and mentions(s, ft):
            return [(UND if unclear_cut(s) else BAD, f"only the rows {show(s)} are rendered")]
        return [(UND, f"rows from {show(rep.source)[:80]}")]
    if rep.rev:
        return [(BAD, "the rows are rendered in reverse order")]
    el = elem_of(rep.source)
    out = []
    for al in rep.alts:
        g = al.guard
        gt = " and ".join(map(show_guard, g)) or "always"
        vals = []
        for s in al.segs:
            if s[0] != "e":
                vals = None
                break
            vals += split_lines(s[1], sep)
        if vals is None:
            out.append((UND, f"row lines {show_segs(al.segs)[:100]}"))
            continue
        kinds = [line_kind(x, el) for x in vals]
        if any(k == "und" for k in kinds):
            out.append((UND, f"row lines {show_segs(al.segs)[:100]}"))
            continue
        if sep != "\n" and not (sep == "" and False):
            if sep.replace("\n", "").strip():
                out.append((BAD, f"the rows are separated by {sep!r}"))
            elif sep == "":
                out.append((UND, "rows joined without a separator"))
            elif sep.count("\n") != 1:
                out.append((BAD, "the table is torn apart by blank lines"))
        rows = [k for k in kinds if k == "row"]
        delims = [x for x, k in zip(vals, kinds) if k == "delim"]
        hdr = header_first(C, g, el)
        if not rows:
            if any(e[0] == "caught" for e in al.events):
                if delims:
                    out.append((BAD, "a delimiter line is emitted for a row that failed to convert"))
                continue
            out.append((BAD, f"a row is left out when {gt[:160]}") if not any(mentions_unknown(x) for x in g)
                       else (UND, f"row left out when {gt[:100]}"))
            continue
        if len(rows) > 1:
            out.append((BAD, "a row is rendered more than once"))
        if len(delims) > 1:
            out.append((BAD, "more than one delimiter line follows a row"))
        if delims:
            if kinds.index("delim") < kinds.index("row"):
                out.append((BAD, "the delimiter line precedes its header row"))
            if hdr is False:
                out.append((BAD, f"a delimiter line follows a row that does not start with a header cell (when {gt[:160]})"))
            elif hdr is None:
                out.append((UND if any(mentions_unknown(x) for x in g) else BAD,
                            f"a delimiter line is emitted although the row need not start with a header cell (when {gt[:160]})"))
            for d in delims:
                st, why = delim_ok(d, el)
                if st != OK:
                    out.append((st, why))
        elif hdr is True and not any(e[0] == "caught" for e in al.events):
            out.append((BAD if not any(mentions_unknown(x) for x in g) else UND,
                        f"no delimiter line follows a row that starts with a header cell (when {gt[:160]})"))
        elif hdr is None:
            out.append((UND if any(mentions_unknown(x) for x in g) else BAD,
                        f"whether a delimiter line follows does not depend on the row's first cell (when {gt[:160]})"))
    return out


def split_lines(t, sep):
    """Split a text at constant line breaks."""
    cur, out = [], []
    for q in flat(t):
        if isinstance(q, Const) and isinstance(q.v, str) and "\n" in q.v:
            parts = q.v.split("\n")
            cur.append(Const(parts[0]))
            for x in parts[1:]:
                out.append(cat(cur))
                cur = [Const(x)]
        else:
            cur.append(q)
    out.append(cat(cur))
    return [x for x in out if x != EMPTY]


def written(x):
    """The values whose text is part of x (not those that only count how often something is repeated)."""
    yield x
    if isinstance(x, Sym) and x.op == "join":
        yield from written(x.args[0])
        for s in x.args[1]:
            if s[0] == "mul":
                for i in seg_values(s[1]):
                    yield from written(i)
            else:
                for i in seg_values([s]):
                    yield from written(i)
    elif isinstance(x, Sym) and x.op == "mul":
        yield from written(x.args[0])
    else:
        for c in children(x):
            yield from written(c)


def line_kind(x, el):
    if isinstance(x, Sym) and x.op == "md" and x.args[0] == el:
        return "row"
    if isinstance(x, Sym) and x.op == "meth" and x.args[0] in ("strip", "rstrip") and len(x.args) == 2:
        return line_kind(x.args[1], el)
    if not isinstance(x, V):
        return "und"
    if any(isinstance(s, Sym) and s.op == "md" for s in written(x)):
        return "und"
    if "---" in " ".join(str(s.v) for s in subterms(x) if isinstance(s, Const)) or "-" in "".join(
            str(s.v) for s in subterms(x) if isinstance(s, Const)):
        return "delim"
    return "und"


def header_first(C, guard, el):
    """Does the guard say that the row's first cell is a header? True / False / None"""
    for g in guard:
        if g[0] == "cls":
            t = g[1]
            if is_first(t, el):
                if g[2] == frozenset(["NodeTableHeader"]):
                    return True
                if "NodeTableHeader" not in g[2]:
                    return False
        if g[0] == "vals":
            t = g[1]
            if isinstance(t, Sym) and t.op == "field" and t.args[1] == "type" and is_first(t.args[0], el):
                vs = {c.v for c in g[2]}
                if vs == {"tableHeader"}:
                    return True
                if "tableHeader" not in vs:
                    return False
        if g[0] == "fact":
            p, b = g[1], g[2]
            if p[0] == "truthy" and is_field(p[1], el, "content") and b is False:
                return False
            if p[0] == "isopt" and is_field(p[1], el, "content") and b is True:
                return False
            if p[0] in ("eqc", "eq") and isinstance(p[1], Sym) and p[1].op == "len" and p[2] == Const(0) and b and \
                    is_field(p[1].args[0], el, "content"):
                return False
            if p[0] == "lt" and b is False and p[1] == Const(0) and isinstance(p[2], Sym) and p[2].op == "len" and \
                    is_field(p[2].args[0], el, "content"):
                return False
            if p[0] in ("eqc", "eq") and isinstance(p[1], Sym) and p[1].op == "field" and p[1].args[1] == "type" and \
                    is_first(p[1].args[0], el) and p[2] == Const("tableHeader"):
                return b
    return None


def is_first(t, el):
    return isinstance(t, Sym) and t.op == "index" and t.args[1] == Const(0) and is_field(t.args[0], el, "content")


def delim_ok(d, el):
    n_ok = lambda n: (OK, "") if isinstance(n, Sym) and n.op == "len" and is_field(n.args[0], el, "content") else \
        ((BAD, f"the delimiter line has {show(n)} columns instead of one per cell of its row")
         if isinstance(n, Const) or not has_unknown(n) else (UND, show(n)))

    def cell(segs):
        if len(segs) == 1 and segs[0][0] == "mul":
            inner = segs[0][1]
            st, why = n_ok(segs[0][2])
            if st != OK:
                return st, why, ("", "")
            if len(inner) == 1 and inner[0][0] == "e" and isinstance(inner[0][1], Const):
                return mark_of(inner[0][1].v)
            return UND, "delimiter", ("", "")
        if len(segs) == 1 and segs[0][0] == "rep":
            r = segs[0][1]
            s = r.source
            if not (isinstance(s, Sym) and (is_field(s, el, "content"))):
                if isinstance(s, Sym) and s.op == "range" and len(s.args) >= 1 and isinstance(s.args[-1], V):
                    n = s.args[1] if len(s.args) > 1 else s.args[0]
                    st, why = n_ok(n)
                    if st != OK:
                        return st, why, ("", "")
                elif isinstance(s, Sym) and not has_unknown(s):
                    return BAD, f"the delimiter line has one column per element of {show(s)[:80]}, not of its own row", ("", "")
                else:
                    return UND, f"delimiter over {show(s)[:80]}", ("", "")
            if r.partial:
                return BAD, "the delimiter line may be cut short", ("", "")
            own = None
            for al in r.alts:
                vs = [x[1] for x in al.segs if x[0] == "e"]
                if len(vs) != 1 or len(al.segs) != 1:
                    return (BAD if all(x[0] == "e" for x in al.segs) and not any(mentions_unknown(g) for g in al.guard)
                            else UND), "the delimiter line does not have one column per cell", ("", "")
                if not isinstance(vs[0], Const):
                    return UND, "delimiter", ("", "")
                own = mark_of(vs[0].v)
                if own[0] != OK:
                    return own
            return own or (UND, "delimiter", ("", ""))
        return UND, f"delimiter {show_segs(segs)[:80]}", ("", "")
    return line_shape(d, cell, n_ok)


def mark_of(s):
    core = s.strip(" |")
    if core != "---":
        if set(core) <= {"-", ":"} and core.strip(":") and len(core.strip(":")) >= 3:
            return UND, f"column mark {core!r}", ("", "")
        return BAD, f"the delimiter line uses {core!r} instead of '---'", ("", "")
    i = s.index("---")
    return OK, "", (s[:i], s[i + 3:])


# ------------------------------------------------------------------------------ C18
def quoted(C, t, me, facts, st=None):
    """Every line of t starts with '>': (OK|BAD|UND, why)"""
    if t == EMPTY:
        return OK, ""
    if isinstance(t, Const):
        ls = t.v.split("\n")
        if ls and ls[-1] == "":
            ls = ls[:-1]
        return (OK, "") if all(x.startswith(">") for x in ls) else (BAD, f"the line {t.v!r} is not quoted")
    if not isinstance(t, Sym):
        return UND, repr(t)
    op, a = t.op, t.args
    if op == "indent":
        pre = a[1]
        if isinstance(pre, Const) and isinstance(pre.v, str):
            if not pre.v.startswith(">"):
                return BAD, f"lines are prefixed with {pre.v!r}"
            if a[2] == "all":
                return OK, ""
            if a[2] in ("nonblank", "none"):
                if a[2] == "none":
                    return BAD, "no line is quoted"
                return BAD, "blank lines are not quoted"
            if a[2] == "some":
                return BAD, "some lines are not quoted, depending on what they contain"
            return UND, "line filter"
        return UND, "prefix"
    if op == "cat":
        und = None
        groups = line_groups(flat(t))
        for i, g in enumerate(groups):
            if not g:
                if i == len(groups) - 1:
                    continue
                return BAD, "a blank line without the quote marker"
            st_, why = quoted_group(C, g, me, facts, st)
            if st_ == BAD:
                return BAD, why
            if st_ == UND:
                und = why
        return (OK, "") if und is None else (UND, und)
    if op == "join":
        sep = a[0]
        if not isinstance(sep, Const):
            return UND, "separator"
        if not a[1]:
            return OK, ""
        nl_end = sep.v.endswith("\n")
        if sep.v in ("\n> ", "\n>"):
            # first piece must be quoted by what precedes: only valid after a '>' prefix
            return BAD, "the first line is not quoted"
        mids = sep.v.split("\n")
        if not nl_end:
            return UND, f"separator {sep.v!r}"
        if any(not m.startswith(">") for m in mids[1:-1]):
            return BAD, "blank separator lines are not quoted"
        unds = None
        for s in a[1]:
            for v, g in seg_items(s):
                if v is None:
                    unds = "list"
                    continue
                if isinstance(v, Sym) and v.op == "unknown":
                    unds = "unknown"
                    continue
                st_, why = quoted_line(C, v, me, facts, g)
                if st_ == BAD:
                    return BAD, why
                if st_ == UND:
                    unds = why
        return (OK, "") if unds is None else (UND, unds)
    if op == "replace_fix":
        s = quoted(C, a[0], me, facts, st)
        if s[0] == OK and a[1] == Const("\n\n\n"):
            return OK, ""
        return UND, show(t)[:80]
    if op == "meth":
        if a[0] in ("rstrip", "strip") and len(a) == 2:
            return quoted(C, a[1], me, facts, st)
        if a[0] == "replace":
            return UND, show(t)[:80]
        return UND, show(t)[:80]
    if op == "phi":
        x, y = quoted(C, a[1], me, facts), quoted(C, a[2], me, facts)
        return x if x[0] == BAD else y if y[0] == BAD else x if x[0] == UND else y
    if op == "md":
        return BAD, f"the lines of {show(t)[:60]} are not quoted"
    if op == "fold":
        return UND, "fold"
    return UND, show(t)[:100]


def line_groups(ps):
    """The pieces of a text, grouped by the lines that constant line breaks separate."""
    out = [[]]
    for q in ps:
        if isinstance(q, Const) and isinstance(q.v, str):
            parts = q.v.split("\n")
            for i, x in enumerate(parts):
                if i:
                    out.append([])
                if x:
                    out[-1].append(Const(x))
        elif q != EMPTY:
            out[-1].append(q)
    return out


def quoted_group(C, g, me, facts, st):
    """One line (the symbolic pieces of which may have further lines)."""
    if isinstance(g[0], Const):
        if not str(g[0].v).startswith(">"):
            return BAD, f"the line {str(g[0].v)!r}... is not quoted"
        und = None
        for q in g[1:]:
            s = continued(C, q, me)
            if s == "no":
                return BAD, f"continuation lines of {show(q)[:80]} are not quoted"
            if s == "und":
                und = show(q)[:80]
        return (OK, "") if und is None else (UND, und)
    s, why = quoted(C, g[0], me, facts, st)
    if s != OK or len(g) == 1:
        return s, why
    return UND, show(cat(g))[:100]


def seg_items(s):
    if s[0] == "e":
        yield s[1], ()
    elif s[0] == "rep":
        for al in s[1].alts:
            for x in al.segs:
                for v, g in seg_items(x):
                    yield v, g + al.guard
    elif s[0] == "cond":
        for x in list(s[2]) + list(s[3]):
            yield from seg_items(x)
    elif s[0] == "mul":
        for x in s[1]:
            yield from seg_items(x)
    else:
        yield None, ()


def text_line(C, q, me, facts, guard):
    """q is a line split off a text that is not quoted, and no condition says that it is a quoted one."""
    while isinstance(q, Sym) and q.op == "meth" and q.args[0] in ("strip", "rstrip") and len(q.args) == 2:
        q = q.args[1]
    if not (isinstance(q, Sym) and q.op in ("elem", "index") and isinstance(q.args[0], Sym)):
        return False
    src = q.args[0]
    while isinstance(src, Sym) and src.op == "slice":
        src = src.args[0]
    if not (isinstance(src, Sym) and src.op == "meth" and src.args[0] in ("split", "splitlines")):
        return False
    core = src.args[1]
    while isinstance(core, Sym) and (core.op == "meth" and core.args[0] in ("strip", "rstrip", "lstrip") or
                                     core.op == "replace_fix"):
        core = core.args[1] if core.op == "meth" else core.args[0]
    if not (isinstance(core, Sym) and core.op in ("join", "md")) or has_unknown(core):
        return False
    for g in guard:
        if mentions_unknown(g):
            return False
        if g[0] == "fact" and g[1][0] in ("strpred", "contains", "eqc", "eq", "inset") and mentions_text(
                {g[1]: g[2]}, q):
            return False
    return True


def quoted_line(C, v, me, facts, guard=()):
    """One joined line: starts with '>' and has no line break of its own (or quotes them)."""
    ps = [q for q in flat(v) if q != EMPTY]
    if not ps:
        return BAD, "a blank line is not quoted"
    if isinstance(ps[0], Const) and isinstance(ps[0].v, str):
        if not ps[0].v.startswith(">"):
            return BAD, f"a line starting with {ps[0].v!r} is not quoted"
        s = worst(nl_free(C, q) for q in ps)
        if s == "yes":
            return OK, ""
        s2 = worst(continued(C, q, me) for q in ps)
        if s2 == "yes":
            return OK, ""
        if "no" in (s2,):
            return BAD, f"continuation lines of {show(v)[:80]} are not quoted"
        return UND, show(v)[:80]
    if text_line(C, ps[0], me, facts, guard):
        return BAD, f"the line {show(v)[:80]} is not quoted when {' and '.join(map(show_guard, guard))[:80]}"
    if isinstance(ps[0], Sym) and ps[0].op in ("indent", "join", "meth"):
        return quoted(C, v, me, facts)
    if isinstance(ps[0], Sym) and ps[0].op in ("elem", "md", "index", "field"):
        return BAD, f"the line {show(v)[:80]} is not quoted"
    return UND, show(v)[:80]


def continued(C, q, me):
    """Every line of q after the first starts with '>': 'yes'/'no'/'und'"""
    if nl_free(C, q) == "yes":
        return "yes"
    if isinstance(q, Const):
        return "yes" if all(x.startswith(">") for x in q.v.split("\n")[1:]) or q.v == "\n" else "no"
    if isinstance(q, Sym):
        if q.op == "meth" and q.args[0] == "replace" and len(q.args) == 4 and q.args[2] == Const("\n") and \
                isinstance(q.args[3], Const) and q.args[3].v.startswith("\n>"):
            return "yes"
        if q.op == "join" and isinstance(q.args[0], Const) and q.args[0].v.startswith("\n>"):
            return worst(nl_segs(C, s, 0) for s in q.args[1])
        if q.op in ("md", "join", "replace_fix", "meth", "cat", "field"):
            if q.op == "meth" and q.args[0] in ("strip", "rstrip", "lstrip"):
                return continued(C, q.args[1], me)
            if q.op == "cat":
                return worst(continued(C, x, me) for x in q.args)
            return nl_free(C, q) if nl_free(C, q) != "yes" else "yes"
    return "und"


def first_text(t):
    """The text inside the quoting."""
    if isinstance(t, Sym):
        if t.op == "indent":
            return t.args[0]
        if t.op == "cat" and t.args and isinstance(t.args[0], Sym):
            return first_text(t.args[0])
    return None


def c18(C, R):
    for cname in ("NodeBlockquote", "NodePanel", "NodeDecisionItem"):
        if C.cls(cname) is None or miss(C, R, "every line quoted", cname):
            continue
        me = C.me(cname)
        w = C.where_of(cname, "to_markdown")
        for ig in (False, True):
            r = C.md(cname, ig=ig)
            inst = cname + (" (ignore_error)" if ig else "")
            if r is None:
                und_fail(C, R, "every line quoted", inst, ("md", cname, ig, None, None), cname)
                continue
            probs, title = [], []
            for p in r:
                if p.exc is not None:
                    continue
                st, why = quoted(C, p.v, me, p.facts)
                if st != OK:
                    probs.append((st, why))
                if cname == "NodePanel":
                    title += panel_title(C, p.v, me)
            R.verdict("every line quoted", inst, dedupe(probs), w)
            if cname == "NodePanel":
                R.verdict("panel title", inst, dedupe(title), w)


def panel_title(C, v, me):
    t = first_text(v)
    while isinstance(t, Sym) and (t.op in ("replace_fix",) or t.op == "meth" and t.args[0] in ("strip", "lstrip", "rstrip")):
        t = t.args[0] if t.op == "replace_fix" else t.args[1]
    ps = None
    if isinstance(t, Sym):
        if t.op == "join" and t.args[1] and t.args[1][0][0] == "e" and t.args[0] == Const("\n"):
            ps = flat(t.args[1][0][1]) + [Const("\n")]
        elif t.op == "cat":
            ps = flat(t)
    if ps is None:
        # '> **' written directly
        ps = flat(v)
        if not (isinstance(ps[0], Const) and str(ps[0].v).startswith("> ")):
            return [(UND, f"first line of {show(v)[:100]}")]
        ps = [Const(ps[0].v[2:])] + ps[1:]
    ps = [q for q in ps if q != EMPTY]
    if len(ps) >= 3 and ps[0] == Const("**") and isinstance(ps[2], Const) and ps[2].v.startswith("**\n"):
        q = ps[1]
        if isinstance(q, Sym) and q.op == "meth" and q.args[0] == "upper" and fpath(q.args[1], me) == "attrs.panelType":
            return []
        if fpath(q, me) == "attrs.panelType":
            return [(BAD, "the panel type is not in capitals")]
        if isinstance(q, Sym) and q.op == "meth" and fpath(q.args[1], me) == "attrs.panelType":
            return [(BAD, f"the panel type is rendered with {q.args[0]}() instead of capitals")]
        if fpath(q, me):
            return [(BAD, f"the panel's first line shows {fpath(q, me)}")]
        return [(UND, show(q)[:80])]
    ptypes = [i for i, q in enumerate(ps) if isinstance(q, Sym) and any(
        fpath(s, me) == "attrs.panelType" for s in subterms(q))]
    vals = [q for q in ps if isinstance(q, Const) and str(q.v).startswith("**")]
    if ptypes:
        lead = "".join(str(q.v) for q in ps[:ptypes[0]] if isinstance(q, Const))
        if all(isinstance(q, Const) for q in ps[:ptypes[0]]):
            nxt = ps[ptypes[0] + 1] if ptypes[0] + 1 < len(ps) else EMPTY
            if isinstance(nxt, Const):
                return [(BAD, f"the panel's first line is {lead!r} + type + {nxt.v!r} instead of **TYPE**")]
        return [(UND, "panel title")]
    if ps and isinstance(ps[0], Const) and ps[0].v.startswith("**"):
        import re
        m = re.match(r"\*\*([A-Z]+)\*\*\n", ps[0].v)
        return [] if m else [(UND, f"first line {ps[0].v!r}")]
    if not any(has_unknown(q) for q in ps if isinstance(q, Sym)):
        return [(BAD, "the panel's type is not shown on its first line")]
    return [(UND, "panel title")]


# ------------------------------------------------------------------------------ C19
ITEM = {"NodeBulletList": "NodeListItem", "NodeOrderedList": "NodeListItem", "NodeTaskList": "NodeTaskItem"}


def narrow(t, guard):
    """Classes a term may have under a guard."""
    cs = None
    for g in guard:
        if g[0] == "cls" and g[1] == t:
            cs = g[2] if cs is None else cs & g[2]
    if cs is None and isinstance(t, Sym) and t.ty.classes:
        cs = t.ty.classes
    return cs


def list_lines(C, v, ft):
    """(rep, None) of a list's text or (None, why)."""
    while isinstance(v, Sym) and v.op == "meth" and v.args[0] in ("rstrip",) and len(v.args) == 2:
        v = v.args[1]
    if isinstance(v, Sym) and v.op == "join" and isinstance(v.args[0], Const):
        if len(v.args[1]) == 1 and v.args[1][0][0] == "rep":
            rep = v.args[1][0][1]
            if strip_copy(rep.source) == ft:
                return rep, v.args[0].v
            return None, f"items from {show(rep.source)[:80]}"
    return None, f"list text {show(v)[:100]}"


def md_uses(t, guard=(), wraps=()):
    """(md-term, guard, wrapping methods) below t."""
    if isinstance(t, Sym):
        if t.op == "md":
            yield t, guard, wraps
            return
        if t.op == "phi":
            yield from md_uses(t.args[1], guard + (("fact", t.args[0], True),), wraps)
            yield from md_uses(t.args[2], guard + (("fact", t.args[0], False),), wraps)
            return
        w2 = wraps + ((t.args[0],) if t.op == "meth" else (t.op,) if t.op in ("index", "slice", "elem", "indent", "resub", "replace_fix") else ())
        for a in t.args:
            if isinstance(a, V):
                yield from md_uses(a, guard, w2)
            elif isinstance(a, tuple):
                yield from md_uses_segs(a, guard, w2)
            elif isinstance(a, Rep):
                yield from md_uses_segs((("rep", a),), guard, w2)


def md_uses_segs(segs, guard, wraps):
    for s in segs:
        if not isinstance(s, tuple) or not s:
            continue
        if s[0] == "e":
            yield from md_uses(s[1], guard, wraps)
        elif s[0] == "rep":
            yield from md_uses(s[1].source, guard, wraps + ("elem",))
            for al in s[1].alts:
                yield from md_uses_segs(al.segs, guard + al.guard, wraps)
        elif s[0] == "cond":
            yield from md_uses_segs(s[2], guard, wraps)
            yield from md_uses_segs(s[3], guard, wraps)
        elif s[0] == "mul":
            yield from md_uses_segs(s[1], guard, wraps)
        elif isinstance(s, V):
            yield from md_uses(s, guard, wraps)


def c19(C, R):
    C0 = C
    for cname in LISTS:
        C = C0
        if C.cls(cname) is None or miss(C, R, "item lines", cname):
            continue
        if cname == "NodeTaskList":
            C = open_states(C)
        w = C.where_of(cname, "to_markdown")
        me = C.me(cname)
        ft = C.field(me, cname, "content")
        if not has_param(C, cname, "level"):
            R.bad("item lines", cname, f"{cname} cannot be rendered at a nesting level", w)
            continue
        for ig in (False, True):
            for level in (None, 0, 1, 2, 3, 7, "sym"):
                r = C.md(cname, ig=ig, level=level)
                key = ("md", cname, ig, level, None)
                inst = f"{cname} at level {level if level != 'sym' else 'n'}" + (" (ignore_error)" if ig else "")
                if r is None:
                    R.und("item lines", inst, C.why(key), w)
                    continue
                probs, nest = [], []
                for p in r:
                    if p.exc is not None:
                        continue
                    probs += item_problems(C, p, cname, me, ft, 0 if level is None else level)
                    nest += nest_problems(C, p, cname, 0 if level is None else level)
                R.verdict("item lines", inst, dedupe(probs), w)
                R.verdict("nested one level deeper", inst, dedupe(nest), w)
        if C is not C0:
            C0.paths += C.paths


def open_states(C):
    """The same analysis with a state that need not be one of the declared ones (the models do not check it)."""
    ci = C.cls("NodeTaskItemAttrs")
    f = ci.fields.get("state") if ci else None
    if f is None or f.ty.lits is None:
        return C
    from ..ctx import Ctx
    D = Ctx(C.root, C.E.overlay)
    D.tier = getattr(C, "tier", "quick")
    D.cls("NodeTaskItemAttrs").fields["state"].ty = f.ty.w(lits=None)
    D.prepare_marks()
    return D


def level_term(level):
    return Sym("param", ("level",), INT)


def indent_of(ps, level):
    """Split the leading indentation off the pieces of a line -> (status, rest, why)"""
    ps = [q for q in ps if q != EMPTY]
    if level != "sym":
        want = "    " * level
        if ps and isinstance(ps[0], Const) and isinstance(ps[0].v, str):
            s = ps[0].v
            lead = len(s) - len(s.lstrip(" \t"))
            if lead == len(s) and len(ps) > 1 and isinstance(ps[1], Sym):
                # indentation directly before a symbolic marker (ordered list)
                pass
            if s[:lead] == want:
                return OK, [Const(s[lead:])] + ps[1:], ""
            return BAD, ps, f"an item at level {level} is indented by {s[:lead]!r} instead of {len(want)} spaces"
        if level == 0:
            return OK, ps, ""
        if ps and isinstance(ps[0], Sym) and not has_unknown(ps[0]) and ps[0].op in ("mul", "bin", "str", "loopvar", "idx", "field"):
            if ps[0].op == "mul":
                return UND, ps, f"indentation {show(ps[0])[:60]}"
            return BAD, ps, f"an item at level {level} is not indented"
        return UND, ps, f"indentation {show(ps[0])[:60] if ps else ''}"
    L = level_term(level)
    if ps and isinstance(ps[0], Sym) and ps[0].op == "mul":
        u, n = ps[0].args[0], ps[0].args[1]
        if u == Const("    ") and n == L:
            return OK, ps[1:], ""
        if u == Const(" ") and isinstance(n, Sym) and n.op == "bin" and n.args[0] == "*" and set(n.args[1:]) == {L, Const(4)}:
            return OK, ps[1:], ""
        if isinstance(u, Const) and n == L:
            return BAD, ps, f"items are indented by {u.v!r} per level"
        for k in range(13):
            try:
                got = fold_term(ps[0], {L: k})
            except NoValue:
                break
            if got != "    " * k:
                return BAD, ps, f"an item at level {k} is indented by {got!r}"
        return UND, ps, f"indentation {show(ps[0])[:60]}"
    if ps and isinstance(ps[0], Const):
        return UND, ps, f"indentation does not depend on the level symbolically ({ps[0].v!r})"
    return UND, ps, "indentation"


def item_problems(C, p, cname, me, ft, level):
    if any(k[0] == "truthy" and k[1] == ft and b is False for k, b in p.facts.items()):
        return []
    rep, sep = list_lines(C, p.v, ft)
    if rep is None:
        return [(UND, sep)]
    out = []
    if sep != "\n":
        if "\n" not in sep:
            out.append((BAD, f"items are separated by {sep!r}, not by a line break"))
        else:
            out.append((UND, f"separator {sep!r}"))
    el = elem_of(rep.source)
    for al in rep.alts:
        cs = narrow(el, al.guard)
        g = tuple(("fact", k, b) for k, b in p.facts.items()) + al.guard
        gt = " and ".join(map(show_guard, al.guard))[:120]
        if any(e[0] == "caught" for e in al.events) and not al.segs:
            continue
        if cs and ITEM[cname] not in cs:
            # a nested list of its own: rendered as it is
            if cname == "NodeTaskList" and cs <= {"NodeTaskList"} and al.segs:
                v = al.segs[0][1] if al.segs[0][0] == "e" else None
                if isinstance(v, Sym) and v.op == "cat" and isinstance(v.args[0], Const) and v.args[0].v.strip():
                    out.append((BAD, f"a nested task list is prefixed with {v.args[0].v!r}"))
            continue
        if not al.segs:
            if any(mentions_unknown(x) for x in g):
                out.append((UND, "item without a line"))
            continue        # decided by C12
        s0 = al.segs[0]
        if s0[0] != "e":
            out.append((UND, f"first line {show_segs([s0])[:80]}"))
            continue
        v = s0[1]
        for facts, ps in _expand(v, {k: b for _, k, b in [x for x in g if x[0] == "fact"]}):
            ps = merge_consts(ps)
            st, rest, why = indent_of(ps, level)
            if st != OK:
                out.append((st, why))
                if st == BAD:
                    continue
                continue
            rest = merge_consts(rest)
            out += marker_problems(C, p, cname, me, el, rest, facts, al, level, rep, g)
        if uses_order(rep, me):
            out = [x for x in out if x[1] is not REMAINDER]
        # the following lines must not lose their indentation
        for s in al.segs[1:]:
            if s[0] == "rep":
                for a2 in s[1].alts:
                    for x in a2.segs:
                        if x[0] == "e" and isinstance(x[1], Sym) and x[1].op == "meth" and x[1].args[0] in ("strip", "lstrip"):
                            out.append((BAD, "continuation lines lose their indentation"))
    return out


def merge_consts(ps):
    out = []
    for q in ps:
        if isinstance(q, Const) and isinstance(q.v, str):
            if q.v == "":
                continue
            if out and isinstance(out[-1], Const) and isinstance(out[-1].v, str):
                out[-1] = Const(out[-1].v + q.v)
                continue
        if isinstance(q, Const) and isinstance(q.v, int) and not isinstance(q.v, bool):
            q = Const(str(q.v))
        out.append(q)
    return out


def marker_problems(C, p, cname, me, el, rest, facts, al, level, rep, g):
    head = rest[0].v if rest and isinstance(rest[0], Const) and isinstance(rest[0].v, str) else ""
    if cname == "NodeBulletList":
        if head.startswith("- ") or head.startswith("* ") and False:
            return []
        if head or not rest or isinstance(rest[0], Sym) and not has_unknown(rest[0]) and (
                rest[0].op in ("index", "md", "elem", "field") or
                rest[0].op == "meth" and rest[0].args[0] in ("strip", "lstrip", "rstrip", "replace")):
            return [(BAD, f"a bullet item starts with {head!r} instead of '- '")]
        return [(UND, f"item starts with {show(rest[0])[:60]}")]
    if cname == "NodeTaskList":
        done = task_done(g, el)
        if head.startswith("- [x] ") or head == "- [x]":
            if done is True:
                return []
            if done is False:
                return [(BAD, "an open task gets a ticked box")]
            return [(UND if any(mentions_unknown(x) for x in g) else BAD, "the box is ticked whatever the task's state")]
        if head.startswith("- [ ] ") or head == "- [ ]":
            if done is False:
                return []
            if done is True:
                return [(BAD, "a finished task gets an empty box")]
            return [(UND if any(mentions_unknown(x) for x in g) else BAD, "the box is empty whatever the task's state")]
        if rest and isinstance(rest[0], Const):
            if head.startswith("- ["):
                if len(rest) > 1 and head == "- [" or head == "- ":
                    return [(UND, "box")]
            if head == "- ":
                return [(UND, "box")]
            return [(BAD, f"a task item starts with {head[:8]!r}")]
        return [(UND, f"item starts with {show(rest[0])[:60] if rest else ''}")]
    # ordered
    if not rest:
        return [(UND, "number")]
    num = rest[0]
    after = rest[1].v if len(rest) > 1 and isinstance(rest[1], Const) and isinstance(rest[1].v, str) else None
    if isinstance(num, Const):
        return [(BAD if not any(mentions_unknown(x) for x in g) else UND,
                 f"an ordered item starts with {head[:8]!r} instead of its number")]
    out = []
    if after is None or not after.startswith(". "):
        out.append((BAD if after is not None else UND, f"the number is followed by {after!r} instead of '. '"))
    while isinstance(num, Sym):
        if num.op == "str":
            num = num.args[0]
        elif num.op == "fmt" and isinstance(num.args[1], Const) and isinstance(num.args[1].v, str):
            # a format that leaves some number as it is not must not be used
            try:
                off = [k for k in (1, 7, 12, 1000, 12345678) if format(k, num.args[1].v) != str(k)]
            except ValueError:
                return out + [(UND, f"number {show(num)[:60]}")]
            if off:
                return out + [(BAD, f"number {off[0]} is written as {format(off[0], num.args[1].v)!r}")]
            num = num.args[0]
        elif num.op == "meth" and num.args[0] in ("zfill", "rjust", "ljust", "center") and len(num.args) > 2 and \
                isinstance(num.args[2], Const) and isinstance(num.args[2].v, int):
            if num.args[2].v > 1:
                return out + [(BAD, f"number 1 is padded to {num.args[2].v} characters")]
            num = num.args[1]
        else:
            break
    return out + number_problems(C, p, me, el, num, level, rep, facts)


def task_done(guard, el):
    st = None
    for g in guard:
        if g[0] == "vals" and is_state(g[1], el):
            vs = {c.v for c in g[2]}
            if vs == {"DONE"}:
                return True
            if "DONE" not in vs:
                return False
        if g[0] == "fact" and g[1][0] in ("eqc", "eq") and is_state(g[1][1], el):
            c = g[1][2]
            if c == Const("DONE"):
                return g[2]
            if c == Const("TODO") and g[2]:
                return False
    return st


def is_state(t, el):
    return isinstance(t, Sym) and t.op == "field" and t.args[1] == "state" and isinstance(t.args[0], Sym) and \
        t.args[0].op == "field" and t.args[0].args[1] == "attrs" and t.args[0].args[0] == el


REMAINDER = "the list's own start number is ignored"


def uses_order(rep, me):
    """Is there an alternative for exactly the lists that have a start number, numbered from it?"""
    attrs = Sym("field", (me, "attrs"))
    order = Sym("field", (attrs, "order"))
    for al in rep.alts:
        known = {g[1][0:2]: g[2] for g in al.guard if g[0] == "fact"}
        if known.get(("isopt", attrs)) is False and known.get(("isopt", order)) is False and all(
                k[0] == "isopt" or k[1] == level_term(None) or k[0] == "lt" for k in known) and any(
                s[0] == "e" and any(strip_copy(x) == order for x in subterms(s[1]) if isinstance(x, Sym))
                for s in al.segs[:1]):
            return True
    return False


class Known:
    def __init__(self, facts):
        self.facts = facts


def plus(v, n):
    """v + n with the constants gathered"""
    if n == 0:
        return v
    if isinstance(v, Const) and isinstance(v.v, int):
        return Const(v.v + n)
    if isinstance(v, Sym) and v.op == "phi":
        return Sym("phi", (v.args[0], plus(v.args[1], n), plus(v.args[2], n)), v.ty)
    if isinstance(v, Sym) and v.op == "bin" and v.args[0] in ("+", "-"):
        o, x, y = v.args
        if isinstance(y, Const) and isinstance(y.v, int):
            return plus(x, (y.v if o == "+" else -y.v) + n)
        if o == "+" and isinstance(x, Const) and isinstance(x.v, int):
            return plus(y, x.v + n)
    return Sym("bin", ("+", v, Const(n)), INT)


def summands(v):
    if isinstance(v, Sym) and v.op == "bin" and v.args[0] == "+":
        return summands(v.args[1]) + summands(v.args[2])
    if isinstance(v, Sym) and v.op == "bin" and v.args[0] == "-" and isinstance(v.args[2], Const) and \
            isinstance(v.args[2].v, int):
        return summands(v.args[1]) + [Const(-v.args[2].v)]
    return [v]


def restarts(num, guard, new, el):
    """A number from 1 on after which the counter is set to a constant that is not the next number."""
    if not isinstance(new, Const) or not isinstance(new.v, int):
        return None
    marks = {0, 1}
    for g in guard:
        if g[0] == "cls" and not mentions(g[1], num):
            if g[1] != el:
                return None
            continue
        if g[0] == "fact":
            vs = [q for q in g[1][1:] if isinstance(q, V)]
            if not any(mentions(v, num) for v in vs):
                if not all(mentions(v, el) or isinstance(v, Const) for v in vs) or any(has_unknown(v) for v in vs):
                    return None
                continue
            if g[1][0] not in ("lt", "eq", "eqc", "truthy"):
                return None
            marks.update(x.v for v in vs for x in subterms(v) if isinstance(x, Const) and isinstance(x.v, int))
        elif mentions_any(g, num):
            return None
        else:
            return None
    for n in sorted({m + d for m in marks for d in (-1, 0, 1, 2)} | {3, 7}):
        if n < 1 or n + 1 == new.v:
            continue
        ok = True
        for g in guard:
            if g[0] != "fact" or not any(isinstance(q, V) and mentions(q, num) for q in g[1][1:]):
                continue
            try:
                xs = [fold_term(q, {num: n}) for q in g[1][1:]]
            except NoValue:
                return None
            v = bool(xs[0]) if g[1][0] == "truthy" else xs[0] < xs[1] if g[1][0] == "lt" else xs[0] == xs[1]
            ok = ok and v is g[2]
        if ok:
            return n
    return None


def mentions_any(g, t):
    return any(isinstance(q, V) and mentions(q, t) for q in g)


def number_problems(C, p, me, el, num, level, rep, ifacts):
    """num is the number term of an arbitrary item, ifacts what is known when its line is made."""
    order = Sym("field", (Sym("field", (me, "attrs")), "order"))
    attrs = Sym("field", (me, "attrs"))

    parts = summands(num)
    moving = [x for x in parts if isinstance(x, Sym) and x.op in ("loopvar", "idx")]
    fixed = [x for x in parts if x not in moving]
    if len(moving) > 1:
        return [(UND, f"number {show(num)[:60]}")]
    whole, num = num, moving[0] if moving else num
    if isinstance(num, Sym) and num.op == "loopvar":
        infos = p.steps.get((num, rep.source))
        if not infos:
            return [(UND, "counter")]
        match = [i for i in infos if all(k in p.facts and p.facts[k] == b for k, b in i[2].items())] or \
            [i for i in infos if all(p.facts.get(k, b) == b for k, b in i[2].items())]
        inits = {i[0] for i in (match or infos)}
        news = {nv for i in infos for g, nv in i[1]}
        steps = set()
        for nv in news:
            if nv == num:
                steps.add(0)
            elif isinstance(nv, Sym) and nv.op == "bin" and nv.args[0] == "+" and num in nv.args[1:]:
                o = nv.args[2] if nv.args[1] == num else nv.args[1]
                steps.add(o.v if isinstance(o, Const) else None)
            else:
                steps.add(None)
        for i in infos:
            for g, nv in i[1]:
                at = restarts(num, g, nv, el)
                if at is not None:
                    return [(BAD, f"the number after {at} is {nv.v!r}")]
        if None in steps:
            return [(UND, f"counter step {[show(x)[:40] for x in news]}")]
        if steps != {1}:
            cs = [(g, nv) for i in infos for g, nv in i[1] if nv == num]
            if steps == {0, 1} and all(any(x[0] == "cls" and x[1] == el and "NodeListItem" not in x[2] for x in g) for g, nv in cs):
                pass
            else:
                return [(BAD, f"the item number does not always grow by one (steps {sorted(steps)})")]
    elif isinstance(num, Sym) and num.op == "idx":
        inits = {Const(0)}
    elif isinstance(num, Sym) and (num == order):
        return [(BAD, "every item carries the list's start number")]
    else:
        return [(UND, f"number {show(num)[:60]}")]
    out = []
    if moving:
        n = sum(x.v for x in fixed if isinstance(x, Const))
        rest = [x for x in fixed if not isinstance(x, Const)]
        if len(rest) > 1 or rest and any(not isinstance(i, Const) for i in inits):
            return [(UND, f"number {show(whole)[:60]}")]
        inits = {plus(rest[0], n + i.v) if rest else plus(i, n) for i in inits}
    for init in inits:
        for facts, leaf in _expand_init(init, dict(ifacts)):
            known = Known(facts)
            ia = facts_get(facts, "isopt", attrs)
            io = facts_get(facts, "isopt", order)
            lv0 = level_zero(facts, p, level)
            if isinstance(leaf, Sym) and leaf.op == "bin" and strip_copy(leaf.args[1]) == order and \
                    isinstance(leaf.args[2], Const):
                out.append((BAD, f"the numbering starts at the list's start number {leaf.args[0]} {leaf.args[2].v!r}"))
                continue
            if isinstance(leaf, Sym) and strip_copy(leaf) == order:
                if lv0 is False:
                    out.append((BAD, "a nested list starts from its own start number instead of 1"))
                elif io is not False and io is not None or ia is True:
                    out.append((BAD, "the start number is used although it is absent"))
                continue
            if leaf == Const(1):
                if lv0 is True and ia is False and io is False:
                    if any(k[0] == "truthy" and k[1] == order and b is False for k, b in facts.items()):
                        out.append((BAD, "a list that starts at 0 is numbered from 1"))
                    elif any("order" in show_pred(k) and k[0] not in ("isopt",) for k in facts):
                        out.append((BAD if not unknown_facts(known) else UND,
                                    f"the list's own start number is ignored when {facts_txt(facts)[:160]}"))
                    else:
                        out.append((BAD, "the list's own start number is ignored"))
                elif lv0 is True and ia is None and io is None:
                    # what is left when the number was present may have been told apart elsewhere
                    out.append((BAD if not unknown_facts(known) else UND, REMAINDER))
                elif lv0 is True and ia is False and io is None:
                    out.append((BAD if not unknown_facts(known) else UND, "the list's own start number is ignored"))
                continue
            if isinstance(leaf, Const):
                out.append((BAD, f"the numbering starts at {leaf.v!r}"))
            else:
                try:
                    off = [k for k in (0, 1, 2, 9, 1000) if fold_term(leaf, {order: k}) != k]
                except NoValue:
                    off = []
                out.append((BAD, f"a list that starts at {off[0]} does not: {show(leaf)[:60]}") if off else
                           (UND, f"start {show(leaf)[:60]}"))
    return out


def facts_get(facts, pred, t):
    for k, b in facts.items():
        if k[0] == pred and isinstance(k[1], Sym) and strip_copy(k[1]) == t:
            return b
    return None


def _expand_init(v, facts):
    if isinstance(v, Sym) and v.op == "phi":
        k = v.args[0]
        if k in facts:
            return _expand_init(v.args[1] if facts[k] else v.args[2], facts)
        return _expand_init(v.args[1], {**facts, k: True}) + _expand_init(v.args[2], {**facts, k: False})
    return [(facts, v)]


def level_zero(facts, p, level):
    if level != "sym":
        return level == 0
    L = level_term(level)
    for k, b in facts.items():
        if k[0] in ("eqc", "eq") and L in k[1:] and Const(0) in k[1:]:
            return b
        if k[0] == "truthy" and k[1] == L:
            return not b
        if k[0] == "lt" and k[1] == Const(0) and k[2] == L:
            return not b
    vs = p.st.vals.get(L)
    if vs is not None:
        if vs == frozenset([Const(0)]):
            return True
        if Const(0) not in vs:
            return False
    return None


NESTED = {"NodeBulletList", "NodeOrderedList", "NodeTaskList"}


def nest_problems(C, p, cname, level):
    out = []
    base = tuple(("cls", t, cs) for t, cs in p.st.cls.items())
    for m, guard, wraps in md_uses(p.v):
        el = m.args[0]
        cs = narrow(el, base + guard)
        if not cs:
            continue
        nest = cs & NESTED
        if not nest:
            continue
        kw = dict(m.args[1])
        lv = kw.get("level", Const(0))
        lists = "/".join(sorted(nest))
        if isinstance(lv, Sym) and not any(is_unknown(x) for x in subterms(lv)) and any(
                isinstance(x, Sym) and x.op in ("listv", "idx") for x in subterms(lv)):
            out.append((BAD, f"the level of a {lists} nested in {cname} depends on what comes before it: {show(lv)[:60]}"))
            continue
        if level == "sym":
            L = level_term(level)
            ok = isinstance(lv, Sym) and lv.op == "bin" and lv.args[0] == "+" and set(lv.args[1:]) == {L, Const(1)}
            if not ok:
                if lv == L or isinstance(lv, Const):
                    out.append((BAD, f"a {lists} nested in {cname} is rendered at level {show(lv)} instead of one deeper"))
                else:
                    out.append((UND, f"level {show(lv)[:60]}"))
                continue
        else:
            if lv != Const(level + 1):
                if isinstance(lv, Const):
                    out.append((BAD, f"a {lists} nested in {cname} at level {level} is rendered at level {lv.v!r} "
                                     f"instead of {level + 1}"))
                else:
                    out.append((UND, f"level {show(lv)[:60]}"))
                continue
        # direct trimming of the nested text
        bad = [x for x in wraps if x in ("strip", "lstrip")]
        if bad:
            out.append((BAD, f"the nested {lists} loses its indentation through {bad[-1]}()"))
    return out


# ------------------------------------------------------------------------------ C22
def c22(C, R):
    cname = "NodeCodeBlock"
    if C.cls(cname) is None or miss(C, R, "fenced code", cname):
        return
    me = C.me(cname)
    ft = C.field(me, cname, "content")
    lang = Sym("field", (Sym("field", (me, "attrs")), "language"))
    w = C.where_of(cname, "to_markdown")
    for ig in (False, True):
        r = C.md(cname, ig=ig)
        inst = cname + (" (ignore_error)" if ig else "")
        if r is None:
            und_fail(C, R, "fenced code", inst, ("md", cname, ig, None, None), cname)
            continue
        probs = []
        for p in r:
            if p.exc is not None:
                continue
            for facts, ps in _expand(p.v, dict(p.facts)):
                probs += code_problems(C, p, merge_consts(ps), facts, me, ft, lang)
        R.verdict("fenced code", inst, dedupe(probs), w)


def code_problems(C, p, ps, facts, me, ft, lang):
    oa = facts_get(facts, "isopt", Sym("field", (me, "attrs")))
    ol = facts_get(facts, "isopt", lang)
    oc = facts_get(facts, "isopt", ft)
    empty = facts_get(facts, "truthy", ft) is False or Flow(C, ignore=True).excused(
        me, tuple(("fact", k, b) for k, b in facts.items() if k[0] in ("nonempty", "any"))) is True
    # constants glued: fence + newline
    if any(has_unknown(q) for q in ps if isinstance(q, Sym)):
        return [(UND, show_ps(ps))]
    i = 0
    if not ps or not isinstance(ps[0], Const) or not ps[0].v.startswith("```"):
        if ps and isinstance(ps[0], Const) and ps[0].v.strip() == "" and len(ps) > 1:
            pass
        return [(BAD, f"the code block starts with {show_ps(ps)[:60]} instead of a fence")]
    lead = ps[0].v
    body = []
    if "\n" not in lead:
        if lead != "```":
            return [(BAD, f"the fence line starts with {lead!r}")]
        # language follows
        j = 1
        lg = []
        while j < len(ps) and not (isinstance(ps[j], Const) and "\n" in ps[j].v):
            lg.append(ps[j])
            j += 1
        if j == len(ps):
            return [(BAD, "the code does not start on the line after the fence")] if not any(
                isinstance(q, Sym) and q.op not in ("field", "join") for q in lg) else [(UND, show_ps(ps))]
        c = ps[j].v
        head, rest = c.split("\n", 1)
        if head:
            lg.append(Const(head))
        after = ([Const(rest)] if rest else []) + ps[j + 1:]
        st = lang_problem(lg, facts, oa, ol, lang, p)
        if st:
            return st
        body = after
    else:
        head, rest = lead[3:].split("\n", 1)
        if head.strip():
            return [(BAD, f"the fence line carries the fixed language {head!r}")]
        vs = p.st.vals.get(lang)
        none = vs is not None and all(c.v in ("none", "") for c in vs) or \
            any(k[0] in ("eqc", "eq") and lang in k[1:] and (Const("none") in k[1:] or EMPTY in k[1:]) and b for k, b in facts.items())
        if not (oa is True or ol is True or none or facts_get(facts, "truthy", lang) is False):
            return [(BAD if not unknown_facts(p) else UND,
                     f"the language is left out" + (f" when {facts_txt(facts)[:160]}" if facts else ""))]
        body = ([Const(rest)] if rest else []) + ps[1:]
    # body: code + "\n```"
    if not body or not isinstance(body[-1], Const):
        return [(BAD, "there is no closing fence")]
    tail = body[-1].v
    core = body[:-1]
    if oc is True or empty:
        txt = "".join(q.v for q in body if isinstance(q, Const))
        if all(isinstance(q, Const) for q in body) and txt in ("\n```", "```", "\n```\n", "```\n"):
            return []
    if tail.rstrip("\n") != "\n```":
        if all(isinstance(q, Const) for q in body) and tail.strip() == "```":
            if not (oc is True or empty):
                return [(BAD if not unknown_facts(p) else UND, "the code is left out")]
            return []
        return [(BAD, f"the code is followed by {tail!r} instead of a closing fence on its own line")]
    if len(core) != 1:
        if not core:
            if oc is True or empty:
                return []
            return [(BAD if not unknown_facts(p) else UND, f"the code is left out when {facts_txt(facts)[:120]}")]
        return [(BAD if all(isinstance(q, Const) or q.op in ("join", "field") for q in core) else UND,
                 f"the code is rendered as {show_ps(core)[:100]}")]
    q = core[0]
    if isinstance(q, Sym) and q.op == "dedent" and q.args[0] == EMPTY and (oc is True or empty):
        return []
    return code_text(q, ft)


def code_text(q, ft):
    if isinstance(q, Sym) and q.op == "join":
        sep, segs = q.args[0], q.args[1]
        if len(segs) == 1 and segs[0][0] == "rep" and strip_copy(segs[0][1].source) == ft:
            r = segs[0][1]
            if sep != EMPTY:
                return [(BAD, f"the texts of a code block are joined with {sep!r}")]
            el = elem_of(r.source)
            for al in r.alts:
                if any(e[0] == "caught" for e in al.events) and not al.segs:
                    continue
                if len(al.segs) == 1 and al.segs[0][0] == "e":
                    v = al.segs[0][1]
                    if isinstance(v, Sym) and v.op == "md" and v.args[0] == el:
                        continue
                    if isinstance(v, Sym) and v.op == "field" and v.args[0] == el and v.args[1] == "text":
                        continue
                    if isinstance(v, Sym) and v.op == "meth":
                        return [(BAD, f"the code is altered by {v.args[0]}()")]
                    return [(UND, f"code {show(v)[:80]}")]
                return [(UND, f"code {show_segs(al.segs)[:80]}")]
            return []
        s = segs[0][1].source if len(segs) == 1 and segs[0][0] == "rep" else None
        if isinstance(s, Sym) and any(is_code_core(x, ft) for x in subterms(s)) and s.op in ("meth", "slice"):
            return [(BAD, "the lines of the code are rewritten")]
        return [(UND, f"code {show(q)[:80]}")]
    if isinstance(q, Sym) and q.op in ("meth", "replace_fix", "resub", "indent", "slice", "dedent") and \
            any(is_code_core(x, ft) for x in subterms(q)):
        nm = q.args[0] if q.op == "meth" else q.op
        return [(BAD, f"the code is altered by {nm}")]
    if isinstance(q, Sym) and q.op == "ext":
        return [(BAD, f"the code is altered by {q.args[0]}")] if q.args[0] in ("textwrap.dedent", "inspect.cleandoc", "html.escape", "html.unescape") \
            else [(UND, f"code {show(q)[:80]}")]
    return [(UND, f"code {show(q)[:80]}")]


def is_code_core(x, ft):
    return isinstance(x, Sym) and x.op == "join" and len(x.args[1]) == 1 and x.args[1][0][0] == "rep" and \
        strip_copy(x.args[1][0][1].source) == ft


def lang_problem(lg, facts, oa, ol, lang, p):
    lg = [q for q in lg if q != EMPTY]
    vs = p.st.vals.get(lang)
    isnone = next((b for k, b in facts.items() if k[0] in ("eqc", "eq") and lang in k[1:] and Const("none") in k[1:]), None)
    if len(lg) == 1 and isinstance(lg[0], Sym) and strip_copy(lg[0]) == lang:
        if vs is not None and any(c.v == "none" for c in vs) or isnone is True:
            return [(BAD, "the language 'none' is shown on the fence line")]
        if isnone is None and vs is None:
            return [(BAD if not unknown_facts(p) else UND, "the language 'none' is shown on the fence line")]
        return []
    if len(lg) == 1 and isinstance(lg[0], Const):
        if vs is not None and vs == frozenset([lg[0]]):
            return []
        return [(BAD, f"the fence line carries {lg[0].v!r} instead of the language")]
    if not lg:
        return []
    if all(isinstance(q, Const) or strip_copy(q) == lang for q in lg):
        return [(BAD, f"the fence is followed by {show_ps(lg)} instead of directly by the language")]
    if len(lg) == 1 and isinstance(lg[0], Sym) and lg[0].op == "meth" and mentions(lg[0], lang) and \
            lg[0].args[0] in ("upper", "title", "capitalize", "swapcase"):
        return [(BAD, f"the language is altered by {lg[0].args[0]}()")]
    return [(UND, f"language {show_ps(lg)[:80]}")]


def show_ps(ps):
    return " + ".join(show(q) for q in ps)


# ------------------------------------------------------------------------------ C23
def c23(C, R):
    cname = "NodeHeading"
    if C.cls(cname) is None or miss(C, R, "heading line", cname):
        return
    me = C.me(cname)
    ft = C.field(me, cname, "content")
    lvl = Sym("field", (Sym("field", (me, "attrs")), "level"))
    w = C.where_of(cname, "to_markdown")
    for ig in (False, True):
        r = C.md(cname, ig=ig)
        inst = cname + (" (ignore_error)" if ig else "")
        if r is None:
            und_fail(C, R, "heading line", inst, ("md", cname, ig, None, None), cname)
            continue
        probs = []
        for p in r:
            if p.exc is not None:
                continue
            v = unfold(p.v) if isinstance(p.v, Sym) else p.v
            for facts, ps in _expand(v, dict(p.facts)):
                probs += heading_problems(C, p, merge_consts(ps), facts, ft, lvl)
        R.verdict("heading line", inst, dedupe(probs), w)


def heading_problems(C, p, ps, facts, ft, lvl):
    if not ps:
        if facts_get(facts, "truthy", ft) is False or facts_get(facts, "isopt", ft) is True:
            return [(BAD, "a heading without text renders as nothing")]
        return [(BAD if not unknown_facts(p) else UND, "a heading renders as nothing")]
    out = []
    first, last = ps[0], ps[-1]
    # leading blank line
    if isinstance(first, Const) and first.v.startswith("\n"):
        if not first.v.startswith("\n\n"):
            out.append((BAD, "no blank line of its own before the heading"))
        rest = [Const(first.v.lstrip("\n"))] + ps[1:]
    elif isinstance(first, Const) and first.v.startswith("#") or isinstance(first, Sym) and first.op == "mul":
        out.append((BAD, "no blank line before the heading"))
        rest = ps
    else:
        return [(UND, show_ps(ps)[:100])]
    if isinstance(last, Const) and last.v.endswith("\n"):
        last2 = (rest[0].v if len(rest) == 1 and isinstance(rest[0], Const) else last.v).rstrip("\n")
        if not last.v.endswith("\n\n"):
            out.append((BAD, "no blank line of its own after the heading"))
        rest = rest[:-1] + [Const(last2)]
    else:
        if isinstance(last, Sym) and last.op not in ("join", "md", "meth", "mul"):
            return [(UND, show_ps(ps)[:100])]
        out.append((BAD, "no blank line after the heading"))
    rest = merge_consts(rest)
    vs = p.st.vals.get(lvl)
    # the '#' run
    if rest and isinstance(rest[0], Sym) and rest[0].op == "mul":
        u, n = rest[0].args[0], rest[0].args[1]
        if u != Const("#"):
            return out + [(BAD, f"a heading is marked with {show(u)}")]
        if strip_copy(n) != lvl:
            dom = [c.v for c in vs] if vs else range(1, 13)
            try:
                wrong = [(k, fold_term(n, {lvl: k})) for k in dom]
                wrong = [x for x in wrong if x[0] != x[1]]
                if wrong:
                    return out + [(BAD, f"a heading of level {wrong[0][0]} has {wrong[0][1]!r} '#'")]
            except NoValue:
                return out + [(UND, f"level {show(n)[:60]}")]
        rest = rest[1:]
    elif rest and isinstance(rest[0], Const) and rest[0].v.startswith("#"):
        k = len(rest[0].v) - len(rest[0].v.lstrip("#"))
        if vs is None:
            return out + [(BAD if not unknown_facts(p) else UND, f"a heading always has {k} '#'")]
        if vs != frozenset([Const(k)]):
            return out + [(BAD, f"a heading of level {sorted(c.v for c in vs)} has {k} '#'")]
        rest = merge_consts([Const(rest[0].v[k:])] + rest[1:])
    else:
        return out + [(UND, show_ps(rest)[:80])]
    if not rest or not isinstance(rest[0], Const) or not rest[0].v.startswith(" "):
        if not rest:
            return out if (facts_get(facts, "isopt", ft) is True or facts_get(facts, "truthy", ft) is False) else \
                out + [(UND, "heading text")]
        return out + [(BAD, "no space follows the '#'s")] if isinstance(rest[0], (Const,)) or rest[0].op in ("join", "md") \
            else out + [(UND, show_ps(rest)[:80])]
    if rest[0].v != " ":
        if rest[0].v.strip():
            return out + [(BAD, f"{rest[0].v!r} precedes the heading's text")]
        if "\n" in rest[0].v:
            return out + [(BAD, "the heading's text is not on the line of its marker")]
        return out + [(BAD, "more than one space follows the '#'s")]
    body = rest[1:]
    if not body:
        if facts_get(facts, "isopt", ft) is True or facts_get(facts, "truthy", ft) is False:
            return out
        return out + [(UND, "heading text")]
    if len(body) == 1 and isinstance(body[0], Sym):
        q = body[0]
        while isinstance(q, Sym) and q.op == "meth" and q.args[0] in ("strip", "rstrip", "lstrip") and len(q.args) == 2:
            q = q.args[1]
        if isinstance(q, Sym) and q.op == "join" and q.args[0] == EMPTY:
            return out
        if isinstance(q, Sym) and q.op == "join" and isinstance(q.args[0], Const) and "\n" in q.args[0].v:
            return out + [(BAD, "the heading's text is spread over several lines")]
        return out + [(UND, show(q)[:80])]
    if any(isinstance(q, Const) and q.v.strip() for q in body):
        return out + [(BAD, f"the heading's line contains {[q.v for q in body if isinstance(q, Const)]}")]
    return out + [(UND, show_ps(body)[:80])]


# ------------------------------------------------------------------------------ C24
DOCS = ["NodeDoc", "NodeExpand", "NodeNestedExpand", "NodeBlockquote", "NodePanel"]


def normal3(t, p):
    """t never contains three line breaks in a row: (OK|BAD|UND, why)"""
    if isinstance(t, Const):
        return (OK, "") if "\n\n\n" not in str(t.v) else (BAD, "a constant with two blank lines")
    if not isinstance(t, Sym):
        return UND, repr(t)
    for k, b in p.facts.items():
        if k[0] == "contains" and b is False and k[1] == t and k[2] == Const("\n\n\n"):
            return OK, ""
    if t.op == "field" and t.ty.lits is not None:
        return (OK, "") if not any("\n" in x for x in t.ty.lits if isinstance(x, str)) else (UND, show(t)[:80])
    if t.op == "meth" and t.args[0] in ("upper", "lower", "title", "capitalize", "casefold", "swapcase") and len(t.args) == 2:
        return normal3(t.args[1], p)
    if t.op == "replace_fix":
        a, b = t.args[1], t.args[2]
        if a == Const("\n\n\n") and b in (Const("\n\n"), Const("\n")):
            return OK, ""
        if isinstance(a, Const) and set(str(a.v)) == {"\n"} and len(a.v) > 3:
            return BAD, f"only runs of {len(a.v)} line breaks are collapsed"
        return UND, show(t)[:80]
    if t.op == "resub":
        pat, fl = regex_of(t)
        r = regex.run(pat, fl) if pat is not None else None
        if r and r[0] == "\n" and isinstance(t.args[1], Const) and isinstance(t.args[1].v, str):
            tpl = regex.template(t.args[1].v, pat, fl)
            if tpl is None or not all(isinstance(x, str) for x in tpl):
                return UND, f"replacement {t.args[1].v!r}"
            n = "".join(tpl)
            if r[1] <= 3 and set(n) <= {"\n"}:
                return (OK, "") if len(n) <= 2 else (BAD, f"runs of line breaks become {n!r}")
            if r[1] > 3 and set(n) <= {"\n"}:
                return BAD, f"only runs of {r[1]} line breaks are collapsed"
        k = survives(t)
        if k:
            return BAD, f"a run of {k} line breaks is left with more than one blank line by {show(t)[:60]}"
        return UND, f"pattern {pat!r}"
    if t.op == "meth":
        nm = t.args[0]
        if nm in ("strip", "rstrip", "lstrip"):
            return normal3(t.args[1], p)
        if nm == "replace" and len(t.args) >= 4 and isinstance(t.args[2], Const) and isinstance(t.args[3], Const) and \
                set(str(t.args[2].v)) == {"\n"}:
            inner = normal3(t.args[1], p)
            if inner[0] == OK:
                return OK, ""
            q = t.args[1]
            while isinstance(q, Sym) and q.op == "meth" and q.args[0] in ("replace", "strip", "lstrip", "rstrip"):
                q = q.args[1]
            if inner[0] == UND and not (isinstance(q, Sym) and q.op in ("join", "cat", "md")):
                return inner
            if p is not None and any(isinstance(x, V) and any(y == q for y in subterms(x))
                                     for k in getattr(p, "facts", ()) if k[0] in ("eq", "lt") for x in k[1:]):
                return UND, "runs of blank lines are collapsed under a condition on the text"
            return BAD, "runs of blank lines are collapsed only a fixed number of times"
        return UND, show(t)[:80]
    if t.op == "fold":
        return normal3(t.args[0], p) if False else (UND, "fold")
    if t.op == "cat":
        ps = merge_consts(list(t.args))
        und = None
        for i, q in enumerate(ps):
            s, why = normal3(q, p)
            if s == BAD:
                return s, why
            if s == UND:
                und = why
            if isinstance(q, Const) and "\n" in str(q.v) and len(ps) > 1:
                edge = (i > 0 and str(q.v).startswith("\n")) or (i + 1 < len(ps) and str(q.v).endswith("\n"))
                if edge and not (isinstance(q.v, str) and short_runs(ps, i)):
                    if i > 0 and q.v.startswith("\n") and open_edge(ps[i - 1]) or \
                            i + 1 < len(ps) and q.v.endswith("\n") and open_edge(ps[i + 1]):
                        return BAD, "a line break is added to a text that may already end in a blank line there"
                    und = und or "line breaks next to content"
        return (OK, "") if und is None else (UND, und)
    if t.op == "indent":
        if t.args[2] == "all" and isinstance(t.args[1], Const) and str(t.args[1].v).strip():
            return normal3(t.args[0], p)
        return normal3(t.args[0], p)
    if t.op == "phi":
        x, y = normal3(t.args[1], p), normal3(t.args[2], p)
        return x if x[0] == BAD else y if y[0] == BAD else x if x[0] == UND else y
    if t.op == "md" or t.op == "join" and any(isinstance(q, Sym) and q.op == "md" for x in t.args[1]
                                              for al in (x[1].alts if x[0] == "rep" else ())
                                              for g in al.segs if g[0] == "e" for q in flat(g[1])):
        return BAD, "runs of blank lines are not collapsed"
    return UND, show(t)[:80]


def open_edge(q):
    """q is the collapsed text of the children, which begins and ends in a blank line when they are blank paragraphs."""
    if not (isinstance(q, Sym) and q.op in ("replace_fix", "resub")):
        return False
    j = q.args[0] if q.op == "replace_fix" else q.args[2]
    if not (isinstance(j, Sym) and j.op == "join" and isinstance(j.args[0], Const) and "\n" in j.args[0].v
            and len(j.args[1]) == 1 and j.args[1][0][0] == "rep"):
        return False
    rep = j.args[1][0][1]
    el = elem_of(rep.source)
    for al in rep.alts:
        if any(mentions_unknown(g) for g in al.guard) or any(
                g[0] == "fact" and any(isinstance(x, Sym) and x.op == "md" for t in g[1][1:] if isinstance(t, V)
                                       for x in subterms(t)) for g in al.guard):
            continue
        cs = narrow(el, al.guard)
        if len(al.segs) == 1 and al.segs[0][0] == "e" and cs and "NodeParagraph" in cs:
            v = al.segs[0][1]
            if isinstance(v, Sym) and v.op == "md" and v.args[0] == el:
                return True
    return False


def edge_run(q, end):
    """How many line breaks a text may start (end) with; None: unclear"""
    if isinstance(q, Sym):
        if q.op == "meth" and len(q.args) == 2 and q.args[0] in ("strip", "rstrip" if end else "lstrip"):
            return 0
        if q.op == "indent" and q.args[2] == "all" and isinstance(q.args[1], Const) and str(q.args[1].v).strip():
            return 1 if end else 0
        if q.op == "field" and q.ty.lits is not None:
            return 0
        if q.op == "meth" and q.args[0] in ("upper", "lower", "title"):
            return edge_run(q.args[1], end)
    return None


def survives(t):
    """The length of a run of line breaks between two words of which t, a chain of constant replacements, leaves three."""
    for k in range(3, 40):
        w = fold_chain(t, "a" + "\n" * k + "b")
        if w is None:
            return None
        if "\n\n\n" in w:
            return k
    return None


def fold_chain(t, w):
    """What constant replacements make of the text w at their core; None: not of that form."""
    if not isinstance(t, Sym):
        return None
    if t.op in ("join", "cat", "md", "field"):
        return w
    try:
        if t.op == "resub":
            pat, fl = regex_of(t)
            w = fold_chain(t.args[2], w)
            if pat is None or w is None or not (isinstance(t.args[1], Const) and isinstance(t.args[1].v, str)) or \
                    t.args[3] != Const(0):
                return None
            return re.sub(pat, t.args[1].v, w, flags=fl or 0)
        if t.op == "meth" and t.args[0] in ("replace", "strip", "lstrip", "rstrip") and \
                all(isinstance(a, Const) for a in t.args[2:]):
            w = fold_chain(t.args[1], w)
            return None if w is None else getattr(w, t.args[0])(*[a.v for a in t.args[2:]])
    except Exception:
        return None
    return None


def short_runs(ps, i):
    """The constant ps[i] makes no run of three line breaks with what is next to it."""
    s = ps[i].v
    a, b = len(s) - len(s.lstrip("\n")), len(s) - len(s.rstrip("\n"))
    whole = not s.strip("\n")
    n = 0
    if i > 0 and (a or whole):
        r = edge_run(ps[i - 1], True)
        if r is None:
            return False
        before = ps[i - 2].v if i > 1 and isinstance(ps[i - 2], Const) else "x" if i == 1 else None
        if before is None:
            return False
        n += r + len(before) - len(before.rstrip("\n"))
        if a + n > 2:
            return False
    if i + 1 < len(ps) and (b or whole):
        r = edge_run(ps[i + 1], False)
        if r is None:
            return False
        after = ps[i + 2].v if i + 2 < len(ps) and isinstance(ps[i + 2], Const) else "x" if i + 2 == len(ps) else None
        if after is None:
            return False
        m = r + len(after) - len(after.lstrip("\n"))
        if b + m + (n if whole else 0) > 2:
            return False
    return True


def quote_core(t):
    """Strip the quoting around a quote's or panel's text."""
    if isinstance(t, Sym):
        if t.op == "cat":
            ps = [q for q in t.args if not (isinstance(q, Const) and not str(q.v).strip())]
            if len(ps) == 1:
                return quote_core(ps[0])
        if t.op == "indent":
            return t.args[0]
    return t


def block_joins(t, ft):
    """join terms whose segments iterate over the children."""
    for s in subterms(t):
        if isinstance(s, Sym) and s.op == "join":
            for x in s.args[1]:
                if x[0] == "rep" and strip_copy(x[1].source) == ft:
                    yield s, x[1]


def md_edges(C, cname, side, depth=0):
    """Minimal number of line breaks at the start/end of a class's own Markdown (0 if unknown)."""
    if depth > 2:
        return 0
    r = C.md(cname, ig=False)
    if r is None:
        return 0
    ns = []
    for p in r:
        if p.exc is None:
            ns.append(edge(p.v, side))
    return min(ns) if ns else 0


def edge(t, side):
    if isinstance(t, Const) and isinstance(t.v, str):
        s = t.v
        return len(s) - len(s.rstrip("\n")) if side == "end" else len(s) - len(s.lstrip("\n"))
    if isinstance(t, Sym) and t.op == "cat":
        ps = t.args if side == "start" else t.args[::-1]
        n = 0
        for q in ps:
            k = edge(q, side)
            n += k
            if not (isinstance(q, Const) and isinstance(q.v, str) and not q.v.strip("\n")):
                break
        return n
    return 0


def c24(C, R):
    for cname in DOCS:
        if C.cls(cname) is None or miss(C, R, "blank lines collapsed", cname):
            continue
        me = C.me(cname)
        ft = C.field(me, cname, "content")
        w = C.where_of(cname, "to_markdown")
        for ig in (False, True):
            r = C.md(cname, ig=ig)
            inst = cname + (" (ignore_error)" if ig else "")
            if r is None:
                und_fail(C, R, "blank lines collapsed", inst, ("md", cname, ig, None, None), cname)
                continue
            probs, sepp = [], []
            for p in r:
                if p.exc is not None or not isinstance(p.v, (Sym, Const)):
                    continue
                v = unfold(p.v)
                core = quote_core(v) if cname in ("NodeBlockquote", "NodePanel") else v
                st, why = normal3(core, p)
                if st != OK:
                    probs.append((st, why))
                found = False
                for j, rep in block_joins(v, ft):
                    found = True
                    sepp += sep_problems(C, j, rep)
                if not found and not (facts_get(p.facts, "isopt", ft) is True or facts_get(p.facts, "truthy", ft) is False):
                    sepp.append((UND, f"blocks of {show(p.v)[:80]}"))
            R.verdict("blank lines collapsed", inst, dedupe(probs), w)
            R.verdict("blocks separated", inst, dedupe(sepp), w)


def sep_problems(C, j, rep):
    out = []
    sep = j.args[0]
    if not isinstance(sep, Const):
        return [(UND, f"separator {show(sep)}")]
    sn = sep.v.count("\n") if not sep.v.strip() else sep.v.count("\n")
    el = elem_of(rep.source)
    only = len(j.args[1]) == 1
    for al in rep.alts:
        if not al.segs:
            continue
        cs = narrow(el, al.guard) or frozenset()
        lead, tail, ok = 0, 0, True
        flatp = []
        for i, s in enumerate(al.segs):
            if s[0] != "e":
                ok = False
                break
            if i:
                flatp.append(sep)
            flatp += flat(s[1])
        if not ok:
            out.append((UND, f"block {show_segs(al.segs)[:80]}"))
            continue
        core = [i for i, q in enumerate(flatp) if not (isinstance(q, Const))]
        if len(core) != 1:
            out.append((UND, f"block {show_segs(al.segs)[:80]}"))
            continue
        pre = "".join(q.v for q in flatp[:core[0]])
        post = "".join(q.v for q in flatp[core[0] + 1:])
        q = flatp[core[0]]
        strips = set()
        while isinstance(q, Sym) and q.op == "meth" and q.args[0] in ("strip", "rstrip", "lstrip") and len(q.args) == 2:
            strips.add(q.args[0])
            q = q.args[1]
        if not (isinstance(q, Sym) and q.op == "md" and q.args[0] == el):
            out.append((UND, f"block {show(q)[:80]}"))
            continue
        pre_n = len(pre) - len(pre.rstrip("\n")) if not pre.strip() else 0
        post_n = len(post) - len(post.lstrip("\n")) if not post.strip() else 0
        for c in sorted(cs):
            a = pre_n + (0 if strips & {"strip", "lstrip"} else md_edges(C, c, "start"))
            z = post_n + (0 if strips & {"strip", "rstrip"} else md_edges(C, c, "end"))
            need = 2 if c in WS_BLOCKS else 1
            if c in WS_BLOCKS:
                if sn + a < 2:
                    out.append((BAD, f"no blank line before a {c}"))
                if sn + z < 2:
                    out.append((BAD, f"no blank line after a {c}"))
            elif sn + a < 1 and sn + z < 1:
                if c not in EXEMPT:
                    out.append((BAD, f"a {c} does not start on its own line"))
            elif sn < 1 and (a < 1 or z < 1) and c not in EXEMPT:
                out.append((BAD, f"a {c} is not separated from its neighbour by a line break"))
    return out


# ------------------------------------------------------------------------------ C26
UTC = {"datetime.timezone.utc", "datetime.UTC", "zoneinfo.utc"}


def c26(C, R):
    cname = "NodeDate"
    if C.cls(cname) is None or miss(C, R, "UTC day", cname):
        return
    me = C.me(cname)
    ts = Sym("field", (Sym("field", (me, "attrs")), "timestamp"))
    w = C.where_of(cname, "to_markdown")
    for ig in (False, True):
        r = C.md(cname, ig=ig)
        inst = cname + (" (ignore_error)" if ig else "")
        if r is None:
            und_fail(C, R, "UTC day", inst, ("md", cname, ig, None, None), cname)
            continue
        probs, n = [], 0
        for p in r:
            if p.exc is not None:
                if p.exc.origin[0] in ("conv", "ext"):
                    continue
                probs.append((UND, f"{p.exc}"))
                continue
            n += 1
            caught = [e for e in p.events if e[0] == "caught"]
            st, why = date_text(p.v, ts, C)
            if st == BAD and caught:
                st = UND
            if st != OK:
                probs.append((st, why))
        if not n and not probs:
            probs.append((BAD, "a date never converts"))
        R.verdict("UTC day", inst, dedupe(probs), w)


def date_text(v, ts, C):
    """Is v the ISO calendar date of the timestamp, in UTC?"""
    if isinstance(v, Sym):
        if v.op == "str":
            d = v.args[0]
            if isinstance(d, Sym) and d.op == "field":
                return BAD, "the raw timestamp is rendered"
            return calendar_day(d, ts)
        if v.op == "slice":
            # isoformat()[:10]
            b = v.args[0]
            if v.args[1] in (NONE_V, Const(0)) and v.args[2] == Const(10) and isinstance(b, Sym):
                if b.op == "meth" and b.args[0] == "isoformat":
                    return instant(b.args[1], ts)
                if b.op == "str":
                    return instant(b.args[0], ts)
            return UND, show(v)[:120]
        if v.op == "index" or v.op == "part":
            # isoformat().split("T")[0], partition("T")[0]
            b = v.args[0] if v.op == "index" else v
            k = v.args[1] if v.op == "index" else (Const(v.args[3]) if v.args[0] == "partition" else None)
            if isinstance(b, Sym) and (b.op == "meth" and b.args[0] == "split" or b.op == "part") and k == Const(0) \
                    and isinstance(b.args[1], Sym) and len(b.args) > 2:
                x, sep = b.args[1], b.args[2]
                if x.op == "meth" and x.args[0] == "isoformat" and len(x.args) == 2 and sep == Const("T"):
                    return instant(x.args[1], ts)
                if x.op == "str" and sep == Const(" "):
                    return instant(x.args[0], ts)
            return UND, show(v)[:120]
        if v.op == "fmt":
            d, spec = v.args
            if isinstance(spec, Const) and is_moment(d):
                if spec.v not in ISO_DAY:
                    return BAD, f"the date is formatted as {spec.v!r}"
                return calendar_day(d, ts, True)
            return UND, show(v)[:120]
        if v.op == "cat":
            return date_parts(v, ts)
        if v.op == "join" and isinstance(v.args[0], Const) and all(s[0] == "e" for s in v.args[1]):
            return date_parts(cat([y for s in v.args[1] for y in (v.args[0], s[1])][1:]), ts)
        if v.op == "meth":
            nm, recv, args = v.args[0], v.args[1], v.args[2:]
            if nm == "isoformat":
                return calendar_day(recv, ts)
            if nm == "strftime" and args and isinstance(args[0], Const):
                if args[0].v not in ISO_DAY:
                    return BAD, f"the date is formatted as {args[0].v!r}"
                return calendar_day(recv, ts, True)
            return UND, show(v)[:120]
        if v.op == "ext" and v.args[0] == "time.strftime":
            a = v.args[1]
            if a and isinstance(a[0], Const) and a[0].v not in ISO_DAY:
                return BAD, f"the date is formatted as {a[0].v!r}"
            if len(a) > 1 and isinstance(a[1], Sym) and a[1].op == "ext":
                if a[1].args[0] == "time.localtime":
                    return BAD, "the local calendar day is used instead of the UTC one"
                if a[1].args[0] == "time.gmtime":
                    return secs(a[1].args[1][0], ts) if a[1].args[1] else (BAD, "the current time is used")
            return UND, show(v)[:120]
        if fpathless(v) and strip_copy(v) == ts:
            return BAD, "the raw timestamp is rendered"
    if isinstance(v, Const):
        return BAD, f"a date renders as {v.v!r}"
    return UND, show(v)[:120]


ISO_DAY = ("%Y-%m-%d", "%F")
DAY_MS = 86400000


def calendar_day(d, ts, any_time=False):
    """d is the calendar day of the timestamp in UTC (with any_time: or an instant of that day)."""
    if isinstance(d, Sym) and d.op == "meth" and d.args[0] == "date" and len(d.args) == 2:
        return instant(d.args[1], ts)
    if isinstance(d, Sym) and d.op == "meth" and d.args[0] == "replace" and is_moment(d.args[1]):
        ks = dict(zip(("year", "month", "day"), [x for x in d.args[2:] if not (isinstance(x, Sym) and x.op == "kwarg")]))
        ks.update({x.args[0]: x.args[1] for x in d.args[2:] if isinstance(x, Sym) and x.op == "kwarg"})
        ks = {k.v if isinstance(k, Const) else k: x for k, x in ks.items()}
        for k in ("year", "month", "day"):
            if isinstance(ks.get(k), Const):
                return BAD, f"the {k} of the date is replaced by {ks[k].v!r}"
        if set(ks) <= {"hour", "minute", "second", "microsecond"}:
            return calendar_day(d.args[1], ts, any_time)
        return UND, show(d)[:100]
    if isinstance(d, Sym) and d.op == "ext" and d.args[0] == "datetime.date.fromtimestamp":
        return BAD, "the local calendar day is used instead of the UTC one"
    if isinstance(d, Sym) and d.op == "ext" and d.args[0] == "datetime.date.fromordinal" and d.args[1]:
        n = d.args[1][0]
        if isinstance(n, Sym) and n.op == "bin" and n.args[0] == "+":
            for x, y in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
                if isinstance(x, Const):
                    if x.v != 719163:
                        return BAD, f"day number {x.v!r} is not 1 January 1970"
                    return days(y, ts)
        return UND, show(d)[:100]
    if isinstance(d, Sym) and d.op == "ext" and d.args[0] == "datetime.date":
        nums = list(d.args[1]) + [dict(d.args[2])[k] for k in ("year", "month", "day") if k in dict(d.args[2])]
        if len(nums) == 3 and all(isinstance(x, Sym) and x.op == "attr" for x in nums) and \
                [x.args[1] for x in nums] == ["year", "month", "day"] and len({x.args[0] for x in nums}) == 1:
            return calendar_day(nums[0].args[0], ts, True)
        return UND, show(d)[:100]
    if isinstance(d, Sym) and d.op == "bin" and d.args[0] == "+":
        for x, y in ((d.args[1], d.args[2]), (d.args[2], d.args[1])):
            if isinstance(x, Sym) and x.op == "ext" and x.args[0] == "datetime.date":
                if [a.v for a in x.args[1] if isinstance(a, Const)] != [1970, 1, 1]:
                    return UND, show(d)[:100]
                return delta(y, ts)
    if any_time:
        return instant(d, ts)
    if isinstance(d, Sym) and d.op == "meth" and d.args[0] == "astimezone" or isinstance(d, Sym) and d.op == "ext" and \
            d.args[0].startswith("datetime.datetime."):
        return BAD, "a date with a time of day is rendered"
    return UND, show(d)[:100] if isinstance(d, V) else str(d)


def days(t, ts):
    """t is the number of whole days in the timestamp."""
    if isinstance(t, Sym) and t.op == "bin":
        o, a, b = t.args
        if o == "//" and isinstance(b, Const) and is_ts(a, ts):
            return (OK, "") if b.v == DAY_MS else (BAD, f"{b.v!r} milliseconds are taken as a day")
        if o == "//" and isinstance(b, Const) and secs(a, ts)[0] == OK:
            return (OK, "") if b.v == DAY_MS // 1000 else (BAD, f"{b.v!r} seconds are taken as a day")
    if isinstance(t, Sym) and t.op == "int" and len(t.args) == 1 and isinstance(t.args[0], Sym) and \
            t.args[0].op == "bin" and t.args[0].args[0] == "/" and days(Sym("bin", ("//",) + t.args[0].args[1:]), ts)[0] == OK:
        return BAD, "the days are truncated towards zero, which gives another day before 1970"
    off = wrong_day(t, ts, 1)
    if off:
        return BAD, off
    return UND, show(t)[:80] if isinstance(t, V) else str(t)


# timestamps next to the edges of a day: an extracted formula that puts one of them in another day is wrong
EDGES = [d * DAY_MS + o for d in (0, 1, 19000, 30000, -1, -400) for o in (0, 1, 499, 999, 43200000, 50000000, DAY_MS - 1000,
                                                                          DAY_MS - 500, DAY_MS - 1)]


def wrong_day(t, ts, per_day):
    """The formula t, in units of 1/per_day of a day, names another day for this timestamp."""
    for n in EDGES:
        try:
            x = fold_term(t, {ts: n})
        except NoValue:
            return None
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            return None
        if math.floor(x / per_day) != n // DAY_MS:
            return f"timestamp {n} is put in another day: {show(t)[:80]}"
    return None


def date_parts(v, ts):
    """year-month-day put together by hand"""
    want = [("year", 4), ("month", 2), ("day", 2)]
    ps = pieces(v)
    if len(ps) != 5 or any(not isinstance(x, Const) for x in (ps[1], ps[3])):
        return UND, show(v)[:120]
    got, src = [], set()
    for x in ps[0::2]:
        width = 0
        if isinstance(x, Sym) and x.op == "fmt" and isinstance(x.args[1], Const):
            m = re.fullmatch(r"0>?(\d)d?", str(x.args[1].v))
            width, x = int(m.group(1)) if m else None, x.args[0]
        elif isinstance(x, Sym) and x.op == "meth" and x.args[0] in ("zfill", "rjust") and isinstance(x.args[2], Const) \
                and (x.args[0] == "zfill" or x.args[3:] == (Const("0"),)):
            width, x = x.args[2].v, x.args[1]
        if isinstance(x, Sym) and x.op == "str":
            x = x.args[0]
        if not (isinstance(x, Sym) and x.op == "attr") or width is None:
            return UND, show(v)[:120]
        got.append((x.args[1], width))
        src.add(x.args[0])
    if [n for n, _ in got] != [n for n, _ in want]:
        return (BAD, "the date is put together as " + "-".join(n for n, _ in got)) if sorted(
            n for n, _ in got) == ["day", "month", "year"] else (UND, show(v)[:120])
    if any(x != Const("-") for x in (ps[1], ps[3])):
        return BAD, "the parts of the date are not separated by '-'"
    for (n, k), (_, w) in zip(got, want):
        if k < w and not (n == "year" and k == 0):
            return BAD, f"the {n} is not padded to {w} digits"
        if k > w:
            return BAD, f"the {n} is padded to {k} digits"
    if got[0][1] == 0:
        return UND, "a year before 1000 is not padded to 4 digits"
    if len(src) != 1:
        return UND, show(v)[:120]
    return calendar_day(next(iter(src)), ts, True)


def fpathless(v):
    return isinstance(v, Sym) and v.op == "field"


def instant(t, ts):
    """t is the aware UTC datetime of the timestamp."""
    if isinstance(t, Sym) and t.op == "meth" and t.args[0] == "astimezone":
        tz = t.args[2] if len(t.args) > 2 else None
        if isinstance(tz, Ext) and tz.name in UTC:
            inner = t.args[1]
            if isinstance(inner, Sym) and inner.op == "ext" and inner.args[0] == "datetime.datetime.fromtimestamp":
                return secs(inner.args[1][0], ts) if inner.args[1] else (UND, "instant")
            return instant(inner, ts)
        return (BAD, "the instant is converted to another time zone") if tz is None or isinstance(tz, (Const, Ext)) \
            else (UND, show(t)[:80])
    if isinstance(t, Sym) and t.op == "meth" and t.args[0] == "replace":
        ch = [x.args[0] for x in t.args[2:] if isinstance(x, Sym) and x.op == "kwarg"]
        if any(k in ("year", "month", "day") for k in ch):
            return BAD, "a part of the calendar date is replaced"
        if len(ch) < len(t.args) - 2:
            return UND, show(t)[:100]
        return instant(t.args[1], ts)
    if isinstance(t, Sym) and t.op == "bin" and t.args[0] == "+":
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if epoch(x):
                return delta(y, ts)
    if isinstance(t, Sym) and t.op == "ext":
        nm = t.args[0]
        pos = t.args[1] if len(t.args) > 1 and isinstance(t.args[1], tuple) else ()
        kw = dict(t.args[2]) if len(t.args) > 2 and isinstance(t.args[2], tuple) else {}
        if nm == "datetime.datetime.fromtimestamp":
            tz = kw.get("tz", pos[1] if len(pos) > 1 else None)
            if tz is None or tz == NONE_V:
                return BAD, "the local time zone decides the calendar day"
            if isinstance(tz, Ext) and tz.name in UTC:
                return secs(pos[0] if pos else kw.get("timestamp"), ts)
            if isinstance(tz, Ext):
                return UND, f"time zone {tz.name}"
            if isinstance(tz, Sym) and tz.op == "ext" and tz.args[0] == "zoneinfo.ZoneInfo":
                z = tz.args[1][0] if tz.args[1] else None
                return secs(pos[0], ts) if z == Const("UTC") else (BAD, f"the time zone {z!r} decides the calendar day")
            return UND, f"time zone {show(tz)[:60] if isinstance(tz, V) else tz}"
        if nm == "datetime.datetime.utcfromtimestamp":
            return secs(pos[0] if pos else None, ts)
        if nm in ("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today"):
            return BAD, "the current time is rendered"
    return UND, show(t)[:100] if isinstance(t, V) else str(t)


def secs(t, ts):
    """t is the timestamp (milliseconds) in seconds."""
    if t is None:
        return UND, "instant"
    if isinstance(t, Sym) and t.op == "bin":
        o, a, b = t.args[0], t.args[1], t.args[2]
        if o in ("/", "//"):
            if is_ts(a, ts):
                if b in (Const(1000), Const(1000.0)):
                    return OK, ""
                if isinstance(b, Const):
                    return BAD, f"the timestamp is divided by {b.v!r} instead of 1000"
        if o == "*":
            x, k = (a, b) if is_ts(a, ts) else (b, a)
            if is_ts(x, ts) and isinstance(k, Const):
                return (OK, "") if k.v == 0.001 else (BAD, f"the timestamp is multiplied by {k.v!r}")
            for x, k in ((a, b), (b, a)):
                if isinstance(k, Const) and k.v in (86400, 86400.0) and days(x, ts)[0] != UND:
                    return days(x, ts)
    if is_ts(t, ts):
        return BAD, "the timestamp is taken as seconds instead of milliseconds"
    if isinstance(t, Sym) and t.op in ("int", "round") and len(t.args) == 1 and secs(t.args[0], ts)[0] == OK:
        x = t.args[0]
        if x.op == "bin" and x.args[0] == "//":
            return OK, ""
        return BAD, "the seconds are " + ("rounded" if t.op == "round" else "truncated towards zero") + \
            ", which gives another day next to midnight"
    if isinstance(t, Sym) and t.op == "float" and len(t.args) == 1:
        return secs(t.args[0], ts)
    off = wrong_day(t, ts, 86400)
    if off:
        return BAD, off
    lossy = [x for x in subterms(t) if isinstance(x, Sym) and (
        x.op in ("slice", "index") or x.op == "meth" and x.args[0] in ("replace", "lstrip", "rstrip", "split", "removesuffix"))
        and any(is_ts(y, ts) for y in children(x))] if isinstance(t, Sym) else []
    if lossy and not has_unknown(t):
        return BAD, f"only a part of the timestamp is used: {show(lossy[0])[:60]}"
    if isinstance(t, Sym) and not mentions(t, ts) and not has_unknown(t):
        return BAD, f"the day does not come from the timestamp: {show(t)[:60]}"
    return UND, show(t)[:80]


def delta(t, ts):
    """timedelta of the timestamp"""
    if isinstance(t, Sym) and t.op == "ext" and t.args[0] == "datetime.timedelta":
        pos = t.args[1] if len(t.args) > 1 and isinstance(t.args[1], tuple) else ()
        kw = dict(t.args[2]) if len(t.args) > 2 and isinstance(t.args[2], tuple) else {}
        if not pos and len(kw) == 1:
            (k, x), = kw.items()
            if k == "milliseconds":
                return (OK, "") if is_ts(x, ts) else (UND, show(t)[:80])
            if k == "seconds":
                return secs(x, ts)
            if k == "days" and days(x, ts)[0] != UND:
                return days(x, ts)
            if is_ts(x, ts):
                return BAD, f"the timestamp is taken as {k} instead of milliseconds"
    return UND, show(t)[:80]


def epoch(t):
    """True: 1970-01-01T00:00 in UTC; None: unclear"""
    if isinstance(t, Sym) and t.op == "ext" and t.args[0] in ("datetime.datetime", "datetime.datetime.fromtimestamp"):
        pos = t.args[1] if len(t.args) > 1 and isinstance(t.args[1], tuple) else ()
        kw = dict(t.args[2]) if len(t.args) > 2 and isinstance(t.args[2], tuple) else {}
        tz = kw.get("tzinfo") or kw.get("tz") or next((x for x in pos if isinstance(x, Ext)), None)
        nums = [x.v for x in pos if isinstance(x, Const)]
        if t.args[0] == "datetime.datetime":
            if nums[:3] == [1970, 1, 1] and not any(nums[3:]) and (tz is None or isinstance(tz, Ext) and tz.name in UTC):
                return True
        elif nums == [0] and isinstance(tz, Ext) and tz.name in UTC:
            return True
    return None


def is_ts(t, ts):
    while isinstance(t, Sym) and t.op in ("int", "float", "str", "conv") and t.args and isinstance(t.args[-1], V):
        t = t.args[-1]
    return isinstance(t, Sym) and strip_copy(t) == ts
