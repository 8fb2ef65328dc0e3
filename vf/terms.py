"""Term construction, canonicalisation and printing."""
from __future__ import annotations

from .dom import *  # noqa

import itertools

_unk = itertools.count()


def unk(reason, ty=ANY):
    return Sym("unknown", (reason, next(_unk)), ty)


def is_unknown(v):
    return isinstance(v, Sym) and v.op in ("unknown", "while", "opaque")


def opaque(ty, *args):
    """A value the rules know nothing about; what it would be for constants is known (see witness)."""
    return Sym("opaque", args, ty)


def unk_seg(why, op, segs, *args):
    return ("unk", why, opaque(LIST, op, Sym("listv", (tuple(segs),), LIST), *args))


def is_moment(t):
    """A value of the datetime module (or arithmetic on one)?"""
    while isinstance(t, Sym):
        if t.ty.kind not in ("any",):
            return False
        if t.op == "ext":
            return isinstance(t.args[0], str) and t.args[0].startswith("datetime.")
        if t.op == "meth":
            t = t.args[1]
        elif t.op == "bin" and t.args[0] in ("+", "-"):
            return is_moment(t.args[1]) or is_moment(t.args[2])
        else:
            return False
    return False


MOMENT_ATTRS = {"year", "month", "day", "hour", "minute", "second", "microsecond", "days", "seconds", "microseconds",
                "tzinfo", "fold"}


def strip_copy(t):
    """Drop ownership wrappers."""
    while isinstance(t, Sym) and t.op in ("copyof", "asdict"):
        t = t.args[0]
    return t


def cat(pieces):
    out = []
    for p in pieces:
        if isinstance(p, Sym) and p.op == "cat":
            sub = p.args
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, Const) and q.v == "":
                continue
            if out and isinstance(q, Const) and isinstance(out[-1], Const):
                out[-1] = Const(out[-1].v + q.v)
            else:
                out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1 and (isinstance(out[0], Const) or out[0].ty.kind == "str"):
        return out[0]
    return Sym("cat", out, STR)


def pieces(t):
    if isinstance(t, Sym) and t.op == "cat":
        return list(t.args)
    if t == EMPTY:
        return []
    return [t]


def ident_rep(source, elem, rev=False, partial=False, why=""):
    return ("rep", Rep(source, [Alt((), [("e", elem)])], partial=partial, rev=rev, why=why))


def elem_ty(t):
    ty = t.ty if isinstance(t, Sym) else ANY
    if ty.kind == "list" and ty.elem is not None:
        return ty.elem
    if ty.kind == "str":
        return STR
    return ANY


def elem_of(source):
    """The arbitrary element of a symbolic sequence."""
    return Sym("elem", (source,), elem_ty(source))


def is_ident(seg):
    """Is this segment `each element of source, unchanged`?"""
    if seg[0] != "rep":
        return False
    r = seg[1]
    if r.partial or r.rev or len(r.alts) != 1:
        return False
    a = r.alts[0]
    return not a.guard and a.segs == (("e", elem_of(r.source)),) and a.exit == "next"


def spliced(sep, segs):
    """sep.join([a, sep.join([b, *c]), d]) is sep.join([a, b, *c, d]): an item joined by the same separator,
    of which at least one part is always there, is spliced in."""
    out, hit = [], False
    for s in segs:
        if s[0] == "e" and isinstance(s[1], Sym) and s[1].op == "join" and s[1].args[0] == sep and \
                any(q[0] == "e" for q in s[1].args[1]):
            out.extend(s[1].args[1])
            hit = True
        elif s[0] == "rep":
            r, hit2, alts = s[1], False, []
            for a in r.alts:
                n = spliced(sep, a.segs)
                if n is not a.segs:
                    hit2 = True
                alts.append(Alt(a.guard, n, a.events, a.exit))
            out.append(("rep", Rep(r.source, alts, r.partial, r.rev, r.why, r.id)) if hit2 else s)
            hit = hit or hit2
        else:
            out.append(s)
    return tuple(out) if hit else segs


def join(sep, segs):
    """Canonical term for sep.join(segs)."""
    segs = peel(segs)
    if isinstance(sep, Const) and sep.v:
        segs = spliced(sep, segs)
    if sep == EMPTY and len(segs) == 1 and segs[0][0] == "rep":
        r = segs[0][1]
        sp = separated(r)
        if sp is not None:
            return join(sp[0], [("rep", sp[1])])
        if isinstance(r.source, Sym) and len(r.alts) == 1 and not r.partial and r.alts[0].exit == "next" and all(
                s[0] == "e" for s in r.alts[0].segs):
            body = cat([s[1] for s in r.alts[0].segs])
            if r.source.op == "range" and isinstance(body, Const) and not r.alts[0].guard:
                return Sym("mul", (body, r.source.args[0]), STR)
            if r.source.op == "meth" and r.source.args[0] == "splitlines" and r.source.args[2:] == (TRUE,) and \
                    not r.rev and not r.alts[0].guard:
                ps = pieces(body)
                if len(ps) == 2 and isinstance(ps[0], Const) and ps[1] == elem_of(r.source):
                    return Sym("indent", (r.source.args[1], ps[0], "all"), STR)
    if sep == EMPTY and len(segs) > 1 and sum(s[0] != "e" for s in segs) == 1:
        i = next(i for i, s in enumerate(segs) if s[0] != "e")
        mid = join(sep, [segs[i]])
        if not (isinstance(mid, Sym) and mid.op == "join"):
            return cat([s[1] for s in segs[:i]] + [mid] + [s[1] for s in segs[i + 1:]])
    if isinstance(sep, Const) and all(s[0] == "e" for s in segs):
        out = []
        for i, s in enumerate(segs):
            if i:
                out.append(sep)
            out.append(s[1])
        return cat(out)
    if len(segs) == 1 and is_ident(segs[0]):
        src = segs[0][1].source
        if isinstance(src, Sym) and src.op == "meth" and src.args[0] == "split" and len(src.args) == 3 \
                and src.args[2] == sep:
            return src.args[1]
        if isinstance(src, Sym) and src.ty.kind == "str" and sep == EMPTY:
            return src
        if isinstance(src, Sym) and src.op == "meth" and src.args[0] == "split" and len(src.args) == 3 and \
                isinstance(src.args[2], Const) and src.args[2].v and isinstance(sep, Const):
            return Sym("meth", ("replace", src.args[1], src.args[2], sep), STR)
    # head + tail of the same split
    if len(segs) == 2 and segs[0][0] == "e" and is_ident(segs[1]):
        h, tl = segs[0][1], segs[1][1].source
        if isinstance(h, Sym) and h.op == "index" and isinstance(tl, Sym) and tl.op == "slice" \
                and h.args[0] == tl.args[0] and h.args[1] == Const(0) and tl.args[1:] == (Const(1), NONE_V):
            return join(sep, [ident_rep(h.args[0], elem_of(h.args[0]))])
    return Sym("join", (sep, segs), STR)


# --------------------------------------------------------------------------- substitution
def subst(x, m):
    """Replace terms (keys of m) everywhere inside x: a value, a segment list, a guard, a Rep."""
    if isinstance(x, V):
        if x in m:
            return m[x]
        if isinstance(x, Sym):
            a = tuple(subst(q, m) for q in x.args)
            if a == x.args:
                return x
            if x.op == "cat":
                return cat(a)
            if x.op == "join":
                return join(a[0], a[1])
            return Sym(x.op, a, x.ty)
        if isinstance(x, TupV):
            return x.like([subst(q, m) for q in x.items])
        return x
    if isinstance(x, tuple):
        return tuple(subst(q, m) for q in x)
    if isinstance(x, Rep):
        return Rep(subst(x.source, m), [Alt(subst(a.guard, m), subst(a.segs, m), subst(a.events, m), a.exit)
                                        for a in x.alts], x.partial, x.rev, x.why, x.id)
    return x


def idx_side(guard, idx):
    """Does the guard say idx == 0 / idx != 0?  -> (True|False|None, guard without that fact)"""
    side, rest = None, []
    for g in guard:
        b = None
        if g[0] == "fact":
            p = g[1]
            if p[0] == "firstout":
                b = g[2]
            elif p[0] == "eqc" and p[1] == idx and p[2] == Const(0):
                b = g[2]
            elif p[0] == "truthy" and p[1] == idx:
                b = not g[2]
            elif p[0] == "lt" and p[1] == Const(0) and p[2] == idx:
                b = not g[2]
            elif p[0] == "lt" and p[1] == idx and p[2] == Const(1):
                b = g[2]
        elif g[0] == "vals" and g[1] == idx:
            if g[2] == frozenset([Const(0)]):
                b = True
            elif Const(0) not in g[2]:
                b = False
        elif g[0] == "nvals" and g[1] == idx:
            if g[2] == frozenset([Const(0)]):
                b = False
        if b is None:
            rest.append(g)
        else:
            side = b
    return side, tuple(rest)


def split_first(r):
    """Alternatives of a loop by position: (for the first element, for the later ones, for any); guards cleaned."""
    idx = Sym("idx", (r.source,), INT)
    first, later, both = [], [], []
    for a in r.alts:
        side, rest = idx_side(a.guard, idx)
        b = Alt(rest, a.segs, a.events, a.exit)
        (first if side is True else later if side is False else both).append(b)
    return first, later, both, idx


def separated(r):
    """"".join over a loop that puts a separator before every element but the first -> (sep, Rep without it)."""
    if r.rev or r.partial:
        return None
    first, later, both, idx = split_first(r)
    byout = any(g[0] == "fact" and g[1][0] == "firstout" for a in r.alts for g in a.guard)
    none = [a for a in both if not a.segs and byout]    # steps that put nothing out
    if not first or not later or len(none) < len(both):
        return None
    if byout and any(g[1] == idx or isinstance(g[1], tuple) and idx in g[1] for a in r.alts for g in a.guard):
        return None
    seps, alts = set(), []
    for a in later:
        ps = []
        for s in a.segs:
            if s[0] != "e":
                return None
            ps += pieces(s[1])
        if not ps or not byout and not (isinstance(ps[0], Const) and isinstance(ps[0].v, str)):
            return None
        alts.append((a, ps))
    bare = {}
    for a in first:
        if any(s[0] != "e" for s in a.segs):
            return None
        bare.setdefault(a.guard, cat([s[1] for s in a.segs]))
    for a, ps in alts:
        f = bare.get(a.guard)
        if f is None:
            return None
        lead = ps[0].v if isinstance(ps[0], Const) and isinstance(ps[0].v, str) else ""
        ps = ps[1:] if lead else ps
        fp = pieces(f)
        fl = fp[0].v if fp and isinstance(fp[0], Const) and isinstance(fp[0].v, str) else ""
        if not lead.endswith(fl) or fp[(1 if fl else 0):] != ps:
            return None
        seps.add(lead[:len(lead) - len(fl)] if fl else lead)
        if mentions(f, idx):
            return None
    if len(seps) != 1 or not byout and not next(iter(seps)):
        return None
    return Const(seps.pop()), Rep(r.source, [Alt(a.guard, [("e", bare[a.guard])], a.events, a.exit) for a, _ in alts] + none,
                                  r.partial, r.rev, r.why, r.id)


def unended(t, n, front=False, what=None):
    """t[:-n] (front: t[n:]) for t = "".join over steps that each end (start) with the same n characters: those
    join the steps. `what` asks for these characters."""
    if not (isinstance(t, Sym) and t.op == "join" and t.args[0] == EMPTY and len(t.args[1]) == 1 and
            t.args[1][0][0] == "rep" and n > 0):
        return None
    r = t.args[1][0][1]
    alts, ends = [], set()
    for a in r.alts:
        if not a.segs:
            alts.append(a)
            continue
        if any(s[0] != "e" for s in a.segs):
            return None
        ps = pieces(cat([s[1] for s in a.segs]))
        c = ps[0 if front else -1] if ps else None
        if not (isinstance(c, Const) and isinstance(c.v, str) and len(c.v) >= n):
            return None
        ends.add(c.v[:n] if front else c.v[-n:])
        left = Const(c.v[n:] if front else c.v[:-n])
        alts.append(Alt(a.guard, [("e", cat([left] + ps[1:] if front else ps[:-1] + [left]))], a.events, a.exit))
    if len(ends) != 1 or what is not None and what not in ends:
        return None
    return join(Const(ends.pop()), [("rep", Rep(r.source, alts, r.partial, r.rev, r.why, r.id))])


def never_empty(src):
    return isinstance(src, Sym) and src.op == "meth" and src.args[0] == "split" and len(src.args) >= 3


def peel(segs):
    """[loop over S that treats the first element apart] -> [first element, loop over S[1:]] for a non-empty S."""
    out = []
    for s in segs:
        if s[0] == "rep" and not s[1].rev and not s[1].partial and never_empty(s[1].source):
            r = s[1]
            first, later, both, idx = split_first(r)
            src = r.source
            if len(first) == 1 and later and not both and not first[0].guard and not any(
                    mentions(v, idx) for a in first + later for v in seg_values(a.segs)):
                rest = Sym("slice", (src, Const(1), NONE_V), src.ty)
                e = elem_of(src)
                out += list(subst(first[0].segs, {e: Sym("index", (src, Const(0)), elem_ty(src))}))
                m = {e: elem_of(rest)}
                out.append(("rep", Rep(rest, [Alt(subst(a.guard, m), subst(a.segs, m), subst(a.events, m), a.exit)
                                              for a in later], r.partial, r.rev, r.why, r.id)))
                continue
        if s[0] == "rep" and any(x[0] == "rep" for a in s[1].alts for x in a.segs):
            r = s[1]
            alts = [Alt(a.guard, peel(a.segs), a.events, a.exit) for a in r.alts]
            if any(a.segs != b.segs for a, b in zip(alts, r.alts)):
                s = ("rep", Rep(r.source, alts, r.partial, r.rev, r.why, r.id))
        out.append(s)
    return tuple(out)


# --------------------------------------------------------------------------- walking
def subterms(t):
    """All values nested in a term (pre-order), including inside Rep segments."""
    stack = [t]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(children(x)))


def seg_values(segs):
    for s in segs:
        if s[0] == "e":
            yield s[1]
        elif s[0] == "rep":
            yield s[1].source
            for a in s[1].alts:
                yield from seg_values(a.segs)
        elif s[0] == "cond":
            yield from seg_values(s[2])
            yield from seg_values(s[3])
        elif s[0] == "mul":
            yield from seg_values(s[1])
            yield s[2]


def children(x):
    if isinstance(x, Sym):
        out = []
        for a in x.args:
            if isinstance(a, V):
                out.append(a)
            elif isinstance(a, tuple):
                out.extend(_tuple_children(a))
            elif isinstance(a, Rep):
                out.append(a.source)
                for al in a.alts:
                    out.extend(seg_values(al.segs))
        return out
    if isinstance(x, TupV):
        return list(x.items)
    return []


def _tuple_children(a):
    out = []
    if a and isinstance(a[0], str) and a[0] in ("e", "rep", "cond", "mul", "prev", "unk"):
        return list(seg_values([a]))
    for b in a:
        if isinstance(b, V):
            out.append(b)
        elif isinstance(b, Rep):
            out.append(b.source)
            for al in b.alts:
                out.extend(seg_values(al.segs))
        elif isinstance(b, tuple):
            out.extend(_tuple_children(b))
    return out


def has_unknown(t):
    for s in subterms(t):
        if is_unknown(s):
            return True
        if isinstance(s, Sym):
            for a in s.args:
                if isinstance(a, tuple) and _segs_unknown(a):
                    return True
    return False


def _segs_unknown(segs):
    for s in segs:
        if isinstance(s, tuple) and s:
            if s[0] in ("unk", "prev"):
                return True
            if s[0] == "rep" and any(_segs_unknown(a.segs) for a in s[1].alts):
                return True
            if s[0] == "cond" and (_segs_unknown(s[2]) or _segs_unknown(s[3])):
                return True
            if s[0] == "mul" and _segs_unknown(s[1]):
                return True
    return False


def mentions(t, x):
    return any(s == x for s in subterms(t))


# --------------------------------------------------------------------------- printing
def show(x, depth=0):
    if depth > 14:
        return "…"
    d = depth + 1
    if isinstance(x, Sym):
        op, a = x.op, x.args
        if op == "self":
            return "self"
        if op == "param":
            return str(a[0])
        if op == "field":
            return f"{show(a[0], d)}.{a[1]}"
        if op == "elem":
            return f"each({show(a[0], d)})"
        if op == "index":
            return f"{show(a[0], d)}[{show(a[1], d)}]"
        if op == "slice":
            return f"{show(a[0], d)}[{':'.join('' if q == NONE_V else show(q, d) for q in a[1:])}]"
        if op == "cat":
            return "(" + " + ".join(show(p, d) for p in a) + ")"
        if op == "meth":
            return f"{show(a[1], d)}.{a[0]}({', '.join(show(q, d) for q in a[2:])})"
        if op == "join":
            return f"{show(a[0], d)}.join({show_segs(a[1], d)})"
        if op == "md":
            return f"{show(a[0], d)}.to_markdown({', '.join(f'{k}={show(v, d)}' for k, v in a[1])})"
        if op == "mk":
            return f"{show(a[0], d)}.to_markdown({show(a[1], d)})"
        if op == "phi":
            return f"({show(a[1], d)} if {show_pred(a[0])} else {show(a[2], d)})"
        if op == "get":
            return f"{show(a[0], d)}[{show(a[1], d)}]"
        if op == "fold":
            return f"fold(init={show(a[0], d)}, over={show(a[2], d)}, {[(al[0], show(al[1], d)) for al in a[3]]})"
        if op in ("bin",):
            return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
        return f"{op}({', '.join(show(q, d) if isinstance(q, V) else str(q) for q in a)})"
    return repr(x)


def show_pred(p):
    if isinstance(p, tuple):
        return "(" + " ".join(show_pred(q) for q in p) + ")"
    return str(p)


def show_segs(segs, d=0):
    out = []
    for s in segs:
        if s[0] == "e":
            out.append(show(s[1], d))
        elif s[0] == "rep":
            r = s[1]
            fl = ("~partial" if r.partial else "") + ("~rev" if r.rev else "")
            out.append(f"*{{{show(r.source, d)}{fl}: " + " | ".join(
                f"{list(map(show_guard, a.guard))}->{show_segs(a.segs, d)}" for a in r.alts) + "}")
        elif s[0] == "cond":
            out.append(f"<{s[1]}? {show_segs(s[2], d)} : {show_segs(s[3], d)}>")
        else:
            out.append(str(s))
    return "[" + ", ".join(out) + "]"


def show_guard(g):
    if g[0] == "fact":
        return ("" if g[2] else "not ") + show_pred(g[1])
    if g[0] == "cls":
        return f"{show(g[1])}:{'|'.join(sorted(g[2]))}"
    return str(g)


# --------------------------------------------------------------------------- folding over a finite domain
class NoValue(Exception):
    pass


def fold_term(t, m):
    """The constant a term denotes when the terms in m have the given constants (NoValue if it is not closed)."""
    if t in m:
        return m[t]
    if isinstance(t, Const):
        return t.v
    if isinstance(t, TupV):
        return tuple(fold_term(x, m) for x in t.items)
    if not isinstance(t, Sym):
        raise NoValue()
    a = t.args
    try:
        if t.op == "bin":
            import operator as O
            f = {"+": O.add, "-": O.sub, "*": O.mul, "/": O.truediv, "//": O.floordiv, "%": O.mod}[a[0]]
            return f(fold_term(a[1], m), fold_term(a[2], m))
        if t.op in ("min", "max", "abs", "len", "int", "str", "float", "round"):
            f = {"min": min, "max": max, "abs": abs, "len": len, "int": int, "str": str, "float": float,
                 "round": round}[t.op]
            return f(*[fold_term(x, m) for x in a])
        if t.op == "ext" and a[0] in ("builtins.round", "builtins.abs", "math.floor", "math.ceil", "math.trunc") and \
                len(a[1]) == 1:
            import math
            f = {"round": round, "abs": abs}.get(a[0].split(".")[1]) or getattr(math, a[0].split(".")[1])
            return f(fold_term(a[1][0], m))
        if t.op == "mul":
            return fold_term(a[0], m) * fold_term(a[1], m)
        if t.op == "cat":
            return "".join(str(fold_term(x, m)) for x in a)
        if t.op == "lookup":
            k = fold_term(a[1], m)
            for e in a[0]:
                if isinstance(e[0], Const) and e[0].v == k:
                    return fold_term(e[1], m)
            raise NoValue()
        if t.op == "index":
            return fold_term(a[0], m)[fold_term(a[1], m)]
        if t.op == "slice":
            return fold_term(a[0], m)[fold_term(a[1], m):fold_term(a[2], m)]
    except NoValue:
        raise
    except Exception:
        raise NoValue()
    raise NoValue()
