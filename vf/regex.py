"""What a constant regular expression can match, read off its syntax tree."""
from __future__ import annotations

import functools
import re

try:
    from re import _parser as SP, _constants as SC
except ImportError:                       # before 3.11
    import sre_parse as SP
    import sre_constants as SC

WS = " \t\n\r\f\v"


@functools.lru_cache(None)
def tree(pat, flags=0):
    try:
        p = SP.parse(pat, flags)
    except Exception:
        return None
    return p


def flag_value(v):
    """The value of a flags argument (a term), or None."""
    from .dom import Const, Ext, Sym
    if v is None:
        return 0
    if isinstance(v, Const) and isinstance(v.v, int):
        return v.v
    if isinstance(v, Ext) and v.name.startswith("re."):
        f = getattr(re, v.name.split(".")[-1], None)
        return int(f) if isinstance(f, re.RegexFlag) else None
    if isinstance(v, Sym) and v.op == "bin" and v.args[0] == "|":
        a, b = flag_value(v.args[1]), flag_value(v.args[2])
        return None if a is None or b is None else a | b
    return None


def walk(items):
    """Every consuming item, through groups, repeats and alternatives."""
    for op, av in items:
        if op is SC.SUBPATTERN:
            yield from walk(av[3])
        elif op in (SC.MAX_REPEAT, SC.MIN_REPEAT, getattr(SC, "POSSESSIVE_REPEAT", None)):
            yield from walk(av[2])
        elif op is SC.BRANCH:
            for b in av[1]:
                yield from walk(b)
        elif op is getattr(SC, "ATOMIC_GROUP", None):
            yield from walk(av)
        else:
            yield op, av


def literal(pat, flags=0):
    """The text that a pattern without any operator stands for."""
    t = tree(pat, flags)
    if t is None or flags & ~(int(re.M) | int(re.S) | int(re.U)) or t.state.flags & int(re.I):
        return None
    if all(op is SC.LITERAL for op, _ in t) and len(t):
        return "".join(chr(av) for _, av in t)
    return None


def run(pat, flags=0):
    """(c, k) when the pattern matches exactly the maximal runs of at least k times c."""
    t = tree(pat, flags)
    if t is None or t.state.flags & int(re.I):
        return None
    c, k, more = None, 0, False
    for op, av in t:
        lo = hi = 1
        if op is SC.MAX_REPEAT:
            lo, hi, sub = av
            if len(sub) != 1:
                return None
            op, av = sub[0]
        if op is SC.SUBPATTERN:
            if len(av[3]) != 1 or av[1] or av[2]:
                return None
            op, av = av[3][0]
        if op is SC.IN and len(av) == 1 and av[0][0] is SC.LITERAL:
            op, av = av[0]
        if op is not SC.LITERAL or c not in (None, chr(av)):
            return None
        c, k = chr(av), k + lo
        if hi == SC.MAXREPEAT:
            more = True
        elif hi != lo:
            return None
    return (c, k) if more and c is not None and k >= 1 else None


def chars(op, av, ch, flags):
    """May this item consume the character ch?"""
    if op is SC.LITERAL:
        return chr(av) == ch or bool(flags & int(re.I)) and chr(av).lower() == ch.lower()
    if op is SC.NOT_LITERAL:
        return chr(av) != ch
    if op is SC.ANY:
        return ch != "\n" or bool(flags & int(re.S))
    if op is SC.IN:
        neg = av[0][0] is SC.NEGATE
        hit = any(member(o, a, ch) for o, a in av if o is not SC.NEGATE)
        return hit != neg
    if op in (SC.AT, SC.ASSERT, SC.ASSERT_NOT):
        return False
    return True                          # back references and the like: assume so


def member(o, a, ch):
    if o is SC.LITERAL:
        return chr(a) == ch
    if o is SC.RANGE:
        return a[0] <= ord(ch) <= a[1]
    if o is SC.CATEGORY:
        n = str(a).lower()
        kind = {"space": ch.isspace(), "digit": ch.isdigit(), "word": ch.isalnum() or ch == "_"}
        for k, v in kind.items():
            if n.endswith("not_" + k):
                return not v
            if n.endswith("_" + k):
                return v
    return True


def may_eat(pat, ch, flags=0):
    t = tree(pat, flags)
    if t is None:
        return True
    return any(chars(op, av, ch, t.state.flags) for op, av in walk(t))


def ws_only(pat, flags=0):
    """Only whitespace is ever consumed."""
    t = tree(pat, flags)
    if t is None:
        return False
    for op, av in walk(t):
        if op in (SC.AT, SC.ASSERT, SC.ASSERT_NOT):
            continue
        if op is SC.LITERAL and chr(av).isspace():
            continue
        if op is SC.IN and all(o is SC.LITERAL and chr(a).isspace() or o is SC.CATEGORY and
                               str(a).lower().endswith("category_space") for o, a in av):
            continue
        if op is SC.GROUPREF:
            continue                     # repeats something that is whitespace itself
        return False
    return True


def plain(t):
    """No anchors, look-around or back references."""
    return all(op not in (SC.AT, SC.ASSERT, SC.ASSERT_NOT, SC.GROUPREF, getattr(SC, "GROUPREF_EXISTS", None))
               for op, _ in walk(t))


def eats_every(pat, ch, flags=0):
    """Every occurrence of ch in any text is part of a match: a match can start at each of them."""
    t = tree(pat, flags)
    if t is None or not plain(t) or t.getwidth()[0] < 1:
        return False
    try:
        return re.fullmatch(pat, ch, flags) is not None
    except Exception:
        return False


def groups_of(pat, flags=0):
    t = tree(pat, flags)
    return 0 if t is None else t.state.groups - 1


def template(repl, pat, flags=0):
    """The replacement text as a list of strings and group numbers, or None."""
    if "\\" not in repl:
        return [repl]
    try:
        r = SP.parse_template(repl, re.compile(pat, flags))
    except Exception:
        return None
    if isinstance(r, tuple):             # before 3.12: (groups, literals)
        gs = dict(r[0])
        return [gs[i] if i in gs else (x or "") for i, x in enumerate(r[1])]
    return [x for x in r if x != ""]


def whole_groups(pat, flags=0):
    """The numbers of the groups that stand for the whole match."""
    t = tree(pat, flags)
    out = {0}
    if t is not None and len(t) == 1 and t[0][0] is SC.SUBPATTERN and t[0][1][0]:
        out.add(t[0][1][0])
    return out
