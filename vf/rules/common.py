from __future__ import annotations

from ..dom import *  # noqa
from ..terms import *  # noqa
from ..terms import _segs_unknown
from ..calls import *  # noqa
from ..ctx import Ctx, Report, Path, OK, BAD, UND, walk_events, event_lists, NODE0
from ..interp import Frame, AnchorMissing
from .. import regex
from ..flow import Flow, regex_class, unclear_cut, is_field, ws, guard_lookup, mentions_unknown

IMMUTABLE_KINDS = {"str", "int", "float", "bool", "none"}


def find_func(C, name):
    """A module-level function of the package by name (the public API's binding first)."""
    E = C.E
    env = E.base_env.get((("mod", E.PKG + ".api"), name))
    if isinstance(env, FuncV):
        return env
    for m in sorted(E.modules):
        v = E.base_env.get((("mod", m), name))
        if isinstance(v, FuncV):
            return v
    return None


def fact_is(p, pred):
    return p.facts.get(pred)


def unknown_facts(p):
    """Does the path depend on a value the analysis does not follow?"""
    for k in p.facts:
        for v in k[1:]:
            if isinstance(v, V):
                if any(is_unknown(s) for s in subterms(v)):
                    return True
            elif isinstance(v, tuple) and _segs_unknown(v):
                return True
    return False


def show_facts(guards):
    return " and ".join(("" if b else "not ") + show_pred(k) for k, b in guards) or "always"


def clean(t):
    return strip_copy(t) if isinstance(t, Sym) else t


def exc_where(p):
    return p.exc.where if p.exc is not None else None
