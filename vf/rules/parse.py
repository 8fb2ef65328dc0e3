"""C01-C06: parsing."""
from __future__ import annotations

import re
import time

from .. import witness
from ..terms import NoValue
from .common import *  # noqa
from .static import conversions, models


def tag_term(js):
    return Sym("get", (js, Const("type")), ANY)


def tag_state(js, tag):
    st = State()
    st.facts[("haskey", js, Const("type"))] = True
    st.facts[("haskey", js, "type")] = True
    st.vals[tag_term(js)] = frozenset([Const(tag)])
    return st


def run_parser(C, kind, tag, null=False):
    fv = find_func(C, "parse_" + kind)
    if fv is None:
        return None, None, ("parser", kind)
    js = Sym("json", ("element",), DICT)
    key = ("parse", kind, tag) + (("null",) if null else ())
    if tag is None:
        return C.call_fn(key, fv, [js], intercept=False, root="<parser>"), js, key
    return C.call_fn(key, fv, [js], st=tag_state(js, tag), intercept=False, root="<parser>"), js, key


def odd_tag(C, kind, label, tag):
    fv = find_func(C, "parse_" + kind)
    if fv is None:
        return None, None
    key = ("parse odd", kind, label)
    s = State()
    v = C.E.alloc(s, ListO([])) if isinstance(tag, list) else Const(tag)
    js = C.E.alloc(s, DictO({Const("type"): (v, ())}))
    return C.call_fn(key, fv, [js], st=s, intercept=False, root="<parser>"), key


def parser_where(C, kind):
    fv = find_func(C, "parse_" + kind)
    return (C.E.modules[fv.mod]["path"], fv.node.lineno, fv.qual) if fv else None


def is_whole(v, js, C, p):
    """v denotes the object js itself or a copy of it."""
    if isinstance(v, Sym):
        return strip_copy(v) == js
    if isinstance(v, Ref):
        o = C.heap(p, v)
        if isinstance(o, DictO) and o.base is not None and strip_copy(o.base) == js and not o.deleted:
            return not o.entries
    return None


def parse_outcome(C, p, js):
    """('class', name) | ('exc', ExcV) | ('other', why)"""
    if p.exc is not None:
        return "exc", p.exc
    v = p.v
    if isinstance(v, Sym) and v.op == "fromdict":
        return "class", v.args[0], v.args[1]
    if isinstance(v, Ref) and isinstance(C.heap(p, v), InstO):
        return "inst", C.heap(p, v).cls.name
    if isinstance(v, Const) or isinstance(v, Sentinel):
        return "const", v
    return "other", show(v)


def nothing_given(C, cname, p, js):
    """Do the facts of the path exclude every field of the model but its type?  True / False."""
    absent = {f[2].v for f, b in p.facts.items()
              if f[0] == "haskey" and not b and f[1] == js and isinstance(f[2], Const)}
    name = getattr(cname, "name", cname)
    ci = C.cls(name) if isinstance(name, str) else None
    return ci is None and bool(absent) or ci is not None and not set(ci.fields) - absent - {"type"}


def c01(C, R):
    seen = {}
    for kind in ("node", "mark"):
        for tag, cname in C.spec["tags"][kind].items():
            r, js, key = run_parser(C, kind, tag)
            inst = f"parse_{kind}: {tag} -> {cname}"
            if r is None:
                if find_func(C, "parse_" + kind) is None:
                    R.bad("registry", inst, f"the library has no function parse_{kind}", None)
                else:
                    R.und("registry", inst, C.why(key), parser_where(C, kind))
                continue
            probs, good = [], 0
            for p in r:
                o = parse_outcome(C, p, js)
                if o[0] == "class":
                    if o[1] != cname:
                        probs.append((BAD, f"tag {tag!r} is parsed as {o[1]} instead of {cname}"))
                        continue
                    w = is_whole(o[2], js, C, p)
                    if w is False:
                        probs.append((BAD, f"tag {tag!r}: {cname} is built from {show(o[2])}, not from the object itself"))
                    elif w is None:
                        probs.append((UND, f"argument {show(o[2])}"))
                    else:
                        good += 1
                elif o[0] == "inst":
                    if o[1] != cname:
                        probs.append((BAD, f"tag {tag!r} is parsed as {o[1]} instead of {cname}"))
                    else:
                        good += 1
                elif o[0] == "exc":
                    e = o[1]
                    if e.origin[0] == "other" and not ("UnimplementedTypeError" == e.names[0]):
                        continue       # an error inside the element itself
                    if unknown_facts(p):
                        probs.append((UND, f"unclear condition: {C.facts_str(p)}"))
                    else:
                        probs.append((BAD, f"parse_{kind} raises {e.names[0]} for the supported tag {tag!r}", e.where))
                elif o[0] == "const":
                    probs.append((BAD, f"parse_{kind} returns {o[1]!r} for the supported tag {tag!r}"))
                else:
                    probs.append((UND, f"result {o[1]}"))
            if not good and not probs:
                probs.append((BAD, f"parse_{kind} builds nothing for the supported tag {tag!r}"))
            R.verdict("registry", inst, probs, parser_where(C, kind))
            # the model's own default tag
            ci = C.cls(cname)
            inst = f"{cname}.type == {tag!r}"
            if ci is None:
                R.bad("own tag", inst, f"the model {cname} of tag {tag!r} no longer exists")
                continue
            own = C.E.tag(cname)
            if own is None:
                f = ci.fields.get("type")
                R.und("own tag", inst, f"default of the type field is {f.default if f else None!r}", C.where_of(cname))
            elif own.v != tag:
                R.bad("own tag", inst, f"{cname} carries the tag {own.v!r} instead of {tag!r}", C.where_of(cname))
            else:
                R.ok("own tag", inst)
            # parsing through the model builds that model
            rr = C.fd(cname)
            inst = f"{cname}.from_dict builds {cname}"
            if rr is None:
                R.und("own class", inst, C.why(("fd", cname, "")), C.where_of(cname, "from_dict"))
                continue
            probs = []
            for p in rr:
                if p.exc is not None:
                    continue
                o = C.heap(p, p.v)
                if isinstance(o, InstO):
                    if o.cls.name != cname:
                        probs.append((BAD, f"{cname}.from_dict builds a {o.cls.name}"))
                elif isinstance(p.v, (Const, Sentinel)):
                    probs.append((BAD, f"{cname}.from_dict returns {p.v!r}"))
                else:
                    probs.append((UND, f"{cname}.from_dict returns {show(p.v)}"))
            if not any(p.exc is None for p in rr):
                probs.append((BAD, f"{cname}.from_dict never returns a model"))
            R.verdict("own class", inst, probs, C.where_of(cname, "from_dict"))
    # node tags are no marks, mark tags no nodes
    for kind, other in (("node", "mark"), ("mark", "node")):
        for tag in C.spec["tags"][other]:
            if tag in C.spec["tags"][kind]:
                continue
            r, js, key = run_parser(C, kind, tag)
            inst = f"parse_{kind} and the {other} tag {tag!r}"
            if r is None:
                R.und("kinds apart", inst, C.why(key), parser_where(C, kind))
                continue
            probs = []
            for p in r:
                o = parse_outcome(C, p, js)
                if o[0] in ("class", "inst"):
                    probs.append((UND if unknown_facts(p) else BAD, f"the {other} tag {tag!r} is parsed as {o[1]}"))
                elif o[0] == "other":
                    probs.append((UND, f"result {o[1]}"))
            R.verdict("kinds apart", inst, probs, parser_where(C, kind))
    # the tables the parsers use are not rewritten while models are parsed or converted
    regs = {}
    for (fid, n), v in C.E.base_env.items():
        o = C.E.base_heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(o, DictO) and o.entries and all(isinstance(x[0], ClassV) for x in o.entries.values()):
            regs[f"{fid[1]}.{n}"] = n
    for cname in models(C):
        runs = [(inst, r) for inst, _, r in conversions(C, cname)] + [(cname + ".from_dict", C.fd(cname))]
        for inst, r in runs:
            for p in r or ():
                for e, g in walk_events(p.events):
                    if e[0] == "global_write" and e[1] in regs:
                        R.bad("stable registry", inst, f"{inst} rewrites {regs[e[1]]}: which model a tag is parsed as "
                              "then depends on what ran before", e[4] if isinstance(e[4], tuple) else C.where_of(cname))
                        break
    # what the parsers remember is the same whatever element it was remembered for
    for kind in ("node", "mark"):
        kept, probs = {}, []
        for tag in C.spec["tags"][kind]:
            r, js, _ = run_parser(C, kind, tag)
            for p in r or ():
                for e, g in walk_events(p.events):
                    if e[0] != "global_write" or len(e) < 7 or not isinstance(e[6], V) or not isinstance(e[5], V):
                        continue
                    where = e[4] if isinstance(e[4], tuple) else None
                    try:
                        k = Const(fold_term(e[5], {Sym("get", (js, Const("type")), STR): tag}))
                    except (NoValue, TypeError):
                        k = e[5]
                    v = Sym("model", (x.args[0],)) if (x := e[6]) and isinstance(x, Sym) and x.op == "fromdict" else x
                    old = kept.setdefault((e[1], k), v)
                    if any(is_unknown(x) for y in (old, v, k) for x in subterms(y)):
                        probs.append((UND, f"{e[1]} remembers {show(v)[:60]}", where))
                    elif old != v:
                        probs.append((BAD, f"{e[1]} remembers different values under {show(k)}", where))
                    elif mentions(e[6], js):
                        known = mentions(k, js) or e[6] != v and nothing_given(C, e[6].args[0], p, js)
                        probs.append((UND if known else BAD, f"{e[1]} remembers what was parsed from one element and "
                                      "does not tell it from another one", where))
        R.verdict("nothing remembered", "parse_" + kind, dedupe(probs), parser_where(C, kind))
    # no other model claims a supported tag
    for cname, ci in sorted(C.E.classes.items()):
        if cname in C.tags or not ci.is_sub("BaseMarkOrNode"):
            continue
        t = C.E.tag(cname)
        kind = "node" if ci.is_sub("BaseNode") else "mark"
        if t is not None and t.v in C.spec["tags"][kind]:
            other = C.spec["tags"][kind][t.v]
            if ci.is_sub(other):
                R.ok("unique tag", cname)
            else:
                R.bad("unique tag", cname, f"{cname} claims the tag {t.v!r} of {other}", C.where_of(cname))


def near_misses(C, kind):
    """Unsupported tags that are easily taken for a supported one."""
    for t in C.spec["tags"][kind]:
        for x in (" " + t, t + " ", t + "\n", t.upper(), t.capitalize(), t + "s", t + "_v2", t[:-1], t + "-1", t + ".x",
                  "com.x:" + t, t + "/" + t, t.replace("C", "-c") + ":", re.sub("(?<!^)([A-Z])", r"_\1", t).lower(),
                  "t" * 60 + t, t + "\u00a0"):
            if x not in C.spec["tags"][kind] and x != "bodiedExtension":
                yield x


def c02_probe(C, R, kind):
    """The summary for an arbitrary tag, folded for single tags; refutes only."""
    r, js, key = run_parser(C, kind, None)
    if r is None:
        return
    tag_of = [Sym("get", (js, Const("type")), STR), Sym("get", (js, Const("type")), ANY)]
    end, done = time.monotonic() + 20, 0
    for tag in near_misses(C, kind):
        if time.monotonic() > end:
            break
        F = witness.Fold(C, {t: tag for t in tag_of} | {js: {"type": tag}})
        alive, bad = 0, []
        for p in r:
            F.memo, F.fuel = {}, 60000
            if not F.alive(p):
                continue
            alive += 1
            o = parse_outcome(C, p, js)
            if o[0] == "exc":
                e = o[1]
                x = C.E.heap_get(p.st, e.ref) if e.ref is not None else None
                if e.names[0] == "UnimplementedTypeError" and e.origin[0] == "raise" and isinstance(x, InstO):
                    for f, want in (("type_value", tag), ("category", kind)):
                        try:
                            got = F.val(x.fields.get(f))
                        except NoValue:
                            continue
                        if got != want:
                            bad.append(f"the error for the unsupported tag {tag!r} carries {f} = {got!r}")
                            break
            else:
                bad.append(f"the unsupported tag {tag!r} is parsed as a {kind}")
        done += 1
        if alive and len(bad) == alive:
            R.bad("unknown tag", f"parse_{kind}({tag!r})", bad[0], parser_where(C, kind))
            break
    R.analysed.setdefault("near misses", {})[kind] = done


def c02(C, R):
    for kind in ("node", "mark"):
        c02_probe(C, R, kind)
        w = parser_where(C, kind)
        other = "mark" if kind == "node" else "node"
        probes = ["\x00no such tag", "bodiedExtension", "Paragraph", " text", ""] + \
            [t for t in C.spec["tags"][other] if t not in C.spec["tags"][kind]]
        for tag in probes:
            inst = f"parse_{kind}({tag!r})"
            r, js, key = run_parser(C, kind, tag)
            if r is None:
                if find_func(C, "parse_" + kind) is None:
                    R.bad("unknown tag", inst, f"the library has no function parse_{kind}")
                else:
                    R.und("unknown tag", inst, C.why(key), w)
                continue
            probs = []
            for p in r:
                o = parse_outcome(C, p, js)
                if o[0] in ("class", "inst"):
                    if tag == "bodiedExtension" and o[1] not in C.spec["tags"][kind].values():
                        continue
                    probs.append((BAD, f"the unsupported tag {tag!r} is parsed as a {kind} {o[1]}"))
                elif o[0] == "const":
                    probs.append((BAD, f"the unsupported tag {tag!r} yields {o[1]!r} instead of an error"))
                elif o[0] == "other":
                    probs.append((UND, o[1]))
                else:
                    e = o[1]
                    if unknown_facts(p):
                        probs.append((UND, C.facts_str(p)))
                    elif e.names[0] != "UnimplementedTypeError":
                        probs.append((BAD, f"parse_{kind} raises {e.names[0]} for the unsupported tag {tag!r}", e.where))
                    else:
                        probs += exc_attrs(C, p, js, tag, kind)
            R.verdict("unknown tag", inst, probs, w)
        # a tag that is not even a string
        for label, tag in (("null", None), ("a number", 7), ("a list", [])):
            inst = f"parse_{kind}(type: {label})"
            r, key = odd_tag(C, kind, label, tag)
            if r is None:
                if key is not None:
                    R.und("unknown tag", inst, C.why(key), w)
                continue
            probs = []
            for p in r:
                o = parse_outcome(C, p, None)
                if o[0] in ("class", "inst"):
                    probs.append((UND if unknown_facts(p) else BAD,
                                  f"an element whose type is {label} is parsed as a {kind} {o[1]}"))
                elif o[0] == "const":
                    probs.append((UND if unknown_facts(p) else BAD,
                                  f"an element whose type is {label} yields {o[1]!r} instead of an error"))
            R.verdict("unknown tag", inst, probs, w)
        # any tag at all: the error is raised only outside the supported set
        r, js, key = run_parser(C, kind, None)
        inst = f"parse_{kind}(any tag)"
        if r is None:
            R.und("only unknown tags", inst, C.why(key), w)
        else:
            tags = set(C.spec["tags"][kind])
            probs = []
            for p in r:
                if p.exc is None or p.exc.names[0] != "UnimplementedTypeError":
                    continue
                if p.exc.origin[0] == "unimpl":
                    continue
                if p.facts.get(("haskey", js, "type")) is False or p.facts.get(("haskey", js, Const("type"))) is False:
                    probs.append((BAD, "an element without any type is reported as an unimplemented type", p.exc.where))
                    continue
                probs += exc_attrs(C, p, js, None, kind)
            R.verdict("only unknown tags", inst, probs, w)
        # a supported element with a problem inside
        for tag, cname in C.spec["tags"][kind].items():
            r, js, key = run_parser(C, kind, tag)
            inst = f"parse_{kind}({tag!r}) with a problem inside"
            if r is None:
                R.und("inner problem", inst, C.why(key), w)
                continue
            probs = []
            for p in r:
                if p.exc is not None and p.exc.names[0] == "UnimplementedTypeError" and not unknown_facts(p):
                    probs.append((BAD, f"a supported {kind} {tag!r} is reported as unimplemented "
                                       f"(condition: {C.facts_str(p)[:200]})", p.exc.where))
                for e, g in walk_events(p.events):
                    if e[0] == "caught" and e[1][0] == "other":
                        probs.append((BAD, f"an error inside the supported {kind} {tag!r} is caught", e[3]))
            R.verdict("inner problem", inst, probs, w)
        # inside containers and attribute objects
    for cname in C.node_classes + C.mark_classes:
        r = C.fd(cname)
        inst = f"{cname}.from_dict"
        if r is None:
            R.und("inner problem", inst, C.why(("fd", cname, "")), C.where_of(cname, "from_dict"))
            continue
        probs = []
        for p in r:
            if p.exc is not None and p.exc.names[0] == "UnimplementedTypeError" and p.exc.origin[0] != "unimpl":
                probs.append((BAD, f"{cname}.from_dict itself reports an unimplemented type", p.exc.where))
        R.verdict("inner problem", inst, probs, C.where_of(cname, "from_dict"))


def exc_attrs(C, p, js, tag, kind):
    """The error carries the tag and the category."""
    e = p.exc
    got = {}
    o = C.E.heap_get(p.st, e.ref) if e.ref is not None else None
    if isinstance(o, InstO):
        got = dict(o.fields)
    elif len(e.args) == 2:
        got = {"type_value": e.args[0], "category": e.args[1]}
    out = []
    want_t = {tag_term(js)} | ({Const(tag)} if tag is not None else set())
    tv, cv = got.get("type_value"), got.get("category")
    tv = clean(tv) if tv is not None else None
    if tv is None:
        out.append((UND, "type_value of the error"))
    elif tv not in want_t:
        if isinstance(tv, Const) or (isinstance(tv, Sym) and tv.op in ("get", "json", "meth")):
            out.append((BAD, f"the error carries {show(tv)} as the type instead of the tag", e.where))
        else:
            out.append((UND, f"type_value {show(tv)}"))
    if cv is None:
        out.append((UND, "category of the error"))
    elif cv != Const(kind):
        if isinstance(cv, Const):
            out.append((BAD, f"the error for a {kind} carries the category {cv!r}", e.where))
        else:
            out.append((UND, f"category {show(cv)}"))
    return out


# ------------------------------------------------------------------------------ C03
CFG = "WARN_UNIMPLEMENTED_TYPE"


def cfg_of(guard):
    for g in guard:
        if g[0] == "fact":
            p, b = g[1], g[2]
            if p[0] in ("truthy", "is", "eq") and any(isinstance(q, Sym) and q.op == "cfg" and q.args[-1] == CFG or
                                                      isinstance(q, Sym) and q.op == "cfg" for q in p[1:]):
                q2 = [q for q in p[1:] if isinstance(q, Const)]
                if q2 and q2[0] == FALSE:
                    b = not b
                return b
    return None


def count_logs(events):
    n, amb = 0, False
    for e in events:
        if e[0] == "log":
            if e[1] in ("warning", "warn"):
                n += 1
            elif e[1] == "log":
                level = e[2][0] if e[2] else None
                if level == Const(30) or isinstance(level, Ext) and level.name == "logging.WARNING":
                    n += 1
                elif isinstance(level, Const) or isinstance(level, Ext) and level.name.startswith("logging.") or \
                        isinstance(level, Sym) and level.op == "cfg":
                    pass            # logged at another level, so not as a warning
                else:
                    amb = True
        elif e[0] == "loop":
            amb = amb or any(count_logs(evs)[0] for g, evs, s in e[2])
        elif e[0] in ("ext",) and "warn" in str(e[1]):
            amb = True
    return n, amb


def list_source(v, js, fname):
    """Is v (a copy of) js[fname]?"""
    v = clean(v)
    if isinstance(v, Sym) and v.op == "get" and v.args[1] == Const(fname):
        return strip_copy(v.args[0]) == js if isinstance(v.args[0], Sym) else False
    return False


def parser_logs(C, kind):
    """Warnings the parse function itself logs for an unimplemented type: {setting: n}, None if unclear."""
    if ("logs", kind) not in C.cache:
        r, js, key = run_parser(C, kind, None)
        got = {True: set(), False: set()}
        for p in r or ():
            if p.exc is None or p.exc.names[0] != "UnimplementedTypeError":
                continue
            n, amb = count_logs(p.events)
            c = cfg_of([("fact", k, b) for k, b in p.facts.items()])
            for b in (True, False):
                if c is None or c == b:
                    got[b].add(None if amb else n)
        C.cache["logs", kind] = {b: next(iter(x)) if len(x) == 1 else 0 if not x else None for b, x in got.items()}
    return C.cache["logs", kind]


def parsed_list(C, p, v, js, fname, cat_):
    """Problems of a parsed child or mark list."""
    if isinstance(v, Sym):
        if v.op == "get" or v.op == "copyof":
            return [(BAD, f"{fname} is stored without being parsed")]
        return [(UND, f"{fname} = {show(v)[:120]}")]
    if isinstance(v, (Const, Sentinel)):
        return [(BAD if not unknown_facts(p) else UND, f"{fname} is stored as {v!r} although it is given")]
    o = C.heap(p, v) if isinstance(v, Ref) else None
    if not isinstance(o, ListO):
        return [(UND, f"{fname} is not a list")]
    out = []
    reps = [s for s in o.segs if s[0] == "rep"]
    if len(o.segs) == 0:
        for k, b in p.facts.items():
            if k[0] == "truthy" and list_source(k[1], js, fname) and b is False:
                return []
        return [(BAD if not unknown_facts(p) else UND, f"{fname} is stored as an empty list although children may be given")]
    if len(o.segs) != 1 or len(reps) != 1:
        if any(s[0] in ("unk", "prev", "cond") for s in o.segs):
            return [(UND, f"{fname} = {show_segs(o.segs)[:160]}")]
        if len(reps) == 1 and any(s[0] == "e" for s in o.segs):
            return [(BAD, f"{fname} gets an element of its own: {show_segs(o.segs)[:160]}")]
        if len(reps) > 1:
            srcs = [list_source(s[1].source, js, fname) for s in reps]
            if all(srcs):
                keeps = [bool(s[1].alts) and any(a.segs for a in s[1].alts) for s in reps]
                clear = all(keeps) and not any(mentions_unknown(g) for s in reps for a in s[1].alts for g in a.guard)
                return [(BAD if clear else UND,
                         f"{fname} is put together from several passes over the input, so not in input order: "
                         f"{show_segs(o.segs)[:160]}")]
        return [(UND, f"{fname} = {show_segs(o.segs)[:160]}")]
    rep = reps[0][1]
    src = clean(rep.source)
    if not list_source(src, js, fname):
        if isinstance(src, Sym) and src.op in ("slice", "sorted", "reversed", "set") and \
                any(list_source(s, js, fname) for s in subterms(src)):
            return [(BAD, f"only {show(src)} is parsed instead of all of {fname} in order")]
        return [(UND, f"{fname} is built from {show(src)[:120]}")]
    if rep.rev:
        out.append((BAD, f"the elements of {fname} are parsed in reverse order"))
    if rep.partial or any(a.exit == "break" for a in rep.alts):
        out.append((BAD, f"the loop over {fname} may stop before the last element"))
    el_names = {elem_of(rep.source)}
    kept = 0
    for a in rep.alts:
        g = list(a.guard)
        caught = [e for e in a.events if e[0] == "caught"]
        vals = []
        odd = None
        for s in a.segs:
            if s[0] == "e":
                vals.append(s[1])
            else:
                odd = s
        gtxt = " and ".join(map(show_guard, g)) or "always"
        other = other_class(C, p, a, rep, cat_)
        if other:
            out.append((BAD, f"an element of {fname} that is a {other[1]} is stored as a {other[0]}"))
            continue
        if odd is not None:
            inner = odd[1] if odd[0] == "rep" else None
            if inner is not None and isinstance(inner.source, Sym) and inner.source.op == "get" and \
                    strip_copy(inner.source.args[0]) == strip_copy(elem_of(rep.source)) and \
                    any(s[0] == "e" and isinstance(s[1], Sym) and s[1].op == "parsed" and
                        strip_copy(s[1].args[1]) == strip_copy(elem_of(inner.source)) for q in inner.alts for s in q.segs):
                out.append((BAD, f"{fname} gets what is inside of an element ({show(inner.source)[:80]}) in its place "
                                 f"when {gtxt[:120]}"))
                continue
            out.append((UND, f"{fname}: {show_segs([odd])[:100]}"))
            continue
        for e in caught:
            if e[1][0] == "other":
                out.append((BAD, f"an error inside an element of {fname} is swallowed", e[3]))
        good = [x for x in vals if isinstance(x, Sym) and x.op == "parsed" and x.args[0] == cat_ and
                strip_copy(x.args[1]) == strip_copy(elem_of(rep.source)) or is_el_parsed(x, rep, cat_)]
        if len(vals) > 1:
            out.append((BAD, f"an element of {fname} is stored {len(vals)} times"))
            continue
        if len(vals) == 1:
            if good:
                kept += 1
                if caught and any(e[1][0] == "unimpl" for e in caught):
                    out.append((BAD, f"{fname}: stored after a parse failure"))
                n, amb = count_logs(a.events)
                if n:
                    out.append((BAD, f"a warning is logged for a parsed element of {fname}"))
            elif isinstance(vals[0], Sym) and vals[0].op == "parsed" and vals[0].args[0] != cat_ and \
                    is_el_parsed(vals[0], rep, vals[0].args[0]):
                out.append((BAD, f"the elements of {fname} are parsed as {vals[0].args[0]}s"))
            elif isinstance(vals[0], (Const, Sentinel)) or vals[0] in el_names:
                out.append((BAD, f"{fname} stores {show(vals[0])} instead of the parsed element when {gtxt}"))
            elif isinstance(vals[0], Sym) and vals[0].op == "loopvar":
                out.append((BAD, f"{fname} stores the previous element's value when {gtxt}"))
            else:
                out.append((UND, f"{fname}: {show(vals[0])[:100]}"))
            continue
        # nothing stored: only for an unimplemented type
        unimpl = any(e[1][0] == "unimpl" for e in caught)
        pre = any(x[0] == "fact" and x[1][0] == "inset" and x[2] is False for x in g)
        if not unimpl and not pre:
            if any(mentions_unknown(x) for x in g):
                out.append((UND, f"element of {fname} dropped under an unclear condition"))
            elif any(e[1][0] == "other" for e in caught):
                pass
            else:
                out.append((BAD, f"an element of {fname} is dropped when {gtxt}"))
            continue
        n, amb = count_logs(a.events)
        if amb:
            out.append((UND, "unusual logging"))
            continue
        c = cfg_of(g)
        extra = parser_logs(C, cat_) if unimpl else {True: 0, False: 0}
        if any(extra.values()) or None in extra.values():
            if None in extra.values():
                out.append((UND, f"parse_{cat_} logs in an unclear way"))
                continue
            for b in (True, False):
                if c in (None, b) and n + extra[b] != int(b):
                    out.append((BAD, f"with the warning setting {'on' if b else 'off'}, skipping an element of {fname} "
                                     f"logs {n + extra[b]} warnings, {extra[b]} of them in parse_{cat_}"))
            continue
        if c is True and n != 1:
            out.append((BAD, f"with the warning setting on, skipping an element of {fname} logs {n} warnings"))
        elif c is False and n != 0:
            out.append((BAD, f"with the warning setting off, skipping an element of {fname} still logs a warning"))
        elif c is None:
            if any(mentions_unknown(x) for x in g):
                out.append((UND, "unclear warning condition"))
            else:
                out.append((BAD, f"skipping an element of {fname} {'logs' if n else 'does not log'} a warning whatever "
                                 f"the current warning setting is"))
    if not kept:
        out.append((BAD, f"no element of {fname} is ever stored"))
    return out


def other_class(C, p, a, rep, cat_):
    """(stored class, class of the element) when one alternative stores a model built as another class than the
    element was parsed as."""
    was = [g[2] for g in a.guard if g[0] == "cls" and is_el_parsed(g[1], rep, cat_)]
    if not was:
        return None
    for s in a.segs:
        for v in ([s[1]] if s[0] == "e" else [q[1] for side in s[2:4] for q in side if q[0] == "e"] if s[0] == "cond" else ()):
            o = C.heap(p, v) if isinstance(v, Ref) else None
            name = getattr(getattr(o, "cls", None), "name", None)
            if isinstance(o, InstO) and name in C.node_classes + C.mark_classes and not any(name in w for w in was):
                return name, " or ".join(sorted(was[0])[:3])
    return None


def is_el_parsed(x, rep, cat_):
    if not (isinstance(x, Sym) and x.op == "parsed" and x.args[0] == cat_):
        return False
    a = x.args[1]
    a = strip_copy(a) if isinstance(a, Sym) else a
    if a == elem_of(rep.source):
        return True
    if isinstance(a, Sym) and a.op == "elem":
        return strip_copy(a.args[0]) == strip_copy(rep.source)
    return False


def c03(C, R):
    for cname in C.node_classes:
        flds = C.spec["classes"][cname]["fields"]
        js = C.json(cname)
        r = C.fd(cname)
        w = C.where_of(cname, "from_dict")
        for fname, cat_ in (("content", "node"), ("marks", "mark")):
            if fname not in flds:
                continue
            inst = f"{cname}.{fname}"
            if r is None:
                R.und("parsed list", inst, C.why(("fd", cname, "")), w)
                continue
            probs, n = [], 0
            for p in r:
                if p.exc is not None:
                    if p.exc.origin[0] == "unimpl" and p.exc.origin[1] == cat_:
                        probs.append((BAD, f"an unimplemented element of {fname} aborts the parsing", p.exc.where))
                    continue
                if has_key(p, js, fname) is not True:
                    continue
                o = C.heap(p, p.v)
                if not isinstance(o, InstO) or fname not in o.fields:
                    probs.append((UND, "result is not a model"))
                    continue
                n += 1
                probs += parsed_list(C, p, o.fields[fname], js, fname, cat_)
            if not n and not probs:
                probs.append((UND, f"no parsing path with {fname} given"))
            # an error inside an element must be able to leave the function
            if n and not any(p.exc is not None and p.exc.origin[0] == "other" and p.exc.origin[1] == cat_ for p in r) \
                    and not any(x[0] == UND for x in probs):
                probs.append((BAD, f"an error inside an element of {fname} never reaches the caller"))
            R.verdict("parsed list", inst, dedupe(probs), w)


def dedupe(probs):
    seen, out = set(), []
    for p in probs:
        if p[:2] not in seen:
            seen.add(p[:2])
            out.append(p)
    return out


def has_key(p, js, k):
    for kk in (("haskey", js, k), ("haskey", js, Const(k))):
        if kk in p.facts:
            return p.facts[kk]
    return None


# ------------------------------------------------------------------------------ C04
def mutable_fields(C, cname):
    ci = C.cls(cname)
    if ci is None:
        return []
    out = []
    for n, f in ci.fields.items():
        k = f.ty.kind
        if k in IMMUTABLE_KINDS:
            continue
        out.append(n)
    return out


def raw_json_parts(v, js):
    """Subterms of v that are the caller's own objects (not copied)."""
    out = []

    def go(x):
        if isinstance(x, Sym):
            if x.op in ("copyof", "fromdict", "parsed", "str", "cat", "join", "len"):
                return
            if x == js:
                out.append(x)
                return
            if x.op in ("get", "index", "elem", "slice") and mentions(x, js):
                if any(isinstance(s, Sym) and s.op == "copyof" for s in spine(x)):
                    return
                out.append(x)
                return
            for c in children(x):
                go(c)
    go(v)
    return out


def spine(x):
    while isinstance(x, Sym) and x.args and x.op in ("get", "index", "elem", "slice", "copyof", "meth"):
        yield x
        x = x.args[0] if x.op != "meth" else x.args[1]
    if isinstance(x, Sym):
        yield x


def c04(C, R):
    for kind in ("node", "mark"):
        w = parser_where(C, kind)
        for tag in [None] + list(C.spec["tags"][kind]):
            r, js, key = run_parser(C, kind, tag)
            inst = f"parse_{kind}({tag or 'any tag'})"
            if r is None:
                if find_func(C, "parse_" + kind) is not None:
                    R.und("no mutation", inst, C.why(key), w)
                continue
            probs = []
            if tag is None or tag == "em":      # as above where JSON has null
                r = r + (run_parser(C, kind, tag, null=True)[0] or [])
            for p in r:
                for e, g in walk_events(p.events):
                    if e[0] == "mutate" and isinstance(e[1], V) and not any(
                            isinstance(s, Sym) and s.op == "copyof" for s in spine(e[1])) and \
                            any(s == js for s in subterms(e[1])):
                        probs.append((BAD, f"parse_{kind} changes the caller's object {show(e[1])} ({e[2]})",
                                      e[3] if len(e) > 3 else None))
            R.verdict("no mutation", inst, dedupe(probs), w)
    for cname in list(C.spec["classes"]):
        ci = C.cls(cname)
        if ci is None:
            R.und("no aliasing", cname, "model not found")
            continue
        is_el = ci.is_sub("BaseMarkOrNode")
        js = C.json(cname)
        r = C.fd(cname)
        w = C.where_of(cname, "from_dict")
        if r is None:
            R.und("no mutation", cname + ".from_dict", C.why(("fd", cname, "")), w)
            continue
        probs = []
        for p in r + (C.fd(cname, tag="null") or []):
            for e, g in walk_events(p.events):
                if e[0] == "mutate" and isinstance(e[1], V):
                    if any(s == js for s in subterms(e[1])) and not any(
                            isinstance(s, Sym) and s.op == "copyof" for s in spine(e[1])):
                        probs.append((BAD, f"{cname}.from_dict changes the caller's object {show(e[1])} ({e[2]})",
                                      e[3] if len(e) > 3 else None))
        R.verdict("no mutation", cname + ".from_dict", dedupe(probs), w)
        if not is_el:
            continue
        probs = []
        for p in r:
            if p.exc is not None:
                continue
            o = C.heap(p, p.v)
            if not isinstance(o, InstO):
                probs.append((UND, "result is not a model"))
                continue
            for fname in mutable_fields(C, cname):
                v = o.fields.get(fname)
                probs += alias_problems(C, p, v, js, f"{cname}.{fname}")
        R.verdict("no aliasing", cname, dedupe(probs), w)


def alias_problems(C, p, v, js, what):
    if isinstance(v, Sym):
        if v.op == "fromdict":
            arg = v.args[1]
            raw = raw_json_parts(arg, js) if isinstance(arg, Sym) else []
            if isinstance(arg, Ref):
                o = C.heap(p, arg)
                if isinstance(o, DictO):
                    raw = dict_raw(C, p, o, js)
            mf = mutable_fields(C, v.args[0])
            if raw and mf and not copies_itself(C, v.args[0]):
                return [(BAD, f"{what}: the fields {', '.join(mf)} of {v.args[0]} stay shared with the caller's dictionary")]
            return []
        if v.op == "phi":
            return alias_problems(C, p, v.args[1], js, what) + alias_problems(C, p, v.args[2], js, what)
        raw = raw_json_parts(v, js)
        if raw:
            return [(BAD, f"{what} is the caller's own object {show(raw[0])}")]
        return []
    if isinstance(v, Ref):
        o = C.heap(p, v)
        if isinstance(o, ListO):
            out = []
            for x in seg_values_noguard(o.segs):
                if isinstance(x, Sym) and x.op != "parsed":
                    raw = raw_json_parts(x, js)
                    if raw and x.ty.kind not in IMMUTABLE_KINDS:
                        out.append((BAD, f"{what} contains the caller's own object {show(raw[0])}"))
            return out
        if isinstance(o, DictO):
            raw = dict_raw(C, p, o, js)
            return [(BAD, f"{what} shares {show(raw[0])} with the caller")] if raw else []
    return []


def seg_values_noguard(segs):
    for s in segs:
        if s[0] == "e":
            yield s[1]
        elif s[0] == "rep":
            for a in s[1].alts:
                yield from seg_values_noguard(a.segs)
        elif s[0] == "cond":
            yield from seg_values_noguard(s[2])
            yield from seg_values_noguard(s[3])
        elif s[0] == "mul":
            yield from seg_values_noguard(s[1])


def dict_raw(C, p, o, js):
    raw = []
    if o.base is not None and not o.deep and mentions(o.base, js) and not any(
            isinstance(s, Sym) and s.op == "copyof" for s in spine(o.base)):
        raw.append(o.base)
    for k, (v, g) in o.entries.items():
        if isinstance(v, Sym):
            raw += raw_json_parts(v, js)
    return raw


def copies_itself(C, cname):
    """Does cname.from_dict copy the mutable fields itself?"""
    r = C.fd(cname)
    if r is None:
        return False
    js = C.json(cname)
    for p in r:
        if p.exc is None:
            o = C.heap(p, p.v)
            if not isinstance(o, InstO):
                return False
            for f in mutable_fields(C, cname):
                if alias_problems(C, p, o.fields.get(f), js, f):
                    return False
    return True


# ------------------------------------------------------------------------------ C05
def split_phi(v, facts):
    """[(facts, leaf)]"""
    if isinstance(v, Sym) and v.op == "phi":
        k = v.args[0]
        if k in facts:
            return split_phi(v.args[1] if facts[k] else v.args[2], facts)
        return split_phi(v.args[1], {**facts, k: True}) + split_phi(v.args[2], {**facts, k: False})
    return [(facts, v)]


def default_of(C, cname, fname):
    f = C.cls(cname).fields.get(fname)
    return f.default if f else None


def field_problems(C, p, cname, o, js):
    spec = C.spec["classes"][cname]["fields"]
    out = []
    for fname, sp in spec.items():
        if fname not in o.fields:
            out.append((BAD, f"{cname} has no field {fname} any more"))
            continue
        for facts, v in split_phi(o.fields[fname], dict(p.facts)):
            hk = facts.get(("haskey", js, fname), facts.get(("haskey", js, Const(fname))))
            cond = C.facts_str(p)[:160]
            if hk is False:
                if v == OPT or v == REQ or isinstance(v, Const):
                    d = OPT if sp.get("optional") else (Const(sp["default"]) if "default" in sp else None)
                    if d is not None and v != d:
                        out.append((BAD, f"the absent field {fname} is stored as {v!r} instead of {d!r}"))
                elif isinstance(v, Ref) or (isinstance(v, Sym) and v.op in ("fromdict",)):
                    out.append((BAD, f"the absent optional field {fname} is given a value"))
                elif isinstance(v, Sym) and not is_unknown(v) and v.op == "get":
                    out.append((BAD if v.args[1] != Const(fname) else UND,
                                f"the absent field {fname} is filled from {show(v)}"))
                else:
                    out.append((UND, f"{fname} = {show(v)[:80]}"))
                continue
            if hk is None:
                # the value does not depend on whether the field is given
                if v == OPT or isinstance(v, Const):
                    if unknown_facts(p):
                        out.append((UND, f"{fname} = {v!r} when {cond}"))
                    else:
                        out.append((BAD, f"the field {fname} is dropped: stored as {v!r} whatever the input (when {cond})"))
                    continue
                if is_get(v, js, fname) or (isinstance(v, Sym) and v.op == "fromdict"):
                    continue      # reading it raised if absent
                if isinstance(v, Ref):
                    ob = C.heap(p, v)
                    if isinstance(ob, ListO) and fname in ("content", "marks") and ob.segs:
                        continue
                cv = clean(v)
                if isinstance(cv, Sym) and cv.op == "get" and isinstance(cv.args[1], Const) and \
                        isinstance(cv.args[0], Sym) and strip_copy(cv.args[0]) == js and not unknown_facts(p):
                    out.append((BAD, f"the field {fname} is filled from {show(cv)} even where it is given itself"))
                    continue
                out.append((UND, f"{fname} = {show(v)[:80]} independent of its presence"))
                continue
            # given
            if fname in ("content", "marks") and C.cls(cname).is_sub("BaseNode"):
                probs = [x for x in parsed_list(C, p, v, js, fname, "node" if fname == "content" else "mark")
                         if "warning" not in x[1]]
                out += probs
                continue
            if fname == "attrs" and sp.get("parsed"):
                if isinstance(v, Sym) and v.op == "fromdict":
                    if v.args[0] not in sp["classes"]:
                        out.append((BAD, f"attrs are built as {v.args[0]} instead of {'/'.join(sp['classes'])}"))
                    elif not arg_is(C, p, v.args[1], js, fname):
                        out.append((UND, f"attrs are built from {show(v.args[1])[:80]}"))
                elif is_get(v, js, fname):
                    out.append((BAD, "attrs stay a plain dictionary instead of the model's own attribute object"))
                elif v == OPT or isinstance(v, Const):
                    if cond_trivial(facts, js, fname):
                        out.append((UND, f"attrs = {v!r} for empty attrs"))
                    else:
                        out.append((BAD if not unknown_facts(p) else UND, f"the given attrs are stored as {v!r} (when {cond})"))
                elif isinstance(v, Ref) and isinstance(C.heap(p, v), InstO):
                    ao = C.heap(p, v)
                    sub = next((k for k in p.facts if k[0] == "haskey" and is_get(k[1], js, fname)), None)
                    if ao.cls.name not in sp["classes"]:
                        out.append((BAD, f"attrs are built as {ao.cls.name} instead of {'/'.join(sp['classes'])}"))
                    elif sub is None:
                        out.append((UND, f"attrs = {C.dump(p.st, v)[:80]}"))
                    else:
                        out += field_problems(C, p, ao.cls.name, ao, strip_copy(sub[1]))
                else:
                    out.append((UND, f"attrs = {show(v)[:80]}"))
                continue
            if is_get(v, js, fname):
                continue
            if isinstance(v, Sym) and v.op == "fromdict" and sp["kind"] == "inst":
                continue
            if isinstance(v, (Const, Sentinel)):
                if value_fact(facts, js, fname, v):
                    continue
                out.append((BAD if not unknown_facts(p) else UND,
                            f"the given field {fname} is stored as {v!r} (when {facts_text(facts)[:200]})"))
            elif isinstance(v, Sym) and v.op == "get" and v.args[0] == js or \
                    isinstance(v, Sym) and v.op == "copyof" and isinstance(v.args[0], Sym) and v.args[0].op == "get":
                out.append((BAD, f"the field {fname} is filled from {show(v)}"))
            elif isinstance(v, Sym) and v.op in ("meth", "str", "int", "bin", "ext", "call", "cat", "slice", "index", "bool", "mul") \
                    and not has_unknown(v) and mentions(v, js):
                if v.op == "str" and sp["kind"] == "str":
                    out.append((BAD, f"the field {fname} is turned into text while parsing"))
                else:
                    out.append((BAD, f"the field {fname} is altered while parsing: {show(v)[:120]}"))
            else:
                out.append((UND, f"{fname} = {show(v)[:80]}"))
    return out


def facts_text(facts):
    return " and ".join(("" if b else "not ") + show_pred(k) for k, b in facts.items())


def value_fact(facts, js, fname, v):
    """The facts say that the given value is v anyway."""
    for k, b in facts.items():
        if k[0] in ("is", "eq") and b and v in k[1:] and any(is_get(x, js, fname) for x in k[1:]):
            return True
        if k[0] == "isopt" and b and v == OPT and is_get(k[1], js, fname):
            return True
    return False


def cond_trivial(facts, js, fname):
    for k, b in facts.items():
        if k[0] in ("truthy", "is", "isnone") and any(is_get(x, js, fname) for x in k[1:] if isinstance(x, V)):
            return True
    return False


def is_get(v, js, fname):
    v = clean(v)
    return isinstance(v, Sym) and v.op == "get" and v.args[1] == Const(fname) and isinstance(v.args[0], Sym) and \
        strip_copy(v.args[0]) == js


def arg_is(C, p, v, js, fname):
    if isinstance(v, Sym):
        return is_get(v, js, fname)
    if isinstance(v, Ref):
        o = C.heap(p, v)
        if isinstance(o, DictO) and o.base is not None and not o.entries and not o.deleted:
            return is_get(o.base, js, fname)
    return False


ALLOWED_PARSE_EXC = {"other", "unimpl"}
UNCLEAR_EXC = {"unknown", "ext"}      # raised by something the analysis knows no more about


def check_fields(C, R, cname, r, key, rule):
    js = C.json(cname)
    w = C.where_of(cname, "from_dict")
    inst = cname
    if r is None:
        R.und(rule, inst, C.why(key), w)
        return
    probs = []
    req = {f for f, s in C.spec["classes"][cname]["fields"].items() if s["required"]}
    n = 0
    for p in r:
        if p.exc is not None:
            e = p.exc
            if e.origin[0] in ALLOWED_PARSE_EXC:
                continue
            if e.names[0] == "ParamError":
                if len(e.origin) > 2 and e.origin[0] == "param" and e.origin[1] not in (cname, "?"):
                    other = C.spec["classes"].get(e.origin[1], {}).get("fields", {}).get(e.origin[2])
                    if other is not None and not other["required"]:
                        probs.append((BAD, f"{cname} rejects inputs without the optional field {e.origin[1]}.{e.origin[2]}",
                                      e.where))
                elif len(e.origin) > 2 and e.origin[2] not in req:
                    probs.append((BAD, f"{cname} rejects inputs without the optional field {e.origin[2]}", e.where))
                continue
            if any(has_key(p, js, f) is False for f in req):
                continue        # decided by C06
            if unknown_facts(p) or e.origin[0] in UNCLEAR_EXC:
                probs.append((UND, f"{e.names[0]} {e.origin} when {C.facts_str(p)[:160]}"))
            else:
                probs.append((BAD, f"{cname}.from_dict fails with {e.names[0]} when {C.facts_str(p)[:200]}", e.where))
            continue
        o = C.heap(p, p.v)
        if not isinstance(o, InstO):
            probs.append((UND, f"result {show(p.v)[:60]}"))
            continue
        n += 1
        probs += field_problems(C, p, cname, o, js)
    if not n and not probs:
        probs.append((BAD, f"{cname}.from_dict never succeeds"))
    R.verdict(rule, inst, dedupe(probs), w)


def history_state(C, cname):
    """A state in which other models have been parsed before (class caches filled)."""
    E = C.E
    st = State()
    ci = C.cls(cname)
    before = [c.name for c in ci.mro if isinstance(c, ClassInfo) and c.name != cname and c.is_sub("Base")][::-1]
    sib = [c for c in C.spec["classes"] if c != cname and
           C.cls(c) is not None and C.cls(c).is_sub("BaseNode") == ci.is_sub("BaseNode")][:2]
    for b in before + sib:
        key = ("hist", cname, b)
        fr = C.frame(C.cls(b))

        def run(b=b, st=st, fr=fr):
            js = Sym("json", ("earlier " + b,), DICT)
            s0 = st.copy()
            f = C.cls(b).find("get_fields")
            if f and isinstance(f[1], FuncV):
                return E.call(s0, BoundV(f[1], ClassV(C.cls(b))), [], {}, NODE0, fr)
            return []
        r = C.guarded(key, run)
        nxt = next((p for p in (r or []) if p.exc is None), None)
        if nxt is not None:
            st = nxt.st.copy()
            st.events = type(st.events)() if not isinstance(st.events, tuple) else ()
    return st


def c05(C, R):
    for cname in C.spec["classes"]:
        if C.cls(cname) is None:
            R.bad("fields carried", cname, f"the model {cname} no longer exists")
            continue
        check_fields(C, R, cname, C.fd(cname), ("fd", cname, ""), "fields carried")
        st = history_state(C, cname)
        check_fields(C, R, cname, C.fd(cname, st, "hist"), ("fd", cname, "hist"), "fields carried after other models")
    # a class that finds the fields of another one in the cache, after all of them were used in either order
    names = [c for c in C.spec["classes"] if C.cls(c) is not None]
    for tag, order in (("all", names), ("rev", names[::-1])):
        st, taken = after_all(C, tag, order)
        for cname in taken:
            check_fields(C, R, cname, C.fd(cname, st, tag), ("fd", cname, tag), "fields carried after other models")


def fields_call(C, cname, st, key):
    f = C.cls(cname).find("get_fields")
    if not f or not isinstance(f[1], FuncV):
        return None
    fr = C.frame(C.cls(cname))
    r = C.guarded(key, lambda: C.E.call(st.copy(), BoundV(f[1], ClassV(C.cls(cname))), [], {}, NODE0, fr))
    return next((p for p in (r or []) if p.exc is None), None)


def after_all(C, tag, order):
    """The state after get_fields of every class, and the classes for which it then gives other fields than their own."""
    st, taken = State(), []
    for c in order:
        p = fields_call(C, c, st, ("fields", tag, c))
        if p is not None:
            o = C.heap(p, p.v) if isinstance(p.v, Ref) else None
            if isinstance(o, DictO) and o.base is None and not o.unk and \
                    {k.v for k in o.entries if isinstance(k, Const)} != set(C.cls(c).fields):
                taken.append(c)
            st = p.st.copy()
            st.events = type(st.events)() if not isinstance(st.events, tuple) else ()
    return st, taken


# ------------------------------------------------------------------------------ C06
def c06(C, R):
    E = C.E
    # the exported error
    v = E.base_env.get((("mod", E.PKG + ".exc"), "ParamError"))
    if isinstance(v, Ext) and v.name in ("func_args.ParamError", "func_args.api.ParamError"):
        R.ok("exported error", "exc.ParamError")
    elif v is None:
        R.bad("exported error", "exc.ParamError", "the exception module does not export ParamError")
    elif isinstance(v, ClassV):
        R.bad("exported error", "exc.ParamError", "the exported ParamError is not the error class the models raise",
              C.where_of(v.info.name))
    else:
        R.und("exported error", "exc.ParamError", f"{v!r}")
    for cname, sp in list(C.spec["classes"].items()) + [("BaseNode", None), ("BaseMark", None)]:
        ci = C.cls(cname)
        if ci is None:
            R.bad("required fields", cname, f"the model {cname} no longer exists")
            continue
        req = [f for f, s in sp["fields"].items() if s["required"]] if sp else ["type"]
        w = C.where_of(cname)
        js = C.json(cname)
        if sp:
            r = C.fd(cname)
            for f in req:
                inst = f"{cname}.{f} (parsing)"
                if r is None:
                    R.und("required fields", inst, C.why(("fd", cname, "")), w)
                    continue
                probs, seen = [], 0
                for p in r:
                    hk = has_key(p, js, f)
                    if p.exc is not None:
                        e = p.exc
                        if hk is False:
                            seen += 1
                            if e.names[0] != "ParamError" and e.origin[0] not in ALLOWED_PARSE_EXC:
                                probs.append((BAD if not unknown_facts(p) and e.origin[0] not in UNCLEAR_EXC else UND,
                                              f"a missing {f} is reported as {e.names[0]}", e.where))
                        continue
                    if hk is False:
                        seen += 1
                        o = C.heap(p, p.v)
                        val = o.fields.get(f) if isinstance(o, InstO) else None
                        vague = val is None or isinstance(val, V) and has_unknown(val)
                        probs.append((BAD if not unknown_facts(p) and not vague else UND,
                                      f"{cname} is built although the required field {f} is missing "
                                      f"(when {C.facts_str(p)[:160]})"))
                        continue
                    o = C.heap(p, p.v)
                    val = o.fields.get(f) if isinstance(o, InstO) else None
                    for facts, leaf in split_phi(val, dict(p.facts)) if val is not None else []:
                        h2 = facts.get(("haskey", js, f), facts.get(("haskey", js, Const(f))))
                        if h2 is False:
                            seen += 1
                            probs.append((BAD, f"{cname} is built with {f} = {show(leaf)} although it is missing"))
                        elif leaf == REQ or leaf == MISSING:
                            probs.append((BAD, f"{cname} is built with {f} unset"))
                if not seen and not probs:
                    probs.append((UND, f"no path without {f}"))
                R.verdict("required fields", inst, dedupe(probs), w)
            # an attribute object the model builds in place
            for p in r or ():
                o = C.heap(p, p.v) if p.exc is None and isinstance(p.v, Ref) else None
                for f, v in (o.fields.items() if isinstance(o, InstO) else ()):
                    ao = C.heap(p, v) if isinstance(v, Ref) else None
                    sub = C.spec["classes"].get(ao.cls.name) if isinstance(ao, InstO) else None
                    for f2, s2 in (sub["fields"].items() if sub else ()):
                        if s2["required"] and any(k[0] == "haskey" and b is False and is_get(k[1], js, f) and
                                                  k[2] in (f2, Const(f2)) for k, b in p.facts.items()):
                            R.verdict("required fields", f"{cname}.{f}.{f2} (parsing)",
                                      [(BAD if not unknown_facts(p) else UND,
                                        f"{cname} is built although the required field {ao.cls.name}.{f2} is missing "
                                        f"(when {C.facts_str(p)[:160]})")], w)
        # direct construction without that field, everything else given
        for f in req:
            inst = f"{cname}({f} not given)"
            key = ("ctor", cname, f)

            def run(ci=ci, f=f):
                kw = {}
                for n, fl in ci.fields.items():
                    if n != f:
                        kw[n] = Sym("param", (n,), fl.ty.w(opt=False))
                E.root_cls = None
                return E.call(State(), ClassV(ci), [], kw, NODE0, C.frame(ci))
            r = C.guarded(key, run)
            if r is None:
                R.und("required fields", inst, C.why(key), w)
                continue
            probs = []
            for p in r:
                if p.exc is None:
                    probs.append((BAD if not unknown_facts(p) else UND,
                                  f"{cname} can be constructed without {f}"))
                elif p.exc.names[0] != "ParamError":
                    probs.append((BAD, f"constructing {cname} without {f} raises {p.exc.names[0]} instead of ParamError",
                                  p.exc.where))
            if not r:
                probs.append((UND, "no outcome"))
            R.verdict("required fields", inst, dedupe(probs), w)
