"""C07-C08: serialising."""
from __future__ import annotations

from .common import *  # noqa
from .parse import dedupe, mutable_fields, is_get, check_fields, field_problems, UNCLEAR_EXC


def opt_fields_deep(C, cname, seen=()):
    """Does a model of class cname contain a field that may be unset, at any depth of attribute objects?"""
    ci = C.cls(cname)
    if ci is None or cname in seen:
        return False
    for n, f in ci.fields.items():
        if f.default == OPT or f.ty.opt:
            return True
        if f.ty.kind == "inst" and n not in ("content", "marks"):
            if any(opt_fields_deep(C, k, seen + (cname,)) for k in (f.ty.classes or ())):
                return True
    return False


def value_problems(C, p, cname, fname, sp, v, me, guard=()):
    ci = C.cls(cname)
    ft = C.field(me, cname, fname)
    what = f"{cname}.{fname}"
    leaves = []
    known = dict(p.facts)
    for k, b in guard:      # the condition under which the key is there at all
        known[k] = b
        if k[0] == "isopt" and isinstance(k[1], Sym):
            known["isopt", strip_copy(k[1])] = b
    for facts, leaf in _split(v, known):
        leaves.append((facts, leaf))
    out = []
    for facts, leaf in leaves:
        out += leaf_problems(C, p, cname, fname, sp, leaf, me, ft, what, facts)
    return out


def _split(v, facts):
    if isinstance(v, Sym) and v.op == "phi":
        k = v.args[0]
        if k in facts:
            return _split(v.args[1] if facts[k] else v.args[2], facts)
        return _split(v.args[1], {**facts, k: True}) + _split(v.args[2], {**facts, k: False})
    return [(facts, v)]


def leaf_problems(C, p, cname, fname, sp, v, me, ft, what, facts):
    spec_kind = sp["kind"]
    if fname in ("content", "marks") and C.cls(cname).is_sub("BaseNode"):
        return list_problems(C, p, v, me, cname, fname, what)
    if isinstance(v, Sym):
        core = strip_copy(v)
        if core == ft:
            if spec_kind in IMMUTABLE_KINDS:
                return []
            if spec_kind == "inst":
                if isinstance(v, Sym) and v.op == "asdict":
                    mode = v.args[1]
                    if mode == "clean":
                        return []
                    if mode == "raw":
                        if any(opt_fields_deep(C, k) for k in sp.get("classes", [])):
                            return [(BAD, f"{what} is serialised with its unset optional fields left in")]
                        return []
                    return [(UND, f"{what} = {show(v)}")]
                return [(BAD, f"{what} is serialised as the model object itself")]
            if v.op in ("copyof", "asdict"):
                return []
            return [(BAD, f"the serialised {what} is the model's own mutable object")] \
                if spec_kind in ("list", "dict", "any", "inst") else [(UND, f"{what} = {show(v)}")]
        if v.op == "todict":
            if v.args[0] == ft:
                return []
            return [(BAD, f"{what} is serialised from {show(v.args[0])}")]
        if core.op == "field" and core.args[0] == me:
            return [(BAD, f"{what} is serialised from the field {core.args[1]}")]
        if core.op == "field" and isinstance(core.args[0], Sym) and core.args[0] == ft:
            return [(UND, f"{what} = {show(v)}")]
        if core.op in ("meth", "str", "cat", "bin", "index", "slice", "bool", "len") and mentions(core, ft) and \
                not has_unknown(core):
            if core.op == "str" and spec_kind == "str":
                return []
            return [(BAD, f"{what} is altered while serialising: {show(v)[:120]}")]
        return [(UND, f"{what} = {show(v)[:100]}")]
    if isinstance(v, Const) or isinstance(v, Sentinel):
        for k, b in facts.items():
            if k[0] in ("is", "eq") and b and v in k[1:] and ft in k[1:]:
                return []
        for t, vs in p.st.vals.items():
            if t == ft and vs == frozenset([v]):
                return []
        if v == OPT:
            return [(BAD, f"{what}: the 'not given' placeholder ends up in the dictionary")]
        return [(BAD if not unknown_facts(p) else UND, f"{what} is serialised as {v!r} (when {C.facts_str(p)[:120]})")]
    if isinstance(v, Ref):
        o = C.heap(p, v)
        if isinstance(o, DictO) and spec_kind == "inst":
            return nested_dict(C, p, o, ft, sp, what)
        if isinstance(o, ListO) and len(o.segs) == 1 and is_ident(o.segs[0]) and \
                strip_copy(o.segs[0][1].source) == ft:
            return []
        if isinstance(o, InstO):
            return [(BAD, f"{what} is serialised as a model object")]
        return [(UND, f"{what} = {C.dump(p.st, v)[:100]}")]
    return [(UND, f"{what} = {v!r}")]


def nested_dict(C, p, o, ft, sp, what):
    """An attribute object written out key by key."""
    out = []
    if o.unk:
        return [(UND, what)]
    if o.base is not None:
        b = o.base
        if isinstance(b, Sym) and (b.op == "todict" and b.args[0] == ft or b.op == "asdict" and b.args[0] == ft) \
                and not o.entries and not o.deleted:
            if b.op == "asdict" and b.args[1] != "clean":
                if b.args[1] == "raw" and any(opt_fields_deep(C, k) for k in sp.get("classes", [])):
                    return [(BAD, f"{what} is serialised with its unset optional fields left in")]
                return [(UND, what)]
            return []
        if isinstance(b, Sym) and b.op == "todict" and b.args[0] == ft and len(sp.get("classes", [])) == 1 and not unknown_facts(p):
            # single keys replaced in the dictionary of the attributes
            for key, (v, guard) in o.entries.items():
                kk = key.v if isinstance(key, Const) else key
                if guard or not isinstance(kk, str):
                    continue
                own = (C.field(ft, sp["classes"][0], kk), Sym("index", (b, Const(kk))), Sym("get", (b, Const(kk))))
                same = any(isinstance(x, Sym) and len(x.args) > 1 and x.args[:2] == (b, Const(kk)) or x in own
                           for x in subterms(v)) if isinstance(v, Sym) else False
                pinned = any(k[0] in ("eq", "eqc", "is") and bb and v in k[1:] for k, bb in p.facts.items()) or any(
                    vs == frozenset([v]) for vs in p.st.vals.values())
                if isinstance(v, Const) and not pinned or isinstance(v, Sym) and same and not has_unknown(v) and v.op in (
                        "meth", "cat", "bin", "slice", "str", "index", "len") and not (
                        v.op == "index" and v.args[:2] == (b, Const(kk))):
                    return [(BAD, f"{what}: its {kk} is serialised as {show(v)[:80]} when {C.facts_str(p)[:100]}")]
        return [(UND, f"{what} = {show(b)[:80]}")]
    classes = sp.get("classes", [])
    if len(classes) != 1 or classes[0] not in C.spec["classes"] or C.cls(classes[0]) is None:
        return [(UND, what)]
    k = classes[0]
    spec = C.spec["classes"][k]["fields"]
    fields = C.cls(k).fields
    for key in o.entries:
        kk = key.v if isinstance(key, Const) else key
        if not isinstance(kk, str):
            out.append((UND, f"{what}: key {kk!r}"))
        elif kk not in spec and kk not in fields:
            out.append((BAD, f"{what} is serialised with a key {kk!r} that is not a field"))
    for f, fs in spec.items():
        sub = C.field(ft, k, f)
        ent = o.entries.get(Const(f), o.entries.get(f))
        iso = next((b for q, b in p.facts.items() if q[0] == "isopt" and q[1] == sub), None)
        if ent is None:
            if not (iso is True and fs.get("optional")):
                out.append((UND if unknown_facts(p) else BAD,
                            f"{what} is serialised without its field {f}"
                            + (f" when {C.facts_str(p)[:120]}" if p.facts else "")))
            continue
        v, guard = ent
        for q, b in guard:
            if not (q[0] == "isopt" and isinstance(q[1], Sym) and strip_copy(q[1]) == sub and b is False):
                out.append((UND if any(isinstance(x, V) and has_unknown(x) for x in q[1:]) else BAD,
                            f"{what}: {f} is written only when {show_facts(guard)}"))
        if fs.get("optional") and not guard and iso is not False and isinstance(v, Sym) and strip_copy(v) == sub:
            out.append((BAD, f"{what} is serialised with the 'not given' placeholder under {f}"))
            continue
        out += leaf_problems(C, p, k, f, fs, v, ft, sub, f"{what}.{f}", dict(p.facts))
    return out


def list_problems(C, p, v, me, cname, fname, what):
    ft = C.field(me, cname, fname)
    if isinstance(v, Sym):
        if strip_copy(v) == ft:
            return [(BAD, f"{what} is not serialised element by element: it still contains model objects or "
                          f"unset optional fields")] if v.op != "asdict" or v.args[1] != "clean" else [(UND, what)]
        return [(UND, f"{what} = {show(v)[:100]}")]
    if isinstance(v, (Const, Sentinel)):
        if v == OPT:
            return [(BAD, f"{what}: the 'not given' placeholder ends up in the dictionary")]
        return [(BAD if not unknown_facts(p) else UND, f"{what} is serialised as {v!r}")]
    o = C.heap(p, v)
    if isinstance(o, IterO):
        return [(BAD, f"{what} is serialised as an iterator, not a list")]
    if not isinstance(o, ListO):
        return [(UND, f"{what} is not a list")]
    segs = o.segs
    if not segs:
        for k, b in p.facts.items():
            if k[0] == "truthy" and k[1] == ft and b is False:
                return []
        return [(BAD if not unknown_facts(p) else UND, f"{what} is serialised as an empty list (when {C.facts_str(p)[:120]})")]
    if len(segs) != 1 or segs[0][0] != "rep":
        return [(UND, f"{what} = {show_segs(segs)[:120]}")]
    r = segs[0][1]
    if strip_copy(r.source) != ft:
        s = r.source
        if isinstance(s, Sym) and s.op in ("slice", "sorted", "reversed", "set") and mentions(s, ft):
            return [(BAD, f"only {show(s)} is serialised")]
        return [(UND, f"{what} is built from {show(r.source)[:80]}")]
    out = []
    if r.rev:
        out.append((BAD, f"{what} is serialised in reverse order"))
    if r.partial or any(a.exit == "break" for a in r.alts):
        out.append((BAD, f"serialising {what} may stop before the last element"))
    el = elem_of(r.source)
    for a in r.alts:
        g = " and ".join(map(show_guard, a.guard)) or "always"
        vals = [s[1] for s in a.segs if s[0] == "e"]
        if len(vals) != len(a.segs):
            out.append((UND, f"{what}: {show_segs(a.segs)[:80]}"))
        elif not vals:
            out.append((UND if any(mentions_unknown(x) for x in a.guard) else BAD,
                        f"an element of {what} is left out when {g}"))
        elif len(vals) > 1:
            out.append((BAD, f"an element of {what} is serialised {len(vals)} times"))
        elif isinstance(vals[0], Sym) and vals[0].op == "todict" and vals[0].args[0] == el:
            pass
        elif isinstance(vals[0], Sym) and strip_copy(vals[0]) == el:
            if vals[0].op == "asdict" and vals[0].args[1] == "clean":
                out.append((UND, f"{what}: elements serialised generically"))
            else:
                out.append((BAD, f"{what} contains model objects or unset optional fields"))
        else:
            out.append((UND, f"{what}: {show(vals[0])[:80]}"))
    return out


def td_problems(C, cname, r, me):
    spec = C.spec["classes"][cname]["fields"]
    ci = C.cls(cname)
    probs = []
    per = {}
    n = 0
    for p in r:
        if p.exc is not None:
            if p.exc.origin[0] in ("child", "other"):
                continue
            probs.append((BAD if not unknown_facts(p) and p.exc.origin[0] not in UNCLEAR_EXC else UND,
                          f"{cname}.to_dict fails with {p.exc.names[0]} when {C.facts_str(p)[:160]}", p.exc.where))
            continue
        o = C.heap(p, p.v)
        if not isinstance(o, DictO):
            if isinstance(p.v, (Const, Sentinel)) or isinstance(o, (InstO, ListO)):
                probs.append((BAD, f"{cname}.to_dict does not return a dictionary"))
            else:
                probs.append((UND, f"{cname}.to_dict returns {show(p.v)[:80]}"))
            continue
        n += 1
        if o.unk or o.base is not None:
            b = o.base
            if isinstance(b, Sym) and b.op == "asdict" and b.args[0] == me and not o.unk and not o.deleted:
                if b.args[1] == "raw" and opt_fields_deep(C, cname):
                    probs.append((BAD, f"{cname}.to_dict leaves unset optional fields in"))
                    continue
            probs.append((UND, f"{cname}.to_dict: keys not known"))
            continue
        for k in o.entries:
            kk = k.v if isinstance(k, Const) else k
            if isinstance(kk, str) and kk not in spec and kk not in ci.fields:
                probs.append((BAD, f"{cname}.to_dict writes a key {kk!r} that is not a field"))
            elif not isinstance(kk, str):
                probs.append((UND, f"key {kk!r}"))
        for fname, sp in spec.items():
            ft = C.field(me, cname, fname)
            ent = o.entries.get(fname, o.entries.get(Const(fname)))
            iso = next((b for k, b in p.facts.items() if k[0] == "isopt" and k[1] == ft), None)
            if ent is None:
                if iso is True and sp.get("optional"):
                    continue
                if unknown_facts(p):
                    probs.append((UND, f"{fname} missing when {C.facts_str(p)[:100]}"))
                else:
                    probs.append((BAD, f"{cname}.to_dict leaves out the field {fname}"
                                       + (f" when {C.facts_str(p)[:160]}" if p.facts else "")))
                continue
            v, guard = ent
            ok_guard = False
            for g in guard:
                k, b = g
                if k[0] == "isopt" and k[1] == ft and b is False:
                    ok_guard = True
                elif k[0] == "isopt" and isinstance(k[1], Sym) and strip_copy(k[1]) == ft and b is False:
                    ok_guard = True
                elif any(isinstance(q, V) and has_unknown(q) for q in k[1:]):
                    probs.append((UND, f"{fname} under an unclear condition"))
                else:
                    probs.append((BAD, f"{cname}.to_dict writes {fname} only when {show_facts(guard)}"))
            if sp.get("optional") and not ok_guard and iso is not False and v != OPT:
                may_opt = not (isinstance(v, Sym) and v.op in ("todict",)) and not isinstance(v, Ref)
                if may_opt and isinstance(v, Sym) and strip_copy(v) == ft:
                    probs.append((BAD, f"{cname}.to_dict writes the 'not given' placeholder under {fname}"))
                    continue
            probs += value_problems(C, p, cname, fname, sp, v, me, guard)
    if not n and not probs:
        probs.append((BAD, f"{cname}.to_dict never returns"))
    return dedupe(probs)


def c07(C, R):
    for cname in C.spec["classes"]:
        if C.cls(cname) is None:
            R.bad("serialised fields", cname, f"the model {cname} no longer exists")
            continue
        r = C.td(cname)
        w = C.where_of(cname, "to_dict")
        if r is None:
            R.und("serialised fields", cname, C.why(("td", cname)), w)
            continue
        R.verdict("serialised fields", cname, td_problems(C, cname, r, C.me(cname)), w)


# ------------------------------------------------------------------------------ C08
def c08(C, R):
    for cname, sp in C.spec["classes"].items():
        ci = C.cls(cname)
        if ci is None:
            R.bad("round trip", cname, f"the model {cname} no longer exists")
            continue
        w = C.where_of(cname)
        # equality
        inst = f"{cname} compares by value over all fields"
        probs = []
        dc = ci.dc
        if dc is None:
            probs.append((BAD, f"{cname} is not a dataclass"))
        else:
            if dc.get("eq", True) is False:
                probs.append((BAD, f"{cname} is declared with eq=False"))
        for n, f in ci.fields.items():
            if f.compare is False:
                probs.append((BAD, f"{cname}.{n} takes no part in comparisons"))
        for op in ("__eq__", "__ne__"):
            m = ci.find(op)
            if m and isinstance(m[0], ClassInfo) and isinstance(m[1], FuncV):
                probs += own_eq(C, cname, ci, m[1]) if op == "__eq__" else [(UND, f"own {op}")]
        R.verdict("value equality", inst, probs, w)
        # the same fields, through inverse conversions
        r1, r2 = C.fd(cname), C.td(cname)
        inst = f"{cname}: parse and serialise agree"
        if r1 is None or r2 is None:
            R.und("round trip", inst, C.why(("fd", cname, "")) if r1 is None else C.why(("td", cname)), w)
            continue
        me = C.me(cname)
        js = C.json(cname)
        probs = []
        read, wrote, vague = {}, {}, set()
        for p in r1:
            o = C.heap(p, p.v) if p.exc is None else None
            if isinstance(o, InstO):
                for f, v in o.fields.items():
                    read.setdefault(f, set()).update(keys_read(C, p, v, js))
                    if vague_value(C, p, v):
                        vague.add(f)
        und = False
        for p in r2:
            o = C.heap(p, p.v) if p.exc is None else None
            if not isinstance(o, DictO) or o.unk or o.base is not None:
                und = und or p.exc is None
                continue
            for k, (v, g) in o.entries.items():
                kk = k.v if isinstance(k, Const) else k
                wrote.setdefault(kk, set()).update(fields_used(C, p, v, me, cname))
        if und:
            probs.append((UND, "serialised keys not known"))
        else:
            for f in ci.fields:
                for k in read.get(f, ()):
                    fs = wrote.get(k)
                    if fs is None:
                        probs.append((BAD, f"{cname}.{f} is read from the key {k!r} but never written there"))
                    elif fs and f not in fs:
                        probs.append((BAD, f"the key {k!r} is read into {f} but written from {', '.join(sorted(fs))}"))
                if f != "type" and not read.get(f) and f in wrote:
                    probs.append((UND if f in vague else BAD, f"{cname}.{f} is written but never read back"))
        # each conversion by itself is faithful
        for p in r1:
            o = C.heap(p, p.v) if p.exc is None else None
            if isinstance(o, InstO):
                probs += field_problems(C, p, cname, o, js)
        probs += [x for x in td_problems(C, cname, r2, me)]
        R.verdict("round trip", inst, dedupe(probs), w)


def own_eq(C, cname, ci, fv):
    """A hand-written comparison: true only if every field was compared with the same field of the other model."""
    me, other = C.me(cname), Sym("param", ("other",), Ty("inst", classes=[cname]))
    E = C.E
    key = ("own_eq", cname)

    def run():
        E.root_cls = cname
        out = []
        for s, v in E.call(State(), BoundV(fv, me), [other], {}, NODE0, C.frame(ci)):
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out += [(s2, b if isinstance(b, Raised) else Const(b)) for s2, b in E.truth(s, v)]
        return out

    r = C.guarded(key, run)
    if r is None:
        return [(UND, "own __eq__: " + C.why(key))]
    w = C.where_of(cname, "__eq__")
    probs = []
    for p in r:
        if p.exc is not None:
            probs.append((UND, f"own __eq__ fails with {p.exc.names[0]}"))
            continue
        pairs = [(k[1], k[2]) for k, b in p.facts.items() if k[0] in ("eq", "is") and b and len(k) == 3 and
                 isinstance(k[1], V) and isinstance(k[2], V)]
        if p.v == TRUE:
            if unknown_facts(p):
                probs.append((UND, "own __eq__"))
                continue
            if any(mentions(a, me) and mentions(b, other) and not field_of(a, me) or
                   mentions(a, other) and mentions(b, me) and not field_of(b, me) for a, b in pairs):
                if all(isinstance(x, Sym) and (x.op == "slice" and not (x.args[1] in (NONE_V, Const(0)) and x.args[2] == NONE_V)
                                               or x.op in ("len", "typeof", "clsname"))
                       for a, b in pairs for x in (a, b) if mentions(x, me) or mentions(x, other)):
                    probs.append((BAD, f"two models of {cname} compare equal although only a part of them is compared", w))
                    continue
                probs.append((UND, "own __eq__ compares something else than fields"))
                continue
            for f in ci.fields:
                mine, his = C.field(me, cname, f), C.field(other, cname, f)
                if f == "type" and C.E.is_model(cname):
                    continue
                if not covered(C, mine, his, pairs):
                    probs.append((BAD, f"two models of {cname} compare equal although nothing compares their {f} "
                                       f"(when {C.facts_str(p)[:120]})", w))
        elif p.v == FALSE:
            if not any(not b for k, b in p.facts.items()) and not unknown_facts(p):
                probs.append((BAD, f"equal models of {cname} compare unequal", w))
    return probs


def covered(C, mine, his, pairs, depth=0):
    if any({strip_copy(a) if isinstance(a, Sym) else a, strip_copy(b) if isinstance(b, Sym) else b} == {mine, his}
           for a, b in pairs):
        return True
    cs = mine.ty.classes if mine.ty.kind == "inst" else None
    if depth > 3 or not cs or len(cs) != 1:
        return False
    k = next(iter(cs))
    return all(covered(C, C.field(mine, k, f), C.field(his, k, f), pairs, depth + 1) for f in C.cls(k).fields)


def field_of(t, base):
    while isinstance(t, Sym) and t.op in ("copyof", "asdict", "todict", "field"):
        if t.op == "field" and t.args[0] == base:
            return True
        t = t.args[0]
    return False


def vague_value(C, p, v):
    o = C.heap(p, v) if isinstance(v, Ref) else None
    if isinstance(o, ListO):
        return any(s[0] != "rep" or has_unknown(s[1].source) for s in o.segs)
    if isinstance(o, InstO):
        return any(not isinstance(x, V) or has_unknown(x) for x in o.fields.values())
    return o is not None or isinstance(v, V) and has_unknown(v)


def keys_read(C, p, v, js):
    out = set()
    vals = [v]
    if isinstance(v, Ref):
        o = C.heap(p, v)
        if isinstance(o, ListO):
            vals = [s[1].source for s in o.segs if s[0] == "rep"]
        elif isinstance(o, InstO):
            vals = [x for x in o.fields.values() if isinstance(x, V)]
        else:
            vals = []
    for x in vals:
        for s in subterms(x):
            if isinstance(s, Sym) and s.op == "get" and isinstance(s.args[1], Const) and \
                    isinstance(s.args[0], Sym) and strip_copy(s.args[0]) == js:
                out.add(s.args[1].v)
    return out


def fields_used(C, p, v, me, cname):
    out = set()
    vals = [v]
    if isinstance(v, Const):
        t = C.E.tag(cname)
        return {"type"} if t == v else set()
    if isinstance(v, Ref):
        o = C.heap(p, v)
        vals = [s[1].source for s in o.segs if s[0] == "rep"] if isinstance(o, ListO) else []
    for x in vals:
        for s in subterms(x):
            if isinstance(s, Sym) and s.op == "field" and s.args[0] == me:
                out.add(s.args[1])
    return out
