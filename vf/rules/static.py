"""C15 immutability and purity, C16 determinism, C20 importability, C21 type tests, C25 public names."""
from __future__ import annotations

import ast
import os
import re
import sys

from .common import *  # noqa
from ..imports import ImportModel
from .. import pyver


def dedupe(ps):
    out = []
    for p in ps:
        if p not in out:
            out.append(p)
    return out


def elements(C):
    return [c for c in C.node_classes + C.mark_classes if C.cls(c) is not None]


def models(C):
    return [c for c in C.spec["classes"] if C.cls(c) is not None]


def conversions(C, cname):
    """(label, key, paths) of every conversion of one model class."""
    ci = C.cls(cname)
    if ci.is_sub("BaseNode"):
        for ig in (False, True):
            if C.method(cname, "to_markdown") is not None:
                yield f"{cname}.to_markdown(ignore_error={ig})", ("md", cname, ig, None, None), C.md(cname, ig=ig)
    elif ci.is_sub("BaseMark"):
        yield f"{cname}.to_markdown", ("mk", cname), C.mk(cname)
    yield f"{cname}.to_dict", ("td", cname), C.td(cname)


# ------------------------------------------------------------------------------ side effects
EFFECT = re.compile(
    r"^(builtins\.(open|print|input|exec|eval|setattr|delattr|globals|__import__)|os\.(environ|put|unset|chdir|remove|mk|make|rename|system|"
    r"exec|spawn|kill|umask|set|write|open)|subprocess\.|socket\.|shutil\.|tempfile\.|urllib\.request|http\.|"
    r"requests\.|random\.(seed|setstate)|locale\.setlocale|warnings\.(simplefilter|filterwarnings|resetwarnings)|"
    r"logging\.(basicConfig|disable|addLevelName|setLoggerClass|captureWarnings|shutdown)|"
    r"logging\.getLogger\(\)\.(setLevel|disable|removeHandler|addFilter)|sys\.(set|settrace|exit|stdout|stderr|path|modules)|"
    r"threading\.|multiprocessing\.|signal\.|atexit\.|gc\.|faulthandler\.|importlib\.reload|pickle\.dump|json\.dump$|"
    r"pathlib\.Path\.(write|mkdir|unlink|touch|rename))")


def input_dependent(v):
    return any(isinstance(s, Sym) and s.op in ("self", "param", "json", "elem", "field", "get", "loopvar", "md", "mk",
                                               "todict", "unknown", "ext", "fold", "join")
               for s in subterms(v)) if isinstance(v, V) else False


def leaves(v):
    return {s for s in subterms(v) if isinstance(s, Sym) and s.op in ("self", "param", "json", "elem")}


def harmless_write(e, C=None):
    """A memo: the stored value is determined by its key (or by nothing but the program)."""
    if len(e) < 7:
        return False
    if C is not None and published(C, e[1]):
        return False
    name, what, key, val = e[1], e[2], e[5], e[6]
    if val is None:
        return False
    if what == "global":
        # lazily built constant:  X = None; global X; X = <value built from the program alone>
        return key == NONE_V and not input_dependent(val) and not isinstance(val, Const)
    if isinstance(key, ClassV):
        return not input_dependent(val)
    if isinstance(key, Sym) and not any(is_unknown(s) for s in subterms(key)):
        if any(isinstance(s, Sym) and (s.op == "unknown" or s.op == "ext" and s.args[0] in ("builtins.id", "builtins.hash"))
               for w in (key, val) if isinstance(w, V) for s in subterms(w)):
            return False
        return _determined(val, key)
    return False


def published(C, name):
    """A module-level table of the library's own under a public name, with entries or used by several modules:
    not a memo."""
    mod, _, n = str(name).rpartition(".")
    if n.startswith("_"):
        return False
    env = C.E.base_env
    v = env.get((("mod", mod), n))
    if not isinstance(v, Ref):
        return False
    o = C.E.base_heap.get(v.id)
    return bool(getattr(o, "entries", None) or getattr(o, "segs", None)) or \
        sum(1 for (fid, k), x in env.items() if x == v) > 1


def _determined(v, key):
    """Every input leaf of v occurs only inside an occurrence of `key` itself."""
    if v == key:
        return True
    if isinstance(v, Sym):
        if v.op in ("self", "param", "json", "elem", "idx"):
            return False
        return all(_determined(a, key) for a in _flat(v.args))
    if isinstance(v, TupV):
        return all(_determined(a, key) for a in v.items)
    return True


def _flat(args):
    for a in args:
        if isinstance(a, V):
            yield a
        elif isinstance(a, tuple):
            yield from _flat(a)
        elif isinstance(a, Rep):
            yield a.source if isinstance(a.source, V) else Const(None)
            for al in a.alts:
                yield from seg_values(al.segs)


def effect_problems(C, paths):
    probs = []
    for p in paths:
        for e, g in walk_events(p.events):
            if e[0] == "mutate":
                t = e[1]
                if isinstance(t, V) and any(is_unknown(s) for s in subterms(t)):
                    probs.append((UND, f"change of an unrecognised object ({e[2]})", e[3] if len(e) > 3 else None))
                elif isinstance(t, Sym) and any(isinstance(s, Sym) and s.op == "copyof" for s in spine_of(t)):
                    continue
                else:
                    probs.append((BAD, f"the conversion changes {show(t) if isinstance(t, V) else t} ({e[2]})",
                                  e[3] if len(e) > 3 else None))
            elif e[0] == "global_write":
                if not harmless_write(e, C):
                    probs.append((BAD, f"the conversion changes process-wide state: {e[1]} ({e[2]})",
                                  e[4] if len(e) > 4 and isinstance(e[4], tuple) else None))
            elif e[0] == "class_write":
                probs.append((BAD, f"the conversion changes the class {e[1]} ({e[2]})", e[3]))
            elif e[0] == "ext" and EFFECT.match(e[1]):
                probs.append((BAD, f"the conversion calls {e[1]}", e[2]))
    return dedupe(probs)


def spine_of(x):
    while isinstance(x, Sym) and x.args:
        yield x
        nxt = None
        for a in x.args:
            if isinstance(a, Sym):
                nxt = a
                break
        x = nxt


def c15(C, R):
    for cname in list(C.spec["classes"]) + ["Base", "BaseMarkOrNode", "BaseMark", "BaseNode"]:
        ci = C.cls(cname)
        w = C.where_of(cname)
        if ci is None:
            R.bad("frozen", cname, f"the model {cname} does not exist", None)
            continue
        probs = []
        own = ci.dc
        if own is None:
            dcs = [b for b in ci.mro[1:] if isinstance(b, ClassInfo) and b.dc is not None]
            frozen = bool(dcs) and dcs[0].dc.get("frozen") == TRUE
            if ci.ann and cname in C.spec["classes"] and C.spec["classes"][cname]["fields"]:
                probs.append((UND, "not a dataclass itself"))
        else:
            fz = own.get("frozen", FALSE)
            frozen = fz == TRUE
            if isinstance(fz, Sym):
                probs.append((UND, "frozen flag is not a constant"))
                frozen = True
        if not frozen:
            probs.append((BAD, f"{cname} is not a frozen dataclass: its fields can be reassigned", w))
        for m in ("__setattr__", "__delattr__"):
            f = ci.find(m)
            if f and isinstance(f[1], FuncV):
                probs.append((UND if m == "__delattr__" else BAD, f"{f[0].name} overrides {m}", w))
        fr = own.get("eq") if own else None
        if fr == FALSE:
            pass
        R.verdict("frozen", cname, probs, w)
    for cname in models(C):
        for inst, key, r in conversions(C, cname):
            w = C.where_of(cname, "to_markdown" if "markdown" in inst else "to_dict")
            if r is None:
                R.und("no side effects", inst, C.why(key), w)
                continue
            R.verdict("no side effects", inst, effect_problems(C, r), w)
    for f in helpers(C):
        r = C.call_fn(("helper", f.qual), f, helper_args(C, f))
        w = (C.E.modules[f.mod]["path"], f.node.lineno, f.qual)
        if r is None:
            R.und("helper is pure", f.qual, C.why(("helper", f.qual)), w)
            continue
        R.verdict("helper is pure", f.qual, effect_problems(C, r), w)


def helpers(C):
    m = C.E.PKG + ".markdown_helpers"
    out = []
    for (fid, n), v in sorted(C.E.base_env.items(), key=lambda x: str(x[0])):
        if fid == ("mod", m) and isinstance(v, FuncV) and v.mod == m and not n.startswith("_"):
            out.append(v)
    return out


def helper_args(C, f):
    a = f.node.args
    out = []
    for x in (a.posonlyargs + a.args)[:max(0, len(a.posonlyargs + a.args) - len(a.defaults))]:
        ty = C.E.parse_ann(x.annotation, f.mod)
        if x.arg == "content":
            ty = Ty("list", elem=Ty("inst", classes=frozenset(C.node_classes)), opt=True)
        elif x.arg == "node":
            ty = Ty("inst", classes=frozenset(["NodeText", "NodeParagraph"]))
        out.append(Sym("param", (x.arg,), ty))
    return out


# ------------------------------------------------------------------------------ C16
NONDET = re.compile(
    r"^(time\.(time|monotonic|perf_counter|process_time|localtime|ctime|strftime|tzset|mktime|clock|get_clock_info|"
    r"timezone|tzname|altzone|daylight)|random\.|secrets\.|uuid\.|os\.|locale\.|"
    r"platform\.|getpass\.|socket\.|tempfile\.|builtins\.(id|hash|open|input|globals)|"
    r"threading\.|sys\.|gc\.|pathlib\.|io\.open|calendar\.(day_name|month_name|day_abbr|month_abbr)|gettext\.|"
    r"importlib\.metadata|inspect\.(stack|currentframe)|datetime\.(datetime|date)\.(now|today|utcnow)|glob\.|"
    r"subprocess\.|http\.|urllib\.request|multiprocessing\.)")
TZ_FROM = ("datetime.datetime.fromtimestamp",)
LOCALE_DIRECTIVES = re.compile(r"%[-#0^_]?[aAbBcxXpZ]")


def all_terms(v):
    """All values nested in a term, with those in the conditions of its loops and alternatives."""
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if isinstance(x, V):
            try:
                if x in seen:
                    continue
                seen.add(x)
            except TypeError:
                pass
            yield x
        if isinstance(x, Sym):
            stack.extend(x.args)
        elif isinstance(x, TupV):
            stack.extend(x.items)
        elif isinstance(x, MethV):
            stack.append(x.recv)
        elif isinstance(x, Rep):
            stack.append(x.source)
            stack.extend(x.alts)
        elif isinstance(x, Alt):
            stack.extend((x.guard, x.segs))
        elif isinstance(x, (tuple, list, frozenset)):
            stack.extend(x)


def nondet_terms(v):
    """Problems with one result term: (status, text)."""
    out = []
    for s in all_terms(v):
        if not isinstance(s, Sym):
            if isinstance(s, Ext) and re.match(r"^(os\.|sys\.(?!maxsize|version_info|float_info|maxunicode|std|setrec|intern)|"
                                              r"time\.(timezone|tzname|altzone|daylight)|platform\.|__debug__)", s.name):
                out.append((BAD, f"the result depends on {s.name}"))
            continue
        if s.op == "ext" and s.args and isinstance(s.args[0], str):
            name = s.args[0]
            args = s.args[1] if len(s.args) > 1 else ()
            kw = dict(s.args[2]) if len(s.args) > 2 else {}
            if name == "datetime.datetime.fromtimestamp":
                tz = kw.get("tz", args[1] if len(args) > 1 else NONE_V)
                if tz == NONE_V and not _astimezone(v, s):
                    out.append((BAD, "the result depends on the local time zone (fromtimestamp without a time zone)"))
                elif isinstance(tz, Sym) and tz.op not in ("ext", "meth"):
                    out.append((UND, "time zone " + show(tz)[:60]))
            elif name == "datetime.date.fromtimestamp":
                out.append((BAD, "the result depends on the local time zone (date.fromtimestamp)"))
            elif name in ("time.strftime",):
                fmt = args[0] if args else None
                if len(args) < 2:
                    out.append((BAD, "the result depends on the clock (time.strftime without a time)"))
                if isinstance(fmt, Const) and LOCALE_DIRECTIVES.search(str(fmt.v)):
                    out.append((BAD, f"the result depends on the locale ({fmt.v!r})"))
            elif name in ("time.gmtime", "time.localtime", "time.ctime", "time.asctime"):
                if not args or name in ("time.localtime", "time.ctime"):
                    out.append((BAD, f"the result depends on the {'local time zone' if args else 'clock'} ({name})"))
            elif NONDET.match(name):
                out.append((BAD, f"the result depends on {name}"))
        elif s.op == "meth" and s.args[0] == "strftime" and len(s.args) > 2 and isinstance(s.args[2], Const):
            if LOCALE_DIRECTIVES.search(str(s.args[2].v)):
                out.append((BAD, f"the result depends on the locale (strftime {s.args[2].v!r})"))
        elif s.op == "meth" and s.args[0] == "astimezone" and len(s.args) == 2:
            out.append((BAD, "the result depends on the local time zone (astimezone without an argument)"))
    return dedupe(out)


def _astimezone(v, s):
    """Is the naive local time s converted to an explicit zone wherever it is used?"""
    uses = [x for x in subterms(v) if isinstance(x, Sym) and any(a == s for a in x.args)]
    return bool(uses) and all(x.op == "meth" and x.args[0] == "astimezone" and len(x.args) > 2 for x in uses)


def fact_terms(k):
    return [t for t in k[1:] if isinstance(t, V)]


def state_values(C, p):
    out = []
    if isinstance(p.v, V):
        out.append(C.E.deepval(p.st, p.v))
    for k in p.facts:
        out += fact_terms(k)
    out += [k for k in p.st.vals if isinstance(k, V)]
    return out


def determinism_problems(C, paths, parse=False):
    probs = []
    for p in paths:
        if isinstance(C.heap(p, p.v), DictO) and C.heap(p, p.v).owner == "hashed" and len(C.heap(p, p.v).entries) > 1:
            probs.append((BAD, "the order of the keys in the result depends on hash order"))
        for v in state_values(C, p):
            for q in nondet_terms(v):
                probs.append(q)
        for e, g in walk_events(p.events):
            if e[0] == "setorder" and e[1] == "sorted with a key":
                probs.append((UND, "a set is sorted by a key that may not tell its items apart", e[2]))
            elif e[0] == "setorder" and (e[1].endswith("with a key") or "maybe" in e[1]):
                probs.append((UND, f"{e[1]} over a set: the result may depend on hash order", e[2]))
            elif e[0] == "setorder":
                probs.append((BAD, f"the result depends on hash order: {e[1]} over a set", e[2]))
            elif e[0] == "sortkey":
                probs += [(q[0], "the order of a list: " + q[1], e[2]) for q in nondet_terms(e[1])]
            elif e[0] == "global_write" and parse:
                if not harmless_write(e, C):
                    probs.append((BAD, f"parsing changes process-wide state: {e[1]} ({e[2]})",
                                  e[4] if len(e) > 4 and isinstance(e[4], tuple) else None))
            elif e[0] == "class_write" and parse:
                probs.append((BAD, f"parsing changes the class {e[1]} ({e[2]})", e[3]))
            for gg in g:
                if gg[0] == "fact":
                    for t in fact_terms(gg[1]):
                        probs += nondet_terms(t)
    return dedupe(probs)


def c16(C, R):
    for cname in models(C):
        for inst, key, r in conversions(C, cname):
            w = C.where_of(cname, "to_markdown" if "markdown" in inst else "to_dict")
            if r is None:
                R.und("deterministic", inst, C.why(key), w)
                continue
            R.verdict("deterministic", inst, determinism_problems(C, r), w)
        r = C.fd(cname)
        w = C.where_of(cname, "from_dict")
        if r is None:
            R.und("deterministic", cname + ".from_dict", C.why(("fd", cname, "")), w)
        else:
            R.verdict("deterministic", cname + ".from_dict", determinism_problems(C, r, parse=True), w)
    # every remaining use of a source of nondeterminism in code the conversions can reach
    IM = ImportModel(C.E)
    for mod, qual, line, what in nondet_sites(C, IM):
        path = C.E.modules[mod]["path"]
        R.und("no hidden source", f"{path}:{qual}: {what}",
              f"{what} is used here; it does not reach a result the analysis followed", (path, line, qual))


def nondet_sites(C, IM):
    for mod in sorted(C.E.modules):
        if not library_proper(C.E.PKG, mod):
            continue
        m = C.E.modules[mod]
        names = IM.alias_table(mod)
        for fn, qual in functions(m["tree"]):
            for n in ast.walk(fn):
                d = IM.dotted(n, names) if isinstance(n, (ast.Attribute, ast.Name)) else None
                if d and NONDET.match(d) and not d.startswith("pathlib."):
                    yield mod, qual, n.lineno, d


def functions(tree):
    def walk(body, pre):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield n, pre + n.name
            elif isinstance(n, ast.ClassDef):
                yield from walk(n.body, pre + n.name + ".")
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                yield from walk(getattr(n, "body", []) + getattr(n, "orelse", []), pre)
    yield from walk(tree.body, "")


# ------------------------------------------------------------------------------ C20
DEV_ONLY = ("gen_code", "paths", "vendor", "tests", "docs", "templates")


def library_proper(pkg, mod):
    if mod == pkg:
        return True
    return mod[len(pkg) + 1:].split(".")[0] not in DEV_ONLY


def declared(root):
    """(dependency import names, minimum python) from pyproject.toml."""
    import tomllib
    deps, minpy = set(), (3, 8)
    p = os.path.join(root, "pyproject.toml")
    if not os.path.exists(p):
        return None, minpy
    with open(p, "rb") as f:
        d = tomllib.load(f)
    pr = d.get("project", {})
    for x in pr.get("dependencies", []):
        n = re.match(r"[A-Za-z0-9_.\-]+", x)
        if n:
            deps.add(n.group(0).lower().replace("-", "_"))
    m = re.search(r">=\s*(\d+)\.(\d+)", pr.get("requires-python", ""))
    if m:
        minpy = (int(m.group(1)), int(m.group(2)))
    return deps, minpy


def c20(C, R):
    E = C.E
    IM = ImportModel(E)
    deps, minpy = declared(C.root)
    if deps is None:
        R.und("declared dependencies", "pyproject.toml", "not found")
        deps = {"func_args"}
    std = set(sys.stdlib_module_names)
    mods = [m for m in sorted(E.modules) if library_proper(E.PKG, m)]
    mods = [m for m in mods if not m.endswith("__main__")]
    for m in mods:
        path = E.modules[m]["path"]
        res = IM.first_import(m)
        R.verdict("can be imported first", m, dedupe([(BAD, msg, wh) for msg, wh in res.errors] +
                                                     [(UND, msg, wh) for msg, wh in res.unclear]), (path, 1, "<module>"))
        probs = []
        for name, wh, soft in res.external:
            top = name.split(".")[0]
            if top in std or top in deps or soft or top == "__future__":
                continue
            probs.append((BAD, f"importing {m} needs {top!r}, which is neither in the standard library nor declared", wh))
        for name, wh, soft in IM.deferred(m):
            top = name.split(".")[0]
            if top in std or top in deps or soft or top == E.PKG:
                continue
            probs.append((BAD, f"calling into {m} needs {top!r}, which is neither in the standard library nor declared", wh))
        R.verdict("declared dependencies only", m, dedupe(probs), (path, 1, "<module>"))
        probs = [(BAD, f"importing {m} {msg}", wh) for msg, wh in res.effects]
        R.verdict("import has no side effects", m, dedupe(probs), (path, 1, "<module>"))
        probs = []
        src = E.sources[path]
        for msg, line in pyver.problems(src, E.modules[m]["tree"], minpy, IM.alias_table(m), IM):
            probs.append((BAD, msg, (path, line, "<module>")))
        R.verdict(f"valid on Python {minpy[0]}.{minpy[1]}", m, dedupe(probs), (path, 1, "<module>"))
        miss = [(BAD, msg, wh) for msg, wh in IM.deferred_errors(m)]
        R.verdict("deferred imports resolve", m, dedupe(miss), (path, 1, "<module>"))


# ------------------------------------------------------------------------------ C21
def c21(C, R):
    E = C.E
    te = E.classes.get("TypeEnum")
    if te is None:
        R.bad("constants", "TypeEnum", "the tag constants do not exist")
        return
    w0 = (E.modules[te.mod]["path"], te.node.lineno, "TypeEnum")
    for kind in ("node", "mark"):
        for tag in C.spec["tags"][kind]:
            m = te.members.get(tag)
            if m is None:
                R.bad("constants", tag, f"there is no constant for the supported tag {tag!r}", w0)
            elif m.value != Const(tag):
                R.bad("constants", tag, f"TypeEnum.{tag} has the value {show(m.value) if isinstance(m.value, V) else m.value!r} "
                                        f"instead of {tag!r}", w0)
            else:
                R.ok("constants", tag)
    probs = []
    for n, m in te.members.items():
        if isinstance(m.value, Const) and isinstance(m.value.v, str):
            continue
        probs.append((UND, f"TypeEnum.{n} has no literal value"))
    R.verdict("constants", "all members are texts", probs, w0)
    members = list(te.members.values())
    f = find_func(C, "check_type_match")
    tags = [t for k in ("node", "mark") for t in C.spec["tags"][k]]
    if f is not None:
        w = (E.modules[f.mod]["path"], f.node.lineno, f.qual)
        # for every expected constant, an arbitrary tag
        T = Sym("param", ("type_value",), STR)
        for m in members:
            r = C.call_fn(("ctm", m.name), f, [T, m])
            R.verdict("single expected type", f"check_type_match(tag, TypeEnum.{m.name})",
                      by_constants(C, match_problems(C, r, ("ctm", m.name), T, {m.value.v}), f, [m], False, members), w)
        for grp in groups(C, members):
            key = ("ctml",) + tuple(m.name for m in grp)

            def run(grp=grp):
                st = State()
                L = E.alloc(st, ListO(tuple(("e", m) for m in grp)))
                return E.call(st, f, [T, L], {}, NODE0, Frame(("top",), f.mod, (), "<entry>"))
            r = C.guarded(key, run)
            R.verdict("list of expected types", f"check_type_match(tag, [{', '.join(m.name for m in grp)}])",
                      by_constants(C, match_problems(C, r, key, T, {m.value.v for m in grp}), f, grp, True, members), w)
        # nothing is changed in the caller's list
        L = Sym("param", ("expected_types",), Ty("list"))
        r = C.call_fn(("ctm-mut",), f, [T, L])
        if r is not None:
            probs = []
            for p in r:
                for e, g in walk_events(p.events):
                    if e[0] == "mutate" and isinstance(e[1], V) and any(s == L for s in subterms(e[1])):
                        probs.append((BAD, "the caller's list of expected types is changed", e[3] if len(e) > 3 else None))
            R.verdict("list of expected types", "the caller's list is left alone", dedupe(probs), w)
    seen = set()
    for cname in elements(C):
        tag = C.tags[cname][1]
        me = C.me(cname)
        ci = C.cls(cname)
        q = ci.find("is_type_of")
        w = C.where_of(cname, "is_type_of")
        if not q or not isinstance(q[1], FuncV):
            R.bad("is_type_of", cname, f"{cname} has no is_type_of", C.where_of(cname))
            continue
        fv = q[1]
        others = [m for m in members if m.value != Const(tag)]
        mine = te.members.get(tag)
        cases = []
        if mine is not None:
            cases += [([mine], False, True), ([mine], True, True), ([others[0], mine], True, True),
                      ([mine, others[1]], True, True), ([others[2], mine, others[3]], True, True)]
        cases += [([o], False, False) for o in (others if C.tier == "thorough" else near(tag, others))]
        cases += [([others[0], others[5]], True, False), ([], True, False), (others[:40], True, False)]
        probs = []
        for grp, aslist, want in cases:
            key = ("ito", cname, aslist) + tuple(m.name for m in grp)

            def run(grp=grp, aslist=aslist):
                st = State()
                E.root_cls = cname
                a = E.alloc(st, ListO(tuple(("e", m) for m in grp))) if aslist else grp[0]
                return E.call(st, BoundV(fv, me), [a], {}, NODE0, C.frame(ci))
            r = C.guarded(key, run)
            probs += answer_problems(C, r, key, me, tag, want,
                                     f"[{', '.join(m.name for m in grp)}]" if aslist else grp[0].name)
        if mine is not None and (fv.qual, ci.is_sub("BaseNode")) not in seen:
            seen.add((fv.qual, ci.is_sub("BaseNode")))
            probs += other_types(C, ci, fv, mine, others)
        R.verdict("is_type_of", cname, dedupe(probs), w)


def other_types(C, ci, fv, mine, others):
    """Elements whose own type was given as something a little different from the expected tag."""
    E = C.E
    v = mine.value.v
    for c in (v + "s", v + " ", " " + v, v.upper(), v.capitalize(), v[:-1], v[1:], "x" + v, v + "|", v + "," + v, "",
              v.swapcase(), v, others[0].value.v):
        for aslist in (False, True):
            key = ("ito-const", ci.name, c, aslist)

            def run():
                st = State()
                E.root_cls = ci.name
                me = E.alloc(st, InstO(ci, {n: Const(c) if n == "type" else Sym("field", (C.me(ci.name), n), f.ty)
                                            for n, f in ci.fields.items()}))
                a = E.alloc(st, ListO((("e", mine),))) if aslist else mine
                return E.call(st, BoundV(fv, me), [a], {}, NODE0, C.frame(ci))
            for p in C.guarded(key, run) or ():
                if p.exc is None and p.v in (TRUE, FALSE) and not unknown_facts(p) and (p.v == TRUE) != (c == v):
                    return [(BAD, f"an element of type {c!r} answers {p.v.v} when asked for {mine.name}")]
    return []


def near(tag, others):
    """The expected types most easily confused with `tag`."""
    t = tag.lower()
    return [m for m in others if m.value.v.lower() in t or t in m.value.v.lower() or m.value.v[:4].lower() == t[:4]] + others[:2]


def groups(C, ms):
    by = {m.name: m for m in ms}
    out = [[], ms[:1], ms[:2], ms[3:6], ms]
    g = [n for n in ("bulletList", "orderedList", "taskList") if n in by]
    out.append([by[n] for n in g])
    if len(ms) > 1:
        out.append([ms[1], ms[0]])
        out.append([ms[0], ms[0]])
    if C.tier == "thorough":
        out += [[a, b] for i, a in enumerate(ms) for b in ms[i + 1:i + 4]]
    return out


def match_problems(C, r, key, T, want):
    """Paths of a test of the free text T: true exactly on the set `want`."""
    if r is None:
        return [(UND, C.why(key))]
    probs = []
    for p in r:
        if p.exc is not None:
            probs.append((BAD, f"the test fails with {p.exc}", p.exc.where))
            continue
        pos, neg = tag_constraints(p, T)
        if pos is not None:
            cands = set(pos) - neg
            if not cands:
                continue
        v = p.v
        if v == TRUE:
            if pos is None:
                probs.append((UND if odd(p, T) else BAD, f"answers True without comparing the tag with all of {sorted(want)[:4]}"))
            elif not cands <= want:
                probs.append((BAD, f"answers True for {sorted(cands - want)[:3]}"))
        elif v == FALSE:
            if pos is not None:
                if cands & want:
                    probs.append((BAD, f"answers False for {sorted(cands & want)[:3]}"))
            elif want - neg:
                probs.append((UND if odd(p, T) else BAD, f"answers False for {sorted(want - neg)[:3]}"))
        else:
            probs.append((UND, f"answers {show(v) if isinstance(v, V) else v}"))
    return dedupe(probs)


def by_constants(C, probs, f, grp, aslist, members):
    """Where the test of a free tag stays undecided, propagate single constants: the supported tags and texts that
    differ a little from the expected ones."""
    if not probs or any(x[0] == BAD for x in probs):
        return probs
    E = C.E
    want = {m.value.v for m in grp}
    cands = list(dict.fromkeys(
        [x for v in sorted(want)[:6] for x in (v.lower(), v.upper(), v.capitalize(), v + " ", " " + v, v[:-1], v[1:],
                                               v[:4], v + "s", "x" + v, v + "," + v, v + "|")]
        + ["", ",", "|"] + [m.value.v for m in members]))
    for c in cands:
        key = ("ctm-const", c, aslist) + tuple(m.name for m in grp)

        def run(c=c):
            st = State()
            a = E.alloc(st, ListO(tuple(("e", m) for m in grp))) if aslist else grp[0]
            return E.call(st, f, [Const(c), a], {}, NODE0, Frame(("top",), f.mod, (), "<entry>"))
        r = C.guarded(key, run)
        for p in r or ():
            if p.exc is None and p.v in (TRUE, FALSE) and not p.facts and (p.v == TRUE) != (c in want):
                return [(BAD, f"a {c!r} element answers {p.v.v} when asked for {sorted(want)[:4]}")]
    return probs


def odd(p, T):
    """Facts about T other than comparisons with literals."""
    return any(mentions(t, T) for k in p.facts for t in fact_terms(k) if k[0] not in ("eqc", "eq") and isinstance(t, Sym)
               ) or any(k[0] in ("eqc", "eq") and not (k[1] == T and isinstance(k[2], Const)) and any(
                   mentions(t, T) for t in fact_terms(k) if isinstance(t, Sym)) for k in p.facts)


def tag_constraints(p, T):
    pos, neg = None, set()
    vs = p.st.vals.get(T)
    if vs is not None:
        pos = {c.v for c in vs if isinstance(c, Const)}
    nv = p.st.nvals.get(T) if isinstance(p.st.nvals, dict) else None
    if nv:
        neg |= {c.v for c in nv if isinstance(c, Const)}
    for k, b in p.facts.items():
        if k[0] in ("eqc", "eq") and T in k[1:]:
            o = k[2] if k[1] == T else k[1]
            if isinstance(o, Const):
                if b:
                    pos = {o.v} if pos is None else pos & {o.v}
                else:
                    neg.add(o.v)
        elif k[0] == "inset" and k[1] == T:
            try:
                s = {c.v if isinstance(c, Const) else c for c in k[2]}
            except TypeError:
                continue
            if b:
                pos = s if pos is None else pos & s
            else:
                neg |= s
    return pos, neg


def answer_problems(C, r, key, me, tag, want, label):
    if r is None:
        return [(UND, C.why(key))]
    T = Sym("field", (me, "type"))
    probs = []
    for p in r:
        if p.exc is not None:
            probs.append((BAD, f"is_type_of({label}) fails with {p.exc}", p.exc.where))
            continue
        pos, neg = tag_constraints(p, T)
        if (pos is not None and tag not in pos) or tag in neg:
            continue
        if p.v in (TRUE, FALSE):
            if (p.v == TRUE) != want:
                st = UND if odd(p, T) else BAD
                probs.append((st, f"a {tag!r} element answers {p.v.v} when asked for {label}"))
        else:
            probs.append((UND, f"answers {show(p.v) if isinstance(p.v, V) else p.v}"))
    return probs


# ------------------------------------------------------------------------------ C25
API_EXTRA = {
    "ParamError": "ext", "UnimplementedTypeError": "class", "TypeEnum": "class", "Base": "class",
    "BaseMarkOrNode": "class", "BaseMark": "class", "BaseNode": "class", "parse_mark": "func", "parse_node": "func",
    "T_DATA": "alias", "T_MARK": "alias", "T_NODE": "alias", "TAB": "const", "logger": "value",
}


def c25(C, R):
    E = C.E
    mod = E.PKG + ".api"
    if mod not in E.modules:
        R.bad("public names", "api", "the public interface module does not exist")
        return
    m = E.modules[mod]
    path = m["path"]
    dyn = any(isinstance(n, ast.FunctionDef) and n.name == "__getattr__" for n in m["tree"].body)
    space = [n for n in ast.walk(m["tree"]) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in
             ("globals", "vars", "locals", "exec", "eval", "setattr", "delattr")
             or isinstance(n, ast.Attribute) and n.attr in ("modules", "__dict__")]
    dyn = dyn or bool(space)
    lines = {}
    for n in ast.walk(m["tree"]):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                lines.setdefault(a.asname or a.name, n.lineno)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    lines[t.id] = n.lineno
    want = {c: "class" for c in C.spec["classes"]}
    want.update(API_EXTRA)
    allv = E.base_env.get((("mod", mod), "__all__"))
    alln = None
    if isinstance(allv, Ref):
        o = E.base_heap.get(allv.id)
        if isinstance(o, ListO) and all(s[0] == "e" and isinstance(s[1], Const) for s in o.segs):
            alln = {s[1].v for s in o.segs}
    elif isinstance(allv, TupV):
        alln = {x.v for x in allv.items if isinstance(x, Const)}
    if m.get("load_error") is not None:
        R.bad("public names", "api", f"importing the public interface fails: {m['load_error']}", (path, 1, "<module>"))
        return
    for n in sorted(want):
        kind = want[n]
        v = E.base_env.get((("mod", mod), n))
        w = (path, lines.get(n, 1), "<module>")
        if v is None and isinstance(E.base_env.get((("mod", mod), "__getattr__")), FuncV):
            g = E.base_env[(("mod", mod), "__getattr__")]
            r = C.call_fn(("api getattr", n), g, [Const(n)])
            got = [p.v for p in r or () if p.exc is None]
            if r and not got and all("AttributeError" in p.exc.names for p in r):
                R.bad("public names", n, f"{n} is not part of the public interface", w)
                continue
            if len(got) == 1 and isinstance(got[0], (ClassV, FuncV)):
                v = got[0]
        if v is None:
            if dyn:
                R.und("public names", n, "resolved dynamically", w)
            else:
                R.bad("public names", n, f"{n} is not part of the public interface", w)
            continue
        if alln is not None and n not in alln:
            R.bad("public names", n, f"{n} is missing from __all__ of the public interface", w)
            continue
        probs = []
        if space:
            probs.append((UND, f"the module's namespace is edited on line {space[0].lineno}"))
        if kind == "class":
            if not isinstance(v, ClassV):
                probs.append((BAD if isinstance(v, (FuncV, Const, ModV, EnumM)) else UND, f"{n} is bound to {show(v) if not isinstance(v, (FuncV, ModV)) else v}"))
            elif v.info.name != n:
                probs.append((BAD, f"{n} is bound to the class {v.info.name}"))
            elif v.info is not defining(E, n, v):
                probs.append((UND, f"several classes are called {n}"))
            elif n in C.tags:
                # the class of that name is also the one parsing produces: decided under C01
                pass
        elif kind == "func":
            if not isinstance(v, FuncV):
                probs.append((UND, f"{n} is not a plain function"))
            elif v.name != n:
                probs.append((BAD, f"{n} is bound to the function {v.name}"))
        elif kind == "ext":
            if isinstance(v, ClassV) and v.info.name != n:
                probs.append((BAD, f"{n} is bound to the class {v.info.name}"))
            elif isinstance(v, Ext) and v.name.split(".")[-1] != n:
                probs.append((BAD, f"{n} is bound to {v.name}"))
        elif kind == "const":
            if not isinstance(v, Const) or not isinstance(v.v, str):
                probs.append((BAD if isinstance(v, (ClassV, FuncV)) else UND, f"{n} is bound to {v}"))
            elif v.v.strip() or not v.v:
                probs.append((BAD, f"{n} is {v.v!r}, not an indentation"))
        elif kind == "alias":
            if isinstance(v, Sym) and v.op in ("typevar",) and v.args and v.args[0] != n:
                probs.append((BAD, f"{n} is bound to {show(v)}"))
        elif kind == "value":
            if isinstance(v, (ClassV, FuncV, Const, ModV)):
                probs.append((BAD, f"{n} is bound to {v}"))
        # the name must come from an import of the same name (or a definition in place)
        src = import_source(m["tree"], n)
        if kind in ("alias", "const", "value") and src is not None and src != n:
            probs.append((BAD, f"{n} is imported under a false name: it is {src}"))
        R.verdict("public names", n, dedupe(probs), w)


def defining(E, n, v):
    return v.info


def import_source(tree, n):
    src = None
    for x in ast.walk(tree):
        if isinstance(x, ast.ImportFrom):
            for a in x.names:
                if (a.asname or a.name) == n:
                    src = a.name
    return src
