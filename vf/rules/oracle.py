"""Constant elements and what the Markdown of each must satisfy (see vf/witness.py).

`cases(C, prop, cname)` yields (element, keyword arguments, check); check(text) names what is wrong or returns None.
The elements are chosen at the edges the properties speak of: repeated texts, blank lines, line breaks and pipes in
cells, many empty blocks, every allowed class of child, every level, timestamps next to midnight.
"""
from __future__ import annotations

import re
import time

from ..dom import *  # noqa
from ..witness import W, outputs, only, ABSENT, has_level
from ..terms import NoValue

LISTS = ("NodeBulletList", "NodeOrderedList", "NodeTaskList")
SPACED = LISTS + ("NodeDecisionList", "NodeTable", "NodeCodeBlock")
DOCS = ("NodeDoc", "NodeExpand", "NodeNestedExpand", "NodeBlockquote", "NodePanel")
INLINE = ("NodeParagraph", "NodeHeading", "NodeDecisionItem", "NodeTableCell", "NodeTableHeader", "NodeListItem",
          "NodeTaskItem", "NodeMediaSingle")
NOTHING = ("NodeCaption", "NodeMediaGroup", "NodeMediaInline")

VALUES = ["plain", "two words", " lead and trail ", "a|b", "*x* _y_ `z`", "<b>&amp;", "one\ntwo", "\u00fcn\u00efc\u00f6d\u00e9 \u65e5\u672c \U0001F44D\U0001F3FD",
          "a  b\tc", "long " * 80 + "end", "{#id}", "%20 %s {0} {x}", "back\\slash", "0", "MiXeD Case", "@name", "trail\n",
          "# h", "- i", "> q", "x", ":smile:", "a\u00a0b", "a\r\nb", "None", "[l](t)", "'\"", "a/b/c.d", "a--b...c",
          "e\u0301", "\u2028x", "tab\there", "\u00df\u0130", "1. n", "~~s~~", "$m$", "a&b", "\u200bz\u200b"]
SIGNS = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
STARTS = "\n".join(c + "w1" for c in SIGNS)        # a line that begins with each sign, and one that ends with it
ENDS = "\n".join("v2" + c for c in SIGNS)
BOTH = "\n".join(c + " u3 " + c for c in SIGNS)
VALUES += [STARTS.replace("\n", ";"), ENDS.replace("\n", " "), STARTS + "\n" + ENDS]
URLS = ["https://e.x/p?a=1&b=2#frag", "http://E.x/A%20b/", "https://e.x/p?x=1?y=2", "/relative/path", "HTTPS://Up.x/",
        "https://e.x/(paren)", "https://e.x/a b", "mailto:a@b.c", "https://e.x", "https://e.x/" + "long/" * 60,
        "https://e.x/#a#b", "https://e.x/?", "https://e.x/p/", "//e.x/y", "https://u:p@e.x:8080/z", "ftp://e.x/f.TXT",
        "https://e.x/a|b", "https://e.x/\u00e9"]


def attrs(C, cname, /, **kw):
    """A constant attribute object: required fields have some value, the others are absent."""
    name = cname + "Attrs"
    ci = C.cls(name)
    if ci is None:
        return W(name, **kw)
    f = {}
    for n, fd in ci.fields.items():
        if fd.ty.opt or n in kw:
            continue
        k = fd.ty.kind
        if fd.ty.lits:
            f[n] = (lambda x: getattr(x, "v", x))(sorted(fd.ty.lits, key=str)[0])
        elif k == "str":
            f[n] = "r-" + n
        elif k == "int":
            f[n] = 1
        elif k == "float":
            f[n] = 1.5
    f.update(kw)
    return W(name, **f)


def full_attrs(C, cname, /, **kw):
    """Constant attribute objects with each optional field given, one at a time and all together."""
    ci = C.cls(cname + "Attrs")
    if ci is None:
        return
    more = {}
    for n, fd in ci.fields.items():
        if not fd.ty.opt or n in kw:
            continue
        k = fd.ty.kind
        vs = [getattr(x, "v", x) for x in sorted(fd.ty.lits, key=str)] if fd.ty.lits else \
            {"str": ["o-" + n, "o"], "int": [1, 0], "float": [1.5], "bool": [True, False]}.get(k, [])
        for v in vs:
            yield attrs(C, cname, **kw, **{n: v})
        if vs:
            more[n] = vs[0]
    if len(more) > 1:
        yield attrs(C, cname, **kw, **more)


def needs_attrs(C, cname):
    ci = C.cls(cname)
    f = ci.fields.get("attrs") if ci else None
    return f is not None and not f.ty.opt


def make(C, cname, text=None, /, **fields):
    if "attrs" not in fields and text is None and needs_attrs(C, cname):
        fields["attrs"] = attrs(C, cname)
    return W(cname, text, **fields)


def child_classes(C, cname, field="content"):
    ci = C.cls(cname)
    f = ci.fields.get(field) if ci else None
    if f is None or f.ty.elem is None:
        return []
    return sorted(c for c in f.ty.elem.classes or () if c in C.tags)


def indented(l, text):
    return "\n".join("    " * l + x for x in text.split("\n"))


def block(C, c, w, tail="\n"):
    """A constant block of class c around the word w, with the Markdown the library gives such a block."""
    forms = {"NodeParagraph": w + tail, "NodeHeading": f"\n\n# {w}\n\n", "NodeRule": "\n\n---\n\n",
             "NodeBlockquote": f"> {w}\n", "NodePanel": f"> **INFO**\n> \n> {w}\n\n", "NodeTable": f"| {w} |",
             "NodeDecisionList": f"> {w}", "NodeCodeBlock": f"```\n{w}\n```", "NodeMediaSingle": f"![{w}](media:1)",
             "NodeMediaGroup": "", "NodeExtension": f"[Extension: k/{w}]", "NodeBlockCard": f"\n[{w}]({w})\n",
             "NodeEmbedCard": f"\n[{w}]({w})\n", "NodeExpand": w + "\n", "NodeNestedExpand": w + "\n"}
    if c in LISTS:
        mark = {"NodeBulletList": "- ", "NodeOrderedList": "1. ", "NodeTaskList": "- [ ] "}[c]
        return W(c, lambda l: indented(l or 0, mark + w))
    return W(c, forms.get(c, w))


# ---------------------------------------------------------------------- every child, once, in order
def visible(text):
    return [x.strip() for x in text.split("\n") if x.strip()]


def in_order(parts):
    def check(out):
        o = out.replace("\\|", "|").replace("&nbsp;", " ").replace("<br>", "\n")
        pos = 0
        for p in parts:
            for l in visible(p):
                i = o.find(l, pos)
                if i < 0:
                    return f"the child's text {l!r} is missing or out of order in {out!r}"
                pos = i + len(l)
        for p in parts:
            for l in visible(p):
                if len(l) > 3 and o.count(l) != sum(q.count(l) for q in parts):
                    return f"the child's text {l!r} is there {o.count(l)} times in {out!r}"
        return None
    return check


TRIPLES = [(STARTS, "beta", ENDS), (BOTH, "beta", "\t  gamma"), ("alpha", "beta", "gamma"), (" alpha", "beta ", "g1\ng2"), ("same", "same", "same"),
           ("alpha {#b} c", "beta?r#s", "(gamma)"), ("alpha", "\n", "gamma"), ("alpha\n", "beta\n", "gamma\n"),
           ("**bold**", "`code`", "[l](t)"), ("Alpha", "BETA", "gamma!"), ("alpha  \n", "beta", "> gamma"),
           ("- alpha", "# beta", "1. gamma"), ("\talpha", "beta:", "&amp;<b>"), ("alpha;", "'beta'", "\"gamma\""),
           ("alpha\n\nsecond", "beta", "gamma\n\n\nlast"), ("word", "wordword", "wo")]


# what the elements are known to compare with and to write: no hints
USUAL = {
    "NodeBlockCard": {'\n[', ')\n', ']('},
    "NodeBlockquote": {'\n', '\n\n', '> ', '\n\n\n'},
    "NodeBulletList": {'\n', '- ', '    '},
    "NodeCodeBlock": {'\n', '```', '\n```', '```\n', 'none', '\n\n```', '```\n\n```'},
    "NodeDate": {1000},
    "NodeDecisionItem": {'\n', '>', '> '},
    "NodeDecisionList": {'\n\n'},
    "NodeDoc": {'\n', '\n\n', '\n\n\n'},
    "NodeEmbedCard": {'\n[', ')\n', ']('},
    "NodeExpand": {'\n', '\n\n', '\n\n\n'},
    "NodeExtension": {'/', ']', '] ', '[Extension: '},
    "NodeHardBreak": {'  \n'},
    "NodeHeading": {' ', '#', '\n\n', ' \n\n'},
    "NodeInlineCard": {')', '[', ']('},
    "NodeMedia": {')', '![', '](', 'file', 'link', '[media]', '](media:', 'external', '![media](', '![media](media:'},
    "NodeMention": {'@Unknown'},
    "NodeNestedExpand": {'\n', '\n\n', '\n\n\n'},
    "NodeOrderedList": {'\n', '. ', '    '},
    "NodePanel": {'\n', '\n\n', '**', '> ', '\n\n\n', '**\n\n'},
    "NodeParagraph": {'\n'},
    "NodeRule": {'\n\n---\n\n'},
    "NodeStatus": {'`'},
    "NodeTable": {'\n', ' |', '| ', ' | ', '---'},
    "NodeTableCell": {'\n', ' ', '|', '\\|', '<br>', '&nbsp;'},
    "NodeTableHeader": {'\n', ' ', '|', '\\|', '<br>', '&nbsp;'},
    "NodeTableRow": {' |', '| ', ' | '},
    "NodeTaskList": {'\n', '    ', 'DONE', 'TODO', '- [ ] ', '- [x] '},
    "MarkCode": {'\n', ' ``', '`` '},
    "MarkEm": {'*'},
    "MarkIndentation": {'\t'},
    "MarkLink": {')', '[', ']('},
    "MarkStrike": {'~~'},
    "MarkStrong": {'**'},
}


def hints(C, cname):
    """The texts and the sizes the code of an element compares with or looks for."""
    key = ("oracle hints", cname)
    if key not in C.cache:
        texts, sizes, seen = set(), set(), set()

        def walk(x):
            if isinstance(x, (tuple, frozenset, list)):
                for y in x:
                    walk(y)
                return
            if isinstance(x, Const):
                if isinstance(x.v, str):
                    texts.add(x.v)
                elif isinstance(x.v, int) and not isinstance(x.v, bool):
                    sizes.add(abs(x.v))
                return
            if not isinstance(x, (Sym, TupV, Rep)) or id(x) in seen:
                return
            seen.add(id(x))
            if isinstance(x, Sym):
                walk(x.args)
            elif isinstance(x, TupV):
                walk(tuple(x.items))
            else:
                walk(x.source)
                for a in x.alts:
                    walk(a.guard)
                    walk(a.segs)

        if cname in C.mark_classes:
            r = C.mk(cname)
        else:
            r = C.md(cname, ig=False, level="sym" if has_level(C, cname) else None, policy=None)
        for p in r or ():
            if p.exc is None:
                walk(p.v)
            walk(tuple(p.facts))
            walk(tuple(p.st.vals.values()) + tuple(p.st.nvals.values()))
        usual = USUAL.get(cname, ())
        C.cache[key] = (sorted((t for t in texts if 0 < len(t) <= 40 and t not in usual), key=lambda t: (len(t), t))[:12],
                        sorted(n for n in sizes if 2 <= n and n not in usual)[:6])
    return C.cache[key]


def near(C, cname):
    """Texts around those the code looks for."""
    texts, sizes = hints(C, cname)
    out = [x for s in texts for x in (s, s + "x", "x" + s, "x" + s + "y", s + s, "a " + s + " b")]
    return out + ["y" * m for n in sizes if n <= 1000 for m in (n - 1, n, n + 1)]


def counts(C, cname):
    return sorted({m for n in hints(C, cname)[1] if n <= 300 for m in (n - 1, n, n + 1)})


def near_triples(C, cname):
    out = [(s + "alpha", "be" + s + "ta", "gamma" + s) for s in hints(C, cname)[0] if not set(s) & set("&<>|\\")]
    for m in counts(C, cname):
        out.append(tuple(f"w{i:03}" for i in range(m)))
        out.append(("\n".join(f"l{i:04}" for i in range(m)), "beta", "gamma"))
        out.append(("y" * m, "beta", "z" * m))
    return out


MANY = tuple(f"w{i:03}" for i in range(150))
LONG = "\n".join(f"line{i:04}" for i in range(700))


def whole(C, cname):
    """Constant containers and the texts of their children, in order."""
    triples = TRIPLES + near_triples(C, cname)
    if cname in LISTS and cname != "NodeTaskList":
        cls = child_classes(C, "NodeListItem")
        for t in triples:
            if any(not x.strip() for x in t):
                continue
            yield W(cname, attrs=ABSENT, content=[
                W("NodeListItem", content=[W("NodeParagraph", x)]) for x in t]), t
            yield W(cname, attrs=ABSENT, content=[
                W("NodeListItem", content=[W("NodeParagraph", x) for x in t])]), t
        for c in cls:
            a, b = block(C, c, "inner"), W("NodeParagraph", "after\n")
            if c in NOTHING:
                continue
            one = a.text(1) if callable(a.text) else a.text
            yield W(cname, attrs=ABSENT, content=[W("NodeListItem", content=[W("NodeParagraph", "first\n"), a, b]),
                                                  W("NodeListItem", content=[b])]), ("first", one, "after", "after")
            yield W(cname, attrs=ABSENT, content=[W("NodeListItem", content=[a])]), (one,)
        yield W(cname, attrs=ABSENT, content=[W("NodeListItem", content=[W("NodeParagraph", f"item{i:03}")])
                                              for i in range(60)]), tuple(f"item{i:03}" for i in range(60))
    elif cname == "NodeTaskList":
        for t in triples:
            if any(not x.strip() for x in t):
                continue
            for st in ("TODO", "DONE"):
                yield make(C, cname, content=[make(C, "NodeTaskItem", attrs=attrs(C, "NodeTaskItem", state=st),
                                                   content=[W("NodeText", x)]) for x in t]), t
        sub = block(C, "NodeTaskList", "inner")
        it = lambda x: make(C, "NodeTaskItem", attrs=attrs(C, "NodeTaskItem", state="TODO"), content=[
            W("NodeText", x), W("NodeText", "tail" + x)])
        yield make(C, cname, content=[it("first"), sub, it("last")]), ("first", "tailfirst", sub.text(1), "last", "taillast")
        yield make(C, cname, content=[sub, it("last")]), (sub.text(1), "last", "taillast")
    elif cname == "NodeDecisionList":
        for t in triples:
            yield make(C, cname, content=[W("NodeDecisionItem", "> " + x.strip().replace("\n", "\n> ")) for x in t]), \
                tuple("> " + x.strip().replace("\n", "\n> ") for x in t)
    elif cname == "NodeTable":
        for kinds in ("hcc", "ccc", "hhc", "chc", "h", "c"):
            rows = [table_row(k, f"cell{i}a", f"cell{i}b") for i, k in enumerate(kinds)]
            yield W(cname, content=rows), tuple(r.text for r in rows)
        yield W(cname, content=[table_row("c", "same", "same") for _ in range(3)]), ("| same | same |",) * 3
    elif cname == "NodeTableRow":
        for t in triples:
            t = tuple(x.replace("\n", "<br>").replace("|", "\\|") for x in t)
            yield W(cname, content=[W("NodeTableCell", x) for x in t]), tuple(x.replace("<br>", "\n").replace("\\|", "|") for x in t)
    elif cname in DOCS:
        cls = [c for c in child_classes(C, cname)]
        base = make(C, cname).fields
        for t in triples:
            yield W(cname, content=[W("NodeParagraph", x + "\n") for x in t], **base), t
        for c in cls:
            for d in cls:
                xs = [block(C, c, "aleph"), block(C, d, "bet"), block(C, c, "gimel")]
                yield W(cname, content=xs, **base), tuple(x.text(0) if callable(x.text) else x.text for x in xs)
        yield W(cname, content=[W("NodeParagraph", f"par{i:03}\n") for i in range(60)], **base), \
            tuple(f"par{i:03}" for i in range(60))
    elif cname == "NodeCodeBlock":
        for t in triples + [MANY, (LONG,)]:
            yield W(cname, attrs=ABSENT, content=[W("NodeText", x, text=x) for x in t]), t
    else:
        cls = child_classes(C, cname) or []
        base = {k: v for k, v in make(C, cname).fields.items()}
        if cname in ("NodeTaskItem",):
            base["attrs"] = attrs(C, cname, state="TODO")
        for i, t in enumerate(triples):
            if cname in ("NodeTableCell", "NodeTableHeader"):
                t = tuple(x.replace("&", "+").replace("<", "(") for x in t)
            for c in (cls if i < 3 else cls[:1]):
                first = cls[0]
                xs = [W(c if j == 1 else first, x) for j, x in enumerate(t)]
                for x in xs:
                    if x.cls == "NodeText":
                        x.fields["text"] = x.text
                    elif needs_attrs(C, x.cls):
                        x.fields["attrs"] = attrs(C, x.cls, **({"text": x.text} if "text" in C.cls(x.cls + "Attrs").fields
                                                               else {}))
                    if x.cls in LISTS:
                        x.text = lambda l, s=x.text: indented(l or 0, s)
                yield W(cname, content=xs, **base), t
        if "NodeText" in cls:
            for t in (MANY, (LONG,)):
                yield W(cname, content=[W("NodeText", x, text=x) for x in t], **base), t


def table_row(kind, *cells):
    cs = {"h": ("NodeTableHeader", "NodeTableHeader"), "c": ("NodeTableCell", "NodeTableCell"),
          "m": ("NodeTableHeader", "NodeTableCell"), "n": ("NodeTableCell", "NodeTableHeader")}[kind]
    return W("NodeTableRow", "| " + " | ".join(cells) + " |",
             content=[W(cs[0] if i == 0 else cs[1], x) for i, x in enumerate(cells)])


def c12(C, cname):
    if cname in NOTHING:
        return
    for w, t in whole(C, cname):
        yield w, {}, in_order(t)


def c10(C, cname):
    if cname in NOTHING:
        return
    for w, t in whole(C, cname):
        yield w, {"ig": True}, in_order(t)


# ---------------------------------------------------------------------- leaves
def equal(want, strip=False):
    def check(out):
        o = out.strip("\n") if strip else out
        return None if o == want else f"the text is {out!r}, not {want!r}"
    return check


def holds_all(*vals):
    def check(out):
        for v in vals:
            if v not in out:
                return f"the value {v!r} is not in {out!r} unaltered"
        return None
    return check


def c13(C, cname):
    values = VALUES + near(C, cname)
    for v in values:
        if cname == "NodeText":
            yield W(cname, text=v), {}, equal(v)
        elif cname == "NodeMention":
            yield W(cname, attrs=attrs(C, cname, text=v)), {}, equal(v)
        elif cname == "NodeEmoji":
            yield W(cname, attrs=attrs(C, cname, text=v, shortName=":s:")), {}, equal(v)
            yield W(cname, attrs=attrs(C, cname, shortName=v)), {}, equal(v)
        elif cname == "NodeStatus":
            yield W(cname, attrs=attrs(C, cname, text=v)), {}, equal("`" + v + "`")
        elif cname == "NodeExtension":
            yield W(cname, attrs=attrs(C, cname, text=v, extensionKey="the-key")), {}, holds_all("the-key", v)
            yield W(cname, attrs=attrs(C, cname, extensionKey=v)), {}, holds_all(v)
    for u in URLS:
        if cname in ("NodeInlineCard", "NodeBlockCard", "NodeEmbedCard"):
            yield W(cname, attrs=attrs(C, cname, url=u)), {}, equal(f"[{u}]({u})", True)
        elif cname == "NodeMedia":
            yield W(cname, attrs=attrs(C, cname, type="external", url=u)), {}, equal(f"![media]({u})")
            yield W(cname, attrs=attrs(C, cname, type="external", url=u, alt="An alt")), {}, equal(f"![An alt]({u})")
    if cname == "NodeMedia":
        for v in values:
            if v.strip() == v:
                yield W(cname, attrs=attrs(C, cname, type="external", url="http://u/v", alt=v)), {}, \
                    equal(f"![{v}](http://u/v)")
            yield W(cname, attrs=attrs(C, cname, type="file", id="Id-1", collection="c", alt=v)), {}, \
                equal(f"![{v}](media:Id-1)")
    if cname == "NodeHardBreak":
        yield W(cname), {}, equal("  \n")
    if cname == "NodeRule":
        yield W(cname), {}, equal("---", True)


# ---------------------------------------------------------------------- marks
def c14(C, cname):
    if cname in C.mark_classes:
        yield from own_mark(C, cname)
        return
    cls = [c for c in child_classes(C, cname, "marks") if c.startswith("Mark")] or \
        [c for c in C.mark_classes]
    if cname == "NodeText":
        mk = lambda ms, v: W(cname, text=v, **ms)
    elif cname == "NodeParagraph":
        mk = lambda ms, v: W(cname, content=[W("NodeText", v, text=v)], **ms)
    elif cname == "NodeMedia":
        mk = lambda ms, v: W(cname, attrs=attrs(C, cname, type="external", url="http://u/v", alt=v), **ms)
    else:
        return
    sets = [[c] for c in cls] + [[c, d] for c in cls[:8] for d in cls[:8]] + [cls[:3], cls[:3][::-1], [cls[0]] * 3,
                                                                            cls[-3:], (cls * 3)[:5]]
    for i, ks in enumerate(sets):
        marks = []
        for j, k in enumerate(ks):
            at = attrs(C, k) if C.cls(k + "Attrs") else None
            m = W(k, mark=lambda x, k=k: f"\u27e6{k}:{x}\u27e7")
            if at is not None:
                at.fields.update({"level": 1} if "level" in C.cls(k + "Attrs").fields else {})
                m.fields["attrs"] = at
            marks.append(m)
        for v in (("word", " a b ", "x|y", *(x for x in near(C, cname) if x.strip() == x)) if i < 3 else ("word",)):
            def check(out, marks=marks, v=v):
                try:
                    core = only(C, mk({}, v), False, None, 1)
                except NoValue:
                    return None
                want = core.rstrip("\n") if cname == "NodeParagraph" else core
                for m in marks:
                    want = m.mark(want)
                o = out.strip("\n") if cname == "NodeParagraph" else out
                return None if o == want else f"with the marks {[m.cls for m in marks]} the text is {out!r}, not {want!r}"
            yield mk({"marks": marks}, v), {}, check


def own_mark(C, cname):
    both = {"MarkStrong": "**", "MarkEm": "*", "MarkStrike": "~~"}
    for t in VALUES + near(C, cname) + ["", " ", "**b**", "*e*", "~~s~~", "ab", "http://x", "`c`"]:
        if cname in both:
            d = both[cname]
            yield W(cname), {"param": t}, equal(t if not t.strip() else d + t + d)
        elif cname == "MarkLink":
            if t.strip():
                yield W(cname, attrs=attrs(C, cname, href="http://h/?q#f")), {"param": t}, equal(f"[{t}](http://h/?q#f)")
                yield W(cname, attrs=attrs(C, cname, href="http://h/", title=t)), {"param": "x y"}, \
                    equal(f"[{t}](http://h/)")
        elif cname == "MarkIndentation":
            if "\n" not in t and t.strip() == t and t:
                for n in (1, 2, 6):
                    yield W(cname, attrs=attrs(C, cname, level=n)), {"param": t}, equal("\t" * n + t)
        elif cname == "MarkCode":
            if "\n" not in t and "\r" not in t and "`" not in t and t.strip() and "\u2028" not in t:
                def check(out, t=t):
                    m = re.fullmatch(r"(`+)( ?)" + re.escape(t) + r"( ?)(`+)", out)
                    return None if m and m.group(1) == m.group(4) else f"code around {t!r} is {out!r}"
                yield W(cname), {"param": t}, check
        else:
            yield W(cname, attrs=attrs(C, cname)), {"param": t}, equal(t)
    if cname == "MarkLink":
        for u in URLS:
            yield W(cname, attrs=attrs(C, cname, href=u)), {"param": "label"}, equal(f"[label]({u})")


# ---------------------------------------------------------------------- tables
def bare_pipe(s):
    return re.search(r"(?<!\\)\|", s)


def c17(C, cname):
    if cname in ("NodeTableCell", "NodeTableHeader"):
        for v in ["a|b", "a\nb", "a\n\n\nb|c\n", "|", "||", "\n", "a\r\nb|", " |x| ", "plain", "a | b | c\n| d",
                  "`a|b`", "[x|y](z)", "- a|b\n    - c", "```\na|b\n```", "|a", "a|", STARTS, ENDS + "\n" + BOTH, "a\\|b", "a\n|\nb", "\n\na\n", "a\u2028|b", "\t|\t", "a" + "|" * 9] + near(C, cname):
            for c in child_classes(C, cname)[:4] + ["NodeParagraph"]:
                w = W(c, lambda l, v=v: v) if c in LISTS else W(c, v)

                def check(out):
                    if "\n" in out:
                        return f"a cell with {v!r} has a line break: {out!r}"
                    if bare_pipe(out):
                        return f"a cell with {v!r} has a bare pipe: {out!r}"
                    return None
                yield W(cname, content=[w]), {}, check
                yield W(cname, content=[w, W("NodeParagraph", "z|z\n"), w]), {}, check
    elif cname == "NodeTableRow":
        for cells in [("a",), ("a", "b"), ("", "b", ""), ("a\\|b", "c"), ("same", "same"), ("a", "", ""), ("", "", ""), ("", "", "z"), ("x",) * 12, ("1", "2", "3"),
                      ("&nbsp;&nbsp;a<br>b", "c ")]:
            for k in ("c", "h", "m", "n"):
                r = table_row(k, *cells)

                def check(out, cells=cells):
                    if "\n" in out.strip("\n"):
                        return f"a row has several lines: {out!r}"
                    o = out.strip()
                    got = [x.strip() for x in re.split(r"(?<!\\)\|", o)[1:-1]]
                    if not (o.startswith("|") and o.endswith("|")) or got != [x.strip() for x in cells]:
                        return f"the row of {cells!r} is {out!r}"
                    return None
                yield W(cname, content=r.fields["content"]), {}, check
    elif cname == "NodeTable":
        for kinds in ("h", "c", "hc", "hcc", "cc", "hhc", "chc", "hch", "mc", "nc", "cn", "m", "n", "hccccccch"):
            for width in (1, 2, 3, 7):
                rows = [table_row(k, *[f"r{i}c{j}" for j in range(width)]) for i, k in enumerate(kinds)]

                def check(out, rows=rows, kinds=kinds, width=width):
                    lines = [l for l in out.split("\n") if l.strip()]
                    want = []
                    for r, k in zip(rows, kinds):
                        want.append(r.text)
                        if k in "hm":
                            want.append(width)
                    ok = len(lines) == len(want)
                    for l, x in zip(lines, want):
                        if isinstance(x, int):
                            cells = [y.strip() for y in l.strip().strip("|").split("|")]
                            ok = ok and cells == ["---"] * x
                        else:
                            ok = ok and l.strip() == x
                    return None if ok else f"the table with rows {kinds!r} of {width} cells is {out!r}"
                yield W(cname, content=rows), {}, check


# ---------------------------------------------------------------------- quotes
QUOTED = ["word\n", "one\ntwo\n", "one\n\ntwo\n", "  lead\n    deep\n", "one\n\n\n\ntwo\n", "> inner\n> quote\n", "# h\n", "\n",
          "```\ncode\n\nmore\n```", "one\n \ntwo\n", "one  \ntwo", "- a\n    - b", "one\n\t\ntwo", "", "x\n>y\n", "first\n" + STARTS + "\n\ttabbed\n\n    code\n", ENDS, BOTH, "1. a\n2. b\n"]


def all_quoted(title=None, body=()):
    """Every line begins with a quote sign of its own; `body`: the content whose lines have to be there behind it."""
    def check(out):
        lines = out.strip("\n").split("\n")
        if out.strip("\n"):
            for l in lines:
                if not l.startswith(">"):
                    return f"the line {l!r} of {out!r} is not quoted"
        if title is not None and lines[0].rstrip() != f"> **{title}**":
            return f"the first line of {out!r} is not the panel's type in bold capitals"
        inner, pos = [re.sub(r"^> ?", "", l).strip() for l in lines], 0
        for t in body:
            for l in t.split("\n"):
                l = l.strip()
                if not l:
                    continue
                i = next((i for i in range(pos, len(inner)) if inner[i] == l), None)
                if i is None:
                    return f"the line {l!r} does not stand behind a quote sign in {out!r}"
                pos = i + 1
        return None
    return check


def near_lines(C, cname):
    out = []
    for s in hints(C, cname)[0]:
        if not s.strip().startswith(">"):
            out += [s + "word\n", "one\n" + s + "two\n", "one" + s + "\ntwo\n", "one\n\n" + s + "\n\ntwo\n"]
    for m in counts(C, cname):
        out += ["\n".join(f"l{i:03}" for i in range(m)) + "\n", "y" * m + "\nz\n"]
    return out


def c18(C, cname):
    if cname in ("NodeBlockquote", "NodePanel"):
        kinds = [None]
        if cname == "NodePanel":
            ci = C.cls("NodePanelAttrs")
            f = ci.fields.get("panelType") if ci else None
            kinds = sorted(f.ty.lits, key=str) if f is not None and f.ty.lits else ["info", "custom"]
        cls = child_classes(C, cname)
        for k in kinds:
            k = getattr(k, "v", k)
            at = {"attrs": attrs(C, cname, panelType=k)} if k else {}
            title = k and k.upper()
            for t in QUOTED + near_lines(C, cname):
                yield W(cname, content=[W("NodeParagraph", t)], **at), {}, all_quoted(title, [t])
                yield W(cname, content=[W("NodeParagraph", t), W("NodeParagraph", "mid\n"), W("NodeParagraph", t)], **at), \
                    {}, all_quoted(title, [t, "mid", t])
            for c in cls:
                xs = [block(C, c, "w"), block(C, cls[0], "v"), block(C, c, "w")]
                yield W(cname, content=xs, **at), {}, \
                    all_quoted(title, [x.text(0) if callable(x.text) else x.text for x in xs])
            yield W(cname, content=[], **at), {}, all_quoted(title)
            if k:
                for full in full_attrs(C, cname, panelType=k):
                    yield W(cname, content=[W("NodeParagraph", "w\n")], attrs=full), {}, all_quoted(title, ["w"])
    elif cname == "NodeDecisionItem":
        for t in QUOTED + near_lines(C, cname):
            if not t.strip():
                continue
            yield make(C, cname, content=[W("NodeText", t, text=t)]), {}, all_quoted(None, [t.strip()])
            yield make(C, cname, content=[W("NodeText", "first", text="first"), W("NodeHardBreak", "  \n"),
                                          W("NodeText", t, text=t), W("NodeHardBreak", "  \n"),
                                          W("NodeText", "end", text="end")]), {}, all_quoted(None, ["first", t.rstrip(), "end"])


# ---------------------------------------------------------------------- lists
def has_lines(want):
    def check(out):
        lines, pos = out.split("\n"), 0
        for w in want:
            while pos < len(lines) and lines[pos].rstrip() != w.rstrip():
                pos += 1
            if pos == len(lines):
                return f"the line {w!r} is missing or out of order in {out!r}"
            pos += 1
        return None
    return check


def c19(C, cname):
    word = lambda i: f"item{i}"
    if cname in ("NodeBulletList", "NodeOrderedList"):
        for level in (0, 1, 2, 3):
            ind = "    " * level
            orders = [ABSENT] if cname == "NodeBulletList" else [ABSENT, 1, 2, 0, 9, 998]
            for o in orders:
                ats = [ABSENT] if cname == "NodeBulletList" else \
                    [W(cname + "Attrs")] + [ABSENT] if o is ABSENT else [W(cname + "Attrs", order=o)]
                start = o if isinstance(o, int) and level == 0 else 1
                num = (lambda i: "- ") if cname == "NodeBulletList" else (lambda i, s=start: f"{s + i}. ")
                for at in ats:
                    f = {} if cname == "NodeBulletList" else {"attrs": at}
                    for n in (1, 3, 12, *(counts(C, cname) if not level else ())):
                        its = [W("NodeListItem", content=[W("NodeParagraph", word(i) + "\n")]) for i in range(n)]
                        yield W(cname, content=its, **f), {"level": level}, \
                            has_lines([ind + num(i) + word(i) for i in range(n)])
                    its = [W("NodeListItem", content=[W("NodeParagraph", word(0) + "\nmore\n"),
                                                      W("NodeParagraph", "second\n")]),
                           W("NodeListItem", content=[W("NodeParagraph", word(1) + "\n")])]
                    yield W(cname, content=its, **f), {"level": level}, \
                        has_lines([ind + num(0) + word(0), ind + num(1) + word(1)])
                    same_ = [W("NodeListItem", content=[W("NodeParagraph", "same\n")]) for _ in range(3)]
                    yield W(cname, content=same_, **f), {"level": level}, \
                        has_lines([ind + num(i) + "same" for i in range(3)])
                    for c in LISTS:
                        if c not in child_classes(C, "NodeListItem"):
                            continue
                        sub = block(C, c, "nested")
                        its = [W("NodeListItem", content=[W("NodeParagraph", word(0) + "\n"), sub]),
                               W("NodeListItem", content=[W("NodeParagraph", word(1) + "\n"), sub, sub]),
                               W("NodeListItem", content=[W("NodeParagraph", word(2) + "\n")])]
                        deep = sub.text(level + 1)
                        yield W(cname, content=its, **f), {"level": level}, \
                            has_lines([ind + num(0) + word(0), deep, ind + num(1) + word(1), deep, deep,
                                       ind + num(2) + word(2)])
    elif cname == "NodeTaskList":
        it = lambda i, s, *more: make(C, "NodeTaskItem", attrs=attrs(C, "NodeTaskItem", state=s), content=[
            W("NodeText", word(i), text=word(i))] + list(more))
        box = {"DONE": "[x]", "TODO": "[ ]"}
        for level in (0, 1, 2, 3):
            ind = "    " * level
            for sts in (("DONE",), ("TODO",), ("DONE", "TODO"), ("TODO", "DONE"), ("DONE", "DONE", "TODO", "DONE")):
                its = [it(i, s) for i, s in enumerate(sts)]
                yield make(C, cname, content=its), {"level": level}, \
                    has_lines([f"{ind}- {box[s]} {word(i)}" for i, s in enumerate(sts)])
            sub = block(C, "NodeTaskList", "nested")
            deep = sub.text(level + 1)
            yield make(C, cname, content=[it(0, "DONE"), sub, it(1, "TODO"), sub, sub, it(2, "DONE")]), {"level": level}, \
                has_lines([f"{ind}- [x] item0", deep, f"{ind}- [ ] item1", deep, deep, f"{ind}- [x] item2"])
            yield make(C, cname, content=[sub, it(0, "DONE")]), {"level": level}, has_lines([deep, f"{ind}- [x] item0"])


# ---------------------------------------------------------------------- code, headings
def c22(C, cname):
    if cname != "NodeCodeBlock":
        return
    codes = [v for v in VALUES if v.strip()] + ["a\n\n\nb", "    indented\n\ttab", "```\nfence\n```", "x\n", "\nx", "a  \nb  ", "\n\nx\n\n",
                                 "# c", "`", "~~~", "a\n \nb", STARTS, ENDS] + [v for v in near(C, cname) if v.strip()]
    for code in codes:
        for lang in (ABSENT, "python", "none", "zig"):
            at = W("NodeCodeBlockAttrs") if lang is ABSENT else W("NodeCodeBlockAttrs", language=lang)
            l = "" if lang in (ABSENT, "none") else lang
            w = W("NodeText", code, text=code)
            yield W(cname, attrs=at, content=[w]), {}, equal(f"```{l}\n{code}\n```")
        yield W(cname, attrs=ABSENT, content=[w]), {}, equal(f"```\n{code}\n```")
        yield W(cname, attrs=ABSENT, content=[W("NodeText", "one\n", text="one\n"), w]), {}, equal(f"```\none\n{code}\n```")


def c23(C, cname):
    if cname != "NodeHeading":
        return
    ci = C.cls("NodeHeadingAttrs")
    f = ci.fields.get("level") if ci else None
    for n in (1, 2, 3, 4, 5, 6) + ((7, 10) if f is not None and not f.ty.lits and f.ty.kind == "int" else ()):
        for kw in ({"content": ABSENT}, {"content": []}, {"content": [W("NodeText", "", text="")]}):
            for at in (attrs(C, cname, level=n), *full_attrs(C, cname, level=n)):
                yield W(cname, attrs=at, **kw), {}, \
                    lambda out, n=n: None if out.startswith("\n\n" + "#" * n) and not out.replace("#", "").strip() and \
                    out.count("#") == n and out.endswith("\n\n") else f"a heading of level {n} without text is {out!r}"
        for v in ("word", "two words", "a {#b} c", "# sharp", "trail #", "**b**", "MiXeD", "1. x", "a: b", "x" * 200, "a_b",
                  "Q?", "end.", "(p)", "\u00e9 \u65e5", *(x for x in near(C, cname) if x.strip() == x and x and "\n" not in x)):
            def check(out, n=n, v=v):
                if out.strip("\n") != "#" * n + " " + v:
                    return f"a heading of level {n} with {v!r} is {out!r}"
                if not out.startswith("\n\n") or not out.endswith("\n\n"):
                    return f"no blank line around the heading {out!r}"
                return None
            yield W(cname, attrs=attrs(C, cname, level=n), content=[W("NodeText", v, text=v)]), {}, check
            if len(v) < 12:
                yield W(cname, attrs=attrs(C, cname, level=n), content=[
                    W("NodeText", v, text=v), W("NodeText", v, text=v)]), {}, \
                    lambda out, n=n, v=v: None if out.strip("\n") == "#" * n + " " + v + v else \
                    f"a heading of level {n} with {v!r} twice is {out!r}"


# ---------------------------------------------------------------------- blocks
def c24(C, cname):
    if cname not in DOCS:
        return
    base = make(C, cname).fields
    quoted = cname in ("NodeBlockquote", "NodePanel")
    cls = child_classes(C, cname)

    def bare(out):
        if quoted:
            out = "\n".join(re.sub(r"^> ?", "", l) for l in out.split("\n"))
        return out

    def check(out, blocks=()):
        o = bare(out)
        if "\n\n\n" in o.strip("\n") or "\n\n\n" in o and not quoted:
            return f"two blank lines in a row in {out!r}"
        lines = [l.rstrip() for l in o.split("\n")]
        pos = 0
        for k, (c, text) in enumerate(blocks):
            want = [l.rstrip() for l in text.strip("\n").split("\n")]
            if not want or want == [""]:
                continue
            i = next((i for i in range(pos, len(lines)) if lines[i:i + len(want)] == want), None)
            if i is None:
                return f"block {k} ({c}) does not stand on lines of its own in {out!r}"
            if c in SPACED:
                if k and i and lines[i - 1].strip():
                    return f"no blank line before block {k} ({c}) in {out!r}"
                rest = [x for x in blocks[k + 1:] if x[1].strip()]
                if rest and i + len(want) < len(lines) and lines[i + len(want)].strip():
                    return f"no blank line after block {k} ({c}) in {out!r}"
            pos = i + len(want)
        return None

    text = lambda x: x.text(0) if callable(x.text) else x.text
    for c in cls:
        for d in cls:
            for e in (c, "NodeParagraph"):
                xs = [block(C, c, "aleph"), block(C, d, "bet"), block(C, e, "gimel")]
                bs = [(x.cls, text(x)) for x in xs]
                yield W(cname, content=xs, **base), {}, (lambda out, bs=bs: check(out, bs))
    for n in (1, 2, 3, 4, 7, 8, 9, 16, 27, 50, *counts(C, cname)):
        empty = [W("NodeParagraph", "\n") for _ in range(n)]
        for c in cls:
            xs = [W("NodeParagraph", "head\n")] + empty + [block(C, c, "body")]
            yield W(cname, content=xs, **base), {}, (lambda out: check(out))
        yield W(cname, content=[W("NodeParagraph", "head" + "\n" * n), W("NodeParagraph", "\n" * n + "tail\n")], **base), {}, \
            (lambda out: check(out))
        # the text of one block may hold any number of line breaks, wherever the block stands
        w = lambda: W("NodeParagraph", "head" + "\n" * n + "tail\n")
        for xs in ([w()], [w(), block(C, "NodeParagraph", "body")], [block(C, "NodeParagraph", "body"), w()],
                   [w(), w(), w(), w()]):
            yield W(cname, content=xs, **base), {}, (lambda out: check(out))


# ---------------------------------------------------------------------- dates
DAY = 86400000


def c26(C, cname):
    if cname != "NodeDate":
        return
    import datetime
    for n in hints(C, cname)[1]:
        for ts in (n - 1, n, n + 1, n * 1000 - 1, n * 1000, n * 1000 + 1, -n):
            if abs(ts) < 10 ** 14:
                want = (datetime.date(1970, 1, 1) + datetime.timedelta(days=ts // DAY)).isoformat()
                yield W(cname, attrs=attrs(C, cname, timestamp=str(ts))), {}, equal(want)
    for d in (0, 1, 58, 59, 364, 365, 10957, 11016, 19000, 19416, 19782, 20000, 30000, -1, -400, 18262, 18321, 18627):
        for o in (0, 1, 499, 999, 43200000, 50000000, DAY - 1000, DAY - 500, DAY - 1):
            ts = d * DAY + o
            want = (datetime.date(1970, 1, 1) + datetime.timedelta(days=d)).isoformat()
            yield W(cname, attrs=attrs(C, cname, timestamp=str(ts))), {}, equal(want)


ORACLES = {"C10": c10, "C12": c12, "C13": c13, "C14": c14, "C17": c17, "C18": c18, "C19": c19, "C22": c22, "C23": c23,
           "C24": c24, "C26": c26}


def refute(C, prop, cname, want=2, secs=4.0):
    """-> list of messages, and the number of constant elements folded / not folded"""
    bad, done, open_ = [], 0, 0
    end = time.monotonic() + secs
    for w, kw, check in ORACLES[prop](C, cname):
        if open_ >= 12 and not done or time.monotonic() > end:
            break
        outs = outputs(C, w, kw.get("ig", False), kw.get("level"), param=kw.get("param"))
        if not outs:
            open_ += 1
            continue
        done += 1
        probs = [check(o) for o in outs]
        if all(probs):
            bad.append(f"{str(w)[:200]}: {probs[0][:400]}")
            if len(bad) >= want:
                break
    return bad, done, open_


def confirm(C, R):
    """Refute what the rules left open (or missed) with constant elements; adds violations only."""
    if R.prop not in ORACLES:
        return
    R.analysed["constants"] = tot = {}
    end = time.monotonic() + 12 * (6 if getattr(C, "tier", "quick") == "thorough" else 1)
    for c in C.node_classes + C.mark_classes:
        if C.cls(c) is None:
            continue
        bad, done, left = refute(C, R.prop, c, secs=min(4.0, end - time.monotonic()))
        if done or left:
            tot[c] = {"folded": done, "not folded": left}
        for m in bad:
            R.bad("constant element", c, m, C.where_of(c, "to_markdown"))
