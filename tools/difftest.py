"""Development aid: digest of the library's behaviour on random documents (compared between two trees)."""
import sys, random, json, os, hashlib, logging
logging.disable(logging.CRITICAL)
import atlas_doc_parser.api as api
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = json.load(open(os.path.join(HERE, "spec/contract.json")))
CL = spec["classes"]
NODE, MARK = spec["tags"]["node"], spec["tags"]["mark"]
inline = ["text", "mention", "emoji", "date", "status", "inlineCard", "hardBreak", "mediaInline"]
kids = {"doc": None, "paragraph": inline, "heading": inline, "taskItem": inline, "decisionItem": inline, "caption": inline,
        "bulletList": ["listItem"], "orderedList": ["listItem"], "taskList": ["taskItem", "taskList"],
        "listItem": ["paragraph", "bulletList", "orderedList", "taskList", "codeBlock", "mediaSingle"],
        "decisionList": ["decisionItem"], "table": ["tableRow"], "tableRow": ["tableCell", "tableHeader"],
        "codeBlock": ["text"], "mediaSingle": ["media", "caption"], "mediaGroup": ["media"]}
blocks = ["paragraph", "heading", "bulletList", "orderedList", "taskList", "decisionList", "table", "codeBlock", "panel",
          "blockquote", "expand", "nestedExpand", "rule", "mediaSingle", "blockCard", "embedCard", "extension"]
STR = ["", "a", "b c", " x ", "a|b", "l1\nl2", "  lead", "\n", "\n\n\n", "x\n\n\n\ny", "*s*", "|", "\t", "café", "none", "\\|", "> q", "- a", "1. b"]

def val(r, name, f, d, cls):
    k = f.get("kind")
    if name == "timestamp":
        return r.choice(["1700000000000", "0", "86399999", "86400000", "-1"])
    if name == "state":
        return r.choice(["DONE", "TODO", "DECIDED"])
    if name == "panelType":
        return r.choice(["info", "note", "custom"])
    if cls == "NodeMediaAttrs" and name == "type":
        return r.choice(["file", "link", "external"])
    if name == "level":
        return r.randint(1, 6)
    if name == "order":
        return r.choice([0, 1, 2, 7, 10])
    if k == "inst":
        return obj(r, f["classes"][0], d)
    if k == "str":
        return r.choice(STR)
    if k in ("int", "float", "num"):
        return r.randint(0, 9)
    if k == "bool":
        return r.random() < .5
    if k == "list":
        return [r.randint(0, 9) for _ in range(r.randint(0, 3))]
    return r.choice([{"k": [1, {"z": 2}]}, "s", [1, 2]])

def obj(r, cls, d):
    out = {}
    for n, f in CL[cls]["fields"].items():
        if n == "type" and "default" in f:
            out[n] = f["default"]
            continue
        if n in ("content", "marks"):
            continue
        if not f["required"] and r.random() < .5:
            continue
        if f["required"] and r.random() < .004:
            continue
        out[n] = val(r, n, f, d, cls)
    if r.random() < .05:
        out["unknownKey"] = [1]
    return out

def node(r, tag, d):
    cls = NODE[tag]
    out = obj(r, cls, d)
    F = CL[cls]["fields"]
    if "content" in F and (F["content"]["required"] or r.random() < .8):
        ch = kids.get(tag) or blocks
        n = 0 if d <= 0 else r.choice([0, 1, 1, 2, 2, 3, 4])
        out["content"] = [node(r, r.choice(ch), d - 1) for _ in range(n)]
        if r.random() < .04:
            out["content"].insert(r.randint(0, len(out["content"])), {"type": r.choice(["nope", "bodiedExtension"])})
    if "marks" in F and r.random() < .4:
        ms = ["strong", "em", "code", "link", "strike", "underline", "subsup", "textColor", "indentation"]
        out["marks"] = [mark(r, r.choice(ms), d) for _ in range(r.randint(0, 3))]
        if r.random() < .03:
            out["marks"].append({"type": "weird"})
    return out

def mark(r, tag, d):
    return obj(r, MARK[tag], d)

def call(f):
    try:
        return f()
    except Exception as e:
        return f"!{type(e).__name__}"

def main():
    n = int(sys.argv[1])
    r = random.Random(7)
    for i in range(n):
        tag = r.choice(list(NODE)) if i % 2 else "doc"
        dct = node(r, tag, 5)
        s0 = json.dumps(dct)
        m = call(lambda: api.parse_node(dct))
        row = [str(m)[:40] if isinstance(m, str) else ""]
        if not isinstance(m, str):
            row += [call(lambda: m.to_dict()), call(lambda: m.to_markdown()), call(lambda: m.to_markdown(ignore_error=True)),
                    call(lambda: m.to_markdown()), call(lambda: m == api.parse_node(m.to_dict()))]
            if tag in ("bulletList", "orderedList", "taskList"):
                row.append(call(lambda: m.to_markdown(level=2)))
        row.append(json.dumps(dct) == s0)
        print(i, tag, hashlib.md5(json.dumps(row, default=repr).encode()).hexdigest())
        if os.environ.get("DUMP") == str(i):
            print(json.dumps(dct, indent=1), *row, sep="\n----\n", file=sys.stderr)
main()
