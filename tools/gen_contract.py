"""One-off: freeze the data contract of the confirmed tree into spec/contract.json.
The result was reviewed against the ADF JSON schema; checks only read the JSON."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.interp import Engine
from vf.dom import *
E = Engine("/repo")
out = {"tags": {"node": {}, "mark": {}}, "classes": {}}
for c in sorted(E.classes):
    ci = E.classes[c]
    if not ci.is_sub("Base") or c in ("Base", "BaseMarkOrNode", "BaseMark", "BaseNode"):
        continue
    fl = {}
    for n, f in ci.fields.items():
        d = {"required": f.default == REQ}
        if f.default == OPT: d["optional"] = True
        elif isinstance(f.default, Const): d["default"] = f.default.v
        d["kind"] = f.ty.kind
        if n == "attrs" or (f.ty.kind == "inst" and n not in ("content", "marks")):
            d["classes"] = sorted(f.ty.classes)
            d["parsed"] = isinstance(f.type, ClassV)
        fl[n] = d
    out["classes"][c] = {"fields": fl}
    t = E.tag(c)
    if t is not None:
        out["tags"]["mark" if ci.is_sub("BaseMark") else "node"][t.v] = c
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "contract.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
print({k: len(v) for k, v in out["tags"].items()}, len(out["classes"]))
