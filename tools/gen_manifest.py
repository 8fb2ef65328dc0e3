"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))}
AI = "abstract interpretation of the Python source (path-sensitive, symbolic terms, loop summaries)"
TECH = {
    "C01": AI + ": tag tables and dispatch evaluated for every tag", "C02": AI + ": exception-escape analysis of the parse entry points",
    "C03": AI + ": per-element loop summaries of the child and mark loops", "C04": AI + ": ownership / aliasing of parsed data",
    "C05": AI + ": field-by-field dataflow from JSON to model", "C06": AI + ": exception analysis of constructors with one field absent",
    "C07": AI + ": field-by-field dataflow from model to dictionary", "C08": AI + ": agreement of parse and serialise dataflow",
    "C09": AI + ": exception-flow (swallowed-error) analysis", "C10": AI + ": exception-flow fixpoint over the node classes",
    "C11": AI + ": optional-sentinel typestate and exception analysis", "C12": AI + ": content-flow (each child exactly once) analysis of result terms",
    "C13": AI + ": text-flow analysis of result terms", "C14": AI + ": text-flow and fold analysis of mark application",
    "C15": "dataclass frozenness + effect analysis over all abstract paths of every conversion",
    "C16": "source-of-nondeterminism taint over result terms and path conditions, plus call-site scan",
    "C17": AI + ": row/cell/delimiter structure of result terms", "C18": AI + ": line-prefix analysis of result terms",
    "C19": AI + ": line-structure analysis of list items", "C20": "import-order simulation on the syntax tree, dependency, effect and language-version scan",
    "C21": AI + ": evaluation of the type test for every constant and tag", "C22": AI + ": text-flow analysis of fenced code",
    "C23": AI + ": evaluation for every heading level", "C24": AI + ": separator and blank-line normal-form analysis",
    "C25": "name-binding analysis of the public interface module", "C26": AI + ": normal form of the date expression",
}
NA = {
    "C27": "whether an arbitrary Markdown renderer displays every text unchanged quantifies over runtime text and third-party renderers; no static rule over this code decides it",
    "C28": "running time and recursion depth are runtime quantities; the recursion follows the input's nesting and no static bound exists",
}
assert set(TECH) | set(NA) == set(props), set(props) ^ (set(TECH) | set(NA))
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 11)\"",
    "checks": [{
        "property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": TECH[i], "level": "other",
        "level_note": "Static: every obligation is decided from the abstract paths of the current source, nothing of the library is executed. "
                      "Obligations the abstraction cannot decide are listed as undecided in the evidence and are not covered. "
                      "See DESIGN.md for what each obligation is.",
    } for i in sorted(TECH)],
    "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA.items())],
    "notes": "No hooks in /repo. Engine: vf/ (abstract interpreter for the Python subset the library uses), rules: vf/rules/, frozen contract: spec/contract.json.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
