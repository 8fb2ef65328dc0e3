"""Development aid (not a check): which checks report each seeded change.

    python3 tools/seeded.py [REGEX] [--table | --design]

--design rewrites the table at the end of DESIGN.md.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def one(name):
    from vf import cli
    from vf.ctx import Ctx
    d = tempfile.mkdtemp(prefix="seeded-")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        r = subprocess.run(["git", "apply", f"{HERE}/seeded/{name}/patch.diff"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return name, None, r.stderr.strip()
        ctx = Ctx(d, {})
        bad, und = {}, []
        for p in cli.RULES:
            _, rep = cli.analyse(p, d, ctx=ctx)
            b = [i for i in rep.items if i[0] == "violation"]
            if b:
                bad[p] = b[0]
            elif any(i[0] == "undecided" for i in rep.items):
                und.append(p)
        return name, bad, und
    finally:
        shutil.rmtree(d)


def main():
    rx = next((a for a in sys.argv[1:] if not a.startswith("--")), "")
    names = sorted(n for n in os.listdir(f"{HERE}/seeded") if re.search(rx, n))
    miss, per = 0, {}
    with ProcessPoolExecutor(8) as ex:
        for name, bad, more in ex.map(one, names):
            meta = json.load(open(f"{HERE}/seeded/{name}/meta.json"))
            if bad is None:
                print(f"BROKEN {name}: {more}")
                continue
            hit = meta["property"] in bad
            per.setdefault(meta["property"], []).append(
                name + ("" if hit else " (**missed**)") +
                (f" [{', '.join(sorted(set(bad) - {meta['property']}))}]" if set(bad) - {meta["property"]} else ""))
            miss += not hit
            if "--design" in sys.argv:
                continue
            if "--table" in sys.argv:
                print(f"| {name} | {meta['property']} | {', '.join(bad) or 'none'} | {meta['what_it_breaks'][:110]} |")
            else:
                print(f"{'caught' if hit else 'MISSED'} {name} want={meta['property']} got={','.join(bad)} und={','.join(more)}")
    if "--design" in sys.argv:
        f = f"{HERE}/DESIGN.md"
        head = open(f).read().split("<!-- seeded -->")[0]
        rows = "".join(f"| {p} | {'; '.join(v)} |\n" for p, v in sorted(per.items()))
        open(f, "w").write(head + "<!-- seeded -->\n\n| check | seeded changes it reports [other checks that report them too] |\n|--|--|\n" + rows)
    print(f"{len(names)} seeded, {miss} missed by the check of their own property")


main()
