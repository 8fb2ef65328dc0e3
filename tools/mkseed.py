"""Write seeded/<id>/ for variants that have a demonstration (not a check; needs network nowhere).

    python3 tools/mkseed.py NAME...      (names of tools/variants entries)
Confirms, on a scratch copy: the stable tests pass, the demonstration fails there and passes on /repo.
"""
import json, os, shutil, subprocess, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
import lab


def main(names):
    fixed = set()
    for f, n, k in lab.load(kind="bad"):
        if n not in names:
            continue
        ov, info = lab.overlay_of(f, n, True)
        if not info.get("demo"):
            print("no demo", n)
            continue
        rc, tests, out, err, dm = lab.dyn(n, ov, info["demo"])
        if rc or "BADDEMO" in dm:
            print("REFUSED", n, tests, dm)
            continue
        d = os.path.join(lab.HERE, "seeded", n)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        patch = ""
        for rel, s in sorted(ov.items()):
            p = os.path.join(lab.ROOT, rel)
            t = os.path.join(d, "new")
            open(t, "w").write(s)
            x = subprocess.run(["diff", "-u", "--label", "a/" + rel, "--label", "b/" + rel, p, t], capture_output=True, text=True)
            os.remove(t)
            patch += f"diff --git a/{rel} b/{rel}\n" + x.stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.py"), "w").write(lab.DEMO_HEAD + info["demo"] + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(
            "#!/bin/bash\n# cwd: /repo, after the build; 0 = the property holds here\n"
            "export PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        json.dump({"property": k.split(",")[0], "needs": info["needs"], "what_it_breaks": info["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = os.system(f"cd {lab.ROOT} && git apply --check {d}/patch.diff")
        print("seeded" if not r else "PATCH DOES NOT APPLY", n)


main(sys.argv[1:])
