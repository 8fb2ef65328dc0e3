"""Development aid (not a check): run every rule on edited copies of the sources, in memory.

    python3 tools/lab.py [--only REGEX] [--kind ok|bad] [--test] [-v]

tools/variants/*.py each define V, a list of (name, kind, edits): kind "ok" (behaviour kept, every
rule has to stay quiet) or "C12,C09" (at least one of these has to report it).
edits: list of R(file, old, new) / B(file, qualname, new_body) / N(file, source).
--test: also build a scratch copy, run the stable tests on it and compare it with the original on random documents.
"""
import argparse, ast, glob, importlib.util, json, os, re, shutil, subprocess, sys, textwrap, time, traceback
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ROOT = "/repo"
PK = "atlas_doc_parser/"


class Bad(Exception):
    pass


def rd(overlay, rel):
    if rel in overlay:
        return overlay[rel]
    with open(os.path.join(ROOT, rel)) as f:
        return f.read()


def path(f):
    if f.startswith("/"):
        return f[1:]
    if "/" not in f:
        for d in ("", "nodes/", "marks/"):
            if os.path.exists(os.path.join(ROOT, PK + d + f)):
                return PK + d + f
    return PK + f


def R(f, old, new, count=1):
    def do(ov):
        rel = path(f)
        s = rd(ov, rel)
        n = s.count(old)
        if n < 1 or (count and n != count):
            raise Bad(f"{rel}: {n} matches of {old!r}")
        ov[rel] = s.replace(old, new)
    return do


def N(f, src):
    def do(ov):
        ov[path(f)] = textwrap.dedent(src)
    return do


def A(f, src):
    "append"
    def do(ov):
        ov[path(f)] = rd(ov, path(f)).rstrip("\n") + "\n\n\n" + textwrap.dedent(src)
    return do


def _find(tree, q):
    body = tree.body
    for i, part in enumerate(q.split(".")):
        for n in body:
            if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == part:
                node = n
                body = n.body
                break
        else:
            raise Bad("no " + q)
    return node


def B(f, q, new):
    "replace the body of function q (the docstring goes too)"
    def do(ov):
        rel = path(f)
        s = rd(ov, rel)
        n = _find(ast.parse(s), q)
        L = s.split("\n")
        ind = " " * n.body[0].col_offset
        nb = textwrap.indent(textwrap.dedent(new).strip("\n"), ind)
        L[n.body[0].lineno - 1:n.end_lineno] = nb.split("\n")
        ov[rel] = "\n".join(L)
    return do


def D(f, q, new):
    "replace function/class q whole (decorators included)"
    def do(ov):
        rel = path(f)
        s = rd(ov, rel)
        n = _find(ast.parse(s), q)
        L = s.split("\n")
        start = min([n.lineno] + [d.lineno for d in n.decorator_list])
        ind = " " * n.col_offset
        nb = textwrap.indent(textwrap.dedent(new).strip("\n"), ind)
        L[start - 1:n.end_lineno] = nb.split("\n")
        ov[rel] = "\n".join(L)
    return do


def I(f, q, new):
    "insert before function/class q"
    def do(ov):
        rel = path(f)
        s = rd(ov, rel)
        n = _find(ast.parse(s), q)
        L = s.split("\n")
        start = min([n.lineno] + [d.lineno for d in n.decorator_list])
        ind = " " * n.col_offset
        nb = textwrap.indent(textwrap.dedent(new).strip("\n"), ind)
        L[start - 1:start - 1] = nb.split("\n") + [""]
        ov[rel] = "\n".join(L)
    return do


def load(only=None, kind=None, files=None):
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, "tools/variants/*.py"))):
        if files and not re.search(files, os.path.basename(p)):
            continue
        ns = dict(R=R, N=N, A=A, B=B, D=D, I=I)
        exec(compile(open(p).read(), p, "exec"), ns)
        for name, k, edits, *_ in ns["V"]:
            if only and not re.search(only, name):
                continue
            if kind == "ok" and k != "ok" or kind == "bad" and k == "ok":
                continue
            out.append((os.path.basename(p), name, k))
    return out


def overlay_of(fname, name, more=False):
    ns = dict(R=R, N=N, A=A, B=B, D=D, I=I)
    p = os.path.join(HERE, "tools/variants", fname)
    exec(compile(open(p).read(), p, "exec"), ns)
    for n, k, edits, *info in ns["V"]:
        if n == name:
            ov = {}
            for e in edits:
                e(ov)
            for rel, s in ov.items():
                ast.parse(s)
            return (ov, info[0] if info else {}) if more else ov
    raise Bad(name)


def scratch(name, ov):
    d = "/tmp/lab/" + re.sub(r"\W", "_", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", ROOT + "/atlas_doc_parser", ROOT + "/tests", ROOT + "/pyproject.toml", d], check=True)
    for rel, s in ov.items():
        with open(os.path.join(d, rel), "w") as f:
            f.write(s)
    return d


PY = "/opt/venv/bin/python"


def envof(d):
    return dict(os.environ, PYTHONPATH=d, CI="true", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


DEMO_HEAD = 'import os, sys\n\nsys.path.insert(0, os.getcwd())\n'


def dyn(name, ov, demo=None):
    d = scratch(name, ov)
    try:
        p = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=d, env=envof(d),
                           capture_output=True, text=True, timeout=200)
        tests = p.stdout.strip().split("\n")[-1]
        q = subprocess.run([PY, os.path.join(HERE, "tools/difftest.py"), "400"], cwd=d, env=envof(d),
                           capture_output=True, text=True, timeout=200)
        dm = ""
        if demo:
            f = os.path.join(d, "demo_.py")
            with open(f, "w") as h:
                h.write(DEMO_HEAD + demo + "\n")
            x = subprocess.run([PY, f], cwd=d, env=envof(d), capture_output=True, text=True, timeout=200)
            y = subprocess.run([PY, f], cwd=ROOT, env=envof(ROOT), capture_output=True, text=True, timeout=200)
            dm = f"; demo {y.returncode}/{x.returncode}" + ("" if x.returncode and not y.returncode else
                                                          " BADDEMO " + (y.stderr or x.stderr)[-200:])
        return p.returncode, tests, q.stdout, q.stderr[-500:], dm
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(job):
    fname, name, kind, test = job
    sys.setrecursionlimit(20000)
    from vf import cli
    from vf.ctx import Ctx
    t0 = time.time()
    try:
        ov, info = overlay_of(fname, name, True)
    except Exception as e:
        return name, kind, {"error": f"{type(e).__name__}: {e}"}
    res = {"bad": {}, "und": {}, "crash": {}}
    ctx = None
    try:
        ctx = Ctx(ROOT, ov)
        for p in cli.RULES:
            try:
                _, r = cli.analyse(p, ROOT, ctx=ctx)
                b = [i for i in r.items if i[0] == "violation"]
                u = [i for i in r.items if i[0] == "undecided"]
                if b:
                    res["bad"][p] = [f"[{i[1]}] {i[2]}: {i[3][:300]}" for i in b]
                if u:
                    res["und"][p] = [f"[{i[1]}] {i[2]}: {i[3][:300]}" for i in u]
                if not [i for i in r.items if i[0] == "ok"] and not b and not u:
                    res["und"][p] = ["nothing decided"]
            except Exception as e:
                res["crash"][p] = f"{type(e).__name__}: {e} " + traceback.format_exc().strip().split("\n")[-3]
    except Exception as e:
        res["crash"]["*"] = f"{type(e).__name__}: {e} " + traceback.format_exc()[-600:]
    res["t"] = time.time() - t0
    if test:
        res["dyn"] = dyn(name, ov, info.get("demo"))
    return name, kind, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--only")
    ap.add_argument("--kind")
    ap.add_argument("--files")
    ap.add_argument("--test", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    jobs = [(f, n, k, a.test) for f, n, k in load(a.only, a.kind, a.files)]
    base = None
    if a.test:
        q = subprocess.run([PY, os.path.join(HERE, "tools/difftest.py"), "400"], cwd="/tmp", env=envof(ROOT),
                           capture_output=True, text=True, timeout=200)
        base = q.stdout
        if q.returncode:
            print(q.stderr)
    st = {"ok": 0, "alarm": 0, "und": 0, "caught": 0, "missed": 0, "error": 0}
    with ProcessPoolExecutor(a.j) as ex:
        for name, kind, r in ex.map(run, jobs):
            if "error" in r:
                print(f"ERR   {name}: {r['error']}")
                st["error"] += 1
                continue
            note = ""
            if a.test:
                rc, tests, out, err, dm = r["dyn"]
                same = out == base
                note = f"   (tests {'pass' if rc == 0 else 'FAIL: ' + tests}; diff {'same' if same else 'DIFFERENT' + (' ' + err if not out else '')}{dm})"
                if kind == "ok" and (rc or not same):
                    print(f"NOTOK {name}{note}")
            if kind == "ok":
                if r["bad"] or r["crash"]:
                    st["alarm"] += 1
                    print(f"ALARM {name} {r['t']:.1f}s{note}")
                    for p, v in r["bad"].items():
                        for x in v[:2 if not a.v else 99]:
                            print(f"      {p} {x}")
                    for p, v in r["crash"].items():
                        print(f"      CRASH {p} {v}")
                elif r["und"]:
                    st["und"] += 1
                    print(f"UND   {name} {r['t']:.1f}s: " + " ".join(f"{p}:{len(v)}" for p, v in r["und"].items()) + note)
                    if a.v:
                        for p, v in r["und"].items():
                            for x in v[:4]:
                                print(f"      {p} {x}")
                else:
                    st["ok"] += 1
                    print(f"quiet {name} {r['t']:.1f}s{note}")
            else:
                want = set(kind.split(","))
                got = set(r["bad"])
                hit = want & got
                st["caught" if hit else "missed"] += 1
                print(f"{'caught' if hit else 'MISSED'} {name} want={kind} got={','.join(sorted(got))} "
                      f"und={','.join(sorted(r['und']))} {r['t']:.1f}s{note}")
                for p, v in r["crash"].items():
                    print(f"      CRASH {p} {v}")
                if a.v or not hit:
                    for p, v in list(r["bad"].items()) + ([] if hit else list(r["und"].items())):
                        for x in v[:2]:
                            print(f"      {p} {x}")
    print(st)


if __name__ == "__main__":
    main()
