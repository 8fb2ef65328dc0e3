"""A model of what happens when a module of the package is the first one imported.

Module bodies are walked in execution order on the syntax tree: imports, definitions and
assignments bind names, a `from m import n` needs `n` to be bound in `m` at that moment
(or to be a submodule), a name or an attribute of a package module that is read has to be
bound already.  Nothing is executed.
"""
from __future__ import annotations

import ast
import builtins
import os
import re

from . import pyver

IMPORT_ERRORS = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__",
                                 "__builtins__", "__annotations__", "__loader__", "__module__", "__qualname__", "__class__"}

EFFECT = re.compile(
    r"^(builtins\.(open|input|exec|eval|__import__\b)|io\.open|os\.(putenv|unsetenv|chdir|remove|unlink|mkdir|makedirs|"
    r"rename|replace|system|popen|exec\w*|spawn\w*|kill|umask|fork|rmdir|symlink|link|listdir|scandir|walk|open|write|read|"
    r"environ\.(setdefault|update|pop|clear|popitem|__setitem__))|"
    r"subprocess\.\w+|socket\.\w+|shutil\.\w+|tempfile\.\w+|urllib\.request\.\w+|http\.client\.\w+|requests\.\w+|"
    r"random\.(seed|setstate)|locale\.setlocale|warnings\.(simplefilter|filterwarnings|resetwarnings)|"
    r"logging\.(basicConfig|disable|addLevelName|setLoggerClass|captureWarnings|FileHandler|root\.\w+)|logging\.config\.\w+|"
    r"logging\.handlers\.\w+|sys\.(setrecursionlimit|settrace|setprofile|exit|path\.\w+|modules\.\w+|meta_path\.\w+|stdout\.\w+|"
    r"stderr\.\w+|stdin\.\w+|setswitchinterval)|threading\.(Thread|Timer|stack_size)|multiprocessing\.\w+|signal\.\w+|"
    r"atexit\.register|gc\.(disable|set_threshold|freeze)|faulthandler\.enable|importlib\.reload|importlib\.resources\.\w+|"
    r"pkgutil\.get_data|json\.(load|dump)|pickle\.(load|dump)|time\.sleep|time\.tzset|glob\.\w+|decimal\.(setcontext|getcontext\(\)\.\w+))$")
PATH_METHODS = {"mkdir", "write_text", "read_text", "write_bytes", "read_bytes", "touch", "unlink", "rmdir", "iterdir",
                "glob", "rglob", "rename", "symlink_to", "chmod"}
PATH_CHECKED = {"open", "exists", "is_file", "is_dir", "stat", "resolve"}
STATE_TARGETS = re.compile(r"^(os\.environ|sys\.\w+|warnings\.\w+|logging\.\w+|socket\.\w+|json\.\w+|dataclasses\.\w+|"
                           r"copy\.\w+|builtins\.\w+|locale\.\w+|typing\.\w+)")


class LoadError(Exception):
    def __init__(self, msg, where, kind="ImportError"):
        super().__init__(msg)
        self.msg, self.where, self.kind = msg, where, kind


class Result:
    def __init__(self):
        self.errors, self.unclear, self.external, self.effects = [], [], [], []
        self.sim = None


class ImportModel:
    def __init__(self, E):
        self.E = E
        self.pkg = E.PKG
        self.trees = {}
        self.cache = {}
        self._alias = {}

    # ---------------------------------------------------------------- files
    def tree(self, mod):
        """(tree, path, is_pkg) or None"""
        if mod in self.trees:
            return self.trees[mod]
        r = None
        m = self.E.modules.get(mod)
        if m is not None:
            r = (m["tree"], m["path"], m["is_pkg"])
        elif mod.split(".")[0] == self.pkg:
            base = os.path.join(*mod.split("."))
            for rel, isp in ((base + ".py", False), (os.path.join(base, "__init__.py"), True)):
                src = self.E.overlay.get(rel)
                p = os.path.join(self.E.root, rel)
                if src is None and os.path.exists(p):
                    with open(p, encoding="utf-8") as f:
                        src = f.read()
                if src is not None:
                    try:
                        r = (ast.parse(src, rel), rel, isp)
                    except SyntaxError:
                        r = None
                    break
            else:
                if os.path.isdir(os.path.join(self.E.root, base)):
                    r = (ast.Module([], []), base, True)      # namespace package
        self.trees[mod] = r
        return r

    def exists(self, mod):
        return self.tree(mod) is not None

    def base_of(self, mod, node):
        if not node.level:
            return node.module or ""
        t = self.tree(mod)
        parts = mod.split(".")
        if not t[2]:
            parts = parts[:-1]
        up = node.level - 1
        if up:
            parts = parts[:-up]
        return ".".join(parts + ([node.module] if node.module else []))

    # ---------------------------------------------------------------- names
    def alias_table(self, mod):
        if mod in self._alias:
            return self._alias[mod]
        t = self.tree(mod)
        out, assigned = {}, set()
        if t:
            for n in ast.walk(t[0]):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom):
                    b = self.base_of(mod, n)
                    for a in n.names:
                        out[a.asname or a.name] = b + "." + a.name
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    assigned.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    assigned.add(n.name)
                elif isinstance(n, ast.arg):
                    assigned.add(n.arg)
        out["\0assigned"] = assigned
        self._alias[mod] = out
        return out

    def dotted(self, n, names):
        if isinstance(n, ast.Name):
            if n.id in names:
                return names[n.id]
            if n.id in BUILTINS and n.id not in names["\0assigned"]:
                return "builtins." + n.id
            return None
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value, names)
            return b + "." + n.attr if b else None
        if isinstance(n, ast.Call):
            b = self.dotted(n.func, names)
            return b + "()" if b else None
        return None

    # ---------------------------------------------------------------- entry points
    def first_import(self, mod):
        if mod in self.cache:
            return self.cache[mod]
        res = Result()
        sim = Sim(self, res)
        res.sim = sim
        try:
            sim.import_mod(mod, (self.tree(mod)[1], 1, "<module>"))
        except LoadError as e:
            res.errors.append((f"importing {mod} first fails: {e.msg}", e.where))
        self.cache[mod] = res
        return res

    def function_imports(self, mod):
        """(import node, qualname, soft) for imports inside functions of mod."""
        t = self.tree(mod)

        def walk(body, qual, infn, soft):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield from walk(n.body, qual + n.name + ".", True, soft)
                elif isinstance(n, ast.ClassDef):
                    yield from walk(n.body, qual + n.name + ".", infn, soft)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    if infn:
                        yield n, qual[:-1], soft
                elif isinstance(n, ast.If):
                    if not is_type_checking(n.test):
                        yield from walk(n.body, qual, infn, soft)
                    yield from walk(n.orelse, qual, infn, soft)
                elif isinstance(n, ast.Try):
                    s = soft or any(catches(h, IMPORT_ERRORS) for h in n.handlers)
                    yield from walk(n.body, qual, infn, s)
                    for h in n.handlers:
                        yield from walk(h.body, qual, infn, soft)
                    yield from walk(n.orelse + n.finalbody, qual, infn, soft)
                elif isinstance(n, (ast.For, ast.While, ast.With, ast.AsyncFor, ast.AsyncWith)):
                    yield from walk(n.body + getattr(n, "orelse", []), qual, infn, soft)
        yield from walk(t[0].body, "", False, False)

    def deferred(self, mod):
        path = self.tree(mod)[1]
        for n, q, soft in self.function_imports(mod):
            wh = (path, n.lineno, q)
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] != self.pkg:
                        yield a.name, wh, soft
            else:
                b = self.base_of(mod, n)
                if b.split(".")[0] != self.pkg and b:
                    yield b, wh, soft

    def deferred_errors(self, mod):
        base = self.first_import(mod)
        if base.errors:
            return
        path = self.tree(mod)[1]
        for n, q, soft in self.function_imports(mod):
            if soft:
                continue
            res = Result()
            sim = Sim(self, res)
            try:
                sim.import_mod(mod, (path, 1, "<module>"))
                sim.stmt(n, mod, [set()], (path, n.lineno, q))
            except LoadError as e:
                yield f"the import inside {q} fails: {e.msg}", (path, n.lineno, q)


def is_type_checking(t):
    return isinstance(t, ast.Name) and t.id == "TYPE_CHECKING" or isinstance(t, ast.Attribute) and t.attr == "TYPE_CHECKING"


def outcomes(t):
    """What a test about the running Python may give on the supported versions; empty: nothing known."""
    if is_type_checking(t):
        return {False}
    if isinstance(t, ast.Constant):
        return {bool(t.value)}
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return {not b for b in outcomes(t.operand)}
    if isinstance(t, ast.BoolOp):
        parts = [outcomes(v) for v in t.values]
        if not all(parts):
            return set()
        stop = isinstance(t.op, ast.Or)
        if any(p == {stop} for p in parts):
            return {stop}
        return {stop for p in parts if stop in p} | ({not stop} if all(not stop in p for p in parts) else set())
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "hasattr" and len(t.args) == 2 and \
            isinstance(t.args[0], ast.Name) and t.args[0].id in ("T", "typing", "builtins", "sys", "enum", "dataclasses",
                                                                 "datetime", "functools", "itertools"):
        return {True, False}
    return set()


def catches(h, names):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any((x.id if isinstance(x, ast.Name) else getattr(x, "attr", "")) in names for x in ts)


class Sim:
    def __init__(self, M, res):
        self.M, self.res = M, res
        self.ns = {}          # module -> {name: ("mod", x) | ("def", node, mod) | ("other",)}
        self.done = set()
        self.calls = []
        self.soft = 0

    # ---------------------------------------------------------------- modules
    def import_mod(self, name, where):
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            m = ".".join(parts[:i])
            if m not in self.ns:
                self.load(m, where)
                if i > 1:
                    self.ns[".".join(parts[:i - 1])].setdefault(parts[i - 1], ("mod", m))

    def load(self, m, where):
        t = self.M.tree(m)
        if t is None:
            raise LoadError(f"there is no module {m}", where, "ModuleNotFoundError")
        ns = self.ns[m] = {}
        try:
            for s in t[0].body:
                self.stmt(s, m, [ns], None)
        except LoadError:
            self.ns.pop(m, None)
            raise
        self.done.add(m)

    # ---------------------------------------------------------------- statements
    def wh(self, m, n, q=None):
        return (self.M.tree(m)[1], getattr(n, "lineno", 1), q or "<module>")

    def bind(self, scopes, name, v=("other",)):
        if isinstance(scopes[-1], set):
            scopes[-1].add(name)
        else:
            scopes[-1][name] = v

    def stmt(self, s, m, scopes, where):
        M = self.M
        w = where or self.wh(m, s)
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name.split(".")[0] == M.pkg:
                    self.import_mod(a.name, w)
                    self.bind(scopes, a.asname or a.name.split(".")[0],
                              ("mod", a.name if a.asname else a.name.split(".")[0]))
                else:
                    self.res.external.append((a.name, w, self.soft > 0))
                    self.bind(scopes, a.asname or a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            self.import_from(s, m, scopes, w)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(d, m, scopes)
            a = s.args
            for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
                self.expr(d, m, scopes)
            if not self.future(m):
                for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    if x.annotation is not None:
                        self.expr(x.annotation, m, scopes)
                if s.returns is not None:
                    self.expr(s.returns, m, scopes)
            self.bind(scopes, s.name, ("def", s, m))
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.expr(d, m, scopes)
            inner = {}
            for b in s.body:
                self.stmt(b, m, scopes + [inner], None)
            self.bind(scopes, s.name, ("def", s, m))
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is not None:
                self.expr(s.value, m, scopes)
            if isinstance(s, ast.AnnAssign) and not self.future(m):
                self.expr(s.annotation, m, scopes)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(s, ast.AnnAssign) and s.value is None:
                    continue
                self.target(t, m, scopes, s)
        elif isinstance(s, ast.If):
            if is_type_checking(s.test):
                self.body(s.orelse, m, scopes)
            elif isinstance(s.test, ast.Constant):
                self.body(s.body if s.test.value else s.orelse, m, scopes)
            elif self.is_main(s.test):
                self.body(s.orelse, m, scopes)
            else:
                self.expr(s.test, m, scopes)
                may = outcomes(s.test)
                for br, b in ((s.body, True), (s.orelse, False)):
                    if may and b not in may:
                        continue
                    self.soft += not may
                    try:
                        self.body(br, m, scopes)
                    except LoadError as e:
                        self.res.unclear.append((e.msg, e.where))
                    finally:
                        self.soft -= not may
        elif isinstance(s, ast.Try):
            hs = [h for h in s.handlers if catches(h, IMPORT_ERRORS | {"NameError", "AttributeError"})]
            guard = any(catches(h, IMPORT_ERRORS) for h in s.handlers)
            if guard:
                self.soft += 1
            n0 = len(self.res.external)
            failed = None
            try:
                self.body(s.body, m, scopes)
            except LoadError as e:
                if not any(catches(h, IMPORT_ERRORS | {e.kind}) for h in s.handlers):
                    raise
                failed = e
            finally:
                if guard:
                    self.soft -= 1
            if failed is not None or (guard and len(self.res.external) > n0):
                for h in hs:
                    if h.name:
                        self.bind(scopes, h.name)
                    self.body(h.body, m, scopes)
            if failed is None:
                self.body(s.orelse, m, scopes)
            self.body(s.finalbody, m, scopes)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, m, scopes)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, m, scopes, s)
            self.body(s.body, m, scopes)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, m, scopes)
            self.target(s.target, m, scopes, s)
            self.body(s.body, m, scopes)
            self.body(s.orelse, m, scopes)
        elif isinstance(s, ast.While):
            self.expr(s.test, m, scopes)
            self.body(s.body, m, scopes)
        elif isinstance(s, ast.Expr):
            self.expr(s.value, m, scopes)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name) and isinstance(scopes[-1], dict):
                    scopes[-1].pop(t.id, None)
        elif isinstance(s, ast.Match):
            self.expr(s.subject, m, scopes)
            for c in s.cases:
                self.body(c.body, m, scopes)
        elif isinstance(s, ast.Assert):
            self.expr(s.test, m, scopes)
        elif isinstance(s, ast.Raise):
            raise LoadError("the module raises an error", self.wh(m, s), "Exception")

    def body(self, b, m, scopes):
        for s in b:
            self.stmt(s, m, scopes, None)

    def is_main(self, t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"

    def future(self, m):
        t = self.M.tree(m)[0]
        return any(isinstance(x, ast.ImportFrom) and x.module == "__future__" and
                   any(a.name == "annotations" for a in x.names) for x in t.body)

    def target(self, t, m, scopes, s):
        if isinstance(t, ast.Name):
            v = ("other",)
            val = getattr(s, "value", None)
            if isinstance(val, ast.Name):
                v = self.lookup(val.id, m, scopes) or v
            self.bind(scopes, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, m, scopes, s)
        elif isinstance(t, ast.Starred):
            self.target(t.value, m, scopes, s)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            b = t.value
            self.expr(b, m, scopes)
            d = self.M.dotted(b if isinstance(t, ast.Subscript) else t, self.M.alias_table(m))
            if d and STATE_TARGETS.match(d):
                self.res.effects.append((f"changes {d}", self.wh(m, t)))
            if isinstance(b, ast.Name) and isinstance(t, ast.Attribute):
                v = self.lookup(b.id, m, scopes)
                if v and v[0] == "mod":
                    self.ns.get(v[1], {})[t.attr] = ("other",)

    def import_from(self, s, m, scopes, w):
        M = self.M
        if s.module == "__future__" and not s.level:
            return
        base = M.base_of(m, s)
        if base.split(".")[0] != M.pkg:
            self.res.external.append((base, w, self.soft > 0))
            for a in s.names:
                self.bind(scopes, a.asname or a.name)
            return
        self.import_mod(base, w)
        ns = self.ns[base]
        for a in s.names:
            if a.name == "*":
                for k, v in list(ns.items()):
                    if not k.startswith("_"):
                        self.bind(scopes, k, v)
                continue
            if a.name in ns:
                self.bind(scopes, a.asname or a.name, ns[a.name])
                continue
            full = base + "." + a.name
            if M.exists(full):
                self.import_mod(full, w)
                ns.setdefault(a.name, ("mod", full))
                self.bind(scopes, a.asname or a.name, ("mod", full))
                continue
            if "__getattr__" in ns:
                self.bind(scopes, a.asname or a.name)
                continue
            why = "it is only partly initialised at this point (circular import)" if base not in self.done \
                else f"{base} does not define it"
            raise LoadError(f"cannot import {a.name!r} from {base}: {why}", w)

    # ---------------------------------------------------------------- expressions
    def lookup(self, name, m, scopes):
        for sc in reversed(scopes):
            if isinstance(sc, set):
                if name in sc:
                    return ("other",)
            elif name in sc:
                return sc[name]
        g = self.ns.get(m, {})
        return g.get(name)

    def expr(self, e, m, scopes):
        M = self.M
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                self.expr(d, m, scopes)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = scopes + [set()]
            for g in e.generators:
                self.expr(g.iter, m, inner)
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        inner[-1].add(x.id)
                for c in g.ifs:
                    self.expr(c, m, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, m, inner)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and self.lookup(e.id, m, scopes) is None and e.id not in BUILTINS:
                raise LoadError(f"name {e.id!r} is not defined at this point", self.wh(m, e), "NameError")
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, m, scopes)
            self.bind(scopes, e.target.id)
            return
        if isinstance(e, ast.Attribute):
            self.expr(e.value, m, scopes)
            v = self.resolve(e.value, m, scopes)
            if v and v[0] == "mod" and v[1].split(".")[0] == M.pkg and v[1] in self.ns:
                if e.attr not in self.ns[v[1]] and e.attr not in BUILTINS and "__getattr__" not in self.ns[v[1]]:
                    raise LoadError(f"{v[1]} has no attribute {e.attr!r} at this point", self.wh(m, e), "AttributeError")
            return
        if isinstance(e, ast.Call):
            self.expr(e.func, m, scopes)
            for a in e.args + [k.value for k in e.keywords]:
                self.expr(a.value if isinstance(a, ast.Starred) else a, m, scopes)
            self.call(e, m, scopes)
            return
        if isinstance(e, ast.IfExp) or isinstance(e, ast.BoolOp):
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.expr(c, m, scopes)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, m, scopes)
            elif isinstance(c, (ast.keyword, ast.FormattedValue)):
                self.expr(c.value, m, scopes)

    def resolve(self, e, m, scopes):
        if isinstance(e, ast.Name):
            return self.lookup(e.id, m, scopes)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, m, scopes)
            if b and b[0] == "mod":
                return self.ns.get(b[1], {}).get(e.attr)
        return None

    def call(self, e, m, scopes):
        M = self.M
        names = M.alias_table(m)
        d = M.dotted(e.func, names)
        w = self.wh(m, e)
        if d and EFFECT.match(d):
            self.res.effects.append((f"calls {d}", w))
        if isinstance(e.func, ast.Attribute):
            a = e.func.attr
            if a in PATH_METHODS and not (d or "").startswith(M.pkg):
                self.res.effects.append((f"touches the file system ({a})", w))
            if a == "open":
                self.res.effects.append(("opens a file", w)) if not (d and EFFECT.match(d)) else None
            if a == "addHandler" and e.args and "NullHandler" not in ast.unparse(e.args[0]):
                self.res.effects.append(("installs a logging handler", w))
            if a == "setLevel" and re.search(r"getLogger\(\)\.setLevel$", d or "") and self.root_logger(e.func.value):
                self.res.effects.append(("changes the root logger", w))
            if a == "start" and "Thread" in (d or ""):
                self.res.effects.append(("starts a thread", w))
        if d == "importlib.import_module" or d == "builtins.__import__":
            if e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
                n = e.args[0].value
                if n.startswith("."):
                    self.res.unclear.append(("relative dynamic import", w))
                elif n.split(".")[0] == M.pkg:
                    self.import_mod(n, w)
                else:
                    self.res.external.append((n, w, self.soft > 0))
            else:
                self.res.unclear.append(("dynamic import", w))
        v = self.resolve(e.func, m, scopes)
        if v and v[0] == "def":
            self.enter(v[1], v[2])

    def root_logger(self, recv):
        return isinstance(recv, ast.Call) and not recv.args and not recv.keywords

    def enter(self, node, m):
        """A package function or class called while importing: follow its imports and effects."""
        key = (m, node.name, node.lineno)
        if key in self.calls or len(self.calls) > 40:
            return
        self.calls.append(key)
        fns = [node]
        if isinstance(node, ast.ClassDef):
            fns = [b for b in node.body if isinstance(b, ast.FunctionDef) and b.name in
                   ("__init__", "__post_init__", "__new__", "__call__")]
        for f in fns:
            inner = set(x.arg for x in ast.walk(f.args) if isinstance(x, ast.arg))
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    inner.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f:
                    inner.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    inner.add(x.name)
            scopes = [inner]
            for x in f.body:
                try:
                    self.run_in(x, m, scopes)
                except LoadError as err:
                    if err.kind in ("ImportError", "ModuleNotFoundError"):
                        raise
                    self.res.unclear.append((err.msg, err.where))

    def run_in(self, s, m, scopes):
        if isinstance(s, (ast.Return, ast.Raise)):
            v = getattr(s, "value", None) or getattr(s, "exc", None)
            if v is not None and isinstance(s, ast.Return):
                self.expr(v, m, scopes)
            return
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return
        if isinstance(s, ast.If) and any(isinstance(b, ast.Raise) for b in s.body):
            self.expr(s.test, m, scopes)
            for b in s.orelse:
                self.run_in(b, m, scopes)
            return
        self.stmt(s, m, scopes, None)
