"""Library names and syntax newer than the oldest supported Python, or gone in newer ones."""
from __future__ import annotations

import ast
import io
import tokenize

# name -> first version that has it
NEW = {
    (3, 10): {"typing.ParamSpec", "typing.Concatenate", "typing.TypeAlias", "typing.TypeGuard", "itertools.pairwise",
              "dataclasses.KW_ONLY", "types.NoneType", "types.EllipsisType", "types.UnionType", "builtins.aiter",
              "builtins.anext", "contextlib.aclosing", "contextlib.nullcontext.__aenter__", "bisect.bisect.key",
              "builtins.EncodingWarning"},
    (3, 11): {"tomllib", "typing.Self", "typing.Never", "typing.LiteralString", "typing.NotRequired", "typing.Required",
              "typing.assert_never", "typing.assert_type", "typing.reveal_type", "typing.Unpack", "typing.TypeVarTuple",
              "typing.dataclass_transform", "typing.get_overloads", "typing.clear_overloads", "enum.StrEnum",
              "enum.ReprEnum", "enum.verify", "enum.EnumCheck", "enum.member", "enum.nonmember", "enum.property",
              "enum.global_enum", "enum.FlagBoundary", "enum.CONTINUOUS", "enum.UNIQUE", "datetime.UTC",
              "hashlib.file_digest", "contextlib.chdir", "operator.call", "math.cbrt", "math.exp2",
              "logging.getLevelNamesMapping", "re.NOFLAG", "re.RegexFlag.NOFLAG", "asyncio.TaskGroup", "asyncio.timeout",
              "asyncio.Runner", "builtins.ExceptionGroup", "builtins.BaseExceptionGroup", "inspect.getmembers_static",
              "inspect.ismethodwrapper", "string.Template.is_valid", "wsgiref.types", "sys.exception",
              "functools.singledispatch.union", "types.get_original_bases_"},
    (3, 12): {"typing.override", "typing.TypeAliasType", "itertools.batched", "collections.abc.Buffer",
              "types.get_original_bases", "calendar.Month", "calendar.Day", "calendar.JANUARY_", "math.sumprod",
              "pathlib.Path.walk", "pathlib.UnsupportedOperation_", "inspect.markcoroutinefunction",
              "inspect.getasyncgenstate", "sys.monitoring", "sys.activate_stack_trampoline", "random.binomialvariate",
              "os.process_cpu_count_", "logging.getHandlerByName", "logging.getHandlerNames"},
    (3, 13): {"typing.ReadOnly", "typing.TypeIs", "typing.NoDefault", "typing.get_protocol_members", "typing.is_protocol",
              "warnings.deprecated", "copy.replace", "os.process_cpu_count", "queue.ShutDown",
              "pathlib.UnsupportedOperation", "builtins.PythonFinalizationError", "random.cli"},
    (3, 14): {"annotationlib", "concurrent.interpreters", "compression", "string.templatelib", "builtins.PythonFinalizationError_"},
}
# modules that a supported newer version no longer has
REMOVED = {"distutils": (3, 12), "imp": (3, 12), "asynchat": (3, 12), "asyncore": (3, 12), "smtpd": (3, 12),
           "cgi": (3, 13), "cgitb": (3, 13), "chunk": (3, 13), "crypt": (3, 13), "imghdr": (3, 13), "mailcap": (3, 13),
           "msilib": (3, 13), "nis": (3, 13), "nntplib": (3, 13), "ossaudiodev": (3, 13), "pipes": (3, 13),
           "sndhdr": (3, 13), "spwd": (3, 13), "sunau": (3, 13), "telnetlib": (3, 13), "uu": (3, 13), "xdrlib": (3, 13),
           "lib2to3": (3, 13), "aifc": (3, 13), "audioop": (3, 13), "typing.io": (3, 13), "typing.re": (3, 13)}
# keyword arguments that came late:  call -> {keyword: version}
NEW_KW = {"builtins.zip": {"strict": (3, 10)}, "dataclasses.dataclass": {"kw_only": (3, 10), "slots": (3, 10), "match_args": (3, 10),
                                                                     "weakref_slot": (3, 11)},
          "dataclasses.field": {"kw_only": (3, 10), "doc": (3, 14)}, "builtins.map": {"strict": (3, 14)},
          "itertools.batched": {"strict": (3, 13)}, "textwrap.indent": {}, "re.sub": {}}


def problems(src, tree, minpy, names, M):
    out = []
    v = f"{minpy[0]}.{minpy[1]}"
    try:
        ast.parse(src, feature_version=minpy)
    except SyntaxError as e:
        out.append((f"syntax that Python {v} does not have ({e.msg})", e.lineno or 1))
    bad = {n: ver for ver, ns in NEW.items() if ver > minpy for n in ns}
    skip = guarded_lines(tree)
    for n in ast.walk(tree):
        if getattr(n, "lineno", None) in skip:
            continue
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name in bad:
                    out.append((f"{a.name} needs Python {ver(bad[a.name])}", n.lineno))
                if a.name.split(".")[0] in REMOVED:
                    out.append((f"{a.name} is gone since Python {ver(REMOVED[a.name.split('.')[0]])}", n.lineno))
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            if n.module in bad:
                out.append((f"{n.module} needs Python {ver(bad[n.module])}", n.lineno))
            if n.module.split(".")[0] in REMOVED:
                out.append((f"{n.module} is gone since Python {ver(REMOVED[n.module.split('.')[0]])}", n.lineno))
            for a in n.names:
                d = n.module + "." + a.name
                if d in bad:
                    out.append((f"{d} needs Python {ver(bad[d])}", n.lineno))
        elif isinstance(n, ast.Attribute):
            d = M.dotted(n, names)
            if d in bad:
                out.append((f"{d} needs Python {ver(bad[d])}", n.lineno))
        elif isinstance(n, ast.Name):
            if "builtins." + n.id in bad and M.dotted(n, names) == "builtins." + n.id:
                out.append((f"{n.id} needs Python {ver(bad['builtins.' + n.id])}", n.lineno))
        elif isinstance(n, ast.Call):
            d = M.dotted(n.func, names)
            for k in n.keywords:
                need = NEW_KW.get(d, {}).get(k.arg)
                if need and need > minpy:
                    out.append((f"{d}({k.arg}=…) needs Python {ver(need)}", n.lineno))
    if minpy < (3, 12):
        out += fstrings(src, v)
    return out


def guarded_lines(tree):
    """Lines inside TYPE_CHECKING blocks, version tests and ImportError guards."""
    out = set()
    for n in ast.walk(tree):
        g = []
        if isinstance(n, ast.If):
            txt = ast.unparse(n.test)
            if "TYPE_CHECKING" in txt or "version_info" in txt or "hasattr" in txt:
                g = n.body + n.orelse
        elif isinstance(n, ast.Try) and any(h.type is None or any(
                k in ast.unparse(h.type) for k in ("ImportError", "ModuleNotFoundError", "AttributeError", "Exception"))
                for h in n.handlers):
            g = n.body
        for x in g:
            for y in ast.walk(x):
                if hasattr(y, "lineno"):
                    out.add(y.lineno)
    return out


def ver(t):
    return f"{t[0]}.{t[1]}"


def fstrings(src, v):
    """Replacement fields that older tokenizers reject: the enclosing quote, a backslash or a comment inside."""
    out = []
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except (tokenize.TokenError, SyntaxError, IndentationError):
        return out
    FS, FE, FM = (getattr(tokenize, n, None) for n in ("FSTRING_START", "FSTRING_END", "FSTRING_MIDDLE"))
    if FS is None:
        return out
    stack = []
    for t in toks:
        if t.type == FS:
            q = t.string.lstrip("fFrRbBuU")
            if stack and q[:1] == stack[-1][:1] and len(stack[-1]) == len(q) or stack and len(stack[-1]) == 1 and q[:1] == stack[-1]:
                out.append((f"an f-string reuses its own quotes inside, which Python {v} rejects", t.start[0]))
            stack.append(q)
        elif t.type == FE:
            if stack:
                stack.pop()
        elif stack and t.type == tokenize.STRING:
            if any(x in t.string for x in stack):
                out.append((f"an f-string reuses its own quotes inside, which Python {v} rejects", t.start[0]))
            elif "\\" in t.string:
                out.append((f"an f-string expression contains a backslash, which Python {v} rejects", t.start[0]))
        elif t.type == FM and any(x in t.string for x in stack[:-1]):
            out.append((f"an f-string reuses its own quotes inside, which Python {v} rejects", t.start[0]))
        elif stack and t.type == tokenize.COMMENT:
            out.append((f"an f-string expression contains a comment, which Python {v} rejects", t.start[0]))
    return out
