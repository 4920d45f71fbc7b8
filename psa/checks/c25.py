"""C25: no I/O, no blocking, no evaluation of data: an effect scan of every reference to something outside the package."""
import ast
import os

META = {
    "level": "other",
    "technique": "effect analysis: every reference of the package to a builtin or a module outside of it is resolved (imports, aliases, constant getattr/import_module, names re-exported between modules) and checked against an audited effect table",
    "explanation": "All modules of the package are parsed on every run. Every name and attribute chain that resolves to something outside the package is an obligation: it has to be in the table of names without effect on the outside, or one of the permitted sources (system random source, clock, "
                   "user and host name, process and thread id, on Windows the data protection API). Calls that wait (get/join/acquire/wait without arguments, with on the lock of a queue) and dynamic imports or attribute lookups on outside modules are obligations too. References in "
                   "functions nothing refers to and in 'if __name__ == __main__' blocks are not reachable from a public operation and are skipped. What the allowed library functions do inside is taken from the table, not analysed.",
    "rules": ["import", "reference", "builtin", "wait"],
}

# modules whose names have no effect outside the process, apart from those in DENY
PURE = set("""__future__ abc array ast base64 binascii bisect calendar cmath codecs collections colorsys contextlib contextvars copy copyreg csv dataclasses datetime decimal difflib encodings enum errno
fnmatch fractions functools graphlib hashlib heapq hmac html inspect io ipaddress itertools json keyword logging math numbers operator pprint queue quopri random re reprlib secrets statistics
string stringprep struct textwrap time token tokenize traceback types typing typing_extensions unicodedata uuid warnings weakref xml xml.dom xml.dom.minidom xml.etree xml.etree.ElementTree xml.parsers xml.parsers.expat
xml.sax xml.sax.saxutils zlib zoneinfo posixpath ntpath cryptography opcode stat this""".split())
DENY = {
    "io": {"open", "open_code", "FileIO", "TextIOWrapper", "OpenWrapper"},
    "codecs": {"open", "EncodedFile"},
    "time": {"sleep", "tzset", "clock_settime"},
    "uuid": {"uuid1", "getnode", "main"},
    "logging": {"FileHandler", "StreamHandler", "basicConfig", "handlers", "config", "lastResort"},
    "inspect": {"getsource", "getsourcelines", "getsourcefile", "getfile", "findsource", "stack", "currentframe", "getcomments", "getmodule"},
    "xml.etree.ElementTree": {"parse", "iterparse", "dump"},
    "xml.dom.minidom": {"parse"},
    "xml.sax": {"parse"},
    "zoneinfo": {"ZoneInfo"},
    "pprint": {"pprint", "pp"},
    "traceback": {"print_exc", "print_exception", "print_stack", "print_last", "print_tb", "print_list"},
    "ast": {"main"},
    "queue": set(),
    "copyreg": set(),
    "random": set(),
    "contextlib": {"redirect_stdout", "redirect_stderr", "redirect_stdin", "chdir"},
    "posixpath": {"exists", "lexists", "isfile", "isdir", "islink", "ismount", "realpath", "abspath", "expanduser", "expandvars", "getsize", "getmtime", "getatime", "getctime", "samefile", "sameopenfile", "relpath", "isjunction", "os", "genericpath"},
    "hashlib": {"file_digest"},
}
DENY["ntpath"] = DENY["posixpath"]
# modules of which only these names are free of effects or permitted sources
SOME = {
    "os": {"urandom", "getpid", "getppid", "getrandom", "fspath", "fsencode", "fsdecode", "PathLike", "name", "sep", "altsep", "linesep", "pathsep", "curdir", "pardir", "extsep", "devnull", "strerror", "path", "getlogin"},
    "sys": {"platform", "version_info", "version", "hexversion", "maxsize", "maxunicode", "byteorder", "implementation", "float_info", "int_info", "hash_info", "getsizeof", "intern", "exc_info", "getrecursionlimit", "getrefcount", "getdefaultencoding", "getfilesystemencoding", "exception", "is_finalizing"},
    "platform": {"node", "system", "machine", "release", "python_version", "python_implementation", "python_version_tuple", "version"},
    "getpass": {"getuser"},
    "socket": {"gethostname"},
    "threading": {"get_ident", "get_native_id", "current_thread", "main_thread", "local"},
    "pathlib": {"PurePath", "PurePosixPath", "PureWindowsPath"},
    "locale": {"getlocale", "localeconv", "getpreferredencoding", "getencoding"},
    "asyncio": set(),
    "importlib": set(),
    "gc": {"get_referrers", "is_tracked", "isenabled"},
    "ctypes": {"POINTER", "Structure", "Union", "byref", "sizeof", "addressof", "cast", "pointer", "create_string_buffer", "create_unicode_buffer", "string_at", "wstring_at", "memset", "memmove", "WinError", "get_last_error", "FormatError", "wintypes", "WINFUNCTYPE",
               "Array", "alignment", "set_last_error", "resize", "windll.crypt32", "windll.kernel32", "WinDLL"},
    "pickle": set(), "marshal": set(), "shelve": set(),
}
PATHS = {"join", "basename", "dirname", "split", "splitext", "splitdrive", "splitroot", "normpath", "normcase", "isabs", "commonprefix", "commonpath", "sep", "altsep", "curdir", "pardir", "extsep", "pathsep"}
BUILTINS = {
    "open": "opens a file", "input": "reads the console", "print": "writes to the console", "eval": "evaluates data", "exec": "evaluates data", "compile": "compiles data", "__import__": "imports a module",
    "breakpoint": "stops in the debugger", "exit": "ends the process", "quit": "ends the process", "help": "reads the console", "__builtins__": "reaches every builtin", "__loader__": "loads modules", "__spec__": None, "copyright": None,
}
TYPES = {"queue.Queue", "queue.LifoQueue", "queue.PriorityQueue", "queue.SimpleQueue"}
WAITS = {"acquire": "waits on a lock", "wait": "waits", "join": "waits", "recv": "reads from a connection", "accept": "waits for a connection"}


def dotted(expr, scopes):
    """The outside name an expression denotes, or None."""
    if isinstance(expr, ast.Name):
        for s in reversed(scopes):
            if expr.id in s:
                return s[expr.id]
        return "builtins." + expr.id
    if isinstance(expr, ast.Attribute):
        b = dotted(expr.value, scopes)
        return b and b + "." + expr.attr
    if isinstance(expr, ast.Call) and expr.args:
        f = dotted(expr.func, scopes)
        a = [x.value if isinstance(x, ast.Constant) else None for x in expr.args]
        if f in ("importlib.import_module", "builtins.__import__", "importlib.__import__") and isinstance(a[0], str):
            return a[0]
        if f == "builtins.getattr" and len(a) > 1 and isinstance(a[1], str):
            b = dotted(expr.args[0], scopes)
            return b and b + "." + a[1]
    if isinstance(expr, ast.Subscript):
        if dotted(expr.value, scopes) == "sys.modules" and isinstance(expr.slice, ast.Constant):
            return expr.slice.value
    return None


def verdict(name):
    """None when the outside name is harmless, else why it is not."""
    parts = name.split(".")
    if parts[0] == "builtins":
        if len(parts) == 1:
            return None
        why = BUILTINS.get(parts[1])
        return why and f"{parts[1]} {why}"
    for i in range(len(parts), 0, -1):
        m, rest = ".".join(parts[:i]), parts[i:]
        if m in ("os.path", "posixpath", "ntpath"):
            if not rest or rest[0] in PATHS:
                return None
            return f"{name} looks at the file system"
        if m in SOME:
            if not rest:
                return None
            if rest[0] == "path" and m == "os":
                return None
            if rest[0] in SOME[m] or ".".join(rest[:2]) in SOME[m]:
                return None
            if m == "ctypes" and (rest[0].startswith("c_") or rest[0] in ("windll", "py_object", "HRESULT", "LibraryLoader") and len(rest) == 1):
                return None
            return f"{name} is not one of the permitted uses of {m}"
        if m in PURE:
            if rest and rest[0] in DENY.get(m, ()):
                return f"{name} has an effect outside of the process or on the caller"
            return None
    return f"{parts[0]} is not one of the audited modules without I/O"


class Scan(ast.NodeVisitor):
    def __init__(self, chk, mod, package, exports):
        self.chk, self.mod, self.package, self.exports = chk, mod, package, exports
        self.scopes = [{}]
        self.fn = []
        self.rows = []      # (function stack names, rule, node, name, why)
        self.names = []     # (function stack, identifier)

    # -------------------------------------------------------------- scopes
    def bind_import(self, node, scope):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.name.split(".")[0] == self.package:
                    scope[a.asname or a.name.split(".")[0]] = None
                elif a.asname:
                    scope[a.asname] = a.name
                else:
                    scope[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            inside = node.level or (node.module or "").split(".")[0] == self.package
            src = self.exports.get(self.resolve(node), {}) if inside else None
            for a in node.names:
                if inside:
                    scope[a.asname or a.name] = src.get(a.name) if src else None
                else:
                    scope[a.asname or a.name] = f"{node.module}.{a.name}"

    def resolve(self, node):
        if not node.level:
            return node.module
        base = self.mod.name.split(".")
        if not self.mod.is_pkg:
            base = base[:-1]
        base = base[: len(base) - (node.level - 1)]
        return ".".join(base + ([node.module] if node.module else []))

    def collect(self, body, args=None, outer=()):
        """Names bound in this scope: imports and aliases of outside names keep their meaning, every other binding hides."""
        scope, alias = {}, []
        glob = set()

        def target(t):
            if isinstance(t, ast.Name):
                scope[t.id] = None
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    target(e)
            elif isinstance(t, ast.Starred):
                target(t.value)

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                scope[n.name] = None
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.bind_import(n, scope)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t)
                if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    alias.append((n.targets[0].id, n.value))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                target(n.target)
                if n.value is not None:
                    alias.append((n.target.id, n.value))
            elif isinstance(n, (ast.AugAssign, ast.For, ast.AsyncFor, ast.NamedExpr)):
                target(n.target)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        target(i.optional_vars)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                scope[n.name] = None
            elif isinstance(n, ast.comprehension):
                target(n.target)
            for c in ast.iter_child_nodes(n):
                walk(c)
        if args is not None:
            for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
                scope[a.arg] = None
        for n in body:
            walk(n)
        for g in glob:
            scope.pop(g, None)
        for n, v in alias:
            if isinstance(v, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                d = dotted(v, list(outer) + [scope])
                if d and d != "builtins." + n:
                    scope[n] = d
        return scope

    # -------------------------------------------------------------- visiting
    def row(self, rule, node, name, why):
        self.rows.append((tuple(self.fn), rule, node, name, why))

    def function(self, node):
        for d in getattr(node, "decorator_list", []):
            self.visit(d)
        a = node.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            self.visit(d)
        body = node.body if isinstance(node.body, list) else [node.body]
        self.scopes.append(self.collect(body, a, [s for s in self.scopes if not s.get("\0class")]))
        self.fn.append((getattr(node, "name", None), id(node)))
        hidden = [s for s in self.scopes[:-1] if s.get("\0class")]
        keep = self.scopes
        self.scopes = [s for s in self.scopes if s not in hidden]
        for n in body:
            self.visit(n)
        self.scopes = keep
        self.scopes.pop()
        self.fn.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = function

    def visit_ClassDef(self, node):
        for d in node.decorator_list + node.bases + [k.value for k in node.keywords]:
            self.visit(d)
        s = self.collect(node.body, None, self.scopes)
        s["\0class"] = "1"
        self.scopes.append(s)
        self.fn.append((node.name, "class"))
        for n in node.body:
            self.visit(n)
        self.fn.pop()
        self.scopes.pop()

    def visit_If(self, node):
        t = ast.unparse(node.test)
        if "TYPE_CHECKING" in t and "not" not in t or "__name__" in t:
            for n in node.orelse:
                self.visit(n)
            return
        self.generic_visit(node)

    def visit_AnnAssign(self, node):
        self.visit(node.target)
        if node.value is not None:
            self.visit(node.value)

    def visit_arg(self, node):
        pass

    def visit_Import(self, node):
        for a in node.names:
            if a.name.split(".")[0] != self.package:
                self.row("import", node, a.name, verdict(a.name))

    def visit_ImportFrom(self, node):
        if node.level or (node.module or "").split(".")[0] == self.package:
            return
        for a in node.names:
            n = f"{node.module}.{a.name}"
            self.row("import", node, n, verdict(n))

    def outside(self, node):
        d = dotted(node, self.scopes)
        if d is None:
            return False
        if d.startswith("builtins."):
            if d.split(".")[1] not in ALL_BUILTINS:
                return False
            self.row("builtin", node, d[9:], verdict(d))
        else:
            self.row("reference", node, d, verdict(d))
        return True

    def visit_Name(self, node):
        self.names.append((tuple(self.fn), node.id))
        if isinstance(node.ctx, ast.Load):
            self.outside(node)

    def visit_Attribute(self, node):
        self.names.append((tuple(self.fn), node.attr))
        if not self.outside(node):
            self.visit(node.value)
        if node.attr in ("__globals__", "__builtins__", "__subclasses__", "f_globals", "f_back", "f_locals"):
            self.row("reference", node, node.attr, f"{node.attr} reaches names the analysis cannot follow")

    def visit_Subscript(self, node):
        if not (isinstance(node.slice, ast.Constant) and self.outside(node)):
            self.generic_visit(node)

    def visit_Call(self, node):
        f = dotted(node.func, self.scopes)
        const = [isinstance(a, ast.Constant) for a in node.args]
        if f in ("importlib.import_module", "importlib.__import__", "builtins.__import__"):
            d = dotted(node, self.scopes)
            inside = d is not None and d.split(".")[0] == self.package or node.args and isinstance(node.args[0], ast.Constant) and str(node.args[0].value).startswith(".")
            if not inside:
                self.row("import", node, d or f, verdict(d) if d else "imports a module named by data")
            for a in node.args[1:]:
                self.visit(a)
            return
        if f == "builtins.getattr" and len(const) > 1:
            d = dotted(node.args[0], self.scopes)
            if d and not d.startswith("builtins.") and is_module(d):
                if const[1]:
                    self.outside(node)
                else:
                    self.row("reference", node, f"{d}.?", f"looks up a name of {d} chosen at run time")
        if f in ("ctypes.CDLL", "ctypes.cdll.LoadLibrary", "ctypes.PyDLL", "ctypes.WinDLL", "ctypes.windll.LoadLibrary"):
            ok = node.args and isinstance(node.args[0], ast.Constant) and str(node.args[0].value).lower().split(".")[0] in ("crypt32", "kernel32") and "WinDLL" in f
            if not ok:
                self.row("reference", node, f, "loads a library other than the data protection API")
        if f in TYPES and (node.args and not (isinstance(node.args[0], ast.Constant) and node.args[0].value == 0) or node.keywords):
            self.row("wait", node, f, "makes a bounded queue, which blocks when it is full")
        if f in ("types.FunctionType", "types.LambdaType", "types.CodeType"):
            self.row("reference", node, f, "makes code from data")
        if isinstance(node.func, ast.Attribute) and not (f and not f.startswith("builtins.")):
            self.wait(node)
        self.generic_visit(node)

    def wait(self, node):
        m, kw = node.func.attr, {k.arg: k.value for k in node.keywords}
        blocking = kw.get("block", kw.get("blocking"))
        off = isinstance(blocking, ast.Constant) and blocking.value is False or node.args and isinstance(node.args[0], ast.Constant) and node.args[0].value is False
        recv = ast.unparse(node.func.value)
        own = m in self.own
        if m == "get" and not off and not node.args and set(kw) <= {"block", "timeout"} and not own:
            self.row("wait", node, f"{recv}.get()", "waits until the queue has an item")
        elif m in ("get", "put") and "timeout" in kw:
            self.row("wait", node, f"{recv}.{m}()", "waits for the queue")
        elif m in WAITS and not off and not own and (not node.args or m in ("acquire", "wait", "recv")) and not isinstance(node.func.value, ast.Constant):
            self.row("wait", node, f"{recv}.{m}()", WAITS[m])
        elif m in ("read_text", "read_bytes", "write_text", "write_bytes") and not own:
            self.row("wait", node, f"{recv}.{m}()", "reads or writes a file")

    def visit_While(self, node):
        if not any(isinstance(n, (ast.Call, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr, ast.Delete, ast.Return, ast.Raise, ast.Break, ast.Yield, ast.For)) for b in [node.test] + node.body for n in ast.walk(b)):
            self.row("wait", node, f"while {ast.unparse(node.test)}", "waits in a loop that changes nothing")
        self.generic_visit(node)

    def visit_With(self, node):
        for i in node.items:
            e = i.context_expr
            if isinstance(e, ast.Attribute) and e.attr in ("mutex", "not_empty", "not_full", "all_tasks_done"):
                self.row("wait", e, ast.unparse(e), "waits on a lock")
        self.generic_visit(node)


import builtins as _b  # noqa: E402
ALL_BUILTINS = set(dir(_b)) | {"__builtins__", "exit", "quit", "help", "copyright", "credits", "license"}


def is_module(d):
    return d in PURE or d in SOME or d == "os.path" or "." not in d


def check(chk):
    prog = chk.prog
    mods = [m for m in prog.modules.values() if m.name.split(".")[0] == prog.package]
    package = prog.package
    # what each module exports that comes from outside of the package
    exports = {m.name: {} for m in mods}
    for _ in range(4):
        for m in mods:
            s = Scan(chk, m, package, exports)
            exports[m.name] = {k: v for k, v in s.collect(m.tree.body).items() if v and not v.startswith("builtins.")}
    own = set()
    for m in mods:
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                own.add(n.name)
    scans = []
    for m in mods:
        s = Scan(chk, m, package, exports)
        s.own = own
        s.scopes = [s.collect(m.tree.body)]
        for n in m.tree.body:
            s.visit(n)
        scans.append(s)
    # functions some other code refers to by name, or which are part of the public surface
    used = set()
    for s in scans:
        for fn, n in s.names:
            if n not in {f for f, _ in fn}:
                used.add(n)
        for node in ast.walk(s.mod.tree):
            if isinstance(node, ast.Constant) and isinstance(node.value, str) and node.value.isidentifier():
                used.add(node.value)

    def reachable(fn):
        for n, k in fn:
            if n is not None and k != "class" and n.startswith("_") and not n.endswith("__") and n not in used:
                return False
        return True
    calls = 0
    for s in scans:
        path = os.path.relpath(s.mod.path, os.path.dirname(prog.root))
        chk.functions.update((s.mod.name, n.name) for n in ast.walk(s.mod.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)))
        for fn, rule, node, name, why in s.rows:
            if not reachable(fn):
                continue
            calls += 1
            qual = ".".join(n or "<lambda>" for n, _ in fn) or "<module>"
            chk.need(why is None, rule, f"{name} in {s.mod.name}.{qual}", why, f"{path}:{node.lineno} ({qual})")
        chk.ok("import", f"every statement of {path} was looked at")
    chk.paths = calls
