"""pyvc: a deductive verifier for a subset of Python.

The verified text is the real source: every run parses the functions under /repo/src, executes them
symbolically path by path against sidecar contracts (loops through invariants, callees with a contract
through that contract, other repository helpers inlined) and discharges every obligation with z3 / cvc5.
Anything outside the subset raises Undecided, which is never reported as a pass nor as a violation.
"""
from __future__ import annotations
import ast, os, subprocess, tempfile, time, keyword
from dataclasses import dataclass, field
from typing import Any, Optional
import z3

from . import api

REPO_SRC = os.environ.get("PYVC_REPO_SRC", "/repo/src")


class Restart(Exception):
    """a loop changes a field that was not expected: start again"""


class Undecided(Exception):
    pass


class PathEnd(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, cls: str, msg: Any = None):
        super().__init__(cls)
        self.cls = cls
        self.msg = msg


class RetEx(Exception):
    def __init__(self, v: Any):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# ---------------------------------------------------------------- types
@dataclass(frozen=True)
class T:
    k: str
    a: tuple = ()
    n: str = ""

    def __str__(self) -> str:
        if self.a:
            return f"{self.k}[{','.join(map(str, self.a))}]"
        return f"{self.k}:{self.n}" if self.n else self.k


INT, BOOL, STR, ANY, NONE = T("int"), T("bool"), T("str"), T("any"), T("none")


def Opt(t: T) -> T:
    return t if t.k == "opt" else T("opt", (t,))


def ListT(t: T) -> T:
    return T("list", (t,))


def TupT(*ts: T) -> T:
    return T("tup", tuple(ts))


def ObjT(n: str) -> T:
    return T("obj", (), n)


def EnumT(n: str) -> T:
    return T("enum", (), n)


RefSort = z3.DeclareSort("Ref")
AnySort = z3.DeclareSort("Any")
_sorts: dict[T, Any] = {}
_dt: dict[T, Any] = {}


def _mangle(t: T) -> str:
    return str(t).replace("[", "_").replace("]", "_").replace(",", "_").replace(":", "_")


def sort_of(t: T) -> Any:
    if t in _sorts:
        return _sorts[t]
    if t.k == "int" or t.k == "enum":
        s = z3.IntSort()
    elif t.k == "bool":
        s = z3.BoolSort()
    elif t.k == "str":
        s = z3.StringSort()
    elif t.k == "obj":
        s = RefSort
    elif t.k in ("any", "none"):
        s = AnySort
    elif t.k == "list":
        s = z3.SeqSort(sort_of(t.a[0]))
    elif t.k == "set":
        s = z3.ArraySort(sort_of(t.a[0]), z3.BoolSort())
    elif t.k == "map":           # finite or not: the value of each key, if any
        s = z3.ArraySort(sort_of(t.a[0]), sort_of(Opt(t.a[1])))
    elif t.k == "opt":
        d = z3.Datatype("O_" + _mangle(t.a[0]))
        d.declare("none_" + _mangle(t.a[0]))
        d.declare("some_" + _mangle(t.a[0]), ("val_" + _mangle(t.a[0]), sort_of(t.a[0])))
        s = d.create()
        _dt[t] = s
    elif t.k == "tup":
        d = z3.Datatype("T_" + _mangle(t))
        d.declare("mk_" + _mangle(t), *[(f"f{i}_" + _mangle(t), sort_of(x)) for i, x in enumerate(t.a)])
        s = d.create()
        _dt[t] = s
    else:
        raise Undecided(f"no sort for {t}")
    _sorts[t] = s
    return s


def opt_none(t: T) -> Any:
    s = sort_of(t)
    return s.constructor(0)()


def opt_some(t: T, x: Any) -> Any:
    s = sort_of(t)
    return s.constructor(1)(x)


def opt_is_none(t: T, x: Any) -> Any:
    return sort_of(t).recognizer(0)(x)


def opt_val(t: T, x: Any) -> Any:
    return sort_of(t).accessor(1, 0)(x)


def tup_mk(t: T, xs: list) -> Any:
    return sort_of(t).constructor(0)(*xs)


def tup_get(t: T, x: Any, i: int) -> Any:
    return sort_of(t).accessor(0, i)(x)


# ---------------------------------------------------------------- values
class V:
    __slots__ = ("ty", "t")

    def __init__(self, ty: T, t: Any):
        self.ty = ty
        self.t = t

    def __repr__(self) -> str:
        return f"<{self.ty} {self.t}>"


class VO(V):
    """set or dictionary that lives in the field of an object"""
    __slots__ = ("owner",)

    def __init__(self, ty: T, t: Any, owner: tuple):
        super().__init__(ty, t)
        self.owner = owner


class LRef:
    """mutable list: concrete spine (items) or symbolic sequence (v), or living in a heap field (owner)"""

    def __init__(self, items: Optional[list] = None, v: Optional[V] = None, et: Optional[T] = None, owner: Any = None):
        self.items, self.v, self.et, self.owner = items, v, et, owner
        self.frozen = False
        if v is not None:
            self.et = v.ty.a[0]


class EnumVal:
    def __init__(self, cls: str, name: str):
        self.cls, self.name = cls, name

    def __eq__(self, o: Any) -> bool:
        return isinstance(o, EnumVal) and (o.cls, o.name) == (self.cls, self.name)

    def __hash__(self) -> int:
        return hash((self.cls, self.name))

    def __repr__(self) -> str:
        return f"{self.cls}.{self.name}"


class FuncVal:
    def __init__(self, node: Any, mod: "Mod", qual: str, closure: Any = None, cls: Optional[str] = None):
        self.node, self.mod, self.qual, self.closure, self.cls = node, mod, qual, closure, cls


class ClassVal:
    def __init__(self, node: Any, mod: "Mod", name: str):
        self.node, self.mod, self.name = node, mod, name


class ModVal:
    def __init__(self, name: str):
        self.name = name


class ExtVal:
    def __init__(self, name: str):
        self.name = name


class Bound:
    def __init__(self, fn: Any, slf: Any):
        self.fn, self.slf = fn, slf


class SpecFn:
    def __init__(self, name: str):
        self.name = name


class ExcVal:
    def __init__(self, cls: str, msg: Any = None):
        self.cls, self.msg = cls, msg


class Iter:
    """abstract finite iteration: either concrete items, or (length term, elem function)"""

    def __init__(self, items: Optional[list] = None, n: Any = None, elem: Any = None, base: Any = None):
        self.items, self.n, self.elem, self.base = items, n, elem, base


class DictVal:
    def __init__(self, d: dict):
        self.d = d


class SetVal:
    def __init__(self, items: list):
        self.items = items


MISSING = object()


# ---------------------------------------------------------------- modules
class Mod:
    def __init__(self, name: str, path: str):
        self.name, self.path = name, path
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.names: dict[str, tuple] = {}
        self.cache: dict[str, Any] = {}
        self._collect(self.tree.body)

    def _collect(self, body: list) -> None:
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.names[n.name] = ("def", n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("assign", n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.names[n.target.id] = ("assign", n.value)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[(a.asname or a.name).split(".")[0] if not a.asname else a.asname] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        pk = pk[:-1]
                    pk = pk[: len(pk) - (n.level - 1)]
                    base = ".".join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    self.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect(n.body)


_mods: dict[str, Optional[Mod]] = {}


def load_mod(name: str) -> Optional[Mod]:
    if name in _mods:
        return _mods[name]
    p = os.path.join(REPO_SRC, *name.split("."))
    m = None
    for cand in (p + ".py", os.path.join(p, "__init__.py")):
        if os.path.isfile(cand):
            m = Mod(name, cand)
            break
    _mods[name] = m
    return m


_classes: dict[str, ClassVal] = {}


def resolve(mod: Mod, name: str, depth: int = 0) -> Any:
    """resolve a module level name to a value (FuncVal, ClassVal, ModVal, ExtVal or ('assign', node))"""
    if depth > 12:
        raise Undecided("import chain")
    if name not in mod.names:
        return MISSING
    e = mod.names[name]
    if e[0] == "def":
        n = e[1]
        if isinstance(n, ast.FunctionDef):
            return FuncVal(n, mod, n.name)
        return class_val(n, mod)
    if e[0] == "import":
        return ModVal(e[1])
    if e[0] == "from":
        sub = load_mod(e[1] + "." + e[2])
        if sub is not None:
            return ModVal(e[1] + "." + e[2])
        m = load_mod(e[1])
        if m is None:
            return ExtVal(e[1] + "." + e[2])
        r = resolve(m, e[2], depth + 1)
        return r
    return ("assign", mod, e[1], name)


def class_val(n: ast.ClassDef, mod: Mod) -> ClassVal:
    c = _classes.get(n.name)
    if c is None or c.node is not n:
        c = ClassVal(n, mod, n.name)
        _classes[n.name] = c
    return c


_all_loaded = False


def find_class(name: str) -> Optional[ClassVal]:
    """locate a repository class by name (loads all modules once)"""
    global _all_loaded
    if name in _classes:
        return _classes[name]
    if not _all_loaded:
        _all_loaded = True
        for pkg in ("codemanip", "srcmlcpp", "litgen"):
            for r, ds, fs in os.walk(os.path.join(REPO_SRC, pkg)):
                if any(x in r for x in ("/tests", "integration_tests", "/demo")):
                    continue
                for f in fs:
                    if f.endswith(".py"):
                        q = os.path.relpath(os.path.join(r, f), REPO_SRC)[:-3].replace("/", ".")
                        if q.endswith(".__init__"):
                            q = q[:-9]
                        try:
                            m = load_mod(q)
                        except SyntaxError:
                            continue
                        if m:
                            for n in m.tree.body:
                                if isinstance(n, ast.ClassDef):
                                    class_val(n, m)
                                    for s in n.body:
                                        if isinstance(s, ast.ClassDef):
                                            _classes.setdefault(s.name, ClassVal(s, m, s.name))
    return _classes.get(name)


def bases_of(c: ClassVal) -> list[ClassVal]:
    out = []
    for b in c.node.bases:
        nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
        if nm:
            x = find_class(nm)
            if x:
                out.append(x)
    return out


def mro(c: ClassVal) -> list[ClassVal]:
    out, seen = [], set()

    def go(x: ClassVal) -> None:
        if x.name in seen:
            return
        seen.add(x.name)
        out.append(x)
        for b in bases_of(x):
            go(b)

    go(c)
    return out


def is_enum(c: ClassVal) -> bool:
    for x in mro(c):
        for b in x.node.bases:
            nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ""
            if nm in ("Enum", "IntEnum"):
                return True
    return False


def enum_members(name: str) -> list[str]:
    c = find_class(name)
    assert c
    return [t.id for s in c.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]


def subclasses(name: str) -> list[str]:
    find_class("__none__")
    return [k for k, c in list(_classes.items()) if any(x.name == name for x in mro(c))]


def parse_type(s: Any, mod: Optional[Mod] = None) -> T:
    if s is None:
        return ANY
    if isinstance(s, str):
        s = ast.parse(s, mode="eval").body
    if isinstance(s, ast.Constant):
        if s.value is None:
            return NONE
        if isinstance(s.value, str):
            return parse_type(s.value, mod)
    if isinstance(s, ast.BinOp) and isinstance(s.op, ast.BitOr):
        l, r = parse_type(s.left, mod), parse_type(s.right, mod)
        if r == NONE:
            return Opt(l)
        if l == NONE:
            return Opt(r)
        return ANY
    if isinstance(s, ast.Subscript):
        b = s.value.id if isinstance(s.value, ast.Name) else getattr(s.value, "attr", "")
        if b in ("Optional", "opt"):
            return Opt(parse_type(s.slice, mod))
        if b in ("list", "List", "Sequence", "Iterable"):
            return ListT(parse_type(s.slice, mod))
        if b in ("Final", "ClassVar"):
            return parse_type(s.slice, mod)
        if b in ("set", "Set", "frozenset"):
            return T("set", (parse_type(s.slice, mod),))
        if b in ("dict", "Dict") and isinstance(s.slice, ast.Tuple) and len(s.slice.elts) == 2:
            return T("map", tuple(parse_type(x, mod) for x in s.slice.elts))
        if b in ("tuple", "Tuple"):
            el = s.slice.elts if isinstance(s.slice, ast.Tuple) else [s.slice]
            return TupT(*[parse_type(x, mod) for x in el])
        return ANY
    nm = s.id if isinstance(s, ast.Name) else s.attr if isinstance(s, ast.Attribute) else ""
    if nm in ("str", "int", "bool"):
        return {"str": STR, "int": INT, "bool": BOOL}[nm]
    if nm in ("any", "Any", "object", "float"):
        return ANY
    if nm == "None":
        return NONE
    if mod is not None and isinstance(s, ast.Name):
        r = resolve(mod, nm)
        if isinstance(r, tuple) and r[0] == "assign":
            return parse_type(r[2], r[1])
    c = find_class(nm)
    if c:
        return EnumT(nm) if is_enum(c) else ObjT(nm)
    if nm in api.SCHEMAS:
        return ObjT(nm)      # a class of a library, known by the fields declared in the contracts
    return ANY


def find_function(target: str) -> FuncVal:
    mn, q = target.split("#")[0].split(":")
    m = load_mod(mn)
    if m is None:
        raise Undecided(f"module {mn} not found")
    parts = q.split(".")
    body: list = m.tree.body
    cls = None
    node = None
    for i, p in enumerate(parts):
        node = None
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                node = n
        if node is None:
            raise Undecided(f"{target}: not found")
        if isinstance(node, ast.ClassDef):
            cls = node.name
            class_val(node, m)
        body = node.body
    if not isinstance(node, ast.FunctionDef):
        raise Undecided(f"{target}: not a function")
    return FuncVal(node, m, q, None, cls)


# ---------------------------------------------------------------- results
@dataclass
class Obligation:
    name: str
    kind: str         # post | inv-init | inv-step | pre | decreases | raise | lemma | cover
    status: str = "?"
    backend: str = ""
    secs: float = 0.0
    model: Any = None
    detail: str = ""
    abstract: bool = False   # the path goes through a comprehension or any/all of the code: a counter-model may be spurious


@dataclass
class FuncReport:
    target: str
    obligations: list = field(default_factory=list)
    undecided: str = ""
    paths: int = 0
    secs: float = 0.0
    assumptions: list = field(default_factory=list)
    models: list = field(default_factory=list)


_uf: dict[tuple, Any] = {}


def UF(name: str, arg_sorts: list, res: Any) -> Any:
    key = (name, tuple(str(s) for s in arg_sorts), str(res))
    if key not in _uf:
        _uf[key] = z3.Function("f_" + name + ("" if not any(k[0] == name for k in _uf) else f"_{len(_uf)}"), *arg_sorts, res)
    return _uf[key]


def is_conc(v: Any) -> bool:
    if isinstance(v, (V, LRef, Iter)):
        return False
    if isinstance(v, tuple):
        return all(is_conc(x) for x in v)
    return True


def norm(v: Any) -> Any:
    """symbolic value -> concrete python value when its term is a literal"""
    if not isinstance(v, V):
        return v
    t = v.t
    if v.ty == INT:
        if not z3.is_int_value(t):
            t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
    elif v.ty == BOOL:
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return V(BOOL, t)
    elif v.ty == STR:
        if z3.is_string_value(t):
            return pystr(t)
    return v


def pystr(t: Any) -> str:
    s = t.as_string()
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s) and s[i + 1] == "u" and i + 2 < len(s) and s[i + 2] == "{":
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def zstr(s: str) -> Any:
    return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s))


_cids: dict[str, int] = {}


def class_id(n: str) -> int:
    return _cids.setdefault(n, len(_cids))


def is_sub(cls: str, base: str) -> bool:
    c = find_class(cls)
    return bool(c) and any(x.name == base for x in mro(c))


EXC_BASES = {"FileNotFoundError": ["OSError", "Exception"], "ValueError": ["Exception"], "IndexError": ["LookupError", "Exception"], "KeyError": ["LookupError", "Exception"],
             "AttributeError": ["Exception"], "TypeError": ["Exception"], "AssertionError": ["Exception"], "RuntimeError": ["Exception"], "NotImplementedError": ["RuntimeError", "Exception"],
             "UnicodeDecodeError": ["ValueError", "Exception"], "OSError": ["Exception"]}
