"""Parsers of the two outputs of litgen: the Python stub (through ast) and the C++ binding code."""
from __future__ import annotations
import ast, re
from dataclasses import dataclass, field
from typing import Any, Optional


@dataclass
class Param:
    name: str
    default: Optional[str]
    ann: Optional[str] = None
    none_ok: bool = False


@dataclass
class Fn:
    name: str
    params: list[Param]
    doc: str
    ret: Optional[str] = None
    static: bool = False
    overload: bool = False
    self_: bool = False
    raw: str = ""
    via: str = "def"           # def / init / named_ctor / def_static
    target: str = ""           # pydef: second argument
    extra: list[str] = field(default_factory=list)
    comment: str = ""


@dataclass
class Attr:
    name: str
    ann: Optional[str]
    value: Optional[str]
    doc: str
    via: str = ""
    target: str = ""
    comment: str = ""
    raw: str = ""


@dataclass
class Node:
    kind: str                   # module / class / enum
    name: str
    doc: str = ""
    bases: list[str] = field(default_factory=list)
    fns: list[Fn] = field(default_factory=list)
    attrs: list[Attr] = field(default_factory=list)
    kids: list["Node"] = field(default_factory=list)
    values: list[tuple] = field(default_factory=list)
    cpp: str = ""
    flags: list[str] = field(default_factory=list)
    var: str = ""
    parent: Optional["Node"] = None
    occurrences: int = 1
    comment: str = ""
    order: list[str] = field(default_factory=list)
    line: int = 0

    def kid(self, name: str) -> Optional["Node"]:
        return next((k for k in self.kids if k.name == name), None)

    def find(self, path: str) -> Optional["Node"]:
        n: Optional[Node] = self
        for p in path.split("."):
            if n is None:
                return None
            if p:
                n = n.kid(p)
        return n

    def walk(self, pre: str = ""):
        yield pre, self
        for k in self.kids:
            yield from k.walk((pre + "." if pre else "") + k.name)


# --------------------------------------------------------------------------- stub
STUB_PRE = ""


def stub_comment_of(lines: list[str], ln: int, col: int = 0) -> str:
    """trailing comment of a source line"""
    import io, tokenize
    s = lines[ln - 1]
    try:
        for t in tokenize.generate_tokens(io.StringIO(s.strip() + "\n").readline):
            if t.type == tokenize.COMMENT:
                return t.string
    except Exception:
        i = s.find("#")
        return s[i:] if i >= 0 else ""
    return ""


class BadOutput(Exception):
    pass


def parse_stub(stub: str) -> Node:
    try:
        tree = ast.parse(stub)
    except SyntaxError as e:
        raise BadOutput(f"the stub is not valid Python: {e} | {stub.splitlines()[e.lineno - 1] if e.lineno and e.lineno <= len(stub.splitlines()) else ''}")
    lines = stub.splitlines()
    root = Node("module", "")
    _stub_body(root, tree.body, lines)
    return root


def doc_of(n: Any) -> str:
    return ast.get_docstring(n, clean=False) or ""


def _stub_body(node: Node, body: list, lines: list[str]) -> None:
    for b in body:
        if isinstance(b, ast.ClassDef):
            com = stub_comment_of(lines, b.lineno)
            sub = "Proxy class that introduces typings for the *submodule*" in com
            bases = [ast.unparse(x) for x in b.bases]
            isenum = any(x.startswith("enum.") for x in bases)
            k = Node("module" if sub else "enum" if isenum else "class", b.name, bases=bases, parent=node, comment=com, line=b.lineno)
            k.doc = doc_of(b)
            if sub and not k.doc and len(b.body) > 1 and isinstance(b.body[0], ast.Pass) and isinstance(b.body[1], ast.Expr) and isinstance(b.body[1].value, ast.Constant):
                k.doc = b.body[1].value.value
            if sub:
                same = node.kid(b.name)
                if same is not None and same.kind == "module":
                    same.occurrences += 1
                    _stub_body(same, b.body, lines)
                    continue
            node.kids.append(k)
            node.order.append(b.name)
            _stub_body(k, b.body, lines)
        elif isinstance(b, ast.FunctionDef):
            decos = [ast.unparse(d) for d in b.decorator_list]
            a = b.args
            allp = a.posonlyargs + a.args
            defs: list = [None] * (len(allp) - len(a.defaults)) + [ast.unparse(d) for d in a.defaults]
            ps = [Param(p.arg, d, ast.unparse(p.annotation) if p.annotation else None) for p, d in zip(allp, defs)]
            if a.vararg:
                ps.append(Param("*" + a.vararg.arg, None))
            f = Fn(b.name, ps, doc_of(b), ret=ast.unparse(b.returns) if b.returns else None, static="staticmethod" in decos, overload="overload" in decos)
            if ps and ps[0].name == "self" and ps[0].ann is None:
                f.self_ = True
                f.params = ps[1:]
            f.raw = "\n".join(lines[b.lineno - 1:b.end_lineno])
            f.comment = stub_comment_of(lines, b.end_lineno if False else b.lineno)
            node.fns.append(f)
            node.order.append(b.name)
        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
            node.attrs.append(Attr(b.target.id, ast.unparse(b.annotation), ast.unparse(b.value) if b.value else None, "", comment=stub_comment_of(lines, b.end_lineno or b.lineno), raw=lines[b.lineno - 1]))
            node.order.append(b.target.id)
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
            nm = b.targets[0].id
            com = stub_comment_of(lines, b.end_lineno or b.lineno)
            if node.kind == "enum":
                node.values.append((nm, com, ast.unparse(b.value)))
            else:
                node.attrs.append(Attr(nm, None, ast.unparse(b.value), "", comment=com, raw=lines[b.lineno - 1]))
            node.order.append(nm)
        elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str):
            # a string following an attribute or an enum value documents it; otherwise the docstring of the scope
            i = body.index(b)
            prev = body[i - 1] if i > 0 else None
            if isinstance(prev, (ast.AnnAssign, ast.Assign)) and node.attrs and node.kind != "enum":
                node.attrs[-1].doc = b.value.value
            elif isinstance(prev, ast.Assign) and node.kind == "enum" and node.values:
                node.values[-1] = node.values[-1] + (b.value.value,)
        elif isinstance(b, (ast.Pass, ast.Import, ast.ImportFrom)):
            pass
        elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and b.value.value is Ellipsis:
            pass
        else:
            pass


# --------------------------------------------------------------------------- C++ text
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "\\": "\\", '"': '"', "'": "'", "?": "?"}


def cpp_string_value(lit: str) -> str:
    """value of one C++ string literal (without prefix); BadOutput when it is not well-formed"""
    if lit.startswith("R\""):
        d = lit[2:lit.index("(")]
        return lit[3 + len(d):-(2 + len(d))]
    s = lit[1:-1]
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\n":
            raise BadOutput("newline inside a C++ string literal: " + lit[:200])
        if c == "\\":
            i += 1
            if i >= len(s):
                raise BadOutput("unfinished escape in C++ string literal: " + lit[:200])
            e = s[i]
            if e in "01234567":
                j = i
                while j < len(s) and j < i + 3 and s[j] in "01234567":
                    j += 1
                out.append(chr(int(s[i:j], 8)))
                i = j
                continue
            if e == "x":
                j = i + 1
                while j < len(s) and s[j] in "0123456789abcdefABCDEF":
                    j += 1
                if j == i + 1:
                    raise BadOutput("bad \\x escape in C++ string literal: " + lit[:200])
                out.append(chr(int(s[i + 1:j], 16) & 0x10FFFF))
                i = j
                continue
            if e in "uU":
                w = 4 if e == "u" else 8
                h = s[i + 1:i + 1 + w]
                if not re.fullmatch("[0-9a-fA-F]{%d}" % w, h):
                    raise BadOutput("bad \\u escape in C++ string literal: " + lit[:200])
                out.append(chr(int(h, 16)))
                i += 1 + w
                continue
            if e not in ESC:
                raise BadOutput(f"invalid escape \\{e} in C++ string literal: {lit[:200]}")
            out.append(ESC[e])
            i += 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


def cpp_lex(s: str) -> list[str]:
    """tokens of C++ code: whitespace and comments dropped, literals whole"""
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in " \t\r\n":
            i += 1
        elif s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                raise BadOutput("unterminated comment in binding code")
            i = j + 2
        elif s.startswith('R"', i) and re.match(r'R"[^(\s]*\(', s[i:]):
            d = s[i + 2:s.index("(", i)]
            j = s.find(")" + d + '"', i)
            if j < 0:
                raise BadOutput("unterminated raw string in binding code")
            out.append(s[i:j + len(d) + 2])
            i = j + len(d) + 2
        elif c == '"' or c == "'":
            j = i + 1
            while True:
                if j >= n or s[j] == "\n":
                    raise BadOutput("unterminated literal in binding code: " + s[i:i + 200])
                if s[j] == "\\":
                    j += 2
                    continue
                if s[j] == c:
                    break
                j += 1
            out.append(s[i:j + 1])
            i = j + 1
        elif c.isalpha() or c == "_":
            j = i
            while j < n and (s[j].isalnum() or s[j] == "_"):
                j += 1
            out.append(s[i:j])
            i = j
        elif c.isdigit() or (c == "." and i + 1 < n and s[i + 1].isdigit()):
            j = i
            while j < n and (s[j].isalnum() or s[j] in "._'" or (s[j] in "+-" and s[j - 1] in "eE" and not s[i:i + 2].lower() == "0x")):
                j += 1
            out.append(s[i:j])
            i = j
        elif s.startswith("::", i) or s.startswith("->", i) or s.startswith("&&", i) or s.startswith("<<", i):
            out.append(s[i:i + 2])
            i += 2
        else:
            out.append(c)
            i += 1
    return out


OPEN, CLOSE = "([{", ")]}"


def match(tok: list[str], i: int) -> int:
    """index of the bracket closing tok[i]"""
    d = 0
    for j in range(i, len(tok)):
        if tok[j] in OPEN:
            d += 1
        elif tok[j] in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise BadOutput("unbalanced brackets in binding code near " + " ".join(tok[i:i + 30]))


def match_angle(tok: list[str], i: int) -> int:
    d = 0
    j = i
    while j < len(tok):
        t = tok[j]
        if t == "<":
            d += 1
        elif t == ">":
            d -= 1
            if d == 0:
                return j
        elif t in "([{" and len(t) == 1:
            j = match(tok, j)
        elif t == ";" or t in ")]}":
            return -1
        j += 1
    return -1


def split_args(tok: list[str]) -> list[list[str]]:
    """split at top level commas; template argument lists are kept whole"""
    out: list[list[str]] = []
    cur: list[str] = []
    i = 0
    while i < len(tok):
        t = tok[i]
        if t in ("(", "[", "{"):
            j = match(tok, i)
            cur += tok[i:j + 1]
            i = j + 1
            continue
        if t == "<" and i > 0 and (tok[i - 1].isidentifier()) and tok[i - 1] != "operator":
            j = match_angle(tok, i)
            if j > 0:
                cur += tok[i:j + 1]
                i = j + 1
                continue
        if t == ",":
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur or out:
        out.append(cur)
    if any(not a for a in out):
        raise BadOutput("empty argument in binding code: " + join(tok)[:200])
    return out


def is_str(t: str) -> bool:
    return t.startswith('"') or t.startswith('R"')


def join(tok: list[str]) -> str:
    """canonical spelling of tokens"""
    s = ""
    for i, t in enumerate(tok):
        if s and (t[0].isalnum() or t[0] in "_\"") and (s[-1].isalnum() or s[-1] in "_\""):
            s += " "
        s += t
    return s


def norm(s: str) -> str:
    return join(cpp_lex(s))


def parse_pydef(code: str) -> Node:
    tok = cpp_lex(code)
    # bracket sanity over the whole text
    st = []
    for t in tok:
        if t in ("(", "[", "{"):
            st.append(t)
        elif t in (")", "]", "}"):
            if not st or OPEN.index(st.pop()) != CLOSE.index(t):
                raise BadOutput("unbalanced brackets in binding code")
    if st:
        raise BadOutput("unbalanced brackets in binding code")
    root = Node("module", "", var="m")
    env = {"m": root}
    _pydef_stmts(tok, env, root)
    root.env = env  # type: ignore
    return root


def _pydef_stmts(tok: list[str], env: dict, root: Node) -> None:
    i = 0
    while i < len(tok):
        t = tok[i]
        if t == ";":
            i += 1
        elif t == "{":
            j = match(tok, i)
            _pydef_stmts(tok[i + 1:j], dict_child(env), root)
            i = j + 1
        elif t == "#":
            i += 1
        else:
            j = i
            while j < len(tok) and tok[j] != ";":
                if tok[j] in ("(", "[", "{"):
                    j = match(tok, j)
                j += 1
            _pydef_stmt(tok[i:j], env, root)
            i = j + 1


class dict_child(dict):
    def __init__(self, up: dict):
        super().__init__(up)
        self.up = up


def str_args(args: list[list[str]]) -> str:
    """doc: the last argument made of string literals only"""
    for a in reversed(args):
        if a and all(is_str(t) for t in a):
            return "".join(cpp_string_value(t) for t in a)
    return ""


def one_str(a: list[str], what: str) -> str:
    if not a or not all(is_str(t) for t in a):
        raise BadOutput(f"expected a string literal ({what}): {join(a)[:100]}")
    return "".join(cpp_string_value(t) for t in a)


def _pydef_stmt(tok: list[str], env: dict, root: Node) -> None:
    # module
    if len(tok) > 6 and tok[2] == "module_" and tok[1] == "::":
        var = tok[3]
        par = tok[5]
        if par not in env:
            raise BadOutput(f"{par} is used before being defined: {join(tok)[:120]}")
        a = tok.index("(")
        args = split_args(tok[a + 1:match(tok, a)])
        name = one_str(args[0], "submodule name")
        n = env[par].kid(name)
        if n is None or n.kind != "module":
            n = Node("module", name, parent=env[par], var=var)
            env[par].kids.append(n)
            env[par].order.append(name)
        else:
            n.occurrences += 1
        n.doc = one_str(args[1], "doc") if len(args) > 1 else ""
        env[var] = n
        return
    i = 0
    node: Optional[Node] = None
    if tok[0] == "auto" and len(tok) > 3 and tok[2] == "=" and tok[4] == "::" and tok[5] in ("class_", "enum_"):
        var = tok[1]
        kind = "class" if tok[5] == "class_" else "enum"
        j = 6
        targs: list[list[str]] = []
        if tok[6] == "<":
            j = match_angle(tok, 6)
            targs = split_args(tok[7:j])
            j += 1
        if tok[j] != "(":
            raise BadOutput("class_ without arguments: " + join(tok)[:150])
        e = match(tok, j)
        args = split_args(tok[j + 1:e])
        par = join(args[0])
        if par not in env:
            raise BadOutput(f"{par} is used before being defined: {join(tok)[:120]}")
        node = Node(kind, one_str(args[1], "class name"), parent=env[par], var=var, cpp=join(targs[0]) if targs else "")
        node.bases = [join(x) for x in targs[1:]]
        node.flags = [join(a) for a in args[2:] if not all(is_str(t) for t in a)]
        node.doc = str_args(args[2:])
        env[par].kids.append(node)
        env[par].order.append(node.name)
        env[var] = node
        # visible after the block too (inner blocks use variables of outer ones only)
        i = e + 1
    elif tok[0] in env:
        node = env[tok[0]]
        i = 1
    elif len(tok) > 1 and tok[1] == "." and len(tok) > 2 and (tok[2].startswith("def") or tok[2] in ("attr", "value")):
        raise BadOutput(f"{tok[0]} is used in the binding code but never defined: {join(tok)[:160]}")
    else:
        root.flags.append(join(tok))      # free form (custom) code
        return
    while i < len(tok):
        if tok[i] != ".":
            root.flags.append(join(tok))
            return
        meth = tok[i + 1]
        i += 2
        if i < len(tok) and tok[i] == "<":
            i = match_angle(tok, i) + 1
        if i >= len(tok) or tok[i] != "(":
            raise BadOutput("cannot parse " + join(tok)[:200])
        e = match(tok, i)
        args = split_args(tok[i + 1:e])
        i = e + 1
        if meth == "attr":
            node.attrs.append(Attr(one_str(args[0], "attr name"), None, join(tok[i + 1:]), "", via="attr"))
            node.order.append(node.attrs[-1].name)
            return
        _method(node, meth, args)


def _args_of(args: list[list[str]]) -> tuple[list[Param], list[str]]:
    ps, rest = [], []
    for a in args:
        if len(a) >= 4 and a[1] == "::" and a[2] == "arg" and a[3] == "(":
            e = match(a, 3)
            nm = one_str(a[4:e], "arg name")
            k = e + 1
            none_ok = False
            while k < len(a) and a[k] == ".":
                if a[k + 1] == "none":
                    none_ok = True
                k = match(a, k + 2) + 1
            d = None
            if k < len(a):
                if a[k] != "=":
                    raise BadOutput("bad py::arg: " + join(a))
                d = join(a[k + 1:])
            ps.append(Param(nm, d, none_ok=none_ok))
        else:
            rest.append(join(a))
    return ps, rest


def _method(node: Node, meth: str, args: list[list[str]]) -> None:
    if meth == "value":
        node.values.append((one_str(args[0], "enum value"), join(args[1]), one_str(args[2], "doc") if len(args) > 2 else ""))
        node.order.append(node.values[-1][0])
        return
    if meth == "export_values":
        node.flags.append("export_values")
        return
    doc_args = args
    if meth in ("def", "def_static", "def_cls"):
        if args and len(args[0]) > 2 and args[0][1] == "::" and args[0][2] == "init":
            # py::init<...>() or py::init([](..){})
            ps, rest = _args_of(args[1:])
            named = "[" in args[0]
            f = Fn("__init__", ps, str_args(args[1:]), via="named_ctor" if named else "init", target=join(args[0]))
            f.extra = rest
            node.fns.append(f)
            node.order.append("__init__")
            return
        nm = one_str(args[0], "function name") if all(is_str(t) for t in args[0]) else None
        if nm is None:
            ps, rest = _args_of(args[1:])
            node.fns.append(Fn("?" + join(args[0]), ps, str_args(args[1:]), via=meth, target=join(args[0]), extra=rest))
            return
        ps, rest = _args_of(args[2:])
        f = Fn(nm, ps, str_args(args[2:]), via=meth, target=join(args[1]) if len(args) > 1 else "", static=meth == "def_static")
        f.extra = rest
        if nm == "__init__":
            f.via = "named_ctor"
        f.tok = args[1] if len(args) > 1 else []  # type: ignore
        node.fns.append(f)
        node.order.append(nm)
        return
    if meth.startswith("def_"):
        nm = one_str(args[0], "attribute name")
        node.attrs.append(Attr(nm, None, None, str_args(args[1:]), via=meth, target=join(args[1]) if len(args) > 1 else "", raw=" , ".join(join(a) for a in args[1:])))
        node.order.append(nm)
        return
    node.flags.append(meth)
