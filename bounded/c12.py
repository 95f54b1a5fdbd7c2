"""C12: comments document exactly the declaration they are written for, whatever characters they contain."""
from __future__ import annotations
import ast, io, random, re, tokenize
from . import core, lg, out
from .c08 import describe

PIECES = ['"', "'", "\\", "\\n", "\\t", "\\x41", "\\x", "\\u00e9", "\\U0001", "\\N{DASH}", '\\"', '"""', "'''", "{location}", "{_i_}", "{maybe_comma}", "{}", "{comment}",
          "{maybe_docstring}", "{arg_types}", "{py}", "%s", "#", "# note", "//", "http://a.b/c?d=1&e=2", "/", "@brief", "\\param", "\\brief", "<b>x</b>", "&", ";", ")", "(", "[a, b]", "a->b",
          "Foo::Bar", 'R"(', ')"', "é", "中文", "😀", " ", "Ünï", "`code`", "**bold**", "a, b", '"quoted text"', '"ends', "it's", "C:\\dir\\new", "\\0", "\\1", "\\g<0>", "$x", "?:", "->",
          "{0}", "{pydef_class_var}", "{lambda_code}", "def f(): pass", "class X", "static void", "3.14", "x=1", "=", "!", "~", "\\\\", "...", "pass", ",", "u8\"x\"", "??/", "'", "{{", "}}", "{other_template_params}",
          "replaceme", "true", "false", "nullptr", "1.5f", "void"]
WORDS = "about the size of this item when used with several other things".split()
STD = [(r"\btrue\b", "True"), (r"\bfalse\b", "False"), (r"\bvoid\b", "None"), (r"\bnullptr\b", "None"), (r"(?<![\w])1\.5f(?!\w)", "1.5")]


class Ctx:
    def __init__(self, rng: random.Random):
        self.rng, self.n, self.group = rng, 0, False
        self.want: dict[str, tuple] = {}      # token -> (python path or None, expected text words, kind)
        self.decls: list[tuple] = []          # (path, kind, token or None)
        self.lines: list[str] = []

    def text(self, nl: bool) -> tuple[str, str]:
        """(token, text): one line"""
        self.n += 1
        tok = f"tok{self.n}x"
        k = self.rng.choice([0, 1, 2, 3, 5])
        ps = [self.rng.choice(PIECES if self.rng.random() < .5 else WORDS) for _ in range(k)]
        ps.insert(self.rng.randint(0, k), tok)
        s = ""
        for p in ps:
            s += p if (self.rng.random() < .2 and p in PIECES and s and not (s[-1].isalnum() and p[0].isalnum())) else (" " if s else "") + p
        s = s.replace("*/", "* /").replace("/*", "/ *")
        s = s.rstrip()
        if s.endswith("\\"):
            s += "."
        if "??/" in s and not nl:
            s = s.replace("??/", "??.")
        return tok, s

    def above(self, ind: str) -> tuple[str, str, list[str]]:
        """a comment on the lines before: (token, text, source lines)"""
        r = self.rng.random()
        tok, t = self.text(False)
        if r < .55:
            if self.rng.random() < .2:
                t = t.lstrip("/")
            return tok, t, [f"{ind}// {t}"] if not t.startswith("/") else [f"{ind}//  {t}"]
        more = [self.text(False)[1] for _ in range(self.rng.choice([1, 1, 2]))]
        if r < .8:
            ls = [t] + more
            if self.rng.random() < .3:
                ls.insert(1, "")
            return tok, "\n".join(ls), [f"{ind}// {x}".rstrip() for x in ls]
        if r < .87:
            return tok, t, [f"{ind}/* {t} */"]
        if r < .9:
            ls = [t] + more
            return tok, "\n".join(ls), [self.rng.choice([f"{ind}// {x}", f"{ind}/* {x} */"]) for x in ls]
        ls = [t] + more
        if self.rng.random() < .5:
            return tok, "\n".join(ls), [f"{ind}/*"] + [f"{ind}{x}" for x in ls] + [f"{ind}*/"]
        return tok, "\n".join(ls), [f"{ind}/* {ls[0]}"] + [f"{ind}   {x}" for x in ls[1:-1]] + [f"{ind}   {ls[-1]} */"]


KINDS = ["fn", "fn2", "member", "cls", "enum", "fnbody", "ns", "tfn", "tcls", "gvar", "macro"]
STUB_ONLY = ("gvar", "macro")


def decl(cx: Ctx, kind: str, path: tuple, ind: str, depth: int) -> tuple:
    """(path, source lines, index of the line that may carry an end of line comment)"""
    cx.n += 1
    n = cx.n
    rng = cx.rng
    if kind in ("fn", "fnbody", "fn2"):
        name = f"fn_{n}"
        p = rng.choice(["", "int a", "int a, double b = 2.", "const std::string & s", "int * v", "std::vector<int> v = {1, 2}", "const float * buf, int buf_size", "bool & flag, const char * fmt, ..."])
        if (kind == "fnbody" or cx.group) and "{" in p:
            p = "int z"           # srcML does not parse function bodies after a brace initialised default value
        if kind != "fn2" and rng.random() < .25:
            last = [x for x, _ in cx.decls if x[:-1] == path and x[-1][0] == kind]
            if last:
                name = last[-1][-1][1].split("#")[0]
                p = ", ".join(f"{rng.choice(['int', 'double', 'bool'])} p{j}" for j in range(3 + len(last)))
        pre = rng.choice(["static ", "virtual ", ""]) if path and path[-1][0] == "cls" and kind != "fn2" else ""
        if kind == "fn2":
            tok, t = cx.text(True)
            c = rng.choice(["", "", f" // {t}", f" /* {t} */"])
            if c:
                cx.want[tok] = (None, t)
            return name, [f"{ind}{pre}int {name}(int a,{c}", f"{ind}         int b);"], 1
        if kind == "fnbody" and rng.random() < .3:
            tok, t = cx.text(True)
            cx.want[tok] = (None, t)
            return name, [f"{ind}{pre or 'inline '}int {name}({p}) {{", f"{ind}    // {t}", f"{ind}    return 1;", f"{ind}}}"], 3
        if kind == "fnbody":
            return name, [f"{ind}{pre or 'inline '}int {name}({p}) {{ return 1; }}"], 0
        return name, [f"{ind}{pre}void {name}({p});"], 0
    if kind == "member":
        name = f"mem_{n}"
        t = rng.choice(["int {};", "int {} = 3;", "std::string {};", "static int {};", "const float {} = 1.5f;", "int {}[3];", "double * {} = nullptr;", 'std::string {} = "# a";', "char {} = 'c';"])
        if t.startswith("char"):
            t = "bool {} = true;"
        return name, [ind + t.format(name)], 0
    if kind == "gvar":
        return f"gvar_{n}", [f"{ind}{rng.choice(['static const int', 'int', 'extern double', 'constexpr int'])} gvar_{n}{' = 3' if rng.random() < .6 else ''};"], 0
    if kind == "macro":
        return f"MACRO_{n}", [f"#define MACRO_{n} {n}"], None
    if kind == "tfn":
        return f"tfn_{n}_int|tfn_{n}_double", [f"{ind}template<typename T>" + rng.choice([" ", "\n" + ind]) + f"void tfn_{n}(T x);"], None
    if kind == "tcls":
        name = f"Tcls{n}"
        one = Ctx(rng)
        one.n = cx.n
        b = block(one, path + (("cls", name + "_int"),), ind + "    ", depth + 1, ["member", "fn", "fnbody"])
        cx.n = one.n
        cx.want.update(one.want)
        for q, t in one.decls:
            cx.decls.append((q, t))
            k = len(path)
            cx.decls.append((q[:k] + (("cls", name + "_double"),) + q[k + 1:], t))
        return f"{name}_int|{name}_double", [f"{ind}template<typename T>", f"{ind}struct {name}", ind + "{", f"{ind}    T x_{n};"] + b + [ind + "};"], None
    if kind == "op":
        op, py = rng.choice([("+", "__add__"), ("-", "__sub__"), ("*", "__mul__"), ("[]", "__getitem__"), ("()", "__call__"), ("==", "__eq__"), ("<", "__lt__")])
        if any(x[:-1] == path and x[-1][1] == py for x, _ in cx.decls):
            return f"meth_{n}", [f"{ind}void meth_{n}();"], 0
        return py, [f"{ind}int operator{op}(int a);"], 0
    if kind == "ctor":
        k = sum(1 for x, _ in cx.decls if x[:-1] == path and x[-1][0] == "ctor")
        return "__init__", [f"{ind}{path[-1][1]}({', '.join(f'int a{j}' for j in range(k + 1))});"], 0
    if kind == "enum":
        name = f"En{n}"
        cx.n += 1
        sc = rng.random() < .6
        ls = [f"{ind}enum {'class ' if sc else ''}{name}", ind + "{"]
        blk = block(cx, path + (("enum", name),), ind + "    ", depth, ["enumerator"], enum=name if not sc else "")
        return name, ls + blk + [ind + "};"], None
    if kind == "enumerator":
        return f"item_{n}", [ind + (f"item_{n}," if rng.random() < .7 else f"item_{n} = {n},")], 0
    if kind == "cls":
        name = f"Cls{n}"
        b = rng.choice(["struct", "struct", "class"])
        ls = [f"{ind}{b} {name}{rng.choice(['', '', ' final'])}", ind + "{"] + ([f"{ind}public:"] if b == "class" else [])
        if rng.random() < .3:
            ls = [f"{ind}{b} {name} {{"] + ls[2:]
        kinds = ["member", "member", "fn", "fnbody", "fn2", "op"] + (["cls", "enum"] if depth < 2 else [])
        ls += block(cx, path + (("cls", name),), ind + "    ", depth + 1, kinds, ctor=rng.random() < .5)
        return name, ls + [ind + "};"], None
    name = f"ns_{n}"
    return name, [f"{ind}namespace {name}", ind + "{"] + block(cx, path + (("ns", name),), ind + "    ", depth + 1, ["fn", "fn2", "cls", "enum", "fnbody", "tfn", "tcls", "gvar"] + (["ns"] if depth < 2 else [])) + [ind + "}"], None


def block(cx: Ctx, path: tuple, ind: str, depth: int, kinds: list, ctor: bool = False, enum: str = "") -> list[str]:
    rng = cx.rng
    ls: list[str] = []
    first = True
    prevs = None
    for j in range(rng.choice([1, 2, 3]) if depth else rng.choice([2, 3, 4])):
        kind = rng.choice(kinds)
        if ctor and j == 0:
            kind = "ctor"
        elif ctor and rng.random() < .15:
            kind = "ctor"
        one = kind in ("fn", "member", "enumerator", "fn2", "fnbody", "ctor", "gvar", "op")
        r = rng.random()
        form = "none" if r < .12 else "above" if r < .5 else "eol" if r < .68 else "alone" if r < .76 else "group" if r < .84 else "both" if r < .9 else "above"
        if form in ("eol", "group", "both") and (not one or kind == "ctor"):
            form = "above"
        glue = not first and rng.random() < .25 and form in ("above", "eol") and prevs in ("above", "eol")
        if form == "eol" and prevs != "eol":
            glue = False                 # comment / declaration / declaration would be a group comment
        if depth == 0 and not first and rng.random() < .12:
            # a rejected region leaves two declarations next to each other which are not on consecutive lines
            cx.n += 1
            ls += (["", ""] if rng.random() < .3 else []) + ["#ifdef NOT_ACCEPTED", rng.choice([f"void dropped_{cx.n}();", f"struct Dropped{cx.n} {{ int a; }};", ""]), "#endif"] + ([""] if rng.random() < .3 else [])
        elif not glue:
            ls.append("")

        def add(name: str, tok, text) -> None:
            for nm in name.split("|"):
                add1(nm, tok, text)

        def add1(name: str, tok, text) -> None:
            k = sum(1 for x, _ in cx.decls if x[:-1] == path and x[-1][1].split("#")[0] == name)
            p = path + ((kind, f"{name}#{k}" if k else name),)
            cx.decls.append((p, tok))
            if tok:
                cx.want[tok] = (p, text)
        if form == "alone":
            tok, text, src = cx.above(ind)
            ls += src + [""]
            cx.want[tok] = (None, text)
            name, d, _ = decl(cx, kind, path, ind, depth)
            ls += d
            add(name, None, None)
        elif form == "none":
            name, d, _ = decl(cx, kind, path, ind, depth)
            ls += d
            add(name, None, None)
        elif form == "above":
            tok, text, src = cx.above(ind)
            ls += src
            name, d, _ = decl(cx, kind, path, ind, depth)
            ls += d
            add(name, tok, text)
        elif form == "eol":
            for _ in range(rng.choice([1, 1, 2, 3])):
                tok, text = cx.text(True)
                name, d, k = decl(cx, kind, path, ind, depth)
                d[k] += (rng.choice([" ", "  ", ""]) + "//" + rng.choice([" ", " "]) + text) if rng.random() < .8 else f" /* {text} */"
                ls += d
                add(name, tok, text)
        elif form == "both":
            tok, text, src = cx.above(ind)
            ls += src
            cx.want[tok] = (None, text)
            tok, text = cx.text(True)
            name, d, k = decl(cx, kind, path, ind, depth)
            d[k] += "  // " + text
            ls += d
            add(name, tok, text)
        else:
            tok, text, src = cx.above(ind)
            ls += src
            cx.want[tok] = (None, text)
            if kind == "fn2":
                kind = "fn"
            cx.group = True
            for _ in range(rng.choice([2, 3])):
                name, d, k = decl(cx, kind, path, ind, depth)
                ls += d
                add(name, None, None)
            cx.group = False
            form = "group"
        prevs = form if one else "big"
        if prevs == "eol" and rng.random() < .15:
            pass
        first = False
    return ls + ([""] if rng.random() < .5 else [])


def nth(path: tuple, name: str, seen: dict) -> tuple:
    """path of the next overload of a function"""
    k = 0
    while path + ((f"{name}#{k}" if k else name),) in seen:
        k += 1
    return path + ((f"{name}#{k}" if k else name),)


def stub_places(stub: str) -> tuple:
    """{path: (docstring, comment text next to it)}; comment words not next to a declaration; all docstrings"""
    try:
        tree = ast.parse(stub)
    except SyntaxError as e:
        raise out.BadOutput(f"the stub is not valid Python: {e} | {stub.splitlines()[e.lineno - 1] if e.lineno and e.lineno <= len(stub.splitlines()) else ''}")
    except ValueError as e:
        raise out.BadOutput(f"the stub is not valid Python: {e}")
    coms: dict[int, str] = {}
    full: dict[int, bool] = {}
    for t in tokenize.generate_tokens(io.StringIO(stub).readline):
        if t.type == tokenize.COMMENT:
            coms[t.start[0]] = t.string[1:]
            full[t.start[0]] = t.line[:t.start[1]].strip() == ""
    places: dict[tuple, tuple] = {}

    def near(b) -> tuple:
        ln = min([b.lineno] + [d.lineno for d in getattr(b, "decorator_list", [])])
        k = ln - 1
        ab: list[str] = []
        while full.get(k):
            ab.insert(0, coms[k])
            k -= 1
        end = b.end_lineno if not isinstance(b, (ast.ClassDef, ast.FunctionDef)) else b.lineno
        return "\n".join(ab), coms.get(end, "") if not full.get(end) else ""

    def rec(body, path) -> None:
        for i, b in enumerate(body):
            if isinstance(b, ast.ClassDef):
                sub = "Proxy class that introduces typings" in coms.get(b.lineno, "")
                d = ast.get_docstring(b, clean=False) or ""
                if sub:
                    for x in b.body[:2]:
                        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str):
                            d = x.value.value
                p = path + (b.name,)
                core.check(p not in places, f"{p} appears twice in the stub", stub=stub)
                places[p] = ("block", d) + near(b)
                rec(b.body, p)
            elif isinstance(b, ast.FunctionDef):
                p = nth(path, b.name, places)
                places[p] = ("block", ast.get_docstring(b, clean=False) or "") + near(b)
            elif isinstance(b, (ast.AnnAssign, ast.Assign)):
                t = b.target if isinstance(b, ast.AnnAssign) else b.targets[0]
                d = ""
                if i + 1 < len(body) and isinstance(body[i + 1], ast.Expr) and isinstance(body[i + 1].value, ast.Constant) and isinstance(body[i + 1].value.value, str):
                    d = body[i + 1].value.value
                places[path + (t.id,)] = ("line", d) + near(b)
    rec(tree.body, ())
    return places


def words(s: str) -> str:
    return " ".join(s.split())


def joined(s: str) -> str:
    return "".join(s.split())        # the alignment of trailing comments may insert spaces


def expected(text: str, extra: bool) -> str:
    for a, b in STD:
        text = re.sub(a, b, text)
    if extra:
        text = re.sub("replaceme", "was changed", text)
    return words(text)


def pydef_places(g: lg.Gen) -> dict:
    r: dict[tuple, str] = {}
    for pre, n in g.pydef.walk():
        path = tuple(x for x in pre.split(".") if x)
        if path:
            r[path] = n.doc
        for f in n.fns:
            r[nth(path, f.name, r)] = f.doc
        for a in n.attrs:
            r[path + (a.name,)] = a.doc
        for v in n.values:
            r[path + (v[0],)] = v[2]
    return r


def case(rng: random.Random) -> tuple:
    nb = rng.random() < .5
    o = lg.options(nb)
    ch = lambda p: rng.random() < p
    if ch(.25): o.python_reproduce_cpp_layout = False
    if ch(.2): o.python_strip_empty_comment_lines = not o.python_strip_empty_comment_lines
    if ch(.15): o.original_location_flag_show = True
    if ch(.15): o.python_indent_size = 2
    if ch(.1): o.python_max_line_length = rng.choice([30, -1])
    if ch(.1): o.fn_force_lambda__regex = ".*"
    if ch(.1): o.fn_force_overload__regex = ".*"
    if ch(.15): o.fn_params_output_modifiable_immutable_to_return__regex = ".*"
    elif ch(.15): o.fn_params_replace_modifiable_immutable_by_boxed__regex = ".*"
    o.globals_vars_include_by_name__regex = "^gvar"
    o.macro_define_include_by_name__regex = "^MACRO"
    o.fn_template_options.add_specialization("^tfn", ["int", "double"], add_suffix_to_function_name=True)
    o.class_template_options.add_specialization("^Tcls", ["int", "double"])
    extra = ch(.2)
    if extra:
        from codemanip.code_replacements import RegexReplacementList
        o.comments_replacements.merge_replacements(RegexReplacementList.from_string("replaceme -> was changed"))
    excl = ch(.08)
    if excl:
        o.comments_exclude = True
    cx = Ctx(rng)
    code = "\n".join(block(cx, (), "", 0, KINDS[:2] + KINDS[3:])) + "\n"
    g = lg.generate(o, code)
    opt = describe(o)
    try:
        judge(g, cx, excl, extra)
    except out.BadOutput as e:
        g.fail(str(e), options=opt)
    except core.Violation as v:
        v.info.setdefault("code", code)
        v.info["options"] = opt
        v.info.setdefault("stub", g.stub_text)
        v.info.setdefault("pydef", g.pydef_text)
        raise
    forms = sorted({p[-1][0] for p, t in cx.decls if t})
    return (len(cx.decls), len(cx.want), nb, excl, extra, tuple(forms)), code[:300]


def judge(g: lg.Gen, cx: Ctx, excl: bool, extra: bool) -> None:
    st = stub_places(g.stub_text)
    pd = pydef_places(g)
    if excl:
        for tok, (p, _) in cx.want.items():
            g.check(tok not in g.pydef_text and (p is None or not re.search(rf"{tok}\b", g.stub_text)), f"comment {tok} is emitted although comments are excluded")
        return
    by_path = {tuple(n for _, n in p): (p, t) for p, t in cx.decls}
    for path, (p, tok) in by_path.items():
        kind = p[-1][0]
        g.check(path in st, f"{path} is not in the stub")
        if kind in STUB_ONLY:
            pd.setdefault(path, "")
        g.check(path in pd, f"{path} is not in the binding code")
        k, doc, above, eol = st[path]
        own = re.findall(r"\btok\d+x\b", pd[path])
        exp = expected(cx.want[tok][1], extra) if tok else ""
        alltok = set(re.findall(r"\btok\d+x\b", cx.want[tok][1])) if tok else set()
        g.check(set(own) == (alltok if kind not in STUB_ONLY else set()), f"binding code of {'.'.join(path)}: documentation tokens {own}, expected {sorted(alltok)}")
        if kind in ("member", "enumerator") + STUB_ONLY:
            sown = set(re.findall(r"\btok\d+x\b", doc + eol))
            g.check(sown <= alltok, f"stub of {'.'.join(path)}: documentation of another declaration {sorted(sown - alltok)}")
            if tok:
                g.check(any(joined(exp) in joined(x) for x in (eol, doc)) or joined(above).endswith(joined(exp)), f"stub of {'.'.join(path)}: the comment next to it is not the one of the header", expected=exp, above=above, eol=eol)
        else:
            sown = set(re.findall(r"\btok\d+x\b", doc))
            g.check(sown == alltok, f"stub of {'.'.join(path)}: documentation tokens {sorted(sown)}, expected {sorted(alltok)}")
        if tok and kind not in STUB_ONLY:
            whole = words(pd[path])
            ok = whole == exp or whole.startswith(exp + " ") or whole.endswith(" " + exp)
            g.check(ok, f"binding code of {'.'.join(path)}: the documentation text differs", expected=exp, got=whole)
            if kind not in ("member", "enumerator"):
                w = joined(doc)
                g.check(w.startswith(joined(exp)) or w.endswith(joined(exp)), f"stub of {'.'.join(path)}: the documentation text differs", expected=exp, got=w)
            if kind in ("cls", "enum", "member", "enumerator", "ns") and not (kind == "cls" and "(final class)" in whole):
                g.check(whole == exp, f"binding code of {'.'.join(path)}: the documentation text has additions", expected=exp, got=whole)
    # no other documentation receives a comment
    for path, doc in pd.items():
        if path not in by_path:
            g.check(not re.search(r"\btok\d+x\b", doc), f"binding code: {'.'.join(path)} receives a comment that is not its own", got=doc)
    for path, v in st.items():
        if path not in by_path:
            g.check(not re.search(r"\btok\d+x\b", v[1] + v[3]), f"stub: {'.'.join(path)} receives a comment that is not its own", got=v)
    # nothing else than the documentation carries a comment in the binding code
    n = sum(len(re.findall(r"\btok\d+x\b", s)) for s in pd.values())
    lits = "\n".join(out.cpp_string_value(t) for t in out.cpp_lex(g.pydef_text) if t.startswith('"'))
    g.check(len(re.findall(r"tok\d+x\b", g.pydef_text)) == len(re.findall(r"tok\d+x\b", lits)), "the binding code contains comment text outside of the string literals")
    g.check(len(re.findall(r"\btok\d+x\b", lits)) == n, "the binding code contains comment text in other string literals")


DIRECTED: list = []
RANDOM = [(case, 3000)]
