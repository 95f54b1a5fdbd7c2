"""C05: C++ names become valid, stable Python names."""
from __future__ import annotations
import keyword, random, re
from . import core, lg, out, prog, iface
from .prog import N, C, En, EV, F, M, P
from .iface import snake, py

STEMS = ["HTTPServer", "getHTTPResponse", "m_value", "value_", "_hidden", "Vec3D", "toUTF8", "x2Y", "ABTest", "aB", "A", "b", "x1", "loadURL", "parseXMLFile", "nbItems", "Nb_Items2", "SHOUT", "SHOUT_LOUD", "mixed_Case_Name",
         "isA", "ioStream", "P2PLink", "get2ndItem", "Vector2f", "fooBAR", "foo_BAR", "fooBarBAZ", "i18n", "d3dDevice", "snake_case_name", "camelCaseName", "PascalCaseName", "ID", "userID", "IDCard"]
# names whose python form is a keyword
KEYS = ["from", "From", "lambda", "Lambda", "None", "in", "In", "is", "Is", "pass", "Pass", "def", "Def", "del", "Del", "global", "Global", "import", "Import", "raise", "Raise", "yield", "Yield", "async", "Async", "await", "Await",
        "with", "With", "nonlocal", "Nonlocal", "except", "Except", "finally", "Finally", "assert", "Assert", "elif", "Elif", "as", "As", "Class", "Return", "While", "For", "If", "Else", "Try", "Break", "Continue", "And", "Or", "Not"]
CPPKW = {"and", "or", "not", "class", "return", "while", "for", "if", "else", "try", "break", "continue", "True", "False"}


class OddNames(prog.Names):
    def __init__(self, rng: random.Random, kw: float = 0.25) -> None:
        super().__init__(rng)
        self.kw = kw

    def pick(self, cap: bool = False) -> str:
        for _ in range(500):
            if self.rng.random() < self.kw:
                n = self.rng.choice(KEYS)
            else:
                n = self.rng.choice(STEMS)
                r = self.rng.random()
                if r < 0.3:
                    n += self.rng.choice(["X", "Y2", "_z", "Item", "URL", "3", "Color"])
                elif r < 0.5:
                    n = self.rng.choice(["do", "Do", "nb_", "Q", "color"]) + (n[0].upper() + n[1:])
            if cap and not n[0].isupper():
                n = "K" + n
            k = n if cap else snake(n)
            if n in CPPKW or "__" in n or k.lower() in self.used or snake(n) in self.used or py(snake(n)) in self.used:
                continue
            self.used |= {k.lower(), snake(n), py(snake(n))}
            return n
        raise core.Skip()

    var = fn = ns = any = lambda self: self.pick()

    def cls(self) -> str:
        return self.pick(True)

    def words(self) -> list[str]:
        return [self.pick(True)]


REPL = [("var_names_replacements", [("^m_", ""), ("Color", "Hue"), ("_$", ""), ("nb", "count"), ("^x1$", "lambda"), ("2", "_two_")]),
        ("function_names_replacements", [("get", "fetch"), ("HTTP", "Http"), ("Color", "Hue"), ("^Do", "do_it"), ("^x1$", "pass"), ("URL", "Url")]),
        ("namespace_names_replacements", [("P2P", "Peer"), ("Color", "Hue"), ("SHOUT", "whisper"), ("^nb", "num")])]


def names_case(rng: random.Random) -> tuple:
    """a header with odd names; every python name is the expected one, in both outputs"""
    snake_on = rng.random() < 0.7
    o = lg.options(rng.random() < 0.4)
    o.python_convert_to_snake_case = snake_on
    reps: dict[str, tuple] = {}
    for attr, choices in REPL:
        if rng.random() < 0.35:
            a, b = rng.choice(choices)
            getattr(o, attr).add_last_replacement(a, b)
            reps[attr] = (a, b)

    def conv(kind: str):
        def f(n: str) -> str:
            def rep(s: str) -> str:
                if kind in reps:
                    for _ in range(3):
                        s = re.sub(reps[kind][0], reps[kind][1], s)
                return s
            n = rep(n)
            if snake_on:
                n = snake(n)
            return py(rep(py(n)))
        return f
    var, fn, ns = conv("var_names_replacements"), conv("function_names_replacements"), conv("namespace_names_replacements")
    nm = OddNames(rng)
    pn = lambda: OddNames(rng, 0.3)

    def params() -> list[P]:
        q = pn()
        n = rng.randint(0, 4)
        ps = [P(rng.choice(["int", "double", "const std::string &", "bool", "int *"]), q.pick()) for _ in range(n)]
        if n and rng.random() < 0.3:
            ps[-1] = P("int", ps[-1].name, "3")
        return ps
    exp: list[tuple] = []      # (path of scopes, kind, python name, extra)
    virt: list[tuple] = []

    def fnitem(path: tuple, method: bool) -> F:
        f = F(name=nm.pick(), ret=rng.choice(["void", "int", "std::string"]), params=params())
        if method:
            f.pre = rng.choice(["", "", "static ", "virtual "])
        exp.append((path, "fn", fn(f.name), tuple(var(p.name) for p in f.params)))
        if f.pre == "virtual ":
            virt.append((path, f))
        return f

    def block(path: tuple, depth: int) -> list:
        items: list = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.4:
                items.append(fnitem(path, False))
            elif r < 0.6:
                c = C(name=nm.cls(), kind="struct")
                exp.append((path, "class", py(c.name), None))
                sub = path + (py(c.name),)
                mem: list = []
                used = OddNames(rng, 0.3)
                for _ in range(rng.randint(1, 4)):
                    k = rng.random()
                    if k < 0.5:
                        m = M(name=used.pick(), type=rng.choice(["int", "double", "std::string"]))
                        mem.append(m)
                        exp.append((sub, "attr", var(m.name), None))
                    elif k < 0.8:
                        mem.append(fnitem(sub, True))
                    else:
                        mem.append(enum(sub))
                # (an attribute and a method may not share their python name)
                c.sections = [("", mem)]
                items.append(c)
            elif r < 0.8:
                items.append(enum(path))
            elif depth > 0:
                n = N(name=nm.pick())
                if re.search("[Ii]nternal|[Dd]etail", n.name):
                    continue
                n.items = block(path + (ns(n.name),), depth - 1)
                exp.append((path, "module", ns(n.name), None))
                items.append(n)
        return items

    def enum(path: tuple) -> En:
        scoped = rng.random() < 0.6
        name = nm.cls()
        q = OddNames(rng, 0.3)
        vals, pyv = [], []
        for _ in range(rng.randint(1, 4)):
            v = q.pick()
            if v.lower().startswith(name.lower()) or re.search("count|size|max|last|length|end|num|nb", v.lower()):
                continue
            vals.append(EV(name=v if scoped else f"{name}_{v}"))
            pyv.append(var(("_" if v[0].isdigit() else "") + v.lstrip("_") if False else v))
        if not vals:
            vals, pyv = [EV(name="Q" if scoped else name + "_Q")], [var("Q")]
        exp.append((path, "enum", py(name), tuple(pyv)))
        return En(name=name, scoped=scoped, values=vals)
    items = block((), 2)
    code = prog.render(items)
    classes = [it.name for s, _, it in prog.walk(items) if isinstance(it, C)]
    overr = bool(virt) and rng.random() < 0.6
    if overr:
        o.class_override_virtual_methods_in_python__regex = "^(" + "|".join(classes) + ")$"
    # two elements with one python name cannot be told apart: outside of the domain
    seen: dict = {}
    for path, kind, name, extra in exp:
        if (path, name) in seen:
            raise core.Skip()
        seen[(path, name)] = kind
        if extra is not None and len(set(extra)) != len(extra):
            raise core.Skip()
    g = lg.generate(o, code)
    info = dict(options={"snake": snake_on, **reps})
    for side, root in (("stub", g.stub), ("binding code", g.pydef)):
        got: dict = {}
        for path, n in root.walk():
            p = tuple(path.split(".")) if path else ()
            if path:
                got[(p[:-1], p[-1])] = (n.kind, tuple(v[0] for v in n.values) if n.kind == "enum" else None)
            for f in n.fns:
                if not f.name.startswith("__"):
                    got[(p, f.name)] = ("fn", tuple(x.name for x in f.params))
            for a in n.attrs:
                got[(p, a.name)] = ("attr", None)
            for x in [n.name] + [f.name for f in n.fns] + [a.name for a in n.attrs] + [v[0] for v in n.values] + [q.name for f in n.fns for q in f.params]:
                g.check(not keyword.iskeyword(x), f"{x} is a Python keyword in the {side}", **info)
        want = {(path, name): (kind, extra) for path, kind, name, extra in exp}
        for k, v in want.items():
            if v[0] == "module" and not any(q[0][: len(k[0]) + 1] == k[0] + (k[1],) for q in want):
                continue
            g.check(k in got, f"{v[0]} {'.'.join(k[0] + (k[1],))} is missing in the {side}", names=sorted(".".join(x[0] + (x[1],)) for x in got), **info)
            g.check(got[k][0] == v[0] and (v[1] is None or got[k][1] == v[1]), f"{v[0]} {'.'.join(k[0] + (k[1],))}: unexpected names in the {side}", expected=v[1], got=got[k], **info)
        for k in got:
            if not k[1].startswith("Boxed") and got[k][0] != "module" and not (k[0] and k[0][0].startswith("Boxed")):
                g.check(k in want, f"{got[k][0]} {'.'.join(k[0] + (k[1],))} of the {side} has not the expected name", **info)
    if overr:
        txt = g.glue_text + g.pydef_text
        names = re.findall(r'"(\w+)", // function name \(python\)\s*\n\s*(\w+),? // function name \(c\+\+\)', txt)
        for path, f in virt:
            g.check((fn(f.name), f.name) in names, f"the override of virtual method {f.name} does not look up its Python name {fn(f.name)}", overrides=names, glue=g.glue_text, **info)
    return code, code[:300]


def api_case(rng: random.Random) -> tuple:
    """conversion functions: expected form, never a keyword, idempotent"""
    from litgen.internal import cpp_to_python as c
    from codemanip import code_utils
    o = lg.options()
    o.python_convert_to_snake_case = rng.random() < 0.7
    n = OddNames(rng, 0.4).pick()
    if rng.random() < 0.3:
        n = rng.choice(keyword.kwlist + ["print", "exec", "match", "case", "type", "self", "_"])
    for f in (c.function_name_to_python, c.namespace_name_to_python, c.var_name_to_python):
        r = f(o, n)
        want = py(snake(n) if o.python_convert_to_snake_case else n)
        core.check(r == want, f"{f.__name__}({n!r}) gives {r!r}", expected=want)
        core.check(not keyword.iskeyword(r), f"{f.__name__}({n!r}) gives a keyword", got=r)
        core.check(f(o, r) == r, f"{f.__name__} is not stable on {n!r}", once=r, twice=f(o, r))
    for f in (c._class_name_to_python, c.enum_name_to_python):
        r = f(o, n)
        core.check(r == py(n), f"{f.__name__}({n!r}) gives {r!r}", expected=py(n))
        core.check(f(o, r) == r, f"{f.__name__} is not stable on {n!r}", got=r)
    s = code_utils.to_snake_case(n)
    core.check(s == snake(n), f"to_snake_case({n!r}) gives {s!r}", expected=snake(n))
    core.check(code_utils.to_snake_case(s) == s, f"to_snake_case is not stable on {n!r}", got=s)
    return n, n


def keywords_everywhere() -> tuple:
    """every keyword as function, parameter, attribute, namespace, enum item, class"""
    for kw in keyword.kwlist:
        if kw in CPPKW or kw in ("False", "True"):
            names = [kw.capitalize()] if kw.islower() else []
        else:
            names = [kw] + ([kw.capitalize()] if kw.islower() else [])
        for n in names:
            for nb in (False, True):
                code = f"void {n}(int {n}, int b = 2);\nstruct S {{ int {n}; void {n}X(int {n}); }};\nenum class E {{ {n}, Other }};\nnamespace {n} {{ void g(E e); }}\n"
                g = lg.generate(lg.options(nb), code)
                w = py(snake(n))
                for side, root in (("stub", g.stub), ("binding code", g.pydef)):
                    k = root.kid("S")
                    g.check([f.name for f in root.fns] == [w] and [p.name for p in root.fns[0].params] == [w, "b"], f"function or parameter {n} in the {side}", got=[f.name for f in root.fns])
                    g.check([a.name for a in k.attrs] == [w], f"attribute {n} in the {side}", got=[a.name for a in k.attrs])
                    g.check([v[0] for v in root.kid("E").values][0] == w, f"enum item {n} in the {side}", got=root.kid("E").values)
                    g.check(root.kid(w) is not None and root.kid(w).kind == "module", f"namespace {n} in the {side}", kids=[x.name for x in root.kids])
                iface.compare(g)
    return ("keywords", "all Python keywords")


def class_keywords() -> tuple:
    for nb in (False, True):
        g = lg.generate(lg.options(nb), "struct None { int a; };\nstruct lambda { int b; struct pass { int c; }; void m(None n, const lambda & l, std::vector<pass> v); };\nenum class from { A };\nvoid f(None a, lambda b = lambda(), from c = from::A);\nstruct D : public None { int d; };\n")
        for side, root in (("stub", g.stub), ("binding code", g.pydef)):
            names = {n.name for _, n in root.walk()}
            g.check({"None_", "lambda_", "pass_", "from_", "D"} <= names, f"class names in the {side}", names=sorted(names))
            g.check(not any(keyword.iskeyword(x) for x in names), f"keyword in the {side}", names=sorted(names))
    return ("class_keywords", "classes named by keywords")


DIRECTED = [keywords_everywhere, class_keywords]
RANDOM = [(names_case, 1200), (api_case, 6000)]
