"""C16: namespaces become submodules, custom code lands once in its scope."""
from __future__ import annotations
import collections, random, re
from . import core, lg, out
from .iface import snake, py

POOL = ["Alpha", "Utils", "core", "Io2D", "Widgets", "math_ops", "Rt", "import", "GeoTools", "V1"]
HIDDEN = ["detail", "Internal", "MyDetails"]


class Ns:
    """one C++ namespace (all its occurrences)"""

    def __init__(self, name: str, parent: "Ns | None"):
        self.name, self.parent = name, parent
        self.kids: dict[str, Ns] = {}
        self.items: list[tuple] = []     # (kind, name, children) in order
        self.used = False
        self.inline = False

    def cpp(self) -> str:
        return (self.parent.cpp() + self.name + "::") if self.parent else ""

    def kid(self, name: str) -> "Ns":
        return self.kids.setdefault(name, Ns(name, self))


EXCLUDED = "[Ii]nternal|[Dd]etail"


def py_path(ns: Ns, roots: list[str], rx: str = EXCLUDED):
    """None if it is not exposed"""
    if ns.parent is None:
        return []
    p = py_path(ns.parent, roots, rx)
    if p is None or ns.name == "" or re.search(rx, ns.name):
        return None
    return p if ns.name in roots else p + [py(snake(ns.name))]


def case(rng: random.Random) -> tuple:
    nb = rng.random() < 0.5
    o = lg.options(nb)
    roots = rng.sample(POOL[:5], rng.choice([0, 0, 1, 1, 2]))
    o.namespaces_root = list(roots)
    if rng.random() < 0.3:
        o.python_reproduce_cpp_layout = not o.python_reproduce_cpp_layout
    rx = EXCLUDED
    if rng.random() < 0.3:
        one = [n for n in POOL if n not in roots]
        rx = o.namespace_exclude__regex = rng.choice([f"^{rng.choice(one)}$", f"^{rng.choice(one)}$|^detail$", rng.choice(one), f"{rng.choice(one)}$", "^Internal$", "^[a-z]"])
    root = Ns("", None)
    names = rng.sample([n for n in POOL if n not in roots], rng.choice([1, 2, 3])) + roots
    cnt = [0]

    def uid() -> int:
        cnt[0] += 1
        return cnt[0]

    def leaf(ns: Ns, ind: str) -> list[str]:
        k = uid()
        r = rng.random()
        if r < 0.5:
            ns.items.append(("fn", f"fn_{k}", []))
            if rng.random() < 0.4:
                return [f"{ind}inline int fn_{k}(int a)", f"{ind}{{", f"{ind}    return a;", f"{ind}}}"]
            return [f"{ind}{rng.choice(['int', 'void'])} fn_{k}(int a);"]
        if r < 0.85:
            c = rng.choice([f"Cls{k}", f"Cls{k}", "Node"])
            if roots or any(x[1] == c for x in ns.items):
                c = f"Cls{k}"
            inner = []
            body = [f"{ind}struct {c}", f"{ind}{{", f"{ind}    int m_{k};"]
            if rng.random() < 0.4:
                body += [f"{ind}    struct In{k}", f"{ind}    {{", f"{ind}        int z;", f"{ind}    }};"]
                inner.append(f"In{k}")
            if rng.random() < 0.3:
                body += [f"{ind}    void meth_{k}();"]
            ns.items.append(("cls", c, inner))
            return body + [f"{ind}}};"]
        ns.items.append(("enum", f"En{k}", []))
        return [f"{ind}enum class En{k} {{ first{k}, second{k} }};"]

    def block(ns: Ns, depth: int, ind: str) -> list[str]:
        o_: list[str] = []
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth else rng.choice([2, 3, 4, 5])):
            x = rng.random()
            if x < (0.75 if depth == 0 else 0.35 if depth < 3 else 0):
                y = rng.random()
                nm = "" if y < 0.07 else rng.choice(HIDDEN) if y < 0.14 else rng.choice(names)
                k = ns.kid(nm)
                k.used = True
                head = f"namespace {nm}".rstrip()
                if nm and rng.random() < 0.2:
                    n2 = rng.choice(names + HIDDEN[:1])
                    k = k.kid(n2)
                    k.used = True
                    head += "::" + n2
                elif nm and rng.random() < 0.1:
                    head = "inline " + head
                if rng.random() < 0.2:
                    o_.append(f"{ind}// about {uid()}")
                o_ += [ind + head, ind + "{"] if rng.random() < 0.7 else [ind + head + " {"]
                o_ += block(k, depth + 1, ind + "    ")
                o_.append(ind + "}" + rng.choice(["", f"  // namespace {nm}"]))
            else:
                o_ += leaf(ns, ind)
            if rng.random() < 0.2:
                o_.append("")
        return o_
    code = "\n".join(block(root, 0, "")) + "\n"
    allns: list[Ns] = []

    def walk(n: Ns) -> None:
        allns.append(n)
        for k in n.kids.values():
            walk(k)
    walk(root)
    # custom bindings: (scope, python path, class?, index)
    customs: list[tuple] = []
    targets: list[tuple] = [("main", "", [])]
    for n in allns[1:]:
        targets.append(("ns", n.cpp()[:-2], py_path(n, roots, rx)))
    for n in allns:
        p = py_path(n, roots, rx)
        for kind, c, inner in n.items:
            if kind == "cls":
                targets.append(("cls", n.cpp() + c, None if p is None else p + [c]))
                for i in inner:
                    targets.append(("cls", n.cpp() + c + "::" + i, None if p is None else p + [c, i]))
    targets.append(("ns", "Nowhere::At", None))
    targets.append(("cls", "Nowhere::Klass", None))
    for _ in range(rng.choice([0, 1, 2, 4, 6])):
        kind, q, path = rng.choice(targets)
        if kind == "ns" and any(x == "" for x in q.split("::")):
            continue
        k = 1000 + len(customs)
        v = {"main": "LG_MODULE", "ns": "LG_SUBMODULE", "cls": "LG_CLASS"}[kind]
        side = rng.choice(["both", "both", "both", "stub", "pydef"])
        st = f"""
            {'' if kind != 'ns' else '@staticmethod'}
            def custom_{k}(a: int,
                    b: str = "{{x}}") -> int:
                '''custom {k}'''
                ...
        """ if rng.random() < 0.6 else f"def custom_{k}(a: int) -> int: ...\nextra_{k}: int"
        pd = f"""
            {v}.def("custom_{k}", [](int a) {{
                if (a > 2)
                    return {k};
                return a; }});
            {v}.attr("again_{k}") = {v}.attr("custom_{k}");
        """ if rng.random() < 0.6 else f'{v}.def("custom_{k}", &impl_{k});'
        if kind == "ns" and path == []:
            st = st.replace("@staticmethod", "")
        fn = {"main": lambda a, b: o.custom_bindings.add_custom_bindings_to_main_module(a, b), "ns": lambda a, b: o.custom_bindings.add_custom_bindings_to_submodule(q, a, b), "cls": lambda a, b: o.custom_bindings.add_custom_bindings_to_class(q, a, b)}[kind]
        fn(st if side != "pydef" else None, pd if side != "stub" else None)
        customs.append((k, kind, q, path, side, "return" in pd, "extra_" in st))
    g = lg.generate(o, code)
    where = {"stub": index(g.stub), "pydef": index(g.pydef)}
    # every element in its module, and only there
    want_mods = set()
    for n in allns:
        p = py_path(n, roots, rx)
        if p is not None:
            want_mods.add(".".join(p))
            for kind, c, inner in n.items:
                for side in where:
                    g.check(".".join(p + [c]) in where[side], f"{kind} {n.cpp()}{c} is not in the module {'.'.join(p) or '(main)'} of the {side}", found=[x for x in where[side] if x.split('.')[-1] == c])
                for i in inner:
                    for side in where:
                        g.check(".".join(p + [c, i]) in where[side], f"class {n.cpp()}{c}::{i} is lost in the {side}")
                if kind == "fn":
                    f = [x for x in where["pydef"][".".join(p + [c])]][0]
                    g.check(re.sub(r"^&", "", f.target.strip()) == n.cpp() + c, f"function {n.cpp()}{c} is bound to {f.target}")
                elif kind == "cls":
                    f = [x for x in where["pydef"][".".join(p + [c])]][0]
                    g.check(f.cpp == n.cpp() + c, f"class {n.cpp()}{c} is bound to {f.cpp}")
    allowed = set()
    for n in allns:
        p = py_path(n, roots, rx)
        if p is not None:
            for kind, c, inner in n.items:
                allowed.add(".".join(p + [c]))
                allowed |= {".".join(p + [c, i]) for i in inner}
    for side, root_node in (("stub", g.stub), ("pydef", g.pydef)):
        for path, nodes in where[side].items():
            last = path.split(".")[-1]
            if last.startswith(("custom_", "again_", "extra_", "m_", "meth_", "z", "__init__", "first", "second", "value")) and last != "z9":
                continue
            if isinstance(nodes[0], out.Node) and nodes[0].kind == "module":
                g.check(path in want_mods, f"the {side} has a submodule {path} which corresponds to no exposed namespace", expected=sorted(want_mods))
                g.check(len(nodes) == 1 and nodes[0].occurrences == 1, f"the submodule {path} is created several times in the {side}")
            elif not path.startswith("Boxed"):
                g.check(path in allowed, f"the {side} exposes {path}, which must not be there", allowed=sorted(allowed))
                g.check(len(nodes) == 1, f"{path} appears {len(nodes)} times in the {side}")
        have = {p for p, ns in where[side].items() if isinstance(ns[0], out.Node) and ns[0].kind == "module"} | {""}
        g.check(want_mods == have, f"the submodules of the {side} are not the exposed namespaces", lost=sorted(want_mods - have), extra=sorted(have - want_mods))
    # custom code
    flat = re.sub(r"\s+", "", g.pydef_text)
    for side, text in (("stub", g.stub_text), ("pydef", g.pydef_text)):
        g.check(not re.search(r"LG_(CLASS|SUBMODULE|MODULE)\b", text), f"a placeholder of custom code is left in the {side}")
        for k, kind, q, path, s, multi, extra in customs:
            hits = [p for p in where[side] if p.split(".")[-1] == f"custom_{k}"]
            n = sum(len(where[side][p]) for p in hits)
            if path is None or s not in ("both", side):
                g.check(n == 0, f"custom code {k} of {q or 'the main module'} must not be in the {side}", found=hits)
                continue
            g.check(n == 1, f"custom code {k} of {q or 'the main module'} is emitted {n} times in the {side}", found=hits)
            g.check(hits[0] == ".".join(path + [f"custom_{k}"]), f"custom code {k} of {q or 'the main module'} is emitted in the wrong scope of the {side}", expected=".".join(path), got=hits[0])
            if side == "pydef":
                if multi:
                    g.check(f"[](inta){{if(a>2)return{k};returna;}}" in flat, f"custom code {k} is altered")
                    m = re.search(r"(\w+)\.attr\(\"again_%d\"\)\s*=\s*(\w+)\.attr\(\"custom_%d\"\)" % (k, k), text)
                    g.check(m is not None and m.group(1) == m.group(2), f"custom code {k}: a placeholder is not resolved to its scope")
            elif extra:
                g.check(".".join(path + [f"extra_{k}"]) in where[side], f"custom code {k}: lines are lost in the stub")
    # custom codes of one scope keep their order
    for side in where:
        pos: dict = {}
        text = g.stub_text if side == "stub" else g.pydef_text
        for k, kind, q, path, s, *_ in customs:
            if path is not None and s in ("both", side):
                pos.setdefault((kind, q), []).append(text.index(f"custom_{k}"))
        for kq, ps in pos.items():
            g.check(ps == sorted(ps), f"the custom codes of {kq[1]} are not in order in the {side}")
    return (code + repr(customs) + repr(roots), {"code": code, "roots": roots, "customs": [c[:5] for c in customs]})


def index(root: out.Node) -> dict[str, list]:
    r: dict[str, list] = {}

    def rec(n: out.Node, path: str) -> None:
        for k in n.kids:
            p = path + k.name
            r.setdefault(p, []).append(k)
            rec(k, p + ".")
        for f in n.fns:
            r.setdefault(path + f.name, []).append(f)
        for a in n.attrs:
            r.setdefault(path + a.name, []).append(a)
    rec(root, "")
    return r


def files() -> tuple:
    """several headers in one generation: the custom code is emitted once"""
    import litgen
    from litgen.litgen_generator import LitgenGenerator
    for _ in range(2):
        o = lg.options()
        o.custom_bindings.add_custom_bindings_to_main_module("def cust_main() -> int: ...", 'LG_MODULE.def("cust_main", &f);')
        o.custom_bindings.add_custom_bindings_to_submodule("A", "@staticmethod\ndef cust_a() -> int: ...", 'LG_SUBMODULE.def("cust_a", &f);')
        o.custom_bindings.add_custom_bindings_to_class("A::K", "def cust_k(self) -> int: ...", 'LG_CLASS.def("cust_k", &f);')
        for _run in range(2):
            gen = LitgenGenerator(o)
            gen.process_cpp_code("namespace A { struct K { int a; }; }", "one.h")
            gen.process_cpp_code("namespace A { int other(); }\nint third();", "two.h")
            for side, text in (("stub", gen.stub_code()), ("pydef", gen.pydef_code())):
                for w in ("cust_main", "cust_a", "cust_k"):
                    core.check(text.count(w) == 1, f"{w} is emitted {text.count(w)} times in the {side} of two headers", text=text, run=_run)
    return ("files", None)


DIRECTED = [files]
RANDOM = [(case, 4000)]
