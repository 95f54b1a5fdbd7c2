"""C07: every name of the binding code designates the entity that C++ finds. The bindings are compiled, and each function is called natively
and from Python with its default values; the names of the stub are resolved in the scopes of the stub."""
from __future__ import annotations
import ast, random, re
from dataclasses import dataclass, field
from typing import Any, Optional
from . import core, cxx, lg, iface

BUILTIN = {"List", "Dict", "Optional", "Callable", "Tuple", "Union", "Any", "str", "int", "float", "bool", "None", "object", "np.ndarray", "BoxedInt", "BoxedFloat", "BoxedDouble", "BoxedBool"}


@dataclass
class Ent:
    kind: str               # ns / class / enum / enumcls / item / const / fn
    name: str
    up: Optional["Ent"] = None
    kids: list["Ent"] = field(default_factory=list)
    base: Optional["Ent"] = None
    ident: int = 0
    py: str = ""

    def path(self) -> list[str]:
        return [] if self.up is None else self.up.path() + [self.name]

    def cpp(self) -> str:
        return "::".join(self.path())

    def pypath(self) -> list[str]:
        return [] if self.up is None else self.up.pypath() + [self.py]

    def own(self, name: str) -> Optional["Ent"]:
        for k in self.kids:
            if k.name == name:
                return k
        for k in self.kids:             # items of an unscoped enum also belong to its scope
            if k.kind == "enum":
                for i in k.kids:
                    if i.name == name:
                        return i
        if self.base is not None and self.base.name == name:
            return INJECTED     # in C++, the name of a class is one of its members; not in Python
        return self.base.own(name) if self.base else None

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


INJECTED = Ent("injected", "")


def lookup(scope: Ent, spelled: list[str]) -> Optional[Ent]:
    """C++ lookup of a qualified name"""
    s: Optional[Ent] = scope
    while s is not None:
        e = s.own(spelled[0])
        if e is not None:
            for n in spelled[1:]:
                e = e.own(n) if e.kind in ("ns", "class", "enum", "enumcls") else None
                if e is None:
                    return None
            return e
        s = s.up
    return None


NS = ["Na", "Nb", "Outer", "deepX"]
CLS = ["Foo", "Bar", "Item", "Box"]
ENU = ["Kind", "Mode"]
CON = ["kSize", "kCount"]
FNS = ["make", "Answer"]


class Prog:
    def __init__(self, rng: random.Random, inherit: bool = True, ordered: bool = False):
        self.r = rng
        self.ordered = ordered          # only use the types that are bound before the use
        self.inherit = inherit
        self.root = Ent("ns", "")
        self.n = 10
        self.calls: list[dict] = []
        self.uses: dict[tuple, list] = {}
        self.members: dict[tuple, list] = {}
        self.defs: list[str] = []
        self.natives: list[tuple] = []

    def ch(self, p: float) -> bool:
        return self.r.random() < p

    def num(self) -> int:
        self.n += 1
        return self.n

    def add(self, up: Ent, kind: str, name: str) -> Ent:
        e = Ent(kind, name, up, ident=self.num())
        e.py = name if kind in ("class", "enum", "enumcls") else iface.snake(name)
        up.kids.append(e)
        return e

    def fill(self, s: Ent, d: int) -> None:
        r = self.r
        for n in ENU:
            if self.ch(.4):
                e = self.add(s, r.choice(["enumcls", "enumcls", "enum"]), n)
                for i in r.sample(["aOne", "bTwo", "Foo", "Other"], 2) if e.kind == "enumcls" else [f"{n}_{x}" for x in ("aOne", "bTwo")]:
                    it = self.add(e, "item", i)
                    it.py = iface.snake(i[len(n) + 1:] if e.kind == "enum" else i)
        for n in CON:
            if self.ch(.3):
                self.add(s, "const", n)
        for n in FNS:
            if self.ch(.25):
                self.add(s, "fn", n)
        for n in CLS:
            if self.ch(.45 if d else .25) and n not in s.path():
                c = self.add(s, "class", n)
                if self.inherit and self.ch(.25):
                    b = [x for x in self.root.walk() if x.kind == "class" and x is not c and c not in self.ups(x) and x not in self.ups(c) and self.bound_before(x, s)]
                    if b:
                        c.base = r.choice(b)
                if d and self.ch(.5):
                    self.fill(c, 0 if self.ch(.7) else d - 1)
        if s.kind == "ns" and d:
            for n in r.sample(NS, r.randint(1, 2) if s.up is None else r.randint(0, 2)):
                if n not in s.path():
                    k = self.add(s, "ns", n)
                    self.fill(k, d - 1)

    def ups(self, e: Ent) -> list[Ent]:
        return [e] + (self.ups(e.up) if e.up else [])

    # ------------------------------------------------------------- spelling
    def spell(self, scope: Ent, e: Ent) -> Optional[str]:
        """one of the ways to designate an entity from a scope"""
        p = e.path()
        ways = []
        for i in range(len(p)):
            if lookup(scope, p[i:]) is e:
                ways.append(p[i:])
        if e.kind == "item" and e.up and e.up.kind == "enum":
            q = e.up.up.path() + [e.name]       # type: ignore
            for i in range(len(q)):
                if lookup(scope, q[i:]) is e:
                    ways.append(q[i:])
        # through a derived class
        s: Optional[Ent] = scope
        while s is not None:
            if s.kind == "class" and s.base is not None and lookup(scope, [e.name]) is e:
                ways.append([e.name])
            s = s.up
        if not ways:
            return None
        return "::".join(self.r.choice(ways))

    def base(self, e: Ent) -> str:
        p = e.base.path()       # type: ignore
        return "::".join(p) if lookup(e.up, p) is e.base else "::" + "::".join(p)        # type: ignore

    def spaces(self, e: Ent) -> list[Ent]:
        return [x for x in reversed(self.ups(e)) if x.kind == "ns"]

    def bound_before(self, e: Ent, scope: Ent) -> bool:
        """elements are bound in file order, but those of a nested namespace come after those of its parent"""
        if not self.ordered:
            return True
        a, b = self.spaces(e), self.spaces(scope)
        for x, y in zip(a, b):
            if x is not y:
                return x.up.kids.index(x) < x.up.kids.index(y)
        return len(a) <= len(b)

    def pick(self, scope: Ent, kinds: tuple, bound: bool = True) -> Optional[tuple]:
        c = [e for e in self.root.walk() if e.kind in kinds and e.up is not None]
        if bound:
            c = [e for e in c if e.kind in ("fn", "const") or self.bound_before(e, scope) and not (self.ordered and e in self.ups(scope))]
        self.r.shuffle(c)
        # prefer the entities that the scope makes ambiguous
        names = [e.name for e in c]
        c.sort(key=lambda e: -names.count(e.name) if self.r.random() < .7 else 0)
        for e in c[:6]:
            w = self.spell(scope, e)
            if w:
                return w, e
        return None

    # ------------------------------------------------------------- types and values: (C++, entities, value C++, entities of the value)
    def typed(self, scope: Ent) -> Optional[tuple]:
        r = self.r
        k = r.random()
        if k < .45:
            t = self.pick(scope, ("class",))
            if not t:
                return None
            w, e = t
            return w, [e], w + r.choice(["()", "()", "{}"] if scope.up is None or scope.kind == "class" else ["()"]), [e]
        if k < .7:
            it = self.pick(scope, ("item",))
            if not it:
                return None
            w = self.spell(scope, it[1].up)
            return (w, [it[1].up], it[0], [it[1]]) if w else None
        if k < .85:
            c = self.pick(scope, ("const",))
            if not c:
                return None
            x = r.choice([c[0], c[0], f"{c[0]} + 1", f"2 * {c[0]}"])
            if self.ch(.2):
                c2 = self.pick(scope, ("const",))
                if c2:
                    return "int", [], f"{c[0]} + {c2[0]}", [c[1], c2[1]]
            return "int", [], x, [c[1]]
        f = self.pick(scope, ("fn",))
        return ("int", [], f[0] + "()", [f[1]]) if f else None

    def wrap(self, scope: Ent) -> Optional[tuple]:
        t = self.typed(scope)
        if t is None:
            return None
        c, ce, v, ve = t
        k = self.r.random()
        if c == "int" or k < .55:
            return t
        if k < .7:
            return f"const {c} &", ce, v, ve
        if k < .8:
            return f"std::vector<{c}>", ce, f"std::vector<{c}>()", ce
        if k < .88:
            t2 = self.pick(scope, ("class",))
            if t2:
                return f"std::map<int, {t2[0]}>", [t2[1]], f"std::map<int, {t2[0]}>()", [t2[1]]
            return t
        if k < .94:
            return f"std::optional<{c}>", ce, "std::nullopt", []
        return f"const std::vector<{c}> &", ce, f"std::vector<{c}>()", ce

    # ------------------------------------------------------------- C++ text
    def decl(self, e: Ent, ind: int) -> list[str]:
        p = "    " * ind
        L: list[str] = []
        st = "static " if e.up is not None and e.up.kind == "class" else ""
        if e.kind == "ns":
            L = [p + f"namespace {e.name} {{"] if e.up else []
            for k in e.kids:
                L += self.decl(k, ind + (1 if e.up else 0))
            if e.up:
                L.append(p + "}")
        elif e.kind == "class":
            L = [p + f"struct {e.name}" + (f" : public {self.base(e)}" if e.base else "") + " {"]
            L.append(p + f"    int id_{e.ident} = {e.ident};")
            for k in e.kids:
                L += self.decl(k, ind + 1)
            L.append(p + "};")
        elif e.kind in ("enum", "enumcls"):
            L = [p + f"enum {'class ' if e.kind == 'enumcls' else ''}{e.name} {{ {', '.join(f'{k.name} = {k.ident}' for k in e.kids)} }};"]
        elif e.kind == "const":
            L = [p + (f"static constexpr int {e.name} = {e.ident};" if st else f"constexpr int {e.name} = {e.ident};")]
        elif e.kind == "fn":
            L = [p + f"{st or 'inline '}int {e.name}() {{ return {e.ident}; }}"]
        return L

    def use_fn(self, scope: Ent, name: str, owner: Optional[str], static: bool = False) -> tuple:
        """declaration, definition; records the entities that the parameters denote"""
        r = self.r
        ps = []
        for i in range(r.randint(1, 3)):
            t = self.wrap(scope)
            if t:
                ps.append((f"p{i}",) + t)
        bx = self.ch(.2)
        ret = self.pick(scope, ("class", "enum", "enumcls")) if self.ch(.3) else None
        arr = self.ch(.15)
        sig = (["int & boxed"] if bx else []) + (["const int arr[2]"] if arr else [])
        nat_req = (["q_"] if bx else []) + (["a_"] if arr else [])
        rt = ret[0] if ret else "void"
        decl = f"{rt} {name}({', '.join(sig + [f'{c} {n} = {v}' for n, c, _, v, _ in ps])})"
        return decl, ps, bx, arr, ret, nat_req


def sc_prefix(e: Ent) -> str:
    c = e.cpp()
    return c + "::" if c else ""


def dotted(src: str) -> list[str]:
    """the dotted names of an expression, in source order"""
    t = ast.parse(src.strip(), mode="eval")
    got = []

    def go(n: Any) -> None:
        if isinstance(n, (ast.Attribute, ast.Name)):
            x = n
            while isinstance(x, ast.Attribute):
                x = x.value
            if isinstance(x, ast.Name):
                got.append(ast.unparse(n))
                return
        for k in ast.iter_child_nodes(n):
            go(k)
    go(t)
    return got


class Resolver:
    """names of the stub, found as the reader does: from the innermost scope outwards, through base classes"""

    def __init__(self, p: Prog):
        self.by = {".".join(e.pypath()): e for e in p.root.walk() if e.up is not None}
        for e in p.root.walk():
            if e.kind in ("const", "fn", "item"):       # as default values, those may keep their C++ name (documented limitation)
                self.by.setdefault(".".join(e.up.pypath() + [e.name]), e)
            if e.kind == "item" and e.up.kind == "enum":
                self.by.setdefault(".".join(e.up.up.pypath() + [e.name]), e)
        derived = [x for x in p.root.walk() if x.kind == "class" and x.base is not None]
        for _ in range(4):              # inherited names, also through the bases of the bases and of the nested classes
            for e in derived:
                b = ".".join(e.base.pypath()) + "."
                for k, x in list(self.by.items()):
                    if k.startswith(b):
                        self.by.setdefault(".".join(e.pypath()) + "." + k[len(b):], x)

    def find(self, scope: list[str], name: str) -> Optional[Ent]:
        for i in range(len(scope), -1, -1):
            e = self.by.get(".".join(scope[:i] + [name]))
            if e is not None:
                return e
        return None

    def check(self, g: lg.Gen, where: str, scope: list[str], shown: str, want: list[Ent], owner: bool = False) -> None:
        try:
            names = [n for n in dotted(shown) if n not in BUILTIN]
        except SyntaxError:
            g.fail(f"{where}: {shown!r} is not valid Python")
            return
        if len(names) != len(want):
            g.fail(f"{where}: {shown!r} should refer to {[e.cpp() for e in want]}")
        for n, e in zip(names, want):
            got = self.find(scope, n)
            if got is not e and owner and e.kind in ("const", "fn") and self.find(scope[:-1], n) is e:
                got = e         # the signatures of methods are relative to the scope that contains the class
            if got is not e and e.kind == "item" and e.up.kind == "enum" and self.find(scope, e.up.py) is not e.up:       # type: ignore
                continue        # an enumerator without the name of its enum, where that name is hidden (documented limitation)
            full = ".".join(e.pypath())
            if got is None:
                g.fail(f"{where}: {n!r} (in {shown!r}) designates nothing in the stub: expected (a suffix of) {full!r}")
            if got is not e:
                g.fail(f"{where}: {n!r} (in {shown!r}) designates {'.'.join(got.pypath())!r}, but the C++ code designates {full!r}")      # type: ignore
            p = e.pypath()
            common = 0
            sc = scope[:-1] if owner else scope
            while common < len(sc) and common < len(p) - 1 and sc[common] == p[common]:
                common += 1
            k = len(n.split("."))
            if (full.endswith("." + n) or full == n) and not where.endswith("member " + where.split()[-1]):      # (the types of members are shown as written)
                shorter = [".".join(p[j:]) for j in range(len(p) - k + 1, common + 1)]
                if shorter and k > len(p) - common + 1 and self.find(scope, shorter[-1]) is e and self.find(scope, ".".join(p[max(common - 1, 0):])) is e:
                    g.fail(f"{where}: the scope {'.'.join(scope)!r} makes the prefix of {n!r} (in {shown!r}) redundant: {shorter[-1]!r} designates {full!r}")


def opts(rng: random.Random, nb: bool) -> Any:
    kw: dict[str, Any] = {}
    if rng.random() < .5:
        kw["fn_params_adapt_mutable_param_with_default_value__regex"] = ""
    if rng.random() < .4:
        kw["fn_params_output_modifiable_immutable_to_return__regex"] = ".*"
    else:
        kw["fn_params_replace_modifiable_immutable_by_boxed__regex"] = ".*"
    if rng.random() < .3:
        kw["class_create_default_named_ctor__regex"] = ""
    if rng.random() < .5:
        kw["class_override_virtual_methods_in_python__regex"] = "^Use"
    return lg.options(nb, **kw)


def program(rng: random.Random, ordered: bool = False) -> tuple:
    inherit = True
    p = Prog(rng, inherit, ordered)
    for _ in range(20):
        p.root.kids = []
        p.fill(p.root, rng.choice([1, 2, 2]))
        ents = [e for e in p.root.walk() if e.kind == "class"]
        if len(ents) >= 3:
            break
    else:
        raise core.Skip()
    L = p.decl(p.root, 0)
    # uses: reopened namespaces, classes with methods and nested types
    spaces = [e for e in p.root.walk() if e.kind == "ns"]
    natives, calls, stubchecks, defs = [], [], [], []
    hdr: list[str] = []
    n = 0
    for s in rng.sample(spaces, min(len(spaces), rng.randint(1, 3))):
        body: list[str] = []
        scope_py = s.pypath()
        for _ in range(rng.randint(1, 2)):
            n += 1
            nm = f"use{n}"
            decl, ps, bx, arr, ret, req = p.use_fn(s, nm, None)
            if not ps and not ret:
                continue
            body.append(f"{decl}@{len(defs)}@")
            defs.append(body_of(ps, bx, arr, ret))
            stubchecks.append(("fn", scope_py, nm, ps, ret))
            natives.append((f"use{n}", f"{sc_prefix(s)}{nm}", req, ".".join(["m"] + scope_py + [iface.snake(nm)]), bx, arr))
        if rng.random() < .7:
            n += 1
            cn = f"Use{n}"
            c = p.add(s, "class", cn)
            c.ident = n
            inner: list[str] = []
            if rng.random() < .5:
                p.fill(c, 0)
                for k in c.kids:
                    inner += p.decl(k, 1)
            if inherit and rng.random() < .4:
                b = [x for x in p.root.walk() if x.kind == "class" and x not in p.ups(c) and c not in p.ups(x) and not x.name.startswith("Use") and p.bound_before(x, s)]
                if b:
                    c.base = rng.choice(b)
            ml, pure = [], False
            ml.append(f"    int id_{c.ident} = {c.ident};")
            mem = []
            for i in range(rng.randint(0, 2)):
                t = p.typed(c)
                if t and t[0] != "int" and "{" not in t[2]:
                    ml.append(f"    {t[0]} memb{i} = {t[2]};")
                    mem.append((f"memb{i}",) + t)
                elif t and t[0] == "int":
                    ml.append(f"    int memb{i} = {t[2]};")
                    mem.append((f"memb{i}",) + t)
            stubchecks.append(("mem", c.pypath(), cn, mem, None))
            for _ in range(rng.randint(1, 2)):
                n += 1
                nm = f"use{n}"
                decl, ps, bx, arr, ret, req = p.use_fn(c, nm, cn)
                if not ps and not ret:
                    continue
                kind = rng.choice(["", "", "static ", "virtual "])
                ml.append(f"    {kind}{decl}@{len(defs)}@")
                defs.append(body_of(ps, bx, arr, ret))
                stubchecks.append(("meth", c.pypath(), nm, ps, ret))
                ob = c.cpp() + ("::" if kind == "static " else "().")
                po = ".".join(["m"] + c.pypath()) + ("" if kind == "static " else "()")
                natives.append((f"use{n}", f"{ob}{nm}", req, f"{po}.{iface.snake(nm)}", bx, arr))
            body += [f"struct {cn}" + (f" : public {p.base(c)}" if c.base else "") + " {"] + inner + ml + ["};"]
            # named constructor: the members are copied from the default values
            if mem:
                natives.append((f"mem{n}", None, [f"[] {{ {c.cpp()} x; " + "".join(f"A((long) x.{m[0]}); " for m in mem if not m[2] or m[2][0].kind != "class") + "}"],
                                ("copy", c, [m for m in mem if not m[2] or m[2][0].kind != "class"]), False, False))
        open_ = " ".join(f"namespace {x} {{" for x in s.path())
        hdr += [open_] if open_ else []
        hdr += body
        hdr += [" ".join("}" for _ in s.path())] if open_ else []
    if not natives:
        raise core.Skip()
    header = "\n".join(L + hdr) + "\n"
    return p, header, defs, natives, stubchecks


def body_of(ps: list, bx: bool, arr: bool, ret: Any) -> str:
    b = "".join(f"V({n}); " for n, c, ce, v, ve in ps)
    if bx:
        b += "V(boxed); boxed += 1; "
    if arr:
        b += "V(arr[0]); V(arr[1]); "
    if ret:
        e = ret[1]
        b += f"return ::{e.cpp()}(); " if e.kind == "class" else f"return static_cast<::{e.cpp()}>({e.kids[0].ident}); "
    return "{ " + b + "}"


LOGGER = """template<class T> void V(const T& x) { if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) A((long) x); else LOG_ += "o;"; }
"""


def glue_natives(natives: list) -> str:
    L = []
    for key, call, req, py, bx, arr in natives:
        if call is None:
            L.append(f'm.def("_n_{key}", {req[0]});')
        else:
            args = ", ".join(({"q_": "q_", "a_": "a_"})[x] for x in req)
            L.append(f'm.def("_n_{key}", [] {{ int q_ = 5; int a_[2] = {{3, 4}}; {call}({args}); }});')
    return "\n".join(L)


def stub_checks(p: Prog, g: lg.Gen, stubchecks: list) -> None:
    rs = Resolver(p)
    s = g.stub
    for e in p.root.walk():
        if e.kind == "class":
            n = s.find(".".join(e.pypath()))
            g.check(n is not None, f"class {e.cpp()} is missing from the stub")
            want = [".".join(e.base.pypath())] if e.base else []
            g.check(n.bases == want, f"the class {e.cpp()} has the base {e.base.cpp() if e.base else None} in C++, but {n.bases} in the stub")       # type: ignore
    for kind, path, nm, ps, ret in stubchecks:
        n = s.find(".".join(path))
        g.check(n is not None, f"{'.'.join(path)} is missing from the stub")
        if kind == "mem":
            for m, c, ce, v, ve in ps:
                a = next((x for x in n.attrs if x.name == m), None)       # type: ignore
                g.check(a is not None, f"member {m} is missing from the stub")
                ce_ = next(x for x in p.root.walk() if x.kind == "class" and x.pypath() == path)
                inherited = ce_.base is not None and any(ce_.base.own(w) for w in re.findall(r"[A-Za-z_]\w*", c + " " + v))
                if inherited:           # members are shown as written: the inherited names that they use are not qualified (documented limitation)
                    continue
                rs.check(g, f"type of the member {m}", path, a.ann or "", ce, True)       # type: ignore
                # (functions, constants and unprefixed enumerators keep the name that they have in C++)
                if a.value and not any(x.kind in ("fn", "const") or x.kind == "item" and x.up.kind == "enum" for x in ve):         # type: ignore
                    rs.check(g, f"value of the member {m}", path, a.value, ve, True)      # type: ignore
            continue
        f = next((x for x in n.fns if x.name == iface.snake(nm)), None)      # type: ignore
        g.check(f is not None, f"{nm} is missing from the stub")
        by = {q.name: q for q in f.params}         # type: ignore
        for q, c, ce, v, ve in ps:
            g.check(q in by, f"parameter {q} of {nm} is missing from the stub")
            rs.check(g, f"type of {q} in {nm}", path, by[q].ann or "", ce, kind == "meth")
            if by[q].default not in (None, "None"):
                rs.check(g, f"default value of {q} in {nm}", path, by[q].default or "", ve, kind == "meth")
        if ret:
            rs.check(g, f"return type of {nm}", path, f.ret or "", [ret[1]], kind == "meth")      # type: ignore


def run(rng: random.Random, prog: tuple, nb: bool, compiled: bool, o: Any = None) -> tuple:
    p, header, defs, natives, stubchecks = prog
    o = o or opts(rng, nb)
    g = lg.generate(o, re.sub(r"@\d+@", ";", header))
    stub_checks(p, g, stubchecks)
    if compiled:
        hdr = LOGGER + re.sub(r"@(\d+)@", lambda m: " " + defs[int(m.group(1))], re.sub(r"(?m)^(?=\w.*@\d+@)", "inline ", header))
        try:
            ddir, name, src = cxx.build(nb, hdr, "", g.glue_text, g.pydef_text + "\n" + glue_natives(natives))
        except cxx.CompileError as e:
            try:
                cxx.build(nb, hdr, "", "", "")
            except cxx.CompileError as e2:
                raise core.Skip() from e2     # the generated header is not valid C++
            g.fail("the binding code does not compile: " + str(e)[:500])
        cs: list[dict] = []
        for key, call, req, py, bx, arr in natives:
            cs.append({"call": f"m._n_{key}()"})
            if call is None:
                cs.append({"setup": [f"x = m.{'.'.join(py[1].pypath())}()"], "call": "''.join(str(int(v)) + ';' for v in [" + ", ".join(f"x.{m[0]}" for m in py[2]) + "])", "checks": [["r", ""]]})
            else:
                a = []
                if bx:
                    a.append("5" if o.fn_params_output_modifiable_immutable_to_return__regex else "m.BoxedInt(5)")
                if arr:
                    a.append("[3, 4]")
                cs.append({"call": f"{py}({', '.join(a)})"})
        res = cxx.execute(ddir, name, cs)
        if any(re.search(r"import: .*(not registered yet|unknown base type|bad_cast|bad cast)", x.get("exc", "")) or re.search(r"unknown base type", x.get("crash", "")) for x in res):
            raise core.Skip()       # a default value or a base class whose type is bound later (documented limitation)
        for i, (key, call, req, py, bx, arr) in enumerate(natives):
            a, b = (res[2 * i], res[2 * i + 1]) if 2 * i + 1 < len(res) else ({"log": ""}, res[-1])
            what = f"calling {py} with its default values" if call else f"constructing {'.'.join(py[1].pypath())} with its default values"
            if "crash" in a or "crash" in b:
                g.fail(f"{what} ends the process: {b.get('crash') or a.get('crash')}")
            if "exc" in b:
                g.fail(f"{what} raises: {b['exc']}")
            if "exc" in a:
                raise RuntimeError(a["exc"])
            if call is None:
                if b["checks"][0] != repr(a["log"]):
                    g.fail(f"{what}: the members are {b['checks'][0]}, but the C++ default values are {a['log']!r}")
            elif a["log"] != b["log"]:
                g.fail(f"{what}: the C++ function receives {b['log']!r}, but the C++ default values are {a['log']!r}")
    return g.code, g.code[:300]


def names(rng: random.Random) -> tuple:
    return run(rng, program(rng), rng.random() < .4, False)


def compiled(rng: random.Random) -> tuple:
    return run(rng, program(rng, True), rng.random() < .4, True)


def checked(header: str, stub_has: list[str], natives: list, nb: bool, **kw: Any) -> tuple:
    """compiles the bindings of a header; the functions are called natively and from Python"""
    o = lg.options(nb, **kw)
    g = lg.generate(o, re.sub(r"\{ V\(.*?\) *;? *\}(?! *;)", ";", header))
    for x in stub_has:
        g.check(x in g.stub_text, f"the stub should contain {x!r}")
    try:
        ddir, name, _ = cxx.build(nb, LOGGER + header, "", g.glue_text, g.pydef_text + "\n" + "\n".join(f'm.def("_n_{i}", [] {{ {c}; }});' for i, (c, _) in enumerate(natives)))
    except cxx.CompileError as e:
        g.fail("the binding code does not compile: " + str(e)[:500])
    res = cxx.execute(ddir, name, [{"call": x} for i, (_, py) in enumerate(natives) for x in (f"m._n_{i}()", py)])
    for i, (c, py) in enumerate(natives):
        a, b = res[2 * i], (res[2 * i + 1] if 2 * i + 1 < len(res) else res[-1])
        g.check("exc" not in b and "crash" not in b and a.get("log") == b.get("log"), f"{py}: the C++ function receives {b.get('log', b)!r}, but the C++ default values are {a.get('log')!r}")
    return g.code, g.code[:200]


D1 = """
namespace P { struct B { int v = 1; enum E { E_one = 4, E_two = 5 }; }; struct D { struct K { int v = 2; }; }; constexpr int size = 7; }
namespace C { struct K { int v = 3; }; constexpr int size = 8; inline int f() { return 9; } namespace P { constexpr int size = 10; } }
namespace P { inline void g1(int a = size, int b = C::size, int c = ::P::size) { V(a + 100 * b + 10000 * c); }
inline void g2(B::E e = B::E::E_two) { V((int) e); }
inline void g3(B::E e = B::E_two) { V((int) e); } }
namespace C { inline void g4(int a = size, int b = P::size, int c = f()) { V(a + 100 * b + 10000 * c); } }
"""


def dir_scopes(nb: bool):
    def run_() -> tuple:
        return checked(D1, ["def g1", "def g4"], [("P::g1()", "m.p.g1()"), ("P::g2()", "m.p.g2()"), ("P::g3()", "m.p.g3()"), ("C::g4()", "m.c.g4()")], nb)
    return run_


D2 = """
namespace N { enum class Mode { aa = 1, bb = 2 }; struct Base { static constexpr int kSize = 5; enum class Mode { aa = 11, bb = 12 }; static int make() { return 13; } };
struct Mid : public Base { int x = 0; };
struct Other { static constexpr int kSize = 6; };
struct Use : public Mid { void h1(int a = kSize, int b = make()) { V(a + 100 * b); } void h2(Mode m = Mode::bb) { V((int) m); } void h3(N::Mode m = N::Mode::bb) { V((int) m); } }; }
struct Priv : protected N::Base { void h4(int a = kSize) { V(a); } void h5(int a = N::Other::kSize) { V(a); } };
"""


def dir_inherited(nb: bool):
    def run_() -> tuple:
        return checked(D2, ["class Use("], [("N::Use().h1()", "m.n.Use().h1()"), ("N::Use().h2()", "m.n.Use().h2()"), ("N::Use().h3()", "m.n.Use().h3()"),
                                               ("Priv().h4()", "m.Priv().h4()"), ("Priv().h5()", "m.Priv().h5()")], nb)
    return run_


def dir_bases() -> tuple:
    """the base class is searched in the innermost scope first"""
    g = lg.generate(lg.options(False), """
struct D { struct K { int a = 0; }; };
struct K { int a = 0; };
namespace A { namespace D { struct K { int b = 0; }; } struct K { int c = 0; };
  namespace B { struct KK : public K { int d = 0; }; struct KD : public D::K { int d = 0; }; struct KG : public ::K { int d = 0; }; struct KGD : public ::D::K { int d = 0; };
    struct K { int e = 0; }; } }
namespace Z { struct Z1 : public A::K { int f = 0; }; struct Z2 : public K { int f = 0; }; struct Z3 : public A::D::K { int f = 0; }; }
""")
    want = {"a.b.KD": "a.d.K", "a.b.KG": "K", "a.b.KGD": "D.K", "z.Z1": "a.K", "z.Z2": "K", "z.Z3": "a.d.K"}
    cpp = {"KD": "A::D::K", "KG": "::K", "KGD": "::D::K", "Z1": "A::K", "Z2": "K", "Z3": "A::D::K"}
    for k, b in want.items():
        n = g.stub.find(k)
        g.check(n is not None, f"{k} is missing from the stub")
        g.check(n.bases == [b], f"the class {k} has the base {cpp[k.split('.')[-1]]} in C++: {b} is expected in the stub, not {n.bases}")      # type: ignore
        m = re.search(r"class_<([\w:]*\b" + k.split(".")[-1] + r"), ([\w:]+)>", g.pydef_text)
        g.check(m is not None and m.group(2).lstrip(":") == cpp[k.split(".")[-1]].lstrip(":"), f"the base class of {k} is {m and m.group(2)} in the binding code")     # type: ignore
    return g.code, g.code[:200]


def dir_later() -> tuple:
    """a name that an inner scope declares after its use"""
    return checked("""
constexpr int size = 3;
namespace P { inline void g(int a = size) { V(a); } constexpr int size = 4; }
""", [], [("P::g()", "m.p.g()")], False)


DIRECTED: list = [dir_scopes(False), dir_scopes(True), dir_inherited(False), dir_inherited(True), dir_bases, dir_later]
RANDOM = [(names, 400), (compiled, 60)]
