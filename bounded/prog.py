"""Random C++ headers with their ground truth (what was declared, where, with which comments)."""
from __future__ import annotations
import keyword, random, re
from dataclasses import dataclass, field
from typing import Any, Optional, Union

WORDS = ["get", "set", "max", "value", "item", "node", "load", "data", "count", "index", "ratio", "mode", "path", "line", "point", "color", "width", "total", "cache", "frame", "label", "key", "apply", "reset", "merge", "scan"]


def snake(words: list[str]) -> str:
    return "_".join(words)


class Names:
    """identifiers with a known snake-case form; fresh: no two names share their Python form"""

    def __init__(self, rng: random.Random) -> None:
        self.rng = rng
        self.used: set[str] = set()

    def words(self) -> list[str]:
        for _ in range(1000):
            w = [self.rng.choice(WORDS) for _ in range(self.rng.choice([1, 2, 2, 3]))]
            if len(set(w)) == len(w) and snake(w) not in self.used and not keyword.iskeyword(snake(w)):
                self.used.add(snake(w))
                return w
        n = len(self.used)
        self.used.add(f"extra{n}")
        return [f"extra{n}"]

    def var(self) -> str:
        w = self.words()
        st = self.rng.choice(["snake", "lower", "upper", "lower"])
        return style(w, st)

    def fn(self) -> str:
        return style(self.words(), self.rng.choice(["snake", "lower", "upper", "upper"]))

    def cls(self) -> str:
        return style(self.words(), "upper")

    def ns(self) -> str:
        return style(self.words(), self.rng.choice(["snake", "upper"]))

    def any(self) -> str:
        return style(self.words(), self.rng.choice(["snake", "lower", "upper"]))


def style(w: list[str], st: str) -> str:
    if st == "snake":
        return "_".join(w)
    if st == "upper":
        return "".join(x.capitalize() for x in w)
    if st == "lower":
        return w[0] + "".join(x.capitalize() for x in w[1:])
    if st == "SCREAM":
        return "_".join(w).upper()
    raise ValueError(st)


@dataclass
class P:
    type: str
    name: str
    default: str = ""
    suffix: str = ""       # "[3]"

    def cpp(self) -> str:
        return f"{self.type} {self.name}{self.suffix}".rstrip() + (f" = {self.default}" if self.default else "")


@dataclass
class Item:
    doc: list[str] = field(default_factory=list)     # comment lines just before
    eol: str = ""                                    # comment at the end of the line
    blank_before: int = 0


@dataclass
class F(Item):
    name: str = ""
    ret: str = "void"                                # "" for constructors
    params: list[P] = field(default_factory=list)
    pre: str = ""                                    # "static " / "virtual " / "MY_API "
    post: str = ""                                   # " const" / " = delete"
    template: str = ""
    body: str = ""

    @property
    def static(self) -> bool:
        return "static " in self.pre

    @property
    def deleted(self) -> bool:
        return "= delete" in self.post

    def lines(self, ind: str) -> list[str]:
        r = f"{self.ret} " if self.ret else ""
        s = f"{self.pre}{r}{self.name}({', '.join(p.cpp() for p in self.params)}){self.post}" + (self.body or ";")
        out = []
        if self.template:
            s = self.template + " " + s
        return deco(self, ind, [s])


@dataclass
class M(Item):
    name: str = ""
    type: str = "int"
    default: str = ""
    suffix: str = ""
    pre: str = ""

    def lines(self, ind: str) -> list[str]:
        return deco(self, ind, [f"{self.pre}{self.type} {self.name}{self.suffix}" + (f" = {self.default}" if self.default else "") + ";"])


@dataclass
class En(Item):
    name: str = ""
    scoped: bool = True
    base: str = ""
    values: list["EV"] = field(default_factory=list)

    def lines(self, ind: str) -> list[str]:
        body = [f"enum {'class ' if self.scoped else ''}{self.name}{' : ' + self.base if self.base else ''}", "{"]
        for i, v in enumerate(self.values):
            last = i == len(self.values) - 1
            body += v.lines("    ", last)
        body.append("};")
        return deco(self, ind, body)


@dataclass
class EV(Item):
    name: str = ""
    init: Optional[str] = None

    def lines(self, ind: str, last: bool) -> list[str]:
        s = self.name + (f" = {self.init}" if self.init is not None else "") + ("" if last else ",")
        return deco(self, ind, [s])


@dataclass
class C(Item):
    name: str = ""
    kind: str = "struct"
    bases: list[tuple] = field(default_factory=list)     # (access, name)
    sections: list[tuple] = field(default_factory=list)  # (access or "", [items])
    template: str = ""
    final: bool = False

    def lines(self, ind: str) -> list[str]:
        b = (" : " + ", ".join((a + " " if a else "") + n for a, n in self.bases)) if self.bases else ""
        body = [f"{self.kind} {self.name}{' final' if self.final else ''}{b}", "{"]
        if self.template:
            body = [self.template] + body
        for acc, items in self.sections:
            if acc:
                body.append(f"{acc}:")
            for it in items:
                body += it.lines("    ")
        body.append("};")
        return deco(self, ind, body)

    def members(self):
        cur = "private" if self.kind == "class" else "public"
        for acc, items in self.sections:
            if acc:
                cur = acc
            for it in items:
                yield cur, it


@dataclass
class N(Item):
    name: str = ""
    items: list = field(default_factory=list)

    def lines(self, ind: str) -> list[str]:
        body = [f"namespace {self.name}".rstrip(), "{"]
        for it in self.items:
            body += it.lines("    ")
        body.append("}")
        return deco(self, ind, body)


@dataclass
class Raw(Item):
    text: list[str] = field(default_factory=list)

    def lines(self, ind: str) -> list[str]:
        return [ind + t for t in self.text]


def deco(it: Item, ind: str, body: list[str]) -> list[str]:
    out = [""] * it.blank_before
    out += [ind + "// " + d for d in it.doc]
    b = [ind + x for x in body]
    if it.eol:
        k = 0 if isinstance(it, (C, N, En)) else len(b) - 1
        b[k] += "  // " + it.eol
    return out + b


def render(items: list) -> str:
    out = []
    for it in items:
        out += it.lines("")
    return "\n".join(out) + "\n"


# plain types: (C++ type, default values)
TYPES = [("int", ["3", "-1"]), ("double", ["1.5", "0."]), ("float", ["2.5f"]), ("bool", ["true", "false"]), ("std::string", ['"abc"']),
         ("const std::string &", ['"k"']), ("std::vector<int>", []), ("unsigned int", ["7"]), ("size_t", ["0"]), ("const char *", ['"z"', "nullptr"]),
         ("std::map<std::string, int>", []), ("std::optional<int>", ["std::nullopt"]), ("uint8_t", ["1"]), ("long long", []), ("const std::vector<std::string> &", [])]
RETS = ["void", "int", "double", "bool", "std::string", "std::vector<float>", "const std::string &"]


@dataclass
class Cfg:
    depth: int = 2
    items: int = 4
    overloads: bool = True
    docs: bool = False
    classes: bool = True
    namespaces: bool = True
    private: bool = True
    bases: bool = True
    reopen: bool = True
    defaults: float = 0.4
    class_types: bool = True
    statics: bool = True
    globals: bool = False
    deleted: bool = True
    keywords: bool = False
    ctors: bool = True
    rich: bool = False        # parameters subject to adaptations
    templates: bool = False
    operators: bool = False


class Gen:
    def __init__(self, rng: random.Random, cfg: Optional[Cfg] = None) -> None:
        self.rng = rng
        self.cfg = cfg or Cfg()
        self.names = Names(rng)
        self.nid = 0
        self.known: list[tuple[str, str]] = []     # (qualified C++ class name, python path) complete classes
        self.enums: list[tuple[str, str, str]] = []  # qualified name, an enumerator

    def doc(self, it: Item) -> None:
        if not self.cfg.docs:
            return
        r = self.rng.random()
        if r < 0.35:
            it.doc = [self.text() for _ in range(self.rng.choice([1, 1, 2]))]
        elif r < 0.6:
            it.eol = self.text()
        if self.rng.random() < 0.3:
            it.blank_before = 1

    def text(self) -> str:
        self.nid += 1
        return f"doc{self.nid}x about {self.rng.choice(WORDS)}"

    def type(self, scope: str) -> tuple[str, list[str]]:
        if self.cfg.class_types and self.rng.random() < 0.2:
            pool = [("c", q) for q, _ in self.known] + [("e", e) for e in self.enums]
            if pool:
                k, x = self.rng.choice(pool)
                if k == "c":
                    return self.rng.choice([f"const {x} &", f"{x} *", x]), []
                q, v = x[0], x[1]
                return q, [v]
        return self.rng.choice(TYPES)

    def params(self, scope: str, maxn: int = 4) -> list[P]:
        n = self.rng.choice([0, 1, 1, 2, 2, 3, maxn])
        ps = []
        nm = Names(self.rng)
        for _ in range(n):
            t, ds = self.type(scope)
            ps.append((t, ds, nm.var()))
        # defaults only on a suffix
        out: list[P] = []
        k = self.rng.randint(0, n) if self.rng.random() < self.cfg.defaults * 1.5 else n
        for i, (t, ds, name) in enumerate(ps):
            if i >= k and not ds:
                k = i + 1
        for i, (t, ds, name) in enumerate(ps):
            out.append(P(t, name, self.rng.choice(ds) if i >= k and ds else ""))
        if self.cfg.rich and self.rng.random() < 0.6:
            out = self.enrich(out, nm)
        return out

    def enrich(self, ps: list[P], nm: "Names") -> list[P]:
        """adds groups of parameters which litgen adapts"""
        r = self.rng
        n = sum(1 for p in ps if not p.default)
        for _ in range(r.choice([1, 1, 2])):
            k = r.randint(0, n)
            a = nm.var()
            g = r.choice([
                [P(r.choice(["int", "float", "double", "bool", "std::string", "unsigned int"]) + r.choice([" *", " &"]), a)],
                [P(r.choice(["const int *", "const float &", "const double *"]), a)],
                [P("int", a, suffix=f"[{r.randint(1, 4)}]")],
                [P("const float", a, suffix=f"[{r.randint(1, 4)}]")],
                [P("const char * const", a, suffix="[]"), P("int", a + "_count")],
                [P(r.choice(["uint8_t", "const float", "const double", "int32_t"]) + " *", a), P(r.choice(["size_t", "int"]), a + "_size")],
                [P("std::function<int(float)>", a)],
                [P("const std::vector<int> &", a)],
            ])
            ps = ps[:k] + g + ps[k:]
            n += len(g)
        if r.random() < 0.3:
            a = nm.var()
            ps = ps + [r.choice([P("std::vector<int>", a, "{1, 2}"), P("const std::vector<std::string> &", a, "std::vector<std::string>()"), P("std::map<int, std::string>", a, "{}"), P("const char *", a, "nullptr")])]
        elif r.random() < 0.2 and not any(p.default for p in ps):
            ps = ps + [P("const char *", "fmt"), P("...", "")]
        return ps

    def ret(self, scope: str) -> str:
        if self.cfg.class_types and self.known and self.rng.random() < 0.15:
            return self.rng.choice(self.known)[0]
        return self.rng.choice(RETS)

    def fn(self, scope: str, method: bool = False, name: Optional[str] = None) -> F:
        f = F(name=name or self.names.fn(), ret=self.ret(scope), params=self.params(scope))
        if method:
            r = self.rng.random()
            if self.cfg.statics and r < 0.2:
                f.pre = "static "
            elif r < 0.4:
                f.post = " const"
            elif r < 0.5:
                f.pre = "virtual "
        elif self.rng.random() < 0.2:
            f.pre = "inline "
            f.body = " { throw 1; }" if False else ";"
        self.doc(f)
        return f

    def overloads(self, scope: str, method: bool) -> list[F]:
        name = self.names.fn()
        out: list[F] = []
        sigs = set()
        static = self.cfg.statics and method and self.rng.random() < 0.2
        for _ in range(self.rng.choice([2, 2, 3])):
            f = self.fn(scope, method, name)
            f.pre = "static " if static else ""
            f.post = ""
            sig = tuple(p.type.replace("const ", "").replace("&", "").strip() for p in f.params)
            if sig in sigs:
                continue
            sigs.add(sig)
            out.append(f)
        return out

    def enum(self, scope: str) -> En:
        w = self.names.words()
        name = style(w, "upper")
        scoped = self.rng.random() < 0.6
        nm = Names(self.rng)
        vals = []
        for _ in range(self.rng.choice([1, 2, 3, 4])):
            vw = nm.words()
            v = style(vw, "upper") if scoped else name + "_" + style(vw, "upper")
            ev = EV(name=v, init=self.rng.choice([None, None, str(self.rng.randint(0, 50))]))
            self.doc(ev)
            ev.blank_before = 0
            vals.append(ev)
        e = En(name=name, scoped=scoped, values=vals)
        self.doc(e)
        q = scope + name
        self.enums.append((q, (q + "::" if scoped else scope) + vals[0].name, name))
        return e

    def member(self, scope: str) -> M:
        t, ds = self.rng.choice([x for x in TYPES if "&" not in x[0]])
        m = M(name=self.names.var(), type=t, default=self.rng.choice(ds + [""]) if ds else "")
        if self.rng.random() < 0.12 and self.cfg.statics:
            m.pre = "static "
            m.default = ""
        elif self.rng.random() < 0.1 and not m.default and not t.startswith("const"):
            m.type = "const " + t
        elif self.cfg.rich and self.rng.random() < 0.3 and not m.pre:
            m.default = ""
            m.type, m.suffix = self.rng.choice([("int", "[3]"), ("float", "[2]"), ("double *", ""), ("const int", "[2]"), ("std::function<void()>", ""), ("char", "[10]"), ("std::unique_ptr<int>", "")])
        self.doc(m)
        return m

    def cls(self, scope: str, depth: int) -> C:
        name = self.names.cls()
        c = C(name=name, kind=self.rng.choice(["struct", "struct", "class"]))
        if self.cfg.bases and self.known and self.rng.random() < 0.3:
            b = self.rng.choice(self.known)[0]
            c.bases = [(self.rng.choice(["public", "public", "private", "protected"] if self.cfg.private else ["public"]), b)]
        q = scope + name
        secs = []
        nsec = self.rng.choice([1, 1, 2, 3]) if self.cfg.private else 1
        for i in range(nsec):
            if i == 0:
                acc = "" if c.kind == "struct" and self.rng.random() < 0.7 else "public"
            else:
                acc = self.rng.choice(["public", "private", "protected"])
            items: list = []
            for _ in range(self.rng.randint(1, 4)):
                r = self.rng.random()
                if r < 0.35:
                    items.append(self.member(q + "::"))
                elif r < 0.65:
                    items.append(self.fn(q + "::", True))
                elif r < 0.8 and self.cfg.overloads:
                    items += self.overloads(q + "::", True)
                elif r < 0.88 and depth > 0 and acc in ("", "public"):
                    items.append(self.cls(q + "::", depth - 1) if self.rng.random() < 0.6 else self.enum(q + "::"))
                elif self.cfg.deleted and r < 0.93:
                    f = self.fn(q + "::", True)
                    f.pre, f.post = "", " = delete"
                    items.append(f)
            if self.cfg.ctors and i == 0 and self.rng.random() < 0.4:
                for k in range(self.rng.choice([1, 1, 2])):
                    ps = self.params(q + "::", 3)
                    if any(tuple(p.type for p in x.params) == tuple(p.type for p in ps) for x in items if isinstance(x, F) and not x.ret):
                        continue
                    f = F(name=name, ret="", params=ps)
                    self.doc(f)
                    items.insert(0, f)
                if self.rng.random() < 0.3:
                    items.append(F(name="~" + name, ret=""))
            self.rng.shuffle(items)
            secs.append((acc, items))
        c.sections = secs
        self.doc(c)
        if c.eol:
            c.doc, c.eol = [c.eol], ""
        self.known.append((q, q))
        return c

    def block(self, scope: str, depth: int, n: Optional[int] = None) -> list:
        out: list = []
        for _ in range(n if n is not None else self.rng.randint(1, self.cfg.items)):
            r = self.rng.random()
            if r < 0.3:
                out.append(self.fn(scope))
            elif r < 0.42 and self.cfg.overloads:
                fs = self.overloads(scope, False)
                out += fs
            elif r < 0.55:
                out.append(self.enum(scope))
            elif r < 0.8 and self.cfg.classes:
                out.append(self.cls(scope, depth))
            elif self.cfg.globals and r < 0.85:
                m = M(name=self.names.var(), type="int", default="3", pre="static const ")
                out.append(m)
            elif self.cfg.namespaces and depth > 0:
                nsn = self.names.ns()
                ns = N(name=nsn, items=self.block(scope + nsn + "::", depth - 1))
                if self.cfg.docs and self.rng.random() < 0.3:
                    ns.doc = [self.text()]
                out.append(ns)
                if self.cfg.reopen and self.rng.random() < 0.3:
                    out.append(self.fn(scope))
                    out.append(N(name=nsn, items=self.block(scope + nsn + "::", depth - 1, 1)))
        return out

    def program(self) -> list:
        return self.block("", self.cfg.depth, self.rng.randint(2, self.cfg.items + 2))


def walk(items: list, scope: tuple = (), access: str = "public"):
    """(scope parts [(kind, name)], access, item)"""
    for it in items:
        yield scope, access, it
        if isinstance(it, N):
            yield from walk(it.items, scope + (("ns", it.name),), "public")
        elif isinstance(it, C):
            for acc, m in it.members():
                yield from walk([m], scope + (("cls", it.name),), acc if access == "public" else access)
