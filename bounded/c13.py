"""C13: every overload is bound unambiguously, and marked as such in the stub."""
from __future__ import annotations
import collections, random, re
from . import core, lg, out
from .iface import snake, py

# C++ type -> (Python annotation, default values (C++, Python))
TYPES = {
    "int": ("int", [("3", "3")]), "unsigned int": ("int", [("3", "3")]), "size_t": ("int", [("0", "0")]), "long long": ("int", []), "double": ("float", [("1.5", "1.5")]), "float": ("float", [("2.5f", "2.5")]), "bool": ("bool", [("true", "True")]),
    "std::string": ("str", [('"a"', '"a"')]), "const std::string &": ("str", [('"a"', '"a"')]), "const char *": ("str", []), "const std::vector<int> &": ("List[int]", []), "std::vector<std::string>": ("List[str]", []),
    "const Arg &": ("Arg", []), "Arg *": ("Arg", []), "std::map<std::string, int>": ("Dict[str, int]", []), "uint8_t": ("int", []), "std::optional<int>": ("Optional[int]", []),
}
NAMES = ["run", "computeAll", "ComputeAll", "compute_all", "setX", "SetX", "set_x", "get2D", "item", "Item", "print", "Print", "loadFile"]


def norm(t: str) -> str:
    return re.sub(r"\s*([&*<>,()])\s*", r"\1", " ".join(t.split()))


def bare(t: str) -> str:
    """what distinguishes overloads"""
    t = norm(t)
    if not t.endswith(("&", "*")):
        t = re.sub(r"^const ", "", t)
    return t


class D:
    """one C++ function declaration"""

    def __init__(self, name: str, params: list, ret: str = "void", const: bool = False, static: bool = False, acc: str = "public", deleted: bool = False, ctor: bool = False, api: bool = True, virtual: bool = False):
        self.name, self.params, self.ret, self.const, self.static, self.acc, self.deleted, self.ctor, self.virtual = name, params, ret, const, static, acc, deleted, ctor, virtual

    def cpp(self) -> str:
        ps = ", ".join(f"{t} {n}" + (f" = {d[0]}" if d else "") for t, n, d in self.params)
        pre = ("static " if self.static else "") + ("virtual " if self.virtual else "")
        return f"{pre}{'' if self.ctor else self.ret + ' '}{self.name}({ps}){' const' if self.const else ''}{' = delete' if self.deleted else ''};"

    def key(self) -> tuple:
        return (self.name, tuple(bare(t) for t, _, _ in self.params), self.const)

    def pysig(self) -> tuple:
        return tuple((py(snake(n)), TYPES[t][0], d[1] if d else None) for t, n, d in self.params)

    def bound(self) -> bool:
        return (self.acc == "public" or self.acc == "protected" and self.exposed) and not self.deleted

    exposed = False                # the protected methods of its class are published


def family(rng: random.Random, names: list[str], method: bool, seen: set) -> list[D]:
    r: list[D] = []
    pn = rng.choice([["a", "b", "c"], ["x", "yValue", "z"], ["in", "b2", "c"]])
    static = method and rng.random() < 0.2
    small = rng.random() < 0.4
    pool = rng.sample(list(TYPES), 4) if small else list(TYPES)
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        n = rng.choice([0, 1, 1, 1, 2, 2, 3])
        ts = [rng.choice(pool) for _ in range(n)]
        k = rng.randint(0, n) if rng.random() < 0.3 else n
        ps = []
        for i, t in enumerate(ts):
            d = rng.choice(TYPES[t][1]) if i >= k and all(TYPES[u][1] for u in ts[k:]) else None
            ps.append((t, pn[i], d))
        f = D(rng.choice(names), ps, rng.choice(["void", "int", "double", "std::string"]))
        if method:
            x = rng.random()
            f.static = static
            f.const = not static and x < 0.4
            f.virtual = not static and not f.const and x < 0.5
            if x > 0.9:
                f.deleted = True
                f.virtual = False
            elif x > 0.8:
                f.acc = "private"
                f.virtual = False
        kk = (f.name, f.key()[1])
        if (kk + (f.const,)) in seen or (f.static and any(s[:2] == kk for s in seen)):
            continue
        seen.add(kk + (f.const,))
        r.append(f)
    return r


def decls(rng: random.Random, method: bool, cls: str = "") -> list[D]:
    seen: set = set()
    r: list[D] = []
    pool = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
    for _ in range(rng.choice([1, 2, 3])):
        nm = rng.choice(pool)
        same = [x for x in pool if snake(x) == snake(nm)] if rng.random() < 0.5 else [nm]
        r += family(rng, same, method, seen)
    if method and rng.random() < 0.4:
        for _ in range(rng.choice([1, 2, 3])):
            ts = [rng.choice(list(TYPES)) for _ in range(rng.choice([0, 1, 2]))]
            f = D(cls, [(t, "pq"[i], None) for i, t in enumerate(ts)], ctor=True)
            if f.key() not in seen:
                seen.add(f.key())
                r.append(f)
    if rng.random() < 0.6:
        rng.shuffle(r)
    return r


def render_class(rng: random.Random, name: str, ds: list[D]) -> list[str]:
    o = [f"struct {name}", "{"]
    acc = "public"
    for d in ds:
        if d.acc != acc:
            o.append(f"{d.acc}:")
            acc = d.acc
        o.append("    " + d.cpp())
    if acc != "public":
        o.append("public:")
    return o + ["    int zz_last;", "};"]


def case(rng: random.Random) -> tuple:
    nb = rng.random() < 0.5
    o = lg.options(nb)
    if rng.random() < 0.3:
        o.python_max_line_length = rng.choice([20, 0])
    exclude = rng.random() < 0.15
    expose = rng.random() < 0.25
    if expose:
        o.class_expose_protected_methods__regex = ".*"
    if exclude:
        o.fn_exclude_by_name__regex = "^setX$|^print$"
    lines = ["struct Arg", "{", "    int v;", "};"]
    scopes: list[tuple] = []      # python path, C++ prefix, is class, decls
    for i in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["module", "ns", "cls", "nscls", "clscls"])
        if kind == "module":
            if any(s[0] == [] for s in scopes):
                continue
            ds = decls(rng, False)
            lines += [d.cpp() for d in ds]
            scopes.append(([], "", False, ds))
        elif kind == "ns":
            ds = decls(rng, False)
            k = rng.randint(0, len(ds)) if rng.random() < 0.4 else len(ds)
            for part in (ds[:k], ds[k:]):
                if part:
                    lines += [f"namespace Sub{i}", "{"] + ["    " + d.cpp() for d in part] + ["}"]
                    if rng.random() < 0.5:
                        lines.append(f"void between{len(lines)}();")
            scopes.append(([snake(f"Sub{i}")], f"Sub{i}::", False, ds))
        else:
            c = f"Klass{i}"
            ds = decls(rng, True, c)
            for d in ds:
                if d.acc == "private" and (kind != "clscls" or not expose) and rng.random() < (0.7 if expose else 0.3):
                    d.acc = "protected"
                    d.exposed = expose
            txt = render_class(rng, c, ds)
            if kind == "cls":
                lines += txt
                scopes.append(([c], c + "::", True, ds))
            elif kind == "nscls":
                lines += [f"namespace In{i}", "{"] + ["    " + x for x in txt] + ["}"]
                scopes.append(([snake(f"In{i}"), c], f"In{i}::{c}::", True, ds))
            else:
                lines += [f"struct Outer{i}", "{"] + ["    " + x for x in txt] + ["};"]
                scopes.append(([f"Outer{i}", c], f"Outer{i}::{c}::", True, ds))
    code = "\n".join(lines) + "\n"
    g = lg.generate(o, code)
    markers(g, g.stub, "")
    for body in re.findall(r"_publicist : [^{]*\{(.*?)\};", g.glue_text, re.S):
        c = collections.Counter(re.findall(r"using [^;]*;", body))
        g.check(all(v == 1 for v in c.values()), "a using declaration is repeated in a class (an error in C++)", using=[k for k, v in c.items() if v > 1])
    for path, q, is_cls, ds in scopes:
        s, p = g.stub, g.pydef
        for x in path:
            s, p = s.kid(x) if s else None, p.kid(x) if p else None
        bound = [d for d in ds if d.bound() and not (exclude and re.search("^setX$|^print$", d.name))]
        if s is None or p is None:
            g.check(not bound, f"scope {path} is lost")
            continue
        cpp_count = collections.Counter(d.name for d in ds)
        pyname = lambda d: "__init__" if d.ctor else py(snake(d.name))
        # the binding code: one def per declaration
        left = [f for f in p.fns if not f.name.startswith("__") or f.name == "__init__"]
        if not any(d.ctor for d in ds):
            left = [f for f in left if f.name != "__init__"]
        left = [f for f in left if not f.name.startswith("between")]
        # the most specific first: lambdas are compared by their parameter types as well
        for d in bound:
            why, hit = [], None
            for f in left:
                if f.name == pyname(d):
                    w = designates(f, d, q, cpp_count[d.name] > 1)
                    if w is None:
                        hit = f
                        break
                    why.append(w)
            g.check(hit is not None, f"{q}{d.name}: no binding designates the overload {d.cpp()}", reasons=why, candidates=[f.target for f in left if f.name == pyname(d)])
            left.remove(hit)
        g.check(not left, f"{q}: bindings which correspond to no C++ declaration", left=[(f.name, f.target) for f in left])
        # the stub: every Python signature, merged only when identical
        want = collections.Counter((pyname(d), d.static and is_cls, d.pysig()) for d in bound)
        have = collections.Counter((f.name, f.static and is_cls, tuple((x.name, x.ann, x.default) for x in f.params)) for f in s.fns if not f.name.startswith("between") and (f.name != "__init__" or any(d.ctor for d in ds)))
        have = collections.Counter({(a, b, tuple((n, strip(t), strip(dv)) for n, t, dv in c)): v for (a, b, c), v in have.items()})
        want = collections.Counter({(a, b, tuple((n, strip(t), strip(dv)) for n, t, dv in c)): v for (a, b, c), v in want.items()})
        g.check(set(want) == set(have), f"{q}: the Python signatures in the stub are not those of the C++ overloads", lost=[w for w in want if w not in have], extra=[w for w in have if w not in want])
        for k in have:
            g.check(have[k] <= want[k], f"{q}: more declarations in the stub than in C++", sig=k)
    return (code, {"code": code})


def strip(s):
    return None if s is None else s.strip().replace("'", '"')


def markers(g: lg.Gen, n: out.Node, path: str) -> None:
    c = collections.Counter(f.name for f in n.fns)
    for f in n.fns:
        g.check(f.overload == (c[f.name] > 1), f"{path or '(module)'}.{f.name}: " + ("lacks the overload marker although the scope declares the name several times" if c[f.name] > 1 else "has the overload marker although no other declaration has its name"), count=c[f.name])
    for k in n.kids:
        markers(g, k, path + "." + k.name if path else k.name)


def split(s: str) -> list[str]:
    return [out.join(a) for a in out.split_args(out.cpp_lex(s))]


def designates(f: out.Fn, d: D, q: str, overloaded: bool):
    t = f.target
    want = [norm(x) for x, _, _ in d.params]
    if [(x.name, bool(x.default)) for x in f.params] != [(py(snake(n)), bool(dv)) for _, n, dv in d.params]:
        return "parameters " + str([(x.name, x.default) for x in f.params])
    if (f.static or False) != d.static and not d.ctor:
        return "static"
    if d.ctor:
        m = re.search(r"init<(.*)>", f.target or f.raw or "")
        types = [norm(x) for x in (f.extra or [])] if f.via == "init" and f.extra else None
        txt = f.target if f.target.startswith(("py::init", "nb::init")) else f.raw
        m = re.search(r"init<(.*?)>\s*\(\)", txt, re.S) or re.search(r"init<(.*)>", txt, re.S)
        if m is None:
            return "form of constructor " + txt
        types = [norm(x) for x in split(m.group(1))] if m.group(1).strip() else []
        return None if types == want else f"constructor types {types}"
    m = re.match(r"\s*(?:py|nb)::overload_cast<(.*)>\(\s*(&?)([\w:]+)\s*(?:,\s*(?:py|nb)::(const_)\s*)?\)\s*$", t, re.S)
    if m:
        types = [norm(x) for x in split(m.group(1))] if m.group(1).strip() else []
        if m.group(3) != (q[:-2] + "_publicist::" if d.acc == "protected" else q) + d.name:
            return "designates " + m.group(3)
        if types != want:
            return f"types {types} instead of {want}"
        if bool(m.group(4)) != d.const:
            return "const_"
        return None
    m = re.match(r"\s*\[\]\s*\((.*?)\)\s*(?:->[^{]*)?\{(.*)\}\s*$", t, re.S)
    if m:
        ps = split(m.group(1)) if m.group(1).strip() else []
        method = bool(q) and f.self_ or (ps and ps[0].endswith("&self"))
        if ps and re.search(r"\bself$", ps[0]):
            if d.static:
                return "a static function bound with self"
            if ps[0].startswith("const ") != d.const:
                return "constness of self"
            ps = ps[1:]
        types = [norm(re.sub(r"=.*", "", x).rsplit(" ", 1)[0] if re.search(r"\w \w+$", re.sub(r"=.*", "", x)) else re.sub(r"\w+$", "", re.sub(r"=.*", "", x))) for x in ps]
        calls = re.findall(r"(?:self\.|" + re.escape(q) + r"|\b)(\w+)\(", m.group(2))
        if d.name not in calls:
            return f"calls {calls}"
        if types != want:
            return f"lambda types {types} instead of {want}"
        return None
    m = re.match(r"\s*&?([\w:]+)\s*$", t)
    if m:
        if m.group(1) != (q[:-2] + "_publicist::" if d.acc == "protected" else q) + d.name:
            return "designates " + m.group(1)
        return "ambiguous: the function is overloaded in C++" if overloaded else None
    return "unknown form " + t


def directed() -> tuple:
    o = lg.options()
    o.fn_template_options.add_specialization("^same$", ["int", "double"], False)
    o.fn_template_options.add_specialization("^suf$", ["int", "double"], True)
    o.fn_template_options.add_specialization("^mix$", ["int"], False)
    g = lg.generate(o, """
template<class T> T same(T v);
template<class T> T suf(T v);
template<class T> T mix(T v);
std::string mix(std::string v);
struct S { bool operator==(const S& o) const; int operator<=>(const S& o) const; bool operator==(int o) const; int operator<=>(int o) const; bool operator<(double o) const;
  S(); S(int a); template<class T> void same(T v); };
""")
    markers(g, g.stub, "")
    g.check(collections.Counter(f.name for f in g.stub.fns) == collections.Counter({"same": 2, "suf_int": 1, "suf_double": 1, "mix": 2}), "template overloads of the stub", got=[f.name for f in g.stub.fns])
    g.check(collections.Counter(f.name for f in g.pydef.fns) == collections.Counter({"same": 2, "suf_int": 1, "suf_double": 1, "mix": 2}), "template overloads of the binding code", got=[f.name for f in g.pydef.fns])
    return ("directed", g.code)


def single_instantiation() -> tuple:
    o = lg.options()
    o.fn_template_options.add_specialization("^one$", ["int"], False)
    g = lg.generate(o, "template<class T> T one(T v);\n")
    markers(g, g.stub, "")
    return ("single", g.code)


DIRECTED = [directed, single_instantiation]
RANDOM = [(case, 3000)]
