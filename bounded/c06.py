"""C06: types and default values of the stub against an independent translation (compared as Python syntax trees)."""
from __future__ import annotations
import ast, random
from typing import Any, Optional
from . import core, lg, out

INT = ["int", "unsigned int", "unsigned", "short", "unsigned short", "short int", "unsigned short int", "long", "long int", "unsigned long", "unsigned long int", "long unsigned int",
       "long long", "long long int", "unsigned long long", "unsigned long long int", "signed int", "signed long", "size_t", "std::size_t", "ssize_t", "uint8_t", "int8_t", "uint16_t",
       "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t", "std::uint8_t", "std::int64_t"]
FLOAT = ["float", "double", "long double"]
STR = ["std::string", "std::string_view", "const char *", "const char*"]
# user identifiers: they contain known names, but are other names
USER = ["my_int", "int_t2", "intBox", "constant", "voidness", "doubleton", "boolean", "size_type", "my_size_t", "std_vector", "Stdstring", "unsigned_t", "longitude", "shortlist", "Floatx",
        "x_float", "uint8_t_x", "NULLABLE", "nullptr_t2", "trueType", "mutable_box", "char_traits2", "stringy", "Foo", "FooBar", "e1f", "py_array", "optional_t", "Const", "Int"]
SCOPES = ["Ns::", "Ns::Inner::", "intern::", "std2::", "doubles::", "my_std::", "constants::"]


def norm_ann(s: str) -> str:
    return ast.dump(ast.parse(s.strip(), mode="eval"))


class G:
    def __init__(self, rng: random.Random, user: Optional[dict] = None):
        self.r = rng
        self.user = user or {}

    def ch(self, p: float) -> bool:
        return self.r.random() < p

    # ---------------------------------------------------------------- types: (C++, Python)
    def leaf(self) -> tuple:
        r = self.r.random()
        if r < .25: return self.r.choice(INT), "int"
        if r < .35: return self.r.choice(FLOAT), "float"
        if r < .42: return "bool", "bool"
        if r < .52: return self.r.choice(STR), "str"
        if r < .55 and self.user: return self.r.choice(sorted(self.user.items()))
        u = self.r.choice(USER)
        if self.ch(.35):
            u = self.r.choice(SCOPES) + u
        return u, u.replace("::", ".")

    def ref(self, t: tuple) -> tuple:
        """const, pointers and references do not appear in Python"""
        c, p = t
        if c.endswith("*"):
            return t
        r = self.r.random()
        if r < .5: return t
        if r < .6: return "const " + c, p
        if r < .75: return "const " + c + self.r.choice([" &", "&", " & "]).rstrip(), p
        if r < .85: return c + " &", p
        if r < .92: return c + self.r.choice([" *", "*"]), p
        if r < .96: return "const " + c + " *", p
        return c + " &&", p

    def sp(self) -> str:
        return self.r.choice(["", "", "", " "])

    def inner(self, d: int) -> tuple:
        """template argument"""
        c, p = self.type(d - 1)
        if self.ch(.15) and not c.endswith("*") and not c.startswith("const "):
            c = self.r.choice(["const " + c, c + " *", "const " + c + " *", c + "*"])
        return c, p

    def type(self, d: int) -> tuple:
        if d <= 0 or self.ch(.3):
            return self.leaf()
        k = self.r.choice(["vector", "vector", "array", "tuple", "pair", "variant", "optional", "map", "shared_ptr", "unique_ptr", "function", "user"])
        s1, s2 = (" ", " ") if self.ch(.1) else ("", "")
        comma = self.r.choice([", ", ",", " , "])
        if k == "function":
            n = self.r.randint(0, 3)
            a = []
            for _ in range(n):
                c, p = self.ref(self.type(d - 1))
                if self.ch(.4):
                    c += " " + self.r.choice(["value", "i", "text", "line_no", "f"])
                a.append((c, p))
            rc, rp = ("void", "None") if self.ch(.3) else self.type(d - 1)
            return f"std::function<{rc}({', '.join(x for x, _ in a)})>", f"Callable[[{', '.join(p for _, p in a)}], {rp}]"
        if k == "array":
            c, p = self.inner(d)
            return f"std::array<{c}{comma}{self.r.choice(['3', '12', 'COUNT', 'Ns::SIZE'])}>", f"List[{p}]"
        n = {"tuple": self.r.randint(1, 4), "variant": self.r.randint(1, 4), "pair": 2, "map": 2}.get(k, 1)
        args = [self.inner(d) for _ in range(n)]
        ca, pa = comma.join(c for c, _ in args), ", ".join(p for _, p in args)
        if k == "user":
            u = self.r.choice(["MyBox", "Ns::floatBox", "my_vector", "Grid2"])
            return f"{u}<{s1}{ca}{s2}>", f"{u.replace('::', '.')}[{pa}]"
        c = f"std::{k}<{s1 if k in ('vector', 'map') else ''}{ca}{s2 if k in ('vector', 'map') else ''}>"
        if k in ("shared_ptr", "unique_ptr"):
            return c, pa
        return c, {"vector": "List", "tuple": "Tuple", "pair": "Tuple", "variant": "Union", "optional": "Optional", "map": "Dict"}[k] + f"[{pa}]"

    # ---------------------------------------------------------------- values: (C++, Python)
    def string(self) -> tuple:
        parts = []
        for _ in range(self.r.randint(0, 4)):
            parts.append(self.r.choice(["true", "false", "nullptr", "NULL", "1.5f", "10UL", "a::b", "::", "const int &", "*", "&&", "||", "!x", "std::string", "std::string()", "std::vector<int>", "{}", "{1, 2}",
                                        "hello", "x, y", "(", ")", "'", "#", "//", "/* */", "FLT_MAX", "void *", "lambda", "None", "\\\"", "\\\\", "\\n", "\\t", "é", "unsigned int", "MY_MAX", "MyStr", "%d", "size_t"]))
        body = self.r.choice([" ", "", "-"]).join(parts)
        return f'"{body}"', f'"{body}"'

    def number(self) -> tuple:
        r = self.r
        k = r.random()
        if k < .3:
            n = str(r.choice([0, 1, 7, 42, 100000, r.randint(1, 10 ** 6)]))
            return n, n
        if k < .5:
            n = str(r.randint(1, 10 ** 5))
            return n + r.choice(["u", "U", "l", "L", "ul", "UL", "uL", "ll", "LL", "ull", "ULL", "LLU", "lu"]), n
        if k < .6:
            n = "0x" + "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.randint(1, 6)))
            return n + r.choice(["", "", "u", "UL"]), n
        if k < .65:
            n = "0b" + "".join(r.choice("01") for _ in range(r.randint(1, 6)))
            return n, n
        m = r.choice(["1.5", "0.25", "3.", ".5", "12.0", "1e3", "1.5e-3", "2E+4", "100.125"])
        return m + r.choice(["", "f", "F", "L", "l"] if "." in m or "e" in m else [""]), m

    NAMES = ["trueish", "isTrue", "false_", "my_true", "NULLABLE", "nullptr_x", "x2f", "f1f", "FLT_MAX2", "MY_FLT_MAX", "e1", "a1u", "voidness", "const_value", "kBlue", "stringy", "MY_MAXIMUM", "xMY_MAX", "int_max"]

    def name(self) -> tuple:
        n = self.r.choice(self.NAMES)
        if self.ch(.5):
            n = self.r.choice(["Ns::", "Foo::", "Ns::Foo::", "trues::", "Ns::int_t2::", "std2::"]) + n
        return n, n.replace("::", ".")

    def value(self, d: int) -> tuple:
        r = self.r.random()
        if d <= 0 or r < .5:
            k = self.r.random()
            if k < .4: return self.number()
            if k < .5: return self.r.choice([("true", "True"), ("false", "False")])
            if k < .57: return self.r.choice([("nullptr", "None"), ("NULL", "None"), ("std::nullopt", "None")])
            if k < .75: return self.string()
            if k < .8: return self.r.choice([("FLT_MAX", "sys.float_info.max"), ("DBL_MAX", "sys.float_info.max"), ("FLT_MIN", "sys.float_info.min"), ("MY_MAX", "256"), ("'a'", "'a'"), ("std::string()", '""')])
            return self.name()
        k = self.r.random()
        if k < .3:
            n = self.r.randint(0, 3)
            a = [self.flat() for _ in range(n)]
            f, _ = self.r.choice([("Foo", 0), ("Ns::Foo", 0), ("make_int", 0), ("Ns::trueBox", 0), ("intBox", 0), ("std::string", 1)])
            pf = "str" if f == "std::string" else f.replace("::", ".")
            if f == "std::string" and n == 0:
                return "std::string()", '""'
            return f"{f}({', '.join(x for x, _ in a)})", f"{pf}({', '.join(p for _, p in a)})"
        if k < .45:
            c, p = self.arith(d - 1)
            return c, p
        if k < .55:
            c, p = self.name()
            op, po = self.r.choice([("||", "or"), ("&&", "and"), (" || ", "or"), (" && ", "and"), (" | ", "|"), (" & ", "&"), (" == ", "=="), (" != ", "!=")])
            c2, p2 = self.name()
            return c + op + c2, f"{p} {po} {p2}"
        if k < .62:
            c, p = self.r.choice([("true", "True"), self.name()])
            return "!" + c, "not " + p
        if k < .72:
            c, p = self.number()
            return "-" + c, "-" + p
        if k < .82:
            return self.r.choice([("Foo{}", "Foo()"), ("Ns::Foo{}", "Ns.Foo()"), ("std::string{}", '""'), ("std::vector<int>{}", "List[int]()"), ("intBox{}", "intBox()")])
        c, p = self.type(1)
        if "<" not in c or "*" in c or "(" in c or "const" in c:
            return self.number()
        return c + "()", p + "()"

    def flat(self) -> tuple:
        """a value without nested brackets (srcML loses the brackets of a nested call)"""
        while True:
            c, p = self.value(1)
            if c[:1] == '"' or not set(c) & set("(){}<&"):
                return c, p

    def arith(self, d: int) -> tuple:
        (a, pa), (b, pb) = (self.number() if self.ch(.7) else self.name()), (self.number() if self.ch(.7) else self.name())
        op = self.r.choice(["+", "-", "*", "/", "<<", "|", "&"])
        if op in ("<<", "|", "&") and any(set(x) & set(".eE") and x[:1].isdigit() for x in (a, b)):
            op = "+"
        s = self.r.choice([" ", " ", ""]) if op not in "&*" else " "
        if self.ch(.3):
            return f"({a} {op} {b}) * 2", f"({pa} {op} {pb}) * 2"
        return f"{a}{s}{op}{s}{b}", f"{pa} {op} {pb}"


def opts(nb: bool, user: dict) -> Any:
    o = lg.options(nb, fn_params_replace_modifiable_immutable_by_boxed__regex="", fn_params_output_modifiable_immutable_to_return__regex="",
                   fn_params_adapt_mutable_param_with_default_value__regex="", fn_params_replace_c_array_const_by_std_array__regex="", fn_params_replace_c_string_list__regex="",
                   fn_params_const_char_pointer_with_default_null=False)
    o.srcmlcpp_options.named_number_macros["MY_MAX"] = 256
    if user:
        o.type_replacements.add_last_replacement(r"\bMyStr\b", "str")
    return o


def same(g: lg.Gen, what: str, cpp: str, want: str, got: Optional[str]) -> None:
    if got is None:
        g.fail(f"{what}: C++ {cpp!r} has no translation in the stub")
    try:
        w, x = norm_ann(want), norm_ann(got or "")
    except SyntaxError:
        g.fail(f"{what}: C++ {cpp!r} is translated to {got!r}, which is not valid Python (expected {want!r})")
        return
    if w != x:
        g.fail(f"{what}: C++ {cpp!r} is translated to {got!r}, expected {want!r}")


def run(nb: bool, types: list, values: list, user: dict, o: Any = None, bare: bool = False) -> lg.Gen:
    """types: [(cpp, py)]; values: [(cpp, py)] -- every type and value at several positions"""
    L = []
    for i, (c, p) in enumerate(types):
        L.append(f"{c} tret{i}(int k);" if not c.endswith("&&") else f"void tret{i}(int k);")
        L.append(f"void tpar{i}({c} v, int last);")
    L.append("struct Holder {")
    for i, (c, p) in enumerate(types):
        if not c.endswith("&&"):
            L.append(f"    {c} tmeth{i}({c} v);")
        if not c.endswith("&") and not bare:
            L.append(f"    {c} tmem{i};")
    for i, (c, p) in enumerate(values):
        L.append(f"    Cfg vmem{i} = {c};")
        L.append(f"    void vmeth{i}(int k, Cfg v = {c});")
    L.append("};")
    for i, (c, p) in enumerate(values):
        L.append(f"void vpar{i}(Cfg v = {c}, int last = 3);")
    code = "\n".join(L) + "\n"
    o = o or opts(nb, user)
    g = lg.generate(o, code)
    s = g.stub
    fn = {f.name: f for f in s.fns}
    h = s.kid("Holder")
    g.check(h, "class Holder is missing from the stub")
    m = {f.name: f for f in h.fns}          # type: ignore
    a = {x.name: x for x in h.attrs}        # type: ignore
    for i, (c, p) in enumerate(types):
        f = fn.get(f"tpar{i}")
        g.check(f and len(f.params) == 2, f"function tpar{i} is not shown with two parameters")
        same(g, "parameter type", c, p, f.params[0].ann)        # type: ignore
        if not c.endswith("&&"):
            same(g, "return type", c, p, fn[f"tret{i}"].ret if f"tret{i}" in fn else None)
            mm = m.get(f"tmeth{i}")
            g.check(mm and len(mm.params) == 1, f"method tmeth{i} is not shown with one parameter")
            same(g, "method return type", c, p, mm.ret)         # type: ignore
            same(g, "method parameter type", c, p, mm.params[0].ann)    # type: ignore
        if not c.endswith("&") and not bare:
            same(g, "member type", c, p, a[f"tmem{i}"].ann if f"tmem{i}" in a else None)
    for i, (c, p) in enumerate(values):
        f = fn.get(f"vpar{i}")
        g.check(f and len(f.params) == 2, f"function vpar{i} is not shown with two parameters")
        same(g, "default value of a parameter", c, p, f.params[0].default)      # type: ignore
        g.check(f.params[1].default == "3", f"the default value that follows {c!r} is shown as {f.params[1].default!r}")    # type: ignore
        mm = m.get(f"vmeth{i}")
        g.check(mm and len(mm.params) == 2, f"method vmeth{i} is not shown with two parameters")
        same(g, "default value of a method parameter", c, p, mm.params[1].default)      # type: ignore
        same(g, "default value of a member", c, p, a[f"vmem{i}"].value if f"vmem{i}" in a else None)
    return g


def random_case(rng: random.Random) -> tuple:
    user = {"MyStr": "str"} if rng.random() < .3 else {}
    G_ = G(rng, user)
    types, values = [], []
    for _ in range(rng.randint(1, 5)):
        c, p = G_.ref(G_.type(rng.choice([0, 1, 1, 2, 2, 3])))
        types.append((c, p))
    for _ in range(rng.randint(1, 5)):
        values.append(G_.value(rng.choice([0, 1, 1, 2])))
    g = run(rng.random() < .4, types, values, user)
    return g.code, "; ".join(c for c, _ in types + values)[:300]


def brace_values(rng: random.Random) -> tuple:
    """default values with braces: the type is named in the stub"""
    G_ = G(rng)
    L, want = [], []
    for i in range(rng.randint(1, 4)):
        c, p = G_.type(rng.choice([0, 1, 1, 2]))
        if "*" in c or " " in c or c == "bool":
            c, p = "Foo", "Foo"
        vals = [G_.number() if rng.random() < .7 else G_.string() for _ in range(rng.randint(0, 3))]
        L.append(f"void f{i}(int k, const {c} & v = {{{', '.join(x for x, _ in vals)}}});")
        want.append((c, f"{p}({', '.join(x for _, x in vals)})", vals))
    g = lg.generate(opts(rng.random() < .4, {}), "\n".join(L) + "\n")
    fn = {f.name: f for f in g.stub.fns}
    for i, (c, w, vals) in enumerate(want):
        g.check(f"f{i}" in fn and len(fn[f"f{i}"].params) == 2, f"f{i} is not shown with two parameters")
        if c in ("std::string", "std::string_view") and not vals:
            w = '""' if c == "std::string" else w
        same(g, "default value with braces", c + " = {...}", w, fn[f"f{i}"].params[1].default)
    return g.code, g.code[:300]


def all_scalars() -> tuple:
    for nb in (False, True):
        run(nb, [(c, "int") for c in INT] + [(c, "float") for c in FLOAT] + [(c, "str") for c in STR] + [("bool", "bool"), ("char", "str"), ("void *", "Any"), ("const void *", "Any")], [], {}, bare=False)
        run(nb, [(u, u) for u in USER] + [(s + u, (s + u).replace("::", ".")) for s in SCOPES for u in USER[:6]], [], {})
    return "scalars", "every scalar type and every user identifier, 2 libraries"


def wrappers() -> tuple:
    ts = []
    for t, p in [("int", "int"), ("unsigned int", "int"), ("double", "float"), ("std::string", "str"), ("const char *", "str"), ("my_int", "my_int"), ("Ns::floatBox", "Ns.floatBox"), ("std::vector<float>", "List[float]"), ("std::pair<int, my_int>", "Tuple[int, my_int]")]:
        for w, q in [("std::vector<%s>", "List[%s]"), ("std::optional<%s>", "Optional[%s]"), ("std::shared_ptr<%s>", "%s"), ("std::unique_ptr<%s>", "%s"), ("std::array<%s, 4>", "List[%s]"), ("std::map<std::string, %s>", "Dict[str, %s]"),
                     ("std::map<%s, int>", "Dict[%s, int]"), ("std::pair<%s, bool>", "Tuple[%s, bool]"), ("std::tuple<int, %s, float>", "Tuple[int, %s, float]"), ("std::variant<%s, bool>", "Union[%s, bool]"),
                     ("std::function<void(%s)>", "Callable[[%s], None]"), ("std::function<%s(int a, bool b)>", "Callable[[int, bool], %s]"), ("std::vector<std::vector<%s>>", "List[List[%s]]"), ("MyBox<%s>", "MyBox[%s]")]:
            ts.append((w % t, q % p))
    run(False, ts, [], {})
    return "wrappers", "every wrapper around representative types"


def keyword_names() -> tuple:
    """Python keywords used as C++ identifiers are followed by an underscore, wherever they occur as whole tokens"""
    run(False, [("Foo::lambda", "Foo.lambda_"), ("std::vector<Ns::None>", "List[Ns.None_]"), ("lambdas", "lambdas"), ("pass_t", "pass_t")],
        [("Foo::None", "Foo.None_"), ("Foo::pass", "Foo.pass_"), ("Foo::passes", "Foo.passes"), ("Ns::from", "Ns.from_"), ('"pass None lambda"', '"pass None lambda"')], {})
    return "keywords", "keywords as identifiers"


def enum_defaults() -> tuple:
    code = '''
enum class Color { Red, GreenLight, trueBlue };
enum Plain { Plain_A, Plain_FirstItem };
namespace Deep { enum class Mode { On, OffLine }; namespace Lower { enum Kind_ { Kind_Big = 2, Kind_Small }; } }
void f0(Color c = Color::GreenLight, Plain p = Plain_FirstItem, Plain q = Plain::Plain_A, Color d = Color::trueBlue, const char* s = "Color::GreenLight Plain_A");
void f1(Deep::Mode m = Deep::Mode::OffLine, Deep::Lower::Kind_ k = Deep::Lower::Kind_Small, Deep::Lower::Kind_ k2 = Deep::Lower::Kind_::Kind_Big);
namespace Deep { void f2(Mode m = Mode::OffLine, Lower::Kind_ k = Lower::Kind_Small, Color c = Color::Red); }
void f3(bool b = !(1 > 2), bool c = ! true, bool d = !false, bool e = (1 != 2));
'''
    for nb in (False, True):
        g = lg.generate(opts(nb, {}), code)
        want = {"f0": ["Color.green_light", "Plain.first_item", "Plain.a", "Color.true_blue", '"Color::GreenLight Plain_A"'],
                "f1": ["deep.Mode.off_line", "deep.lower.Kind_.small", "deep.lower.Kind_.big"], "f2": ["Mode.off_line", "lower.Kind_.small", "Color.red"],
                "f3": ["not (1 > 2)", "not True", "not False", "(1 != 2)"]}
        fns = {f.name: f for _, n in g.stub.walk() for f in n.fns}
        for k, ws in want.items():
            g.check(k in fns and len(fns[k].params) == len(ws), f"{k} is not shown with its parameters")
            for p, w in zip(fns[k].params, ws):
                same(g, "default value of " + k, p.name, w, p.default)
    return "enums", code


DIRECTED = [all_scalars, wrappers, keyword_names, enum_defaults]
RANDOM = [(random_case, 1200), (brace_values, 300)]
