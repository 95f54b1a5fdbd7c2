"""C10: adapted functions forward every argument once, in order, and return outputs.
Functions mixing adaptable and plain parameters are bound with random adapter options, the generated code is compiled with the real
binding library, and called from Python: the C++ side records what it receives, the oracle (written from the statement) knows what
each Python argument must become, and what comes back."""
from __future__ import annotations
import random, re
from dataclasses import dataclass, field
from typing import Any, Callable, Optional
from . import core, lg, cxx

INTS = ["int", "unsigned int", "long", "long long", "uint8_t", "int8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t", "unsigned long"]
FLOATS = ["float", "double"]
HEADER = """
struct Pt { int x = 1; int y = 2; Pt(int x_ = 1, int y_ = 2); };
struct SkipT { int z; SkipT(int z_ = 0); };
enum class Hue { Red = 3, Green = 5, Blue = 8 };
"""
DEFS = """
SkipT::SkipT(int z_) : z(z_) {}
Pt::Pt(int x_, int y_) : x(x_), y(y_) {}
static void A(const Pt& p) { LOG_ += "Pt(" + std::to_string(p.x) + "," + std::to_string(p.y) + ");"; }
static void A(Hue h) { LOG_ += "Hue" + std::to_string((int) h) + ";"; }
static void A(const SkipT& s) { LOG_ += "Skip" + std::to_string(s.z) + ";"; }
"""


def log(v: Any) -> str:
    if isinstance(v, bool):
        return "true;" if v else "false;"
    if isinstance(v, int):
        return f"{v};"
    if isinstance(v, float):
        return ("%.17g" % v) + ";"
    if isinstance(v, str):
        return '"' + v + '";'
    if v is None:
        return "null;"
    if isinstance(v, list):
        return "[" + "".join(log(x) for x in v) + "];"
    if isinstance(v, tuple):
        return f"Pt({v[0]},{v[1]});"
    raise TypeError(v)


def value(rng: random.Random, t: str) -> Any:
    if t == "bool":
        return rng.random() < .5
    if t in INTS:
        return rng.randrange(0, 120)
    if t in FLOATS:
        return rng.randrange(-100, 100) / 4
    if t == "std::string":
        return "".join(rng.choice("abc xyz%{}") for _ in range(rng.randrange(0, 6)))
    raise KeyError(t)


def cpp_lit(v: Any) -> str:
    return {True: "true", False: "false"}[v] if isinstance(v, bool) else '"' + v + '"' if isinstance(v, str) else repr(v)


def other(t: str, v: Any, k: int) -> Any:
    """the value written by the C++ function over v"""
    if t == "bool":
        return not v
    if t in INTS:
        return v + 1 + k % 5
    if t in FLOATS:
        return v + .25 + k % 5
    return v + "+" + str(k)


def modify(t: str, target: str, k: int) -> str:
    if t == "bool":
        return f"{target} = !{target};"
    if t in INTS:
        return f"{target} += {1 + k % 5};"
    if t in FLOATS:
        return f"{target} += {.25 + k % 5};"
    return f'{target} += "+{k}";'


@dataclass
class Arg:
    """one argument group of a C++ function"""
    cpp: list[str]                       # C++ parameters
    rec: list[str]                       # C++ statements that record what was received
    mod: list[str] = field(default_factory=list)
    py: list[tuple[str, bool]] = field(default_factory=list)        # visible Python parameters: name, has a default
    make: Callable[..., dict] = None     # (rng, prefix, given) -> {"setup": [], "args": {py: expr}, "log": str, "out": [repr exprs], "after": [(expr, repr)]}
    default: bool = False
    cppvals: str = ""


class Fn:
    def __init__(self) -> None:
        self.name = ""
        self.args: list[Arg] = []
        self.ret = "void"
        self.ret_value: Any = None
        self.kind = "fn"                 # fn, method, cmethod, static, ctor
        self.cls = ""
        self.tags: set[str] = set()
        self.returns = False             # outputs are returned


TAGS = ["bx", "ret", "cab", "csa", "sl", "mut", "lam", "gil"]
NAMES = ["a", "b", "value", "label", "flag", "width", "r", "v", "items", "result", "lambda_result", "x", "data", "key", "opt", "s", "ptr", "text", "i", "out"]


class Batch:
    def __init__(self, rng: random.Random, nb: bool):
        self.rng, self.nb = rng, nb
        self.modes = {t: rng.choices(["all", "none", "tag"], [3, 2, 4])[0] for t in TAGS}
        if nb and rng.random() < .7:
            self.modes["mut"] = "all"
        self.max_size = rng.choice([2, 3, 10, 20])
        self.default_null = nb or rng.random() < .6
        self.k = 0

    def options(self):
        o = lg.options(self.nb)
        names = {"bx": "fn_params_replace_modifiable_immutable_by_boxed__regex", "ret": "fn_params_output_modifiable_immutable_to_return__regex",
                 "cab": "fn_params_replace_c_array_modifiable_by_boxed__regex", "csa": "fn_params_replace_c_array_const_by_std_array__regex",
                 "sl": "fn_params_replace_c_string_list__regex", "mut": "fn_params_adapt_mutable_param_with_default_value__regex",
                 "lam": "fn_force_lambda__regex", "gil": "fn_add_gil_scoped_release_guard__regex"}
        for t in TAGS:
            setattr(o, names[t], {"all": ".*", "none": "", "tag": f"_{t}(_|$)"}[self.modes[t]])
        o.fn_params_replace_modifiable_c_array__max_size = self.max_size
        o.fn_params_const_char_pointer_with_default_null = self.default_null
        o.fn_params_exclude_names__regex = "_skip$"
        o.fn_params_exclude_types__regex = "SkipT"
        o.python_convert_to_snake_case = False
        o.class_create_default_named_ctor__regex = ""
        o.struct_create_default_named_ctor__regex = ""
        return o

    def on(self, f: Fn, t: str) -> bool:
        m = self.modes[t]
        return m == "all" or m == "tag" and t in f.tags

    # ---- argument kinds; each returns an Arg or None when the kind is not adapted for this function
    def plain(self, f: Fn, n: str, dflt: bool) -> Arg:
        rng = self.rng
        k = rng.randrange(9)
        if k == 0:
            v = (rng.randrange(9), rng.randrange(9))
            d = rng.choice([f"Pt({v[0]}, {v[1]})"]) if dflt else ""
            typ = rng.choice(["const Pt &", "Pt"])
            mutable = self.on(f, "mut")
            return self.simple(n, f"{typ} {n}" + (f" = {d}" if dflt else ""), dflt, v, lambda r: (r.randrange(9), r.randrange(9)), lambda x: f"m.Pt({x[0]}, {x[1]})", none_ok=mutable)
        if k == 1:
            v = rng.choice([("Red", 3), ("Green", 5), ("Blue", 8)])
            return self.simple(n, f"Hue {n}" + (f" = Hue::{v[0]}" if dflt else ""), dflt, v, lambda r: r.choice([("Red", 3), ("Green", 5), ("Blue", 8)]), None, tolog=lambda x: f"Hue{x[1]};", pyexpr=lambda x: f"m.Hue.{x[0]}")
        if k == 2:
            vs = [rng.randrange(50) for _ in range(rng.randrange(0, 3))]
            lit = ", ".join(map(str, vs))
            d = f"{{{lit}}}" if vs else rng.choice(["{}", "std::vector<int>()"])
            typ = rng.choice(["const std::vector<int> &", "std::vector<int>"])
            return self.simple(n, f"{typ} {n}" + (f" = {d}" if dflt else ""), dflt, vs, lambda r: [r.randrange(50) for _ in range(r.randrange(3))], repr, none_ok=self.on(f, "mut"))
        if k == 3:
            v = value(rng, "std::string")
            typ = rng.choice(["const std::string &", "std::string", "const char *"])
            return self.simple(n, f"{typ} {n}" + (f" = {cpp_lit(v)}" if dflt else ""), dflt, v, lambda r: value(r, "std::string"), repr)
        t = rng.choice(INTS[:8] + FLOATS + ["bool"])
        v = value(rng, t)
        typ = rng.choice([t, t, f"const {t} &", f"const {t}"])
        lit = cpp_lit(v) + ("f" if t == "float" else "")
        return self.simple(n, f"{typ} {n}" + (f" = {lit}" if dflt else ""), dflt, v, lambda r: value(r, t), repr)

    def simple(self, n, cpp, dflt, dval, mk, pyrepr, tolog=log, pyexpr=None, none_ok=False) -> Arg:
        pyexpr = pyexpr or pyrepr

        def make(rng, p, given):
            if dflt and not given:
                return dict(args={}, log=tolog(dval))
            if dflt and none_ok and rng.random() < .3:
                return dict(args={n: "None"}, log=tolog(dval))
            v = mk(rng)
            return dict(args={n: pyexpr(v)}, log=tolog(v))
        return Arg([cpp], [f"A({n});"], [], [(n, dflt)], make, dflt)

    def modifiable(self, f: Fn, n: str, dflt: bool) -> Optional[Arg]:
        rng = self.rng
        ret, bx = self.on(f, "ret"), self.on(f, "bx")
        if not (ret or bx) or f.kind == "ctor" and ret:
            return None
        t = rng.choice(INTS + FLOATS + ["bool", "std::string"] * 3)
        k = self.k = self.k + 1
        ptr = dflt or rng.random() < .5
        if dflt:
            cpp = f"{t} * {n} = " + rng.choice(["nullptr", "NULL"])
        else:
            cpp = f"{t} {'*' if ptr else '&'} {n}"
        tgt = f"(*{n})" if ptr else n
        rec = [f"if ({n}) A(*{n}); else A((const char *) nullptr);" if ptr else f"A({n});"]
        mod = [(f"if ({n}) " if ptr else "") + modify(t, tgt, k)]

        def make(rng, p, given):
            none = dflt and (not given or rng.random() < .3)
            if none:
                return dict(args={n: "None"} if given else {}, log=log(None), out=["None"] if ret else [])
            v = value(rng, t)
            if ret:
                return dict(args={n: repr(v)}, log=log(v), out=[repr(other(t, v, k))])
            b = f"{p}_{n}"
            return dict(setup=[f"{b} = m.{boxed(t)}({v!r})"], args={n: b}, log=log(v), after=[(f"{b}.value", repr(other(t, v, k)))])
        return Arg([cpp], rec, mod, [(n, dflt)], make, dflt)

    def carray(self, f: Fn, n: str, dflt: bool) -> Optional[Arg]:
        if dflt:
            return None
        rng = self.rng
        size = rng.choice([1, 2, 2, 3, 3, 4, 4, 10, 11, 12])
        t = rng.choice(["int", "float", "double", "bool", "std::string", "unsigned int", "uint8_t", "long long"])
        k = self.k = self.k + 1
        if rng.random() < .45:
            if not self.on(f, "csa"):
                return None
            return Arg([f"const {t} {n}[{size}]"], [f"A_n({n}, {size});"], [], [(n, False)],
                       lambda rng, p, given: (lambda v: dict(args={n: repr(v)}, log=log(v)))([value(rng, t) for _ in range(size)]))
        rec, mod = [f"A_n({n}, {size});"], [modify(t, f"{n}[{i}]", k + i) for i in range(size)]
        if self.on(f, "cab") and size <= self.max_size:
            if rng.random() < .15:
                def make(rng, p, given):
                    vs = [(rng.randrange(9), rng.randrange(9)) for _ in range(size)]
                    return dict(setup=[f"{p}_{n}_{i} = m.Pt({a}, {b})" for i, (a, b) in enumerate(vs)], args={f"{n}_{i}": f"{p}_{n}_{i}" for i in range(size)},
                                log=log(vs), after=[(f"{p}_{n}_{i}.x, {p}_{n}_{i}.y", repr((a, b + 10 + i))) for i, (a, b) in enumerate(vs)])
                return Arg([f"Pt {n}[{size}]"], rec, [f"{n}[{i}].y += {10 + i};" for i in range(size)], [(f"{n}_{i}", False) for i in range(size)], make)

            def make(rng, p, given):
                vs = [value(rng, t) for _ in range(size)]
                return dict(setup=[f"{p}_{n}_{i} = m.{boxed(t)}({v!r})" for i, v in enumerate(vs)], args={f"{n}_{i}": f"{p}_{n}_{i}" for i in range(size)},
                            log=log(vs), after=[(f"{p}_{n}_{i}.value", repr(other(t, v, k + i))) for i, v in enumerate(vs)])
            return Arg([f"{t} {n}[{size}]"], rec, mod, [(f"{n}_{i}", False) for i in range(size)], make)
        if self.on(f, "ret") and f.kind != "ctor":
            def make(rng, p, given):
                vs = [value(rng, t) for _ in range(size)]
                return dict(args={n: repr(vs)}, log=log(vs), out=[repr([other(t, v, k + i) for i, v in enumerate(vs)])])
            return Arg([f"{t} {n}[{size}]"], rec, mod, [(n, False)], make)
        return None

    def strings(self, f: Fn, n: str, dflt: bool) -> Optional[Arg]:
        if not self.on(f, "sl"):
            return None
        rng = self.rng
        decl = rng.choice([f"const char * const {n}[]", f"const char * {n}[]", f"const char ** {n}"])
        if dflt:
            decl += " = nullptr"
        if rng.random() < .6 or dflt:
            ct = rng.choice(["int", "size_t", "unsigned int", "long"])
            cn = n + rng.choice(["_count", "_size", "_nb", "_total"])

            def make(rng, p, given):
                if dflt and not given:
                    return dict(args={}, log="[];0;")
                vs = [value(rng, "std::string") for _ in range(rng.randrange(0, 4))]
                return dict(args={n: repr(vs)}, log=log(vs) + log(len(vs)))
            return Arg([decl, f"{ct} {cn}" + (" = 0" if dflt else "")], [f'if ({cn}) A_n({n}, {cn}); else LOG_ += "[];";', f"A({cn});"], [], [(n, dflt)], make, dflt)

        def make(rng, p, given):
            vs = [value(rng, "std::string") for _ in range(3)]
            return dict(args={n: repr(vs)}, log=log(vs))
        return Arg([decl], [f"A_n({n}, 3);"], [], [(n, False)], make)

    def null_string(self, f: Fn, n: str, dflt: bool) -> Optional[Arg]:
        if not dflt:
            return None

        def make(rng, p, given):
            if not given:
                return dict(args={}, log=log(None))
            v = None if rng.random() < .3 else value(rng, "std::string")
            return dict(args={n: repr(v)}, log=log(v))
        return Arg([f"const char * {n} = " + self.rng.choice(["nullptr", "NULL"])], [f"A({n});"], [], [(n, True)], make, True)

    def excluded(self, f: Fn, n: str, dflt: bool) -> Optional[Arg]:
        if not dflt:
            return None
        rng = self.rng
        k = rng.randrange(4)
        if k == 0:
            z = rng.randrange(90)
            return Arg([f"const SkipT & {n} = SkipT({z})"], [f"A({n});"], [], [], lambda rng, p, given: dict(args={}, log=f"Skip{z};"), True)
        if k == 1:
            return Arg([f"Hue {n}_skip = Hue::Blue"], [f"A({n}_skip);"], [], [], lambda rng, p, given: dict(args={}, log="Hue8;"), True)
        t = rng.choice(["int", "double", "bool", "std::string"])
        v = value(rng, t)
        typ = rng.choice([t, f"const {t} &"])
        return Arg([f"{typ} {n}_skip = {cpp_lit(v)}"], [f"A({n}_skip);"], [], [], lambda rng, p, given: dict(args={}, log=log(v)), True)

    def variadic(self, f: Fn, n: str) -> Arg:
        return Arg([f"const char * {n}", "..."], ["{ va_list ap_; va_start(ap_, " + n + "); char b_[256]; vsnprintf(b_, 256, " + n + ", ap_); va_end(ap_); A(std::string(b_)); }"], [], [(n, False)],
                   lambda rng, p, given: (lambda v: dict(args={n: repr(v)}, log=log(v)))(value(rng, "std::string") + rng.choice(["", "%d", "%s 100%", "%%"])))

    # ----
    def function(self, idx: int) -> Fn:
        rng = self.rng
        f = Fn()
        f.tags = {t for t in TAGS if rng.random() < .5}
        f.kind = rng.choices(["fn", "method", "cmethod", "static", "ctor"], [5, 3, 2, 2, 2])[0]
        letters = "abcdefghij"
        base = "fn" + "".join(letters[int(c)] for c in str(idx))
        f.name = "_".join([base] + sorted(f.tags))
        if f.kind == "ctor":
            f.tags = set()               # options match the name of the wrapper
            f.name = base
        names = rng.sample(NAMES, 8)
        nargs = rng.randrange(1, 6)
        ndef = rng.randrange(0, 3) if nargs > 1 else rng.randrange(2)
        variadic = rng.random() < .12 and f.kind != "ctor"
        if variadic:
            ndef = 0
        kinds = [self.plain, self.modifiable, self.modifiable, self.carray, self.strings, self.null_string, self.excluded]
        for i in range(nargs):
            d = i >= nargs - ndef
            a = None
            for _ in range(3):
                a = rng.choice(kinds)(f, names[i], d)
                if a is not None:
                    break
            f.args.append(a or self.plain(f, names[i], d))
        if variadic:
            f.args.append(self.variadic(f, names[7]))
        if f.kind != "ctor":
            f.ret, f.ret_value = rng.choice([("void", None), ("void", None), ("int", 70 + idx), ("double", idx + .5), ("bool", True), ("std::string", f"ret{idx}"),
                                             ("const std::string &", f"ref{idx}"), ("Pt", (idx, 5)), ("const Pt &", (idx, 6)), ("int &", 7), ("std::vector<int>", [1, idx]), ("const char *", "lit"),
                                             ("std::tuple<int, std::string>", None), ("std::optional<int>", 5)])
            if f.ret.startswith("std::tuple"):
                f.ret_value = "TUPLE"
        return f

    def decl(self, f: Fn, qual: str = "", defaults: bool = True) -> str:
        ps = [p for a in f.args for p in a.cpp]
        if not defaults:
            ps = [re.sub(r" = .*$", "", p) for p in ps]
        name = f.name if not qual else f"{qual}::{f.name}"
        if f.kind == "ctor":
            return f"{f.cls}({', '.join(ps)})" if not qual else f"{qual}::{f.cls}({', '.join(ps)})"
        return f"{'static ' if f.kind == 'static' and defaults else ''}{f.ret} {name}({', '.join(ps)}){' const' if f.kind == 'cmethod' else ''}"

    def body(self, f: Fn) -> str:
        lines = [f'LOG_ += "{f.name}(";']
        if f.kind in ("method", "cmethod"):
            lines.append("A(id);")
        for a in f.args:
            lines += a.rec
        lines.append('LOG_ += ")";')
        for a in f.args:
            lines += a.mod
        v = f.ret_value
        ret = {"void": "", "int": f"return {v};", "double": f"return {v};", "bool": "return true;", "std::string": f'return "{v}";', "const std::string &": f'static std::string s_ret = "{v}"; return s_ret;',
               "Pt": f"return Pt{v};", "const Pt &": f"static Pt p_ret{v}; return p_ret;", "int &": f"static int i_ret = {v}; return i_ret;", "std::vector<int>": "return {" + ", ".join(map(str, v or [])) + "};" if isinstance(v, list) else "",
               "const char *": f'return "{v}";', "std::tuple<int, std::string>": 'return std::make_tuple(4, std::string("tu"));', "std::optional<int>": "return 5;"}[f.ret] if f.kind != "ctor" else ""
        return "{ " + " ".join(lines) + " " + ret + " }"

    def sources(self, fns: list[Fn]) -> tuple[str, str]:
        header, defs = HEADER, DEFS
        classes: dict[str, list[Fn]] = {}
        free = []
        for i, f in enumerate(fns):
            if f.kind == "fn":
                free.append(f)
            elif f.kind == "ctor":
                f.cls = f"Ct{f.name[2:].capitalize()}"
                classes[f.cls] = [f]
            else:
                f.cls = "ObjA" if i % 2 else "ObjB"
                classes.setdefault(f.cls, []).append(f)
        ns = self.rng.choice(["", "", "nsp"])
        body = ""
        for c, fs in classes.items():
            body += f"struct {c}\n{{\n    int id = 4;\n"
            if fs[0].kind != "ctor":
                body += f"    {c}();\n"
                defs += f"\n{{NS}}{c}::{c}() {{}}".replace("{NS}", ns + "::" if ns else "")
            for f in fs:
                body += f"    {self.decl(f)};\n"
                defs += "\n" + self.decl(f, (ns + "::" if ns else "") + c, False) + " " + self.body(f)
            body += "};\n"
        for f in free:
            body += self.decl(f) + ";\n"
            defs += "\n" + self.decl(f, ns, False) + " " + self.body(f)
        if ns:
            body = f"namespace {ns}\n{{\n{body}}}\n"
        self.mod = "m." + ns if ns else "m"
        return header + body, defs

    def calls(self, f: Fn) -> list[dict]:
        rng = self.rng
        r = []
        for c in range(3):
            setup, pos, kw, lg_, outs, after = [], [], {}, "", [], []
            cut = rng.randrange(len(f.args) + 1) if rng.random() < .6 else len(f.args)      # trailing defaulted arguments are left out
            usekw = False
            for i, a in enumerate(f.args):
                given = not a.default or i < cut or rng.random() < .3
                if a.default and not given and not any(True for _ in ()):
                    usekw = usekw or bool(a.py)
                g = a.make(rng, f"t{c}", given)
                setup += g.get("setup", [])
                lg_ += g["log"]
                outs += g.get("out", [])
                after += g.get("after", [])
                if given and rng.random() < .2:
                    usekw = True
                for n, _ in a.py:
                    if n in g["args"]:
                        if usekw:
                            kw[n] = g["args"][n]
                        else:
                            pos.append(g["args"][n])
                    else:
                        usekw = True
            items = list(kw.items())
            rng.shuffle(items)
            argtxt = ", ".join(pos + [f"{n}={e}" for n, e in items])
            if f.kind == "fn":
                call = f"{self.mod}.{f.name}({argtxt})"
            elif f.kind == "static":
                call = f"{self.mod}.{f.cls}.{f.name}({argtxt})"
            elif f.kind == "ctor":
                call = f"{self.mod}.{f.cls}({argtxt})"
            else:
                setup.append(f"o = {self.mod}.{f.cls}(); o.id = {c + 20}")
                call = f"o.{f.name}({argtxt})"
                lg_ = f"{c + 20};" + lg_
            checks = []
            exp = None
            if f.kind != "ctor":
                v = f.ret_value
                main = None if f.ret == "void" else "PT" if f.ret in ("Pt", "const Pt &") else repr((4, "tu")) if v == "TUPLE" else repr(v)
                if not outs:
                    checks = [("r", "None")] if main is None else [("(r.x, r.y)", repr(v))] if main == "PT" else [("r", main)]
                else:
                    parts = ([main] if main is not None else []) + outs
                    if len(parts) == 1:
                        checks = [("r", parts[0])]
                    else:
                        checks = [("type(r).__name__, len(r)", f"('tuple', {len(parts)})")]
                        for i, x in enumerate(parts):
                            checks.append((f"(r[{i}].x, r[{i}].y)", repr(v)) if x == "PT" else (f"r[{i}]", x))
            else:
                checks = [("type(r).__name__", repr(f.cls))]
            r.append({"setup": setup, "call": call, "checks": checks + after, "log": f"{f.name}({lg_})"})
        return r


def boxed(t: str) -> str:
    t = "string" if t == "std::string" else t
    return "Boxed" + "".join(w[0].upper() + w[1:] for w in t.split(" "))


def judge(g, o, b, header, defs, calls, owners) -> None:
    from . import c08
    info = dict(options={**c08.describe(o), "lib": "nanobind" if b.nb else "pybind11"})
    try:
        d, name, src = cxx.build(b.nb, header, defs, g.glue_text, g.pydef_text)
    except cxx.CompileError as e:
        raise core.Violation("the generated binding code does not compile: " + str(e).split("\n")[0][:160], errors=str(e), code=header, pydef=g.pydef_text[:12000], **info)
    res = cxx.execute(d, name, calls)
    for c, f, r in zip(calls, owners, res):
        bad = None
        if "crash" in r or "exc" in r:
            bad = ("calling from Python fails", r.get("crash") or r.get("exc"))
        elif r["log"] != c["log"]:
            bad = ("the C++ function does not receive the arguments", f"expected {c['log']}, received {r['log']}")
        else:
            for (x, e), got in zip(c["checks"], r["checks"]):
                if got != e:
                    bad = ("wrong value after the call", f"{x}: expected {e}, got {got}")
                    break
        if bad:
            raise core.Violation(f"{bad[0]}: {bad[1]}"[:300], declaration=b.decl(f) if f else "", setup=c["setup"], call=c["call"], code=header, stub=g.stub_text[:6000], pydef=extract(g.pydef_text, f.name if f else ""), **info)


def extract(pydef: str, name: str) -> str:
    i = pydef.find(f'"{name}"')
    return pydef[max(0, i - 200):i + 3500] if i >= 0 else pydef[:8000]


def batch(rng: random.Random, nb: bool, n: int = 24) -> tuple:
    b = Batch(rng, nb)
    fns = [b.function(i) for i in range(n)]
    header, defs = b.sources(fns)
    o = b.options()
    g = lg.generate(o, header)
    calls, owners = [], []
    for f in fns:
        for c in b.calls(f):
            calls.append(c)
            owners.append(f)
    judge(g, o, b, header, defs, calls, owners)
    return header, {"functions": [b.decl(f) for f in fns[:4]], "calls": [c["call"] for c in calls[:4]]}


def batch_pybind(rng: random.Random) -> tuple:
    return batch(rng, False)


def batch_nanobind(rng: random.Random) -> tuple:
    return batch(rng, True)


DIRECTED = []
RANDOM = [(batch_nanobind, 60), (batch_pybind, 60)]
