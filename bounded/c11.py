"""C11: array bindings use the dtype and the element count of the C++ array.
Functions taking C buffers and structs with array members are bound, compiled with the real binding library and called from Python with
numpy arrays of every dtype, length and layout: the C++ side records what it receives."""
from __future__ import annotations
import random, re
from typing import Any
from . import core, lg, cxx, c08

# C++ type -> (numpy expression of its dtype, tag logged by C++)
TYPES = {"uint8_t": ("np.uint8", "u1"), "int8_t": ("np.int8", "i1"), "uint16_t": ("np.uint16", "u2"), "int16_t": ("np.int16", "i2"), "uint32_t": ("np.uint32", "u4"), "int32_t": ("np.int32", "i4"),
         "np_uint_l": ("np.uint64", "u8"), "np_int_l": ("np.int64", "i8"), "float": ("np.float32", "f4"), "double": ("np.float64", "f8"), "long double": ("np.longdouble", "f16"), "long long": ("np.longlong", "i8")}
OTHER = ["np.bool_", "np.float16", "np.complex64", "np.complex128", "object", "'S1'", "'U1'", "'M8[s]'"]
HEADER = """
using np_uint_l = uint64_t;
using np_int_l = int64_t;
"""
DEFS = """
template<class T> static void TN(const T *) { LOG_ += std::string(std::is_floating_point_v<T> ? "f" : std::is_signed_v<T> ? "i" : "u") + std::to_string(sizeof(T)) + ";"; }
template<class T> static void AB(const T * p, long n) { TN(p); LOG_ += "["; for (long i = 0; i < n; i++) A((double) p[i]); LOG_ += "];"; }
"""
MEMBERS = {"int": "np.int32", "unsigned int": "np.uint32", "long": "np.int64", "unsigned long": "np.uint64", "long long": "np.int64", "unsigned long long": "np.uint64", "float": "np.float32", "double": "np.float64", "long double": "np.longdouble",
           "uint8_t": "np.uint8", "int8_t": "np.int8", "uint16_t": "np.uint16", "int16_t": "np.int16", "uint32_t": "np.uint32", "int32_t": "np.int32", "uint64_t": "np.uint64", "int64_t": "np.int64", "bool": "np.bool_"}


def num(v: Any) -> str:
    return "%.17g;" % float(v)


class Buf:
    def __init__(self, name: str, typ: str, const: bool, k: int):
        self.name, self.typ, self.const, self.k = name, typ, const, k      # typ "T": template


class Fn:
    pass


BUFNAMES = ["values", "data", "buf", "xs", "ys", "array", "weights", "samples"]
SIZES = ["{}_size", "{}_count", "nb_{}", "{}_total", "n", "count", "size", "nb", "n_{}"]
INT_T = ["int", "size_t", "unsigned int", "long", "int64_t", "uint16_t"]


class Batch:
    def __init__(self, rng: random.Random, nb: bool):
        self.rng, self.nb = rng, nb
        known = [t for t in TYPES if not (nb and t == "long double")]      # numpy does not export its long doubles to nanobind
        k = rng.choice([12, 12, 7, 3])
        self.types = known if k == 12 else rng.sample(known, k)
        if rng.random() < .3:
            rng.shuffle(self.types)
        self.templ = rng.choice(["T", "NumericType", "T|NumericType"])

    def options(self):
        o = lg.options(self.nb)
        o.fn_params_replace_buffer_by_array__regex = ".*"
        o.fn_params_buffer_types = "|".join(self.types)
        o.fn_params_buffer_template_types = self.templ
        o.python_convert_to_snake_case = False
        o.class_create_default_named_ctor__regex = ""
        o.struct_create_default_named_ctor__regex = ""
        return o

    def function(self, i: int) -> Fn:
        rng = self.rng
        f = Fn()
        f.name = "fn" + "".join("abcdefghij"[int(c)] for c in str(i))
        f.kind = rng.choices(["fn", "method", "cmethod", "static", "ctor"], [5, 2, 1, 1, 1])[0]
        f.cls = f"Cls{f.name[2:].upper()}"
        f.tpl = rng.random() < .4 and f.kind != "ctor"
        f.tname = rng.choice(self.templ.split("|"))
        names = rng.sample(BUFNAMES, 6)
        sizes = rng.sample(SIZES, 4)
        f.items = []                      # ("plain", name, cpp type) | ("buf", Buf) | ("size", name, type, index of its buffer) | ("stride", name, index)
        plain = iter(["factor", "offset", "label", "mode"])
        ngroups = rng.choice([1, 1, 2]) if not f.tpl else 1
        used = 0
        stride = False
        for gi in range(ngroups):
            if rng.random() < .3:
                f.items.append(("plain", next(plain), rng.choice(["int", "double", "bool"])))
            cnt = rng.choice([1, 1, 1, 2, 3])
            for b in range(cnt):
                t = "T" if f.tpl and (b == 0 or rng.random() < .8) else rng.choice(self.types)
                f.items.append(("buf", Buf(names[used], t, rng.random() < .5, rng.randrange(1, 5))))
                used += 1
            nm = sizes[gi].format(names[used - 1])
            f.items.append(("size", nm, rng.choice(INT_T), len(f.items) - 1))
            if rng.random() < .2 and not stride:
                f.items.append(("plain", next(plain), rng.choice(["int", "double", "bool"])))
            if used >= 5:
                break
        lastb = max(i for i, x in enumerate(f.items) if x[0] == "buf")
        f.defplain = rng.random() < .25
        if rng.random() < .25:
            bt = f.items[lastb][1].typ
            if " " not in bt:                                # sizeof(long double): srcML does not parse it as a default value
                f.items.append(("stride", "stride", lastb))
                f.stride_size = bt if bt != "T" else f.tname
        elif f.defplain:
            f.items.append(("plaind", next(plain), "int"))
        f.ret = rng.choice(["void", "int", "double", "std::string"]) if f.kind != "ctor" else ""
        return f

    def params(self, f: Fn, defaults: bool) -> str:
        ps = []
        for it in f.items:
            if it[0] == "plain":
                ps.append(f"{it[2]} {it[1]}")
            elif it[0] == "plaind":
                ps.append(f"int {it[1]}" + (" = 31" if defaults else ""))
            elif it[0] == "buf":
                b = it[1]
                ps.append(f"{'const ' if b.const else ''}{f.tname if b.typ == 'T' else b.typ} * {b.name}")
            elif it[0] == "size":
                ps.append(f"{it[2]} {it[1]}")
            else:
                ps.append(f"int {it[1]}" + (f" = sizeof({f.stride_size})" if defaults else ""))
        return ", ".join(ps)

    def body(self, f: Fn) -> str:
        s = [f'LOG_ += "{f.name}(";']
        last = {}
        for i, it in enumerate(f.items):
            if it[0] == "size":
                # the buffers of the group, from the previous size
                j = i - 1
                while j >= 0 and f.items[j][0] == "buf":
                    last[j] = it[1]
                    j -= 1
        for i, it in enumerate(f.items):
            if it[0] in ("plain", "plaind", "size", "stride"):
                s.append(f"A((double) {it[1]});")
            else:
                s.append(f"AB({it[1].name}, (long) {last[i]});")
        s.append('LOG_ += ")";')
        for i, it in enumerate(f.items):
            if it[0] == "buf" and not it[1].const:
                s.append(f"for (long i_ = 0; i_ < (long) {last[i]}; i_++) {it[1].name}[i_] += {it[1].k};")
        s.append({"void": "", "": "", "int": "return 7;", "double": "return 2.5;", "std::string": 'return "done";'}[f.ret])
        return "{ " + " ".join(s) + " }"

    def decl(self, f: Fn) -> str:
        tpl = f"template<typename {f.tname}> " if f.tpl else ""
        if f.kind == "ctor":
            return f"{f.cls}({self.params(f, True)})"
        return f"{tpl}{'static ' if f.kind == 'static' else ''}{f.ret} {f.name}({self.params(f, True)}){' const' if f.kind == 'cmethod' else ''}"

    def sources(self, fns: list[Fn]) -> tuple[str, str]:
        """header given to litgen (declarations) and definitions"""
        h, d = HEADER, DEFS
        ns = self.rng.choice(["", "", "nsp"])
        self.mod = "m." + ns if ns else "m"
        q = ns + "::" if ns else ""
        body = ""
        for f in fns:
            tpl = f"template<typename {f.tname}> " if f.tpl else ""
            if f.kind == "fn":
                body += self.decl(f) + ";\n"
                d += f"\n{tpl}{f.ret} {q}{f.name}({self.params(f, False)}) {self.body(f)}"
            elif f.kind == "ctor":
                body += f"struct {f.cls}\n{{\n    int id = 3;\n    {self.decl(f)};\n}};\n"
                d += f"\n{q}{f.cls}::{f.cls}({self.params(f, False)}) {self.body(f)}"
            else:
                body += f"struct {f.cls}\n{{\n    int id = 3;\n    {f.cls}();\n    {self.decl(f)};\n}};\n"
                d += f"\n{q}{f.cls}::{f.cls}() {{}}"
                d += f"\n{tpl}{f.ret} {q}{f.cls}::{f.name}({self.params(f, False)}){' const' if f.kind == 'cmethod' else ''} {self.body(f)}"
        if ns:
            body = f"namespace {ns}\n{{\n{body}}}\n"
        return h + body, d

    # ---- calls
    def value(self, t: str) -> Any:
        if t in ("float", "double", "long double"):
            return self.rng.randrange(-40, 40) / 4
        return self.rng.randrange(0, 60)

    def call(self, f: Fn, bad: str) -> dict | None:
        """one call; bad: "" (accepted) or the way in which one buffer is wrong"""
        rng = self.rng
        bufs = [i for i, it in enumerate(f.items) if it[0] == "buf"]
        target = rng.choice(bufs) if bad else -1
        T = rng.choice(self.types)
        setup, args, log, checks = [], [], f"{f.name}(", []
        n = None
        lens = {}
        # elements of a group share their length (the C++ function receives a single count)
        for i in range(len(f.items) - 1, -1, -1):
            it = f.items[i]
            if it[0] == "size":
                n = rng.choice([0, 1, 2, 3, 5, 8]) if not bad else rng.choice([2, 3, 4, 6])
            if it[0] == "buf":
                lens[i] = n
        tbufs = [i for i in bufs if f.items[i][1].typ == "T"]
        if bad == "readonly" and f.items[target][1].const:
            bad_ok = True
        else:
            bad_ok = False
        for i, it in enumerate(f.items):
            if it[0] == "plain":
                v, e = {"int": lambda: (lambda x: (x, repr(x)))(rng.randrange(90)), "double": lambda: (lambda x: (x, repr(x)))(rng.randrange(90) / 4), "bool": lambda: (lambda x: (x, repr(x)))(rng.random() < .5)}[it[2]]()
                args.append((it[1], e))
                log += num(v)
            elif it[0] == "plaind":
                if rng.random() < .5:
                    v = rng.randrange(90)
                    args.append((it[1], repr(v)))
                    log += num(v)
                else:
                    log += num(31)
            elif it[0] == "size":
                log += num(lens[it[3]])
            elif it[0] == "stride":
                t = f.items[it[2]][1].typ
                t = T if t == "T" else t
                if rng.random() < .5:
                    v = rng.randrange(1, 64)
                    args.append((it[1], repr(v)))
                    log += num(v)
                else:
                    log += num({"1": 1, "2": 2, "4": 4, "8": 8, "16": 16}[TYPES[t][1][1:]])
            else:
                b = it[1]
                t = T if b.typ == "T" else b.typ
                dt, tag = TYPES[t]
                vals = [self.value(t) for _ in range(lens[i])]
                e = f"np.array({vals!r}, dtype={dt})"
                if not vals:
                    e = f"np.zeros(3, dtype={dt})[:0]"            # np.array([]) is a known finding: see empty
                var = f"a_{b.name}"
                if i == target and bad == "dtype":
                    if b.typ == "T" and len(tbufs) == 1:
                        # a dtype that is not configured
                        cands = [TYPES[x][0] for x in TYPES if TYPES[x][1] not in [TYPES[y][1] for y in self.types]] + OTHER
                    else:
                        cands = [TYPES[x][0] for x in TYPES if TYPES[x][1] != tag] + OTHER
                    dtb = rng.choice(cands)
                    e = f"np.array({vals!r}).astype({dtb})"
                elif i == target and bad == "strided":
                    e = f"np.array({[x for v in vals for x in (v, v)]!r}, dtype={dt})[::2]"
                elif i == target and bad == "reversed":
                    e = f"np.array({vals!r}, dtype={dt})[::-1]"
                elif i == target and bad == "2d":
                    e = rng.choice([f"np.array([{vals!r}, {vals!r}], dtype={dt})", f"np.array([{vals!r}], dtype={dt})", f"np.array([{vals!r}], dtype={dt}).T"])
                elif i == target and bad == "column":
                    e = f"np.array([{vals!r}, {vals!r}], dtype={dt}).T[:, 0].copy().reshape(-1, 1)[:, 0] if False else np.array([[v, v] for v in {vals!r}], dtype={dt})[:, 1]"
                elif i == target and bad == "0d":
                    e = f"np.array({vals[0]!r}, dtype={dt})"
                elif i == target and bad == "byteorder":
                    if tag[1:] == "1" or tag == "f16":
                        return None
                    e = f"np.array({vals!r}, dtype={dt}).astype(np.dtype({dt}).newbyteorder('>'))"
                setup.append(f"{var} = {e}")
                if i == target and bad == "readonly":
                    setup.append(f"{var}.flags.writeable = False")
                elif not bad and b.const and rng.random() < .2:
                    setup.append(f"{var}.flags.writeable = False")
                args.append((b.name, var))
                log += tag + ";[" + "".join(num(v) for v in vals) + "];"
                exp = vals if b.const else [v + b.k for v in vals]
                if not bad or bad_ok:
                    checks.append((f"{var}.tolist()", repr([float(x) if t in ("float", "double", "long double") else int(x) for x in exp])) if t != "long double" else (f"[float(x) for x in {var}]", repr([float(x) for x in exp])))
        cut = rng.randrange(len(args) + 1)
        txt = ", ".join([e for _, e in args[:cut]] + [f"{n_}={e}" for n_, e in args[cut:]])
        seen_gap = [n_ for n_, _ in args]
        # a defaulted parameter left out before another one: by keyword
        if f.kind == "fn":
            call = f"{self.mod}.{f.name}({txt})"
        elif f.kind == "static":
            call = f"{self.mod}.{f.cls}.{f.name}({txt})"
        elif f.kind == "ctor":
            call = f"{self.mod}.{f.cls}({txt})"
        else:
            setup.append(f"o = {self.mod}.{f.cls}()")
            call = f"o.{f.name}({txt})"
        if f.kind != "ctor":
            checks.append(("r", {"void": "None", "int": "7", "double": "2.5", "std::string": "'done'"}[f.ret]))
        return {"setup": setup, "call": call, "checks": checks, "log": log + ")", "bad": "" if bad_ok else bad}


BAD = ["byteorder", "dtype", "dtype", "strided", "reversed", "2d", "column", "0d", "readonly"]


def judge(g, o, b, header, defs, calls, owners) -> None:
    info = dict(options={**c08.describe(o), "lib": "nanobind" if b.nb else "pybind11"})
    try:
        d, name, src = cxx.build(b.nb, header, defs, g.glue_text, g.pydef_text)
    except cxx.CompileError as e:
        raise core.Violation("the generated binding code does not compile: " + str(e).split("\n")[0][:160], errors=str(e), code=header, pydef=g.pydef_text[:12000], **info)
    res = cxx.execute(d, name, calls)
    for c, f, r in zip(calls, owners, res):
        why = None
        if "crash" in r:
            why = ("calling from Python fails", r["crash"])
        elif c["bad"]:
            if "exc" not in r:
                why = (f"an array that must be rejected ({c['bad']}) is accepted", "")
            elif r["log"]:
                why = (f"the C++ function is called although an array is wrong ({c['bad']})", r["log"])
        elif "exc" in r:
            why = ("calling from Python fails", r["exc"])
        elif r["log"] != c["log"]:
            why = ("the C++ function does not receive the elements", f"expected {c['log']}, received {r['log']}")
        else:
            for (x, e), got in zip(c["checks"], r["checks"]):
                if got != e:
                    why = ("wrong value after the call", f"{x}: expected {e}, got {got}")
                    break
        if why:
            from .c10 import extract
            raise core.Violation(f"{why[0]}: {why[1]}"[:300], declaration=b.decl(f) if f else "", setup=c["setup"], call=c["call"], code=header, pydef=extract(g.pydef_text, f.name if f else ""), **info)


def buffers(rng: random.Random, nb: bool, n: int = 10) -> tuple:
    b = Batch(rng, nb)
    fns = [b.function(i) for i in range(n)]
    header, defs = b.sources(fns)
    o = b.options()
    # litgen sees declarations; template definitions come after, in the same translation unit
    g = lg.generate(o, header)
    calls, owners = [], []
    for f in fns:
        for bad in ["", "", "", "", ""] + rng.sample(BAD, 5):
            if bad == "byteorder" and not nb:          # known finding, see byteorder_pybind
                continue
            c = b.call(f, bad)
            if c is not None:
                calls.append(c)
                owners.append(f)
    judge(g, o, b, header, defs, calls, owners)
    return header, {"functions": [b.decl(f) for f in fns[:4]], "calls": [c["call"] for c in calls[:4]]}


def buffers_pybind(rng: random.Random) -> tuple:
    return buffers(rng, False)


def buffers_nanobind(rng: random.Random) -> tuple:
    return buffers(rng, True)


class MB:
    def __init__(self, nb):
        self.nb = nb

    def decl(self, f):
        return ""


def members(rng: random.Random, nb: bool) -> tuple:
    """structs with array members: dtype, number of elements, and the storage is the one of the C++ object"""
    b = MB(nb)
    o = lg.options(nb)
    o.python_convert_to_snake_case = rng.random() < .5
    consts = {"COUNT": 4, "kSize": 7, "N_MAX": 2}
    o.srcmlcpp_options.named_number_macros = dict(consts)
    ns = rng.choice(["", "nsp"])
    header = "".join(f"constexpr int {k} = {v};\n" for k, v in consts.items())
    structs, defs, calls = [], "", []
    q = ns + "::" if ns else ""
    mod = "m." + ns if ns else "m"
    for i in range(3):
        cls = "Arr" + "ABC"[i]
        lines = []
        ms = []
        for j in range(rng.randrange(2, 6)):
            t = rng.choice([x for x in MEMBERS if not (nb and x == "long double")])      # numpy has no such DLPack type
            nm = f"vals_{'abcdef'[j]}"
            if rng.random() < .3:
                k = rng.choice(list(consts))
                st, size = k, consts[k]
            else:
                size = rng.choice([1, 2, 3, 5, 16])
                st = str(size)
            k = rng.randrange(3)
            lines.append(f"    {t} {nm}[{st}]" + [" = {}", "{}", ""][k] + ";")
            ms.append((nm, t, size))
        structs.append(f"struct {cls}\n{{\n    {cls}();\n" + "\n".join(lines) + "\n    void bump();\n};\n")
        defs += f"\n{q}{cls}::{cls}() {{ " + " ".join(f"for (int i = 0; i < {s}; i++) {n}[i] = ({t}) (i % 2);" for n, t, s in ms) + " }"
        defs += f"\nvoid {q}{cls}::bump() {{ LOG_ += \"bump(\"; " + " ".join(f"A_n({n}, {s});" for n, t, s in ms) + ' LOG_ += ")"; ' + " ".join(f"{n}[0] = ({t}) 1; {n}[{s} - 1] = ({t}) 1;" for n, t, s in ms) + " }"
        checks, setup, log = [], [f"o = {mod}.{cls}()"], "bump("
        for n, t, s in ms:
            vals = [x % 2 for x in range(s)]
            checks.append((f"o.{n}.shape, o.{n}.dtype == np.dtype({MEMBERS[t]}), o.{n}.strides[0] == o.{n}.itemsize", f"(({s},), True, True)"))
            w = rng.randrange(s)
            setup.append(f"o.{n}[{w}] = {1}")
            vals[w] = 1
            log += "[" + "".join(("true;" if v else "false;") if t == "bool" else f"{v};" for v in vals) + "];"
            after = list(vals)
            after[0] = after[-1] = 1
            checks.append((f"[int(x) for x in o.{n}]", repr(after)))
        calls.append({"setup": setup, "call": "o.bump()", "checks": checks, "log": log + ")", "bad": ""})
        for n, t, s in ms[:2]:
            calls.append({"setup": setup[:1], "call": f"o.{n}[{s}]", "checks": [], "log": "", "bad": "an element after the end"})
    body = "\n".join(structs)
    if ns:
        body = f"namespace {ns}\n{{\n{body}}}\n"
    header += body
    g = lg.generate(o, header)
    judge(g, o, b, header, defs, calls, [None] * len(calls))
    return header, {"calls": [c["checks"][:2] for c in calls[:2]]}


def members_pybind(rng: random.Random) -> tuple:
    return members(rng, False)


def members_nanobind(rng: random.Random) -> tuple:
    return members(rng, True)


def fixed(rng: random.Random, nb: bool) -> tuple:
    """const C array parameters take exactly the declared number of elements"""
    b = MB(nb)
    o = lg.options(nb)
    o.fn_params_replace_c_array_const_by_std_array__regex = ".*"
    o.fn_params_output_modifiable_immutable_to_return__regex = ".*"
    o.fn_params_replace_c_array_modifiable_by_boxed__regex = ""
    o.srcmlcpp_options.named_number_macros = {"DIM": 3}
    header, defs, calls = "constexpr int DIM = 3;\n", "", []
    for i in range(8):
        t = rng.choice(["int", "float", "double", "uint8_t", "bool", "std::string", "long long"])
        s = rng.choice([1, 2, 3, 4, "DIM"])
        n = 3 if s == "DIM" else s
        mut = rng.random() < .4
        f = "fx" + "abcdefgh"[i]
        header += f"void {f}({'' if mut else 'const '}{t} v[{s}]);\n"
        defs += f"\nvoid {f}({'' if mut else 'const '}{t} v[{s}]) {{ LOG_ += \"{f}(\"; A_n(v, {n}); LOG_ += \")\"; }}"
        mk = lambda k: [("ab" if t == "std::string" else True if t == "bool" else 1.5 if t in ("float", "double") else 3 + x) for x in range(k)]
        from .c10 import log
        calls.append({"setup": [], "call": f"m.{f}({mk(n)!r})", "checks": [], "log": f"{f}({log(mk(n))})", "bad": ""})
        for k in (n - 1, n + 1):
            calls.append({"setup": [], "call": f"m.{f}({mk(k)!r})", "checks": [], "log": "", "bad": f"{k} elements instead of {n}"})
    g = lg.generate(o, header)
    judge(g, o, b, header, defs, calls, [None] * len(calls))
    return header, {"calls": [c["call"] for c in calls[:3]]}


def fixed_both(rng: random.Random) -> tuple:
    return fixed(rng, rng.random() < .5)


def table(nb: bool, template: bool) -> tuple:
    """every element type, const and not; right and wrong dtypes"""
    rng = random.Random(f"table-{nb}-{template}")
    b = Batch(rng, nb)
    b.types = [t for t in TYPES if not (nb and t == "long double")]
    b.templ = "T"
    fns = []
    names = iter("abcdefghijklmnopqrstuvwxyz")
    for t in (["T"] if template else b.types):
        for const in (True, False):
            f = Fn()
            f.name = "fn" + next(names)
            f.kind, f.cls, f.tpl, f.tname, f.ret, f.defplain, f.stride_size = "fn", "", template, "T", "int", False, "float"
            f.items = [("plain", "factor", "int"), ("buf", Buf("values", t, const, 2)), ("size", "count", "int", 1)]
            if template:
                f.items = f.items[:2] + [("buf", Buf("xs", t, not const, 3)), ("size", "n", "int", 2), ("plain", "mode", "int")]
            fns.append(f)
    header, defs = b.sources(fns)
    o = b.options()
    g = lg.generate(o, header)
    calls, owners = [], []
    bads = ["", "", "strided", "reversed", "2d", "0d", "readonly"] + ([""] * 20 if template else []) + ["dtype"] * (len(TYPES) + len(OTHER)) + (["byteorder"] if nb else [])
    for f in fns:
        for bad in bads:
            c = b.call(f, bad)
            if c is not None:
                calls.append(c)
                owners.append(f)
    judge(g, o, b, header, defs, calls, owners)
    return header, {"functions": [b.decl(f) for f in fns[:4]], "calls": len(calls)}


def table_pybind() -> tuple:
    return table(False, False)


def table_nanobind() -> tuple:
    return table(True, False)


def template_pybind() -> tuple:
    return table(False, True)


def template_nanobind() -> tuple:
    return table(True, True)


def single(nb: bool, setup: list[str], log: str, bad: str) -> tuple:
    b = Batch(random.Random(0), nb)
    b.types = ["float", "double"]
    f = Fn()
    f.name, f.kind, f.cls, f.tpl, f.tname, f.ret, f.defplain, f.stride_size = "fna", "fn", "", False, "T", "int", False, "float"
    f.items = [("buf", Buf("values", "double", True, 2)), ("size", "count", "int", 0)]
    header, defs = b.sources([f])
    o = b.options()
    g = lg.generate(o, header)
    judge(g, o, b, header, defs, [{"setup": setup, "call": f"{b.mod}.fna(a)", "checks": [], "log": log, "bad": bad}], [f])
    return header, {"setup": setup}


def empty_pybind() -> tuple:
    return single(False, ["a = np.array([], dtype=np.float64)"], "fna(f8;[];0;)", "")


def empty_nanobind() -> tuple:
    return single(True, ["a = np.array([], dtype=np.float64)"], "fna(f8;[];0;)", "")


def byteorder_pybind() -> tuple:
    return single(False, ["a = np.array([1.5, 2.5], dtype='>f8')"], "", "byteorder")


def longdouble_nanobind() -> tuple:
    """nanobind cannot receive numpy's long doubles: no array may reach a long double buffer (its elements would be read with another size)"""
    b = Batch(random.Random(0), True)
    b.types = ["long double", "double", "float"]
    fns = []
    for name, const in (("fna", True), ("fnb", False)):
        f = Fn()
        f.name, f.kind, f.cls, f.tpl, f.tname, f.ret, f.defplain, f.stride_size = name, "fn", "", False, "T", "int", False, "float"
        f.items = [("buf", Buf("values", "long double", const, 2)), ("size", "count", "int", 0)]
        fns.append(f)
    header, defs = b.sources(fns)
    calls, owners = [], []
    for f in fns:
        for dt in ("np.float64", "np.float32", "np.float16", "np.int64", "np.complex128"):
            calls.append({"setup": [f"a = np.array([1, 2, 3], dtype={dt})"], "call": f"{b.mod}.{f.name}(a)", "checks": [], "log": "", "bad": f"{dt} for long double"})
            owners.append(f)
    o = b.options()
    g = lg.generate(o, header)
    judge(g, o, b, header, defs, calls, owners)
    return header, {"calls": [c["call"] for c in calls]}


DIRECTED = [longdouble_nanobind, table_pybind, table_nanobind, template_pybind, template_nanobind, empty_pybind, empty_nanobind, byteorder_pybind]
RANDOM = [(buffers_nanobind, 30), (buffers_pybind, 30), (members_nanobind, 12), (members_pybind, 12), (fixed_both, 10)]
