"""C04: every enumerator is bound once, in order, with its C++ value."""
from __future__ import annotations
import random, re
from . import core, lg, out, prog
from .iface import snake, py

NAMES = ["A", "b", "Red", "DarkBlue", "none", "None", "lambda", "Pass", "x1", "Value_Two", "HTTPCode", "_hid", "MAX_VALUE", "in", "From", "left", "Right", "top3", "Is", "alpha", "Beta", "GAMMA", "item_n3", "fun3", "countdown", "resize", "Numbers", "sizeable",
         "discount", "counter", "subtotal", "nbx", "x_size_y", "count_of", "size_t1", "n_items", "total_a"]
COUNTS = ["count", "size", "nb", "n", "total", "nb_items", "items_count", "the_size", "n_values"]


def cval(s: str, env: dict):
    """value of a C++ constant expression over ints and the previous enumerators; None when out of reach"""
    t = re.sub(r"'(\\?.)'", lambda m: str(ord(m.group(1))) if len(m.group(1)) == 1 else "None", s)
    t = re.sub(r"static_cast<\w+>", "", t)
    t = re.sub(r"\((?:int|unsigned int|uint8_t)\)", "", t)

    def num(m):
        x = m.group(1)
        if re.fullmatch("0[0-7]+", x):
            return str(int(x, 8))
        return str(int(x, 0))
    t = re.sub(r"\b(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)(?:[uU]?[lL]{0,2}|[lL]{1,2}[uU])\b", num, t)
    t = t.replace("::", ".")
    t = re.sub(r"[A-Za-z_][\w.]*", lambda m: str(env[m.group(0)]) if m.group(0) in env else f"None", t)
    try:
        return eval(t, {})
    except Exception:
        return None


def enum(rng: random.Random, name: str, scoped: bool, macros: dict, shared: list) -> tuple:
    """-> (lines, [(C++ name, value)], count item present)"""
    n = rng.choice([1, 2, 3, 4, 5, 7, 10])
    base_name = name.rstrip("_")
    prefix = rng.choice(["", base_name + "_", name, base_name.lower() + "_", base_name.upper() + "_"]) if not scoped else rng.choice(["", "", "", base_name + "_"])
    base = rng.choice(["", "", " : int", " : uint8_t", " : long long"])
    vals: list[tuple] = []
    env: dict = {}
    lines = []
    used: set = set()
    prev = -1
    count = rng.random() < 0.3
    pool = rng.sample(NAMES, min(n, len(NAMES)))
    for i, w in enumerate(pool + ([rng.choice(COUNTS + ["COUNT"])] if count else [])):
        last_count = count and i == len(pool)
        if rng.random() < 0.08 and not last_count and prefix and prefix.endswith("_"):
            w = str(rng.randint(2, 9)) + rng.choice(["d", "D", "x"])
        nm = prefix + w
        if nm[0].isdigit() or nm in shared or (w in COUNTS and not last_count) or snake(w).lower() in used:
            continue
        used.add(snake(w).lower())
        r = rng.random()
        init = None
        if r < 0.45 or last_count and rng.random() < 0.8:
            init, v = None, prev + 1
        elif r < 0.6:
            v = rng.choice([0, 1, 5, 10, 255, 1000])
            init = rng.choice([str(v), hex(v), "0X" + hex(v)[2:].upper(), str(v) + "u", str(v) + "UL", "0b" + bin(v)[2:], "0" + oct(v)[2:], f"({v})" if False else str(v)])
        elif r < 0.68:
            v = -rng.randint(1, 9)
            init = rng.choice([str(v), f"- {-v}"])
        elif r < 0.76:
            k, m = rng.randint(0, 10), rng.randint(1, 3)
            init, v = f"{m} << {k}", m << k
        elif r < 0.9 and env:
            a = rng.choice(list(env))
            b = rng.choice(list(env))
            q = (name + "::") if rng.random() < 0.2 else ""
            init, v = rng.choice([(f"{a} | {b}", env[a] | env[b]), (f"{q}{a}", env[a]), (f"{a} + 1", env[a] + 1), (f"{a} << 2", env[a] << 2), (f"({a} | {b}) & 7", (env[a] | env[b]) & 7), (f"{a} - {b}", env[a] - env[b])])
        elif r < 0.95 and macros:
            mname = rng.choice(list(macros))
            init, v = mname, macros[mname]
        elif scoped:
            c = rng.choice("axZ0")
            init, v = f"'{c}'", ord(c)
        else:
            init, v = None, prev + 1
        prev = v
        env[nm] = v
        vals.append((nm, v, init))
        lines.append(nm + (f" = {init}" if init is not None else ""))
    if not vals:
        raise core.Skip()
    shared += [x[0] for x in vals] if not scoped else []
    oneline = rng.random() < 0.25
    tail = rng.choice([",", ""])
    if oneline:
        txt = [f"enum {'class ' if scoped else ''}{name}{base} {{ " + ", ".join(lines) + tail + " };"]
    else:
        body = []
        for i, l in enumerate(lines):
            if rng.random() < 0.15:
                body.append("    // about " + rng.choice(["a", "b = 3", "x, y"]))
            if rng.random() < 0.1:
                body.append("")
            body.append("    " + l + ("," if i < len(lines) - 1 else tail) + rng.choice(["", "", "", "  // = 5", "  /* c */"]))
        txt = [f"enum {rng.choice(['class', 'class', 'struct']) + ' ' if scoped else ''}{name}{base}", "{"] + body + ["};"]
    return txt, vals, prefix


def shown_value(comment: str) -> str:
    """text between `(= ` and its matching parenthesis"""
    m = re.search(r"\(= ", comment)
    if m is None:
        return "<none>"
    depth, j = 1, m.end()
    while j < len(comment) and depth:
        depth += {"(": 1, ")": -1}.get(comment[j], 0)
        j += 1
    return comment[m.end():j - 1]


def is_count(w: str, scoped: bool, cpp: str, enum_name: str) -> bool:
    """documented count item: last, a word among nb / size / count / total / n (and the enum name, for a C enum)"""
    words = ["nb", "size", "count", "total", "n"]
    ok = any(re.search(p, cpp) for x in words for p in (rf"^{x}$", rf"^{x}_", rf"_{x}$", rf"^{x}[A-Z][a-z_]", rf"^{x}[0-9]$", rf"_{x}[0-9]$"))
    return ok and (scoped or enum_name.lower() in cpp.lower().split("_"))


def item(nm: str, name: str, scoped: bool, removal: bool, conv: bool) -> str:
    w = nm
    if removal and not scoped:
        if w.lower().startswith(name.lower() + "_"):
            w = w[len(name) + 1:]
        elif w.lower().startswith(name.lower()):
            w = w[len(name):]
        if not w:
            w = nm
        if w[0].isdigit():
            w = "_" + w
    return py(snake(w) if conv else w)


def case(rng: random.Random) -> tuple:
    nb = rng.random() < 0.5
    o = lg.options(nb)
    kw = dict(enum_flag_remove_values_prefix=rng.random() < 0.75, enum_flag_skip_count=rng.random() < 0.7, enum_export_values=rng.random() < 0.2, python_convert_to_snake_case=rng.random() < 0.8)
    arith, flag = rng.choice([(".*", ""), (".*", ""), ("", ""), (".*", ".*"), ("", ".*"), ("Ab$", "Cd$")])
    kw.update(enum_make_arithmetic__regex=arith, enum_make_flag__regex=flag)
    for k, v in kw.items():
        setattr(o, k, v)
    macros = {"MY_MACRO": 7, "OTHER": 12} if rng.random() < 0.3 else {}
    o.srcmlcpp_options.named_number_macros.update(macros)
    lines: list[str] = []
    want: list[tuple] = []
    seen: set = set()
    shared: list[str] = []
    scopes = [((), "", [], [])]
    for _ in range(rng.choice([1, 2, 3])):
        name = rng.choice(["Color", "ModeAb", "FlagCd", "MyEnum_", "Kindly", "Foo", "HTTPState"])
        if name in seen:
            continue
        seen.add(name)
        scoped = rng.random() < 0.5
        sc = rng.choice(["", "", "ns", "cls", "nscls"])
        txt, vals, prefix = enum(rng, name, scoped, macros, shared if sc == "" else [])
        doc = ["// the enum " + name] if rng.random() < 0.3 else []
        if sc == "":
            lines += doc + txt
            path = ()
            cpp = ""
        elif sc == "ns":
            lines += [f"namespace Sp{len(lines)}", "{"] + ["    " + x for x in doc + txt] + ["}"]
            path, cpp = (snake(f"Sp{len(lines) - len(doc + txt) - 3}") if kw["python_convert_to_snake_case"] else f"Sp{len(lines) - len(doc + txt) - 3}",), f"Sp{len(lines) - len(doc + txt) - 3}::"
        elif sc == "cls":
            c = f"Holder{len(lines)}"
            lines += [f"struct {c}", "{"] + ["    " + x for x in doc + txt] + [f"    {name} value;", "};"]
            path, cpp = (c,), c + "::"
        else:
            c = f"Holder{len(lines)}"
            lines += ["namespace deep", "{", f"    class {c}", "    {", "      public:"] + ["        " + x for x in doc + txt] + ["        void m();", "    };", "}"]
            path, cpp = ("deep", c), "deep::" + c + "::"
        want.append((path, name, scoped, vals, cpp))
    code = "\n".join(lines) + "\n"
    if any(i and i in macros for w in want for _, _, i in w[3]) and not macros:
        raise core.Skip()
    g = lg.generate(o, code)
    info = dict(options=kw)
    for path, name, scoped, vals, cpp in want:
        exp = []
        for i, (nm, v, init) in enumerate(vals):
            if kw["enum_flag_skip_count"] and i == len(vals) - 1 and is_count(nm, scoped, nm, name):
                continue
            exp.append((item(nm, name, scoped, kw["enum_flag_remove_values_prefix"], kw["python_convert_to_snake_case"]), v, nm, init))
        if len({e[0] for e in exp}) != len(exp):
            raise core.Skip()
        nodes = {}
        for side, root in (("stub", g.stub), ("binding code", g.pydef)):
            n = root
            for p in path:
                n = n.kid(p)
                g.check(n is not None, f"scope of enum {name} is missing in the {side}", path=path, **info)
            e = n.kid(name)
            g.check(e is not None and e.kind == "enum", f"enum {name} is missing in the {side}", **info)
            nodes[side] = e
            got = [x[0] for x in e.values]
            g.check(got == [x[0] for x in exp], f"enum {name}: items of the {side} are not the enumerators in order", expected=[x[0] for x in exp], got=got, **info)
        # the binding code designates each C++ enumerator
        for (pn, v, nm, _), b in zip(exp, nodes["binding code"].values):
            q = cpp + (name + "::" if scoped else "") + nm
            g.check(b[1].strip() == q, f"enum {name}: item {pn} is bound to {b[1]} instead of {q}", **info)
        # values shown in the stub
        env: dict = {}
        for (pn, v, nm, init), s in zip(exp, nodes["stub"].values):
            shown = shown_value(str(s[1]))
            val = cval(shown, env)
            g.check(val == v, f"enum {name}: the stub shows {shown} for {pn}, whose C++ value is {v}", initializer=init, evaluates_to=val, **info)
            for key in (nm, pn, f"{name}.{pn}", f"{name}.{nm}", f"{py(name)}.{pn}"):
                env[key] = v
        full = cpp + name
        ar = bool(arith) and re.search(arith, full) is not None
        fl = bool(flag) and re.search(flag, full) is not None
        base = {(True, True): "IntFlag", (True, False): "IntEnum", (False, True): "Flag", (False, False): "Enum"}[(ar, fl)]
        g.check(nodes["stub"].bases == ["enum." + base], f"enum {name}: base class of the stub", expected=base, got=nodes["stub"].bases, **info)
        blk = re.search(r'enum_<' + re.escape(full) + r'>\((.*?)\n', g.pydef_text)
        g.check(blk is not None, f"enum {name}: the binding code designates {full}", **info)
        g.check(("arithmetic" in blk.group(1)) == ar, f"enum {name}: arithmetic in the binding code", **info)
        if nb:
            g.check(("is_flag" in blk.group(1)) == fl, f"enum {name}: flag in the binding code", **info)
    n_exp = g.pydef_text.count(".export_values()")
    g.check(n_exp == (len(want) if kw["enum_export_values"] else 0), "export_values", **info)
    return ((code, str(kw)), {"code": code, "options": kw})


def directed() -> tuple:
    o = lg.options()
    o.enum_flag_remove_values_prefix_group_private = True
    g = lg.generate(o, "enum ImGuiMyFlags_ { ImGuiMyFlags_None = 0, ImGuiMyFlags_A = 1 << 3, ImGuiMyFlags_B };\nenum ImGuiMyFlagsPrivate_ { ImGuiMyFlags_PrivValue = 5, ImGuiMyFlags_Q };\nenum { U, V };\nstruct S { enum { W }; int a; };\n")
    g.check([v[0] for v in g.stub.kid("ImGuiMyFlags_").values] == ["none", "a", "b"], "prefix removal", got=g.stub.kid("ImGuiMyFlags_").values)
    g.check([v[0] for v in g.stub.kid("ImGuiMyFlagsPrivate_").values] == ["priv_value", "q"], "prefix removal of the private enum", got=g.stub.kid("ImGuiMyFlagsPrivate_").values)
    g.check(len(g.pydef.kids) == 3, "unnamed enums are not bound", kids=[k.name for k in g.pydef.kids])
    return ("directed", g.code)


DIRECTED = [directed]
RANDOM = [(case, 3000)]
