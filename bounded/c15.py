"""C15: exactly the requested template instantiations are bound, under the requested names, with every parameter occurrence replaced.
The headers are written from forms with explicit placeholders, so the expected text never comes from the code under test;
the binding code is compiled and called: each instantiation records the C++ type it was instantiated with."""
from __future__ import annotations
import random, re
from typing import Any, Optional
from . import core, lg, out, cxx
from .iface import snake, py as pyname

# requested type -> (python annotation, python values (expression, log or None), default in the stub)
TYPES: dict[str, tuple] = {
    "int": ("int", [("3", "3;"), ("-7", "-7;")], "int()"),
    "double": ("float", [("2.5", "2.5;"), ("-0.25", "-0.25;")], "float()"),
    "float": ("float", [("1.5", "1.5;")], "float()"),
    "bool": ("bool", [("True", "true;"), ("False", "false;")], "bool()"),
    "std::string": ("str", [("'hi'", '"hi";')], "str()"),
    "uint8_t": ("int", [("200", "200;")], None),
    "Pt": ("Pt", [("m.Pt()", None)], "Pt()"),
    "nsp::Vec": ("nsp.Vec", [("m.nsp.Vec()", None)], "nsp.Vec()"),
    "nsp::deep::Far": ("nsp.deep.Far", [("m.nsp.deep.Far()", None)], "nsp.deep.Far()"),
    "int *": ("int", [], None),
    "Pt *": ("Pt", [("m.Pt()", None)], None),
}
# (C++ form, python form, python value built from one value $V)
FORMS = [
    ("$T", "$P", "$V"), ("const $T &", "$P", "$V"), ("$T", "$P", "$V"),
    ("std::vector<$T>", "List[$P]", "[$V]"), ("const std::vector<$T> &", "List[$P]", "[$V, $V]"),
    ("std::map<std::string, $T>", "Dict[str, $P]", "{'k': $V}"),
    ("std::pair<$T, int>", "Tuple[$P, int]", "($V, 4)"),
    ("std::pair<double, $T>", "Tuple[float, $P]", "(4.5, $V)"),
    ("std::array<$T, 2>", "List[$P]", "[$V, $V]"),
    ("std::optional<$T>", "Optional[$P]", "$V"),
    ("std::vector<std::vector<$T>>", "List[List[$P]]", "[[$V]]"),
]
PLAIN = [("int", "int", "5"), ("double", "float", "0.5"), ("bool", "bool", "True"), ("std::string", "str", "'s'"), ("TT", "TT", "m.TT()"), ("const TT &", "TT", "m.TT()"),
         ("std::vector<TT>", "List[TT]", "[m.TT()]"), ("Target", "Target", "m.Target()")]
PRE = """
#include <cstdint>
struct Pt { int x = 0; };
struct TT { int t = 1; };
struct Target { int q = 2; };
namespace nsp { struct Vec { double d = 0.; }; namespace deep { struct Far { int z = 0; }; } }
"""
DEFS0 = """
template<typename X> struct TN { static const char* s() { return "?"; } };
""" + "".join(f'template<> struct TN<{t}> {{ static const char* s() {{ return "{t}"; }} }};\n' for t in TYPES) + """
template<class X> void L(const X& v) { if constexpr (std::is_arithmetic_v<X> || std::is_same_v<X, std::string>) A(v); }
"""
FN = ["addItem", "TakeT", "Tmax", "get_T", "compute", "T2Value", "sum_all", "Join", "UseU", "typeOf"]
CLS = ["Box", "TBox", "BoxT", "Holder", "Cell", "Tcell", "My_Data"]
PN = ["a", "nT", "valueT", "T_count", "other", "tt", "uValue", "x1"]


def naming(tpl: str, t: str) -> str:
    return tpl + "_" + t.replace("std::", "").replace("::", "_").replace(" *", "_ptr").replace(" ", "_")


def uid(i: int) -> str:
    return "abcdefghijklmnopqrstuvwxyz"[i]


def strip_scopes(t: Optional[str]) -> Optional[str]:
    """scope prefixes may be omitted in the stub: compare last components"""
    return None if t is None else re.sub(r"\b(?:\w+\.)+(?=\w)", "", t).replace(" ", "")


class F:
    """a template function or method"""
    name: str
    params: list       # (name, C++ form, py form, value form, default form, py default form)
    ret: tuple
    tp: str
    kw: str


class Batch:
    def __init__(self, rng: random.Random):
        self.rng = rng
        self.fns: list = []
        self.compile = True

    def reqs(self, ptr: bool = False) -> list[str]:
        pool = [t for t in TYPES if ptr or "*" not in t]
        return self.rng.sample(pool, self.rng.choice([1, 1, 2, 2, 3, 4]))

    def function(self, name: str, kind: str) -> F:
        rng = self.rng
        f = F()
        f.name, f.kind = name, kind
        f.kw = rng.choice(["typename", "class"])
        f.tp = rng.choice(["T", "T", "U", "TValue", "_T"])
        f.params = []
        dflt = False
        for n in rng.sample(PN, rng.choice([0, 1, 1, 2, 3])):
            if n == f.tp:
                continue
            if rng.random() < .7:
                form, pf, vf = rng.choice(FORMS)
            else:
                form, pf, vf = rng.choice(PLAIN)
            d = pd = None
            if dflt or rng.random() < .2:
                dflt = True
                if form in ("$T", "const $T &"):
                    d, pd = "$T()", "$D"
                elif form == "int":
                    d, pd = rng.choice([("sizeof($T)", None), ("7", "7")])
                elif form == "double":
                    d, pd = "1.5", "1.5"
                else:
                    form, pf, vf, d, pd = "bool", "bool", "True", "true", "True"
            f.params.append((n, form, pf, vf, d, pd))
        rf = rng.choice([("void", "None"), ("$T", "$P"), ("std::vector<$T>", "List[$P]"), ("int", "int"), ("bool", "bool"), ("std::pair<$T, int>", "Tuple[$P, int]"), ("TT", "TT")])
        f.ret = rf
        uses = any("$T" in p[1] for p in f.params) or "$T" in rf[0]
        f.uses = uses
        return f

    def cpp(self, f: F, ind: str = "") -> str:
        sub = lambda s: s.replace("$T", f.tp)
        ps = ", ".join(f"{sub(form)} {n}" + (f" = {sub(d)}" if d else "") for n, form, _, _, d, _ in f.params)
        body = f"A(TN<{f.tp}>::s()); " + "".join(f"L({p[0]}); " for p in f.params)
        if f.ret[0] != "void":
            body += f"return {sub(f.ret[0])}" + ("(0); " if f.ret[0] in ("int", "bool") else "(); " if f.ret[0] != "std::pair<$T, int>" else f"({f.tp}(), 1); ")
        pre = "static " if f.kind == "static" else ""
        post = " const" if f.kind == "cmethod" else ""
        return f"{ind}template<{f.kw} {f.tp}> {pre}{sub(f.ret[0])} {f.name}({ps}){post} {{ {body}}}\n"


def py_form(form: str, t: str) -> str:
    return form.replace("$P", TYPES[t][0])


def check_fn(g: lg.Gen, where: str, s: out.Fn, f: F, t: str) -> None:
    g.check([p.name for p in s.params] == [pyname(snake(p[0])) for p in f.params], f"{where}: parameters of the instantiation for {t}", got=s.raw)
    for p, q in zip(s.params, f.params):
        want = py_form(q[2], t)
        g.check(strip_scopes(p.ann) == strip_scopes(want), f"{where}: annotation of the parameter {q[0]} of the instantiation for {t}", expected=want, got=p.ann)
        if q[4] is None:
            g.check(p.default is None, f"{where}: a default appeared", got=s.raw)
        else:
            g.check(p.default is not None, f"{where}: the default of {q[0]} is lost", got=s.raw)
            want_d = (TYPES[t][2] if TYPES[t][2] != "str()" else p.default if p.default in ("''", "str()") else "str()") if q[5] == "$D" else q[5]
            if want_d is not None:
                g.check(strip_scopes(p.default) == strip_scopes(want_d), f"{where}: default of {q[0]} in the instantiation for {t}", expected=want_d, got=p.default)
            g.check(not re.search(rf"\b{f.tp}\b", p.default), f"{where}: the template parameter remains in a default value", got=s.raw)
    g.check(strip_scopes(s.ret) == strip_scopes(py_form(f.ret[1], t)), f"{where}: return annotation of the instantiation for {t}", expected=py_form(f.ret[1], t), got=s.ret)


def instances_in(pydef: str, name: str) -> list[str]:
    """the template arguments given to `name` in the binding code, in order"""
    r = []
    text = pydef
    for m in re.finditer(rf"\b{name}\s*<", text):
        d, j = 0, m.end() - 1
        while j < len(text):
            d += {"<": 1, ">": -1}.get(text[j], 0)
            if d == 0:
                break
            j += 1
        r.append(" ".join(text[m.end():j].split()))
    return r


def uniq(l: list) -> list:
    r: list = []
    for x in l:
        if not r or r[-1] != x:
            r.append(x)
    return r


def add_requests(rng: random.Random, opts: Any, name: str, reqs: Optional[list], suffix: Optional[bool], others: list[str]) -> None:
    """registers what makes `reqs` the decision for this template (None: nothing bound)"""
    def spec(rx: str, l: list, sfx: bool) -> None:
        if suffix is None:
            opts.add_specialization(rx, l, [])
        else:
            opts.add_specialization(rx, l, sfx)
    rx = rng.choice([f"^{name}$", f"^{name}$", f"^{name[:-1]}[{name[-1]}]$", f"^{name}$|^NotThere$"])
    if reqs is None:
        if rng.random() < .6:
            if rng.random() < .4:
                spec(rx, ["int", "bool"], True)
            opts.add_ignore(rx)
        return
    if rng.random() < .25:                      # an earlier request for the same template is superseded
        spec(rx, rng.sample(["int", "double", "std::string"], 2), not suffix)
    if rng.random() < .1:
        opts.add_ignore(rx)
    spec(rx, reqs, bool(suffix))


def functions(rng: random.Random, run: bool = True):
    nb = rng.random() < .5
    b = Batch(rng)
    o = lg.options(nb, fn_params_adapt_mutable_param_with_default_value__regex="")
    ns = rng.choice([[], [], ["nsp"], ["nsp", "deep"], ["other"]])
    scope = "".join(x + "::" for x in ns)
    items = []
    names = rng.sample(FN, 4)
    hosts = []
    src = ""
    for i, n in enumerate(names):
        name = n + uid(i)
        kind = rng.choices(["fn", "method", "cmethod", "static"], [5, 1, 2, 1])[0]
        f = b.function(name, kind)
        listed = rng.random() < .75
        reqs = b.reqs(ptr=all(p[1] not in ("const $T &", ) and "<$T" not in p[1] and ", $T" not in p[1] and not (p[4] or "").startswith("$T(") for p in f.params) and f.ret[0] in ("void", "int", "bool", "TT")) if listed else None
        if reqs and not f.uses and False:
            reqs = reqs[:1]
        suffix = rng.random() < .7
        add_requests(rng, o.fn_template_options, name, reqs, suffix, [])
        if kind == "fn":
            src += b.cpp(f)
            host = None
        else:
            host = "Host" + uid(i).upper()
            src += f"struct {host} {{\n    int k = 0;\n{b.cpp(f, '    ')}}};\n"
        items.append((f, reqs, suffix, host))
        if rng.random() < .5:
            src += f"int plain{uid(i)}(int a);\n" if False else f"inline int plain{uid(i)}(int a) {{ return a; }}\n"
    for x in reversed(ns):
        src = f"namespace {x} {{\n{src}}}\n"
    header = PRE + src
    explicit: dict = {}
    if rng.random() < .3:
        f, reqs, suffix, host = rng.choice(items)
        if reqs and suffix:
            was = naming(f.name, reqs[0])
            o.function_names_replacements.add_last_replacement(f"^{was}$", "chosen_name")
            explicit[(f.name, reqs[0])] = "chosen_name"
    g = lg.generate(o, header)
    mod = g.stub.find(".".join(ns)) if ns else g.stub
    pmod = g.pydef.find(".".join(ns)) if ns else g.pydef
    calls: list = []
    expected_logs: list = []
    for f, reqs, suffix, host in items:
        where = scope + (host + "::" if host else "") + f.name
        want = [] if reqs is None else [explicit.get((f.name, t)) or snake(naming(f.name, t) if suffix else f.name) for t in reqs]
        for side, m0 in (("stub", mod), ("binding code", pmod)):
            n = m0.kid(host) if host and m0 else m0
            g.check(n is not None or not want, f"{where}: its scope is missing in the {side}")
            got = [x for x in (n.fns if n else []) if x.name.startswith(snake(f.name)) or x.name in want]
            g.check([x.name for x in got] == want, f"{where}: instantiations in the {side}, requested {reqs} (suffix {suffix})", expected=want, got=[x.name for x in got])
            if side == "stub":
                for x, t in zip(got, reqs or []):
                    check_fn(g, where, x, f, t)
                    g.check(x.static == (f.kind == "static" or (f.kind == "fn" and bool(ns))), f"{where}: static or not", got=x.raw)
        inst = instances_in(g.pydef_text, f.name)
        g.check([t.replace(" ", "") for t in uniq(inst)] == [t.replace(" ", "") for t in (reqs or [])] or (not suffix and reqs and set(t.replace(" ", "") for t in inst) == set(t.replace(" ", "") for t in reqs)), f"{where}: template arguments in the binding code", expected=reqs, got=inst)
        if reqs and suffix:
            for t, w in zip(reqs, want):
                if not TYPES[t][1]:
                    continue
                v, lg_ = rng.choice(TYPES[t][1])
                path = "m" + "".join("." + x for x in ns) + "."
                args, logs = [], f'"{t}";'
                for n, form, pf, vf, d, pd in f.params:
                    if form.startswith("std::array") and t == "bool" and nb:
                        pass
                    args.append(vf.replace("$V", v))
                    logs += (lg_ or "") if form in ("$T", "const $T &") else {"int": "5;", "double": "0.5;", "bool": "true;", "std::string": '"s";'}.get(form, "")
                obj = path + (f"{host}()." if host and f.kind != "static" else f"{host}." if host else "")
                calls.append({"call": f"{obj}{w}({', '.join(args)})"})
                expected_logs.append((where, t, logs))
    if run:
        try:
            d, name, srcx = cxx.build(nb, PRE + DEFS0 + header[len(PRE):], "", g.glue_text, g.pydef_text)
        except cxx.CompileError as e:
            g.fail("the binding code of the instantiations does not compile", nanobind=nb, errors=str(e))
        res = run_calls(d, name, calls)
        for (where, t, logs), r, c in zip(expected_logs, res, calls):
            g.check("exc" not in r and "crash" not in r, f"{where}<{t}>: the call fails", call=c["call"], result=r, nanobind=nb)
            g.check(r["log"] == logs, f"{where}<{t}>: another instantiation or other values were received", call=c["call"], expected=logs, got=r["log"], nanobind=nb)
    return (src, nb), {"nb": nb, "requests": [(f.name, r, s) for f, r, s, _ in items]}


def run_calls(d: str, name: str, calls: list) -> list:
    res = cxx.execute(d, name, calls)
    if any("not registered yet" in r.get("exc", "") or "std::bad_cast" in r.get("exc", "") for r in res):
        raise core.Skip()     # a default value of a type which is bound later (the binding order is not this property)
    return res


# --------------------------------------------------------------------------- classes
class Cls:
    pass


def classes(rng: random.Random, run: bool = True):
    nb = rng.random() < .5
    b = Batch(rng)
    o = lg.options(nb, fn_params_adapt_mutable_param_with_default_value__regex="")
    ns = rng.choice([[], [], ["nsp"], ["other"], ["nsp", "deep"]])
    scope = "".join(x + "::" for x in ns)
    src = ""
    items = []
    outside = ""
    explicit: dict = {}
    for i, n in enumerate(rng.sample(CLS, 2)):
        c = Cls()
        c.name = n + uid(i)
        tp = rng.choice(["T", "T", "U", "TData"])
        c.tp = tp
        kw = rng.choice(["typename", "class"])
        c.reqs = b.reqs() if rng.random() < .8 else None
        add_requests(rng, o.class_template_options, c.name, c.reqs, None, [])
        c.members = []
        for k, (form, pf, _) in enumerate(rng.sample([x for x in FORMS if "const" not in x[0]], 2) + rng.sample([("int", "int", ""), ("TT", "TT", ""), ("std::vector<TT>", "List[TT]", "")], 1)):
            c.members.append((f"mem{tp}{k}" if k else "value", form, pf))
        rng.shuffle(c.members)
        c.ctors = [[]]
        if rng.random() < .6:
            c.ctors.append([("first", "const $T &", "$P"), ("nT", "int", "int")])
        if rng.random() < .4:
            c.ctors.append([("o", "const $C &", "$C")])
        c.methods = []
        for k, (mn, form, pf, params) in enumerate(rng.sample([
                ("get", "$T", "$P", []), ("set", "void", "None", [("x", "const $T &", "$P")]), ("all", "std::vector<$T>", "List[$P]", []),
                ("combine", "$C", "$C", [("o", "const $C &", "$C")]), ("T_count", "int", "int", [("T_a", "int", "int")]), ("pairOf", "std::pair<$T, int>", "Tuple[$P, int]", [("l", "const std::vector<$T> &", "List[$P]")]),
                ("same", "bool", "bool", [("l", "std::vector<$C>", "List[$C]")])], 3)):
            c.methods.append((mn, form, pf, params, rng.random() < .25))
        c.synonym = None
        if c.reqs and not ns and rng.random() < .3:
            t = c.reqs[0]
            if "::" not in t or True:
                c.synonym = (f"Syn{uid(i)}", t)
                sp = o.class_template_options.specs[-1]
                from litgen.internal.template_options import CppTypeSynonym
                sp.cpp_types_synonyms.append(CppTypeSynonym(c.synonym[0], t))
        if c.reqs and rng.random() < .25:
            t = rng.choice(c.reqs)
            if not (c.synonym and c.synonym[1] == t):
                was = naming(c.name, t)
                explicit[(c.name, t)] = "Named" + uid(i).upper()
                o.type_replacements.add_last_replacement(rf"\b{was}\b", explicit[(c.name, t)])
        sub = lambda s: s.replace("$T", tp).replace("$C", c.name)
        w = f"template<{kw} {tp}> {rng.choice(['struct', 'class'])} {c.name}\n{{\npublic:\n"
        for mname, form, _ in c.members:
            w += f"    {sub(form)} {mname}" + (" = " + sub("$T()") if form == "$T" and rng.random() < .5 else "") + ";\n"
        for ct in c.ctors:
            w += f"    {c.name}({', '.join(sub(p[1]) + ' ' + p[0] + (' = 3' if p[0] == 'nT' else '') for p in ct)}) {{ A(TN<{tp}>::s()); }}\n"
        for mn, form, _, params, static in c.methods:
            ret = "" if form == "void" else f"return {sub(form)}" + ("(0);" if form in ("int", "bool") else "();" if "pair" not in form else f"({tp}(), 1);")
            w += f"    {'static ' if static else ''}{sub(form)} {mn}({', '.join(sub(p[1]) + ' ' + p[0] for p in params)}){'' if static else ' const'} {{ A(TN<{tp}>::s()); {ret} }}\n"
        w += "};\n"
        if c.synonym:
            w += f"using {c.synonym[0]} = {c.synonym[1]};\n"
        src += w
        items.append(c)
    # references
    refs = []      # (function name, expected param annotations or None when excluded)
    rsrc = ""
    tops = ""
    for k in range(rng.choice([2, 3, 4])):
        c = rng.choice(items)
        pool = list(c.reqs or [])
        bad = rng.random() < .25 or not pool
        listed_any = any(s.matches_template_name(c.name) for s in o.class_template_options.specs)
        if bad and not listed_any:
            continue                        # nothing says what to do with references to this template
        t = rng.choice([x for x in TYPES if x not in pool and "*" not in x]) if bad else rng.choice(pool)
        top = rng.random() < .4 and ns
        q = scope if top or rng.random() < .2 else ""
        inner = t
        if not top and ns and t.startswith(scope) and rng.random() < .5:
            inner = t[len(scope):]
        elem = f"{q}{c.name}<{inner}>"
        nm = explicit.get((c.name, t)) or naming(c.name, t)
        if c.synonym and c.synonym[1] == t and not bad and not q and not top and rng.random() < .6:
            elem, nm = f"{c.name}<{c.synonym[0]}>", naming(c.name, c.synonym[0])
            forms = [("{}", "{}"), ("const {} &", "{}")]
        else:
            forms = [("{}", "{}"), ("const {} &", "{}"), ("std::vector<{}>", "List[{}]"), ("const std::vector<{}> &", "List[{}]"), ("std::map<int, {}>", "Dict[int, {}]"), ("std::optional<{}>", "Optional[{}]"), ("std::pair<{}, int>", "Tuple[{}, int]"), ("std::shared_ptr<{}>", "{}")]
        form, pf = rng.choice(forms)
        rform = rng.choice(["void", "int", "same"])
        fn = f"use{uid(k)}"
        d = f" = {elem}()" if form in ("{}", "const {} &") and rng.random() < .3 else ""
        ret = form.format(elem).replace("const ", "").replace(" &", "") if rform == "same" else rform
        body = "" if ret == "void" else "return 0; " if ret == "int" else f"return a{'' if True else ''}; "
        text = f"inline {ret} {fn}({form.format(elem)} a{d}) {{ {body}}}\n"
        if top:
            tops += text
        else:
            rsrc += text
        refs.append((fn, bool(top), None if bad else pf.format(nm), ret, None if bad or not d else nm + "()"))
    for x in reversed(ns):
        src = src
    c = items[0]
    member = None
    if c.reqs:
        t = rng.choice(c.reqs)
        nm = explicit.get((c.name, t)) or naming(c.name, t)
        bad_t = [x for x in TYPES if x not in c.reqs and "*" not in x]
        bt = rng.choice(bad_t)
        rsrc += f"struct Owner {{ {c.name}<{t}> held; std::vector<{c.name}<{t}>> many; {c.name}<{bt}> nope; std::vector<{c.name}<{bt}>> nopes; int z = 0; }};\n"
        member = nm
    if not nb:
        pass
    if ns == ["nsp"]:
        body = src + rsrc
        header = PRE + f"namespace nsp {{\n{body}}}\n" + tops
    elif ns == ["nsp", "deep"]:
        header = PRE + f"namespace nsp {{ namespace deep {{\n{src + rsrc}}} }}\n" + tops
    elif ns:
        header = PRE + f"namespace {ns[0]} {{\n{src + rsrc}}}\n" + tops
    else:
        header = PRE + src + rsrc
    g = lg.generate(o, header)
    mod = g.stub.find(".".join(ns)) if ns else g.stub
    pmod = g.pydef.find(".".join(ns)) if ns else g.pydef
    g.check(mod is not None and pmod is not None or not any(c.reqs for c in items), "the namespace of the templates is missing")
    calls: list = []
    logs: list = []
    for c in items:
        where = scope + c.name
        names = [explicit.get((c.name, t)) or naming(c.name, t) for t in (c.reqs or [])]
        ex = set(explicit.values())
        for side, m0 in (("stub", mod), ("binding code", pmod)):
            got = [k.name for k in (m0.kids if m0 else []) if k.name.startswith(c.name) or (k.name in ex and k.name in names)]
            g.check(got == names, f"{where}: classes bound in the {side}, requested {c.reqs}", expected=names, got=got)
        inst = re.findall(rf"class_<\s*{re.escape(scope)}{c.name}<([\w:* ]*)>", g.pydef_text)
        g.check(inst == (c.reqs or []), f"{where}: classes of the binding code", expected=c.reqs, got=inst)
        if c.synonym:
            line = [a for a in mod.attrs if a.name == naming(c.name, c.synonym[0])]
            g.check(len(line) == 1 and line[0].value == naming(c.name, c.reqs[0]), f"{where}: synonym {c.synonym}", got=[a.raw for a in line])
        for t, nm in zip(c.reqs or [], names):
            k = mod.kid(nm)
            f = lambda s: s.replace("$C", nm).replace("$P", TYPES[t][0])
            got_m = {a.name: a.ann for a in k.attrs}
            for mname, form, pf in c.members:
                g.check(strip_scopes(got_m.get(snake(mname))) == strip_scopes(f(pf)), f"{where}<{t}>: annotation of the member {mname}", expected=f(pf), got=got_m)
            inits = [x for x in k.fns if x.name == "__init__"]
            g.check(len(inits) == len(c.ctors), f"{where}<{t}>: constructors", expected=len(c.ctors), got=[x.raw for x in inits])
            for x, ct in zip(inits, c.ctors):
                g.check([(p.name, strip_scopes(p.ann)) for p in x.params] == [(snake(p[0]), strip_scopes(f(p[2]))) for p in ct], f"{where}<{t}>: parameters of a constructor", got=x.raw, expected=[f(p[2]) for p in ct])
            for mn, form, pf, params, static in c.methods:
                ms = [x for x in k.fns if x.name == snake(mn)]
                g.check(len(ms) == 1, f"{where}<{t}>: method {mn}", got=[x.name for x in k.fns])
                x = ms[0]
                g.check([(p.name, strip_scopes(p.ann)) for p in x.params] == [(snake(p[0]), strip_scopes(f(p[2]))) for p in params] and strip_scopes(x.ret) == strip_scopes(f(pf)) and x.static == static, f"{where}<{t}>: signature of the method {mn}", got=x.raw, expected=[f(p[2]) for p in params] + [f(pf)])
            path = "m" + "".join("." + x for x in ns) + "." + nm
            calls.append({"call": f"{path}()", "where": where})
            logs.append((where, t, f'"{t}";'))
            for mn, form, pf, params, static in c.methods:
                if not params:
                    calls.append({"setup": [f"o = {path}()"], "call": f"{path + '.' if static else 'o.'}{snake(mn)}()"})
                    logs.append((where, t, f'"{t}";'))
                elif mn == "set":
                    v, _ = rng.choice(TYPES[t][1])
                    calls.append({"setup": [f"o = {path}()"], "call": f"{path + '.' if static else 'o.'}set({v})"})
                    logs.append((where, t, f'"{t}";'))
                elif mn == "combine":
                    calls.append({"setup": [f"o = {path}()", f"p = {path}()"], "call": f"{path + '.' if static else 'o.'}combine(p)"})
                    logs.append((where, t, None))
    for fn, top, ann, ret, dflt in refs:
        for side, r0, m0 in (("stub", g.stub, mod), ("binding code", g.pydef, pmod)):
            n = r0 if top else m0
            got = [x for x in (n.fns if n else []) if x.name == fn]
            g.check(len(got) == (0 if ann is None else 1), f"{fn} in the {side}: a reference to " + ("an instantiation that is not requested" if ann is None else "a requested instantiation"), got=[x.raw for x in got])
            if ann is not None and side == "stub":
                g.check(strip_scopes(got[0].params[0].ann) == strip_scopes(ann), f"{fn}: the reference does not use the name of the instantiation", expected=ann, got=got[0].raw)
                if ret not in ("void", "int"):
                    g.check(strip_scopes(got[0].ret) == strip_scopes(ann), f"{fn}: the returned type does not use the name of the instantiation", expected=ann, got=got[0].raw)
                if dflt is not None:
                    g.check(got[0].params[0].default is not None and strip_scopes(got[0].params[0].default) == strip_scopes(dflt), f"{fn}: the default value does not use the name of the instantiation", expected=dflt, got=got[0].raw)
    if member:
        ow, pow_ = mod.kid("Owner"), pmod.kid("Owner")
        g.check(ow is not None and pow_ is not None, "the class Owner is missing")
        anns = {a.name: strip_scopes(a.ann) for a in ow.attrs}
        g.check(anns == {"held": member, "many": f"List[{member}]", "z": "int"}, "members of Owner in the stub", expected=member, got={a.name: a.ann for a in ow.attrs})
        g.check(sorted(a.name for a in pow_.attrs) == ["held", "many", "z"], "members of Owner in the binding code", got=[a.name for a in pow_.attrs])
    if run:
        try:
            d, name, srcx = cxx.build(nb, PRE + DEFS0 + header[len(PRE):], "", g.glue_text, g.pydef_text)
        except cxx.CompileError as e:
            g.fail("the binding code of the instantiations does not compile", nanobind=nb, errors=str(e))
        res = run_calls(d, name, [{k: v for k, v in c.items() if k != "where"} for c in calls])
        for (where, t, lo), r, c in zip(logs, res, calls):
            g.check("exc" not in r and "crash" not in r, f"{where}<{t}>: the call fails", call=c["call"], result=r, nanobind=nb)
            if lo is not None:
                g.check(r["log"] == lo, f"{where}<{t}>: another instantiation was called", call=c["call"], expected=lo, got=r["log"], nanobind=nb)
    return (src, nb), {"nb": nb, "requests": [(c.name, c.reqs) for c in items]}


def functions_text(rng):
    return functions(rng, False)


def classes_text(rng):
    return classes(rng, False)


DIRECTED: list = []
RANDOM = [(functions, 12), (classes, 12), (functions_text, 250), (classes_text, 250)]
