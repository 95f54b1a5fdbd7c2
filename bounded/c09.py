"""C09: exactly the non-excluded public elements are bound."""
from __future__ import annotations
import random, re
from typing import Any
from . import core, lg, out, prog, iface
from .prog import N, C, En, F, M, P


def pat(rng: random.Random, names: list[str]) -> str:
    """an exclusion pattern built from the names of the header"""
    if not names:
        return ""
    a = rng.choice(names)
    k = rng.randint(0, 7)
    if k == 0: return f"^{a}$"
    if k == 1: return a[: max(2, len(a) // 2)]
    if k == 2: return "|".join(f"^{x}$" for x in rng.sample(names, min(len(names), 2)))
    if k == 3: return "|" + a                      # documented: a leading | is ignored
    if k == 4: return a[-3:] + "$"
    if k == 5: return "^" + a[:1]
    if k == 6: return a + "|" + rng.choice(names)[:4]
    return a


def mt(p: str, s: str) -> bool:
    if p.startswith("|"):
        p = p[1:]
    return p != "" and re.search(p, s) is not None


def exclusion_case(rng: random.Random) -> tuple:
    cfg = prog.Cfg(items=5, docs=rng.random() < .2, globals=rng.random() < .5, rich=rng.random() < .2)
    g0 = prog.Gen(rng, cfg)
    items = g0.program()
    api = rng.random() < 0.2
    fns = [it for _, _, it in prog.walk(items) if isinstance(it, F)]
    if api:
        for f in fns:
            if f.ret and rng.random() < 0.6:
                f.pre = "MY_API " + f.pre
    allow_non_api = rng.random() < 0.3
    code = prog.render(items)
    cls = [it.name for _, _, it in prog.walk(items) if isinstance(it, C)]
    ens = [it.name for _, _, it in prog.walk(items) if isinstance(it, En)]
    nss = [it.name for _, _, it in prog.walk(items) if isinstance(it, N)]
    mem = [it.name for s, _, it in prog.walk(items) if isinstance(it, M) and s and s[-1][0] == "cls"]
    glb = [it.name for s, _, it in prog.walk(items) if isinstance(it, M) and not (s and s[-1][0] == "cls")]
    fnn = [f.name for f in fns if f.ret]
    o = lg.options(rng.random() < 0.4)
    ex: dict[str, Any] = {}

    def opt(name: str, names: list[str], p: float = 0.35) -> str:
        v = pat(rng, names) if rng.random() < p else ""
        ex[name] = v
        if v and rng.random() < 0.15:
            setattr(o, name, lambda s, v=v: mt(v, s))         # a matcher function instead of a pattern
        else:
            setattr(o, name, v)
        return v
    xf = opt("fn_exclude_by_name__regex", fnn)
    xt = rng.choice(["^int$", "string", "^double$|^float$", "\\*", "&$"]) if rng.random() < 0.15 else ""
    o.fn_exclude_by_param_type__regex = ex["fn_exclude_by_param_type__regex"] = xt
    xc = opt("class_exclude_by_name__regex", cls)
    xe = opt("enum_exclude_by_name__regex", ens)
    xm = opt("member_exclude_by_name__regex", mem)
    xmt = rng.choice(["int", "string", "double", "\\*"]) if rng.random() < 0.15 else ""
    o.member_exclude_by_type__regex = ex["member_exclude_by_type__regex"] = xmt
    gl = opt("globals_vars_include_by_name__regex", glb, 0.6)
    xn = "nternal|etail"
    if rng.random() < 0.4:
        xn = opt("namespace_exclude__regex", nss, 1.0)
    xs: dict[str, str] = {}
    if fns and rng.random() < 0.25:
        f = rng.choice([f for f in fns if f.ret] or fns)
        if all(not p.suffix and p.type != "..." for p in f.params):
            xs = {f.name: ", ".join(p.type for p in f.params)}
            if xs[f.name]:
                o.fn_exclude_by_name_and_signature = ex["by_signature"] = xs
            else:
                xs = {}
    xmc: dict[str, str] = {}
    if cls and rng.random() < 0.3:
        k = rng.choice(cls)
        ms = [m.name for _, _, it in prog.walk(items) if isinstance(it, C) and it.name == k for _, m in it.members() if isinstance(m, (M, F)) and m.name]
        if ms:
            xmc = {k: pat(rng, ms)}
            o.member_exclude_by_name_and_class__regex = ex["by_class"] = xmc
    if api:
        o.srcmlcpp_options.functions_api_prefixes = "MY_API"
        o.fn_exclude_non_api = not allow_non_api
        ex["api"] = (True, allow_non_api)
    xp = rng.choice(["", "", "", "a", "^v", "t$"])
    xpt = rng.choice(["", "", "", "int", "bool"])
    o.fn_params_exclude_names__regex, o.fn_params_exclude_types__regex = xp, xpt
    ex["params"] = (xp, xpt)
    rootns: tuple = ()
    if nss and rng.random() < 0.2:
        top = [it.name for it in items if isinstance(it, N)]
        if top:
            rootns = (rng.choice(top),)
            o.namespaces_root = list(rootns)
            ex["root"] = rootns

    def unsupported(m: M) -> bool:
        # (members litgen reports as not supported: arrays whose element type is not one of options.member_numeric_c_array_types)
        return bool(m.suffix) and (m.type.startswith("const") or m.type == "char")

    def keep(scope: str, it: Any) -> bool:
        if isinstance(it, C):
            return not mt(xc, it.name)
        if isinstance(it, En):
            return not mt(xe, it.name)
        par = scope.split("::")[-2] if scope else ""
        incls = par in cls
        if isinstance(it, M):
            if not incls:
                return True
            if mt(xmc.get(par, ""), it.name) or unsupported(it):
                return False
            return not mt(xm, it.name) and not mt(xmt, it.type)
        if isinstance(it, F):
            if incls and mt(xmc.get(par, ""), it.name):
                return False
            if mt(xf, it.name) or (it.ret and mt(xt, it.ret)) or any(mt(xt, p.type) for p in it.params):
                return False
            if it.name in xs and xs[it.name] == ", ".join(p.type for p in it.params):
                return False
            if api and it.ret and not allow_non_api and "MY_API" not in it.pre:
                return False
            return True
        return True
    exp = iface.expected(items, keep, lambda m: mt(gl, m.name), root_ns=rootns, ns_excluded=lambda n: mt(xn, n))
    # parameters removed by an exclusion
    def strip(e: iface.Exp) -> None:
        e.fns = [(n, F(name=f.name, ret=f.ret, pre=f.pre, params=[p for p in f.params if not (p.default and (mt(xp, p.name) or mt(xpt, p.type)))])) for n, f in e.fns]
        for k in e.kids.values():
            strip(k)
    strip(exp)
    iface.prune(exp)
    g = lg.generate(o, code)
    try:
        n = iface.against(g, exp, param_names=not cfg.rich)
        named_ctor(g, exp)
    except core.Violation as v:
        v.info["options"] = ex
        raise
    if not n:
        raise core.Skip()
    return code, code[:300]


def named_ctor(g: lg.Gen, e: iface.Exp) -> None:
    """a generated constructor takes only bound attributes"""
    for side, root in (("stub", g.stub), ("binding code", g.pydef)):
        def rec(x: iface.Exp, n: out.Node) -> None:
            if x.kind == "class" and not x.has_ctor:
                for f in n.fns:
                    if f.name == "__init__":
                        for p in f.params:
                            g.check(p.name in [a for a, _ in x.attrs], f"class {x.name}: the generated constructor of the {side} has a parameter {p.name} which is not a bound attribute")
            for k, v in x.kids.items():
                if n.kid(k):
                    rec(v, n.kid(k))
        rec(e, root)


def fixed(name: str, code: str, want: list[str], no: list[str], **opts: Any):
    """the names of `want` appear in the interface of both outputs, those of `no` do not"""
    def fn() -> tuple:
        for nb in (False, True):
            o = lg.options(nb)
            for k, v in opts.items():
                if k == "api":
                    o.srcmlcpp_options.functions_api_prefixes = v
                elif k == "filter":
                    o.srcmlcpp_options.header_filter_acceptable__regex = v
                else:
                    setattr(o, k, v)
            g = lg.generate(o, code)
            for side, root in (("stub", g.stub), ("binding code", g.pydef)):
                names = set()
                for path, n in root.walk():
                    names.add(n.name)
                    names |= {f.name for f in n.fns} | {a.name for a in n.attrs} | {v[0] for v in n.values}
                    names |= {p.name for f in n.fns for p in f.params}
                for w in want:
                    g.check(w in names, f"{w} is lost in the {side}", options=opts)
                for w in no:
                    g.check(w not in names, f"{w} is exposed in the {side} although it must not be", options=opts)
        return (name, code)
    fn.__name__ = name
    return fn


CLS = '''
class A { int dflt_private; void dflt_method(); public: int pub1; void pub_method(); protected: int prot; void prot_method(); struct ProtInner { int q; };
 public: int pub2; enum class PubEnum { PubItem }; private: enum class PrivEnum { PrivItem }; struct PrivInner { int z; }; static int priv_static; public: static int pub_static; A(int ctor_p); private: A(double priv_ctor_p); public: A(const A&) = delete; void del_method() = delete; ~A(); };
struct B { int dflt_public; private: int bpriv; public: void back_public(); protected: B(int prot_ctor_p); };
'''

DIRECTED = [
    fixed("access", CLS, ["pub1", "pub_method", "pub2", "PubEnum", "pub_item", "pub_static", "ctor_p", "dflt_public", "back_public", "A", "B"],
          ["dflt_private", "dflt_method", "prot", "prot_method", "ProtInner", "PrivEnum", "priv_item", "PrivInner", "priv_static", "priv_ctor_p", "del_method", "bpriv", "prot_ctor_p"]),
    fixed("empty_patterns", CLS, ["pub1", "pub_method", "pub2", "PubEnum", "pub_static", "A", "B"], [], fn_exclude_by_name__regex="", class_exclude_by_name__regex="", member_exclude_by_name__regex="", member_exclude_by_type__regex="", enum_exclude_by_name__regex="", fn_exclude_by_param_type__regex="", namespace_exclude__regex=""),
    fixed("pipe_only_pattern", CLS, ["pub1", "pub_method", "pub2", "PubEnum", "pub_static", "A", "B"], [], fn_exclude_by_name__regex="|", class_exclude_by_name__regex="|", member_exclude_by_name__regex="|", enum_exclude_by_name__regex="|"),
    fixed("anonymous_and_detail", "namespace { void hidden1(); struct Hid { int a; }; }\nnamespace Detail { void hidden2(); namespace In { void hidden3(); } }\nnamespace ok { namespace internal { void hidden4(); } void shown(); namespace { enum class Hid2 { X }; } }\n", ["shown", "ok"], ["hidden1", "Hid", "hidden2", "hidden3", "hidden4", "Hid2"]),
    fixed("api", "MY_API void f1();\nvoid f2();\nOTHER_API int f3(int a);\nstruct A { MY_API void m1(); void m2(); A(int kk); MY_API static int m3(); int attr; };\n", ["f1", "m1", "m3", "A", "kk", "attr", "f3"], ["f2", "m2"], api="MY_API|OTHER_API"),
    fixed("api_include", "MY_API void f1();\nvoid f2();\nstruct A { MY_API void m1(); void m2(); };\n", ["f1", "m1", "f2", "m2"], [], api="MY_API", fn_exclude_non_api=False),
    fixed("params", "void f(int keep_x, int drop_x = 1, int keep_y = 2, double drop_t = 1.);\nstruct S { S(int drop_req, int drop_opt = 3); void m(double dbl_req, double dbl_opt = 2.); };\n", ["keep_x", "keep_y", "drop_req", "dbl_req"], ["drop_x", "drop_t", "drop_opt", "dbl_opt"], fn_params_exclude_names__regex="^drop", fn_params_exclude_types__regex="double"),
    fixed("macros", "#define KEEP_A 1\n#define DROP_B 2\n#define KEEP_FN(x) x\nint x;\n", ["KEEP_A"], ["DROP_B", "KEEP_FN"], macro_define_include_by_name__regex="^KEEP"),
    fixed("globals", "extern int keep_g;\nint drop_h;\nnamespace n { static int keep_i = 3; constexpr double drop_j = 2.; }\n", ["keep_g", "keep_i"], ["drop_h", "drop_j"], globals_vars_include_by_name__regex="^keep"),
    fixed("protected_exposed", "class A { protected: void prot_m(int a); int prot_attr; private: void priv_m(); public: void pub_m(); };\n", ["prot_m", "pub_m"], ["priv_m", "prot_attr"], class_expose_protected_methods__regex="^A$"),
    fixed("out_of_class_definitions", "struct A { void m(); int k; };\nvoid A::m() { }\nint A_free(int a) { return a; }\nstruct Fwd;\nclass Fwd2;\nenum class FwdE : int;\nvoid fwd(int aa);\n", ["m", "k", "a_free", "fwd", "A"], ["Fwd", "Fwd2", "FwdE"]),
    fixed("friends_and_typedefs", "struct A { int k; friend void frd(A& a); friend struct Frds; using Alias = int; typedef int Td; };\nusing G = int;\ntypedef double H;\nvoid last(int zz);\n", ["k", "last", "zz"], ["Frds", "Alias", "Td", "G", "H"]),
    fixed("extern_c", "extern \"C\" { void in_c(int a); struct InC { int b; }; }\nvoid after(int c);\n", ["in_c", "InC", "b", "after"], []),
    fixed("operators_assign", "struct A { A& operator=(const A& o); A(A&& mv_p) = delete; A() = default; int q; };\n", ["q"], ["mv_p"]),
    fixed("multi_decl", "struct A { int a1, a2 = 3, a3; private: int b1, b2; };\n", ["a1", "a2", "a3"], ["b1", "b2"]),
    fixed("named_ctor_excl", "struct A { int keep1 = 1; int drop1 = 2; std::string keep2; private: int p = 3; };\n", ["keep1", "keep2"], ["drop1", "p"], member_exclude_by_name__regex="^drop"),
    fixed("nested_excluded", "struct Outer { struct Inner { int in_attr; enum class InE { InItem }; void in_m(); }; int out_attr; };\nnamespace a { namespace b { struct Inner { int x1; }; void fb(); } }\n", ["Outer", "out_attr", "fb"], ["Inner", "in_attr", "InE", "in_item", "in_m", "x1"], class_exclude_by_name__regex="^Inner$"),
    fixed("fn_type", "void f_int(int a1);\nint f_ret();\nvoid f_dbl(double a2);\nstruct S { void m(int a3); void k(double a4, int a5); S(int a6); S(double a7); };\n", ["f_dbl", "a2", "S", "a7"], ["f_int", "f_ret", "a1", "m", "k", "a3", "a5", "a6"], fn_exclude_by_param_type__regex="^int$"),
]
RANDOM = [(exclusion_case, 1200)]
