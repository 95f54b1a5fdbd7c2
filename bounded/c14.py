"""C14: the generated text depends on the code and the options only: histories of calls in one process (successful and
failing, same or other option objects), fresh processes with other hash seeds, other files processed before; and the
options object of the user is left as it was."""
from __future__ import annotations
import difflib, enum, hashlib, json, os, random, subprocess, sys, tempfile, shutil, re
from . import core, lg, prog, c08

SNAP_ATOMS = (str, int, float, bool, bytes, type(None))


def snapshot(x, seen=None, depth=0):
    """deep value of an options object: every attribute of every object reachable from it"""
    seen = seen if seen is not None else {}
    if isinstance(x, SNAP_ATOMS):
        return x
    if isinstance(x, enum.Enum):
        return (type(x).__name__, x.name)
    if callable(x) and not hasattr(x, "__dict__") or type(x).__name__ in ("function", "method", "builtin_function_or_method", "type"):
        return ("callable", id(x))
    if id(x) in seen:
        return ("ref", seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, dict):
        return ("dict", [(snapshot(k, seen), snapshot(v, seen)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v, seen) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(repr(snapshot(v, seen)) for v in x))
    d = {k: getattr(x, k) for k in dir(x) if not k.startswith("__") and (k in vars(x) or not callable(getattr(x, k)))} if hasattr(x, "__dict__") else {}
    return (type(x).__name__, [(k, snapshot(v, seen)) for k, v in sorted(d.items())])


def diff_snap(a, b, path="options"):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and a[0] == b[0] and isinstance(a[1], list) and isinstance(b[1], list):
        if len(a[1]) != len(b[1]):
            return f"{path}: {len(a[1])} entries before, {len(b[1])} after: {str(a[1])[:200]} / {str(b[1])[:200]}"
        for i, (u, v) in enumerate(zip(a[1], b[1])):
            if u != v:
                if isinstance(u, tuple) and isinstance(v, tuple) and len(u) == 2 and u[0] == v[0]:
                    return diff_snap(u[1], v[1], f"{path}.{u[0]}")
                return diff_snap(u, v, f"{path}[{i}]")
    return f"{path}: {str(a)[:200]} before, {str(b)[:200]} after"


TEMPLATES = '''
template<typename T> struct TplCls { T value; TplCls(T v = T()); T get(const T& other) const; };
template<typename T> T tpl_fn(T a, const std::vector<T>& b);
void use_tpl(TplCls<int> a, std::vector<TplCls<double>> b);
'''
TPL_BUF = "template<typename T> void plot_buf(const T* values, size_t count, int stride = sizeof(T));\n"
VIRT = '''
struct VBase { virtual ~VBase() = default; virtual int vm(int a, std::string s = "x") const; virtual void pv(bool b) = 0; protected: void prot_m(int k = 2); virtual int prot_v(double d); };
'''
BOXED = "void boxed_a(int *value, bool &flag); float boxed_b(double &d); void boxed_c(std::string *s); void boxed_d(unsigned long *u);\n"


def configure(rng: random.Random, outer: str):
    o = c08.random_options(rng, None, outer)
    if rng.random() < .6:
        o.class_template_options.add_specialization("^Tpl", rng.sample(["int", "double", "std::string"], 2))
        o.fn_template_options.add_specialization("^tpl_", rng.sample(["int", "double", "bool"], 2), add_suffix_to_function_name=rng.random() < .7)
    else:
        o.class_template_options.add_ignore("^Tpl")
        o.fn_template_options.add_ignore("^tpl")
    if rng.random() < .3:
        o.fn_params_replace_buffer_by_array__regex = ".*"
    if rng.random() < .3:
        o.fn_params_replace_modifiable_immutable_by_boxed__regex = ".*"
        o.fn_params_output_modifiable_immutable_to_return__regex = ""
    if rng.random() < .4:
        o.class_expose_protected_methods__regex = "^VBase$"
    if rng.random() < .4:
        o.class_override_virtual_methods_in_python__regex = "^VBase$"
    if rng.random() < .3:
        o.namespaces_root = rng.sample(["alpha", "beta", "gamma"], 1)
    if rng.random() < .3:
        o.custom_bindings.add_custom_bindings_to_main_module(stub_code="def cust() -> None: pass", pydef_code="LG_MODULE.def(\"cust\", []() {});")
    if rng.random() < .3:
        o.type_replacements.add_last_replacement(r"\bstd::string\b", "Text")
    if rng.random() < .2:
        o.comments_replacements.add_last_replacement(r"\bdoc\b", "documentation")
    if rng.random() < .2:
        o.srcmlcpp_options.ignored_warning_parts.append("nothing like this")
    return o


def make(seed: int):
    """the header and the maker of its options; a function of the seed only"""
    rng = random.Random(seed)
    items = prog.Gen(rng, prog.Cfg(docs=rng.random() < .4, globals=rng.random() < .3, rich=rng.random() < .6)).program()
    code = prog.render(items)
    for extra in (TEMPLATES, VIRT, BOXED):
        if rng.random() < .6:
            code += extra
    outer = c08.outer_classes(items)
    s = rng.randrange(1 << 40)
    return code, lambda: configure(random.Random(s), outer)


class Fail(Exception):
    pass


def run(o, code: str, omit: bool = False):
    """the three outputs, or the failure"""
    import litgen
    try:
        g = litgen.generate_code(o, code, omit)
    except Exception as e:
        return ("failed", type(e).__name__, re.sub(r"0x[0-9a-f]+|/tmp/\S+", "", str(e))[:300])
    return (g.stub_code, g.pydef_code, g.glue_code)


NAMES = ["stub", "binding code", "glue code"]


def same(a, b, what: str, **info) -> None:
    if a == b:
        return
    for n, x, y in zip(NAMES, a, b):
        if x != y:
            d = "\n".join(difflib.unified_diff(str(x).split("\n"), str(y).split("\n"), lineterm="", n=1))[:1500]
            raise core.Violation(f"{what}: the {n} differs", diff=d, **info)


BROKEN = [
    "int f(int a = (;\nstruct {{{\n",
    "namespace A { struct B { void f(int a); \n",
    "template<typename T> struct Zed { T a; };\ntemplate<class T> T unknown_fn(T);\n",
    "enum class E { A = 1 << , B };\n",
    "struct X; int operator<<(X x, int a); bool operator%=(X x);\n",
    "void f(MyMacro(int) a, ...);\n#endif\n#else\n",
    "class A : public B, { };\n",
    "void f(const int v[N], int (*fn)(int), int (&arr)[3]);\n",
]


class Boom(Exception):
    pass


def failing(rng: random.Random, o, code: str):
    """a call that fails, or may fail, at some point of the generation"""
    import litgen
    k = rng.randrange(5)
    try:
        if k == 0:
            litgen.generate_code(o, rng.choice(BROKEN))
        elif k == 1:
            litgen.generate_code(o, code + rng.choice(BROKEN))
        elif k == 2:
            litgen.generate_code_for_file(o, "/nonexistent/header.h")
        elif k == 3:
            o2 = lg.options(rng.random() < .5)
            left = [rng.choice([0, 0, 1, 2, 3, 5])]

            def boom(x):
                left[0] -= 1
                if left[0] < 0:
                    raise Boom()
                return x
            which = rng.choice(["postprocess_stub_function", "postprocess_pydef_function", "srcmlcpp_options"])
            if which == "srcmlcpp_options":
                o2.srcmlcpp_options.code_preprocess_function = boom
            else:
                setattr(o2, which, boom)
            s0 = snapshot(o2)
            try:
                litgen.generate_code(o2, code)
            finally:
                d = diff_snap(s0, snapshot(o2))
                if d:
                    raise core.Violation("a failing generation changes the options object of the user: " + d, code=code)
        else:
            o2 = lg.options(rng.random() < .5)
            o2.fn_params_output_modifiable_immutable_to_return__regex = ".*"
            o2.fn_params_replace_modifiable_immutable_by_boxed__regex = ".*"
            litgen.generate_code(o2, code)
    except core.Violation:
        raise
    except Exception:
        pass


def history(rng: random.Random) -> tuple:
    """first result, then a history of other calls, then the same result with the same and with fresh options"""
    code, mk = make(rng.randrange(1 << 40))
    omit = rng.random() < .2
    o = mk()
    s0 = snapshot(o)
    first = run(o, code, omit)
    info = dict(code=code, options=c08.describe(o))
    d = diff_snap(s0, snapshot(o))
    if d:
        raise core.Violation("generation changes the options object of the user: " + d, **info)
    hist = []
    for _ in range(rng.randrange(0, 4)):
        k = rng.randrange(4)
        if k == 0:
            hist.append("failing call")
            failing(rng, o if rng.random() < .5 else mk(), code)
        elif k == 1:
            c2, mk2 = make(rng.randrange(1 << 40))
            hist.append("other code, same options")
            run(o, c2)
        elif k == 2:
            c2, mk2 = make(rng.randrange(1 << 40))
            hist.append("other code, other options")
            run(mk2(), c2)
        else:
            hist.append("same code, other options")
            _, mk2 = make(rng.randrange(1 << 40))
            run(mk2(), code)
    d = diff_snap(s0, snapshot(o))
    if d:
        raise core.Violation("generation changes the options object of the user: " + d, history=hist, **info)
    same(first, run(o, code, omit), "repeating the generation with the same options object", history=hist, **info)
    same(first, run(mk(), code, omit), "repeating the generation with equal options", history=hist, **info)
    return code, code[:300]


def renamed(code: str, n: int) -> str:
    return code


def generator_files(rng: random.Random) -> tuple:
    """one generator, several files: asking for the outputs has no effect, and the text of a file does not depend on the
    unrelated files (other namespaces, other names) processed before it"""
    import litgen
    from litgen.litgen_generator import LitgenGenerator
    nb = rng.random() < .4
    seed_o = rng.randrange(1 << 40)

    def mk():
        r = random.Random(seed_o)
        o = c08.random_options(r, nb, "")
        o.fn_params_replace_modifiable_immutable_by_boxed__regex = ""
        if r.random() < .4:
            o.class_template_options.add_specialization("^Tpl", ["int", "double"])
            o.fn_template_options.add_specialization("^tpl", ["int", "double"], add_suffix_to_function_name=True)
        else:
            o.class_template_options.add_ignore("^Tpl")
            o.fn_template_options.add_ignore("^tpl")
        return o
    files = []
    for i in range(3):
        items = prog.Gen(random.Random(rng.randrange(1 << 40)), prog.Cfg(rich=rng.random() < .5, docs=rng.random() < .3)).program()
        body = prog.render(items) + (TEMPLATES if rng.random() < .4 else "")
        # unrelated: every name declared in the file gets a suffix of its own
        names = {it.name for _, _, it in prog.walk(items) if getattr(it, "name", "")}
        for _, _, it in prog.walk(items):
            if isinstance(it, prog.En):
                names |= {v.name for v in it.values if hasattr(v, "name")}
        names |= {"TplCls", "tpl_fn", "use_tpl"}
        names = {n for n in names if not n.startswith("operator") and re.fullmatch(r"\w+", n)}
        tok = re.compile(r"(?<!\w)~?(" + "|".join(map(re.escape, sorted(names, key=len, reverse=True))) + r")(?!\w)")
        parts = re.split(r'("(?:[^"\\]|\\.)*")', body)
        body = "".join(p if j % 2 else tok.sub(lambda m: m.group(0) + "Qx" + "abc"[i], p) for j, p in enumerate(parts))
        files.append((f"file{'abc'[i]}.h", body))
    info = dict(code="\n//////\n".join(f"// {n}\n{c}" for n, c in files), options=c08.describe(mk()))

    def texts(fs, fail_between=False, peek=False):
        g = LitgenGenerator(mk())
        for n, c in fs:
            g.process_cpp_code(c, n)
            if peek:
                a = (g.stub_code(), g.pydef_code(), g.glue_code())
                b = (g.stub_code(), g.pydef_code(), g.glue_code())
                same(a, b, "asking a generator twice for its output", **info)
        return {x.source_filename: (x.stub_code, x.pydef_code, "") for x in g._generated_codes}, (g.stub_code(), g.pydef_code(), g.glue_code())
    try:
        alone = {n: texts([(n, c)])[0][n] for n, c in files}
    except core.Violation:
        raise
    except Exception as e:
        raise core.Violation(f"generation fails on a supported header: {type(e).__name__}: {str(e)[:200]}", **info)
    allf, _ = texts(files, peek=rng.random() < .3)
    for n, _ in files:
        same(alone[n], allf[n], f"the code generated for {n} depends on the unrelated files processed before it", **info)
    order = files[:]
    rng.shuffle(order)
    allf, _ = texts(order)
    for n, _ in files:
        same(alone[n], allf[n], f"the code generated for {n} depends on the unrelated files processed before it (order {[x for x, _ in order]})", **info)
    # a failing file in between
    g = LitgenGenerator(mk())
    for n, c in files[:1]:
        g.process_cpp_code(c, n)
    import litgen.litgen_generator as lgg
    o = g.options()
    keep = o.srcmlcpp_options.code_preprocess_function

    def boom(code):
        raise Boom()
    o.srcmlcpp_options.code_preprocess_function = boom
    try:
        g.process_cpp_code("int boom();", "boom.h")
    except Boom:
        pass
    o.srcmlcpp_options.code_preprocess_function = keep
    for n, c in files[1:]:
        g.process_cpp_code(c, n)
    got = {x.source_filename: (x.stub_code, x.pydef_code, "") for x in g._generated_codes}
    for n, _ in files:
        same(alone[n], got[n], f"the code generated for {n} depends on a failed call before it", **info)
    return info["code"], info["code"][:300]


def write_twice(rng: random.Random) -> tuple:
    """write_generated_code_for_file(s): same files after a repetition; and for every order of reads"""
    import litgen
    code, mk = make(rng.randrange(1 << 40))
    o = mk()
    o.python_run_black_formatter = False
    d = tempfile.mkdtemp(prefix="verif_c14_")
    try:
        h = os.path.join(d, "h.h")
        open(h, "w", encoding="utf-8").write(code)
        outs = []
        ref = run(o, code)
        if ref[0] == "failed":
            raise core.Skip()
        for i in range(2):
            p, s, gl = (os.path.join(d, n) for n in ("m.cpp", "m.pyi", "g.h"))
            if i == 0:
                open(p, "w").write("// <litgen_pydef>\n// </litgen_pydef>\n")
                open(s, "w").write("# <litgen_stub>\n# </litgen_stub>\n")
                open(gl, "w").write("// <litgen_glue_code>\n// </litgen_glue_code>\n")
            litgen.write_generated_code_for_file(o, h, p, s, gl)
            outs.append(tuple(open(x).read() for x in (s, p, gl)))
        same(outs[0], outs[1], "generating the same file twice", code=code, options=c08.describe(o))
        g1 = litgen.generate_code_for_file(mk(), h)
        g2 = litgen.generate_code_for_file(o, h)
        same((g1.stub_code, g1.pydef_code, g1.glue_code), (g2.stub_code, g2.pydef_code, g2.glue_code), "generating the same file twice", code=code)
    finally:
        shutil.rmtree(d)
    return "file" + code, code[:200]


def digests(seeds: list[int]) -> list:
    r = []
    for s in seeds:
        code, mk = make(s)
        r.append([hashlib.sha1(code.encode()).hexdigest()] + [hashlib.sha1(str(x).encode()).hexdigest() for x in run(mk(), code)])
    return r


def processes(rng: random.Random) -> tuple:
    """fresh processes with other hash seeds, and other histories"""
    seeds = [rng.randrange(1 << 40) for _ in range(8)]
    results = [digests(seeds)]
    hs = ["0", str(rng.randrange(1, 4000000000)), str(rng.randrange(1, 4000000000)), "random"]
    procs = []
    for i, h in enumerate(hs):
        order = seeds[:]
        if i % 2:
            order.reverse()
        env = dict(os.environ, PYTHONHASHSEED=h)
        procs.append((order, subprocess.Popen([sys.executable, "-c", "import sys, json; sys.path.insert(0, sys.argv[2]); from bounded import c14; import contextlib, io\nb = io.StringIO()\nwith contextlib.redirect_stdout(b):\n    r = c14.digests(json.loads(sys.argv[1]))\nprint('@@' + json.dumps(r))", json.dumps(order), core.ROOT], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)))
    for (order, p), h in zip(procs, hs):
        o, e = p.communicate(timeout=300)
        m = [l for l in o.split("\n") if l.startswith("@@")]
        if not m:
            raise RuntimeError("subprocess: " + e[-500:])
        by = dict(zip(order, json.loads(m[-1][2:])))
        for s, ref in zip(seeds, results[0]):
            if by[s][0] != ref[0]:
                raise RuntimeError("header generator is not deterministic")
            if by[s] != ref:
                code, mk = make(s)
                which = [n for n, a, b in zip(NAMES, ref[1:], by[s][1:]) if a != b]
                raise core.Violation(f"another process (PYTHONHASHSEED={h}) generates another {', '.join(which)}", code=code, options=c08.describe(mk()), seed=s)
    return str(seeds), f"{len(seeds)} headers, hash seeds {hs}"


def template_reuse() -> tuple:
    """template requests serve every generation alike"""
    for nb in (False, True):
        o = lg.options(nb)
        o.class_template_options.add_specialization("^Tpl", ["int", "std::string"], cpp_synonyms_list_str=["TplInt=TplCls<int>"]) if False else o.class_template_options.add_specialization("^Tpl", ["int", "std::string"])
        o.fn_template_options.add_specialization("^tpl_", ["int", "double"], add_suffix_to_function_name=True)
        s0 = snapshot(o)
        a = run(o, TEMPLATES)
        for c in (VIRT, TEMPLATES + BOXED, TEMPLATES.replace("TplCls", "TplOther"), TEMPLATES):
            run(o, c)
        same(a, run(o, TEMPLATES), "reusing options with template requests", code=TEMPLATES)
        d = diff_snap(s0, snapshot(o))
        if d:
            raise core.Violation("generation changes the options object of the user: " + d, code=TEMPLATES)
    return "template_reuse", TEMPLATES


def buffers_reuse() -> tuple:
    for nb in (False, True):
        o = lg.options(nb)
        o.fn_params_replace_buffer_by_array__regex = ".*"
        s0 = snapshot(o)
        a = run(o, TPL_BUF)
        run(o, TPL_BUF.replace("plot_buf", "other"))
        same(a, run(o, TPL_BUF), "reusing options with template buffers", code=TPL_BUF)
        d = diff_snap(s0, snapshot(o))
        if d:
            raise core.Violation("generation changes the options object of the user: " + d, code=TPL_BUF)
    return "buffers_reuse", TPL_BUF


def two_default_options() -> tuple:
    """an option set on one object does not reach another object"""
    import litgen
    a, b = litgen.LitgenOptions(), litgen.LitgenOptions()
    ref = snapshot(b)
    a.use_nanobind()
    a.class_template_options.add_specialization("X", ["int"])
    a.fn_template_options.add_ignore(".*")
    a.type_replacements.add_last_replacement("foo", "bar")
    a.comments_replacements.add_last_replacement("foo", "bar")
    a.value_replacements.add_last_replacement("foo", "bar")
    a.namespaces_root.append("zz")
    a.fn_params_buffer_types += "|Zed"
    a.srcmlcpp_options.functions_api_prefixes = "API"
    a.srcmlcpp_options.ignored_warnings.append("x") if hasattr(a.srcmlcpp_options, "ignored_warnings") else None
    a.srcmlcpp_options.ignored_warning_parts.append("x")
    a.macro_define_include_by_name__regex = ".*"
    a.custom_bindings.add_custom_bindings_to_main_module("a", "b")
    d = diff_snap(ref, snapshot(b)) or diff_snap(ref, snapshot(litgen.LitgenOptions()))
    if d:
        raise core.Violation("changing one options object changes another: " + d)
    return "two", "independent options objects"


def failing_anywhere() -> tuple:
    """a user callback that raises at its nth call leaves the options as they were"""
    import litgen
    code = "namespace n { struct A { int a; float b = 1.f; struct In { int z; }; In in; }; struct B { A a; void f(int *v, std::vector<int> w = {1, 2}, ...); }; }\n" + TPL_BUF + VIRT + BOXED
    for nb in (False, True):
        ref = run(lg.options(nb), code)
        for n in range(8):
            o = lg.options(nb)
            s0 = snapshot(o)
            left = [n]

            def boom(x):
                left[0] -= 1
                if left[0] < 0:
                    raise Boom()
                return x
            o.srcmlcpp_options.code_preprocess_function = boom
            o.srcmlcpp_options.flag_show_progress = bool(n % 3)
            s0 = snapshot(o)
            try:
                litgen.generate_code(o, code)
            except Boom:
                pass
            d = diff_snap(s0, snapshot(o))
            if d:
                raise core.Violation(f"a failing generation changes the options object of the user: {d}", code=code, failing_call=n)
            o.srcmlcpp_options.code_preprocess_function = None
            same(ref, run(o, code), f"generating after a failing generation (call {n} of the preprocess function raises)", code=code)
    return "failing_anywhere", code


def same_shape() -> tuple:
    """options that differ only in the content of a replacement: each generation uses its own, in any order of the calls"""
    import litgen
    code = """
namespace markA { int markA; void markA(int markA = 1); }
// a comment: markA
struct Cls { int markA; void markA(Arg markA = valueMark, Kind k = Kind::valueMark); };
#define markA 1
Arg other(Arg a);
"""

    def mk(field: str, w: str):
        o = litgen.LitgenOptions()
        o.macro_define_include_by_name__regex = ".*"
        getattr(o, field).add_last_replacement({"type_replacements": r"\bArg\b", "fn_params_type_replacements": r"\bArg\b", "value_replacements": "valueMark"}.get(field, "mark_?[aA]"), w)
        return o

    fields = ["type_replacements", "var_names_replacements", "namespace_names_replacements", "function_names_replacements", "value_replacements", "comments_replacements", "macro_name_replacements"]
    for field in fields:
        got = {}
        for w in ("uno", "due", "uno", "tre", "due"):
            r = run(mk(field, w), code)
            core.check(r[0] != "failed", "generation fails", result=r, code=code, field=field)
            core.check(w in r[0] and not any(x in r[0] + r[1] for x in ("uno", "due", "tre") if x != w), f"the replacement of the {field} is not the one of the options given", given=w, stub=r[0], field=field, code=code)
            same(got.setdefault(w, r), r, f"the same call gives another result after calls with other {field}", code=code)
    return "same_shape", code


DIRECTED = [same_shape, failing_anywhere, template_reuse, buffers_reuse, two_default_options]
RANDOM = [(processes, 10), (generator_files, 75), (write_twice, 60), (history, 600)]
