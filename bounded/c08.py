"""C08: stub and binding code describe the same Python interface."""
from __future__ import annotations
import random
from . import core, lg, out, prog, iface


def random_options(rng: random.Random, nb: bool | None = None, outer: str = ""):
    o = lg.options(rng.random() < 0.4 if nb is None else nb)
    ch = lambda p: rng.random() < p
    if ch(.2): o.python_convert_to_snake_case = False
    if ch(.2): o.comments_exclude = True
    if ch(.2): o.python_reproduce_cpp_layout = False
    if ch(.2): o.original_location_flag_show = True
    if ch(.2): o.original_signature_flag_show = True
    if ch(.2): o.python_max_line_length = rng.choice([20, 50, 200, -1])
    if ch(.2): o.python_indent_size = rng.choice([2, 3, 8])
    if ch(.2): o.cpp_indent_size = rng.choice([2, 3, 8])
    if ch(.1): o.cpp_indent_with_tabs = True
    if ch(.1): o.python_ident_with_tabs = True; 
    if ch(.15): o.fn_force_lambda__regex = rng.choice([".*", "^get", "a"])
    if ch(.15): o.fn_force_overload__regex = rng.choice([".*", "^get", "a"])
    if ch(.15): o.fn_add_gil_scoped_release_guard__regex = rng.choice([".*", "a"])
    if ch(.15): o.class_dynamic_attributes__regex = rng.choice([".*", "a"])
    if ch(.15): o.class_held_as_shared__regex = ".*"
    if ch(.15): o.class_create_default_named_ctor__regex = ".*"
    if ch(.1): o.struct_create_default_named_ctor__regex = ""
    if ch(.15): o.enum_make_flag__regex = rng.choice([".*", "a"])
    if ch(.15): o.enum_export_values = True
    if ch(.15): o.fn_return_force_policy_reference_for_pointers__regex = ".*"
    if ch(.15): o.fn_return_force_policy_reference_for_references__regex = ".*"
    if ch(.2): o.fn_params_replace_modifiable_immutable_by_boxed__regex = ".*"
    elif ch(.2): o.fn_params_output_modifiable_immutable_to_return__regex = ".*"
    if ch(.15): o.fn_params_adapt_mutable_param_with_default_value__regex = rng.choice([".*", ""])
    if ch(.15): o.fn_params_adapt_mutable_param_with_default_value__to_autogenerated_named_ctor = True
    if ch(.15): o.fn_params_replace_buffer_by_array__regex = ".*"
    if ch(.15): o.fn_params_const_char_pointer_with_default_null = ch(.5)
    if ch(.2): o.class_deep_copy__regex = ".*"
    if ch(.2): o.class_copy__regex = ".*"; o.class_copy_add_info_in_stub = ch(.5)
    if ch(.15): o.member_readonly_by_name__regex = "a"
    if outer and ch(.25): o.class_expose_protected_methods__regex = outer      # (only supported for classes that are not nested)
    if outer and ch(.2): o.class_override_virtual_methods_in_python__regex = outer
    if ch(.15): o.globals_vars_include_by_name__regex = ".*"
    if ch(.2): o.fn_params_exclude_names__regex = "a"
    if ch(.2): o.fn_exclude_by_name__regex = "^get|^set"
    if ch(.1): o.class_exclude_by_name__regex = "Max|Item"
    if ch(.1): o.member_exclude_by_name__regex = "a"
    if ch(.1): o.member_exclude_by_type__regex = "int"
    if ch(.1): o.enum_exclude_by_name__regex = "Max|Item"
    if ch(.1): o.fn_exclude_by_param_type__regex = "^int$"
    return o


def outer_classes(items: list) -> str:
    """regex matching the classes that are not nested in a class"""
    names = [it.name for scope, acc, it in prog.walk(items) if isinstance(it, prog.C) and all(k != "cls" for k, _ in scope)]
    return "^(" + "|".join(names) + ")$" if names else ""


def describe(o) -> dict:
    d = type(o)()
    r = {}
    for k in dir(o):
        if k.startswith("_") or callable(getattr(o, k)):
            continue
        a, b = getattr(o, k), getattr(d, k)
        if isinstance(a, (str, int, bool, float)) and a != b:
            r[k] = a
    r["bind_library"] = o.bind_library.name
    return r


RICH = '''
#include <vector>
namespace alpha
{
    // base doc
    struct Base { virtual ~Base() = default; virtual int foo(int a, int b = 2) const; int member; static int counter; const int limit = 4;
      protected: virtual void prot(int b = 2); };
    struct Derived : public Base { Derived(int x); Derived(int x, double y = 1.); int foo(int a, int b = 2) const override; private: int hidden(); };
    class Both : public Base, public Derived { public: void run(const char* name = nullptr, bool flag = true); int arr[3]; private: int z; };
    enum class Color { Red, Green = 4, Blue };
    enum Plain { Plain_A, Plain_B, Plain_COUNT };
    struct Outer { struct Inner { int k = 3; enum class Deep { One, Two }; Deep d = Deep::One; }; Inner inner; void use(Inner i, Inner::Deep d = Inner::Deep::Two); void use(int i); };
    void variadic(const char* fmt, ...);
    void modif(int* value, bool& flag, const int& c);
    bool modif2(float* v, int nb = 3);
    void carr(const int v[2], int w[2]);
    void strs(const char* const items[], int items_count, bool last = false);
    void buf(uint8_t* buffer, size_t buffer_size, int factor = 2);
    void mut(std::vector<int> v = {1, 2}, const std::vector<int>& w = std::vector<int>());
    int over(int a); int over(double a, int b = 1); int over(const std::string& s);
    namespace beta { void in_beta(Outer::Inner i, Color c = Color::Green); struct Base { int a; }; }
}
namespace alpha { int again(Derived d); }
void global_fn(alpha::Color c = alpha::Color::Blue, alpha::beta::Base b = alpha::beta::Base());
'''


def rich() -> tuple:
    for nb in (False, True):
        for seed in range(12):
            o = random_options(random.Random(seed), nb, "^(Base|Derived|Both)$") if seed else lg.options(nb)
            g = lg.generate(o, RICH)
            try:
                iface.compare(g)
            except core.Violation as v:
                v.info["options"] = describe(o)
                raise
    return ("rich", "rich header, 12 option sets x 2 libraries")


def random_header(rng: random.Random) -> tuple:
    gen = prog.Gen(rng, prog.Cfg(docs=rng.random() < .3, globals=rng.random() < .3, rich=rng.random() < .5))
    items = gen.program()
    code = prog.render(items)
    o = random_options(rng, None, outer_classes(items))
    g = lg.generate(o, code)
    try:
        n = iface.compare(g)
    except core.Violation as v:
        v.info["options"] = describe(o)
        raise
    if not n:
        raise core.Skip()
    return code, code[:400]


def one_side(name: str, code: str, **opts):
    def fn() -> tuple:
        for nb in (False, True):
            g = lg.generate(lg.options(nb, **opts), code)
            iface.compare(g)
        return (name, code)
    fn.__name__ = name
    return fn


DIRECTED = [
    rich,
    one_side("private_base", "struct A { int a; };\nstruct B : private A { int b; };\nclass C2 : A { public: int c; };\nstruct D : public A, private B { int d; };\n"),
    one_side("base_in_namespace", "namespace MyNs { struct A { int a; };\nstruct B : public A { int b; }; }\nstruct C : MyNs::B { int c; };\n"),
    one_side("named_ctor", "struct A { int a = 1; private: int p; public: const int k = 2; int arr[2]; int *ptr; static int s; double last = 2.; };\n"),
    one_side("named_ctor_class", "class A { int hid; public: int a = 1; std::vector<int> v; };\n", class_create_default_named_ctor__regex=".*"),
    one_side("vararg_and_defaults", "void f(const char *fmt, ...);\nvoid g(int a, int b = 2, const char *fmt = \"x\", ...);\n"),
    one_side("excluded_params", "void f(int a, int b_skip = 2, int c = 3);\nstruct A { A(int x, int y_skip = 3); void m(int a_skip, int b_skip = 1); };\n", fn_params_exclude_names__regex="skip"),
    one_side("keyword_params", "void f(int from, int lambda = 2, int pass = 3);\nstruct None2 { int def; void is(int in); };\n"),
    one_side("unnamed_params", "void f(int, double = 2.);\nstruct A { void m(int, bool); };\n"),
]
RANDOM = [(random_header, 1500)]
