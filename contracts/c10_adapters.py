"""C10: contracts on the adapters of parameters: one expression per C++ parameter, in order."""
from __future__ import annotations
import random
from pyvc.api import contract, spec, lemma, real, schema, Loop, implies

FP10 = "litgen.internal.adapt_function_params."
AF10 = "litgen.internal.adapted_types.adapted_function:"
LA10 = FP10 + "_lambda_adapter:"

# ------------------------------------------------------------ names of local variables


@spec
def names_until(ps: "list[CppParameter]", k: int) -> "list[str]":
    """the names of the first k parameters"""
    if k <= 0:
        return []
    return names_until(ps, k - 1) + [ps[k - 1].decl.decl_name]


contract(LA10 + "local_variable_name", ["C10"], ghost={"k": "int"}, requires=["0 <= k", "k < len(parameters)"],
         ensures={"differs from the name of every parameter": "result != parameters[k].decl.decl_name", "begins with the name": "result.startswith(name)"},
         loops={0: Loop(inv=["name.startswith(old_name)", "parameters_names[k] == parameters[k].decl.decl_name", "len(parameters_names) == len(parameters)"])})

# ------------------------------------------------------------ kinds of parameters
schema("AdaptedParameter", _cpp_element="CppParameter")
schema("AdaptedDecl", _cpp_element="CppDecl")
schema("LitgenOptions", fn_params_const_char_pointer_with_default_null="bool")
schema("CppDecl", decl_name="str", c_array_code="str", initial_value_code="str")
contract(FP10 + "_adapt_variadic_format:is_variadic_format", ["C10"], returns="bool", ensures={"the ellipsis": "result == (len(param.decl.cpp_type.typenames) == 0 and param.decl.cpp_type.modifiers == ['...'])"})
contract("litgen.internal.adapted_types.adapted_element:AdaptedElement.__init__", ["C10"], params={"lg_context": "LitgenContext", "cpp_element": "CppElementAndComment"}, returns="None", trusted=True,
         ensures={"holds the declaration": "self._cpp_element is cpp_element", "and the context": "self.lg_context is lg_context", "and its options": "self.options is lg_context.options"}, modifies=["self._cpp_element", "self.lg_context", "self.options"],
         reason="stores its arguments; checks that the declaration has a parent")
contract(AF10 + "AdaptedFunction.adapted_parameters", ["C10"], returns="list[AdaptedParameter]",
         ensures={"one per parameter": "len(result) == len(self.cpp_adapted_function.parameter_list.parameters)"},
         each="result[_k]._cpp_element is self.cpp_adapted_function.parameter_list.parameters[_k]",
         loops={0: Loop(types={"r": "list[AdaptedParameter]"}, inv=["len(r) == _i", "implies(0 <= _k and _k < _i, r[_k]._cpp_element is _seq[_k])"])})

NC10 = "srcmlcpp.cpp_types.decls_types.cpp_type:CppType."
contract(NC10 + "name_without_modifier_specifier", ["C10"], returns="str", pure=True, trusted=True, reason="the text of the type without its specifiers and modifiers (bounded)")
contract("srcmlcpp.cpp_types.decls_types.cpp_decl:CppDecl.c_array_size_as_int", ["C10"], returns="Optional[int]", pure=True, trusted=True, reason="reads the parsed declaration and the table of named sizes (bounded)")
immutable10 = real("litgen.internal.cpp_to_python:is_cpp_type_immutable_for_python")
bare_name10 = real(NC10 + "name_without_modifier_specifier")
array_size10 = real("srcmlcpp.cpp_types.decls_types.cpp_decl:CppDecl.c_array_size_as_int")


@spec
def modifiable10(p: "CppParameter") -> bool:
    """a modifiable reference or pointer to a type which is immutable in Python"""
    return immutable10(bare_name10(p.decl.cpp_type)) and (p.decl.cpp_type.modifiers == ["*"] or p.decl.cpp_type.modifiers == ["&"]) and not ("const" in p.decl.cpp_type.specifiers)


@spec
def modifiable_array10(p: "CppParameter") -> bool:
    """a modifiable array of a known size of a type which is immutable in Python"""
    return immutable10(bare_name10(p.decl.cpp_type)) and len(p.decl.cpp_type.modifiers) == 0 and array_size10(p.decl) is not None and not ("const" in p.decl.cpp_type.specifiers)


@spec
def null_string10(p: "CppParameter") -> bool:
    """a C string which is null by default"""
    return (p.decl.cpp_type.modifiers == ["*"] and "const" in p.decl.cpp_type.specifiers and p.decl.cpp_type.typenames == ["char"]
            and (p.decl.initial_value_code == "NULL" or p.decl.initial_value_code == "nullptr") and p.decl.c_array_code == "")


contract(AF10 + "AdaptedParameter.is_modifiable_python_immutable_ref_or_pointer", ["C10"], returns="bool", ensures={"exactly these": "result == modifiable10(self._cpp_element)"})
contract(AF10 + "AdaptedParameter.is_modifiable_python_immutable_fixed_size_array", ["C10"], returns="bool", ensures={"exactly these": "result == modifiable_array10(self._cpp_element)"})
contract(AF10 + "AdaptedParameter.is_const_char_pointer_with_default_null", ["C10"], returns="bool", ensures={"exactly these": "result == null_string10(self._cpp_element)"})

# ------------------------------------------------------------ the adapters: the C++ function receives one expression per parameter, in order
schema("AdaptedFunction", cpp_adapted_function="CppFunctionDecl", lambda_to_call="Optional[str]", cpp_adapter_code="Optional[str]")
_P10 = "adapted_function.cpp_adapted_function.parameter_list.parameters"
_OLD10 = f"old({_P10})"
_FN10 = "adapted_function.cpp_adapted_function.function_name"
contract(NC10 + "str_code", ["C10"], returns="str", pure=True, trusted=True, reason="reads the parsed declaration: the text of the type")
text10 = real(NC10 + "str_code")


@spec
def is_format10(p: "CppParameter") -> bool:
    return text10(p.decl.cpp_type) == "const char *" or text10(p.decl.cpp_type) == "const char * const"


@spec
def is_ellipsis10(p: "CppParameter") -> bool:
    return len(p.decl.cpp_type.typenames) == 0 and p.decl.cpp_type.modifiers == ["..."]


_ELL = f"(len({_OLD10}) >= 2 and is_ellipsis10({_OLD10}[len({_OLD10}) - 1]) and is_format10({_OLD10}[len({_OLD10}) - 2]))"
contract(FP10 + "_adapt_variadic_format:adapt_variadic_format", ["C10"],
         ensures={"for the functions that end with a format and an ellipsis": f"(result is not None) == {_ELL}",
                  "the signature keeps the parameters before the ellipsis": f"implies(result is not None, result.new_function_infos.parameter_list.parameters == {_OLD10}[:len({_OLD10}) - 1])",
                  "the text is given as the argument of a constant format": f"implies(result is not None, result.adapted_cpp_parameter_list == names_until({_OLD10}, len({_OLD10}) - 2) + ['\"%s\"', {_OLD10}[len({_OLD10}) - 2].decl.decl_name])",
                  "the original function is not changed": f"{_P10} == {_OLD10}"},
         loops={0: Loop(types={"new_function_params": "list[CppParameter]"},
                        inv=["len(_seq) == len(%s) - 2" % _OLD10, "_seq == %s[:len(%s) - 2]" % (_OLD10, _OLD10), "new_function_params == _seq[:_i]", "lambda_adapter.adapted_cpp_parameter_list == names_until(%s, _i)" % _OLD10, f"{_P10} == {_OLD10}"])},
         modifies=["*.new_function_infos", "*.adapted_cpp_parameter_list", "*._parameters", "*.lambda_name"])


@spec
def args_null_string10(ps: "list[CppParameter]", k: int) -> "list[str]":
    """what the C++ function receives for its first k parameters, when null strings are adapted"""
    if k <= 0:
        return []
    if null_string10(ps[k - 1]):
        return args_null_string10(ps, k - 1) + [ps[k - 1].decl.decl_name + "_adapt_default_null"]
    return args_null_string10(ps, k - 1) + [ps[k - 1].decl.decl_name]


@spec
def some_null_string10(ps: "list[CppParameter]", k: int) -> bool:
    if k <= 0:
        return False
    return some_null_string10(ps, k - 1) or null_string10(ps[k - 1])


_NEWP = "result.new_function_infos.parameter_list.parameters"
contract(FP10 + "adapt_const_char_pointer_with_default_null:adapt_const_char_pointer_with_default_null", ["C10"], ghost={"k": "int"}, requires=["0 <= k"],
         ensures={"an adapter when the option is on and some parameter needs it": f"(result is not None) == (adapted_function.options.fn_params_const_char_pointer_with_default_null and old(some_null_string10({_P10}, len({_P10}))))",
                  "one expression per parameter, in order": f"implies(result is not None, result.adapted_cpp_parameter_list == old(args_null_string10({_P10}, len({_P10}))))",
                  "as many parameters": f"implies(result is not None, len({_NEWP}) == len({_OLD10}))",
                  "with the same names, in order": f"implies(result is not None and k < len({_OLD10}), {_NEWP}[k].decl.decl_name == {_OLD10}[k].decl.decl_name)",
                  "the other parameters are kept": f"implies(result is not None and k < len({_OLD10}) and not old(null_string10({_P10}[k])), {_NEWP}[k] is {_OLD10}[k])",
                  "an optional string without value by default": f"implies(result is not None and k < len({_OLD10}) and old(null_string10({_P10}[k])), {_NEWP}[k].decl.initial_value_code == 'std::nullopt' and {_NEWP}[k].decl.cpp_type.typenames == ['std::optional<std::string>'])",
                  "the original function is not changed": f"{_P10} == {_OLD10}"},
         loops={0: Loop(inv=[f"needs_adapt == old(some_null_string10({_P10}, _i))", f"{_P10} == {_OLD10}", f"len(_seq) == len({_OLD10})"]),
                1: Loop(types={"new_function_params": "list[CppParameter]"},
                        inv=["len(new_function_params) == _i", f"{_P10} == {_OLD10}", f"len(_seq) == len({_OLD10})", f"lambda_adapter.adapted_cpp_parameter_list == old(args_null_string10({_P10}, _i))",
                             f"implies(k < _i, new_function_params[k].decl.decl_name == {_OLD10}[k].decl.decl_name)",
                             f"implies(k < _i and not old(null_string10({_P10}[k])), new_function_params[k] is {_OLD10}[k])",
                             f"implies(k < _i and old(null_string10({_P10}[k])), new_function_params[k].decl.initial_value_code == 'std::nullopt' and new_function_params[k].decl.cpp_type.typenames == ['std::optional<std::string>'])"])},
         modifies=["*.new_function_infos", "*.adapted_cpp_parameter_list", "*._parameters", "*.lambda_name", "*.lambda_input_code"])


@spec
def args_boxed10(ps: "list[CppParameter]", k: int) -> "list[str]":
    """what the C++ function receives for its first k parameters, when modifiable values are boxed"""
    if k <= 0:
        return []
    if modifiable10(ps[k - 1]):
        return args_boxed10(ps, k - 1) + [ps[k - 1].decl.decl_name + "_boxed_value"]
    return args_boxed10(ps, k - 1) + [ps[k - 1].decl.decl_name]


@spec
def some_modifiable10(ps: "list[CppParameter]", k: int) -> bool:
    if k <= 0:
        return False
    return some_modifiable10(ps, k - 1) or modifiable10(ps[k - 1])


matches10 = real("codemanip.code_utils:does_match_regex_or_matcher")
contract("litgen.internal.boxed_python_type:registered_boxed_type_name", ["C10"], params={"context": "LitgenContext", "cpp_type": "str"}, returns="str", trusted=True,
         reason="the name of the box of a type; registers the type for the generation of its box")
schema("LitgenOptions", fn_params_replace_modifiable_immutable_by_boxed__regex="str", fn_params_output_modifiable_immutable_to_return__regex="str")
_BOX10 = "matches10(adapted_function.options.fn_params_replace_modifiable_immutable_by_boxed__regex, adapted_function.cpp_adapted_function.function_name)"
_M10 = ["*.new_function_infos", "*.adapted_cpp_parameter_list", "*._parameters", "*.lambda_name", "*.lambda_input_code"]
contract(FP10 + "adapt_modifiable_immutable:adapt_modifiable_immutable", ["C10"], ghost={"k": "int"}, requires=["0 <= k"], cost=60,
         ensures={"an adapter when the option matches and some parameter needs it": f"(result is not None) == old({_BOX10} and some_modifiable10({_P10}, len({_P10})))",
                  "one expression per parameter, in order": f"implies(result is not None, result.adapted_cpp_parameter_list == old(args_boxed10({_P10}, len({_P10}))))",
                  "as many parameters": f"implies(result is not None, len({_NEWP}) == len({_OLD10}))",
                  "with the same names, in order": f"implies(result is not None and k < len({_OLD10}), {_NEWP}[k].decl.decl_name == {_OLD10}[k].decl.decl_name)",
                  "the other parameters are kept": f"implies(result is not None and k < len({_OLD10}) and not old(modifiable10({_P10}[k])), {_NEWP}[k] is {_OLD10}[k])",
                  "the original function is not changed": f"{_P10} == {_OLD10}"},
         loops={0: Loop(inv=[f"needs_adapt == old(some_modifiable10({_P10}, _i))", f"{_P10} == {_OLD10}", f"len(_seq) == len({_OLD10})"]),
                1: Loop(types={"new_function_params": "list[CppParameter]"},
                        inv=["len(new_function_params) == _i", f"{_P10} == {_OLD10}", f"len(_seq) == len({_OLD10})", f"lambda_adapter.adapted_cpp_parameter_list == old(args_boxed10({_P10}, _i))",
                             f"implies(k < _i, new_function_params[k].decl.decl_name == {_OLD10}[k].decl.decl_name)",
                             f"implies(k < _i and not old(modifiable10({_P10}[k])), new_function_params[k] is {_OLD10}[k])"])},
         modifies=_M10)

contract(FP10 + "_adapt_force_lambda:adapt_force_lambda", ["C10"],
         ensures={"one expression per parameter, in order": f"result.adapted_cpp_parameter_list == names_until({_OLD10}, len({_OLD10}))",
                  "the signature keeps every parameter": f"{_NEWP} == {_OLD10}",
                  "the original function is not changed": f"{_P10} == {_OLD10}"},
         loops={0: Loop(types={"new_function_params": "list[CppParameter]"},
                        inv=[f"_seq == {_OLD10}", "new_function_params == _seq[:_i]", f"lambda_adapter.adapted_cpp_parameter_list == names_until({_OLD10}, _i)", f"{_P10} == {_OLD10}"])},
         modifies=["*.new_function_infos", "*.adapted_cpp_parameter_list", "*._parameters", "*.lambda_name"])

# ------------------------------------------------------------ an adapter replaces the function that is called by a lambda
_AA10 = FP10 + "apply_all_adapters:"
contract(_AA10 + "_make_adapted_lambda_code", ["C10"], returns="str", pure=True, trusted=True, reason="the text of the lambda (compiled end to end: bounded)")
lambda_code10 = real(_AA10 + "_make_adapted_lambda_code")
contract(_AA10 + "_apply_lambda_adapter", ["C10"], params={"adapted_function": "AdaptedFunction", "lambda_adapter": "LambdaAdapter"}, requires=["lambda_adapter.new_function_infos is not None"],
         ensures={"its code follows the code of the earlier adapters": "adapted_function.cpp_adapter_code == old(adapted_function.cpp_adapter_code if adapted_function.cpp_adapter_code is not None else '') + old(lambda_code10(adapted_function, lambda_adapter))",
                  "its lambda is called from now on": "adapted_function.lambda_to_call == lambda_adapter.lambda_name",
                  "with its signature": "adapted_function.cpp_adapted_function is lambda_adapter.new_function_infos"},
         modifies=["adapted_function.cpp_adapter_code", "adapted_function.cpp_adapted_function", "adapted_function.lambda_to_call"])

# ------------------------------------------------------------ lists of C strings


@spec
def string_list10(d: "CppDecl") -> bool:
    """a list of constant C strings: char with two indirections"""
    return ("const" in d.cpp_type.specifiers and d.cpp_type.typenames == ["char"] and d.cpp_type.modifiers.count("*") + (1 if d.c_array_code != "" else 0) == 2
            and (d.initial_value_code == "" or d.initial_value_code == "NULL" or d.initial_value_code == "nullptr"))


contract("srcmlcpp.cpp_types.decls_types.cpp_decl:CppDecl.is_c_string_list_ptr", ["C10"], returns="bool", ensures={"exactly these": "result == string_list10(self)"})


@spec
def args_strings10(ps: "list[CppParameter]", k: int) -> "list[str]":
    """what the C++ function receives for its first k parameters, when lists of strings are adapted"""
    if k <= 0:
        return []
    if string_list10(ps[k - 1].decl):
        return args_strings10(ps, k - 1) + [ps[k - 1].decl.decl_name + "_ptrs.data()"]
    return args_strings10(ps, k - 1) + [ps[k - 1].decl.decl_name]


@spec
def some_strings10(ps: "list[CppParameter]", k: int) -> bool:
    if k <= 0:
        return False
    return some_strings10(ps, k - 1) or string_list10(ps[k - 1].decl)


lemma("some_strings10_mono", ["C10"], {"ps": "list[CppParameter]", "k": "int", "n": "int"}, ["0 <= k", "k <= n", "some_strings10(ps, k)"], ["some_strings10(ps, n)"],
      ih=["some_strings10_mono(ps, k, n - 1)"], measure="n")
schema("LitgenOptions", fn_params_replace_c_string_list__regex="str", bind_library="BindLibraryType")
_STR10 = "matches10(adapted_function.options.fn_params_replace_c_string_list__regex, adapted_function.cpp_adapted_function.function_name)"
contract(FP10 + "_adapt_c_string_list:adapt_c_string_list_no_count", ["C10"], ghost={"k": "int"}, requires=["0 <= k"], cost=40,
         ensures={"an adapter when the option matches and some parameter needs it": f"(result is not None) == old({_STR10} and some_strings10({_P10}, len({_P10})))",
                  "one expression per parameter, in order": f"implies(result is not None, result.adapted_cpp_parameter_list == old(args_strings10({_P10}, len({_P10}))))",
                  "as many parameters": f"implies(result is not None, len({_NEWP}) == len({_OLD10}))",
                  "with the same names, in order": f"implies(result is not None and k < len({_OLD10}), {_NEWP}[k].decl.decl_name == {_OLD10}[k].decl.decl_name)",
                  "the other parameters are kept": f"implies(result is not None and k < len({_OLD10}) and not old(string_list10({_P10}[k].decl)), {_NEWP}[k] is {_OLD10}[k])",
                  "the original function is not changed": f"{_P10} == {_OLD10}"},
         loops={"needs_adapt:0": Loop(inv=["not some_strings10(_seq, _i)"], use=["some_strings10_mono(_seq, _i + 1, len(_seq))"]),
                0: Loop(types={"new_function_params": "list[CppParameter]"},
                        inv=["len(new_function_params) == _i", f"{_P10} == {_OLD10}", f"lambda_adapter.adapted_cpp_parameter_list == old(args_strings10({_P10}, _i))",
                             f"implies(k < _i, new_function_params[k].decl.decl_name == {_OLD10}[k].decl.decl_name)",
                             f"implies(k < _i and not old(string_list10({_P10}[k].decl)), new_function_params[k] is {_OLD10}[k])"])},
         modifies=_M10)
