"""C09: contracts on what is published and what is left out, according to the options."""
from __future__ import annotations
import random
from pyvc.api import contract, spec, real, schema, external, Loop, implies, lemma

CU = "codemanip.code_utils:"
AF = "litgen.internal.adapted_types.adapted_function:AdaptedFunction."
TP = "litgen.internal.template_options:"
CT = "srcmlcpp.cpp_types.decls_types.cpp_type:CppType."
_R = "reads the parsed declaration"

schema("CppFunctionDecl", function_name="str", specifiers="list[str]", parameter_list="CppParameterList", _return_type="CppType")
schema("CppParameterList", _parameters="list[CppParameter]")
schema("CppParameter", decl="CppDecl", parent="CppElementAndComment")
schema("CppDecl", cpp_type="CppType", _initial_value_code="str")
schema("CppType", typenames="list[str]", specifiers="list[str]", modifiers="list[str]")
schema("LitgenOptions", class_template_options="TemplateClassOptions", fn_exclude_by_name__regex="str", fn_exclude_by_param_type__regex="str", fn_exclude_by_name_and_signature="dict[str, str]",
       srcmlcpp_options="SrcmlcppOptions", fn_exclude_non_api="bool", fn_params_exclude_names__regex="str", fn_params_exclude_types__regex="str",
       member_exclude_by_name_and_class__regex="dict[str, str]", member_exclude_by_name__regex="str", member_exclude_by_type__regex="str", class_exclude_by_name__regex="str",
       enum_exclude_by_name__regex="str", namespace_exclude__regex="str", macro_define_include_by_name__regex="str", globals_vars_include_by_name__regex="str")
schema("SrcmlcppOptions", functions_api_prefixes="str")

# ------------------------------------------------------------ regular expressions of the options
contract(CU + "does_match_regex", ["C09"], params={"word": "Optional[str]"},
         ensures={"the empty rule matches nothing": "implies(regex_str == '' or regex_str == '|', not result)", "no word is not matched": "implies(word is None, not result)"})
contract(CU + "does_match_regex_or_matcher", ["C09"], returns="bool", pure=True, params={"rule": "str", "word": "str"},
         ensures={"the empty rule matches nothing": "implies(rule == '', not result)"})

contract(CU + "split_string_by_pipe_char", ["C09"], pure=True, trusted=True, reason="a function of its text: its items (bounded)")

contract(CT + "str_code", ["C09", "C15"], returns="str", pure=True, trusted=True, reason=_R + ": the text of the type")
contract(CT + "str_return_type", ["C09"], returns="str", pure=True, trusted=True, reason=_R + ": the text of the type")
FD = "srcmlcpp.cpp_types.functions.cpp_function_decl:CppFunctionDecl."
contract(FD + "is_method", ["C09"], returns="bool", pure=True, trusted=True, reason=_R)
contract(FD + "is_destructor", ["C09"], returns="bool", pure=True, trusted=True, reason="verified below for a destructor that is a method (is_destructor#2), as the parser makes them")
contract(FD + "is_destructor", ["C09"], requires=["implies(self.function_name.startswith('~'), is_method9(self))"], ensures={"the name of a destructor": "result == self.function_name.startswith('~')"})
is_method9 = real(FD + "is_method")
is_destructor9 = real(FD + "is_destructor")
excl_type = real(TP + "TemplateSpecList.shall_exclude_type")
code_of = real(CT + "str_code")
return_code_of = real(CT + "str_return_type")
matches9 = real(CU + "does_match_regex_or_matcher")
pipe_items = real(CU + "split_string_by_pipe_char")


@spec
def some_param_template_excluded(o: "LitgenOptions", ps: "list[CppParameter]", k: int) -> bool:
    """one of the first k parameters has a template type that is not handled"""
    if k <= 0:
        return False
    return some_param_template_excluded(o, ps, k - 1) or excl_type(o.class_template_options, ps[k - 1].decl.cpp_type)


@spec
def some_param_type_matches(o: "LitgenOptions", ps: "list[CppParameter]", k: int) -> bool:
    """one of the first k parameters has a type that is excluded by its text"""
    if k <= 0:
        return False
    return some_param_type_matches(o, ps, k - 1) or matches9(o.fn_exclude_by_param_type__regex, code_of(ps[k - 1].decl.cpp_type))


@spec
def some_prefix_in(prefixes: "list[str]", specifiers: "list[str]", k: int) -> bool:
    """one of the first k prefixes is written before the function"""
    if k <= 0:
        return False
    return some_prefix_in(prefixes, specifiers, k - 1) or prefixes[k - 1] in specifiers


_LP = {"o": "LitgenOptions", "ps": "list[CppParameter]", "k": "int", "n": "int"}
lemma("template_mono", ["C09"], _LP, ["0 <= k", "k <= n", "some_param_template_excluded(o, ps, k)"], ["some_param_template_excluded(o, ps, n)"], ih=["template_mono(o, ps, k, n - 1)"], measure="n")
lemma("type_mono", ["C09"], _LP, ["0 <= k", "k <= n", "some_param_type_matches(o, ps, k)"], ["some_param_type_matches(o, ps, n)"], ih=["type_mono(o, ps, k, n - 1)"], measure="n")


@spec
def signature_excluded(o: "LitgenOptions", f: "CppFunctionDecl") -> bool:
    """the types of the parameters are those of the signature registered for this name"""
    return (o.fn_exclude_by_name_and_signature.get(f.function_name, "") != ""
            and o.fn_exclude_by_name_and_signature.get(f.function_name, "") == ", ".join(param.decl.cpp_type.str_code() for param in f.parameter_list.parameters))


@spec
def excluded_by_rules(o: "LitgenOptions", f: "CppFunctionDecl") -> bool:
    """left out whatever the api prefixes"""
    return (is_destructor9(f) or "delete" in f.specifiers or "::" in f.function_name
            or some_param_template_excluded(o, f.parameter_list.parameters, len(f.parameter_list.parameters))
            or (hasattr(f, "return_type") and excl_type(o.class_template_options, f._return_type))
            or matches9(o.fn_exclude_by_name__regex, f.function_name)
            or (hasattr(f, "return_type") and matches9(o.fn_exclude_by_param_type__regex, return_code_of(f._return_type)))
            or some_param_type_matches(o, f.parameter_list.parameters, len(f.parameter_list.parameters))
            or signature_excluded(o, f))


_PFX = "pipe_items(options.srcmlcpp_options.functions_api_prefixes)"
_CHK = f"hasattr(cpp_function, 'return_type') and len({_PFX}) > 0 and (options.fn_exclude_non_api or exclude_even_if_options_fn_exclude_non_api)"
contract(AF + "init_is_function_publishable", ["C09"],
         ensures={"nothing that a rule excludes is published": "implies(excluded_by_rules(options, cpp_function), not result)",
                  "without api prefixes to check, everything else is published": f"implies(not excluded_by_rules(options, cpp_function) and not ({_CHK}), result)",
                  "with api prefixes, the functions that have one": f"implies(not excluded_by_rules(options, cpp_function) and ({_CHK}), result == some_prefix_in({_PFX}, cpp_function._return_type.specifiers, len({_PFX})))"},
         loops={0: Loop(inv=["not some_param_template_excluded(options, _seq, _i)"], use=["template_mono(options, _seq, _i + 1, len(_seq))"]), 1: Loop(inv=["not some_param_type_matches(options, _seq, _i)"], use=["type_mono(options, _seq, _i + 1, len(_seq))"]),
                "has_one_ok_prefix:0": Loop(inv=["has_api_prefix == some_prefix_in(_seq, cpp_function._return_type.specifiers, _i)"])}, fuel=2)
publishable = real(AF + "init_is_function_publishable")

# ------------------------------------------------------------ members and methods of a class
AC = "litgen.internal.adapted_types.adapted_class:"
schema("AdaptedClassMember", _cpp_element="CppDecl")
schema("AdaptedClass", _cpp_element="CppStruct", adapted_public_children="list[AdaptedElement]")
schema("AdaptedElement", _cpp_element="CppElementAndComment", options="LitgenOptions", lg_context="LitgenContext")
schema("CppStruct", class_name="str")
schema("CppDeclStatement", cpp_decls="list[CppDecl]")
contract(AC + "AdaptedClassMember.__init__", ["C09"], params={"lg_context": "LitgenContext", "decl": "CppDecl", "class_parent": "AdaptedClass"}, returns="None", trusted=True,
         ensures={"holds the declaration": "self._cpp_element is decl"}, modifies=["self._cpp_element", "self.class_parent"], reason="AdaptedElement.__init__ stores the declaration")
contract(AC + "AdaptedClassMember.check_can_publish", ["C09"], returns="bool", trusted=True, pure=True, reason="whether a type is supported")
contract(AF + "__init__", ["C09"], params={"lg_context": "LitgenContext", "function_decl": "CppFunctionDecl", "is_overloaded": "bool", "initial_lambda_to_call": "Optional[str]"}, returns="None", trusted=True,
         ensures={"holds the declaration": "self._cpp_element.function_name == function_decl.function_name"}, modifies=["self._cpp_element"],
         reason="stores a copy of the function with qualified types")
contract(FD + "is_overloaded_method", ["C09"], returns="bool", pure=True, trusted=True, reason=_R)
schema("AdaptedFunction", _cpp_element="CppFunctionDecl")


@spec
def member_excluded(o: "LitgenOptions", class_name: str, d: "CppDecl") -> bool:
    """left out by one of the rules on the members"""
    return (matches9(o.member_exclude_by_name_and_class__regex.get(class_name, ""), d.decl_name)
            or matches9(o.member_exclude_by_name__regex, d.decl_name)
            or matches9(o.member_exclude_by_type__regex, code_of(d.cpp_type)))


@spec
def n_not_excluded(o: "LitgenOptions", class_name: str, ds: "list[CppDecl]", k: int) -> int:
    """how many of the first k members are not excluded"""
    if k <= 0:
        return 0
    if member_excluded(o, class_name, ds[k - 1]):
        return n_not_excluded(o, class_name, ds, k - 1)
    return n_not_excluded(o, class_name, ds, k - 1) + 1


lemma("n_not_excluded_pos", ["C09"], {"o": "LitgenOptions", "c": "str", "ds": "list[CppDecl]", "k": "int"}, ["k >= 0"], ["n_not_excluded(o, c, ds, k) >= 0", "n_not_excluded(o, c, ds, k) <= k"],
      ih=["n_not_excluded_pos(o, c, ds, k - 1)"], measure="k")

_CH = "self.adapted_public_children"
_CN = "self._cpp_element.class_name"
contract(AC + "AdaptedClass._init_add_adapted_class_member", ["C09"], ghost={"k": "int"},
         requires=["0 <= k"],
         ensures={"what was there is kept": f"implies(k < len(old({_CH})), k < len({_CH}) and {_CH}[k] is old({_CH})[k])",
                  "an excluded member is not added": f"implies(len(old({_CH})) <= k and k < len({_CH}), isinstance({_CH}[k], AdaptedClassMember) and not member_excluded(self.options, {_CN}, {_CH}[k]._cpp_element))",
                  "at most the members which are not excluded": f"len({_CH}) <= len(old({_CH})) + n_not_excluded(self.options, {_CN}, cpp_decl_statement.cpp_decls, len(cpp_decl_statement.cpp_decls))"},
         loops={0: Loop(inv=["self._cpp_element is old(self._cpp_element)", f"implies(k < len(old({_CH})), k < len({_CH}) and {_CH}[k] is old({_CH})[k])",
                             f"implies(len(old({_CH})) <= k and k < len({_CH}), isinstance({_CH}[k], AdaptedClassMember) and not member_excluded(self.options, {_CN}, {_CH}[k]._cpp_element))",
                             f"len({_CH}) <= len(old({_CH})) + n_not_excluded(self.options, {_CN}, _seq, _i)"])},
         modifies=["*.adapted_public_children", "*._cpp_element", "*.class_parent"])
contract(AC + "AdaptedClass._init_add_adopted_class_function", ["C09"],
         ensures={"published unless a rule excludes it": f"(len({_CH}) == len(old({_CH})) + 1) == (publishable(self.options, cpp_function_decl, False) and not matches9(self.options.member_exclude_by_name_and_class__regex.get(self._cpp_element.class_name, ''), cpp_function_decl.function_name))",
                  "else nothing is added": f"implies(len({_CH}) != len(old({_CH})) + 1, {_CH} == old({_CH}))"},
         modifies=["*.adapted_public_children", "*._cpp_element"])

# ------------------------------------------------------------ parameters left out of the signature
EP = "litgen.internal.adapt_function_params._adapt_exclude_params:"
LA = "litgen.internal.adapt_function_params._lambda_adapter:"
PAR = "srcmlcpp.cpp_types.functions.cpp_parameter:CppParameter."
schema("AdaptedFunction", cpp_adapted_function="CppFunctionDecl")
schema("LambdaAdapter", lambda_name="str", lambda_input_code="str", lambda_output_code="str", lambda_template_end="Optional[str]", adapted_cpp_parameter_list="list[str]", new_function_infos="Optional[CppFunctionDecl]")
contract(PAR + "default_value", ["C09", "C10"], returns="str", trusted=True, pure=True, reason=_R)
contract(PAR + "has_default_value", ["C09", "C10"], returns="bool", trusted=True, pure=True, reason=_R)
default_value = real(PAR + "default_value")
has_default = real(PAR + "has_default_value")


@spec
def param_excluded(o: "LitgenOptions", p: "CppParameter") -> bool:
    """left out: it has a default value, and a rule excludes it"""
    return has_default(p) and (matches9(o.fn_params_exclude_names__regex, p.decl.decl_name) or matches9(o.fn_params_exclude_types__regex, code_of(p.decl.cpp_type)))


@spec
def kept_params(o: "LitgenOptions", ps: "list[CppParameter]", k: int) -> "list[CppParameter]":
    if k <= 0:
        return []
    if param_excluded(o, ps[k - 1]):
        return kept_params(o, ps, k - 1)
    return kept_params(o, ps, k - 1) + [ps[k - 1]]


@spec
def call_args(o: "LitgenOptions", ps: "list[CppParameter]", k: int) -> "list[str]":
    """what is given to the C++ function for its first k parameters"""
    if k <= 0:
        return []
    if param_excluded(o, ps[k - 1]):
        return call_args(o, ps, k - 1) + [default_value(ps[k - 1])]
    return call_args(o, ps, k - 1) + [ps[k - 1].decl.decl_name]


@spec
def some_excluded(o: "LitgenOptions", ps: "list[CppParameter]", k: int) -> bool:
    if k <= 0:
        return False
    return some_excluded(o, ps, k - 1) or param_excluded(o, ps[k - 1])


lemma("some_excluded_mono", ["C09"], {"o": "LitgenOptions", "ps": "list[CppParameter]", "k": "int", "n": "int"}, ["0 <= k", "k <= n", "some_excluded(o, ps, k)"], ["some_excluded(o, ps, n)"],
      ih=["some_excluded_mono(o, ps, k, n - 1)"], measure="n")
_PS = "adapted_function.cpp_adapted_function.parameter_list.parameters"
_OP = "adapted_function.options"
contract(EP + "adapt_exclude_params", ["C09", "C10"],
         ensures={"an adapter when a parameter is left out": f"(result is not None) == some_excluded({_OP}, old({_PS}), len(old({_PS})))",
                  "the signature keeps the other parameters, in order": f"implies(result is not None, result.new_function_infos.parameter_list.parameters == kept_params({_OP}, old({_PS}), len(old({_PS}))))",
                  "the C++ function receives every argument, in order": f"implies(result is not None, result.adapted_cpp_parameter_list == call_args({_OP}, old({_PS}), len(old({_PS}))))",
                  "the original function is not changed": f"{_PS} == old({_PS})"},
         loops={0: Loop(inv=[f"new_function_params == kept_params({_OP}, _seq, _i)", f"lambda_adapter.adapted_cpp_parameter_list == call_args({_OP}, _seq, _i)", f"{_PS} == old({_PS})", "_seq == " + f"old({_PS})"],
                        types={"new_function_params": "list[CppParameter]"}),
                "needs_adapt:0": Loop(inv=[f"not some_excluded({_OP}, _seq, _i)"], use=[f"some_excluded_mono({_OP}, _seq, _i + 1, len(_seq))"])},
         modifies=["*.new_function_infos", "*.adapted_cpp_parameter_list", "*._parameters", "*.lambda_name"])

# ------------------------------------------------------------ elements of a namespace or of the file
AB = "litgen.internal.adapted_types.adapted_block:"
AT = "litgen.internal.adapted_types."
schema("AdaptedBlock", _cpp_element="CppBlock", adapted_elements="list[AdaptedElement]", options="LitgenOptions", lg_context="LitgenContext")
schema("CppDefine", macro_name="str", macro_value="str")
for _m, _c, _p, _t in (("adapted_comment", "AdaptedEmptyLine", "cpp_empty_line", "CppEmptyLine"), ("adapted_comment", "AdaptedComment", "cpp_comment", "CppComment"),
                       ("adapted_condition_macro", "AdaptedConditionMacro", "cpp_condition_macro", "CppConditionMacro"), ("adapted_class", "AdaptedClass", "class_", "CppStruct"),
                       ("adapted_define", "AdaptedDefine", "cpp_define", "CppDefine"), ("adapted_enum", "AdaptedEnum", "enum_", "CppEnum"),
                       ("adapted_namespace", "AdaptedNamespace", "namespace_", "CppNamespace"), ("adapted_decl", "AdaptedGlobalDecl", "decl", "CppDecl")):
    schema(_c, _cpp_element=_t)
    contract(AT + f"{_m}:{_c}.__init__", ["C09"], params={"lg_context": "LitgenContext", _p: _t}, returns="None", trusted=True, ensures={"holds the declaration": f"self._cpp_element is {_p}"},
             modifies=["self._cpp_element"], reason="AdaptedElement.__init__ stores the declaration")
contract(AF + "register_in_python_scope", ["C09"], returns="None", trusted=True, reason="records names")
contract(AB + "AdaptedBlock._is_function_overloaded", ["C09"], returns="bool", trusted=True, pure=True, reason=_R)
contract(AT + "adapted_define:AdaptedDefine.is_publishable", ["C09"], params={"cpp_define": "CppDefine"}, returns="bool", trusted=True, pure=True, reason="whether the value of a macro can be translated")


@spec
def element_allowed(o: "LitgenOptions", e: "AdaptedElement") -> bool:
    """no rule excludes the declaration that this element stands for"""
    if isinstance(e, AdaptedClass):
        return not matches9(o.class_exclude_by_name__regex, e._cpp_element.class_name)
    if isinstance(e, AdaptedEnum):
        return not matches9(o.enum_exclude_by_name__regex, e._cpp_element.enum_name) and e._cpp_element.enum_name != ""
    if isinstance(e, AdaptedNamespace):
        return not matches9(o.namespace_exclude__regex, e._cpp_element.ns_name) and e._cpp_element.ns_name != ""
    if isinstance(e, AdaptedDefine):
        return matches9(o.macro_define_include_by_name__regex, e._cpp_element.macro_name)
    if isinstance(e, AdaptedGlobalDecl):
        return matches9(o.globals_vars_include_by_name__regex, e._cpp_element.decl_name)
    return True


_AE = "self.adapted_elements"
_OK = f"implies(len(old({_AE})) <= k and k < len({_AE}), element_allowed(self.options, {_AE}[k]))"
contract(AB + "AdaptedBlock._fill_adapted_elements", ["C09"], ghost={"k": "int"}, requires=["0 <= k"],
         ensures={"nothing that a rule excludes is published": _OK},
         loops={0: Loop(inv=[_OK, f"len(old({_AE})) <= len({_AE})"]), 1: Loop(inv=[_OK, f"len(old({_AE})) <= len({_AE})"])},
         modifies=["*.adapted_elements", "*._cpp_element"] + ["*." + f for f in ("template_specialization", "cpp_adapter_code", "lambda_to_call", "return_value_policy", "is_overloaded", "is_template_overload", "stub_overloaded_names", "is_type_ignore",
                                                                               "is_vectorize_impl", "has_adapted_template_buffer")])      # of the new elements
