"""C08: contracts on the signature of a callable: the binding code and the stub name the same parameters, in the same order, with a default value for the same ones."""
from __future__ import annotations
from pyvc.api import contract, spec, lemma, real, schema, Loop, implies

AF08 = "litgen.internal.adapted_types.adapted_function:AdaptedFunction."
AD08 = "litgen.internal.adapted_types.adapted_decl:AdaptedDecl."
CT08 = "srcmlcpp.cpp_types.decls_types.cpp_type:CppType."
FN08 = "srcmlcpp.cpp_types.functions.cpp_function_decl:CppFunctionDecl."
schema("AdaptedDecl", _cpp_element="CppDecl", options="LitgenOptions", lg_context="LitgenContext")
schema("LitgenOptions", bind_library="BindLibraryType")
schema("CppType", typenames="list[str]", modifiers="list[str]", specifiers="list[str]")
schema("CppDecl", decl_name="str", initial_value_code="str", cpp_type="CppType")
schema("AdaptedFunction", _cpp_element="CppFunctionDecl", cpp_adapted_function="CppFunctionDecl", options="LitgenOptions", lg_context="LitgenContext", is_vectorize_impl="bool")
_X = "reads the parsed declaration"
contract("litgen.internal.cpp_to_python:var_name_to_python", ["C08"], trusted=True, pure=True, reason="verified for C05")
py_name08 = real("litgen.internal.cpp_to_python:var_name_to_python")
contract(CT08 + "is_optional", ["C08"], returns="bool", trusted=True, pure=True, reason=_X)
contract(CT08 + "str_code", ["C08"], returns="str", pure=True, trusted=True, reason=_X + ": the text of the type")
text08 = real(CT08 + "str_code")
optional08 = real(CT08 + "is_optional")
contract(FN08 + "is_constructor", ["C08"], returns="bool", trusted=True, pure=True, reason=_X)
contract(FN08 + "is_method", ["C08"], returns="bool", trusted=True, pure=True, reason=_X)
ctor08 = real(FN08 + "is_constructor")
contract("codemanip.code_utils:replace_in_string", ["C08"], params={"input_string": "str", "replacements": "dict[str, str]"}, returns="str", trusted=True, pure=True,
         ensures={"all the tokens in one pass": "implies(input_string == 'py::arg(\"{argname_python}\"){maybe_dot_none}{maybe_equal}{maybe_defaultvalue_cpp}', result == 'py::arg(\"' + replacements['argname_python'] + '\")' + replacements['maybe_dot_none'] + replacements['maybe_equal'] + replacements['maybe_defaultvalue_cpp'])",
                  "for both libraries": "implies(input_string == 'nb::arg(\"{argname_python}\"){maybe_dot_none}{maybe_equal}{maybe_defaultvalue_cpp}', result == 'nb::arg(\"' + replacements['argname_python'] + '\")' + replacements['maybe_dot_none'] + replacements['maybe_equal'] + replacements['maybe_defaultvalue_cpp'])"},
         reason="one pass of re.sub over the tokens of a template, stated for the template of a parameter")

contract(AD08 + "decl_name_python", ["C08"], returns="str", ensures={"the Python name of the variable": "result == py_name08(self.options, self._cpp_element.decl_name)"})


@spec
def pyarg_start08(o: "LitgenOptions", d: "CppDecl") -> str:
    """how the binding code names a parameter"""
    if o.bind_library == BindLibraryType.pybind11:
        return 'py::arg("' + py_name08(o, d.decl_name) + '")'
    if optional08(d.cpp_type):
        return 'nb::arg("' + py_name08(o, d.decl_name) + '").none()'
    return 'nb::arg("' + py_name08(o, d.decl_name) + '")'


contract(AD08 + "_str_pydef_as_pyarg", ["C08"], returns="str", requires=["len(self._cpp_element.cpp_type.typenames) >= 1"],
         ensures={"names the parameter": "result.startswith(pyarg_start08(self.options, self._cpp_element))",
                  "no default value where C++ has none, a default value where C++ has one": "(result == pyarg_start08(self.options, self._cpp_element)) == (self._cpp_element.initial_value_code == '')"})


@spec
def simple08(t: str) -> str:
    """the text of a type without qualifiers, with the short names of the binding libraries"""
    return t.replace("const ", "").replace("pybind11::", "py::").replace(" &", "").replace("nanobind::", "nb::")


@spec
def is_args08(p: "CppParameter") -> bool:
    return simple08(text08(p.decl.cpp_type)) == "py::args" or simple08(text08(p.decl.cpp_type)) == "nb::args"


@spec
def is_kwargs08(p: "CppParameter") -> bool:
    return simple08(text08(p.decl.cpp_type)) == "py::kwargs" or simple08(text08(p.decl.cpp_type)) == "nb::kwargs"


@spec
def named08(nanobind_ctor: bool, ps: "list[CppParameter]", k: int) -> "list[CppParameter]":
    """the parameters among the first k which have a name in Python (the first parameter of a nanobind constructor written as a function is self)"""
    if k <= 0:
        return []
    if (nanobind_ctor and k == 1 and ps[k - 1].decl.decl_name == "self") or is_args08(ps[k - 1]) or is_kwargs08(ps[k - 1]):
        return named08(nanobind_ctor, ps, k - 1)
    return named08(nanobind_ctor, ps, k - 1) + [ps[k - 1]]


contract(AF08 + "_pydef_adapt_param_if_using_inner_class", ["C08"], returns="CppParameter", trusted=True,
         ensures={"the same name": "result.decl.decl_name == param.decl.decl_name", "a default value for the same": "(result.decl.initial_value_code == '') == (param.decl.initial_value_code == '')",
                  "of the same type": "text08(result.decl.cpp_type) == text08(param.decl.cpp_type) and optional08(result.decl.cpp_type) == optional08(param.decl.cpp_type) and len(result.decl.cpp_type.typenames) == len(param.decl.cpp_type.typenames)"},
         reason="the parameter itself, or a copy of it whose default value is qualified with the class")


@spec
def typed08(ps: "list[CppParameter]", k: int) -> bool:
    """the first k parameters have a type"""
    if k <= 0:
        return True
    return len(ps[k - 1].decl.cpp_type.typenames) >= 1 and typed08(ps, k - 1)


lemma("typed08_mono", ["C08"], {"ps": "list[CppParameter]", "i": "int", "k": "int"}, ["0 <= i", "i <= k", "typed08(ps, k)"], ["typed08(ps, i)"], ih=["typed08_mono(ps, i, k - 1)"], measure="k - i")
_NC08 = "(self.options.bind_library == BindLibraryType.nanobind and ctor08(self._cpp_element))"
_P08 = "self.cpp_adapted_function.parameter_list.parameters"
contract(AF08 + "_pydef_pyarg_list", ["C08"], returns="list[str]", requires=["self.options is self.lg_context.options", f"typed08({_P08}, len({_P08}))"],
         ensures={"one per parameter which has a name in Python": f"len(result) == len(named08({_NC08}, {_P08}, len({_P08})))"},
         each=f"result[_k].startswith(pyarg_start08(self.options, named08({_NC08}, {_P08}, len({_P08}))[_k].decl)) and (result[_k] == pyarg_start08(self.options, named08({_NC08}, {_P08}, len({_P08}))[_k].decl)) == (named08({_NC08}, {_P08}, len({_P08}))[_k].decl.initial_value_code == '')",
         loops={0: Loop(types={"pyarg_strs": "list[str]"}, inv=[f"len(pyarg_strs) == len(named08({_NC08}, {_P08}, _i))",
                        f"implies(0 <= _k and _k < len(pyarg_strs), pyarg_strs[_k].startswith(pyarg_start08(self.options, named08({_NC08}, {_P08}, _i)[_k].decl)))",
                        f"implies(0 <= _k and _k < len(pyarg_strs), (pyarg_strs[_k] == pyarg_start08(self.options, named08({_NC08}, {_P08}, _i)[_k].decl)) == (named08({_NC08}, {_P08}, _i)[_k].decl.initial_value_code == ''))"], use=[f"typed08_mono({_P08}, _i + 1, len({_P08}))"])})


CP08 = "litgen.internal.cpp_to_python:"
contract("srcmlcpp.cpp_types.base.cpp_element:CppElement.cpp_scope", ["C08"], params={"include_self": "bool"}, returns="CppScope", trusted=True, pure=True, reason=_X)
contract(FN08 + "is_static_method", ["C08"], returns="bool", trusted=True, pure=True, reason=_X)
contract(FN08 + "is_operator", ["C08"], returns="bool", trusted=True, ensures={"its name starts with operator": "result == self.function_name.startswith('operator')"}, reason="verified for C18")
contract(FN08 + "operator_name", ["C08"], returns="str", trusted=True, pure=True, reason=_X)
contract(FN08 + "with_terse_types", ["C08"], params={"current_scope": "Optional[CppScope]"}, returns="CppFunctionDecl", trusted=True,
         ensures={"as many parameters": "len(result.parameter_list.parameters) == len(self.parameter_list.parameters)",
                  "the first one has the same name": "implies(len(self.parameter_list.parameters) >= 1, result.parameter_list.parameters[0].decl.decl_name == self.parameter_list.parameters[0].decl.decl_name)",
                  "typed": "typed08(result.parameter_list.parameters, len(result.parameter_list.parameters))"},
         reason="the function itself, or a copy where the names of the types and the values are shorter (C07)")
contract("codemanip.code_replacements:RegexReplacementList.apply", ["C08"], params={"s": "str"}, returns="str", trusted=True, pure=True, reason="applies regular expressions (C06)")
contract(CP08 + "type_to_python", ["C08"], params={"cpp_type_str": "str"}, returns="str", pure=True, trusted=True, reason="a function of the options and of its text (C06)")
contract(CP08 + "var_value_to_python", ["C08"], params={"default_value_cpp": "str", "cpp_scope": "Optional[CppScope]"}, returns="str", pure=True, trusted=True,
         ensures={"a value remains a value": "(result == '') == (default_value_cpp == '')"}, reason="a function of the options and of its text (C06)")
contract(CP08 + "template_args_to_python", ["C08"], params={"value": "str"}, returns="str", pure=True, trusted=True, ensures={"a value remains a value": "(result == '') == (value == '')"}, reason="(C06)")
contract(AF08 + "_add_class_hierarchy_to_python_type__fixme", ["C08"], params={"python_type": "str"}, returns="str", pure=True, trusted=True, reason="qualifies the name of an inner class (C07)")
contract(AF08 + "_stub_qualify_siblings", ["C08"], params={"python_str": "str"}, returns="str", pure=True, trusted=True, ensures={"a value remains a value": "(result == '') == (python_str == '')"}, reason="qualifies the name of an inner class (C07)")
is_method08 = real(FN08 + "is_method")
is_static08 = real(FN08 + "is_static_method")


_SELF08 = "(1 if is_method08(self._cpp_element) and not is_static08(self.cpp_adapted_function) else 0)"
_SKIP08 = f"(1 if {_NC08} and len({_P08}) >= 1 and {_P08}[0].decl.decl_name == 'self' else 0)"
contract(AF08 + "_stub_params_list_signature", ["C08"], returns="list[str]",
         ensures={"self, then one per parameter": f"len(result) == {_SELF08} + len({_P08}) - {_SKIP08}",
                  "self comes first": f"implies({_SELF08} == 1, result[0] == 'self')"},
         loops={0: Loop(types={"r": "list[str]"}, inv=[f"len(r) == _i - (1 if _i >= 1 and {_SKIP08} == 1 else 0)"], use=[f"typed08_mono(cpp_parameters, _i + 1, len({_P08}))"])})
