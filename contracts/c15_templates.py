"""C15: contracts on which template instantiations are bound, and under which name."""
from __future__ import annotations
from pyvc.api import contract, spec, real, schema, Loop, implies, lemma

TP = "litgen.internal.template_options:"
SP = TP + "_TemplateSpecializationSpec."
CT = "srcmlcpp.cpp_types.decls_types.cpp_type:CppType."

schema("CppType", typenames="list[str]", specifiers="list[str]", modifiers="list[str]")
schema("CppTypeSynonym", synonym_name="str", synonym_target="str")
schema("_TemplateSpecializationSpec", name_regex="str", cpp_types_list="list[CppType]", add_suffix_to_function_name="bool", cpp_types_synonyms="list[CppTypeSynonym]")
schema("TemplateSpecList", specs="list[_TemplateSpecializationSpec]")
schema("TemplateClassOptions", specs="list[_TemplateSpecializationSpec]")
schema("TemplateFunctionsOptions", specs="list[_TemplateSpecializationSpec]")

matches15 = real("codemanip.code_utils:does_match_regex_or_matcher")
code15 = real(CT + "str_code")

# ------------------------------------------------------------ reading a template type
contract(CT + "is_template", ["C15"], ensures={"has arguments": "result == ('<' in ' '.join(self.typenames) and '>' in ' '.join(self.typenames))"})


@spec
def tpl_name(t: "CppType") -> str:
    """the text before the first bracket"""
    return " ".join(t.typenames)[: " ".join(t.typenames).find("<")]


contract(CT + "template_name", ["C15"], returns="Optional[str]",
         ensures={"only a template type has a template name": "(result is None) == (not ('<' in ' '.join(self.typenames) and '>' in ' '.join(self.typenames)))",
                  "the text before its arguments": "implies(result is not None, result == tpl_name(self))"})
contract(CT + "template_instantiated_unique_type", ["C15"], returns="Optional[CppType]", pure=True, trusted=True, reason="parses the text of the argument with srcML")
contract("srcmlcpp.cpp_types.base.cpp_element:CppElement.emit_warning", ["C15"], params={"message": "str"}, returns="None", trusted=True, reason="prints on stderr")

# ------------------------------------------------------------ comparing types
contract(TP + "_same_type_or_scope_omitted", ["C15"], returns="bool",
         ensures={"whole names": "result == (type_a == type_b or type_a.endswith('::' + type_b) or type_b.endswith('::' + type_a))"})
same_type = real(TP + "_same_type_or_scope_omitted")


@spec
def some_requested(ts: "list[CppType]", code: str, k: int) -> bool:
    """one of the first k requested types is this type, its scope being possibly omitted"""
    if k <= 0:
        return False
    return some_requested(ts, code, k - 1) or (code == code15(ts[k - 1]) or code.endswith("::" + code15(ts[k - 1])) or code15(ts[k - 1]).endswith("::" + code))


@spec
def some_synonym(ss: "list[CppTypeSynonym]", code: str, k: int) -> bool:
    """one of the first k synonyms is this type"""
    if k <= 0:
        return False
    return some_synonym(ss, code, k - 1) or code == ss[k - 1].synonym_name


lemma("some_requested_mono", ["C15"], {"ts": "list[CppType]", "c": "str", "k": "int", "n": "int"}, ["0 <= k", "k <= n", "some_requested(ts, c, k)"], ["some_requested(ts, c, n)"],
      ih=["some_requested_mono(ts, c, k, n - 1)"], measure="n")

contract(SP + "handled_type_instantiation", ["C15"], pure=True, params={"cpp_type": "CppType"}, returns="Optional[str]",
         ensures={"designates the type": "implies(result is not None, result == code15(cpp_type) or result.endswith('::' + code15(cpp_type)) or code15(cpp_type).endswith('::' + result))",
                  "exactly the requested types": "(result is not None) == some_requested(self.cpp_types_list, code15(cpp_type), len(self.cpp_types_list))"},
         loops={0: Loop(inv=["not some_requested(self.cpp_types_list, code15(cpp_type), _i)", "len(_seq) == len(self.cpp_types_list)"], use=["some_requested_mono(self.cpp_types_list, code15(cpp_type), _i + 1, len(self.cpp_types_list))"])},
         use=["some_requested_mono(self.cpp_types_list, code15(cpp_type), _in_0 + 1, len(self.cpp_types_list))"])
handled15 = real(SP + "handled_type_instantiation")
contract(SP + "handles_type_instantiation", ["C15"], params={"cpp_type": "CppType"}, returns="bool",
         ensures={"handled types": "result == (handled15(self, cpp_type) is not None)"})
contract(SP + "handles_type_synonym", ["C15"], params={"cpp_type": "CppType"}, returns="bool",
         ensures={"one of the synonyms": "result == some_synonym(self.cpp_types_synonyms, code15(cpp_type), len(self.cpp_types_synonyms))"},
         loops={0: Loop(inv=["r == some_synonym(self.cpp_types_synonyms, code15(cpp_type), _i)"])})
synonym15 = real(SP + "handles_type_synonym")
unique15 = real(CT + "template_instantiated_unique_type")

# ------------------------------------------------------------ one specification
contract(SP + "matches_template_name", ["C15"], returns="bool", ensures={"by its regular expression": "result == matches15(self.name_regex, template_name)"})
contract(SP + "matches_template_type_name", ["C15"], pure=True, returns="bool",
         ensures={"the name or its last part": "result == (matches15(self.name_regex, template_name) or matches15(self.name_regex, template_name.split('::')[-1]))"})
type_name_matches = real(SP + "matches_template_type_name")


@spec
def is_tpl(t: "CppType") -> bool:
    return "<" in " ".join(t.typenames) and ">" in " ".join(t.typenames)


@spec
def requested(s: "_TemplateSpecializationSpec", t: "CppType") -> bool:
    """its unique argument is one of the requested types"""
    return unique15(t) is not None and handled15(s, unique15(t)) is not None


@spec
def requested_synonym(s: "_TemplateSpecializationSpec", t: "CppType") -> bool:
    """its unique argument is one of the synonyms"""
    return unique15(t) is not None and some_synonym(s.cpp_types_synonyms, code15(unique15(t)), len(s.cpp_types_synonyms))


@spec
def concerned(s: "_TemplateSpecializationSpec", t: "CppType") -> bool:
    """a template type whose name the specification matches"""
    return is_tpl(t) and type_name_matches(s, tpl_name(t))


contract(SP + "shall_specialize_type", ["C15"], returns="bool", ensures={"exactly the requested instantiations": "result == (concerned(self, cpp_type) and requested(self, cpp_type))"})
contract(SP + "shall_synonymize_type", ["C15"], returns="bool", ensures={"exactly the requested synonyms": "result == (concerned(self, cpp_type) and requested_synonym(self, cpp_type))"})
contract(SP + "shall_exclude_type", ["C15", "C09"], returns="bool",
         ensures={"exactly the instantiations which are not requested": "result == (concerned(self, cpp_type) and not requested(self, cpp_type) and not requested_synonym(self, cpp_type))"})


# ------------------------------------------------------------ all the specifications: the last one that matches applies
TL = TP + "TemplateSpecList."


@spec
def last_match(ss: "list[_TemplateSpecializationSpec]", name: str, k: int) -> int:
    """the index of the last of the first k specifications that matches this name, or -1"""
    if k <= 0:
        return -1
    if type_name_matches(ss[k - 1], name):
        return k - 1
    return last_match(ss, name, k - 1)


_LM = "last_match(self.specs, tpl_name(cpp_type), len(self.specs))"
contract(TL + "_spec_for_type", ["C15"], returns="Optional[_TemplateSpecializationSpec]",
         ensures={"none for a type which is not a template, or which no specification matches": f"(result is None) == (not is_tpl(cpp_type) or {_LM} < 0)",
                  "the last one that matches": f"implies(result is not None, result is self.specs[{_LM}])"},
         loops={0: Loop(inv=[f"{_LM} == last_match(self.specs, tpl_name(cpp_type), len(self.specs) - _i)", "template_name == tpl_name(cpp_type)", "_n == len(self.specs)"])}, fuel=2)
_APP = "self.specs[" + _LM + "]"
contract(TL + "shall_specialize_type", ["C15"], returns="bool", ensures={"the last specification that matches decides": f"result == (is_tpl(cpp_type) and {_LM} >= 0 and concerned({_APP}, cpp_type) and requested({_APP}, cpp_type))"})
contract(TL + "shall_synonymize_type", ["C15"], returns="bool", ensures={"the last specification that matches decides": f"result == (is_tpl(cpp_type) and {_LM} >= 0 and concerned({_APP}, cpp_type) and requested_synonym({_APP}, cpp_type))"})
contract(TL + "_shall_exclude_nested_type", ["C15"], returns="bool", pure=True, trusted=True, reason="parses the arguments of the type with srcML (bounded)")
nested15 = real(TL + "_shall_exclude_nested_type")
contract(TL + "shall_exclude_type", ["C15", "C09"], returns="bool", pure=True,
         ensures={"a type which is not a template is not excluded": "implies(not is_tpl(cpp_type), not result)",
                  "a template which the last matching specification does not handle is excluded": f"implies(is_tpl(cpp_type) and {_LM} >= 0 and concerned({_APP}, cpp_type) and not requested({_APP}, cpp_type) and not requested_synonym({_APP}, cpp_type), result)",
                  "otherwise its arguments decide": f"implies(is_tpl(cpp_type) and ({_LM} < 0 or not concerned({_APP}, cpp_type) or requested({_APP}, cpp_type) or requested_synonym({_APP}, cpp_type)), result == nested15(self, cpp_type))"})

# ------------------------------------------------------------ one instantiation per requested type, in order
AF = "litgen.internal.adapted_types.adapted_function:AdaptedFunction."
AC = "litgen.internal.adapted_types.adapted_class:"
schema("AdaptedFunction", _cpp_element="CppFunctionDecl", is_overloaded="bool", is_template_overload="bool", options="LitgenOptions")
schema("LitgenOptions", fn_template_options="TemplateFunctionsOptions", class_template_options="TemplateClassOptions")


# instantiated_for is a ghost field: the type for which a function was instantiated
schema("AdaptedFunction", instantiated_for="CppType")
contract(AF + "_tpl_is_template_non_specialized", ["C15"], returns="bool", pure=True, trusted=True, reason="reads the parsed declaration")
contract(AF + "_tpl_is_one_param_template", ["C15"], returns="bool", pure=True, trusted=True, reason="reads the parsed declaration")
contract(AF + "_tpl_instantiate_template_for_type", ["C15"], params={"cpp_type": "CppType"}, returns="AdaptedFunction", trusted=True,
         ensures={"for this type": "result.instantiated_for is cpp_type", "a new function": "not (result is self)"}, reason="substitutes the type in a deep copy of the declaration (bounded)")


@spec
def last_by_name(ss: "list[_TemplateSpecializationSpec]", name: str, k: int) -> int:
    """the index of the last of the first k specifications whose rule matches this name, or -1"""
    if k <= 0:
        return -1
    if matches15(ss[k - 1].name_regex, name):
        return k - 1
    return last_by_name(ss, name, k - 1)


_FS = "self.options.fn_template_options.specs"
_FL = f"last_by_name({_FS}, self._cpp_element.function_name, len({_FS}))"
contract(AF + "_tpl_split_into_template_instantiations", ["C15"], returns="list[AdaptedFunction]", ghost={"k": "int"},
         requires=["tpl_non_specialized(self)", "0 <= k"],
         ensures={"nothing for a function which is not listed": f"implies({_FL} < 0, len(result) == 0)",
                  "one instantiation per requested type": f"implies({_FL} >= 0 and one_param(self), len(result) == len({_FS}[{_FL}].cpp_types_list))",
                  "in the order of the requests": f"implies({_FL} >= 0 and one_param(self) and k < len(result), result[k].instantiated_for is {_FS}[{_FL}].cpp_types_list[k])"},
         modifies=["*.is_overloaded", "*.is_template_overload"],
         loops={0: Loop(inv=[f"(matching_template_spec is None) == (last_by_name(_seq, self._cpp_element.function_name, _i) < 0)",
                             f"implies(matching_template_spec is not None, matching_template_spec is _seq[last_by_name(_seq, self._cpp_element.function_name, _i)])"], types={"matching_template_spec": "Optional[_TemplateSpecializationSpec]"}),
                1: Loop(types={"new_functions": "list[AdaptedFunction]"}, inv=["len(new_functions) == _i", "implies(k < _i, new_functions[k].instantiated_for is _seq[k])"])}, fuel=2)
tpl_non_specialized = real(AF + "_tpl_is_template_non_specialized")
one_param = real(AF + "_tpl_is_one_param_template")

schema("AdaptedClass", _cpp_element="CppStruct", instantiated_class_for="CppType", options="LitgenOptions")
schema("CppStruct", class_name="str")
schema("_AdaptedInstantiatedTemplateClasses", adapted_classes="list[AdaptedClass]", stubs_synonyms_code="list[str]")
contract(AC + "AdaptedClass._tpl_is_one_param_template", ["C15"], returns="bool", pure=True, trusted=True, reason="reads the parsed declaration")
contract(AC + "AdaptedClass._tpl_instantiate_template_for_type", ["C15"], params={"cpp_type": "CppType"}, returns="AdaptedClass", trusted=True,
         ensures={"for this type": "result.instantiated_class_for is cpp_type"}, reason="substitutes the type in a deep copy of the declaration (bounded)")
contract("srcmlcpp.cpp_types.template.cpp_i_template_host:CppITemplateHost.is_template_partially_specialized", ["C15"], returns="bool", pure=True, trusted=True, reason="reads the parsed declaration")
contract(TP + "_apply_template_naming", ["C15"], returns="str", pure=True, trusted=True, reason="a function of its text (bounded)")
contract("litgen.internal.cpp_to_python:_class_name_to_python", ["C15"], returns="str", pure=True, trusted=True, reason="a function of the options and of its text (verified for C05)")
contract("litgen.internal.cpp_to_python:type_to_python", ["C15"], params={"cpp_type_str": "str"}, returns="str", pure=True, trusted=True, reason="a function of the options and of its text (C06)")
_CS = "self.options.class_template_options.specs"
_CL = f"last_by_name({_CS}, self._cpp_element.class_name, len({_CS}))"
_CI = "last_by_name(_seq, self._cpp_element.class_name, _i)"
contract(AC + "AdaptedClass._tpl_split_into_template_instantiations", ["C15"], returns="_AdaptedInstantiatedTemplateClasses", ghost={"k": "int"},
         requires=["partially_specialized(self._cpp_element)", "0 <= k"],
         ensures={"nothing for a class which is not listed": f"implies({_CL} < 0, len(result.adapted_classes) == 0 and len(result.stubs_synonyms_code) == 0)",
                  "one instantiation per requested type": f"implies({_CL} >= 0 and class_one_param(self), len(result.adapted_classes) == len({_CS}[{_CL}].cpp_types_list))",
                  "in the order of the requests": f"implies({_CL} >= 0 and class_one_param(self) and k < len(result.adapted_classes), result.adapted_classes[k].instantiated_class_for is {_CS}[{_CL}].cpp_types_list[k])",
                  "one line per synonym": f"implies({_CL} >= 0 and class_one_param(self), len(result.stubs_synonyms_code) == len({_CS}[{_CL}].cpp_types_synonyms))"},
         loops={0: Loop(inv=[f"(matching_template_spec is None) == ({_CI} < 0)", f"implies(matching_template_spec is not None, matching_template_spec is _seq[{_CI}])"], types={"matching_template_spec": "Optional[_TemplateSpecializationSpec]"}),
                1: Loop(types={"new_classes": "list[AdaptedClass]"}, inv=["len(new_classes) == _i", "implies(k < _i, new_classes[k].instantiated_class_for is _seq[k])"]),
                2: Loop(types={"stubs_synonym_code": "list[str]"}, inv=["len(stubs_synonym_code) == _i"])}, fuel=2)
class_one_param = real(AC + "AdaptedClass._tpl_is_one_param_template")
partially_specialized = real("srcmlcpp.cpp_types.template.cpp_i_template_host:CppITemplateHost.is_template_partially_specialized")
