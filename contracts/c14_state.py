"""C14: contracts on the state of a generation: a new context has no history, a file adds its own code only, temporary changes of the options are undone."""
from __future__ import annotations
from pyvc.api import contract, spec, real, schema, Loop, implies

CTX14 = "litgen.internal.context.litgen_context:LitgenContext."
GEN14 = "litgen.litgen_generator:LitgenGenerator."
NT14 = "litgen.internal.context.namespaces_code_tree:NamespacesCodeTree."
schema("SrcmlcppOptions", flag_show_progress="bool")
schema("LitgenOptions", srcmlcpp_options="SrcmlcppOptions", comments_exclude="bool")
schema("LitgenContext", encountered_cpp_boxed_types="set[str]", encountered_cpp_enums="list[CppEnum]", protected_methods_glue_code="str", virtual_methods_glue_code="str", current_parsed_filename="str",
       _scoped_replacements="dict[str, ReplacementsCache]", scope_members="dict[str, ScopeMembers]", _python_scope_functions="dict[str, list[AdaptedFunction]]")
schema("LitgenGenerator", lg_context="LitgenContext", _generated_codes="list[_GeneratedCode]", omit_boxed_types="bool")
schema("_GeneratedCode", source_filename="str", pydef_code="str", stub_code="str")
schema("ReplacementsCache", replacement_list="RegexReplacementList")

_TREE = ["*._namespace_code", "*._sub_namespaces_code", "*._created_namespaces", "*._code_type", "*._options", "*._namespace_code_intro", "*._namespace_code_outro"]
contract(NT14 + "__init__", ["C14"], returns="None",
         ensures={"no code": "self._namespace_code == ''", "no namespace": "s2 not in self._created_namespaces", "no submodule": "s2 not in self._sub_namespaces_code", "the options of the generation": "self._options is options",
                  "for one of both outputs": "self._code_type == code_type"}, ghost={"s2": "str"},
         modifies=["self._namespace_code", "self._sub_namespaces_code", "self._created_namespaces", "self._code_type", "self._options", "self._namespace_code_intro", "self._namespace_code_outro"])
contract(CTX14 + "clear_namespaces_code_tree", ["C14"], returns="None",
         ensures={"no code is left for the next file": "self.namespaces_stub._namespace_code == '' and self.namespaces_pydef._namespace_code == ''"},
         modifies=["self.namespaces_stub", "self.namespaces_pydef"])
contract(CTX14 + "clear_python_scope_functions", ["C14"], returns="None", ghost={"s2": "str"},
         ensures={"no function is left for the next file": "s2 not in self._python_scope_functions"}, modifies=["self._python_scope_functions"])
contract(CTX14 + "__init__", ["C14"], returns="None", ghost={"s2": "str"},
         ensures={"the options are those given": "self.options is options",
                  "no boxed type": "s2 not in self.encountered_cpp_boxed_types",
                  "no enum": "len(self.encountered_cpp_enums) == 0",
                  "no replacement": "s2 not in self._scoped_replacements",
                  "no member": "s2 not in self.scope_members",
                  "no function": "s2 not in self._python_scope_functions",
                  "no namespace": "s2 not in self._namespace_names",
                  "no custom code": "(s2, True) not in self._emitted_custom_codes and (s2, False) not in self._emitted_custom_codes",
                  "no code": "self.namespaces_stub._namespace_code == '' and self.namespaces_pydef._namespace_code == ''"},
         modifies=["self.options", "self.encountered_cpp_boxed_types", "self.encountered_cpp_enums", "self.namespaces_stub", "self.namespaces_pydef", "self._scoped_replacements", "self.scope_members",
                   "self._namespace_names", "self._python_scope_functions", "self._emitted_custom_codes"])
contract(GEN14 + "__init__", ["C14"], returns="None",
         ensures={"no code": "len(self._generated_codes) == 0", "the options are those given": "self.lg_context.options is options"},
         modifies=["self.lg_context", "self._generated_codes", "self.omit_boxed_types"])

# a temporary change of the options is undone, also when the parser fails
contract("srcmlcpp.srcmlcpp_main:code_to_cpp_unit", ["C14"], params={"options": "SrcmlcppOptions", "code": "Optional[str]", "filename": "Optional[str]"}, returns="CppUnit", trusted=True, raises={"SrcmlcppException": "True", "RuntimeError": "True", "FileNotFoundError": "True"},
         reason="the parser (bounded)")
contract("litgen.internal.adapted_types.adapted_class:PythonNamedConstructorHelper.named_constructor_decl.make_cpp_constructor.make_cpp_unit_quiet", ["C14"], params={"options": "LitgenOptions"}, returns="CppUnit",
         raises={"SrcmlcppException": "True", "RuntimeError": "True", "FileNotFoundError": "True"},
         always={"the options are left as they were": "options.srcmlcpp_options.flag_show_progress == old(options.srcmlcpp_options.flag_show_progress)"},
         modifies=["*.flag_show_progress"])

# a file adds its own code after the code of the earlier files, which is not changed
contract("litgen.code_to_adapted_unit:code_to_adapted_unit_in_context", ["C14"], params={"lg_context": "LitgenContext", "code": "Optional[str]", "filename": "Optional[str]"}, returns="AdaptedUnit", trusted=True, reason="parses and adapts the declarations of one file (bounded)")
_AU14 = "litgen.internal.adapted_types.adapted_unit:AdaptedUnit."
contract(_AU14 + "str_stub", ["C14"], returns="str", trusted=True, reason="the stub of the file (bounded)")
contract(_AU14 + "str_pydef", ["C14"], returns="str", trusted=True, reason="the binding code of the file (bounded)")
contract(GEN14 + "process_cpp_code", ["C14"], params={"code": "str", "filename": "str"}, returns="None", ghost={"k": "int"}, requires=["0 <= k"],
         ensures={"one more file": "len(self._generated_codes) == old(len(self._generated_codes)) + 1",
                  "after the earlier files": "implies(k < old(len(self._generated_codes)), self._generated_codes[k] is old(self._generated_codes[k]))",
                  "whose code is not changed": "implies(k < old(len(self._generated_codes)), self._generated_codes[k].stub_code == old(self._generated_codes[k].stub_code) and self._generated_codes[k].pydef_code == old(self._generated_codes[k].pydef_code))",
                  "under its name": "self._generated_codes[-1].source_filename == filename",
                  "no code of its namespaces is left for the next file": "self.lg_context.namespaces_stub._namespace_code == '' and self.lg_context.namespaces_pydef._namespace_code == ''"},
         modifies=["self._generated_codes", "*.namespaces_stub", "*.namespaces_pydef"])
