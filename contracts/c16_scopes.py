"""C16: contracts on the python scope of the C++ elements and on the places where code is stored."""
from __future__ import annotations
import random
from pyvc.api import contract, spec, real, schema, Loop, implies, lemma

CP16 = "litgen.internal.cpp_to_python:"
NT = "litgen.internal.context.namespaces_code_tree:NamespacesCodeTree."
CTX = "litgen.internal.context.litgen_context:LitgenContext."
AN = "litgen.internal.adapted_types.adapted_namespace:AdaptedNamespace."
_R = "reads the parsed declaration"

schema("LitgenOptions", namespaces_root="list[str]")
schema("CppScopePart", scope_type="CppScopeType", scope_name="str")
schema("CppScope", scope_parts="list[CppScopePart]", str_cpp="str", str_cpp_prefix="str")
schema("CppNamespace", ns_name="str")
schema("LitgenContext", options="LitgenOptions", namespaces_stub="NamespacesCodeTree", namespaces_pydef="NamespacesCodeTree", _emitted_custom_codes="set[tuple[str, bool]]", _namespace_names="set[str]")
schema("NamespacesCodeTree", _namespace_code="str", _sub_namespaces_code="dict[str, NamespacesCodeTree]", _created_namespaces="set[str]", _options="LitgenOptions", _code_type="PydefOrStub", _namespace_code_intro="str", _namespace_code_outro="str")

contract("srcmlcpp.cpp_types.base.cpp_element:CppElement.cpp_scope", ["C16"], params={"include_self": "bool"}, returns="CppScope", trusted=True, pure=True, reason=_R)
contract("srcmlcpp.cpp_types.scope.cpp_scope:CppScope.__init__", ["C16"], returns="None", trusted=True, ensures={"holds the parts": "self.scope_parts == scopes"},
         modifies=["self.scope_parts"], reason="the other fields are derived from the parts")
scope_of = real("srcmlcpp.cpp_types.base.cpp_element:CppElement.cpp_scope")


@spec
def kept_parts(parts: "list[CppScopePart]", roots: "list[str]", k: int) -> "list[CppScopePart]":
    """the first k parts without the root namespaces"""
    if k <= 0:
        return []
    if parts[k - 1].scope_type == CppScopeType.Namespace and parts[k - 1].scope_name in roots:
        return kept_parts(parts, roots, k - 1)
    return kept_parts(parts, roots, k - 1) + [parts[k - 1]]


_P = "scope_of(cpp_element, include_self).scope_parts"
contract(CP16 + "cpp_scope_to_pybind_scope", ["C16"],
         ensures={"the scope without the root namespaces, whatever their place": f"result.scope_parts == kept_parts({_P}, options.namespaces_root, len({_P}))"},
         loops={0: Loop(inv=["scope_parts_excluding_namespaces == kept_parts(_seq, options.namespaces_root, _i)",
                             "implies(not is_python_scope_different_from_cpp, scope_parts_excluding_namespaces == _seq[:_i])"],
                        types={"scope_parts_excluding_namespaces": "list[CppScopePart]"})})
pybind_scope = real(CP16 + "cpp_scope_to_pybind_scope")


@spec
def part_name(part: "CppScopePart") -> str:
    """the name of the C++ variable of a scope tells its kind"""
    if part.scope_type == CppScopeType.ClassOrStruct:
        return "Class" + part.scope_name
    if part.scope_type == CppScopeType.Namespace:
        return "Ns" + part.scope_name
    if part.scope_type == CppScopeType.Enum:
        return "Enum" + part.scope_name
    return part.scope_name


contract(CP16 + "_scope_part_name", ["C16"], ensures={"kind and name": "result == part_name(scope_part)"})


@spec
def kept_names(parts: "list[CppScopePart]", roots: "list[str]", k: int) -> str:
    """variable name made of the first k parts, without the root namespaces"""
    if k <= 0:
        return ""
    if parts[k - 1].scope_type == CppScopeType.Namespace and parts[k - 1].scope_name in roots:
        return kept_names(parts, roots, k - 1)
    if len(kept_parts(parts, roots, k - 1)) == 0:
        return part_name(parts[k - 1])
    return kept_names(parts, roots, k - 1) + "_" + part_name(parts[k - 1])


_PP = "scope_of(cpp_element, False).scope_parts"
contract(CP16 + "cpp_scope_to_pybind_parent_var_name", ["C16"],
         ensures={"the module when every enclosing scope is a root namespace": f"implies(len(kept_parts({_PP}, options.namespaces_root, len({_PP}))) == 0, result == 'm')",
                  "else a variable of its own": f"implies(len(kept_parts({_PP}, options.namespaces_root, len({_PP}))) > 0, result.startswith('py'))"})

# ------------------------------------------------------------ code that is emitted once
contract(CTX + "shall_emit_custom_code", ["C16"], ghost={"s2": "str", "b2": "bool"},
         ensures={"only if it was not emitted before": "result == ((qualified_scope, is_pydef) not in old(self._emitted_custom_codes))",
                  "the other custom codes are not affected": "implies(s2 != qualified_scope or b2 != is_pydef, ((s2, b2) in self._emitted_custom_codes) == ((s2, b2) in old(self._emitted_custom_codes)))",
                  "and never again": "(qualified_scope, is_pydef) in self._emitted_custom_codes"},
         modifies=["self._emitted_custom_codes"])
contract(CTX + "register_namespace_name", ["C16"], ensures={"the name is known": "namespace_name in self._namespace_names"}, modifies=["self._namespace_names"])
contract(NT + "was_namespace_created", ["C16"], ensures={"created before": "result == (qualified_namespace_name in self._created_namespaces)"})
contract(NT + "register_namespace_creation", ["C16"], ensures={"created from now on": "qualified_namespace_name in self._created_namespaces"}, modifies=["self._created_namespaces"])
was_created = real(NT + "was_namespace_created")

contract(NT + "store_code", ["C16"], params={"qualified_namespace_name": "str", "code": "str"}, returns="None", trusted=True, effect="stored", reason="the tree of the namespaces (evaluated end to end: bounded)")
contract(CP16 + "docstring_lines", ["C16"], returns="list[str]", trusted=True, pure=True, reason="the comments (C12)")
contract("litgen.internal.adapted_types.adapted_block:AdaptedBlock.stub_lines", ["C16"], returns="list[str]", trusted=True, pure=True, reason="the content of the namespace")
contract("litgen.internal.adapted_types.adapted_block:AdaptedBlock.pydef_lines", ["C16"], returns="list[str]", trusted=True, pure=True, reason="the content of the namespace")

CB = "litgen.internal.custom_bindings:CustomBindings."
contract(CB + "_pub_make_submodule_custom_code", ["C16"], params={"qualified_class_name": "str", "pydef_submodule_var_name": "str", "is_pydef": "bool"}, returns="Optional[str]", trusted=True, pure=True,
         reason="what the user registered (evaluated end to end: bounded)")
contract(AN + "pydef_submodule_cpp_var", ["C16"], returns="str", trusted=True, pure=True, reason="name of the variable of the submodule")
contract("srcmlcpp.cpp_types.base.cpp_element:CppElement.cpp_scope_str", ["C16"], params={"include_self": "bool"}, returns="str", trusted=True, pure=True, reason=_R)
schema("AdaptedNamespace", _cpp_element="CppNamespace", adapted_block="AdaptedBlock")
schema("LitgenOptions", custom_bindings="CustomBindings")
scope_str16 = real("srcmlcpp.cpp_types.base.cpp_element:CppElement.cpp_scope_str")
custom_code = real(CB + "_pub_make_submodule_custom_code")
submodule_var = real(AN + "pydef_submodule_cpp_var")
_NS = "self._cpp_element"
_QN = f"scope_str16({_NS}, True)"
_CODE = f"custom_code(self.options.custom_bindings, {_QN}, submodule_var(self), is_pydef)"
contract(AN + "flag_shall_create_namespace_as_module", ["C16"],
         ensures={"a submodule unless it is a root namespace": f"result == ({_NS}.ns_name not in self.options.namespaces_root)"})
contract(AN + "_custom_code_lines", ["C16"],
         ensures={"the custom code of the namespace, once": f"implies({_CODE} is not None and ({_QN}, is_pydef) not in old(self.lg_context._emitted_custom_codes), result == {_CODE}.splitlines())",
                  "and not twice": f"implies(({_QN}, is_pydef) in old(self.lg_context._emitted_custom_codes), result == [])",
                  "nothing when there is none": f"implies({_CODE} is None, result == [])",
                  "it is not emitted again": f"implies({_CODE} is not None, ({_QN}, is_pydef) in self.lg_context._emitted_custom_codes)",
                  "no code is not recorded": f"implies({_CODE} is None, self.lg_context._emitted_custom_codes == old(self.lg_context._emitted_custom_codes))"},
         modifies=["*._emitted_custom_codes"])
contract(AN + "_qualified_submodule_name", ["C16"], returns="str", trusted=True, pure=True, reason="the names of the scope of cpp_scope_to_pybind_scope")
submodule_name = real(AN + "_qualified_submodule_name")
contract(CP16 + "namespace_name_to_python", ["C16"], trusted=True, pure=True, reason="verified for C05")
contract(AN + "_stub_class_as_ns_creation_code", ["C16"],
         ensures={"the proxy class is opened the first time only": "implies(submodule_name(self) in old(self.lg_context.namespaces_stub._created_namespaces), result == [])",
                  "and the first time": "implies(submodule_name(self) not in old(self.lg_context.namespaces_stub._created_namespaces), len(result) > 0)",
                  "it is known from then on": "submodule_name(self) in self.lg_context.namespaces_stub._created_namespaces"},
         hide=["codemanip.code_utils:unindent_code"],
         modifies=["*._created_namespaces"])
contract(AN + "_pydef_def_submodule_code", ["C16"], returns="list[str]", trusted=True, modifies=["*._created_namespaces"], reason="the definition of the submodule (text)")
contract("litgen.options:LitgenOptions._indent_python_spaces", ["C16"], returns="str", trusted=True, pure=True, reason="spaces")
contract("litgen.options:LitgenOptions._indent_cpp_spaces", ["C16"], returns="str", trusted=True, pure=True, reason="spaces")
_STORED = {"the content of a namespace goes to the code of that namespace, once": f"implies({_NS}.ns_name not in self.options.namespaces_root, n_stored == 1 and stored_qualified_namespace_name == {_QN} and result == [])",
           "the content of a root namespace is not stored: it stays in the enclosing module": f"implies({_NS}.ns_name in self.options.namespaces_root, n_stored == 0)"}
content_stub = real("litgen.internal.adapted_types.adapted_block:AdaptedBlock.stub_lines")
content_pydef = real("litgen.internal.adapted_types.adapted_block:AdaptedBlock.pydef_lines")
contract(AN + "stub_lines", ["C16"],
         ensures={**_STORED, "a root namespace shows its content": f"implies({_NS}.ns_name in self.options.namespaces_root, result[:len(content_stub(self.adapted_block))] == content_stub(self.adapted_block))"},
         modifies=["*._emitted_custom_codes", "*._created_namespaces"])
contract(AN + "pydef_lines", ["C16"],
         ensures={**_STORED, "a root namespace binds its content": f"implies({_NS}.ns_name in self.options.namespaces_root, result[:len(content_pydef(self.adapted_block))] == content_pydef(self.adapted_block))"},
         modifies=["*._emitted_custom_codes", "*._created_namespaces"])
