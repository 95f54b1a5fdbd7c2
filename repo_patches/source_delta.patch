From ecb03724e0fb7089cd18390f5656dbfb4b44b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 01/65] fix: reject unpaired code markers and do not re-indent
 the generated code for each region

---
 src/codemanip/code_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index cbbcc5e..24e6473 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -478,6 +478,8 @@ def write_generated_code_between_markers(
         if code_marker_in in code_line:
             if is_inside_autogen_region:
                 raise RuntimeError(f"Encountered more than one code_marker: {code_marker_in}")
+            elif code_marker_out in code_line:
+                raise RuntimeError(f"Encountered {code_marker_in} and {code_marker_out} on the same line")
             else:
                 is_inside_autogen_region = True
                 was_replacement_performed = True
@@ -486,11 +488,14 @@ def write_generated_code_between_markers(
 
                 output_code = output_code + code_line + "\n"
 
+                # Do not overwrite code_to_insert, since it will be reused if there are several regions
                 if flag_preserve_indentation:
-                    code_to_insert = indent_code(code_to_insert, indent_str=indent_str)
-
-                output_code = output_code + code_to_insert
+                    output_code = output_code + indent_code(code_to_insert, indent_str=indent_str)
+                else:
+                    output_code = output_code + code_to_insert
 
+        elif code_marker_out in code_line and not is_inside_autogen_region:
+            raise RuntimeError(f"Encountered {code_marker_out} without {code_marker_in}")
         else:
             if not is_inside_autogen_region:
                 output_code = output_code + code_line + "\n"
@@ -503,6 +508,8 @@ def write_generated_code_between_markers(
     if output_code[-1:] == "\n":
         output_code = output_code[:-1]
 
+    if is_inside_autogen_region:
+        raise RuntimeError(f"Encountered {code_marker_in} without {code_marker_out}")
     if not was_replacement_performed:
         is_python_file = inout_filename.endswith("py")
         __ = "#" if is_python_file else "//"
-- 
2.43.0


From 47932606ed2cd42f0fc7f56d60e0e19aeb3cee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 02/65] fix: bind template functions of a namespace in the
 module of that namespace

The pybind variable of a specialized function got the template suffix meant for
classes (pyNsN_int), which is never defined: the generated code did not compile.
---
 src/litgen/internal/cpp_to_python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 5dd88aa..bc0363e 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -6,7 +6,7 @@ from typing import Optional
 from codemanip import code_utils
 from codemanip.code_replacements import RegexReplacementList
 
-from srcmlcpp.cpp_types import CppDecl, CppElement, CppElementAndComment, CppEnum, CppParameter, CppComment
+from srcmlcpp.cpp_types import CppDecl, CppElement, CppElementAndComment, CppEnum, CppParameter, CppComment, CppStruct
 from srcmlcpp.cpp_types.scope.cpp_scope import CppScope, CppScopePart, CppScopeType
 from srcmlcpp.cpp_types.template.cpp_i_template_host import CppITemplateHost
 
@@ -709,7 +709,8 @@ def cpp_scope_to_pybind_var_name(options: LitgenOptions, cpp_element: CppElement
     scope_parts_strs = list(map(_scope_part_name, cpp_scope.scope_parts))
     if len(scope_parts_strs) > 0:
         r = "py" + "_".join(scope_parts_strs)
-        if isinstance(cpp_element, CppITemplateHost):
+        # (only for classes: a specialized function lives in the module of its namespace)
+        if isinstance(cpp_element, CppITemplateHost) and isinstance(cpp_element, CppStruct):
             if len(cpp_element.specialized_template_params) > 0:
                 instantiated_template_params_str = [str(param) for param in cpp_element.specialized_template_params]
                 instantiated_template_params_str = [
-- 
2.43.0


From da17c5bf066f8579976b1fc8556327e76b7048e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 03/65] fix: use the python names of the scopes of a base class
 in the stub

---
 src/litgen/internal/cpp_to_python.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index bc0363e..3ae3b5a 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -699,7 +699,14 @@ def cpp_scope_to_pybind_scope(options: LitgenOptions, cpp_element: CppElement, i
 
 def cpp_scope_to_pybind_scope_str(options: LitgenOptions, cpp_element: CppElement, include_self: bool) -> str:
     scope = cpp_scope_to_pybind_scope(options, cpp_element, include_self)
-    scope_names = [scope_part.scope_name for scope_part in scope.scope_parts]
+
+    def scope_part_name_python(scope_part: CppScopePart) -> str:
+        if scope_part.scope_type == CppScopeType.Namespace:
+            return namespace_name_to_python(options, scope_part.scope_name)
+        else:
+            return _class_name_to_python(options, scope_part.scope_name)
+
+    scope_names = [scope_part_name_python(scope_part) for scope_part in scope.scope_parts]
     r = ".".join(scope_names)
     return r
 
-- 
2.43.0


From 36b6b38fd284489b63a1682b4d5fa5e6e4e051d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 04/65] fix: expose the same (public) base classes in the stub
 and in the binding code

---
 src/litgen/internal/adapted_types/adapted_class.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 0c5429b..5184847 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -535,7 +535,9 @@ class AdaptedClass(AdaptedElement):
                 for custom_base in custom_derived:
                     parents.append(custom_base)
             else:
-                for _access_type, base_class in self.cpp_element().base_classes():
+                for access_type, base_class in self.cpp_element().base_classes():
+                    if access_type != CppAccessType.public:
+                        continue
                     class_python_scope = cpp_to_python.cpp_scope_to_pybind_scope_str(
                         self.options, base_class, include_self=True
                     )
@@ -689,7 +691,7 @@ class AdaptedClass(AdaptedElement):
             elif self.cpp_element().has_base_classes():
                 base_classes = self.cpp_element().base_classes()
                 for access_type, base_class in base_classes:
-                    if access_type == CppAccessType.public or access_type == CppAccessType.protected:
+                    if access_type == CppAccessType.public:
                         other_template_params_list.append(base_class.cpp_scope_str(include_self=True))
 
             if self.cpp_element().has_private_destructor() and options.bind_library == BindLibraryType.pybind11:
-- 
2.43.0


From c914c61646f21408dba1fd1f76e88aa2150db2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 05/65] fix: auto-generated named constructors with excluded
 parameters

---
 .../internal/adapted_types/adapted_class.py   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 5184847..223c3c2 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1415,7 +1415,12 @@ class PythonNamedConstructorHelper:
         # (we keep a backup of the original, to be able to compare)
         ctor_decl_adapted = adapted_ctor.cpp_adapted_function
 
-        if len(ctor_decl.parameter_list.parameters) == 0:
+        modified_params = ctor_decl_adapted.parameter_list.parameters
+        # Remove first "self" parameter from modified_params (may have been added by AdaptedFunction, if using nanobind)
+        if len(modified_params) > 0 and modified_params[0].decl.name() == "self":
+            modified_params = modified_params[1:]
+
+        if len(modified_params) == 0:
             py = "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb"
             return f"{_i_}.def({py}::init<>()) // implicit default constructor \n"
 
@@ -1463,16 +1468,13 @@ class PythonNamedConstructorHelper:
             )
 
             original_parameters = ctor_decl.parameter_list.parameters
-            modified_parameters = ctor_decl_adapted.parameter_list.parameters
-            # Remove first "self" parameter from modified_parameters (may have been added by AdaptedFunction, if using nanobind)
-            if len(modified_parameters) > 0 and modified_parameters[0].decl.name() == "self":
-                modified_parameters = modified_parameters[1:]
-            assert len(original_parameters) == len(modified_parameters)
+            # Some parameters may have been excluded (see options.fn_params_exclude_names__regex):
+            # the corresponding members keep their default value
+            original_params_by_name = {param.decl.name(): param for param in original_parameters}
 
             all_params_set_values_list = []
-            for i in range(len(modified_parameters)):
-                original_param = original_parameters[i]
-                modified_param = modified_parameters[i]
+            for modified_param in modified_params:
+                original_param = original_params_by_name[modified_param.decl.name()]
                 if was_mutable_param_with_default_value_made_optional(lg_context, original_param):
                     code = f"""
                     if ({modified_param.decl.name()}.has_value())
-- 
2.43.0


From fb185b037a1f5e8916709352da28194a904b0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 06/65] fix: emit pass in the stub of a class whose body holds
 only comments or empty lines

---
 src/litgen/internal/adapted_types/adapted_element.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/litgen/internal/adapted_types/adapted_element.py b/src/litgen/internal/adapted_types/adapted_element.py
index d3e1518..048aa42 100644
--- a/src/litgen/internal/adapted_types/adapted_element.py
+++ b/src/litgen/internal/adapted_types/adapted_element.py
@@ -179,6 +179,9 @@ class AdaptedElement:  # (abc.ABC):  # Cannot be abstract (mypy limitation:  htt
         all_lines = title_lines
         docstring_lines = cpp_to_python.docstring_lines(self.options, self.cpp_element())
         all_lines += docstring_lines
+        if len(docstring_lines) == 0 and all(line.strip() == "" or line.strip().startswith("#") for line in body_lines):
+            # python requires a body, which can not be made only of empty lines and comments
+            body_lines = body_lines + ["pass"]
         if len(docstring_lines) > 0 and not self.options.python_reproduce_cpp_layout and body_lines != ["pass"]:
             all_lines.append("")
 
-- 
2.43.0


From a3a83befe391a526717b6be05c7211f40147ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 07/65] fix: keep static and drop inline/virtual in the return
 type of functions whose outputs are returned

---
 .../adapt_modifiable_immutable_to_return.py                 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
index 36ccdd6..76ecf17 100644
--- a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
+++ b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
@@ -208,7 +208,7 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
             type_list = []
             name_list = []
             if not was_void_return_type:
-                type_list.append(old_function.return_type.str_code())
+                type_list.append(old_function.str_full_return_type())
                 name_list.append("r")
             for new_output_function_param in new_output_function_params:
                 type_list.append(new_output_function_param.full_type())
@@ -229,6 +229,10 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
     lambda_adapter.new_function_infos.return_type = CppType(lambda_adapter.new_function_infos.return_type)
     new_return_types, new_return_names = new_return_type_and_names()
     lambda_adapter.new_function_infos.return_type.typenames = [new_return_types]
+    # (keep the specifiers that are not part of the returned type)
+    lambda_adapter.new_function_infos.return_type.specifiers = [
+        specifier for specifier in old_function.return_type.specifiers if specifier in ["static", "virtual", "inline"]
+    ]
 
     #
     # Fill lambda_template_end
-- 
2.43.0


From f43f9c0c7ce7902a63ed530b9a919c46e128815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 08/65] fix: do not pass self to the wrappers of static
 methods, and call const overloads on const objects

---
 .../adapt_function_params/_adapt_c_buffers.py      |  2 +-
 .../adapt_modifiable_immutable_to_return.py        |  2 +-
 .../adapt_function_params/apply_all_adapters.py    |  4 ++--
 .../internal/adapted_types/adapted_function.py     | 14 ++++++++++----
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index 8724353..aa8a8c8 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -372,7 +372,7 @@ class _AdaptBuffersHelper:
             if self.adapted_function.lambda_to_call is not None:
                 function_or_lambda_to_call = self.adapted_function.lambda_to_call
             else:
-                if self.adapted_function.is_method():
+                if self.adapted_function.is_non_static_method():
                     function_or_lambda_to_call = (
                         "self." + self.adapted_function.cpp_adapted_function.function_name_with_specialization()
                     )
diff --git a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
index 76ecf17..e5764d2 100644
--- a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
+++ b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
@@ -264,7 +264,7 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
         if adapted_function.lambda_to_call is not None:
             replacements.lambda_to_call = adapted_function.lambda_to_call
         else:
-            if old_function.is_method():
+            if adapted_function.is_non_static_method():
                 replacements.lambda_to_call = "self." + old_function.function_name_with_specialization()
             else:
                 replacements.lambda_to_call = old_function.qualified_function_name_with_specialization()
diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index 63b85f2..a65d037 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -181,7 +181,7 @@ def _make_adapted_lambda_code_end(adapted_function: AdaptedFunction, lambda_adap
     if adapted_function.lambda_to_call is not None:
         function_or_lambda_to_call = adapted_function.lambda_to_call
     else:
-        if adapted_function.is_method():
+        if adapted_function.is_non_static_method():
             function_or_lambda_to_call = (
                 "self." + adapted_function.cpp_adapted_function.function_name_with_specialization()
             )
@@ -244,7 +244,7 @@ def _make_adapted_lambda_code(adapted_function: AdaptedFunction, lambda_adapter:
     _lambda_captures_list = []
     if adapted_function.lambda_to_call is not None:
         _lambda_captures_list.append("&" + adapted_function.lambda_to_call)
-    elif adapted_function.is_method():
+    elif adapted_function.is_non_static_method():
         _lambda_captures_list.append("&self")
     lambda_captures = ", ".join(_lambda_captures_list)
 
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 9152b9c..84c9ee5 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -390,6 +390,9 @@ class AdaptedFunction(AdaptedElement):
     def is_method(self) -> bool:
         return self.cpp_element().is_method()
 
+    def is_non_static_method(self) -> bool:
+        return self.is_method() and not self.cpp_element().is_static()
+
     def is_constructor(self) -> bool:
         r = self.cpp_element().is_constructor()
         return r
@@ -485,7 +488,7 @@ class AdaptedFunction(AdaptedElement):
         template_code = "{return_or_nothing}{self_prefix}{function_to_call}({params_call_inner})"
 
         return_or_nothing = "" if self.cpp_adapted_function.returns_void() else "return "
-        self_prefix = "self." if (self.is_method() and self.lambda_to_call is None) else ""
+        self_prefix = "self." if (self.is_non_static_method() and self.lambda_to_call is None) else ""
         # fill function_to_call
         function_to_call = (
             self.lambda_to_call
@@ -643,10 +646,13 @@ class AdaptedFunction(AdaptedElement):
         )
 
         if self.is_overloaded or force_overload_in_pydef:
-            if self.is_method() and len(self.cpp_element().parameter_list.parameters) == 0:
+            if self.is_non_static_method() and len(self.cpp_element().parameter_list.parameters) == 0:
                 # overload_cast fails with 0 parameter...
                 parent_scope = self._pydef_str_parent_cpp_scope()
-                replace_tokens.function_pointer = f"[]({parent_scope} & self) {{ return self.{function_name}(); }}"
+                maybe_const = "const " if self.cpp_element().is_const() else ""
+                replace_tokens.function_pointer = (
+                    f"[]({maybe_const}{parent_scope} & self) {{ return self.{function_name}(); }}"
+                )
             else:
                 overload_types = self.cpp_element().parameter_list.str_types_only_for_overload()
                 is_const = self.cpp_element().is_const()
@@ -717,7 +723,7 @@ class AdaptedFunction(AdaptedElement):
 
         # fill params_call_with_self_if_method
         _params_list = function_infos.parameter_list.list_types_names_default_for_signature()
-        if self.is_method() and not self.is_constructor():
+        if self.is_non_static_method() and not self.is_constructor():
             _self_param = f"{self._pydef_str_parent_cpp_scope()} & self"
             if function_infos.is_const():
                 _self_param = "const " + _self_param
-- 
2.43.0


From 95ebb0e08c6a1a2cb94c98d4a2c2d12e3bef744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 09/65] fix: an exclusion pattern reduced to its leading |
 matches nothing

---
 src/codemanip/code_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 24e6473..3c7f801 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -753,7 +753,7 @@ def does_match_regex(regex_str: str, word: str) -> bool:
         does_match_regex(r"", "foo")         # False (by convention)
         does_match_regex(r".*", "foo")       # True
     """
-    if len(regex_str) == 0:
+    if word is None or regex_str in ("", "|"):
         return False
     return _compile_regex(regex_str).search(word) is not None
 
-- 
2.43.0


From 5f9114070cc6b0742aa8234350ab5f6a39e6d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 10/65] fix: match exclusions by type against the return type
 without inline, static or virtual

---
 src/litgen/internal/adapted_types/adapted_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 84c9ee5..41aefb4 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -335,7 +335,8 @@ class AdaptedFunction(AdaptedElement):
         # Check options.fn_exclude_by_param_type__regex
         reg = options.fn_exclude_by_param_type__regex
         if hasattr(cpp_function, "return_type"):
-            if code_utils.does_match_regex_or_matcher(reg, cpp_function.return_type.str_code()):
+            # (inline, static and virtual are not part of the return type)
+            if code_utils.does_match_regex_or_matcher(reg, cpp_function.return_type.str_return_type()):
                 return False
         for param in cpp_function.parameter_list.parameters:
             if code_utils.does_match_regex_or_matcher(reg, param.decl.cpp_type.str_code()):
-- 
2.43.0


From 31fc6ee665ab8703513812d718b8803dc7cff889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 11/65] fix: translate only whole tokens, outside of string
 literals, in python types and default values

---
 src/litgen/internal/cpp_to_python.py | 63 +++++++++++++++++++---------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 3ae3b5a..c0a166f 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import keyword
+import re
 from dataclasses import dataclass  # noqa
 from typing import Optional
 
@@ -87,7 +88,6 @@ def _split_cpp_type_template_args(s: str) -> list[str]:
 
 def _perform_cpp_type_replacements_recursively(cpp_type_str: str, type_replacements: RegexReplacementList) -> str:
     # Preprocessing: Remove 'const', '&', and '*' tokens
-    import re
 
     if "<" not in cpp_type_str:
         return type_replacements.apply(cpp_type_str)
@@ -152,6 +152,21 @@ def _strip_callable_param_names(python_type: str) -> str:
     return re.sub(r"Callable\[\[([^\]]*)\]", _replace_callable_params, python_type)
 
 
+def _translate_known_namespaces(lg_context: LitgenContext, s: str) -> str:
+    """Translate the names of the known namespaces (as whole tokens), and omit the root namespaces"""
+    options = lg_context.options
+
+    translations = {name: "" for name in options.namespaces_root}
+    for cpp_namespace_name in lg_context.unqualified_stub_namespaces():
+        if cpp_namespace_name not in translations:
+            translations[cpp_namespace_name] = namespace_name_to_python(options, cpp_namespace_name) + "."
+
+    if len(translations) == 0:
+        return s
+    names_regex = "|".join(re.escape(name) for name in sorted(translations))
+    return re.sub(rf"(?<!\w)({names_regex})\.", lambda m: translations[m.group(1)], s)
+
+
 def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
     options = lg_context.options
     specialized_type_python_name = options.class_template_options.specialized_type_python_name_str(
@@ -161,16 +176,13 @@ def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
         r = specialized_type_python_name
     else:
         r = cpp_type_str
-    r = r.replace("static ", "")
-    r = r.replace("constexpr ", "")
+    r = re.sub(r"\b(static|constexpr|extern)\s", "", r)
 
     r = _perform_cpp_type_replacements_recursively(r, options.type_replacements)
 
     r = r.replace("::", ".")
 
     def normalize_whitespace(s: str) -> str:
-        import re
-
         return re.sub(r"\s+", " ", s).strip()
 
     r = normalize_whitespace(r)
@@ -179,12 +191,7 @@ def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
     r = r.replace("Optional[" + " ", "Optional[")
 
     # Translate known namespaces
-    for cpp_namespace_name in lg_context.unqualified_stub_namespaces():
-        python_namespace_name = namespace_name_to_python(options, cpp_namespace_name)
-        if python_namespace_name != cpp_namespace_name:
-            r = r.replace(cpp_namespace_name + ".", python_namespace_name + ".")
-    for cpp_namespace_name in options.namespaces_root:
-        r = r.replace(cpp_namespace_name + ".", "")
+    r = _translate_known_namespaces(lg_context, r)
 
     # Strip C++ parameter names that leaked into Callable type hints.
     # E.g. `Callable[[Decorator decorator], None]` -> `Callable[[Decorator], None]`
@@ -246,17 +253,38 @@ def var_name_to_python(options: LitgenOptions, name: str) -> str:
     return r
 
 
+def _mask_string_literals(cpp_code: str) -> tuple[str, list[str]]:
+    """Replace the content of the string literals by a placeholder (their quotes are kept).
+    Returns the masked code and the contents"""
+    contents: list[str] = []
+
+    def mask(m: re.Match[str]) -> str:
+        if m.group(1) == "":
+            return m.group(0)
+        contents.append(m.group(1))
+        return f'"\x00{len(contents) - 1}\x00"'
+
+    return re.sub(r'"((?:[^"\\]|\\.)*)"', mask, cpp_code), contents
+
+
+def _unmask_string_literals(code: str, contents: list[str]) -> str:
+    return re.sub("\x00([0-9]+)\x00", lambda m: contents[int(m.group(1))], code)
+
+
 def var_value_to_python(
     lg_context: LitgenContext,
     default_value_cpp: str,
     cpp_scope: Optional[CppScope] = None,
 ) -> str:
     options = lg_context.options
-    r = default_value_cpp
+
+    # The content of the string literals shall not be translated
+    r, literals = _mask_string_literals(default_value_cpp)
+
     r = options.type_replacements.apply(r)
     r = options.value_replacements.apply(r)
     for number_macro, value in lg_context.options.srcmlcpp_options.named_number_macros.items():
-        r = r.replace(number_macro, str(value))
+        r = re.sub(rf"\b{re.escape(number_macro)}\b", str(value), r)
     r = lg_context.apply_scoped_var_value_replacements(r, cpp_scope)
 
     # If this value is a std::initializer_list, try to translate it
@@ -268,12 +296,9 @@ def var_value_to_python(
             r = f"initialized with {inner}"
 
     # Translate known namespaces
-    for cpp_namespace_name in lg_context.unqualified_stub_namespaces():
-        python_namespace_name = namespace_name_to_python(options, cpp_namespace_name)
-        if python_namespace_name != cpp_namespace_name:
-            r = r.replace(cpp_namespace_name + ".", python_namespace_name + ".")
-    for cpp_namespace_name in options.namespaces_root:
-        r = r.replace(cpp_namespace_name + ".", "")
+    r = _translate_known_namespaces(lg_context, r)
+
+    r = _unmask_string_literals(r, literals)
 
     # If this default value uses a bound template type, try to translate it
     specialized_type_python_default_value = options.class_template_options.specialized_type_python_default_value(
-- 
2.43.0


From ab0a875e87d48b9b15dd7e6585b324998d109315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 12/65] fix: generate valid code for the global variables
 without initial value

---
 .../internal/adapted_types/adapted_decl.py       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_decl.py b/src/litgen/internal/adapted_types/adapted_decl.py
index 3b7461f..110ee93 100644
--- a/src/litgen/internal/adapted_types/adapted_decl.py
+++ b/src/litgen/internal/adapted_types/adapted_decl.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import re
 import copy
 from dataclasses import dataclass
 from typing import cast
@@ -180,10 +181,13 @@ class AdaptedGlobalDecl(AdaptedDecl):
     # override
     def pydef_lines(self) -> list[str]:
         decl_name_cpp = self.decl_name_cpp()
-        decl_value_cpp = self.decl_value_cpp()
-        decl_type_cpp = self.cpp_element().cpp_type.str_code()
-        decl_type_cpp = decl_type_cpp.replace("static ", "")
-        decl_type_cpp = decl_type_cpp.replace("constexpr ", "")
+        qualified_decl = self.cpp_element().with_qualified_types()
+        decl_value_cpp = qualified_decl.initial_value_code
+        if len(decl_value_cpp) == 0:
+            # No value at the declaration site (e.g. `extern int x;`): use the variable
+            decl_value_cpp = self.cpp_element().cpp_scope(include_self=False).qualified_name(decl_name_cpp)
+        decl_type_cpp = qualified_decl.cpp_type.str_code()
+        decl_type_cpp = re.sub(r"\b(static|constexpr|extern)\s", "", decl_type_cpp)
 
         parent_cpp_module_var_name = cpp_to_python.cpp_scope_to_pybind_var_name(self.options, self.cpp_element())
         line = f'{parent_cpp_module_var_name}.attr("{decl_name_cpp}") = ({decl_type_cpp}) {decl_value_cpp};'
@@ -193,5 +197,7 @@ class AdaptedGlobalDecl(AdaptedDecl):
         decl_name_cpp = self.decl_name_cpp()
         decl_value_python = self.decl_value_python()
         decl_type_python = self.decl_type_python()
-        line = f"{decl_name_cpp}: {decl_type_python}  # = {decl_value_python}"
+        line = f"{decl_name_cpp}: {decl_type_python}"
+        if len(decl_value_python) > 0:
+            line += f"  # = {decl_value_python}"
         return [line]
-- 
2.43.0


From a3aa00c6109f24da02d5fa6a9291cced360d37f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 13/65] fix: translated names are never python keywords, and
 namespaces do not use the replacements of variables

---
 src/litgen/internal/cpp_to_python.py | 36 ++++++++++------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index c0a166f..3bd214b 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -220,37 +220,27 @@ def enum_name_to_python(options: LitgenOptions, name: str) -> str:  # noqa
     return name_with_replacements
 
 
-def function_name_to_python(options: LitgenOptions, name: str) -> str:
-    name_with_replacements = options.function_names_replacements.apply(name)
+def _name_to_python(options: LitgenOptions, name: str, replacements: RegexReplacementList) -> str:
+    r = replacements.apply(name)
     if options.python_convert_to_snake_case:
-        name_snake_case = code_utils.to_snake_case(name_with_replacements)
-        r = add_underscore_if_python_reserved_word(name_snake_case)
-    else:
-        r = add_underscore_if_python_reserved_word(name_with_replacements)
-    r = options.function_names_replacements.apply(r)
+        r = code_utils.to_snake_case(r)
+    r = add_underscore_if_python_reserved_word(r)
+    # The replacements may also be written against the python name
+    r = replacements.apply(r)
+    r = add_underscore_if_python_reserved_word(r)
     return r
 
 
+def function_name_to_python(options: LitgenOptions, name: str) -> str:
+    return _name_to_python(options, name, options.function_names_replacements)
+
+
 def namespace_name_to_python(options: LitgenOptions, name: str) -> str:
-    name_with_replacements = options.namespace_names_replacements.apply(name)
-    if options.python_convert_to_snake_case:
-        name_snake_case = code_utils.to_snake_case(name_with_replacements)
-        r = add_underscore_if_python_reserved_word(name_snake_case)
-    else:
-        r = add_underscore_if_python_reserved_word(name_with_replacements)
-    r = options.var_names_replacements.apply(r)
-    return r
+    return _name_to_python(options, name, options.namespace_names_replacements)
 
 
 def var_name_to_python(options: LitgenOptions, name: str) -> str:
-    name_with_replacements = options.var_names_replacements.apply(name)
-    if options.python_convert_to_snake_case:
-        name_snake_case = code_utils.to_snake_case(name_with_replacements)
-        r = add_underscore_if_python_reserved_word(name_snake_case)
-    else:
-        r = add_underscore_if_python_reserved_word(name_with_replacements)
-    r = options.var_names_replacements.apply(r)
-    return r
+    return _name_to_python(options, name, options.var_names_replacements)
 
 
 def _mask_string_literals(cpp_code: str) -> tuple[str, list[str]]:
-- 
2.43.0


From 6d91ae118cc2524b5fb197b32af90c52e1ea4b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 14/65] fix: values of the enumerators that follow a
 hexadecimal, octal, suffixed or computed value

---
 src/srcmlcpp/cpp_types/cpp_enum.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/cpp_enum.py b/src/srcmlcpp/cpp_types/cpp_enum.py
index e9e0f63..96c43f6 100644
--- a/src/srcmlcpp/cpp_types/cpp_enum.py
+++ b/src/srcmlcpp/cpp_types/cpp_enum.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import copy
+import re
 from dataclasses import dataclass
 from typing import Optional
 
@@ -19,6 +20,25 @@ from srcmlcpp.srcml_wrapper import SrcmlWrapper
 __all__ = ["CppEnum"]
 
 
+def _parse_cpp_integer_literal(code: str) -> Optional[int]:
+    """Value of a C++ integer literal (decimal, hexadecimal, octal or binary, possibly with a sign and a suffix),
+    or None if the code is not an integer literal"""
+    code = re.sub(r"(?<=[0-9a-fA-F])'(?=[0-9a-fA-F])", "", code.strip())  # remove digit separators
+    match = re.fullmatch(
+        r"([+-]?)\s*(0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+)(?:[uU]?(?:ll?|LL?)?|(?:ll?|LL?)[uU])", code
+    )
+    if match is None:
+        return None
+    digits = match.group(2).lower()
+    if digits.startswith("0") and digits.isdigit() and len(digits) > 1:
+        if "8" in digits or "9" in digits:
+            return None
+        value = int(digits, 8)
+    else:
+        value = int(digits, 0)
+    return -value if match.group(1) == "-" else value
+
+
 @dataclass
 class CppEnum(CppElementAndComment):
     """
@@ -104,11 +124,11 @@ class CppEnum(CppElementAndComment):
                     if last_decl is None:
                         decl_with_value.initial_value_code = "0"  # in C/C++ the first value is 0 by default
                     else:
-                        last_decl_value_str = last_decl.initial_value_code
-                        try:
-                            last_decl_value_int = int(last_decl_value_str)
+                        last_decl_value_int = _parse_cpp_integer_literal(last_decl.initial_value_code)
+                        if last_decl_value_int is not None:
                             decl_with_value.initial_value_code = str(last_decl_value_int + 1)
-                        except ValueError:
+                        else:
+                            decl_with_value.initial_value_code = last_decl.decl_name + " + 1"
                             decl.emit_warning(
                                 """
                                 Cannot parse the value of this enum element.
-- 
2.43.0


From f109b4844fce0dee62684b4bfc4a9c8d1d5d9989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 15/65] fix: only a final count item is left out of an enum

---
 src/codemanip/code_utils.py          | 3 ++-
 src/litgen/internal/cpp_to_python.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 3c7f801..c33e784 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -801,7 +801,8 @@ def make_regex_var_name_contains_word(word: str) -> str:
         rf"^{word}_",  # nb_....
         rf"_{word}$",  # _which
         rf"^{word}[A-Z][a-z_]",
-        rf"{word}[0-9]$",
+        rf"^{word}[0-9]$",
+        rf"_{word}[0-9]$",
     ]
     r = join_string_by_pipe_char(parts)
     return r
diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 3bd214b..ae9219e 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -656,8 +656,11 @@ def enum_element_is_count(options: LitgenOptions, enum: CppEnum, enum_element: C
     if not options.enum_flag_skip_count:
         return False
 
-    is_class_enum = enum.enum_type == "class"
     value_name = enum_element.decl_name
+    if value_name != enum.get_enum_decls()[-1].decl_name:
+        return False  # the count is always the last element
+
+    is_class_enum = enum.enum_type == "class"
 
     if not code_utils.does_match_regex_or_matcher(options.fn_params_buffer_size_names__regex, value_name):
         return False
-- 
2.43.0


From 81925c0dc180cad5ea270ea37bdd2fd924c8a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 16/65] fix: use the python names of the classes named by
 python keywords in types and default values

---
 src/litgen/internal/cpp_to_python.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index ae9219e..adb1b39 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -167,6 +167,20 @@ def _translate_known_namespaces(lg_context: LitgenContext, s: str) -> str:
     return re.sub(rf"(?<!\w)({names_regex})\.", lambda m: translations[m.group(1)], s)
 
 
+# Python keywords that are valid C++ identifiers
+_PYTHON_KEYWORDS_ALLOWED_IN_CPP = [
+    k for k in keyword.kwlist if k not in "and break class continue else for if not or return try while".split()
+]
+
+
+def _rename_python_keywords(lg_context: LitgenContext, cpp_code: str, keep: tuple[str, ...] = ()) -> str:
+    """Add an underscore to the C++ identifiers which are python keywords
+    (the namespaces are left alone: they are handled by _translate_known_namespaces)"""
+    namespaces = lg_context.unqualified_stub_namespaces()
+    names = [k for k in _PYTHON_KEYWORDS_ALLOWED_IN_CPP if k not in keep and k not in namespaces]
+    return re.sub(rf"\b({'|'.join(names)})\b", r"\1_", cpp_code)
+
+
 def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
     options = lg_context.options
     specialized_type_python_name = options.class_template_options.specialized_type_python_name_str(
@@ -177,6 +191,7 @@ def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
     else:
         r = cpp_type_str
     r = re.sub(r"\b(static|constexpr|extern)\s", "", r)
+    r = _rename_python_keywords(lg_context, r)
 
     r = _perform_cpp_type_replacements_recursively(r, options.type_replacements)
 
@@ -270,6 +285,7 @@ def var_value_to_python(
 
     # The content of the string literals shall not be translated
     r, literals = _mask_string_literals(default_value_cpp)
+    r = _rename_python_keywords(lg_context, r, keep=("True", "False", "None"))
 
     r = options.type_replacements.apply(r)
     r = options.value_replacements.apply(r)
-- 
2.43.0


From a900bb63ad5c80222fc9b83cfb85740fb01c31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 17/65] fix: raise when the generated glue code cannot be
 written in its own file

---
 src/litgen/litgen_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litgen/litgen_generator.py b/src/litgen/litgen_generator.py
index ee92a2d..1d104d7 100644
--- a/src/litgen/litgen_generator.py
+++ b/src/litgen/litgen_generator.py
@@ -120,7 +120,7 @@ class LitgenGenerator:
                 logging.warning(help_glue_file(output_cpp_glue_code_file))
             else:
                 logging.warning(help_stub_file(output_stub_pyi_file))
-                raise
+            raise
 
     def options(self) -> LitgenOptions:
         return self.lg_context.options
-- 
2.43.0


From 343d1d279f5972b3a6f9db194310d67f101d7852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 18/65] fix: limit the consecutive empty lines also when they
 hold different white spaces

---
 src/codemanip/code_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index c33e784..0581ea7 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -77,7 +77,7 @@ def code_set_max_consecutive_empty_lines(code: str, nb_max_empty: int) -> str:
     if nb_max_empty < 0:
         return code
 
-    lines = code.split("\n")
+    lines = shorten_lines_containing_only_spaces(code).split("\n")
     rle: list[tuple[str, int]] = run_length_encode(lines)
 
     new_lines = []
-- 
2.43.0


From 324a1f7ec7d02ee7fd9aedd6d3a28ad28436f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 19/65] fix: re-indent by the given indentation size

---
 src/codemanip/code_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 0581ea7..1c4051a 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -303,7 +303,9 @@ def unindent_code(code: str, flag_strip_empty_lines: bool = False) -> str:
     return r
 
 
-def reindent_code(code: str, indent_size: int = 4, skip_first_line: bool = False, indent_str: str = "") -> str:
+def reindent_code(
+    code: str, indent_size: int = 4, skip_first_line: bool = False, indent_str: Optional[str] = None
+) -> str:
     """change the global code indentation, but keep its inner indentation"""
     code = unindent_code(code)
     code = indent_code(
-- 
2.43.0


From 760514de8d7a29a47dc1911782980d43d1a86542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 20/65] fix: amalgamate include lines whatever their spacing,
 trailing comment or path spelling, and keep the lines that only mention
 pragma once

---
 src/codemanip/amalgamated_header.py | 47 ++++++++++++++++-------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/codemanip/amalgamated_header.py b/src/codemanip/amalgamated_header.py
index 528bb22..55020a7 100644
--- a/src/codemanip/amalgamated_header.py
+++ b/src/codemanip/amalgamated_header.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 from __future__ import annotations
 import os
+import re
 from dataclasses import dataclass
 from sys import version_info
 
@@ -96,28 +97,29 @@ def _fwrite_content(filename: str, content: str) -> None:
     f.close()
 
 
+_INCLUDE_REGEX = re.compile(r"""\s*#\s*include(\s*"(?P<quoted>[^"]*)"|\s*<(?P<angle>[^>]*)>|\s+\w)""")
+_PRAGMA_ONCE_REGEX = re.compile(r"\s*#\s*pragma\s+once\b")
+
+
 def _is_local_include_line(options: AmalgamationOptions, code_line: str) -> bool:
     """
     Tests whether a C++ code line is a local include statement
     (i.e this will *exclude* lines like "#include <vector>")
     """
-    _code_line = code_line.strip()
-
-    if _code_line.startswith(f'#include "{options.local_includes_startwith}'):
-        return True
-    if not options.only_quoted_includes_are_local and _code_line.startswith(
-        f"#include <{options.local_includes_startwith}"
-    ):
-        return True
+    match = _INCLUDE_REGEX.match(code_line)
+    if match is None:
+        return False
+    if match.group("quoted") is not None:
+        return match.group("quoted").startswith(options.local_includes_startwith)
+    if match.group("angle") is not None and not options.only_quoted_includes_are_local:
+        return match.group("angle").startswith(options.local_includes_startwith)
     return False
 
 
 def _is_external_include_line(options: AmalgamationOptions, code_line: str) -> bool:
-    _code_line = code_line.strip()
-
-    if not _code_line.startswith("#include "):
+    if _INCLUDE_REGEX.match(code_line) is None:
         return False
-    if _is_local_include_line(options, _code_line):
+    if _is_local_include_line(options, code_line):
         return False
     return True
 
@@ -127,16 +129,17 @@ def _extract_local_include_file(code_line: str) -> str:
     Extracts the included file path from an include statement
     (handles both `#include "file"` and `#include <file>`)
     """
-    _code_line = code_line.strip()
-
-    result = _code_line.replace('#include "', "").replace("#include <", "").replace('"', "").replace(">", "")
-    # possible_include_paths = [ 'immvision/', 'immdebug/']
-    # for possible_include_path in possible_include_paths:
-    #     result = result.replace(possible_include_path, "")
+    match = _INCLUDE_REGEX.match(code_line)
+    assert match is not None
+    result: str = match.group("quoted") or match.group("angle") or ""
     return result
 
 
 def _extract_external_include_file(code_line: str) -> str:
+    match = _INCLUDE_REGEX.match(code_line)
+    assert match is not None
+    if match.group("quoted") is not None or match.group("angle") is not None:
+        return match.group(1).strip()
     _code_line = code_line.strip()
 
     result: str = _code_line.replace("#include ", "")
@@ -187,10 +190,12 @@ def _amalgamate_one_file(
     if not os.path.isfile(included_filename_full_path):
         raise FileNotFoundError(included_filename)
 
-    if included_filename_full_path in already_included_local_files:
+    # The same file may be included under several names
+    included_filename_real_path = os.path.realpath(included_filename_full_path)
+    if included_filename_real_path in already_included_local_files:
         return ""
 
-    already_included_local_files.append(included_filename_full_path)
+    already_included_local_files.append(included_filename_real_path)
 
     included_filename_relative = included_filename.replace(options.base_dir + "/", "").replace(options.base_dir, "")
 
@@ -228,7 +233,7 @@ def _amalgamate_one_file(
                 parsed_result = parsed_result + include_addition
                 was_file_interrupted_by_include = True
         else:
-            if "#pragma once" not in code_line:
+            if _PRAGMA_ONCE_REGEX.match(code_line) is None:
                 parsed_result = parsed_result + code_line
 
     is_code_composed_of_only_blank_lines = True
-- 
2.43.0


From f3d7a23dfa50ea72379d2709077a932ff0bd1c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 21/65] fix: generate the enums which are not arithmetic

---
 src/litgen/internal/adapted_types/adapted_enum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_enum.py b/src/litgen/internal/adapted_types/adapted_enum.py
index e200d9f..11af985 100644
--- a/src/litgen/internal/adapted_types/adapted_enum.py
+++ b/src/litgen/internal/adapted_types/adapted_enum.py
@@ -248,14 +248,15 @@ class AdaptedEnum(AdaptedElement):
 
         # Enum decl first line
         is_arithmetic = code_utils.does_match_regex_or_matcher(self.options.enum_make_arithmetic__regex, enum_name_cpp)
+        is_flag = code_utils.does_match_regex_or_matcher(self.options.enum_make_flag__regex, enum_name_cpp)
+        enum_annotation = ""
         if is_arithmetic:
             if self.options.bind_library == BindLibraryType.pybind11:
                 enum_annotation = ", py::arithmetic()"
             else:
                 enum_annotation = ", nb::is_arithmetic()"
-                is_flag = code_utils.does_match_regex_or_matcher(self.options.enum_make_flag__regex, enum_name_cpp)
-                if is_flag:
-                    enum_annotation += ", nb::is_flag()"
+        if is_flag and self.options.bind_library == BindLibraryType.nanobind:
+            enum_annotation += ", nb::is_flag()"
         pydef_class_var_parent = cpp_to_python.cpp_scope_to_pybind_parent_var_name(self.options, self.cpp_element())
         enum_var = f"auto pyEnum{enum_name_python} = "
         py = "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb"
-- 
2.43.0


From a515b332313bc8ac53baec5556fe8f023472a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 22/65] fix: ignore the enums without name instead of
 generating invalid code

---
 src/litgen/internal/adapted_types/adapted_block.py | 4 +++-
 src/litgen/internal/adapted_types/adapted_class.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_block.py b/src/litgen/internal/adapted_types/adapted_block.py
index ff98877..0bb092d 100644
--- a/src/litgen/internal/adapted_types/adapted_block.py
+++ b/src/litgen/internal/adapted_types/adapted_block.py
@@ -141,7 +141,9 @@ class AdaptedBlock(AdaptedElement):
                     is_excluded_by_name = code_utils.does_match_regex_or_matcher(
                         self.options.enum_exclude_by_name__regex, child.enum_name
                     )
-                    if not is_excluded_by_name:
+                    if len(child.enum_name) == 0:
+                        child.emit_warning("Ignoring an unnamed enum", WarningType.LitgenIgnoreElement)
+                    elif not is_excluded_by_name:
                         self.adapted_elements.append(AdaptedEnum(self.lg_context, child))
                 elif isinstance(child, CppNamespace):
                     is_anonymous_namespace = child.ns_name == ""
diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 223c3c2..457dd2c 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -451,7 +451,9 @@ class AdaptedClass(AdaptedElement):
                     is_excluded_by_name = code_utils.does_match_regex_or_matcher(
                         self.options.enum_exclude_by_name__regex, child.enum_name
                     )
-                    if not is_excluded_by_name:
+                    if len(child.enum_name) == 0:
+                        child.emit_warning("Ignoring an unnamed enum", WarningType.LitgenIgnoreElement)
+                    elif not is_excluded_by_name:
                         adapted_enum = AdaptedEnum(self.lg_context, child)
                         self.adapted_public_children.append(adapted_enum)
                 elif isinstance(child, CppConditionMacro):
-- 
2.43.0


From db0d73736dbaac886c0f1ad805bb8eaabc4bd5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 23/65] fix: keep the operators &, * and && in the python
 default values

---
 src/litgen/internal/cpp_to_python.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index adb1b39..7bab6d0 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -276,6 +276,22 @@ def _unmask_string_literals(code: str, contents: list[str]) -> str:
     return re.sub("\x00([0-9]+)\x00", lambda m: contents[int(m.group(1))], code)
 
 
+def _mask_binary_operators(cpp_value: str) -> str:
+    """Replace the operators &, * and && that are placed between two operands by placeholders
+    (the type replacements would remove them)"""
+    return re.sub(r"(?<=[\w)\]\"])(\s*)(&&|&|\*)(\s*)(?=[\w(\"~!+-])", _mask_binary_operator, cpp_value)
+
+
+def _mask_binary_operator(m: re.Match[str]) -> str:
+    if m.group(2) == "&&":
+        return " \x03 "
+    return m.group(1) + {"&": "\x01", "*": "\x02"}[m.group(2)] + m.group(3)
+
+
+def _unmask_binary_operators(value: str) -> str:
+    return value.replace("\x01", "&").replace("\x02", "*").replace("\x03", "and")
+
+
 def var_value_to_python(
     lg_context: LitgenContext,
     default_value_cpp: str,
@@ -287,7 +303,10 @@ def var_value_to_python(
     r, literals = _mask_string_literals(default_value_cpp)
     r = _rename_python_keywords(lg_context, r, keep=("True", "False", "None"))
 
+    # The type replacements remove the tokens & and *: this is unwanted if they are operators
+    r = _mask_binary_operators(r)
     r = options.type_replacements.apply(r)
+    r = _unmask_binary_operators(r)
     r = options.value_replacements.apply(r)
     for number_macro, value in lg_context.options.srcmlcpp_options.named_number_macros.items():
         r = re.sub(rf"\b{re.escape(number_macro)}\b", str(value), r)
-- 
2.43.0


From 3e94e05b102687d892e1da4cb174f49b138e78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 24/65] fix: reference the enum values by their python name
 once, whether qualified or not

---
 .../internal/adapted_types/adapted_enum.py     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_enum.py b/src/litgen/internal/adapted_types/adapted_enum.py
index 11af985..89ba414 100644
--- a/src/litgen/internal/adapted_types/adapted_enum.py
+++ b/src/litgen/internal/adapted_types/adapted_enum.py
@@ -114,22 +114,26 @@ class AdaptedEnumDecl(AdaptedDecl):
         is_enum_class = self.enum_parent.cpp_element().is_enum_class()
 
         by_what = f"{enum_name_python}.{enum_member_name_python}"
+        enum_prefix = rf"{enum_name_cpp}\."
         if is_enum_class:
-            replace_what = rf"\b{enum_name_cpp}.{enum_member_name_cpp}\b|{enum_name_cpp}.{enum_member_name_cpp}\b"
+            replace_what = rf"\b{enum_prefix}{enum_member_name_cpp}\b"
             replacement = RegexReplacement(replace_what, by_what)
             replacement_list.add_first_regex_replacement(replacement)
         else:
+            # The optional enum prefix makes the replacements idempotent
             if enum_member_name_cpp.lower().startswith(enum_name_cpp.lower()):
-                replace_what = rf"\b{enum_member_name_cpp}\b"
+                replace_what = rf"\b({enum_prefix})?{enum_member_name_cpp}\b"
                 replacement = RegexReplacement(replace_what, by_what)
                 replacement_list.add_first_regex_replacement(replacement)
             else:
-                # No replacement, this could lead to many unwanted replacements!
-                # Only accept this if we are inside the enum generation
+                # If we are not inside the enum generation, only replace the qualified names:
+                # replacing the other ones could lead to many unwanted replacements!
                 if from_inside_block:
-                    replace_what_inside = rf"\b{enum_member_name_cpp}\b"
-                    replacement_inside_block = RegexReplacement(replace_what_inside, by_what)
-                    replacement_list.add_first_regex_replacement(replacement_inside_block)
+                    replace_what = rf"(?<![\w.])({enum_prefix})?{enum_member_name_cpp}\b"
+                else:
+                    replace_what = rf"\b{enum_prefix}{enum_member_name_cpp}\b"
+                replacement = RegexReplacement(replace_what, by_what)
+                replacement_list.add_first_regex_replacement(replacement)
 
         return replacement_list
 
-- 
2.43.0


From 470c82ca590251f775c802cd28fe318f4306137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 25/65] fix: do not strip the end of the identifiers like x_2d
 or buffer_1f in values and comments

---
 src/litgen/internal/cpp_to_python.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 7bab6d0..c90bf2d 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -890,12 +890,12 @@ def standard_value_replacements() -> RegexReplacementList:
     \bLDBL_MAX\b -> sys.float_info.max
 
     ([0-9])'([0-9]) -> \1_\2
-    (?<![a-zA-Z0-9])([+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
+    (?<!\w)([+-]?[0-9][0-9_]*(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
     :: -> .
     """
     # Explanation of the last regexes:
     #   ([0-9])'([0-9]) -> \1_\2 # Replace 1'000 by 1_000
-    #   (?<![a-zA-Z0-9])([+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
+    #   (?<!\w)([+-]?[0-9][0-9_]*(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
     #      Replace C numbers like 1.5f or 1.5d by 1.5
     replaces = RegexReplacementList.from_string(replacements_str)
     return replaces
@@ -918,7 +918,7 @@ def standard_comment_replacements() -> RegexReplacementList:
     \bNULL\b -> None
     \bnullptr\b -> None
 
-    (?<![a-zA-Z0-9])([+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fd])(?=\W|$) -> \1
+    (?<!\w)([+-]?[0-9][0-9_]*(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fd])(?=\W|$) -> \1
     """
 
     # Note: the last regex replaces C numbers like 1.5f or 1.5d by 1.5.
-- 
2.43.0


From d4614ef61e870f2c0cf3f452f58decea0a86eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:08 +0000
Subject: [PATCH 26/65] fix: mark as overloads the functions that share their
 python name, and only those

---
 .../internal/adapted_types/adapted_block.py   | 20 ++++-
 .../internal/adapted_types/adapted_class.py   | 14 ++--
 .../adapted_types/adapted_function.py         | 76 +++++++++++++++----
 .../internal/adapted_types/adapted_unit.py    |  1 +
 .../adapted_types/stub_overload_dedup.py      | 60 +++++++--------
 src/litgen/internal/context/litgen_context.py | 13 ++++
 6 files changed, 128 insertions(+), 56 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_block.py b/src/litgen/internal/adapted_types/adapted_block.py
index 0bb092d..8bba2c0 100644
--- a/src/litgen/internal/adapted_types/adapted_block.py
+++ b/src/litgen/internal/adapted_types/adapted_block.py
@@ -128,8 +128,10 @@ class AdaptedBlock(AdaptedElement):
                         self.adapted_elements.append(AdaptedClass(self.lg_context, child))
                 elif isinstance(child, CppFunctionDecl):
                     if AdaptedFunction.init_is_function_publishable(self.options, child):
-                        is_overloaded = self.cpp_element().is_function_overloaded(child)
-                        self.adapted_elements.append(AdaptedFunction(self.lg_context, child, is_overloaded))
+                        is_overloaded = self._is_function_overloaded(child)
+                        adapted_function = AdaptedFunction(self.lg_context, child, is_overloaded)
+                        adapted_function.register_in_python_scope()
+                        self.adapted_elements.append(adapted_function)
                 elif isinstance(child, CppDefine):
                     is_included = code_utils.does_match_regex_or_matcher(
                         self.options.macro_define_include_by_name__regex, child.macro_name
@@ -167,6 +169,20 @@ class AdaptedBlock(AdaptedElement):
             except SrcmlcppException as e:
                 child.emit_warning(str(e), WarningType.LitgenBlockElementException)
 
+    def _is_function_overloaded(self, function: CppFunctionDecl) -> bool:
+        if self.cpp_element().is_function_overloaded(function):
+            return True
+        # The overloads may be in other occurrences of the same namespace
+        scope = function.cpp_scope_str(include_self=False)
+        for other in self.cpp_element().root_cpp_unit().all_functions_recursive():
+            if (
+                other is not function
+                and other.function_name == function.function_name
+                and other.cpp_scope_str(include_self=False) == scope
+            ):
+                return True
+        return False
+
     def _group_overloaded_functions(self) -> None:
         self.adapted_elements = group_overloaded_functions(self.adapted_elements)  # type: ignore
 
diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 457dd2c..2c8ddc4 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -570,7 +570,13 @@ class AdaptedClass(AdaptedElement):
 
         from litgen.internal.adapted_types.stub_overload_dedup import dedup_stub_lines
 
-        for element, element_lines in dedup_stub_lines(self.adapted_public_children):
+        all_children_stubs = dedup_stub_lines([*self.adapted_public_children, *self.adapted_protected_methods])
+        protected_methods_ids = {id(method) for method in self.adapted_protected_methods}
+        protected_methods_stubs = [(e, ls) for e, ls in all_children_stubs if id(e) in protected_methods_ids]
+
+        for element, element_lines in all_children_stubs:
+            if id(element) in protected_methods_ids:
+                continue
             spacing_lines = line_spacer.spacing_lines(element, element_lines)
             body_lines += spacing_lines
             body_lines += element_lines
@@ -584,11 +590,9 @@ class AdaptedClass(AdaptedElement):
             ctor_code = ctor_helper.stub_code()
             body_lines += ctor_code.split("\n")
 
-        if len(self.adapted_protected_methods) > 0:
+        if len(protected_methods_stubs) > 0:
             body_lines += ["", "# <protected_methods>"]
-            for element in self.adapted_protected_methods:
-                element_lines = element.stub_lines()
-
+            for element, element_lines in protected_methods_stubs:
                 spacing_lines = line_spacer.spacing_lines(element, element_lines)
                 body_lines += spacing_lines
                 body_lines += element_lines
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 41aefb4..6ae9b8a 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -229,6 +229,11 @@ class AdaptedFunction(AdaptedElement):
     # Other members
     return_value_policy: str = ""
     is_overloaded: bool = False
+    # True for an instantiation of a template function which is published under the name of the template
+    is_template_overload: bool = False
+    # Python names that are declared several times in the stub of the scope of this function
+    # (filled by dedup_stub_lines)
+    stub_overloaded_names: set[str] | None = None
     is_type_ignore: bool = False
     is_vectorize_impl: bool = False
     has_adapted_template_buffer: bool = False
@@ -1031,6 +1036,7 @@ class AdaptedFunction(AdaptedElement):
             new_functions = operators.cpp_split_spaceship_operator(self)
             r = []
             for new_function in new_functions:
+                new_function.stub_overloaded_names = self.stub_overloaded_names
                 r += new_function.stub_lines()
             return r
 
@@ -1049,6 +1055,7 @@ class AdaptedFunction(AdaptedElement):
                             r += [""]  # 1 empty lines between methods
                         else:
                             r += ["", ""]  # 2 empty lines between functions
+                    template_instantiation.stub_overloaded_names = self.stub_overloaded_names
                     r += template_instantiation.stub_lines()
                 if self.options.fn_template_decorate_in_stub:
                     r = cpp_to_python.surround_python_code_lines(
@@ -1122,12 +1129,10 @@ class AdaptedFunction(AdaptedElement):
 
         # Add staticmethod or overload decorator
         decorators = []
-        vectorize_needs_overload = (
-            (self.is_vectorize_impl or self.shall_vectorize())
-            and self.options.fn_vectorize_prefix == ""
-            and self.options.fn_vectorize_suffix == ""
-        )
-        needs_overload = self.is_overloaded or vectorize_needs_overload
+        if self.stub_overloaded_names is not None:
+            needs_overload = function_name_python in self.stub_overloaded_names or self.is_template_overload
+        else:
+            needs_overload = self.is_overloaded
         if needs_overload:
             decorators.append("@overload")
         if (
@@ -1172,10 +1177,46 @@ class AdaptedFunction(AdaptedElement):
         which both map to Python int). Two overloads with the same signature
         string are duplicates from mypy's perspective.
         """
-        name = self._stub_function_name_python()
+        from litgen.internal.adapted_types import operators
+
+        if operators.is_spaceship_operator(self) or self._tpl_is_template_non_specialized():
+            # Published as several functions: only compare with the same C++ function
+            name = self.cpp_adapted_function.function_name
+        else:
+            name = self._stub_function_name_python()
         params = self._stub_params_list_signature()
         return f"{name}({', '.join(params)})"
 
+    def stub_published_names(self) -> list[str]:
+        """The Python names of the functions which are published in the stub for this C++ function
+        (several for a spaceship operator, a template function or a vectorized function)"""
+        from litgen.internal.adapted_types import operators
+
+        if operators.is_spaceship_operator(self):
+            new_functions = operators.cpp_split_spaceship_operator(self)
+            return [name for new_function in new_functions for name in new_function.stub_published_names()]
+        if self._tpl_is_template_non_specialized():
+            instantiations = self._tpl_split_into_template_instantiations(emit_warnings=False)
+            return [name for instantiation in instantiations for name in instantiation.stub_published_names()]
+
+        name = self._stub_function_name_python()
+        r = [name]
+        if self.shall_vectorize():
+            r.append(self.options.fn_vectorize_prefix + name + self.options.fn_vectorize_suffix)
+        return r
+
+    def functions_of_same_python_scope(self) -> list[AdaptedFunction]:
+        """All the published functions of the module or submodule of this function (which may be written
+        as several namespace blocks), in the order of the code"""
+        return self.lg_context.get_python_scope_functions(self._python_scope_key())
+
+    def register_in_python_scope(self) -> None:
+        self.lg_context.get_python_scope_functions(self._python_scope_key()).append(self)
+
+    def _python_scope_key(self) -> str:
+        namespaces = self.cpp_element().cpp_scope_str(include_self=False).split("::")
+        return "::".join(ns for ns in namespaces if ns not in self.options.namespaces_root)
+
     def _stub_function_name_python(self) -> str:
         from litgen.internal.adapted_types import operators
 
@@ -1407,7 +1448,7 @@ class AdaptedFunction(AdaptedElement):
         new_adapted_function = AdaptedFunction(self.lg_context, new_cpp_function, self.is_overloaded)
         return new_adapted_function
 
-    def _tpl_split_into_template_instantiations(self) -> list[AdaptedFunction]:
+    def _tpl_split_into_template_instantiations(self, emit_warnings: bool = True) -> list[AdaptedFunction]:
         assert self._tpl_is_template_non_specialized()
 
         matching_template_spec = None
@@ -1416,17 +1457,19 @@ class AdaptedFunction(AdaptedElement):
                 matching_template_spec = template_spec
 
         if matching_template_spec is None:
-            self.cpp_element().emit_warning(
-                f"Ignoring template function {self.cpp_element().function_name}. You might need to set LitgenOptions.fn_template_options",
-                WarningType.LitgenTemplateFunctionIgnore,
-            )
+            if emit_warnings:
+                self.cpp_element().emit_warning(
+                    f"Ignoring template function {self.cpp_element().function_name}. You might need to set LitgenOptions.fn_template_options",
+                    WarningType.LitgenTemplateFunctionIgnore,
+                )
             return []
 
         if not self._tpl_is_one_param_template() and len(matching_template_spec.cpp_types_list) > 0:
-            self.cpp_element().emit_warning(
-                f"Only one parameters template functions are supported ({self.cpp_element().function_name})",
-                WarningType.LitgenTemplateFunctionMultipleIgnore,
-            )
+            if emit_warnings:
+                self.cpp_element().emit_warning(
+                    f"Only one parameters template functions are supported ({self.cpp_element().function_name})",
+                    WarningType.LitgenTemplateFunctionMultipleIgnore,
+                )
             return []
 
         new_functions: list[AdaptedFunction] = []
@@ -1434,6 +1477,7 @@ class AdaptedFunction(AdaptedElement):
             new_function = self._tpl_instantiate_template_for_type(cpp_type)
             if not matching_template_spec.add_suffix_to_function_name:
                 new_function.is_overloaded = True
+                new_function.is_template_overload = True
             new_functions.append(new_function)
         return new_functions
 
diff --git a/src/litgen/internal/adapted_types/adapted_unit.py b/src/litgen/internal/adapted_types/adapted_unit.py
index 0f6f258..8eb32ab 100644
--- a/src/litgen/internal/adapted_types/adapted_unit.py
+++ b/src/litgen/internal/adapted_types/adapted_unit.py
@@ -18,6 +18,7 @@ from litgen.internal.context.litgen_context import LitgenContext
 class AdaptedUnit(AdaptedBlock):
     def __init__(self, lg_context: LitgenContext, unit: CppUnit):
         global_progress_bars().start_progress_bar(_PROGRESS_BAR_TITLE_ADAPTED_ELEMENTS)
+        lg_context.clear_python_scope_functions()
         super().__init__(lg_context, unit)
         self.options.check_options_consistency()
         global_progress_bars().stop_progress_bar(_PROGRESS_BAR_TITLE_ADAPTED_ELEMENTS)
diff --git a/src/litgen/internal/adapted_types/stub_overload_dedup.py b/src/litgen/internal/adapted_types/stub_overload_dedup.py
index 426e37e..bd765da 100644
--- a/src/litgen/internal/adapted_types/stub_overload_dedup.py
+++ b/src/litgen/internal/adapted_types/stub_overload_dedup.py
@@ -13,50 +13,44 @@ def dedup_stub_lines(elements: Sequence[AdaptedElement]) -> list[tuple[AdaptedEl
     C++ overloads on int vs unsigned int (or int vs size_t) map to identical
     Python signatures. This function:
     1. Skips duplicates (keeps the first occurrence)
-    2. Strips the @overload decorator from functions that end up as the sole
-       survivor of their overload group (mypy requires at least 2 overloads)
+    2. Adds the @overload decorator to the functions that share their Python name with
+       another function of their Python scope, and only to those (mypy requires at least 2 overloads).
+       The names are compared as they appear in Python: distinct C++ names may be identical in Python,
+       and an operator<=> or a template function may be published as several functions.
 
     Returns a list of (element, stub_lines) pairs for surviving elements.
     Callers handle spacing and progress bar as needed.
     """
     from litgen.internal.adapted_types.adapted_function import AdaptedFunction
 
-    # First pass: determine which elements survive and count overloads per name
+    # The functions of a namespace are those of all its occurrences in the code
+    scope_functions = [elem for elem in elements if isinstance(elem, AdaptedFunction)]
+    if len(scope_functions) > 0 and not scope_functions[0].is_method():
+        scope_functions = scope_functions[0].functions_of_same_python_scope()
+
+    # First pass: determine which functions are duplicates, and count the survivors per name
     emitted_signatures: set[str] = set()
-    survivors: list[AdaptedElement] = []
-    for elem in elements:
-        if isinstance(elem, AdaptedFunction) and elem.is_overloaded:
-            sig = elem.stub_python_signature()
+    duplicates: set[int] = set()
+    name_counts: dict[str, int] = {}
+    for function in scope_functions:
+        names = function.stub_published_names()
+        if len(names) > 0:
+            sig = function.stub_python_signature()
             if sig in emitted_signatures:
+                duplicates.add(id(function))
                 continue
             emitted_signatures.add(sig)
-        survivors.append(elem)
-
-    # Second pass: generate stub lines and count surviving overloads per name.
-    # Functions that produce empty stub output (e.g., excluded templates) don't count.
-    generated: list[tuple[AdaptedElement, list[str]]] = []
-    overload_counts: dict[str, int] = {}
-    for elem in survivors:
-        element_lines = elem.stub_lines()
-        generated.append((elem, element_lines))
-
-        has_content = any(line.strip() for line in element_lines)
-        if isinstance(elem, AdaptedFunction) and elem.is_overloaded and has_content:
-            name = elem._stub_function_name_python()
-            overload_counts[name] = overload_counts.get(name, 0) + 1
+        for name in names:
+            name_counts[name] = name_counts.get(name, 0) + 1
+    overloaded_names = {name for name, count in name_counts.items() if count >= 2}
 
-    # Names where only one overload survived: strip @overload
-    singleton_overloads = {name for name, count in overload_counts.items() if count <= 1}
-
-    # Third pass: strip @overload from singletons
+    # Second pass: generate the stub lines of the survivors
     result: list[tuple[AdaptedElement, list[str]]] = []
-    for elem, element_lines in generated:
-        if (
-            isinstance(elem, AdaptedFunction)
-            and elem.is_overloaded
-            and elem._stub_function_name_python() in singleton_overloads
-        ):
-            element_lines = [line for line in element_lines if line.strip() != "@overload"]
-        result.append((elem, element_lines))
+    for elem in elements:
+        if isinstance(elem, AdaptedFunction):
+            if id(elem) in duplicates:
+                continue
+            elem.stub_overloaded_names = overloaded_names
+        result.append((elem, elem.stub_lines()))
 
     return result
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 178e34f..939f25b 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -14,6 +14,7 @@ from srcmlcpp.cpp_types.scope.cpp_scope import CppScope
 
 if TYPE_CHECKING:
     from litgen.options import LitgenOptions
+    from litgen.internal.adapted_types.adapted_function import AdaptedFunction
 
 
 @dataclass
@@ -58,6 +59,10 @@ class LitgenContext:
     # See ScopeMembers for details.
     scope_members: dict[str, ScopeMembers]
 
+    # The functions that are published in each module or submodule.
+    # Key: qualified name of the namespace, without the root namespaces
+    _python_scope_functions: dict[str, list[AdaptedFunction]]
+
     # cf https://pybind11.readthedocs.io/en/stable/advanced/classes.html#binding-protected-member-functions
     protected_methods_glue_code: str = ""
     # cf https://pybind11.readthedocs.io/en/stable/advanced/classes.html#overriding-virtual-functions-in-python
@@ -73,6 +78,7 @@ class LitgenContext:
         self.namespaces_pydef = NamespacesCodeTree(self.options, PydefOrStub.Pydef)
         self._scoped_replacements = {}
         self.scope_members = {}
+        self._python_scope_functions = {}
 
     def clear_namespaces_code_tree(self) -> None:
         self.namespaces_stub = NamespacesCodeTree(self.options, PydefOrStub.Stub)
@@ -84,6 +90,13 @@ class LitgenContext:
     def unqualified_stub_namespaces(self) -> set[CppNamespaceName]:
         return self.namespaces_stub.unqualified_namespaces()
 
+    def clear_python_scope_functions(self) -> None:
+        self._python_scope_functions = {}
+
+    def get_python_scope_functions(self, scope_key: str) -> list[AdaptedFunction]:
+        """Get (or create) the list of the functions that are published in a module or submodule"""
+        return self._python_scope_functions.setdefault(scope_key, [])
+
     def get_scoped_replacements(self, scope: CppScope) -> ReplacementsCache:
         """Get (or create) the ReplacementsCache for a given scope."""
         key = scope.str_cpp
-- 
2.43.0


From 8e3cf8fcb20d7f8348b0a58fedb19bab84bd2020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 27/65] fix: bind the content of nested namespace definitions
 (namespace A::B) and of inline namespaces

---
 src/srcmlcpp/internal/cpp_types_parse.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index 55cdd94..d012f74 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -996,14 +996,29 @@ def parse_namespace(
     assert element_c.tag() == "namespace"
     result = CppNamespace(element_c, element_c.cpp_element_comments)
     result.parent = parent
+    innermost = result
     for child in element_c.make_wrapped_children():
         child_tag = child.tag()
         if child_tag == "name":
-            result.ns_name = _parse_name(child)
+            ns_names = [name.strip() for name in _parse_name(child).split("::")]
+            result.ns_name = ns_names[0]
+            # "namespace A::B {}" means "namespace A { namespace B {} }" (the comments are about B)
+            for ns_name in ns_names[1:]:
+                inner = CppNamespace(element_c, innermost.cpp_element_comments)
+                inner.ns_name = ns_name
+                innermost.cpp_element_comments = CppElementComments()
+                outer_block = CppBlock(element_c)
+                outer_block.parent = innermost
+                inner.parent = outer_block
+                outer_block.block_children.append(inner)
+                innermost.block = outer_block
+                innermost = inner
         elif child_tag == "block":
-            result.block = parse_block(options, child, element_c)
+            innermost.block = parse_block(options, child, element_c)
         elif child_tag == "comment":
-            _add_comment_child_before_block(result, child)
+            _add_comment_child_before_block(innermost, child)
+        elif child_tag == "specifier":
+            pass  # inline
         else:
             raise SrcmlcppExceptionDetailed(child, f"unhandled tag {child_tag}")
     return result
-- 
2.43.0


From 747326609f17658fc76f74b2072f7c15fe97d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 28/65] fix: emit the custom code of a namespace once, also for
 root namespaces, and for each generation

---
 .../adapted_types/adapted_namespace.py        | 41 ++++++++++---------
 .../internal/adapted_types/adapted_unit.py    |  4 +-
 src/litgen/internal/context/litgen_context.py | 12 ++++++
 src/litgen/internal/custom_bindings.py        | 19 ---------
 4 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_namespace.py b/src/litgen/internal/adapted_types/adapted_namespace.py
index 8375354..94dffd2 100644
--- a/src/litgen/internal/adapted_types/adapted_namespace.py
+++ b/src/litgen/internal/adapted_types/adapted_namespace.py
@@ -66,10 +66,25 @@ class AdaptedNamespace(AdaptedElement):
         ns_qualified_name = self.cpp_element().cpp_scope_str(include_self=True)
         return ns_qualified_name
 
+    def _qualified_submodule_name(self) -> str:
+        """The qualified name, without the root namespaces: identifies the submodule"""
+        python_scope = cpp_to_python.cpp_scope_to_pybind_scope(self.options, self.cpp_element(), include_self=True)
+        return python_scope.str_cpp
+
+    def _custom_code_lines(self, is_pydef: bool) -> list[str]:
+        """User custom code: added once, even if the namespace is written as several blocks"""
+        scope_str = self._qualified_namespace_name()
+        custom_code = self.options.custom_bindings._pub_make_submodule_custom_code(
+            scope_str, self.pydef_submodule_cpp_var(), is_pydef=is_pydef
+        )
+        if custom_code is None or not self.lg_context.shall_emit_custom_code(scope_str, is_pydef):
+            return []
+        return custom_code.splitlines()
+
     def _stub_class_as_ns_creation_code(self) -> list[str]:
-        if self.lg_context.namespaces_stub.was_namespace_created(self._qualified_namespace_name()):
+        if self.lg_context.namespaces_stub.was_namespace_created(self._qualified_submodule_name()):
             return []
-        self.lg_context.namespaces_stub.register_namespace_creation(self._qualified_namespace_name())
+        self.lg_context.namespaces_stub.register_namespace_creation(self._qualified_submodule_name())
 
         ns_name = cpp_to_python.namespace_name_to_python(self.options, self.namespace_name())
         _i_ = self.options._indent_python_spaces()
@@ -87,21 +102,15 @@ class AdaptedNamespace(AdaptedElement):
     def stub_lines(self) -> list[str]:
         lines: list[str] = []
         if (
-            not self.lg_context.namespaces_stub.was_namespace_created(self._qualified_namespace_name())
+            not self.lg_context.namespaces_stub.was_namespace_created(self._qualified_submodule_name())
             and self.flag_shall_create_namespace_as_module()
         ):
             lines += cpp_to_python.docstring_lines(self.options, self.cpp_element())
         lines += self.adapted_block.stub_lines()
         lines.append("")
+        lines += self._custom_code_lines(is_pydef=False)
 
         if self.flag_shall_create_namespace_as_module():
-            # Add user custom code
-            custom_code = self.options.custom_bindings._pub_make_submodule_custom_code(
-                self.cpp_element().cpp_scope(include_self=True).str_cpp, self.pydef_submodule_cpp_var(), is_pydef=False
-            )
-            if custom_code is not None:
-                lines += custom_code.splitlines()
-
             context_stored_lines = self._stub_class_as_ns_creation_code()
             context_stored_lines += code_utils.indent_code_lines(lines, indent_str=self.options._indent_python_spaces())
             self.lg_context.namespaces_stub.store_code(
@@ -112,9 +121,9 @@ class AdaptedNamespace(AdaptedElement):
             return lines
 
     def _pydef_def_submodule_code(self) -> list[str]:
-        if self.lg_context.namespaces_pydef.was_namespace_created(self._qualified_namespace_name()):
+        if self.lg_context.namespaces_pydef.was_namespace_created(self._qualified_submodule_name()):
             return []
-        self.lg_context.namespaces_pydef.register_namespace_creation(self._qualified_namespace_name())
+        self.lg_context.namespaces_pydef.register_namespace_creation(self._qualified_submodule_name())
 
         submodule_code_template = '{py}::module_ {submodule_cpp_var} = {parent_module_cpp_var}.def_submodule("{module_name}", "{module_doc}");'
 
@@ -145,15 +154,9 @@ class AdaptedNamespace(AdaptedElement):
     # override
     def pydef_lines(self) -> list[str]:
         lines = self.adapted_block.pydef_lines()
+        lines += self._custom_code_lines(is_pydef=True)
 
         if self.flag_shall_create_namespace_as_module():
-            # Add user custom code
-            custom_code = self.options.custom_bindings._pub_make_submodule_custom_code(
-                self.cpp_element().cpp_scope(include_self=True).str_cpp, self.pydef_submodule_cpp_var(), is_pydef=True
-            )
-            if custom_code is not None:
-                lines += custom_code.splitlines()
-
             context_stored_lines = self._pydef_def_submodule_code() + lines
             context_stored_lines = code_utils.indent_code_lines(
                 context_stored_lines, indent_str=self.options._indent_cpp_spaces()
diff --git a/src/litgen/internal/adapted_types/adapted_unit.py b/src/litgen/internal/adapted_types/adapted_unit.py
index 8eb32ab..29e0c30 100644
--- a/src/litgen/internal/adapted_types/adapted_unit.py
+++ b/src/litgen/internal/adapted_types/adapted_unit.py
@@ -38,7 +38,7 @@ class AdaptedUnit(AdaptedBlock):
         custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
             is_pydef=False, pydef_main_module_var_name="m"
         )
-        if custom_code is not None:
+        if custom_code is not None and self.lg_context.shall_emit_custom_code("", is_pydef=False):
             r += custom_code
 
         global_progress_bars().stop_progress_bar(_PROGRESS_BAR_TITLE_STUB)
@@ -55,7 +55,7 @@ class AdaptedUnit(AdaptedBlock):
         custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
             is_pydef=True, pydef_main_module_var_name="m"
         )
-        if custom_code is not None:
+        if custom_code is not None and self.lg_context.shall_emit_custom_code("", is_pydef=True):
             r += custom_code
 
         global_progress_bars().stop_progress_bar(_PROGRESS_BAR_TITLE_PYDEF)
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 939f25b..0ba8c08 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -59,6 +59,9 @@ class LitgenContext:
     # See ScopeMembers for details.
     scope_members: dict[str, ScopeMembers]
 
+    # The custom bindings that were already emitted: qualified scope, is_pydef
+    _emitted_custom_codes: set[tuple[CppQualifiedNamespaceName, bool]]
+
     # The functions that are published in each module or submodule.
     # Key: qualified name of the namespace, without the root namespaces
     _python_scope_functions: dict[str, list[AdaptedFunction]]
@@ -79,6 +82,7 @@ class LitgenContext:
         self._scoped_replacements = {}
         self.scope_members = {}
         self._python_scope_functions = {}
+        self._emitted_custom_codes = set()
 
     def clear_namespaces_code_tree(self) -> None:
         self.namespaces_stub = NamespacesCodeTree(self.options, PydefOrStub.Stub)
@@ -90,6 +94,14 @@ class LitgenContext:
     def unqualified_stub_namespaces(self) -> set[CppNamespaceName]:
         return self.namespaces_stub.unqualified_namespaces()
 
+    def shall_emit_custom_code(self, qualified_scope: str, is_pydef: bool) -> bool:
+        """Custom code is emitted only once per generator lifetime: a namespace may be written as several blocks,
+        and a single generator may process multiple header files via repeated process_cpp_file calls."""
+        if (qualified_scope, is_pydef) in self._emitted_custom_codes:
+            return False
+        self._emitted_custom_codes.add((qualified_scope, is_pydef))
+        return True
+
     def clear_python_scope_functions(self) -> None:
         self._python_scope_functions = {}
 
diff --git a/src/litgen/internal/custom_bindings.py b/src/litgen/internal/custom_bindings.py
index 68ae496..6001bf0 100644
--- a/src/litgen/internal/custom_bindings.py
+++ b/src/litgen/internal/custom_bindings.py
@@ -174,10 +174,6 @@ class CustomBindings:
     def __init__(self) -> None:
         self._custom_binding_pydefs = {}
         self._custom_binding_stubs = {}
-        # Track whether main-module custom bindings have been emitted,
-        # to avoid duplicates when a single generator processes multiple header files.
-        self._main_module_emitted_pydef = False
-        self._main_module_emitted_stub = False
 
     def _get_custom_bindings_ref(self, is_pydef: bool) -> Dict[CppScope, List[str]]:
         return self._custom_binding_pydefs if is_pydef else self._custom_binding_stubs
@@ -239,23 +235,8 @@ class CustomBindings:
         return result
 
     def _pub_make_main_module_custom_code(self, pydef_main_module_var_name: str, is_pydef: bool) -> str | None:
-        # Emit only once per generator lifetime (a single generator may
-        # process multiple header files via repeated process_cpp_file calls).
-        if is_pydef:
-            if self._main_module_emitted_pydef:
-                return None
-        else:
-            if self._main_module_emitted_stub:
-                return None
-
         replacements = [_StringReplacement("LG_MODULE", pydef_main_module_var_name)]
         qual_class_scope = CppScope.from_string("")
         result = self._make_custom_code(qual_class_scope, is_pydef=is_pydef, replacements=replacements)
 
-        if result is not None:
-            if is_pydef:
-                self._main_module_emitted_pydef = True
-            else:
-                self._main_module_emitted_stub = True
-
         return result
-- 
2.43.0


From 36961227895a2bb56721f13482271198521fea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 29/65] fix: comments with quotes or backslashes give valid doc
 literals that denote their text

---
 src/codemanip/code_utils.py          | 23 ++++-------------------
 src/litgen/internal/cpp_to_python.py |  3 ++-
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 1c4051a..57f3e7f 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -392,32 +392,17 @@ def format_python_comment(comment: str, indent_size: int) -> str:
 
 
 def escape_backslash_in_comments(comment: str) -> str:
-    if len(comment) <= 1:
-        return comment
-    r = ""
-
-    for c1, c2 in overlapping_pairs(comment):
-        if c1 == "\\" and c2 not in ["n", "t", "o", "x", '"', "'"]:
-            r += "\\\\"
-        else:
-            r += c1
-
-    last_char = comment[-1]
-    if last_char == "\\":
-        r += "\\\\"
-    else:
-        r += last_char
-
-    return r
+    return comment.replace("\\", "\\\\")
 
 
 def format_cpp_comment_on_one_line(comment: Optional[str]) -> str:
+    """Format a comment so that it can be placed between double quotes, as a C++ string literal that denotes its text"""
     if comment is None:
         return ""
     is_multiline = "\n" in comment
-    comment = comment.replace("\n", "\\n")
-    comment = comment.replace('"', '\\"')
     comment = escape_backslash_in_comments(comment)
+    comment = comment.replace('"', '\\"')
+    comment = comment.replace("\n", "\\n")
     if not is_multiline:
         comment = comment.strip()
     return comment
diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index c90bf2d..c876815 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -43,7 +43,6 @@ def _comment_apply_replacements(options: LitgenOptions, comment: str) -> str:
 def comment_pydef_one_line(options: LitgenOptions, title_cpp: str) -> str:
     """Formats a docstring on one cpp line. Used only in cpp pydef bindings code"""
     r = code_utils.format_cpp_comment_on_one_line(_comment_apply_replacements(options, title_cpp))
-    r = _comment_apply_replacements(options, r)
     return r
 
 
@@ -618,6 +617,8 @@ def docstring_lines(options: LitgenOptions, cpp_element_c: CppElementAndComment)
 
     docstring = cpp_element_c.cpp_element_comments.full_comment()
     docstring = _comment_apply_replacements(options, docstring)
+    # The docstring shall be a valid python string literal, which denotes the text of the comment
+    docstring = docstring.replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
     if docstring.startswith('"'):
         docstring = " " + docstring
     if docstring.endswith('"'):
-- 
2.43.0


From 269bd16e5d748f78c2f0c24b896c70cfebffa6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 30/65] fix: braces in comments are not taken for template
 tokens

---
 src/codemanip/code_utils.py                   | 40 ++++++++-----------
 .../adapted_types/adapted_function.py         | 27 ++++++-------
 2 files changed, 29 insertions(+), 38 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 57f3e7f..ad17719 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -811,11 +811,11 @@ def merge_dicts(dict1: dict[str, Any], dict2: dict[str, Any]) -> dict[str, Any]:
 
 
 def replace_in_string(input_string: str, replacements: dict[str, str]) -> str:
-    r = input_string
-    for search, replace in replacements.items():
-        full_search = "{" + search + "}"
-        r = r.replace(full_search, replace)
-    return r
+    """Replace all the tokens "{token}" in one pass: the replacement texts are never searched for tokens"""
+    if len(replacements) == 0:
+        return input_string
+    tokens_regex = "{(" + "|".join(re.escape(search) for search in replacements) + ")}"
+    return re.sub(tokens_regex, lambda m: replacements[m.group(1)], input_string)
 
 
 def process_code_template(
@@ -827,11 +827,13 @@ def process_code_template(
     if replacements_with_line_removal_if_not_found is None:
         replacements_with_line_removal_if_not_found = {}
 
-    r = input_string
-    r = replace_in_string(r, replacements)
-    r = replace_in_string_remove_line_if_none(r, replacements_with_line_removal_if_not_found)
+    all_replacements: dict[str, Optional[str]] = dict(replacements_with_line_removal_if_not_found)
+    all_replacements.update(replacements)
+    if flag_replace_maybe_comma:
+        all_replacements["maybe_comma"] = ", "
+
+    r = replace_in_string_remove_line_if_none(input_string, all_replacements)
     if flag_replace_maybe_comma:
-        r = r.replace("{maybe_comma}", ", ")
         if r.endswith(", "):
             r = r[:-2]
         if r.endswith(", );"):
@@ -842,21 +844,11 @@ def process_code_template(
 
 
 def replace_in_string_remove_line_if_none(input_string: str, replacements: dict[str, Optional[str]]) -> str:
-    r = input_string
-
-    for search, replace in replacements.items():
-        if replace is None:
-            lines = r.split("\n")
-            new_lines = []
-            for line in lines:
-                if "{" + search + "}" not in line:
-                    new_lines.append(line)
-            r = "\n".join(new_lines)
-        else:
-            full_search = "{" + search + "}"
-            r = r.replace(full_search, replace)
-
-    return r
+    removed_tokens = ["{" + search + "}" for search, replace in replacements.items() if replace is None]
+    lines = [line for line in input_string.split("\n") if not any(token in line for token in removed_tokens)]
+    return replace_in_string(
+        "\n".join(lines), {search: replace for search, replace in replacements.items() if replace is not None}
+    )
 
 
 def replace_maybe_comma(code: str, nb_skipped_final_lines: int = 0) -> str:
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 6ae9b8a..67b15ed 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -812,8 +812,17 @@ class AdaptedFunction(AdaptedElement):
         else:
             maybe_docstring = None
 
-        # Apply simple replacements
-        code = template_code
+        # Remove the lines that are not needed, then process maybe_comma
+        code = code_utils.replace_in_string_remove_line_if_none(
+            template_code,
+            {
+                "maybe_docstring": None if maybe_docstring is None else "{maybe_docstring}",
+                "maybe_pyarg": None if maybe_pyarg is None else "{maybe_pyarg}",
+            },
+        )
+        code = code_utils.replace_maybe_comma(code)
+
+        # Apply replacements
         code = code_utils.replace_in_string(
             code,
             {
@@ -821,21 +830,11 @@ class AdaptedFunction(AdaptedElement):
                 "py": "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb",
                 "location": location,
                 "arg_types": arg_types,
+                "maybe_docstring": maybe_docstring or "",
+                "maybe_pyarg": maybe_pyarg or "",
             },
         )
 
-        # Apply replacements with possible line removal
-        code = code_utils.replace_in_string_remove_line_if_none(
-            code,
-            {
-                "maybe_docstring": maybe_docstring,
-                "maybe_pyarg": maybe_pyarg,
-            },
-        )
-
-        # Process maybe_comma
-        code = code_utils.replace_maybe_comma(code)
-
         code = code_utils.add_item_before_cpp_comment(code, ")")
 
         return code
-- 
2.43.0


From 982a94a3d981f426899b3d04c24b4d54bbd4cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 31/65] fix: remove the comment markers exactly once in grouped
 comments

---
 src/srcmlcpp/internal/srcml_comments.py | 26 ++++++++++++-------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/srcmlcpp/internal/srcml_comments.py b/src/srcmlcpp/internal/srcml_comments.py
index dbed882..b81cb32 100644
--- a/src/srcmlcpp/internal/srcml_comments.py
+++ b/src/srcmlcpp/internal/srcml_comments.py
@@ -145,10 +145,7 @@ def _group_consecutive_comments(srcml_code: SrcmlWrapper) -> SrcmlWrapper:
             child_text = child.text()
             assert child_text is not None
             assert previous_child is not None and previous_child.text is not None
-            comment_raw = child_text
-            if comment_raw.startswith("//"):
-                comment_raw = comment_raw[2:]
-            current_comment_ = comment_raw
+            current_comment_ = _remove_comment_markers(child_text)
             assert previous_child.srcml_xml.text is not None
             previous_child.srcml_xml.text += COMMENT_NEW_LINE_TOKEN + current_comment_
             srcml_utils.copy_element_end_position(child.srcml_xml, previous_child.srcml_xml)
@@ -307,19 +304,20 @@ def _is_comment_on_previous_line(children: list[SrcmlWrapper], idx: int) -> bool
     return False
 
 
-def _remove_comment_tokens(comment: str) -> str:
-    comment = comment.replace(COMMENT_NEW_LINE_TOKEN, "\n")
+def _remove_comment_markers(comment: str) -> str:
     if comment.startswith("/*") and comment.endswith("*/"):
         return comment[2:-2]
+    elif comment.startswith("//"):
+        return comment[2:]
     else:
-        lines = comment.split("\n")
-        lines_processed = []
-        for line in lines:
-            if line.lstrip().startswith("//"):
-                lines_processed.append(line[2:])
-            else:
-                lines_processed.append(line)
-        return "\n".join(lines_processed)
+        return comment
+
+
+def _remove_comment_tokens(comment: str) -> str:
+    # When comments were grouped, only the first one still has its markers
+    grouped_comments = comment.split(COMMENT_NEW_LINE_TOKEN)
+    grouped_comments[0] = _remove_comment_markers(grouped_comments[0])
+    return "\n".join(grouped_comments)
 
 
 IsCStyleComment = bool
-- 
2.43.0


From baa7dfe93999bae0e14533e3b15c3ab9887bde95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 32/65] fix: keep the comments of functions and constructors
 with brace initialized default values

---
 src/srcmlcpp/internal/cpp_types_parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index d012f74..d80ba1f 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -869,6 +869,7 @@ def fill_block(options: SrcmlcppOptions, element: SrcmlWrapper, inout_block_cont
                 )
                 if fixed_function is not None:
                     fixed_function.parent = cpp_decl_stmt.parent
+                    fixed_function.cpp_element_comments = copy.deepcopy(child_c.cpp_element_comments)
                     fixed_function._clear_scope_cache()
                     block_children.append(fixed_function)
                 else:
@@ -878,6 +879,7 @@ def fill_block(options: SrcmlcppOptions, element: SrcmlWrapper, inout_block_cont
                 macro_maybe_constructor = parse_unprocessed(options, child_c, inout_block_content)
                 fixed_ctor = fix_brace_init_default_value.change_macro_to_constructor(options, macro_maybe_constructor)
                 if fixed_ctor is not None:
+                    fixed_ctor.cpp_element_comments = copy.deepcopy(child_c.cpp_element_comments)
                     block_children.append(fixed_ctor)
             elif child_tag == "decl":
                 cpp_decl = parse_decl(options, child_c, inout_block_content, None)
-- 
2.43.0


From 586e7bf60932c09632211a02f33e8c51cc9bb8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 33/65] fix: show the comments of global variables in the stub

---
 src/litgen/internal/adapted_types/adapted_decl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_decl.py b/src/litgen/internal/adapted_types/adapted_decl.py
index 110ee93..ca7e05d 100644
--- a/src/litgen/internal/adapted_types/adapted_decl.py
+++ b/src/litgen/internal/adapted_types/adapted_decl.py
@@ -200,4 +200,4 @@ class AdaptedGlobalDecl(AdaptedDecl):
         line = f"{decl_name_cpp}: {decl_type_python}"
         if len(decl_value_python) > 0:
             line += f"  # = {decl_value_python}"
-        return [line]
+        return self._elm_comment_python_previous_lines() + [line]
-- 
2.43.0


From c5bae97b1b92ba667d845e6ab51b3427c70a05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 34/65] fix: restore the progress option when generating a
 named constructor fails

---
 src/litgen/internal/adapted_types/adapted_class.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 2c8ddc4..faf5cab 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1344,9 +1344,10 @@ class PythonNamedConstructorHelper:
             def make_cpp_unit_quiet(options: litgen.LitgenOptions, code: str) -> CppUnit:
                 flag_progress = options.srcmlcpp_options.flag_show_progress
                 options.srcmlcpp_options.flag_show_progress = False
-                unit = srcmlcpp.code_to_cpp_unit(options.srcmlcpp_options, code)
-                options.srcmlcpp_options.flag_show_progress = flag_progress
-                return unit
+                try:
+                    return srcmlcpp.code_to_cpp_unit(options.srcmlcpp_options, code)
+                finally:
+                    options.srcmlcpp_options.flag_show_progress = flag_progress
 
             cpp_code = make_fake_struct_cpp_code()
             cpp_unit = make_cpp_unit_quiet(self.adapted_class.options, cpp_code)
-- 
2.43.0


From 9dc82f7328aa40f43a8204c333b1926d3d470f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 35/65] fix: name the local variables of adapted functions
 differently from their parameters

---
 .../internal/adapt_function_params/_lambda_adapter.py  | 10 +++++++++-
 .../adapt_modifiable_immutable_to_return.py            |  7 ++++---
 .../adapt_function_params/apply_all_adapters.py        |  8 +++++---
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_lambda_adapter.py b/src/litgen/internal/adapt_function_params/_lambda_adapter.py
index 25565ce..5c042fa 100644
--- a/src/litgen/internal/adapt_function_params/_lambda_adapter.py
+++ b/src/litgen/internal/adapt_function_params/_lambda_adapter.py
@@ -1,7 +1,15 @@
 from __future__ import annotations
 from typing import Optional
 
-from srcmlcpp.cpp_types import CppFunctionDecl
+from srcmlcpp.cpp_types import CppFunctionDecl, CppParameter
+
+
+def local_variable_name(name: str, parameters: list[CppParameter]) -> str:
+    """Returns a name for a local variable of a lambda, which differs from the names of its parameters"""
+    parameters_names = [parameter.decl.decl_name for parameter in parameters]
+    while name in parameters_names:
+        name += "_"
+    return name
 
 
 class LambdaAdapter:
diff --git a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
index e5764d2..824c50c 100644
--- a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
+++ b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
@@ -8,7 +8,7 @@ from codemanip import code_utils
 
 from srcmlcpp.cpp_types import CppParameter, CppType
 
-from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter
+from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter, local_variable_name
 from litgen.internal.adapted_types import AdaptedFunction, AdaptedParameter
 
 
@@ -192,6 +192,7 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
     #
     old_function = adapted_function.cpp_adapted_function
     was_void_return_type = old_function.returns_void()
+    return_value_name = local_variable_name("r", new_function_params)
 
     def new_return_type_and_names() -> tuple[str, str]:
         number_of_return_params = len(new_output_function_params)
@@ -209,7 +210,7 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
             name_list = []
             if not was_void_return_type:
                 type_list.append(old_function.str_full_return_type())
-                name_list.append("r")
+                name_list.append(return_value_name)
             for new_output_function_param in new_output_function_params:
                 type_list.append(new_output_function_param.full_type())
                 name_list.append(new_output_function_param.decl.decl_name)
@@ -258,7 +259,7 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
             replacements.maybe_store_function_output = ""
         else:
             old_return_type = old_function.str_full_return_type()
-            replacements.maybe_store_function_output = f"{old_return_type} r = "
+            replacements.maybe_store_function_output = f"{old_return_type} {return_value_name} = "
 
         # fill function_name
         if adapted_function.lambda_to_call is not None:
diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index a65d037..ac2a845 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -7,7 +7,7 @@ from litgen import BindLibraryType
 from srcmlcpp.cpp_types import CppFunctionDecl
 from srcmlcpp import srcmlcpp_main
 
-from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter
+from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter, local_variable_name
 from litgen.internal.adapted_types import AdaptedFunction
 
 
@@ -171,9 +171,11 @@ def _make_adapted_lambda_code_end(adapted_function: AdaptedFunction, lambda_adap
         _return_referenced = "&" in adapted_function.cpp_element().return_type.modifiers
 
     # Fill auto_r_equal_or_void
+    assert lambda_adapter.new_function_infos is not None
+    _lambda_result = local_variable_name("lambda_result", lambda_adapter.new_function_infos.parameter_list.parameters)
     if _fn_return_type != "void":
         _auto = "auto&" if _return_referenced else "auto"
-        auto_r_equal_or_void = f"{_auto} lambda_result = "
+        auto_r_equal_or_void = f"{_auto} {_lambda_result} = "
     else:
         auto_r_equal_or_void = ""
 
@@ -191,7 +193,7 @@ def _make_adapted_lambda_code_end(adapted_function: AdaptedFunction, lambda_adap
             )
 
     # Fill maybe_return_r
-    maybe_return_r = None if _fn_return_type == "void" else "return lambda_result"
+    maybe_return_r = None if _fn_return_type == "void" else f"return {_lambda_result}"
 
     # Fill maybe_lambda_output_code
     if len(lambda_adapter.lambda_output_code) > 0:
-- 
2.43.0


From 39824f30e7ef3ff4a16c296a76b321421f4ce110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 36/65] fix: adapt variadic functions which need another
 adapter

---
 .../internal/adapt_function_params/apply_all_adapters.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index ac2a845..ece003c 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -49,7 +49,8 @@ def apply_all_adapters(inout_adapted_function: AdaptedFunction) -> None:
     assert_parents_are_present()
 
     all_adapters_functions = [
-        adapt_c_buffers,  # must be done at start
+        adapt_variadic_format,  # must be done first: the next adapters cannot forward "..."
+        adapt_c_buffers,  # must be done before the other adapters
         adapt_exclude_params,
         adapt_mutable_param_with_default_value,  # must be done just after adapt_exclude_params
         adapt_c_arrays,
@@ -58,7 +59,6 @@ def apply_all_adapters(inout_adapted_function: AdaptedFunction) -> None:
         adapt_modifiable_immutable,  # must be done *after* adapt_c_buffers
         adapt_c_string_list,
         adapt_c_string_list_no_count,
-        adapt_variadic_format,
     ]
     all_adapters_functions += inout_adapted_function.options.fn_custom_adapters
 
-- 
2.43.0


From d9ee43dbffa95a87f5b5497ac54a25134f065c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 37/65] fix: keep the default value of C string list parameters

---
 .../internal/adapt_function_params/_adapt_c_string_list.py  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py b/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
index 92f5381..dd5b9b1 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
@@ -87,7 +87,8 @@ def adapt_c_string_list(adapted_function: AdaptedFunction) -> Optional[LambdaAda
             new_decl = new_param.decl
             if new_decl.is_c_array():
                 new_decl.c_array_code = ""
-            new_decl.initial_value_code = ""
+            if len(new_decl.initial_value_code) > 0:
+                new_decl.initial_value_code = "std::vector<std::string>()"
             new_decl.cpp_type.specifiers = ["const"]
             new_decl.cpp_type.typenames = ["std::vector<std::string>"]
             new_decl.cpp_type.modifiers = ["&"]
@@ -201,7 +202,8 @@ def adapt_c_string_list_no_count(adapted_function: AdaptedFunction) -> Optional[
             new_decl = new_param.decl
             if new_decl.is_c_array():
                 new_decl.c_array_code = ""
-            new_decl.initial_value_code = ""
+            if len(new_decl.initial_value_code) > 0:
+                new_decl.initial_value_code = "std::vector<std::string>()"
             new_decl.cpp_type.specifiers = ["const"]
             new_decl.cpp_type.typenames = ["std::vector<std::string>"]
             new_decl.cpp_type.modifiers = ["&"]
-- 
2.43.0


From fcc8fed29f29c678876e01c7bc9a6f2a8cc1598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 38/65] fix: adapt const char pointers with a null default
 value in all functions

---
 .../adapt_const_char_pointer_with_default_null.py           | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/adapt_const_char_pointer_with_default_null.py b/src/litgen/internal/adapt_function_params/adapt_const_char_pointer_with_default_null.py
index 8040fdf..a95dd18 100644
--- a/src/litgen/internal/adapt_function_params/adapt_const_char_pointer_with_default_null.py
+++ b/src/litgen/internal/adapt_function_params/adapt_const_char_pointer_with_default_null.py
@@ -13,12 +13,6 @@ def adapt_const_char_pointer_with_default_null(adapted_function: AdaptedFunction
     if not options.fn_params_const_char_pointer_with_default_null:
         return None
 
-    function_name = adapted_function.cpp_adapted_function.function_name
-    if not code_utils.does_match_regex_or_matcher(
-        options.fn_params_output_modifiable_immutable_to_return__regex, function_name
-    ):
-        return None
-
     needs_adapt = False
 
     for old_adapted_param in adapted_function.adapted_parameters():
-- 
2.43.0


From 74fa052c28e7924bc9f2c9008f197bda03976546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 39/65] fix: do not adapt lists of strings as strings with a
 null default value

---
 src/litgen/internal/adapted_types/adapted_function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 67b15ed..7aa0c86 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -78,7 +78,9 @@ class AdaptedParameter(AdaptedElement):
         is_char = type_names == ["char"]
         is_default_null = initial_value_cpp in ["NULL", "nullptr"]
 
-        r = is_pointer and is_const and is_char and is_default_null
+        is_array = self.cpp_element().decl.is_c_array()
+
+        r = is_pointer and is_const and is_char and is_default_null and not is_array
         return r
 
     def adapted_decl(self) -> AdaptedDecl:
-- 
2.43.0


From fcb80dd453d045161b55786fb37ef40923757f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 40/65] fix: do not store the tuple returned by an adapted
 function in a reference

---
 .../internal/adapt_function_params/apply_all_adapters.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index ece003c..c6fc957 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -167,8 +167,8 @@ def _make_adapted_lambda_code_end(adapted_function: AdaptedFunction, lambda_adap
     _fn_return_type = adapted_function.cpp_adapted_function.str_full_return_type()
     _return_referenced = False
 
-    if hasattr(adapted_function.cpp_element(), "return_type"):
-        _return_referenced = "&" in adapted_function.cpp_element().return_type.modifiers
+    if hasattr(adapted_function.cpp_adapted_function, "return_type"):
+        _return_referenced = "&" in adapted_function.cpp_adapted_function.return_type.modifiers
 
     # Fill auto_r_equal_or_void
     assert lambda_adapter.new_function_infos is not None
-- 
2.43.0


From a980f41b1ea91fcc27a2de7d6964e15d4f25ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 41/65] fix: copy the object returned by reference in the tuple
 of an adapted function

---
 .../adapt_modifiable_immutable_to_return.py              | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
index 824c50c..ad5c831 100644
--- a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
+++ b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
@@ -209,7 +209,14 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
             type_list = []
             name_list = []
             if not was_void_return_type:
-                type_list.append(old_function.str_full_return_type())
+                if old_function.return_type.modifiers == ["&"]:
+                    # The tuple contains a copy of the returned object
+                    value_type = copy.deepcopy(old_function)
+                    value_type.return_type.modifiers = []
+                    value_type.return_type.specifiers = [s for s in value_type.return_type.specifiers if s != "const"]
+                    type_list.append(value_type.str_full_return_type())
+                else:
+                    type_list.append(old_function.str_full_return_type())
                 name_list.append(return_value_name)
             for new_output_function_param in new_output_function_params:
                 type_list.append(new_output_function_param.full_type())
-- 
2.43.0


From 221cf52b34031efebd9f2b93afbdc87b0139eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 42/65] fix: accept np_int_l and np_uint_l buffers with
 nanobind

---
 src/litgen/internal/cpp_to_python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index c876815..86841cf 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -508,6 +508,9 @@ _NANOBIND_CPP_TYPE_TO_DTYPE_CODE = {
     "long long": "Int",
     "signed long long": "Int",
     "unsigned long long": "UInt",
+    # Platform dependent int types (see _PY_ARRAY_TYPE_TO_CPP_TYPE)
+    "np_uint_l": "UInt",
+    "np_int_l": "Int",
     # Float types
     "float": "Float",
     "double": "Float",
-- 
2.43.0


From 29fc7112016261cdd73652aa92f0314e87512b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 43/65] fix: keep every word of the types of buffers, sizes and
 strides

---
 .../internal/adapt_function_params/_adapt_c_buffers.py      | 6 +++---
 .../internal/adapt_function_params/_adapt_c_string_list.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index aa8a8c8..f68f349 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -490,7 +490,7 @@ class _AdaptBuffersHelper:
 
     def _adapted_param_buffer_size(self, idx_param: int) -> str:
         param = self._param(idx_param)
-        raw_size_type = param.decl.cpp_type.typenames[0]
+        raw_size_type = " ".join(param.decl.cpp_type.typenames)
         count_variable = self._pyarray_count(idx_param)
         r = f"static_cast<{raw_size_type}>({count_variable})"
         return r
@@ -522,7 +522,7 @@ class _AdaptBuffersHelper:
         return "const " if self._is_const(idx_param) else ""
 
     def _original_raw_type(self, idx_param: int) -> str:
-        return self._param(idx_param).decl.cpp_type.typenames[0]
+        return " ".join(self._param(idx_param).decl.cpp_type.typenames)
 
     def _adapted_param_buffer_standard(self, idx_param: int) -> str:
         const_space_or_empty = "const " if self._is_const(idx_param) else ""
@@ -633,7 +633,7 @@ class _AdaptBuffersHelper:
     def _adapted_param_stride(self, idx_param: int) -> str:
         stride_param = self._param(idx_param)
         stride_adapted_name = self._stride_adapted_name(idx_param)
-        stride_param_raw_type = stride_param.decl.cpp_type.typenames[0]
+        stride_param_raw_type = " ".join(stride_param.decl.cpp_type.typenames)
         if stride_param_raw_type != "int":
             r = f"static_cast<{stride_param_raw_type}>({stride_adapted_name})"
         else:
diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py b/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
index dd5b9b1..424663e 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
@@ -104,7 +104,7 @@ def adapt_c_string_list(adapted_function: AdaptedFunction) -> Optional[LambdaAda
             param_name = new_decl.decl_name
             vec_name = f"{param_name}_ptrs"
             next_param = old_function_params[i + 1]
-            size_type = next_param.decl.cpp_type.typenames[0]
+            size_type = " ".join(next_param.decl.cpp_type.typenames)
             size_name = next_param.decl.decl_name
 
             if size_type != "size_t" and size_type != "std::size_t":
-- 
2.43.0


From 2695e1ae3935846b354a9fde298ad3c662148b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 44/65] fix: accept 64 bits integers for long long template
 buffers with nanobind

---
 .../internal/adapt_function_params/_adapt_c_buffers.py    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index f68f349..bac6470 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -427,6 +427,12 @@ class _AdaptBuffersHelper:
                 # fill maybe_else
                 maybe_else = "" if i == 0 else "else "
 
+                # nanobind only knows the size of the items: 64 bits signed integers are identified by the letter 'l'
+                array_type_letter = pyarray_type_char
+                if self.options.bind_library == BindLibraryType.nanobind and cpp_numeric_type == "long long":
+                    if "np_int_l" not in self.options._fn_params_buffer_types_list():
+                        array_type_letter = "l"
+
                 # Fill adapted_cpp_parameters_with_static_cast
                 adapted_cpp_parameters_with_static_cast = self._adapted_cpp_parameters_template_static_cast(
                     pyarray_type_char
@@ -439,7 +445,7 @@ class _AdaptBuffersHelper:
                         "_i_": _i_,
                         "maybe_else": maybe_else,
                         "template_buffer_name": template_buffer_name,
-                        "pyarray_type_char": pyarray_type_char,
+                        "pyarray_type_char": array_type_letter,
                         "maybe_return": maybe_return,
                         "function_or_lambda_to_call": function_or_lambda_to_call,
                         "adapted_cpp_parameters_with_static_cast": adapted_cpp_parameters_with_static_cast,
-- 
2.43.0


From 7fc2b6089803c0fea947c87fb02ebd11c7f12076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 45/65] fix: a copied function does not keep the cached types
 of its original

---
 src/srcmlcpp/cpp_types/scope/scoped_element_cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py b/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py
index 60216bc..fc244eb 100644
--- a/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py
+++ b/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py
@@ -16,6 +16,10 @@ class ScopedElementCache:
     def __init__(self) -> None:
         self._cache = {}
 
+    def __deepcopy__(self, memo=None):  # type: ignore
+        """An element is copied in order to be modified: what was cached for the original does not apply to its copy"""
+        return ScopedElementCache()
+
     def contains(self, cpp_scope: CppScope) -> bool:
         r = cpp_scope.str_cpp in self._cache.keys()
         return r
-- 
2.43.0


From 55979e7db9f6387c26c40807fe2a74a44e73e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 46/65] fix: instantiate the templates whose declaration does
 not use the template parameter

---
 src/srcmlcpp/cpp_types/classes/cpp_struct.py          | 2 +-
 src/srcmlcpp/cpp_types/functions/cpp_function_decl.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/classes/cpp_struct.py b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
index bd8f04b..c812ef2 100644
--- a/src/srcmlcpp/cpp_types/classes/cpp_struct.py
+++ b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
@@ -347,7 +347,7 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
         new_class = copy.deepcopy(self)
         new_class._store_template_specs(template_specs)
 
-        was_changed = False
+        was_changed = len(new_class.specialized_template_params) > len(self.specialized_template_params)
 
         for ppp_new_block in new_class.block.block_children:
             if isinstance(ppp_new_block, CppPublicProtectedPrivate):
diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index 674f0eb..87a9b4e 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -135,7 +135,7 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         new_function = copy.deepcopy(self)
         new_function._store_template_specs(template_specs)
 
-        was_changed = False
+        was_changed = len(new_function.specialized_template_params) > len(self.specialized_template_params)
 
         if hasattr(new_function, "return_type"):
             new_return_type = new_function.return_type.with_specialized_template(template_specs)
-- 
2.43.0


From cedec4011709d6b79cb0aef71de06e737b5820e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 47/65] fix: replace the template parameters in default and
 initial values

---
 src/srcmlcpp/cpp_types/decls_types/cpp_decl.py           | 7 +++++--
 .../cpp_types/template/cpp_template_specialization.py    | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
index 83cdc02..1be3f8b 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
@@ -380,11 +380,14 @@ class CppDecl(CppElementAndComment):
         Returns None if this decl does not use "template_name"
         """
         new_type = self.cpp_type.with_specialized_template(template_specs)
-        if new_type is None:
+        new_initial_value_code = template_specs.apply_to_code(self.initial_value_code)
+        if new_type is None and new_initial_value_code == self.initial_value_code:
             return None
         else:
             new_decl = copy.deepcopy(self)
-            new_decl.cpp_type = new_type
+            if new_type is not None:
+                new_decl.cpp_type = new_type
+            new_decl.initial_value_code = new_initial_value_code
             return new_decl
 
     def visit_cpp_breadth_first(self, cpp_visitor_function: CppElementsVisitorFunction, depth: int = 0) -> None:
diff --git a/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py b/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py
index c3fde59..315ff12 100644
--- a/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py
+++ b/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import re
 
 from srcmlcpp.cpp_types.decls_types.cpp_type import CppType
 
@@ -63,3 +64,11 @@ class CppTemplateSpecialization:
         r = CppTemplateSpecialization("from_within")
         r.specializations = specializations
         return r
+
+    def apply_to_code(self, code: str) -> str:
+        """Replaces the template names (as whole tokens, outside of the string literals) by their types"""
+        for specialization in self.specializations:
+            type_code = specialization.cpp_type.str_code()
+            token_regex = r'"(?:[^"\\]|\\.)*"|(?<!\w)' + re.escape(specialization.template_name) + r"(?!\w)"
+            code = re.sub(token_regex, lambda m: m.group(0) if m.group(0).startswith('"') else type_code, code)
+        return code
-- 
2.43.0


From be23895ce08fc3e3d4f53ab74ab862e885879b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 48/65] fix: the name of a template class designates its
 specialization inside the class

---
 src/srcmlcpp/cpp_types/classes/cpp_struct.py  | 12 +++++++++++-
 .../cpp_types/decls_types/cpp_decl.py         |  2 ++
 .../cpp_types/decls_types/cpp_type.py         | 19 ++++---------------
 .../cpp_types/functions/cpp_function_decl.py  |  7 ++++---
 .../template/cpp_template_specialization.py   |  3 ++-
 5 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/classes/cpp_struct.py b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
index c812ef2..87a3067 100644
--- a/src/srcmlcpp/cpp_types/classes/cpp_struct.py
+++ b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
@@ -22,7 +22,10 @@ from srcmlcpp.cpp_types.classes.cpp_super_list import CppSuperList
 from srcmlcpp.cpp_types.decls_types import CppDecl, CppDeclStatement
 from srcmlcpp.cpp_types.functions import CppFunctionDecl
 from srcmlcpp.cpp_types.template.cpp_i_template_host import CppITemplateHost
-from srcmlcpp.cpp_types.template.cpp_template_specialization import CppTemplateSpecialization
+from srcmlcpp.cpp_types.template.cpp_template_specialization import (
+    CppTemplateSpecialization,
+    CppTemplateSpecializationPart,
+)
 from srcmlcpp.srcml_wrapper import SrcmlWrapper
 
 __all__ = ["CppStruct"]
@@ -349,6 +352,13 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
 
         was_changed = len(new_class.specialized_template_params) > len(self.specialized_template_params)
 
+        if was_changed and new_class.is_template_fully_specialized():
+            # Inside the class, its name (without template arguments) designates the specialized class
+            specialized_name = CppTemplateSpecializationPart(new_class.class_name_with_specialization(), self.class_name)
+            template_specs = CppTemplateSpecialization.from_specializations(
+                template_specs.specializations + [specialized_name]
+            )
+
         for ppp_new_block in new_class.block.block_children:
             if isinstance(ppp_new_block, CppPublicProtectedPrivate):
                 ppp_new_block_children: list[CppElementAndComment] = []
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
index 1be3f8b..f0b659a 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
@@ -385,6 +385,8 @@ class CppDecl(CppElementAndComment):
             return None
         else:
             new_decl = copy.deepcopy(self)
+            # what was cached for the original decl does not apply to its specialization
+            new_decl.__dict__.pop("_cpp_decl_with_qualified_types", None)
             if new_type is not None:
                 new_decl.cpp_type = new_type
             new_decl.initial_value_code = new_initial_value_code
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
index 6053bef..dc9f11d 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
@@ -198,24 +198,13 @@ class CppType(CppElementAndComment):
         """Returns a new type where "template_name" is replaced by "cpp_type"
         Returns None if this type does not use "template_name"
         """
-        import re
-
         was_changed = False
         new_type = copy.deepcopy(self)
         for i in range(len(new_type.typenames)):
-            for template_spec in template_specs.specializations:
-                assert len(template_spec.cpp_type.typenames) == 1
-                template_spec_type = template_spec.cpp_type.str_code()
-                if new_type.typenames[i] == template_spec.template_name:
-                    was_changed = True
-                    new_type.typenames[i] = template_spec_type
-                else:
-                    new_typename, nb_sub = re.subn(
-                        rf"\b{template_spec.template_name}\b", template_spec_type, new_type.typenames[i]
-                    )
-                    if nb_sub > 0:
-                        was_changed = True
-                        new_type.typenames[i] = new_typename
+            new_typename = template_specs.apply_to_code(new_type.typenames[i])
+            if new_typename != new_type.typenames[i]:
+                was_changed = True
+                new_type.typenames[i] = new_typename
 
         if was_changed:
             return new_type
diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index 87a9b4e..e5c79ff 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -426,11 +426,12 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         if len(self.parameter_list.parameters) != 1:
             return False
 
-        parent_struct_name = self.parent_struct_name_if_method()
-        assert parent_struct_name is not None
+        parent_struct = self.parent_struct_if_method()
+        assert parent_struct is not None
         param_type = self.parameter_list.parameters[0].decl.cpp_type
 
-        is_same_type = param_type.typenames == [parent_struct_name]
+        parent_names = [parent_struct.class_name, parent_struct.class_name_with_specialization()]
+        is_same_type = " ".join(param_type.typenames) in parent_names
         is_const_ref = "const" in param_type.specifiers and param_type.modifiers == ["&"]
         is_pass_by_copy = len(param_type.specifiers) == 0 and len(param_type.modifiers) == 0
 
diff --git a/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py b/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py
index 315ff12..37286a5 100644
--- a/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py
+++ b/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py
@@ -69,6 +69,7 @@ class CppTemplateSpecialization:
         """Replaces the template names (as whole tokens, outside of the string literals) by their types"""
         for specialization in self.specializations:
             type_code = specialization.cpp_type.str_code()
-            token_regex = r'"(?:[^"\\]|\\.)*"|(?<!\w)' + re.escape(specialization.template_name) + r"(?!\w)"
+            name = re.escape(specialization.template_name)
+            token_regex = r'"(?:[^"\\]|\\.)*"|(?<!\w)(?<!::)' + name + r"(?!\w|\s*<)"
             code = re.sub(token_regex, lambda m: m.group(0) if m.group(0).startswith('"') else type_code, code)
         return code
-- 
2.43.0


From 6a4d9b7c0e98ad601befd33583af4db1961ad645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 49/65] fix: scoped or nested references to a template class
 use its specialization

---
 src/litgen/internal/cpp_to_python.py    |  13 +--
 src/litgen/internal/template_options.py | 145 +++++++++++++++++-------
 2 files changed, 112 insertions(+), 46 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 86841cf..a551f43 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -188,7 +188,7 @@ def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
     if specialized_type_python_name is not None:
         r = specialized_type_python_name
     else:
-        r = cpp_type_str
+        r = options.class_template_options.specialized_nested_types(cpp_type_str, options.type_replacements)
     r = re.sub(r"\b(static|constexpr|extern)\s", "", r)
     r = _rename_python_keywords(lg_context, r)
 
@@ -300,6 +300,10 @@ def var_value_to_python(
 
     # The content of the string literals shall not be translated
     r, literals = _mask_string_literals(default_value_cpp)
+
+    # If this default value uses a bound template type, translate it
+    r = options.class_template_options.specialized_default_value(r, options.type_replacements)
+
     r = _rename_python_keywords(lg_context, r, keep=("True", "False", "None"))
 
     # The type replacements remove the tokens & and *: this is unwanted if they are operators
@@ -324,13 +328,6 @@ def var_value_to_python(
 
     r = _unmask_string_literals(r, literals)
 
-    # If this default value uses a bound template type, try to translate it
-    specialized_type_python_default_value = options.class_template_options.specialized_type_python_default_value(
-        default_value_cpp, lg_context.options.type_replacements
-    )
-    if specialized_type_python_default_value is not None:
-        r = specialized_type_python_default_value
-
     return r
 
 
diff --git a/src/litgen/internal/template_options.py b/src/litgen/internal/template_options.py
index fcc726b..f90f951 100644
--- a/src/litgen/internal/template_options.py
+++ b/src/litgen/internal/template_options.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import re
+
 import srcmlcpp
 from srcmlcpp.cpp_types import CppType
 from codemanip import code_utils
@@ -15,6 +17,27 @@ def _cpp_types_list_str_to_cpp_types(cpp_types_list_str: list[str]) -> list[CppT
     return cpp_types_list
 
 
+def _same_type_or_scope_omitted(type_a: str, type_b: str) -> bool:
+    """Tells whether two C++ types are the same: their scope may be omitted, fully or partly (e.g. "Foo" and "N::Foo")"""
+    return type_a == type_b or type_a.endswith("::" + type_b) or type_b.endswith("::" + type_a)
+
+
+def _find_template_instantiation(cpp_code: str, start: int) -> tuple[int, int, int] | None:
+    """Finds the next template instantiation (e.g. "N::Foo<int>") in a C++ type or value.
+    Returns the indexes of its first character, of its opening "<", and of what follows its closing ">"
+    """
+    for m in re.compile(r"(?<![\w:])[A-Za-z_:][\w:]*\s*<").finditer(cpp_code, start):
+        depth = 0
+        for i in range(m.end() - 1, len(cpp_code)):
+            if cpp_code[i] == "<":
+                depth += 1
+            elif cpp_code[i] == ">":
+                depth -= 1
+                if depth == 0:
+                    return m.start(), m.end() - 1, i + 1
+    return None
+
+
 def _apply_template_naming(tpl_class_or_function_name: str, instantiated_cpp_type_str: str) -> str:
     instantiated_cpp_type_str = (
         instantiated_cpp_type_str.replace("std::", "")
@@ -60,13 +83,24 @@ class _TemplateSpecializationSpec:
         r = code_utils.does_match_regex_or_matcher(self.name_regex, template_name)
         return r
 
-    def handles_type_instantiation(self, cpp_type: CppType) -> bool:
-        r = False
+    def matches_template_type_name(self, template_name: str) -> bool:
+        """Same as matches_template_name, for the name of a type, which may include a scope"""
+        unscoped_name = template_name.split("::")[-1]
+        return self.matches_template_name(template_name) or self.matches_template_name(unscoped_name)
+
+    def handled_type_instantiation(self, cpp_type: CppType) -> str | None:
+        """Returns the name of this type, as written in the list of the handled types"""
         cpp_type_str = cpp_type.str_code()
-        for handled_type in self.cpp_types_list:
-            if cpp_type_str == handled_type.str_code():
-                r = True
-        return r
+        handled_types = [handled_type.str_code() for handled_type in self.cpp_types_list]
+        if cpp_type_str in handled_types:
+            return cpp_type_str
+        for handled_type in handled_types:
+            if _same_type_or_scope_omitted(cpp_type_str, handled_type):
+                return handled_type
+        return None
+
+    def handles_type_instantiation(self, cpp_type: CppType) -> bool:
+        return self.handled_type_instantiation(cpp_type) is not None
 
     def handles_type_synonym(self, cpp_type: CppType) -> bool:
         r = False
@@ -81,7 +115,7 @@ class _TemplateSpecializationSpec:
             return False
         cpp_tpl_name = cpp_type.template_name()
         assert cpp_tpl_name is not None
-        if not self.matches_template_name(cpp_tpl_name):
+        if not self.matches_template_type_name(cpp_tpl_name):
             return False
         template_instantiated_unique_type = cpp_type.template_instantiated_unique_type()
         if template_instantiated_unique_type is None:
@@ -93,7 +127,7 @@ class _TemplateSpecializationSpec:
             return False
         cpp_tpl_name = cpp_type.template_name()
         assert cpp_tpl_name is not None
-        if not self.matches_template_name(cpp_tpl_name):
+        if not self.matches_template_type_name(cpp_tpl_name):
             return False
         template_instantiated_unique_type = cpp_type.template_instantiated_unique_type()
         if template_instantiated_unique_type is None:
@@ -105,7 +139,7 @@ class _TemplateSpecializationSpec:
             return False
         cpp_tpl_name = cpp_type.template_name()
         assert cpp_tpl_name is not None
-        if not self.matches_template_name(cpp_tpl_name):
+        if not self.matches_template_type_name(cpp_tpl_name):
             return False
         template_instantiated_unique_type = cpp_type.template_instantiated_unique_type()
         if template_instantiated_unique_type is None:
@@ -129,7 +163,10 @@ class _TemplateSpecializationSpec:
         assert cpp_tpl_name is not None
         template_instantiated_unique_type = cpp_type.template_instantiated_unique_type()
         assert template_instantiated_unique_type is not None
-        template_instantiated_unique_type_str = template_instantiated_unique_type.str_code()
+        template_instantiated_unique_type_str = (
+            self.handled_type_instantiation(template_instantiated_unique_type)
+            or template_instantiated_unique_type.str_code()
+        )
         name = _apply_template_naming(cpp_tpl_name, template_instantiated_unique_type_str)
         name = type_replacements.apply(name)
         return name
@@ -182,7 +219,26 @@ class TemplateSpecList:
         for s in self.specs:
             if s.shall_exclude_type(cpp_type):
                 return True
-        return False
+        return self._shall_exclude_nested_type(cpp_type)
+
+    def _shall_exclude_nested_type(self, cpp_type: CppType) -> bool:
+        """Tells whether one of the arguments of a template type (e.g. std::vector<Foo<int>>) shall be excluded"""
+        joined_typenames = " ".join(cpp_type.typenames)
+        start = joined_typenames.index("<") + 1
+        while True:
+            instantiation = _find_template_instantiation(joined_typenames, start)
+            if instantiation is None:
+                return False
+            start, start_args, end = instantiation
+            template_name = joined_typenames[start:start_args].strip()
+            if any(spec.matches_template_type_name(template_name) for spec in self.specs):
+                try:
+                    nested_type = srcmlcpp.code_to_cpp_type(srcmlcpp.SrcmlcppOptions(), joined_typenames[start:end])
+                except srcmlcpp.SrcmlcppException:
+                    return False
+                if any(spec.shall_exclude_type(nested_type) for spec in self.specs):
+                    return True
+            start = start_args + 1
 
 
 class TemplateFunctionsOptions(TemplateSpecList):
@@ -277,36 +333,47 @@ class TemplateClassOptions(TemplateSpecList):
             add_suffix_to_function_name=False,
         )
 
-    def specialized_type_python_default_value(
-        self, cpp_default_value_str: str, type_replacements: RegexReplacementList
-    ) -> str | None:
-        if "<" not in cpp_default_value_str:
-            return None
-        has_paren = "(" in cpp_default_value_str and ")" in cpp_default_value_str
-        has_accolades = "{" in cpp_default_value_str and "}" in cpp_default_value_str
-        if not has_paren and not has_accolades:
-            return None
-
-        if has_accolades:
-            index_paren = cpp_default_value_str.index("{")
-        else:
-            index_paren = cpp_default_value_str.index("(")
-
-        cpp_default_value_type_supposed = cpp_default_value_str[0:index_paren]
-        cpp_default_value_params = cpp_default_value_str[index_paren:]
-        if has_accolades:
-            cpp_default_value_params = cpp_default_value_params.replace("{", "(").replace("}", ")")
-
-        specialized_type_python_name_str = self.specialized_type_python_name_str(
-            cpp_default_value_type_supposed, type_replacements
-        )
-        if specialized_type_python_name_str is None:
-            return None
-        r = specialized_type_python_name_str + cpp_default_value_params
-        return r
+    def specialized_default_value(self, cpp_default_value_str: str, type_replacements: RegexReplacementList) -> str:
+        """Replaces the specialized template types by their python name inside a default value"""
+        instantiation = _find_template_instantiation(cpp_default_value_str, 0)
+        if instantiation is not None and instantiation[0] == 0:
+            end = instantiation[2]
+            python_name = self.specialized_type_python_name_str(cpp_default_value_str[:end], type_replacements)
+            params = cpp_default_value_str[end:].strip()
+            if python_name is not None:
+                if params.startswith("{") and params.endswith("}"):
+                    params = "(" + params[1:-1] + ")"
+                return python_name + self.specialized_nested_types(params, type_replacements)
+        return self.specialized_nested_types(cpp_default_value_str, type_replacements)
+
+    def specialized_nested_types(self, cpp_code: str, type_replacements: RegexReplacementList) -> str:
+        """Replaces the specialized template types by their python name, including when they are used
+        as template arguments (e.g. "std::vector<Foo<int>>" => "std::vector<Foo_int>")"""
+        r = ""
+        current = 0
+        while True:
+            instantiation = _find_template_instantiation(cpp_code, current)
+            if instantiation is None:
+                return r + cpp_code[current:]
+            start, start_args, end = instantiation
+            r += cpp_code[current:start]
+            python_name = None
+            if any(spec.matches_template_type_name(cpp_code[start:start_args].strip()) for spec in self.specs):
+                python_name = self._specialized_type_python_name_str(cpp_code[start:end], type_replacements, False)
+            if python_name is not None:
+                r += python_name
+                current = end
+            else:
+                r += cpp_code[start : start_args + 1]
+                current = start_args + 1
 
     def specialized_type_python_name_str(
         self, cpp_type_str: str, type_replacements: RegexReplacementList
+    ) -> str | None:
+        return self._specialized_type_python_name_str(cpp_type_str, type_replacements, True)
+
+    def _specialized_type_python_name_str(
+        self, cpp_type_str: str, type_replacements: RegexReplacementList, allow_synonyms: bool
     ) -> str | None:
         if "<" not in cpp_type_str:
             return None
@@ -315,6 +382,8 @@ class TemplateClassOptions(TemplateSpecList):
             cpp_type2 = srcmlcpp.code_to_cpp_type(options, cpp_type_str)
         except srcmlcpp.SrcmlcppException:
             return None
+        if not allow_synonyms and not self.shall_specialize_type(cpp_type2):
+            return None
         return self.specialized_type_python_name(cpp_type2, type_replacements)
 
     def specialized_type_python_name(self, cpp_type: CppType, type_replacements: RegexReplacementList) -> str | None:
-- 
2.43.0


From 3998e8960bfc4b00575d83dcf5ccef8ef9481f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 50/65] fix: the last template specialization that matches
 applies to names and references also

---
 src/litgen/internal/template_options.py | 45 +++++++++++++------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/litgen/internal/template_options.py b/src/litgen/internal/template_options.py
index f90f951..fab1714 100644
--- a/src/litgen/internal/template_options.py
+++ b/src/litgen/internal/template_options.py
@@ -197,28 +197,30 @@ class TemplateSpecList:
         spec = _TemplateSpecializationSpec(class_name_regex, [], False, [])
         self.specs.append(spec)
 
+    def _spec_for_type(self, cpp_type: CppType) -> _TemplateSpecializationSpec | None:
+        """Returns the spec that applies to a template type: the last one that matches its name"""
+        template_name = cpp_type.template_name()
+        if template_name is None:
+            return None
+        for s in reversed(self.specs):
+            if s.matches_template_type_name(template_name):
+                return s
+        return None
+
     def shall_specialize_type(self, cpp_type: CppType) -> bool:
-        if not cpp_type.is_template():
-            return False
-        for s in self.specs:
-            if s.shall_specialize_type(cpp_type):
-                return True
-        return False
+        spec = self._spec_for_type(cpp_type)
+        return spec is not None and spec.shall_specialize_type(cpp_type)
 
     def shall_synonymize_type(self, cpp_type: CppType) -> bool:
-        if not cpp_type.is_template():
-            return False
-        for s in self.specs:
-            if s.shall_synonymize_type(cpp_type):
-                return True
-        return False
+        spec = self._spec_for_type(cpp_type)
+        return spec is not None and spec.shall_synonymize_type(cpp_type)
 
     def shall_exclude_type(self, cpp_type: CppType) -> bool:
         if not cpp_type.is_template():
             return False
-        for s in self.specs:
-            if s.shall_exclude_type(cpp_type):
-                return True
+        spec = self._spec_for_type(cpp_type)
+        if spec is not None and spec.shall_exclude_type(cpp_type):
+            return True
         return self._shall_exclude_nested_type(cpp_type)
 
     def _shall_exclude_nested_type(self, cpp_type: CppType) -> bool:
@@ -236,7 +238,8 @@ class TemplateSpecList:
                     nested_type = srcmlcpp.code_to_cpp_type(srcmlcpp.SrcmlcppOptions(), joined_typenames[start:end])
                 except srcmlcpp.SrcmlcppException:
                     return False
-                if any(spec.shall_exclude_type(nested_type) for spec in self.specs):
+                spec = self._spec_for_type(nested_type)
+                if spec is not None and spec.shall_exclude_type(nested_type):
                     return True
             start = start_args + 1
 
@@ -279,7 +282,7 @@ class TemplateFunctionsOptions(TemplateSpecList):
         )
 
     def specialized_function_python_name(self, function_name: str, cpp_type: CppType) -> str | None:
-        for s in self.specs:
+        for s in reversed(self.specs):  # the last spec that matches applies
             matches_name = code_utils.does_match_regex_or_matcher(s.name_regex, function_name)
             matches_type = s.handles_type_instantiation(cpp_type) or s.handles_type_synonym(cpp_type)
             if matches_name and matches_type:
@@ -387,9 +390,7 @@ class TemplateClassOptions(TemplateSpecList):
         return self.specialized_type_python_name(cpp_type2, type_replacements)
 
     def specialized_type_python_name(self, cpp_type: CppType, type_replacements: RegexReplacementList) -> str | None:
-        if not self.shall_specialize_type(cpp_type) and not self.shall_synonymize_type(cpp_type):
+        spec = self._spec_for_type(cpp_type)
+        if spec is None:
             return None
-        for s in self.specs:
-            if s.shall_specialize_type(cpp_type) or s.shall_synonymize_type(cpp_type):
-                return s.specialized_type_python_name(cpp_type, type_replacements)
-        return None  # We should never get here!
+        return spec.specialized_type_python_name(cpp_type, type_replacements)
-- 
2.43.0


From 8f36a25c879890ff828199f76775fc5e977a4318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 51/65] fix: a template class synonym refers to the name of the
 bound class

---
 src/litgen/internal/adapted_types/adapted_class.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index faf5cab..500911b 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1025,10 +1025,13 @@ class AdaptedClass(AdaptedElement):
         stubs_synonym_code = []
         for cpp_synonym in matching_template_spec.cpp_types_synonyms:
             tpl_class_name_python = cpp_to_python._class_name_to_python(self.options, self.cpp_element().class_name)
-            syn_python = cpp_to_python._class_name_to_python(self.options, cpp_synonym.synonym_name)
-            target_python = cpp_to_python._class_name_to_python(self.options, cpp_synonym.synonym_target)
-            tpl_syn_python = template_options._apply_template_naming(tpl_class_name_python, syn_python)
-            tpl_target_python = template_options._apply_template_naming(tpl_class_name_python, target_python)
+            # use the same names as the instantiated classes
+            tpl_syn_python, tpl_target_python = (
+                cpp_to_python.type_to_python(
+                    self.lg_context, template_options._apply_template_naming(tpl_class_name_python, cpp_type_str)
+                )
+                for cpp_type_str in (cpp_synonym.synonym_name, cpp_synonym.synonym_target)
+            )
             stubs_synonym_code.append(f"{tpl_syn_python} = {tpl_target_python}")
 
         return _AdaptedInstantiatedTemplateClasses(new_classes, stubs_synonym_code)
-- 
2.43.0


From 618f3e7e526c3b9eb8754bbd32b9093754adce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:20 +0000
Subject: [PATCH 52/65] fix: the named constructors of the classes of nested
 scopes name their types in the right scope

---
 src/litgen/internal/adapted_types/adapted_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 500911b..6553dfb 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1333,7 +1333,7 @@ class PythonNamedConstructorHelper:
             """
 
             class_scope = self.adapted_class.cpp_element().cpp_scope()
-            for scope_part in class_scope.scope_parts:
+            for scope_part in reversed(class_scope.scope_parts):  # from the innermost scope to the outermost
                 if scope_part.scope_type == CppScopeType.Namespace:
                     str_cpp_code = "namespace " + scope_part.scope_name + " {\n" + str_cpp_code + "\n}\n"
                 elif scope_part.scope_type == CppScopeType.ClassOrStruct:
-- 
2.43.0


From 4781f729564853a8c1b0341e4d7b43761bb76fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 53/65] fix: resolve names in the innermost scope, outside of
 literals and of the members of objects

---
 .../cpp_types/decls_types/cpp_decl.py         |   3 +-
 .../cpp_types/decls_types/cpp_type.py         |   6 +-
 .../cpp_types/scope/cpp_scope_identifiers.py  |   3 +
 .../cpp_types/scope/cpp_scope_process.py      | 184 +++++++++---------
 4 files changed, 106 insertions(+), 90 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
index f0b659a..0dad857 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
@@ -350,7 +350,8 @@ class CppDecl(CppElementAndComment):
         # initial_value_fully_qualified = self._initial_value_code_with_qualified_types(current_scope)
         from srcmlcpp.cpp_types.scope.cpp_scope_process import make_terse_code
 
-        r = make_terse_code(self.initial_value_code, current_scope.str_cpp_prefix)
+        known_identifiers = self.root_cpp_unit()._scope_identifiers.qualified_names()
+        r = make_terse_code(self.initial_value_code, current_scope.str_cpp_prefix, known_identifiers)
         return r
 
     def with_terse_types(self, current_scope: CppScope | None = None) -> CppDecl:
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
index dc9f11d..998c396 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
@@ -247,7 +247,11 @@ class CppType(CppElementAndComment):
 
         from srcmlcpp.cpp_types.scope.cpp_scope_process import make_terse_code
 
-        new_type_name = make_terse_code(type_name_qualified, current_scope.str_cpp_prefix)
+        new_type_name = make_terse_code(
+            type_name_qualified,
+            current_scope.str_cpp_prefix,
+            self.root_cpp_unit()._scope_identifiers.qualified_names(),
+        )
         if new_type_name != " ".join(self.typenames):
             new_cpp_type = copy.deepcopy(self)
             new_cpp_type.typenames = new_type_name.split(" ")
diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
index ed1e8b6..800cf4f 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
@@ -38,6 +38,9 @@ class CppScopeIdentifiers:
                 qualified_identifier = element_scope.qualified_name(identifier_name)
                 self._scoped_identifiers.append(qualified_identifier)
 
+    def qualified_names(self) -> list[str]:
+        return self._scoped_identifiers
+
     def qualify_cpp_code(self, cpp_code: str, current_scope: CppScope) -> str:
         """
         cpp_code is an extract of C++ code that come from a declaration. It can either be a type or a value
diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
index ddc9dbd..7395d80 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
@@ -1,3 +1,6 @@
+from __future__ import annotations
+
+
 # Heart of the scoping mechanism. Those functions depend on no other module,
 # so that a possible improvement via Cython can be done.
 
@@ -30,62 +33,91 @@ def current_token_matches_scoped_identifier(
     return False
 
 
-def apply_scoped_identifiers_to_code(
-    cpp_code: str, current_scope_hierarchy: list[str], scoped_identifier_qualified_names: list[str]
+def _qualified_identifier(
+    current_token: str, current_scope_hierarchy: list[str], scoped_identifier_qualified_names: list[str]
 ) -> str:
-    new_code = ""
-    current_token = ""
-    i = 0
-    in_string = False
-    in_comment = False
+    """Returns the qualified name of an identifier: as in C++, the innermost scope where it is found comes first.
+    (current_scope_hierarchy goes from the innermost scope to the outermost)"""
+    for current_scope_prefix in current_scope_hierarchy:
+        qualified_name = current_scope_prefix + current_token
+        if qualified_name in scoped_identifier_qualified_names and current_token_matches_scoped_identifier(
+            qualified_name, current_scope_hierarchy, current_token
+        ):
+            return qualified_name
+    return current_token
+
+
+def _skip_literal(cpp_code: str, start: int) -> int:
+    """Returns the position that follows the string or char literal which starts at this position"""
+    quote = cpp_code[start]
+    i = start + 1
+    while i < len(cpp_code) and cpp_code[i] != quote:
+        if cpp_code[i] == "\\":
+            i += 1
+        i += 1
+    return min(i + 1, len(cpp_code))
 
-    while i < len(cpp_code):
-        char = cpp_code[i]
 
-        # Check for string literal start/end
-        if char == '"' and not in_comment:
-            in_string = not in_string
+def _skip_until(cpp_code: str, start: int, end_token: str) -> int:
+    """Returns the position that follows the next occurrence of end_token"""
+    i = cpp_code.find(end_token, start)
+    return len(cpp_code) if i == -1 else i + len(end_token)
 
-        # Check for comment start
-        if char == "/" and i + 1 < len(cpp_code) and cpp_code[i + 1] == "/" and not in_string:
-            in_comment = True
 
-        # Process characters outside strings and comments
-        if not in_string and not in_comment:
-            if char.isalnum() or char == "_":
-                current_token += char
-            elif char == ":" and i + 1 < len(cpp_code) and cpp_code[i + 1] == ":":
-                current_token += "::"
+def _split_identifiers(cpp_code: str) -> list[tuple[bool, str]]:
+    """Splits some code into a list of (is_identifier, token), where the identifiers may be scoped (A::B).
+    The literals, the comments, the numbers and the members of an object (a.b, a->b, A<int>::b) are not identifiers."""
+    tokens: list[tuple[bool, str]] = []
+    i = 0
+    previous = ""  # the last characters of the previous token which is not a space
+    while i < len(cpp_code):
+        start = i
+        char = cpp_code[i]
+        is_identifier = False
+        if char == "/" and cpp_code[i : i + 2] == "//":
+            i = _skip_until(cpp_code, i, "\n")
+        elif char == "/" and cpp_code[i : i + 2] == "/*":
+            i = _skip_until(cpp_code, i + 2, "*/")
+        elif char == '"' or char == "'":
+            i = _skip_literal(cpp_code, i)
+        elif char.isdigit():
+            while i < len(cpp_code) and (cpp_code[i].isalnum() or cpp_code[i] in "_.'"):
                 i += 1
-            else:
-                if current_token:
-                    for scoped_identifier_qualified_name in scoped_identifier_qualified_names:
-                        if current_token_matches_scoped_identifier(
-                            scoped_identifier_qualified_name, current_scope_hierarchy, current_token
-                        ):
-                            current_token = scoped_identifier_qualified_name
-                    new_code += current_token
-                    current_token = ""
-                new_code += char
+        elif char.isalpha() or char == "_" or cpp_code[i : i + 2] == "::":
+            while i < len(cpp_code):
+                if cpp_code[i].isalnum() or cpp_code[i] == "_":
+                    i += 1
+                elif cpp_code[i : i + 2] == "::":
+                    i += 2
+                else:
+                    break
+            is_string_prefix = cpp_code[i : i + 1] in ('"', "'") and cpp_code[start:i] in _STRING_PREFIXES
+            if is_string_prefix and cpp_code[start:i].endswith("R") and cpp_code[i] == '"':
+                delimiter = cpp_code[i + 1 : _skip_until(cpp_code, i, "(") - 1]
+                i = _skip_until(cpp_code, i, ")" + delimiter + '"')
+            is_template_member = cpp_code[start : start + 2] == "::" and previous.endswith(">")
+            is_object_member = previous.endswith(".") or previous.endswith("->")
+            is_identifier = not is_string_prefix and not is_template_member and not is_object_member
         else:
-            new_code += char
+            i += 1
+        token = cpp_code[start:i]
+        if not token.isspace():
+            previous = (previous + token)[-2:]
+        tokens.append((is_identifier, token))
+    return tokens
 
-        # Reset in_comment at the end of the line
-        if char == "\n":
-            in_comment = False
 
-        i += 1
-
-    # Add the last token if it exists
-    if current_token:
-        for scoped_identifier_qualified_name in scoped_identifier_qualified_names:
-            if current_token_matches_scoped_identifier(
-                scoped_identifier_qualified_name, current_scope_hierarchy, current_token
-            ):
-                current_token = scoped_identifier_qualified_name
+_STRING_PREFIXES = ["L", "u8", "u", "U", "R", "LR", "u8R", "uR", "UR"]
 
-        new_code += current_token
 
+def apply_scoped_identifiers_to_code(
+    cpp_code: str, current_scope_hierarchy: list[str], scoped_identifier_qualified_names: list[str]
+) -> str:
+    new_code = ""
+    for is_identifier, token in _split_identifiers(cpp_code):
+        if is_identifier:
+            token = _qualified_identifier(token, current_scope_hierarchy, scoped_identifier_qualified_names)
+        new_code += token
     return new_code
 
 
@@ -121,49 +153,25 @@ def _make_terse_scoped_identifier(scoped_identifier: str, current_scope: str) ->
     return scoped_identifier
 
 
-def make_terse_code(cpp_code: str, current_scope_prefix: str) -> str:
-    new_code = ""
-    current_token = ""
-    i = 0
-    in_string = False
-    in_comment = False
-
-    while i < len(cpp_code):
-        char = cpp_code[i]
-
-        # Check for string literal start/end
-        if char == '"' and not in_comment:
-            in_string = not in_string
-
-        # Check for comment start
-        if char == "/" and i + 1 < len(cpp_code) and cpp_code[i + 1] == "/" and not in_string:
-            in_comment = True
-
-        # Process characters outside strings and comments
-        if not in_string and not in_comment:
-            if char.isalnum() or char == "_":
-                current_token += char
-            elif char == ":" and i + 1 < len(cpp_code) and cpp_code[i + 1] == ":":
-                current_token += "::"
-                i += 1
-            else:
-                if current_token:
-                    current_token = _make_terse_scoped_identifier(current_token, current_scope_prefix)
-                    new_code += current_token
-                    current_token = ""
-                new_code += char
-        else:
-            new_code += char
-
-        # Reset in_comment at the end of the line
-        if char == "\n":
-            in_comment = False
-
-        i += 1
+def _scope_hierarchy(scope_prefix: str) -> list[str]:
+    """Given "A::B::", returns ["A::B::", "A::", ""]"""
+    scope_names = scope_prefix.split("::")[:-1]
+    return ["".join(name + "::" for name in scope_names[:i]) for i in range(len(scope_names), -1, -1)]
 
-    # Add the last token if it exists
-    if current_token:
-        current_token = _make_terse_scoped_identifier(current_token, current_scope_prefix)
-        new_code += current_token
 
+def make_terse_code(cpp_code: str, current_scope_prefix: str, known_identifiers: list[str] | None = None) -> str:
+    """Removes the scopes that the current scope makes redundant.
+    The scope of a known identifier (which is qualified) is kept if its terse name designates something else"""
+    if known_identifiers is None:
+        known_identifiers = []
+    new_code = ""
+    for is_identifier, token in _split_identifiers(cpp_code):
+        if is_identifier:
+            terse_token = _make_terse_scoped_identifier(token, current_scope_prefix)
+            if token in known_identifiers:
+                hierarchy = _scope_hierarchy(current_scope_prefix)
+                if _qualified_identifier(terse_token, hierarchy, known_identifiers) != token:
+                    terse_token = token
+            token = terse_token
+        new_code += token
     return new_code
-- 
2.43.0


From 62876dae23dcfcf097e4dcb1610f10a0a30a04a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 54/65] fix: stub references to the members of other scopes use
 their Python name and the right scope

---
 .../internal/adapted_types/adapted_class.py   |  7 ++--
 .../adapted_types/adapted_function.py         | 21 +++++-----
 .../adapted_types/adapted_namespace.py        |  6 +--
 src/litgen/internal/context/litgen_context.py | 42 ++++++++++++++++++-
 src/litgen/internal/cpp_to_python.py          | 37 ++++++----------
 5 files changed, 70 insertions(+), 43 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 6553dfb..ced6b8a 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -155,7 +155,7 @@ class AdaptedClassMember(AdaptedDecl):
 
     def _qualify_siblings(self, python_str: str) -> str:
         """Qualify sibling references if this member is inside a nested class."""
-        cpp_scope = self.class_parent.cpp_element().cpp_scope(include_self=False)
+        cpp_scope = self.class_parent.cpp_element().cpp_scope(include_self=True)
         return cpp_to_python.qualify_sibling_in_scope(self.lg_context, python_str, cpp_scope)
 
     def decl_type_python(self) -> str:
@@ -392,10 +392,9 @@ class AdaptedClass(AdaptedElement):
             elif isinstance(elem, AdaptedClass):
                 names.add(cpp_to_python._class_name_to_python(self.options, elem.cpp_element().class_name))
         if names:
-            from litgen.internal.context.litgen_context import ScopeMembers
-
             python_scope_name = cpp_to_python._class_name_to_python(self.options, cpp_class_name)
-            self.lg_context.scope_members[cpp_class_name] = ScopeMembers(python_scope_name, names)
+            cpp_scope = self.cpp_element().cpp_scope(include_self=True)
+            self.lg_context.register_scope_members(cpp_scope, python_scope_name, names)
 
     def _init_add_adapted_class_member(self, cpp_decl_statement: CppDeclStatement) -> None:
         class_name = self.cpp_element().class_name
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 7aa0c86..ff42024 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -1284,6 +1284,14 @@ class AdaptedFunction(AdaptedElement):
         else:
             return python_type
 
+    def _stub_qualify_siblings(self, python_str: str) -> str:
+        """Qualify sibling references in the signature of a method
+        (its terse types are relative to the scope that contains the class)"""
+        parent_struct = self.cpp_element().parent_struct_if_method()
+        assert parent_struct is not None
+        class_scope = parent_struct.cpp_scope(include_self=False)
+        return cpp_to_python.qualify_sibling_in_scope(self.lg_context, python_str, class_scope)
+
     def _stub_return_type_python(self) -> str:
         if self.cpp_element().is_inferred_return_type():
             return "Any"
@@ -1297,10 +1305,7 @@ class AdaptedFunction(AdaptedElement):
             return_type_python = cpp_to_python.type_to_python(self.lg_context, return_type_cpp)
             return_type_python = self._add_class_hierarchy_to_python_type__fixme(return_type_python)
             if self.is_method():
-                method_scope = self.cpp_element().cpp_scope(include_self=False)
-                return_type_python = cpp_to_python.qualify_sibling_in_scope(
-                    self.lg_context, return_type_python, method_scope
-                )
+                return_type_python = self._stub_qualify_siblings(return_type_python)
             return return_type_python
 
     def _stub_params_list_signature(self) -> list[str]:
@@ -1360,12 +1365,8 @@ class AdaptedFunction(AdaptedElement):
 
             # Qualify sibling references in type and default value (but not the parameter name)
             if self.is_method():
-                param_type_python = cpp_to_python.qualify_sibling_in_scope(
-                    self.lg_context, param_type_python, current_scope
-                )
-                param_default_value = cpp_to_python.qualify_sibling_in_scope(
-                    self.lg_context, param_default_value, current_scope
-                )
+                param_type_python = self._stub_qualify_siblings(param_type_python)
+                param_default_value = self._stub_qualify_siblings(param_default_value)
 
             param_code = f"{param_name_python}: {param_type_python}"
             if len(param_default_value) > 0:
diff --git a/src/litgen/internal/adapted_types/adapted_namespace.py b/src/litgen/internal/adapted_types/adapted_namespace.py
index 94dffd2..50d3b95 100644
--- a/src/litgen/internal/adapted_types/adapted_namespace.py
+++ b/src/litgen/internal/adapted_types/adapted_namespace.py
@@ -23,6 +23,7 @@ class AdaptedNamespace(AdaptedElement):
         super().__init__(lg_context, namespace_)
         self.adapted_block = AdaptedBlock(self.lg_context, self.cpp_element().block)
         self._register_namespace_python_names()
+        self.lg_context.register_namespace_name(self.namespace_name())
 
     def _register_namespace_python_names(self) -> None:
         """Register the Python names of all members of this namespace in the context.
@@ -46,10 +47,9 @@ class AdaptedNamespace(AdaptedElement):
                 names.add(cpp_to_python._class_name_to_python(self.options, elem.cpp_element().class_name))
             elif isinstance(elem, AdaptedFunction):
                 names.add(cpp_to_python.function_name_to_python(self.options, elem.cpp_element().function_name))
-        from litgen.internal.context.litgen_context import ScopeMembers
-
         python_scope_name = cpp_to_python.namespace_name_to_python(self.options, cpp_ns_name)
-        self.lg_context.scope_members[cpp_ns_name] = ScopeMembers(python_scope_name, names)
+        cpp_scope = self.cpp_element().cpp_scope(include_self=True)
+        self.lg_context.register_scope_members(cpp_scope, python_scope_name, names)
 
     def namespace_name(self) -> str:
         return self.cpp_element().ns_name
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 0ba8c08..7e549b0 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import re
 from dataclasses import dataclass, field
 from typing import TYPE_CHECKING
 
@@ -55,10 +56,13 @@ class LitgenContext:
     # Key: CppScope.str_cpp (e.g., "" for root, "Snippets" for a namespace).
     _scoped_replacements: dict[str, ReplacementsCache]
 
-    # Registry of members defined in each scope, keyed by C++ scope name.
+    # Registry of members defined in each scope, keyed by qualified C++ scope (CppScope.str_cpp).
     # See ScopeMembers for details.
     scope_members: dict[str, ScopeMembers]
 
+    # The names of all the namespaces that are published (including those whose code is not yet generated)
+    _namespace_names: set[CppNamespaceName]
+
     # The custom bindings that were already emitted: qualified scope, is_pydef
     _emitted_custom_codes: set[tuple[CppQualifiedNamespaceName, bool]]
 
@@ -81,6 +85,7 @@ class LitgenContext:
         self.namespaces_pydef = NamespacesCodeTree(self.options, PydefOrStub.Pydef)
         self._scoped_replacements = {}
         self.scope_members = {}
+        self._namespace_names = set()
         self._python_scope_functions = {}
         self._emitted_custom_codes = set()
 
@@ -92,7 +97,25 @@ class LitgenContext:
         return self.namespaces_stub.qualified_namespaces()
 
     def unqualified_stub_namespaces(self) -> set[CppNamespaceName]:
-        return self.namespaces_stub.unqualified_namespaces()
+        return self._namespace_names | self.namespaces_stub.unqualified_namespaces()
+
+    def register_namespace_name(self, namespace_name: CppNamespaceName) -> None:
+        self._namespace_names.add(namespace_name)
+
+    def register_scope_members(self, cpp_scope: CppScope, python_scope_name: str, member_names: set[str]) -> None:
+        """Register the Python names defined in a scope (a namespace may be written as several blocks)"""
+        scope_entry = self.scope_members.setdefault(cpp_scope.str_cpp, ScopeMembers(python_scope_name))
+        scope_entry.member_names |= member_names
+
+    def scope_members_python_prefixes(self, cpp_scope: CppScope) -> dict[str, str]:
+        """The names that are visible from a scope, with the Python name of the innermost scope that defines them"""
+        r: dict[str, str] = {}
+        for scope in reversed(cpp_scope.scope_hierarchy_list):
+            scope_entry = self.scope_members.get(scope.str_cpp)
+            if scope_entry is not None:
+                for name in scope_entry.member_names:
+                    r[name] = scope_entry.python_scope_name
+        return r
 
     def shall_emit_custom_code(self, qualified_scope: str, is_pydef: bool) -> bool:
         """Custom code is emitted only once per generator lifetime: a namespace may be written as several blocks,
@@ -116,6 +139,17 @@ class LitgenContext:
             self._scoped_replacements[key] = ReplacementsCache()
         return self._scoped_replacements[key]
 
+    def _replace_qualified_name(self, qualified_name: str, cpp_scope: CppScope) -> str:
+        names = qualified_name.split(".")
+        for nb_scope_names in range(len(names) - 1, 0, -1):
+            scope_names, member_names = names[:nb_scope_names], names[nb_scope_names:]
+            for scope_prefix in cpp_scope.scope_hierarchy_prefix_list:
+                key = scope_prefix + "::".join(scope_names)
+                if key in self._scoped_replacements:
+                    member = self._scoped_replacements[key].apply(".".join(member_names))
+                    return ".".join(scope_names) + "." + member
+        return qualified_name
+
     def apply_scoped_var_value_replacements(self, s: str, cpp_scope: CppScope | None) -> str:
         """Apply var value replacements from all scopes in the hierarchy.
 
@@ -123,6 +157,10 @@ class LitgenContext:
         """
         if cpp_scope is None:
             cpp_scope = CppScope([])
+        # A qualified name (A.b) designates a member of another scope
+        regex_qualified_name = r"(?<![\w.])[^\W\d]\w*(?:\.[^\W\d]\w*)+"
+        current_scope = cpp_scope
+        s = re.sub(regex_qualified_name, lambda m: self._replace_qualified_name(m.group(0), current_scope), s)
         for scope in cpp_scope.scope_hierarchy_list:
             key = scope.str_cpp
             if key in self._scoped_replacements:
diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index a551f43..031bb91 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -344,30 +344,19 @@ def qualify_sibling_in_scope(
 
     Applies to both namespace proxies and classes with inner classes/enums.
     """
-    import re
-
-    for scope_part in cpp_scope.scope_parts:
-        cpp_name = scope_part.scope_name
-
-        # Skip root namespaces (they map to the module level, no proxy)
-        if cpp_name in lg_context.options.namespaces_root:
-            continue
-
-        scope_entry = lg_context.scope_members.get(cpp_name)
-        if not scope_entry:
-            continue
-        python_prefix = scope_entry.python_scope_name
-        names = scope_entry.member_names
-
-        # Sort by length (longest first) to avoid partial replacements
-        for name in sorted(names, key=len, reverse=True):
-            # Match `name` as a standalone word, not already preceded by a dot
-            # (which would mean it's already qualified)
-            pattern = r"(?<![.\w])" + re.escape(name) + r"\b"
-            replacement = python_prefix + "." + name
-            python_str = re.sub(pattern, replacement, python_str)
-
-    return python_str
+    python_prefixes = lg_context.scope_members_python_prefixes(cpp_scope)
+    if len(python_prefixes) == 0:
+        return python_str
+
+    # The content of the string literals shall not be qualified
+    python_str, literals = _mask_string_literals(python_str)
+    # Match the names as standalone words, not already preceded by a dot
+    # (which would mean they are already qualified)
+    names_regex = "|".join(re.escape(name) for name in sorted(python_prefixes))
+    python_str = re.sub(
+        rf"(?<![.\w])({names_regex})\b", lambda m: python_prefixes[m.group(1)] + "." + m.group(1), python_str
+    )
+    return _unmask_string_literals(python_str, literals)
 
 
 def is_float_str(s: str) -> bool:
-- 
2.43.0


From d7557acb998c11f342250f5eb444cf0b91b607a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 55/65] fix: stub types of multi-word integers, arrays of
 templates and callables are valid python types

---
 src/litgen/internal/cpp_to_python.py | 93 +++++++++++++++-------------
 1 file changed, 49 insertions(+), 44 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 031bb91..f9facaf 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -86,18 +86,18 @@ def _split_cpp_type_template_args(s: str) -> list[str]:
 
 
 def _perform_cpp_type_replacements_recursively(cpp_type_str: str, type_replacements: RegexReplacementList) -> str:
-    # Preprocessing: Remove 'const', '&', and '*' tokens
-
     if "<" not in cpp_type_str:
         return type_replacements.apply(cpp_type_str)
 
     # Split at the first level of template arguments
     tokens = _split_cpp_type_template_args(cpp_type_str)
+    if len(tokens) == 1:
+        return type_replacements.apply(cpp_type_str)
     # tokens is [before, inside, after]
 
     # Apply replacements to 'before' and 'after'
     before = type_replacements.apply(tokens[0].strip())
-    after = type_replacements.apply(tokens[2].strip())
+    after = _perform_cpp_type_replacements_recursively(tokens[2].strip(), type_replacements)
 
     # Recursively process 'inside'
     inside = _perform_cpp_type_replacements_recursively(tokens[1].strip(), type_replacements)
@@ -109,14 +109,36 @@ def _perform_cpp_type_replacements_recursively(cpp_type_str: str, type_replaceme
     # Replace angle brackets with square brackets as last resort (this means some template regexes are missing)
     r = r.replace("<", "[").replace(">", "]")
     # Normalize whitespace
-    r = re.sub(r"\s+", " ", r).strip()
+    return re.sub(r"\s+", " ", r).strip()
 
-    cpp_type_str = re.sub(r"\bconst\b", "", cpp_type_str)
-    cpp_type_str = re.sub(r"&", "", cpp_type_str)
-    cpp_type_str = re.sub(r"\*", "", cpp_type_str)
-    cpp_type_str = re.sub(r"\s+", " ", cpp_type_str).strip()
 
-    return r
+def _find_closing_bracket(s: str, start: int) -> int:
+    """Returns the position of the first closing bracket that was not opened after start"""
+    depth = 0
+    for i in range(start, len(s)):
+        if s[i] == "[":
+            depth += 1
+        elif s[i] == "]":
+            if depth == 0:
+                return i
+            depth -= 1
+    return len(s)
+
+
+def _split_outside_brackets(s: str) -> list[str]:
+    """Splits at the commas that are not inside brackets"""
+    parts = [""]
+    depth = 0
+    for char in s:
+        if char == "[":
+            depth += 1
+        elif char == "]":
+            depth -= 1
+        if char == "," and depth == 0:
+            parts.append("")
+        else:
+            parts[-1] += char
+    return parts
 
 
 def _strip_callable_param_names(python_type: str) -> str:
@@ -130,25 +152,21 @@ def _strip_callable_param_names(python_type: str) -> str:
     A trailing bare identifier (no dots, no brackets) after a type token
     is unambiguously a leftover C++ parameter name.
     """
-    import re
-
-    def _strip_one_param(param: str) -> str:
-        param = param.strip()
-        if not param:
-            return param
-        # Split on whitespace; if the last token is a plain identifier
-        # (not a type-like thing with dots, brackets, or special chars), drop it
-        tokens = param.split()
-        if len(tokens) >= 2 and re.match(r"^[a-zA-Z_]\w*$", tokens[-1]):
-            return " ".join(tokens[:-1])
-        return param
+    callable_start = "Callable[["
+    start = python_type.find(callable_start)
+    if start == -1:
+        return python_type
+    start += len(callable_start)
+    end = _find_closing_bracket(python_type, start)
 
-    def _replace_callable_params(match: re.Match[str]) -> str:
-        params_str = match.group(1)
-        params = [_strip_one_param(p) for p in params_str.split(",")]
-        return "Callable[[" + ", ".join(params) + "]"
+    def strip_one_param(param: str) -> str:
+        # If the last token is a plain identifier, which follows a type, drop it
+        param = _strip_callable_param_names(param.strip())
+        m = re.match(r"^(.*[\w\]])\s+[a-zA-Z_]\w*$", param) or re.match(r"^(.*\])[a-zA-Z_]\w*$", param)
+        return m.group(1) if m else param
 
-    return re.sub(r"Callable\[\[([^\]]*)\]", _replace_callable_params, python_type)
+    params = [strip_one_param(p) for p in _split_outside_brackets(python_type[start:end])]
+    return python_type[:start] + ", ".join(params) + _strip_callable_param_names(python_type[end:])
 
 
 def _translate_known_namespaces(lg_context: LitgenContext, s: str) -> str:
@@ -799,32 +817,19 @@ def standard_type_replacements() -> RegexReplacementList:
     # first attempted to be replaced by a conversion targetting also the
     # 'unsigned' qualifier to prevent errors.
     replacements_str = r"""
-    \bunsigned \s*int\b -> int
-    \bunsigned \s*short\b -> int
-    \bunsigned \s*long long\b -> int
-    \bunsigned \s*long\b -> int
-
-    \blong \s*long\b -> int
     \blong \s*double\b -> float
+    \b(?:unsigned|signed|short|long)(?:\s+(?:unsigned|signed|short|long|int))*\b(?!\s+char\b) -> int
 
     \bconst \s*char*\b -> str
     \bconst \s*char *\b -> str
+    (?<!signed )\bchar\b -> str
 
-    \buint8_t\b -> int
-    \bint8_t\b -> int
-    \buint16_t\b -> int
-    \bint16_t\b -> int
-    \buint32_t\b -> int
-    \bint32_t\b -> int
-    \buint64_t\b -> int
-    \bint64_t\b -> int
-    \blong\b -> int
-    \bshort\b -> int
+    \b(?:std::)?u?int(?:8|16|32|64)_t\b -> int
 
     \bdouble\b -> float
     \bfloat\b -> float
 
-    \bsize_t\b -> int
+    \b(?:std::)?s?size_t\b -> int
     \bstd::function<(.*)\((.*)\)> -> Callable[[\2], \1]
     \bstd::string_view\b -> str
     \bstd::string\(\) -> ""
@@ -832,7 +837,7 @@ def standard_type_replacements() -> RegexReplacementList:
     \bstd::unique_ptr<(.*?)> -> \1
     \bstd::shared_ptr<(.*?)> -> \1
     \bstd::vector\s*<\s*(.*?)\s*> -> List[\1]
-    \bstd::array\s*<\s*(.*?)\s*,\s*(.*?)\s*> -> List[\1]
+    \bstd::array\s*<\s*([^<>]*?)\s*,\s*([^,<>]*)\s*> -> List[\1]
     \bstd::tuple<(.*?)> -> Tuple[\1]
     \bstd::pair<(.*?)> -> Tuple[\1]
     \bstd::variant<(.*?)> -> Union[\1]
-- 
2.43.0


From 364cc41aa7421425d9bd86f251ad24a8271e01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 56/65] fix: default values with integer suffixes and logical
 operators are valid python values

---
 src/litgen/internal/cpp_to_python.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index f9facaf..3059096 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -294,14 +294,16 @@ def _unmask_string_literals(code: str, contents: list[str]) -> str:
 
 
 def _mask_binary_operators(cpp_value: str) -> str:
-    """Replace the operators &, * and && that are placed between two operands by placeholders
+    """Replace the operators &, *, && and || that are placed between two operands by placeholders
     (the type replacements would remove them)"""
-    return re.sub(r"(?<=[\w)\]\"])(\s*)(&&|&|\*)(\s*)(?=[\w(\"~!+-])", _mask_binary_operator, cpp_value)
+    return re.sub(r"(?<=[\w)\]\"])(\s*)(&&|\|\||&|\*)(\s*)(?=[\w(\"~!+-])", _mask_binary_operator, cpp_value)
 
 
 def _mask_binary_operator(m: re.Match[str]) -> str:
     if m.group(2) == "&&":
         return " \x03 "
+    if m.group(2) == "||":
+        return " or "
     return m.group(1) + {"&": "\x01", "*": "\x02"}[m.group(2)] + m.group(3)
 
 
@@ -328,6 +330,7 @@ def var_value_to_python(
     r = _mask_binary_operators(r)
     r = options.type_replacements.apply(r)
     r = _unmask_binary_operators(r)
+    r = re.sub(r"!(?!=)\s*", "not ", r)
     r = options.value_replacements.apply(r)
     for number_macro, value in lg_context.options.srcmlcpp_options.named_number_macros.items():
         r = re.sub(rf"\b{re.escape(number_macro)}\b", str(value), r)
@@ -885,13 +888,15 @@ def standard_value_replacements() -> RegexReplacementList:
     \bLDBL_MAX\b -> sys.float_info.max
 
     ([0-9])'([0-9]) -> \1_\2
-    (?<!\w)([+-]?[0-9][0-9_]*(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
+    (?<!\w)([+-]?[0-9][0-9_]*(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdDlL])(?=\W|$) -> \1
+    (?<!\w)([0-9][0-9_]*|0[xX][0-9a-fA-F]+|0[bB][01]+)(?:[uU](?:[lL]{1,2}|[zZ])?|[lL]{1,2}[uU]?|[zZ][uU]?)(?!\w) -> \1
     :: -> .
     """
     # Explanation of the last regexes:
     #   ([0-9])'([0-9]) -> \1_\2 # Replace 1'000 by 1_000
     #   (?<!\w)([+-]?[0-9][0-9_]*(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
     #      Replace C numbers like 1.5f or 1.5d by 1.5
+    #   The next one replaces the integers with a suffix, like 10UL or 0xFFu
     replaces = RegexReplacementList.from_string(replacements_str)
     return replaces
 
-- 
2.43.0


From 618e837697a374a84ca775d5b0387f0c50602ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 57/65] fix: default values T{} are shown as T()

---
 src/litgen/internal/cpp_to_python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 3059096..21f4ff9 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -321,6 +321,9 @@ def var_value_to_python(
     # The content of the string literals shall not be translated
     r, literals = _mask_string_literals(default_value_cpp)
 
+    # A default initialization with braces: T{}
+    r = re.sub(r"(?<=[\w>])\s*\{\s*\}", "()", r)
+
     # If this default value uses a bound template type, translate it
     r = options.class_template_options.specialized_default_value(r, options.type_replacements)
 
-- 
2.43.0


From 9b6701a5cbd4e86f281d3a322dc12fde74646c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 58/65] fix: the position of a comment ignores the content of
 the string literals, escapes and quotes included

---
 src/codemanip/code_utils.py | 59 +++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index ad17719..8effdf8 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -109,16 +109,20 @@ def strip_first_and_last_lines_if_empty(code_lines: str) -> str:
 
 
 def line_cpp_comment_position(code_line: str) -> Optional[int]:
-    in_string = False
-    last_char = None
-    for i, char in enumerate(code_line):
-        if char == '"' and not last_char == "\\":
-            in_string = not in_string
-        if char == "/" and last_char == "/" and not in_string:
-            return i - 1
-
-        last_char = char
-
+    quote = ""  # The quote that ends the current string or char literal
+    i = 0
+    while i < len(code_line):
+        char = code_line[i]
+        if len(quote) > 0:
+            if char == "\\":
+                i += 1
+            elif char == quote:
+                quote = ""
+        elif char == '"' or (char == "'" and not code_line[:i][-1:].isalnum()):  # (1'000 is a number)
+            quote = char
+        elif code_line.startswith("//", i):
+            return i
+        i += 1
     return None
 
 
@@ -135,25 +139,22 @@ def line_python_comment_position(code_line: str, skip_if_comment_only_line: bool
         a = '''#''' # my comment
     """
 
-    code_line = code_line.replace('"""', '__"')
-    code_line = code_line.replace("'''", "__'")
-    code_line = code_line.replace("'", '"')
-
-    in_string = False
-    has_seen_non_space = False
-    for i, char in enumerate(code_line):
-        if char == '"':
-            in_string = not in_string
-        if char == "#" and not in_string:
-            if not skip_if_comment_only_line:
-                return i
-            else:
-                if has_seen_non_space:
-                    return i
-
-        if not char.isspace():
-            has_seen_non_space = True
-
+    quote = ""  # The quotes that end the current string
+    i = 0
+    while i < len(code_line):
+        char = code_line[i]
+        if len(quote) > 0:
+            if char == "\\":
+                i += 1
+            elif code_line.startswith(quote, i):
+                i += len(quote) - 1
+                quote = ""
+        elif char == '"' or char == "'":
+            quote = char * 3 if code_line.startswith(char * 3, i) else char
+            i += len(quote) - 1
+        elif char == "#" and (not skip_if_comment_only_line or len(code_line[:i].strip()) > 0):
+            return i
+        i += 1
     return None
 
 
-- 
2.43.0


From 1dc7ecf415f74e5f5c2195aa71f6b01ffc55784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 59/65] fix: the template types that are constructed in a
 default value are translated as types

---
 .../internal/adapted_types/adapted_decl.py    |  1 +
 .../adapted_types/adapted_function.py         |  1 +
 src/litgen/internal/cpp_to_python.py          | 42 ++++++++++++++++---
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_decl.py b/src/litgen/internal/adapted_types/adapted_decl.py
index ca7e05d..1412730 100644
--- a/src/litgen/internal/adapted_types/adapted_decl.py
+++ b/src/litgen/internal/adapted_types/adapted_decl.py
@@ -43,6 +43,7 @@ class AdaptedDecl(AdaptedElement):
             decl_value_cpp = self.cpp_element().cpp_type.typenames[0] + "(" + decl_value_cpp[1:-1] + ")"
         cpp_scope = self.cpp_element().cpp_scope(include_self=False)
         decl_value_python = cpp_to_python.var_value_to_python(self.lg_context, decl_value_cpp, cpp_scope)
+        decl_value_python = cpp_to_python.template_args_to_python(decl_value_python)
         return decl_value_python
 
     def decl_type_python(self) -> str:
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index ff42024..1fabd18 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -1362,6 +1362,7 @@ class AdaptedFunction(AdaptedElement):
                 # Special case for initial value with brace init
                 initial_value_code = param_decl.cpp_type.typenames[0] + "(" + initial_value_code[1:-1] + ")"
             param_default_value = cpp_to_python.var_value_to_python(self.lg_context, initial_value_code, current_scope)
+            param_default_value = cpp_to_python.template_args_to_python(param_default_value)
 
             # Qualify sibling references in type and default value (but not the parameter name)
             if self.is_method():
diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 21f4ff9..ac8ddfa 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -96,8 +96,8 @@ def _perform_cpp_type_replacements_recursively(cpp_type_str: str, type_replaceme
     # tokens is [before, inside, after]
 
     # Apply replacements to 'before' and 'after'
-    before = type_replacements.apply(tokens[0].strip())
-    after = _perform_cpp_type_replacements_recursively(tokens[2].strip(), type_replacements)
+    before = type_replacements.apply(tokens[0].rstrip())
+    after = _perform_cpp_type_replacements_recursively(tokens[2].rstrip(), type_replacements)
 
     # Recursively process 'inside'
     inside = _perform_cpp_type_replacements_recursively(tokens[1].strip(), type_replacements)
@@ -109,7 +109,7 @@ def _perform_cpp_type_replacements_recursively(cpp_type_str: str, type_replaceme
     # Replace angle brackets with square brackets as last resort (this means some template regexes are missing)
     r = r.replace("<", "[").replace(">", "]")
     # Normalize whitespace
-    return re.sub(r"\s+", " ", r).strip()
+    return re.sub(r"\s+", " ", r).rstrip()
 
 
 def _find_closing_bracket(s: str, start: int) -> int:
@@ -296,7 +296,7 @@ def _unmask_string_literals(code: str, contents: list[str]) -> str:
 def _mask_binary_operators(cpp_value: str) -> str:
     """Replace the operators &, *, && and || that are placed between two operands by placeholders
     (the type replacements would remove them)"""
-    return re.sub(r"(?<=[\w)\]\"])(\s*)(&&|\|\||&|\*)(\s*)(?=[\w(\"~!+-])", _mask_binary_operator, cpp_value)
+    return re.sub(r"(?<=[\w)\]\".])(\s*)(&&|\|\||&|\*)(\s*)(?=[\w(\"~!+.-])", _mask_binary_operator, cpp_value)
 
 
 def _mask_binary_operator(m: re.Match[str]) -> str:
@@ -311,6 +311,32 @@ def _unmask_binary_operators(value: str) -> str:
     return value.replace("\x01", "&").replace("\x02", "*").replace("\x03", "and")
 
 
+def _standard_template_types_to_python(options: LitgenOptions, cpp_value: str) -> str:
+    """Translate the std types with template arguments which are constructed inside a value"""
+    start = re.search(r"\bstd::\w+\s*<", cpp_value)
+    if start is None:
+        return cpp_value
+    cpp_type = cpp_value[start.start() :]
+    tokens = _split_cpp_type_template_args(cpp_type)
+    if len(tokens) == 1:
+        return cpp_value
+    cpp_type, after = tokens[0] + "<" + tokens[1] + ">", tokens[2]
+    if after.lstrip().startswith("("):
+        cpp_type = _perform_cpp_type_replacements_recursively(cpp_type, options.type_replacements)
+        cpp_type = _strip_callable_param_names(cpp_type)
+    return cpp_value[: start.start()] + cpp_type + _standard_template_types_to_python(options, after)
+
+
+def template_args_to_python(value: str) -> str:
+    """Write the template arguments that are left inside a value between square brackets: T<int>() -> T[int]()"""
+    value, literals = _mask_string_literals(value)
+    previous_value = ""
+    while previous_value != value:
+        previous_value = value
+        value = re.sub(r"(?<=\w)<([\w\s,.\[\]]*)>(?=\s*[(.,>\]])", r"[\1]", value)
+    return _unmask_string_literals(value, literals)
+
+
 def var_value_to_python(
     lg_context: LitgenContext,
     default_value_cpp: str,
@@ -329,6 +355,9 @@ def var_value_to_python(
 
     r = _rename_python_keywords(lg_context, r, keep=("True", "False", "None"))
 
+    r = _standard_template_types_to_python(options, r)
+    r = re.sub(r"\bstd::string\(\)", '""', r)
+
     # The type replacements remove the tokens & and *: this is unwanted if they are operators
     r = _mask_binary_operators(r)
     r = options.type_replacements.apply(r)
@@ -339,6 +368,8 @@ def var_value_to_python(
         r = re.sub(rf"\b{re.escape(number_macro)}\b", str(value), r)
     r = lg_context.apply_scoped_var_value_replacements(r, cpp_scope)
 
+    r = re.sub(r"\.(True|False|None)\b", r".\1_", r)
+
     # If this value is a std::initializer_list, try to translate it
     if r.startswith("{") and r.endswith("}"):
         inner = r[1:-1]
@@ -838,12 +869,11 @@ def standard_type_replacements() -> RegexReplacementList:
     \b(?:std::)?s?size_t\b -> int
     \bstd::function<(.*)\((.*)\)> -> Callable[[\2], \1]
     \bstd::string_view\b -> str
-    \bstd::string\(\) -> ""
     \bstd::string\b -> str
     \bstd::unique_ptr<(.*?)> -> \1
     \bstd::shared_ptr<(.*?)> -> \1
     \bstd::vector\s*<\s*(.*?)\s*> -> List[\1]
-    \bstd::array\s*<\s*([^<>]*?)\s*,\s*([^,<>]*)\s*> -> List[\1]
+    \bstd::array\s*<\s*((?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*?)\s*,\s*([^,<>]*)\s*> -> List[\1]
     \bstd::tuple<(.*?)> -> Tuple[\1]
     \bstd::pair<(.*?)> -> Tuple[\1]
     \bstd::variant<(.*?)> -> Union[\1]
-- 
2.43.0


From 2fee2c7595a3153526a34f58325de3799b06394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 60/65] fix: the initializers of enum items follow the scope of
 the enum

---
 src/litgen/internal/adapted_types/adapted_enum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_enum.py b/src/litgen/internal/adapted_types/adapted_enum.py
index 89ba414..856d5b7 100644
--- a/src/litgen/internal/adapted_types/adapted_enum.py
+++ b/src/litgen/internal/adapted_types/adapted_enum.py
@@ -93,7 +93,8 @@ class AdaptedEnumDecl(AdaptedDecl):
 
     def decl_value_python(self) -> str:
         decl_value_cpp = self.cpp_element().initial_value_code
-        decl_value_python = cpp_to_python.var_value_to_python(self.lg_context, decl_value_cpp)
+        cpp_scope = self.enum_parent.cpp_element().cpp_scope(include_self=False)
+        decl_value_python = cpp_to_python.var_value_to_python(self.lg_context, decl_value_cpp, cpp_scope)
 
         # Sometimes, enum decls have interdependent values like this:
         #     enum MyEnum { /*....*/ MyEnum_foo = MyEnum_a | MyEnum_b };
-- 
2.43.0


From 0cf80993d30b0cb45fdb8dff0bf8915ef6b5fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 61/65] fix: base classes are searched in the innermost scope
 first, as in C++

---
 src/srcmlcpp/cpp_types/blocks/cpp_block.py | 32 +++++-----------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/blocks/cpp_block.py b/src/srcmlcpp/cpp_types/blocks/cpp_block.py
index 1efef0c..ba5fc38 100644
--- a/src/srcmlcpp/cpp_types/blocks/cpp_block.py
+++ b/src/srcmlcpp/cpp_types/blocks/cpp_block.py
@@ -106,35 +106,17 @@ class CppBlock(CppElementAndComment):
         """
         if current_scope is None:
             current_scope = self.cpp_scope()
-        if "::" in class_name_with_scope:
-            items = class_name_with_scope.split("::")
-            class_name = items[-1]
-            class_scope_str = "::".join(items[:-1])
-        else:
-            class_name = class_name_with_scope
-            class_scope_str = ""
 
-        all_structs = self.all_structs_recursive()
-        for struct in all_structs:
-            current_scope_str = current_scope.str_cpp
+        structs = {struct.cpp_scope_str(include_self=True): struct for struct in reversed(self.all_structs_recursive())}
 
-            searched_scopes_strs = []
-            searched_scopes_strs.append(class_scope_str)
-            if len(current_scope_str) > 0:
-                searched_scopes_strs.append(current_scope_str + "::" + class_scope_str)
+        if class_name_with_scope.startswith("::"):
+            return structs.get(class_name_with_scope[2:])
 
-            struct_scope_str = struct.cpp_scope_str(include_self=False)
-
-            is_struct_visible_from_scope = False
-            for searched_scope_str in searched_scopes_strs:
-                if searched_scope_str.startswith(struct_scope_str):
-                    is_struct_visible_from_scope = True
-
-            is_name_equal = struct.class_name == class_name
-
-            if is_name_equal and is_struct_visible_from_scope:
+        # As in C++, the innermost scope where the class is found comes first
+        for scope_prefix in current_scope.scope_hierarchy_prefix_list:
+            struct = structs.get(scope_prefix + class_name_with_scope)
+            if struct is not None:
                 return struct
-
         return None
 
     def all_functions_recursive(self) -> list[CppFunctionDecl]:
-- 
2.43.0


From 3ddbb388ee42095f8a0d1665d8507e14094b4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 62/65] fix: qualify the names inherited from base classes, and
 keep the scopes that a terse name needs

---
 .../cpp_types/scope/cpp_scope_identifiers.py  | 35 ++++++++++++++++++-
 .../cpp_types/scope/cpp_scope_process.py      | 30 +++++++++++++---
 2 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
index 800cf4f..9b19ce5 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
@@ -1,13 +1,23 @@
+from __future__ import annotations
+from typing import TYPE_CHECKING
+
 from srcmlcpp.cpp_types.scope import CppScope
 from srcmlcpp.cpp_types.base.cpp_element import CppElement
 from srcmlcpp.cpp_types.scope.cpp_scope_process import apply_scoped_identifiers_to_code
 
+if TYPE_CHECKING:
+    from srcmlcpp.cpp_types.classes.cpp_struct import CppStruct
+
 
 class CppScopeIdentifiers:
     _scoped_identifiers: list[str]
+    # The names that a class inherits (Derived::Member). They are given with a name that is accessible from file scope,
+    # i.e. Base::Member if the inheritance is not public
+    _inherited_identifiers: dict[str, str]
 
     def __init__(self) -> None:
         self._scoped_identifiers = []
+        self._inherited_identifiers = {}
 
     def fill_cache(self, all_elements: list[CppElement]) -> None:
         from srcmlcpp.cpp_types import CppStruct, CppFunctionDecl, CppEnum
@@ -38,6 +48,26 @@ class CppScopeIdentifiers:
                 qualified_identifier = element_scope.qualified_name(identifier_name)
                 self._scoped_identifiers.append(qualified_identifier)
 
+        for element in all_elements:
+            if isinstance(element, CppStruct):
+                self._fill_inherited_identifiers(element)
+
+    def _fill_inherited_identifiers(self, struct: CppStruct) -> None:
+        struct_prefix = struct.cpp_scope_str(include_self=True) + "::"
+        from srcmlcpp.cpp_types.base.cpp_access_type import CppAccessType
+
+        for access_type, base_class in struct.base_classes():
+            base_prefix = base_class.cpp_scope_str(include_self=True) + "::"
+            members = {name: name for name in self._scoped_identifiers} | self._inherited_identifiers
+            for name, qualified_name in members.items():
+                if name.startswith(base_prefix):
+                    inherited_name = struct_prefix + name[len(base_prefix) :]
+                    if inherited_name not in members:
+                        is_accessible = access_type == CppAccessType.public and name == qualified_name
+                        self._inherited_identifiers[inherited_name] = (
+                            inherited_name if is_accessible else qualified_name
+                        )
+
     def qualified_names(self) -> list[str]:
         return self._scoped_identifiers
 
@@ -64,6 +94,9 @@ class CppScopeIdentifiers:
         # scoped_identifier = N::Foo
         # => can access
         new_code = apply_scoped_identifiers_to_code(
-            new_code, current_scope.scope_hierarchy_prefix_list, self._scoped_identifiers
+            new_code,
+            current_scope.scope_hierarchy_prefix_list,
+            self._scoped_identifiers,
+            self._inherited_identifiers,
         )
         return new_code
diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
index 7395d80..ce69602 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
@@ -111,12 +111,20 @@ _STRING_PREFIXES = ["L", "u8", "u", "U", "R", "LR", "u8R", "uR", "UR"]
 
 
 def apply_scoped_identifiers_to_code(
-    cpp_code: str, current_scope_hierarchy: list[str], scoped_identifier_qualified_names: list[str]
+    cpp_code: str,
+    current_scope_hierarchy: list[str],
+    scoped_identifier_qualified_names: list[str],
+    inherited_identifiers: dict[str, str] | None = None,
 ) -> str:
+    """inherited_identifiers: the names that a class inherits, with the qualified name of the member of its base class"""
+    if inherited_identifiers is None:
+        inherited_identifiers = {}
+    known_names = scoped_identifier_qualified_names + list(inherited_identifiers)
     new_code = ""
     for is_identifier, token in _split_identifiers(cpp_code):
         if is_identifier:
-            token = _qualified_identifier(token, current_scope_hierarchy, scoped_identifier_qualified_names)
+            token = _qualified_identifier(token, current_scope_hierarchy, known_names)
+            token = inherited_identifiers.get(token, token)
         new_code += token
     return new_code
 
@@ -159,6 +167,19 @@ def _scope_hierarchy(scope_prefix: str) -> list[str]:
     return ["".join(name + "::" for name in scope_names[:i]) for i in range(len(scope_names), -1, -1)]
 
 
+def _is_hidden_by_inner_scope(terse_token: str, token: str, hierarchy: list[str], known_identifiers: list[str]) -> bool:
+    """Tells if the first name of a terse token is found in a scope which is not the scope that was removed from token
+    (as in C++, the innermost scope where this first name is found comes first)"""
+    first_name = terse_token.split("::")[0]
+    for scope_prefix in hierarchy:
+        if scope_prefix + terse_token == token:
+            return False
+        name = scope_prefix + first_name
+        if name in known_identifiers or any(known.startswith(name + "::") for known in known_identifiers):
+            return True
+    return True
+
+
 def make_terse_code(cpp_code: str, current_scope_prefix: str, known_identifiers: list[str] | None = None) -> str:
     """Removes the scopes that the current scope makes redundant.
     The scope of a known identifier (which is qualified) is kept if its terse name designates something else"""
@@ -168,9 +189,10 @@ def make_terse_code(cpp_code: str, current_scope_prefix: str, known_identifiers:
     for is_identifier, token in _split_identifiers(cpp_code):
         if is_identifier:
             terse_token = _make_terse_scoped_identifier(token, current_scope_prefix)
-            if token in known_identifiers:
+            enum_or_class = token.rpartition("::")[0]  # (the items of an unscoped enum are known by the scope of the enum)
+            if token in known_identifiers or enum_or_class in known_identifiers:
                 hierarchy = _scope_hierarchy(current_scope_prefix)
-                if _qualified_identifier(terse_token, hierarchy, known_identifiers) != token:
+                if _is_hidden_by_inner_scope(terse_token, token, hierarchy, known_identifiers):
                     terse_token = token
             token = terse_token
         new_code += token
-- 
2.43.0


From a1217ad27332b6099a8a2c89c47e59dcdc2cbc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 63/65] fix: making a parameter optional does not alter the
 type of the wrapped function's parameter

---
 .../_adapt_mutable_param_with_default_value.py             | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_mutable_param_with_default_value.py b/src/litgen/internal/adapt_function_params/_adapt_mutable_param_with_default_value.py
index 132eeaa..0f0f2b5 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_mutable_param_with_default_value.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_mutable_param_with_default_value.py
@@ -148,17 +148,14 @@ def adapt_mutable_param_with_default_value(adapted_function: AdaptedFunction) ->
         return None
 
     def _fn_cpp_type_to_optional(cpp_type: CppType) -> CppType:
-        type_copy = copy.copy(cpp_type)
-        if type_copy.is_reference():
-            type_copy.modifiers.remove("&")
-        opt_type_code = f"const std::optional<{type_copy.str_code()}> &"
+        opt_type_code = f"const std::optional<{_fn_optional_to_const_noref(cpp_type)}> &"
         import srcmlcpp
 
         opt_type = srcmlcpp.code_to_cpp_type(adapted_function.options.srcmlcpp_options, opt_type_code)
         return opt_type
 
     def _fn_optional_to_const_noref(cpp_type: CppType) -> str:
-        type_copy = copy.copy(cpp_type)
+        type_copy = copy.deepcopy(cpp_type)
         if "&" in type_copy.modifiers:
             type_copy.modifiers.remove("&")
         if "const" not in type_copy.specifiers:
-- 
2.43.0


From fd1e0cbb4c74759862d53edef8d4600c5f24d70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 64/65] fix: the items of an unscoped enum can be designated
 through the name of the enum

---
 src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
index 9b19ce5..3927dd5 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
@@ -47,6 +47,10 @@ class CppScopeIdentifiers:
                 identifier_name = element.name()
                 qualified_identifier = element_scope.qualified_name(identifier_name)
                 self._scoped_identifiers.append(qualified_identifier)
+                if isinstance(element, CppEnum) and not element.is_enum_class():
+                    # the items of an unscoped enum can also be designated by Enum::item
+                    for enum_decl in element.get_enum_decls():
+                        self._scoped_identifiers.append(f"{qualified_identifier}::{enum_decl.decl_name}")
 
         for element in all_elements:
             if isinstance(element, CppStruct):
-- 
2.43.0


From aaa8fe21bae696f59cde85df307d7e040d1032bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:43 +0000
Subject: [PATCH 65/65] fix: overloaded protected methods share their using
 declaration in the publicist class

---
 src/litgen/internal/adapted_types/adapted_class.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index ced6b8a..b94e8c7 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1167,7 +1167,9 @@ class AdaptedClass(AdaptedElement):
             for child in self.adapted_protected_methods:
                 class_name = self.cpp_element().class_name
                 method_name = child.cpp_element().function_name
-                r.append(f"using {class_name}::{method_name};")
+                using_declaration = f"using {class_name}::{method_name};"
+                if using_declaration not in r:  # overloads share their using declaration
+                    r.append(using_declaration)
             return r
 
         publicist_class_template = code_utils.unindent_code(
-- 
2.43.0

