# regenerates /verif/properties.jsonl (kept as a script so that the list is reviewable)
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

CU="src/codemanip/code_utils.py"; CR="src/codemanip/code_replacements.py"; AM="src/codemanip/amalgamated_header.py"
FP="src/srcmlcpp/internal/filter_preprocessor_regions.py"
CT="src/srcmlcpp/cpp_types/"; AT="src/litgen/internal/adapted_types/"; AF="src/litgen/internal/adapt_function_params/"
C2P="src/litgen/internal/cpp_to_python.py"; LG="src/litgen/litgen_generator.py"; OP="src/litgen/options.py"

prop("C01","Marker-delimited insertion replaces exactly the generated regions",
 "When generated code is written into an existing file between a start marker line and an end marker line, every line outside the marked regions, and the marker lines themselves, are unchanged and in the same order, and each region then contains exactly the generated code, indented like its start marker on request. Writing the same code a second time leaves the file byte-for-byte unchanged. If the file does not exist, or contains no start marker, or its markers are not properly paired, an error is raised and that file is neither created nor modified.",
 ["inputs","histories"],"every file content, marker text, generated code, indentation flag and sequence of repeated writes",
 "The tests insert into one or two fixed files; they cannot cover every position, repetition, indentation or (mis)placement of markers, nor repeated runs over an already generated file.",
 [CU,LG],[("marker driven line copier",CU+" write_generated_code_between_markers"),("two-file writer",LG+" write_generated_code / LitgenGenerator")],
 observe=["content of the output file after write_generated_code_between_markers or litgen.write_generated_code_for_file(s)"])

prop("C02","Preprocessor filtering keeps exactly the accepted regions of a header",
 "Code is kept for binding exactly when every enclosing preprocessor conditional is accepted by the user's header filter and the code lies in the primary branch (the include guard, or the first branch) of each of them: code of rejected conditionals and of #else/#elif branches never yields bindings, and code of accepted conditionals or outside any conditional is never lost. This holds at any nesting depth and whatever follows or precedes the conditional.",
 ["inputs","configurations"],"every header whose conditionals nest and follow each other arbitrarily, and every header filter regular expression",
 "Tests use a handful of fixed nestings; the guarantee is over all sequences of #if/#ifdef/#ifndef/#elif/#else/#endif at every depth.",
 [FP,OP],[("conditional stack automaton",FP+" _SrcmlPreprocessorState"),("region filter",FP+" SrcmlPreprocessorRegionFilter")],
 state=[("conditional stack","one entry per open conditional","_SrcmlPreprocessorState")],
 observe=["elements present in the generated stub and binding code"])

prop("C03","Amalgamation inlines each local header once, before use, and loses no line",
 "The amalgamated header contains the lines of every local header reachable through the includes exactly once, placed at the point of its first include, so that what a header includes comes before its own following lines; each external include directive appears once; `#pragma once` lines are dropped; every other line is kept, unchanged except for trailing spaces and in its original relative order. A local header that cannot be found in the base folder or the include folders (searched in that order) makes amalgamation fail rather than silently drop code.",
 ["inputs","configurations"],"every finite tree of headers with any include graph, include folders and spelling of the include lines",
 "Tests amalgamate one tiny tree; include graphs (diamonds, cycles, repeats, several folders) are unbounded.",
 [AM],[("recursive include expansion",AM+" _amalgamate_one_file"),("include line parsing and lookup",AM+" _decompose_path / _include_statement / write_amalgamate_header_file")],
 state=[("already included set","headers already inlined","AmalgamationOptions / recursive call state")],
 observe=["text returned or written by the amalgamation entry points"])

prop("C04","Every enumerator is bound once, in order, with its C++ value",
 "For every bound C++ enum, the stub and the binding code list each enumerator exactly once, in declaration order and under the same Python name, leaving out only a final count item (the last one, named like a count) when the options ask for it. The value shown in the stub for an enumerator is its C++ value: the given initializer when there is one, otherwise one more than the previous enumerator (as a number, or as `previous + 1` after a computed initializer), starting at 0. The item name is the C++ name with the enum-name prefix removed when that option is on, made a valid Python name.",
 ["inputs","configurations"],"every named enum: any number of enumerators, any mix of implicit and explicit initializers, scoped or not, in any scope, with any combination of the enum options",
 "Tests contain a few enums; implicit-value propagation and prefix removal depend on all preceding enumerators.",
 [CT+"cpp_enum.py",AT+"adapted_enum.py",C2P],[("implicit value filling","CppEnum.get_children_with_filled_decl_values"),("enumerator name conversion",C2P+" enum_value_name_to_python"),("stub and binding emission",AT+"adapted_enum.py")],
 observe=["enum class in the stub; py::enum_/nb::enum_ block in the binding code"])

prop("C05","C++ names become valid, stable Python names",
 "With the naming options on, every function, method, parameter, attribute and namespace name of the C++ code appears in Python in snake case with the user's name replacements applied, and class and enum names keep their C++ spelling apart from those replacements; a name that would be a Python keyword gets a trailing underscore instead. No emitted name is a Python keyword, the stub and the binding code use the same name, and converting an already converted name changes nothing.",
 ["inputs","configurations"],"every C++ identifier (any mix of cases, digits, underscores), every kind of element that carries a name, every name-conversion option",
 "Tests sample a few identifiers; name conversion must hold for all strings and all emission sites.",
 [C2P,CU,CR],[("snake case conversion",CU+" to_snake_case"),("per kind conversions",C2P+" *_name_to_python"),("keyword guard",C2P+" add_underscore_if_python_reserved_word")],
 observe=["identifiers in the stub and string literals naming elements in the binding code"])

prop("C06","Type and value translation rewrites whole tokens only",
 "Translating a C++ type or default value to Python rewrites only whole tokens: the C++ types known to the replacement tables map to their Python equivalents wherever they occur, including nested template arguments, pointers and references; true, false, nullptr, numeric suffixes and namespace separators are translated; identifiers that merely contain a known name, and the content of string literals, are left alone. The result contains no C++ syntax left over for the supported types and values.",
 ["inputs","configurations"],"every supported type expression of any nesting depth, every default value literal or qualified constant",
 "Tests list a few dozen types and values; nesting and identifier shapes are unbounded.",
 [C2P,CR],[("type translation",C2P+" type_to_python"),("value translation",C2P+" var_value_to_python"),("regex replacement until fixpoint",CR+" RegexReplacementList.apply")],
 observe=["annotations and default values in the stub"])

prop("C07","Names in bindings are qualified with the scope where C++ finds them",
 "In the binding code, every name (class, enum, enumerator, function or variable declared in the header, members of base classes included) in a type or default value coming from C++ code is spelled so that it designates, from file scope, the same entity that C++ lookup finds at its declaration: an unqualified or partly qualified name known in several enclosing scopes resolves to the innermost one, an already fully qualified name is not qualified again, and names not known in any scope are unchanged. In the stub, a reference to a bound entity is its full Python path, or a suffix of it where the current scope makes the prefix redundant: prefixes are omitted, never altered.",
 ["inputs","programs"],"every nesting of namespaces and classes, every set of same-named entities in different scopes, every use position",
 "Tests use fixed nestings; shadowing and partial qualification combine unboundedly.",
 [CT+"scope/cpp_scope.py",CT+"scope/cpp_scope_process.py",CT+"scope/cpp_scope_identifiers.py"],[("scope hierarchy","CppScope"),("token substitution",CT+"scope/cpp_scope_process.py apply_scoped_identifiers_to_code"),("terse code",CT+"scope/cpp_scope_process.py make_terse_code"),("known identifiers","CppScopeIdentifiers")],
 observe=["qualified names in lambdas, casts and member pointers in the binding code; annotations in the stub"])

prop("C08","Stub and binding code describe the same Python interface",
 "For every accepted header, the stub and the binding code expose the same interface: the same modules, classes with the same public bases, enums, functions, methods, constructors and attributes, nested in the same scopes, and for every callable the same overloads with the same parameter names in the same order and the same parameters having a default value. This holds for both supported binding libraries and every option.",
 ["programs","configurations"],"every supported header and every option set, for pybind11 and nanobind",
 "Tests compare each of the two outputs with fixed text for fixed inputs; agreement between both outputs must hold for every header.",
 [AT+"adapted_function.py",AT+"adapted_class.py",AT+"adapted_block.py",AT+"adapted_unit.py",AT+"adapted_enum.py"],[("parallel emission","stub_lines / pydef_lines of each adapted element"),("parameter emission",AT+"adapted_function.py _paramlist_call_python / pydef_pyarg_list")],
 observe=["stub text and binding text returned by generate_code"])

prop("C09","Exactly the non-excluded public elements are bound",
 "An element (function, method, class, struct, enum, namespace, attribute, global variable) is bound if and only if it is public, not deleted and not matched by an exclusion option, and its enclosing elements are bound too: nothing private, deleted or excluded is exposed and nothing else is lost. An empty exclusion pattern excludes nothing, and a parameter is removed by a parameter exclusion only if it has a default value.",
 ["programs","configurations"],"every header and every combination of the exclusion options, given as regular expressions or as functions",
 "Tests exclude a few names; every element of every header must be decided right under every pattern.",
 [OP,CU,AT+"adapted_class.py",AT+"adapted_block.py",AT+"adapted_function.py",AF+"_adapt_exclude_params.py"],[("pattern matching convention",CU+" does_match_regex"),("exclusion decisions","adapted_block / adapted_class / adapted_unit _fill_public_elements"),("parameter exclusion",AF+"_adapt_exclude_params.py")],
 observe=["set of elements in the stub and in the binding code"])

prop("C10","Adapted functions forward every argument once, in order, and return outputs",
 "Whatever parameter adaptations apply to a function (buffers, C arrays, string lists, boxed or returned modifiable values, variadic, default-null strings, mutable defaults, excluded parameters), the generated wrapper calls the C++ function with exactly one expression per C++ parameter, in the original order, each computed from the Python parameter of that name. Each modifiable value of a function or method is either written back to its box after the call or returned after the C++ result, in parameter order, and nothing else is returned.",
 ["inputs","programs","configurations"],"every function signature mixing adaptable and plain parameters in any order, in free functions, methods and static methods, with every adapter option",
 "Tests cover each adapter on a few signatures; the interaction of several adapters and parameter orders is unbounded.",
 [AF+x for x in ("apply_all_adapters.py","_adapt_c_buffers.py","_adapt_c_arrays.py","_adapt_c_string_list.py","adapt_modifiable_immutable.py","adapt_modifiable_immutable_to_return.py","_adapt_variadic_format.py","_adapt_exclude_params.py","_adapt_mutable_param_with_default_value.py","adapt_const_char_pointer_with_default_null.py","_adapt_force_lambda.py")],
 [("adapter pipeline",AF+"apply_all_adapters.py apply_all_adapters / _make_adapted_lambda_code"),("per adapter call arguments",AF+" adapters: adapted_cpp_parameter_list")],
 observe=["lambda chain in the binding code; Python signature in the stub"])

prop("C11","Array bindings use the dtype and element count of the C++ array",
 "A C buffer or C array is exposed as a numeric array whose accepted element type is exactly the C++ element type: the dtype code checked or declared in the binding code is the one of that C++ type, and any other dtype, or a non-contiguous array, is rejected before the C++ function is called. Size parameters receive the element count of the array that precedes them, template buffers dispatch on the dtype to the matching instantiation for every configured type, and fixed-size array members expose exactly their declared number of elements.",
 ["inputs","configurations"],"every numeric element type, const or not, templated or not, with or without size and stride parameters, for both binding libraries",
 "Tests print a few instances; the whole type table times signature shapes is not sampled, and a wrong dtype corrupts memory silently.",
 [AF+"_adapt_c_buffers.py",C2P,AT+"adapted_class.py"],[("dtype table",C2P+" cpp_type_to_py_array_type"),("buffer adapter",AF+"_adapt_c_buffers.py"),("array members",AT+"adapted_class.py AdaptedClassMember")],
 observe=["dtype checks, casts and switch/if chains in the binding code"])

prop("C12","Documentation reaches the right element and output stays well-formed",
 "A comment written just before or at the end of the line of a C++ declaration appears as documentation of exactly that declaration in the stub and (for the elements which have documentation there) in the binding code, unless it is the title of a group of declarations of the same kind on consecutive lines, which stays a comment before the group, with its text unchanged apart from layout and the user's comment replacements, and no other declaration receives it. Whatever characters the comments contain, the stub remains valid Python and the documentation strings in the binding code remain valid C++ string literals denoting that text.",
 ["inputs","programs"],"every placement of comments and every comment text, including quotes, backslashes, braces and non-ASCII characters",
 "Tests use benign texts in fixed places; escaping must hold for all strings and attachment for all layouts.",
 ["src/srcmlcpp/internal/srcml_comments.py",CT+"base/cpp_element_comments.py",AT+"adapted_element.py",C2P,CU],[("comment grouping","srcml_comments.py get_children_with_comments"),("docstring emission",C2P+" docstring_lines / comment_pydef_one_line"),("escaping",CU+" escape_backslash_in_comments / format_cpp_comment_on_one_line")],
 observe=["docstrings and comments in the stub; doc string literals in the binding code"])

prop("C13","All overloads are kept, and marked as overloads in the stub",
 "Every distinct C++ overload of a function or method is bound; its binding designates that overload unambiguously. In the stub, a function carries the overload marker if and only if its scope contains another declaration with the same Python name, and declarations are merged only when their Python signatures are identical.",
 ["programs","configurations"],"every family of same-named functions, methods, constructors and operators in any scope, including names that collide only after conversion to Python",
 "Tests have a few overload families; which collide depends on all names, types and options at once.",
 [AT+"stub_overload_dedup.py",AT+"adapted_function.py",AT+"adapted_block.py",AT+"adapted_class.py"],[("overload detection",AT+"adapted_function.py / is_overloaded"),("deduplication",AT+"stub_overload_dedup.py"),("overload cast",AT+"adapted_function.py pydef method pointer emission")],
 observe=["@overload decorators and signatures in the stub; overload_cast or typed member pointers in the binding code"])

prop("C14","Generation is a pure function of code and options",
 "Generating bindings depends only on the C++ code and the options: repeating a generation, in the same process or a new one, yields the same text, and neither earlier generations, successful or failing, nor the hash seed influence it. The options object given by the user is left as it was, so it can be reused, and the generated code of a file does not depend on unrelated files processed before it except for the declared cross-file types.",
 ["histories","inputs","configurations"],"every sequence of generation calls in one process, with any reuse of option objects, including failing calls",
 "Tests run single generations; state leaks only show over histories of calls.",
 [LG,"src/litgen/internal/context/litgen_context.py",OP,"src/litgen/internal/template_options.py","src/srcmlcpp/srcmlcpp_main.py"],[("generator entry points",LG),("per generation context","LitgenContext"),("per-run state reset","template options, scope cache, srcml caches")],
 state=[("options","user given configuration",OP),("context","per generation state","litgen_context.py")],
 observe=["text returned by successive generate_code calls; option fields before and after"])

prop("C15","Exactly the requested template instantiations are bound",
 "For each template class or function with one type parameter, exactly the instantiations requested by the options are bound, one per requested type, in order, none when the template is not listed or is excluded, and each instantiation has every template parameter occurrence replaced by the requested type as a whole token. The Python name of an instantiation follows the requested naming scheme or the user's explicit name, and references to the instantiated type elsewhere use that name.",
 ["programs","configurations"],"every template class or function, every list of types (including scoped and pointer types), every naming scheme",
 "Tests instantiate a few templates over int and double; name construction and substitution must hold for every type spelling.",
 ["src/litgen/internal/template_options.py",AT+"adapted_class.py",AT+"adapted_function.py",CT+"template/cpp_template_specialization.py"],[("template requests","template_options.py"),("instantiation","with_specialized_template / _split_into_template_instantiations")],
 observe=["classes and functions in the stub and binding code"])

prop("C16","Namespaces map to submodules, and custom code lands in its scope once",
 "Each bound C++ namespace becomes one submodule of its parent, in both outputs, holding everything declared in any of its occurrences in the header, except root namespaces, whose content goes to the enclosing module, and anonymous or excluded namespaces, which expose nothing. Custom code registered for a class, a namespace (for a root namespace: the enclosing module) or the main module is emitted exactly once per generation, in the stub and in the binding code of that scope and with its placeholders resolved to it.",
 ["programs","configurations"],"every arrangement of nested, repeated, root, inline and excluded namespaces, and every set of custom bindings",
 "Tests have a couple of namespaces; reopened and nested namespaces and several custom bindings combine unboundedly.",
 ["src/litgen/internal/context/namespaces_code_tree.py",AT+"adapted_namespace.py","src/litgen/internal/custom_bindings.py"],[("namespace tree","namespaces_code_tree.py"),("namespace emission",AT+"adapted_namespace.py"),("custom code","custom_bindings.py")],
 state=[("namespace code tree","code collected per namespace","namespaces_code_tree.py")],
 observe=["proxy classes in the stub; def_submodule blocks in the binding code"])

prop("C17","Layout helpers change white space only",
 "Indenting, unindenting, re-indenting, aligning trailing comments, limiting consecutive empty lines and trimming empty lines change nothing but white space: the sequence of non-blank characters of each line and the order of non-blank lines are preserved. Unindenting then indenting restores the relative indentation of the lines indented at least like the first non-blank one, and at most the configured number of consecutive empty lines remains.",
 ["inputs"],"every text: any lines, tabs, blank lines, nested indentation, any layout parameter",
 "Tests check a few snippets; a dropped or merged line shows only on particular shapes.",
 [CU,AT+"line_spacer.py"],[("indent helpers",CU+" indent_code / unindent_code / reindent_code"),("empty line helpers",CU+" code_set_max_consecutive_empty_lines / strip_empty_lines*"),("comment alignment",CU+" align_python_comments_in_block")],
 observe=["text returned by the helpers, hence generated code"])

prop("C18","C++ operators map to the Python special methods with the same meaning",
 "Each overloaded C++ operator of a bound class that has a Python equivalent is bound under the special method of the same meaning and arity (unary or binary, in-place or not, indexing, call, comparison), and an operator without equivalent is not bound. A three-way comparison yields exactly the five comparison methods, and each binding invokes the C++ operator with its operands in order.",
 ["programs"],"every overloadable operator, with every arity, operand type and const qualification, for both binding libraries",
 "Tests cover some of the operators with one operand type; the mapping is a table where each entry is an independent fact.",
 [AT+"operators.py",AT+"adapted_function.py"],[("operator table",AT+"operators.py"),("emission",AT+"adapted_function.py")],
 observe=["special methods in the stub and in the binding code"])

with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80, p["title"]
        f.write(json.dumps(p)+"\n")
print(len(P))
