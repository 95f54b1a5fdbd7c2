"""C04: contracts on the values of the enumerators (srcmlcpp.cpp_types.cpp_enum) and on the final count item."""
from __future__ import annotations
import random
from pyvc.api import contract, spec, real, schema, external, Loop, implies, forall, exists, lemma

ENUM = "srcmlcpp.cpp_types.cpp_enum:"
_T = "reads the parsed declaration"

schema("CppEnum", options="SrcmlcppOptions", _block="CppBlock", enum_type="str", enum_name="str")
schema("CppBlock", block_children="list[CppElementAndComment]")
schema("CppDecl", decl_name="str", initial_value_code="str")
schema("SrcmlcppOptions", named_number_macros="dict[str, int]")

contract("srcmlcpp.srcml_wrapper:SrcmlWrapper.emit_warning", ["C04"], params={"message": "str", "warning_type": "any"}, returns="None", trusted=True,
         reason="prints a message")
contract("srcmlcpp.cpp_types.base.cpp_element:CppElement.fill_children_parents", ["C04"], returns="None", trusted=True, reason="sets the parent links, which values do not depend on")


def c_value(code: str):
    """value of a C++ integer literal, written from the C++ grammar"""
    s = code.strip().replace("'", "")
    neg = s[:1] == "-"
    if s[:1] in ("+", "-") and s:
        s = s[1:].strip()
    t = s.rstrip("uUlL")
    if s[len(t):].lower() not in ("", "u", "l", "ul", "lu", "ll", "ull", "llu") or "lL" in s or "Ll" in s:
        return None
    try:
        if t[:2] in ("0x", "0X"):
            v = int(t[2:], 16)
        elif t[:2] in ("0b", "0B"):
            v = int(t[2:], 2)
        elif len(t) > 1 and t[0] == "0":
            v = int(t, 8)
        elif t.isascii() and t.isdigit():
            v = int(t)
        else:
            return None
    except ValueError:
        return None
    return -v if neg else v


def _lit(rng: random.Random) -> dict:
    b = rng.choice([lambda n: str(n), lambda n: hex(n), lambda n: "0" + oct(n)[2:], lambda n: bin(n), lambda n: hex(n).upper().replace("X", rng.choice("xX"))])(rng.randrange(0, 1 << rng.choice([3, 8, 20, 40])))
    r = rng.random()
    if r < 0.2:
        b = rng.choice(["A", "A | B", "1 << 3", "09", "0x", "1.5", "'a'", "x1", "1u2", "f(1)", "- A", "1 + 1", "ull", "", "0xg", "-"])
    return {"code": rng.choice(["", "", "-", "+", "- "]) + b + rng.choice(["", "", "", "u", "U", "l", "L", "ul", "ULL", "ll", "LLU", "uLL", "lu"]) + rng.choice(["", "", " "])}


contract(ENUM + "_parse_cpp_integer_literal", ["C04"], trusted=True, pure=True, reason="a function of its text (its values are evaluated on generated literals: bounded)")
contract(ENUM + "_parse_cpp_integer_literal", ["C04"], bounded_only=True,
         ensures={"the value that C++ gives to the literal": "result == c_value(code)"}, gen=_lit, n=1500)
literal = real(ENUM + "_parse_cpp_integer_literal")


@spec
def last_decl_before(children: "list[CppElementAndComment]", k: int) -> int:
    """index of the last enumerator among the first k children, -1 if none"""
    if k <= 0:
        return -1
    if isinstance(children[k - 1], CppDecl):
        return k - 1
    return last_decl_before(children, k - 1)


lemma("last_before", ["C04"], {"c": "list[CppElementAndComment]", "k": "int"}, ["k >= 0"], ["last_decl_before(c, k) < k", "last_decl_before(c, k) >= -1"],
      ih=["last_before(c, k - 1)"], measure="k")

_SEQ = "self._block.block_children"
# what the value shown for the child number k must be, given the values shown before it
_SAME = "implies(not isinstance({c}[k], CppDecl), {r}[k] is {c}[k])"
_NAME = "implies(isinstance({c}[k], CppDecl), isinstance({r}[k], CppDecl) and {r}[k].decl_name == {c}[k].decl_name and {r}[k] is not {c}[k])"
_GIVEN = "implies(isinstance({c}[k], CppDecl) and {c}[k].initial_value_code != '' and {c}[k].initial_value_code not in self.options.named_number_macros, {r}[k].initial_value_code == {c}[k].initial_value_code)"
_MACRO = "implies(isinstance({c}[k], CppDecl) and {c}[k].initial_value_code != '' and {c}[k].initial_value_code in self.options.named_number_macros, {r}[k].initial_value_code == str(self.options.named_number_macros[{c}[k].initial_value_code]))"
_FIRST = "implies(isinstance({c}[k], CppDecl) and {c}[k].initial_value_code == '' and last_decl_before({c}, k) < 0, {r}[k].initial_value_code == '0')"
_NEXT = ("implies(isinstance({c}[k], CppDecl) and {c}[k].initial_value_code == '' and last_decl_before({c}, k) >= 0 and literal({r}[last_decl_before({c}, k)].initial_value_code) is not None, "
         "{r}[k].initial_value_code == str(literal({r}[last_decl_before({c}, k)].initial_value_code) + 1))")
_NEXT2 = ("implies(isinstance({c}[k], CppDecl) and {c}[k].initial_value_code == '' and last_decl_before({c}, k) >= 0 and literal({r}[last_decl_before({c}, k)].initial_value_code) is None, "
          "{r}[k].initial_value_code == {c}[last_decl_before({c}, k)].decl_name + ' + 1')")
_ALL = {"an element which is no enumerator is kept": _SAME, "an enumerator keeps its name": _NAME, "a given value is kept": _GIVEN, "a macro is replaced by its value": _MACRO,
        "the first value is 0": _FIRST, "one more than the previous value": _NEXT, "one more than the previous enumerator": _NEXT2}


def _at(e: str, c: str, r: str) -> str:
    return e.format(c=c, r=r)


_PARTS = (["an element which is no enumerator is kept", "an enumerator keeps its name", "a given value is kept", "a macro is replaced by its value", "the first value is 0"],
          ["an enumerator keeps its name", "one more than the previous value"],
          ["an enumerator keeps its name", "one more than the previous enumerator"])
for _part in _PARTS:      # proved in three parts, by three solver runs
    _S = {nm: _ALL[nm] for nm in _part}
    contract(
        ENUM + "CppEnum.get_children_with_filled_decl_values",
        ["C04"],
        ghost={"k": "int"},      # any child
        requires=["0 <= k", f"k < len({_SEQ})"],
        ensures={"one element per child, in order": f"len(result) == len({_SEQ})", **{nm: _at(e, _SEQ, "result") for nm, e in _S.items()},
                 "the enum itself keeps its values": f"implies(isinstance({_SEQ}[k], CppDecl), {_SEQ}[k].initial_value_code == old({_SEQ}[k].initial_value_code))"},
        use=[f"last_before({_SEQ}, k)"],
        loops={0: Loop(
            use=["last_before(_seq, k)", "last_before(_seq, _i)"],
            inv=[f"implies(isinstance(_seq[k], CppDecl), _seq[k].initial_value_code == old({_SEQ}[k].initial_value_code))", "len(children) == _i", "(last_decl is None) == (last_decl_before(_seq, _i) < 0)",
                 "implies(last_decl is not None, last_decl is children[last_decl_before(_seq, _i)] and last_decl.decl_name == _seq[last_decl_before(_seq, _i)].decl_name)"]
            + ["implies(k < _i, " + _at(e, "_seq", "children") + ")" for e in _S.values()],
            types={"last_decl": "Optional[CppDecl]", "children": "list[CppElementAndComment]"})},
        modifies=["*.initial_value_code"],
        cost=10,
    )

# ------------------------------------------------------------ names, values and lines of an enumerator
AE = "litgen.internal.adapted_types.adapted_enum:"
CPY = "litgen.internal.cpp_to_python:"
_RX = "regular expressions: an uninterpreted function of its arguments"
schema("AdaptedElement", _cpp_element="CppElementAndComment", options="LitgenOptions", lg_context="LitgenContext")
schema("AdaptedEnumDecl", _cpp_element="CppDecl", enum_parent="AdaptedEnum")
schema("AdaptedEnum", _cpp_element="CppEnum")
schema("LitgenOptions", enum_flag_remove_values_prefix="bool", enum_flag_remove_values_prefix_group_private="bool", enum_flag_skip_count="bool", fn_params_buffer_size_names__regex="str")

contract("srcmlcpp.cpp_types.base.cpp_element:CppElement.cpp_scope_str", ["C04"], params={"include_self": "bool"}, returns="str", trusted=True, pure=True, reason=_T)

contract("codemanip.code_utils:var_name_contains_word", ["C04"], trusted=True, pure=True, reason=_RX)
contract("litgen.internal.adapted_types.adapted_element:AdaptedElement._elm_comment_pydef_one_line", ["C04"], returns="str", trusted=True, pure=True, reason="the comment (C12)")
contract("litgen.internal.adapted_types.adapted_element:AdaptedElement._elm_comment_python_shall_place_at_end_of_line", ["C04"], returns="bool", trusted=True, pure=True, reason="the comment (C12)")
contract("litgen.internal.adapted_types.adapted_element:AdaptedElement._elm_stub_original_code_lines_info", ["C04"], returns="list[str]", trusted=True, reason="comment lines that show the original code")
contract(CPY + "comment_python_end_of_line", ["C04"], returns="str", trusted=True, pure=True, reason="the comment (C12)")
contract(CPY + "comment_python_previous_lines", ["C04"], returns="list[str]", trusted=True, pure=True, reason="the comment (C12)")
contract(CPY + "var_name_to_python", ["C04"], trusted=True, pure=True, reason="verified for C05")
contract(AE + "AdaptedEnumDecl.decl_value_python", ["C04"], returns="str", trusted=True, pure=True, reason="translation of the value (C06)")

matches = real("codemanip.code_utils:does_match_regex_or_matcher")
contains_word = real("codemanip.code_utils:var_name_contains_word")
scope_str = real("srcmlcpp.cpp_types.base.cpp_element:CppElement.cpp_scope_str")
var_name = real(CPY + "var_name_to_python")
value_python = real(AE + "AdaptedEnumDecl.decl_value_python")
comment_pydef = real("litgen.internal.adapted_types.adapted_element:AdaptedElement._elm_comment_pydef_one_line")


@spec
def decls_of(children: "list[CppElementAndComment]", k: int) -> "list[CppDecl]":
    """the enumerators among the first k children, in order"""
    if k <= 0:
        return []
    if isinstance(children[k - 1], CppDecl):
        return decls_of(children, k - 1) + [children[k - 1]]
    return decls_of(children, k - 1)


contract(ENUM + "CppEnum.get_enum_decls", ["C04"],
         ensures={"exactly the enumerators, in order": f"result == decls_of({_SEQ}, len({_SEQ}))"},
         loops={0: Loop(inv=["r == decls_of(_seq, _i)"])})

_EB = "enum._block.block_children"
_LAST = f"decls_of({_EB}, len({_EB}))[-1]"
contract(CPY + "enum_element_is_count", ["C04"],
         requires=[f"len(decls_of({_EB}, len({_EB}))) > 0"],
         ensures={"only when asked": "implies(result, options.enum_flag_skip_count)",
                  "only the last enumerator": f"implies(result, enum_element.decl_name == {_LAST}.decl_name)",
                  "only a name of count": "implies(result, matches(options.fn_params_buffer_size_names__regex, enum_element.decl_name))",
                  "of an unscoped enum: only a name that tells the enum": "implies(result and enum.enum_type != 'class', contains_word(enum_element.decl_name.lower(), enum.enum_name.lower()))",
                  "a final count is left out when asked": f"implies(options.enum_flag_skip_count and enum_element.decl_name == {_LAST}.decl_name and matches(options.fn_params_buffer_size_names__regex, enum_element.decl_name) and (enum.enum_type == 'class' or contains_word(enum_element.decl_name.lower(), enum.enum_name.lower())), result)"})


@spec
def without(name: str, prefix: str) -> str:
    """name without its prefix, whatever the case, nor the underscore that follows it"""
    if name.upper().startswith(prefix.upper() + "_"):
        return name[len(prefix) + 1:]
    if name.upper().startswith(prefix.upper()):
        return name[len(prefix):]
    return name


@spec
def public_enum_name(name: str) -> str:
    """the enum that a private enum extends"""
    if name.endswith("Private_"):
        return name[:len(name) - 8]
    if name.endswith("Private"):
        return name[:len(name) - 7]
    return name


@spec
def stripped(name: str, enum_name: str, group_private: bool) -> str:
    if group_private and public_enum_name(enum_name) != enum_name:
        return without(without(name, enum_name), public_enum_name(enum_name))
    return without(name, enum_name)


@spec
def identifier_of(name: str, full_name: str) -> str:
    """a valid name: the full one when nothing is left, an underscore before a digit"""
    s = name if len(name) > 0 else full_name
    return "_" + s if s[0:1].isdigit() else s


_N = "self._cpp_element.decl_name"
_EN = "self.enum_parent._cpp_element.enum_name"
_KEEP = "(not self.options.enum_flag_remove_values_prefix or self.enum_parent._cpp_element.enum_type == 'class')"
contract(AE + "AdaptedEnumDecl._decl_name_cpp_without_enum_prefix", ["C04"],
         requires=[f"len({_N}) > 0"],
         ensures={"the C++ name when the prefix is to be kept": f"implies({_KEEP}, result == {_N})",
                  "the C++ name without the prefix": f"implies(not {_KEEP}, result == identifier_of(stripped({_N}, {_EN}, self.options.enum_flag_remove_values_prefix_group_private), {_N}))"})
without_prefix = real(AE + "AdaptedEnumDecl._decl_name_cpp_without_enum_prefix")
contract(AE + "AdaptedEnumDecl.decl_name_python", ["C04"],
         requires=[f"len({_N}) > 0"],
         ensures={"the python name of the C++ name without the prefix": "result == var_name(self.options, without_prefix(self))"})
name_python = real(AE + "AdaptedEnumDecl.decl_name_python")
contract(AE + "AdaptedEnumDecl.decl_name_cpp_decorated", ["C04"],
         ensures={"the enumerator, in the scope of its enum": f"result == {_N} or result.endswith('::' + {_N})",
                  "through the enum for an enum class, only": f"result == (scope_str(self.enum_parent._cpp_element, self.enum_parent._cpp_element.enum_type == 'class') + '::' if scope_str(self.enum_parent._cpp_element, self.enum_parent._cpp_element.enum_type == 'class') != '' else '') + {_N}"})
cpp_decorated = real(AE + "AdaptedEnumDecl.decl_name_cpp_decorated")
contract(AE + "AdaptedEnumDecl.pydef_lines", ["C04"],
         requires=[f"len({_N}) > 0"],
         ensures={"one line": "len(result) == 1",
                  "binds the C++ enumerator under its python name": "result[0] == '.value(\"' + name_python(self) + '\", ' + cpp_decorated(self) + ', \"' + comment_pydef(self) + '\")'"})
contract(AE + "AdaptedEnumDecl.stub_lines", ["C04"],
         requires=[f"len({_N}) > 0"],
         ensures={"one declaration, with the python name and the value": "len(result) > 0 and result[-1].startswith(name_python(self) + ' = enum.auto() # (= ' + value_python(self) + ')')"})
