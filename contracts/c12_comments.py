"""C12: contracts on the comments: what they become in the documentation strings and in the comments of the outputs."""
from __future__ import annotations
from pyvc.api import contract, spec, real, schema, Loop, implies, lemma

C12U = "codemanip.code_utils:"
C12P = "litgen.internal.cpp_to_python:"
EC = "srcmlcpp.cpp_types.base.cpp_element_comments:CppElementComments."

# ------------------------------------------------------------ C++ string literals
_S2 = {"x": "str", "y": "str", "c": "str", "w": "str"}
lemma("replace_concat", ["C12"], _S2, ["len(c) == 1"], ["(x + y).replace(c, w) == x.replace(c, w) + y.replace(c, w)"], axiom="str.replace with a pattern of one character works character by character")


@spec
def escaped_char(c: str) -> str:
    """what denotes this character in a C++ string literal"""
    if c == "\\":
        return "\\\\"
    if c == '"':
        return '\\"'
    if c == "\n":
        return "\\n"
    return c


@spec
def escaped_text(s: str) -> str:
    """what denotes this text in a C++ string literal, character by character"""
    if s == "":
        return ""
    return escaped_text(s[: len(s) - 1]) + escaped_char(s[len(s) - 1])


_B = "'\\\\'"
_BB = "'\\\\\\\\'"
_Q = "'\"'"
_BQ = "'\\\\\"'"
_NL = "'\\n'"
_BN = "'\\\\n'"
_P, _C = "s[: len(s) - 1]", "s[len(s) - 1]"


def _r1(t: str) -> str:
    return f"{t}.replace({_B}, {_BB})"


def _r2(t: str) -> str:
    return f"{_r1(t)}.replace({_Q}, {_BQ})"


def _r3(t: str) -> str:
    return f"{_r2(t)}.replace({_NL}, {_BN})"


lemma("escape_is_by_character", ["C12"], {"s": "str"}, [], [f"{_r3('s')} == escaped_text(s)"], measure="len(s)", cases=["s == ''", f"{_C} == {_B}", f"{_C} == {_Q}", f"{_C} == {_NL}"],
      ih=[f"escape_is_by_character({_P})", f"replace_concat({_P}, {_C}, {_B}, {_BB})", f"replace_concat({_r1(_P)}, {_r1(_C)}, {_Q}, {_BQ})", f"replace_concat({_r2(_P)}, {_r2(_C)}, {_NL}, {_BN})",
          f"replace_concat({_B}, {_Q}, {_NL}, {_BN})"])

contract(C12U + "format_cpp_comment_on_one_line", ["C12"],
         ensures={"no comment": "implies(comment is None, result == '')",
                  "a literal that denotes the text": "implies(comment is not None and '\\n' in comment, result == escaped_text(comment))",
                  "up to the spaces around it": "implies(comment is not None and '\\n' not in comment, result == escaped_text(comment).strip())"},
         use=["escape_is_by_character(comment)"])
contract(C12U + "strip_lines_right_space", ["C12"], inline=True, params={"lines": "list[str]"}, returns="list[str]", ghost={"k": "int"}, requires=["0 <= k"],
         ensures={"as many lines": "len(result) == len(lines)", "only trailing spaces are removed": "implies(k < len(lines), result[k] == lines[k].rstrip())"})

# ------------------------------------------------------------ the comments of one declaration
schema("CppElementComments", comment_on_previous_lines="str", comment_end_of_line="str", is_c_style_comment="bool")
contract(EC + "full_comment", ["C12"], ensures={"both comments": "result.startswith(self.comment_on_previous_lines) and result.endswith(self.comment_end_of_line)",
         "nothing else": "len(result) == len(self.comment_on_previous_lines) + len(self.comment_end_of_line) + (2 if self.comment_on_previous_lines != '' and self.comment_end_of_line != '' else 0)"})
contract(EC + "comments_as_str", ["C12"], ensures={"both comments": "result.startswith(self.comment_on_previous_lines) and result.endswith(self.comment_end_of_line)"})
contract(EC + "add_eol_comment", ["C12"], modifies=["self.comment_end_of_line"],
         ensures={"kept": "self.comment_end_of_line.startswith(old(self.comment_end_of_line))", "added": "self.comment_end_of_line.endswith(comment)"})
contract(EC + "add_comment_on_previous_lines", ["C12"], modifies=["self.comment_on_previous_lines"],
         ensures={"kept": "self.comment_on_previous_lines.startswith(old(self.comment_on_previous_lines))", "added": "self.comment_on_previous_lines.endswith(comment)"})

# ------------------------------------------------------------ in the stub
schema("CppElementAndComment", cpp_element_comments="CppElementComments")
schema("CppComment", comment="str")
schema("LitgenOptions", python_reproduce_cpp_layout="bool", python_strip_empty_comment_lines="bool")
contract(C12P + "_comment_apply_replacements", ["C12"], returns="str", pure=True, trusted=True, reason="the replacements of the user: a function of the options and of the text (bounded)")
replaced12 = real(C12P + "_comment_apply_replacements")
_EOL = "replaced12(options, cpp_element_c.cpp_element_comments.comment_end_of_line)"
_PREV = "replaced12(options, cpp_element_c.cpp_element_comments.comment_on_previous_lines)"
contract(C12P + "comment_python_shall_place_at_end_of_line", ["C12"], params={"cpp_element_c": "CppElementAndComment"},
         ensures={"only an end of line comment": f"result == (options.python_reproduce_cpp_layout and {_EOL} != '' and {_PREV} == '')"})
contract(C12P + "comment_python_end_of_line", ["C12"], params={"cpp_element_c": "CppElementAndComment"},
         ensures={"the comment": f"result == ('  #' + {_EOL} if {_EOL} != '' else '')"})
contract(C12P + "comment_python_previous_lines", ["C12"], params={"cpp_element_c": "CppElementAndComment"}, returns="list[str]", ghost={"k": "int"}, requires=["0 <= k"],
         ensures={"comment lines": "implies(k < len(result), result[k].startswith('#'))"})
contract(C12P + "docstring_lines", ["C12"], params={"cpp_element_c": "CppElementAndComment"}, returns="list[str]",
         ensures={"between quotes": "implies(len(result) > 0, result[0].startswith('\"\"\"') and result[len(result) - 1].endswith('\"\"\"'))",
                  "closed once opened": "implies(len(result) == 1, len(result[0]) >= 6)"})
