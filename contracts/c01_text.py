"""C01 / C17: contracts on the text helpers of codemanip.code_utils."""
from __future__ import annotations
from pyvc.api import contract, spec, lemma, external, real, Loop, implies, forall, only_chars

CU = "codemanip.code_utils:"

lead_blanks = real("codemanip.code_utils:spaces_or_tabs_at_line_start")
indented = real("codemanip.code_utils:indent_code")
file_text = real("codemanip.code_utils:read_text_file")
without_trailing_spaces = real("codemanip.code_utils:remove_trailing_spaces")
external("os.path.isfile", ["str"], "bool")

contract(
    CU + "spaces_or_tabs_at_line_start",
    ["C01", "C17"],
    ensures={
        "result is a prefix of the line": "line.startswith(result)",
        "result holds blanks only": "only_chars(result, ' \\t')",
        "result is maximal": "len(result) == len(line) or not (line[len(result):len(result)+1] == ' ' or line[len(result):len(result)+1] == '\\t')",
    },
    loops={0: Loop(inv=["r == line[:_i]", "only_chars(r, ' \\t')"])},
)

contract(
    CU + "count_spaces_at_start_of_line",
    ["C17"],
    ensures={
        "bounds": "0 <= result and result <= len(line)",
        "counts blanks": "only_chars(line[:result], ' ')",
        "maximal": "result == len(line) or line[result:result+1] != ' '",
    },
    loops={0: Loop(inv=["nb_spaces_this_line == _i", "only_chars(line[:_i], ' ')"])},
)

contract(
    CU + "remove_trailing_spaces",
    ["C17"],
    ensures={
        "prefix": "line.startswith(result)",
        "only spaces removed": "only_chars(line[len(result):], ' ')",
        "no space left": "not result.endswith(' ')",
    },
    loops={0: Loop(inv=["line.startswith(r)", "only_chars(line[len(r):], ' ')"], decreases="len(r)")},
)


@spec
def first_indent(lines: list[str], i: int) -> int:
    """indentation of the first line, among the first i, that is not made of spaces only; -1 if there is none"""
    if i <= 0:
        return -1
    if first_indent(lines, i - 1) >= 0:
        return first_indent(lines, i - 1)
    if len(lines[i - 1].replace(" ", "")) == 0:
        return -1
    return count_spaces(lines[i - 1])


count_spaces = real("codemanip.code_utils:count_spaces_at_start_of_line")
indent_of = real("codemanip.code_utils:compute_code_indent_size")

contract(
    CU + "compute_code_indent_size",
    ["C17"],
    ensures={
        "indentation of the first non blank line": "result == (first_indent(code.split('\\n'), len(code.split('\\n'))) if first_indent(code.split('\\n'), len(code.split('\\n'))) >= 0 else 0)",
        "non negative": "result >= 0",
    },
    loops={0: Loop(inv=["first_indent(_seq, _i) == -1"], use=["first_indent_stable(_seq, _i + 1, _n)"])},
)

lemma(
    "first_indent_stable",
    ["C17"],
    {"lines": "list[str]", "k": "int", "n": "int"},
    requires=["0 <= k", "k <= n", "n <= len(lines)"],
    ensures=["implies(first_indent(lines, k) >= 0, first_indent(lines, n) == first_indent(lines, k))"],
    measure="n",
    ih=["first_indent_stable(lines, k, n - 1)"],
)


@spec
def unindented_lines(lines: list[str], k: int, i: int) -> list[str]:
    if i <= 0:
        return []
    if lines[i - 1].startswith(" " * k):
        return unindented_lines(lines, k, i - 1) + [without_trailing_spaces(lines[i - 1][k:])]
    return unindented_lines(lines, k, i - 1) + [without_trailing_spaces(lines[i - 1])]


strip_empty = real("codemanip.code_utils:strip_empty_lines")

contract(
    CU + "unindent_code",
    ["C17"],
    ensures={
        "each line loses the common indentation and its trailing spaces, nothing else": "implies(not flag_strip_empty_lines, result == '\\n'.join(unindented_lines(code.split('\\n'), indent_of(code), len(code.split('\\n')))))",
        "then empty lines are trimmed on request": "implies(flag_strip_empty_lines, result == strip_empty('\\n'.join(unindented_lines(code.split('\\n'), indent_of(code), len(code.split('\\n'))))))",
    },
    loops={0: Loop(inv=["processed_lines == unindented_lines(_seq, indent_of(code), _i)"], types={"processed_lines": "list[str]", "processed_line": "str"})},
)


@spec
def indent_one(line: str, pad: str, rstrip: bool) -> str:
    return "" if len(line) == 0 else (pad + line.rstrip() if rstrip else pad + line)


@spec
def indent_lines(code: str, pad: str, rstrip: bool) -> str:
    return "\n".join([indent_one(line, pad, rstrip) for line in code.split("\n")])


@spec
def pad_of(indent_size: int, indent_str: "Optional[str]") -> str:
    return " " * indent_size if indent_str is None else indent_str


contract(
    CU + "indent_code",
    ["C01", "C17"],
    ensures={
        "every non empty line is prefixed, nothing else": "implies(not skip_first_line, result == indent_lines(code, pad_of(indent_size, indent_str), rstrip))",
        "the first line is left out on request": "implies(skip_first_line and len(code.split('\\n')) > 1, result == (code.split('\\n')[0].rstrip() if rstrip else code.split('\\n')[0]) + '\\n' + indent_lines('\\n'.join(code.split('\\n')[1:]), pad_of(indent_size, indent_str), rstrip))",
        "a single first line is unchanged": "implies(skip_first_line and len(code.split('\\n')) == 1, result == code)",
    },
)

contract(
    CU + "strip_empty_lines",
    ["C17"],
    ensures={"trims the list of lines": "result == '\\n'.join(strip_empty_list(code_lines.split('\\n')))"},
)
strip_empty_list = real("codemanip.code_utils:strip_empty_lines_in_list")

contract(
    CU + "strip_empty_lines_in_list",
    ["C17"],
    ensures={"no longer than the input": "len(result) <= len(code_lines)"},
)

# ---------------------------------------------------------------- C01
contract(CU + "read_text_file", ["C01"], trusted=True, reason="reads the file system: result is an uninterpreted function of the file name for the duration of one call")
contract(CU + "write_text_file", ["C01"], params={"filename": "str", "content": "str"}, trusted=True, effect="write", reason="file system write, modelled as one observable effect (file name, content)")


@spec
def pairing(lines: list[str], m_in: str, m_out: str, i: int) -> int:
    """0: outside a region, 1: inside a region, 2: markers badly paired, after the first i lines"""
    if i <= 0:
        return 0
    before = pairing(lines, m_in, m_out, i - 1)
    if before == 2:
        return 2
    if m_in in lines[i - 1]:
        return 2 if before == 1 or m_out in lines[i - 1] else 1
    if m_out in lines[i - 1]:
        return 0 if before == 1 else 2
    return before


@spec
def has_start(lines: list[str], m_in: str, i: int) -> bool:
    if i <= 0:
        return False
    return has_start(lines, m_in, i - 1) or m_in in lines[i - 1]


@spec
def regenerated(lines: list[str], m_in: str, m_out: str, code: str, keep_indent: bool, i: int) -> str:
    """text of the first i lines: lines outside regions and marker lines kept, region content replaced by the code"""
    if i <= 0:
        return ""
    before = regenerated(lines, m_in, m_out, code, keep_indent, i - 1)
    line = lines[i - 1]
    if m_in in line:
        return before + line + "\n" + (indented(code, 1, False, lead_blanks(line), True) if keep_indent else code)
    if m_out in line:
        return before + "\n" + line + "\n"
    if pairing(lines, m_in, m_out, i - 1) == 0:
        return before + line + "\n"
    return before


@spec
def drop_last_newline(s: str) -> str:
    return s[:-1] if s.endswith("\n") else s


_LINES = "file_text(inout_filename).split('\\n')"
_M = "'<' + marker_token + '>', '</' + marker_token + '>'"
_FINAL = f"drop_last_newline(regenerated({_LINES}, {_M}, code_to_insert, flag_preserve_indentation, len({_LINES})))"

lemma("pairing_error_is_final", ["C01"], {"lines": "list[str]", "a": "str", "b": "str", "k": "int", "n": "int"},
      requires=["0 <= k", "k <= n", "n <= len(lines)"],
      ensures=["implies(pairing(lines, a, b, k) == 2, pairing(lines, a, b, n) == 2)"],
      measure="n", ih=["pairing_error_is_final(lines, a, b, k, n - 1)"])

lemma("pairing_range", ["C01"], {"lines": "list[str]", "a": "str", "b": "str", "n": "int"},
      requires=["0 <= n", "n <= len(lines)"],
      ensures=["0 <= pairing(lines, a, b, n) and pairing(lines, a, b, n) <= 2"],
      measure="n", ih=["pairing_range(lines, a, b, n - 1)"])

contract(
    CU + "write_generated_code_between_markers",
    ["C01"],
    use=[f"pairing_range({_LINES}, {_M}, len({_LINES}))"],
    hide=[CU + "indent_code", CU + "unindent_code", CU + "spaces_or_tabs_at_line_start"],
    ensures={
        "the file receives exactly the regenerated text": f"implies(n_write > 0, write_filename == inout_filename and write_content == {_FINAL})",
        "the file is left alone only when it already holds that text": f"implies(n_write == 0, file_text(inout_filename) == {_FINAL})",
        "one write at most": "n_write <= 1",
        "success requires paired markers": f"pairing({_LINES}, {_M}, len({_LINES})) == 0",
        "success requires a start marker": f"has_start({_LINES}, '<' + marker_token + '>', len({_LINES}))",
    },
    raises={
        "FileNotFoundError": "not isfile(inout_filename)",
        "RuntimeError": f"pairing({_LINES}, {_M}, len({_LINES})) != 0 or not has_start({_LINES}, '<' + marker_token + '>', len({_LINES}))",
    },
    loops={0: Loop(
        inv=[
            "output_code == regenerated(_seq, code_marker_in, code_marker_out, code_to_insert, flag_preserve_indentation, _i)",
            "is_inside_autogen_region == (pairing(_seq, code_marker_in, code_marker_out, _i) == 1)",
            "was_replacement_performed == has_start(_seq, code_marker_in, _i)",
            "pairing(_seq, code_marker_in, code_marker_out, _i) != 2",
        ],
        types={"indent_str": "str"},
        use=["pairing_error_is_final(_seq, code_marker_in, code_marker_out, _i + 1, _n)", "pairing_range(_seq, code_marker_in, code_marker_out, _i)"],
    )},
)
isfile = real("os.path:isfile")
