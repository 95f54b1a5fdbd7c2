"""C05 / C06 / C11 / C16: contracts on litgen.internal.cpp_to_python (names, type splitting, array types)."""
from __future__ import annotations
import random
from typing import Optional
from pyvc.api import contract, spec, lemma, real, schema, Loop, implies, forall, exists

CP = "litgen.internal.cpp_to_python:"
CU = "codemanip.code_utils:"
RR = "codemanip.code_replacements:RegexReplacementList."
_RE = "regular expressions (module re): the result is a function of the pattern list and the text"
contract(RR + "apply", ["C05", "C06", "C12"], trusted=True, pure=True, reason=_RE)
contract(CU + "to_snake_case", ["C05"], trusted=True, pure=True, reason=_RE)
replaced = real(RR + "apply")
snake = real(CU + "to_snake_case")
is_escaped = real(CP + "add_underscore_if_python_reserved_word")

KEYWORDS = ["False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield"]


@spec
def is_keyword(s: str) -> bool:
    return s in KEYWORDS


@spec
def escaped(s: str) -> str:
    return s + "_" if is_keyword(s) else s


def _name(rng: random.Random) -> str:
    return rng.choice(["lambda", "None", "fooBar", "None_", "class_", "isOk", "in", "Lambda", "x", "HTTPServer", "from", "async", "ASYNC", "m_value", "Def", "a1B2", "match", "_priv", "print"])


def _opts(rng: random.Random) -> object:
    import litgen
    o = litgen.LitgenOptions()
    o.python_convert_to_snake_case = rng.random() < 0.7
    for l in (o.function_names_replacements, o.var_names_replacements, o.namespace_names_replacements, o.type_replacements):
        if rng.random() < 0.5:
            l.add_first_replacement(*rng.choice([("^m_", ""), ("Ok$", ""), ("^foo", "in"), ("x", "lambda"), ("Bar", "class"), ("^isOk$", "None")]))
    return o


contract(
    CP + "add_underscore_if_python_reserved_word",
    ["C05"],
    ensures={
        "the result is not a keyword": "not is_keyword(result)",
        "only keywords change": "result == escaped(name)",
        "doing it again changes nothing": "escaped(result) == result",
    },
    gen=lambda rng: {"name": _name(rng)},
)
contract(
    CP + "_name_to_python",
    ["C05"],
    ensures={
        "the result is not a keyword": "not is_keyword(result)",
        "replacements, snake case, keywords, then the replacements once more": "result == escaped(replaced(replacements, escaped(snake(replaced(replacements, name)) if options.python_convert_to_snake_case else replaced(replacements, name))))",
    },
    gen=lambda rng: (lambda o: {"options": o, "name": _name(rng), "replacements": o.var_names_replacements})(_opts(rng)),
)
for _f, _l in (("function_name_to_python", "function_names_replacements"), ("namespace_name_to_python", "namespace_names_replacements"), ("var_name_to_python", "var_names_replacements")):
    contract(
        CP + _f,
        ["C05"],
        ensures={
            "the result is not a keyword": "not is_keyword(result)",
            "the replacements of that kind of names are applied": f"result == escaped(replaced(options.{_l}, escaped(snake(replaced(options.{_l}, name)) if options.python_convert_to_snake_case else replaced(options.{_l}, name))))",
        },
        gen=lambda rng: {"options": _opts(rng), "name": _name(rng)},
    )
for _f in ("_class_name_to_python", "enum_name_to_python"):
    contract(
        CP + _f,
        ["C05"],
        ensures={
            "the result is not a keyword": "not is_keyword(result)",
            "class and enum names keep their spelling apart from the type replacements": "result == escaped(replaced(options.type_replacements, name))",
        },
        gen=lambda rng: {"options": _opts(rng), "name": _name(rng)},
    )


# ---------------------------------------------------------------- C06: splitting of types
@spec
def angle_depth(s: str, i: int) -> int:
    """number of < minus number of > among the first i characters"""
    if i <= 0:
        return 0
    if s[i - 1] == "<":
        return angle_depth(s, i - 1) + 1
    if s[i - 1] == ">":
        return angle_depth(s, i - 1) - 1
    return angle_depth(s, i - 1)


@spec
def square_depth(s: str, i: int) -> int:
    """number of [ minus number of ] among the first i characters"""
    if i <= 0:
        return 0
    if s[i - 1] == "[":
        return square_depth(s, i - 1) + 1
    if s[i - 1] == "]":
        return square_depth(s, i - 1) - 1
    return square_depth(s, i - 1)


def _type(rng: random.Random) -> str:
    return "".join(rng.choice(["<", ">", "A", "int", ", ", " ", "[", "]", "std::vector<", ">", "(", "*"]) for _ in range(rng.randrange(12)))


@spec
def close_angle(s: str, i: int) -> int:
    """position, among the first i characters, of the > that closes the first <; -1 if there is none"""
    if i <= 0:
        return -1
    if close_angle(s, i - 1) >= 0:
        return close_angle(s, i - 1)
    if s[i - 1] == ">" and s.find("<") >= 0 and s.find("<") < i - 1 and angle_depth(s, i) == angle_depth(s, s.find("<")):
        return i - 1
    return -1


lemma("cut_in_three", ["C06"], {"s": "str", "a": "int", "b": "int"}, requires=["0 <= a", "a < b", "b < len(s)", "s[a] == '<'", "s[b] == '>'"],
      ensures=["s[:a] + '<' + s[a + 1:b] + '>' + s[b + 1:] == s"])
contract(
    CP + "_split_cpp_type_template_args",
    ["C06"],
    use=["cut_in_three(s, s.find('<'), s.find('<') + 1 + (len(result[1]) if len(result) == 3 else 0))"],
    ensures={
        "either the type as it is, or three parts": "len(result) == 1 or len(result) == 3",
        "a type with one part is unchanged": "implies(len(result) == 1, result[0] == s)",
        "no character is lost": "implies(len(result) == 3, result[0] + '<' + result[1] + '>' + result[2] == s)",
        "the first < is the one that is split": "implies(len(result) == 3, '<' not in result[0])",
        "its arguments are balanced": "implies(len(result) == 3, angle_depth(s, len(result[0]) + 1 + len(result[1])) - angle_depth(s, len(result[0])) == 1)",
    },
    loops={0: Loop(inv=[
        "0 <= idx_start", "idx_start <= idx", "idx <= len(s)", "idx_end == -1", "idx_start == s.find('<')",
        "depth == angle_depth(s, idx) - angle_depth(s, idx_start)",
    ], decreases="len(s) - idx")},
    gen=lambda rng: {"s": _type(rng)},
)
contract(
    CP + "_find_closing_bracket",
    ["C06"],
    requires=["0 <= start", "start <= len(s)"],
    ensures={
        "a position between start and the end": "start <= result and result <= len(s)",
        "that of a closing bracket": "result == len(s) or s[result] == ']'",
        "that was not opened after start": "implies(result < len(s), square_depth(s, result) == square_depth(s, start))",
    },
    loops={0: Loop(inv=["depth == square_depth(s, start + _i) - square_depth(s, start)", "depth >= 0"])},
    gen=lambda rng: (lambda t: {"s": t, "start": rng.randrange(len(t) + 1)})(_type(rng)),
)


@spec
def outside_split(s: str, i: int) -> list[str]:
    """the parts of the first i characters, split at the commas that are not inside brackets"""
    if i <= 0:
        return [""]
    before = outside_split(s, i - 1)
    if s[i - 1] == "," and square_depth(s, i - 1) == 0:
        return before + [""]
    return before[:-1] + [before[-1] + s[i - 1]]


lemma("outside_split_not_empty", ["C06"], {"s": "str", "i": "int"}, requires=["i <= len(s)"],
      ensures=["len(outside_split(s, i)) >= 1"], measure="i", ih=["outside_split_not_empty(s, i - 1)"])
contract(
    CP + "_split_outside_brackets",
    ["C06"],
    ensures={"split at the commas outside of brackets, nothing lost": "result == outside_split(s, len(s))"},
    loops={0: Loop(inv=["parts == outside_split(_seq, _i)", "depth == square_depth(_seq, _i)"], use=["outside_split_not_empty(_seq, _i)"], types={"parts": "list[str]"})},
    gen=lambda rng: {"s": _type(rng)},
)

INT_TYPES = ["int", "unsigned int", "signed int", "long", "unsigned long", "signed long", "long long", "unsigned long long", "signed long long", "uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t", "size_t", "ssize_t", "std::size_t"]
FLOAT_TYPES = ["float", "double", "long double"]


@spec
def is_int_type(t: str) -> bool:
    return t in INT_TYPES


@spec
def is_float_type(t: str) -> bool:
    return t in FLOAT_TYPES


_TYPES = INT_TYPES + FLOAT_TYPES + ["bool", "std::string", "string", "Foo", "intx", "std::vector<int>", "const int", "int *", "char", "double *", "const float *", "uint8_t*", "np_int_l", "const np_uint_l *", "my_const int"]
contract(
    CP + "cpp_type_default_python_value",
    ["C06"],
    ensures={
        "integers": "implies(is_int_type(cpp_type), result == '0')",
        "floating point": "implies(is_float_type(cpp_type), result == '0.')",
        "strings": "implies(cpp_type == 'std::string' or cpp_type == 'string', result == '\"\"')",
        "no value is made up for the other types": "implies(not is_int_type(cpp_type) and not is_float_type(cpp_type) and cpp_type != 'std::string' and cpp_type != 'string' and cpp_type != 'bool', result is None)",
    },
    gen=lambda rng: {"cpp_type": rng.choice(_TYPES)},
)
contract(
    CP + "is_cpp_type_immutable_for_python",
    ["C10"],
    ensures={"numbers, strings and booleans are immutable, nothing else": "result == (is_int_type(cpp_type) or is_float_type(cpp_type) or cpp_type == 'string' or cpp_type == 'std::string' or cpp_type == 'bool')"},
    gen=lambda rng: {"cpp_type": rng.choice(_TYPES)},
)

# ---------------------------------------------------------------- C11: dtype tables
DTYPES = ["B", "b", "H", "h", "I", "i", "L", "l", "f", "d", "g", "q"]
ARRAY_TYPES = ["uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "np_uint_l", "np_int_l", "float", "double", "long double", "long long"]


@spec
def dtype_type(c: str) -> str:
    """C++ type of the elements of an array whose dtype has that code; empty when the code is not one of numpy's"""
    if c == "B":
        return "uint8_t"
    if c == "b":
        return "int8_t"
    if c == "H":
        return "uint16_t"
    if c == "h":
        return "int16_t"
    if c == "I":
        return "uint32_t"
    if c == "i":
        return "int32_t"
    if c == "L":
        return "np_uint_l"
    if c == "l":
        return "np_int_l"
    if c == "f":
        return "float"
    if c == "d":
        return "double"
    if c == "g":
        return "long double"
    if c == "q":
        return "long long"
    return ""


@spec
def no_pointer(t: str) -> str:
    return t.strip()[:-1].strip() if t.strip().endswith("*") else t.strip()


@spec
def element_type(t: str) -> str:
    return no_pointer(t).replace("const ", "").strip() if no_pointer(t).startswith("const ") else no_pointer(t)


contract(
    CP + "py_array_type_to_cpp_type",
    ["C11"],
    requires=["py_array_type in DTYPES"],
    ensures={"the C++ type of that dtype": "result == dtype_type(py_array_type)"},
    gen=lambda rng: {"py_array_type": rng.choice(DTYPES)},
)
contract(
    CP + "cpp_type_to_py_array_type",
    ["C11"],
    ensures={
        "the dtype of exactly that element type": "dtype_type(result) == element_type(cpp_type)",
        "which is a known type": "element_type(cpp_type) != ''",
    },
    raises={"ValueError": "element_type(cpp_type) not in ARRAY_TYPES"},
    gen=lambda rng: {"cpp_type": rng.choice(_TYPES)},
)


@spec
def dtype_kind(t: str) -> str:
    """kind of the numbers of a C++ type: Int, UInt, Float"""
    if t in ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "unsigned int", "unsigned long", "unsigned long long", "np_uint_l"]:
        return "UInt"
    if t in ["int8_t", "int16_t", "int32_t", "int64_t", "int", "signed int", "long", "signed long", "long long", "signed long long", "np_int_l"]:
        return "Int"
    if t in ["float", "double", "long double"]:
        return "Float"
    return ""


contract(
    CP + "nanobind_cpp_type_to_dtype_code",
    ["C11"],
    ensures={"signed, unsigned or floating point like the C++ type": "result == dtype_kind(cpp_type)", "of a known type": "result != ''"},
    raises={"ValueError": "dtype_kind(cpp_type) == ''"},
    gen=lambda rng: {"cpp_type": rng.choice(_TYPES)},
)
contract(
    CP + "nanobind_cpp_type_to_dtype_code_as_uint8",
    ["C11"],
    ensures={"the nanobind constant of that kind": "result == 'static_cast<uint8_t>(nb::dlpack::dtype_code::' + dtype_kind(cpp_type) + ')'"},
    raises={"ValueError": "dtype_kind(cpp_type) == ''"},
    gen=lambda rng: {"cpp_type": rng.choice(_TYPES)},
)
