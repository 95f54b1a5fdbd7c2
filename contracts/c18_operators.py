"""C18: contracts on the operator tables (litgen.internal.adapted_types.operators)."""
from __future__ import annotations
import random
from pyvc.api import contract, spec, real, schema, Loop, implies, forall, exists

OP = "litgen.internal.adapted_types.operators:"

_ALL = "+ - * / % [] < <= == != > >= += -= *= /= %= <=> () ++ -- = ! ~ & | ^ << >> && || -> ->* , &= |= ^= <<= >>= bool int new delete co_await".split()


@spec
def binary_method(op: str) -> "Optional[str]":
    """the special method of the Python operator that means the same as the binary C++ operator"""
    if op == "+":
        return "__add__"
    if op == "-":
        return "__sub__"
    if op == "*":
        return "__mul__"
    if op == "/":
        return "__truediv__"
    if op == "%":
        return "__mod__"
    if op == "[]":
        return "__getitem__"
    if op == "<":
        return "__lt__"
    if op == "<=":
        return "__le__"
    if op == "==":
        return "__eq__"
    if op == "!=":
        return "__ne__"
    if op == ">":
        return "__gt__"
    if op == ">=":
        return "__ge__"
    if op == "+=":
        return "__iadd__"
    if op == "-=":
        return "__isub__"
    if op == "*=":
        return "__imul__"
    if op == "/=":
        return "__itruediv__"
    if op == "%=":
        return "__imod__"
    return None


@spec
def unary_method(op: str) -> "Optional[str]":
    if op == "-":
        return "__neg__"
    if op == "+":
        return "__pos__"
    if op == "bool":
        return "__bool__"
    return None


@spec
def never_bound(op: str) -> bool:
    return op == "++" or op == "--" or op == "="


contract(
    OP + "_cpp_to_python_operator_one_param",
    ["C18"],
    returns="Optional[str]",
    ensures={"a binary operator has the special method of the same meaning": "implies(cpp_operator_name != '<=>', result == binary_method(cpp_operator_name))",
             "a three-way comparison is accepted, to be split": "implies(cpp_operator_name == '<=>', result is not None)"},
    gen=lambda rng: {"cpp_operator_name": rng.choice(_ALL)},
)
contract(
    OP + "_cpp_to_python_operator_zero_param",
    ["C18"],
    returns="Optional[str]",
    ensures={"a unary operator has the special method of the same meaning": "result == unary_method(cpp_operator_name)"},
    gen=lambda rng: {"cpp_operator_name": rng.choice(_ALL)},
)
contract(
    OP + "_cpp_operator_unsupported_message",
    ["C18"],
    returns="Optional[str]",
    ensures={"exactly the operators without equivalent are refused": "(result is not None) == never_bound(cpp_operator_name)"},
    gen=lambda rng: {"cpp_operator_name": rng.choice(_ALL)},
)
_X = "reads the parsed C++ declaration: a function of the declaration"
DECL = "srcmlcpp.cpp_types.functions.cpp_function_decl:CppFunctionDecl."
contract(DECL + "is_method", ["C18"], trusted=True, pure=True, reason=_X)
contract(DECL + "is_operator", ["C18"], ensures={"its name starts with operator": "result == self.function_name.startswith('operator')"})
contract(DECL + "operator_name", ["C18"], requires=["self.function_name.startswith('operator')"],
         ensures={"the token that follows operator": "result == self.function_name[8:].strip()"})
op_name = real(DECL + "operator_name")
is_op = real(DECL + "is_operator")
is_meth = real(DECL + "is_method")
_F = "cpp_function_decl"
_NP = f"len({_F}.parameter_list.parameters)"
_N = f"op_name({_F})"


def _decl(rng: random.Random) -> dict:
    import srcmlcpp
    op = rng.choice(["+", "-", "*", "[]", "==", "+=", "()", "<=>", "<<", "++", "!", "&", "%=", "<", "="])
    n = rng.choice([0, 1, 1, 2])
    opts = srcmlcpp.SrcmlcppOptions()
    code = "struct A { int operator" + op + "(" + ", ".join(f"int p{i}" for i in range(n)) + "); };"
    unit = srcmlcpp.code_to_cpp_unit(opts, code)
    fs = [f for f in unit.all_functions_recursive()]
    return {"cpp_function_decl": fs[0]}


contract(
    OP + "raise_if_unsupported_operator",
    ["C18"],
    ensures={
        "an operator that passes is the method of a class": f"implies(is_op({_F}), is_meth({_F}))",
        "it has an equivalent": f"implies(is_op({_F}), not never_bound({_N}))",
        "of the same arity": f"implies(is_op({_F}) and {_N} != '()', ({_NP} == 0 and unary_method({_N}) is not None) or ({_NP} == 1 and ({_N} == '<=>' or binary_method({_N}) is not None)))",
    },
    raises={"SrcmlcppException": f"is_op({_F}) and (not is_meth({_F}) or never_bound({_N}) or ({_N} != '()' and not ({_NP} == 0 and unary_method({_N}) is not None) and not ({_NP} == 1 and ({_N} == '<=>' or binary_method({_N}) is not None))))"},
    gen=_decl, n=60,
)
contract(
    OP + "cpp_to_python_operator_name",
    ["C18"],
    requires=[f"is_op({_F})", f"is_meth({_F})"],
    ensures={
        "call": f"implies({_N} == '()', result == '__call__')",
        "unary": f"implies({_N} != '()' and {_NP} == 0, result == unary_method({_N}))",
        "binary": f"implies({_N} != '()' and {_NP} == 1 and {_N} != '<=>', result == binary_method({_N}))",
        "nothing else": f"{_N} == '()' or {_NP} <= 1",
    },
    raises={"SrcmlcppException": f"never_bound({_N}) or ({_N} != '()' and not ({_NP} == 0 and unary_method({_N}) is not None) and not ({_NP} == 1 and ({_N} == '<=>' or binary_method({_N}) is not None)))"},
    gen=_decl, n=60,
)
