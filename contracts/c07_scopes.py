"""C07: contracts on how C++ names are qualified in the binding code, and shortened in the stub."""
from __future__ import annotations
from pyvc.api import contract, spec, real, schema, Loop, implies, lemma

SC7 = "srcmlcpp.cpp_types.scope.cpp_scope_process:"

contract(SC7 + "_skip_until", ["C07"], requires=["0 <= start", "start <= len(cpp_code)"],
         ensures={"goes forward, inside the code": "start <= result and result <= len(cpp_code) and implies(start < len(cpp_code) and end_token != '', start < result)", "to the end if there is no such token": "implies(end_token not in cpp_code[start:], result == len(cpp_code))",
                  "just after the token": "implies(end_token in cpp_code[start:], cpp_code[:result].endswith(end_token))"})
contract(SC7 + "_skip_literal", ["C07"], requires=["0 <= start", "start < len(cpp_code)"],
         ensures={"goes forward, inside the code": "start < result and result <= len(cpp_code)",
                  "after the closing quote, or at the end": "result == len(cpp_code) or cpp_code[result - 1] == cpp_code[start] or result < 0"},
         loops={0: Loop(inv=["start < i"], decreases="len(cpp_code) - i")})


@spec
def code_of_tokens(ts: "list[tuple[bool, str]]", k: int) -> str:
    """the text of the first k tokens"""
    if k <= 0:
        return ""
    return code_of_tokens(ts, k - 1) + ts[k - 1][1]


lemma("code_of_prefix", ["C07"], {"ts": "list[tuple[bool, str]]", "k": "int"}, ["0 <= k", "k <= len(ts) - 1"], ["code_of_tokens(ts[: len(ts) - 1], k) == code_of_tokens(ts, k)"],
      ih=["code_of_prefix(ts, k - 1)"], measure="k")
lemma("slices_join", ["C07"], {"c": "str", "a": "int", "b": "int"}, ["0 <= a", "a <= b", "b <= len(c)"], ["c[:a] + c[a:b] == c[:b]"])

contract(SC7 + "_split_identifiers", ["C07"], returns="list[tuple[bool, str]]", pure=True,
         ensures={"the tokens are the code": "code_of_tokens(result, len(result)) == cpp_code"},
         loops={0: Loop(types={"tokens": "list[tuple[bool, str]]", "previous": "str"}, inv=["0 <= i", "i <= len(cpp_code)", "code_of_tokens(tokens, len(tokens)) == cpp_code[:i]"], decreases="len(cpp_code) - i", use_end=["slices_join(cpp_code, start, i)", "code_of_prefix(tokens, len(tokens) - 1)"]),
                1: Loop(inv=["start <= i", "i <= len(cpp_code)"], decreases="len(cpp_code) - i"),
                2: Loop(inv=["start <= i", "i <= len(cpp_code)"], decreases="len(cpp_code) - i")}, fuel=2)

tokens_of = real(SC7 + "_split_identifiers")


# ------------------------------------------------------------ from the innermost scope to the outermost one
@spec
def found_in_scope(scopes: "list[str]", token: str, qualified: str, k: int) -> bool:
    """one of the first k scopes gives this qualified name to this token"""
    if k <= 0:
        return False
    return found_in_scope(scopes, token, qualified, k - 1) or scopes[k - 1] + token == qualified


@spec
def innermost(scopes: "list[str]", names: "list[str]", token: str, i: int) -> str:
    """the name that lookup finds from the i-th scope on, or the token itself"""
    if i >= len(scopes) or i < 0:
        return token
    if scopes[i] + token in names:
        return scopes[i] + token
    return innermost(scopes, names, token, i + 1)


lemma("found_mono", ["C07"], {"scopes": "list[str]", "t": "str", "q": "str", "k": "int", "n": "int"}, ["0 <= k", "k <= n", "found_in_scope(scopes, t, q, k)"], ["found_in_scope(scopes, t, q, n)"],
      ih=["found_mono(scopes, t, q, k, n - 1)"], measure="n")
contract(SC7 + "current_token_matches_scoped_identifier", ["C07"],
         ensures={"in one of the enclosing scopes": "result == (not current_token.startswith('::') and found_in_scope(current_scope_hierarchy, current_token, scoped_identifier_qualified_name, len(current_scope_hierarchy)))"},
         loops={0: Loop(inv=["not found_in_scope(_seq, current_token, scoped_identifier_qualified_name, _i)"], use=["found_mono(_seq, current_token, scoped_identifier_qualified_name, _i + 1, len(_seq))"])})
_H = "current_scope_hierarchy"
_N = "scoped_identifier_qualified_names"
contract(SC7 + "_qualified_identifier", ["C07"], pure=True,
         ensures={"the innermost scope first": f"implies(not current_token.startswith('::'), result == innermost({_H}, {_N}, current_token, 0))",
                  "a global name is unchanged": "implies(current_token.startswith('::'), result == current_token)",
                  "an unknown name is unchanged": f"result == current_token or result in {_N}"},
         loops={0: Loop(inv=[f"implies(not current_token.startswith('::'), innermost(_seq, {_N}, current_token, 0) == innermost(_seq, {_N}, current_token, _i))"],
                        use=[f"found_mono(_seq, current_token, _seq[_i] + current_token, _i + 1, len(_seq))"])}, fuel=2)
qualified_id = real(SC7 + "_qualified_identifier")


@spec
def none_known(ts: "list[tuple[bool, str]]", scopes: "list[str]", names: "list[str]", k: int) -> bool:
    """none of the identifiers among the first k tokens is known in an enclosing scope"""
    if k <= 0:
        return True
    return none_known(ts, scopes, names, k - 1) and (not ts[k - 1][0] or qualified_id(ts[k - 1][1], scopes, names) == ts[k - 1][1])


@spec
def qualified_code(ts: "list[tuple[bool, str]]", scopes: "list[str]", names: "list[str]", k: int) -> str:
    """the first k tokens, where the identifiers are qualified"""
    if k <= 0:
        return ""
    return qualified_code(ts, scopes, names, k - 1) + (qualified_id(ts[k - 1][1], scopes, names) if ts[k - 1][0] else ts[k - 1][1])


_L7 = {"ts": "list[tuple[bool, str]]", "scopes": "list[str]", "names": "list[str]", "k": "int"}
lemma("unknown_names_kept", ["C07"], _L7, ["0 <= k", "k <= len(ts)", "none_known(ts, scopes, names, k)"], ["qualified_code(ts, scopes, names, k) == code_of_tokens(ts, k)"],
      ih=["unknown_names_kept(ts, scopes, names, k - 1)"], measure="k")
contract(SC7 + "apply_scoped_identifiers_to_code", ["C07"], params={"inherited_identifiers": "Optional[dict[str, str]]"},
         requires=["inherited_identifiers is None"],
         ensures={"every identifier is qualified on its own, the rest is kept": f"result == qualified_code(tokens_of(cpp_code), {_H}, {_N}, len(tokens_of(cpp_code)))",
                  "code without known name is unchanged": f"implies(none_known(tokens_of(cpp_code), {_H}, {_N}, len(tokens_of(cpp_code))), result == cpp_code)"},
         use=[f"unknown_names_kept(tokens_of(cpp_code), {_H}, {_N}, len(tokens_of(cpp_code)))"],
         loops={0: Loop(inv=[f"new_code == qualified_code(_seq, {_H}, {_N}, _i)"])}, fuel=2)


# ------------------------------------------------------------ shortened names
contract(SC7 + "_make_terse_scoped_identifier", ["C07"], pure=True,
         ensures={"a prefix is left out, nothing else changes": "result == scoped_identifier or scoped_identifier.endswith('::' + result)"},
         loops={0: Loop(inv=["True"]), 1: Loop(inv=["True"])})
terse_id = real(SC7 + "_make_terse_scoped_identifier")
contract(SC7 + "_scope_hierarchy", ["C07"], returns="list[str]", pure=True, trusted=True, reason="the prefixes of a scope (bounded)")


@spec
def shadowed(terse: str, token: str, scopes: "list[str]", known: "list[str]", i: int) -> bool:
    """from the i-th scope on, the first part of the terse name is found before the scope where it designates the token"""
    if i >= len(scopes) or i < 0:
        return True
    if scopes[i] + terse == token:
        return False
    if scopes[i] + terse.split("::")[0] in known or any(name.startswith(scopes[i] + terse.split("::")[0] + "::") for name in known):
        return True
    return shadowed(terse, token, scopes, known, i + 1)


contract(SC7 + "_is_hidden_by_inner_scope", ["C07"], pure=True, ensures={"innermost scope first": "result == shadowed(terse_token, token, hierarchy, known_identifiers, 0)"},
         loops={0: Loop(inv=["shadowed(terse_token, token, _seq, known_identifiers, 0) == shadowed(terse_token, token, _seq, known_identifiers, _i)"])}, fuel=2)
hidden_id = real(SC7 + "_is_hidden_by_inner_scope")
scopes_of = real(SC7 + "_scope_hierarchy")


@spec
def terse_token_of(token: str, scope: str, known: "list[str]") -> str:
    """the terse name, unless it designates something else in this scope"""
    if (token in known or token.rpartition("::")[0] in known) and hidden_id(terse_id(token, scope), token, scopes_of(scope), known):
        return token
    return terse_id(token, scope)


@spec
def terse_code(ts: "list[tuple[bool, str]]", scope: str, known: "list[str]", k: int) -> str:
    if k <= 0:
        return ""
    return terse_code(ts, scope, known, k - 1) + (terse_token_of(ts[k - 1][1], scope, known) if ts[k - 1][0] else ts[k - 1][1])


contract(SC7 + "make_terse_code", ["C07"], cost=60, params={"known_identifiers": "Optional[list[str]]"},
         ensures={"only redundant scopes are left out": "implies(known_identifiers is not None, result == terse_code(tokens_of(cpp_code), current_scope_prefix, known_identifiers, len(tokens_of(cpp_code))))"},
         hide=[SC7 + "_make_terse_scoped_identifier", SC7 + "_is_hidden_by_inner_scope", SC7 + "_split_identifiers"],
         loops={0: Loop(inv=["new_code == terse_code(_seq, current_scope_prefix, known_identifiers, _i)"])}, fuel=2)
