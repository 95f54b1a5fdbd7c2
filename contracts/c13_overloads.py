"""C13: contracts on the detection and on the order of the overloads."""
from __future__ import annotations
import random
from pyvc.api import contract, spec, real, schema, Loop, implies, lemma

FD13 = "srcmlcpp.cpp_types.functions.cpp_function_decl:CppFunctionDecl."
BL = "srcmlcpp.cpp_types.blocks.cpp_block:CppBlock."
SRT = "srcmlcpp.cpp_types.classes.cpp_struct:CppStruct."
AB13 = "litgen.internal.adapted_types.adapted_block:"
_R = "reads the parsed declaration"

schema("CppBlock", block_children="list[CppElementAndComment]")
schema("CppStruct", block="CppBlock", class_name="str")
schema("CppFunctionDecl", function_name="str")


@spec
def functions_in(children: "list[CppElementAndComment]", k: int) -> "list[CppFunctionDecl]":
    """the functions among the first k elements, in order"""
    if k <= 0:
        return []
    if isinstance(children[k - 1], CppFunctionDecl):
        return functions_in(children, k - 1) + [children[k - 1]]
    return functions_in(children, k - 1)


@spec
def named(fs: "list[CppFunctionDecl]", name: str, k: int) -> "list[CppFunctionDecl]":
    """those of the first k functions that have this name, in order"""
    if k <= 0:
        return []
    if fs[k - 1].function_name == name:
        return named(fs, name, k - 1) + [fs[k - 1]]
    return named(fs, name, k - 1)


contract(BL + "all_functions", ["C13"], ensures={"the functions of this block, in order": "result == functions_in(self.block_children, len(self.block_children))"},
         loops={0: Loop(inv=["r == functions_in(_seq, _i)"], types={"r": "list[CppFunctionDecl]"})})
contract(BL + "all_functions_with_name", ["C13"],
         ensures={"the functions of this block that have this name, in order": "result == named(functions_in(self.block_children, len(self.block_children)), name, len(functions_in(self.block_children, len(self.block_children))))"},
         loops={0: Loop(inv=["r == named(_seq, name, _i)"], types={"r": "list[CppFunctionDecl]"})})
_FS = "functions_in(self.block_children, len(self.block_children))"
contract(BL + "is_function_overloaded", ["C13"], requires=[f"len(named({_FS}, function.function_name, len({_FS}))) >= 1"],
         ensures={"another function of this block has this name": f"result == (len(named({_FS}, function.function_name, len({_FS}))) >= 2)"})


@spec
def functions_of_zone(zone: "CppElementAndComment") -> "list[CppFunctionDecl]":
    if isinstance(zone, CppPublicProtectedPrivate):
        return functions_in(zone.block_children, len(zone.block_children))
    return []


@spec
def methods_in(zones: "list[CppElementAndComment]", k: int) -> "list[CppFunctionDecl]":
    """the methods of the first k zones (public, protected, private), in order"""
    if k <= 0:
        return []
    return methods_in(zones, k - 1) + functions_of_zone(zones[k - 1])


schema("CppPublicProtectedPrivate", block_children="list[CppElementAndComment]")
_Z = "self.block.block_children"
contract(SRT + "get_methods", ["C13"], ensures={"the methods of every zone, in order": f"result == methods_in({_Z}, len({_Z}))"},
         loops={0: Loop(inv=["r == methods_in(_seq, _i)"], types={"r": "list[CppFunctionDecl]"}),
                1: Loop(inv=["r == methods_in(_seq_outer, _i_outer) + functions_in(_seq, _i)"], types={"r": "list[CppFunctionDecl]"})})
_MS = f"methods_in({_Z}, len({_Z}))"
contract(SRT + "get_methods_with_name", ["C13"], ensures={"the methods that have this name, in order": f"result == named({_MS}, name, len({_MS}))"},
         loops={0: Loop(inv=["r == named(_seq, name, _i)"], types={"r": "list[CppFunctionDecl]"})})

contract(FD13 + "parent_struct_if_method", ["C13"], returns="Optional[CppStruct]", pure=True, trusted=True, reason=_R)
parent_struct = real(FD13 + "parent_struct_if_method")
is_method13 = real(FD13 + "is_method")
_PB = "parent_struct(self).block.block_children"
_PM = f"methods_in({_PB}, len({_PB}))"
contract(FD13 + "is_overloaded_method", ["C13"],
         requires=["implies(is_method13(self), parent_struct(self) is not None)", f"implies(is_method13(self), len(named({_PM}, self.function_name, len({_PM}))) >= 1)"],
         ensures={"a function is not a method": "implies(not is_method13(self), not result)",
                  "another method of the class has this name": f"implies(is_method13(self), result == (len(named({_PM}, self.function_name, len({_PM}))) >= 2))"})

# ------------------------------------------------------------ namespaces that are written several times
contract(BL + "all_functions_recursive", ["C13"], returns="list[CppFunctionDecl]", pure=True, trusted=True, reason=_R)
contract("srcmlcpp.cpp_types.base.cpp_element:CppElement.root_cpp_unit", ["C13"], returns="CppUnit", pure=True, trusted=True, reason=_R)
contract(BL + "is_function_overloaded", ["C13"], returns="bool", pure=True, trusted=True, reason="verified above, for the block of the function")
all_functions_rec = real(BL + "all_functions_recursive")
root_unit = real("srcmlcpp.cpp_types.base.cpp_element:CppElement.root_cpp_unit")
scope_str13 = real("srcmlcpp.cpp_types.base.cpp_element:CppElement.cpp_scope_str")


@spec
def same_function_name(fs: "list[CppFunctionDecl]", f: "CppFunctionDecl", k: int) -> bool:
    """another of the first k functions has the same name in the same scope"""
    if k <= 0:
        return False
    return same_function_name(fs, f, k - 1) or (fs[k - 1] is not f and fs[k - 1].function_name == f.function_name and scope_str13(fs[k - 1], False) == scope_str13(f, False))


lemma("same_function_mono", ["C13"], {"fs": "list[CppFunctionDecl]", "f": "CppFunctionDecl", "k": "int", "n": "int"}, ["0 <= k", "k <= n", "same_function_name(fs, f, k)"], ["same_function_name(fs, f, n)"],
      ih=["same_function_mono(fs, f, k, n - 1)"], measure="n")
_ALL13 = "all_functions_rec(root_unit(self._cpp_element))"
contract(AB13 + "AdaptedBlock._is_function_overloaded", ["C13"], requires=["len(named(functions_in(self._cpp_element.block_children, len(self._cpp_element.block_children)), function.function_name, len(functions_in(self._cpp_element.block_children, len(self._cpp_element.block_children))))) >= 1"],
         ensures={"marked when a function of the same name is in the same block or in another part of the namespace": f"implies(same_function_name({_ALL13}, function, len({_ALL13})), result)"},
         loops={0: Loop(inv=["not same_function_name(_seq, function, _i)"], use=["same_function_mono(_seq, function, _i + 1, len(_seq))"])})


# ------------------------------------------------------------ order of the elements
class _Fn:
    def __init__(self, name: str):
        self.function_name = name


class _Other:
    def __deepcopy__(self, memo: object) -> object:      # elements keep their identity in old(...)
        return self


def _elements(rng: random.Random) -> dict:
    from litgen.internal.adapted_types.adapted_function import AdaptedFunction
    class Element(_Other, AdaptedFunction):
        pass
    out: list = []
    for _ in range(rng.randrange(9)):
        if rng.random() < 0.75:
            f = object.__new__(Element)
            f._cpp_element = _Fn(rng.choice("abc"))  # type: ignore
            f.is_overloaded = rng.random() < 0.8
            out.append(f)
        else:
            out.append(_Other())
    return {"elements": out}


def _fname(e: object) -> object:
    return (e._cpp_element.function_name if getattr(e, "is_overloaded", False) else None) if hasattr(e, "_cpp_element") else None  # type: ignore


def _same_elements(a: list, b: list) -> bool:
    return sorted(map(id, a)) == sorted(map(id, b))


def _grouped(r: list) -> bool:
    """the functions of an overload family are adjacent"""
    names = [_fname(e) for e in r]
    return all(names[i] is None or names[i - 1] == names[i] or names[i] not in names[:i] for i in range(len(names)))


def _stable(before: list, after: list) -> bool:
    """within a family, and among the first functions of the families and the other elements, the order is kept"""
    def firsts(l: list) -> list:
        seen: set = set()
        out = []
        for e in l:
            n = _fname(e)
            if n is None or n not in seen:
                out.append(id(e))
            seen.add(n)
        return out
    fam = {n for n in map(_fname, before) if n is not None}
    return firsts(before) == firsts(after) and all([id(e) for e in before if _fname(e) == n] == [id(e) for e in after if _fname(e) == n] for n in fam)


contract(AB13 + "group_overloaded_functions", ["C13"], bounded_only=True, gen=_elements, n=600,
         ensures={"no element is lost or repeated": "_same_elements(old(elements), result)", "overloads are adjacent": "_grouped(result)", "the order is kept otherwise": "_stable(old(elements), result)"})
