"""C02: contracts on the preprocessor region filter (srcmlcpp.internal.filter_preprocessor_regions)."""
from __future__ import annotations
import random
from pyvc.api import contract, spec, real, schema, Loop, implies, forall, exists

FP = "srcmlcpp.internal.filter_preprocessor_regions:"
ST = FP + "_SrcmlPreprocessorState."
SU = "srcmlcpp.internal.srcml_utils:"
schema("Element", tag="str", text="Optional[str]")
clean_tag = real(SU + "clean_tag_or_attrib")
end_position = real(SU + "element_end_position")
start_position = real(SU + "element_start_position")
macro_of = real(ST + "_macro_name")
acceptable = real(ST + "_is_acceptable")

_X = "the XML tree is a value of the standard library (xml.etree): its content is an uninterpreted function of the element"
contract(SU + "clean_tag_or_attrib", ["C02"], trusted=True, reason="string replacement of the XML namespace prefix, a function of the tag")
contract(SU + "element_end_position", ["C02"], trusted=True, pure=True, reason=_X)
contract(SU + "element_start_position", ["C02"], trusted=True, pure=True, reason=_X)
contract(ST + "_macro_name", ["C02"], trusted=True, pure=True, reason=_X)
contract(ST + "_is_acceptable", ["C02"], pure=True, trusted=True, reason="user regular expression, a function of the macro name (module re or a user callable)")


def _state(rng: random.Random) -> object:
    from srcmlcpp.internal.filter_preprocessor_regions import _SrcmlPreprocessorState, _CppConditionRegion
    s = _SrcmlPreprocessorState("KEEP$|_H$")
    for _ in range(rng.randrange(4)):
        s.encountered_if.append(_CppConditionRegion(region_excluded=rng.random() < 0.3, in_secondary_branch=rng.random() < 0.3))
    s.last_ignored_preprocessor_stmt_line = rng.choice([-1, 3, 4])
    s.was_last_element_an_ignored_endif = rng.random() < 0.5
    return s


def _element(rng: random.Random) -> object:
    from xml.etree import ElementTree as ET
    tag = rng.choice(["ifdef", "ifndef", "endif", "else", "elif", "comment", "function", "if"])
    e = ET.Element("{http://www.srcML.org/srcML/cpp}" + tag)
    line = rng.choice([3, 4, 5])
    if rng.random() < 0.95:
        e.set("{http://www.srcML.org/srcML/position}start", f"{line}:1")
        e.set("{http://www.srcML.org/srcML/position}end", f"{line}:20")
    name = rng.choice(["A_H", "A_KEEP", "OTHER", "KEEPER"])
    if tag in ("ifdef", "ifndef"):
        ET.SubElement(e, "{http://www.srcML.org/srcML/src}name").text = name
    if tag == "if":
        x = ET.SubElement(e, "{http://www.srcML.org/srcML/src}expr")
        ET.SubElement(x, "{http://www.srcML.org/srcML/src}name").text = name
    return e


def _gen(rng: random.Random) -> dict:
    return {"self": _state(rng)}


def _gen_tag(rng: random.Random) -> dict:
    return {"self": _state(rng), "element": _element(rng)}


def _gen_ignore(rng: random.Random) -> dict:
    s = _state(rng)
    if rng.random() < 0.95:
        s.last_element = _element(rng)  # type: ignore
    return {"self": s}


contract(
    ST + "_content_is_excluded",
    ["C02"],
    ensures={"content is dropped exactly when some enclosing conditional is rejected or in a secondary branch":
             "result == exists(0, len(self.encountered_if), lambda i: self.encountered_if[i].region_excluded or self.encountered_if[i].in_secondary_branch)"},
    gen=_gen,
)
contract(
    ST + "_directive_is_excluded",
    ["C02"],
    ensures={
        "without enclosing conditional, a directive is kept": "implies(len(self.encountered_if) == 0, not result)",
        "a directive is dropped exactly when its region is rejected, or an enclosing region drops its content":
            "implies(len(self.encountered_if) > 0, result == (self.encountered_if[len(self.encountered_if) - 1].region_excluded or exists(0, len(self.encountered_if) - 1, lambda i: self.encountered_if[i].region_excluded or self.encountered_if[i].in_secondary_branch)))",
    },
    gen=_gen,
)
_TAG = "clean_tag(element.tag)"
_OPEN = f"({_TAG} == 'if' or {_TAG} == 'ifdef' or {_TAG} == 'ifndef')"
_SEC = f"({_TAG} == 'else' or {_TAG} == 'elif')"
_POS = "end_position(element) is not None"
_N0 = "len(old(self.encountered_if))"
_SAME = lambda n: f"self.encountered_if[:{n}] == old(self.encountered_if)[:{n}]"
contract(
    ST + "process_tag",
    ["C02"],
    requires=["not self.debug"],
    modifies=["*.encountered_if", "*.in_secondary_branch", "self.last_element", "self.was_last_element_an_ignored_endif", "self.last_ignored_preprocessor_stmt_line"],
    ensures={
        "an opening directive pushes one region": f"implies({_OPEN} and {_POS}, len(self.encountered_if) == {_N0} + 1)",
        "which is excluded exactly when its macro is rejected": f"implies({_OPEN} and {_POS}, self.encountered_if[{_N0}].region_excluded == (not acceptable(self, macro_of(self, element, {_TAG}))))",
        "and starts in its primary branch": f"implies({_OPEN} and {_POS}, not self.encountered_if[{_N0}].in_secondary_branch)",
        "the enclosing regions are unchanged": f"implies({_OPEN} and {_POS}, {_SAME(_N0)})",
        "a secondary branch marks the innermost region": f"implies({_SEC} and {_POS} and {_N0} > 0, self.encountered_if[{_N0} - 1].in_secondary_branch)",
        "and does not change whether it is excluded": f"implies({_SEC} and {_POS} and {_N0} > 0, self.encountered_if[{_N0} - 1].region_excluded == old(self.encountered_if[len(self.encountered_if) - 1].region_excluded if len(self.encountered_if) > 0 else False))",
        "and opens or closes none": f"implies({_SEC} and {_POS}, len(self.encountered_if) == {_N0})",
        "endif closes the innermost region": f"implies({_TAG} == 'endif' and {_POS}, len(self.encountered_if) == ({_N0} - 1 if {_N0} > 0 else 0))",
        "and keeps the others": f"implies({_TAG} == 'endif' and {_POS} and {_N0} > 0, {_SAME(_N0 + ' - 1')})",
        "anything else leaves the regions as they were": f"implies(not {_OPEN} and not {_SEC} and {_TAG} != 'endif', len(self.encountered_if) == {_N0} and {_SAME(_N0)})",
        "the element is remembered": "self.last_element == element",
    },
    gen=_gen_tag,
)
_LT = "clean_tag(self.last_element.tag)"
_DIR = f"({_LT} == 'if' or {_LT} == 'ifdef' or {_LT} == 'ifndef' or {_LT} == 'else' or {_LT} == 'elif' or {_LT} == 'endif')"
_DROP = "exists(0, len(self.encountered_if), lambda i: self.encountered_if[i].region_excluded or self.encountered_if[i].in_secondary_branch)"
contract(
    ST + "shall_ignore",
    ["C02"],
    ensures={
        "code is dropped exactly when an enclosing conditional is rejected or in a secondary branch": f"implies(self.last_element is not None and not {_DIR} and {_LT} != 'comment', result == {_DROP})",
        "comments of dropped code are dropped": f"implies(self.last_element is not None and {_LT} == 'comment' and {_DROP}, result)",
        "comments of kept code are kept, unless they trail a directive": f"implies(self.last_element is not None and {_LT} == 'comment' and not {_DROP} and not (start_position(self.last_element) is not None and start_position(self.last_element).line == self.last_ignored_preprocessor_stmt_line), not result)",
    },
    gen=_gen_ignore,
)
