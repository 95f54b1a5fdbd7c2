"""C03: contracts on codemanip.amalgamated_header."""
from __future__ import annotations
import os, random, tempfile
from typing import Optional
from pyvc.api import contract, spec, lemma, real, external, schema, Loop, implies, forall, exists

AM = "codemanip.amalgamated_header:"
_RE = "regular expression on one line (module re): a function of the line and of the options"
_FS = "reads the file system, which does not change during one amalgamation"
for _f in ("_is_local_include_line",):
    contract(AM + _f, ["C03"], trusted=True, pure=True, reason=_RE)
contract(AM + "_extract_local_include_file", ["C03"], trusted=True, pure=True, reason=_RE)
contract(AM + "_extract_external_include_file", ["C03"], trusted=True, pure=True, reason=_RE)
contract(AM + "_is_external_include_line", ["C03"], trusted=True, pure=True, reason=_RE)
contract(AM + "_fread_lines", ["C03"], trusted=True, pure=True, reason=_FS)
external("os.path.isabs", ["str"], "bool")
external("os.path.join", ["str", "str"], "str")
external("os.path.realpath", ["str"], "str")
external("os.path.isfile", ["str"], "bool")
isabs = real("os.path:isabs")
join_path = real("os.path:join")
real_path = real("os.path:realpath")
is_file = real("os.path:isfile")
is_local = real(AM + "_is_local_include_line")
is_external = real(AM + "_is_external_include_line")


@spec
def search_dir(base: str, dirs: list[str], i: int) -> str:
    """the i-th searched folder: the base folder, then the include folders in their order"""
    if i <= 0:
        return base
    return dirs[i - 1] if isabs(dirs[i - 1]) else join_path(base, dirs[i - 1])


@spec
def searched(base: str, dirs: list[str], i: int) -> list[str]:
    """the first i + 1 searched folders"""
    if i <= 0:
        return [base]
    return searched(base, dirs, i - 1) + [search_dir(base, dirs, i)]


@spec
def first_found(folders: list[str], name: str, i: int) -> str:
    """the file of that name in the first of the first i folders that has it, otherwise the name"""
    if i <= 0:
        return name
    before = first_found(folders, name, i - 1)
    if has_file(folders, name, i - 1):
        return before
    return join_path(folders[i - 1], name) if is_file(join_path(folders[i - 1], name)) else name


@spec
def has_file(folders: list[str], name: str, i: int) -> bool:
    if i <= 0:
        return False
    return has_file(folders, name, i - 1) or is_file(join_path(folders[i - 1], name))


@spec
def found(base: str, dirs: list[str], name: str) -> str:
    return name if isabs(name) else first_found(searched(base, dirs, len(dirs)), name, len(dirs) + 1)


lemma("found_is_final", ["C03"], {"folders": "list[str]", "name": "str", "k": "int", "n": "int"},
      requires=["0 <= k", "k <= n", "n <= len(folders)"],
      ensures=["implies(has_file(folders, name, k), has_file(folders, name, n) and first_found(folders, name, n) == first_found(folders, name, k))"],
      measure="n", ih=["found_is_final(folders, name, k, n - 1)"])
lemma("not_found", ["C03"], {"folders": "list[str]", "name": "str", "n": "int"},
      requires=["0 <= n", "n <= len(folders)"],
      ensures=["implies(not has_file(folders, name, n), first_found(folders, name, n) == name)"],
      measure="n", ih=["not_found(folders, name, n - 1)"])
lemma("searched_length", ["C03"], {"base": "str", "dirs": "list[str]", "n": "int"},
      requires=["0 <= n", "n <= len(dirs)"],
      ensures=["len(searched(base, dirs, n)) == n + 1"],
      measure="n", ih=["searched_length(base, dirs, n - 1)"])

contract(
    AM + "_decorate_code_info",
    ["C03"],
    ensures={"on lines of their own": "result.startswith('\\n') and result.endswith('\\n')"},
    gen=lambda rng: {"info": rng.choice(["", "a.h", "x/y.h included by z.h", "x" * 200])},
)

_PATH = "found(options.base_dir, options.include_subdirs, included_filename)"
_REAL = f"real_path({_PATH})"
contract(
    AM + "_amalgamate_one_file",
    ["C03"],
    modifies=["already_included_local_files", "already_included_external_files"],
    ensures={
        "the file exists where the search finds it first": f"is_file({_PATH})",
        "a header already included is not included again": f"implies({_REAL} in old(already_included_local_files), result == '' and already_included_local_files == old(already_included_local_files) and already_included_external_files == old(already_included_external_files))",
        "the header is known from then on": f"{_REAL} in already_included_local_files",
        "before the headers that it includes": f"implies({_REAL} not in old(already_included_local_files), already_included_local_files[:len(old(already_included_local_files)) + 1] == old(already_included_local_files) + [{_REAL}])",
        "what was included stays so": "already_included_local_files[:len(old(already_included_local_files))] == old(already_included_local_files) and already_included_external_files[:len(old(already_included_external_files))] == old(already_included_external_files)",
    },
    hide=[AM + "_decorate_code_info"],
    cost=100,
    raises={"FileNotFoundError": "True"},
    use=["searched_length(options.base_dir, options.include_subdirs, len(options.include_subdirs))"],
    loops={
        0: Loop(inv=["search_dirs == searched(options.base_dir, options.include_subdirs, _i)"], types={"search_dirs": "list[str]"}),
        1: Loop(inv=["not has_file(_seq, included_filename, _i)", "included_filename_full_path == included_filename"],
                use=["found_is_final(_seq, included_filename, _i + 1, _n)", "not_found(_seq, included_filename, _i)"]),
        2: Loop(inv=[
            "already_included_local_files[:len(old_already_included_local_files) + 1] == old_already_included_local_files + [included_filename_real_path]",
            "already_included_external_files[:len(old_already_included_external_files)] == old_already_included_external_files",
        ], types={"already_included_local_files": "list[str]", "already_included_external_files": "list[str]", "include_addition": "str", "new_file": "str", "external_file": "str"}),
        3: Loop(inv=["True"], types={"is_code_composed_of_only_blank_lines": "bool"}),
    },
)


def _content(rng: random.Random) -> str:
    return "".join(rng.choice(["a", "  ", "\t", "\n", "b ", " \n", ";"]) for _ in range(rng.randrange(12)))


@spec
def right_stripped(lines: list[str], i: int) -> list[str]:
    if i <= 0:
        return []
    return right_stripped(lines, i - 1) + [lines[i - 1].rstrip()]


contract(
    AM + "_trim_trailing_spaces",
    ["C03"],
    ensures={"each line loses its trailing spaces, nothing else": "result == '\\n'.join([line.rstrip() for line in content.split('\\n')])"},
    gen=lambda rng: {"content": _content(rng)},
)
