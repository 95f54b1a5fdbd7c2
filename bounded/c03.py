"""C03: amalgamation inlines each local header once, before use, and loses no line."""
from __future__ import annotations
import os, random, re, shutil, tempfile
from . import core

DECO = re.compile(r"^//\s{10,}.*//$")


def amalgamate(d: str, opts: dict) -> str:
    from codemanip import amalgamated_header as ah
    o = ah.AmalgamationOptions()
    for k, v in opts.items():
        setattr(o, k, v)
    return ah.amalgamation_content(o)


def tree(rng: random.Random) -> tuple:
    d = tempfile.mkdtemp(prefix="c03_")
    try:
        return _tree(rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _tree(rng: random.Random, d: str) -> tuple:
    base = os.path.join(d, "base")
    os.makedirs(base)
    prefix = rng.choice(["", "", "lib/", "lib/my_"])
    quoted_only = True if not prefix else rng.random() < 0.5
    subs = rng.choice([[], [], ["inc"], ["inc", "inc2"], [os.path.join(d, "ext")], ["inc", os.path.join(d, "ext")]])
    folders = [base] + [s if os.path.isabs(s) else os.path.join(base, s) for s in subs]
    n = rng.choice([1, 2, 3, 4, 6, 8])
    names = []
    for i in range(n):
        names.append(f"{prefix}h{i}" + rng.choice([".h", ".h", ".hpp", ""]))
    sys_inc = ["<vector>", "<string>", "<lib/x.h>", "<sys/types.h>"] + (['"other.h"', '<other.h>', '"zz/h0.h"', '<zz/h0.h>'] if prefix else [])
    sys_inc = [s for s in sys_inc if not (not quoted_only and prefix and s.startswith("<" + prefix))]
    uid = [0]

    def plain() -> str:
        uid[0] += 1
        u = f"u{uid[0]}"
        return rng.choice([f"int {u};", f"void {u}(int a);  ", f"// {u} comment", f"#define {u} 1", f"    struct {u} {{}};", f"#ifdef {u}", f"#endif // {u}", f"/* {u} */", f"// {u} says: use #pragma once, or #include \"{names[0]}\"", f'const char * {u} = "#include <x>";', f"#pragma pack(push) // {u}", f"\tint {u} = 2; \t", f"// é {u}", f"#pragma once_more {u}", f"#includes {u}"])
    files: dict[str, list[str]] = {}       # real path -> lines
    content: dict[str, list[tuple]] = {}   # real path -> [(kind, payload)]
    where: dict[str, str] = {}
    for i, nm in enumerate(names):
        spots = [rng.choice(folders)] + ([rng.choice(folders)] if rng.random() < 0.15 else [])
        for f in spots:
            p = os.path.join(f, nm)
            if p in files:
                continue
            ls: list[tuple] = []
            for _ in range(rng.choice([0, 1, 3, 5, 8])):
                r = rng.random()
                if r < 0.35 and n > 1:
                    t = rng.choice(names if rng.random() < 0.5 else names[i + 1:] or names)
                    q = ("<", ">") if not quoted_only and rng.random() < 0.4 else ('"', '"')
                    sp = rng.choice(["#include ", "#include ", "#include ", "  #include ", "#include  ", "#include", "# include ", "#\tinclude\t"])
                    ls.append(("loc", t, f"{sp}{q[0]}{t}{q[1]}" + rng.choice(["", "", "  ", " // comment", "  /* why */"])))
                elif r < 0.55:
                    s = rng.choice(sys_inc)
                    ls.append(("ext", s, rng.choice(["#include ", "#include ", "# include ", "#include", "   #include "]) + s + rng.choice(["", "", " ", " // ok"])))
                elif r < 0.62:
                    ls.append(("once", "", rng.choice(["#pragma once", "#pragma once  ", "  #pragma once", "#pragma once // x", "# pragma  once"])))
                elif r < 0.72:
                    ls.append(("blank", "", rng.choice(["", "   ", "\t"])))
                else:
                    s = plain()
                    ls.append(("line", s, s))
            files[p] = [x[2] for x in ls]
            content[p] = ls
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", newline="") as h:
                h.write("\n".join(x[2] for x in ls) + (rng.choice(["\n", "\n", ""]) if ls else ""))
    missing = rng.random() < 0.08

    def find(nm: str):
        for f in folders:
            p = os.path.join(f, nm)
            if os.path.isfile(p):
                return p
        return None
    out: list[str] = []
    seen: set = set()
    ext: set = set()
    fail = []

    def go(nm: str) -> None:
        p = find(nm)
        if p is None:
            fail.append(nm)
            return
        if p in seen:
            return
        seen.add(p)
        for k, payload, l in content[p]:
            if k == "loc":
                go(payload)
                if fail:
                    return
            elif k == "ext":
                if payload not in ext:
                    ext.add(payload)
                    out.append(l.rstrip())
            elif k == "line":
                out.append(l.rstrip())
    main = names[0]
    if missing:
        gone = rng.choice(names)
        for f in folders:
            if os.path.isfile(os.path.join(f, gone)):
                os.unlink(os.path.join(f, gone))
    go(main)
    opts = dict(base_dir=base, local_includes_startwith=prefix, include_subdirs=subs, main_header_file=main if rng.random() < 0.8 or find(main) is None else find(main), only_quoted_includes_are_local=quoted_only,
                dst_amalgamated_header_file=os.path.join(d, "out.h"))
    info = dict(files={os.path.relpath(k, d): v for k, v in files.items()}, options={k: str(v).replace(d, "") for k, v in opts.items()})
    write = rng.random() < 0.3
    old = "old content\n"
    if write and rng.random() < 0.5:
        with open(opts["dst_amalgamated_header_file"], "w") as h:
            h.write(old)
    try:
        if write:
            from codemanip import amalgamated_header as ah
            o = ah.AmalgamationOptions()
            for k, v in opts.items():
                setattr(o, k, v)
            ah.write_amalgamate_header_file(o)
            got = open(opts["dst_amalgamated_header_file"], encoding="utf-8").read()
        else:
            got = amalgamate(d, opts)
    except Exception as e:  # noqa
        core.check(bool(fail), f"amalgamation fails although every local header is found: {type(e).__name__}: {str(e)[:150]}", **info)
        return ((str(info),), "missing header")
    core.check(not fail, f"amalgamation succeeds although the local header {fail[:1]} cannot be found", got=got, **info)
    gl = got.split("\n")
    core.check(all(l == l.rstrip() for l in gl), "trailing spaces remain", got=got, **info)
    body = [l for l in gl if l.strip() and not l.startswith("//////////") and not DECO.match(l) and "THIS FILE WAS GENERATED" not in l]
    if body != out:
        i = next((i for i, (a, b) in enumerate(zip(out, body)) if a != b), min(len(out), len(body)))
        raise core.Violation("the amalgamation does not hold exactly the lines of the reachable headers, each header inlined at its first include", first_difference=i, expected=out[max(0, i - 2):i + 3], found=body[max(0, i - 2):i + 3], got=got, **info)
    nb_blank = sum(1 for p in seen for k, _, _ in content[p] if k == "blank")
    core.check(sum(1 for l in gl if not l) >= nb_blank, "empty lines are lost", got=got, **info)
    return ((str(info),), info)


def spellings() -> tuple:
    """the same file under several names is inlined once"""
    d = tempfile.mkdtemp(prefix="c03_")
    try:
        os.makedirs(os.path.join(d, "sub"))
        for nm, t in {"main.h": '#include "sub/a.h"\n#include "./sub/a.h"\n#include "a.h"\n#include "sub/../sub/a.h"\nint end;\n', "sub/a.h": "int a;"}.items():
            with open(os.path.join(d, nm), "w") as h:
                h.write(t)
        got = amalgamate(d, dict(base_dir=d, include_subdirs=["sub"], main_header_file="main.h"))
        core.check(got.count("int a;") == 1 and "int end;" in got.split("\n"), "a header included under several names is not inlined exactly once", got=got)
        core.check('#include "' not in got, "a local include remains", got=got)
        return ("spellings", got)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def links() -> tuple:
    """a header that is reached through symbolic links (of the file, of its folder) is inlined once"""
    d = tempfile.mkdtemp(prefix="c03_")
    try:
        os.makedirs(os.path.join(d, "sub"))
        for nm, t in {"main.h": '#include "b.h"\n#include "sub/a.h"\n#include "dir/a.h"\n#include "c.h"\nint end;\n', "sub/a.h": "int a;\n", "c.h": "int c;\n"}.items():
            with open(os.path.join(d, nm), "w") as h:
                h.write(t)
        os.symlink(os.path.join("sub", "a.h"), os.path.join(d, "b.h"))
        os.symlink("sub", os.path.join(d, "dir"))
        got = amalgamate(d, dict(base_dir=d, include_subdirs=[], main_header_file="main.h"))
        lines = [l for l in got.split("\n") if l.startswith("int ")]
        core.check(lines == ["int a;", "int c;", "int end;"], "a header reached through a symbolic link is not inlined exactly once", got=got)
        return ("links", got)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def letter_case() -> tuple:
    """two headers whose names differ only by the case of letters are two headers"""
    d = tempfile.mkdtemp(prefix="c03_")
    try:
        for nm, t in {"main.h": '#include "vec.h"\n#include "Vec.h"\n#include "vec.h"\nint end;\n', "vec.h": "int a;\n", "Vec.h": "int b;\n"}.items():
            with open(os.path.join(d, nm), "w") as h:
                h.write(t)
        if open(os.path.join(d, "vec.h")).read() != "int a;\n":
            return ("letter_case", "this file system ignores the case")
        got = amalgamate(d, dict(base_dir=d, include_subdirs=[], main_header_file="main.h"))
        lines = [l for l in got.split("\n") if l.startswith("int ")]
        core.check(lines == ["int a;", "int b;", "int end;"], "headers whose names differ by the case of letters are not both inlined exactly once", got=got)
        return ("letter_case", got)
    finally:
        shutil.rmtree(d, ignore_errors=True)


DIRECTED = [spellings, links, letter_case]
RANDOM = [(tree, 8000)]
