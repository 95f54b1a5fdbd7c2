"""C01: marker delimited insertion replaces exactly the generated regions."""
from __future__ import annotations
import os, random, shutil, tempfile
from . import core, lg

TOK = ["litgen_pydef", "litgen_stub", "tok", "a.b", "x y", "[z]"]


class Tmp:
    def __enter__(self) -> str:
        self.d = tempfile.mkdtemp(prefix="c01_")
        return self.d

    def __exit__(self, *a) -> None:
        shutil.rmtree(self.d, ignore_errors=True)


def rd(f: str) -> str:
    with open(f, newline="") as h:
        return h.read()


def wr(f: str, s: str) -> None:
    with open(f, "w", newline="") as h:
        h.write(s)


def pad(line: str) -> str:
    k = 0
    while k < len(line) and line[k] in " \t":
        k += 1
    return line[:k]


def reference(text: str, tok: str, code: str, keep: bool):
    """(ok, expected lines); None for a line whose trailing blanks are free"""
    a, b = f"<{tok}>", f"</{tok}>"
    out: list = []
    inside = False
    seen = False
    for l in text.split("\n"):
        if a in l and b in l:
            return False, []
        if a in l:
            if inside:
                return False, []
            inside = seen = True
            out.append(("=", l))
            for c in code.split("\n"):
                if keep:
                    out.append(("i", (pad(l) + c) if c.strip() else c))
                else:
                    out.append(("=", c))
        elif b in l:
            if not inside:
                return False, []
            inside = False
            out.append(("=", l))
        elif not inside:
            out.append(("=", l))
    return seen and not inside, out


def same(out: list, got: str) -> str:
    g = got.split("\n")
    if len(g) != len(out):
        return f"{len(out)} lines expected, {len(g)} found"
    for i, ((k, e), l) in enumerate(zip(out, g)):
        if k == "=" and e != l:
            return f"line {i + 1}: expected {e!r}, found {l!r}"
        if k == "i" and e.rstrip() != l.rstrip():
            return f"line {i + 1}: expected {e!r} (up to trailing blanks), found {l!r}"
    return ""


def line(rng: random.Random, tok: str) -> str:
    return rng.choice(["", "   ", "\t", "int x;  ", "    foo(a, b);", "\tbar", "x" * rng.randint(1, 5), "// comment \\", "é « ü »", "a\r", "<other>", "</other>", tok, f"< {tok}>", f"<{tok}", "}", "{{", "%s {0}", "\\n \\1 \\g<0>", f"{tok}>", "\x0c", "a\x0bb", "\u2028x", f"<{tok.upper()}_>"])


def mark(rng: random.Random, tok: str, end: bool) -> str:
    m = f"</{tok}>" if end else f"<{tok}>"
    return rng.choice(["", "    ", "\t", "  \t ", "// ", "    // ", "# ", "    x "]) + m + rng.choice(["", " ", "  // Autogenerated", " #\r", f" {tok}"])


def code_text(rng: random.Random) -> str:
    n = rng.choice([0, 1, 2, 3, 6])
    ls = [rng.choice(["", "a = 1;", "    nested", "\tt", "  ", "class A:", "é", '"\\n \\1"', "trailing  ", "{x}", "end\r"]) for _ in range(n)]
    return "\n".join(ls) + rng.choice(["", "\n", "\n\n"])


def api_case(rng: random.Random) -> tuple:
    from codemanip import code_utils
    tok = rng.choice(TOK)
    lines: list[str] = []
    wild = rng.random() < 0.3
    for _ in range(rng.randint(0, 3) if not wild else 0):
        lines += [line(rng, tok) for _ in range(rng.choice([0, 1, 2, 3]))]
        lines.append(mark(rng, tok, False))
        lines += [line(rng, tok) for _ in range(rng.choice([0, 1, 2, 4]))]
        lines.append(mark(rng, tok, True))
    lines += [line(rng, tok) for _ in range(rng.choice([0, 0, 1, 2]))]
    if wild:
        for _ in range(rng.randint(0, 8)):
            lines.append(rng.choice([line(rng, tok), mark(rng, tok, False), mark(rng, tok, True), mark(rng, tok, False) + mark(rng, tok, True)]))
    text = "\n".join(lines) + rng.choice(["", "\n"])
    code, keep = code_text(rng), rng.random() < 0.5
    if f"<{tok}>" in code or f"</{tok}>" in code:
        raise core.Skip()
    with Tmp() as d:
        f = os.path.join(d, rng.choice(["a.py", "b.cpp", "c.pyi"]))
        if rng.random() < 0.03:
            try:
                code_utils.write_generated_code_between_markers(f, tok, code, keep)
                raise core.Violation("no error for a missing file")
            except (core.Violation, core.Skip):
                raise
            except Exception:
                core.check(not os.path.exists(f), "a missing file is created")
                return (("missing", tok), "missing file")
        wr(f, text)
        ok, want = reference(text, tok, code, keep)
        codes = [code, code] + [code_text(rng) for _ in range(rng.choice([0, 1]))] + [code]
        for k, c in enumerate(codes):
            before = rd(f)
            info = dict(file=before, token=tok, code=c, preserve_indentation=keep)
            try:
                code_utils.write_generated_code_between_markers(f, tok, c, keep)
                err = None
            except Exception as e:  # noqa
                err = e
            got = rd(f)
            if not ok:
                core.check(err is not None, "no error although the markers are missing or badly paired", got=got, **info)
                core.check(got == before, "a file with missing or badly paired markers is modified", got=got, **info)
                return ((text, tok), "bad markers")
            if err is not None:
                raise core.Violation(f"an error is raised although the markers are paired: {type(err).__name__}: {err}"[:200], **info)
            _, want = reference(text, tok, c, keep)
            d_ = same(want, got)
            core.check(not d_, "the file is not the former one with its regions replaced by the generated code: " + d_, got=got, **info)
            if k == 1:
                core.check(got == before, "writing the same code a second time changes the file", got=got, **info)
    return ((text, tok, code, keep), {"file": text, "code": code})


H = ["struct A { int a = 3; void f(int x, const std::string & s); };\n", "/// docs\nint add(int a, int b);\nvoid m(int & v);\n", "namespace n { enum class E { a, b }; void g(E e = E::a); }\n", "struct B { virtual ~B(); virtual int v(int k); protected: int q(); };\n",
     "void boxed(int & a);\n", "\n"]


def e2e(rng: random.Random) -> tuple:
    """write_generated_code_for_file(s): the generated code lands in the regions of the files, nothing else changes"""
    import litgen
    nb = rng.random() < 0.4
    hs = [rng.choice(H) for _ in range(rng.choice([1, 1, 2]))]

    def opts():
        o = lg.options(nb)
        o.class_override_virtual_methods_in_python__regex = "B$"
        o.fn_params_replace_modifiable_immutable_by_boxed__regex = ".*"
        o.srcmlcpp_options.flag_show_progress = False
        return o
    with Tmp() as d:
        ins = []
        for i, h in enumerate(hs):
            p = os.path.join(d, f"h{i}.h")
            wr(p, h)
            ins.append(p)
        own_glue = rng.random() < 0.5
        ind = rng.choice(["", "    ", "\t"])
        gl = ["// <litgen_glue_code> x", "old glue", "// </litgen_glue_code>"]
        pd = (["#include <a>", ""] if rng.random() < 0.5 else []) + ([] if own_glue else gl) + ["void init(py::module & m)", "{", "    user_code();  ", ind + "// <litgen_pydef> // Autogenerated", "    old", ind + "// </litgen_pydef> // end", "  }", ""]
        st = ["import x", ind + "# <litgen_stub>", "old", "", ind + "# </litgen_stub>", "tail = 1  "] + ([""] if rng.random() < 0.5 else [])
        files = {"p.cpp": "\n".join(pd), "s.pyi": "\n".join(st)}
        if own_glue:
            files["g.h"] = "\n".join(["#pragma once  "] + gl + ["// end"])
        broken = rng.choice([None, None, None] + list(files))
        how = rng.choice(["absent", "no start", "no end"])
        for f, t in files.items():
            if f == broken:
                if how == "absent":
                    continue
                t = t.replace("<litgen" if how == "no start" else "</litgen", "<lit")
                files[f] = t
            wr(os.path.join(d, f), t)
        P = lambda f: os.path.join(d, f)
        args = [P("p.cpp"), P("s.pyi")] + ([P("g.h")] if own_glue else [])

        def run():
            if len(ins) == 1 and rng.random() < 0.5:
                litgen.write_generated_code_for_file(opts(), ins[0], *args)
            else:
                litgen.write_generated_code_for_files(opts(), ins, *args)
        info = dict(headers=hs, files=files, broken=broken and f"{broken}: {how}")
        try:
            run()
            err = None
        except Exception as e:  # noqa
            err = e
        if broken:
            core.check(err is not None, f"no error although the markers of {broken} are wrong ({how})", **info)
            if how == "absent":
                core.check(not os.path.exists(P(broken)), f"{broken} is created", **info)
            else:
                core.check(rd(P(broken)) == files[broken], f"{broken} is modified", got=rd(P(broken)), **info)
            return ((str(hs), broken, how), "broken")
        if err is not None:
            raise core.Violation(f"writing fails: {type(err).__name__}: {err}"[:300], **info)
        g = litgen.LitgenGenerator(opts())
        for p in ins:
            g.process_cpp_file(p)
        parts = [("p.cpp", "litgen_pydef", g.pydef_code()), ("s.pyi", "litgen_stub", g.stub_code()), ("g.h" if own_glue else "p.cpp", "litgen_glue_code", g.glue_code())]
        want = dict(files)
        exp: dict = {}
        for f, tok, code in parts:
            ok, w = reference(want[f], tok, code, True)
            assert ok
            want[f] = "\n".join(x for _, x in w)
            exp[f] = [("i", x) for _, x in w]
        for f in files:
            # lines outside the regions are compared exactly, generated lines up to trailing blanks
            orig = set(files[f].split("\n"))
            e = [("=" if x in orig and x.strip() else "i", x) for x in want[f].split("\n")]
            dd = same(e, rd(P(f)))
            core.check(not dd, f"{f} is not the former file with its regions replaced by the generated code: {dd}", got=rd(P(f)), **info)
        snap = {f: rd(P(f)) for f in files}
        try:
            run()
        except Exception as e:  # noqa
            raise core.Violation(f"the second write fails: {e}"[:300], **info)
        for f in files:
            core.check(rd(P(f)) == snap[f], f"a second generation changes {f}", first=snap[f], second=rd(P(f)), **info)
    return ((str(hs), str(files)), {"headers": hs, "files": files})


def missing_everything() -> tuple:
    import litgen
    with Tmp() as d:
        h = os.path.join(d, "h.h")
        wr(h, "int f(int a);\n")
        for miss in ("p", "s"):
            for f in ("p", "s"):
                q = os.path.join(d, f)
                if f == miss:
                    if os.path.exists(q):
                        os.unlink(q)
                else:
                    wr(q, "<litgen_pydef>\n</litgen_pydef>\n<litgen_stub>\n</litgen_stub>\n<litgen_glue_code>\n</litgen_glue_code>")
            try:
                litgen.write_generated_code_for_file(lg.options(), h, os.path.join(d, "p"), os.path.join(d, "s"))
                raise core.Violation(f"no error although the output file {miss} does not exist")
            except core.Violation:
                raise
            except Exception:
                core.check(not os.path.exists(os.path.join(d, miss)), "missing file created")
    return ("missing", "missing files")


DIRECTED = [missing_everything]
RANDOM = [(api_case, 6000), (e2e, 250)]
