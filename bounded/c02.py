"""C02: preprocessor filtering keeps exactly the accepted regions of a header."""
from __future__ import annotations
import random, re
from . import core, lg

FILTERS = [
    ("default", None, ["MY_HEADER_H", "LIB_HPP", "__cplusplus", "FOO_H_", "FOO_h_", "a_HXX"], ["WIN32", "SOME_OPTION", "H_FOO", "MY_HEADER", "cplusplus", "HPP_X"]),
    ("ACC suffix", "ACC$|_H$", ["OPT_ACC", "MY_H", "ACC"], ["ACC_X", "OPT", "H"]),
    ("prefix", "^OK_", ["OK_A", "OK_WIN"], ["NOK_A", "A_OK_", "WIN32"]),
    ("function", lambda m: len(m) % 2 == 0 and len(m) > 0, ["AB", "ABCD", "X_Y_"], ["A", "ABC", "WIN32"]),
    ("nothing", "", [], ["A_H", "WIN32"]),
    ("all", ".*", ["A_H", "WIN32", "x"], []),
]


class Ctx:
    def __init__(self, rng: random.Random, acc: list, rej: list, litter: bool = True) -> None:
        self.rng, self.acc, self.rej = rng, acc, rej
        self.n = 0
        self.kept: list[str] = []
        self.lost: list[str] = []

    def name(self, keep: bool, kind: str) -> str:
        self.n += 1
        x = f"{kind}{self.n}"
        (self.kept if keep else self.lost).append(x)
        return x


def cond(c: Ctx) -> tuple:
    """directive line, accepted"""
    r = c.rng
    ok = bool(c.acc) and (not c.rej or r.random() < 0.55)
    m = r.choice(c.acc if ok else c.rej)
    if "lambda" in m:
        raise core.Skip()
    form = r.choice(["#ifdef {m}", "#ifdef {m}", "#ifndef {m}", "#ifndef {m}", "#if {m}", "#if defined({m})", "#if !defined({m})", "#if defined( {m} )", "#if {m} > 2", "#if {m} == 1", "#if defined({m}) && defined(ZZZ)", "#if ({m})", "#if !{m}", "# ifdef {m}", "#  ifndef   {m}"])
    if not c.acc or r.random() < 0.06:
        if r.random() < 0.5 and "x" not in c.acc:
            return r.choice(["#if 0", "#if 0 ", "#if 1 > 2"]), False
    return form.format(m=m) + r.choice(["", "", "  // why", " /* c */"]), ok


def block(c: Ctx, depth: int, keep: bool, ind: str, where: str) -> list[str]:
    r = c.rng
    out: list[str] = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        k = r.random()
        if k < 0.45 or depth <= 0:
            out += leaf(c, keep, ind, where)
        elif k < 0.85:
            d, ok = cond(c)
            pre = ind if r.random() < 0.3 else ""
            out.append(pre + d)
            out += block(c, depth - 1, keep and ok, ind, where) if r.random() < 0.9 else []
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                out.append(pre + "#elif " + r.choice(["defined(" + r.choice(c.acc + c.rej) + ")", r.choice(c.acc + c.rej), "1"]))
                out += block(c, depth - 1, False, ind, where)
            if r.random() < 0.4:
                out.append(pre + r.choice(["#else", "#else // not", "# else"]))
                out += block(c, depth - 1, False, ind, where)
            out.append(pre + r.choice(["#endif", "#endif // x", "# endif", "#endif  /* y */"]))
        elif where == "ns":
            if r.random() < 0.5:
                nm = f"ns{c.n}"
                c.n += 1
                body = block(c, depth - 1, keep, ind + "    ", "ns")
                out += [ind + f"namespace {nm}", ind + "{"] + body + [ind + "}"]
            else:
                nm = c.name(keep, "Cl")
                acc = "" if r.random() < 0.6 else ind + "public:"
                body = block(c, depth - 1, keep, ind + "    ", "cls")
                out += [ind + f"struct {nm}", ind + "{"] + ([acc] if acc else []) + body + [ind + "};"]
        else:
            out += leaf(c, keep, ind, where)
        if r.random() < 0.2:
            out.append("")
        if r.random() < 0.15:
            out.append(ind + "// a remark")
    return out


def leaf(c: Ctx, keep: bool, ind: str, where: str) -> list[str]:
    r = c.rng
    k = r.random()
    doc = [ind + "// some doc"] if r.random() < 0.2 else []
    eol = "  // eol" if r.random() < 0.2 else ""
    if where == "cls":
        if k < 0.5:
            return doc + [ind + f"int {c.name(keep, 'a')} = 0;" + eol]
        return doc + [ind + f"void {c.name(keep, 'f')}(int x);" + eol]
    if k < 0.12:
        nm = c.name(keep, "En")
        # conditionals inside of an enum
        body: list[str] = []
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < 0.3:
                d, ok = cond(c)
                body += [d, f"    {c.name(keep and ok, 'v')},"]
                if r.random() < 0.4:
                    body += ["#else", f"    {c.name(False, 'v')},"]
                body += ["#endif"]
            else:
                body.append(f"    {c.name(keep, 'v')},")
        return doc + [ind + f"enum class {nm}", ind + "{"] + body + [ind + "};"]
    if k < 0.3:
        nm = c.name(keep, "Cl")
        return doc + [ind + f"struct {nm} {{ int {c.name(keep, 'a')}; }};" + eol]
    if k < 0.36:
        return ["#define SOMETHING(x) x"] if r.random() < 0.5 else ["#include <vector>"]
    if k < 0.45:
        f = c.name(keep, "f")
        return doc + [ind + f"inline int {f}(int a)", ind + "{", "    return a;", ind + "}"]
    return doc + [ind + f"int {c.name(keep, 'f')}(int a, float b = 1.f);" + eol]


def case(rng: random.Random) -> tuple:
    name, rx, acc, rej = rng.choice(FILTERS)
    c = Ctx(rng, acc, rej)
    o = lg.options(rng.random() < 0.4)
    if rx is not None:
        o.srcmlcpp_options.header_filter_acceptable__regex = rx
    lines: list[str] = []
    r = rng.random()
    if r < 0.3 and acc:
        g = rng.choice(acc)
        lines = [rng.choice(["", "// license", "#pragma once"])] + [f"#ifndef {g}", f"#define {g}"] + block(c, rng.choice([2, 3, 4]), True, "", "ns") + ["#endif // guard"]
        if rng.random() < 0.3:
            lines += block(c, 1, True, "", "ns")
    elif r < 0.4 and "__cplusplus" in acc:
        lines = ["#ifdef __cplusplus", 'extern "C" {', "#endif"] + [f"int {c.name(True, 'f')}(int a);"] + ["#ifdef __cplusplus", "}", "#endif"] + block(c, 2, True, "", "ns")
    else:
        lines = block(c, rng.choice([2, 3, 4]), True, "", "ns")
    code = "\n".join(lines) + "\n"
    g = lg.generate(o, code)
    for side, root in (("stub", g.stub), ("binding code", g.pydef)):
        got: list[str] = []
        for _, n in root.walk():
            if n.kind in ("class", "enum"):
                got.append(n.name)
            got += [f.name for f in n.fns if not f.name.startswith("__")] + [a.name for a in n.attrs] + [v[0] for v in n.values]
        norm = lambda x: re.sub(r"_(?=\d)", "", x)
        got = [norm(x) for x in got]
        for x in c.kept:
            g.check(x in got, f"{x}, in accepted code, is lost in the {side}", filter=name)
            g.check(got.count(x) == 1, f"{x} appears {got.count(x)} times in the {side}", filter=name)
        for x in c.lost:
            g.check(x not in got, f"{x}, in rejected code, is bound in the {side}", filter=name)
    return ((code, name), {"code": code, "filter": name})


def off() -> tuple:
    """without filtering option nothing is lost nor is the filter applied twice"""
    o = lg.options()
    g = lg.generate(o, "#ifndef FOO_H\n#define FOO_H\nint a(int x);\n#ifdef ZZ\nint b(int x);\n#if 1\nint b2(int x);\n#endif\nint b3(int x);\n#elif defined(YY_H)\nint c(int x);\n#else\nint d(int x);\n#endif\nint e(int x);\n#ifdef YY_H\nint f(int x);\n#ifdef ZZ\nint g(int x);\n#else\nint h(int x);\n#endif\nint i(int x);\n#else\nint j(int x);\n#ifdef KK_H\nint k(int x);\n#endif\nint l(int x);\n#endif\nint m(int x);\n#endif\nint n(int x);\n")
    got = sorted(f.name for f in g.stub.fns)
    g.check(got == ["a", "e", "f", "i", "m", "n"], "kept code", got=got)
    return ("off", g.code)


DIRECTED = [off]
RANDOM = [(case, 2500)]
