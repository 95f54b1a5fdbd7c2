"""C17: layout helpers change white space only."""
from __future__ import annotations
import random, re
from . import core, lg


def text(rng: random.Random) -> str:
    piece = lambda: "".join(rng.choice(["#", "##", " ", "  ", "a", "b = 1", "'", '"', "\t", "(", "\\", "//", "/*", "*/", "é", "#  #", ";", "\\n", "\r"]) for _ in range(rng.randint(1, 7))) if rng.random() < 0.3 else rng.choice(["x", "a = 1", "if (b) {", "def f(s: str = \"#\"):  # c", "# only", "s = '#'  # two # three", "it's # odd", "\"\"\"doc # x\"\"\"", "a  b\tc", "é", "\\", "}", "x = 1 # y  ", "\x0c", "long_name_of_a_thing = 3    # z", "q#w", "// cpp", "#", "a #",
                                "x\u00a0y", "l1\rl2"])
    ind = lambda: rng.choice(["", "", " ", "  ", "    ", "        ", "\t", "  \t", "\t\t  "])
    blank = lambda: rng.choice(["", "", "", " ", "    ", "\t", "  \t"])
    n = rng.choice([0, 1, 2, 3, 5, 9])
    base = rng.choice(["", "", "    ", "   ", "\t"])
    ls = []
    for _ in range(n):
        if rng.random() < 0.4:
            ls += [blank()] * rng.choice([1, 1, 2, 3]) if rng.random() < 0.7 else [blank() for _ in range(3)]
        else:
            ls.append((base if rng.random() < 0.8 else "") + ind() + piece() + rng.choice(["", "", " ", "   ", "\t"]))
    return "\n".join(ls)


def solid(line: str) -> str:
    return re.sub(r"\s", "", line)


def skeleton(t: str) -> list[str]:
    """the non blank lines without their white space"""
    return [solid(l) for l in t.split("\n") if l.strip()]


def lead(l: str) -> int:
    return len(l) - len(l.lstrip(" "))


def helper_case(rng: random.Random) -> tuple:
    from codemanip import code_utils as u
    t = text(rng)
    k = rng.randint(0, 9)
    s = rng.choice([None, "", " ", "    ", "\t", "\t\t"])
    skip = rng.random() < 0.3
    size = rng.choice([1, 2, 4, 8])
    rst = rng.random() < 0.7
    name = rng.choice(["indent_code", "indent_code_lines", "unindent_code", "unindent_strip", "reindent_code", "indent_code_force", "max_empty", "strip_empty_lines", "strip_list", "first_last", "align", "align_lines", "shorten", "rstrip_lines", "indent_unindent", "reindent_rel", "trail"])
    info = dict(helper=name, text=t)
    ts = t.split("\n")

    def keeps_lines(r: str, what: str = "") -> list[str]:
        """same number of lines, the same non-blank characters on each line"""
        rs = r.split("\n")
        core.check(len(rs) == len(ts), f"{name}: the number of lines changes{what}", result=r, **info)
        for a, b in zip(ts, rs):
            core.check(solid(a) == solid(b), f"{name}: a line changes in more than its white space", line=a, got=b, result=r, **info)
        return rs
    if name in ("indent_code", "indent_code_lines"):
        info.update(size=size, indent_str=s, skip_first_line=skip)
        pad = " " * size if s is None else s
        if name == "indent_code":
            r = u.indent_code(t, size, skip, s, rst)
        else:
            r = "\n".join(u.indent_code_lines(ts, size, skip, s))
        rs = keeps_lines(r)
        for i, (a, b) in enumerate(zip(ts, rs)):
            if i == 0 and skip:
                core.check(a.rstrip() == b.rstrip(), f"{name}: the first line is changed", got=b, **info)
            elif a.strip():
                core.check(b.rstrip() == pad + a.rstrip(), f"{name}: a line is not indented by the given indentation", line=a, got=b, **info)
    elif name == "unindent_code":
        r = u.unindent_code(t)
        rs = keeps_lines(r)
        relative(name, ts, rs, info)
        first = next((l for l in ts if l.strip(" ")), None)
        if first is not None:
            f = rs[ts.index(first)]
            core.check(not f.startswith(" "), "unindent_code: the first line stays indented", result=r, **info)
    elif name == "unindent_strip":
        r = u.unindent_code(t, flag_strip_empty_lines=True)
        core.check(skeleton(r) == skeleton(t), f"{name}: lines change", result=r, **info)
        if skeleton(t):
            core.check(bool(r.split("\n")[0].strip()) and bool(r.split("\n")[-1].strip()), "empty lines remain at the start or at the end", result=r, **info)
            relative(name, [l for l in ts if l.strip()], [l for l in r.split("\n") if l.strip()], info)
    elif name == "reindent_code":
        info.update(size=size, indent_str=s, skip_first_line=skip)
        r = u.reindent_code(t, size, skip, s) if s is not None else u.reindent_code(t, size, skip)
        rs = keeps_lines(r)
        pad = " " * size if s is None else s
        b = u.unindent_code(t).split("\n")
        for i, (x, y) in enumerate(zip(b, rs)):
            if x.strip() and not (i == 0 and skip):
                core.check(y.rstrip() == pad + x.rstrip(), f"{name}: a line is not re-indented by the given indentation", line=x, got=y, **info)
    elif name == "indent_code_force":
        r = u.indent_code_force(t, size, s or "")
        rs = keeps_lines(r)
        for a, b in zip(ts, rs):
            if a.strip():
                core.check(b.rstrip() == (s or " " * size) + a.strip(), f"{name}: wrong indentation", got=b, **info)
    elif name == "max_empty":
        info.update(nb_max_empty=k)
        r = u.code_set_max_consecutive_empty_lines(t, k)
        rs = r.split("\n")
        core.check([l for l in ts if l.strip()] == [l for l in rs if l.strip()], f"{name}: a non empty line changes or is lost", result=r, **info)
        # each run of empty lines is limited to the given number, not more
        def runs(ls: list[str]) -> list[int]:
            o, c = [], 0
            for l in ls:
                if l.strip():
                    o.append(c)
                    c = 0
                else:
                    c += 1
            return o + [c]
        if skeleton(t):
            core.check(runs(rs) == [min(c, k) for c in runs(ts)], f"{name}: runs of empty lines are not limited to {k}", got=runs(rs), before=runs(ts), result=r, **info)
        core.check(u.code_set_max_consecutive_empty_lines(t, -1) == t, f"{name}: a negative number means no limit", **info)
    elif name in ("strip_empty_lines", "strip_list"):
        rs = u.strip_empty_lines(t).split("\n") if name == "strip_empty_lines" else u.strip_empty_lines_in_list(list(ts))
        nb = [i for i, l in enumerate(ts) if l.strip()]
        want = ts[nb[0]:nb[-1] + 1] if nb else ([""] if name == "strip_empty_lines" else [])
        core.check(rs == want, f"{name}: not the lines between the first and the last non empty ones", got=rs, want=want, **info)
    elif name == "first_last":
        r = u.strip_first_and_last_lines_if_empty(t)
        core.check([l for l in ts if l.strip()] == [l for l in r.split("\n") if l.strip()], f"{name}: a non empty line changes or is lost", result=r, **info)
        core.check(len(r.split("\n")) >= len(ts) - 2, f"{name}: more than two lines are removed", result=r, **info)
    elif name in ("align", "align_lines"):
        r = u.align_python_comments_in_block(t) if name == "align" else "\n".join(u.align_python_comments_in_block_lines(ts))
        rs = keeps_lines(r)
        for a, b in zip(ts, rs):
            core.check(lead(a) == lead(b), f"{name}: the indentation changes", line=a, got=b, **info)
        simple = [(i, l) for i, l in enumerate(ts) if re.fullmatch(r"[^#'\"]*[^#'\"\s][^#'\"]*#[^'\"]*", l)]
        odd = [l for l in ts if ("'" in l or '"' in l) and "#" in l]
        if not odd:
            cols = {rs[i].index("#") for i, _ in simple}
            core.check(len(cols) <= 1, f"{name}: the trailing comments are not aligned", result=r, **info)
            for i, l in enumerate(ts):
                if i not in dict(simple) and l.count("#") <= 1:
                    core.check(rs[i] == l, f"{name}: a line without trailing comment changes", line=l, got=rs[i], **info)
        core.check(u.align_python_comments_in_block(r) == r, f"{name}: not idempotent", first=r, **info)
    elif name == "shorten":
        r = u.shorten_lines_containing_only_spaces(t)
        rs = r.split("\n")
        core.check(rs == [l if l.strip() else "" for l in ts], f"{name}: something else than blank lines changes", result=r, **info)
    elif name == "rstrip_lines":
        core.check(u.strip_lines_right_space(list(ts)) == [l.rstrip() for l in ts], name, **info)
    elif name == "trail":
        for l in ts:
            r = u.remove_trailing_spaces(l)
            core.check(l.startswith(r) and not l[len(r):].strip() and not r.endswith(" "), f"{name}: more than trailing spaces is removed", line=l, got=r)
            c = u.count_spaces_at_start_of_line(l)
            core.check(c == lead(l), "count_spaces_at_start_of_line", line=l, got=c)
    elif name == "indent_unindent":
        size = max(1, size)
        r = u.unindent_code(u.indent_code(t, size))
        core.check([l.rstrip() for l in r.split("\n")] == [l.rstrip() for l in u.unindent_code(t).split("\n")] or any(l.startswith("\t") for l in ts) or any(l.strip(" ") and not l.strip() for l in ts) or ragged(ts), "unindenting after indenting does not restore the text", result=r, **info)
        rs = r.split("\n")
        core.check(len(rs) == len(ts), f"{name}: the number of lines changes", result=r, **info)
        relative(name, ts, rs, info)
    else:
        u1 = u.unindent_code(t)
        r = u.indent_code(u1, size)
        rs = keeps_lines(r)
        relative(name, ts, rs, info)
    return ((name, t, k, s, skip, size), {"helper": name, "text": t})


def ragged(ts: list[str]) -> bool:
    """some line is less indented than the first one"""
    ls = [l for l in ts if l.strip()]
    return any(lead(l) < lead(ls[0]) for l in ls) if ls else False


def relative(name: str, ts: list[str], rs: list[str], info: dict) -> None:
    """indentation differences between the lines are preserved (lines at least as indented as the first one)"""
    if any(l.strip(" ") and not l.strip() for l in ts + info["text"].split("\n")):
        return
    pairs = [(lead(a), lead(b), a) for a, b in zip(ts, rs) if a.strip()]
    if not pairs or any("\t" in a[:len(a) - len(a.lstrip())] for _, _, a in pairs):
        return
    a0, b0, _ = pairs[0]
    for a, b, l in pairs:
        if a >= a0:
            core.check(a - a0 == b - b0, f"{name}: the relative indentation changes", line=l, got=b - b0, want=a - a0, text_=info.get("text"))


# ------------------------------------------------------------------ the generated code
CODE = """
/// A class
struct Item
{
    int a = 0;  // first


    // about b

    double long_name = 1.5;  // second # number
    std::string s = "a # b";
    void f(int x); // eol


    struct In { int q; /* c */ };
};
enum class E
{
    a = 1,    // A
    bcd,      // B

    ef = 1 << 3
};
// free
int fn(int a, float b = 2.f);
namespace n { void g(); 

struct Z { int k; }; }
"""


def layout_options(rng: random.Random) -> tuple:
    """layout options change white space only in the generated code"""
    r0 = random.Random(rng.randrange(1 << 30))
    from . import prog
    code = CODE if rng.random() < 0.3 else prog.render(prog.Gen(r0, prog.Cfg(docs=True)).program())
    nb = rng.random() < 0.5
    g0 = lg.generate(lg.options(nb), code)
    kw: dict = {}
    kw["cpp_indent_size"] = rng.choice([1, 2, 4, 8])
    kw["cpp_indent_with_tabs"] = rng.random() < 0.3
    kw["python_indent_size"] = rng.choice([1, 2, 3, 4, 8])
    kw["python_indent_with_tabs"] = rng.random() < 0.2
    kw["python_max_consecutive_empty_lines"] = rng.choice([-1, 0, 1, 2, 3])
    o = lg.options(nb)
    kw = {k: v for k, v in kw.items() if hasattr(o, k)}
    for k, v in kw.items():
        setattr(o, k, v)
    g = lg.generate(o, code)
    for side, a, b in (("stub", g0.stub_text, g.stub_text), ("binding code", g0.pydef_text, g.pydef_text)):
        sa, sb = skeleton(a), skeleton(b)
        if sa != sb:
            d = next((i for i, (x, y) in enumerate(zip(sa, sb)) if x != y), min(len(sa), len(sb)))
            g.fail(f"layout options change more than the white space of the {side}", options=kw, line=d, default=sa[d - 1:d + 2], got=sb[d - 1:d + 2])
    m = kw.get("python_max_consecutive_empty_lines", -1)
    _ = g.stub      # still valid Python
    return ((code, str(kw)), {"code": code, "options": kw})


RANDOM = [(helper_case, 20000), (layout_options, 200)]
