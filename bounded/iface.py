"""Comparison of the interface described by the stub with the one described by the binding code, and with ground truth."""
from __future__ import annotations
import collections, keyword, re
from typing import Any, Optional
from . import core, lg, out, prog

# methods only present in the binding code by documented design (copy support, array buffers)
SILENT = {"__copy__", "__deepcopy__"}


def snake(n: str) -> str:
    """snake case: an underscore before each capital which starts a word (after a lower-case letter or a digit, or
    followed by a lower-case letter), everything in lower case.  For names without double underscores."""
    o = ""
    for i, c in enumerate(n):
        if c.isupper() and i > 0 and n[i - 1] != "_":
            p = n[i - 1]
            nxt = n[i + 1] if i + 1 < len(n) else ""
            if p.islower() or p.isdigit() or ("a" <= nxt <= "z"):
                o += "_"
        o += c
    return o.lower()


def py(n: str) -> str:
    return n + "_" if keyword.iskeyword(n) else n


def sig(f: out.Fn) -> tuple:
    return tuple((p.name, p.default is not None) for p in f.params)


def cpp_paths(root: out.Node) -> dict[str, str]:
    """C++ class -> python path"""
    r = {}
    for path, n in root.walk():
        if n.kind in ("class", "enum") and n.cpp:
            r[n.cpp] = path
    return r


def compare(g: lg.Gen, exported_enums: bool = False) -> int:
    """every module, class, enum, function, attribute of one side is on the other side"""
    n = 0
    paths = cpp_paths(g.pydef)

    def rec(path: str, s: out.Node, p: out.Node) -> None:
        nonlocal n
        where = path or "(module)"
        sk = [(k.kind, k.name) for k in s.kids]
        pk = [(k.kind, k.name) for k in p.kids]
        for k in pk:
            g.check(k in sk, f"{k[0]} {k[1]} of {where} is in the binding code but not in the stub")
        for k in sk:
            g.check(k in pk, f"{k[0]} {k[1]} of {where} is in the stub but not in the binding code")
        g.check(len(sk) == len(set(sk)), f"a name of {where} is declared twice in the stub", kids=sk)
        g.check(len(pk) == len(set(pk)), f"a name of {where} is declared twice in the binding code", kids=pk)
        # callables
        sf: dict = collections.defaultdict(list)
        pf: dict = collections.defaultdict(list)
        for f in s.fns:
            sf[(f.name, f.static and s.kind == "class")].append(f)
        for f in p.fns:
            if f.name in SILENT and not any(x.name == f.name for x in s.fns):
                continue
            pf[(f.name, f.static and p.kind == "class")].append(f)
        for k in pf:
            g.check(k in sf, f"{'static ' if k[1] else ''}callable {k[0]} of {where} is bound but missing from the stub (same kind)")
        for k in sf:
            g.check(k in pf, f"{'static ' if k[1] else ''}callable {k[0]} of {where} is in the stub but not bound (same kind)")
        for k in pf:
            a = collections.Counter(sig(f) for f in sf[k])
            b = collections.Counter(sig(f) for f in pf[k])
            g.check(set(a) == set(b), f"{where}.{k[0]}: the overloads of the stub and of the binding code have different parameters", stub_sigs=sorted(a), pydef_sigs=sorted(b))
            for x in a:
                g.check(a[x] <= b[x], f"{where}.{k[0]}: more overloads in the stub than bound", sig=x)
            n += 1
            if s.kind == "class":
                for f in sf[k]:
                    g.check(f.static or f.self_, f"{where}.{k[0]}: a method without self that is not static")
            if s.kind == "module" and path:
                pass
        # attributes
        sa = sorted(a.name for a in s.attrs)
        pa = sorted(a.name for a in p.attrs)
        g.check(sa == pa, f"{where}: the attributes of the stub and of the binding code differ", stub_attrs=sa, pydef_attrs=pa)
        n += len(sa)
        pat = {a.name: a for a in p.attrs}
        for a in s.attrs:
            b = pat[a.name]
            if b.via == "attr":
                continue
            ro = "(const)" in a.comment
            if s.kind == "class" and b.via in ("def_readonly", "def_ro", "def_readonly_static", "def_ro_static", "def_readwrite", "def_rw", "def_readwrite_static", "def_rw_static"):
                st = "(C++ static member)" in a.comment
                g.check(("static" in b.via) == st, f"{where}.{a.name}: static in only one of the outputs", via=b.via, comment=a.comment)
        # enums
        if s.kind == "enum":
            g.check([v[0] for v in s.values] == [v[0] for v in p.values], f"enum {where}: the items of the stub and of the binding code differ", stub_items=[v[0] for v in s.values], pydef_items=[v[0] for v in p.values])
            n += len(s.values)
        # bases
        if s.kind == "class":
            # (a base class that is not bound is named by its C++ name; trampolines and holders are not bases)
            pb = [paths.get(b, "?" + b.split("::")[-1]) for b in p.bases if b in paths or not (b.endswith("_trampoline") or b.startswith("std::"))]
            sb = list(s.bases)
            g.check(len(pb) == len(sb), f"class {where}: different base classes in the stub and in the binding code", stub_bases=sb, pydef_bases=p.bases)
            for x, y in zip(sb, pb):
                g.check(x == y or y.endswith("." + x) or (y[0] == "?" and x.split(".")[-1] == y[1:]), f"class {where}: the base class of the stub is not the bound base class", stub_base=x, bound_base=y)
        for k in p.kids:
            rec((path + "." if path else "") + k.name, s.kid(k.name), k)  # type: ignore
    rec("", g.stub, g.pydef)
    return n


class Exp:
    """expected python scope"""

    def __init__(self, kind: str, name: str) -> None:
        self.kind, self.name = kind, name
        self.fns: list[tuple] = []          # (python name, F)
        self.attrs: list[tuple] = []        # (python name, M)
        self.kids: dict[str, Exp] = {}
        self.values: list[str] = []
        self.item: Any = None
        self.cpp = ""
        self.ctors: list = []
        self.has_ctor = False


def expected(items: list, keep=lambda scope, it: True, glob=lambda m: False, enum_prefix: bool = True, root_ns: tuple = (), snake_on: bool = True,
             ns_excluded=lambda n: "nternal" in n or "etail" in n) -> Exp:
    root = Exp("module", "")
    conv = snake if snake_on else (lambda x: x)

    def block(e: Exp, its: list, cpp: str) -> None:
        for it in its:
            if not keep(cpp, it):
                continue
            if isinstance(it, prog.N):
                if not it.name or ns_excluded(it.name):
                    continue
                if it.name in root_ns:
                    block(e, it.items, cpp + it.name + "::")
                    continue
                nm = py(conv(it.name))
                k = e.kids.setdefault(nm, Exp("module", nm))
                k.cpp = cpp + it.name
                block(k, it.items, cpp + it.name + "::")
            elif isinstance(it, prog.C):
                if not it.template:
                    cls(e, it, cpp)
            elif isinstance(it, prog.En):
                en(e, it, cpp)
            elif isinstance(it, prog.F):
                if not it.deleted and not it.template:
                    e.fns.append((py(conv(it.name)), it))
            elif isinstance(it, prog.M):
                if glob(it):
                    e.attrs.append((it.name, it))

    def en(e: Exp, it: prog.En, cpp: str) -> None:
        k = Exp("enum", it.name)
        k.item, k.cpp = it, cpp + it.name
        for v in it.values:
            nm = v.name
            if enum_prefix and nm.lower().startswith(it.name.lower() + "_"):
                nm = nm[len(it.name) + 1:]
            k.values.append(py(conv(nm)))
        e.kids[it.name] = k

    def cls(e: Exp, it: prog.C, cpp: str) -> None:
        k = Exp("class", it.name)
        k.item, k.cpp = it, cpp + it.name
        e.kids[it.name] = k
        for acc, m in it.members():
            if isinstance(m, prog.F) and not m.ret:
                if m.name == it.name:
                    k.has_ctor = True
            if acc != "public" or not keep(cpp + it.name + "::", m):
                continue
            if isinstance(m, prog.F):
                if m.deleted:
                    continue
                if not m.ret:
                    if m.name == it.name:
                        k.fns.append(("__init__", m))
                    continue
                k.fns.append((py(conv(m.name)), m))
            elif isinstance(m, prog.M):
                k.attrs.append((py(conv(m.name)), m))
            elif isinstance(m, prog.C):
                cls(k, m, cpp + it.name + "::")
            elif isinstance(m, prog.En):
                en(k, m, cpp + it.name + "::")
    block(root, items, "")
    return root


def prune(e: Exp) -> bool:
    """drop empty modules (a namespace that holds nothing may or may not be shown)"""
    for n in list(e.kids):
        if prune(e.kids[n]):
            del e.kids[n]
    return e.kind == "module" and not e.fns and not e.attrs and not e.kids


def is_empty(n: out.Node) -> bool:
    return n.kind == "module" and not n.fns and not n.attrs and all(is_empty(k) for k in n.kids)


def against(g: lg.Gen, e: Exp, param_names: bool = True, conv=snake) -> int:
    """both outputs hold exactly the expected elements"""
    cnt = 0
    for side, root in (("stub", g.stub), ("binding code", g.pydef)):
        def rec(path: str, x: Exp, n: out.Node) -> None:
            nonlocal cnt
            where = path or "(module)"
            exp = {k: v for k, v in x.kids.items()}
            got = {k.name: k for k in n.kids if not is_empty(k)}
            for k, v in exp.items():
                if v.kind == "module" and not v.fns and not v.attrs and not v.kids:
                    continue
                g.check(k in got and got[k].kind == v.kind, f"{v.kind} {k} of {where} is lost in the {side}")
            for k in got:
                if k.startswith("Boxed") and not path and k not in exp:
                    continue      # generated class for a modifiable value
                g.check(k in exp, f"{got[k].kind} {k} of {where} is exposed in the {side} although it must not be")
            want = collections.Counter(nm for nm, _ in x.fns)
            have = collections.Counter(f.name for f in n.fns)
            for nm in want:
                g.check(nm in have, f"{where}: function {nm} is lost in the {side}")
            for nm in have:
                if nm == "__init__" and x.kind == "class" and not x.has_ctor:
                    continue      # default / named constructor, compared between the two outputs
                g.check(nm in want, f"{where}: function {nm} is exposed in the {side} although it must not be")
                if side == "binding code":
                    g.check(have[nm] == want[nm], f"{where}: {want[nm]} overloads of {nm} are declared, {have[nm]} are bound")
                else:
                    g.check(have[nm] <= want[nm], f"{where}: {want[nm]} overloads of {nm} are declared, {have[nm]} are in the stub")
                if param_names:
                    ws = collections.Counter(tuple((py(conv(p.name)), bool(p.default)) for p in f.params) for m, f in x.fns if m == nm)
                    hs = collections.Counter(sig(f) for f in n.fns if f.name == nm)
                    g.check(set(ws) == set(hs) and all(hs[k] <= ws[k] for k in hs), f"{where}.{nm}: parameters in the {side} differ from the C++ declaration", declared=sorted(ws), got=sorted(hs))
                cnt += 1
            wa = [a for a, _ in x.attrs]
            ha = [a.name for a in n.attrs]
            g.check(sorted(wa) == sorted(ha), f"{where}: attributes of the {side} are not the public attributes", expected=wa, got=ha)
            if x.kind == "enum":
                g.check(x.values == [v[0] for v in n.values], f"enum {where}: items of the {side} differ", expected=x.values, got=[v[0] for v in n.values])
            for k, v in exp.items():
                if k in got:
                    rec((path + "." if path else "") + k, v, got[k])
        rec("", e, root)
    return cnt
