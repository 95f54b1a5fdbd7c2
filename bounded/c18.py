"""C18: C++ member operators become the Python special methods of the same meaning."""
from __future__ import annotations
import collections, random, re
from . import core, lg, out
from .iface import snake, py

ONE = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "%": "__mod__", "[]": "__getitem__", "<": "__lt__", "<=": "__le__", "==": "__eq__", "!=": "__ne__", ">": "__gt__", ">=": "__ge__",
       "+=": "__iadd__", "-=": "__isub__", "*=": "__imul__", "/=": "__itruediv__", "%=": "__imod__"}
ZERO = {"-": "__neg__", "+": "__pos__", " bool": "__bool__"}
NO_ZERO = ["*", "~", "!", "++", "--", "->", "&", " int", " double", " std::string"]
NO_ONE = ["=", "&", "|", "^", "<<", ">>", "&=", "|=", "^=", "<<=", ">>=", "&&", "||", ",", "->*"]
CMP = {"__lt__": "< 0", "__le__": "<= 0", "__eq__": "== 0", "__ge__": ">= 0", "__gt__": "> 0"}
TYPES = ["int", "double", "float", "bool", "const std::string &", "const {C} &", "{C}", "{C} &", "const {C}", "const std::vector<int> &", "size_t", "Other", "const Other &", "const Other *"]
SPECIAL = set(ONE.values()) | set(ZERO.values()) | {"__call__"}


def norm(t: str) -> str:
    return re.sub(r"\s*([&*<>,])\s*", r"\1", " ".join(t.split()))


def operator_in(target: str) -> list[str]:
    """the C++ operators named in a text"""
    r = []
    for m in re.finditer(r"operator\s*(\(\)|\[\]|bool\b|<=>|[-+*/%<>=!&|^~]+|,|\w+)", target):
        r.append(m.group(1))
    return r


def split(s: str) -> list[str]:
    return [out.join(a) for a in out.split_args(out.cpp_lex(s))]


class Op:
    def __init__(self, op: str, params: list, const: bool, ret: str, acc: str):
        self.op, self.params, self.const, self.ret, self.acc = op, params, const, ret, acc

    def cpp(self, rng: random.Random) -> str:
        sp = rng.choice(["", "", " "]) if not self.op.startswith(" ") else ""
        r = "" if self.op in (" bool", " int", " double", " std::string") else self.ret + " "
        ps = ", ".join(f"{t} {n}".rstrip() + (f" = {d}" if d else "") for t, n, d in self.params)
        return f"{r}operator{sp}{self.op}({ps}){' const' if self.const else ''};"

    def names(self) -> list:
        n = len(self.params)
        if self.op == "()":
            return ["__call__"]
        if self.op == "<=>" and n == 1:
            return list(CMP)
        if n == 1 and self.op in ONE:
            return [ONE[self.op]]
        if n == 0 and self.op in ZERO:
            return [ZERO[self.op]]
        return []


def make_class(rng: random.Random, name: str, kind: str) -> tuple:
    ops: list[Op] = []
    body = []
    seen = set()
    pub = kind == "struct"
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        if rng.random() < 0.15:
            pub = not pub
            body.append(rng.choice(["public:"]) if pub else rng.choice(["private:", "protected:"]))
        if not pub and rng.random() < 0.5:
            pub = True
            body.append("public:")
        r = rng.random()
        if r < 0.5:
            op, n = rng.choice(list(ONE)), 1
        elif r < 0.62:
            op, n = rng.choice(list(ZERO)), 0
        elif r < 0.7:
            op, n = "()", rng.choice([0, 1, 2, 3])
        elif r < 0.78:
            op, n = "<=>", 1
        elif r < 0.86:
            op, n = rng.choice(NO_ZERO), 0
        elif r < 0.94:
            op, n = rng.choice(NO_ONE), 1
        else:
            m = f"plain{len(body)}"
            body.append(f"    int {m}(int a);")
            continue
        # several overloads of one operator are likely
        if ops and rng.random() < 0.3:
            o = rng.choice(ops)
            op, n = o.op, len(o.params)
            if op == "()":
                n = rng.choice([0, 1, 2])
            elif op in ("-", "+", "*"):
                n = rng.choice([0, 1])
        nm = rng.choice(["o", "other", "rhsValue", "k", ""])
        params = []
        for i in range(n):
            t = rng.choice(TYPES).replace("{C}", name)
            d = "3" if op == "()" and i == n - 1 and t in ("int", "double", "size_t") and rng.random() < 0.3 else ""
            params.append((t, (nm + str(i) if i else nm) if nm else "", d))
        key = (op, tuple(re.sub(r"const |&", "", p[0]).strip() for p in params))
        if key in seen:
            continue
        seen.add(key)
        ret = rng.choice([name, "bool", "int", name + " &", "double", "std::string"]) if op not in ("<=>", "==", "<", "!=", "<=", ">", ">=") else rng.choice(["bool", "bool", "int"])
        if op == "<=>":
            ret = rng.choice(["int", "std::strong_ordering", "auto"])
        if op == "->":
            ret = name + " *"
        o = Op(op, params, rng.random() < 0.6, ret, "public" if pub else "private")
        ops.append(o)
        body.append("    " + o.cpp(rng))
    return body, ops


def case(rng: random.Random) -> tuple:
    nb = rng.random() < 0.5
    o = lg.options(nb)
    if rng.random() < 0.3:
        o.python_max_line_length = rng.choice([20, 0])
    want = []
    lines = ["struct Other", "{", "    int x;", "};"]
    for name in rng.sample(["Num", "Vec", "Operand"], rng.choice([1, 1, 2])):
        kind = rng.choice(["struct", "struct", "class"])
        body, ops = make_class(rng, name, kind)
        place = rng.choice(["", "", "ns", "inner"])
        txt = [f"{kind} {name}", "{"] + (["public:"] if kind == "class" and rng.random() < 0.0 else []) + body + ["    int last_member;", "};"]
        pub_last = None
        if place == "":
            lines += txt
            path, q = [name], name
        elif place == "ns":
            lines += ["namespace Math", "{"] + ["    " + x for x in txt] + ["}"]
            path, q = ["math", name], "Math::" + name
        else:
            lines += [f"struct Holder{name}", "{"] + ["    " + x for x in txt] + ["};"]
            path, q = ["Holder" + name, name], f"Holder{name}::{name}"
        want.append((path, q, name, ops))
    if rng.random() < 0.3:
        lines += ["bool operator<(const Other & a, const Other & b);", "Other operator+(const Other & a, int b);", "void after_all();"]
    code = "\n".join(lines) + "\n"
    g = lg.generate(o, code)
    free = [f.name for f in g.stub.fns + g.pydef.fns if f.name in SPECIAL or "operator" in f.name]
    g.check(not free, "a free operator is bound", names=free)
    if "after_all" in code:
        g.check(any(f.name == "after_all" for f in g.stub.fns) and any(f.name == "after_all" for f in g.pydef.fns), "a function is lost next to a free operator")
    for path, q, name, ops in want:
        nodes = []
        for root in (g.stub, g.pydef):
            n = root
            for p in path:
                n = n.kid(p) if n is not None else None
            g.check(n is not None, f"class {q} is missing")
            nodes.append(n)
        s, p = nodes
        judge(g, s, p, q, name, ops, nb)
    return (code, {"code": code})


def judge(g: lg.Gen, s: out.Node, p: out.Node, q: str, name: str, ops: list, nb: bool) -> None:
    pub = [o for o in ops if o.acc == "public"]
    cnt = collections.Counter(o.op.strip() for o in ops)
    sf = [f for f in s.fns if f.name.startswith("__") and f.name not in ("__init__",)]
    pf = [f for f in p.fns if f.name.startswith("__") and f.name not in ("__init__", "__copy__", "__deepcopy__")]
    exp = collections.Counter(n for o in pub for n in o.names())
    got = collections.Counter(f.name for f in pf)
    g.check(exp == got, f"class {q}: the special methods of the binding code are not those of its operators", expected=dict(exp), got=dict(got))
    gs = collections.Counter(f.name for f in sf)
    g.check(set(gs) == set(exp), f"class {q}: the special methods of the stub are not those of its operators", expected=dict(exp), got=dict(gs))
    for f in sf + pf:
        pass
    left = list(pf)
    for o in pub:
        pnames = [py(snake(n)) if n else f"param_{i}" for i, (t, n, d) in enumerate(o.params)]
        for n in o.names():
            # in the stub: a declaration of that name with these parameters
            ok = [f for f in sf if f.name == n and [x.name for x in f.params] == pnames and f.self_]
            g.check(ok, f"class {q}: no {n} with parameters {pnames} in the stub for operator{o.op}", got=[[x.name for x in f.params] for f in sf if f.name == n])
            if o.op == "<=>":
                g.check(any((f.ret or "").strip("'\"") == "bool" for f in ok), f"class {q}: {n} from operator<=> does not return bool", got=[f.ret for f in ok])
            # in the binding code: exactly one def which invokes the operator with its operands
            hit = None
            why = []
            for f in left:
                if f.name != n:
                    continue
                w = invokes(f, o, n, q, name, pnames, cnt[o.op.strip()] > 1)
                if w is None:
                    hit = f
                    break
                why.append(w)
            g.check(hit is not None, f"class {q}: no binding {n} invokes operator{o.op}({', '.join(t for t, _, _ in o.params)}){' const' if o.const else ''} with its operands in order", reasons=why, candidates=[f.target for f in left if f.name == n])
            left.remove(hit)


def invokes(f: out.Fn, o: Op, n: str, q: str, name: str, pnames: list, overloaded: bool):
    """None, or the reason why this binding does not invoke the operator"""
    t = f.target
    opn = o.op.strip()
    if [x.name for x in f.params] != pnames:
        return "parameter names " + str([x.name for x in f.params])
    if [bool(x.default) for x in f.params] != [bool(d) for _, _, d in o.params]:
        return "default values"
    used = operator_in(t)
    if set(used) != {opn}:
        return f"operators {used}"
    want = [norm(x.replace(name, q)) if q != name else norm(x) for x, _, _ in o.params]
    want = [re.sub(r"\b(\w+::)+" + re.escape(q), q, w) for w in want]
    if "[](" in t.replace("[] (", "[]("):
        m = re.search(r"\[\]\s*\(\s*(const\s+)?([\w:]+)\s*&\s*self\s*(.*?)\)\s*(->|\{)", t, re.S)
        if m is None or m.group(2) != q:
            return "lambda without self of the class"
        if bool(m.group(1)) != o.const:
            return "constness of self"
        if opn == "<=>":
            cmp = re.search(r"return\s+self\.operator<=>\(other\)\s*([<>=]=?)\s*0\s*;", t)
            if cmp is None or cmp.group(1) + " 0" != CMP[n]:
                return "comparison of the result of <=>"
            last = re.findall(r"return\s+(.*?);", t, re.S)[-1]
            arg = o.params[0][1] or "param_0"
            if norm(last) != f"cmp({arg})":
                return f"returns {last}"
            if "->bool" not in t.replace(" ", ""):
                return "does not return bool"
        elif not o.params:
            if re.search(r"return\s+self\.operator\s*" + re.escape(opn) + r"\(\)\s*;", t) is None:
                return "does not return the result of the operator"
        else:
            ps = m.group(3).lstrip(", ")
            names = [x.split("=")[0].split()[-1].strip("&*") for x in split(ps)] if ps.strip() else []
            last = re.findall(r"return\s+(.*?);", t, re.S)
            call = re.search(r"self\.operator\s*" + re.escape(opn) + r"\((.*)\)", last[-1] if last else "")
            if not call or [a.strip() for a in split(call.group(1))] != names:
                return "arguments of the call"
        return None
    m = re.match(r"\s*(?:py|nb)::overload_cast<(.*)>\(\s*&([\w:]+)::operator\s*(\S+?)\s*(?:,\s*(?:py|nb)::(const_)\s*)?\)\s*$", t, re.S)
    if m:
        if m.group(2) != q or m.group(3).rstrip(",") != opn:
            return "designates " + m.group(2) + "::operator" + m.group(3)
        if bool(m.group(4)) != o.const:
            return "const_"
        types = [norm(x) for x in split(m.group(1))]
        if types != want:
            return f"overload types {types} instead of {want}"
        return None
    m = re.match(r"\s*&([\w:]+)::operator\s*(.+?)\s*$", t)
    if m:
        if m.group(1) != q or m.group(2) != opn:
            return "designates " + t
        if overloaded:
            return "ambiguous: the operator is overloaded"
        return None
    return "unknown form " + t


def directed() -> tuple:
    o = lg.options()
    o.class_template_options.add_specialization("^V$", ["int", "double"], cpp_synonyms_list_str=[])
    g = lg.generate(o, "template<class T> struct V { V operator+(const V& o) const; bool operator==(const V & o) const; T operator[](size_t i); V operator-() const; };\nstruct A { int operator()(const A& a, int n = 2) const; };\n")
    for n in ("V_int", "V_double"):
        s, p = g.stub.kid(n), g.pydef.kid(n)
        g.check(s is not None and p is not None, f"instantiation {n}")
        w = ["__add__", "__eq__", "__getitem__", "__neg__"]
        g.check([f.name for f in s.fns if f.name != "__init__"] == w, f"operators of {n} in the stub", got=[f.name for f in s.fns])
        g.check([f.name for f in p.fns if f.name != "__init__"] == w, f"operators of {n} in the binding code", got=[f.name for f in p.fns])
    return ("directed", g.code)


DIRECTED = [directed]
RANDOM = [(case, 4000)]
