from __future__ import annotations
from .interp import *
from .interp import _is_property, _small
from .engine import _dt


def nth(t: Any, i: Any) -> Any:
    """t[i] for 0 <= i < len(t); an element of a slice is an element of the sliced list"""
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        i = t.arg(1) + i
        t = t.arg(0)
    return t[i]


class SpecModule:
    """ASTs of the contract files: spec functions and constants"""

    def __init__(self, paths: list[str]):
        self.fns: dict[str, ast.FunctionDef] = {}
        self.consts: dict[str, Any] = {}
        for p in paths:
            with open(p) as f:
                tree = ast.parse(f.read())
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.fns[n.name] = n
                elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    self.consts[n.targets[0].id] = n.value

    def is_rec(self, name: str) -> bool:
        seen: set = set()

        def go(x: str) -> bool:
            for q in ast.walk(self.fns[x]):
                if isinstance(q, ast.Call) and isinstance(q.func, ast.Name):
                    if q.func.id == name:
                        return True
                    if q.func.id in self.fns and q.func.id not in seen and q.func.id in api.SPECS:
                        seen.add(q.func.id)
                        if go(q.func.id):
                            return True
            return False

        return go(name)


class Exec(Verifier):
    # ------------------------------------------------------------ expressions
    def ev(self, n: Any, env: Env) -> Any:
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(n).__name__}")
        return m(n, env)

    def ev_Constant(self, n: Any, env: Env) -> Any:
        if isinstance(n.value, (str, int, bool, type(None))):
            return n.value
        if isinstance(n.value, float):
            return n.value
        raise Undecided("constant")

    def ev_Name(self, n: Any, env: Env) -> Any:
        return self.lookup(n.id, env)

    def ev_Attribute(self, n: Any, env: Env) -> Any:
        return self.get_attr(self.ev(n.value, env), n.attr)

    def ev_Tuple(self, n: Any, env: Env) -> Any:
        return tuple(self.ev(x, env) for x in n.elts)

    def ev_List(self, n: Any, env: Env) -> Any:
        items: list = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, env))
                if it.items is None:
                    raise Undecided("starred symbolic")
                items += it.items
            else:
                items.append(self.ev(x, env))
        return LRef(items=items)

    def ev_Set(self, n: Any, env: Env) -> Any:
        return SetVal([self.ev(x, env) for x in n.elts])

    def ev_Dict(self, n: Any, env: Env) -> Any:
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                sub = self.ev(v, env)
                if not isinstance(sub, DictVal):
                    raise Undecided("dict unpack")
                d.update(sub.d)
                continue
            kk = self.ev(k, env)
            if not is_conc(kk):
                raise Undecided("symbolic dict key")
            d[kk] = self.ev(v, env)
        return DictVal(d)

    def ev_Lambda(self, n: Any, env: Env) -> Any:
        fd = ast.FunctionDef(name="<lambda>", args=n.args, body=[ast.Return(value=n.body)], decorator_list=[], returns=None)
        return FuncVal(fd, env_mod(env), "<lambda>", env)

    def ev_JoinedStr(self, n: Any, env: Env) -> Any:
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    raise Undecided("format spec")
                parts.append(self.to_str(self.ev(v.value, env)))
        return self.concat_str(parts)

    def concat_str(self, parts: list) -> Any:
        out: list = []
        for p in parts:
            p = norm(p)
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "" or not isinstance(p, str):
                out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return V(STR, z3.Concat(*[self.lift(x, STR) for x in out]))

    def to_str(self, v: Any) -> Any:
        if isinstance(v, str):
            return v
        if isinstance(v, V) and v.ty == STR:
            return v
        if isinstance(v, bool) or isinstance(v, int) or v is None:
            return str(v)
        if isinstance(v, V) and v.ty == INT:
            return V(STR, z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(zstr("-"), z3.IntToStr(-v.t))))
        if isinstance(v, V) and v.ty == BOOL:
            return V(STR, z3.If(v.t, zstr("True"), zstr("False")))
        if isinstance(v, V) and v.ty.k == "obj":
            m = self.find_method(v.ty.n, "__str__")
            if m is not None:
                return self.call(Bound(m, v), [], {})
            return self.uf_call("str_of_obj", [v], STR)
        if isinstance(v, V) and v.ty.k == "opt":
            return V(STR, z3.If(opt_is_none(v.ty, v.t), zstr("None"), self.lift(self.to_str(V(v.ty.a[0], opt_val(v.ty, v.t))), STR)))
        if isinstance(v, (V, LRef, tuple)):
            return self.uf_call("str_of", [v], STR)
        raise Undecided(f"str of {type(v).__name__}")

    def uf_call(self, name: str, args: list, res: T) -> Any:
        vs = [self.as_v(a) for a in args]
        f = UF(name, [sort_of(v.ty) for v in vs], sort_of(res))
        r = V(res, f(*[v.t for v in vs])) if vs else V(res, z3.Const("c_" + name, sort_of(res)))
        return r

    def simple(self, n: Any, env: Env, ty: T) -> bool:
        """an expression of this type (BOOL, INT or STR) whose evaluation neither raises nor has an effect"""
        if isinstance(n, ast.Constant):
            return type(n.value) is {"bool": bool, "int": int, "str": str}.get(ty.k)
        if isinstance(n, ast.Name):
            v = env.get(n.id)
            if v is MISSING:
                return False
            if isinstance(v, V):
                return v.ty == ty
            return type(v) is {"bool": bool, "int": int, "str": str}.get(ty.k)
        if isinstance(n, ast.BoolOp) and ty == BOOL:
            return all(self.simple(x, env, BOOL) for x in n.values)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and ty == BOOL:
            return self.simple(n.operand, env, BOOL)
        if isinstance(n, ast.Compare) and ty == BOOL and len(n.ops) == 1:
            a, b, o = n.left, n.comparators[0], n.ops[0]
            if isinstance(o, (ast.In, ast.NotIn)):
                return self.simple(a, env, STR) and (self.simple(b, env, STR) or isinstance(b, ast.Tuple) and all(self.simple(x, env, STR) for x in b.elts))
            if isinstance(o, (ast.Eq, ast.NotEq)):
                return any(self.simple(a, env, t) and self.simple(b, env, t) for t in (STR, INT, BOOL))
            return isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and self.simple(a, env, INT) and self.simple(b, env, INT)
        if isinstance(n, ast.Call) and ty == BOOL and isinstance(n.func, ast.Attribute) and not n.keywords and self.simple(n.func.value, env, STR):
            if n.func.attr in ("startswith", "endswith"):
                return len(n.args) == 1 and self.simple(n.args[0], env, STR)
            return n.func.attr in ("isdigit", "isspace", "isalnum", "isalpha", "isupper", "islower", "isidentifier") and not n.args
        if isinstance(n, ast.Call) and ty == INT and isinstance(n.func, ast.Name) and n.func.id == "len" and env.get("len") is MISSING:
            return len(n.args) == 1 and not n.keywords and self.simple(n.args[0], env, STR)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and (ty == INT or ty == STR and isinstance(n.op, ast.Add)):
            return self.simple(n.left, env, ty) and self.simple(n.right, env, ty)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and ty == STR and n.slice.step is None:
            return self.simple(n.value, env, STR) and all(x is None or self.simple(x, env, INT) for x in (n.slice.lower, n.slice.upper))
        return False

    def ev_BoolOp(self, n: Any, env: Env) -> Any:
        isand = isinstance(n.op, ast.And)
        if self.spec_mode:
            ts = []
            for x in n.values:
                t = self.truth_term(self.ev(x, env))
                if isinstance(t, bool):
                    if t is not isand:
                        return t if not ts else self.B(self.conj(ts + [t]) if isand else self.disj(ts + [t]))
                    continue
                ts.append(t)
            return self.B(self.conj(ts) if isand else self.disj(ts))
        if all(self.simple(x, env, BOOL) for x in n.values):
            # no operand can raise, nor have an effect: the order of evaluation does not matter
            self.spec_mode += 1
            try:
                return self.ev_BoolOp(n, env)
            finally:
                self.spec_mode -= 1
        v: Any = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            if isand:
                if not self.truth(v):
                    return v
            elif self.truth(v):
                return self.unopt(v) if isinstance(v, V) and v.ty.k == "opt" else v
        return v

    def ev_UnaryOp(self, n: Any, env: Env) -> Any:
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return self.B(self.neg(self.truth_term(v)))
        if isinstance(n.op, ast.USub):
            if is_conc(v):
                return -v
            return norm(V(INT, -self.lift(v, INT)))
        raise Undecided("unary")

    def ev_IfExp(self, n: Any, env: Env) -> Any:
        c = self.truth_term(self.ev(n.test, env))
        if isinstance(c, bool):
            return self.ev(n.body if c else n.orelse, env)
        if self.spec_mode:
            return self.merge(c, self.ev(n.body, env), self.ev(n.orelse, env))
        return self.ev(n.body if self.decide(c) else n.orelse, env)

    def merge(self, c: Any, a: Any, b: Any) -> Any:
        if isinstance(c, bool):
            return a if c else b
        if is_conc(a) and is_conc(b) and type(a) is type(b) and not isinstance(a, tuple):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        if isinstance(a, LRef) and not self._known(a) and isinstance(b, LRef):
            a.et = self.ty_of(b).a[0]
        if isinstance(b, LRef) and not self._known(b) and isinstance(a, LRef):
            b.et = self.ty_of(a).a[0]
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        x, y, ty = self.same_type_terms(a, b)
        return self.low(V(ty, z3.If(c, x, y)))

    def ev_Compare(self, n: Any, env: Env) -> Any:
        l = self.ev(n.left, env)
        ts = []
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn, env)
            t = self.cmp(op, l, r)
            if len(n.ops) == 1:
                return self.B(t)
            ts.append(t)
            l = r
        return self.B(self.conj(ts))

    def cmp(self, op: Any, l: Any, r: Any) -> Any:
        if isinstance(op, ast.Eq):
            return self.eq(l, r)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq(l, r))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if l is None or r is None:
                t = self.eq(l, r) if not (isinstance(l, (FuncVal, ClassVal, Bound, DictVal, ModVal, ExtVal, SetVal)) or isinstance(r, (FuncVal, ClassVal, Bound, DictVal, SetVal))) else False
            elif isinstance(l, V) and isinstance(r, V) and l.ty.k in ("obj", "enum") and r.ty.k == l.ty.k:
                t = self.nb(l.t == r.t)
            elif isinstance(l, V) and isinstance(r, V) and {l.ty.k, r.ty.k} <= {"obj", "opt"}:
                x, y, _ = self.same_type_terms(l, r)
                t = self.nb(x == y)
            elif isinstance(l, (bool, EnumVal)) or isinstance(r, (bool, EnumVal)):
                t = self.eq(l, r)
            else:
                raise Undecided("is")
            return t if isinstance(op, ast.Is) else self.neg(t)
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(r, l)
            return t if isinstance(op, ast.In) else self.neg(t)
        if is_conc(l) and is_conc(r):
            return {ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r}[type(op)]()
        l, r = self.unopt(l, "comparison"), self.unopt(r, "comparison")
        tl, tr = self.ty_of(l), self.ty_of(r)
        if tl.k in ("int", "bool") and tr.k in ("int", "bool"):
            a, b = self.lift(l, INT), self.lift(r, INT)
            return self.nb({ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]())
        if tl == STR and tr == STR:
            a, b = self.lift(l, STR), self.lift(r, STR)
            return self.nb({ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: b < a, ast.GtE: lambda: b <= a}[type(op)]())
        raise Undecided("ordering")

    def member(self, v: V, x: Any) -> Any:
        """x in v, with the index of x as a witness (named _in_0, _in_1... in Contract.use)"""
        r = z3.Contains(v.t, z3.Unit(x))
        if not self.spec_mode:
            w = z3.IndexOf(v.t, z3.Unit(x), 0)
            self.in_witness.append(V(INT, w))
            e = self.element(v.t, nth(v.t, w), w)
            self.assume(z3.Implies(r, z3.And(w >= 0, w < z3.Length(v.t), e == x)))
        return self.nb(r)

    def contains(self, c: Any, x: Any) -> Any:
        if isinstance(c, DictVal):
            if is_conc(x):
                return x in c.d
            return self.disj([self.eq(x, k) for k in c.d])
        if isinstance(c, SetVal):
            return self.disj([self.eq(x, k) for k in c.items])
        if isinstance(c, tuple):
            return self.disj([self.eq(x, k) for k in c])
        if isinstance(c, Iter) and c.items is not None:
            return self.disj([self.eq(x, k) for k in c.items])
        if isinstance(c, LRef):
            if c.items is not None:
                return self.disj([self.eq(x, k) for k in c.items])
            v = self.as_v(c)
            return self.member(v, self.lift(x, v.ty.a[0]))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        c = self.unopt(c)
        if isinstance(c, V) and c.ty.k == "set":
            return self.nb(z3.Select(c.t, self.lift(x, c.ty.a[0])))
        if isinstance(c, V) and c.ty.k == "map":
            return self.nb(z3.Not(opt_is_none(Opt(c.ty.a[1]), z3.Select(c.t, self.lift(x, c.ty.a[0])))))
        if self.ty_of(c) == STR:
            return self.nb(z3.Contains(self.lift(c, STR), self.lift(self.unopt(x), STR)))
        if self.ty_of(c).k == "list":
            v = self.as_v(c)
            return self.member(v, self.lift(x, v.ty.a[0]))
        raise Undecided("in")

    def ev_BinOp(self, n: Any, env: Env) -> Any:
        return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env))

    def binop(self, op: Any, l: Any, r: Any) -> Any:
        l, r = self.unopt(l, "operand"), self.unopt(r, "operand")
        if is_conc(l) and is_conc(r) and not isinstance(l, (DictVal, SetVal, FuncVal)):
            try:
                if isinstance(op, ast.Add):
                    return l + r
                if isinstance(op, ast.Sub):
                    return l - r
                if isinstance(op, ast.Mult):
                    return l * r
                if isinstance(op, ast.FloorDiv):
                    return l // r
                if isinstance(op, ast.Mod) and isinstance(l, int):
                    return l % r
            except (TypeError, ZeroDivisionError) as e:
                raise PyRaise(type(e).__name__)
            raise Undecided("operator")
        if isinstance(op, ast.Add):
            if isinstance(l, LRef) and isinstance(r, LRef):
                if l.items is not None and r.items is not None:
                    return LRef(items=list(l.items) + list(r.items))
                a, b, ty = self.same_type_terms(l, r)
                return LRef(v=V(ty, z3.Concat(a, b)))
            tl, tr = self.ty_of(l), self.ty_of(r)
            if tl == STR and tr == STR:
                return self.concat_str([l, r])
            if tl.k in ("int", "bool") and tr.k in ("int", "bool"):
                return norm(V(INT, self.lift(l, INT) + self.lift(r, INT)))
            if isinstance(l, tuple) and isinstance(r, tuple):
                return l + r
            raise PyRaise("TypeError", "+")
        if isinstance(op, ast.Mult):
            if self.ty_of(l) == STR or self.ty_of(r) == STR:
                s, k = (l, r) if self.ty_of(l) == STR else (r, l)
                k = norm(k)
                if isinstance(k, int):
                    return self.concat_str([s] * max(k, 0))
                res = self.uf_call("str_repeat", [s, self.as_v(k, INT)], STR)
                st, kt = self.lift(s, STR), self.lift(k, INT)
                self.assume(z3.Implies(kt <= 0, res.t == zstr("")))
                self.assume(z3.Implies(kt == 1, res.t == st))
                if isinstance(s, str):
                    self.assume(z3.Implies(kt >= 0, z3.Length(res.t) == len(s) * kt))
                if isinstance(s, str) and len(s) == 1:
                    self.assume(z3.InRe(res.t, z3.Star(z3.Re(zstr(s)))))
                return res
        if isinstance(op, (ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)):
            a, b = self.lift(l, INT), self.lift(r, INT)
            if isinstance(op, ast.Sub):
                return norm(V(INT, a - b))
            if isinstance(op, ast.Mult):
                return norm(V(INT, a * b))
            if isinstance(r, int) and r > 0:
                return norm(V(INT, a / b if isinstance(op, ast.FloorDiv) else a % b))
        raise Undecided("operator")

    def ev_Subscript(self, n: Any, env: Env) -> Any:
        o = self.ev(n.value, env)
        if isinstance(o, V) and o.ty.k == "opt":
            o = self.unopt(o, "subscript")
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, env) if n.slice.lower else None
            hi = self.ev(n.slice.upper, env) if n.slice.upper else None
            if n.slice.step is not None:
                st = self.ev(n.slice.step, env)
                if st == -1 and lo is None and hi is None and isinstance(o, LRef) and o.items is not None:
                    return LRef(items=list(reversed(o.items)))
                if st != 1:
                    raise Undecided("slice step")
            return self.slice(o, lo, hi)
        i = self.ev(n.slice, env)
        return self.index(o, i)

    def slice(self, o: Any, lo: Any, hi: Any) -> Any:
        if isinstance(o, (str, tuple)) and is_conc(o) and is_conc(lo) and is_conc(hi):
            return o[lo:hi]
        if isinstance(o, LRef) and o.items is not None and is_conc(lo) and is_conc(hi):
            return LRef(items=o.items[lo:hi], et=o.et)
        lo = self.unopt(lo, "slice") if lo is not None else None
        hi = self.unopt(hi, "slice") if hi is not None else None
        v = self.as_v(o)
        L = z3.Length(v.t)

        def clamp(x: Any, default: Any) -> Any:
            if x is None:
                return default
            if isinstance(x, int):
                if x >= 0:
                    return z3.If(L < x, L, z3.IntVal(x)) if x else z3.IntVal(0)
                return z3.If(L + x < 0, z3.IntVal(0), L + x)
            t = self.lift(x, INT)
            return z3.If(t < 0, z3.If(L + t < 0, z3.IntVal(0), L + t), z3.If(t > L, L, t))

        a, b = clamp(lo, z3.IntVal(0)), clamp(hi, L)
        r = z3.SubSeq(v.t, a, z3.If(b - a < 0, z3.IntVal(0), b - a)) if v.ty != STR else z3.SubString(v.t, a, z3.If(b - a < 0, z3.IntVal(0), b - a))
        if v.ty == STR:
            return norm(V(STR, r))
        return LRef(v=V(v.ty, r))

    def index(self, o: Any, i: Any) -> Any:
        if isinstance(o, DictVal):
            if is_conc(i):
                if i in o.d:
                    return o.d[i]
                raise PyRaise("KeyError")
            return self.dict_sym(o, i, None)
        if isinstance(o, tuple):
            if isinstance(i, int):
                return o[i]
            raise Undecided("tuple index")
        if isinstance(o, V) and o.ty.k == "map":
            oty = Opt(o.ty.a[1])
            t = z3.Select(o.t, self.lift(i, o.ty.a[0]))
            if not self.spec_mode and not self.decide(z3.Not(opt_is_none(oty, t))):
                raise PyRaise("KeyError")
            return self.low(self.mk(o.ty.a[1], opt_val(oty, t)))
        i = norm(i)
        if isinstance(o, LRef) and o.items is not None and isinstance(i, int):
            if -len(o.items) <= i < len(o.items):
                return o.items[i]
            raise PyRaise("IndexError")
        if isinstance(o, str) and isinstance(i, int):
            if -len(o) <= i < len(o):
                return o[i]
            raise PyRaise("IndexError")
        if isinstance(o, V) and o.ty.k == "tup":
            if isinstance(i, int):
                if i < 0:
                    i += len(o.ty.a)
                return self.low(self.mk(o.ty.a[i], tup_get(o.ty, o.t, i)))
            raise Undecided("tuple index")
        v = self.as_v(o)
        if v.ty != STR and v.ty.k != "list":
            raise Undecided(f"index {v.ty}")
        t = self.lift(i, INT)
        L = z3.Length(v.t)
        idx = t if (isinstance(i, int) and i >= 0) else (L + t if isinstance(i, int) else z3.If(t < 0, L + t, t))
        if not self.spec_mode:
            if not self.decide(z3.And(idx >= 0, idx < L)):
                raise PyRaise("IndexError")
        if v.ty == STR:
            return norm(V(STR, z3.SubString(v.t, idx, 1)))
        return self.low(self.mk(v.ty.a[0], self.element(v.t, v.t[idx], idx)))

    def dict_sym(self, o: DictVal, k: Any, default: Any) -> Any:
        if self.spec_mode:
            r = default
            for kk, vv in reversed(list(o.d.items())):
                c = self.eq(k, kk)
                r = vv if r is None and default is None and kk == list(o.d)[-1] else self.merge(c, vv, r)
            return r
        for kk, vv in o.d.items():
            c = self.eq(k, kk)
            if c is True or (not isinstance(c, bool) and self.decide(c)):
                return vv
        if default is MISSING:
            return MISSING
        if default is None:
            raise PyRaise("KeyError")
        return default

    def ev_Starred(self, n: Any, env: Env) -> Any:
        raise Undecided("starred")

    # comprehensions
    def ev_ListComp(self, n: Any, env: Env) -> Any:
        return self.comp(n, env)

    def ev_GeneratorExp(self, n: Any, env: Env) -> Any:
        r = self.comp(n, env)
        return r

    def comp(self, n: Any, env: Env) -> LRef:
        if len(n.generators) != 1:
            raise Undecided("nested comprehension")
        g = n.generators[0]
        it = self.iterate(self.ev(g.iter, env))
        if it.items is not None:
            out = []
            for x in it.items:
                e = Env({}, env)
                self.bind(g.target, x, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    out.append(self.ev(n.elt, e))
            return LRef(items=out)

        def elem(x: Any) -> Any:
            e = Env({}, env)
            self.bind(g.target, x, e)
            return self.ev(n.elt, e)

        def cond(x: Any) -> Any:
            e = Env({}, env)
            self.bind(g.target, x, e)
            return self.conj([self.zb(self.truth_term(self.ev(c, e))) for c in g.ifs])

        if g.ifs:
            base = self.seq_filter(it, cond)
            it = self.iterate(base)
            if isinstance(n.elt, ast.Name) and isinstance(g.target, ast.Name) and n.elt.id == g.target.id:
                return base
        return self.seq_map(it, elem)

    def seq_of_iter(self, it: Iter) -> V:
        if it.base is not None:
            return it.base
        raise Undecided("iteration has no base sequence")

    def under_lambda(self, f: Any, ty: T) -> tuple:
        """evaluate f on a fresh constant in merged mode; returns (const, result)"""
        self.nfresh += 1
        c = z3.Const(f"lam!{self.nfresh}", sort_of(ty))
        self.spec_mode += 1
        n = len(self.pc)
        try:
            r = f(self.low(V(ty, c)))
        finally:
            self.spec_mode -= 1
        self.lam_facts = list(self.pc[n:])     # they hold for any element
        return c, r

    def seq_map(self, it: Iter, f: Any) -> LRef:
        if not self.spec_mode:
            self.abstracted = True
        base = self.seq_of_iter(it)
        c, r = self.under_lambda(f, base.ty.a[0] if base.ty.k == "list" else STR)
        rv = self.as_v(r)
        if rv.t.eq(c):
            return LRef(v=base)
        u = self.canon("map", base.ty, c, rv.t, rv.ty)
        g = UF(u, [sort_of(base.ty)], sort_of(ListT(rv.ty)))
        t = g(base.t)
        self.assume(z3.Length(t) == z3.Length(base.t))
        return LRef(v=V(ListT(rv.ty), t))

    def seq_filter(self, it: Iter, f: Any) -> LRef:
        if not self.spec_mode:
            self.abstracted = True
        base = self.seq_of_iter(it)
        c, r = self.under_lambda(lambda x: self.B(f(x)), base.ty.a[0])
        rt = self.zb(self.truth_term(r))
        u = self.canon("filter", base.ty, c, rt, BOOL)
        g = UF(u, [sort_of(base.ty)], sort_of(base.ty))
        t = g(base.t)
        self.assume(z3.Length(t) <= z3.Length(base.t))
        return LRef(v=V(base.ty, t))

    def canon(self, kind: str, bty: T, c: Any, body: Any, rty: T) -> str:
        """functions proved equal on every element share one uninterpreted map/filter symbol"""
        for k, b, rt, c2, body2, name, _ in self.maps:
            if k == kind and b == bty and rt == rty:
                b2 = z3.substitute(body2, (c2, c))
                if b2.eq(body) or z3.simplify(b2).eq(z3.simplify(body)):
                    return name
                for ctx in ([], self.pc):
                    s = z3.Solver()
                    s.set("timeout", 700)
                    for p in ctx:
                        s.add(p)
                    s.add(b2 != body)
                    if s.check() == z3.unsat:
                        return name
        name = f"{kind}{len(self.maps)}"
        self.maps.append((kind, bty, rty, c, body, name, self.lam_facts))
        return name

    def element(self, s: Any, e: Any, i: Any) -> Any:
        """an element of a comprehension is the image of the one it comes from; an element of a filtered list fulfils the condition"""
        name = s.decl().name()[2:] if z3.is_app(s) and s.num_args() == 1 else ""
        if e.sort() == RefSort:
            self.old_element(s, e, i)
        if name.startswith("seq_reverse"):
            b = s.arg(0)
            self.assume(z3.Implies(z3.And(i >= 0, i < z3.Length(s)), e == nth(b, z3.Length(b) - 1 - i)))
            return e
        for t, kc, body, facts in self.eachs:
            if t.eq(s):
                for f in [body] + list(facts):
                    self.assume(z3.Implies(z3.And(i >= 0, i < z3.Length(s)), z3.substitute(f, (kc, i if z3.is_expr(i) else z3.IntVal(i)))))
        for kind, bty, rty, c, body, n, facts in self.maps:
            if n == name and name:
                b = s.arg(0)
                ok = z3.And(i >= 0, i < z3.Length(s))
                if kind == "map":
                    x = self.element(b, nth(b, i), i)
                    self.assume(z3.Implies(ok, e == z3.substitute(body, (c, x))))
                else:
                    x = e
                    self.assume(z3.Implies(ok, z3.And(z3.substitute(body, (c, e)), z3.Contains(b, z3.Unit(e)))))
                for f in facts:
                    self.assume(z3.substitute(f, (c, x)))
        return e

    # ------------------------------------------------------------ iteration
    def iterate(self, v: Any) -> Iter:
        if isinstance(v, Iter):
            return v
        if isinstance(v, LRef):
            if v.items is not None:
                return Iter(items=list(v.items))
            b = self.as_v(v)
            return Iter(n=z3.Length(b.t), elem=lambda i: self.low(self.mk(b.ty.a[0], self.element(b.t, nth(b.t, i), i))), base=b)
        if isinstance(v, tuple):
            return Iter(items=list(v))
        if isinstance(v, str):
            return Iter(items=list(v))
        if isinstance(v, DictVal):
            return Iter(items=list(v.d.keys()))
        if isinstance(v, SetVal):
            return Iter(items=list(v.items))
        if isinstance(v, ClassVal) and is_enum(v):
            return Iter(items=[EnumVal(v.name, m) for m in enum_members(v.name)])
        if isinstance(v, V):
            if v.ty.k == "opt":
                return self.iterate(self.unopt(v, "iteration"))
            if v.ty == STR:
                return Iter(n=z3.Length(v.t), elem=lambda i: V(STR, z3.SubString(v.t, i, 1)), base=v)
            if v.ty.k == "list":
                return Iter(n=z3.Length(v.t), elem=lambda i: self.low(self.mk(v.ty.a[0], self.element(v.t, nth(v.t, i), i))), base=v)
        raise Undecided(f"iteration over {type(v).__name__}")

    def bind(self, target: Any, v: Any, env: Env) -> None:
        if isinstance(target, ast.Name):
            e: Env = env
            nl = env.d.get("__nonlocal__")
            if nl and target.id in nl:
                q = env.parent
                while q is not None and target.id not in q.d:
                    q = q.parent
                if q is None:
                    raise Undecided("nonlocal")
                e = q
            e.d[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(v, tuple):
                items = list(v)
            elif isinstance(v, LRef) and v.items is not None:
                items = v.items
            elif isinstance(v, V) and v.ty.k == "tup":
                items = [self.low(self.mk(t, tup_get(v.ty, v.t, i))) for i, t in enumerate(v.ty.a)]
            elif isinstance(v, LRef):
                t = self.as_v(v)
                if not self.spec_mode and not self.decide(z3.Length(t.t) == len(target.elts)):
                    raise PyRaise("ValueError", "unpack")
                items = [self.low(self.mk(t.ty.a[0], t.t[i])) for i in range(len(target.elts))]
            else:
                raise Undecided("unpack")
            if len(items) != len(target.elts):
                raise PyRaise("ValueError")
            for t2, x in zip(target.elts, items):
                self.bind(t2, x, env)
        elif isinstance(target, ast.Attribute):
            o = self.unopt(self.ev(target.value, env))
            self.set_attr(o, target.attr, v)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value, env)
            if isinstance(o, DictVal):
                k = self.ev(target.slice, env)
                if not is_conc(k):
                    raise Undecided("dict store")
                o.d[k] = v
                return
            if isinstance(o, V) and o.ty.k == "map" and isinstance(target.value, ast.Attribute):
                nv = z3.Store(o.t, self.lift(self.ev(target.slice, env), o.ty.a[0]), opt_some(Opt(o.ty.a[1]), self.lift(self.snap(v), o.ty.a[1])))
                self.set_attr(self.unopt(self.ev(target.value.value, env)), target.value.attr, V(o.ty, nv))
                return
            if not isinstance(o, LRef):
                raise Undecided("subscript store")
            i = norm(self.ev(target.slice, env)) if not isinstance(target.slice, ast.Slice) else None
            if i is None:
                raise Undecided("slice store")
            if o.items is not None and isinstance(i, int):
                if not -len(o.items) <= i < len(o.items):
                    raise PyRaise("IndexError")
                self.mutate_check(o)
                o.items[i] = self.snap(v)
                return
            s = self.as_v(o)
            L = z3.Length(s.t)
            t = self.lift(i, INT)
            idx = z3.If(t < 0, L + t, t)
            if not self.decide(z3.And(idx >= 0, idx < L)):
                raise PyRaise("IndexError")
            new = z3.Concat(z3.SubSeq(s.t, 0, idx), z3.Unit(self.lift(v, s.ty.a[0])), z3.SubSeq(s.t, idx + 1, L - idx - 1))
            self.list_set(o, V(s.ty, new))
        else:
            raise Undecided("assignment target")

    def snap(self, v: Any) -> Any:
        if isinstance(v, LRef):
            v.frozen = True
        return v

    def set_attr(self, o: Any, attr: str, v: Any) -> None:
        if isinstance(o, V) and o.ty.k == "obj":
            kc = find_class(o.ty.n)
            for x in (mro(kc) if kc else []):
                for b in x.node.body:
                    if isinstance(b, ast.FunctionDef) and b.name == attr and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in b.decorator_list):
                        self.call_fn(FuncVal(b, x.mod, f"{x.name}.{attr}", None, x.name), [o, v], {})
                        return
            ft = self.field(o.ty.n, attr)
            if ft is None and find_class(o.ty.n):
                n = self.narrowed(o, attr)
                if n is not None:
                    return self.set_attr(n, attr, v)
            if ft is None:
                raise Undecided(f"store to unknown field {o.ty.n}.{attr}")
            self.heap_set(attr, o.t, ft, self.lift(v, ft))
            if isinstance(v, LRef) and v.owner is None and ft.k == "list":
                v.owner = (attr, o.t, ft)
            return
        raise Undecided(f"attribute store on {type(o).__name__}")

    def mutate_check(self, l: LRef) -> None:
        if l.frozen:
            raise Undecided("mutation of a list that may be aliased")

    def list_set(self, l: LRef, v: V) -> None:
        if l.owner is not None:
            attr, ref, ty = l.owner
            self.heap_set(attr, ref, ty, self.lift(v, ty))
            return
        self.mutate_check(l)
        l.items, l.v, l.et = None, v, v.ty.a[0]

    # ------------------------------------------------------------ calls
    def ev_Call(self, n: Any, env: Env) -> Any:
        if isinstance(n.func, ast.Name):
            nm = n.func.id
            if nm == "old" and self.spec_mode:
                sv = self.heap
                self.heap = dict(self.heap0)
                try:
                    e2 = Env(dict(self.old_env), env) if self.old_env is not None else env
                    r = self.ev(n.args[0], e2)
                    if isinstance(r, LRef) and r.owner is not None:
                        r = LRef(v=self.as_v(r))   # the list as it was, not the field
                    return r
                finally:
                    self.heap = sv
            if nm in ("forall", "exists") and self.spec_mode and env.get(nm) is MISSING:
                lo, hi, lam = n.args
                return self.quantifier(nm, self.ev(lo, env), self.ev(hi, env), self.ev(lam, env))
            if nm == "implies" and self.spec_mode:
                a = self.truth_term(self.ev(n.args[0], env))
                if a is False:
                    return True
                b = self.truth_term(self.ev(n.args[1], env))
                return self.B(self.disj([self.neg(a), b]))
            if nm == "real" and self.spec_mode:
                a0 = n.args[0].value if isinstance(n.args[0], ast.Constant) else self.ev(n.args[0], env)
                return RealRef(a0)
            if nm == "super" and not n.args:
                fv = env_fv(env)
                c = find_class(fv.cls)
                bs = bases_of(c)
                if not bs:
                    raise Undecided("super")
                return SuperVal(bs[0].name, env.get("self"))
            if nm in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and env.get(nm) is MISSING:
                r = self.any_all(nm, n.args[0], env)
                if r is not MISSING:
                    return r
        f = self.ev(n.func, env)
        args: list = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value, env))
                if it.items is None:
                    raise Undecided("star args")
                args += it.items
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Undecided("** args")
            kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    def any_all(self, nm: str, g: Any, env: Env) -> Any:
        gen = g.generators[0]
        if len(g.generators) != 1:
            raise Undecided("nested comprehension")
        it = self.iterate(self.ev(gen.iter, env))
        if it.items is not None:
            ts = []
            for x in it.items:
                e = Env({}, env)
                self.bind(gen.target, x, e)
                c = self.conj([self.zb(self.truth_term(self.ev(q, e))) if self.spec_mode else self.truth(self.ev(q, e)) for q in gen.ifs])
                if c is False:
                    continue
                b = self.truth_term(self.ev(g.elt, e))
                ts.append(self.conj([c, b]) if nm == "any" else self.disj([self.neg(c), b]))
            return self.B(self.disj(ts) if nm == "any" else self.conj(ts))

        def body(i: Any) -> Any:
            e = Env({}, env)
            self.bind(gen.target, it.elem(i), e)
            c = self.conj([self.zb(self.truth_term(self.ev(q, e))) for q in gen.ifs])
            b = self.truth_term(self.ev(g.elt, e))
            return self.conj([c, b]) if nm == "any" else self.disj([self.neg(c), b])

        if not self.spec_mode:
            self.abstracted = True
        return self.quant_z3("exists" if nm == "any" else "forall", z3.IntVal(0), it.n, body)

    def quantifier(self, nm: str, lo: Any, hi: Any, lam: Any) -> Any:
        lo, hi = norm(lo), norm(hi)

        def body(i: Any) -> Any:
            return self.truth_term(self.call(lam, [norm(V(INT, i))], {}))

        if isinstance(lo, int) and isinstance(hi, int):
            ts = [body(z3.IntVal(k)) for k in range(lo, hi)]
            return self.B(self.conj(ts) if nm == "forall" else self.disj(ts))
        return self.quant_z3(nm, self.lift(lo, INT), self.lift(hi, INT), body)

    def quant_z3(self, nm: str, lo: Any, hi: Any, body: Any) -> Any:
        self.nfresh += 1
        i = z3.Int(f"q!{self.nfresh}")
        self.spec_mode += 1
        self.quant += 1
        try:
            b = self.zb(body(i))
        finally:
            self.spec_mode -= 1
            self.quant -= 1
        rng = z3.And(i >= lo, i < hi)
        return V(BOOL, z3.ForAll([i], z3.Implies(rng, b)) if nm == "forall" else z3.Exists([i], z3.And(rng, b)))

    def call(self, f: Any, args: list, kw: dict) -> Any:
        if isinstance(f, SpecFn):
            return self.call_spec(f.name, args)
        if isinstance(f, Bound):
            if isinstance(f.fn, tuple):
                return self.builtin_method(f.slf, f.fn[1], args, kw)
            return self.call(f.fn, [f.slf] + args, kw)
        if isinstance(f, RealRef) and f.target.replace(":", ".") in api.EXTERNALS:
            return self.call_ext(f.target.replace(":", "."), args, kw)
        if isinstance(f, RealRef):
            fv = find_function(f.target)
            c = api.CONTRACTS.get(f.target)
            if c is None:
                raise Undecided("real() without contract")
            return self.call_contract(fv, c, args, kw)
        if isinstance(f, FuncVal):
            return self.call_fn(f, args, kw)
        if isinstance(f, ExtVal):
            return self.call_ext(f.name, args, kw)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kw)
        raise Undecided(f"call of {type(f).__name__}")

    def bind_args(self, f: FuncVal, args: list, kw: dict) -> dict:
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        d: dict = {}
        if len(args) > len(params):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments")
            d[a.vararg.arg] = tuple(args[len(params):])
            args = args[: len(params)]
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        for p, v in zip(params, args):
            d[p] = v
        for k, v in kw.items():
            if k not in params and k not in [x.arg for x in a.kwonlyargs]:
                raise PyRaise("TypeError", "unexpected keyword")
            if k in d:
                raise PyRaise("TypeError", "duplicate")
            d[k] = v
        defs = a.defaults
        for p, dv in zip(params[len(params) - len(defs):], defs):
            if p not in d:
                d[p] = self.ev(dv, f.closure or Env({}, None, f))
        for p, dv in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if p not in d and dv is not None:
                d[p] = self.ev(dv, f.closure or Env({}, None, f))
        for p in params:
            if p not in d:
                raise PyRaise("TypeError", "missing argument " + p)
        return d

    def call_fn(self, f: FuncVal, args: list, kw: dict) -> Any:
        tgt = f"{f.mod.name}:{f.qual}" if f.mod else ""
        c = api.CONTRACTS.get(tgt)
        if c is not None and not c.inline and not c.bounded_only and f.closure is None and (not self.spec_mode or c.pure):
            return self.call_contract(f, c, args, kw)
        d = self.bind_args(f, args, kw)
        if self.depth > MAX_DEPTH:
            raise Undecided("inlining depth")
        if any(isinstance(q, (ast.Yield, ast.YieldFrom)) for q in ast.walk(f.node)):
            raise Undecided(f"generator {f.qual}")
        for dec in f.node.decorator_list:
            nm = dec.id if isinstance(dec, ast.Name) else getattr(dec, "attr", "")
            if isinstance(dec, ast.Call) or nm not in ("property", "staticmethod", "classmethod", "abstractmethod", "override", "cached_property", "setter"):
                if not (isinstance(dec, ast.Call) and getattr(dec.func, "id", "") == "lru_cache") and nm not in ("lru_cache", "cache"):
                    raise Undecided("decorator")
        env = Env(d, f.closure, f)
        self.depth += 1
        try:
            if self.spec_mode:
                return self.run_spec(f.node.body, env)
            try:
                self.block(f.node.body, env)
            except RetEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def call_contract(self, f: FuncVal, c: api.Contract, args: list, kw: dict) -> Any:
        d = self.bind_args(f, args, kw)
        self.used_contracts.add(c.target)
        ptypes = self.param_types(f, c)
        for p, ty in ptypes.items():
            v = d.get(p)
            if isinstance(v, V) and v.ty.k == "opt" and ty.k != "opt":
                d[p] = self.unopt(v, "argument")
        env = Env(d, None, None)
        old = {k: (LRef(v=self.as_v(v, ptypes.get(k) if v.items == [] else None)) if isinstance(v, LRef) else v) for k, v in d.items()}
        sv_old, sv_h0 = self.old_env, self.heap0
        for i, r in enumerate(c.requires):
            if self.spec_mode:
                break
            if c.ghost and any(isinstance(q, ast.Name) and q.id in c.ghost for q in ast.walk(self.parse_spec(r))):
                continue
            g = self.spec_bool(r, env)
            self.oblige(f"{self.target}: precondition of {c.target.split(':')[1]} #{i}", "pre", g)
        for ec, cond in c.raises.items():
            if self.spec_mode:
                break
            g = self.spec_bool(cond, env)
            if g is False:
                continue
            if g is True or self.decide(g):
                raise PyRaise(ec)
        rty = parse_type(c.returns, None) if c.returns else parse_type(f.node.returns, f.mod)
        pre_heap = dict(self.heap)
        if c.effect:
            self.ghost_effects.append((c.effect, d))
        for m in c.modifies:
            if m.startswith("*."):       # that field of any object
                for k in [k for k in set(self.heap) | set(self.htypes) if k.split("$")[0] == m[2:]]:
                    self.nfresh += 1
                    self.heap[k] = z3.Const(f"H_{k}!{self.nfresh}", self.harr(m[2:], self.htypes[k]).sort())
                    self.keep.append(self.heap[k])
                    self.array_epoch[self.heap[k].get_id()] = len(self.epochs)
            elif "." in m:
                on, at = m.split(".")
                o = d[on]
                ft = self.field(o.ty.n, at)
                self.heap_set(at, o.t, ft, self.as_v(self.fresh(ft, "mod"), ft).t)
            else:
                l = d[m]
                v = self.as_v(l, ptypes[m] if not self._known(l) else None)
                self.list_set(l, self.as_v(self.fresh(v.ty, m)))
        pure = not c.modifies and all((c.pure or not (isinstance(v, V) and v.ty.k == "obj")) and isinstance(v, (V, LRef, str, int, bool, type(None), tuple)) for v in d.values())
        if rty == NONE:
            res: Any = None
        elif pure:
            try:
                vs = [self.as_v(d[p], ptypes[p]) if p in ptypes and ptypes[p] != ANY else self.as_v(d[p]) for p in sorted(d)]
                res = self.low(self.mk(rty, UF("fn_" + c.target, [sort_of(v.ty) for v in vs], sort_of(rty))(*[v.t for v in vs])))
            except Undecided:
                res = self.low(self.fresh(rty, "ret"))
        else:
            res = self.low(self.fresh(rty, "ret"))
        if isinstance(res, LRef):
            res.frozen = False
        if self.quant:
            return res
        if not pure and not self.spec_mode:
            self.lives_at(res, self.tick())
        if pure and isinstance(res, (V, LRef)):
            ck = ("contract", c.target, self.as_v(res).t.get_id())
            if ck in self.unfolded:
                return res
            self.unfolded[ck] = (1, self.as_v(res).t)
        if self.c is not None and c.target in self.c.hide:
            return res
        self.heap0, self.old_env = pre_heap, old
        try:
            e2 = Env(dict(d, result=res), None, None)
            guard = []
            if self.spec_mode:       # in a specification, the function is applied outside of its preconditions too
                guard = [self.zb(self.spec_bool(x, env)) for x in c.requires] + [self.zb(self.neg(self.spec_bool(x, env))) for x in c.raises.values()]
            for nm, e in list(c.ensures.items()) + list(c.always.items()):
                if c.ghost and any(isinstance(q, ast.Name) and q.id in c.ghost for q in ast.walk(self.parse_spec(e))):
                    continue      # stated for an arbitrary value: callers do not instantiate it
                g = self.spec_bool(e, e2)
                self.assume(z3.Implies(z3.And(*guard), self.zb(g)) if guard else g)
            if c.each and isinstance(res, LRef) and res.items is None:
                kc, g = self.under_lambda(lambda k: self.B(self.zb(self.spec_bool(c.each, Env(dict(d, result=res, _k=k), None, None)))), INT)
                self.eachs.append((self.as_v(res).t, kc, self.zb(self.truth_term(g)), self.lam_facts))
        finally:
            self.heap0, self.old_env = sv_h0, sv_old
        return res

    def construct(self, c: ClassVal, args: list, kw: dict) -> Any:
        if c.name in EXC_BASES or any(x in ("Exception", "RuntimeError", "ValueError") for x in [b.id for b in c.node.bases if isinstance(b, ast.Name)]):
            return ExcVal(c.name, args[0] if args else None)
        if is_enum(c):
            raise Undecided("enum construction")
        self.nfresh += 1
        r = z3.Const(f"new_{c.name}!{self.nfresh}", RefSort)
        self.declare_new(r)
        self.distinct_refs.add(r.get_id())
        self.assume(UF("class_of", [RefSort], z3.IntSort())(r) == class_id(c.name))
        v = V(ObjT(c.name), r)
        init = self.find_method(c.name, "__init__")
        for x in reversed(mro(c)):
            for s in x.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    dv = self.class_default(s.value, x.mod)
                    if dv is not MISSING:
                        self.set_attr(v, s.target.id, dv)
        if init is not None:
            self.call(Bound(init, v), args, kw)
        else:
            if any("dataclass" in ast.dump(d) for d in c.node.decorator_list):
                fields = [s.target.id for x in reversed(mro(c)) for s in x.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
                for n2, a in list(zip(fields, args)) + list(kw.items()):
                    self.set_attr(v, n2, a)
            elif args or kw:
                raise Undecided(f"constructor {c.name}")
        return v

    def class_default(self, node: Any, mod: Mod) -> Any:
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "field":
            for k in node.keywords:
                if k.arg == "default":
                    return self.eval_in_module(k.value, mod)
                if k.arg == "default_factory":
                    fn = self.eval_in_module(k.value, mod)
                    return self.call(fn, [], {})
            return MISSING
        return self.eval_in_module(node, mod)

    # ------------------------------------------------------------ spec functions
    def spec_bool(self, text: str, env: Env) -> Any:
        node = self.parse_spec(text)
        self.spec_mode += 1
        try:
            return self.truth_term(self.ev(node, env))
        finally:
            self.spec_mode -= 1

    def spec_val(self, text: str, env: Env) -> Any:
        self.spec_mode += 1
        try:
            return self.ev(self.parse_spec(text), env)
        finally:
            self.spec_mode -= 1

    _pcache: dict = {}

    def parse_spec(self, text: str) -> Any:
        if text not in self._pcache:
            self._pcache[text] = ast.parse(text.strip(), mode="eval").body
        return self._pcache[text]

    def run_spec(self, stmts: list, env: Env) -> Any:
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Return):
                return self.ev(s.value, env) if s.value is not None else None
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, env)
                for t in s.targets:
                    self.bind(t, v, env)
                continue
            if isinstance(s, ast.AnnAssign) and s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
                continue
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                env.d[s.target.id] = self.binop(s.op, env.get(s.target.id), self.ev(s.value, env))
                continue
            if isinstance(s, ast.Assert):
                continue
            if isinstance(s, ast.FunctionDef):
                env.d[s.name] = FuncVal(s, env_mod(env), s.name, env)
                continue
            if isinstance(s, ast.If):
                c = self.truth_term(self.ev(s.test, env))
                rest = stmts[i + 1:]
                if isinstance(c, bool):
                    return self.run_spec((s.body if c else s.orelse) + rest, env)
                e1, e2 = Env(dict(env.d), env.parent, env.fv), Env(dict(env.d), env.parent, env.fv)
                a = self.run_spec(s.body + rest, e1)
                b = self.run_spec(s.orelse + rest, e2)
                return self.merge(c, a, b)
            raise Undecided(f"statement {type(s).__name__} in merged evaluation")
        return None

    def call_spec(self, name: str, args: list) -> Any:
        fn = self.cm.fns[name]
        ptys = [parse_type(a.annotation) for a in fn.args.args]
        if len(args) != len(ptys):
            raise Undecided(f"spec {name}: arity")
        rty = parse_type(fn.returns)
        if all(is_conc(a) or (isinstance(a, LRef) and a.items is not None and all(is_conc(x) for x in a.items)) for a in args):
            # fully concrete: run it
            try:
                pa = [[x for x in a.items] if isinstance(a, LRef) else a for a in args]
                if not any(isinstance(x, EnumVal) for x in pa):
                    return self.from_py(api.SPECS[name](*pa))
            except Exception:
                pass
        self.spec_mode += 1
        try:
            if not self.cm.is_rec(name):
                d = {}
                for p, t, a in zip(fn.args.args, ptys, args):
                    d[p.arg] = self.low(self.as_v(a, t)) if t != ANY and not is_conc(a) else a
                return self.run_spec(fn.body, Env(d, None, None))
            vs = [self.as_v(a, t) for a, t in zip(args, ptys)]
            f = UF("spec_" + name, [sort_of(t) for t in ptys], sort_of(rty))
            app = f(*[v.t for v in vs])
            self.unfold(name, fn, ptys, rty, vs, app)
            return self.low(self.mk(rty, app))
        finally:
            self.spec_mode -= 1

    def from_py(self, v: Any) -> Any:
        if isinstance(v, list):
            return LRef(items=[self.from_py(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.from_py(x) for x in v)
        return v

    def unfold(self, name: str, fn: Any, ptys: list, rty: T, vs: list, app: Any) -> None:
        if self.quant:
            return
        fuel = getattr(self, "cur_fuel", None)
        if fuel is None:
            fuel = self.fuel
        key = app.get_id()
        if self.unfolded.get(key, (-1,))[0] >= fuel or fuel <= 0:
            return
        first = key not in self.unfolded
        self.unfolded[key] = (fuel, app)
        sv = getattr(self, "cur_fuel", None)
        self.cur_fuel = fuel - 1
        self.in_rec += 1
        try:
            d = {p.arg: self.low(v) if v.ty.k == "list" else norm(v) for p, v in zip(fn.args.args, vs)}
            body = self.run_spec(fn.body, Env(d, None, None))
            self.assume(app == self.lift(body, rty))
        finally:
            self.in_rec -= 1
            self.cur_fuel = sv


class RealRef:
    def __init__(self, target: str):
        self.target = target


def env_mod(env: Optional[Env]) -> Any:
    fv = env_fv(env)
    return fv.mod if fv else None


def env_fv(env: Optional[Env]) -> Any:
    while env is not None:
        if env.fv is not None:
            return env.fv
        env = env.parent
    return None
