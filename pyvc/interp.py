from __future__ import annotations
import copy as _copy
from .engine import *
from .engine import _dt
import re as _re

FEAS_TIMEOUT = int(os.environ.get("PYVC_FEAS", "120"))
MAX_PATHS = 4000
MAX_DEPTH = 14
PURE_STR_CONC = {"startswith", "endswith", "strip", "lstrip", "rstrip", "replace", "split", "splitlines", "join", "lower", "upper", "find", "rfind", "index", "count",
                 "isdigit", "isspace", "isidentifier", "isalnum", "isalpha", "isupper", "islower", "title", "capitalize", "removeprefix", "removesuffix", "partition", "rpartition", "zfill", "ljust", "rjust", "isnumeric", "isdecimal", "rindex", "rsplit"}
SPEC_ENV_NAMES = {"implies", "forall", "exists", "old", "only_chars", "real"}


class Env:
    def __init__(self, d: dict, parent: Optional["Env"] = None, fv: Optional[FuncVal] = None):
        self.d, self.parent, self.fv = d, parent, fv

    def get(self, n: str) -> Any:
        e: Optional[Env] = self
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.parent
        return MISSING


class Verifier:
    """verifies one function (or lemma); path exploration by re-execution along decision prefixes"""

    def __init__(self, target: str, contract: Optional[api.Contract], contracts_mod: Any):
        self.target = target
        self.c = contract
        self.cm = contracts_mod            # SpecModule: AST of all spec functions
        self.report = FuncReport(target)
        self.timeout = contract.timeout if contract else 15000
        self.assumed: set[str] = set()
        self.loop_heap: dict = {}
        self.deadline = time.time() + float(os.environ.get("PYVC_FUNC_BUDGET", "240"))

    # ------------------------------------------------------------ path machinery
    def reset(self, prefix: list[bool]) -> None:
        self.prefix = prefix
        self.taken: list[bool] = []
        self.pc: list[Any] = []
        self.heap: dict[str, Any] = {}
        self.heap0: dict[str, Any] = {}
        self.nfresh = 0
        self.newrefs: list[Any] = []
        self.distinct_refs: set = set()
        self.clock: Any = z3.IntVal(0)
        self.epochs: list = [z3.IntVal(0)]
        self.array_epoch: dict = {}
        self.seq_epoch: dict = {}
        self.keep: list = []
        self.cur_env: Any = None
        self.known_seqs: list[Any] = []
        self.read_refs: dict = {}
        self.htypes: dict = {}
        self.path_globals: dict = {}
        self.known_refs: list[Any] = []
        self.unfolded: dict[Any, int] = {}
        self.spec_mode = 0
        self.abstracted = False
        self.in_rec = 0
        self.quant = 0
        self.depth = 0
        self.maps: list = []
        self.eachs: list = []
        self.ghost_effects: list = []
        self.in_witness: list = []
        self.loop_seq: dict = {}
        self.loopctx: list = []

    def assume(self, f: Any) -> None:
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        if self.quant:
            return
        self.pc.append(f)

    def fresh(self, ty: T, hint: str = "v") -> Any:
        self.nfresh += 1
        return self.mk(ty, z3.Const(f"{hint}!{self.nfresh}", sort_of(ty)))

    def mk(self, ty: T, t: Any) -> Any:
        if ty == NONE:
            return None
        v = V(ty, t)
        if ty.k == "enum" and not self.quant:
            n = len(enum_members(ty.n))
            self.assume(z3.And(t >= 0, t < n))
        return norm(v)

    def feasible(self, f: Any) -> bool:
        s = z3.Solver()
        s.set("timeout", FEAS_TIMEOUT)
        for p in self.pc:
            s.add(p)
        s.add(f)
        try:
            return s.check() != z3.unsat
        except z3.Z3Exception:
            return True

    def decide(self, cond: Any) -> bool:
        """fork on a z3 bool"""
        k = len(self.taken)
        if time.time() > self.deadline:
            raise Undecided("time budget exhausted")
        if k < len(self.prefix):
            b = self.prefix[k]
            self.taken.append(b)
            self.assume(cond if b else z3.Not(cond))
            return b
        ft = self.feasible(cond)
        ff = not ft or self.feasible(z3.Not(cond))   # a path whose condition is unsatisfiable discharges whatever follows
        if ft and ff:
            self.work.append(self.taken + [False])
            b = True
        elif ft:
            b = True
        elif ff:
            b = False
        else:
            raise PathEnd()
        self.taken.append(b)
        self.assume(cond if b else z3.Not(cond))
        return b

    def choice(self) -> bool:
        k = len(self.taken)
        if k < len(self.prefix):
            b = self.prefix[k]
        else:
            self.work.append(self.taken + [False])
            b = True
        self.taken.append(b)
        return b

    def recording(self) -> bool:
        return len(self.taken) >= len(self.prefix)

    def oblige(self, name: str, kind: str, goal: Any, info: Any = None) -> None:
        if not self.recording():
            # recorded by the run that generated this prefix
            if not isinstance(goal, bool):
                self.assume(goal)
            return
        ob = Obligation(name, kind)
        t0 = time.time()
        if isinstance(goal, bool):
            if goal:
                ob.status, ob.backend = "discharged", "trivial"
            else:
                # path must be infeasible
                ob.status, ob.backend, ob.model = self.check_unsat(self.pc)
        else:
            ob.status, ob.backend, ob.model = self.check_unsat(self.pc + [z3.Not(goal)])
        ob.secs = time.time() - t0
        if ob.status == "refuted" and os.environ.get("PYVC_DUMP"):
            print("====", name)
            for x in self.pc:
                print("   pc:", str(x)[:1000])
            print("   goal:", goal, "\n   model:", ob.model)
        if ob.status == "refuted":
            ob.abstract = self.abstracted
            ob.detail = self.model_inputs(ob.model)
            self.report.models.append((name, self.model_values(ob.model)))
        ob.model = None
        self.report.obligations.append(ob)
        if not isinstance(goal, bool):
            self.assume(goal)

    def check_unsat(self, fs: list) -> tuple:
        """portfolio: z3 (short), cvc5, z3 (long)"""
        s = z3.Solver()
        s.set("timeout", min(1500, self.timeout))
        s.set("random_seed", 1)
        for f in fs:
            s.add(f)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            return "discharged", "z3", None
        if r == z3.sat:
            return "refuted", "z3", s.model()
        try:
            txt = "(set-logic ALL)\n(set-option :strings-exp true)\n" + s.to_smt2().replace("seq.nth_u", "seq.nth").replace("seq.nth_i", "seq.nth")
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            try:
                p = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % self.timeout, f.name], capture_output=True, text=True, timeout=self.timeout / 1000 + 5)
                if p.stdout.strip().startswith("unsat"):
                    return "discharged", "cvc5", None
                if os.environ.get("PYVC_DEBUG"):
                    print("cvc5:", p.stdout[:300])
            finally:
                os.unlink(f.name)
        except (subprocess.SubprocessError, OSError):
            pass
        s2 = z3.Solver()
        s2.set("timeout", self.timeout)
        s2.set("random_seed", 7)
        for f in reversed(fs):
            s2.add(f)
        try:
            r = s2.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            return "discharged", "z3", None
        if r == z3.sat:
            return "refuted", "z3", s2.model()
        return "unknown", "", None

    def model_values(self, m: Any) -> dict:
        out = {}
        for n, v in self.inputs.items():
            try:
                out[n] = self.concretize(m, v)
            except Exception as e:  # noqa
                out[n] = f"<{type(e).__name__}>"
        return out

    def model_inputs(self, m: Any) -> str:
        return "; ".join(f"{k}={v!r}" for k, v in self.model_values(m).items())

    def concretize(self, m: Any, v: Any) -> Any:
        if isinstance(v, LRef):
            v = self.as_v(v)
        if isinstance(v, V):
            return self.conc_term(m, v.ty, m.eval(v.t, model_completion=True))
        if isinstance(v, EnumVal):
            return repr(v)
        return v

    def conc_term(self, m: Any, ty: T, t: Any) -> Any:
        t = z3.simplify(t)
        if ty == INT:
            return t.as_long()
        if ty == BOOL:
            return z3.is_true(t)
        if ty == STR:
            return pystr(t)
        if ty.k == "enum":
            return f"{ty.n}.{enum_members(ty.n)[t.as_long()]}"
        if ty.k == "opt":
            if z3.is_true(z3.simplify(opt_is_none(ty, t))):
                return None
            return self.conc_term(m, ty.a[0], opt_val(ty, t))
        if ty.k == "tup":
            return tuple(self.conc_term(m, x, tup_get(ty, t, i)) for i, x in enumerate(ty.a))
        if ty.k == "list":
            n = z3.simplify(z3.Length(t)).as_long()
            return [self.conc_term(m, ty.a[0], m.eval(t[i], model_completion=True)) for i in range(n)]
        return f"<{ty}>"

    # ------------------------------------------------------------ value helpers
    def as_v(self, v: Any, ty: Optional[T] = None) -> V:
        """lift any first-order value to a symbolic value (of type ty when given)"""
        if ty is None:
            ty = self.ty_of(v)
        return V(ty, self.lift(v, ty))

    def ty_of(self, v: Any) -> T:
        if isinstance(v, V):
            return v.ty
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, str):
            return STR
        if v is None:
            return NONE
        if isinstance(v, EnumVal):
            return EnumT(v.cls)
        if isinstance(v, tuple):
            return TupT(*[self.ty_of(x) for x in v])
        if isinstance(v, LRef):
            if v.owner is not None:
                return v.owner[2]
            if v.v is not None:
                return v.v.ty
            if v.items:
                t = self.ty_of(v.items[0])
                for x in v.items[1:]:
                    t = self.unify(t, self.ty_of(x))
                return ListT(t)
            return ListT(v.et or STR)
        raise Undecided(f"no first-order type for {type(v).__name__}")

    def unify(self, a: T, b: T) -> T:
        if a == b:
            return a
        if a == NONE:
            return Opt(b)
        if b == NONE:
            return Opt(a)
        if a.k == "opt" and b.k != "opt":
            return Opt(self.unify(a.a[0], b))
        if b.k == "opt" and a.k != "opt":
            return Opt(self.unify(a, b.a[0]))
        if a.k == "opt" and b.k == "opt":
            return Opt(self.unify(a.a[0], b.a[0]))
        if a.k == b.k == "obj":
            if is_sub(a.n, b.n):
                return b
            if is_sub(b.n, a.n):
                return a
        if a.k == b.k and len(a.a) == len(b.a) and a.a:
            return T(a.k, tuple(self.unify(x, y) for x, y in zip(a.a, b.a)))
        if {a.k, b.k} == {"int", "bool"}:
            return INT
        raise Undecided(f"cannot unify {a} and {b}")

    def lift(self, v: Any, ty: T) -> Any:
        if isinstance(v, V):
            if v.ty == ty or (v.ty.k == ty.k == "obj"):
                return v.t
            if ty.k == "opt" and v.ty.k != "opt":
                return opt_some(ty, self.lift(v, ty.a[0]))
            if ty.k == "opt" and v.ty.k == "opt":
                return z3.If(opt_is_none(v.ty, v.t), opt_none(ty), opt_some(ty, self.lift(V(v.ty.a[0], opt_val(v.ty, v.t)), ty.a[0])))
            if v.ty.k == "opt" and ty == v.ty.a[0]:
                return opt_val(v.ty, v.t)
            if ty == INT and v.ty == BOOL:
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if v.ty.k == "list" and ty.k == "list" and v.ty.a[0].k == ty.a[0].k == "obj":
                return v.t
            if v.ty.k == ty.k == "tup" and len(v.ty.a) == len(ty.a):
                return tup_mk(ty, [self.lift(V(a, tup_get(v.ty, v.t, i)), b) for i, (a, b) in enumerate(zip(v.ty.a, ty.a))])
            if ty == ANY:
                return UF("box_" + str(v.ty), [sort_of(v.ty)], AnySort)(v.t)
            raise Undecided(f"type {v.ty} where {ty} expected")
        if ty.k == "opt":
            if v is None:
                return opt_none(ty)
            return opt_some(ty, self.lift(v, ty.a[0]))
        if isinstance(v, LRef):
            if v.owner is not None:
                return self.lift(V(v.owner[2], self.heap_get(v.owner)), ty)
            if v.v is not None:
                return self.lift(v.v, ty)
            if ty.k != "list":
                raise Undecided(f"list where {ty} expected")
            if not v.items:
                return z3.Empty(sort_of(ty))
            us = [z3.Unit(self.lift(x, ty.a[0])) for x in v.items]
            return us[0] if len(us) == 1 else z3.Concat(*us)
        if isinstance(v, tuple) and ty.k == "tup" and len(v) == len(ty.a):
            return tup_mk(ty, [self.lift(x, t) for x, t in zip(v, ty.a)])
        if isinstance(v, bool) and ty == BOOL:
            return z3.BoolVal(v)
        if isinstance(v, (int, bool)) and ty == INT:
            return z3.IntVal(int(v))
        if isinstance(v, str) and ty == STR:
            return zstr(v)
        if isinstance(v, SetVal) and ty.k == "set":
            r = z3.K(sort_of(ty.a[0]), z3.BoolVal(False))
            for x in v.items:
                r = z3.Store(r, self.lift(x, ty.a[0]), z3.BoolVal(True))
            return r
        if isinstance(v, DictVal) and ty.k == "map":
            oty = Opt(ty.a[1])
            r = z3.K(sort_of(ty.a[0]), opt_none(oty))
            for k, x in v.d.items():
                r = z3.Store(r, self.lift(k, ty.a[0]), opt_some(oty, self.lift(x, ty.a[1])))
            return r
        if isinstance(v, EnumVal) and ty.k == "enum":
            return z3.IntVal(enum_members(v.cls).index(v.name))
        if ty in (ANY, NONE):
            nm = "any_" + (repr(v) if is_conc(v) else str(id(v)))
            return z3.Const(nm, AnySort)
        raise Undecided(f"cannot lift {v!r} to {ty}")

    def low(self, v: Any) -> Any:
        """make a list-typed term usable as list value"""
        if isinstance(v, V) and v.ty.k == "list":
            r = LRef(v=v)
            r.frozen = True
            return r
        return norm(v)

    def same_type_terms(self, a: Any, b: Any) -> tuple:
        ty = self.unify(self.ty_of(a) if not (isinstance(a, LRef) and not self._known(a)) else self.ty_of(b),
                        self.ty_of(b) if not (isinstance(b, LRef) and not self._known(b)) else self.ty_of(a))
        return self.lift(a, ty), self.lift(b, ty), ty

    def _known(self, l: LRef) -> bool:
        return l.owner is not None or l.v is not None or bool(l.items) or l.et is not None

    def eq(self, a: Any, b: Any) -> Any:
        """python == as concrete bool or z3 bool"""
        if isinstance(a, Iter) or isinstance(b, Iter):
            raise Undecided("== on iterator")
        if isinstance(a, (ClassVal, FuncVal, ModVal, ExtVal, Bound, DictVal, SetVal)) or isinstance(b, (ClassVal, FuncVal, ModVal, ExtVal, Bound, DictVal, SetVal)):
            if isinstance(a, ClassVal) and isinstance(b, ClassVal):
                return a.name == b.name
            raise Undecided("== on non first-order values")
        if is_conc(a) and is_conc(b):
            return a == b
        if isinstance(a, LRef) and isinstance(b, LRef) and a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        ta, tb = self.ty_of(a), self.ty_of(b)
        if a is None or b is None:
            o = b if a is None else a
            to = self.ty_of(o)
            return opt_is_none(to, o.t) if to.k == "opt" else False
        ka, kb = ta.k if ta.k != "opt" else ta.a[0].k, tb.k if tb.k != "opt" else tb.a[0].k
        if ka == "obj" or kb == "obj":
            if not self.spec_mode:
                raise Undecided("== on objects")
        if ka != kb and {ka, kb} != {"int", "bool"}:
            return False
        x, y, ty = self.same_type_terms(a, b)
        return self.nb(x == y)

    def nb(self, t: Any) -> Any:
        if isinstance(t, bool):
            return t
        s = z3.simplify(t) if _small(t) else t
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return t

    def conj(self, xs: list) -> Any:
        ys = [x for x in xs if x is not True]
        if any(y is False for y in ys):
            return False
        if not ys:
            return True
        return ys[0] if len(ys) == 1 else z3.And(*ys)

    def disj(self, xs: list) -> Any:
        ys = [x for x in xs if x is not False]
        if any(y is True for y in ys):
            return True
        if not ys:
            return False
        return ys[0] if len(ys) == 1 else z3.Or(*ys)

    def neg(self, x: Any) -> Any:
        return (not x) if isinstance(x, bool) else z3.Not(x)

    def truth_term(self, v: Any) -> Any:
        """truthiness as concrete bool or z3 bool"""
        if isinstance(v, V):
            k = v.ty.k
            if k == "bool":
                return self.nb(v.t)
            if k == "int":
                return self.nb(v.t != 0)
            if k == "str" or k == "list":
                return self.nb(z3.Length(v.t) > 0)
            if k == "opt":
                inner = self.truth_term(V(v.ty.a[0], opt_val(v.ty, v.t)))
                return self.conj([z3.Not(opt_is_none(v.ty, v.t)), inner])
            if k == "obj" or k == "enum" or k == "tup":
                return True
            raise Undecided(f"truth of {v.ty}")
        if isinstance(v, LRef):
            if v.items is not None:
                return len(v.items) > 0
            return self.nb(z3.Length(self.as_v(v).t) > 0)
        if isinstance(v, DictVal):
            return bool(v.d)
        if isinstance(v, SetVal):
            return bool(v.items)
        if isinstance(v, (FuncVal, ClassVal, ModVal, ExtVal, Bound, EnumVal, SpecFn)):
            return True
        return bool(v)

    def truth(self, v: Any) -> bool:
        t = self.truth_term(v)
        if isinstance(t, bool):
            return t
        return self.decide(t)

    def B(self, x: Any) -> Any:
        return x if isinstance(x, bool) else V(BOOL, x)

    def zb(self, x: Any) -> Any:
        return z3.BoolVal(x) if isinstance(x, bool) else x

    def unopt(self, v: Any, what: str = "attribute") -> Any:
        """force an optional value (AttributeError/TypeError on None)"""
        if isinstance(v, V) and v.ty.k == "opt":
            if self.spec_mode:
                return self.low(V(v.ty.a[0], opt_val(v.ty, v.t)))
            if self.decide(opt_is_none(v.ty, v.t)):
                raise PyRaise("AttributeError" if what == "attribute" else "TypeError", what + " of None")
            return self.low(self.mk(v.ty.a[0], opt_val(v.ty, v.t)))
        if v is None:
            if self.spec_mode:
                raise Undecided("None in spec")
            raise PyRaise("AttributeError" if what == "attribute" else "TypeError", what + " of None")
        return v

    # ------------------------------------------------------------ heap
    def field(self, cls: str, attr: str) -> Optional[T]:
        c = find_class(cls)
        for x in (mro(c) if c else []):
            if attr in api.SCHEMAS.get(x.name, {}):
                return parse_type(api.SCHEMAS[x.name][attr])
        if attr in api.SCHEMAS.get(cls, {}):
            return parse_type(api.SCHEMAS[cls][attr])
        for x in (mro(c) if c else []):
            for s in x.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == attr:
                    return parse_type(s.annotation, x.mod)
            for s in x.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == "__init__":
                    for q in ast.walk(s):
                        if isinstance(q, ast.AnnAssign) and isinstance(q.target, ast.Attribute) and q.target.attr == attr:
                            return parse_type(q.annotation, x.mod)
                    for q in ast.walk(s):
                        if isinstance(q, ast.Assign) and isinstance(q.targets[0], ast.Attribute) and q.targets[0].attr == attr and isinstance(q.targets[0].value, ast.Name) and q.targets[0].value.id == "self":
                            if isinstance(q.value, ast.Constant) and isinstance(q.value.value, (bool, int, str)):
                                return self.ty_of(q.value.value)
                            if isinstance(q.value, ast.Name):
                                for a in s.args.args:
                                    if a.arg == q.value.id and a.annotation is not None:
                                        return parse_type(a.annotation, x.mod)
        return None

    def hkey(self, attr: str, ty: T) -> str:
        t = str(ty)      # one array per field, whatever the class under which it is declared
        return f"{attr}$" + (t if "opt[" in t else _re.sub(r"obj:\w+", "obj", t))

    def harr(self, attr: str, ty: T) -> Any:
        k = self.hkey(attr, ty)
        self.htypes[k] = ty
        if k not in self.heap:
            a = z3.Const("H_" + k, z3.ArraySort(RefSort, sort_of(ty)))
            self.heap[k] = a
            self.heap0[k] = a
            for r in self.newrefs:
                self.not_reachable(r, k, ty)
        return self.heap[k]

    def not_reachable(self, r: Any, k: str, ty: T, a: Any = None) -> None:
        """a new object is none of those stored in the fields of the parameters before it was created"""
        if a is None:
            a = self.heap0.get(k)
        if a is None:
            return
        for o in self.known_refs:
            if ty.k == "obj":
                self.assume(z3.Select(a, o) != r)
            elif ty.k == "list" and ty.a[0].k == "obj":
                i = z3.Int("i!nr")
                self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z3.Length(z3.Select(a, o))), z3.Select(a, o)[i] != r)))

    def declare_new(self, r: Any) -> None:
        self.clock = z3.simplify(self.clock + 1)
        self.assume(self.born(r) == self.clock)
        for o in self.newrefs + self.known_refs + list(self.read_refs.values()):
            self.assume(r != o)
        for k in list(self.heap0):
            t = self.htypes.get(k)
            if t is not None:
                self.not_reachable(r, k, t)
                if k in self.heap and not z3.eq(self.heap[k], self.heap0[k]) and (t.k == "obj" or (t.k == "list" and t.a[0].k == "obj")):
                    self.not_reachable(r, k, t, self.heap[k])
        for t in self.known_seqs:         # nor one of those that a loop iterates on
            i = z3.Int("i!nr")
            self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z3.Length(t)), t[i] != r)))
        q = self.cur_env
        while q is not None:              # nor one of those that the variables hold
            for v in q.d.values():
                if isinstance(v, V) and v.ty.k == "opt" and v.ty.a[0].k == "obj":
                    self.assume(z3.Or(opt_is_none(v.ty, v.t), opt_val(v.ty, v.t) != r))
                elif isinstance(v, V) and v.ty.k == "obj":
                    self.assume(v.t != r)
                elif isinstance(v, LRef) and self._known(v) and self.ty_of(v).a[0].k == "obj":
                    t = self.as_v(v).t
                    i = z3.Int("i!nr")
                    self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z3.Length(t)), t[i] != r)))
            q = q.parent
        self.newrefs.append(r)

    def heap_get(self, owner: tuple) -> Any:
        attr, ref, ty = owner
        return self.sel(self.harr(attr, ty), ref)

    # Every object has a time of birth. The objects that exist when the function is called are born at 0 or before; at a loop
    # head or after a call the clock is an unknown later time (an epoch). What an object born before an epoch refers to at that time was born before it.
    def born(self, r: Any) -> Any:
        return UF("born", [RefSort], z3.IntSort())(r)

    def tick(self) -> Any:
        """an unknown later time"""
        self.nfresh += 1
        n = z3.Int(f"clock!{self.nfresh}")
        self.assume(n >= self.clock)
        self.clock = n
        self.epochs.append(n)
        return n

    def initial(self, a: Any) -> Any:
        """the array under what was stored since the last epoch at which it was unknown"""
        while z3.is_store(a):
            a = a.arg(0)
        return a if z3.is_const(a) else None

    def epochs_of(self, b: Any) -> list:
        return self.epochs[self.array_epoch.get(b.get_id(), 0):]

    def old_field(self, a: Any, r: Any, ty: T) -> None:
        b = self.initial(a)
        if b is None or self.quant:
            return
        x = z3.Select(b, r)
        for n in self.epochs_of(b):
            if ty.k == "obj":
                self.assume(z3.Implies(self.born(r) <= n, self.born(x) <= n))
            elif ty.k == "opt" and ty.a[0].k == "obj":
                self.assume(z3.Implies(z3.And(self.born(r) <= n, z3.Not(opt_is_none(ty, x))), self.born(opt_val(ty, x)) <= n))

    def old_element(self, s: Any, e: Any, i: Any) -> None:
        if self.quant:
            return
        if z3.is_select(s):
            b = self.initial(s.arg(0))
            if b is not None:
                q = z3.Select(b, s.arg(1))
                for n in self.epochs_of(b):
                    self.assume(z3.Implies(z3.And(self.born(s.arg(1)) <= n, i >= 0, i < z3.Length(q)), self.born(q[i]) <= n))
        elif s.get_id() in self.seq_epoch:
            self.assume(z3.Implies(z3.And(i >= 0, i < z3.Length(s)), self.born(e) <= self.seq_epoch[s.get_id()]))

    def sel(self, a: Any, r: Any) -> Any:
        """the field of an object: what was stored for it, skipping what was stored for other new objects"""
        while z3.is_store(a):
            if a.arg(1).eq(r):
                return a.arg(2)
            if a.arg(1).get_id() in self.distinct_refs and r.get_id() in self.distinct_refs:
                a = a.arg(0)
                continue
            break
        return z3.Select(a, r)

    def heap_set(self, attr: str, ref: Any, ty: T, term: Any) -> None:
        self.harr(attr, ty)
        self.heap[self.hkey(attr, ty)] = z3.Store(self.harr(attr, ty), ref, term)

    def get_attr(self, o: Any, attr: str) -> Any:
        if isinstance(o, V) and o.ty.k == "opt":
            o = self.unopt(o)
        if isinstance(o, ModVal):
            m = load_mod(o.name)
            if m is None:
                if o.name == "keyword" and attr == "kwlist":
                    return LRef(items=list(keyword.kwlist))
                return ExtVal(o.name + "." + attr)
            r = self.module_name(m, attr)
            if r is MISSING:
                sub = load_mod(o.name + "." + attr)
                if sub:
                    return ModVal(o.name + "." + attr)
                raise Undecided(f"{o.name}.{attr}")
            return r
        if isinstance(o, ExtVal):
            if o.name == "keyword" and attr == "kwlist":
                return LRef(items=list(keyword.kwlist))
            return ExtVal(o.name + "." + attr)
        if isinstance(o, ClassVal):
            if is_enum(o):
                if attr in enum_members(o.name):
                    return EnumVal(o.name, attr)
            for x in mro(o):
                for s in x.node.body:
                    if isinstance(s, ast.FunctionDef) and s.name == attr:
                        fv = FuncVal(s, x.mod, f"{x.name}.{attr}", None, x.name)
                        if any(isinstance(d, ast.Name) and d.id == "classmethod" for d in s.decorator_list):
                            return Bound(fv, o)
                        return fv
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in s.targets):
                        return self.eval_in_module(s.value, x.mod)
                    if isinstance(s, ast.ClassDef) and s.name == attr:
                        return class_val(s, x.mod)
            raise Undecided(f"class attribute {o.name}.{attr}")
        if isinstance(o, (EnumVal,)) or (isinstance(o, V) and o.ty.k == "enum"):
            cn = o.cls if isinstance(o, EnumVal) else o.ty.n
            if attr == "name" and isinstance(o, EnumVal):
                return o.name
            if attr == "value" and isinstance(o, EnumVal):
                c = find_class(cn)
                for s in c.node.body:  # type: ignore
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == o.name for t in s.targets):
                        return self.eval_in_module(s.value, c.mod)  # type: ignore
            return self.method_of(cn, attr, o)
        if isinstance(o, V) and o.ty.k == "obj":
            ft = self.field(o.ty.n, attr)
            if ft is not None:
                m = self.find_method(o.ty.n, attr)
                if m is None or not _is_property(m.node):
                    if self.in_rec and not self.harr(attr, ft).eq(z3.Const("H_" + self.hkey(attr, ft), self.harr(attr, ft).sort())):
                        raise Undecided(f"a recursive specification reads the field {attr}, which is modified")
                    if ft.k == "list":
                        return LRef(owner=(attr, o.t, ft))
                    if ft.k in ("set", "map"):
                        return VO(ft, self.sel(self.harr(attr, ft), o.t), (attr, o.t, ft))
                    v = self.mk(ft, self.sel(self.harr(attr, ft), o.t))
                    self.old_field(self.harr(attr, ft), o.t, ft)
                    if ft.k == "obj" and not self.quant and isinstance(v, V):
                        self.read_refs[v.t.get_id()] = v.t
                    return v
            elif self.find_method(o.ty.n, attr) is None and find_class(o.ty.n):
                n = self.narrowed(o, attr)
                if n is not None:
                    return self.get_attr(n, attr)
            return self.method_of(o.ty.n, attr, o)
        if isinstance(o, (str, V, LRef, DictVal, SetVal, tuple)):
            return Bound(("builtin", attr), o)
        if isinstance(o, ExcVal):
            return o.msg
        if isinstance(o, SuperVal):
            return self.method_of(o.cls, attr, o.obj)
        raise Undecided(f"attribute {attr} of {type(o).__name__}")

    def narrowed(self, o: Any, attr: str) -> Any:
        """an object of a subclass that has the attribute, when the subclasses that have it inherit it from one class"""
        subs = [s for s in subclasses(o.ty.n) if self.field(s, attr) is not None or self.find_method(s, attr) is not None]
        tops = [s for s in subs if not any(t != s and is_sub(s, t) for t in subs)]
        if len(tops) != 1:
            return None
        if not self.spec_mode:
            tag = UF("class_of", [RefSort], z3.IntSort())(o.t)
            if not self.decide(z3.Or(*[tag == class_id(s) for s in subs])):
                raise PyRaise("AttributeError")
        return V(ObjT(tops[0]), o.t)

    def find_method(self, cls: str, attr: str) -> Optional[FuncVal]:
        c = find_class(cls)
        for x in (mro(c) if c else []):
            for s in x.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == attr:
                    return FuncVal(s, x.mod, f"{x.name}.{attr}", None, x.name)
        return None

    def method_of(self, cls: str, attr: str, o: Any) -> Any:
        m = self.find_method(cls, attr)
        if m is None:
            c = find_class(cls)
            for x in (mro(c) if c else []):
                for s in x.node.body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in s.targets):
                        return self.eval_in_module(s.value, x.mod)
            if cls == "ReMatch" and attr in ("group", "start", "end"):
                return Bound(("builtin", "re_" + attr), o)
            raise Undecided(f"no attribute {cls}.{attr} in schema")
        overr = [s for s in subclasses(cls) if s != cls and find_class(s) and any(isinstance(q, ast.FunctionDef) and q.name == attr for q in find_class(s).node.body)]  # type: ignore
        if overr:
            self.assumed.add(f"dynamic dispatch: {cls}.{attr} taken at its declared class although {', '.join(sorted(overr))} override it")
        if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.node.decorator_list):
            return m
        b = Bound(m, o)
        if _is_property(m.node):
            return self.call(b, [], {})
        return b

    # ------------------------------------------------------------ names
    def module_name(self, mod: Mod, name: str) -> Any:
        if name in mod.cache:
            return mod.cache[name]
        r = resolve(mod, name)
        if isinstance(r, tuple) and r[0] == "assign":
            _, m2, node, nm = r
            if nm in m2.cache:
                return m2.cache[nm]
            pk = (m2.name, nm)
            if pk in self.path_globals:
                return self.path_globals[pk]
            n0 = len(self.newrefs)
            v = self.eval_in_module(node, m2)
            if len(self.newrefs) > n0:
                self.path_globals[pk] = v     # its objects live in the heap of this path
            else:
                m2.cache[nm] = v
            return v
        return r

    def eval_in_module(self, node: Any, mod: Mod) -> Any:
        return self.ev(node, Env({}, None, FuncVal(None, mod, "<module>")))

    def lookup(self, name: str, env: Env) -> Any:
        v = env.get(name)
        if v is not MISSING:
            return v
        fv = None
        q: Optional[Env] = env
        while q is not None:
            if q.fv is not None:
                fv = q.fv
                break
            q = q.parent
        if self.spec_mode and (fv is None or fv.mod is None):
            if name in api.SPECS:
                return SpecFn(name)
            if name in api.EXTERNALS:
                return ExtVal(name)
            if name in SPEC_ENV_NAMES or name in BUILTINS:
                return ExtVal("builtins." + name)
            if name in self.cm.consts:
                return self.ev(self.cm.consts[name], Env({}, None, None))
            c = find_class(name)
            if c:
                return c
            raise Undecided(f"spec name {name}")
        e: Optional[Env] = env
        mod = None
        while e is not None:
            if e.fv is not None:
                mod = e.fv.mod
                break
            e = e.parent
        if mod is not None:
            v = self.module_name(mod, name)
            if v is not MISSING:
                return v
        if name in BUILTINS or name in EXC_BASES or name == "Exception":
            return ExtVal("builtins." + name)
        if self.spec_mode and name in api.SPECS:
            return SpecFn(name)
        raise Undecided(f"name {name}")


def _is_property(n: Any) -> bool:
    return any((isinstance(d, ast.Name) and d.id in ("property", "cached_property")) or (isinstance(d, ast.Attribute) and d.attr == "cached_property") for d in n.decorator_list)


def _small(t: Any, limit: int = 60) -> bool:
    n = 0
    st = [t]
    while st:
        x = st.pop()
        n += 1
        if n > limit:
            return False
        st.extend(x.children())
    return True


class SuperVal:
    def __init__(self, cls: str, obj: Any):
        self.cls, self.obj = cls, obj


BUILTINS = {"len", "range", "enumerate", "zip", "isinstance", "str", "int", "bool", "max", "min", "any", "all", "list", "tuple", "set", "dict", "reversed", "sorted", "print", "map",
            "filter", "super", "abs", "sum", "cast", "repr", "hasattr", "type", "id", "float", "callable", "next", "iter", "frozenset", "getattr", "ord", "chr"}
