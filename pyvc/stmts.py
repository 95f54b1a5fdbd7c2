from __future__ import annotations
from .execs import *
from .execs import _is_property, _small

WS = " \t\n\r\x0b\x0c"


class Machine(Exec):
    # ------------------------------------------------------------ builtins
    re_pats: list = []

    def regex(self, f: str, args: list, flags: str = "") -> Any:
        """module re: uninterpreted functions of the pattern and of the text"""
        if f == "sub":
            if len(args) != 3 or not all(isinstance(a, str) or (isinstance(a, V) and a.ty == STR) for a in args):
                raise Undecided("re.sub")
            res: T = STR
        else:
            if len(args) != 2:
                raise Undecided("re." + f)
            res = Opt(ObjT("ReMatch"))
        ts = [self.lift(self.unopt(a, "argument"), STR) for a in args]
        self.assumed.add("module re: the result of a regular expression is an uninterpreted function of the pattern and of the text")
        return self.low(self.mk(res, UF("re_" + f + flags, [z3.StringSort()] * len(ts), sort_of(res))(*ts)))

    def call_ext(self, name: str, args: list, kw: dict) -> Any:
        if name.startswith("builtins."):
            return self.builtin(name[9:], args, kw)
        if name in ("typing.cast",):
            return args[1]
        if name == "re.compile" and len(args) == 1 and isinstance(args[0], str) and not kw:
            return ExtVal("re:" + args[0])
        if name == "re.compile" and len(args) == 1 and set(kw) <= {"flags"} and all(isinstance(x, ExtVal) for x in kw.values()):
            self.re_pats.append((args[0], "".join("_" + x.name for x in kw.values())))
            return ExtVal(f"re:\0{len(self.re_pats) - 1}")
        if name.startswith("re:") and name.rsplit(".", 1)[1] in RE_FUNCS:
            pat, f = name[3:].rsplit(".", 1)
            if pat.startswith("\0"):
                p, fl = self.re_pats[int(pat[1:])]
                return self.regex(f, [p] + args, fl)
            return self.regex(f, [pat] + args)
        if name.startswith("re.") and name[3:] in RE_FUNCS and not kw:
            return self.regex(name[3:], args)
        if name in ("copy.copy", "copy.deepcopy"):
            return self.deepcopy(args[0], name.endswith("deepcopy"))
        if name == "itertools.dropwhile":
            pred, l = args
            it = self.iterate(l)
            if it.items is not None:
                xs = list(it.items)
                while xs and self.truth(self.call(pred, [xs[0]], {})):
                    xs.pop(0)
                return LRef(items=xs)
            base = self.seq_of_iter(it)
            c, r = self.under_lambda(lambda x: self.call(pred, [x], {}), base.ty.a[0])
            u = self.canon("dropwhile", base.ty, c, self.zb(self.truth_term(r)), BOOL)
            t = UF(u, [sort_of(base.ty)], sort_of(base.ty))(base.t)
            self.assume(z3.SuffixOf(t, base.t))
            return LRef(v=V(base.ty, t))
        if name in api.EXTERNALS:
            at, rt = api.EXTERNALS[name]
            vs = []
            for a, t in zip(args, at):
                ty = parse_type(t)
                if isinstance(a, (ClassVal, FuncVal, ExtVal, ModVal)):
                    raise Undecided("external arg")
                if not self.spec_mode and isinstance(a, V) and a.ty.k == "opt" and ty.k != "opt" and ty != ANY:
                    a = self.unopt(a, "argument")
                vs.append(self.as_v(a, ty))
            rty = parse_type(rt)
            if vs:
                t = UF("ext_" + name, [sort_of(v.ty) for v in vs], sort_of(rty))(*[v.t for v in vs])
            else:
                t = z3.Const("ext_" + name, sort_of(rty))
            self.assumed.add(f"external function {name}: uninterpreted, pure" + (" with stated axioms" if name in api.AXIOMS else ""))
            r = self.low(self.mk(rty, t))
            if name in api.AXIOMS and not self.quant and ("ax", t.get_id()) not in self.unfolded:
                self.unfolded[("ax", t.get_id())] = (1, t)
                env = Env({**{f"a{i}": v for i, v in enumerate(vs)}, "r": r}, None, None)
                for ax in api.AXIOMS[name]:
                    self.assume(self.zb(self.spec_bool(ax, env)))
            if isinstance(r, LRef):
                r.frozen = False
            return r
        if name.startswith("logging.") or name in ("builtins.print", "traceback.print_exc"):
            return None
        raise Undecided(f"external {name}")

    def deepcopy(self, v: Any, deep: bool, level: int = 0) -> Any:
        if is_conc(v) or (isinstance(v, V) and v.ty.k in ("str", "int", "bool", "enum")):
            return v
        if isinstance(v, LRef):
            if v.items is not None:
                return LRef(items=[self.deepcopy(x, deep) if deep else x for x in v.items])
            b = self.as_v(v)
            if b.ty.a[0].k == "obj" and deep:
                raise Undecided("deepcopy of object list")
            return LRef(v=b)
        if isinstance(v, V) and v.ty.k == "opt":
            if v.ty.a[0].k not in ("obj", "list"):
                return v
            if self.truth(self.B(opt_is_none(v.ty, v.t))):
                return None
            return self.deepcopy(self.low(V(v.ty.a[0], opt_val(v.ty, v.t))), deep)
        if isinstance(v, V) and v.ty.k == "obj":
            # fresh object; every field known to the heap is copied (object fields deeply: unknown -> fresh)
            self.nfresh += 1
            r = z3.Const(f"copy!{self.nfresh}", RefSort)
            self.assume(r != v.t)
            self.declare_new(r)
            self.distinct_refs.add(r.get_id())
            c = find_class(v.ty.n)
            names = set()
            for x in (mro(c) if c else []) + [y for y in (find_class(z) for z in subclasses(v.ty.n)) if y]:
                names |= {(x.name, n) for n in api.SCHEMAS.get(x.name, {})}
                names |= {(x.name, s.target.id) for s in x.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
            self.assume(UF("class_of", [RefSort], z3.IntSort())(r) == UF("class_of", [RefSort], z3.IntSort())(v.t))
            done = set()
            sub: list = []
            todo: list = []
            shallow = ("parent",)     # CppElement.__deepcopy__ shares it
            for cn, a in sorted(names):
                ft = self.field(v.ty.n, a) or self.field(cn, a)
                if ft is None or (a, ft) in done:
                    continue
                done.add((a, ft))
                cur = self.sel(self.harr(a, ft), v.t)
                if deep and ft.k == "obj" and level < 2 and a.lstrip("_") in ("decl", "cpp_type") and not (a in shallow and self._is_elem(v.ty.n)):
                    cur = self.deepcopy(V(ft, cur), True, level + 1).t
                elif deep and _has_obj(ft) and not (a in shallow and self._is_elem(v.ty.n)):
                    cur = self.as_v(self.fresh(ft, "cp"), ft).t
                    if ft.k == "obj":      # none of the objects that existed before
                        sub.append(cur)
                todo.append((a, ft, cur))
            keep = list(self.newrefs)
            for t in sub:
                self.newrefs = list(keep)
                self.declare_new(t)
            self.newrefs = keep + sub
            for a, ft, cur in todo:
                self.heap_set(a, r, ft, cur)
            return V(v.ty, r)
        raise Undecided("copy")

    def _is_elem(self, cls: str) -> bool:
        return is_sub(cls, "CppElement")

    def builtin(self, n: str, args: list, kw: dict) -> Any:
        if n == "len":
            v = args[0]
            if isinstance(v, V) and v.ty.k == "opt":
                v = self.unopt(v, "len")
            if isinstance(v, LRef) and v.items is not None:
                return len(v.items)
            if isinstance(v, (str, tuple)):
                return len(v)
            if isinstance(v, DictVal):
                return len(v.d)
            if isinstance(v, Iter):
                raise PyRaise("TypeError")
            t = self.as_v(v)
            if t.ty != STR and t.ty.k != "list":
                if t.ty.k == "obj":
                    m = self.find_method(t.ty.n, "__len__")
                    if m:
                        return self.call(Bound(m, v), [], {})
                raise Undecided("len")
            return norm(V(INT, z3.Length(t.t)))
        if n == "only_chars":
            if is_conc(args[0]):
                return all(c in args[1] for c in args[0])
            cs = [z3.Re(zstr(c)) for c in args[1]]
            return V(BOOL, z3.InRe(self.lift(args[0], STR), z3.Star(z3.Union(*cs) if len(cs) > 1 else cs[0])))
        if n in ("str", "repr"):
            if not args:
                return ""
            if n == "repr":
                return self.uf_call("repr", [args[0]], STR) if not is_conc(args[0]) else repr(args[0])
            return self.to_str(args[0])
        if n == "int":
            v = self.unopt(args[0], "int")
            if is_conc(v):
                try:
                    return int(v)
                except (ValueError, TypeError) as e:
                    raise PyRaise(type(e).__name__)
            if v.ty == INT or v.ty == BOOL:
                return V(INT, self.lift(v, INT))
            if v.ty != STR:
                raise Undecided("int()")
            ok = UF("int_ok", [z3.StringSort()], z3.BoolSort())(v.t)
            val = UF("int_of", [z3.StringSort()], z3.IntSort())(v.t)
            self.assume(z3.Implies(z3.StrToInt(v.t) >= 0, z3.And(ok, val == z3.StrToInt(v.t))))
            self.assume(z3.Implies(z3.Length(v.t) == 0, z3.Not(ok)))
            if not self.spec_mode and not self.decide(ok):
                raise PyRaise("ValueError")
            return V(INT, val)
        if n == "bool":
            return self.B(self.truth_term(args[0]))
        if n == "print":
            self.ghost_effects.append(("print",))
            return None
        if n == "isinstance":
            return self.isinst(args[0], args[1])
        if n == "range":
            lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
            if len(args) == 3:
                raise Undecided("range step")
            lo, hi = norm(lo), norm(hi)
            if isinstance(lo, int) and isinstance(hi, int):
                return Iter(items=list(range(lo, hi)))
            a, b = self.lift(lo, INT), self.lift(hi, INT)
            return Iter(n=z3.If(b > a, b - a, z3.IntVal(0)), elem=lambda i: norm(V(INT, a + i)))
        if n == "enumerate":
            it = self.iterate(args[0])
            st = args[1] if len(args) > 1 else kw.get("start", 0)
            if it.items is not None:
                return Iter(items=[(self.binop(ast.Add(), st, i), x) for i, x in enumerate(it.items)])
            return Iter(n=it.n, elem=lambda i: (self.binop(ast.Add(), norm(V(INT, i)), st), it.elem(i)))
        if n == "zip":
            its = [self.iterate(a) for a in args]
            if all(i.items is not None for i in its):
                return Iter(items=[tuple(x) for x in zip(*[i.items for i in its])])
            if any(i.items is not None for i in its):
                raise Undecided("zip mixed")
            m = its[0].n
            for i in its[1:]:
                m = z3.If(i.n < m, i.n, m)
            return Iter(n=m, elem=lambda k: tuple(i.elem(k) for i in its))
        if n == "reversed":
            it = self.iterate(args[0])
            if it.items is not None:
                return Iter(items=list(reversed(it.items)))
            base = self.seq_of_iter(it)
            t = UF("seq_reverse", [sort_of(base.ty)], sort_of(base.ty))(base.t)
            self.assume(UF("seq_reverse", [sort_of(base.ty)], sort_of(base.ty))(t) == base.t)
            self.assume(z3.Length(t) == z3.Length(base.t))
            b2 = V(base.ty, t)
            return self.iterate(LRef(v=b2))
        if n in ("list", "tuple", "iter"):
            if not args:
                return LRef(items=[]) if n == "list" else ()
            it = self.iterate(args[0])
            if it.items is not None:
                return LRef(items=list(it.items)) if n != "tuple" else tuple(it.items)
            if it.base is not None and it.base.ty.k == "list":
                return LRef(v=it.base)
            raise Undecided("list()")
        if n == "dict" and not args and not kw:
            return DictVal({})
        if n == "set":
            if not args:
                return SetVal([])
            it = self.iterate(args[0])
            if it.items is None:
                raise Undecided("set")
            return SetVal(list(it.items))
        if n == "map":
            f, l = args
            it = self.iterate(l)
            if it.items is not None:
                return LRef(items=[self.call(f, [x], {}) for x in it.items])
            return self.seq_map(it, lambda x: self.call(f, [x], {}))
        if n == "filter":
            f, l = args
            it = self.iterate(l)
            if it.items is not None:
                return LRef(items=[x for x in it.items if self.truth(self.call(f, [x], {}) if f is not None else x)])
            return self.seq_filter(it, lambda x: self.truth_term(self.call(f, [x], {}) if f is not None else x))
        if n in ("any", "all"):
            it = self.iterate(args[0])
            if it.items is None:
                self.abstracted = self.abstracted or not self.spec_mode
                return self.quant_z3("exists" if n == "any" else "forall", z3.IntVal(0), it.n, lambda i: self.truth_term(it.elem(i)))
            ts = [self.truth_term(x) for x in it.items]
            return self.B(self.disj(ts) if n == "any" else self.conj(ts))
        if n in ("max", "min"):
            xs = args
            if len(args) == 1:
                it = self.iterate(args[0])
                if it.items is None:
                    raise Undecided("max of symbolic sequence")
                xs = it.items
            r = xs[0]
            for x in xs[1:]:
                c = self.cmp(ast.Gt() if n == "max" else ast.Lt(), x, r)
                r = self.merge(c, x, r) if not isinstance(c, bool) else (x if c else r)
            return r
        if n == "abs":
            v = norm(args[0])
            return abs(v) if isinstance(v, int) else V(INT, z3.If(v.t >= 0, v.t, -v.t))
        if n in EXC_BASES or n == "Exception":
            return ExcVal(n, args[0] if args else None)
        if n == "cast":
            return args[1]
        if n == "hasattr":
            o, a = args
            if isinstance(o, V) and o.ty.k == "opt":
                o = self.unopt(o, "hasattr")
            if not (isinstance(o, V) and o.ty.k == "obj" and isinstance(a, str)):
                raise Undecided("hasattr")
            # whether an object has an optional attribute is an unknown of the object (x and _x: a property and what it reads);
            # nothing under contract adds such an attribute to an existing object
            return V(BOOL, UF("hasattr_" + a.lstrip("_"), [RefSort], z3.BoolSort())(o.t))
        raise Undecided(f"builtin {n}")

    def isinst(self, v: Any, c: Any) -> Any:
        if isinstance(c, tuple):
            ts = [self.truth_term(self.isinst(v, x)) for x in c]
            return self.B(self.disj(ts))
        if isinstance(c, ExtVal):
            n = c.name.replace("builtins.", "")
            if isinstance(v, V) and v.ty.k == "opt":
                inner = self.truth_term(self.isinst(V(v.ty.a[0], opt_val(v.ty, v.t)), c))
                return self.B(self.conj([z3.Not(opt_is_none(v.ty, v.t)), inner]))
            if n in ("str", "int", "bool", "list", "tuple"):
                if v is None:
                    return False
                if isinstance(v, (FuncVal, ClassVal, Bound)):
                    return False
                k = self.ty_of(v).k
                return {"str": k == "str", "int": k in ("int", "bool"), "bool": k == "bool", "list": k == "list", "tuple": k == "tup"}[n]
            raise Undecided("isinstance")
        if isinstance(c, ClassVal):
            if v is None:
                return False
            if isinstance(v, V) and v.ty.k == "opt":
                inner = self.truth_term(self.isinst(V(v.ty.a[0], opt_val(v.ty, v.t)), c))
                return self.B(self.conj([z3.Not(opt_is_none(v.ty, v.t)), inner]))
            if isinstance(v, V) and v.ty.k == "obj":
                if is_sub(v.ty.n, c.name):
                    return True
                subs = [s for s in subclasses(c.name) if is_sub(s, v.ty.n)]
                if not subs:
                    return False
                tag = UF("class_of", [RefSort], z3.IntSort())(v.t)
                return V(BOOL, z3.Or(*[tag == class_id(s) for s in subs]))
            return False
        raise Undecided("isinstance")

    # ------------------------------------------------------------ methods of builtin values
    def builtin_method(self, o: Any, m: str, args: list, kw: dict) -> Any:
        if isinstance(o, V) and o.ty.k == "opt":
            o = self.unopt(o)
        if m.startswith("re_") and isinstance(o, V) and o.ty.k == "obj":
            g = args[0] if args else 0
            if not isinstance(g, (int, str)):
                raise Undecided("match group")
            ty = INT if m != "re_group" else STR if g == 0 else Opt(STR)
            return self.low(self.mk(ty, UF(f"{m}_{ty.k}", [RefSort, z3.StringSort()], sort_of(ty))(o.t, zstr(str(g)))))
        if isinstance(o, str) and all(is_conc(a) for a in args) and m in PURE_STR_CONC and not kw:
            if m == "join":
                return o.join(args[0])
            try:
                r = getattr(o, m)(*args)
            except ValueError:
                raise PyRaise("ValueError")
            return LRef(items=r) if isinstance(r, list) else r
        if isinstance(o, str) or (isinstance(o, V) and o.ty == STR):
            return self.str_method(o, m, args, kw)
        if isinstance(o, DictVal):
            return self.dict_method(o, m, args)
        if isinstance(o, VO):
            attr, ref, ty = o.owner
            cur = z3.Select(self.harr(attr, ty), ref)
            if o.ty.k == "set" and m in ("add", "discard"):
                self.heap_set(attr, ref, ty, z3.Store(cur, self.lift(args[0], ty.a[0]), z3.BoolVal(m == "add")))
                return None
            if o.ty.k == "map" and m == "setdefault" and len(args) == 2:
                oty, key = Opt(ty.a[1]), self.lift(args[0], ty.a[0])
                old = z3.Select(cur, key)
                new = z3.If(opt_is_none(oty, old), opt_some(oty, self.lift(self.snap(args[1]), ty.a[1])), old)
                self.heap_set(attr, ref, ty, z3.Store(cur, key, new))
                return self.low(self.mk(ty.a[1], opt_val(oty, new)))
        if isinstance(o, V) and o.ty.k == "map" and m == "keys":
            return o
        if isinstance(o, V) and o.ty.k == "map" and m == "get":
            oty = Opt(o.ty.a[1])
            t = z3.Select(o.t, self.lift(args[0], o.ty.a[0]))
            if len(args) == 1:
                return self.low(self.mk(oty, t))
            return self.low(self.mk(o.ty.a[1], z3.If(opt_is_none(oty, t), self.lift(args[1], o.ty.a[1]), opt_val(oty, t))))
        if isinstance(o, SetVal):
            if m == "add":
                o.items.append(args[0])
                return None
            raise Undecided(f"set.{m}")
        if isinstance(o, V) and o.ty.k == "list":
            o = LRef(v=o)
            o.frozen = True
        if isinstance(o, LRef):
            return self.list_method(o, m, args)
        if isinstance(o, tuple) and m == "index":
            raise Undecided("tuple.index")
        raise Undecided(f"method {m}")

    def dict_method(self, o: DictVal, m: str, args: list) -> Any:
        if m == "items":
            return Iter(items=[(k, v) for k, v in o.d.items()])
        if m == "keys":
            return Iter(items=list(o.d.keys()))
        if m == "values":
            return Iter(items=list(o.d.values()))
        if m == "get":
            df = args[1] if len(args) > 1 else None
            if is_conc(args[0]):
                return o.d.get(args[0], df)
            r = self.dict_sym(o, args[0], MISSING)
            return df if r is MISSING else r
        raise Undecided(f"dict.{m}")

    def list_method(self, o: LRef, m: str, args: list) -> Any:
        if m == "append":
            if o.owner is None and o.items is not None:
                self.mutate_check(o)
                o.items.append(self.snap(args[0]))
                return None
            v = self.as_v(o)
            self.list_set(o, V(v.ty, z3.Concat(v.t, z3.Unit(self.lift(self.snap(args[0]), v.ty.a[0])))))
            return None
        if m == "extend":
            self.aug_add(o, args[0])
            return None
        if m == "copy":
            return LRef(items=list(o.items)) if o.items is not None else LRef(v=self.as_v(o))
        if m == "pop":
            if o.owner is None and o.items is not None and (not args or isinstance(args[0], int)):
                self.mutate_check(o)
                if not o.items:
                    raise PyRaise("IndexError")
                return o.items.pop(*args)
            v = self.as_v(o)
            L = z3.Length(v.t)
            if not self.decide(L > 0):
                raise PyRaise("IndexError")
            if not args or args[0] == -1:
                r = self.low(self.mk(v.ty.a[0], v.t[L - 1]))
                self.list_set(o, V(v.ty, z3.SubSeq(v.t, 0, L - 1)))
                return r
            if args[0] == 0:
                r = self.low(self.mk(v.ty.a[0], v.t[0]))
                self.list_set(o, V(v.ty, z3.SubSeq(v.t, 1, L - 1)))
                return r
            raise Undecided("pop(i)")
        if m == "reverse" and o.items is not None and o.owner is None:
            self.mutate_check(o)
            o.items.reverse()
            return None
        if m == "insert" and args[0] == 0:
            if o.items is not None and o.owner is None:
                self.mutate_check(o)
                o.items.insert(0, args[1])
                return None
            v = self.as_v(o)
            self.list_set(o, V(v.ty, z3.Concat(z3.Unit(self.lift(args[1], v.ty.a[0])), v.t)))
            return None
        if m == "clear":
            t = self.ty_of(o)
            self.list_set(o, V(t, z3.Empty(sort_of(t))))
            return None
        if m == "index":
            v = self.as_v(o)
            u = z3.Unit(self.lift(args[0], v.ty.a[0]))
            if not self.spec_mode and not self.decide(z3.Contains(v.t, u)):
                raise PyRaise("ValueError")
            return norm(V(INT, z3.IndexOf(v.t, u, 0)))
        if m == "count":
            v = self.as_v(o)
            if v.ty.a[0] != STR:
                raise Undecided("list.count")
            u = self.lift(args[0], STR)
            r = self.uf_call("list_count_str", [v, V(STR, u)], INT)
            self.assume(z3.And(r.t >= 0, r.t <= z3.Length(v.t), (r.t == 0) == z3.Not(z3.Contains(v.t, z3.Unit(u)))))
            return r
        raise Undecided(f"list.{m}")

    def aug_add(self, o: LRef, r: Any) -> None:
        it = self.iterate(r)
        if o.items is not None and o.owner is None and it.items is not None:
            self.mutate_check(o)
            o.items.extend(it.items)
            return
        rl = LRef(items=it.items) if it.items is not None else LRef(v=self.seq_of_iter(it))
        if not self._known(rl):
            return
        a, b, ty = self.same_type_terms(o, rl) if self._known(o) else (z3.Empty(sort_of(self.ty_of(rl))), self.as_v(rl).t, self.ty_of(rl))
        self.list_set(o, V(ty, z3.Concat(a, b)))

    def str_method(self, o: Any, m: str, args: list, kw: dict) -> Any:
        s = self.lift(o, STR)
        args = [self.unopt(a, "argument") if isinstance(a, V) and a.ty.k == "opt" else a for a in args]
        if m in ("startswith", "endswith"):
            f = z3.PrefixOf if m == "startswith" else z3.SuffixOf
            if isinstance(args[0], tuple):
                return self.B(self.disj([f(self.lift(x, STR), s) for x in args[0]]))
            if len(args) > 1:
                raise Undecided(m)
            return self.B(self.nb(f(self.lift(args[0], STR), s)))
        if m == "replace":
            a, b = args[0], args[1]
            if len(args) > 2:
                raise Undecided("replace count")
            at, bt = self.lift(a, STR), self.lift(b, STR)
            r = z3.SeqRef(z3.Z3_mk_seq_replace_all(s.ctx_ref(), s.as_ast(), at.as_ast(), bt.as_ast()), s.ctx)
            # z3 has little support for replace_all: uninterpreted plus sound facts
            r = UF("replace_all", [z3.StringSort()] * 3, z3.StringSort())(s, at, bt)
            if not self.quant:
                self.assume(z3.Implies(z3.Not(z3.Contains(s, at)), r == s))
                self.assume(z3.Implies(at == bt, r == s))
                self.assume(z3.Implies(z3.And(s == at, z3.Length(at) > 0), r == bt))
                if isinstance(a, str) and isinstance(b, str) and a not in b and not _overlap(a, b):
                    self.assume(z3.Not(z3.Contains(r, at)))
            return V(STR, r)
        if m in ("ljust", "rjust") and (len(args) == 1 or isinstance(args[1], str)):
            pad = self.binop(ast.Mult(), args[1] if len(args) > 1 else " ", norm(V(INT, self.lift(args[0], INT) - z3.Length(s))))
            return self.concat_str([o, pad] if m == "ljust" else [pad, o])
        if m in ("strip", "lstrip", "rstrip"):
            chars = args[0] if args else None
            f = UF(m + ("" if chars is None else "_chars"), [z3.StringSort()] * (1 if chars is None else 2), z3.StringSort())
            r = f(s) if chars is None else f(s, self.lift(chars, STR))
            if not self.quant:
                if m == "lstrip":
                    self.assume(z3.SuffixOf(r, s))
                elif m == "rstrip":
                    self.assume(z3.PrefixOf(r, s))
                else:
                    self.assume(z3.Contains(s, r))
                self.assume(z3.Implies(z3.Length(s) == 0, z3.Length(r) == 0))
                if chars is None:
                    self.assume(f(r) == r)
                    if m == "rstrip":       # a first character that is not a space stays
                        self.assume(z3.Implies(z3.PrefixOf(zstr("#"), s), z3.PrefixOf(zstr("#"), r)))
                    for w in " \t":
                        if m != "rstrip":
                            self.assume(z3.Not(z3.PrefixOf(zstr(w), r)))
                        if m != "lstrip":
                            self.assume(z3.Not(z3.SuffixOf(zstr(w), r)))
                    if m == "strip":
                        self.assume(z3.Implies(z3.Or(*[z3.PrefixOf(zstr(chr(c)), s) for c in (35, 47)]), z3.Length(r) > 0))
            return norm(V(STR, r))
        if m == "split":
            if len(args) != 1 or kw:
                if args:
                    raise Undecided("split maxsplit")
                return LRef(v=self.uf_call("split_ws", [o], ListT(STR)))
            sep = self.lift(args[0], STR)
            r = UF("split", [z3.StringSort(), z3.StringSort()], sort_of(ListT(STR)))(s, sep)
            j = UF("join", [z3.StringSort(), sort_of(ListT(STR))], z3.StringSort())
            if not self.quant:
                self.assume(z3.Length(r) >= 1)
                self.assume(j(sep, r) == s)
                self.assume(z3.Implies(z3.Not(z3.Contains(s, sep)), r == z3.Unit(s)))
                self.assume(z3.Implies(z3.Length(r) == 1, r == z3.Unit(s)))
            return LRef(v=V(ListT(STR), r))
        if m == "join":
            it = self.iterate(args[0])
            if it.items is not None:
                parts: list = []
                for i, x in enumerate(it.items):
                    if i:
                        parts.append(o)
                    parts.append(x)
                return self.concat_str(parts)
            base = self.seq_of_iter(it)
            j = UF("join", [z3.StringSort(), sort_of(ListT(STR))], z3.StringSort())
            t = j(s, base.t)
            if not self.quant:
                self.assume(z3.Implies(z3.Length(base.t) == 0, t == zstr("")))
                self.assume(z3.Implies(z3.Length(base.t) == 1, t == base.t[0]))
            return V(STR, t)
        if m in ("lower", "upper", "title", "capitalize"):
            f = UF(m, [z3.StringSort()], z3.StringSort())
            r = f(s)
            if m in ("lower", "upper"):
                self.assume(z3.And(f(r) == r, z3.Length(r) >= 0))
            return V(STR, r)
        if m in ("isdigit", "isspace", "isidentifier", "isalnum", "isalpha", "isupper", "islower", "isnumeric", "isdecimal"):
            r = UF(m, [z3.StringSort()], z3.BoolSort())(s)
            if not self.quant:
                self.assume(z3.Implies(z3.Length(s) == 0, z3.Not(r)))
                if m in ("isdigit", "isalpha", "isnumeric", "isdecimal"):
                    self.assume(z3.Implies(r, UF("isalnum", [z3.StringSort()], z3.BoolSort())(s)))
                if m == "isspace":
                    for w in (" ", "\t", "\n"):
                        self.assume(z3.Implies(s == zstr(w), r))
            return V(BOOL, r)
        if m == "find":
            st = self.lift(args[1], INT) if len(args) > 1 else z3.IntVal(0)
            return norm(V(INT, z3.IndexOf(s, self.lift(args[0], STR), st)))
        if m == "index":
            a = self.lift(args[0], STR)
            if not self.spec_mode and not self.decide(z3.Contains(s, a)):
                raise PyRaise("ValueError")
            return norm(V(INT, z3.IndexOf(s, a, 0)))
        if m == "rfind":
            return norm(V(INT, z3.LastIndexOf(s, self.lift(args[0], STR))))
        if m in ("partition", "rpartition"):
            sep = self.lift(args[0], STR)
            if not self.spec_mode and not self.decide(z3.Length(sep) > 0):
                raise PyRaise("ValueError")
            at = z3.IndexOf(s, sep, 0) if m == "partition" else z3.LastIndexOf(s, sep)
            none = z3.Not(z3.Contains(s, sep))
            before, after = z3.SubString(s, 0, at), z3.SubString(s, at + z3.Length(sep), z3.Length(s) - at - z3.Length(sep))
            e = zstr("")
            x, y = (s, e) if m == "partition" else (e, s)
            return tuple(norm(V(STR, z3.If(none, a, b))) for a, b in ((x, before), (e, sep), (y, after)))
        if m == "count":
            return self.uf_call("str_count", [o, args[0]], INT)
        if m in ("removeprefix", "removesuffix"):
            p = self.lift(args[0], STR)
            if m == "removeprefix":
                return V(STR, z3.If(z3.PrefixOf(p, s), z3.SubString(s, z3.Length(p), z3.Length(s) - z3.Length(p)), s))
            return V(STR, z3.If(z3.And(z3.SuffixOf(p, s), z3.Length(p) > 0), z3.SubString(s, 0, z3.Length(s) - z3.Length(p)), s))
        if m == "splitlines":
            return LRef(v=self.uf_call("splitlines", [o], ListT(STR)))
        raise Undecided(f"str.{m}")

    # ------------------------------------------------------------ statements
    def block(self, stmts: list, env: Env) -> None:
        for s in stmts:
            self.st(s, env)

    def st(self, s: Any, env: Env) -> None:
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__}")
        self.cur_env = env
        m(s, env)

    def st_Expr(self, s: Any, env: Env) -> None:
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def st_Pass(self, s: Any, env: Env) -> None:
        pass

    def st_Assign(self, s: Any, env: Env) -> None:
        v = self.ev(s.value, env)
        for t in s.targets:
            self.bind(t, v, env)

    def st_AnnAssign(self, s: Any, env: Env) -> None:
        if s.value is not None:
            v = self.ev(s.value, env)
            if isinstance(v, LRef) and not self._known(v) and isinstance(s.target, ast.Name):
                ty = parse_type(s.annotation, env_mod(env))
                if ty.k == "list":
                    v.et = ty.a[0]
            self.bind(s.target, v, env)

    def st_AugAssign(self, s: Any, env: Env) -> None:
        if isinstance(s.target, ast.Name):
            cur: Any = self.lookup(s.target.id, env)
        elif isinstance(s.target, ast.Attribute):
            cur = self.get_attr(self.unopt(self.ev(s.target.value, env)), s.target.attr)
        elif isinstance(s.target, ast.Subscript):
            cur = self.ev_Subscript(s.target, env)
        else:
            raise Undecided("augassign")
        r = self.ev(s.value, env)
        if isinstance(cur, LRef) and isinstance(s.op, ast.Add):
            self.aug_add(cur, r)
            if cur.owner is None and isinstance(s.target, ast.Attribute):
                self.bind(s.target, cur, env)
            return
        self.bind(s.target, self.binop(s.op, cur, r), env)

    def st_If(self, s: Any, env: Env) -> None:
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def st_Return(self, s: Any, env: Env) -> None:
        raise RetEx(self.ev(s.value, env) if s.value is not None else None)

    def st_Raise(self, s: Any, env: Env) -> None:
        if s.exc is None:
            raise PyRaise("RuntimeError")
        if isinstance(s.exc, ast.Call):
            f = s.exc.func
            nm = f.id if isinstance(f, ast.Name) else getattr(f, "attr", "Exception")
            raise PyRaise(nm)
        v = self.ev(s.exc, env)
        raise PyRaise(v.cls if isinstance(v, ExcVal) else v.name.split(".")[-1] if isinstance(v, (ExtVal, ClassVal)) else "Exception")

    def st_Assert(self, s: Any, env: Env) -> None:
        if not self.truth(self.ev(s.test, env)):
            raise PyRaise("AssertionError")

    def st_FunctionDef(self, s: Any, env: Env) -> None:
        q = (env_fv(env).qual + "." if env_fv(env) else "") + s.name
        env.d[s.name] = FuncVal(s, env_mod(env), q, env)

    def st_Import(self, s: Any, env: Env) -> None:
        for a in s.names:
            env.d[a.asname or a.name.split(".")[0]] = ModVal(a.name)

    def st_ImportFrom(self, s: Any, env: Env) -> None:
        for a in s.names:
            m = load_mod(s.module)
            if m is None:
                env.d[a.asname or a.name] = ExtVal(s.module + "." + a.name)
                continue
            sub = load_mod(s.module + "." + a.name)
            if sub:
                env.d[a.asname or a.name] = ModVal(s.module + "." + a.name)
            else:
                env.d[a.asname or a.name] = self.module_name(m, a.name)

    def st_Nonlocal(self, s: Any, env: Env) -> None:
        env.d.setdefault("__nonlocal__", set()).update(s.names)

    def st_Break(self, s: Any, env: Env) -> None:
        raise BreakEx()

    def st_Continue(self, s: Any, env: Env) -> None:
        raise ContinueEx()

    def st_Delete(self, s: Any, env: Env) -> None:
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.d.pop(t.id, None)
            else:
                raise Undecided("del")

    def st_Try(self, s: Any, env: Env) -> None:
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    names = []
                    if h.type is None:
                        names = ["Exception"]
                    else:
                        for q in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                            names.append(q.id if isinstance(q, ast.Name) else q.attr)
                    if e.cls in names or any(b in names for b in exc_bases(e.cls)):
                        if h.name:
                            env.d[h.name] = ExcVal(e.cls, e.msg)
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    # ------------------------------------------------------------ loops
    def loop_contract(self, node: Any, env: Env) -> tuple:
        fv = env_fv(env)
        loops = [q for q in walk_own(fv.node) if isinstance(q, (ast.For, ast.While))]
        k = loops.index(node)
        tgt = f"{fv.mod.name}:{fv.qual}"
        if self.c is not None:
            key = k if tgt == self.target.split("#")[0] else None
            if key is not None and key in self.c.loops:
                return self.c.loops[key], k
            short = f"{fv.qual.split('.')[-1]}:{k}"
            if short in self.c.loops:
                return self.c.loops[short], k
        oc = api.CONTRACTS.get(tgt)
        if oc is not None and k in oc.loops:
            return oc.loops[k], k
        return None, k

    def st_For(self, s: Any, env: Env) -> None:
        it = self.iterate(self.ev(s.iter, env))
        if it.items is not None:
            for x in it.items:
                self.bind(s.target, x, env)
                try:
                    self.block(s.body, env)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.block(s.orelse, env)
            return
        lc, k = self.loop_contract(s, env)
        if lc is None:
            raise Undecided(f"loop {k} of {env_fv(env).qual} has no invariant")
        self.cut_loop(s, env, lc, k, it)

    def st_While(self, s: Any, env: Env) -> None:
        lc, k = self.loop_contract(s, env)
        if lc is None:
            # bounded concrete loops only
            for _ in range(200):
                t = self.truth_term(self.ev(s.test, env))
                if not isinstance(t, bool):
                    raise Undecided(f"loop {k} of {env_fv(env).qual} has no invariant")
                if not t:
                    self.block(s.orelse, env)
                    return
                try:
                    self.block(s.body, env)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            raise Undecided("unbounded concrete loop")
        self.cut_loop(s, env, lc, k, None)

    def inv_env(self, env: Env, extra: dict) -> Env:
        d: dict = {}
        q: Optional[Env] = env
        chain = []
        while q is not None:
            chain.append(q.d)
            q = q.parent
        for x in reversed(chain):
            d.update(x)
        for k, v in self.old_env.items():
            d["old_" + k] = v
            if self.c is not None and k in self.c.ghost:
                d[k] = v
        if self.loopctx:
            d["_i_outer"], d["_seq_outer"] = self.loopctx[-1]
        d.update(extra)
        return Env(d, None, None)

    def cut_loop(self, s: Any, env: Env, lc: api.Loop, k: int, it: Optional[Iter]) -> None:
        nm = f"{self.target}: loop {k}" if env_fv(env).qual in self.target else f"{self.target}: loop {k} of {env_fv(env).qual}"
        base = {"_n": norm(V(INT, it.n)), "_seq": self.low(it.base) if it.base is not None else None} if it is not None else {}
        if it is not None and it.base is not None and it.base.ty.k == "list" and it.base.ty.a[0].k == "obj":
            self.known_seqs.append(it.base.t)
        # 1. invariant holds on entry
        neff = len(self.ghost_effects)
        e0 = self.inv_env(env, dict(base, _i=0))
        for n, tx in lc.types.items():
            v0 = e0.d.get(n)
            if isinstance(v0, LRef) and v0.owner is None and v0.items == [] and parse_type(tx).k == "list":
                e0.d[n] = LRef(v=V(parse_type(tx), z3.Empty(sort_of(parse_type(tx)))))
        for j, i in enumerate(lc.inv):
            self.oblige(f"{nm} invariant {j} on entry", "inv-init", self.zbk(self.spec_bool(i, e0)))
        # 2. havoc
        assigned = assigned_names(s)
        for n in sorted(assigned):
            v = env.get(n)
            if n in lc.types:
                ty = parse_type(lc.types[n])
            elif v is MISSING:
                continue
            elif isinstance(v, (DictVal, SetVal, FuncVal, Iter)):
                raise Undecided(f"havoc of {n}")
            else:
                ty = self.ty_of(v)
                if ty == NONE:
                    raise Undecided(f"loop variable {n}: type needed")
                if isinstance(v, LRef) and not self._known(v):
                    raise Undecided(f"loop variable {n}: element type needed")
            f = self.low(self.fresh(ty, n))
            if isinstance(v, LRef) and isinstance(f, LRef):
                if v.owner is not None:
                    self.heap_set(v.owner[0], v.owner[1], v.owner[2], self.as_v(f).t)
                else:
                    self.mutate_check(v)
                    v.items, v.v, v.et = None, self.as_v(f), ty.a[0]
                    if n in env.d or True:
                        self.rebind(env, n, v)
            else:
                if isinstance(f, LRef):
                    f.frozen = False
                self.rebind(env, n, f)
        lid = (env_fv(env).qual, s.lineno, s.col_offset)
        extra = self.loop_heap.setdefault(lid, {})
        for attr, ty in extra.values():
            self.harr(attr, ty)
        havocked = set()
        for key in list(self.heap):
            if key in extra:
                self.nfresh += 1
                self.heap[key] = z3.Const(f"H_{key}!{self.nfresh}", self.heap[key].sort())
                havocked.add(key)
                self.keep.append(self.heap[key])
                self.array_epoch[self.heap[key].get_id()] = len(self.epochs)
        now = self.tick()
        for n in assigned:
            self.lives_at(env.get(n), now)
        head = dict(self.heap)
        nnew = len(self.newrefs)
        vars0 = self.snapshot(env, assigned)
        self.nfresh += 1
        if it is not None:
            i = z3.Int(f"_i!{self.nfresh}")
            self.assume(z3.And(i >= 0, i <= it.n))
            iv: Any = V(INT, i)
        else:
            iv = None
        e1 = self.inv_env(env, dict(base, _i=iv))
        for x in lc.inv:
            self.assume(self.zb(self.spec_bool(x, e1)))
        for u in lc.use:
            self.use_lemma(u, e1)
        body_path = self.choice()
        if it is not None:
            if body_path:
                self.assume(i < it.n)
                if not self.feasible(z3.BoolVal(True)):
                    raise PathEnd()
                self.bind(s.target, it.elem(i), env)
            else:
                self.assume(i == it.n)
        else:
            t = self.truth_term(self.ev(s.test, env))
            if body_path:
                self.assume(self.zb(t))
            else:
                self.assume(self.zb(self.neg(t)))
            if not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
        if not body_path:
            self.block(s.orelse, env)
            return
        m0 = None
        if lc.decreases is not None:
            m0 = self.lift(self.spec_val(lc.decreases, e1), INT)
            self.oblige(f"{nm} measure is non-negative", "decreases", m0 >= 0)
        self.loopctx.append((iv, base.get("_seq")))
        try:
            self.block(s.body, env)
        except BreakEx:
            return
        except ContinueEx:
            pass
        finally:
            self.loopctx.pop()
        if any(x[0] != "print" for x in self.ghost_effects[neff:]):
            raise Undecided("effect inside a loop")
        again = False
        born = {r.get_id() for r in self.newrefs[nnew:]}
        for key, t in self.heap.items():      # what the calls of the body have changed is havocked too
            while z3.is_store(t) and t.arg(1).get_id() in born:      # the fields of an object that the body creates: no object of the loop head has changed
                t = t.arg(0)
            if key not in havocked and not z3.eq(t, head.get(key, self.heap0.get(key, t))):
                extra[key] = (key.split("$")[0], self.htypes[key])
                again = True
                if os.environ.get("PYVC_DEBUG"):
                    print("restart", lid, key, str(t)[:1500].replace("\n", " "))
        if again:
            raise Restart()
        if not z3_same(vars0, self.snapshot(env, assigned)):
            raise Undecided(f"loop {k}: a call changes a local variable")
        nxt = norm(V(INT, i + 1)) if it is not None else None
        e2 = self.inv_env(env, dict(base, _i=nxt))
        for u in lc.use_end:
            self.use_lemma(u, e2)
        for j, x in enumerate(lc.inv):
            self.oblige(f"{nm} invariant {j} preserved", "inv-step", self.zbk(self.spec_bool(x, e2)))
        if m0 is not None:
            self.oblige(f"{nm} measure decreases", "decreases", self.lift(self.spec_val(lc.decreases, e2), INT) < m0)
        raise PathEnd()

    def lives_at(self, v: Any, now: Any) -> None:
        """an object that a variable holds was born before"""
        if isinstance(v, V) and v.ty.k == "obj":
            self.assume(self.born(v.t) <= now)
        elif isinstance(v, V) and v.ty.k == "opt" and v.ty.a[0].k == "obj":
            self.assume(z3.Or(opt_is_none(v.ty, v.t), self.born(opt_val(v.ty, v.t)) <= now))
        elif isinstance(v, LRef) and v.items is None and v.owner is None and v.v is not None and v.v.ty.a[0].k == "obj":
            self.seq_epoch[v.v.t.get_id()] = now
            self.keep.append(v.v.t)

    def snapshot(self, env: Env, skip: set) -> dict:
        out: dict = {}
        q: Optional[Env] = env
        while q is not None:
            for n, v in q.d.items():
                if n in skip or n in out:
                    continue
                if isinstance(v, LRef) and v.owner is None:
                    out[n] = ("l", [x.t if isinstance(x, V) else None for x in v.items] if v.items is not None else v.v.t if v.v is not None else None)
                elif isinstance(v, V):
                    out[n] = ("v", v.t)
                elif isinstance(v, (DictVal, SetVal)):
                    out[n] = ("d", len(getattr(v, "d", getattr(v, "items", None)) or []))
                elif isinstance(v, (str, int, bool)) or v is None:
                    out[n] = ("c", v)
            q = q.parent
        return out

    def rebind(self, env: Env, n: str, v: Any) -> None:
        q: Optional[Env] = env
        while q is not None:
            if n in q.d:
                q.d[n] = v
                return
            q = q.parent
        env.d[n] = v

    def zbk(self, x: Any) -> Any:
        return x

    def use_lemma(self, text: str, env: Env) -> None:
        node = self.parse_spec(text)
        if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in api.LEMMAS):
            self.assume(self.zb(self.spec_bool(text, env)))   # never used in shipped contracts
            raise Undecided("use of an unknown lemma")
        lm = api.LEMMAS[node.func.id]
        self.used_lemmas.add(lm.name)
        if lm.axiom:
            self.assumed.add(f"axiom {lm.name}: {lm.axiom}")
        self.spec_mode += 1
        try:
            args = [self.ev(a, env) for a in node.args]
            e = Env({p: (self.low(self.as_v(a, parse_type(t)))) for (p, t), a in zip(lm.params.items(), args)}, None, None)
            pre = [self.zb(self.truth_term(self.ev(self.parse_spec(r), e))) for r in lm.requires]
            post = [self.zb(self.truth_term(self.ev(self.parse_spec(r), e))) for r in lm.ensures]
        finally:
            self.spec_mode -= 1
        f = z3.And(*post) if len(post) > 1 else post[0]
        if getattr(self, "ih_guard", None) is not None and lm.name == self.ih_guard[0]:
            self.spec_mode += 1
            try:
                mm = self.lift(self.ev(self.parse_spec(lm.measure), e), INT)
            finally:
                self.spec_mode -= 1
            pre = pre + [z3.And(mm >= 0, mm < self.ih_guard[1])]
        self.assume(z3.Implies(z3.And(*pre), f) if pre else f)

    # ------------------------------------------------------------ drivers
    def param_types(self, f: FuncVal, c: api.Contract) -> dict:
        a = f.node.args
        out = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in c.params:
                out[x.arg] = parse_type(c.params[x.arg])
            elif x.arg == "self" and f.cls:
                out[x.arg] = ObjT(f.cls)
            elif x.annotation is not None:
                out[x.arg] = parse_type(x.annotation, f.mod)
            else:
                out[x.arg] = ANY
        return out

    def explore(self, run: Any) -> None:
        self.work: list = [[]]
        n = 0
        self.used_contracts: set = set()
        self.used_lemmas: set = set()
        self.normal_paths = 0
        while self.work:
            p = self.work.pop()
            n += 1
            if n > MAX_PATHS:
                raise Undecided("too many paths")
            self.reset(p)
            try:
                run()
            except PathEnd:
                pass
        self.report.paths = n

    def verify(self) -> FuncReport:
        t0 = time.time()
        dl = self.deadline
        for _ in range(30):
            try:
                return self.verify_once(t0)
            except Restart:
                lh = self.loop_heap
                self.__init__(self.target, self.c, self.cm)  # type: ignore
                self.__dict__.pop("covered", None)
                self.loop_heap, self.deadline = lh, dl
        self.report.undecided = "loops: no fixpoint"
        return self.report

    def verify_once(self, t0: float) -> FuncReport:
        c = self.c
        assert c is not None
        try:
            f = find_function(self.target)
            self.fuel = c.fuel
            self.no_modular = self.target.split("#")[0]
            ptys = self.param_types(f, c)
            if f.node.args.vararg or f.node.args.kwarg:
                raise Undecided("varargs")

            def run() -> None:
                self.inputs: dict = {}
                self.abstracted = False
                env_d: dict = {}
                self.old_env = None
                for p, ty in ptys.items():
                    if p in c.ghost:
                        continue
                    t = z3.Const(p, sort_of(ty))
                    v = self.mk(ty, t)
                    if ty.k == "list":
                        v = LRef(v=V(ty, t))
                    if ty.k == "obj":
                        self.known_refs.append(t)
                        self.assume(self.born(t) <= 0)
                    if ty.k == "list" and ty.a[0].k == "obj":
                        self.seq_epoch[t.get_id()] = z3.IntVal(0)
                        self.keep.append(t)
                    env_d[p] = v
                    self.inputs[p] = V(ty, t) if ty != NONE else None
                for g, ty_s in c.ghost.items():
                    ty = parse_type(ty_s)
                    self.inputs[g] = V(ty, z3.Const(g, sort_of(ty)))
                old = {k: (LRef(v=v.v) if isinstance(v, LRef) else v) for k, v in env_d.items()}
                for g in c.ghost:
                    old[g] = self.low(self.inputs[g])
                self.old_env = old
                e0 = Env(dict(old), None, None)
                for r in c.requires:
                    self.assume(self.zb(self.spec_bool(r, e0)))
                if not self.taken and self.recording() and not getattr(self, "covered", False):
                    self.covered = True
                    s = z3.Solver()
                    s.set("timeout", 4000)
                    s.add(*self.pc)
                    if s.check() == z3.unsat:
                        self.report.obligations.append(Obligation(f"{self.target}: precondition is satisfiable", "cover", "refuted", "z3"))
                env = Env(dict(env_d), f.closure, f)
                try:
                    try:
                        self.block(f.node.body, env)
                        res = None
                    except RetEx as r:
                        res = r.v
                except PyRaise as e:
                    for nm, ex in c.always.items():
                        self.oblige(f"{self.target}: {nm}", "post", self.spec_bool(ex, Env(dict(env_d, **{g: old[g] for g in c.ghost}), None, None)))
                    if any(x[0] != "print" for x in self.ghost_effects):
                        self.oblige(f"{self.target}: no effect before {e.cls}", "post", False)
                    for ec, cond in c.raises.items():
                        if ec == e.cls or ec in exc_bases(e.cls):
                            self.oblige(f"{self.target}: {e.cls} only when specified", "raise", self.spec_bool(cond, e0))
                            return
                    self.oblige(f"{self.target}: no {e.cls}", "raise", False)
                    return
                self.normal_paths += 1
                if isinstance(res, Iter):
                    raise Undecided("returns an iterator")
                d = dict(env_d)
                for g in c.ghost:
                    d[g] = old[g]
                d["result"] = res
                effs: dict = {}
                for en, ea in self.ghost_effects:
                    if en != "print":
                        effs.setdefault(en, []).append(ea)
                for en in {x.effect for x in api.CONTRACTS.values() if x.effect}:
                    d["n_" + en] = len(effs.get(en, []))
                    tr = next(x for x in api.CONTRACTS.values() if x.effect == en)
                    for pn, pt in tr.params.items():
                        d[en + "_" + pn] = effs[en][-1][pn] if en in effs else self.fresh(parse_type(pt), "noeff")
                rty = parse_type(c.returns) if c.returns else parse_type(f.node.returns, f.mod)
                if isinstance(res, LRef) and not self._known(res) and rty.k == "list":
                    res.et = rty.a[0]
                e1 = Env(d, None, None)
                for u in c.use:
                    dw = {f"_in_{j}": (self.in_witness[j] if j < len(self.in_witness) else -1) for j in range(4)} if "_in_" in u else {}
                    self.use_lemma(u, self.inv_env(Env(dict(d, **dw), None, None), {}))
                for ec, cond in c.raises.items():
                    if cond.strip().startswith("iff:"):
                        continue
                for nm, ex in list(c.ensures.items()) + list(c.always.items()):
                    self.oblige(f"{self.target}: {nm}", "post", self.spec_bool(ex, e1))
                self.frame(c, env_d, old)
            self.explore(run)
            if self.normal_paths == 0 and not c.raises:
                self.report.undecided = "vacuous: no path reaches a return"
        except Undecided as u:
            self.report.undecided = str(u) or "undecided"
        except (RecursionError, z3.Z3Exception, AssertionError, KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
            self.report.undecided = f"engine: {type(e).__name__}: {e}"
            if os.environ.get("PYVC_DEBUG"):
                raise
        self.report.secs = time.time() - t0
        self.report.assumptions = sorted(self.assumed | {f"trusted contract of {x}: {api.CONTRACTS[x].reason}" for x in getattr(self, "used_contracts", set()) if x in api.CONTRACTS and api.CONTRACTS[x].trusted})
        return self.report

    def frame(self, c: api.Contract, env_d: dict, old: dict) -> None:
        """nothing but what 'modifies' names has changed (lists given as parameters, fields of objects that existed)"""
        for p, v in env_d.items():
            if isinstance(v, LRef) and p not in c.modifies and p in old and isinstance(old[p], LRef) and v.owner is None:
                a, b = self.as_v(v).t, self.as_v(old[p]).t
                if not a.eq(b):
                    self.oblige(f"{self.target}: {p} is not changed", "frame", a == b)
        for k in list(self.heap):
            a, b = self.heap[k], self.heap0.get(k)
            at = k.split("$")[0]
            if b is None or a.eq(b) or "*." + at in c.modifies:
                continue
            r = z3.Const("r!frame", RefSort)
            ex = [r == o for o in self.newrefs]
            for m in c.modifies:
                if m.endswith("." + at) and m.split(".")[0] in env_d:
                    ex.append(r == env_d[m.split(".")[0]].t)
            self.oblige(f"{self.target}: the field {at} is not changed", "frame", z3.ForAll([r], z3.Or(*ex, z3.Select(a, r) == z3.Select(b, r))))

    def verify_lemma(self, lm: api.Lemma) -> FuncReport:
        t0 = time.time()
        self.fuel = lm.fuel
        self.old_env = None
        try:
            def run() -> None:
                self.inputs = {}
                d: dict = {}
                for p, ts in lm.params.items():
                    ty = parse_type(ts)
                    t = z3.Const(p, sort_of(ty))
                    self.inputs[p] = V(ty, t)
                    d[p] = self.low(self.mk(ty, t))
                self.old_env = {}
                env = Env(d, None, None)
                for r in lm.requires:
                    self.assume(self.zb(self.spec_bool(r, env)))
                self.ih_guard = None
                for cs in lm.cases:
                    self.decide(self.zb(self.spec_bool(cs, env)))
                if lm.ih:
                    m = self.lift(self.spec_val(lm.measure or "0", env), INT)
                    self.ih_guard = (lm.name, m)
                    for h in lm.ih:
                        self.use_lemma(h, env)
                self.ih_guard = None
                for i, e in enumerate(lm.ensures):
                    self.oblige(f"lemma {lm.name} #{i}", "lemma", self.spec_bool(e, env))
            self.explore(run)
        except Undecided as u:
            self.report.undecided = str(u)
        self.report.secs = time.time() - t0
        self.report.assumptions = sorted(self.assumed)
        return self.report


def exc_bases(c: str) -> list[str]:
    if c in EXC_BASES:
        return EXC_BASES[c]
    out = ["Exception"]
    k = find_class(c)
    if k:
        for x in mro(k):
            out.append(x.name)
            for b in x.node.bases:
                if isinstance(b, ast.Name):
                    out.append(b.id)
                    out += EXC_BASES.get(b.id, [])
    return out


def _has_obj(t: T) -> bool:
    return t.k == "obj" or any(_has_obj(x) for x in t.a)


def _overlap(a: str, b: str) -> bool:
    """could an occurrence of a appear across a replaced b?"""
    if b == "":
        return True
    for i in range(1, len(a)):
        if b.endswith(a[:i]) or b.startswith(a[i:]):
            return True
    return any(a.startswith(b[k:]) for k in range(len(b))) or any(b[k:k + len(a)] == a for k in range(len(b))) or (len(b) < len(a) and b in a)


def walk_own(fn: Any) -> list:
    """nodes of a function without those of nested functions, in source order"""
    out: list = []

    def go(n: Any) -> None:
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            out.append(ch)
            go(ch)

    go(fn)
    return out


RE_FUNCS = ("match", "search", "fullmatch", "sub")
MUTATORS = {"append", "extend", "insert", "pop", "clear", "remove", "sort", "reverse", "add", "update"}


def assigned_names(s: Any) -> set:
    out: set = set()
    for q in ast.walk(s):
        if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
            out.add(q.id)
        elif isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in MUTATORS and isinstance(q.func.value, ast.Name):
            out.add(q.func.value.id)
        elif isinstance(q, (ast.Assign, ast.AugAssign)):
            for t in (q.targets if isinstance(q, ast.Assign) else [q.target]):
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    out.add(t.value.id)
    return out


def z3_same(a: Any, b: Any) -> bool:
    """same variables, same terms (variables that the body introduces are ignored)"""
    for n, x in a.items():
        y = b.get(n)
        if y is None or x[0] != y[0]:
            return False
        xs = x[1] if isinstance(x[1], list) else [x[1]]
        ys = y[1] if isinstance(y[1], list) else [y[1]]
        if len(xs) != len(ys):
            return False
        for p, q in zip(xs, ys):
            if isinstance(p, z3.AstRef) and isinstance(q, z3.AstRef):
                if not z3.eq(p, q):
                    return False
            elif isinstance(p, z3.AstRef) or isinstance(q, z3.AstRef) or p != q:
                return False
    return True


def mutated_attrs(s: Any) -> set:
    """heap fields that the text of the loop changes (what its calls change is found out when its body is evaluated: see Restart)"""
    out: set = set()
    for q in ast.walk(s):
        if isinstance(q, ast.Attribute) and isinstance(q.ctx, ast.Store):
            out.add(q.attr)
        elif isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in MUTATORS and isinstance(q.func.value, ast.Attribute):
            out.add(q.func.value.attr)
        elif isinstance(q, ast.AugAssign) and isinstance(q.target, ast.Attribute):
            out.add(q.target.attr)
    return out


def _classes_all() -> list:
    from .engine import _classes
    find_class("__none__")
    return list(_classes.values())
