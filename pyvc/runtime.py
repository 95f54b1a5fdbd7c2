"""Concrete evaluation of contracts on the real functions (bounded stand-in and replay of counter-models)."""
from __future__ import annotations
import ast, copy, importlib, inspect, sys
from typing import Any, Optional
from . import api


def resolve(target: str) -> Any:
    m, q = target.split("#")[0].split(":")
    o: Any = importlib.import_module(m)
    for part in q.split("."):
        o = getattr(o, part)
    return o


class _Old(ast.NodeTransformer):
    def __init__(self) -> None:
        self.olds: list = []

    def visit_Call(self, n: ast.Call) -> Any:
        if isinstance(n.func, ast.Name) and n.func.id == "old":
            self.olds.append(ast.Expression(n.args[0]))
            return ast.copy_location(ast.Name(f"__old{len(self.olds) - 1}", ast.Load()), n)
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "implies" and len(n.args) == 2:
            return ast.copy_location(ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), n.args[0]), n.args[1]]), n)   # evaluated lazily
        return n


_cc: dict = {}


def compile_spec(text: str) -> tuple:
    if text not in _cc:
        t = _Old()
        tree = t.visit(ast.parse(text.strip(), mode="eval"))
        _cc[text] = (compile(ast.fix_missing_locations(tree), text[:60], "eval"), [compile(ast.fix_missing_locations(o), "old", "eval") for o in t.olds])
    return _cc[text]


def globals_of(c: api.Contract) -> dict:
    g: dict = {}
    for name, m in list(sys.modules.items()):
        if name.startswith("contracts.") and m is not None:
            for k, v in vars(m).items():
                if not k.startswith("__"):
                    g[k] = v
    g.update(api.SPECS)
    for n in ("implies", "forall", "exists", "only_chars"):
        g[n] = getattr(api, n)
    return g


_g: dict = {}


class Bad(Exception):
    pass


def evaluate(c: api.Contract, args: dict, key: str, ghosts: tuple = ()) -> Optional[dict]:
    """None: contract holds (or precondition false -> 'skip'); dict: violation"""
    if not _g:
        _g.update(globals_of(c))
    g = dict(_g)
    env = dict(args)
    hidden = {k: v for k, v in args.items() if k.startswith("_") or k in ghosts}
    pars = {k: v for k, v in args.items() if k not in hidden}
    for r in c.requires:
        if not eval(compile_spec(r)[0], g, dict(env)):
            return {"skip": True}
    shown = {k: repr(v)[:2000] for k, v in args.items()}
    old = {k: safe_copy(v) for k, v in pars.items()}
    olds: dict = {}
    for nm, e in c.ensures.items():
        code, os_ = compile_spec(e)
        for i, o in enumerate(os_):
            olds[(nm, i)] = safe_copy(eval(o, g, dict(env)))
    extra: dict = {}
    exc: Optional[BaseException] = None
    result: Any = None
    try:
        fn = resolve(c.target)
    except (AttributeError, ModuleNotFoundError):
        return {"skip": True}      # the function was moved or renamed: nothing to evaluate here
    if isinstance(fn, property) or type(fn).__name__ == "cached_property":
        fn = getattr(fn, "fget", None) or fn.func
    if c.call is None:
        try:
            inspect.signature(fn).bind(**pars)
        except TypeError:
            return {"skip": True}  # its parameters have other names
    try:
        if c.call is not None:
            result, extra = c.call(fn, args)
        else:
            result = fn(**pars)
    except (AssertionError, Exception) as e:  # noqa
        exc = e
        extra = getattr(e, "_extra", {})
    if exc is not None:
        names = {x.__name__ for x in type(exc).__mro__}
        eenv = {**g, **old, **extra}
        for ec, cond in c.raises.items():
            if ec in names:
                if eval(compile_spec(cond)[0], eenv):
                    return None
                return {"contract": key, "clause": f"{ec} only when specified", "args": shown, "got": f"{type(exc).__name__}: {str(exc)[:300]}"}
        return {"contract": key, "clause": f"no {type(exc).__name__}", "args": shown, "got": f"{type(exc).__name__}: {str(exc)[:300]}"}
    env2 = {**g, **pars, **{"old_" + k: v for k, v in old.items()}, **hidden, **extra, "result": result}
    for k, v in old.items():
        if isinstance(v, (str, int, float, bool, tuple, type(None))) and k not in extra:
            env2[k] = v
    for nm, e in c.ensures.items():
        code, os_ = compile_spec(e)
        env3 = dict(env2)
        for i in range(len(os_)):
            env3[f"__old{i}"] = olds[(nm, i)]
        try:
            ok = eval(code, env3)
        except AttributeError:
            return {"skip": True}      # fields were renamed
        except Exception as ex:  # noqa
            return {"contract": key, "clause": nm, "args": shown, "got": f"result={result!r:.500}; the clause itself fails: {type(ex).__name__}: {ex}"}
        if not ok:
            return {"contract": key, "clause": nm, "args": shown, "got": f"result={result!r:.1500}"}
    return None


def safe_copy(v: Any) -> Any:
    try:
        return copy.deepcopy(v)
    except Exception:
        return v
