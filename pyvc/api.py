"""Contract language of pyvc (pure Python, importable without z3: the same contract text is
evaluated symbolically by pyvc.engine and concretely by pyvc.runtime on the real functions)."""
from __future__ import annotations
import functools
from dataclasses import dataclass, field
from typing import Any, Callable, Optional


@dataclass
class Loop:
    inv: list[str]                      # invariants, over locals, parameters, _i (iterations done), _n (length), old_<param>
    types: dict[str, str] = field(default_factory=dict)   # types of havocked locals when not inferable
    decreases: Optional[str] = None     # for while loops
    use: list[str] = field(default_factory=list)  # lemma instances assumed at the loop head (name(args))
    use_end: list[str] = field(default_factory=list)  # lemma instances assumed at the end of the body


@dataclass
class Contract:
    target: str                         # "module:qualname"
    props: list[str]
    params: dict[str, str] = field(default_factory=dict)
    returns: Optional[str] = None
    requires: list[str] = field(default_factory=list)
    ensures: dict[str, str] = field(default_factory=dict)
    raises: dict[str, str] = field(default_factory=dict)   # exception class -> condition (over old params) under which it may be raised
    loops: dict[Any, Loop] = field(default_factory=dict)
    use: list[str] = field(default_factory=list)     # lemma instances assumed at return
    modifies: list[str] = field(default_factory=list)  # parameters (lists) or "obj.attr" the callee may change
    always: dict[str, str] = field(default_factory=dict)   # what holds however the function ends, also when it raises (no result)
    gen: Optional[Callable] = None      # gen(rng) -> dict of real arguments, for the bounded evaluation / replay
    call: Optional[Callable] = None     # call(real_function, args) when the call shape is special
    fuel: int = 2
    pure: bool = False                  # the result is a function of the arguments (object identities), whatever the heap: trusted contracts only
    trusted: bool = False               # assumed contract (never verified), must carry a reason
    reason: str = ""
    inline: bool = False                # verified, but callers inline the body instead of using the contract
    bounded_only: bool = False          # no proof attempted: contract only evaluated on generated inputs
    timeout: int = 15000
    ghost: dict[str, str] = field(default_factory=dict)
    each: str = ""                      # holds of every index _k of the resulting list: callers use it at each element that they access
    hide: list[str] = field(default_factory=list)   # callee contracts whose postconditions this proof does not need
    effect: str = ""                    # trusted contracts: name of the observable effect (e.g. a file write)
    cost: int = 0                       # scheduling hint
    n: int = 400                        # bounded evaluations per run (quick)


CONTRACTS: dict[str, Contract] = {}
SPECS: dict[str, Callable] = {}
LEMMAS: dict[str, "Lemma"] = {}
SCHEMAS: dict[str, dict[str, str]] = {"ReMatch": {}}
EXTERNALS: dict[str, tuple[list[str], str]] = {}   # uninterpreted pure functions: name -> (arg types, result type)
AXIOMS: dict[str, list[str]] = {}                  # external name -> facts over a0,a1,.. and r, assumed at each application


def contract(target: str, props: list[str], **kw: Any) -> Contract:
    c = Contract(target=target, props=props, **kw)
    if c.each:
        c.ghost = dict(c.ghost, _k="int")
        c.ensures = dict(c.ensures)
        c.ensures["each element"] = f"implies(0 <= _k and _k < len(result), {c.each})"
    key = target
    k = 2
    while key in CONTRACTS:
        key = f"{target}#{k}"
        k += 1
    CONTRACTS[key] = c
    return c


def _freeze(x: Any) -> Any:
    if isinstance(x, list):
        return ("L",) + tuple(_freeze(y) for y in x)
    if isinstance(x, tuple):
        return ("T",) + tuple(_freeze(y) for y in x)
    if isinstance(x, (str, int, bool, type(None))):
        return x
    return ("id", id(x))


def spec(fn: Callable) -> Callable:
    cache: dict[Any, Any] = {}

    @functools.wraps(fn)
    def wrapped(*args: Any) -> Any:
        key = tuple(_freeze(a) for a in args)
        if key not in cache:
            if len(cache) > 20000:
                cache.clear()
            cache[key] = fn(*args)
        return cache[key]

    wrapped.__pyvc_spec__ = True  # type: ignore
    SPECS[fn.__name__] = wrapped
    return wrapped


@dataclass
class Lemma:
    name: str
    params: dict[str, str]
    requires: list[str]
    ensures: list[str]
    ih: list[str]          # instances of lemmas (this one included, at a smaller measure) assumed in the proof
    measure: Optional[str]
    props: list[str]
    fuel: int = 2
    cases: list[str] = field(default_factory=list)
    axiom: str = ""        # a fact about Python that is assumed, not proved


def lemma(name: str, props: list[str], params: dict[str, str], requires: list[str], ensures: list[str],
          ih: Optional[list[str]] = None, measure: Optional[str] = None, fuel: int = 2, cases: Optional[list[str]] = None, axiom: str = "") -> None:
    LEMMAS[name] = Lemma(name, params, requires, ensures, ih or [], measure, props, fuel, cases or [], axiom)


def schema(cls: str, **fields: str) -> None:
    SCHEMAS.setdefault(cls, {}).update(fields)


def external(name: str, args: list[str], result: str, axioms: Optional[list[str]] = None) -> None:
    EXTERNALS[name] = (args, result)
    if axioms:
        AXIOMS[name] = axioms


def implies(a: bool, b: bool) -> bool:
    return (not a) or b


def forall(lo: int, hi: int, f: Callable[[int], bool]) -> bool:
    return all(f(i) for i in range(lo, hi))


def exists(lo: int, hi: int, f: Callable[[int], bool]) -> bool:
    return any(f(i) for i in range(lo, hi))


def only_chars(s: str, chars: str) -> bool:
    """every character of s is one of chars"""
    return all(c in chars for c in s)


class RealFn:
    """a repository function used inside a specification: symbolically its contract, concretely the real function"""

    def __init__(self, target: str):
        self.target = target
        self.fn: Any = None

    def __call__(self, *a: Any) -> Any:
        if self.fn is None:
            import importlib

            m, q = self.target.split(":")
            o = importlib.import_module(m)
            for part in q.split("."):
                o = getattr(o, part)
            self.fn = o
        return self.fn(*a)


def real(target: str) -> RealFn:
    return RealFn(target)
