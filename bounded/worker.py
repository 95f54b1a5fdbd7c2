"""worker: python -m bounded.worker PROP --worker i/n --seed s --budget seconds --count N --out FILE
Runs directed cases, contract evaluations and random end-to-end cases of one property."""
from __future__ import annotations
import argparse, importlib, io, json, os, random, sys, time, traceback, contextlib, hashlib
sys.setrecursionlimit(20000)
from . import core
from pyvc import api, runtime


def one(kind: str, label: str, fn, rng, res: dict) -> None:
    res["evaluations"] += 1
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            r = fn(rng)
    except core.Skip:
        res["skipped"] += 1
        return
    except core.Violation as v:
        res["violations"].append({"kind": kind, "label": label, "what": v.what, "info": v.info})
        return
    except Exception as e:  # harness error or a crash of the code under test outside a guarded call
        res["errors"].append({"kind": kind, "label": label, "error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-3000:], "stdout": buf.getvalue()[-500:]})
        return
    if r is not None:
        key, sample = r
        res["keys"].add(hashlib.sha1(str(key).encode()).hexdigest()[:16])
        if len(res["samples"]) < 3:
            res["samples"].append(sample if isinstance(sample, (dict, str)) else repr(sample))


def main() -> None:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--worker", default="0/1")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--out")
    a = ap.parse_args()
    wi, wn = map(int, a.worker.split("/"))
    t0 = time.time()
    core.load_contracts()
    res: dict = {"evaluations": 0, "skipped": 0, "violations": [], "errors": [], "keys": set(), "samples": [], "contracts": {}}
    try:
        mod = importlib.import_module("bounded." + a.prop.lower())
    except ModuleNotFoundError as e:
        if f"bounded.{a.prop.lower()}" not in str(e):
            raise
        mod = None
    # 1. directed cases
    directed = list(getattr(mod, "DIRECTED", [])) if mod else []
    for i, fn in enumerate(directed):
        if i % wn == wi:
            one("directed", fn.__name__, lambda rng: fn(), None, res)
    # 2. contracts on generated inputs
    cs = [(k, c) for k, c in api.CONTRACTS.items() if a.prop in c.props and c.gen is not None and not c.trusted]
    for j, (k, c) in enumerate(cs):
        n = int(c.n * a.scale / wn) + 1
        rng = random.Random(f"{a.seed}/{k}/{wi}")
        st = {"evaluated": 0, "skipped": 0}
        for _ in range(n):
            if time.time() - t0 > a.budget * 0.5 or len(res["violations"]) > 5:
                break
            def ev(r, k=k, c=c, st=st):
                args = c.gen(r)
                v = runtime.evaluate(c, args, k)
                if v is not None and v.get("skip"):
                    st["skipped"] += 1
                    raise core.Skip()
                st["evaluated"] += 1
                if v is not None:
                    raise core.Violation(f"contract of {v['contract']}: {v['clause']}", **v)
                return (k, repr(args)), None
            one("contract", k, ev, rng, res)
        res["contracts"][k] = st
    # 3. random cases
    rnd = list(getattr(mod, "RANDOM", [])) if mod else []   # (fn, weight count)
    for fn, count in rnd:
        rng = random.Random(f"{a.seed}/{fn.__name__}/{wi}")
        for i in range(int(count * a.scale / wn) + 1):
            if time.time() - t0 > a.budget or len(res["violations"]) > 5:
                break
            case_seed = rng.randrange(1 << 60)
            nv = len(res["violations"])
            one("random", fn.__name__, fn, random.Random(case_seed), res)
            if len(res["violations"]) > nv:
                res["violations"][-1]["case_seed"] = case_seed
    res["samples"] = [s for s in res["samples"] if s]
    res["keys"] = sorted(res["keys"])
    res["wall"] = time.time() - t0
    with open(a.out, "w") as f:
        json.dump(res, f, default=repr)


if __name__ == "__main__":
    main()
