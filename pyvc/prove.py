"""python3-vt -m pyvc.prove PROP OUT.json NPROC WALL: discharge every obligation of one property"""
from __future__ import annotations
import json, multiprocessing as mp, os, sys, time
sys.setrecursionlimit(10000)
from . import api
from .__main__ import load


def job(q: tuple) -> dict:
    kind, key = q
    from .stmts import Machine
    sm = job.sm  # type: ignore
    try:
        if kind == "c":
            r = Machine(key, api.CONTRACTS[key], sm).verify()
        else:
            r = Machine("lemma " + key, None, sm).verify_lemma(api.LEMMAS[key])
    except Exception as e:  # noqa
        return {"target": key, "obligations": [], "undecided": f"engine: {type(e).__name__}: {e}", "secs": 0, "paths": 0, "assumptions": [], "models": []}
    obs = [{"name": o.name, "kind": o.kind, "status": o.status, "backend": o.backend, "secs": round(o.secs, 3), "detail": o.detail, "abstract": o.abstract} for o in r.obligations]
    und = r.undecided
    if not und and not obs:
        und = "no obligation generated"
    return {"target": r.target, "obligations": obs, "undecided": und, "secs": r.secs, "paths": r.paths, "assumptions": r.assumptions, "models": r.models}


def run(q: tuple, conn) -> None:
    conn.send(job(q))
    conn.close()


def main() -> None:
    prop, out, nproc, wall = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    job.sm = load()  # type: ignore
    qs = [("c", k) for k, c in api.CONTRACTS.items() if prop in c.props and not c.trusted and not c.bounded_only]
    qs += [("l", k) for k, l in api.LEMMAS.items() if prop in l.props and not l.axiom]
    qs.sort(key=lambda q: -(api.CONTRACTS[q[1]].cost if q[0] == "c" else 0))
    t0 = time.time()
    res = {}
    pending = list(enumerate(qs))
    running = []
    while pending or running:
        while pending and len(running) < nproc:
            i, q = pending.pop(0)
            a, b = mp.Pipe()
            p = mp.Process(target=run, args=(q, b))
            p.start()
            b.close()
            running.append((i, q, p, a))
        still = []
        for i, q, p, a in running:
            if a.poll(0):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = {"target": q[1], "obligations": [], "undecided": "verifier process died", "secs": 0, "paths": 0, "assumptions": [], "models": []}
                p.join()
            elif not p.is_alive() and not a.poll(0):
                res[i] = {"target": q[1], "obligations": [], "undecided": "verifier process died", "secs": 0, "paths": 0, "assumptions": [], "models": []}
            elif time.time() - t0 > wall:
                p.kill()
                res[i] = {"target": q[1], "obligations": [], "undecided": "time budget", "secs": 0, "paths": 0, "assumptions": [], "models": []}
            else:
                still.append((i, q, p, a))
        running = still
        time.sleep(0.02)
    json.dump({"functions": [res[i] for i in sorted(res)]}, open(out, "w"), default=str)


if __name__ == "__main__":
    main()
