#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current working tree (deductive part + bounded stand-in)."""
from __future__ import annotations
import glob, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
PVT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"


def main() -> int:
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"vcheck_{prop}_")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=f"{ROOT}:/repo/src", TMPDIR=tmp, VERIF_SCRATCH=tmp, PYVC_REPO_SRC="/repo/src")
    nproof, nw = 3, 5
    budget = 75 if tier == "quick" else 480
    scale = 1.0 if tier == "quick" else 8.0
    fb = 300 if tier == "quick" else 500
    try:
        env_p = dict(env, PYVC_FUNC_BUDGET=str(fb), TMPDIR=tmp)
        proof = subprocess.Popen([PVT, "-m", "pyvc.prove", prop, os.path.join(tmp, "proof.json"), str(nproof), str(fb + 200)], cwd=ROOT, env=env_p, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ws = []
        for i in range(nw):
            out = os.path.join(tmp, f"w{i}.json")
            ws.append((out, subprocess.Popen([VENV, "-m", "bounded.worker", prop, "--worker", f"{i}/{nw}", "--seed", str(seed), "--budget", str(budget), "--scale", str(scale), "--out", out],
                                             cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bres = []
        notes = []
        for out, p in ws:
            try:
                so, _ = p.communicate(timeout=budget * 2 + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                so = "timeout"
            if os.path.exists(out):
                bres.append(json.load(open(out)))
            else:
                notes.append("bounded worker died: " + (so or "")[-1500:])
        try:
            so, _ = proof.communicate(timeout=max(5, 780 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            proof.kill()
            so = "proof timeout"
        pj = os.path.join(tmp, "proof.json")
        pr = json.load(open(pj)) if os.path.exists(pj) else {"functions": [], "error": (so or "")[-1500:]}
        return report(prop, tier, seed, t0, pr, bres, notes, env, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def observable(target: str) -> bool:
    """functions whose result is the observable behaviour itself: an input that breaks their contract breaks the property.
    The contract of any other function is a step of the argument: a caller may compensate for a change of it."""
    m, _, q = target.partition(":")
    return m.startswith("codemanip.") and not q.startswith("_")


def internal(v: dict) -> bool:
    return v.get("kind") == "contract" and not observable(v["label"])


def report(prop, tier, seed, t0, pr, bres, notes, env, tmp) -> int:
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    me = next((c for c in man["checks"] if c["property"] == prop), {"level": "proof"})
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    known = [k for k in kf["findings"] if k["property"] == prop]
    viol = []
    for b in bres:
        viol += b["violations"]
    errors = [e for b in bres for e in b["errors"]]
    # known findings: identified by a literal signature of the failing input
    out_known = set()
    fresh = []
    for v in viol:
        txt = json.dumps(v, default=str)
        k = next((k for k in known if k["label"] == v.get("label") and k["match"] in txt), None)
        if k:
            out_known.add(k["id"])
        else:
            fresh.append(v)
    # deductive part
    obl = dis = 0
    refuted, und = [], []
    secs = 0.0
    backends: dict = {}
    for f in pr["functions"]:
        secs += f["secs"]
        ok = not f["undecided"]
        for o in f["obligations"]:
            obl += 1
            if o["status"] == "discharged":
                dis += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else:
                ok = False
        if f["undecided"]:
            und.append(f"{f['target']}: {f['undecided']}")
            obl += 1          # an unprocessed function counts as one obligation that is not discharged
        bad = [o for o in f["obligations"] if o["status"] == "refuted"]
        aux = [o for o in f["obligations"] if o["status"] != "discharged" and o["kind"] in ("inv-init", "inv-step", "decreases", "cover")]
        if bad and not f["undecided"]:
            posts = [o for o in bad if o["kind"] in ("post", "raise", "pre", "lemma")]
            if posts and not aux:
                refuted += [(f, o) for o in posts[:6]]
            else:
                und.append(f"{f['target']}: auxiliary obligation fails: {bad[0]['name']}")
        elif not ok and not f["undecided"]:
            und.append(f"{f['target']}: " + ", ".join(o["name"] + " " + o["status"] for o in f["obligations"] if o["status"] != "discharged")[:300])
    lines = []
    rdir = os.path.join(ROOT, "replays")
    nviol = 0
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        v = min(fresh, key=lambda x: (internal(x), len(json.dumps(x, default=str))))
        rp = os.path.join(rdir, f"{prop}.json")
        json.dump({"property": prop, "seed": seed, "violation": v, "others": len(fresh) - 1, "refuted_obligations": [o["name"] for _, o in refuted]}, open(rp, "w"), indent=1, default=str)
        nviol += len(fresh)
        print(f"{prop}: {v['what']}")
        for k, x in (v.get("info") or {}).items():
            print(f"  {k}: {str(x)[:600]}")
        lines.append(f"VIOLATION property={prop} replay={rp}" + (" no-failing-input-found" if internal(v) else ""))
    while refuted and not fresh:
        # a counter-model on which the real function fulfils its contract, or one of a path through a comprehension (abstracted
        # by the verifier) that does not reproduce, says nothing: the obligation is not proved, that is all
        f, o = refuted[0]
        conc, holds = replay_models(f, o, env, tmp)
        if conc or not (holds or o.get("abstract")):
            break
        und.append(f"{f['target']}: not proved, its counter-model does not reproduce: {o['name']}")
        refuted.pop(0)
    if refuted and not fresh:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{prop}.json")
        json.dump({"property": prop, "failed_obligation": o["name"], "verifier_output": o, "function": f["target"], "replayed": conc}, open(rp, "w"), indent=1, default=str)
        nviol += 1
        print(f"{prop}: obligation fails: {o['name']}  ({o.get('detail', '')[:400]})")
        lines.append(f"VIOLATION property={prop} replay={rp}" + ("" if conc and observable(f["target"]) else " no-failing-input-found"))
    for k in known:
        if k["id"] in out_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    keys = set()
    for b in bres:
        keys |= set(b["keys"])
    ev = sum(b["evaluations"] for b in bres)
    contracts: dict = {}
    for b in bres:
        for k, s in b["contracts"].items():
            d = contracts.setdefault(k, {"evaluated": 0, "skipped": 0})
            d["evaluated"] += s["evaluated"]
            d["skipped"] += s["skipped"]
    samples = [s for b in bres for s in b["samples"]][:4]
    coverage = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": f"python3-vt -m pyvc.prove {prop} (z3 + cvc5 on obligations generated from /repo/src)",
        "trusted_base": sorted({"pyvc: the verification condition generator in /verif/pyvc", "z3", "cvc5", "CPython semantics of the supported subset; int unbounded, str as z3 unicode strings, lists not aliased unless through fields"} | {a for f in pr["functions"] for a in f["assumptions"]}),
        "functions_under_contract": [f["target"] for f in pr["functions"] if not f["undecided"]],
        "undecided": und, "solver_seconds": round(secs, 1), "discharged_by": backends,
        "evaluations": ev, "distinct_nontrivial": len(keys),
        "rule": "bounded stand-in (not counted as proved): directed cases, contract evaluations on generated arguments, generated headers through the real generator; a case is non-trivial when it reaches the oracle, counted by distinct input",
        "samples": samples or ["(none)"],
        "bounded_contract_evaluations": contracts,
        "harness_errors": [e["label"] + ": " + e["error"] for e in errors][:10] + notes,
        "explanation": "deductive part: obligations/discharged; bounded part: evaluations",
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": me["level"], "coverage": coverage, "assumptions": coverage["trusted_base"], "wall_s": round(time.time() - t0, 1), "violations": nviol},
              open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print(f"{prop}: obligations {dis}/{obl} discharged ({len(pr['functions'])} functions and lemmas), {ev} bounded evaluations, {len(keys)} distinct, {len(errors)} harness errors, {time.time() - t0:.0f}s")
    for u in und:
        print("  undecided:", u)
    for e in errors[:3]:
        print("  harness error:", e["label"], e["error"])
        if os.environ.get("VERIF_DEBUG"):
            print(e["trace"])
    for n in notes:
        print("  note:", n)
    if pr.get("error"):
        print("  proof runner:", pr["error"])
    for l in lines:
        print(l)
    return 1 if lines else 0


def replay_models(f, o, env, tmp):
    """run the real function on the verifier's counter-models: (the failing clause when one reproduces, whether the contract holds on all those of the obligation)"""
    mf = os.path.join(tmp, "models.json")
    json.dump({"target": f["target"], "models": f["models"], "obligation": o["name"]}, open(mf, "w"), default=str)
    try:
        p = subprocess.run([VENV, "-m", "bounded.replay_model", mf], cwd=ROOT, env=env, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return None, False
    for l in p.stdout.splitlines():
        if l.startswith("REPRODUCED "):
            return json.loads(l[11:]), False
    return None, "HOLDS" in p.stdout.splitlines()


if __name__ == "__main__":
    sys.exit(main())
