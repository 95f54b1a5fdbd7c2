import sys, os, glob, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)
from pyvc import api
from pyvc.stmts import Machine, SpecModule
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load():
    fs = sorted(glob.glob(os.path.join(ROOT, "contracts", "*.py")))
    for f in fs:
        b = os.path.basename(f)[:-3]
        if b != "__init__":
            importlib.import_module("contracts." + b)
    return SpecModule([f for f in fs])

if __name__ == "__main__":
    sm = load()
    pats = sys.argv[1:]
    tot = ok = 0
    for k, c in api.CONTRACTS.items():
        if pats and not any(p in k or p in c.props for p in pats) or c.trusted or c.bounded_only:
            continue
        r = Machine(k, c, sm).verify()
        st = {}
        for o in r.obligations:
            st[o.status] = st.get(o.status, 0) + 1
        print(f"{'OK ' if not r.undecided and set(st)=={'discharged'} else 'BAD'} {k} paths={r.paths} {st} {r.secs:.1f}s {r.undecided}")
        for o in r.obligations:
            if o.status != "discharged":
                print("     ", o.status, o.name, o.detail[:300])
    for n, l in api.LEMMAS.items():
        if l.axiom or pats and not any(p in n or p in l.props for p in pats):
            continue
        r = Machine("lemma " + n, None, sm).verify_lemma(l)
        print(f"lemma {n}", [(o.status, o.detail[:200]) for o in r.obligations], r.undecided, f"{r.secs:.1f}s")
