import sys, time, importlib, os, json, argparse, multiprocessing
from . import sym as S, prove as P
from .cast import TU
from .verify import verify, hint_key
HINTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "hints.json")
def load(mods):
    out = {}
    for m in mods:
        mod = importlib.import_module("spec." + m)
        for c in mod.CONTRACTS:
            k = c()
            out.setdefault(k.qname, []).append(k)
    return out
def load_hints():
    try: return json.load(open(HINTS))
    except FileNotFoundError: return {}
def show(r, full=False):
    bad = r.failed()
    print("%-10s %-50s obls %3d bad %d  %.1fs (solver %.1fs) %s" % (r.status, r.name, len(r.obls), len(bad), r.time, r.solver_time, r.detail), flush=True)
    for o in bad: print("    ", o.kind, o.name, "line", o.where, o.func, o.result.status if o.result else None, o.result.reason if o.result else "")
    if full:
        for l in r.loops: print("    loop", l)
        if getattr(r, "trace", None): print(r.trace[-1500:])
def _callone(i): return _ONE(_TODO[i])
if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("driver"); ap.add_argument("mods"); ap.add_argument("only", nargs="?", default="")
    ap.add_argument("-d", action="store_true"); ap.add_argument("-n", action="store_true", help="no hints"); ap.add_argument("-w", action="store_true", help="write hints")
    ap.add_argument("-j", type=int, default=1); ap.add_argument("-t", type=int, default=6000); ap.add_argument("-i", type=int, default=2500)
    o = ap.parse_args()
    tu = TU(o.driver, filters=("no",) if "auto" in o.driver else ("knor",))
    mods = o.mods.split(",")
    cs = load(mods)
    only = o.only.split(",") if o.only else None
    hints = load_hints()
    todo = [c for l in cs.values() for c in l if (not only or c.name in only) and type(c).__module__ == "spec." + mods[0]]
    opts = {"debug": o.d, "hints": hints, "nohints": o.n, "inv_timeout": o.i}
    def one(c):
        out = []
        for r in verify(tu, cs, c, opts, timeout=o.t):
            show(r, o.d)
            out.append((c.name + "|" + r.qname, r.status, {l["key"]: l["invariants"] for l in r.loops}))
        return out
    res = []
    if o.j > 1:
        import concurrent.futures as cf
        globals()["_ONE"] = one; globals()["_TODO"] = todo
        with cf.ProcessPoolExecutor(o.j, mp_context=multiprocessing.get_context("fork")) as p:
            res = [x for l in p.map(_callone, range(len(todo))) for x in l]
    else:
        for c in todo: res += one(c)
    if o.w:
        if os.path.exists(HINTS): hints = json.load(open(HINTS))     # another run may have written meanwhile
        for k, st, h in res:
            if (st == "proved" or os.environ.get("KV_ANYHINTS")) and h: hints[k] = h
        json.dump(hints, open(HINTS, "w"), indent=0, sort_keys=True)
