"""Check of one property: verify every contract it depends on, report, replay violations natively.

usage: python3-vt -m kv.run <property id>
"""
import sys, os, time, json, importlib, traceback, subprocess, shutil, concurrent.futures as cf, multiprocessing, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from . import sym as S, prove as P
from .cast import TU, REPO, ExtractionError
from .verify import verify, Contract
from .check import load_hints
from spec.registry import PROPS, ASSUMPTIONS, TRUSTED, DRIVERS, ALLMODS

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
BUDGET = float(os.environ.get("KV_BUDGET", "780" if TIER == "quick" else "3000"))
CORES = min(8, os.cpu_count() or 4)

def load_all():
    byq, bykey = {}, {}
    for m in ALLMODS:
        mod = importlib.import_module("spec." + m)
        for c in mod.CONTRACTS:
            k = c(); k.key = m + "." + k.name; k.driver = getattr(mod, "DRIVER", "knor")
            byq.setdefault(k.qname, []).append(k); bykey[k.key] = k
    return byq, bykey

TUS = {}
BYQ, BYKEY = load_all()
HINTS = load_hints()

def summarise(c, reps):
    out = []
    for r in reps:
        by = {}
        for o in r.obls:
            if o.result is not None and o.result.ok: by[o.result.backend] = by.get(o.result.backend, 0) + 1
        out.append(dict(contract=c.key, function=r.qname, file=os.path.relpath(r.file, REPO) if r.file and r.file.startswith("/") else r.file,
            line=r.line, status=r.status, detail=r.detail, obligations=len(r.obls), discharged=sum(by.values()), backends=by,
            solver_s=round(r.solver_time, 2), wall_s=round(r.time, 2), loops=[dict(func=l["func"], invariants=len(l["invariants"])) for l in r.loops],
            inlined=r.inlined, used=r.used, assumed=r.assumed,
            failed=[dict(name=o.name, kind=o.kind, line=o.where, function=o.func, verdict=o.result.status if o.result else "none",
                         reason=(o.result.reason if o.result else ""), model=model_text(o)) for o in r.failed()]))
    return out

def model_text(o):
    m = o.result.model if o.result is not None else None
    if m is None: return ""
    try:
        xs = []
        for d in m.decls():
            if d.arity() == 0 and not d.name().startswith(("ext", "q")): xs.append("%s = %s" % (d.name(), m[d]))
        return "; ".join(sorted(xs)[:60])
    except Exception: return ""

def work(a):
    key, mode = a
    c = BYKEY[key]
    tu = TUS.get(c.driver)
    t = time.time()
    if tu is None or isinstance(tu, str):
        return key, mode, [dict(contract=key, function=c.qname, file="", line=0, status="unsupported", detail="source not loadable: %s" % tu, obligations=0,
            discharged=0, backends={}, solver_s=0, wall_s=0, loops=[], inlined=[], used=[], assumed=[], failed=[])]
    try:
        if mode == "hints":
            reps = verify(tu, BYQ, c, {"hints": HINTS, "inv_timeout": 4000, "deadline": t + (260 if c.one_point else 300)}, timeout=6000)
        else:
            reps = verify(tu, BYQ, c, {"nohints": True, "inv_timeout": 2500, "deadline": min(t + (200 if c.one_point else 330), T0 + BUDGET)}, timeout=8000)
        return key, mode, summarise(c, reps)
    except Exception as e:
        return key, mode, [dict(contract=key, function=c.qname, file="", line=0, status="unsupported", detail="verifier error: %r" % e, obligations=0,
            discharged=0, backends={}, solver_s=0, wall_s=time.time() - t, loops=[], inlined=[], used=[], assumed=[], failed=[], trace=traceback.format_exc())]

class Replay:
    """the native harness, started as soon as something is not proved; its verdict ends the search for a proof early"""
    def __init__(self, pid, src): self.pid, self.src, self.f, self.ex = pid, src, None, cf.ThreadPoolExecutor(1)
    def start(self):
        if self.f is None and self.src: self.f = self.ex.submit(native, self.pid, self.src, None, 25 if TIER == "quick" else 200)
    def failed(self): return self.f is not None and self.f.done() and self.f.result()[0] == "fail"
    def result(self):
        self.start(); return self.f.result() if self.f else None

def verify_property(pr, replay):
    need = {BYKEY[k].driver for k in pr["contracts"]} | {"knor"}    # the library proper: contracts of callees are verified there
    for d in sorted(need):
        src, flt = DRIVERS[d]
        try: TUS[d] = TU(os.path.join(HERE, src), filters=flt)
        except Exception as e: TUS[d] = repr(e)[:1500]
    res = {}; seen = set()
    ctx = multiprocessing.get_context("fork")
    with cf.ProcessPoolExecutor(CORES, mp_context=ctx) as ex:
        pend = {}
        def add(k, mode="hints"):
            pend[ex.submit(work, (k, mode))] = (k, mode)
        for k in pr["contracts"]:
            seen.add(k); add(k)
        if pr.get("bounded") or TIER == "thorough": replay.start()
        while pend:
            done, _ = cf.wait(list(pend), timeout=max(1.0, min(3.0, T0 + BUDGET + 30 - time.time())), return_when=cf.FIRST_COMPLETED)
            if replay.failed() or time.time() > T0 + BUDGET + 30: break
            for f in done:
                k, mode = pend.pop(f)
                try: key, mode, rs = f.result()
                except Exception as e:
                    rs = [dict(contract=k, function=BYKEY[k].qname, file="", line=0, status="unsupported", detail="worker ended: %r" % e, obligations=0, discharged=0,
                               backends={}, solver_s=0, wall_s=0, loops=[], inlined=[], used=[], assumed=[], failed=[])]
                bad = any(r["status"] != "proved" for r in rs)
                if bad: replay.start()
                # a second search from scratch, unless the first one already spent a one-point contract's time
                spent = BYKEY[k].one_point and any(r["status"] == "unsupported" and "time budget" in (r.get("detail") or "") for r in rs)
                if bad and not spent and mode == "hints" and any(r["status"] != "missing" for r in rs) and time.time() < T0 + BUDGET * 0.6:
                    add(k, "full")
                if k in res and mode == "full":
                    # keep the better verdict: a proof stands; otherwise obligations that really failed beat exhaustion
                    old = res[k]
                    if bad and not any(r["failed"] for r in rs) and any(r["failed"] for r in old): rs = old
                res[k] = rs
                for r in rs:
                    for u in r["used"]:
                        if u not in seen and u in BYKEY and BYKEY[u].driver in TUS:
                            seen.add(u); add(u)
        for f in pend: f.cancel()
        for k in seen:
            if k not in res:
                res[k] = [dict(contract=k, function=BYKEY[k].qname, file="", line=0, status="unsupported", detail="not attempted: the native harness already found a failing input" if replay.failed() else "time budget exhausted", obligations=0, discharged=0,
                               backends={}, solver_s=0, wall_s=0, loops=[], inlined=[], used=[], assumed=[], failed=[])]
        if pend:
            for p in list(ex._processes.values()): p.kill()
    return res

# ------------------------------------------------------------------ native replay / bounded stand-in
CXX = ["g++", "-std=c++11", "-O1", "-g", "-w", "-fopenmp", "-DUSE_NUMA", "-DSTATISTICS", "-fno-access-control", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,float-divide-by-zero"]
def native(pid, src, logdir, secs):
    """builds the harness against the current sources and runs it; returns (status, output)"""
    bd = tempfile.mkdtemp(prefix="kvn_")
    exe = os.path.join(bd, "h")
    cxx = list(CXX); libs = ["-lnuma", "-lpthread"]
    if "dist.hpp" in open(src).read(200): cxx.append("-fno-sanitize=vptr")   # the distributed constructors call a member function to compute the argument of the base constructor
    cmd = cxx + ["-I" + os.path.join(HERE, "native")] + ["-I%s/%s" % (REPO, d) for d in ("libkcommon", "libman", "libauto", "libdist")] + [src, "-o", exe] + libs
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=240)
        if r.returncode: return "nobuild", " ".join(cmd) + "\n" + r.stderr[-3000:]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_odr_violation=0", OMP_NUM_THREADS="4")
        try: r = subprocess.run([exe, str(SEED), str(secs)], capture_output=True, text=True, timeout=secs * 3 + 60, env=env, cwd=bd, errors="replace")
        except subprocess.TimeoutExpired as e: return "timeout", "harness did not finish (possible hang)\n" + str(e.stdout)[-2000:]
        return ("pass" if r.returncode == 0 else "timeout" if r.returncode == 3 else "fail"), r.stdout[-6000:] + r.stderr[-6000:]
    except subprocess.TimeoutExpired: return "nobuild", "compile timeout"
    finally: shutil.rmtree(bd, ignore_errors=True)

def main():
    pid = sys.argv[1]
    pr = PROPS[pid]
    src = os.path.join(HERE, "native", pr["native"]) if pr.get("native") else None
    if src and not os.path.exists(src): src = None
    rp = Replay(pid, src)
    res = verify_property(pr, rp)
    rows = [r for k in sorted(res) for r in res[k]]
    failed = [r for r in rows if r["status"] == "failed"]
    lost = [r for r in rows if r["status"] in ("unsupported", "missing")]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); os.makedirs(os.path.join(HERE, "build", "replay"), exist_ok=True)
    replay = os.path.join(HERE, "build", "replay", pid + ".txt")
    nat = None; viol = 0; line = None
    want_native = failed or lost or pr.get("bounded") or TIER == "thorough"
    if src and want_native: nat = rp.result()
    if failed or (nat and nat[0] == "fail"):
        viol = 1
        with open(replay, "w") as f:
            f.write("property %s\n" % pid)
            for r in failed:
                f.write("\nfunction %s (%s:%s), contract %s\n" % (r["function"], r["file"], r["line"], r["contract"]))
                for o in r["failed"]: f.write("  failed obligation [%s] %s (in %s, line %s): %s %s\n    verifier model: %s\n" % (o["kind"], o["name"], o["function"], o["line"], o["verdict"], o["reason"], o["model"]))
            for r in lost: f.write("\nnot verified: %s: %s\n" % (r["function"], r["detail"]))
            if nat: f.write("\nnative replay against the real code: %s\n%s\n" % nat)
        line = "VIOLATION property=%s replay=%s" % (pid, replay)
        if not (nat and nat[0] == "fail"): line += " no-failing-input-found"
    # ---------------------------------------------------------------- evidence
    n = sum(r["obligations"] for r in rows); d = sum(r["discharged"] for r in rows)
    backs = {}
    for r in rows:
        for b, v in r["backends"].items(): backs[b] = backs.get(b, 0) + v
    assumed = sorted({a for r in rows for a in r["assumed"]})
    ev = dict(property=pid, tier=TIER, seed=SEED, level=pr["level"], wall_s=round(time.time() - T0, 1), violations=viol,
        assumptions=ASSUMPTIONS + pr.get("assumptions", []) + assumed,
        coverage=dict(obligations=n, discharged=d, checker_cmd="python3-vt -m kv.run " + pid, trusted_base=TRUSTED,
            backends=backs, solver_s=round(sum(r["solver_s"] for r in rows), 2),
            functions_under_contract=len({r["function"] for r in rows if r["status"] == "proved"}),
            functions=[dict(function=r["function"], contract=r["contract"], at="%s:%s" % (r["file"], r["line"]), status=r["status"], detail=r["detail"], obligations=r["obligations"],
                            discharged=r["discharged"], solver_s=r["solver_s"], loops=r["loops"], inlined_callees=r["inlined"], callee_contracts=r["used"]) for r in rows],
            not_verified_this_run=[r["function"] + ": " + r["detail"] for r in lost],
            bounded_not_counted_as_proved=pr.get("bounded", []),
            native_stand_in=dict(run=nat is not None, result=nat[0] if nat else "not needed", report=(nat[1][-800:] if nat else ""))))
    if pr["level"] == "other": ev["coverage"]["explanation"] = pr["note"]
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for r in rows: print("%-11s %4d/%-4d %6.1fs  %s %s" % (r["status"], r["discharged"], r["obligations"], r["wall_s"], r["function"], r["detail"][:160]))
    for r in failed:
        for o in r["failed"]: print("  failed obligation: %s [%s] in %s line %s" % (o["name"], o["kind"], o["function"], o["line"]))
    if nat: print("native:", nat[0], nat[1][-600:])
    known = []
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("finding: property=%s " % pid): known.append(l[len("finding: "):].strip())
    for l in known: print("KNOWN-FINDING: " + l)
    print("%s: %d/%d obligations discharged, %d functions, %.1fs" % (pid, d, n, len(rows), time.time() - T0))
    if line: print(line); sys.stdout.flush(); sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        print("no verdict: internal error of the check"); sys.exit(2)
