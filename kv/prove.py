"""Discharges obligations: skolemisation, ground instantiation, sum unfolding and extensionality,
then z3 (and cvc5 as second opinion on request)."""
import z3, time, subprocess, tempfile, os
from . import sym as S

class Result:
    __slots__ = ("status", "time", "backend", "model", "reason")
    def __init__(self, status, t, backend="z3", model=None, reason=""):
        self.status = status; self.time = t; self.backend = backend; self.model = model; self.reason = reason
    @property
    def ok(self): return self.status == "proved"

RELEVANCY = int(os.environ.get("KV_REL", "0"))
STATS = dict(queries=0, time=0.0)

def _ground_sums(fs):
    out = {}
    for f in fs:
        for t in S.scan(f)[1]: out[t.get_id()] = t
    return list(out.values())

def _monos(fs):
    out = {}
    for f in fs:
        for t in S.scan(f)[2]: out[t.get_id()] = t
    return list(out.values())

def _uniq(fs):
    seen = set(); out = []
    for f in fs:
        k = f.get_id()
        if k in seen: continue
        seen.add(k); out.append(f)
    return out

ONE_POINT = False      # per contract: also offer "sums that differ at one point" and "sum of zeros" facts
def sum_lemmas(ground, ext=True, rounds=1, maxpairs=80, points=(), zeros=False):
    lem = []
    done = set(); dpairs = set()
    cur = list(ground)
    for rnd in range(rounds):
        sums = _ground_sums(cur + lem)
        new = []
        for t in sums:
            if t.get_id() in done: continue
            done.add(t.get_id())
            s = S.SUM_BY_DECL[t.decl().name()]
            ch = t.children(); params, n = ch[:-1], ch[-1]
            zero = z3.IntVal(0) if s.sort == S.I else S.rlit(0)
            if s.kind == "min":
                zero = S.DBL_MAX
                new.append(t <= S.DBL_MAX)
            nm1 = S.norm(n - 1)
            new.append(z3.Implies(n <= 0, t == zero))
            if not (z3.is_int_value(n) and n.as_long() <= 0):
                prev = s.f(*(params + [nm1]))
                bd = S.sum_body(s, params, nm1)
                if s.kind == "min": new.append(z3.Implies(n >= 1, t == z3.If(bd < prev, bd, prev)))
                else: new.append(z3.Implies(n >= 1, t == prev + bd))
                if s.kind == "min": new.append(prev <= S.DBL_MAX)
                done.add(prev.get_id())
                new.append(z3.Implies(nm1 <= 0, prev == zero))
        lem += new
    if ext:
        sums = [t for t in _ground_sums(cur + lem)]
        if zeros:
            for t in sums:
                s = S.SUM_BY_DECL[t.decl().name()]; n = t.children()[-1]
                if s.kind != "sum": continue
                sk = S.skolem(0, S.I, "zero_%d_" % t.get_id())
                lem.append(z3.Or(t == 0, z3.And(sk >= 0, sk < n, S.sum_body(s, t.children()[:-1], sk) != 0)))
        pairs = []
        for i in range(len(sums)):
            for j in range(i + 1, len(sums)):
                a, b = sums[i], sums[j]
                if a.sort() != b.sort(): continue
                if S.SUM_BY_DECL[a.decl().name()].kind != S.SUM_BY_DECL[b.decl().name()].kind: continue
                sa, sb = S.SUM_BY_DECL[a.decl().name()], S.SUM_BY_DECL[b.decl().name()]
                if sa is sb and all(x.eq(y) for x, y in zip(a.children()[:-1], b.children()[:-1])): continue
                na, nb = a.children()[-1], b.children()[-1]
                d = S.to_poly(na - nb)
                score = 0 if not d else (5 if list(d.keys()) == [()] else 1)
                if score == 5: continue
                # same symbol, permuted parameters, or symbols over the same arrays
                ua, ub = _ufs(sa.body), _ufs(sb.body)
                if not (ua & ub): continue
                if sa is sb: score += 0.5
                pairs.append((score, i, j, a, b, sa, sb, na, nb))
        pairs.sort(key=lambda x: x[:3])
        owners = points
        for sc, i, j, a, b, sa, sb, na, nb in pairs[:maxpairs]:
            sk = S.skolem(0, S.I, "ext_%d_%d_" % (a.get_id(), b.get_id()))
            ba = S.sum_body(sa, a.children()[:-1], sk)
            bb = S.sum_body(sb, b.children()[:-1], sk)
            if ba.eq(bb):
                lem.append(z3.Implies(na == nb, a == b)); continue
            lem.append(z3.Or(na != nb, a == b, z3.And(sk >= 0, sk < na, ba != bb)))
            if not owners or sa.kind != "sum": continue
            # sums whose terms agree everywhere but at one point differ by the terms at that point
            for u in owners:
                su = S.skolem(0, S.I, "one_%d_%d_%d_" % (a.get_id(), b.get_id(), u.get_id()))
                ca, cb = (S.sum_body(s_, t_.children()[:-1], su) for s_, t_ in ((sa, a), (sb, b)))
                ua, ub = (S.sum_body(s_, t_.children()[:-1], u) for s_, t_ in ((sa, a), (sb, b)))
                lem.append(z3.Or(na != nb, u < 0, u >= na, a - ua == b - ub, z3.And(su >= 0, su < na, su != u, ca != cb)))
    return lem

_ufc = {}
def _ufs(t):
    k = t.get_id()
    if k in _ufc: return _ufc[k][1]
    out = set()
    for x in S.subterms([t]):
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n in S.SUM_BY_DECL and ONE_POINT: out |= _ufs(S.SUM_BY_DECL[n].body)
            elif n not in ("imul", "rmul", "rinv", "sqrt"): out.add(n.split("!")[0])
    _ufc[k] = (t, out)
    return out

def cancel_lemmas(ground):
    lem = []
    for t in _monos(ground):
        fs = S._factors(t)
        invs = [f for f in fs if z3.is_app(f) and f.decl().eq(S.rinv)]
        for iv in invs:
            b = iv.arg(0)
            for g in fs:
                if g.eq(b):
                    rest = list(fs)
                    for x in (iv, g):
                        for i, y in enumerate(rest):
                            if y.eq(x):
                                del rest[i]; break
                    r = S.rlit(1)
                    for x in rest: r = S.mul(r, x)
                    lem.append(z3.Implies(b != 0, t == r))
                    break
    return lem

def row_instances(fas, lem, rounds=3, limit=150):
    """instances of facts about f(row*width+col) and f(q) for the terms that the lemmas introduce (matching them is left to
    the solver's syntax otherwise, which may write the sum either way round)"""
    out = {}; new = lem
    for rd in range(rounds):
        terms = {}; got = {}
        for f in new:
            for t in S.scan(f)[3]: terms.setdefault(t.decl().name(), {})[t.get_id()] = t
        if not terms: break
        for fa in fas:
            for nm, ai, w, r in S.rowpats(fa):
                for t in terms.get(nm, {}).values():
                    for row, col in S.rowsplit(t, ai, w):
                        i = fa.inst(*((row, col) if r == 0 else (col, row)))
                        if i.get_id() not in out: got[i.get_id()] = i
            if rd == rounds - 1: continue
            for nm, ai in S.elempats(fa):
                for t in terms.get(nm, {}).values():
                    if t.num_args() > ai and z3.is_add(t.arg(ai)):
                        i = fa.inst(t.arg(ai))
                        if i.get_id() not in out: got[i.get_id()] = i
        if len(out) + len(got) > limit: break
        out.update(got); new = list(got.values())
    return list(out.values())

def build(assumes, goal, extra=(), ext=True, hints=(), limit=150):
    """returns list of z3 formulas whose unsatisfiability proves the goal"""
    ground = []; fas = []
    for a in assumes:
        if isinstance(a, S.FA): fas.append(a)
        else: ground.append(a)
    sk = []
    if isinstance(goal, S.FA):
        vs = [S.skolem(i, s) for i, s in enumerate(goal.sorts)]
        sk.append(vs)
        g = goal.inst(*vs)
    else:
        g = goal
    ground.append(S.Not(g))
    for vs in list(sk) + [list(h) for h in hints]:
        for fa in fas:
            if len(fa.sorts) == len(vs) and all(a == b.sort() for a, b in zip(fa.sorts, vs)):
                ground.append(fa.inst(*vs))
            elif len(vs) > 1 and len(fa.sorts) == 1:
                for v in vs:
                    if fa.sorts[0] == v.sort(): ground.append(fa.inst(v))
    ground = _uniq(ground)
    if not ONE_POINT: lem = sum_lemmas(ground, ext=ext)
    else:
        pts = {t.get_id(): t for t in S.subterms(ground) if z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith("omp_owner")}
        for h in hints:
            if len(h) == 1 and z3.is_int(h[0]): pts[h[0].get_id()] = h[0]
        lem = sum_lemmas(ground, ext=ext, points=list(pts.values()), zeros=True)
        if ext and any(S.SUM_BY_DECL[t.decl().name()].nested for t in _ground_sums(ground)):
            lem += sum_lemmas(lem, ext=True, maxpairs=40)     # the inner sums at the points the first round introduced
    lem += cancel_lemmas(ground + lem)
    lem += row_instances(fas, lem, limit=limit) if lem else []
    fs = list(ground) + lem + list(extra) + [fa.z() for fa in fas]
    return fs

def has_sum(a):
    if isinstance(a, S.FA): a = a.inst(*[S.skolem(i, x) for i, x in enumerate(a.sorts)])
    return bool(S.scan(a)[1])

def check(fs, timeout=8000, mbqi=False, seed=0):
    s = z3.SolverFor("ALL") if False else z3.Solver()
    s.set("timeout", timeout)
    s.set("auto_config", False)
    s.set("smt.mbqi", mbqi)
    s.set("smt.relevancy", RELEVANCY)
    s.set("smt.random_seed", seed)
    for a in S.AX(): s.add(a)
    for f in fs: s.add(f)
    t = time.time()
    r = s.check()
    dt = time.time() - t
    STATS["queries"] += 1; STATS["time"] += dt
    return r, s, dt

def prove(assumes, goal, timeout=8000, ext=True, extra=(), hints=(), backend="z3"):
    global ONE_POINT
    if not ONE_POINT: return prove_(assumes, goal, timeout, ext, extra, hints, backend)
    ONE_POINT = False
    try: r = prove_(assumes, goal, min(timeout, 2500), ext, extra, hints, backend)
    finally: ONE_POINT = True
    if r.ok: return r
    r = prove_(assumes, goal, timeout, ext, extra, hints, backend)
    return r if r.ok or r.status == "failed" else staged(assumes, goal, timeout * 2, ext, extra, hints)

def _equation(f):
    """the equation a comparison of sums concludes, if f is one"""
    if not z3.is_or(f): return None
    cs = f.children(); last = cs[-1]
    if not (z3.is_and(last) and str(last).find("!Int") >= 0): return None
    names = [x.decl().name() for x in S.subterms([last]) if z3.is_const(x)]
    if not any(n.startswith(("ext_", "one_", "zero_")) for n in names): return None
    return cs[-2]

def staged(assumes, goal, timeout, ext, extra, hints):
    """settle the comparisons of sums one by one (without quantifiers and without each other), then prove the goal from what they gave"""
    fs = build(assumes, goal, extra, ext, hints, limit=600)
    comp = [(f, _equation(f)) for f in fs]
    rest = [f for f, e in comp if e is None]; comp = [(f, e) for f, e in comp if e is not None]
    t = time.time()
    s = z3.Solver(); s.set("timeout", 400); s.set("auto_config", False)
    for f in rest:
        if not any(z3.is_quantifier(x) for x in S.subterms([f])): s.add(f)
    got = []
    for f, e in comp:
        s.push(); s.add(f, S.Not(e))
        if s.check() == z3.unsat: got.append(e)
        s.pop()
        if time.time() - t > 20: break
    STATS["queries"] += len(comp); STATS["time"] += time.time() - t
    r, s, dt = check(rest + got, timeout)
    return Result("proved" if r == z3.unsat else "unknown", time.time() - t, "z3", None, "" if r == z3.unsat else s.reason_unknown() if r == z3.unknown else "sat")
def prove_(assumes, goal, timeout=8000, ext=True, extra=(), hints=(), backend="z3"):
    g = goal
    if not isinstance(g, S.FA):
        if z3.is_true(g): return Result("proved", 0.0, "trivial")
        gs = z3.simplify(g)
        if z3.is_true(gs): return Result("proved", 0.0, "simplifier")
    if ext:
        gi = g.inst(*[S.skolem(i, x) for i, x in enumerate(g.sorts)]) if isinstance(g, S.FA) else g
        if not S.scan(gi)[1]:
            r, s, dt = check(build(assumes, goal, extra, False, hints), min(timeout, 1200))
            if r == z3.unsat: return Result("proved", dt, "z3")
            light = [a for a in assumes if not has_sum(a)]
            if len(light) < len(assumes):
                r, s, dt = check(build(light, goal, extra, False, hints), min(timeout, 1200))
                if r == z3.unsat: return Result("proved", dt, "z3")
    fs = build(assumes, goal, extra, ext, hints)
    r, s, dt = check(fs, timeout)
    if r == z3.unsat: return Result("proved", dt, "z3")
    model = None
    if r == z3.sat or r == z3.unknown:
        try: model = s.model()
        except z3.Z3Exception: model = None
    return Result("failed" if r == z3.sat else "unknown", dt, "z3", model, s.reason_unknown() if r == z3.unknown else "sat")

def cvc5_check(fs, timeout=20):
    s = z3.Solver()
    for a in S.AX(): s.add(a)
    for f in fs: s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt); p = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), p], capture_output=True, text=True, timeout=timeout + 10)
        return r.stdout.strip().splitlines()[0] if r.stdout.strip() else "error"
    except Exception as e:
        return "error"
    finally:
        os.unlink(p)
