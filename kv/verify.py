"""Verifies one function against its contract."""
import z3, re, time, traceback
from . import sym as S, ctypes_ as C, prove as P
from .exec import *
from .stmts import Stmts
from .view import View, PView, Spec, St
from .cast import TU, qt, ExtractionError

class Contract:
    qname = None; sig = None; targs = None; nparams = None; cls = None
    inline = False       # verified on its own but inlined at call sites
    throws = None        # def throws(self, s) -> condition under which it throws
    result = None        # def result(self, s): value a call yields (pointers into a family: the ensures then constrain it)
    returns = None       # def returns(self, s): location returned (reference results)
    thisty = None
    recursive = False    # calls of the function inside its own body are checked against the contract (requires states what decreases)
    loop_inv = None
    one_point = False    # its proof compares sums that differ at a single point
    paths = False        # the paths through its loop bodies are followed one by one instead of being merged
    pointers = None      # def pointers(self, s): [(location of a pointer member, Ptr)] it has afterwards
    def __init__(self):
        self.name = type(self).__name__
        self.short = self.qname
    def matches(self, f):
        if f.qname != self.qname or f.node.get("isImplicit"): return False
        if self.nparams is not None and len(f.params) != self.nparams: return False
        if self.sig is not None and self.sig not in f.type and self.sig not in f.dtype: return False
        if self.targs is not None and list(f.tparams) != list(self.targs): return False
        if self.cls is not None and (f.cls is None or self.cls != f.cls.name): return False
        return True
    lemmas = None        # def lemmas(self, s): [(name, formula, how)] facts used in the proof, each an obligation of its own;
                         # how: "products" (nonlinear arithmetic), "direct", or i (induction on the i-th quantified variable)
    def requires(self, s): return []
    def modifies(self, s): return []
    def ensures(self, s): return []
    def setup(self, ex): pass
    def req(self, s):
        ex = s.ex; sv = ex.spec; ex.spec = True
        try: return list(self.requires(s))
        finally: ex.spec = sv
    def ens(self, s):
        ex = s.ex; sv = ex.spec; ex.spec = True
        try: return list(self.ensures(s))
        finally: ex.spec = sv
    def mod(self, s):
        out = []
        for l in self.modifies(s):
            if isinstance(l, View): out.append(l._loc)
            elif isinstance(l, PView): out.append(l._loc)
            else: out.append(l)
        return out

class Report:
    def __init__(self, name, qname):
        self.name = name; self.qname = qname; self.obls = []; self.status = "?"; self.detail = ""; self.time = 0
        self.loops = []; self.inlined = []; self.used = []; self.assumed = []; self.file = ""; self.line = 0
        self.solver_time = 0.0
    def failed(self): return [o for o in self.obls if o.result is None or not o.result.ok]

class Verifier(Stmts):
    def prove_all(self, rep, timeout):
        for o in self.obls:
            if o.result is None:
                r = P.prove(self.facts + o.assumes, o.goal, timeout=timeout)
                if not r.ok:
                    r2 = self.retry(o, timeout)
                    if r2 is not None: r = r2
                o.result = r

    def retry(self, o, timeout):
        for seed, to, hs in ((7, timeout, o.hints), (23, timeout * 2, ())):
            fs = P.build(self.facts + o.assumes, o.goal, ext=True, hints=hs)
            r, s, dt = P.check(fs, to, seed=seed)
            if r == z3.unsat: return P.Result("proved", dt, "z3")
        if self.opts.get("cvc5"):
            if P.cvc5_check(P.build(self.facts + o.assumes, o.goal, ext=True, hints=o.hints), 20) == "unsat":
                return P.Result("proved", 0.0, "cvc5")
        return None

def verify(tu, contracts, c, opts=None, timeout=6000, all_contracts=None):
    """contracts: qname -> [Contract] used at call sites; c: the one to verify"""
    reps = []
    fs = [f for f in tu.find(c.qname) if c.matches(f)]
    if not fs:
        r = Report(c.name, c.qname); r.status = "missing"; r.detail = "function not found in the current source"
        return [r]
    for f in fs:
        reps.append(verify_one(tu, contracts, c, f, opts or {}, timeout))
    return reps

def hint_key(c, f): return "%s|%s" % (c.name, f.qname + (("<" + ",".join(f.tparams) + ">") if f.tparams else ""))

def verify_one(tu, contracts, c, f, opts, timeout):
    rep = Report(c.name, f.qname + (("<" + ",".join(f.tparams) + ">") if f.tparams else ""))
    rep.file = f.file; rep.line = f.line
    t0 = time.time(); q0 = dict(P.STATS)
    use = {}
    for q, l in contracts.items():
        use[q] = [x for x in l if x is not c or c.recursive]
    ex = Verifier(tu, use, opts)
    ex.local_names = {}; ex.root = f; ex.root_contract = c
    P.ONE_POINT = c.one_point; ex.omp_ord = {}; ex.omp_loops = []
    ex.loop_ord = {}; ex.loop_cache = {}; ex.hints = (opts.get("hints") or {}).get(hint_key(c, f)) if not opts.get("nohints") else None
    try:
        run(ex, c, f, rep, timeout)
    except Unsupported as e:
        rep.status = "unsupported"; rep.detail = "line %s: %s" % (ex.curline, e)
        if opts.get("debug"): traceback.print_exc()
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError, z3.Z3Exception, RecursionError) as e:
        rep.status = "unsupported"; rep.detail = "line %s: %s %r" % (ex.curline, type(e).__name__, e)
        rep.trace = traceback.format_exc()
        if opts.get("debug"): traceback.print_exc()
    rep.time = time.time() - t0; rep.solver_time = P.STATS["time"] - q0["time"]
    rep.obls = ex.obls; rep.loops = ex.loop_log; rep.inlined = sorted(ex.inlined); rep.used = sorted(ex.used_contracts)
    rep.assumed = sorted(ex.assumed | set(getattr(c, 'assumes', []))); rep.ex = ex
    if rep.status == "?":
        bad = rep.failed()
        rep.status = "failed" if bad else "proved"
    return rep

def run(ex, c, f, rep, timeout):
    c.setup(ex)
    st = State()
    this = None
    if f.is_method and not f.static:
        ty = c.thisty or f.cls.name
        this = Loc("this", (), ty)
        ex.dyn.setdefault("this", ty)
    fr = Frame(f, this); fr.prefix = "R."
    vals = []
    for i, p in enumerate(f.params):
        pt = C.canon(qt(p["type"])); t = C.deref(pt); so = ex.sort_of(t)
        nm = "a%d" % i
        if C.is_ref(pt) or so in ("rec", "vec", "map", "carr"):
            if so == "opaque": v = StrV(S.fresh(S.I, nm)) if "string" in t else OPAQUE
            else: v = Loc(nm, (), t)
        elif so == "ptr":
            pe = C.pointee(t) if C.is_ptr(t) else "double"
            kind = "obj" if ex.sort_of(pe) in ("rec", "vec", "map", "opaque") else "arr"
            v = Ptr("obj", nm + "*", (), None, pe) if kind == "obj" else Ptr("arr", nm + "*", (), S.fresh(S.I, "off_" + nm), pe)
            ov = c.argptr(ex, i) if hasattr(c, "argptr") else None
            if ov is not None: v = ov
        elif so == "opaque": v = StrV(S.fresh(S.I, nm)) if "string" in t else OPAQUE
        elif so == "pair": raise Unsupported("pair parameter")
        else:
            v = S.fresh(so, nm)
            if so == S.I and t in C.INTS and not C.INTS[t][1]: ex.facts.append(v >= 0)
            if getattr(c, "consts", None) and i in c.consts: v = c.consts[i]     # the contract covers calls with this value
        vals.append((pt, so, v))
    old = st.copy()
    sp = Spec(ex, c, f, this, vals, old, None, None); sp.root = True
    ex.root_spec = sp
    ex.frames.append(fr)
    try:
        for nm, g in c.req(sp): ex.assume(st, g)
        if c.lemmas is not None:
            for nm, g, how in c.lemmas(sp):
                ex.obls.append(lemma(ex, st, nm, g, how, f, timeout))
                if isinstance(how, int): g = S.FA(g.sorts, lambda *v, g=g, how=how: S.Implies(v[how] >= 0, g.inst(*v)), g.pats, None, g.name)
                ex.facts.append(g)
        for p, (pt, so, v) in zip(f.params, vals):
            ex.bind_param(fr, p, pt, so, v, st)
            if p.get("name") and p["id"] in fr.env and isinstance(fr.env[p["id"]], Loc) and fr.env[p["id"]].path.startswith("L"):
                ex.local_names[fr.env[p["id"]].path] = p["name"]
        old.store = {}; old.ptrs = {}
        outs = ex.run_function(f, st)
        # join the exits when possible
        try:
            if len(outs) > 1:
                m, v = ex.merge([o[1] for o in outs], [o[2] for o in outs])
                outs = [("ret", m, v)]
        except Unsupported: pass
        modl = c.mod(sp); dead = []; dead_t = 0.0
        for k, s, v in outs:
            if isinstance(v, Loc) and False: pass
            if v is not None and z3.is_expr(v):
                rt = C.canon(f.type.split("(")[0].strip())
                so = ex.sort_of(C.deref(rt))
                if so in (S.I, S.R, S.B): v = ex.coerce(v, so)
            sp2 = Spec(ex, c, f, this, vals, old, s, v); sp2.root = True
            if c.throws is not None:
                t = c.throws(sp)
                ex.oblige("normal return excludes the throwing case", s, S.Not(t), "post")
            n0 = len(s.assumes)
            for nm, g in c.ens(sp2):
                ex.oblige("ensures: " + nm, s, g, "post")
            if c.returns is not None:
                sv = ex.spec; ex.spec = True
                want = c.returns(sp2)
                ex.spec = sv
                wl = want._loc if hasattr(want, "_loc") else want
                ok = isinstance(v, Loc) and v.path == wl.path and len(v.idxs) == len(wl.idxs)
                ex.oblige("returns the reference", s, S.And(*[a == b for a, b in zip(v.idxs, wl.idxs)]) if ok else z3.BoolVal(False), "post")
            frame_check(ex, s, modl)
            # the exit must be reachable: a contradiction among the assumptions would make every goal true
            r = P.prove(ex.facts + s.assumes, z3.BoolVal(False), timeout=1500, ext=False)
            dead.append(r.ok); dead_t += r.time
        if dead:    # a defensive branch may be dead under the precondition, but some exit has to be reachable
            o = Obligation("exit reachable (vacuity canary)", [], z3.BoolVal(True), ex.curline, "canary", f.qname)
            o.result = P.Result("failed" if all(dead) else "proved", dead_t, "z3")
            ex.obls.append(o)
        for s, what in ex.throws:
            t = c.throws(sp) if c.throws is not None else z3.BoolVal(False)
            ex.oblige("throws only when specified (%s)" % what, s, t, "throws")
        if not outs and not ex.throws:
            ex.obls.append(_bad("function has an exit", f.qname, ex.curline))
    finally:
        ex.frames.pop()
    ex.prove_all(rep, timeout)

def lemma(ex, st, nm, g, how, f, timeout):
    """a lemma holds without the function's precondition unless proved by induction; its proof never uses the lemma itself"""
    o = Obligation("lemma: " + nm, list(st.assumes), g, f.line, "lemma", f.qname)
    vs = [S.skolem(i, x) for i, x in enumerate(g.sorts)]
    if how == "products":
        t = time.time(); sl = z3.Solver(); sl.set("timeout", 4 * timeout)
        goal = z3.substitute_funs(g.inst(*vs), (S.imul, z3.Var(0, S.I) * z3.Var(1, S.I)), (S.rmul, z3.Var(0, S.R) * z3.Var(1, S.R)))
        sl.add(z3.Not(goal)); r = sl.check(); dt = time.time() - t; P.STATS["queries"] += 1; P.STATS["time"] += dt
        o.result = P.Result("proved" if r == z3.unsat else "failed" if r == z3.sat else "unknown", dt, "z3")
    elif how == "direct": o.result = P.prove(ex.facts + st.assumes, g, timeout=timeout)
    else:
        n = vs[how]; at = lambda x: g.inst(*[x if i == how else v for i, v in enumerate(vs)])
        r0 = P.prove(ex.facts + st.assumes + [n == 0], at(S.lit(0)), timeout=timeout)
        r1 = P.prove(ex.facts + st.assumes + [n >= 0, at(n)], at(S.norm(n + 1)), timeout=timeout)
        o.result = P.Result("proved" if r0.ok and r1.ok else "unknown", r0.time + r1.time, "z3", None, "" if r0.ok and r1.ok else "base" if not r0.ok else "step")
    return o

def _bad(name, fn, line):
    o = Obligation(name, [], z3.BoolVal(False), line, "post", fn); o.result = P.Result("failed", 0, "none"); return o

def frame_check(ex, s, modl):
    """every leaf outside the modifies clause keeps its initial value"""
    for p in sorted(s.store):
        if p.startswith("L") or p.startswith("tmp#") or p.startswith("new#"): continue
        if p.endswith("opaque"): continue
        v = s.store[p]
        ini = ex.init.get(p)
        if ini is None:
            so, ct = ex.leaf_sort.get(p, (v.sort if isinstance(v, S.Arr) else v.sort(), "?"))
            ini = ex.initial(p, so, ct)
        if v is ini: continue
        d = dims(p)
        cover = [l for l in modl if p == l.path or (p.startswith(l.path) and p[len(l.path):][:1] in (".", "[", "*"))]
        if any(len(l.idxs) == 0 for l in cover): continue
        if d == 0:
            ex.oblige("frame: %s unchanged" % p, s, v == ini, "frame"); continue
        def body(*j, v=v, ini=ini, cover=cover):
            exc = [S.And(*[a == b for a, b in zip(j, l.idxs)]) for l in cover]
            return S.Or(*(exc + [v.sel(*j) == ini.sel(*j)]))
        ex.oblige("frame: %s unchanged elsewhere" % p, s, S.forall(body, d), "frame")
    for k, v in s.ptrs.items():
        p = k[0][6:] if k[0].startswith("taint:") else k[0]
        if p.startswith("L") or p.startswith("tmp#") or p.startswith("new#"): continue
        if not any(p == l.path or p.startswith(l.path) for l in modl):
            ex.oblige("frame: pointer %s unchanged" % p, s, z3.BoolVal(False), "frame")
