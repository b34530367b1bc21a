"""Statements, loops with inferred (Houdini) and contract-supplied invariants, contract application."""
import z3, re, itertools, time
from . import sym as S, ctypes_ as C, prove as P
from .exec import *
from .exec import MergeFail
from .calls import Calls, strip
from .interp import TRANSP
from .cast import qt
from .view import View, Spec

IGNORED_STMT = {"NullStmt", "OMPBarrierDirective", "OMPFlushDirective"}

class Stmts(Calls):
    local_names = {}
    # ------------------------------------------------------------ statements
    def xs(self, n, st):
        """-> list of (kind, state, value); kind in next/ret/brk/cont"""
        k = n["kind"]
        self._line(n)
        try:
            m = getattr(self, "s_" + k, None)
            if m is not None: return m(n, st)
            if k in IGNORED_STMT: return [("next", st, None)]
            self.ev(n, st)
            return [("next", st, None)]
        except ThrowEx as e:
            if self.emit: self.throws.append((st, e.what))
            return []
        except Infeasible:
            return []

    def group(self, outs):
        """merge outcomes of the same kind when possible"""
        if self.root_contract is not None and self.root_contract.paths and self.nest and self.frames and self.frames[-1].fn is self.root and len(outs) <= 12:
            return outs       # the contract asks for the paths through its loop bodies one by one
        res = []
        for kind in ("next", "brk", "cont", "ret"):
            g = [o for o in outs if o[0] == kind]
            if not g: continue
            if len(g) == 1: res += g; continue
            if kind == "ret":
                res += g; continue
            try:
                m, v = self.merge([o[1] for o in g], [o[2] for o in g])
                res.append((kind, m, v))
            except MergeFail:
                res += g
        return res

    def s_CompoundStmt(self, n, st):
        return self.seq([x for x in n.get("inner", [])], st)

    def seq(self, stmts, st):
        cur = [("next", st, None)]
        done = []
        for x in stmts:
            nxt = []
            for k, s, v in cur:
                for o in self.xs(x, s):
                    (nxt if o[0] == "next" else done).append(o)
            cur = self.group(nxt) if len(nxt) > 1 else nxt
            if not cur: break
        return cur + done

    def s_DeclStmt(self, n, st):
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl": self.declare(d, st)
        return [("next", st, None)]

    def declare(self, d, st):
        fr = self.frames[-1]
        ty = C.canon(qt(d["type"]))
        init = [x for x in d.get("inner", []) if x.get("kind") and not x["kind"].endswith("Attr")]
        init = init[-1] if init else None
        so = self.sort_of(C.deref(ty))
        nm = d.get("name", "anon")
        if d.get("storageClass") == "static": raise Unsupported("static local")
        if C.is_ref(ty):
            v = self.ev(init, st)
            if z3.is_expr(v) or isinstance(v, Ptr):
                l = self.temp(C.deref(ty)); self.wr(st, l, v); v = l
            fr.env[d["id"]] = v
            return
        l = Loc("L%s%s@%s" % (fr.prefix, nm, self.short_id(d["id"])), (), ty)
        fr.env[d["id"]] = l
        self.local_names[l.path] = nm
        if so == "opaque":
            fr.env[d["id"]] = OPAQUE; return
        if so == "pair":
            v = self.ev(init, st) if init is not None else OPAQUE
            fr.env[d["id"]] = v; return
        if so == "ptr":
            if init is None: st.ptrs.pop(l.key(), None); return
            v = self.rv(init, st)
            if v is OPAQUE: fr.env[d["id"]] = OPAQUE; return
            self.wr_ptr_local(st, l, v); return
        if so in (S.I, S.R, S.B):
            if init is None:
                self.set_leaf(st, l.path, S.fresh(so, "uninit_" + nm)); return
            v = self.rv(init, st)
            self.set_leaf(st, l.path, self.coerce(v, so)); return
        if so == "carr":
            if C.arr_len_known(ty): self.fixed[l.path] = C.arr_len(ty)
            else: self.set_length(st, l, S.fresh(S.I, "vla"))
            if init is not None:
                v = self.ev(init, st)
                if isinstance(v, Loc): self.copy_obj(st, l, v, ty)
            return
        self.dyn[l.path] = ty
        x = init
        if x is None:
            if so == "vec": self.set_length(st, l, S.lit(0))
            return
        while x["kind"] in TRANSP: x = x["inner"][0]
        if x["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): self.construct(l, x, st)
        elif x["kind"] == "InitListExpr" and so == "vec": self.construct_vec(l, [x], st)
        else:
            v = self.ev(x, st)
            if v is OPAQUE:
                fr.env[d["id"]] = OPAQUE; return
            self.copy_obj(st, l, v, ty)

    def s_IfStmt(self, n, st):
        inner = [x for x in n["inner"]]
        if n.get("hasInit") or n.get("hasVar"): raise Unsupported("if with init")
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        c = self.truth(self.rv(cond, st))
        cs = z3.simplify(c) if not (z3.is_true(c) or z3.is_false(c)) else c
        if z3.is_true(cs): return self.xs(then, st)
        if z3.is_false(cs): return self.xs(els, st) if els is not None else [("next", st, None)]
        s2 = st.branch(S.Not(c)); s1 = st.branch(c)
        if self.opts.get("prune", True) and not self.probing:
            pass
        o = self.xs(then, s1)
        o += self.xs(els, s2) if els is not None else [("next", s2, None)]
        return self.group(o)

    def s_ReturnStmt(self, n, st):
        inner = [x for x in n.get("inner", []) if x.get("kind")]
        if not inner: return [("ret", st, None)]
        f = self.frames[-1].fn
        rt = f.type.split("(")[0].strip()
        if C.canon(rt) == "void":
            self.ev(inner[0], st); return [("ret", st, None)]
        v = self.ev(inner[0], st)
        if isinstance(v, Loc) and not C.is_ref(C.canon(rt)):
            so = self.sort_of(v.ty)
            if so in (S.I, S.R, S.B, "ptr"): v = self.rd(st, v)
        return [("ret", st, v)]

    def s_BreakStmt(self, n, st): return [("brk", st, None)]
    def s_ContinueStmt(self, n, st): return [("cont", st, None)]

    def s_CXXTryStmt(self, n, st): raise Unsupported("try")

    def s_SwitchStmt(self, n, st):
        cond, body = n["inner"][0], n["inner"][1]
        v = S.toint(self.rv(cond, st))
        # flatten labels
        items = []
        for x in body.get("inner", []):
            labels = []
            while x["kind"] in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt":
                    e = x["inner"][0]; labels.append(S.toint(self.rv(e, st))); x = x["inner"][-1]
                else: labels.append(None); x = x["inner"][-1]
            items.append((labels, x))
        allcases = [l for ls, _ in items for l in ls if l is not None]
        outs = []
        has_default = any(l is None for ls, _ in items for l in ls)
        starts = []
        for i, (ls, x) in enumerate(items):
            if not ls: continue
            cs = []
            for l in ls:
                if l is None: cs.append(S.And(*[S.Not(self.cmp("==", v, q, st)) for q in allcases]))
                else: cs.append(self.cmp("==", v, l, st))
            starts.append((S.Or(*cs), i))
        if not has_default:
            starts.append((S.And(*[S.Not(self.cmp("==", v, q, st)) for q in allcases]), len(items)))
        for c, i in starts:
            c = z3.simplify(c) if not (z3.is_true(c) or z3.is_false(c)) else c
            if z3.is_false(c): continue
            s = st.branch(c)
            o = self.seq([x for _, x in items[i:]], s)
            for k, s2, val in o:
                outs.append(("next", s2, None) if k == "brk" else (k, s2, val))
        return self.group(outs)

    def s_ForStmt(self, n, st):
        init, _cv, cond, inc, body = (n["inner"] + [{}] * 5)[:5]
        if init and init.get("kind"):
            o = self.xs(init, st)
            if not o: return []
            st = o[0][1]
        return self.loop(n, st, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body)

    def s_WhileStmt(self, n, st):
        return self.loop(n, st, n["inner"][0], None, n["inner"][-1])

    def s_DoStmt(self, n, st):
        body, cond = n["inner"][0], n["inner"][1]
        first = self.xs(body, st)
        res = []; nxt = []
        for k, s, v in first:
            if k == "brk": res.append(("next", s, None))
            elif k == "ret": res.append((k, s, v))
            else: nxt.append(("next", s, None))
        for k, s, v in self.group(nxt):
            res += self.loop(n, s, cond, None, body)
        return self.group(res)

    def s_CXXForRangeStmt(self, n, st):
        inner = n["inner"]
        # [init], range, begin, end, cond, inc, loopvar, body
        parts = [x for x in inner]
        body = parts[-1]; var = parts[-2]; inc = parts[-3]; cond = parts[-4]
        for x in parts[:-4]:
            if x.get("kind"):
                o = self.xs(x, st)
                if not o: return []
                st = o[0][1]
        b = {"kind": "CompoundStmt", "inner": [var, body], "id": n["id"], "range": body.get("range", {})}
        return self.loop(n, st, cond, inc, b)

    def omp(self, n, st):
        # sequential reading of the parallel loop (assumption recorded)
        self.assumed.add("OpenMP loop read as its sequential execution")
        x = self.find_loop(n)
        if x is None: raise Unsupported(n["kind"])
        # the thread executing an iteration is some unknown function of the iteration (each iteration is executed once)
        k = self.omp_ord.setdefault(n["id"], len(self.omp_ord))
        var = None
        if x.get("kind") == "ForStmt":
            for d in x["inner"][0].get("inner", []) if x["inner"][0].get("kind") == "DeclStmt" else []:
                if d.get("kind") == "VarDecl": var = d["id"]
        self.omp_loops.append((z3.Function("omp_owner%d" % k, S.I, S.I), len(self.frames) - 1, var))
        try: return self.xs(x, st)
        finally: self.omp_loops.pop()
    s_OMPParallelForDirective = s_OMPForDirective = s_OMPSimdDirective = omp
    def s_OMPParallelDirective(self, n, st):
        self.assumed.add("OpenMP parallel region without worksharing read as executed by one thread")
        return self.xs(self.captured(n), st)
    def s_OMPCriticalDirective(self, n, st):
        x = self.captured(n)
        return self.xs(x, st)
    def s_OMPAtomicDirective(self, n, st): return self.xs(self.captured(n), st)
    def captured(self, n):
        for y in n.get("inner", []):
            if y.get("kind") == "CapturedStmt":
                d = next((z for z in y["inner"] if z.get("kind") == "CapturedDecl"), None)
                return d["inner"][0]
        return n["inner"][-1]
    def find_loop(self, n):
        st = [n]
        while st:
            x = st.pop(0)
            if x.get("kind") in ("ForStmt", "CXXForRangeStmt") and x is not n: return x
            st += [y for y in x.get("inner", []) if isinstance(y, dict) and y.get("kind") in
                   ("CapturedStmt", "CapturedDecl", "ForStmt", "CXXForRangeStmt", "OMPForDirective", "OMPCanonicalLoop")]
        return None

    # ------------------------------------------------------------ loops
    probing = 0
    def has_fresh(self, t, mark):
        """does t mention a constant created at or after the mark"""
        for x in S.subterms([t]):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                i = nm.rfind("!")
                if i > 0 and nm[i + 1:].isdigit() and int(nm[i + 1:]) >= mark: return True
        return False

    def exec_iter(self, st, cond, inc, body):
        """one iteration from head state: (exits, continues, rets)"""
        exits, conts, rets = [], [], []
        if cond is not None:
            try:
                c = self.truth(self.rv(cond, st))
            except Infeasible:
                return exits, conts, rets
            cs = z3.simplify(c) if not (z3.is_true(c) or z3.is_false(c)) else c
        else:
            c = cs = z3.BoolVal(True)
        if z3.is_true(cs): s1 = st
        else:
            exits.append(st.branch(S.Not(c)))
            if z3.is_false(cs): return exits, conts, rets
            s1 = st.branch(c)
        nxt = []
        for k, s, v in self.xs(body, s1):
            if k == "brk": exits.append(s)
            elif k == "ret": rets.append((k, s, v))
            else: nxt.append(("next", s, None))
        for k, s, v in self.group(nxt):
            if inc is not None:
                try: self.ev(inc, s)
                except Infeasible: continue
            conts.append(s)
        return exits, conts, rets

    def write_prefixes(self, writes, mark, entry):
        """{path: prefix tuple of loop-invariant index terms}"""
        out = {}
        for p, idl in writes.items():
            if p.startswith("tmp#"): continue
            q0 = p[4:] if p.startswith("ptr:") else p
            if q0.startswith("new#") and not self.known_object(q0, entry): continue      # allocated by this iteration
            pre = None
            for idx in idl:
                q = []
                for t in idx:
                    if self.has_fresh(t, mark): break
                    q.append(t)
                if pre is None: pre = q
                else:
                    m = 0
                    while m < len(pre) and m < len(q) and pre[m].eq(q[m]): m += 1
                    pre = pre[:m]
            out[p] = tuple(pre or ())
        return out

    def known_object(self, p, entry):
        o = re.match(r"new#[A-Za-z_]*\d*", p).group(0)
        return any(x.startswith(o) for x in entry.store) or any(k[0].startswith(o) for k in entry.ptrs) or any((v.path or "").startswith(o) for v in entry.ptrs.values())

    def havoc(self, st, W, ends, ptrs):
        """head state of an arbitrary iteration"""
        h = st.copy(); h.writes = None
        for p, pre in sorted(W.items()):
            if p.startswith("ptr:"):
                if not self.is_local_path(p[4:]) and not any(k[0] == p[4:] for k, _, _ in ptrs):
                    for k in [k for k in h.ptrs if k[0] == p[4:]]: del h.ptrs[k]
                    h.ptrs[("taint:" + p[4:], ())] = NULL      # members of the family may point anywhere now
                continue
            if p not in h.store and p not in self.init:
                if self.is_local_path(p): continue       # declared inside the body
            if p in self.leaf_sort: so, ct = self.leaf_sort[p]
            else:
                v = h.store.get(p)
                if v is None:
                    continue
                so = v.sort if isinstance(v, S.Arr) else v.sort(); ct = "?"
            if p not in h.store: self.get_leaf(h, p, so, ct)
            self.havoc_leaf(h, p, pre, so, ct)
        for (key, v0, v1) in ptrs:
            if v0.kind in ("arr", "mapit") and v0.kind == v1.kind and v0.same_region(v1):
                off = S.fresh(S.I, "off_" + self.lname(key[0]))
                h.ptrs[key] = Ptr(v0.kind, v0.path, v0.idxs, off, v0.ty)
            elif v0.kind == v1.kind and v0.path == v1.path and len(v0.idxs) == len(v1.idxs):
                idxs = [a if a.eq(b) else S.fresh(S.I, "pidx") for a, b in zip(v0.idxs, v1.idxs)]
                h.ptrs[key] = Ptr(v0.kind, v0.path, idxs, S.fresh(S.I, "off") if v0.off is not None else None, v0.ty)
            else: raise Unsupported("pointer %s changes target in a loop" % (key,))
        if any(p.endswith(".len") for p in W): h.checked = {}
        return h

    def lname(self, p):
        return re.sub(r"[^A-Za-z0-9_]", "_", self.local_names.get(p, p))

    def havoc_leaf(self, h, p, pre, so, ct):
        d = dims(p)
        k = d - len(pre)
        base = self.lname(p)
        uns = ct in C.INTS and not C.INTS[ct][1] and not C.is_bool(ct) and so == S.I
        if p.endswith(".len") or p.endswith(".size"): uns = True
        if d == 0:
            v = S.fresh(so, base)
            if uns: h.assumes.append(v >= 0)
            h.store[p] = v; return
        if k == 0:
            v = S.fresh(so, base)
            if uns: h.assumes.append(v >= 0)
            self.set_sub(h, p, pre, so, ct, v); return
        v = S.fresh_arr(k, so, base)
        if uns: h.assumes.append(S.forall(lambda *i: v.uf(*i) >= 0, k, pats=lambda *i: [v.uf(*i)], name="unsigned"))
        self.set_sub(h, p, pre, so, ct, v)

    def changed_ptrs(self, st, s):
        out = []
        for k, v in s.ptrs.items():
            v0 = st.ptrs.get(k)
            if v0 is None or v0 is v: continue
            if repr(v0) == repr(v) and v0.same_region(v) and (v0.off is None or v0.off.eq(v.off)): continue
            out.append((k, v0, v))
        return out

    def loop(self, n, st, cond, inc, body):
        emit0 = self.emit
        outer_writes = st.writes
        st = st.copy()
        # ---- 1. write set (fixpoint)
        self.emit = False; self.probing += 1
        W = {}; PT = []
        head = st.copy(); head.writes = None
        try:
            for rnd in range(8):
                mark = next(S._fresh)
                h = self.havoc(st, W, None, PT) if rnd else st.copy()
                h.writes = {}
                ex, co, re_ = self.exec_iter(h, cond, inc, body)
                W2 = self.write_prefixes(h.writes, mark, st)
                pt2 = {}
                for s in co + ex:
                    for k, v0, v1 in self.changed_ptrs(st, s):
                        if k not in pt2: pt2[k] = (k, v0, v1)
                        else:
                            o = pt2[k][2]
                            if not (o.kind == v1.kind and o.path == v1.path): raise Unsupported("pointer retargeted in loop")
                same = set(W) == set(W2) and all(len(W[p]) == len(W2[p]) and all(a.eq(b) for a, b in zip(W[p], W2[p])) for p in W) \
                    and set(k for k, _, _ in PT) == set(pt2)
                # keep growing monotonically
                for p in W:
                    if p in W2:
                        m = 0
                        while m < len(W[p]) and m < len(W2[p]) and W[p][m].eq(W2[p][m]): m += 1
                        W2[p] = W2[p][:m]
                    else: W2[p] = W[p]
                if rnd == 0: # prefixes seen with a concrete first iteration are unreliable; keep paths only
                    first = W2
                    W = {p: () if False else W2[p] for p in W2}
                else: W = W2
                for k, a, b in PT:
                    pt2.setdefault(k, (k, a, b))
                PT = list(pt2.values())
                if same and rnd >= 1: break
            else: raise Unsupported("loop write set did not stabilise")
            head = h
        finally:
            self.emit = emit0; self.probing -= 1
        # ---- 2. head state
        self.emit = False
        hmark = next(S._fresh)
        base = self.havoc(st, W, None, PT)
        base.writes = None
        nbase = len(base.assumes)
        ibad = (Unsupported, KeyError, AttributeError, TypeError, IndexError)
        live = []; cands = []; steps = {}
        key = self.loop_key(n)
        if not self.probing:
            cands = self.candidates(n, st, base, W, PT, cond, inc, body, hmark)
            steps = self.steps
            pool = cands
            hint = self.hints.get(key) if self.hints is not None else None
            if hint is not None: pool = [c for c in cands if c.name in hint]
            elif key in self.loop_cache: pool = [c for c in cands if c.name in self.loop_cache[key]]
            # initiation
            for c in pool:
                try: g = c.fn(st)
                except ibad as e:
                    if self.opts.get("debug"): print("cand", c.name, "dropped:", repr(e))
                    continue
                if g is None: continue
                self.deadline_check()
                r = self.prove_cand(c, st, g)
                if r.ok: live.append(c)
                elif c.spec and self.opts.get("debug"): print("   init fails:", c.name, r.status)
        # houdini: assume the conjunction, drop what one arbitrary iteration does not preserve, repeat
        rounds = 0
        while True:
            rounds += 1
            self.emit = emit0
            no, nt, nl = len(self.obls), len(self.throws), len(self.loop_log)
            h = base.copy()
            h.writes = {} if outer_writes is not None else None
            snap = h.copy()
            kept = []
            for c in live:
                try: f = c.fn(snap)
                except ibad: continue
                if f is None: continue
                h.assumes.append(f); kept.append(c)
            live = kept
            self.nest.append(steps)
            try: ex, co, re_ = self.exec_iter(h, cond, inc, body)
            finally: self.nest.pop()
            if self.probing: break
            bad = []
            self.emit = False
            for c in live:
                for s in co:
                    self.deadline_check()
                    r = self.prove_cand(c, s, c.fn(s))
                    if not r.ok:
                        bad.append(c)
                        if c.spec and self.opts.get("debug"): print("   preserve fails:", c.name, r.status)
                        break
            self.emit = emit0
            if not bad: break
            del self.obls[no:]; del self.throws[nt:]; del self.loop_log[nl:]
            live = [c for c in live if c not in bad]
            if rounds > 20: raise Unsupported("loop invariants did not stabilise")
        if not self.probing:
            self.loop_cache[key] = set(c.name for c in live)
            if emit0:
                self.loop_log.append(dict(func=self.frames[-1].fn.qname, key=key, line=self.curline, candidates=len(cands), invariants=[c.name for c in live],
                                          dropped=[c.name for c in cands if c.spec and c not in live], rounds=rounds, continuations=len(co)))
                for c in live:
                    for ph in ("initially", "preserved"):
                        o = Obligation("loop invariant %s: %s" % (ph, c.name), [], z3.BoolVal(True), self.curline, "invariant", self.frames[-1].fn.qname)
                        o.result = P.Result("proved", 0.0, "z3")
                        self.obls.append(o)
        self.emit = emit0
        if outer_writes is not None:
            for p, l in h.writes.items(): outer_writes.setdefault(p, []).extend(l)
            for s in ex: s.writes = outer_writes
            for k, s, v in re_: s.writes = outer_writes
        outs = [("next", s, None) for s in ex] + re_
        return self.group(outs)

    hints = None
    def loop_key(self, n):
        """call chain and ordinal of the loop inside its function: stable across runs, independent of line numbers"""
        fn = self.frames[-1].fn
        ks = self.loop_ord.setdefault(id(fn), {})
        if n["id"] not in ks: ks[n["id"]] = len(ks)
        return "/".join("%s@%d" % (fr.fn.name, fr.site) for fr in self.frames if fr.fn) + "#%d" % ks[n["id"]]

    def prove_cand(self, c, st, g):
        if not self.opts.get("debug"): return self.prove_cand_(c, st, g)
        t = time.time(); r = self.prove_cand_(c, st, g)
        if time.time() - t > 2: print("   slow: %.1fs %s %s %s" % (time.time() - t, c.name, r.status, r.reason), flush=True)
        return r
    def prove_cand_(self, c, st, g):
        to = self.opts.get("inv_timeout", 2500)
        r = P.prove(self.facts + st.assumes, g, timeout=to)
        if not r.ok and c.spec:
            hs = self.local_hints(st)
            if hs: r = P.prove(self.facts + st.assumes, g, timeout=to, hints=hs)
            if not r.ok and r.reason in ("timeout", "canceled", "interrupted"): r = P.prove(self.facts + st.assumes, g, timeout=to * 5)
        return r

    def deadline_check(self):
        d = self.opts.get("deadline")
        if d and time.time() > d: raise Unsupported("time budget for this function exhausted")

    # ------------------------------------------------------------ invariant candidates
    def int_exprs(self, st, base, W, PT):
        """int-valued loop-varying quantities: closures state -> term"""
        out = []
        for p, pre in sorted(W.items()):
            if p.startswith("ptr:") or dims(p): continue
            v = base.store.get(p)
            if v is None or not z3.is_int(v): continue
            if self.is_local_path(p) and p not in st.store: continue
            out.append((self.local_names.get(p, p), (lambda p: lambda s: s.store[p] if p in s.store else self.init[p])(p)))
        for k, v0, v1 in PT:
            if v0.kind in ("arr", "mapit"):
                out.append(("off:" + self.local_names.get(k[0], k[0]), (lambda k: lambda s: s.ptrs[k].off)(k)))
        return out

    def real_exprs(self, st, base, W):
        out = []
        for p, pre in sorted(W.items()):
            if p.startswith("ptr:") or dims(p): continue
            v = base.store.get(p)
            if v is None or not z3.is_real(v): continue
            if self.is_local_path(p) and p not in st.store: continue
            out.append((self.local_names.get(p, p), (lambda p: lambda s: s.store[p] if p in s.store else self.init[p])(p)))
        return out

    def candidates(self, n, st, base, W, PT, cond, inc, body, mark):
        cs = []
        ints = self.int_exprs(st, base, W, PT)
        e0 = {}
        for nm, f in ints:
            e0[nm] = f(st)
        def add(name, fn, spec=False): cs.append(Cand(name, fn, spec))
        # monotone bounds
        for nm, f in ints:
            v0 = f(st)
            add("%s >= entry" % nm, lambda s, f=f, v0=v0: f(s) >= v0)
            add("%s <= entry" % nm, lambda s, f=f, v0=v0: f(s) <= v0)
        # from the condition: comparisons against loop-varying ints
        if cond is not None:
            try:
                self.emit = False
                t = base.copy(); t.writes = None
                c = self.truth(self.rv(cond, t))
                heads = {nm: f(base) for nm, f in ints}
                for atom in self.cmp_atoms(c):
                    cs += self.bound_cands(atom, ints, heads, base, st)
            except (Unsupported, Infeasible, ThrowEx): pass
        # relation between two varying ints through their per-iteration increments
        incs = self.steps = self.increments(base, ints, cond, inc, body, mark)
        for (na, fa), (nb, fb) in itertools.combinations(ints, 2):
            da, db = incs.get(na), incs.get(nb)
            if da is None or db is None: continue
            a0, b0 = fa(st), fb(st)
            add("lockstep %s/%s" % (na, nb), lambda s, fa=fa, fb=fb, a0=a0, b0=b0, da=da, db=db:
                S.mul(db, S.sub(fa(s), a0)) == S.mul(da, S.sub(fb(s), b0)))
        # array frames
        for p, pre in sorted(W.items()):
            if p.startswith("ptr:") or not dims(p): continue
            if p not in base.store or (self.is_local_path(p) and p not in st.store): continue
            if not isinstance(base.store[p], S.Arr): continue
            k = dims(p) - len(pre)
            if k == 0: continue
            def rel(s, p=p, pre=pre): 
                v = s.store[p]; 
                return lambda *j: v.sel(*(tuple(pre) + j))
            e = rel(st) if p in st.store else (lambda *j, p=p, pre=pre: self.init[p].sel(*(tuple(pre) + j)))
            nmp = re.sub(r"^L[^@]*?(\w+)@\w+", r"\1", p)
            for q in range(k):
                for nm, f in ints:
                    def mk(op, q=q, f=f, e=e, rel=rel, k=k):
                        def fn(s):
                            r = rel(s); v = f(s); v0 = f(st)
                            def b(*j):
                                g = {">=": j[q] >= v, "<": j[q] < v0, ">": j[q] > v, "<=": j[q] <= v}[op]
                                return z3.Implies(g, r(*j) == e(*j))
                            return S.forall(b, k, pats=lambda *j: [r(*j)], name="frame")
                        return fn
                    add("%s[%d] unchanged from %s" % (nmp, q, nm), mk(">="))
                    add("%s[%d] unchanged before entry %s" % (nmp, q, nm), mk("<"))
            # entries outside the family of invariant indices written this iteration
        for c in self.spec_candidates(n, st, base, W, PT, ints):
            cs.append(c)
        return cs
    def increments(self, base, ints, cond, inc, body, mark):
        """loop-invariant per-iteration increments, read off a probe iteration"""
        out = {}
        self.probing += 1
        try:
            h = base.copy(); h.writes = None
            a = {nm: f(h) for nm, f in ints}
            ex, co, re_ = self.exec_iter(h, cond, inc, body)
            for nm, f in ints:
                ds = [S.sub(f(s), a[nm]) for s in co]
                if ds and all(x.eq(ds[0]) for x in ds) and not self.has_fresh(ds[0], mark): out[nm] = ds[0]
        except (Unsupported, Infeasible):
            pass
        finally: self.probing -= 1
        return out

    def cmp_atoms(self, c):
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
            return [a for x in c.children() for a in self.cmp_atoms(x)]
        if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_DISTINCT, z3.Z3_OP_EQ) and z3.is_int(c.arg(0)):
            return [c]
        return []

    def bound_cands(self, atom, ints, heads, base, st):
        """v OP bound  with bound a term over the head state"""
        out = []
        d = S.to_poly(S.sub(atom.arg(0), atom.arg(1)))
        for nm, f in ints:
            hv = heads[nm]
            key = (S._akey(hv),)
            if key not in d or abs(d[key]) != 1: continue
            c = d[key]
            rest = dict(d); del rest[key]
            b = S.from_poly({m: -x * c for m, x in rest.items()}, False)   # v compared with b
            others = [(n2, h2) for n2, h2 in heads.items() if n2 != nm]
            hs = [h for _, h in others]; fs = [g for n2, g in ints if n2 != nm]
            def bnd(s, b=b, hs=hs, fs=fs):
                return S.norm(z3.substitute(b, *[(h, g(s)) for h, g in zip(hs, fs)])) if hs else b
            v0 = f(st)
            b0 = bnd(st)
            for off in (0, 1):
                out.append(Cand("%s <= bound+%d" % (nm, off), lambda s, f=f, bnd=bnd, off=off: f(s) <= S.norm(bnd(s) + off)))
            out.append(Cand("%s <= max(bound, entry)" % nm, lambda s, f=f, bnd=bnd, v0=v0: z3.Or(f(s) <= bnd(s), f(s) == v0)))
            out.append(Cand("%s >= bound" % nm, lambda s, f=f, bnd=bnd: f(s) >= bnd(s)))
            out.append(Cand("%s >= bound-1" % nm, lambda s, f=f, bnd=bnd: f(s) >= S.norm(bnd(s) - 1)))
        return out

    def spec_candidates(self, n, st, base, W, PT, ints):
        out = []
        L = LoopCtx(self, st, base, W, ints, self.real_exprs(st, base, W)); L.steps = self.steps; L.enclosing = {nm for x in self.nest for nm in x}
        for fr in reversed(self.frames):
            c = (self.root_contract if fr.fn is self.root else self.contract_for(fr.fn)) if fr.fn else None
            gens = []
            if c is not None and c.loop_inv: gens.append(c.loop_inv)
            if fr.fn and fr.fn.qname in self.inline_invs: gens += self.inline_invs[fr.fn.qname]
            for g in gens:
                for name, fn in g(self.root_spec, L):
                    out.append(Cand(name, fn, True))
            # only the innermost frame with templates plus the root
        if self.root_contract is not None and self.root_contract.loop_inv and not any(
                fr.fn is self.root for fr in self.frames):
            for name, fn in self.root_contract.loop_inv(self.root_spec, L): out.append(Cand(name, fn, True))
        return out
    inline_invs = {}
    nest = []   # counters of the enclosing loops
    root_contract = None
    root_spec = None

    # ------------------------------------------------------------ contract application
    def apply_contract(self, c, f, this, vals, st, n):
        self.used_contracts.add(getattr(c, "key", c.name))
        old = st.copy()
        sp = Spec(self, c, f, this, vals, old, None, None)
        for nm, g in c.req(sp):
            self.oblige("precondition of %s: %s" % (c.short, nm), st, g, "requires")
            self.assume(st, g)
        # exceptional outcome
        if c.throws is not None:
            t = c.throws(sp)
            if not z3.is_false(t):
                if self.emit:
                    s2 = st.branch(t); self.throws.append((s2, c.short))
                st.assumes.append(S.Not(t)); st.pc.append(S.Not(t))
        known = c.pointers(sp) if c.pointers is not None else []
        for l in c.mod(sp):
            self.havoc_obj(st, l)
            for suf, pt in self.ptr_leafs(l.ty):
                p = l.path + suf
                if any(x.path == p for x, _ in known): continue
                for k in [k for k in st.ptrs if k[0] == p]: del st.ptrs[k]
                st.ptrs[("taint:" + p, ())] = NULL
                if st.writes is not None: st.writes.setdefault("ptr:" + p, []).append(())
        for x, v in known: self.wr_ptr(st, x, v)
        rt = C.canon(f.type.split("(")[0].strip())
        so = self.sort_of(C.deref(rt)) if rt != "void" else None
        if c.returns is not None:
            ret = c.returns(sp.with_state(st))
            if isinstance(ret, View): ret = ret._loc
        elif c.result is not None: ret = c.result(sp.with_state(st))
        elif so is None: ret = None
        elif so in (S.I, S.R, S.B):
            ret = S.fresh(so, "ret_" + c.short.split("::")[-1])
            if so == S.I and rt in C.INTS and not C.INTS[rt][1]: st.assumes.append(ret >= 0)
        elif so == "pair":
            ts = [C.canon(x) for x in C.split_args(rt[10:-1])]
            vs = [S.fresh(self.sort_of(x), "ret") if self.sort_of(x) in (S.I, S.R, S.B) else OPAQUE for x in ts]
            for v, x in zip(vs, ts):
                if x in C.INTS and not C.INTS[x][1]: st.assumes.append(v >= 0)
            ret = Pair(vs[0], vs[1])
        elif so in ("rec", "vec"):
            ret = self.temp(C.deref(rt), "tmp#r")
            for suf, s2, ct in self.leafs(ret.ty): self.initial(ret.path + suf, s2, ct)
        elif so == "ptr":
            pt = C.pointee(rt)
            ret = Ptr("obj", "new#r%d" % next(self.cnt), (), None, pt)
            self.dyn[ret.path] = pt
        else: ret = OPAQUE
        sp2 = Spec(self, c, f, this, vals, old, st.copy(), ret)
        for nm, g in c.ens(sp2):
            self.assume(st, g)
        return ret

    def havoc_obj(self, st, l):
        """forget everything stored under that location"""
        for suf, so, ct in self.leafs(l.ty):
            p = l.path + suf
            cur = self.get_leaf(st, p, so, ct)
            w = st.writes
            tmp = st.copy(); tmp.writes = None
            self.havoc_leaf(tmp, p, l.idxs, so, ct)
            st.store = tmp.store; st.assumes = tmp.assumes
            if w is not None: w.setdefault(p, []).append(tuple(l.idxs))
            if suf.endswith(".len"): st.checked = {}

class Cand:
    def __init__(self, name, fn, spec=False):
        self.name = name; self.spec = spec
        self._fn = fn
    def fn(self, s): return self._fn(s)

class LoopCtx:
    """what a contract's invariant templates may talk about"""
    def __init__(self, ex, entry, base, W, ints, reals):
        self.ex = ex; self.entry = entry; self.W = W; self.ints = ints; self.reals = reals; self.base = base
    def writes(self, *frag):
        """is a path containing all fragments written by the loop"""
        return any(all(f in p for f in frag) for p in self.W)
    def objects(self, ty):
        """(name, state -> view) of every object of that type allocated by the function so far"""
        paths = sorted(p for p in self.ex.dyn if re.match(r"new#\d+$", p) and self.ex.dyn[p] == ty and any(k.startswith(p + ".") for k in self.entry.store))
        return [("new%d" % k, (lambda p: lambda s: View(self.ex, s, Loc(p, (), ty)))(p)) for k, p in enumerate(paths)]
    def vectors(self, sort):
        """(name, state -> view) of every local vector with elements of that sort"""
        out = []
        for p in sorted(self.entry.store):
            if p.startswith("L") and p.endswith(".len") and not dims(p):
                v = self.entry.store.get(p[:-4] + "[]")
                ct = {"Real": "double", "Int": "unsigned int", "Bool": "bool"}[str(sort)]
                if isinstance(v, S.Arr) and v.sort == sort and "[]" not in p: out.append((self.ex.local_names.get(p[:-4], p[:-4]), (lambda p, ct: lambda s: View(self.ex, s, Loc(p, (), "std::vector<%s>" % ct)))(p[:-4], ct)))
        return out
    def families(self, ty):
        """(name, (state, i) -> view) of the objects owned by the elements of every local vector of pointers to that type"""
        ps = {m.group(1) for st in (self.entry, self.base) for k in st.store for m in [re.match(r"(L[^\[]*)\[\]\*\.", k)] if m}
        ps = sorted(p for p in ps if self.ex.dyn.get(p + "[]*", ty).split("::")[-1] == ty.split("::")[-1])
        return [(self.ex.local_names.get(p, p), (lambda p: lambda s, i: View(self.ex, s, Loc(p + "[]*", (i,), ty)))(p)) for p in ps]
    def outer(self):
        """integer locals in scope that the loop does not change (not parameters): the enclosing loops' variables"""
        names = [x for x, _ in self.ints]
        return [(self.ex.local_names.get(p, p), (lambda p: lambda s: s.store[p])(p)) for p, v in sorted(self.entry.store.items())
                if p.startswith("L") and "@" in p and not p.endswith(".len") and not dims(p) and z3.is_int(v) and self.ex.local_names.get(p, p) not in names]
    def iters(self):
        """positions of the iterators / element pointers in scope that the loop does not move"""
        names = [x for x, _ in self.ints]
        return [(nm, f) for k, v in sorted(self.entry.ptrs.items(), key=lambda kv: str(kv[0])) if k[0].startswith("L") and not k[1] and isinstance(v, Ptr) and v.kind == "arr" and v.off is not None
                for nm, f in [("off:" + self.ex.local_names.get(k[0], k[0]), (lambda k: lambda s: s.ptrs[k].off)(k))] if nm not in names]
    def int_locals(self, st=None):
        """every int-valued local in scope (varying or not)"""
        out = []
        for p, v in sorted(self.entry.store.items()):
            if p.startswith("L") and not dims(p) and z3.is_int(v):
                out.append((self.ex.local_names.get(p, p), (lambda p: lambda s: s.store[p])(p)))
        return out
