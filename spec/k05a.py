"""K05: one pass of the pruned OpenMP library (libauto/min-tri-kmeans.cpp)."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from . import k06, k08, k11
from .k04 import D, best_inv, moved, members, coords
from .k04a import OWN, GA, OmpEM, counting, inside
from .k05 import E, half, triangle
from .k06 import wf
DRIVER = "automin"

class MinInit(OmpEM):
    """first pass: every row is compared with every centroid"""
    qname = "EM_step"; nparams = 8; consts = {7: z3.BoolVal(True)}
    sub = False
    ca = lambda self, s, q: s.st(q)[2]
    dv = lambda self, s, q: s.st(q)[5]
    def common(self, s):
        g = s[1]; K, NC, N, T = self.K(s), self.NC(s), self.N(s), self.T(s); met = s.old.glob("g_dist_type", "int")
        yield from wf(g)
        yield "shape", And(g.nclust == K, g.ncol == NC, K >= 1, T >= 1, N >= 0, NC >= 0)
        yield "drift sized nclust", g.prev_dist_v.len == K
        yield "data", fits(s[0], S.mul(N, NC))
        yield "assignments cover the rows", fits(s[2], N)
        yield "counts cover the clusters", fits(s[3], K)
        yield "bounds cover the rows", s[5].len >= N
        yield "cluster ids fit", K < 4294967295
        yield "threads", S.forall(lambda r: And(OWN(r) >= 0, OWN(r) < T), 1, pats=lambda r: [OWN(r)])
        yield "definition of D", D.define(s[0], g.means, NC, met)
        yield "distances below DBL_MAX", S.forall(lambda r, c: Imp(And(r >= 0, r < N, c >= 0, c < K), D(r, c) < S.DBL_MAX), 2, pats=lambda r, c: [D(r, c)])
    def requires(self, s):
        yield from self.common(s)
        K, N, ca, dv = self.K(s), self.N(s), s[2], s[5]
        yield "metric valid", valid_metric(s.old.glob("g_dist_type", "int"))
        yield "no distance recorded, or that of the assigned centroid", S.forall(lambda r: Imp(And(r >= 0, r < N), Or(dv[r] == S.DBL_MAX, And(ca[r] >= 0, ca[r] < K, dv[r] == D(r, ca[r])))), 1, pats=lambda r: [dv[r]])
    def modifies(self, s):
        g = s[1]
        return OmpEM.modifies(self, s) + [g.prev_means, g.prev_dist_v, s[5]]
    def bound(self, s, q, n):
        ca, dv = self.ca(s, q), self.dv(s, q)
        yield "recorded distance", S.forall(lambda r: Imp(And(r >= 0, r < n), dv[r] == D(r, ca[r])), 1, pats=lambda r: [dv[r]])
    def assigned(self, s, q, n):
        yield from OmpEM.assigned(self, s, q, n)
        dv = self.dv(s, q)
        yield from self.bound(s, q, n)
        yield "other bounds untouched", And(dv.len == s.old[5].len) if False else S.forall(lambda p: Imp(Or(p < 0, p >= n), dv[p] == s.old[5][p]), 1, pats=lambda p: [dv[p]])
    def changes(self, s, q, n): return moved(self.ca(s, q), s.old[2], S.lit(0), n) if self.sub else n
    def dcnt(self, s, q, c, n):
        v = self.cnt(s, q, c, n)
        return S.norm(v - members(s.old[2], S.lit(0), n, c)) if self.sub else v
    def dcrd(self, s, q, p, n):
        v = self.crd(s, q, p, n)
        return S.sub(v, coords(s.old[2], s.old[0], S.lit(0), n, self.NC(s), p)) if self.sub else v
    def base(self, s, p): return self.named(s, s._old)[1](p) if self.sub else S.rlit(0)
    def cbase(self, s, c): return self.named(s, s._old)[0](c) if self.sub else S.lit(0)
    def fin(self, s, q, c, p):
        M, W = self.named(s, q)
        return S.ite(M(c) > 1, S.rdiv(W(p), S.toreal(M(c))), W(p))
    def drift(self, s, q):
        """name for how far the centroid of cluster c moves"""
        key = ("drift", self.named(s, q)[0].name()); tab = s.ex.named4a
        if key not in tab:
            V = z3.Function("drift_%d" % len(tab), S.I, S.R); g = s.old[1]
            s.ex.facts.append(S.forall(lambda c: V(c) == eucl(lambda j: self.fin(s, q, c, self.at(s, c, j)), lambda j: g.means[self.at(s, c, j)], self.NC(s)), 1, pats=lambda c: [V(c)]))
            tab[key] = V
        return tab[key]
    def done(self, s, q, n, named=True):
        g = s.st(q)[1]; NC = self.NC(s); V = self.drift(s, q); M = self.named(s, q)[0]
        yield "centroids", S.forall(lambda c, j: Imp(And(c >= 0, c < n, j >= 0, j < NC), g.means[self.at(s, c, j)] == self.fin(s, q, c, self.at(s, c, j))), 2, pats=lambda c, j: [g.means[self.at(s, c, j)]])
        yield "reported counts", S.forall(lambda c: Imp(And(c >= 0, c < n), s.st(q)[3][c] == M(c)), 1, pats=lambda c: [s.st(q)[3][c]])
        yield "drift is the distance to the previous centroid", S.forall(lambda c: Imp(And(c >= 0, c < n), g.prev_dist_v[c] == V(c)), 1, pats=lambda c: [g.prev_dist_v[c]])
    def ensures(self, s):
        q = s._new; K, NC, N = self.K(s), self.NC(s), self.N(s); g = s.st(q)[1]; M = self.named(s, q)[0]
        yield from self.assigned(s, q, N)
        yield "change count", self.chg(s, q) == S.norm(self.chg(s, s._old) + self.changes(s, q, N))
        yield from self.done(s, q, K)
        yield "member counts", S.forall(lambda c: Imp(And(c >= 0, c < K), g.num_members_v[c] == M(c)), 1, pats=lambda c: [g.num_members_v[c]])
        yield "previous centroids kept", S.forall(lambda p: Imp(And(p >= 0, p < g.means.len), g.prev_means[p] == s.old[1].means[p]), 1, pats=lambda p: [g.prev_means[p]])
        for nm, f in wf(g): yield nm, f
    def loop_inv(self, s, L):
        K, NC, N, T = self.K(s), self.NC(s), self.N(s), self.T(s); g0 = s.old[1]
        ints = [(nm, i) for nm, i in L.ints if "." not in nm]; cts = [(nm, i) for nm, i in ints if nm in L.steps]
        G = lambda q: s.st(q)[1]; ch = lambda v, q, n: S.Sum(n, lambda t: v(q)[t], S.I)
        fam = L.families("knor::base::clusters"); vecs = L.vectors(S.I)
        outer = [(nm, i) for nm, i in L.int_locals() if nm in L.enclosing]
        inK = lambda c: And(c >= 0, c < K); inP = lambda p: And(p >= 0, p < S.mul(K, NC)); inT = lambda t, n: And(t >= 0, t < n)
        setup = L.writes("[]*.nclust"); mainl = L.writes("[]*.num_members_v") and not setup
        shapes = lambda cl, q, n: S.forall(lambda t: Imp(inT(t, n), And(cl(q, t).nclust == K, cl(q, t).ncol == NC, *[f for _, f in wf(cl(q, t))])), 1, pats=lambda t: [cl(q, t).means.len])
        yield "bounds sized", lambda q: self.dv(s, q).len == s.old[5].len
        for fn, cl in fam:
            for nm, i in cts if setup else []:
                yield "set up below %s" % nm, lambda q, i=i, cl=cl: shapes(cl, q, i(q))
                yield "no members below %s" % nm, lambda q, i=i, cl=cl: S.forall(lambda t, c: Imp(And(inT(t, i(q)), inK(c)), cl(q, t).num_members_v[c] == 0), 2, pats=lambda t, c: [cl(q, t).num_members_v[c]])
                yield "no sums below %s" % nm, lambda q, i=i, cl=cl: S.forall(lambda t, p: Imp(And(inT(t, i(q)), inP(p)), cl(q, t).means[p] == 0), 2, pats=lambda t, p: [cl(q, t).means[p]])
            if not setup: yield "accumulators of %s keep their shape" % fn, lambda q, cl=cl: shapes(cl, q, T)
        if mainl:
            if self.sub: yield "flags kept", lambda q: s.st(q)[4].data.len == s.old[4].data.len
            for nm, i in cts:
                for k in range(5): yield "assignment %d below %s" % (k, nm), lambda q, i=i, k=k: list(self.assigned(s, q, i(q)))[k][1]
                yield "rows below %s inside" % nm, lambda q, i=i: S.Sum(i(q), lambda r: inside(lambda r: self.ca(s, q)[r], r, K), S.I) == i(q)
                for vn, v in vecs: yield "changes over %s below %s" % (vn, nm), lambda q, v=v, i=i: ch(v, q, T) == self.changes(s, q, i(q))
                for fn, cl in fam:
                    yield "counts over %s below %s" % (fn, nm), lambda q, cl=cl, i=i: S.forall(lambda c: Imp(inK(c), S.Sum(T, lambda t: cl(q, t).num_members_v[c], S.I) == self.dcnt(s, q, c, i(q))), 1, pats=lambda c: [self.cnt(s, q, c, i(q))])
                    yield "sums over %s below %s" % (fn, nm), lambda q, cl=cl, i=i: S.forall(lambda p: Imp(inP(p), S.Sum(T, lambda t: cl(q, t).means[p], S.R) == self.dcrd(s, q, p, i(q))), 1, pats=lambda p: [self.crd(s, q, p, i(q))])
        elif L.writes("g_num_changed"):
            yield "shape", lambda q: And(G(q).prev_dist_v.len == K, G(q).prev_means.len == g0.means.len, *[f for _, f in wf(G(q))])
            for nm, i in cts:
                for vn, v in vecs: yield "change count of %s below %s" % (vn, nm), lambda q, v=v, i=i: self.chg(s, q) == S.norm(self.chg(s, s._old) + ch(v, q, i(q)))
                for fn, cl in fam:
                    yield "totals of %s below %s" % (fn, nm), lambda q, cl=cl, i=i: S.forall(lambda c, j: Imp(And(inK(c), j >= 0, j < NC), G(q).means[self.at(s, c, j)] == S.add(self.base(s, self.at(s, c, j)), S.Sum(i(q), lambda t: cl(q, t).means[self.at(s, c, j)], S.R))), 2, pats=lambda c, j: [G(q).means[self.at(s, c, j)]])
                    yield "counts of %s below %s" % (fn, nm), lambda q, cl=cl, i=i: S.forall(lambda c: Imp(inK(c), G(q).num_members_v[c] == S.norm(self.cbase(s, c) + S.Sum(i(q), lambda t: cl(q, t).num_members_v[c], S.I))), 1, pats=lambda c: [G(q).num_members_v[c]])
            yield "not finished", lambda q: S.forall(lambda c: Imp(inK(c), S.Not(G(q).complete_v[c])), 1, pats=lambda c: [G(q).complete_v[c]])
        elif L.writes("a3*"):
            yield "shape", lambda q: And(G(q).prev_dist_v.len == K, G(q).prev_means.len == g0.means.len, *[f for _, f in wf(G(q))])
            yield "counts stay", lambda q: S.forall(lambda c: Imp(inK(c), G(q).num_members_v[c] == self.named(s, q)[0](c)), 1, pats=lambda c: [G(q).num_members_v[c]])
            for nm, i in cts:
                for k in range(3): yield "done %d %s" % (k, nm), lambda q, i=i, k=k: list(self.done(s, q, i(q)))[k][1]
                yield "open from " + nm, lambda q, i=i: S.forall(lambda c, j: Imp(And(c >= i(q), c < K, j >= 0, j < NC), G(q).means[self.at(s, c, j)] == self.named(s, q)[1](self.at(s, c, j))), 2, pats=lambda c, j: [G(q).means[self.at(s, c, j)]])
                yield "not finished from " + nm, lambda q, i=i: S.forall(lambda c: Imp(And(c >= i(q), c < K), S.Not(G(q).complete_v[c])), 1, pats=lambda c: [G(q).complete_v[c]])
                for n2, x in ints:
                    if n2 != nm: yield "%s counts members below %s" % (n2, nm), lambda q, i=i, x=x: x(q) == S.Sum(i(q), lambda c: self.named(s, q)[0](c), S.I)
        elif not setup:
            for cn, c in cts:
                for on, ro in outer: yield from self.row_inv(s, L, cn, c, on, ro)
    def row_inv(self, s, L, cn, c, on, ro):
        K = self.K(s); CA = lambda q: self.ca(s, q); DV = lambda q: self.dv(s, q)
        ok = lambda q: And(CA(q)[ro(q)] >= 0, CA(q)[ro(q)] < K, DV(q)[ro(q)] == D(ro(q), CA(q)[ro(q)]))
        yield "row %s: recorded distance is D or none, below %s" % (on, cn), lambda q: S.ite(c(q) > 0, And(DV(q)[ro(q)] <= D(ro(q), S.norm(c(q) - 1)), ok(q)), Or(DV(q)[ro(q)] == S.DBL_MAX, ok(q)))
        yield "row %s: least D below %s" % (on, cn), lambda q: S.forall(lambda x: Imp(And(x >= 0, x < c(q)), DV(q)[ro(q)] <= D(ro(q), x)), 1, pats=lambda x: [D(ro(q), x)])
        yield from self.others(s, L, on, ro)
    def others(self, s, L, on, ro):
        e = s.st(L.entry); CA = lambda q: self.ca(s, q); DV = lambda q: self.dv(s, q); off = e[2].off
        yield "other rows kept (%s)" % on, lambda q: S.forall(lambda p: Imp(p != S.norm(off + ro(q)), CA(q)[S.norm(p - off)] == e[2][S.norm(p - off)]), 1, pats=lambda p: [CA(q)[S.norm(p - off)]])
        yield "other bounds kept (%s)" % on, lambda q: S.forall(lambda p: Imp(p != ro(q), DV(q)[p] == e[5][p]), 1, pats=lambda p: [DV(q)[p]])

class MinPruned(MinInit):
    """every later pass: distances are skipped when the stored bounds allow it"""
    consts = {7: z3.BoolVal(False)}; sub = True; paths = True
    assumes = OmpEM.assumes + ["Euclidean distance satisfies the triangle inequality (trusted mathematics, stated over the distances the contract names)"]
    def requires(self, s):
        yield from self.common(s)
        g = s[1]; K, NC, N, ca, dv, dm = self.K(s), self.NC(s), self.N(s), s[2], s[5], s[6]; met = s.old.glob("g_dist_type", "int")
        yield "Euclidean metric", met == EUCL
        yield "definition of E", E.define(g.means, g.means, NC, met)
        yield "triangle inequality", triangle(K, N)
        yield "previous assignment valid", S.forall(lambda r: Imp(And(r >= 0, r < N), And(ca[r] >= 0, ca[r] < K)), 1, pats=lambda r: [ca[r]])
        yield "separation values sized nclust", g.s_val_v.len == K
        yield from (("matrix " + a, b) for a, b in k08.wf(dm))
        yield "matrix has one id per cluster", k08.ids(dm) == K
        yield "half distances stored", S.forall(lambda a, c: Imp(And(a >= 0, a < K, c >= 0, c < K, a != c), S.mul(S.rlit(2), half(dm, a, c)) == E(a, c)), 2, pats=lambda a, c: [E(a, c)])
        yield "separation value at most every half distance", S.forall(lambda a, c: Imp(And(a >= 0, a < K, c >= 0, c < K, a != c), S.mul(S.rlit(2), g.s_val_v[a]) <= E(a, c)), 2, pats=lambda a, c: [E(a, c)])
        yield "stored bound plus the centroid's movement bounds the distance", S.forall(lambda r: Imp(And(r >= 0, r < N), S.add(dv[r], g.prev_dist_v[ca[r]]) >= D(r, ca[r])), 1, pats=lambda r: [dv[r]])
        yield "one recalculation flag per row", N <= s[4].data.len
        M, W = self.named(s, s._old)
        yield "counts are those of the assignment", S.forall(lambda c: Imp(And(c >= 0, c < K), g.num_members_v[c] == M(c)), 1, pats=lambda c: [g.num_members_v[c]])
        yield "centroids are the means of the assignment", S.forall(lambda c, j: Imp(And(c >= 0, c < K, j >= 0, j < NC), S.ite(And(g.complete_v[c], M(c) > 1), S.mul(g.means[self.at(s, c, j)], S.toreal(M(c))), g.means[self.at(s, c, j)]) == W(self.at(s, c, j))), 2, pats=lambda c, j: [g.means[self.at(s, c, j)]])
    def modifies(self, s): return MinInit.modifies(self, s) + [s[4].data]
    def bound(self, s, q, n):
        ca, dv = self.ca(s, q), self.dv(s, q)
        yield "stored bound still bounds the distance", S.forall(lambda r: Imp(And(r >= 0, r < n), dv[r] >= D(r, ca[r])), 1, pats=lambda r: [dv[r]])
    def row_inv(self, s, L, cn, c, on, ro):
        K = self.K(s); CA = lambda q: self.ca(s, q); DV = lambda q: self.dv(s, q); fl = lambda q: s.st(q)[4].data
        yield "flags kept", lambda q: fl(q).len == s.old[4].data.len
        yield "row %s: assignment valid" % on, lambda q: And(CA(q)[ro(q)] >= 0, CA(q)[ro(q)] < K)
        yield "row %s: bound holds" % on, lambda q: DV(q)[ro(q)] >= D(ro(q), CA(q)[ro(q)])
        yield "row %s: flag written" % on, lambda q: k11.written(fl(q), ro(q))
        yield "row %s: flag set means the bound is exact" % on, lambda q: Imp(k11.flag(fl(q), ro(q)), DV(q)[ro(q)] == D(ro(q), CA(q)[ro(q)]))
        yield "row %s: least D below %s" % (on, cn), lambda q: S.forall(lambda x: Imp(And(x >= 0, x < c(q)), D(ro(q), CA(q)[ro(q)]) <= D(ro(q), x)), 1, pats=lambda x: [D(ro(q), x)])
        yield from self.others(s, L, on, ro)
CONTRACTS = [MinInit, MinPruned]
