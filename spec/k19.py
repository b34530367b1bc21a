"""K19: mini-batch steps."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from .k06 import wf
from .k04 import PT, D, in_row

RATE = z3.Function("ghost_rate", S.I, S.R)           # RATE(c): the rate of cluster c (defined where the step is called)
M = z3.Function("ghost_moved", S.I, S.I, S.R)        # M(i,p): element p of the centroids after the first i sampled rows

class MbEM(Contract):
    """samples rows of the current block; a sampled row goes to a nearest centroid, the others are left alone"""
    qname = PT + "::mb_EM_step"; thisty = PT
    def requires(self, s):
        t = s.this; g = t.g_clusters; k = t.curr_task; ca = t.cluster_assignments; st = k.start_rid; dv = t.dist_v
        yield from (("global " + a, b) for a, b in wf(g))
        yield "shape", And(g.ncol == t.ncol, g.nclust >= 1)
        yield "task data", fits(k.data, S.mul(k.nrow, t.ncol))
        yield "the block is this worker's", k.start_rid >= t.start_rid
        yield "assignments cover the rows", fits(ca, S.norm(st + k.nrow)); yield "bounds cover the rows", fits(dv, S.norm(st + k.nrow))
        yield "cluster ids fit", g.nclust < 4294967295; yield "row ids fit", st + k.nrow < 4294967296
        yield "metric valid", valid_metric(t.dist_metric)
        yield "definition of D", D.define(k.data, g.means, t.ncol, t.dist_metric)
        yield "distances below DBL_MAX", S.forall(lambda r, c: Imp(And(r >= 0, r < k.nrow, c >= 0, c < g.nclust), D(r, c) < S.DBL_MAX), 2, pats=lambda r, c: [D(r, c)])
        yield "no distance recorded, or that of the assigned centroid", S.forall(lambda r: Imp(And(r >= 0, r < k.nrow), Or(dv[S.norm(st + r)] == S.DBL_MAX,
            And(ca[S.norm(st + r)] >= 0, ca[S.norm(st + r)] < g.nclust, dv[S.norm(st + r)] == D(r, ca[S.norm(st + r)])))), 1, pats=lambda r: [dv[S.norm(st + r)]])
    def modifies(self, s): t = s.this; return [t.cluster_assignments.region(), t.dist_v.region(), t.mb_selected]
    def state(self, s, q, n, done=True):
        """the first n rows of the block have been looked at"""
        o, t = s.old.this, s.st(q).this; k = o.curr_task; st = k.start_rid; K = o.g_clusters.nclust
        sel, m = t.mb_selected, o.mb_selected.len; ca, dv = t.cluster_assignments, t.dist_v
        base = S.norm(st - o.start_rid)
        new = lambda i: And(i >= m, i < sel.len)
        yield "sample only grows", sel.len >= m
        yield "rows sampled before", S.forall(lambda i: Imp(And(i >= 0, i < m), sel[i] == o.mb_selected[i]), 1, pats=lambda i: [sel[i]])
        yield "sampled once, in order", S.forall(lambda i: Imp(new(i), And(sel[i] >= S.ite(i == m, base, S.norm(sel[S.norm(i - 1)] + 1)), sel[i] < S.norm(base + n))), 1, pats=lambda i: [sel[i]])
        is_ = lambda i, r: And(new(i), sel[i] == S.norm(base + r)); at = lambda r: S.norm(st + r)
        yield "sampled rows are assigned", S.forall(lambda i, r: Imp(is_(i, r), And(ca[at(r)] >= 0, ca[at(r)] < K, dv[at(r)] == D(r, ca[at(r)]))), 2, pats=lambda i, r: [(sel[i], ca[at(r)]), (sel[i], dv[at(r)])])
        yield "to a nearest centroid", S.forall(lambda i, r, c: Imp(And(is_(i, r), c >= 0, c < K), dv[at(r)] <= D(r, c)), 3, pats=lambda i, r, c: [(sel[i], D(r, c))])
        yield "rows outside the block untouched", S.forall(lambda p: Imp(Or(p < st, p >= S.norm(st + n)), And(ca[p] == o.cluster_assignments[p], dv[p] == o.dist_v[p])), 1, pats=lambda p: [ca[p], dv[p]])
        lo = lambda i: S.ite(i == m, S.norm(st - 1), S.norm(sel[S.norm(i - 1)] + o.start_rid)); hi = lambda i: S.ite(i == sel.len, S.norm(st + n), S.norm(sel[i] + o.start_rid))
        yield "rows between two sampled ones untouched", S.forall(lambda i, p: Imp(And(i >= m, i <= sel.len, p > lo(i), p < hi(i)), And(ca[p] == o.cluster_assignments[p], dv[p] == o.dist_v[p])), 2, pats=lambda i, p: [(sel[i], ca[p]), (sel[i], dv[p])])
    def ensures(self, s): yield from self.state(s, s._new, s.old.this.curr_task.nrow)
    def loop_inv(self, s, L):
        o = s.old.this; k = o.curr_task; st = k.start_rid; K = o.g_clusters.nclust
        if L.writes("mb_selected"):
            for nm, i in L.ints:
                if nm.startswith("this"): continue
                for j, (what, _) in enumerate(self.state(s, L.entry, S.lit(0))):
                    yield "%s (%s)" % (what, nm), lambda q, i=i, j=j: list(self.state(s, q, i(q)))[j][1]
        else:
            e = s.st(L.entry).this
            CA = lambda q: s.st(q).this.cluster_assignments
            DV = lambda q: s.st(q).this.dist_v
            for cn, c in L.ints:
                for on, ro in L.int_locals():
                    if on in [x for x, _ in L.ints] or on.startswith("LR."): continue
                    yield from self.row_inv(cn, c, on, ro, st, K, CA, DV, e)
    def row_inv(self, cn, c, on, ro, st, K, CA, DV, e):
        g = lambda q: S.norm(st + ro(q))
        ok = lambda q: And(CA(q)[g(q)] >= 0, CA(q)[g(q)] < K, DV(q)[g(q)] == D(ro(q), CA(q)[g(q)]))
        yield "row %s: recorded distance is D or none, below %s" % (on, cn), lambda q: S.ite(c(q) > 0, And(DV(q)[g(q)] <= D(ro(q), S.norm(c(q) - 1)), ok(q)), Or(DV(q)[g(q)] == S.DBL_MAX, ok(q)))
        yield "row %s: least D below %s" % (on, cn), lambda q: S.forall(lambda x: Imp(And(x >= 0, x < c(q)), DV(q)[g(q)] <= D(ro(q), x)), 1, pats=lambda x: [D(ro(q), x)])
        yield "other rows kept (%s)" % on, lambda q: S.forall(lambda p: Imp(p != g(q), And(CA(q)[p] == e.cluster_assignments[p], DV(q)[p] == e.dist_v[p])), 1, pats=lambda p: [CA(q)[p], DV(q)[p]])

class MbFinalize(Contract):
    """each sampled row pulls its centroid towards itself by that centroid's rate; then the sample is emptied"""
    qname = PT + "::mb_finalize_centroids"; thisty = PT
    def cid(self, s, i): t = s.this; return t.cluster_assignments[S.norm(t.start_rid + t.mb_selected[i])]
    def requires(self, s):
        t = s.this; g = t.g_clusters; sel = t.mb_selected; n = sel.len
        yield from (("global " + a, b) for a, b in wf(g))
        yield "shape", g.ncol == t.ncol
        yield "one rate per cluster", fits(s[0], g.nclust)
        yield "rates", S.forall(lambda c: Imp(And(c >= 0, c < g.nclust), s[0][c] == RATE(c)), 1, pats=lambda c: [s[0][c]])
        yield "sampled rows are local", S.forall(lambda i: Imp(And(i >= 0, i < n), And(sel[i] >= 0, sel[i] < t.tasks.nrow)), 1, pats=lambda i: [sel[i]])
        yield "sampled rows have a centroid", S.forall(lambda i: Imp(And(i >= 0, i < n), And(self.cid(s, i) >= 0, self.cid(s, i) < g.nclust)), 1, pats=lambda i: [sel[i]])
        yield "local data", fits(t.local_data, S.mul(t.tasks.nrow, t.ncol)); yield "assignments cover the rows", fits(t.cluster_assignments, S.norm(t.start_rid + t.tasks.nrow))
        yield "row ids fit", And(t.start_rid + t.tasks.nrow < 4294967296, S.mul(t.tasks.nrow, t.ncol) < 4294967296)
        if s.root:
            x = lambda i, p: t.local_data[S.norm(S.mul(sel[i], t.ncol) + p - S.mul(self.cid(s, i), t.ncol))]
            yield "definition of the moves (start)", S.forall(lambda p: M(S.lit(0), p) == g.means[p], 1, pats=lambda p: [M(S.lit(0), p)])
            yield "definition of the moves", S.forall(lambda i, j, p: Imp(And(i >= 0, j == i + 1), M(j, p) == S.ite(in_row(self.cid(s, i), t.ncol, p),
                S.add(S.mul(S.sub(S.rlit(1), s[0][self.cid(s, i)]), M(i, p)), S.mul(s[0][self.cid(s, i)], x(i, p))), M(i, p))), 3, pats=lambda i, j, p: [(sel[i], M(j, p))])
    def modifies(self, s): t = s.this; return [t.g_clusters.means, t.mb_selected]
    def ensures(self, s):
        n = s.new.this
        if s.root: yield "centroids moved by the convex combinations", S.forall(lambda p: n.g_clusters.means[p] == M(s.old.this.mb_selected.len, p), 1, pats=lambda p: [n.g_clusters.means[p]])
        yield "sample emptied", n.mb_selected.len == 0
        yield "length", n.g_clusters.means.len == s.old.this.g_clusters.means.len
    def loop_inv(self, s, L):
        G = lambda q: s.st(q).this.g_clusters
        yield "length", lambda q: G(q).means.len == s.old.this.g_clusters.means.len
        for nm, i in L.ints:
            yield "moved by the samples below " + nm, lambda q, i=i: S.forall(lambda p: G(q).means[p] == M(i(q), p), 1, pats=lambda p: [G(q).means[p]])

PC = "knor::prune::kmeans_task_coordinator"
NA_ = z3.Function("ghost_assigned", S.I, S.R)        # NA_(c): number of rows assigned to c
class MbIterationEnd(Contract):
    """the rate of a cluster is one over the number of rows assigned to it; every worker applies its sample; bounds are forgotten"""
    qname = PC + "::mb_iteration_end"; thisty = PC
    def setup(self, ex): ex.dyn["this.threads[]*"] = PT
    def num(self, s, c, n=None):
        ca = s.this.cluster_assignments
        return S.Sum(s.this.nrow if n is None else n, lambda r: S.ite(ca[r] == c, S.rlit(1), S.rlit(0)), S.R)
    def requires(self, s):
        t = s.this; w = lambda i: t.threads[i]; inr = lambda i: And(i >= 0, i < t.threads.len)
        yield "sizes", And(t.cluster_assignments.len == t.nrow, t.dist_v.len == t.nrow, t.k >= 1, t.nrow >= 1, t.k < 4294967295)
        yield "rows have a cluster or none", S.forall(lambda r: Imp(And(r >= 0, r < t.nrow), Or(t.cluster_assignments[r] < t.k, t.cluster_assignments[r] == 4294967295)), 1, pats=lambda r: [t.cluster_assignments[r]])
        for k in range(len(list(self.worker(s, s, S.lit(0))))):
            what, _, pats = list(self.worker(s, s, S.lit(0)))[k]
            yield "workers: " + what, S.forall(lambda i, k=k: Imp(inr(i), list(self.worker(s, s, i))[k][1]), 1, pats=lambda i, k=k: list(self.worker(s, s, i))[k][2])
        yield "workers: sampled rows are local", S.forall(lambda i, j: Imp(And(inr(i), j >= 0, j < w(i).mb_selected.len), And(w(i).mb_selected[j] >= 0, w(i).mb_selected[j] < w(i).tasks.nrow)), 2, pats=lambda i, j: [w(i).mb_selected[j]])
        cid = lambda i, j: w(i).cluster_assignments[S.norm(w(i).start_rid + w(i).mb_selected[j])]
        yield "workers: sampled rows have a centroid", S.forall(lambda i, j: Imp(And(inr(i), j >= 0, j < w(i).mb_selected.len), And(cid(i, j) >= 0, cid(i, j) < t.k)), 2, pats=lambda i, j: [w(i).mb_selected[j]])
        yield "definition of the counts", S.forall(lambda c: NA_(c) == self.num(s, c), 1, pats=lambda c: [NA_(c)])
        yield "definition of the rates", S.forall(lambda c: RATE(c) == S.rdiv(S.rlit(1), NA_(c)), 1, pats=lambda c: [RATE(c)])
    def worker(self, s, st, i):
        t = s.this; w = st.this.threads[i]; g = w.g_clusters
        yield "centroids", And(*[f for _, f in wf(g)]), [g.means.len]
        yield "shape", And(g.ncol == w.ncol, g.nclust == t.k), [g.means.len]
        yield "data", fits(w.local_data, S.mul(w.tasks.nrow, w.ncol)), [w.local_data.cap]
        yield "assignments", fits(w.cluster_assignments, S.norm(w.start_rid + w.tasks.nrow)), [w.cluster_assignments.cap]
        yield "row ids", And(w.start_rid + w.tasks.nrow < 4294967296, S.mul(w.tasks.nrow, w.ncol) < 4294967296), [w.tasks.nrow]
    def modifies(self, s):
        t = s.this
        return [t.dist_v, Loc("this.threads[]*.mb_selected", (), "std::vector<unsigned int>"), Loc("this.threads[]*.g_clusters*.means", (), "std::vector<double>")]
    def emptied(self, s, q, n):
        t = s.st(q).this.threads
        return S.forall(lambda i: Imp(And(i >= 0, i < n), t[i].mb_selected.len == 0), 1, pats=lambda i: [t[i].mb_selected.len])
    def ensures(self, s):
        n = s.new.this
        yield "every sample is applied and emptied", self.emptied(s, s._new, s.this.threads.len)
        yield "bounds forgotten", S.forall(lambda r: Imp(And(r >= 0, r < n.dist_v.len), n.dist_v[r] == S.DBL_MAX), 1, pats=lambda r: [n.dist_v[r]])
        yield "same number of bounds", n.dist_v.len == s.old.this.dist_v.len
    def loop_inv(self, s, L):
        t = s.this; T = lambda q: s.st(q).this.threads
        for nm, v in L.vectors(S.R):
            if nm.startswith("this"): continue
            yield "one entry per cluster " + nm, lambda q, v=v: v(q).len == t.k
            for inm, i in L.ints:
                yield "%s counts the rows below %s" % (nm, inm), lambda q, v=v, i=i: S.forall(lambda c: Imp(And(c >= 0, c < t.k), v(q)[c] == self.num(s, c, i(q))), 1, pats=lambda c: [v(q)[c]])
                yield "%s are rates below %s" % (nm, inm), lambda q, v=v, i=i: S.forall(lambda c: Imp(And(c >= 0, c < i(q)), v(q)[c] == RATE(c)), 1, pats=lambda c: [v(q)[c]])
                yield "%s are counts from %s" % (nm, inm), lambda q, v=v, i=i: S.forall(lambda c: Imp(And(c >= i(q), c < t.k), v(q)[c] == NA_(c)), 1, pats=lambda c: [v(q)[c]])
        for inm, i in L.ints:
            yield "workers done below " + inm, lambda q, i=i: self.emptied(s, q, i(q))
            yield "samples waiting from " + inm, lambda q, i=i: S.forall(lambda j: Imp(And(j >= i(q), j < t.threads.len), T(q)[j].mb_selected.len == s.old.this.threads[j].mb_selected.len), 1, pats=lambda j: [T(q)[j].mb_selected.len])
            yield "sampled rows waiting from " + inm, lambda q, i=i: S.forall(lambda j, x: Imp(And(j >= i(q), j < t.threads.len), T(q)[j].mb_selected[x] == s.old.this.threads[j].mb_selected[x]), 2, pats=lambda j, x: [T(q)[j].mb_selected[x]])
        yield "lengths of the centroids", lambda q: S.forall(lambda j: T(q)[j].g_clusters.means.len == s.old.this.threads[j].g_clusters.means.len, 1, pats=lambda j: [T(q)[j].g_clusters.means.len])
CONTRACTS = [MbEM, MbFinalize, MbIterationEnd]
