"""K04: the exhaustive assignment pass of the thread-pool library."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from . import k02
from .k06 import wf
KT = "knor::kmeans_thread"; PT = "knor::prune::kmeans_task_thread"

def in_row(c, ncol, p): return And(p >= S.mul(c, ncol), p < S.norm(S.mul(c, ncol) + ncol))

class Ghost:
    """D(r,c): distance between the r-th row and the c-th centroid, as a function defined by an axiom"""
    def __init__(self, name): self.f = z3.Function(name, S.I, S.I, S.R)
    def __call__(self, r, c): return self.f(I(r), I(c))
    def define(self, data, means, ncol, metric):
        return S.forall(lambda r, c: self.f(r, c) == dist(lambda j: data[S.norm(S.mul(r, ncol) + j)], lambda j: means[S.norm(S.mul(c, ncol) + j)], ncol, metric),
                        2, pats=lambda r, c: [self.f(r, c)])
D = Ghost("ghost_D")

def nearest(a, r, k, upto=None):
    """a is a cluster at minimal distance from row r among the clusters below upto"""
    n = k if upto is None else upto
    return S.forall(lambda c: Imp(And(c >= 0, c < n), D(r, a) <= D(r, c)), 1, pats=lambda c: [D(r, c)])

def moved(new, old, lo, n):
    """number of rows below n whose assignment differs"""
    return S.Sum(n, lambda r: S.ite(new[S.norm(lo + r)] != old[S.norm(lo + r)], S.lit(1), S.lit(0)), S.I)
def members(ca, lo, n, c): return S.Sum(n, lambda r: S.ite(ca[S.norm(lo + r)] == c, S.lit(1), S.lit(0)), S.I)
def coords(ca, data, lo, n, ncol, p):
    return S.Sum(n, lambda r: S.ite(in_row(ca[S.norm(lo + r)], ncol, p), data[S.norm(S.mul(r, ncol) + p - S.mul(ca[S.norm(lo + r)], ncol))], S.rlit(0)), S.R)

def best_inv(rn, r, an, a, cn, c, on, ro):
    """r is the distance of row ro to cluster a, the least among the clusters below c"""
    yield "%s = D(%s,%s) once %s > 0" % (rn, on, an, cn), lambda q: S.ite(c(q) > 0, And(r(q) <= D(ro(q), S.norm(c(q) - 1)), a(q) >= 0, a(q) < c(q), r(q) == D(ro(q), a(q))), r(q) == S.DBL_MAX)
    yield "%s least D(%s,.) below %s" % (rn, on, cn), lambda q: S.forall(lambda x: Imp(And(x >= 0, x < c(q)), r(q) <= D(ro(q), x)), 1, pats=lambda x: [D(ro(q), x)])

class KmEM(Contract):
    qname = KT + "::EM_step"; thisty = KT
    def requires(self, s):
        t = s.this; g = t.g_clusters; l = t.local_clusters
        yield from (("global " + a, b) for a, b in wf(g))
        yield from (("local " + a, b) for a, b in wf(l))
        yield "same shape", And(l.nclust == g.nclust, l.ncol == g.ncol, g.ncol == t.ncol, g.nclust >= 1)
        yield "metric valid", valid_metric(t.dist_metric)
        yield "local data", fits(t.local_data, S.mul(t.nprocrows, t.ncol))
        yield "assignments cover the rows", fits(t.cluster_assignments, S.norm(t.start_rid + t.nprocrows))
        yield "definition of D", D.define(t.local_data, g.means, t.ncol, t.dist_metric)
        yield "distances below DBL_MAX", S.forall(lambda r, c: Imp(And(r >= 0, r < t.nprocrows, c >= 0, c < g.nclust), D(r, c) < S.DBL_MAX), 2, pats=lambda r, c: [D(r, c)])
        yield "cluster ids fit", g.nclust < 4294967295
    def modifies(self, s):
        t = s.this; l = t.local_clusters
        return [t.meta.loc(), l.means, l.num_members_v, l.complete_v, t.cluster_assignments.region()]
    def ensures(self, s):
        o, n = s.old.this, s.new.this
        N = o.nprocrows; st = o.start_rid; ca = n.cluster_assignments; K = o.g_clusters.nclust; l = n.local_clusters
        yield "assignment valid", S.forall(lambda r: Imp(And(r >= 0, r < N), And(ca[S.norm(st + r)] >= 0, ca[S.norm(st + r)] < K)), 1, pats=lambda r: [ca[S.norm(st + r)]])
        yield "assigned to a nearest centroid", S.forall(lambda r, c: Imp(And(r >= 0, r < N, c >= 0, c < K), D(r, ca[S.norm(st + r)]) <= D(r, c)), 2, pats=lambda r, c: [D(r, c)])
        yield "other rows untouched", S.forall(lambda p: Imp(Or(p < st, p >= S.norm(st + N)), ca[p] == o.cluster_assignments[p]), 1, pats=lambda p: [ca[p]])
        yield "change count", n.meta.num_changed == moved(ca, o.cluster_assignments, st, N)
        yield "member counts", S.forall(lambda c: Imp(And(c >= 0, c < K), l.num_members_v[c] == members(ca, st, N, c)), 1, pats=lambda c: [l.num_members_v[c]])
        yield "coordinate sums", S.forall(lambda p: Imp(And(p >= 0, p < l.means.len), l.means[p] == coords(ca, o.local_data, st, N, o.ncol, p)), 1, pats=lambda p: [l.means[p]])
        for nm, f in wf(l): yield "local " + nm, f
    def loop_inv(self, s, L):
        o = s.old.this; st = o.start_rid; K = o.g_clusters.nclust
        CA = lambda q: s.st(q).this.cluster_assignments
        LC = lambda q: s.st(q).this.local_clusters
        ints = [(nm, i) for nm, i in L.ints]
        if L.writes("local_clusters"):
            for nm, i in ints:
                yield "valid below " + nm, lambda q, i=i: S.forall(lambda r: Imp(And(r >= 0, r < i(q)), And(CA(q)[S.norm(st + r)] >= 0, CA(q)[S.norm(st + r)] < K)), 1, pats=lambda r: [CA(q)[S.norm(st + r)]])
                yield "nearest below " + nm, lambda q, i=i: S.forall(lambda r, c: Imp(And(r >= 0, r < i(q), c >= 0, c < K), D(r, CA(q)[S.norm(st + r)]) <= D(r, c)), 2, pats=lambda r, c: [D(r, c)])
                yield "untouched from " + nm, lambda q, i=i: S.forall(lambda p: Imp(Or(p < st, p >= S.norm(st + i(q))), CA(q)[p] == o.cluster_assignments[p]), 1, pats=lambda p: [CA(q)[p]])
                yield "changes below " + nm, lambda q, i=i: s.st(q).this.meta.num_changed == moved(CA(q), o.cluster_assignments, st, i(q))
                yield "counts below " + nm, lambda q, i=i: S.forall(lambda c: Imp(And(c >= 0, c < K), LC(q).num_members_v[c] == members(CA(q), st, i(q), c)), 1, pats=lambda c: [LC(q).num_members_v[c]])
                yield "sums below " + nm, lambda q, i=i: S.forall(lambda p: Imp(And(p >= 0, p < LC(q).means.len), LC(q).means[p] == coords(CA(q), o.local_data, st, i(q), o.ncol, p)), 1, pats=lambda p: [LC(q).means[p]])
            for nm, f in wf(LC(L.entry)): pass
            yield "local shape", lambda q: And(*[f for _, f in wf(LC(q))])
        else:
            outer = [(nm, i) for nm, i in L.int_locals() if nm not in [x for x, _ in L.ints]]
            for rn, r in L.reals:
                for an, a in ints:
                    for cn, c in ints:
                        if an == cn: continue
                        for on, ro in outer:
                            yield from best_inv(rn, r, an, a, cn, c, on, ro)
def task_rows(s):
    """shapes shared by the passes of the pruned library over one task"""
    t = s.this; g = t.g_clusters; l = t.local_clusters; k = t.curr_task
    yield from (("global " + a, b) for a, b in wf(g))
    yield from (("local " + a, b) for a, b in wf(l))
    yield "same shape", And(l.nclust == g.nclust, l.ncol == g.ncol, g.ncol == t.ncol, g.nclust >= 1)
    yield "task data", fits(k.data, S.mul(k.nrow, t.ncol))
    yield "assignments cover the rows", fits(t.cluster_assignments, S.norm(k.start_rid + k.nrow))
    yield "bounds cover the rows", fits(t.dist_v, S.norm(k.start_rid + k.nrow))
    yield "cluster ids fit", g.nclust < 4294967295
    yield "row ids fit", k.start_rid + k.nrow < 4294967296
def mem_inv(s, L, CA, CA0, LC, LC0, data, st, ncol, K, i):
    """LC = LC0 + members under CA - members under CA0 (absent when CA0 is None)"""
    sub = CA0 is not None
    def cnt(q, c):
        v = S.norm(LC0.num_members_v[c] + members(CA(q), st, i(q), c))
        return S.norm(v - members(CA0, st, i(q), c)) if sub else v
    def crd(q, p):
        v = S.add(LC0.means[p], coords(CA(q), data, st, i(q), ncol, p))
        return S.sub(v, coords(CA0, data, st, i(q), ncol, p)) if sub else v
    yield "counts", lambda q: S.forall(lambda c: Imp(And(c >= 0, c < K), LC(q).num_members_v[c] == cnt(q, c)), 1, pats=lambda c: [LC(q).num_members_v[c]])
    yield "sums", lambda q: S.forall(lambda p: Imp(And(p >= 0, p < LC(q).means.len), LC(q).means[p] == crd(q, p)), 1, pats=lambda p: [LC(q).means[p]])

class TaskEMInit(Contract):
    """first pass of the pruned library: every row is compared with every centroid"""
    qname = PT + "::EM_step"; thisty = PT
    def setup(self, ex):
        ex.init["this.prune_init"] = z3.BoolVal(True); ex.leaf_sort["this.prune_init"] = (S.B, "bool")
    def requires(self, s):
        t = s.this; g = t.g_clusters; k = t.curr_task; ca = t.cluster_assignments; st = k.start_rid; dv = t.dist_v
        yield "first pass", t.prune_init
        yield from task_rows(s)
        yield "metric valid", valid_metric(t.dist_metric)
        yield "definition of D", D.define(k.data, g.means, t.ncol, t.dist_metric)
        yield "distances below DBL_MAX", S.forall(lambda r, c: Imp(And(r >= 0, r < k.nrow, c >= 0, c < g.nclust), D(r, c) < S.DBL_MAX), 2, pats=lambda r, c: [D(r, c)])
        yield "no distance recorded, or that of the assigned centroid", S.forall(lambda r: Imp(And(r >= 0, r < k.nrow), Or(dv[S.norm(st + r)] == S.DBL_MAX,
            And(ca[S.norm(st + r)] >= 0, ca[S.norm(st + r)] < g.nclust, dv[S.norm(st + r)] == D(r, ca[S.norm(st + r)])))), 1, pats=lambda r: [dv[S.norm(st + r)]])
    def modifies(self, s):
        t = s.this; l = t.local_clusters
        return [t.meta.loc(), l.means, l.num_members_v, t.cluster_assignments.region(), t.dist_v.region()]
    sub = False
    def ensures(self, s):
        o, n = s.old.this, s.new.this; k = o.curr_task
        N = k.nrow; st = k.start_rid; ca = n.cluster_assignments; K = o.g_clusters.nclust; l = n.local_clusters
        inr = lambda r: And(r >= 0, r < N)
        yield "assignment valid", S.forall(lambda r: Imp(inr(r), And(ca[S.norm(st + r)] >= 0, ca[S.norm(st + r)] < K)), 1, pats=lambda r: [ca[S.norm(st + r)]])
        yield "assigned to a nearest centroid", S.forall(lambda r, c: Imp(And(inr(r), c >= 0, c < K), D(r, ca[S.norm(st + r)]) <= D(r, c)), 2, pats=lambda r, c: [D(r, c)])
        yield from self.bound(o, n, N, st, ca)
        yield "other rows untouched", S.forall(lambda p: Imp(Or(p < st, p >= S.norm(st + N)), And(ca[p] == o.cluster_assignments[p], n.dist_v[p] == o.dist_v[p])), 1, pats=lambda p: [ca[p]])
        yield "change count", n.meta.num_changed == S.norm(o.meta.num_changed + (moved(ca, o.cluster_assignments, st, N) if self.sub else N))
        q = s._new
        for nm, f in mem_inv(s, None, lambda q: s.st(q).this.cluster_assignments, o.cluster_assignments if self.sub else None, lambda q: s.st(q).this.local_clusters, o.local_clusters, k.data, st, o.ncol, K, lambda q: N):
            yield nm, f(q)
        for nm, f in wf(l): yield "local " + nm, f
    def bound(self, o, n, N, st, ca):
        yield "recorded distance", S.forall(lambda r: Imp(And(r >= 0, r < N), n.dist_v[S.norm(st + r)] == D(r, ca[S.norm(st + r)])), 1, pats=lambda r: [n.dist_v[S.norm(st + r)]])
    def loop_inv(self, s, L):
        o = s.old.this; k = o.curr_task; st = k.start_rid; K = o.g_clusters.nclust
        CA = lambda q: s.st(q).this.cluster_assignments
        DV = lambda q: s.st(q).this.dist_v
        LC = lambda q: s.st(q).this.local_clusters
        ints = [(nm, i) for nm, i in L.ints if not nm.startswith("this")]
        if L.writes("local_clusters"):
            for nm, i in ints:
                yield "valid below " + nm, lambda q, i=i: S.forall(lambda r: Imp(And(r >= 0, r < i(q)), And(CA(q)[S.norm(st + r)] >= 0, CA(q)[S.norm(st + r)] < K)), 1, pats=lambda r: [CA(q)[S.norm(st + r)]])
                yield "nearest below " + nm, lambda q, i=i: S.forall(lambda r, c: Imp(And(r >= 0, r < i(q), c >= 0, c < K), D(r, CA(q)[S.norm(st + r)]) <= D(r, c)), 2, pats=lambda r, c: [D(r, c)])
                yield "bounds below " + nm, lambda q, i=i: list(self.bound(o, s.st(q).this, i(q), st, CA(q)))[0][1]
                yield "untouched from " + nm, lambda q, i=i: S.forall(lambda p: Imp(Or(p < st, p >= S.norm(st + i(q))), And(CA(q)[p] == o.cluster_assignments[p], DV(q)[p] == o.dist_v[p])), 1, pats=lambda p: [CA(q)[p], DV(q)[p]])
                yield "changes below " + nm, lambda q, i=i: s.st(q).this.meta.num_changed == S.norm(o.meta.num_changed + (moved(CA(q), o.cluster_assignments, st, i(q)) if self.sub else i(q)))
                for n2, f in mem_inv(s, L, CA, o.cluster_assignments if self.sub else None, LC, o.local_clusters, k.data, st, o.ncol, K, i): yield n2 + " below " + nm, f
            yield "local shape", lambda q: And(*[f for _, f in wf(LC(q))])
        else:
            e = s.st(L.entry).this
            outer = [(nm, i) for nm, i in L.int_locals() if nm not in [x for x, _ in L.ints] and not nm.startswith("LR.")]
            for cn, c in ints:
                for on, ro in outer:
                    yield from self.row_inv(s, L, cn, c, on, ro, st, K, CA, DV, e, o)
    def row_inv(self, s, L, cn, c, on, ro, st, K, CA, DV, e, o):
        g = lambda q: S.norm(st + ro(q))
        ok = lambda q: And(CA(q)[g(q)] >= 0, CA(q)[g(q)] < K, DV(q)[g(q)] == D(ro(q), CA(q)[g(q)]))
        yield "row %s: recorded distance is D or none, below %s" % (on, cn), lambda q: S.ite(c(q) > 0, And(DV(q)[g(q)] <= D(ro(q), S.norm(c(q) - 1)), ok(q)), Or(DV(q)[g(q)] == S.DBL_MAX, ok(q)))
        yield "row %s: least D below %s" % (on, cn), lambda q: S.forall(lambda x: Imp(And(x >= 0, x < c(q)), DV(q)[g(q)] <= D(ro(q), x)), 1, pats=lambda x: [D(ro(q), x)])
        yield "other rows kept (%s)" % on, lambda q: S.forall(lambda p: Imp(p != g(q), And(CA(q)[p] == e.cluster_assignments[p], DV(q)[p] == e.dist_v[p])), 1, pats=lambda p: [CA(q)[p], DV(q)[p]])
CONTRACTS = [KmEM, TaskEMInit, k02.metric_of(__name__, "Kmeans", k02.KC, k02.KT), k02.metric_of(__name__, "KmeansTask", "knor::prune::kmeans_task_coordinator", "knor::prune::kmeans_task_thread", task=True)]
