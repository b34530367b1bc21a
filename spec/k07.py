"""K07: the update step makes each centroid the mean of its members."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from . import k06
from .k06 import wf, CL
KC = "knor::kmeans_coordinator"; PC = "knor::prune::kmeans_task_coordinator"

A = z3.Function("ghost_total", S.I, S.I, S.R)   # A(c,j): total of coordinate j of cluster c over the workers (defined by an axiom)
F = z3.Function("ghost_final", S.I, S.I, S.R)   # F(c,j): coordinate j of cluster c's mean
N = z3.Function("ghost_count", S.I, S.I)        # N(c): total count of cluster c

class Update(Contract):
    qname = KC + "::update_clusters"; thisty = KC
    thread = "knor::kmeans_thread"; cl = CL
    def setup(self, ex):
        ex.dyn["this.threads[]*"] = self.thread; ex.dyn["this.threads[]*.local_clusters*"] = CL; ex.dyn["this.cltrs*"] = self.cl
    def lc(self, s, i): return s.this.threads[i].local_clusters
    def T(self, s): return s.this.threads.len
    def base(self, s, c, p): return S.rlit(0)    # what the sums start from
    def cbase(self, s, c): return S.lit(0)
    def agg(self, s, c, p, n=None): return S.add(self.base(s, c, p), S.Sum(self.T(s) if n is None else n, lambda i: self.lc(s, i).means[p], S.R))
    def cnt(self, s, c, n=None): return S.norm(self.cbase(s, c) + S.Sum(self.T(s) if n is None else n, lambda i: self.lc(s, i).num_members_v[c], S.I))
    def chg(self, s, n=None): return S.Sum(self.T(s) if n is None else n, lambda i: s.this.threads[i].meta.num_changed, S.I)
    def requires(self, s):
        t = s.this; g = t.cltrs
        yield from (("global " + a, b) for a, b in wf(g))
        yield "shape", And(g.nclust == t.k, g.ncol == t.ncol, t.cluster_assignment_counts.len == t.k)
        yield "workers' shapes", S.forall(lambda i: Imp(And(i >= 0, i < self.T(s)), And(self.lc(s, i).nclust == t.k, self.lc(s, i).ncol == t.ncol,
            *[f for _, f in wf(self.lc(s, i))])), 1, pats=lambda i: [self.lc(s, i).means.len])
        yield "definition of the totals", S.forall(lambda c, j: A(c, j) == self.agg(s, c, self.at(s, c, j)), 2, pats=lambda c, j: [A(c, j)])
        yield "definition of the counts", S.forall(lambda c: N(c) == self.cnt(s, c), 1, pats=lambda c: [N(c)])
        fin = lambda c, p: S.ite(N(c) > 1, S.rdiv(A(c, p), S.toreal(N(c))), A(c, p))
        yield "definition of the means", S.forall(lambda c, j: F(c, j) == fin(c, j), 2, pats=lambda c, j: [F(c, j)])
        yield "every row is a member of one cluster", S.Sum(t.k, lambda c: N(c), S.I) == t.nrow
        yield "at most every row changed", self.chg(s) + self.chg0(s) <= t.nrow
    def chg0(self, s): return S.lit(0)
    def modifies(self, s):
        g = s.this.cltrs
        return [g.means, g.num_members_v, g.complete_v, s.this.cluster_assignment_counts, s.this.loc("num_changed")]
    def fin(self, s, c, p): return F(c, p)
    def at(self, s, c, j): return S.norm(S.mul(c, s.this.ncol) + j)
    def done(self, s, q, n):
        """the clusters below n are finished"""
        t = s.this; w = s.st(q).this; g = w.cltrs
        yield "centroids below", S.forall(lambda c, j: Imp(And(c >= 0, c < n, j >= 0, j < t.ncol), g.means[self.at(s, c, j)] == self.fin(s, c, j)), 2, pats=lambda c, j: [g.means[self.at(s, c, j)]])
        yield "reported counts below", S.forall(lambda c: Imp(And(c >= 0, c < n), w.cluster_assignment_counts[c] == N(c)), 1, pats=lambda c: [w.cluster_assignment_counts[c]])
    def counts(self, s, q, n=None):
        g = s.st(q).this.cltrs
        return S.forall(lambda c: Imp(And(c >= 0, c < s.this.k), g.num_members_v[c] == (N(c) if n is None else self.cnt(s, c, n))), 1, pats=lambda c: [g.num_members_v[c]])
    def ensures(self, s):
        n = s.new.this
        yield from self.done(s, s._new, s.this.k)
        yield "counts are the sums over the workers", self.counts(s, s._new)
        yield "change counter", n.num_changed == self.chg0(s) + self.chg(s)
        for nm, f in wf(n.cltrs): yield nm, f
    def loop_inv(self, s, L):
        t = s.this; G = lambda q: s.st(q).this.cltrs
        yield "shape", lambda q: And(*[f for _, f in wf(G(q))])
        if L.writes("num_changed"):
            for nm, i in L.ints:
                yield "sums below " + nm, lambda q, i=i: S.forall(lambda c, j: Imp(And(c >= 0, c < t.k, j >= 0, j < t.ncol), G(q).means[self.at(s, c, j)] == self.agg(s, c, self.at(s, c, j), i(q))), 2, pats=lambda c, j: [G(q).means[self.at(s, c, j)]])
                yield "counts below " + nm, lambda q, i=i: self.counts(s, q, i(q))
                yield "changes below " + nm, lambda q, i=i: s.st(q).this.num_changed == self.chg0(s) + self.chg(s, i(q))
        else:
            for nm, i in L.ints:
                for k in range(len(list(self.done(s, L.entry, i(L.entry))))):
                    yield "done %d %s" % (k, nm), lambda q, i=i, k=k: list(self.done(s, q, i(q)))[k][1]
                yield "open from " + nm, lambda q, i=i: S.forall(lambda c, j: Imp(And(c >= i(q), c < t.k, j >= 0, j < t.ncol), G(q).means[self.at(s, c, j)] == A(c, j)), 2, pats=lambda c, j: [G(q).means[self.at(s, c, j)]])
                yield "counts while finishing " + nm, lambda q: self.counts(s, q)
                yield "not finished from " + nm, lambda q, i=i: S.forall(lambda c: Imp(And(c >= i(q), c < t.k), S.Not(G(q).complete_v[c])), 1, pats=lambda c: [G(q).complete_v[c]])
                for n2, x in L.ints:
                    if n2 != nm: yield "%s counts members below %s" % (n2, nm), lambda q, i=i, x=x: x(q) == S.Sum(i(q), lambda c: N(c), S.I)

M = z3.Function("ghost_drift", S.I, S.R)      # distance between the new and the previous centroid

class UpdatePruned(Update):
    """pruned variant: the running sums are restored first (unless this is the first pass) and the drift recorded"""
    qname = PC + "::update_clusters"; thisty = PC
    thread = "knor::prune::kmeans_task_thread"; cl = "knor::base::prune_clusters"
    def base(self, s, c, p):
        g = s.old.this.cltrs
        return S.ite(s[0], S.rlit(0), S.ite(And(g.complete_v[c], g.num_members_v[c] > 1), S.mul(g.means[p], S.toreal(g.num_members_v[c])), g.means[p]))
    def cbase(self, s, c): return S.ite(s[0], S.lit(0), s.old.this.cltrs.num_members_v[c])
    def chg0(self, s): return s.old.this.num_changed
    def requires(self, s):
        yield from Update.requires(self, s)
        g = s.this.cltrs
        yield "per-cluster values sized nclust", g.prev_dist_v.len == g.nclust
        yield "definition of the drift", S.forall(lambda c: Imp(And(c >= 0, c < s.this.k), M(c) == eucl(lambda j: self.fin(s, c, j), lambda j: g.means[self.at(s, c, j)], s.this.ncol)), 1, pats=lambda c: [M(c)])
    def modifies(self, s):
        g = s.this.cltrs
        return Update.modifies(self, s) + [g.prev_means, g.prev_dist_v]
    def done(self, s, q, n):
        yield from Update.done(self, s, q, n)
        g = s.st(q).this.cltrs
        yield "drift is the distance to the previous centroid", S.forall(lambda c: Imp(And(c >= 0, c < n), g.prev_dist_v[c] == M(c)), 1, pats=lambda c: [g.prev_dist_v[c]])
    def ensures(self, s):
        yield from Update.ensures(self, s)
        o, n = s.old.this.cltrs, s.new.this.cltrs
        yield "previous centroids kept", S.forall(lambda p: Imp(And(p >= 0, p < o.means.len), n.prev_means[p] == o.means[p]), 1, pats=lambda p: [n.prev_means[p]])
        yield "previous centroids sized", n.prev_means.len == o.means.len
    def loop_inv(self, s, L):
        o = s.old.this.cltrs; G = lambda q: s.st(q).this.cltrs
        yield "sizes", lambda q: And(G(q).prev_dist_v.len == o.prev_dist_v.len, G(q).prev_means.len == o.means.len)
        yield from Update.loop_inv(self, s, L)
CONTRACTS = [Update, UpdatePruned]
