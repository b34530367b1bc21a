"""K16: a k-means++ pass keeps every row's distance to its nearest seed."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from .k06 import wf
from .k04 import Ghost, KT, PT
D = Ghost("ghost_D16")

class KmSpp(Contract):
    qname = KT + "::kmspp_dist"; thisty = KT
    task = False
    def rows(self, s):
        """first row, number of rows and data of the pass"""
        t = s.this
        return (t.curr_task.start_rid, t.curr_task.nrow, t.curr_task.data) if self.task else (t.start_rid, t.nprocrows, t.local_data)
    def requires(self, s):
        t = s.this; g = t.g_clusters; st, N, data = self.rows(s)
        yield from (("global " + a, b) for a, b in wf(g))
        yield "same width", g.ncol == t.ncol
        yield "metric valid", valid_metric(t.dist_metric)
        yield "seed valid", And(t.meta.clust_idx >= 0, t.meta.clust_idx < g.nclust)
        yield "data", fits(data, S.mul(N, t.ncol))
        yield "assignments cover the rows", fits(t.cluster_assignments, S.norm(st + N))
        yield "distances cover the rows", fits(t.dist_v, S.norm(st + N))
        yield "row ids fit", S.norm(st + N) < 4294967296
        yield "definition of D", D.define(data, g.means, t.ncol, t.dist_metric)
    def modifies(self, s):
        t = s.this
        return [t.loc("cuml_dist"), t.cluster_assignments.region(), t.dist_v.region()]
    def ensures(self, s): yield from self.body(s, s._new, self.rows(s)[1], "all rows")
    def body(self, s, q, n, what):
        o, t = s.old.this, s.st(q).this; st = self.rows(s)[0]; c = o.meta.clust_idx
        g = lambda r: S.norm(st + r)
        inr = lambda r: And(r >= 0, r < n)
        yield "distances, " + what, S.forall(lambda r: Imp(inr(r), t.dist_v[g(r)] == S.ite(D(r, c) < o.dist_v[g(r)], D(r, c), o.dist_v[g(r)])), 1, pats=lambda r: [t.dist_v[g(r)]])
        yield "owners, " + what, S.forall(lambda r: Imp(inr(r), t.cluster_assignments[g(r)] == S.ite(D(r, c) < o.dist_v[g(r)], c, o.cluster_assignments[g(r)])), 1, pats=lambda r: [t.cluster_assignments[g(r)]])
        yield "other rows kept, " + what, S.forall(lambda p: Imp(Or(p < st, p >= g(n)), And(t.dist_v[p] == o.dist_v[p], t.cluster_assignments[p] == o.cluster_assignments[p])), 1, pats=lambda p: [t.dist_v[p], t.cluster_assignments[p]])
        yield "cumulative distance, " + what, t.cuml_dist == S.add(o.cuml_dist, S.Sum(n, lambda r: S.ite(D(r, c) < o.dist_v[g(r)], D(r, c), o.dist_v[g(r)]), S.R))
    def loop_inv(self, s, L):
        o = s.old.this; e = s.st(L.entry).this
        for nm, i in L.ints:
            for k, (what, _) in enumerate(self.body(s, L.entry, i(L.entry), nm)):
                yield "%s" % what, (lambda k, i: lambda q: list(self.body(s, q, i(q), ""))[k][1])(k, i)

class TaskSpp(KmSpp):
    qname = PT + "::kmspp_dist"; thisty = PT; task = True

class ThreadWake(Contract):
    """waking a worker for a seeding pass starts its cumulative distance at zero"""
    qname = "knor::thread::wake"; thisty = KT
    def modifies(self, s): return [s.this.loc("state"), s.this.loc("cuml_dist")]
    def ensures(self, s):
        o, n = s.old.this, s.new.this
        yield "state requested", n.state == s[0]
        yield "cumulative distance restarted for seeding only", n.cuml_dist == S.ite(s[0] == enum(s, "KMSPP_INIT"), S.rlit(0), o.cuml_dist)

class CumlSum(Contract):
    """the coordinator's total is the sum of the workers' cumulative distances"""
    qname = "knor::coordinator::reduction_on_cuml_sum"; thisty = "knor::kmeans_coordinator"
    def setup(self, ex): ex.dyn["this.threads[]*"] = KT
    def modifies(self, s): return []
    def ensures(self, s):
        t = s.this.threads
        yield "sum over the workers", s.ret == S.Sum(t.len, lambda i: t[i].cuml_dist, S.R)
    def loop_inv(self, s, L):
        t = s.this.threads
        yield from sums(L, [("workers' distances", lambda i: t[i].cuml_dist)])

class SetClustIdx(Contract):
    """every worker is told which seed to measure against"""
    qname = "knor::coordinator::set_thread_clust_idx"; thisty = "knor::kmeans_coordinator"
    def setup(self, ex): ex.dyn["this.threads[]*"] = KT
    def modifies(self, s): return [Loc("this.threads[]*.meta", (), "knor::metaunion")]
    def ensures(self, s):
        yield from self.body(s, s._new, s.this.threads.len)
    def body(self, s, q, n):
        t = s.st(q).this.threads
        yield "told", S.forall(lambda i: Imp(And(i >= 0, i < n), t[i].meta.clust_idx == s[0]), 1, pats=lambda i: [t[i].meta.clust_idx])
    def loop_inv(self, s, L):
        for nm, i in L.ints: yield "told below " + nm, lambda q, i=i: list(self.body(s, q, i(q)))[0][1]
CONTRACTS = [KmSpp, TaskSpp, ThreadWake, CumlSum, SetClustIdx]
