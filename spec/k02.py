"""K02: rows are partitioned exactly among the workers."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from . import k06
CO = "knor::coordinator"; KC = "knor::kmeans_coordinator"; TH = "knor::thread"; KT = "knor::kmeans_thread"

def q(t): return S.idiv(t.nrow, t.nthreads)
def start(t, i): return S.mul(i, q(t))
def size(t, i): return S.ite(i == t.nthreads - 1, S.norm(t.nrow - S.mul(t.nthreads - 1, q(t))), q(t))
def wf(t):
    yield "a row per worker", And(t.nthreads >= 1, t.nthreads <= t.nrow)
    yield "row ids fit", t.nrow < 4294967296

class RidLen(Contract):
    """worker i gets the rows from i*q on; the last one also gets what is left over"""
    qname = CO + "::get_rid_len_tup"; thisty = KC
    def requires(self, s):
        yield from wf(s.this)
        yield "worker exists", s[0] < s.this.nthreads
    def modifies(self, s): return []
    def ensures(self, s):
        t = s.this
        yield "first row", s.ret.first == start(t, s[0])
        yield "number of rows", s.ret.second == size(t, s[0])
        yield "at least one row", s.ret.second >= 1
        yield "the next worker starts where this one ends, the last one ends with the input", S.norm(s.ret.first + s.ret.second) == S.ite(s[0] == t.nthreads - 1, t.nrow, start(t, S.norm(s[0] + 1)))


def workers(t):
    """the state build_thread_state and set_thread_data_ptr leave behind"""
    yield "one worker per range", And(t.threads.len == t.nthreads, t.thd_max_row_idx.len == t.nthreads)
    yield "end of every range", S.forall(lambda i: Imp(And(i >= 0, i < t.nthreads), t.thd_max_row_idx[i] == S.norm(start(t, i) + size(t, i))), 1, pats=lambda i: [t.thd_max_row_idx[i]])
class GetThdData(Contract):
    qname = CO + "::get_thd_data"; thisty = KC
    def setup(self, ex): ex.dyn["this.threads[]*"] = KT
    def requires(self, s):
        t = s.this
        yield from wf(t); yield from workers(t)
        yield "row exists", s[0] < t.nrow
        yield "a worker's data holds its rows", S.forall(lambda i: Imp(And(i >= 0, i < t.nthreads, start(t, i) <= s[0], s[0] < S.norm(start(t, i) + size(t, i))),
            And(S.mul(s[0] - start(t, i), t.ncol) >= 0, fits(t.threads[i].local_data, S.norm(S.mul(s[0] - start(t, i), t.ncol) + t.ncol)))), 1, pats=lambda i: [t.threads[i].local_data.cap])
    def modifies(self, s): return []
    def result(self, s):
        t = s.this; w = S.fresh(S.I, "owner"); d = t.threads[w].local_data.ptr
        return Ptr("arr", d.path, d.idxs, S.norm(d.off + S.mul(s[0] - start(t, w), t.ncol)), d.ty)
    def ensures(self, s):
        t = s.this; p = s.ret.ptr
        if p.kind != "arr" or len(p.idxs) != 1:
            yield "points into a worker's data", z3.BoolVal(False); return
        w = p.idxs[0]; d = t.threads[w].local_data
        yield "points into a worker's data", z3.BoolVal(p.same_region(d.ptr))
        yield "the worker that owns the row", And(w >= 0, w < t.nthreads, start(t, w) <= s[0], s[0] < S.norm(start(t, w) + size(t, w)))
        yield "at that row", p.off == S.norm(d.off + S.mul(s[0] - start(t, w), t.ncol))
        yield "the whole row lies in the worker's data", fits(s.ret, t.ncol)

class SetLocalData(Contract):
    """a worker's data starts at its first row"""
    qname = TH + "::set_local_data_ptr"; thisty = KT
    def requires(self, s): yield "data covers the first row", And(S.norm(S.mul(s.this.start_rid, s.this.ncol)) < s[0].cap, s[0].off == 0)
    def modifies(self, s): return [s.this.loc("local_data")]
    def ensures(self, s):
        n = s.new.this.local_data
        yield "same data", z3.BoolVal(n.ptr.same_region(s[0].ptr))
        yield "offset", n.off == S.norm(s[0].off + S.ite(s[1], S.mul(s.this.start_rid, s.this.ncol), S.lit(0)))
class GlobalId(Contract):
    qname = TH + "::get_global_data_id"; thisty = KT
    def modifies(self, s): return []
    def ensures(self, s): yield "global row", s.ret == s.this.start_rid + s[0]

def built(s, t, n, task):
    yield "workers so far", And(t.threads.len == n, t.thd_max_row_idx.len == n)
    yield "end of every range", S.forall(lambda i: Imp(And(i >= 0, i < n), t.thd_max_row_idx[i] == S.norm(start(t, i) + size(t, i))), 1, pats=lambda i: [t.thd_max_row_idx[i]])
    yield "first row of every worker", S.forall(lambda i: Imp(And(i >= 0, i < n), t.threads[i].start_rid == start(t, i)), 1, pats=lambda i: [t.threads[i].start_rid])
    yield "width of every worker", S.forall(lambda i: Imp(And(i >= 0, i < n), t.threads[i].ncol == t.ncol), 1, pats=lambda i: [t.threads[i].ncol])
    if task:
        k = lambda i: t.threads[i].tasks
        yield "queue of every worker", S.forall(lambda i: Imp(And(i >= 0, i < n), And(k(i).start_rid == start(t, i), k(i).nrow == size(t, i), k(i).ncol == t.ncol)), 1, pats=lambda i: [k(i).nrow])
    else:
        yield "rows of every worker", S.forall(lambda i: Imp(And(i >= 0, i < n), t.threads[i].nprocrows == size(t, i)), 1, pats=lambda i: [t.threads[i].nprocrows])
    yield "bytes of every worker", S.forall(lambda i: Imp(And(i >= 0, i < n), t.threads[i].data_size == S.mul(S.lit(8), S.mul(size(t, i), t.ncol))), 1, pats=lambda i: [t.threads[i].data_size])
class Build(Contract):
    task = False; more = ()
    def setup(self, ex): ex.dyn["this.threads[]*"] = self.worker
    def requires(self, s):
        t = s.this
        yield from wf(t)
        yield "nodes", t.nnodes >= 1
        yield "no workers yet", And(t.threads.len == 0, t.thd_max_row_idx.len == 0)
        yield "assignments", t.cluster_assignments.len == t.nrow
        for m in self.more: yield m + " sized", getattr(t, m).len >= 1
    def modifies(self, s):
        t = s.this
        return [t.loc("threads"), t.loc("thd_max_row_idx"), Loc("this.threads[]*", (), self.worker)]
    def ensures(self, s): yield from built(s, s.new.this, s.this.nthreads, self.task)
    def loop_inv(self, s, L):
        for nm, i in L.ints:
            for k, (what, _) in enumerate(built(s, s.st(L.entry).this, i(L.entry), self.task)):
                yield "%s, %s" % (what, nm), (lambda k, i: lambda q: list(built(s, s.st(q).this, i(q), self.task))[k][1])(k, i)
class _Metric:
    """every worker measures with the dissimilarity the run was created with"""
    def ensures(self, s): yield from measured(s.new.this, s.this.nthreads)
    def loop_inv(self, s, L):
        yield from Build.loop_inv(self, s, L)
        for nm, i in L.ints: yield "dissimilarity, " + nm, lambda q, i=i: list(measured(s.st(q).this, i(q)))[0][1]
def measured(t, n):
    yield "dissimilarity of every worker", S.forall(lambda i: Imp(And(i >= 0, i < n), t.threads[i].dist_metric == t._dist_t), 1, pats=lambda i: [t.threads[i].dist_metric])
def metric_of(mod, name, coord, worker, **kw):
    return type("Metric" + name, (_Metric, Build), dict(__module__=mod, qname=coord + "::build_thread_state", thisty=coord, worker=worker, **kw))
def _build(name, coord, worker, **kw):
    return type("Build" + name, (Build,), dict(qname=coord + "::build_thread_state", thisty=coord, worker=worker, **kw))
BUILDS = [_build("Kmeans", KC, KT), _build("KmeansTask", "knor::prune::kmeans_task_coordinator", "knor::prune::kmeans_task_thread", task=True),
    _build("Hclust", "knor::hclust_coordinator", "knor::hclust", more=("part_id",)), _build("Xmeans", "knor::xmeans_coordinator", "knor::xmeans", more=("part_id",)),
    _build("Gmeans", "knor::gmeans_coordinator", "knor::gmeans", more=("part_id",)), _build("Fcm", "knor::fcm_coordinator", "knor::fcm"),
    _build("Medoid", "knor::medoid_coordinator", "knor::medoid"), _build("Skmeans", "knor::skmeans_coordinator", "knor::skmeans"),
    _build("Gmm", "knor::gmm_coordinator", "knor::gmm")]
CONTRACTS = [RidLen, GetThdData, SetLocalData, GlobalId] + BUILDS
