"""K03: the task queue hands out every row exactly once per pass."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from . import k06
TQ = "knor::task_queue"; PT = "knor::prune::kmeans_task_thread"; BT = "knor::prune::task_thread"

def handed(q): return S.ite(q._has_task, q.curr_rid, q.nrow)      # rows handed out since the last reset
def inv(q):
    yield "queue has rows", q.nrow >= 1
    yield "work is available only while rows are left", Imp(q._has_task, q.curr_rid < q.nrow)
    yield "row ids fit", q.start_rid + q.nrow < 4294967296
def same_ptr(p, q, off):
    """p points off elements beyond q"""
    if p.ptr.kind == "null" or not p.ptr.same_region(q.ptr): return z3.BoolVal(False)
    return p.off == S.norm(q.off + off)
def kept(o, n): return And(n.nrow == o.nrow, n.start_rid == o.start_rid, n.ncol == o.ncol)

class GetTask(Contract):
    qname = TQ + "::get_task"; thisty = TQ
    def requires(self, s):
        yield from inv(s.this)
        yield "work available", s.this._has_task
        yield "data", fits(s.this.data, S.mul(s.this.nrow, s.this.ncol))
    def modifies(self, s): return [s.this.loc("curr_rid"), s.this.loc("_has_task")]
    def ensures(self, s):
        o, n, r = s.old.this, s.new.this, s.ret
        yield "block is not empty", r.nrow >= 1
        yield "block starts at the next row", r.start_rid == o.start_rid + handed(o)
        yield "block points at that row's data", same_ptr(r.data, o.data, S.mul(handed(o), o.ncol))
        yield "block ends where the next one starts", handed(n) == handed(o) + r.nrow
        yield "work is available exactly until the last row", n._has_task == (handed(n) < n.nrow)
        yield from inv(n)
class Reset(Contract):
    qname = TQ + "::reset"; thisty = TQ
    def requires(self, s): yield "queue has rows", s.this.nrow >= 1
    def modifies(self, s): return [s.this.loc("curr_rid"), s.this.loc("_has_task")]
    def ensures(self, s):
        n = s.new.this
        yield "nothing handed out", handed(n) == 0
        yield "work available", n._has_task
class HasTask(Contract):
    qname = TQ + "::has_task"; thisty = TQ
    def requires(self, s): yield from inv(s.this)
    def modifies(self, s): return []
    def ensures(self, s):
        yield "rows left", s.ret == (handed(s.this) < s.this.nrow)
class NextRid(Contract):
    qname = TQ + "::get_nxt_rid"; thisty = TQ
    def requires(self, s):
        yield from inv(s.this)
        yield "work available", s.this._has_task
    def modifies(self, s): return []
    def ensures(self, s): yield "next row", s.ret == s.this.start_rid + handed(s.this)
class Ctor(Contract):
    qname = TQ + "::task_queue"; thisty = TQ; nparams = 4
    def requires(self, s):
        yield "queue has rows", s[2] >= 1
        yield "row ids fit", s[1] + s[2] < 4294967296
    def modifies(self, s): return [s.this._loc]
    def ensures(self, s):
        n = s.new.this
        yield "rows", And(n.start_rid == s[1], n.nrow == s[2], n.ncol == s[3])
        yield "nothing handed out", And(handed(n) == 0, n._has_task)
        yield "data", same_ptr(n.data, s[0], S.lit(0))
        yield from inv(n)
class GlobalId(Contract):
    """row i of a task is row start+i of the input"""
    qname = BT + "::get_global_data_id"; thisty = PT
    def requires(self, s): yield "row id fits", s[0] + s.this.curr_task.start_rid < 4294967296
    def modifies(self, s): return []
    def ensures(self, s): yield "global row", s.ret == s.this.curr_task.start_rid + s[0]

def current(s, o, n, first):
    """the worker holds the block that starts at row `first` of its queue"""
    q = n.tasks; c = n.curr_task
    yield "block is not empty", c.nrow >= 1
    yield "block starts at the next row", c.start_rid == q.start_rid + first
    yield "block points at that row's data", same_ptr(c.data, o.tasks.data, S.mul(first, q.ncol))
    yield "block ends where the next one starts", handed(q) == S.norm(first + c.nrow)

class TaskWake(Contract):
    """waking a worker for a pass restarts its queue and gives it the first block"""
    qname = PT + "::wake"; thisty = PT
    def setup(self, ex): ex.dyn["this.local_clusters*"] = k06.CL
    def requires(self, s):
        t = s.this
        yield from inv(t.tasks)
        yield "data", fits(t.tasks.data, S.mul(t.tasks.nrow, t.tasks.ncol))
        yield from (("local " + a, b) for a, b in k06.wf(t.local_clusters))
    def pass_(self, s): return Or(*[s[0] == enum(s, e) for e in ("EM", "KMSPP_INIT", "MB_EM")])
    def modifies(self, s):
        t = s.this; l = t.local_clusters
        return [t.loc("state"), t.loc("curr_task"), t.loc("cuml_dist"), t.meta.loc(), t.tasks.loc("curr_rid"), t.tasks.loc("_has_task"), l.means, l.num_members_v, l.complete_v]
    def ensures(self, s):
        o, n = s.old.this, s.new.this; p = self.pass_(s)
        yield "state requested", n.state == s[0]
        for nm, f in current(s, o, n, S.lit(0)): yield nm, Imp(p, f)
        yield "change count restarted", n.meta.num_changed == S.ite(Or(s[0] == enum(s, "EM"), s[0] == enum(s, "MB_EM")), S.lit(0), o.meta.num_changed)
        yield "cumulative distance restarted", n.cuml_dist == S.ite(s[0] == enum(s, "KMSPP_INIT"), S.rlit(0), o.cuml_dist)
        yield "member counts cleared", S.forall(lambda c: Imp(And(p, c >= 0, c < o.local_clusters.nclust), n.local_clusters.num_members_v[c] == 0), 1, pats=lambda c: [n.local_clusters.num_members_v[c]])
        yield "member sums cleared", S.forall(lambda c: Imp(And(p, c >= 0, c < o.local_clusters.means.len), n.local_clusters.means[c] == 0), 1, pats=lambda c: [n.local_clusters.means[c]])
        yield from inv(n.tasks)

class RequestTask(Contract):
    """a worker that asks for more gets the next block, or goes to sleep when there is none"""
    qname = BT + "::request_task"; thisty = PT
    def requires(self, s):
        t = s.this
        yield from inv(t.tasks)
        yield "data", fits(t.tasks.data, S.mul(t.tasks.nrow, t.tasks.ncol))
        yield "counter", fits(t.parent_pending_threads, S.lit(1))
        yield "a worker is pending", t.parent_pending_threads[0] >= 1
    def modifies(self, s):
        t = s.this
        return [t.loc("state"), t.loc("curr_task"), t.tasks.loc("curr_rid"), t.tasks.loc("_has_task"), t.parent_pending_threads.region()]
    def ensures(self, s):
        o, n = s.old.this, s.new.this; more = handed(o.tasks) < o.tasks.nrow
        for nm, f in current(s, o, n, handed(o.tasks)): yield nm, Imp(more, f)
        yield "state kept while there is work", Imp(more, And(n.state == o.state, n.parent_pending_threads[0] == o.parent_pending_threads[0]))
        yield "reports done otherwise", Imp(Not(more), And(n.state == enum(s, "WAIT"), n.parent_pending_threads[0] == o.parent_pending_threads[0] - 1))
CONTRACTS = [GetTask, Reset, HasTask, NextRid, Ctor, GlobalId, TaskWake, RequestTask]
