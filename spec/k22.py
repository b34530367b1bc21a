"""K22: what one process contributes to a distributed iteration: the sums over its own workers, nothing else."""
import z3
from kv import sym as S
from kv.verify import Contract
from .lib import *
from .k06 import wf
from .k07 import Update, UpdatePruned, A, N
DRIVER = "dist"
DC = "knor::dist::dist_coordinator"; DT = "knor::prune::dist_task_coordinator"

class Aggregate(Update):
    """the accumulators hold the sums over this process's workers, not yet divided"""
    qname = DC + "::pp_aggregate"; thisty = DC
    def requires(self, s):
        for nm, f in Update.requires(self, s):
            if nm not in ("definition of the means", "every row is a member of one cluster"): yield nm, f
    def modifies(self, s):
        g = s.this.cltrs
        return [g.means, g.num_members_v, g.complete_v, s.this.loc("num_changed")]
    def ensures(self, s):
        t, n = s.this, s.new.this; g = n.cltrs
        yield "sums over the workers", S.forall(lambda c, j: Imp(And(c >= 0, c < t.k, j >= 0, j < t.ncol), g.means[self.at(s, c, j)] == A(c, j)), 2, pats=lambda c, j: [g.means[self.at(s, c, j)]])
        yield "counts are the sums over the workers", self.counts(s, s._new)
        yield "change counter", n.num_changed == self.chg(s)
        yield "sums are not means yet", S.forall(lambda c: Imp(And(c >= 0, c < t.k), Not(g.complete_v[c])), 1, pats=lambda c: [g.complete_v[c]])
        for nm, f in wf(g): yield nm, f
    def loop_inv(self, s, L):
        yield from Update.loop_inv(self, s, L)
        t = s.this; G = lambda q: s.st(q).this.cltrs
        yield "not finished", lambda q: S.forall(lambda c: Imp(And(c >= 0, c < t.k), Not(G(q).complete_v[c])), 1, pats=lambda c: [G(q).complete_v[c]])

class AggregatePruned(Aggregate):
    """… and the centroids and counts all processes agreed on before are kept aside"""
    qname = DT + "::pp_aggregate"; thisty = DT
    thread = "knor::prune::kmeans_task_thread"; cl = "knor::base::prune_clusters"
    def requires(self, s):
        yield from Aggregate.requires(self, s)
        yield "kept counts sized", s.this.prev_num_members.len == s.this.k
    def modifies(self, s): return Aggregate.modifies(self, s) + [s.this.cltrs.prev_means, s.this.prev_num_members]
    def ensures(self, s):
        yield from Aggregate.ensures(self, s)
        o, n = s.old.this, s.new.this
        yield "previous centroids kept", S.forall(lambda p: Imp(And(p >= 0, p < o.cltrs.means.len), n.cltrs.prev_means[p] == o.cltrs.means[p]), 1, pats=lambda p: [n.cltrs.prev_means[p]])
        yield "previous centroids sized", n.cltrs.prev_means.len == o.cltrs.means.len
        yield "previous counts kept", S.forall(lambda c: Imp(And(c >= 0, c < o.k), n.prev_num_members[c] == o.cltrs.num_members_v[c]), 1, pats=lambda c: [n.prev_num_members[c]])
    def loop_inv(self, s, L):
        o = s.old.this.cltrs; G = lambda q: s.st(q).this.cltrs
        yield "sizes", lambda q: G(q).prev_means.len == o.means.len
        yield from Aggregate.loop_inv(self, s, L)

CONTRACTS = [Aggregate, AggregatePruned]
