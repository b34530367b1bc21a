"""K20: k-medoids: assignment, medoid proposals, choice of the medoids."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc, NULL
from .lib import *
from .k06 import wf
from .k04 import D, members, moved, best_inv
from . import k02
MD = "knor::medoid"; MC = "knor::medoid_coordinator"
NONE = S.lit(4294967295)

class MedoidEM(Contract):
    """every row goes to a nearest medoid; member counts and the energy of every cluster are totals over the rows"""
    qname = MD + "::EM_step"; thisty = MD
    def requires(self, s):
        t = s.this; g = t.g_clusters; l = t.local_clusters
        yield from (("global " + a, b) for a, b in wf(g))
        yield from (("local " + a, b) for a, b in wf(l))
        yield "same shape", And(l.nclust == g.nclust, l.ncol == g.ncol, g.ncol == t.ncol, g.nclust >= 1)
        yield "metric valid", valid_metric(t.dist_metric)
        yield "local data", fits(t.local_data, S.mul(t.nprocrows, t.ncol))
        yield "assignments cover the rows", fits(t.cluster_assignments, S.norm(t.start_rid + t.nprocrows))
        yield "definition of D", D.define(t.local_data, g.means, t.ncol, t.dist_metric)
        yield "distances below DBL_MAX", S.forall(lambda r, c: Imp(And(r >= 0, r < t.nprocrows, c >= 0, c < g.nclust), D(r, c) < S.DBL_MAX), 2, pats=lambda r, c: [D(r, c)])
        yield "cluster ids fit", g.nclust < 4294967295
    def modifies(self, s):
        t = s.this; l = t.local_clusters
        return [t.meta.loc(), l.means, l.num_members_v, l.complete_v, t.cluster_assignments.region(), t.local_medoid_energy]
    def energy(self, ca, lo, n, c): return S.Sum(n, lambda r: S.ite(ca[S.norm(lo + r)] == c, D(r, ca[S.norm(lo + r)]), S.rlit(0)), S.R)
    def state(self, s, q, n):
        o, t = s.old.this, s.st(q).this; st = o.start_rid; ca = t.cluster_assignments; K = o.g_clusters.nclust
        inr = lambda r: And(r >= 0, r < n)
        yield "assignment valid", S.forall(lambda r: Imp(inr(r), And(ca[S.norm(st + r)] >= 0, ca[S.norm(st + r)] < K)), 1, pats=lambda r: [ca[S.norm(st + r)]])
        yield "assigned to a nearest medoid", S.forall(lambda r, c: Imp(And(inr(r), c >= 0, c < K), D(r, ca[S.norm(st + r)]) <= D(r, c)), 2, pats=lambda r, c: [D(r, c)])
        yield "other rows untouched", S.forall(lambda p: Imp(Or(p < st, p >= S.norm(st + n)), ca[p] == o.cluster_assignments[p]), 1, pats=lambda p: [ca[p]])
        yield "change count", t.meta.num_changed == moved(ca, o.cluster_assignments, st, n)
        yield "member counts", S.forall(lambda c: Imp(And(c >= 0, c < K), t.local_clusters.num_members_v[c] == members(ca, st, n, c)), 1, pats=lambda c: [t.local_clusters.num_members_v[c]])
        yield "energies", S.forall(lambda c: Imp(And(c >= 0, c < K), t.local_medoid_energy[c] == self.energy(ca, st, n, c)), 1, pats=lambda c: [t.local_medoid_energy[c]])
        yield "one energy per cluster", t.local_medoid_energy.len == K
        yield "local shape", And(*[f for _, f in wf(t.local_clusters)])
    def ensures(self, s): yield from self.state(s, s._new, s.old.this.nprocrows)
    def loop_inv(self, s, L):
        K = s.old.this.g_clusters.nclust
        ints = [(nm, i) for nm, i in L.ints if not nm.startswith("this")]
        if L.writes("local_clusters") or L.writes("local_medoid_energy"):
            for nm, i in ints:
                for j, (what, _) in enumerate(self.state(s, L.entry, S.lit(0))):
                    yield "%s (%s)" % (what, nm), lambda q, i=i, j=j: list(self.state(s, q, i(q)))[j][1]
        else:
            outer = [(nm, i) for nm, i in L.int_locals() if nm not in [x for x, _ in L.ints]]
            for rn, r in L.reals:
                for an, a in ints:
                    for cn, c in ints:
                        if an == cn: continue
                        for on, ro in outer: yield from best_inv(rn, r, an, a, cn, c, on, ro)

DM = z3.Function("ghost_rowdist", S.I, S.I, S.R)      # DM(r,m): distance of local row r from row m of the data set
COST = z3.Function("ghost_cost", S.I, S.R)            # COST(r): total distance of local row r from the members of its cluster
class MedoidStep(Contract):
    """the proposal for a cluster is one of its rows, with its total distance to the members, the least of those examined"""
    qname = MD + "::medoid_step"; thisty = MD
    def setup(self, ex):
        ex.dyn["this.coord*"] = MC; ex.dyn["this.coord*.threads[]*"] = MD; ex.unit_draws = True
    def requires(self, s):
        t = s.this; g = t.g_clusters; co = t.coord; st = t.start_rid; ca = t.cluster_assignments; mb = co.membership
        yield from (("coordinator: " + a, b) for a, b in k02.wf(co)); yield from (("coordinator: " + a, b) for a, b in k02.workers(co))
        yield "rows of this worker", And(st + t.nprocrows <= co.nrow, t.ncol == co.ncol)
        yield "metric valid", valid_metric(t.dist_metric)
        yield "local data", fits(t.local_data, S.mul(t.nprocrows, t.ncol)); yield "assignments cover the rows", fits(ca, S.norm(st + t.nprocrows))
        yield "row products fit", S.mul(t.nprocrows, t.ncol) < 4294967296
        yield "rows are assigned", S.forall(lambda r: Imp(And(r >= 0, r < t.nprocrows), And(ca[S.norm(st + r)] >= 0, ca[S.norm(st + r)] < g.nclust)), 1, pats=lambda r: [ca[S.norm(st + r)]])
        yield "one member list per cluster", And(mb.len == g.nclust, g.nclust < 4294967295)
        yield "members are rows", S.forall(lambda c, i: Imp(And(c >= 0, c < g.nclust, i >= 0, i < mb[c].len), And(mb[c][i] >= 0, mb[c][i] < co.nrow)), 2, pats=lambda c, i: [mb[c][i]])
        w = lambda i: co.threads[i]
        own = lambda i, m: And(i >= 0, i < co.nthreads, k02.start(co, i) <= m, m < S.norm(k02.start(co, i) + k02.size(co, i)))
        at = lambda i, m: S.mul(m - k02.start(co, i), co.ncol)
        yield "a worker's data holds its members", S.forall(lambda i, c, x: Imp(And(c >= 0, c < g.nclust, x >= 0, x < mb[c].len, own(i, mb[c][x])), And(at(i, mb[c][x]) >= 0, fits(w(i).local_data, S.norm(at(i, mb[c][x]) + t.ncol)))), 3, pats=lambda i, c, x: [(w(i).local_data.cap, mb[c][x])])
        if s.root:
            yield "definition of DM", S.forall(lambda r, i, m: Imp(own(i, m), DM(r, m) == dist(lambda j: t.local_data[S.norm(S.mul(r, t.ncol) + j)], lambda j: w(i).local_data[S.norm(at(i, m) + j)], t.ncol, t.dist_metric)), 3, pats=lambda r, i, m: [(DM(r, m), w(i).local_data.cap)])
            yield "definition of the costs", S.forall(lambda r: COST(r) == self.cost(s, r), 1, pats=lambda r: [COST(r)])
            yield "costs below DBL_MAX", S.forall(lambda r: COST(r) < S.DBL_MAX, 1, pats=lambda r: [COST(r)])
    def cost(self, s, r, n=None):
        t = s.this; m = t.coord.membership[t.cluster_assignments[S.norm(t.start_rid + r)]]
        return S.Sum(m.len if n is None else n, lambda j: S.ite(m[j] != S.norm(t.start_rid + r), DM(r, m[j]), S.rlit(0)), S.R)
    def modifies(self, s): return [s.this.candidate_medoids, s.this.candidate_medoid_energy]
    def state(self, s, q, n):
        o, t = s.old.this, s.st(q).this; K = o.g_clusters.nclust; ca = o.cluster_assignments; cm, ce = t.candidate_medoids, t.candidate_medoid_energy
        r = lambda c: S.norm(cm[c] - o.start_rid)
        yield "sizes", And(cm.len == K, ce.len == K)
        yield "a proposal is a row of the cluster with its total distance", S.forall(lambda c: Imp(And(c >= 0, c < K), Or(And(ce[c] == S.DBL_MAX, cm[c] == NONE),
            And(r(c) >= 0, r(c) < n, ca[cm[c]] == c, ce[c] == COST(r(c))))), 1, pats=lambda c: [cm[c], ce[c]])
        yield "no examined row does better", S.forall(lambda x: Imp(And(x >= 0, x < n, o.sample_rate >= 1), ce[ca[S.norm(o.start_rid + x)]] <= COST(x)), 1, pats=lambda x: [COST(x), ca[S.norm(o.start_rid + x)]])
    def ensures(self, s): yield from self.state(s, s._new, s.old.this.nprocrows)
    def loop_inv(self, s, L):
        o = s.old.this
        if L.writes("candidate_medoids") or L.writes("candidate_medoid_energy"):
            for nm, i in L.ints:
                if nm.startswith("this"): continue
                for j, (what, _) in enumerate(self.state(s, L.entry, S.lit(0))):
                    yield "%s (%s)" % (what, nm), lambda q, i=i, j=j: list(self.state(s, q, i(q)))[j][1]
        else:
            for rn, r in L.reals:
                for inm, i in L.ints:
                    for on, x in L.int_locals():
                        if on in [y for y, _ in L.ints]: continue
                        yield "%s: cost of row %s below %s" % (rn, on, inm), lambda q, r=r, i=i, x=x: r(q) == self.cost(s, x(q), i(q))

class ClearMembership(Contract):
    qname = MC + "::clear_membership"; thisty = MC
    def modifies(self, s): return [s.this.membership]
    def state(self, s, q, n):
        m = s.st(q).this.membership
        yield "emptied", S.forall(lambda c: Imp(And(c >= 0, c < n), m[c].len == 0), 1, pats=lambda c: [m[c].len])
        yield "same number of lists", m.len == s.old.this.membership.len
    def ensures(self, s): yield from self.state(s, s._new, s.old.this.membership.len)
    def loop_inv(self, s, L):
        for nm, i in L.ints:
            for j in range(2): yield "%d (%s)" % (j, nm), lambda q, i=i, j=j: list(self.state(s, q, i(q)))[j][1]

class Populate(Contract):
    """the list of a cluster holds exactly its rows, in order"""
    qname = MC + "::populate_membership"; thisty = MC
    def requires(self, s):
        t = s.this
        yield "sizes", And(t.membership.len == t.k, t.cluster_assignments.len == t.nrow, t.nrow < 4294967296)
        yield "lists are empty", S.forall(lambda c: Imp(And(c >= 0, c < t.k), t.membership[c].len == 0), 1, pats=lambda c: [t.membership[c].len])
    def modifies(self, s): return [s.this.membership]
    def of(self, s, q, c, n):
        m = s.st(q).this.membership; ca = s.this.cluster_assignments
        yield "entries are rows of the cluster", S.forall(lambda i: Imp(And(i >= 0, i < m[c].len), And(m[c][i] >= 0, m[c][i] < n, ca[m[c][i]] == c)), 1, pats=lambda i: [m[c][i]])
        yield "in order", S.forall(lambda i: Imp(And(i > 0, i < m[c].len), m[c][S.norm(i - 1)] < m[c][i]), 1, pats=lambda i: [m[c][i]])
        yield "all of them", m[c].len == members(ca, S.lit(0), n, c)
    def all(self, s, q, lo, hi):
        m = s.st(q).this.membership; ca = s.this.cluster_assignments; n = s.this.nrow
        inr = lambda c: And(c >= lo, c < hi)
        yield "entries are rows of the cluster", S.forall(lambda c, i: Imp(And(inr(c), i >= 0, i < m[c].len), And(m[c][i] >= 0, m[c][i] < n, ca[m[c][i]] == c)), 2, pats=lambda c, i: [m[c][i]])
        yield "in order", S.forall(lambda c, i: Imp(And(inr(c), i > 0, i < m[c].len), m[c][S.norm(i - 1)] < m[c][i]), 2, pats=lambda c, i: [m[c][i]])
        yield "all of them", S.forall(lambda c: Imp(inr(c), m[c].len == members(ca, S.lit(0), n, c)), 1, pats=lambda c: [m[c].len])
    def ensures(self, s):
        yield from self.all(s, s._new, S.lit(0), s.this.k)
        yield "same number of lists", s.new.this.membership.len == s.this.k
    def loop_inv(self, s, L):
        k = s.this.k; mm = lambda q: s.st(q).this.membership
        yield "same number of lists", lambda q: mm(q).len == k
        for nm, i in L.ints:
            if nm.startswith("this"): continue
            for j in range(3): yield "done below %s: %d" % (nm, j), lambda q, i=i, j=j: list(self.all(s, q, S.lit(0), i(q)))[j][1]
            yield "empty from " + nm, lambda q, i=i: S.forall(lambda c: Imp(And(c >= i(q), c < k), mm(q)[c].len == 0), 1, pats=lambda c: [mm(q)[c].len])
        e = mm(L.entry)
        for on, c in L.outer():
            if on.startswith("this"): continue
            yield "other lists kept (%s)" % on, lambda q, c=c: S.forall(lambda x: Imp(x != c(q), mm(q)[x].len == e[x].len), 1, pats=lambda x: [mm(q)[x].len])
            yield "other entries kept (%s)" % on, lambda q, c=c: S.forall(lambda x, i: Imp(x != c(q), mm(q)[x][i] == e[x][i]), 2, pats=lambda x, i: [mm(q)[x][i]])
            for nm, i in L.ints:
                if nm.startswith("this"): continue
                for j in range(3): yield "cluster %s below %s: %d" % (on, nm, j), lambda q, i=i, c=c, j=j: list(self.of(s, q, c(q), i(q)))[j][1]

class ComputeGlobals(Contract):
    """counts, energies and the change counter are the totals over the workers"""
    qname = MC + "::compute_globals"; thisty = MC
    def setup(self, ex): ex.dyn["this.threads[]*"] = MD; ex.dyn["this.threads[]*.local_clusters*"] = "knor::base::clusters"
    def w(self, s, i): return s.old.this.threads[i]
    def requires(self, s):
        t = s.this
        yield from Populate.requires(self, s)
        yield "a count and an energy per cluster", And(t.cluster_assignment_counts.len == t.k, t.medoid_energy.len == t.k)
        l = lambda i: t.threads[i].local_clusters
        yield "workers' shapes", S.forall(lambda i: Imp(And(i >= 0, i < t.threads.len), And(l(i).nclust == t.k, t.threads[i].local_medoid_energy.len == t.k, *[f for _, f in wf(l(i))])), 1, pats=lambda i: [l(i).num_members_v.len, t.threads[i].local_medoid_energy.len])
        yield "at most every row changed", S.Sum(t.threads.len, lambda i: t.threads[i].meta.num_changed, S.I) <= t.nrow
    def modifies(self, s): t = s.this; return [t.membership, t.cluster_assignment_counts, t.medoid_energy, t.loc("num_changed")]
    def tot(self, s, q, n, k):
        t = s.st(q).this; w = lambda i: self.w(s, i)
        yield "counts", S.forall(lambda c: Imp(And(c >= 0, c < k), t.cluster_assignment_counts[c] == S.Sum(n, lambda i: w(i).local_clusters.num_members_v[c], S.I)), 1, pats=lambda c: [t.cluster_assignment_counts[c]])
        yield "energies", S.forall(lambda c: Imp(And(c >= 0, c < k), t.medoid_energy[c] == S.Sum(n, lambda i: w(i).local_medoid_energy[c], S.R)), 1, pats=lambda c: [t.medoid_energy[c]])
        yield "changes", t.num_changed == S.Sum(n, lambda i: w(i).meta.num_changed, S.I)
        yield "sizes", And(t.cluster_assignment_counts.len == s.this.k, t.medoid_energy.len == s.this.k)
    def ensures(self, s):
        yield from self.tot(s, s._new, s.this.threads.len, s.this.k)
        yield from Populate.all(self, s, s._new, S.lit(0), s.this.k)
    def loop_inv(self, s, L):
        t = s.this
        if L.writes("num_changed"):
            for nm, i in L.ints:
                for j in range(4): yield "%d below %s" % (j, nm), lambda q, i=i, j=j: list(self.tot(s, q, i(q), t.k))[j][1]
        else:
            e = s.st(L.entry).this
            yield "sizes", lambda q: And(s.st(q).this.cluster_assignment_counts.len == t.k, s.st(q).this.medoid_energy.len == t.k)
            for nm, i in L.ints:
                for on, w in L.outer() + L.iters():
                    if on.startswith("this"): continue
                    W = lambda q, w=w: self.w(s, w(q))
                    yield "counts of worker %s added below %s" % (on, nm), lambda q, i=i, W=W: S.forall(lambda c: s.st(q).this.cluster_assignment_counts[c] == S.norm(e.cluster_assignment_counts[c] + S.ite(And(c >= 0, c < i(q)), W(q).local_clusters.num_members_v[c], S.lit(0))), 1, pats=lambda c: [s.st(q).this.cluster_assignment_counts[c]])
                    yield "energies of worker %s added below %s" % (on, nm), lambda q, i=i, W=W: S.forall(lambda c: s.st(q).this.medoid_energy[c] == S.add(e.medoid_energy[c], S.ite(And(c >= 0, c < i(q)), W(q).local_medoid_energy[c], S.rlit(0))), 1, pats=lambda c: [s.st(q).this.medoid_energy[c]])

PROP = z3.Function("ghost_proposed", S.I, S.I, S.R, S.B)     # PROP(c,m,e): some worker proposes row m for cluster c at cost e (least such relation)
X = z3.Function("ghost_row", S.I, S.I, S.R)                  # X(m,j): coordinate j of row m
class Choose(Contract):
    """a cluster takes the cheapest proposal when it is cheaper than its medoid, and keeps its medoid otherwise"""
    qname = MC + "::choose_global_medoids"; thisty = MC
    local = False       # rows are looked up through the workers
    def setup(self, ex): ex.dyn["this.threads[]*"] = MD
    def requires(self, s):
        t = s.this; g = t.cltrs; w = lambda i: t.threads[i]; inw = lambda i: And(i >= 0, i < t.threads.len)
        yield from wf(g)
        yield "shape", And(g.nclust == t.k, g.ncol == t.ncol, t.medoid_energy.len == t.k, t.nrow < 4294967295, S.mul(t.nrow, t.ncol) < 4294967296)
        yield "proposals sized", S.forall(lambda i: Imp(inw(i), And(w(i).candidate_medoids.len == t.k, w(i).candidate_medoid_energy.len == t.k)), 1, pats=lambda i: [w(i).candidate_medoids.len, w(i).candidate_medoid_energy.len])
        yield "proposals are rows", S.forall(lambda i, c: Imp(And(inw(i), c >= 0, c < t.k, w(i).candidate_medoid_energy[c] < S.DBL_MAX), And(w(i).candidate_medoids[c] >= 0, w(i).candidate_medoids[c] < t.nrow)), 2, pats=lambda i, c: [w(i).candidate_medoids[c], w(i).candidate_medoid_energy[c]])
        yield "energies are finite", S.forall(lambda c: Imp(And(c >= 0, c < t.k), t.medoid_energy[c] <= S.DBL_MAX), 1, pats=lambda c: [t.medoid_energy[c]])
        yield "definition of the proposals", S.forall(lambda i, c: Imp(And(inw(i), c >= 0, c < t.k), PROP(c, w(i).candidate_medoids[c], w(i).candidate_medoid_energy[c])), 2, pats=lambda i, c: [w(i).candidate_medoids[c], w(i).candidate_medoid_energy[c]])
        if self.local:
            yield from (("rows: " + a, b) for a, b in k02.wf(t)); yield from (("rows: " + a, b) for a, b in k02.workers(t))
            own = lambda i, m: And(i >= 0, i < t.nthreads, k02.start(t, i) <= m, m < S.norm(k02.start(t, i) + k02.size(t, i)))
            at = lambda i, m: S.mul(m - k02.start(t, i), t.ncol)
            yield "a worker's data holds the proposed rows", S.forall(lambda i, c, m, e: Imp(And(own(i, m), m < t.nrow, PROP(c, m, e)), And(at(i, m) >= 0, fits(w(i).local_data, S.norm(at(i, m) + t.ncol)))), 4, pats=lambda i, c, m, e: [(w(i).local_data.cap, PROP(c, m, e))], sorts=[S.I, S.I, S.I, S.R])
            yield "definition of X", S.forall(lambda i, m, j: Imp(own(i, m), X(m, j) == w(i).local_data[S.norm(at(i, m) + j)]), 3, pats=lambda i, m, j: [(w(i).local_data.cap, X(m, j))])
        else:
            yield "data", fits(s[0], S.mul(t.nrow, t.ncol))
            yield "definition of X", S.forall(lambda m, j: X(m, j) == s[0][S.norm(S.mul(m, t.ncol) + j)], 2, pats=lambda m, j: [X(m, j)])
    def modifies(self, s): t = s.this; g = t.cltrs; return [g.means, g.num_members_v, t.medoid_energy, t.loc("medoids_changed")]
    def at(self, s, c, j): return S.norm(S.mul(c, s.this.ncol) + j)
    def state(self, s, q, n):
        o, t = s.old.this, s.st(q).this; g = t.cltrs; inc = lambda c: And(c >= 0, c < n); K = o.k
        e, oe, m, om = t.medoid_energy, o.medoid_energy, g.num_members_v, o.cltrs.num_members_v
        yield "no proposal is cheaper", S.forall(lambda i, c: Imp(And(i >= 0, i < o.threads.len, inc(c)), e[c] <= o.threads[i].candidate_medoid_energy[c]), 2, pats=lambda i, c: [o.threads[i].candidate_medoid_energy[c], (e[c], o.threads[i].candidate_medoids.len)])
        yield "kept, or the proposal of a worker", S.forall(lambda c: Imp(inc(c), Or(And(e[c] == oe[c], m[c] == om[c]), And(e[c] < oe[c], m[c] >= 0, m[c] < o.nrow, PROP(c, m[c], e[c])))), 1, pats=lambda c: [e[c], m[c]])
        yield "centroid kept, or the proposed row", S.forall(lambda c, j: Imp(And(inc(c), j >= 0, j < o.ncol), g.means[self.at(s, c, j)] == S.ite(e[c] < oe[c], X(m[c], j), o.cltrs.means[self.at(s, c, j)])), 2, pats=lambda c, j: [g.means[self.at(s, c, j)]])
        yield "others kept", S.forall(lambda c: Imp(And(c >= n, c < K), And(e[c] == oe[c], m[c] == om[c])), 1, pats=lambda c: [e[c], m[c]])
        yield "other centroids kept", S.forall(lambda c, j: Imp(And(c >= n, c < K, j >= 0, j < o.ncol), g.means[self.at(s, c, j)] == o.cltrs.means[self.at(s, c, j)]), 2, pats=lambda c, j: [g.means[self.at(s, c, j)]])
        yield "sizes", And(e.len == K, *[f for _, f in wf(g)])
        yield "change noticed", S.forall(lambda c: Imp(And(inc(c), e[c] != oe[c]), t.medoids_changed), 1, pats=lambda c: [e[c]])
    def ensures(self, s): yield from self.state(s, s._new, s.this.k)
    def loop_inv(self, s, L):
        t = s.this; o = s.old.this; K = o.k; w = lambda i: o.threads[i]
        if L.writes("this.medoid_energy"):
            for nm, i in L.ints:
                if nm.startswith("this"): continue
                for j, (what, _) in enumerate(self.state(s, L.entry, S.lit(0))): yield "%s (%s)" % (what, nm), lambda q, i=i, j=j: list(self.state(s, q, i(q)))[j][1]
            return
        for en, e in L.vectors(S.R):
            yield "one per cluster " + en, lambda q, e=e: e(q).len == K
            for mn, m in L.vectors(S.I):
                yield "one per cluster %s %s" % (en, mn), lambda q, e=e, m=m: And(e(q).len == K, m(q).len == K)
                yield "%s of %s proposed" % (mn, en), lambda q, e=e, m=m: S.forall(lambda c: Imp(And(c >= 0, c < K), Or(e(q)[c] == S.DBL_MAX, And(m(q)[c] >= 0, m(q)[c] < o.nrow, PROP(c, m(q)[c], e(q)[c])))), 1, pats=lambda c: [e(q)[c], m(q)[c]])
            yield "%s finite" % en, lambda q, e=e: S.forall(lambda c: Imp(And(c >= 0, c < K), e(q)[c] <= S.DBL_MAX), 1, pats=lambda c: [e(q)[c]])
            for nm, i in L.ints:
                yield "%s at most the workers below %s" % (en, nm), lambda q, e=e, i=i: S.forall(lambda x, c: Imp(And(x >= 0, x < i(q), c >= 0, c < K), e(q)[c] <= w(x).candidate_medoid_energy[c]), 2, pats=lambda x, c: [w(x).candidate_medoid_energy[c], (e(q)[c], w(x).candidate_medoids.len)])
                e0 = e(L.entry)
                yield "%s only falls (%s)" % (en, nm), lambda q, e=e, e0=e0: S.forall(lambda c: e(q)[c] <= e0[c], 1, pats=lambda c: [e(q)[c]])
                for on, x in L.outer() + L.iters():
                    if on.startswith("this"): continue
                    yield "%s at most worker %s below %s" % (en, on, nm), lambda q, e=e, i=i, x=x: S.forall(lambda c: Imp(And(c >= 0, c < i(q)), e(q)[c] <= w(x(q)).candidate_medoid_energy[c]), 1, pats=lambda c: [e(q)[c]])
class ChooseLocal(Choose):
    local = True
    def argptr(self, ex, i): return NULL
CONTRACTS = [MedoidEM, MedoidStep, ClearMembership, Populate, ComputeGlobals, Choose, ChooseLocal, k02.metric_of(__name__, "Medoid", MC, MD)]
