"""K17: fuzzy c-means: memberships from distances, centroids from memberships."""
import z3
from fractions import Fraction
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from .k04 import D
from .k09 import cell, wf, rowsum, colsum, every, flat
from . import k02
F = "knor::fcm"; FC = "knor::fcm_coordinator"
EPS = S.rlit(str(Fraction(2.2e-16)))      # what a distance of zero counts as

def positive_powers(): return S.forall(lambda x, y: Imp(x > 0, S.rpow(x, y) > 0), 2, pats=lambda x, y: [S.rpow(x, y)], sorts=[S.R, S.R])
class Estep(Contract):
    """membership of a row in a cluster, before scaling: the inverse distance to the power 1/(fuzziness-1)"""
    qname = F + "::Estep"; thisty = F
    def requires(self, s):
        t = s.this; u = t.um; c = t.centers
        yield from (("memberships " + a, b) for a, b in wf(u)); yield from (("centres " + a, b) for a, b in wf(c))
        yield "a membership per cluster and row", And(u.nrow == t.nclust, t.start_rid + t.nprocrows <= u.ncol, t.start_rid + t.nprocrows < 4294967296)
        yield "a centre per cluster", And(c.nrow == t.nclust, c.ncol == t.ncol)
        yield "local data", fits(t.local_data, S.mul(t.nprocrows, t.ncol))
        yield "fuzziness above one", t.fuzzindex >= 2
        yield "metric valid", valid_metric(t.dist_metric)
        yield "definition of D", D.define(t.local_data, c.mat, t.ncol, t.dist_metric)
        yield "a positive number to any power is positive", positive_powers()
    def modifies(self, s): return [s.this.um.mat]
    def raw(self, s, r, c):
        d = D(r, c)
        return S.rpow(S.rdiv(S.rlit(1), S.ite(d <= 0, EPS, d)), S.rdiv(S.rlit(1), S.toreal(S.norm(s.this.fuzzindex - 1))))
    def cells(self, s, q, vis):
        o, m = s.old.this, s.st(q).this.um; st = o.start_rid
        return S.forall(lambda c, j: Imp(And(c >= 0, c < o.nclust, j >= 0, j < o.um.ncol),
            m.mat[cell(o.um, c, j)] == S.ite(And(j >= st, j < S.norm(st + o.nprocrows), vis(S.norm(j - st), c)), self.raw(s, S.norm(j - st), c), o.um.mat[cell(o.um, c, j)])), 2, pats=lambda c, j: [m.mat[cell(o.um, c, j)]])
    def ensures(self, s):
        o, n = s.old.this, s.new.this
        yield "memberships", self.cells(s, s._new, lambda r, c: z3.BoolVal(True))
        yield "positive", S.forall(lambda c, j: Imp(And(c >= 0, c < o.nclust, j >= o.start_rid, j < S.norm(o.start_rid + o.nprocrows)), n.um.mat[cell(o.um, c, j)] > 0), 2, pats=lambda c, j: [n.um.mat[cell(o.um, c, j)]])
        yield "same shape", And(n.um.mat.len == o.um.mat.len, n.um.nrow == o.um.nrow, n.um.ncol == o.um.ncol)
    def loop_inv(self, s, L):
        ints, outer = L.ints, L.int_locals()
        yield "size kept", lambda q: s.st(q).this.um.mat.len == s.old.this.um.mat.len
        for nm, i in ints:
            yield "rows below " + nm, lambda q, i=i: self.cells(s, q, lambda r, c: r < i(q))
            yield "clusters below " + nm, lambda q, i=i: self.cells(s, q, lambda r, c: c < i(q))
            for on, o in outer:
                if on in [x for x, _ in ints]: continue
                yield "rows below %s, then clusters below %s" % (on, nm), lambda q, i=i, o=o: self.cells(s, q, lambda r, c: Or(r < o(q), And(r == o(q), c < i(q))))
                yield "clusters below %s, then rows below %s" % (on, nm), lambda q, i=i, o=o: self.cells(s, q, lambda r, c: Or(c < o(q), And(c == o(q), r < i(q))))

class Mstep(Contract):
    """a worker's share of the new centres: its rows, weighted by membership"""
    qname = F + "::Mstep"; thisty = F
    def requires(self, s):
        t = s.this; u = t.um; p = t.innerprod
        yield from (("memberships " + a, b) for a, b in wf(u)); yield from (("products " + a, b) for a, b in wf(p))
        yield "a membership per cluster and row", And(u.nrow == t.nclust, t.start_rid + t.nprocrows <= u.ncol, t.start_rid + t.nprocrows < 4294967296)
        yield "a product per cluster and coordinate", And(p.nrow == t.nclust, p.ncol == t.ncol)
        yield "local data", fits(t.local_data, S.mul(t.nprocrows, t.ncol))
    def modifies(self, s): return [s.this.innerprod.mat]
    def lemmas(self, s):
        t = s.this; st = t.start_rid; m = S.mul
        yield "a row of the worker lies in its data", S.forall(lambda x: Imp(And(x >= st, x < S.norm(st + t.nprocrows), t.ncol >= 0), And(m(x - st, t.ncol) >= 0, S.norm(m(x - st, t.ncol) + t.ncol) <= m(t.nprocrows, t.ncol))), 1, pats=lambda x: [m(x, t.ncol)]), "products"
    def total(self, s, c, j, n):
        o = s.old.this
        return S.Sum(n, lambda r: S.mul(o.um.mat[cell(o.um, c, S.norm(o.start_rid + r))], o.local_data[S.norm(S.mul(r, o.ncol) + j)]), S.R)
    def cells(self, s, q, upto):
        o, m = s.old.this, s.st(q).this.innerprod
        return every(o.innerprod, lambda c, j: m.mat[cell(o.innerprod, c, j)] == upto(c, j), m)
    def ensures(self, s):
        o, n = s.old.this, s.new.this
        yield "weighted sums", self.cells(s, s._new, lambda c, j: self.total(s, c, j, o.nprocrows))
        yield "same shape", And(n.innerprod.mat.len == o.innerprod.mat.len, n.innerprod.nrow == o.nclust, n.innerprod.ncol == o.ncol)
    def loop_inv(self, s, L):
        o = s.old.this; st = o.start_rid; T = lambda c, j, n: self.total(s, c, j, n)
        yield "size kept", lambda q: s.st(q).this.innerprod.mat.len == o.innerprod.mat.len
        cnt = [x for x, _ in L.ints]; outer = [(a, b) for a, b in L.int_locals() if a not in cnt]
        for nm, i in L.ints:
            yield "rows below " + nm, lambda q, i=i: self.cells(s, q, lambda c, j: T(c, j, i(q)))
            yield "rows from the first below " + nm, lambda q, i=i: self.cells(s, q, lambda c, j: T(c, j, S.norm(i(q) - st)))
            for on, r in outer:
                for off in (False, True):
                    R = (lambda q, r=r: S.norm(r(q) - st)) if off else r; w = on + (" from the first" if off else "")
                    yield "row %s for clusters below %s" % (w, nm), lambda q, i=i, R=R: self.cells(s, q, lambda c, j: S.ite(c < i(q), T(c, j, S.norm(R(q) + 1)), T(c, j, R(q))))
                    for on2, k in outer:
                        if on2 == on: continue
                        yield "row %s for clusters below %s, coordinates below %s" % (w, on2, nm), lambda q, i=i, R=R, k=k: self.cells(s, q, lambda c, j: S.ite(Or(c < k(q), And(c == k(q), j < i(q))), T(c, j, S.norm(R(q) + 1)), T(c, j, R(q))))

class Contribution(Contract):
    """memberships are scaled to sum to one per row, then raised to the fuzziness"""
    qname = FC + "::update_contribution_matrix"; thisty = FC
    def requires(self, s):
        u = s.this.um
        yield from wf(u); yield "a cluster", u.nrow >= 1
        yield "memberships of a row do not cancel", S.forall(lambda r: Imp(And(r >= 0, r < u.ncol), colsum(u, r) != 0), 1, pats=lambda r: [colsum(u, r)])
    def modifies(self, s): return [s.this.um.mat]
    def scaled(self, s, r, n):
        u = s.old.this.um; return S.Sum(n, lambda c: S.rdiv(u.mat[cell(u, c, r)], colsum(u, r)), S.R)
    def lemmas(self, s):
        u = s.this.um
        yield distributes()
        yield "a sum of quotients is the quotient of the sum", S.forall(lambda n, r: self.scaled(s, r, n) == S.rdiv(colsum(u, r, n), colsum(u, r)), 2, pats=lambda n, r: [self.scaled(s, r, n)]), 0
    def ensures(self, s):
        o, n = s.old.this.um, s.new.this.um
        yield "what is raised sums to one per row", S.forall(lambda r: Imp(And(r >= 0, r < o.ncol), self.scaled(s, r, o.nrow) == 1), 1, pats=lambda r: [self.scaled(s, r, o.nrow)])
        yield "scaled and raised", every(o, lambda c, r: n.mat[cell(o, c, r)] == S.rpow(S.rdiv(o.mat[cell(o, c, r)], colsum(o, r)), S.toreal(s.this.fuzzindex)), n)
        yield "same shape", And(n.nrow == o.nrow, n.ncol == o.ncol, n.mat.len == o.mat.len)

class UpdateCenters(Contract):
    """a centre is the sum of the workers' shares over the total membership of its cluster"""
    qname = FC + "::update_centers"; thisty = FC
    def setup(self, ex): ex.dyn["this.threads[]*"] = F
    def requires(self, s):
        t = s.this; u = t.um; w = lambda i: t.threads[i].innerprod
        yield from (("memberships " + a, b) for a, b in wf(u)); yield from (("centres " + a, b) for a, b in wf(t.centers))
        yield "shape", And(u.nrow == t.k, u.ncol == t.nrow, t.nrow >= 1, t.k >= 1, t.threads.len >= 1, t.centers.nrow == t.k, t.centers.ncol == t.ncol)
        yield "workers' shares", S.forall(lambda i: Imp(And(i >= 0, i < t.threads.len), And(w(i).nrow == t.k, w(i).ncol == t.ncol, w(i).mat.len == S.mul(t.k, t.ncol))), 1, pats=lambda i: [w(i).mat.len])
        yield "every cluster has members", S.forall(lambda c: Imp(And(c >= 0, c < t.k), rowsum(u, c) != 0), 1, pats=lambda c: [rowsum(u, c)])
    def modifies(self, s): c = s.this.centers; return [c.mat, c.loc("nrow"), c.loc("ncol")]
    def part(self, s, p, n): return S.Sum(n, lambda i: s.old.this.threads[i].innerprod.mat[p], S.R)
    def ensures(self, s):
        o, n = s.old.this, s.new.this
        yield "shape", And(n.centers.nrow == o.k, n.centers.ncol == o.ncol, n.centers.mat.len == S.mul(o.k, o.ncol))
        at = lambda c, j: S.norm(S.mul(c, o.ncol) + j)
        yield "weighted means", S.forall(lambda c, j: Imp(And(c >= 0, c < o.k, j >= 0, j < o.ncol), n.centers.mat[at(c, j)] == S.rdiv(self.part(s, at(c, j), o.threads.len), rowsum(o.um, c))), 2, pats=lambda c, j: [n.centers.mat[at(c, j)]])
    def lemmas(self, s):
        w = lambda i, p: s.this.threads[i].innerprod.mat[p]
        yield "one share", S.forall(lambda p: self.part(s, p, S.lit(1)) == w(S.lit(0), p), 1, pats=lambda p: [self.part(s, p, S.lit(1)), w(S.lit(0), p)]), "direct"
        yield "two shares", S.forall(lambda p: self.part(s, p, S.lit(2)) == S.add(w(S.lit(0), p), w(S.lit(1), p)), 1, pats=lambda p: [self.part(s, p, S.lit(2)), w(S.lit(1), p)]), "direct"
    def loop_inv(self, s, L):
        o = s.old.this
        C = lambda q: s.st(q).this.centers
        yield "shape", lambda q: And(C(q).nrow == o.k, C(q).ncol == o.ncol, C(q).mat.len == S.mul(o.k, o.ncol))
        for nm, i in L.ints:
            yield "workers below " + nm, lambda q, i=i: S.forall(lambda p: Imp(And(p >= 0, p < C(q).mat.len), C(q).mat[p] == self.part(s, p, i(q))), 1, pats=lambda p: [C(q).mat[p]])
CONTRACTS = [Estep, Mstep, Contribution, UpdateCenters, k02.metric_of(__name__, "Fcm", FC, F)]
