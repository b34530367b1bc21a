"""K14: the result object carries the computed assignments, counts and centroids; sparse ids are renumbered in order."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
CT = "knor::base::cluster_t"; CO = "knor::util::compactor"

def rank(v, i):
    """how many of the ids below i are in use: the new number of id i"""
    return S.Sum(i, lambda j: S.ite(v[j] > 0, S.lit(1), S.lit(0)), S.I)
def rank_lemma(v):
    return S.forall(lambda a, b: Imp(And(a >= 0, a < b, v[a] > 0), rank(v, a) + 1 <= rank(v, b)), 2, pats=lambda a, b: [(rank(v, a), rank(v, b))])
def rank_pos(v): return S.forall(lambda b: rank(v, b) >= 0, 1, pats=lambda b: [rank(v, b)])

class Remap(Contract):
    """ids in use get the numbers 0, 1, … in increasing order"""
    qname = CO + "::remap"
    def requires(self, s):
        yield "no numbers given yet", And(s[1].len == 0)
        yield "nothing numbered yet", S.forall(lambda k: Not(s[2].has(k)), 1, pats=lambda k: [s[2].has(k)])
        yield "counts are not negative", allj(s[0].len, lambda j: s[0][j] >= 0, pats=lambda j: [s[0][j]])
    def modifies(self, s): return [s[1].loc(), s[2].loc()]
    def lemmas(self, s):
        yield "numbers are not negative", rank_pos(s[0]), 0
        yield "numbers grow", rank_lemma(s[0]), 1
    def state(self, s, q, n):
        c, r, m = s.old[0], s.st(q)[1], s.st(q)[2]
        yield "as many numbers as ids in use", r.len == rank(c, n)
        yield "exactly the ids in use are numbered", S.forall(lambda k: m.has(k) == And(k >= 0, k < n, c[k] > 0), 1, pats=lambda k: [m.has(k)])
        yield "number of an id", S.forall(lambda k: Imp(And(k >= 0, k < n, c[k] > 0), m[k] == rank(c, k)), 1, pats=lambda k: [m[k]])
        yield "count of a number", S.forall(lambda k: Imp(And(k >= 0, k < n, c[k] > 0), r[rank(c, k)] == c[k]), 1, pats=lambda k: [rank(c, k)])
    def ensures(self, s): yield from self.state(s, s._new, s[0].len)
    def loop_inv(self, s, L):
        for nm, i in L.ints:
            for k in range(4): yield "%s: %d" % (nm, k), lambda q, i=i, k=k: list(self.state(s, q, i(q)))[k][1]

class Result(Contract):
    """the plain constructor copies what it is given"""
    qname = CT + "::cluster_t"; nparams = 7; thisty = CT
    def requires(self, s):
        yield "an assignment per row, a count per cluster", And(fits(s[4], s[0]), fits(s[5], s[3]))
        yield "counts are not negative", allj(s[3], lambda j: s[5][j] >= 0, pats=lambda j: [s[5][j]])
    def modifies(self, s): return [s.this._loc]
    def ensures(self, s):
        n = s.new.this
        yield "shape", And(n.nrow == s[0], n.ncol == s[1], n.iters == s[2], n.k == s[3])
        yield from self.parts(s, n, s[4], s[5], s[6], s[0], s[3])
    def parts(self, s, n, a, c, m, nrow, k):
        yield "assignments", And(n.assignments.len == nrow); yield "assignment of a row", allj(nrow, lambda i: n.assignments[i] == a[i], pats=lambda i: [n.assignments[i]])
        yield "counts", n.assignment_count.len == k; yield "count of a cluster", allj(k, lambda i: n.assignment_count[i] == c[i], pats=lambda i: [n.assignment_count[i]])
        yield "centroids", n.centroids.len == m.len; yield "centroid values", allj(m.len, lambda i: n.centroids[i] == m[i], pats=lambda i: [n.centroids[i]])
class SetComputed(Result):
    qname = CT + "::set_computed"; nparams = None
    def requires(self, s):
        t = s.this
        yield "shape known", And(t.k >= 1, t.nrow >= 1)
        yield "an assignment per row, a count per cluster", And(fits(s[0], t.nrow), fits(s[1], t.k))
        yield "counts are not negative", allj(t.k, lambda j: s[1][j] >= 0, pats=lambda j: [s[1][j]])
    def modifies(self, s): return [s.this.assignments, s.this.assignment_count, s.this.centroids]
    def ensures(self, s): yield from self.parts(s, s.new.this, s[0], s[1], s[2], s.this.nrow, s.this.k)

class Sparse(Contract):
    """the constructor for sparse ids renumbers assignments, counts and centroids alike"""
    qname = CT + "::cluster_t"; nparams = 6; thisty = CT
    def requires(self, s):
        a, c, m = s[3], s[4], s[5]
        yield "rows and columns", And(a.len == s[0], s[1] >= 1)
        yield "counts are not negative", allj(c.len, lambda j: c[j] >= 0, pats=lambda j: [c[j]])
        yield "rows are in ids in use", allj(a.len, lambda i: And(a[i] >= 0, a[i] < c.len, c[a[i]] > 0), pats=lambda i: [a[i]])
        yield "a centroid per id in use", m.len == rank(c, c.len)
        yield "the ids in use have centroids", S.forall(lambda k: m.has(k) == And(k >= 0, k < c.len, c[k] > 0), 1, pats=lambda k: [m.has(k)])
        yield "a coordinate per column", S.forall(lambda k: Imp(m.has(k), m[k].len == s[1]), 1, pats=lambda k: [m[k].len])
    def lemmas(self, s):
        yield "numbers are not negative", rank_pos(s[4]), 0
        yield "numbers grow", rank_lemma(s[4]), 1
    def modifies(self, s): return [s.this._loc]
    def rows(self, s, q, n):
        return S.forall(lambda i: Imp(And(i >= 0, i < n), s.st(q).this.assignments[i] == rank(s[4], s[3][i])), 1, pats=lambda i: [s.st(q).this.assignments[i]])
    def means(self, s, q, seen):
        x = s.st(q).this.centroids; m = s[5]
        return S.forall(lambda k, j: Imp(And(m.has(k), seen(k), j >= 0, j < s[1]), x[S.norm(S.mul(rank(s[4], k), s[1]) + j)] == m[k][j]), 2, pats=lambda k, j: [(rank(s[4], k), m[k][j])])
    def ensures(self, s):
        n = s.new.this; c = s[4]
        yield "shape", And(n.nrow == s[0], n.ncol == s[1], n.iters == s[2], n.k == s[5].len)
        yield "a number per row", n.assignments.len == s[0]
        yield "rows renumbered", self.rows(s, s._new, s[0])
        yield "a count per cluster", n.assignment_count.len == rank(c, c.len)
        yield "counts renumbered", S.forall(lambda k: Imp(And(k >= 0, k < c.len, c[k] > 0), n.assignment_count[rank(c, k)] == c[k]), 1, pats=lambda k: [rank(c, k)])
        yield "centroids renumbered", And(n.centroids.len == S.mul(s[5].len, s[1]))
        yield "centroid values renumbered", self.means(s, s._new, lambda k: z3.BoolVal(True))
    def loop_inv(self, s, L):
        ints, _ = loop_vars(L)
        for nm, i in ints:
            yield "rows below " + nm, lambda q, i=i: self.rows(s, q, i(q))
            o = s.ex.maporder(s[5])
            if o: yield "keys below " + nm, lambda q, i=i, o=o: self.means(s, q, lambda k: o[1](k) < i(q))
CONTRACTS = [Remap, Result, SetComputed, Sparse]

def different(x, y, n): return exists(lambda j: And(j >= 0, j < n, x[j] != y[j]), lambda j: x[j])
def same_all(x, y, n): return S.forall(lambda j: Imp(And(j >= 0, j < n), x[j] == y[j]), 1, pats=lambda j: [x[j]])
class VecEqual(Contract):
    """equal exactly when the lengths and all elements agree"""
    qname = "knor::base::v_eq"; inline = True
    def requires(self, s): return []
    def ensures(self, s):
        x, y = s[0], s[1]
        yield "only for the same length", Imp(s.ret, x.len == y.len)
        yield "only for the same elements", S.guard(s.ret, same_all(x, y, x.len))
        yield "for every equal pair", Or(s.ret, x.len != y.len, different(x, y, x.len))
class RawEqual(Contract):
    qname = "knor::base::eq_all"
    def requires(self, s): yield "elements", And(fits(s[0], s[2]), fits(s[1], s[2]))
    def ensures(self, s):
        x, y, n = s[0], s[1], s[2]
        yield "only for the same elements", S.guard(s.ret, same_all(x, y, n))
        yield "for every equal pair", Or(s.ret, exists(lambda p: And(p >= x.off, p < S.norm(x.off + n), x[p - x.off] != y[p - x.off]), lambda p: x[p - x.off]))
class ResultEqual(Contract):
    """two results are equal exactly when assignments, counts and centroids agree"""
    qname = CT + "::operator=="; thisty = CT
    parts = ("assignments", "assignment_count", "centroids"); scalars = ()
    def requires(self, s): return []
    def ensures(self, s):
        t, o = s.this, s[0]; diff = []
        for p in self.scalars:
            yield p + " agrees", Imp(s.ret, getattr(t, p) == getattr(o, p)); diff.append(getattr(t, p) != getattr(o, p))
        for p in self.parts:
            x, y = getattr(t, p), getattr(o, p)
            yield p + ": length", Imp(s.ret, x.len == y.len)
            yield p + ": elements", S.guard(s.ret, same_all(x, y, x.len))
            diff += [x.len != y.len, different(x, y, x.len)]
        yield "for every equal pair", Or(s.ret, *diff)
class ClustersEqual(ResultEqual):
    qname = "knor::base::clusters::operator=="; thisty = "knor::base::clusters"
    scalars = ("ncol", "nclust"); parts = ("num_members_v", "means")
CONTRACTS += [VecEqual, RawEqual, ResultEqual, ClustersEqual]
