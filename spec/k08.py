"""K08: the triangular pairwise distance matrix."""
import z3
from kv import sym as S
from kv.verify import Contract
from .lib import *
from . import k06
DM = "knor::prune::dist_matrix"

def wf(m):
    yield "at least one stored row", m.rows >= 1
    yield "one row per id but the last", m.mat.len == m.rows
    yield "triangular rows", S.forall(lambda r: Imp(And(r >= 0, r < m.rows), m.mat[r].len == m.rows - r), 1, pats=lambda r: [m.mat[r].len])

def D(m, i, j):
    """the stored value of the unordered pair {i, j}"""
    return S.ite(i < j, m.mat[i][S.norm(j - i - 1)], m.mat[j][S.norm(i - j - 1)])
def cell(m, i, j): return m.mat[i][S.norm(j - i - 1)]
def ids(m): return S.norm(m.rows + 1)
def valid(m, i): return And(i >= 0, i < ids(m))

class _Dm(Contract):
    thisty = DM
    def requires(self, s): yield from wf(s.this)

class Get(_Dm):
    qname = DM + "::get"
    def requires(self, s):
        yield from wf(s.this)
        yield "ids valid", And(valid(s.this, s[0]), valid(s.this, s[1]))
    def ensures(self, s):
        yield "pair value", s.ret == S.ite(s[0] == s[1], S.DBL_MAX, D(s.this, s[0], s[1]))
class PwGet(Get):
    qname = DM + "::pw_get"
    def ensures(self, s):
        yield "pair value", s.ret == S.ite(s[0] == s[1], S.rlit(0), D(s.this, s[0], s[1]))

def set_effect(s, o, n, i, j, v):
    r = S.ite(i < j, i, j); c = S.ite(i < j, S.norm(j - i - 1), S.norm(i - j - 1))
    yield "only that pair changes", S.forall(lambda a, b: n.mat[a][b] == S.ite(And(a == r, b == c), v, o.mat[a][b]), 2, pats=lambda a, b: [n.mat[a][b]])

class Set(_Dm):
    qname = DM + "::set"
    def requires(self, s):
        yield from wf(s.this)
        yield "ids valid and distinct", And(valid(s.this, s[0]), valid(s.this, s[1]), s[0] != s[1])
    def modifies(self, s): return [cells_loc(s.this)]
    def ensures(self, s):
        yield from set_effect(s, s.old.this, s.new.this, s[0], s[1], s[2])

def cells_loc(m):
    l = m.loc("mat")
    from kv.exec import Loc
    return Loc(l.path + "[][]", l.idxs, "double")

class Ctor(_Dm):
    qname = DM + "::dist_matrix"
    def requires(self, s): yield "at least two ids", s[0] > 1
    def modifies(self, s): return [s.this._loc]
    def ensures(self, s):
        yield "size", s.new.this.rows == s[0] - 1
        yield from wf(s.new.this)
    def loop_inv(self, s, L):
        t = lambda q: s.st(q).this
        for nm, i in L.ints:
            yield "rows pushed so far by %s" % nm, lambda q, i=i: S.norm(t(q).mat.len + i(q)) == t(q).rows
            yield "rows pushed upto %s" % nm, lambda q, i=i: t(q).mat.len == i(q)
        yield "triangular so far", lambda q: S.forall(lambda r: Imp(And(r >= 0, r < t(q).mat.len), t(q).mat[r].len == t(q).rows - r), 1, pats=lambda r: [t(q).mat[r].len])

class GetMinDist(_Dm):
    qname = DM + "::get_min_dist"
    def requires(self, s):
        yield from wf(s.this)
        yield "id valid", valid(s.this, s[0])
        m = s.this
        yield "stored distances are finite", S.forall(lambda a, b: m.mat[a][b] < S.DBL_MAX, 2, pats=lambda a, b: [m.mat[a][b]])
    def fn(self, s): return lambda j: S.ite(j == s[0], S.DBL_MAX, D(s.this, s[0], j))
    def ensures(self, s):
        yield "least over the pairs of that id", s.ret == S.Min(ids(s.this), self.fn(s))
    def loop_inv(self, s, L):
        for rn, r in L.reals:
            for nm, i in L.ints:
                yield "%s = least below %s" % (rn, nm), lambda q, r=r, i=i: r(q) == S.Min(i(q), self.fn(s))
                yield "%s finite past the first other id %s" % (rn, nm), lambda q, r=r, i=i: Or(i(q) <= S.ite(s[0] == 0, S.lit(1), S.lit(0)), r(q) < S.DBL_MAX)

class ComputeDist(_Dm):
    qname = DM + "::compute_dist"
    def requires(self, s):
        c = s[0]
        yield from wf(s.this)
        for nm, f in k06.wf(c): yield nm, f
        yield "separation values sized nclust", c.s_val_v.len == c.nclust
        yield "ncol agrees", s[1] == c.ncol
        yield "matrix fits the clusters", Or(c.nclust <= 1, c.nclust == ids(s.this))
        yield "distances representable", finite(self.half(s))
    def half(self, s):
        c = s[0]
        m = lambda i: (lambda p: c.means[S.norm(S.mul(i, s[1]) + p)])
        return lambda i, j: S.rdiv(eucl(m(i), m(j), s[1]), S.rlit(2))
    def modifies(self, s): return [cells_loc(s.this), s[0].loc("s_val_v")]
    def sep(self, s, n, c):
        h = self.half(s)
        return S.Min(n, lambda j: S.ite(j == c, S.DBL_MAX, S.ite(j < c, h(j, c), h(c, j))))
    def ensures(self, s):
        c = s[0]; h = self.half(s); m = s.new.this; nc = c.nclust
        yield "half distances", S.guard(nc > 1, S.forall(lambda a, b: Imp(And(a >= 0, a < b, b < nc), cell(m, a, b) == h(a, b)), 2, pats=lambda a, b: [cell(m, a, b)]))
        yield "separation values", S.guard(nc > 1, S.forall(lambda a: Imp(And(a >= 0, a < nc), s.new[0].s_val_v[a] == self.sep(s, nc, a)), 1, pats=lambda a: [s.new[0].s_val_v[a]]))
        yield "sizes kept", s.new[0].s_val_v.len == c.s_val_v.len
    def loop_inv(self, s, L):
        nc = s[0].nclust; h = self.half(s)
        m = lambda q: s.st(q).this
        sv = lambda q: s.st(q)[0].s_val_v
        yield "sizes kept", lambda q: sv(q).len == s[0].s_val_v.len
        ints = L.int_locals()
        names = dict(ints)
        for ni, i in ints:
            yield "rows below %s stored" % ni, lambda q, i=i: S.forall(lambda a, b: Imp(And(a >= 0, a < i(q), a < b, b < nc), cell(m(q), a, b) == h(a, b)), 2, pats=lambda a, b: [cell(m(q), a, b)])
            yield "separations upto row %s" % ni, lambda q, i=i: S.forall(lambda a: Imp(And(a >= 0, a < nc), sv(q)[a] == S.ite(a < i(q), self.sep(s, nc, a), self.sep(s, i(q), a))), 1, pats=lambda a: [sv(q)[a]])
            for nj, j in ints:
                if ni == nj: continue
                yield "row %s stored below %s" % (ni, nj), lambda q, i=i, j=j: S.forall(lambda b: Imp(And(b > i(q), b < j(q)), cell(m(q), i(q), b) == h(i(q), b)), 1, pats=lambda b: [cell(m(q), i(q), b)])
                yield "separations at (%s,%s)" % (ni, nj), lambda q, i=i, j=j: S.forall(lambda a: Imp(And(a >= 0, a < nc), sv(q)[a] == S.ite(a < i(q), self.sep(s, nc, a), S.ite(a == i(q), self.sep(s, j(q), a), S.ite(a < j(q), self.sep(s, S.norm(i(q) + 1), a), self.sep(s, i(q), a))))), 1, pats=lambda a: [sv(q)[a]])

def finite(h):
    return S.forall(lambda a, b: h(a, b) < S.DBL_MAX, 2, pats=lambda a, b: [h(a, b)])

class ComputePairwise(_Dm):
    qname = DM + "::compute_pairwise_dist"
    def requires(self, s):
        yield from wf(s.this)
        yield "all rows present", fits(s[0], S.mul(ids(s.this), s[1]))
    def throws(self, s): return S.Not(And(s[2] >= 0, s[2] <= 2))
    def h(self, s):
        r = lambda i: (lambda p: s[0][S.norm(S.mul(i, s[1]) + p)])
        return lambda i, j: dist(r(i), r(j), s[1], s[2])
    def modifies(self, s): return [cells_loc(s.this)]
    def ensures(self, s):
        h = self.h(s); m = s.new.this
        yield "distances", S.forall(lambda a, b: Imp(And(a >= 0, a < b, b < ids(s.this)), cell(m, a, b) == h(a, b)), 2, pats=lambda a, b: [cell(m, a, b)])
    def loop_inv(self, s, L):
        h = self.h(s); m = lambda q: s.st(q).this; nc = ids(s.this)
        ints = L.int_locals()
        yield "metric known", lambda q: And(s[2] >= 0, s[2] <= 2)
        for ni, i in ints:
            yield "metric known once started %s" % ni, lambda q, i=i: Or(i(q) == 0, And(s[2] >= 0, s[2] <= 2))
            yield "rows below %s stored" % ni, lambda q, i=i: S.forall(lambda a, b: Imp(And(a >= 0, a < i(q), a < b, b < nc), cell(m(q), a, b) == h(a, b)), 2, pats=lambda a, b: [cell(m(q), a, b)])
            for nj, j in ints:
                if ni == nj: continue
                yield "metric known in row %s %s" % (ni, nj), lambda q, i=i, j=j: Or(And(i(q) == 0, j(q) == 1), And(s[2] >= 0, s[2] <= 2))
                yield "row %s stored below %s" % (ni, nj), lambda q, i=i, j=j: S.forall(lambda b: Imp(And(b > i(q), b < j(q)), cell(m(q), i(q), b) == h(i(q), b)), 1, pats=lambda b: [cell(m(q), i(q), b)])

CONTRACTS = [Get, PwGet, Set, Ctor, GetMinDist, ComputeDist, ComputePairwise]
