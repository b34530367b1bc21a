"""K09: the dense matrix type does what matrix algebra says (row-major, element (r,c) at r*ncol+c)."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
DM = "knor::base::dense_matrix"; T = DM + "<double>"

def cell(m, r, c): return S.norm(S.mul(r, m.ncol) + c)
def wf(m): yield "sized rows times columns", m.mat.len == S.mul(m.nrow, m.ncol)
def inside(m, r, c): return And(r >= 0, r < m.nrow, c >= 0, c < m.ncol)
def every(m, fn, pm=None):
    """fn(r, c) for every cell of m, matched on the cells of pm"""
    pm = pm or m
    return S.forall(lambda r, c: Imp(inside(m, r, c), fn(r, c)), 2, pats=lambda r, c: [pm.mat[cell(pm, r, c)]])
def flat(n, m, val):
    """every element by position"""
    return S.forall(lambda p: Imp(And(p >= 0, p < m.mat.len), n.mat[p] == val(p)), 1, pats=lambda p: [n.mat[p]])

class _M(Contract):
    thisty = T
    def matches(self, f): return super().matches(f) and f.cls is not None and f.cls.name == T
    def requires(self, s): yield from wf(s.this)
    def ensures(self, s):
        yield from self.post(s)
        n = s.new.this
        yield "same shape", And(n.nrow == s.this.nrow, n.ncol == s.this.ncol)
        yield from wf(n)
    def post(self, s): return []
    def shape_ok(self, L, s):
        yield "sizes kept", lambda q: And(*[f for _, f in wf(s.st(q).this)])

def order(L, s):
    """progress of nested loops over rows and columns: (name, state -> predicate on (row, col) 'already visited')"""
    ints, outer = loop_vars(L)
    for nm, i in ints:
        yield "rows below " + nm, lambda q, i=i: lambda r, c: r < i(q)
        yield "columns below " + nm, lambda q, i=i: lambda r, c: c < i(q)
        for on, o in outer:
            yield "rows below %s, then columns below %s" % (on, nm), lambda q, i=i, o=o: lambda r, c: Or(r < o(q), And(r == o(q), c < i(q)))
            yield "columns below %s, then rows below %s" % (on, nm), lambda q, i=i, o=o: lambda r, c: Or(c < o(q), And(c == o(q), r < i(q)))
def grid(L, s, mat, val):
    """visited cells hold val(r,c), the others their old value; mat: state -> matrix view"""
    for nm, v in order(L, s):
        def fn(q, v=v):
            m = mat(q); o = mat(s._old); vis = v(q)
            return every(s.this, lambda r, c: m.mat[cell(o, r, c)] == S.ite(vis(r, c), val(r, c), o.mat[cell(o, r, c)]), m)
        yield nm, fn

# ------------------------------------------------------------------ construction, access
class Ctor(_M):
    qname = DM + "::dense_matrix"; nparams = 3
    def requires(self, s): return []
    def modifies(self, s): return [s.this.loc("mat"), s.this.loc("nrow"), s.this.loc("ncol")]
    def ensures(self, s):
        n = s.new.this
        yield "shape", And(n.nrow == s[0], n.ncol == s[1])
        yield from wf(n)
        yield "zero", flat(n, n, lambda p: S.rlit(0))
class Ctor0(_M):
    qname = DM + "::dense_matrix"; nparams = 0
    def requires(self, s): return []
    def modifies(self, s): return [s.this.loc("mat"), s.this.loc("nrow"), s.this.loc("ncol")]
    def ensures(self, s):
        n = s.new.this
        yield "empty", And(n.nrow == 0, n.ncol == 0, n.mat.len == 0)
class Create(_M):
    qname = DM + "::create"; nparams = 3; inline = True
    def requires(self, s): return []
    def ensures(self, s):
        n = s.ret
        yield "shape", And(n.nrow == s[0], n.ncol == s[1])
        yield from wf(n)
        yield "zero", flat(n, n, lambda p: S.rlit(0))
class CreateCopy(_M):
    qname = DM + "::create"; nparams = 1; inline = True
    def requires(self, s): yield from wf(s[0])
    def ensures(self, s):
        n = s.ret
        yield "shape", And(n.nrow == s[0].nrow, n.ncol == s[0].ncol)
        yield from wf(n)
        yield "same elements", flat(n, n, lambda p: s[0].mat[p])
class SetAll(_M):
    qname = DM + "::set"; nparams = 1
    def requires(self, s):
        yield from wf(s.this); yield "enough elements", fits(s[0], s.this.mat.len)
    def modifies(self, s): return [s.this.mat]
    def post(self, s): yield "elements", flat(s.new.this, s.this, lambda p: s[0][p])
class SetRow(_M):
    qname = DM + "::set_row"
    def requires(self, s):
        yield from wf(s.this); yield "row exists", And(s[1] >= 0, s[1] < s.this.nrow); yield "a whole row", fits(s[0], s.this.ncol)
    def modifies(self, s): return [s.this.mat]
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "that row", S.forall(lambda j: Imp(And(j >= 0, j < o.ncol), n.mat[cell(o, s[1], j)] == s[0][j]), 1, pats=lambda j: [s[0][j]])
        yield "other rows kept", every(o, lambda r, c: Imp(r != s[1], n.mat[cell(o, r, c)] == o.mat[cell(o, r, c)]), n)
class Get(_M):
    qname = DM + "::get"
    def requires(self, s):
        yield from wf(s.this); yield "cell exists", And(s[0] >= 0, s[0] < s.this.nrow, s[1] >= 0, s[1] < s.this.ncol)
    def returns(self, s): return s.this.mat.at(cell(s.this, s[0], s[1]))
class SetCell(_M):
    qname = DM + "::set"; nparams = 3
    def requires(self, s): yield from Get.requires(self, s)
    def modifies(self, s): return [s.this.mat.at(cell(s.this, s[0], s[1]))]
    def new(self, s, r, c): return s[2]
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "that cell", n.mat[cell(o, s[0], s[1])] == self.new(s, s[0], s[1])
        yield "other cells kept", every(o, lambda r, c: Imp(Or(r != s[0], c != s[1]), n.mat[cell(o, r, c)] == o.mat[cell(o, r, c)]), n)
class Peq(SetCell):
    qname = DM + "::peq"
    def new(self, s, r, c): return s.this.mat[cell(s.this, r, c)] + s[2]
class Zero(_M):
    qname = DM + "::zero"
    def modifies(self, s): return [s.this.mat]
    def post(self, s): yield "zero", flat(s.new.this, s.this, lambda p: S.rlit(0))
class Resize(_M):
    qname = DM + "::resize"
    def modifies(self, s): return [s.this.mat, s.this.loc("nrow"), s.this.loc("ncol")]
    def ensures(self, s):
        n = s.new.this
        yield "shape", And(n.nrow == s[0], n.ncol == s[1])
        yield from wf(n)
class CopyFrom(_M):
    qname = DM + "::copy_from"
    def requires(self, s):
        yield from wf(s.this); yield from (("source " + a, b) for a, b in wf(s[0]))
    def modifies(self, s): return [s.this.mat, s.this.loc("nrow"), s.this.loc("ncol")]
    def ensures(self, s):
        n = s.new.this
        yield "shape", And(n.nrow == s[0].nrow, n.ncol == s[0].ncol)
        yield from wf(n)
        yield "same elements", flat(n, n, lambda p: s[0].mat[p])

# ------------------------------------------------------------------ element-wise
class _Flat(_M):
    """element p becomes val(p)"""
    def modifies(self, s): return [s.this.mat]
    def post(self, s): yield "elements", flat(s.new.this, s.this, lambda p: self.val(s, p))
    def loop_inv(self, s, L):
        yield from sweep(L, lambda q: (lambda p: s.st(q).this.mat[p]), S.lit(0), s.this.mat.len, lambda p: self.val(s, p), "elements")
        yield from self.shape_ok(L, s)
def same_shape(s):
    yield from wf(s.this); yield from (("other " + a, b) for a, b in wf(s[0]))
    yield "same shape", And(s.this.nrow == s[0].nrow, s.this.ncol == s[0].ncol)
class PlusEq(_Flat):
    qname = DM + "::operator+="
    def requires(self, s): yield from same_shape(s)
    def val(self, s, p): return s.this.mat[p] + s[0].mat[p]
class DivScalar(_Flat):
    qname = DM + "::operator/="; sig = "const double"
    def requires(self, s): yield from wf(s.this); yield "divisor non-zero", s[0] != 0
    def val(self, s, p): return S.rdiv(s.this.mat[p], s[0])
    def returns(self, s): return s.this
class PowEq(_Flat):
    qname = DM + "::pow_eq"
    def val(self, s, p): return S.rpow(s.this.mat[p], s[0])
class _New(_M):
    """a new matrix; the operands stay as they are"""
    def requires(self, s): yield from same_shape(s)
    def ensures(self, s):
        n = s.ret
        yield "shape", And(n.nrow == s.this.nrow, n.ncol == s.this.ncol)
        yield from wf(n)
        yield "elements", flat(n, n, lambda p: self.val(s, p))
    def loop_inv(self, s, L):
        for nm, r in L.objects(T):
            yield from (("%s: %s" % (nm, a), b) for a, b in sweep(L, lambda q, r=r: (lambda p: r(q).mat[p]), S.lit(0), s.this.mat.len, lambda p: self.val(s, p), "elements"))
class MinusMat(_New):
    qname = DM + "::operator-"; sig = "(dense_matrix<double> &)"
    def val(self, s, p): return s.this.mat[p] - s[0].mat[p]
class PlusMat(MinusMat):
    qname = DM + "::operator+"
    def val(self, s, p): return s.this.mat[p] + s[0].mat[p]

# ------------------------------------------------------------------ by row or column
class _Cells(_M):
    def modifies(self, s): return [s.this.mat]
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "cells", every(o, lambda r, c: n.mat[cell(o, r, c)] == self.val(s, r, c), n)
    def loop_inv(self, s, L):
        yield from grid(L, s, lambda q: s.st(q).this, lambda r, c: self.val(s, r, c))
        yield from self.shape_ok(L, s)
    def nonzero(self, v): return S.forall(lambda j: Imp(And(j >= 0, j < v.len), v[j] != 0), 1, pats=lambda j: [v[j]])
class DivEq(_Cells):
    """axis 0: one divisor per column, axis 1: one per row"""
    qname = DM + "::div_eq"
    def ok(self, s): return Or(And(s[1] == 0, s[0].len == s.this.ncol), And(s[1] == 1, s[0].len == s.this.nrow))
    def requires(self, s): yield from wf(s.this); yield "divisors non-zero", self.nonzero(s[0])
    def throws(self, s): return Not(self.ok(s))
    def quot(self, s, r, c): return S.ite(s[1] == 0, S.rdiv(s.this.mat[cell(s.this, r, c)], s[0][c]), S.rdiv(s.this.mat[cell(s.this, r, c)], s[0][r]))
    def val(self, s, r, c): return self.quot(s, r, c)
class DivEqPow(DivEq):
    qname = DM + "::div_eq_pow"
    def val(self, s, r, c): return S.ite(s[1] == 0, S.rpow(S.rdiv(s.this.mat[cell(s.this, r, c)], s[0][c]), S.toreal(s[2])), S.rpow(S.rdiv(s.this.mat[cell(s.this, r, c)], s[0][r]), S.toreal(s[2])))
class DivVec(_Cells):
    """a vector as long as a column divides every column, one as long as a row every row; ambiguous for a square matrix"""
    qname = DM + "::operator/="; sig = "vector"
    def requires(self, s): yield from wf(s.this); yield "divisors non-zero", self.nonzero(s[0])
    def throws(self, s): return Or(s.this.nrow == s.this.ncol, And(s[0].len != s.this.nrow, s[0].len != s.this.ncol))
    def val(self, s, r, c): return S.ite(s[0].len == s.this.nrow, S.rdiv(s.this.mat[cell(s.this, r, c)], s[0][r]), S.rdiv(s.this.mat[cell(s.this, r, c)], s[0][c]))
    def returns(self, s): return s.this

# ------------------------------------------------------------------ reductions
class SumAll(_M):
    qname = DM + "::sum"; nparams = 0
    def ensures(self, s): yield "sum of all elements", s.ret == S.Sum(s.this.mat.len, lambda p: s.this.mat[p], S.R)
    def loop_inv(self, s, L): yield from sums(L, [("elements", lambda p: s.this.mat[p])])
class Frob(_M):
    qname = DM + "::frobenius_norm"
    def ensures(self, s): yield "root of the sum of squares", s.ret == S.sqrt(S.Sum(s.this.mat.len, lambda p: sq(s.this.mat[p]), S.R))
    def loop_inv(self, s, L): yield from sums(L, [("squares", lambda p: sq(s.this.mat[p]))])

def rowsum(m, r, n=None): return S.Sum(m.ncol if n is None else n, lambda c: m.mat[cell(m, r, c)], S.R)
def colsum(m, c, n=None): return S.Sum(m.nrow if n is None else n, lambda r: m.mat[cell(m, r, c)], S.R)
class _Axis(_M):
    """sums (or means) per row or per column into a vector"""
    out = 0
    def byrow(self, s): return s[1] == self.rowcode
    def size(self, s): return S.ite(self.byrow(s), s.this.nrow, s.this.ncol)
    def other(self, s): return S.ite(self.byrow(s), s.this.ncol, s.this.nrow)
    def total(self, s, k): return S.ite(self.byrow(s), rowsum(s.this, k), colsum(s.this, k))
    def modifies(self, s): return [s[0]]
    def val(self, s, k): return self.total(s, k)
    def post(self, s):
        n = s.new[0]
        yield "one per row or column", n.len == self.size(s)
        yield "totals", S.forall(lambda k: Imp(And(k >= 0, k < self.size(s)), n[k] == self.val(s, k)), 1, pats=lambda k: [n[k]])
    def partial(self, L, s):
        m = s.this; V = lambda q: s.st(q)[0]
        ints, outer = loop_vars(L)
        rows = lambda q, f: S.forall(lambda k: Imp(And(k >= 0, k < m.nrow), V(q)[k] == f(k)), 1, pats=lambda k: [V(q)[k]])
        cols = lambda q, f: S.forall(lambda k: Imp(And(k >= 0, k < m.ncol), V(q)[k] == f(k)), 1, pats=lambda k: [V(q)[k]])
        z = S.rlit(0)
        for nm, i in ints:
            yield "row totals of rows below " + nm, lambda q, i=i: rows(q, lambda k: S.ite(k < i(q), rowsum(m, k), z))
            yield "row totals of columns below " + nm, lambda q, i=i: rows(q, lambda k: rowsum(m, k, i(q)))
            yield "column totals of columns below " + nm, lambda q, i=i: cols(q, lambda k: S.ite(k < i(q), colsum(m, k), z))
            yield "column totals of rows below " + nm, lambda q, i=i: cols(q, lambda k: colsum(m, k, i(q)))
            for on, o in outer:
                yield "row totals, row %s up to column %s" % (on, nm), lambda q, i=i, o=o: rows(q, lambda k: S.ite(k < o(q), rowsum(m, k), S.ite(k == o(q), rowsum(m, k, i(q)), z)))
                yield "row totals, column %s up to row %s" % (on, nm), lambda q, i=i, o=o: rows(q, lambda k: S.ite(k < i(q), rowsum(m, k, S.norm(o(q) + 1)), rowsum(m, k, o(q))))
                yield "column totals, row %s up to column %s" % (on, nm), lambda q, i=i, o=o: cols(q, lambda k: S.ite(k < i(q), colsum(m, k, S.norm(o(q) + 1)), colsum(m, k, o(q))))
                yield "column totals, column %s up to row %s" % (on, nm), lambda q, i=i, o=o: cols(q, lambda k: S.ite(k < o(q), colsum(m, k), S.ite(k == o(q), colsum(m, k, i(q)), z)))
    def loop_inv(self, s, L):
        yield from self.partial(L, s)
        yield "length", lambda q: s.st(q)[0].len == self.size(s)
class SumAxis(_Axis):
    """axis 0: column totals, axis 1: row totals"""
    qname = DM + "::sum"; nparams = 2; rowcode = 1
    def modifies(self, s): return [s[1]]
    def requires(self, s): yield from wf(s.this); yield "at least one row", s.this.nrow >= 1
    def throws(self, s): return And(s[0] != 0, s[0] != 1)
    def byrow(self, s): return s[0] == 1
    def post(self, s):
        n = s.new[1]
        yield "one per row or column", n.len == self.size(s)
        yield "totals", S.forall(lambda k: Imp(And(k >= 0, k < self.size(s)), n[k] == self.val(s, k)), 1, pats=lambda k: [n[k]])
    def loop_inv(self, s, L):
        yield from self.partial(L, _Shift(s))
        yield "length", lambda q: s.st(q)[1].len == self.size(s)
class _Shift:
    """the same call with its arguments swapped"""
    def __init__(self, s): self._s = s
    def __getattr__(self, n): return getattr(self._s, n)
    def __getitem__(self, i): return self._s[1 - i]
    def st(self, q): return _Shift(self._s.st(q))
class Mean(_Axis):
    """dim 1: means of the columns, dim 0: means of the rows"""
    qname = DM + "::mean"; rowcode = 0
    def requires(self, s): yield from wf(s.this); yield "known axis", Or(s[1] == 0, s[1] == 1); yield "something to average", self.other(s) >= 1
    def val(self, s, k): return S.rdiv(self.total(s, k), S.toreal(self.other(s)))
    def loop_inv(self, s, L):
        yield from _Axis.loop_inv(self, s, L)
        m = s.this; V = lambda q: s.st(q)[0]; e = s.st(L.entry)[0]
        for nm, i in L.ints:
            yield "divided below " + nm, lambda q, i=i: S.forall(lambda k: V(q)[k] == S.ite(And(k >= 0, k < i(q)), S.rdiv(e[k], S.toreal(self.other(s))), e[k]), 1, pats=lambda k: [V(q)[k]])

class Times(_M):
    """matrix product"""
    qname = DM + "::operator*"; inline = True
    def requires(self, s):
        yield from wf(s.this); yield from (("other " + a, b) for a, b in wf(s[0]))
        yield "columns match rows", s.this.ncol == s[0].nrow
    def prod(self, s, l, c, n=None): return S.Sum(s.this.ncol if n is None else n, lambda r: S.mul(s.this.mat[cell(s.this, l, r)], s[0].mat[cell(s[0], r, c)]), S.R)
    def at(self, s, l, c): return S.norm(S.mul(l, s[0].ncol) + c)
    def all(self, s, n, f):
        return S.forall(lambda l, c: Imp(And(l >= 0, l < s.this.nrow, c >= 0, c < s[0].ncol), n.mat[self.at(s, l, c)] == f(l, c)), 2, pats=lambda l, c: [n.mat[self.at(s, l, c)]])
    def ensures(self, s):
        n = s.ret
        yield "shape", And(n.nrow == s.this.nrow, n.ncol == s[0].ncol)
        yield from wf(n)
        yield "products", self.all(s, n, lambda l, c: self.prod(s, l, c))
    def loop_inv(self, s, L):
        _, outer = loop_vars(L); z = S.rlit(0)
        P = lambda l, c, n=None: self.prod(s, l, c, n)
        for on, m in L.objects(T):
            for nm, i in L.ints:
                yield "%s: rows below %s" % (on, nm), lambda q, m=m, i=i: self.all(s, m(q), lambda l, c: S.ite(l < i(q), P(l, c), z))
                for on1, o in outer:
                    yield "%s: row %s, terms below %s" % (on, on1, nm), lambda q, m=m, i=i, o=o: self.all(s, m(q), lambda l, c: S.ite(l < o(q), P(l, c), S.ite(l == o(q), P(l, c, i(q)), z)))
                    yield "%s: row %s, columns below %s" % (on, on1, nm), lambda q, m=m, i=i, o=o: self.all(s, m(q), lambda l, c: S.ite(Or(l < o(q), And(l == o(q), c < i(q))), P(l, c), z))
                    for on2, o2 in outer:
                        if on2 == on1: continue
                        yield "%s: row %s, term %s, columns below %s" % (on, on1, on2, nm), lambda q, m=m, i=i, o=o, o2=o2: self.all(s, m(q), lambda l, c: S.ite(l < o(q), P(l, c), S.ite(l == o(q), S.ite(c < i(q), P(l, c, S.norm(o2(q) + 1)), P(l, c, o2(q))), z)))
                        yield "%s: row %s, column %s, terms below %s" % (on, on1, on2, nm), lambda q, m=m, i=i, o=o, o2=o2: self.all(s, m(q), lambda l, c: S.ite(Or(l < o(q), And(l == o(q), c < o2(q))), P(l, c), S.ite(And(l == o(q), c == o2(q)), P(l, c, i(q)), z)))
class MinusVec(_M):
    """square matrix minus a vector: element r is subtracted from every element of row r"""
    qname = DM + "::operator-"; sig = "vector"; inline = True
    def requires(self, s): yield from wf(s.this); yield "square", s.this.nrow == s.this.ncol
    def throws(self, s): return s[0].len != s.this.nrow
    def val(self, s, r, c): return s.this.mat[cell(s.this, r, c)] - s[0][r]
    def ensures(self, s):
        n = s.ret; m = s.this
        yield "shape", And(n.nrow == m.nrow, n.ncol == m.ncol)
        yield from wf(n)
        yield "differences", every(m, lambda r, c: n.mat[cell(m, r, c)] == self.val(s, r, c), n)
    def loop_inv(self, s, L):
        m = s.this
        for on, n in L.objects(T):
            for nm, v in order(L, s):
                yield "%s: %s" % (on, nm), lambda q, n=n, v=v: (lambda N, vis: every(m, lambda r, c: N.mat[cell(m, r, c)] == S.ite(vis(r, c), self.val(s, r, c), m.mat[cell(m, r, c)]), N))(n(q), v(q))
class Equal(_M):
    qname = DM + "::operator=="
    def requires(self, s): yield from wf(s.this); yield from (("other " + a, b) for a, b in wf(s[0]))
    def ensures(self, s):
        m, o = s.this, s[0]; shape = And(m.nrow == o.nrow, m.ncol == o.ncol)
        yield "only for the same shape", Imp(s.ret, shape)
        yield "only for the same elements", S.guard(s.ret, flat(m, m, lambda p: o.mat[p]))
        yield "for every equal pair", Or(s.ret, Not(shape), exists(lambda p: And(p >= 0, p < m.mat.len, m.mat[p] != o.mat[p]), lambda p: m.mat[p]))
    def loop_inv(self, s, L):
        for nm, i in L.ints:
            yield "equal below " + nm, lambda q, i=i: S.forall(lambda p: Imp(And(p >= 0, p < i(q)), s.this.mat[p] == s[0].mat[p]), 1, pats=lambda p: [s.this.mat[p]])
class ArgMax(_M):
    """axis 0: for every row its first largest column, axis 1: for every column its first largest row"""
    qname = DM + "::argmax"
    def byrow(self, s): return s[0] == 0
    def requires(self, s):
        m = s.this
        yield from wf(m); yield "something to choose from", And(m.nrow >= 1, m.ncol >= 1)
        yield "elements are doubles", S.forall(lambda p: m.mat[p] >= -S.DBL_MAX, 1, pats=lambda p: [m.mat[p]])
        yield "row and column numbers fit", And(m.nrow < 4294967296, m.ncol < 4294967296)
    def throws(self, s): return And(s[0] != 0, s[0] != 1)
    def modifies(self, s): return [s[1]]
    def post(self, s):
        m = s.this; n = s.new[1]
        yield "one per row or column", n.len == S.ite(self.byrow(s), m.nrow, m.ncol)
        for byrow, ax in ((True, 0), (False, 1)): yield from self.choice(s, m, n, byrow, ax)
    def choice(self, s, m, n, byrow, ax):
        size, other = (m.nrow, m.ncol) if byrow else (m.ncol, m.nrow)
        at = (lambda k, j: m.mat[cell(m, k, j)]) if byrow else (lambda k, j: m.mat[cell(m, j, k)])
        yield "inside, axis %d" % ax, S.guard(s[0] == ax, S.forall(lambda k: Imp(And(k >= 0, k < size), And(n[k] >= 0, n[k] < other)), 1, pats=lambda k: [n[k]]))
        yield "largest, axis %d" % ax, S.guard(s[0] == ax, S.forall(lambda k, j: Imp(And(k >= 0, k < size, j >= 0, j < other), And(at(k, j) <= at(k, n[k]), Imp(j < n[k], at(k, j) < at(k, n[k])))), 2, pats=lambda k, j: [at(k, j)]))
    def loop_inv(self, s, L):
        m = s.this; I_ = lambda q: s.st(q)[1]; low = S.norm(-S.DBL_MAX)
        _, outer = loop_vars(L)
        lens = [str(v(L.entry).len) for _, v in L.vectors(S.R)]
        only = [b for b in (True, False) if str(m.nrow if b else m.ncol) in lens] or [True, False]
        for byrow in only: yield from self.lines(s, L, m, I_, low, outer, byrow)
    def lines(self, s, L, m, I_, low, outer, byrow):
            ax = "row" if byrow else "column"; size, other = (m.nrow, m.ncol) if byrow else (m.ncol, m.nrow)
            at = (lambda k, j: m.mat[cell(m, k, j)]) if byrow else (lambda k, j: m.mat[cell(m, j, k)])
            yield "%s: sizes" % ax, lambda q, size=size: I_(q).len == size
            for vn, v in L.vectors(S.R):
                for nm, i in L.ints:
                    outs = [("done below " + nm, lambda q, i=i: lambda k: S.ite(k < i(q), other, S.lit(0))), ("examined below " + nm, lambda q, i=i: lambda k: i(q))]
                    outs = [("done below " + nm, (lambda i, other: lambda q: lambda k: S.ite(k < i(q), other, S.lit(0)))(i, other)), ("examined below " + nm, (lambda i: lambda q: lambda k: i(q))(i))]
                    for on, o in outer:
                        outs.append(("lines below %s at %s" % (nm, on), (lambda i, o: lambda q: lambda k: S.ite(k < i(q), S.norm(o(q) + 1), o(q)))(i, o)))
                        outs.append(("lines before " + on, (lambda o, other: lambda q: lambda k: S.ite(k < o(q), other, S.lit(0)))(o, other)))
                        cur = (lambda i, o, size, at, v: lambda q: (o(q), i(q), v(q), I_(q)))(i, o, size, at, v)
                        yield "%s %s line %s up to %s: choice" % (ax, vn, on, nm), (lambda cur, at: lambda q: (lambda k, n, v, I: Or(And(I[k] == 0, v[k] == low), And(I[k] >= 0, I[k] < n, v[k] == at(k, I[k]))))(*cur(q)))(cur, at)
                        yield "%s %s line %s up to %s: bound" % (ax, vn, on, nm), (lambda cur, at: lambda q: (lambda k, n, v, I: S.forall(lambda j: Imp(And(j >= 0, j < n), And(at(k, j) <= v[k], Imp(j < I[k], at(k, j) < v[k]))), 1, pats=lambda j: [at(k, j)]))(*cur(q)))(cur, at)
                        yield "%s %s lines after %s" % (ax, vn, on), (lambda cur, size: lambda q: (lambda o, n, v, I: S.forall(lambda k: Imp(And(k > o, k < size), And(I[k] == 0, v[k] == low)), 1, pats=lambda k: [I[k]]))(*cur(q)))(cur, size)
                        yield "%s %s lines before %s: choice" % (ax, vn, on), (lambda cur, at: lambda q: (lambda o, n, v, I: S.forall(lambda k: Imp(And(k >= 0, k < o), Or(And(I[k] == 0, v[k] == low), And(I[k] >= 0, I[k] < other, v[k] == at(k, I[k])))), 1, pats=lambda k: [I[k]]))(*cur(q)))(cur, at)
                        yield "%s %s lines before %s: bound" % (ax, vn, on), (lambda cur, at: lambda q: (lambda o, n, v, I: S.forall(lambda k, j: Imp(And(k >= 0, k < o, j >= 0, j < other), And(at(k, j) <= v[k], Imp(j < I[k], at(k, j) < v[k]))), 2, pats=lambda k, j: [at(k, j)]))(*cur(q)))(cur, at)
                    outs = [x for x in outs if not x[0].startswith("lines before")]
                    for what, seen in outs:
                        yield "%s %s %s: choice" % (ax, vn, what), (lambda seen, size, at, v: lambda q: S.forall(lambda k: Imp(And(k >= 0, k < size), Or(And(I_(q)[k] == 0, v(q)[k] == low), And(I_(q)[k] >= 0, I_(q)[k] < seen(q)(k), v(q)[k] == at(k, I_(q)[k])))), 1, pats=lambda k: [I_(q)[k]]))(seen, size, at, v)
                        yield "%s %s %s: bound" % (ax, vn, what), (lambda seen, size, at, v: lambda q: S.forall(lambda k, j: Imp(And(k >= 0, k < size, j >= 0, j < seen(q)(k)), And(at(k, j) <= v(q)[k], Imp(j < I_(q)[k], at(k, j) < v(q)[k]))), 2, pats=lambda k, j: [at(k, j)]))(seen, size, at, v)
                yield "%s %s length" % (ax, vn), (lambda size, v: lambda q: v(q).len == size)(size, v)
CONTRACTS = [Ctor, Ctor0, Create, CreateCopy, SetAll, SetRow, Get, SetCell, Peq, Zero, Resize, CopyFrom, PlusEq, DivScalar, PowEq, MinusMat, PlusMat, MinusVec, Times, DivEq, DivEqPow, DivVec, SumAll, SumAxis, Mean, Frob, Equal, ArgMax]
