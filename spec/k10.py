"""K10: vector and small-matrix helpers."""
import z3, itertools
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from .k09 import T, cell, wf
LA = "knor::base::linalg"

# ------------------------------------------------------------------ determinants
# a matrix code c stands for an arbitrary real matrix: elt(c,i,j) its elements, mn(c,r,f) its minor without row r and column f
elt = z3.Function("elt", S.I, S.I, S.I, S.R)
mn = z3.Function("mn", S.I, S.I, S.I, S.I)
det = z3.Function("det", S.I, S.I, S.R)
sgn = z3.Function("sgn", S.I, S.R)
term = z3.Function("term", S.I, S.I, S.I, S.R)
def skip(i, p): return S.norm(i + S.ite(i >= p, S.lit(1), S.lit(0)))
def sub(c, r, f, i, j): return elt(c, skip(i, r), skip(j, f))
def theory(c):
    """the textbook definition, for the matrix c: expansion along the first row"""
    yield "definition of minors", S.forall(lambda x, r, f, i, j: elt(mn(x, r, f), i, j) == S.ite(i >= r, S.ite(j >= f, elt(x, i + 1, j + 1), elt(x, i + 1, j)), S.ite(j >= f, elt(x, i, j + 1), elt(x, i, j))), 5, pats=lambda x, r, f, i, j: [elt(mn(x, r, f), i, j)])
    yield "definition of signs", S.forall(lambda k: Imp(k >= 0, sgn(k) == S.ite(k % 2 == 0, S.rlit(1), S.rlit(-1))), 1, pats=lambda k: [sgn(k)])
def expansion(c, n): return S.Sum(n, lambda f: term(c, n, f), S.R)
def det_def(c, n):    # the product of the three factors, written in every order
    yield "definition of terms", S.forall(lambda f: And(*[term(c, n, f) == S.rmul(x, S.rmul(y, z)) for x, y, z in itertools.permutations((sgn(f), elt(c, S.lit(0), f), det(mn(c, S.lit(0), f), S.norm(n - 1))))]), 1, pats=lambda f: [term(c, n, f)])
    yield "definition of the determinant", det(c, n) == S.ite(n == 1, elt(c, S.lit(0), S.lit(0)), expansion(c, n))
def holds(a, N, c, n, i, j): return Imp(And(i >= 0, i < n, j >= 0, j < n), a[S.norm(S.mul(i, N) + j)] == elt(c, i, j))
def is_code(a, N, c, n): return S.forall(lambda i, j: holds(a, N, c, n, i, j), 2, pats=lambda i, j: [a[S.norm(S.mul(i, N) + j)], elt(c, i, j)])
def is_code_near(a, N, c, n):
    """the same precondition, instantiated next to the elements of the minors"""
    return S.forall(lambda r, f, i, j: And(*[holds(a, N, c, n, S.norm(i + x), S.norm(j + y)) for x in (0, 1) for y in (0, 1)]), 4, pats=lambda r, f, i, j: [elt(mn(c, r, f), i, j)])
def each_code(a, N, n, fn, pats):
    """for every matrix code whose elements are those of the n x n block at a"""
    w = [z3.Function(S.fresh_name("w"), S.I, S.I) for _ in "ij"]
    return S.forall(lambda c: Imp(holds(a, N, c, n, w[0](c), w[1](c)), fn(c)), 1, pats=pats)
def code(s):
    if not hasattr(s.ex, "k10_code"): s.ex.k10_code = S.fresh(S.I, "matrix")
    return s.ex.k10_code

class Cofactor(Contract):
    """the minor without row p and column q, written to the top left of temp"""
    qname = LA + "::getCofactor"
    def p(self, s): return z3.ToInt(s[2])
    def n(self, s): return z3.ToInt(s[4])
    def requires(self, s):
        p, q, n, N = self.p(s), s[3], self.n(s), s[5]
        yield "whole row number and size", And(s[2] == z3.ToReal(p), s[4] == z3.ToReal(n))
        yield "row and column inside", And(p >= 0, p < n, q >= 0, q < n)
        yield "block inside the matrix", n <= N
        yield "matrix holds N*N elements", fits(s[0], S.mul(N, N)); yield "result holds N*N elements", fits(s[1], S.mul(N, N))
    def modifies(self, s): return [s[1].region()]
    def at(self, s, i, j): return S.norm(S.mul(i, s[5]) + j)
    def minor(self, s, t, cnt):
        """t(position): the elements of the minor that precede the first cnt(i) of row i are in place"""
        p, q = self.p(s), s[3]
        return S.forall(lambda i, j: Imp(And(i >= 0, j >= 0, j < S.norm(self.n(s) - 1), cnt(i, j)), t(self.at(s, i, j)) == S.ite(i >= p, S.ite(j >= q, s[0][self.at(s, i + 1, j + 1)], s[0][self.at(s, i + 1, j)]), S.ite(j >= q, s[0][self.at(s, i, j + 1)], s[0][self.at(s, i, j)]))), 2, pats=lambda i, j: [t(self.at(s, i, j))])
    def ensures(self, s):
        n = self.n(s); t = s.new[1]
        yield "minor", self.minor(s, lambda k: t[k], lambda i, j: i < S.norm(n - 1))
        yield "temp keeps its size", t.cap == s[1].cap
    def loop_inv(self, s, L):
        p, q, n = self.p(s), s[3], self.n(s); ints, outer = loop_vars(L)
        nn = S.norm(n - 1)
        rows = lambda row: S.ite(row > p, S.norm(row - 1), row)
        T = lambda st: (lambda k: s.st(st)[1][k])
        every = [(a, b) for a, b in ints] + [(a, b) for a, b in outer]
        for an, a in every:
            yield "%s within the block" % an, lambda st, a=a: And(a(st) >= 0, a(st) <= n)
            for bn, b in every:
                if a is b: continue
                yield "%s counts the rows taken below %s" % (an, bn), lambda st, a=a, b=b: a(st) == rows(b(st))
                for cn, c in every:
                    if c is a or c is b: continue
                    taken = lambda st, b=b, c=c: S.ite(b(st) == p, S.lit(0), S.ite(c(st) > q, S.norm(c(st) - 1), c(st)))
                    yield "%s is the next row at (%s,%s)" % (an, bn, cn), lambda st, a=a, b=b, taken=taken: a(st) == S.ite(And(b(st) != p, taken(st) == nn), S.norm(rows(b(st)) + 1), rows(b(st)))
                    yield "%s is the next column at (%s,%s)" % (an, bn, cn), lambda st, a=a, taken=taken: a(st) == S.ite(taken(st) == nn, S.lit(0), taken(st))
                    yield "minor filled up to (%s,%s)" % (bn, cn), lambda st, b=b, c=c, taken=taken: self.minor(s, T(st), lambda i, j: Or(i < rows(b(st)), And(i == rows(b(st)), j < taken(st))))
            yield "%s is back at the first column" % an, lambda st, a=a: a(st) == 0
            yield "minor filled below %s" % an, lambda st, a=a: self.minor(s, T(st), lambda i, j: i < rows(a(st)))

class Determinant(Contract):
    """expansion along the first row; the recursive call is on a smaller size"""
    qname = LA + "::determinant"; recursive = True
    def requires(self, s):
        yield "size", And(s[1] >= 1, s[1] <= s[2]); yield "matrix holds N*N elements", fits(s[0], S.mul(s[2], s[2]))
        if s.root:
            c = code(s); yield "the matrix has a code", is_code(s[0], s[2], c, s[1]); yield "the matrix has a code", is_code_near(s[0], s[2], c, s[1])
            yield "the matrix has a code", S.forall(lambda j: holds(s[0], s[2], c, s[1], S.lit(0), j), 1, pats=lambda j: [elt(c, S.lit(0), j)])
            yield from theory(c); yield from det_def(c, s[1])
        elif s.ex.root_contract is self: yield "smaller size at the recursive call", s[1] < s.ex.root_spec[1]
    def ensures(self, s):
        if s.root: yield "determinant", s.ret == det(code(s), s[1])
        else: yield "determinant", each_code(s[0], s[2], s[1], lambda c: s.ret == det(c, s[1]), lambda c: [det(c, s[1])])
    def loop_inv(self, s, L):
        c = code(s)
        yield from sums(L, [("terms", lambda f: term(c, s[1], f))])
        for rn, r in L.reals:
            for nm, i in L.ints: yield "%s is the sign of %s" % (rn, nm), lambda q, r=r, i=i: r(q) == sgn(i(q))

adjv = z3.Function("adjv", S.I, S.I, S.I, S.I, S.R)
def adj_def(c, N):
    """transposed cofactors; the adjoint of a 1 x 1 matrix is 1"""
    yield "definition of the adjoint", S.forall(lambda i, j: adjv(c, N, i, j) == S.ite(N == 1, S.rlit(1), S.mul(sgn(S.norm(i + j)), det(mn(c, j, i), S.norm(N - 1)))), 2, pats=lambda i, j: [adjv(c, N, i, j)])
def adj_code(s, m, N):
    yield "the matrix has a code", is_code(m, N, code(s), N); yield "the matrix has a code", is_code_near(m, N, code(s), N)
    yield from theory(code(s)); yield from adj_def(code(s), N)
def adj_is(s, m, a, N):
    """a holds the adjoint of the matrix at m"""
    at = lambda i, j: a[S.norm(S.mul(i, N) + j)]; here = lambda i, j: And(i >= 0, i < N, j >= 0, j < N)
    if s.root:
        c = code(s); return S.forall(lambda i, j: Imp(here(i, j), at(i, j) == adjv(c, N, i, j)), 2, pats=lambda i, j: [at(i, j), adjv(c, N, i, j)])
    w = [z3.Function(S.fresh_name("w"), S.I, S.I) for _ in "ij"]
    return S.forall(lambda c, i, j: Imp(And(holds(m, N, c, N, w[0](c), w[1](c)), here(i, j)), at(i, j) == adjv(c, N, i, j)), 3, pats=lambda c, i, j: [adjv(c, N, i, j)])
class Adjoint(Contract):
    qname = LA + "::adjoint"; nparams = 3
    def requires(self, s):
        N = s[2]
        yield "size", N >= 1; yield "matrix holds N*N elements", fits(s[0], S.mul(N, N)); yield "result holds N*N elements", fits(s[1], S.mul(N, N))
        if s.root: yield from adj_code(s, s[0], N)
    def modifies(self, s): return [s[1].region()]
    def ensures(self, s):
        yield "result keeps its size", s.new[1].cap == s[1].cap
        yield "cofactors", adj_is(s, s[0], s.new[1], s[2])
    def loop_inv(self, s, L):
        c = code(s); N = s[2]
        def all(q, seen):
            a = s.st(q)[1]; return S.forall(lambda i, j: Imp(And(i >= 0, i < N, j >= 0, j < N, seen(i, j)), a[S.norm(S.mul(i, N) + j)] == adjv(c, N, i, j)), 2, pats=lambda i, j: [a[S.norm(S.mul(i, N) + j)]])
        yield from corners(L, all)
def corners(L, all):
    """the element (i, j) of an N x N result is in place; seen(i, j) for two nested loops over rows and columns, either way round"""
    ints, outer = loop_vars(L)
    for nm, v in ints:
        yield "rows below " + nm, lambda q, v=v: all(q, lambda i, j: i < v(q))
        yield "columns below " + nm, lambda q, v=v: all(q, lambda i, j: j < v(q))
        for on, o in outer:
            yield "row %s up to %s" % (on, nm), lambda q, v=v, o=o: all(q, lambda i, j: Or(i < o(q), And(i == o(q), j < v(q))))
            yield "column %s up to %s" % (on, nm), lambda q, v=v, o=o: all(q, lambda i, j: Or(j < o(q), And(j == o(q), i < v(q))))
class AdjointM(Contract):
    """the same, returned as a new matrix"""
    qname = LA + "::adjoint"; nparams = 1
    def requires(self, s):
        m = s[0]; N = m.nrow
        yield from wf(m); yield "square", m.nrow == m.ncol; yield "size", N >= 1
        if s.root: yield from adj_code(s, m.mat, N)
    def ensures(self, s):
        m = s[0]; N = m.nrow; n = s.ret
        yield "shape", And(n.nrow == N, n.ncol == N)
        yield from wf(n)
        yield "cofactors", adj_is(s, m.mat, n.mat, N)
class Inverse(Contract):
    """adjoint over determinant; a singular matrix is reported and leaves the result alone"""
    qname = LA + "::inverse"
    def requires(self, s):
        N = s[2]; c = code(s)
        yield "size", N >= 1; yield "matrix holds N*N elements", fits(s[0], S.mul(N, N)); yield "result holds N*N elements", fits(s[1], S.mul(N, N))
        if s.root: yield from adj_code(s, s[0], N); yield from det_def(c, N)
    def modifies(self, s): return [s[1].region()]
    def ensures(self, s):
        N = s[2]; a = s.new[1]
        yield "result keeps its size", a.cap == s[1].cap
        at = lambda i, j: a[S.norm(S.mul(i, N) + j)]; here = lambda i, j: And(i >= 0, i < N, j >= 0, j < N)
        yield "singular leaves the result", S.guard(Not(s.ret), S.forall(lambda k: a[k] == s[1][k], 1, pats=lambda k: [a[k]]))
        if s.root:
            c = code(s)
            yield "singular", s.ret == (det(c, N) != 0)
            yield "inverse", S.guard(s.ret, S.forall(lambda i, j: Imp(here(i, j), at(i, j) == S.rdiv(adjv(c, N, i, j), det(c, N))), 2, pats=lambda i, j: [at(i, j)]))
        else:
            w = [z3.Function(S.fresh_name("w"), S.I, S.I) for _ in "ij"]
            same = lambda c: holds(s[0], N, c, N, w[0](c), w[1](c))
            yield "singular", S.forall(lambda c: Imp(same(c), s.ret == (det(c, N) != 0)), 1, pats=lambda c: [det(c, N)])
            yield "inverse", S.guard(s.ret, S.forall(lambda c, i, j: Imp(And(same(c), here(i, j)), at(i, j) == S.rdiv(adjv(c, N, i, j), det(c, N))), 3, pats=lambda c, i, j: [adjv(c, N, i, j)]))
    def loop_inv(self, s, L):
        N = s[2]; c = code(s)
        def all(q, seen):
            a = s.st(q)[1]; return S.forall(lambda i, j: Imp(And(i >= 0, i < N, j >= 0, j < N, seen(i, j)), a[S.norm(S.mul(i, N) + j)] == S.rdiv(adjv(c, N, i, j), det(c, N))), 2, pats=lambda i, j: [a[S.norm(S.mul(i, N) + j)]])
        yield from corners(L, all)

# ------------------------------------------------------------------ vectors
class Peq(Contract):
    qname = LA + "::peq"
    def requires(self, s): yield "sizes", And(fits(s[0], s[2]), fits(s[1], s[2]))
    def modifies(self, s): return [s[0].region()]
    def val(self, s, p): return s[0][p] + s[1][p]
    def ensures(self, s): yield "sums", S.forall(lambda p: s.new[0][p] == S.ite(And(p >= 0, p < s[2]), self.val(s, p), s[0][p]), 1, pats=lambda p: [s.new[0][p]]); yield "length", s.new[0].cap == s[0].cap
    def loop_inv(self, s, L): yield from sweep(L, lambda q: (lambda p: s.st(q)[0][p]), S.lit(0), s[2], lambda p: self.val(s, p), "sums")
class _Fill(Contract):
    """fills a result vector: an empty one is sized, elements past the input's length stay"""
    out = 0
    def n(self, s): return s[0].len
    def requires(self, s): yield "result empty or large enough", Or(s[self.out].len == 0, s[self.out].len >= self.n(s))
    def modifies(self, s): return [s[self.out]]
    def ensures(self, s):
        r, n = s.new[self.out], self.n(s)
        yield "length", r.len == S.ite(s[self.out].len == 0, n, s[self.out].len)
        yield "values", S.forall(lambda p: Imp(And(p >= 0, p < n), r[p] == self.val(s, p)), 1, pats=lambda p: [r[p]])
        yield "the rest is kept", S.forall(lambda p: Imp(And(p >= n, p < r.len), r[p] == s[self.out][p]), 1, pats=lambda p: [r[p]])
    def loop_inv(self, s, L):
        r = lambda q: s.st(q)[self.out]; n = self.n(s)
        e = r(L.entry)
        for nm, i in L.ints:
            yield "filled below " + nm, lambda q, i=i: S.forall(lambda p: Imp(And(p >= 0, p < i(q)), r(q)[p] == self.val(s, p)), 1, pats=lambda p: [r(q)[p]])
            yield "as long as " + nm, lambda q, i=i: r(q).len == i(q)
            yield "kept from " + nm, lambda q, i=i: S.forall(lambda p: Imp(p >= i(q), r(q)[p] == e[p]), 1, pats=lambda p: [r(q)[p]])
        yield "length kept", lambda q: r(q).len == e.len
class Vdiff(_Fill):
    qname = LA + "::vdiff"; out = 3
    def n(self, s): return s[2]
    def requires(self, s): yield from _Fill.requires(self, s); yield "sizes", And(fits(s[0], s[2]), fits(s[1], s[2]))
    def val(self, s, p): return s[0][p] - s[1][p]
class ScaleBy(_Fill):
    qname = LA + "::scale"; nparams = 3; out = 2
    def val(self, s, p): return S.mul(s[0][p], s[1])
class Pow(_Fill):
    qname = LA + "::pow"; out = 1
    def val(self, s, p): return S.rpow(s[0][p], s[2])
class Frob(Contract):
    qname = LA + "::frobenius_norm"
    def requires(self, s): yield "size", fits(s[0], s[1])
    def ensures(self, s): yield "root of the sum of squares", s.ret == S.sqrt(S.Sum(s[1], lambda p: sq(s[0][p]), S.R))
    def loop_inv(self, s, L): yield from sums(L, [("squares", lambda p: sq(s[0][p]))])
class DotPtr(Contract):
    qname = LA + "::dot"; nparams = 3
    def requires(self, s): yield "sizes", And(fits(s[0], s[2]), fits(s[1], s[2]))
    def ensures(self, s): yield "sum of products", s.ret == dot(lambda p: s[0][p], lambda p: s[1][p], s[2])
    def loop_inv(self, s, L): yield from sums(L, [("products", lambda p: S.mul(s[0][p], s[1][p]))])
class DotVec(Contract):
    qname = LA + "::dot"; nparams = 2
    def requires(self, s): yield "same length", s[0].len == s[1].len
    def ensures(self, s): yield "sum of products", s.ret == dot(lambda p: s[0][p], lambda p: s[1][p], s[0].len)
class DotMat(Contract):
    """row vector times matrix"""
    qname = LA + "::dot"; nparams = 5
    def requires(self, s): yield "sizes", And(fits(s[0], s[2]), fits(s[1], S.mul(s[2], s[3])))
    def modifies(self, s): return [s[4]]
    def total(self, s, c, n=None): return S.Sum(s[2] if n is None else n, lambda r: S.mul(s[0][r], s[1][S.norm(S.mul(r, s[3]) + c)]), S.R)
    def all(self, s, v, f): return S.forall(lambda c: Imp(And(c >= 0, c < s[3]), v[c] == f(c)), 1, pats=lambda c: [v[c]])
    def ensures(self, s):
        v = s.new[4]
        yield "one per column", v.len == s[3]
        yield "sums of products", self.all(s, v, lambda c: self.total(s, c))
    def loop_inv(self, s, L):
        V = lambda q: s.st(q)[4]; ints, outer = loop_vars(L); z = S.rlit(0)
        yield "length", lambda q: V(q).len == s[3]
        for nm, i in ints:
            yield "columns below " + nm, lambda q, i=i: self.all(s, V(q), lambda c: S.ite(c < i(q), self.total(s, c), z))
            yield "rows below " + nm, lambda q, i=i: self.all(s, V(q), lambda c: self.total(s, c, i(q)))
            for on, o in outer:
                yield "row %s up to column %s" % (on, nm), lambda q, i=i, o=o: self.all(s, V(q), lambda c: S.ite(c < i(q), self.total(s, c, S.norm(o(q) + 1)), self.total(s, c, o(q))))
                yield "column %s up to row %s" % (on, nm), lambda q, i=i, o=o: self.all(s, V(q), lambda c: S.ite(c < o(q), self.total(s, c), S.ite(c == o(q), self.total(s, c, i(q)), z)))
class Standardise(Contract):
    """zero mean, unit deviation"""
    qname = LA + "::scale"; nparams = 2
    def mean(self, s): return S.rdiv(S.Sum(s[1], lambda p: s[0][p], S.R), S.toreal(s[1]))
    def sd(self, s): m = self.m(s); return S.sqrt(S.rdiv(S.Sum(s[1], lambda p: sq(s[0][p] - m), S.R), S.toreal(s[1])))
    def m(self, s): return self.mean(s)
    def requires(self, s):
        yield "size", And(s[1] >= 1, fits(s[0], s[1]))
        yield "not constant", self.sd(s) != 0
    def modifies(self, s): return [s[0].region()]
    def val(self, s, p): return S.rdiv(S.norm(s[0][p] - self.m(s)), self.sd(s))
    def ensures(self, s): yield "standardised", S.forall(lambda p: s.new[0][p] == S.ite(And(p >= 0, p < s[1]), self.val(s, p), s[0][p]), 1, pats=lambda p: [s.new[0][p]])
    def loop_inv(self, s, L):
        m = self.m(s)
        yield from sums(L, [("squared deviations", lambda p: sq(s[0][p] - m)), ("elements", lambda p: s[0][p])])
        yield from sweep(L, lambda q: (lambda p: s.st(q)[0][p]), S.lit(0), s[1], lambda p: self.val(s, p), "standardised")
        for rn, r in L.reals: yield "%s is the mean" % rn, lambda q, r=r: r(q) == m
CONTRACTS = [Cofactor, Determinant, Adjoint, AdjointM, Inverse, Peq, Vdiff, ScaleBy, Pow, Frob, DotPtr, DotVec, DotMat, Standardise]
