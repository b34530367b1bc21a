"""K06: cluster accumulator algebra."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.view import View
from .lib import *

CL = "knor::base::clusters"
def wf(c):
    """shape of a cluster accumulator"""
    yield "means sized nclust*ncol", c.means.len == S.mul(c.nclust, c.ncol)
    yield "counts sized nclust", c.num_members_v.len == c.nclust
    yield "flags sized nclust", c.complete_v.len == c.nclust

def means(c): return lambda p: c.means[p]
def fa_means(new, val):
    """every coordinate p of the new means equals val(p)"""
    m = new.means
    return S.forall(lambda p: m[p] == val(p), 1, pats=lambda p: [m[p]])

class _Cl(Contract):
    thisty = CL
    def requires(self, s): yield from wf(s.this)
    def ensures(self, s):
        yield from self.post(s)
        for nm, f in wf(s.new.this): yield nm, f

def row(s, idx): return S.mul(idx, s.this.ncol)
def in_row(s, idx, p): return And(p >= row(s, idx), p < S.norm(row(s, idx) + s.this.ncol))

class _Member(_Cl):
    """means[idx*ncol+i] op= arr[i], counts[idx] += d"""
    sign = 1
    def requires(self, s):
        yield from wf(s.this)
        yield "cluster id valid", And(s[1] >= 0, s[1] < s.this.nclust)
        yield "member has ncol coordinates", fits(s[0], s.this.ncol)
    def val(self, s, p):
        x = s[0][S.norm(p - row(s, s[1]))]
        return s.this.means[p] + x if self.sign > 0 else s.this.means[p] - x
    def modifies(self, s): return [s.this.means, s.this.num_members_v.at(s[1])]
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "coordinates", S.forall(lambda p: n.means[p] == S.ite(in_row(s, s[1], p), self.val(s, p), o.means[p]), 1, pats=lambda p: [n.means[p]])
        yield "count", n.num_members_v[s[1]] == o.num_members_v[s[1]] + self.sign
        yield "length", n.means.len == o.means.len
    def loop_inv(self, s, L):
        yield from sweep(L, lambda q: means(s.st(q).this), row(s, s[1]), s.this.ncol, lambda p: self.val(s, p), "means")

class AddMember(_Member):
    qname = CL + "::add_member"; sig = "const double *"
class RemoveMember(_Member):
    qname = CL + "::remove_member"; sig = "const double *"; sign = -1

class SwapMembership(_Cl):
    qname = CL + "::swap_membership"; sig = "const double *"
    def requires(self, s):
        yield from wf(s.this)
        yield "from valid", And(s[1] >= 0, s[1] < s.this.nclust)
        yield "to valid", And(s[2] >= 0, s[2] < s.this.nclust)
        yield "distinct clusters", s[1] != s[2]
        yield "member has ncol coordinates", fits(s[0], s.this.ncol)
    def modifies(self, s): return [s.this.means, s.this.num_members_v]
    def post(self, s):
        o, n = s.old.this, s.new.this
        f, t = s[1], s[2]
        yield "coordinates", S.forall(lambda p: n.means[p] == S.ite(in_row(s, f, p), o.means[p] - s[0][S.norm(p - row(s, f))],
            S.ite(in_row(s, t, p), o.means[p] + s[0][S.norm(p - row(s, t))], o.means[p])), 1, pats=lambda p: [n.means[p]])
        yield "counts", S.forall(lambda c: n.num_members_v[c] == S.ite(c == f, o.num_members_v[c] - 1, S.ite(c == t, o.num_members_v[c] + 1, o.num_members_v[c])),
            1, pats=lambda c: [n.num_members_v[c]])
        yield "lengths", And(n.means.len == o.means.len, n.num_members_v.len == o.num_members_v.len)
    def loop_inv(self, s, L):
        o = s.this
        e = s.st(L.entry).this
        arr = lambda q: means(s.st(q).this)
        yield from sweep(L, arr, row(s, s[1]), o.ncol, lambda p: e.means[p] - s[0][S.norm(p - row(s, s[1]))], "means from")
        yield from sweep(L, arr, row(s, s[2]), o.ncol, lambda p: e.means[p] + s[0][S.norm(p - row(s, s[2]))], "means to")

class Clear(_Cl):
    qname = CL + "::clear"
    def modifies(self, s): return [s.this.means, s.this.num_members_v, s.this.complete_v]
    def post(self, s):
        o, n = s.old.this, s.new.this
        k = o.nclust
        yield "sums zero", allj(o.means.len, lambda p: n.means[p] == 0, pats=lambda p: [n.means[p]])
        yield "counts zero", allj(k, lambda p: n.num_members_v[p] == 0, pats=lambda p: [n.num_members_v[p]])
        yield "not complete", allj(k, lambda p: S.Not(n.complete_v[p]), pats=lambda p: [n.complete_v[p]])
    def loop_inv(self, s, L):
        t = s.this
        yield from sweep(L, lambda q: means(s.st(q).this), S.lit(0), t.means.len, lambda p: S.rlit(0), "means")
        yield from sweep(L, lambda q: (lambda p: s.st(q).this.num_members_v[p]), S.lit(0), t.nclust, lambda p: S.lit(0), "counts")
        yield from sweep(L, lambda q: (lambda p: s.st(q).this.complete_v[p]), S.lit(0), t.nclust, lambda p: z3.BoolVal(False), "flags")

def fin(s, c, p):
    """coordinate p of cluster c after finalising"""
    o = s.this
    return S.ite(And(S.Not(o.complete_v[c]), o.num_members_v[c] > 1), S.rdiv(o.means[p], S.toreal(o.num_members_v[c])), o.means[p])
def unfin(s, c, p):
    o = s.this
    return S.ite(And(o.complete_v[c], o.num_members_v[c] > 1), S.mul(o.means[p], S.toreal(o.num_members_v[c])), o.means[p])

class Finalize(_Cl):
    qname = CL + "::finalize"
    flag = True; op = staticmethod(fin)
    def requires(self, s):
        yield from wf(s.this)
        yield "cluster id valid", And(s[0] >= 0, s[0] < s.this.nclust)
    def modifies(self, s): return [s.this.means, s.this.complete_v.at(s[0])]
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "coordinates", S.forall(lambda p: n.means[p] == S.ite(in_row(s, s[0], p), self.op(s, s[0], p), o.means[p]), 1, pats=lambda p: [n.means[p]])
        yield "flag", n.complete_v[s[0]] == z3.BoolVal(self.flag)
        yield "length", n.means.len == o.means.len
    def loop_inv(self, s, L):
        o = s.this
        c = S.toreal(o.num_members_v[s[0]])
        if self.flag: val = lambda p: S.rdiv(o.means[p], c)
        else: val = lambda p: S.mul(o.means[p], c)
        yield from sweep(L, lambda q: means(s.st(q).this), row(s, s[0]), o.ncol, val, "means")

class Unfinalize(Finalize):
    qname = CL + "::unfinalize"; flag = False; op = staticmethod(unfin)

class FinalizeAll(_Cl):
    qname = CL + "::finalize_all"; flag = True; op = staticmethod(fin)
    def modifies(self, s): return [s.this.means, s.this.complete_v]
    def at(self, s, c, j): return S.norm(S.mul(c, s.this.ncol) + j)
    def rows(self, s, st, lo, hi):
        n = s.st(st).this
        return S.forall(lambda c, j: Imp(And(c >= lo, c < hi, j >= 0, j < s.this.ncol), n.means[self.at(s, c, j)] == self.op(s, c, self.at(s, c, j))),
                        2, pats=lambda c, j: [n.means[self.at(s, c, j)]])
    def rest(self, s, st, lo):
        n = s.st(st).this
        return S.forall(lambda c, j: Imp(And(c >= lo, j >= 0, j < s.this.ncol), n.means[self.at(s, c, j)] == s.this.means[self.at(s, c, j)]),
                        2, pats=lambda c, j: [n.means[self.at(s, c, j)]])
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "coordinates", self.rows(s, s._new, S.lit(0), o.nclust)
        yield "flags", allj(o.nclust, lambda c: n.complete_v[c] == z3.BoolVal(self.flag), pats=lambda c: [n.complete_v[c]])
        yield "lengths", And(n.means.len == o.means.len, n.complete_v.len == o.complete_v.len)
    def loop_inv(self, s, L):
        for nm, i in L.ints:
            yield "clusters below %s done" % nm, lambda q, i=i: self.rows(s, q, S.lit(0), i(q))
            yield "clusters from %s untouched" % nm, lambda q, i=i: self.rest(s, q, i(q))
            yield "flags below %s" % nm, lambda q, i=i: allj(i(q), lambda c: s.st(q).this.complete_v[c] == z3.BoolVal(self.flag), pats=lambda c: [s.st(q).this.complete_v[c]])
            yield "flags from %s untouched" % nm, lambda q, i=i: S.forall(lambda c: Imp(c >= i(q), s.st(q).this.complete_v[c] == s.this.complete_v[c]), 1, pats=lambda c: [s.st(q).this.complete_v[c]])
        yield "length kept", lambda q: And(s.st(q).this.means.len == s.this.means.len, s.st(q).this.complete_v.len == s.this.complete_v.len)

class UnfinalizeAll(FinalizeAll):
    qname = CL + "::unfinalize_all"; flag = False; op = staticmethod(unfin)

class _Plus(_Cl):
    """element-wise sum with another accumulator of the same shape"""
    def other(self, s): return s[0]
    def requires(self, s):
        yield from wf(s.this)
        r = self.other(s)
        yield from wf(r)
        yield "same shape", And(r.nclust == s.this.nclust, r.ncol == s.this.ncol)
    def modifies(self, s): return [s.this.means, s.this.num_members_v]
    def post(self, s):
        o, n = s.old.this, s.new.this; r = self.other(s)
        yield "sums", allj(o.means.len, lambda p: n.means[p] == o.means[p] + r.means[p], pats=lambda p: [n.means[p]])
        yield "counts", allj(o.nclust, lambda c: n.num_members_v[c] == o.num_members_v[c] + r.num_members_v[c], pats=lambda c: [n.num_members_v[c]])
        yield "lengths", And(n.means.len == o.means.len, n.num_members_v.len == o.num_members_v.len)
    def loop_inv(self, s, L):
        o = s.this; r = self.other(s)
        yield from sweep(L, lambda q: means(s.st(q).this), S.lit(0), o.means.len, lambda p: o.means[p] + r.means[p], "means")
        yield from sweep(L, lambda q: (lambda p: s.st(q).this.num_members_v[p]), S.lit(0), o.nclust, lambda p: o.num_members_v[p] + r.num_members_v[p], "counts")

class Peq(_Plus):
    qname = CL + "::peq"
class PlusEq(_Plus):
    qname = CL + "::operator+="
    def returns(self, s): return s.this

class MeansPeq(_Cl):
    qname = CL + "::means_peq"
    def requires(self, s):
        yield from wf(s.this)
        yield "argument covers all coordinates", fits(s[0], s.this.means.len)
    def modifies(self, s): return [s.this.means]
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "sums", allj(o.means.len, lambda p: n.means[p] == o.means[p] + s[0][p], pats=lambda p: [n.means[p]])
        yield "length", n.means.len == o.means.len
    def loop_inv(self, s, L):
        o = s.this
        yield from sweep(L, lambda q: means(s.st(q).this), S.lit(0), o.means.len, lambda p: o.means[p] + s[0][p], "means")

class NumMembersVPeq(_Cl):
    qname = CL + "::num_members_v_peq"
    def requires(self, s):
        yield from wf(s.this)
        yield "argument covers all clusters", fits(s[0], s.this.nclust)
        yield "counts not negative", allj(s.this.nclust, lambda c: s.this.num_members_v[c] >= 0, pats=lambda c: [s.this.num_members_v[c]])
    def modifies(self, s): return [s.this.num_members_v]
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "counts", allj(o.nclust, lambda c: n.num_members_v[c] == o.num_members_v[c] + s[0][c], pats=lambda c: [n.num_members_v[c]])
        yield "length", n.num_members_v.len == o.num_members_v.len
    def loop_inv(self, s, L):
        o = s.this
        yield from sweep(L, lambda q: (lambda p: s.st(q).this.num_members_v[p]), S.lit(0), o.nclust, lambda p: o.num_members_v[p] + s[0][p], "counts")

class NumMembersPeq(_Cl):
    qname = CL + "::num_members_peq"
    def requires(self, s):
        yield from wf(s.this)
        yield "cluster id valid", And(s[1] >= 0, s[1] < s.this.nclust)
    def modifies(self, s): return [s.this.num_members_v.at(s[1])]
    def post(self, s):
        yield "count", s.new.this.num_members_v[s[1]] == s.this.num_members_v[s[1]] + s[0]

class SetNumMembersV(_Cl):
    qname = CL + "::set_num_members_v"
    def requires(self, s):
        yield from wf(s.this)
        yield "argument covers all clusters", fits(s[0], s.this.nclust)
    def modifies(self, s): return [s.this.num_members_v]
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "counts", allj(o.nclust, lambda c: n.num_members_v[c] == s[0][c], pats=lambda c: [n.num_members_v[c]])
        yield "length", n.num_members_v.len == o.num_members_v.len
    def loop_inv(self, s, L):
        yield from sweep(L, lambda q: (lambda p: s.st(q).this.num_members_v[p]), S.lit(0), s.this.nclust, lambda p: s[0][p], "counts")

class SetMeanPtr(_Cl):
    qname = CL + "::set_mean"; sig = "const double *"
    def requires(self, s):
        yield "id is -1 or valid", And(s[1] >= -1, s[1] < s.this.nclust)
        yield "one row or all rows", Or(And(s[1] == -1, fits(s[0], S.mul(s.this.nclust, s.this.ncol))),
                                        And(s[1] != -1, fits(s[0], s.this.ncol), s.this.means.len == S.mul(s.this.nclust, s.this.ncol)))
    def modifies(self, s): return [s.this.means]
    def ensures(self, s):
        o, n = s.old.this, s.new.this
        yield "means sized nclust*ncol", n.means.len == S.mul(n.nclust, n.ncol)
        yield "all rows", S.guard(s[1] == -1, allj(S.mul(o.nclust, o.ncol), lambda p: n.means[p] == s[0][p], pats=lambda p: [n.means[p]]))
        yield "one row", S.guard(s[1] != -1, allj(S.mul(o.nclust, o.ncol), lambda p: n.means[p] == S.ite(in_row(s, s[1], p), s[0][S.norm(p - row(s, s[1]))], o.means[p]),
            pats=lambda p: [n.means[p]]))
    def loop_inv(self, s, L):
        o = s.this
        yield from sweep(L, lambda q: means(s.st(q).this), S.lit(0), S.mul(o.nclust, o.ncol), lambda p: s[0][p], "means")
        yield from sweep(L, lambda q: means(s.st(q).this), row(s, s[1]), o.ncol, lambda p: s[0][S.norm(p - row(s, s[1]))], "row")

class SetMeanVec(_Cl):
    qname = CL + "::set_mean"; sig = "kmsvector &"
    def requires(self, s):
        yield from wf(s.this)
        yield "id is -1 or valid", And(s[1] >= -1, s[1] < s.this.nclust)
        yield "one row or all rows", Or(And(s[1] == -1, s[0].len == s.this.means.len), And(s[1] != -1, s[0].len == s.this.ncol))
    def modifies(self, s): return [s.this.means]
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "all rows", S.guard(s[1] == -1, allj(o.means.len, lambda p: n.means[p] == s[0][p], pats=lambda p: [n.means[p]]))
        yield "one row", S.guard(s[1] != -1, allj(o.means.len, lambda p: n.means[p] == S.ite(in_row(s, s[1], p), s[0][S.norm(p - row(s, s[1]))], o.means[p]),
            pats=lambda p: [n.means[p]]))
    loop_inv = SetMeanPtr.loop_inv

class Assign(Contract):
    qname = CL + "::operator="; thisty = CL
    def requires(self, s): yield from wf(s[0])
    def modifies(self, s): return [s.this.means, s.this.num_members_v, s.this.loc("ncol"), s.this.loc("nclust")]
    def returns(self, s): return s.this
    def ensures(self, s):
        n, r = s.new.this, s[0]
        yield "shape", And(n.ncol == r.ncol, n.nclust == r.nclust, n.means.len == r.means.len, n.num_members_v.len == r.num_members_v.len)
        yield "means", allj(r.means.len, lambda p: n.means[p] == r.means[p], pats=lambda p: [n.means[p]])
        yield "counts", allj(r.nclust, lambda p: n.num_members_v[p] == r.num_members_v[p], pats=lambda p: [n.num_members_v[p]])

class Equal(Contract):
    qname = CL + "::operator=="; thisty = CL
    def requires(self, s):
        yield from wf(s.this)
        yield from wf(s[0])
    def ensures(self, s):
        t, r = s.this, s[0]
        yield "equal implies same shape", Imp(s.ret, And(t.ncol == r.ncol, t.nclust == r.nclust))
        yield "equal implies same counts", S.guard(s.ret, allj(t.nclust, lambda p: t.num_members_v[p] == r.num_members_v[p], pats=lambda p: [t.num_members_v[p]]))
        yield "equal implies same means", S.guard(s.ret, allj(t.means.len, lambda p: t.means[p] == r.means[p], pats=lambda p: [t.means[p]]))
        # completeness: not equal only if something differs
        w = lambda: None
        from .lib import exists_diff
        yield "different only if something differs", exists_diff(s)

class ScaleCentroid(_Cl):
    qname = CL + "::scale_centroid"
    def requires(self, s):
        yield from wf(s.this)
        yield "cluster id valid", And(s[1] >= 0, s[1] < s.this.nclust)
        yield "member has ncol coordinates", fits(s[2], s.this.ncol)
    def modifies(self, s): return [s.this.means]
    def val(self, s, p):
        e = s[0]
        return S.add(S.mul(S.sub(S.rlit(1), e), s.this.means[p]), S.mul(e, s[2][S.norm(p - row(s, s[1]))]))
    def post(self, s):
        o, n = s.old.this, s.new.this
        yield "convex combination", S.forall(lambda p: n.means[p] == S.ite(in_row(s, s[1], p), self.val(s, p), o.means[p]), 1, pats=lambda p: [n.means[p]])
        yield "length", n.means.len == o.means.len
    def loop_inv(self, s, L):
        yield from sweep(L, lambda q: means(s.st(q).this), row(s, s[1]), s.this.ncol, lambda p: self.val(s, p), "means")

class CtorShape(_Cl):
    qname = CL + "::clusters"; nparams = 2
    def requires(self, s): return []
    def modifies(self, s): return [s.this._loc]
    def post(self, s):
        n = s.new.this
        yield "shape", And(n.nclust == s[0], n.ncol == s[1])
        yield "sums zero", allj(S.mul(s[0], s[1]), lambda p: n.means[p] == 0, pats=lambda p: [n.means[p]])
        yield "counts zero", allj(s[0], lambda p: n.num_members_v[p] == 0, pats=lambda p: [n.num_members_v[p]])
        yield "not complete", allj(s[0], lambda p: S.Not(n.complete_v[p]), pats=lambda p: [n.complete_v[p]])
class CtorMeans(_Cl):
    qname = CL + "::clusters"; nparams = 3; sig = "const double *"
    def requires(self, s): yield "means cover all clusters", fits(s[2], S.mul(s[0], s[1]))
    def modifies(self, s): return [s.this._loc]
    def post(self, s):
        n = s.new.this
        yield "shape", And(n.nclust == s[0], n.ncol == s[1])
        yield "means", allj(S.mul(s[0], s[1]), lambda p: n.means[p] == s[2][p], pats=lambda p: [n.means[p]])
        yield "counts zero", allj(s[0], lambda p: n.num_members_v[p] == 0, pats=lambda p: [n.num_members_v[p]])
        yield "complete", allj(s[0], lambda p: n.complete_v[p], pats=lambda p: [n.complete_v[p]])

CONTRACTS = [AddMember, RemoveMember, SwapMembership, Clear, Finalize, Unfinalize, FinalizeAll, UnfinalizeAll, Peq, PlusEq, MeansPeq,
             NumMembersVPeq, NumMembersPeq, SetNumMembersV, SetMeanPtr, SetMeanVec, Assign, ScaleCentroid, CtorShape, CtorMeans]
