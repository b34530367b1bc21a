"""K18: scaled k-means: every feature is mapped to [0,1] by its smallest and largest value over all rows; spherical projection."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from . import k02, k07
SK = "knor::skmeans"; SC = "knor::skmeans_coordinator"
IN = z3.Function("ghost_in_feature", S.I, S.R, S.B)     # IN(c,v): v is a value of feature c (least such relation)

LO = z3.Function("ghost_low", S.I, S.R, S.B); HI = z3.Function("ghost_high", S.I, S.R, S.B)    # some worker's bound
NORM = z3.Function("ghost_norm", S.I, S.R)              # Euclidean norm of a row

def at(t, r, c): return S.norm(S.mul(r, t.ncol) + c)
class Bounds(Contract):
    """a worker's bounds: no smaller and no larger value among its rows, and attained"""
    qname = SK + "::feature_bounds_reduction"; thisty = SK
    def requires(self, s):
        t = s.this
        yield "a bound per feature", And(t.min_feature_val.len == t.ncol, t.max_feature_val.len == t.ncol)
        yield "local data", fits(t.local_data, S.mul(t.nprocrows, t.ncol))
        yield "definition of IN", S.forall(lambda r, c: Imp(And(r >= 0, r < t.nprocrows, c >= 0, c < t.ncol), IN(c, t.local_data[at(t, r, c)])), 2, pats=lambda r, c: [(S.mul(r, t.ncol), t.min_feature_val[c]), t.local_data[at(t, r, c)]])
    def modifies(self, s): return [s.this.min_feature_val, s.this.max_feature_val]
    def state(self, s, q, vis):
        o, t = s.old.this, s.st(q).this; lo, hi = t.min_feature_val, t.max_feature_val; x = lambda r, c: o.local_data[at(o, r, c)]
        yield "sizes", And(lo.len == o.ncol, hi.len == o.ncol)
        yield "bounds", S.forall(lambda r, c: Imp(And(r >= 0, r < o.nprocrows, c >= 0, c < o.ncol, vis(r, c)), And(lo[c] <= x(r, c), hi[c] >= x(r, c))), 2, pats=lambda r, c: [x(r, c)])
        yield "attained", S.forall(lambda c: Imp(And(c >= 0, c < o.ncol), And(Or(lo[c] == o.min_feature_val[c], IN(c, lo[c])), Or(hi[c] == o.max_feature_val[c], IN(c, hi[c])))), 1, pats=lambda c: [lo[c], hi[c]])
        yield "widened only", S.forall(lambda c: Imp(And(c >= 0, c < o.ncol), And(lo[c] <= o.min_feature_val[c], hi[c] >= o.max_feature_val[c])), 1, pats=lambda c: [lo[c], hi[c]])
    def ensures(self, s): yield from self.state(s, s._new, lambda r, c: z3.BoolVal(True))
    def loop_inv(self, s, L):
        ints, outer = loop_vars(L)
        def mk(v):
            return [(lambda q, k=k: list(self.state(s, q, v(q)))[k][1]) for k in range(4)]
        forms = []
        for nm, i in ints:
            if nm.startswith("this"): continue
            forms.append(("rows below " + nm, lambda q, i=i: lambda r, c: r < i(q)))
            forms.append(("columns below " + nm, lambda q, i=i: lambda r, c: c < i(q)))
            for on, o in outer:
                forms.append(("rows below %s, then columns below %s" % (on, nm), lambda q, i=i, o=o: lambda r, c: Or(r < o(q), And(r == o(q), c < i(q)))))
                forms.append(("columns below %s, then rows below %s" % (on, nm), lambda q, i=i, o=o: lambda r, c: Or(c < o(q), And(c == o(q), r < i(q)))))
        for fn, v in forms:
            for k, f in enumerate(mk(v)): yield "%s: %d" % (fn, k), f

class Normalize(Contract):
    """every value of a worker's rows goes to its place between the bounds; a constant feature becomes zero"""
    qname = SK + "::feature_normalize"; thisty = SK
    def requires(self, s):
        t = s.this
        yield "a bound per feature", And(t.min_feature_val.len == t.ncol, t.max_feature_val.len == t.ncol)
        yield "local data", fits(t.local_data, S.mul(t.nprocrows, t.ncol))
    def modifies(self, s): return [s.this.local_data.region()]
    def val(self, s, r, c):
        o = s.old.this; lo, hi = o.min_feature_val[c], o.max_feature_val[c]
        return S.ite(hi == lo, S.rlit(0), S.rdiv(S.norm(o.local_data[at(o, r, c)] - lo), S.norm(hi - lo)))
    def cells(self, s, q, vis):
        o, t = s.old.this, s.st(q).this; x = t.local_data
        return S.forall(lambda r, c: Imp(And(r >= 0, r < o.nprocrows, c >= 0, c < o.ncol), x[at(o, r, c)] == S.ite(vis(r, c), self.val(s, r, c), o.local_data[at(o, r, c)])), 2, pats=lambda r, c: [x[at(o, r, c)]])
    def rest(self, s, q):
        o, x = s.old.this, s.st(q).this.local_data
        return S.forall(lambda p: Imp(Or(p < 0, p >= S.mul(o.nprocrows, o.ncol)), x[p] == o.local_data[p]), 1, pats=lambda p: [x[p]])
    def ensures(self, s):
        yield "scaled", self.cells(s, s._new, lambda r, c: z3.BoolVal(True))
        yield "other workers' rows untouched", self.rest(s, s._new)
    def loop_inv(self, s, L):
        ints, outer = loop_vars(L)
        yield "other workers' rows untouched", lambda q: self.rest(s, q)
        for nm, i in ints:
            yield "rows below " + nm, lambda q, i=i: self.cells(s, q, lambda r, c: r < i(q))
            yield "columns below " + nm, lambda q, i=i: self.cells(s, q, lambda r, c: c < i(q))
            for on, o in outer:
                yield "rows below %s, then columns below %s" % (on, nm), lambda q, i=i, o=o: self.cells(s, q, lambda r, c: Or(r < o(q), And(r == o(q), c < i(q))))
                yield "columns below %s, then rows below %s" % (on, nm), lambda q, i=i, o=o: self.cells(s, q, lambda r, c: Or(c < o(q), And(c == o(q), r < i(q))))

class Reduce(Contract):
    """the bounds over all workers, handed back to every worker"""
    qname = SC + "::bounds_reduction"; thisty = SC
    def setup(self, ex): ex.dyn["this.threads[]*"] = SK
    def requires(self, s):
        t = s.this; w = lambda i: t.threads[i]; inw = lambda i: And(i >= 0, i < t.threads.len)
        yield "a worker", And(t.threads.len == t.nthreads, t.nthreads >= 1)
        yield "a bound per worker and feature", S.forall(lambda i: Imp(inw(i), And(w(i).min_feature_val.len == t.ncol, w(i).max_feature_val.len == t.ncol)), 1, pats=lambda i: [w(i).min_feature_val.len, w(i).max_feature_val.len])
        yield "values are doubles", S.forall(lambda i, c: And(w(i).min_feature_val[c] <= S.DBL_MAX, w(i).max_feature_val[c] >= -S.DBL_MAX), 2, pats=lambda i, c: [w(i).min_feature_val[c], w(i).max_feature_val[c]])
        yield "definition of LO and HI", S.forall(lambda i, c: Imp(And(inw(i), c >= 0, c < t.ncol), And(LO(c, w(i).min_feature_val[c]), HI(c, w(i).max_feature_val[c]))), 2, pats=lambda i, c: [w(i).min_feature_val[c], w(i).max_feature_val[c]])
    def modifies(self, s): return [s.this.g_feature_min, s.this.g_feature_max, Loc("this.threads[]*.min_feature_val", (), "std::vector<double>"), Loc("this.threads[]*.max_feature_val", (), "std::vector<double>")]
    def low(self, s, lo, n, upto=None):
        o = s.old.this; m = o.ncol if upto is None else upto
        return S.forall(lambda i, c: Imp(And(i >= 0, i < n, c >= 0, c < m), lo[c] <= o.threads[i].min_feature_val[c]), 2, pats=lambda i, c: [o.threads[i].min_feature_val[c], (lo[c], o.threads[i].min_feature_val.len)])
    def high(self, s, hi, n, upto=None):
        o = s.old.this; m = o.ncol if upto is None else upto
        return S.forall(lambda i, c: Imp(And(i >= 0, i < n, c >= 0, c < m), hi[c] >= o.threads[i].max_feature_val[c]), 2, pats=lambda i, c: [o.threads[i].max_feature_val[c], (hi[c], o.threads[i].max_feature_val.len)])
    def own(self, s, lo, hi, strict=False):
        o = s.old.this
        yield "the least bound is one of them", S.forall(lambda c: Imp(And(c >= 0, c < o.ncol), Or(LO(c, lo[c]), lo[c] == S.DBL_MAX)), 1, pats=lambda c: [lo[c]])
        yield "the largest bound is one of them", S.forall(lambda c: Imp(And(c >= 0, c < o.ncol), Or(HI(c, hi[c]), hi[c] == S.norm(-S.DBL_MAX))), 1, pats=lambda c: [hi[c]])
        yield "sizes", And(lo.len == o.ncol, hi.len == o.ncol)
    def handed(self, s, q, n, which=None):
        o, t = s.old.this, s.st(q).this; w = lambda i: t.threads[i]
        yield "smallest values handed out", S.forall(lambda i, c: Imp(And(i >= 0, i < n, c >= 0, c < o.ncol), w(i).min_feature_val[c] == t.g_feature_min[c]), 2, pats=lambda i, c: [w(i).min_feature_val[c]])
        yield "largest values handed out", S.forall(lambda i, c: Imp(And(i >= 0, i < n, c >= 0, c < o.ncol), w(i).max_feature_val[c] == t.g_feature_max[c]), 2, pats=lambda i, c: [w(i).max_feature_val[c]])
        yield "smallest sizes", S.forall(lambda i: Imp(And(i >= 0, i < n), w(i).min_feature_val.len == o.ncol), 1, pats=lambda i: [w(i).min_feature_val.len])
        yield "largest sizes", S.forall(lambda i: Imp(And(i >= 0, i < n), w(i).max_feature_val.len == o.ncol), 1, pats=lambda i: [w(i).max_feature_val.len])
    def ensures(self, s):
        n = s.new.this; T = s.this.nthreads
        yield "no worker has a smaller value", self.low(s, n.g_feature_min, T)
        yield "no worker has a larger value", self.high(s, n.g_feature_max, T)
        yield from self.own(s, n.g_feature_min, n.g_feature_max)
        yield from self.handed(s, s._new, T)
    def loop_inv(self, s, L):
        g = lambda q: s.st(q).this
        if L.writes("this.threads[]"):
            for nm, i in L.ints:
                if nm.startswith("this"): continue
                for k in range(4): yield "%s: %d" % (nm, k), lambda q, i=i, k=k: list(self.handed(s, q, i(q)))[k][1]
            return
        for k in range(3): yield "own %d" % k, lambda q, k=k: list(self.own(s, g(q).g_feature_min, g(q).g_feature_max))[k][1]
        e = g(L.entry)
        yield "falls only", lambda q: S.forall(lambda c: g(q).g_feature_min[c] <= e.g_feature_min[c], 1, pats=lambda c: [g(q).g_feature_min[c]])
        yield "rises only", lambda q: S.forall(lambda c: g(q).g_feature_max[c] >= e.g_feature_max[c], 1, pats=lambda c: [g(q).g_feature_max[c]])
        w = lambda i: s.old.this.threads[i]
        for nm, i in L.ints:
            if nm.startswith("this"): continue
            yield "low below " + nm, lambda q, i=i: self.low(s, g(q).g_feature_min, i(q))
            yield "high below " + nm, lambda q, i=i: self.high(s, g(q).g_feature_max, i(q))
            for on, x in L.outer() + L.iters():
                if on.startswith("this"): continue
                yield "low of worker %s below %s" % (on, nm), lambda q, i=i, x=x: S.forall(lambda c: Imp(And(c >= 0, c < i(q)), g(q).g_feature_min[c] <= w(x(q)).min_feature_val[c]), 1, pats=lambda c: [g(q).g_feature_min[c]])
                yield "high of worker %s below %s" % (on, nm), lambda q, i=i, x=x: S.forall(lambda c: Imp(And(c >= 0, c < i(q)), g(q).g_feature_max[c] >= w(x(q)).max_feature_val[c]), 1, pats=lambda c: [g(q).g_feature_max[c]])

class Spherical(Contract):
    """every row is divided by its own norm"""
    qname = "knor::base::spherical_projection"
    def requires(self, s):
        yield "data", And(fits(s[0], S.mul(s[1], s[2])), s[1] < 4294967296, s[2] < 4294967296)
        yield "definition of the norms", S.forall(lambda r: NORM(r) == S.sqrt(S.Sum(s[2], lambda j: sq(s[0][self.cell(s, r, j)]), S.R)), 1, pats=lambda r: [NORM(r)])
        yield "rows are not zero", S.forall(lambda r: Imp(And(r >= 0, r < s[1]), And(NORM(r) > 0, self.norm2(s, r) > 0)), 1, pats=lambda r: [NORM(r)])
    def cell(self, s, r, j): return S.norm(S.mul(r, s[2]) + j)
    def norm2(self, s, r): return S.Sum(s[2], lambda j: sq(s[0][self.cell(s, r, j)]), S.R)
    def modifies(self, s): return [s[0].region()]
    def cells(self, s, q, vis):
        x = s.st(q)[0]; o = s.old[0]
        return S.forall(lambda r, j: Imp(And(r >= 0, r < s[1], j >= 0, j < s[2]), x[self.cell(s, r, j)] == S.ite(vis(r, j), S.rdiv(o[self.cell(s, r, j)], NORM(r)), o[self.cell(s, r, j)])), 2, pats=lambda r, j: [x[self.cell(s, r, j)]])
    def ensures(self, s): yield "projected", self.cells(s, s._new, lambda r, j: z3.BoolVal(True))
    def loop_inv(self, s, L):
        ints, outer = loop_vars(L)
        def rest(q, p0): return S.forall(lambda p: Imp(p >= S.norm(p0 + s[0].off), s.st(q)[0][p - s[0].off] == s.old[0][p - s[0].off]), 1, pats=lambda p: [s.st(q)[0][p - s[0].off]])
        for nm, i in ints:
            yield "untouched from row " + nm, lambda q, i=i: rest(q, S.mul(i(q), s[2]))
            yield "rows below " + nm, lambda q, i=i: self.cells(s, q, lambda r, j: r < i(q))
            for on, o in outer:
                yield "untouched from row %s, column %s" % (on, nm), lambda q, i=i, o=o: rest(q, self.cell(s, o(q), i(q)))
                yield "rows below %s, then columns below %s" % (on, nm), lambda q, i=i, o=o: self.cells(s, q, lambda r, j: Or(r < o(q), And(r == o(q), j < i(q))))
                for rn, x in L.reals:
                    yield "%s: squares of row %s below %s" % (rn, on, nm), lambda q, i=i, o=o, x=x: x(q) == S.Sum(i(q), lambda j: sq(s.old[0][self.cell(s, o(q), j)]), S.R)
                    yield "%s: squares of row %s now below %s" % (rn, on, nm), lambda q, i=i, o=o, x=x: x(q) == S.Sum(i(q), lambda j: sq(s.st(L.entry)[0][self.cell(s, o(q), j)]), S.R)
class UpdateSk(k07.Update):
    qname = SC + "::update_clusters"; thisty = SC; thread = SK
CONTRACTS = [Bounds, Normalize, Reduce, Spherical, UpdateSk, k02.metric_of(__name__, "Skmeans", SC, SK)]
