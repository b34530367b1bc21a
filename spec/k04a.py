"""K04: one pass of the OpenMP library (libauto): nearest assignment and the means of the members."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from .k04 import D, moved, members, coords, best_inv
from .k06 import wf
DRIVER = "auto"
GA = z3.Function("ghost_a", S.I, S.I)          # any assignment of rows to clusters
OWN = z3.Function("omp_owner0", S.I, S.I)     # thread that executes the iteration of a row

def inside(ga, n, k): return S.ite(And(ga(n) >= 0, ga(n) < k), S.lit(1), S.lit(0))
def counting(ga):
    """double counting: the member counts of the clusters below k add up to the number of rows assigned below k"""
    one = lambda n, c: S.ite(ga(n) == c, S.lit(1), S.lit(0))
    F = lambda n, c: S.Sum(n, lambda r: one(r, c), S.I)
    A = lambda k, n: S.Sum(k, lambda c: F(n, c), S.I)
    B = lambda k, n: S.Sum(k, lambda c: one(n, c), S.I)
    AB = lambda k, n: S.Sum(k, lambda c: F(n, c) + one(n, c), S.I)
    yield "a value below k is counted once", S.forall(lambda k, n: B(k, n) == inside(ga, n, k), 2, pats=lambda k, n: [B(k, n)]), 0
    yield "sums add", S.forall(lambda k, n: AB(k, n) == A(k, n) + B(k, n), 2, pats=lambda k, n: [AB(k, n)]), 0
    yield "one more row", S.forall(lambda k, n: Imp(n >= 1, A(k, n) == AB(k, S.norm(n - 1))), 2, pats=lambda k, n: [A(k, n)]), "direct"
    yield "a count is not negative", S.forall(lambda n, c: F(n, c) >= 0, 2, pats=lambda n, c: [F(n, c)]), 0
    yield "every row is counted once", S.forall(lambda n, k: A(k, n) == S.Sum(n, lambda r: inside(ga, r, k), S.I), 2, pats=lambda n, k: [A(k, n)]), 0

class OmpEM(Contract):
    qname = "EM_step"; nparams = 4; one_point = True
    assumes = ["the OpenMP team has at most OMP_MAX_THREADS threads (omp_set_num_threads)"]
    K = lambda self, s: s.old.glob("K", "unsigned long")
    NC = lambda self, s: s.old.glob("NUM_COLS", "unsigned long")
    N = lambda self, s: s.old.glob("NUM_ROWS", "unsigned long")
    T = lambda self, s: s.old.glob("OMP_MAX_THREADS", "short")
    chg = lambda self, s, q: s.st(q).glob("g_num_changed", "unsigned long")
    def at(self, s, c, j): return S.norm(S.mul(c, self.NC(s)) + j)
    def requires(self, s):
        g = s[1]; K, NC, N, T = self.K(s), self.NC(s), self.N(s), self.T(s)
        yield from wf(g)
        yield "shape", And(g.nclust == K, g.ncol == NC, K >= 1, T >= 1, N >= 0, NC >= 0)
        yield "data", fits(s[0], S.mul(N, NC))
        yield "assignments cover the rows", fits(s[2], N)
        yield "counts cover the clusters", fits(s[3], K)
        yield "metric valid", valid_metric(s.old.glob("g_dist_type", "int"))
        yield "cluster ids fit", K < 4294967295
        yield "threads", S.forall(lambda r: And(OWN(r) >= 0, OWN(r) < T), 1, pats=lambda r: [OWN(r)])
        yield "definition of D", D.define(s[0], g.means, NC, s.old.glob("g_dist_type", "int"))
        yield "distances below DBL_MAX", S.forall(lambda r, c: Imp(And(r >= 0, r < N, c >= 0, c < K), D(r, c) < S.DBL_MAX), 2, pats=lambda r, c: [D(r, c)])
    def lemmas(self, s): yield from counting(GA)
    def named(self, s, q):
        """names for the member count of cluster c and the sum at coordinate p under the assignment of a state; the counts add up to the
        number of rows assigned to some cluster (the lemma above holds for every assignment, GA being an arbitrary function)"""
        ca = s.st(q)[2]; key = ca[z3.Int("key!")].sexpr(); tab = s.ex.__dict__.setdefault("named4a", {})
        if key not in tab:
            k = len(tab); M = z3.Function("members_%d" % k, S.I, S.I); W = z3.Function("coords_%d" % k, S.I, S.R); N, K = self.N(s), self.K(s)
            s.ex.facts += [S.forall(lambda c: And(M(c) == self.cnt(s, q, c, N), M(c) >= 0), 1, pats=lambda c: [M(c)]),
                S.forall(lambda p: W(p) == self.crd(s, q, p, N), 1, pats=lambda p: [W(p)]),
                S.Sum(K, lambda c: M(c), S.I) == S.Sum(N, lambda r: inside(lambda r: ca[r], r, K), S.I)]
            tab[key] = (M, W)
        return tab[key]
    def modifies(self, s):
        g = s[1]
        return [g.means, g.num_members_v, g.complete_v, s[2].region(), s[3].region(), Loc("G.g_num_changed", (), "unsigned long")]
    def ensures(self, s):
        q = s._new; K, NC, N = self.K(s), self.NC(s), self.N(s); ca = s.st(q)[2]
        yield from self.assigned(s, q, N)
        yield "change count", self.chg(s, q) == S.norm(self.chg(s, s._old) + moved(ca, s.old[2], S.lit(0), N))
        yield from self.done(s, q, K, True)
        for nm, f in wf(s.st(q)[1]): yield nm, f
    def assigned(self, s, q, n):
        """rows below n have a nearest cluster, the others are unchanged"""
        ca = s.st(q)[2]; K = self.K(s)
        yield "assignment valid", S.forall(lambda r: Imp(And(r >= 0, r < n), And(ca[r] >= 0, ca[r] < K)), 1, pats=lambda r: [ca[r]])
        yield "assigned to a nearest centroid", S.forall(lambda r, c: Imp(And(r >= 0, r < n, c >= 0, c < K), D(r, ca[r]) <= D(r, c)), 2, pats=lambda r, c: [D(r, c)])
        yield "other entries untouched", S.forall(lambda p: Imp(Or(p < ca.off, p >= S.norm(ca.off + n)), ca[S.norm(p - ca.off)] == s.old[2][S.norm(p - ca.off)]), 1, pats=lambda p: [ca[S.norm(p - ca.off)]])
    def cnt(self, s, q, c, n): return members(s.st(q)[2], S.lit(0), n, c)
    def crd(self, s, q, p, n): return coords(s.st(q)[2], s.old[0], S.lit(0), n, self.NC(s), p)
    def done(self, s, q, n, named=False):
        """the clusters below n are finished"""
        g = s.st(q)[1]; N, NC = self.N(s), self.NC(s)
        M, W = self.named(s, q) if named else (lambda c: self.cnt(s, q, c, N), lambda p: self.crd(s, q, p, N))
        def fin(c, p):
            t, m = W(p), M(c)
            return S.ite(m > 1, S.rdiv(t, S.toreal(m)), t)
        yield "centroids", S.forall(lambda c, j: Imp(And(c >= 0, c < n, j >= 0, j < NC), g.means[self.at(s, c, j)] == fin(c, self.at(s, c, j))), 2, pats=lambda c, j: [g.means[self.at(s, c, j)]])
        yield "reported counts", S.forall(lambda c: Imp(And(c >= 0, c < n), s.st(q)[3][c] == M(c)), 1, pats=lambda c: [s.st(q)[3][c]])
    def own(self, s, q, n, t, what, p):
        """what thread t has accumulated over the rows below n"""
        ca, x, NC = s.st(q)[2], s.old[0], self.NC(s)
        if what == "chg": return S.Sum(n, lambda r: S.ite(And(OWN(r) == t, ca[r] != s.old[2][r]), S.lit(1), S.lit(0)), S.I)
    def loop_inv(self, s, L):
        K, NC, N, T = self.K(s), self.NC(s), self.N(s), self.T(s)
        ints = [(nm, i) for nm, i in L.ints if "." not in nm]
        G = lambda q: s.st(q)[1]; ch = lambda v, q, n: S.Sum(n, lambda t: v(q)[t], S.I)
        fam = L.families("knor::base::clusters"); vecs = L.vectors(S.I)

        outer = [(nm, i) for nm, i in L.int_locals() if nm not in [x for x, _ in L.ints] and not nm.startswith("LR.")]
        def shapes(cl, q, n, zero):
            inr = lambda t: And(t >= 0, t < n)
            yield "shapes of %s" % zero, S.forall(lambda t: Imp(inr(t), And(cl(q, t).nclust == K, cl(q, t).ncol == NC, *[f for _, f in wf(cl(q, t))])), 1, pats=lambda t: [cl(q, t).means.len])
        def zeros(cl, q, n):
            inr = lambda t: And(t >= 0, t < n)
            yield "no members yet", S.forall(lambda t, c: Imp(And(inr(t), c >= 0, c < K), cl(q, t).num_members_v[c] == 0), 2, pats=lambda t, c: [cl(q, t).num_members_v[c]])
            yield "no sums yet", S.forall(lambda t, p: Imp(And(inr(t), p >= 0, p < S.mul(K, NC)), cl(q, t).means[p] == 0), 2, pats=lambda t, p: [cl(q, t).means[p]])
        for fn, cl in fam:
            for nm, i in ints if L.writes("[]*.nclust") else []:
                # the loop that sets the accumulators up
                yield "set up below %s" % nm, lambda q, i=i, cl=cl: list(shapes(cl, q, i(q), fn))[0][1]
                for k in range(2): yield "empty %d below %s" % (k, nm), lambda q, i=i, cl=cl, k=k: list(zeros(cl, q, i(q)))[k][1]
            yield "accumulators of %s keep their shape" % fn, lambda q, cl=cl: list(shapes(cl, q, T, fn))[0][1]
        if L.writes("a2*"):
            for nm, i in ints:
                for k in range(3): yield "assignment %d below %s" % (k, nm), lambda q, i=i, k=k: list(self.assigned(s, q, i(q)))[k][1]
                yield "rows below %s inside" % nm, lambda q, i=i: S.Sum(i(q), lambda r: inside(lambda r: s.st(q)[2][r], r, K), S.I) == i(q)
                for vn, v in vecs: yield "changes over %s below %s" % (vn, nm), lambda q, v=v, i=i: ch(v, q, T) == moved(s.st(q)[2], s.old[2], S.lit(0), i(q))
                for fn, cl in fam:
                    yield "counts over %s below %s" % (fn, nm), lambda q, cl=cl, i=i: S.forall(lambda c: Imp(And(c >= 0, c < K), S.Sum(T, lambda t: cl(q, t).num_members_v[c], S.I) == self.cnt(s, q, c, i(q))), 1, pats=lambda c: [self.cnt(s, q, c, i(q))])
                    yield "sums over %s below %s" % (fn, nm), lambda q, cl=cl, i=i: S.forall(lambda p: Imp(And(p >= 0, p < S.mul(K, NC)), S.Sum(T, lambda t: cl(q, t).means[p], S.R) == self.crd(s, q, p, i(q))), 1, pats=lambda p: [self.crd(s, q, p, i(q))])
        if L.writes("g_num_changed"):
            yield "shape", lambda q: And(*[f for _, f in wf(G(q))])
            for nm, i in ints:
                for vn, v in vecs: yield "change count of %s below %s" % (vn, nm), lambda q, v=v, i=i: self.chg(s, q) == S.norm(self.chg(s, s._old) + ch(v, q, i(q)))
                for fn, cl in fam:
                    yield "totals of %s below %s" % (fn, nm), lambda q, cl=cl, i=i: S.forall(lambda p: Imp(And(p >= 0, p < S.mul(K, NC)), G(q).means[p] == S.Sum(i(q), lambda t: cl(q, t).means[p], S.R)), 1, pats=lambda p: [G(q).means[p]])
                    yield "counts of %s below %s" % (fn, nm), lambda q, cl=cl, i=i: S.forall(lambda c: Imp(And(c >= 0, c < K), G(q).num_members_v[c] == S.Sum(i(q), lambda t: cl(q, t).num_members_v[c], S.I)), 1, pats=lambda c: [G(q).num_members_v[c]])
            yield "not finished", lambda q: S.forall(lambda c: Imp(And(c >= 0, c < K), S.Not(G(q).complete_v[c])), 1, pats=lambda c: [G(q).complete_v[c]])
        elif L.writes("a3*"):
            yield "shape", lambda q: And(*[f for _, f in wf(G(q))])
            yield "counts stay", lambda q: S.forall(lambda c: Imp(And(c >= 0, c < K), G(q).num_members_v[c] == self.named(s, q)[0](c)), 1, pats=lambda c: [G(q).num_members_v[c]])
            for nm, i in ints:
                if nm not in L.steps: continue
                for k in range(2): yield "done %d %s" % (k, nm), lambda q, i=i, k=k: list(self.done(s, q, i(q), True))[k][1]
                yield "open from " + nm, lambda q, i=i: S.forall(lambda c, j: Imp(And(c >= i(q), c < K, j >= 0, j < NC), G(q).means[self.at(s, c, j)] == self.named(s, q)[1](self.at(s, c, j))), 2, pats=lambda c, j: [G(q).means[self.at(s, c, j)]])
                yield "not finished from " + nm, lambda q, i=i: S.forall(lambda c: Imp(And(c >= i(q), c < K), S.Not(G(q).complete_v[c])), 1, pats=lambda c: [G(q).complete_v[c]])
                for n2, x in ints:
                    if n2 != nm: yield "%s counts members below %s" % (n2, nm), lambda q, i=i, x=x: x(q) == S.Sum(i(q), lambda c: self.named(s, q)[0](c), S.I)
        else:
            for rn, r in L.reals:
                for an, a in ints:
                    for cn, c in ints:
                        if an == cn or cn not in L.steps: continue
                        for on, ro in outer: yield from best_inv(rn, r, an, a, cn, c, on, ro)
CONTRACTS = [OmpEM]
