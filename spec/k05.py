"""K05: triangle-inequality pruning gives the exhaustive answer (thread-pool library)."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import Loc
from .lib import *
from . import k04, k06, k08, k11
from .k04 import D, TaskEMInit, task_rows
from .k06 import wf

E = k04.Ghost("ghost_E")      # E(a,c): Euclidean distance between centroids a and c
def half(dm, a, c): return k08.D(dm, a, c)

def triangle(K, N):
    """the Euclidean triangle inequality through a row, for the distances named by D and E (trusted mathematics)"""
    return S.forall(lambda r, a, c: Imp(And(r >= 0, r < N, a >= 0, a < K, c >= 0, c < K), E(a, c) <= S.add(D(r, a), D(r, c))), 3, pats=lambda r, a, c: [[D(r, a), D(r, c)]])

class TaskEMPruned(TaskEMInit):
    """every later pass: distances are skipped when the stored bounds allow it"""
    sub = True
    assumes = ["Euclidean distance satisfies the triangle inequality (trusted mathematics, stated over the distances the contract names)"]
    def setup(self, ex):
        ex.init["this.prune_init"] = z3.BoolVal(False); ex.leaf_sort["this.prune_init"] = (S.B, "bool")
    def requires(self, s):
        t = s.this; g = t.g_clusters; k = t.curr_task; ca = t.cluster_assignments; st = k.start_rid; dv = t.dist_v; dm = t.dm; K = g.nclust; N = k.nrow
        yield "later pass", Not(t.prune_init)
        yield from task_rows(s)
        yield "Euclidean metric", t.dist_metric == EUCL
        yield "definition of D", D.define(k.data, g.means, t.ncol, t.dist_metric)
        yield "definition of E", E.define(g.means, g.means, t.ncol, t.dist_metric)
        yield "triangle inequality", triangle(K, N)
        yield "distances below DBL_MAX", S.forall(lambda r, c: Imp(And(r >= 0, r < N, c >= 0, c < K), D(r, c) < S.DBL_MAX), 2, pats=lambda r, c: [D(r, c)])
        yield "previous assignment valid", S.forall(lambda r: Imp(And(r >= 0, r < N), And(ca[S.norm(st + r)] >= 0, ca[S.norm(st + r)] < K)), 1, pats=lambda r: [ca[S.norm(st + r)]])
        yield "per-cluster values sized nclust", And(g.prev_dist_v.len == K, g.s_val_v.len == K)
        yield from (("matrix " + a, b) for a, b in k08.wf(dm))
        yield "matrix has one id per cluster", k08.ids(dm) == K
        yield "half distances stored", S.forall(lambda a, c: Imp(And(a >= 0, a < K, c >= 0, c < K, a != c), S.mul(S.rlit(2), half(dm, a, c)) == E(a, c)), 2, pats=lambda a, c: [E(a, c)])
        yield "separation value at most every half distance", S.forall(lambda a, c: Imp(And(a >= 0, a < K, c >= 0, c < K, a != c), S.mul(S.rlit(2), g.s_val_v[a]) <= E(a, c)), 2, pats=lambda a, c: [E(a, c)])
        yield "stored bound plus the centroid's movement bounds the distance", S.forall(lambda r: Imp(And(r >= 0, r < N),
            S.add(dv[S.norm(st + r)], g.prev_dist_v[ca[S.norm(st + r)]]) >= D(r, ca[S.norm(st + r)])), 1, pats=lambda r: [dv[S.norm(st + r)]])
        yield "one recalculation flag per row", S.norm(st + N) <= t.recalculated_v.data.len
    def modifies(self, s):
        return TaskEMInit.modifies(self, s) + [s.this.recalculated_v.data]
    def bound(self, o, n, N, st, ca):
        yield "stored bound still bounds the distance", S.forall(lambda r: Imp(And(r >= 0, r < N), n.dist_v[S.norm(st + r)] >= D(r, ca[S.norm(st + r)])), 1, pats=lambda r: [n.dist_v[S.norm(st + r)]])
    def loop_inv(self, s, L):
        o = s.old.this
        yield "flags kept", lambda q: s.st(q).this.recalculated_v.data.len == o.recalculated_v.data.len
        yield from TaskEMInit.loop_inv(self, s, L)
    def row_inv(self, s, L, cn, c, on, ro, st, K, CA, DV, e, o):
        g = lambda q: S.norm(st + ro(q))
        fl = lambda q: s.st(q).this.recalculated_v.data
        yield "row %s: assignment valid" % on, lambda q: And(CA(q)[g(q)] >= 0, CA(q)[g(q)] < K)
        yield "row %s: bound holds" % on, lambda q: DV(q)[g(q)] >= D(ro(q), CA(q)[g(q)])
        yield "row %s: flag written" % on, lambda q: k11.written(fl(q), g(q))
        yield "row %s: flag set means the bound is exact" % on, lambda q: Imp(k11.flag(fl(q), g(q)), DV(q)[g(q)] == D(ro(q), CA(q)[g(q)]))
        yield "row %s: least D below %s" % (on, cn), lambda q: S.forall(lambda x: Imp(And(x >= 0, x < c(q)), D(ro(q), CA(q)[g(q)]) <= D(ro(q), x)), 1, pats=lambda x: [D(ro(q), x)])
        yield "other rows kept (%s)" % on, lambda q: S.forall(lambda p: Imp(p != g(q), And(CA(q)[p] == e.cluster_assignments[p], DV(q)[p] == e.dist_v[p])), 1, pats=lambda p: [CA(q)[p], DV(q)[p]])
CONTRACTS = [TaskEMPruned]
