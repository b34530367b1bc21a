"""K12: ids handed out by the split-id generator; `live` is the ghost set of ids in use."""
import z3
from kv import sym as S
from kv.verify import Contract
from .lib import *
G = "knor::hclust_id_generator"
live = z3.Function("ghost_live", S.I, S.B)

def inv(g, live):
    """every id in use was created, none of them waits for reuse, ids waiting for reuse are created and distinct"""
    r = g.recycler
    yield "ids in use were created", S.forall(lambda i: Imp(live(i), And(i >= 0, i <= g.max_id)), 1, pats=lambda i: [live(i)] if z3.is_app(live(i)) and live(i).num_args() == 1 and live(i).decl().name() == "ghost_live" else [])
    yield "ids in use are not waiting for reuse", S.forall(lambda j: Imp(And(j >= 0, j < r.len), Not(live(r[j]))), 1, pats=lambda j: [r[j]])
    yield "ids waiting for reuse were created", S.forall(lambda j: Imp(And(j >= 0, j < r.len), And(r[j] >= 0, r[j] <= g.max_id)), 1, pats=lambda j: [r[j]])
    yield "ids waiting for reuse are distinct", S.forall(lambda a, b: Imp(And(a >= 0, a < b, b < r.len), r[a] != r[b]), 2, pats=lambda a, b: [[r[a], r[b]]])

class Ctor(Contract):
    qname = G + "::hclust_id_generator"; nparams = 0; thisty = G
    def modifies(self, s): return [s.this.loc("max_id"), s.this.recycler]
    def ensures(self, s):
        yield from inv(s.new.this, lambda i: i == 0)
class Reclaim(Contract):
    qname = G + "::reclaim_id"; thisty = G
    def requires(self, s):
        yield from inv(s.this, live)
        yield "the id is in use", live(s[0])
    def modifies(self, s): return [s.this.recycler]
    def ensures(self, s):
        yield from inv(s.new.this, lambda i: And(live(i), i != s[0]))
        o, n = s.old.this.recycler, s.new.this.recycler
        yield "waits for reuse", And(n.len == o.len + 1, n[o.len] == s[0])
class Split(Contract):
    qname = G + "::get_split_ids"; thisty = G
    def requires(self, s): yield from inv(s.this, live)
    def modifies(self, s): return [s.this.loc("max_id"), s.this.recycler]
    def ensures(self, s):
        a, b = s.ret.first, s.ret.second
        yield "two different ids", a != b
        yield "neither is in use", And(Not(live(a)), Not(live(b)))
        yield from inv(s.new.this, lambda i: Or(live(i), i == a, i == b))
        o, n = s.old.this, s.new.this
        k = o.recycler.len
        two = S.lit(2)
        yield "reclaimed ids are reused first", n.max_id == o.max_id + S.ite(k >= 2, S.lit(0), S.norm(2 - k))
        yield "reused ids leave the waiting list", n.recycler.len == S.ite(k >= 2, S.norm(k - 2), S.lit(0))
        yield "first id comes from the waiting list if possible", Imp(k >= 1, Or(a <= o.max_id, b <= o.max_id))
CONTRACTS = [Ctor, Reclaim, Split]
