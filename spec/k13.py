"""K13: the vector-backed map. A key is present when its slot differs from the empty value."""
from kv import sym as S
from kv.verify import Contract
from .lib import *
VM = "knor::base::vmap"; IT = "knor::base::vmap_iterator"
def has(m, k): return And(k >= 0, k < m.data.len, m.data[k] != m.emptyval)
class VC(Contract):
    cls = "knor::base::vmap<unsigned int>"
def keep(n, o, exc=None):
    return S.forall(lambda i: Imp(And(i >= 0, i < o.data.len, *([i != exc] if exc is not None else [])), n.data[i] == o.data[i]), 1, pats=lambda i: [n.data[i]])
def none(m): return S.forall(lambda i: Imp(And(i >= 0, i < m.data.len), m.data[i] == m.emptyval), 1, pats=lambda i: [m.data[i]])
class Ctor(Contract):
    qname = VM + "::vmap"; nparams = 2
    def modifies(self, s): return [s.this.loc("data"), s.this.loc("emptyval")]
    def ensures(self, s):
        n = s.new.this
        yield "capacity and empty value", And(n.data.len == s[0], n.emptyval == s[1])
        yield "no key present", none(n)
class Ctor0(VC):
    qname = VM + "::vmap"; nparams = 0
    def modifies(self, s): return [s.this.loc("data"), s.this.loc("emptyval")]
    def ensures(self, s):
        n = s.new.this
        yield "empty", And(n.data.len == 0, n.emptyval == 0)
class SetCapacity(VC):
    qname = VM + "::set_capacity"
    def modifies(self, s): return [s.this.data]
    def ensures(self, s):
        yield "capacity", s.new.this.data.len == s[0]
        yield "no key present", none(s.new.this)
class Size(VC):
    inline = True
    qname = VM + "::size"
    def ensures(self, s): yield "capacity", s.ret == s.this.data.len
class Empty(VC):
    inline = True
    qname = VM + "::empty"
    def ensures(self, s): yield "no capacity", s.ret == (s.this.data.len == 0)
class Erase(VC):
    qname = VM + "::erase"
    def requires(self, s): yield "index valid", And(s[0] >= 0, s[0] < s.this.data.len)
    def modifies(self, s): return [s.this.data.at(s[0])]
    def ensures(self, s): yield "key gone", Not(has(s.new.this, s[0]))
class Clear(VC):
    qname = VM + "::clear"
    def modifies(self, s): return [s.this.data]
    def ensures(self, s):
        yield "capacity kept", s.new.this.data.len == s.this.data.len
        yield "no key present", none(s.new.this)
class Index(VC):
    qname = VM + "::operator[]"
    def matches(self, f): return super().matches(f) and not f.const
    def modifies(self, s): return [s.this.data]
    def returns(self, s): return s.new.this.data.at(s[0])
    def ensures(self, s):
        o, n = s.old.this, s.new.this
        yield "grows to hold the key", n.data.len == S.ite(s[0] < o.data.len, o.data.len, S.norm(s[0] + 1))
        yield "other entries untouched", keep(n, o)
        yield "new slots hold no key", S.forall(lambda i: Imp(And(i >= o.data.len, i < n.data.len), n.data[i] == n.emptyval), 1, pats=lambda i: [n.data[i]])
class At(Index): qname = VM + "::at"
class IndexConst(VC):
    qname = VM + "::operator[]"
    def matches(self, f): return super().matches(f) and bool(f.const)
    def throws(self, s): return s[0] >= s.this.data.len
    def returns(self, s): return s.this.data.at(s[0])
class HasKey(VC):
    qname = VM + "::has_key"
    def ensures(self, s): yield "present exactly when its slot is not empty", s.ret == has(s.this, s[0])
def rank(m, k):
    """number of keys below k"""
    return S.Sum(k, lambda j: S.ite(m.data[j] != m.emptyval, S.lit(1), S.lit(0)), S.I)
class KeyCount(VC):
    qname = VM + "::keycount"
    def ensures(self, s): yield "number of present keys", s.ret == rank(s.this, s.this.data.len)
    def loop_inv(self, s, L):
        for nm, i in L.ints:
            for nn, j in L.ints:
                if nm != nn: yield "%s counts keys below %s" % (nn, nm), lambda q, i=i, j=j: j(q) == rank(s.this, i(q))
class Keyless(VC):
    qname = VM + "::keyless"
    def ensures(self, s):
        yield "no key present (1)", S.guard(s.ret, none(s.this))
        m = s.this
        yield "false only when a key is present", Or(s.ret, exists(lambda k: has(m, k), lambda k: m.data[k]))
    def loop_inv(self, s, L):
        for nm, i in L.ints:
            yield "no key below %s" % nm, lambda q, i=i: S.forall(lambda j: Imp(And(j >= 0, j < i(q)), s.this.data[j] == s.this.emptyval), 1, pats=lambda j: [s.this.data[j]])
class GetKeys(VC):
    qname = VM + "::get_keys"
    def modifies(self, s): return [s[0]]
    def ensures(self, s):
        o, n, m = s.old[0], s.new[0], s.this
        yield "appends one entry per key", n.len == o.len + rank(m, m.data.len)
        yield "earlier entries kept", S.forall(lambda i: Imp(And(i >= 0, i < o.len), n[i] == o[i]), 1, pats=lambda i: [n[i]])
        yield "keys in increasing order", S.forall(lambda k: Imp(has(m, k), n[S.norm(o.len + rank(m, k))] == k), 1, pats=lambda k: [m.data[k]])
    def loop_inv(self, s, L):
        m = s.this; o = s.old[0]
        for nm, i in L.ints:
            n = lambda q: s.st(q)[0]
            yield "keys below %s listed" % nm, lambda q, i=i: n(q).len == o.len + rank(m, i(q))
            yield "order below %s" % nm, lambda q, i=i: S.forall(lambda k: Imp(And(has(m, k), k < i(q)), n(q)[S.norm(o.len + rank(m, k))] == k), 1, pats=lambda k: [m.data[k]])
            yield "ranks below %s" % nm, lambda q, i=i: S.forall(lambda k: Imp(And(k >= 0, k < i(q)), And(rank(m, k) >= 0, rank(m, k) <= rank(m, i(q)), Imp(has(m, k), rank(m, k) < rank(m, i(q))))), 1, pats=lambda k: [m.data[k]])
        yield "ranks nonnegative", lambda q: And(*[rank(m, i(q)) >= 0 for _, i in L.ints])
        yield "earlier entries kept", lambda q: S.forall(lambda k: Imp(And(k >= 0, k < o.len), s.st(q)[0][k] == o[k]), 1, pats=lambda k: [s.st(q)[0][k]])
class VI(Contract):
    cls = IT + "<unsigned int>"
def gap(m, a, b): return S.forall(lambda j: Imp(And(j >= a, j < b, j < m.data.len), m.data[j] == m.emptyval), 1, pats=lambda j: [m.data[j]])
class ItCtor(VI):
    qname = IT + "::vmap_iterator"
    def modifies(self, s): return [s.this.loc("offset"), s.this.loc("vm")]
    def ensures(self, s):
        m = s[0]; o = s.new.this.offset
        yield "inside the map", And(o >= 0, o <= m.data.len)
        yield "at the first key", Or(o == m.data.len, has(m, o))
        yield "no key before it", gap(m, S.lit(0), o)
    def loop_inv(self, s, L):
        for nm, i in L.ints: yield "no key skipped up to %s" % nm, lambda q, i=i: gap(s[0], S.lit(0), i(q))
class HasNext(VI):
    qname = IT + "::has_next"
    def requires(self, s): yield "inside the map", s.this.offset <= s.this.vm.data.len
    def modifies(self, s): return [s.this.loc("offset")]
    def ensures(self, s):
        m = s.this.vm; o, n = s.old.this.offset, s.new.this.offset
        yield "inside the map", And(n >= o, n <= m.data.len)
        yield "true exactly when standing on a key", s.ret == has(m, n)
        yield "stops at the end only when no key is left", Or(s.ret, n == m.data.len)
        yield "skips no key", gap(m, o, n)
    def loop_inv(self, s, L):
        m = s.this.vm; o = s.old.this.offset
        for nm, i in L.ints: yield "no key skipped up to %s" % nm, lambda q, i=i: gap(m, o, i(q))
class Next(VI):
    qname = IT + "::next"
    def requires(self, s): yield "on a key", has(s.this.vm, s.this.offset)
    def modifies(self, s): return [s.this.loc("offset")]
    def ensures(self, s):
        m = s.this.vm; o = s.old.this.offset
        yield "yields the key and its value", And(s.ret.first == o, s.ret.second == m.data[o])
        yield "moves past it", s.new.this.offset == o + 1
class GetIterator(VC):
    qname = VM + "::get_iterator"
    def ensures(self, s):
        m = s.this; o = s.ret.offset
        yield "at the first key", And(o >= 0, o <= m.data.len, Or(o == m.data.len, has(m, o)))
        yield "no key before it", gap(m, S.lit(0), o)
CONTRACTS = [ItCtor, HasNext, Next, GetIterator, Ctor, Ctor0, SetCapacity, Size, Empty, Erase, Clear, Index, At, IndexConst, HasKey, KeyCount, Keyless, GetKeys]
