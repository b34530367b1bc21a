"""K11: flag vector."""
from kv import sym as S
from kv.verify import Contract
from .lib import *
BV = "knor::base::thd_safe_bool_vector"
CH = lambda d, i, j: d[i]["_"][j] if False else getattr(d[i], "_")[j]
def flag(d, i): return And(CH(d, i, 0) == 49, CH(d, i, 1) == 0)
def written(d, i): return CH(d, i, 1) == 0

class Bool(Contract):
    qname = "knor::base::_bool::_bool"; nparams = 1
    def modifies(self, s): return [s.this.loc("_")]
    def ensures(self, s):
        n = getattr(s.new.this, "_")
        yield "characters", And(n[0] == s[0], n[1] == 0)
class ToBool(Contract):
    qname = "knor::base::_bool::operator bool"
    def requires(self, s): yield "has been written", getattr(s.this, "_")[1] == 0
    def ensures(self, s): yield "true exactly for '1'", s.ret == (getattr(s.this, "_")[0] == 49)

class _V(Contract):
    thisty = BV
    def inb(self, s): return And(s[0] >= 0, s[0] < s.this.data.len)
class Get(_V):
    qname = BV + "::get"
    def requires(self, s):
        yield "index valid", self.inb(s)
        yield "flag has been written", written(s.this.data, s[0])
    def ensures(self, s): yield "last value written", s.ret == flag(s.this.data, s[0])
class Index(Get): qname = BV + "::operator[]"
class Size(_V):
    qname = BV + "::size"
    def ensures(self, s): yield "number of flags", s.ret == s.this.data.len

def keep(n, o, lo, hi, exc=None):
    """characters of flags lo..hi-1 (except one) are untouched"""
    for j in (0, 1):
        yield "other flags untouched (%d)" % j, S.forall(lambda i: Imp(And(i >= lo, i < hi, *([i != exc] if exc is not None else [])), CH(n, i, j) == CH(o, i, j)), 1, pats=lambda i: [CH(n, i, j)])

class Set(_V):
    qname = BV + "::set"
    def requires(self, s): yield "index valid", self.inb(s)
    def modifies(self, s): return [s.this.data]
    def ensures(self, s):
        o, n = s.old.this.data, s.new.this.data
        yield "size kept", n.len == o.len
        yield "flag reads back", And(written(n, s[0]), flag(n, s[0]) == s[1])
        yield from keep(n, o, S.lit(0), o.len, s[0])
class CheckSet(_V):
    qname = BV + "::check_set"
    def requires(self, s): yield "index", s[0] >= 0
    def modifies(self, s): return [s.this.data]
    def ensures(self, s):
        o, n = s.old.this.data, s.new.this.data
        yield "grows to hold the flag", n.len == S.ite(s[0] < o.len, o.len, S.norm(s[0] + 1))
        yield "flag reads back", And(written(n, s[0]), flag(n, s[0]) == s[1])
        yield from keep(n, o, S.lit(0), o.len, s[0])
        yield "new flags are false", S.forall(lambda i: Imp(And(i >= o.len, i < s[0]), And(written(n, i), Not(flag(n, i)))), 1, pats=lambda i: [CH(n, i, 0)])
def init_to(L, s, lo, val):
    for nm, i in L.ints:
        for j in (0, 1):
            yield "entries below %s initialised (%d)" % (nm, j), lambda q, i=i, j=j: S.forall(lambda p: Imp(And(p >= lo, p < i(q)), CH(s.st(q).this.data, p, j) == (S.lit(0) if j else S.ite(val, S.lit(49), S.lit(48)))), 1, pats=lambda p: [CH(s.st(q).this.data, p, j)])
            yield "entries from %s kept (%d)" % (nm, j), lambda q, i=i, j=j: S.forall(lambda p: Imp(p < lo, CH(s.st(q).this.data, p, j) == CH(s.this.data, p, j)), 1, pats=lambda p: [CH(s.st(q).this.data, p, j)])
    yield "size fixed", lambda q: s.st(q).this.data.len == s.st(L.entry).this.data.len
class Resize(_V):
    qname = BV + "::resize"
    def modifies(self, s): return [s.this.data]
    def ensures(self, s):
        o, n = s.old.this.data, s.new.this.data
        yield "new size", n.len == s[0]
        yield from keep(n, o, S.lit(0), S.ite(o.len < s[0], o.len, s[0]))
        yield "new flags hold the initial value", S.forall(lambda i: Imp(And(i >= o.len, i < s[0]), And(written(n, i), flag(n, i) == s[1])), 1, pats=lambda i: [CH(n, i, 0)])
    def loop_inv(self, s, L): yield from init_to(L, s, s.this.data.len, s[1])
class Ctor(_V):
    qname = BV + "::thd_safe_bool_vector"; nparams = 1
    def modifies(self, s): return [s.this.data]
    def ensures(self, s): yield "size", s.new.this.data.len == s[0]
class CtorInit(_V):
    qname = BV + "::thd_safe_bool_vector"; nparams = 2
    def modifies(self, s): return [s.this.data]
    def ensures(self, s):
        n = s.new.this.data
        yield "size", n.len == s[0]
        yield "every flag holds the initial value", S.forall(lambda i: Imp(And(i >= 0, i < s[0]), And(written(n, i), flag(n, i) == s[1])), 1, pats=lambda i: [CH(n, i, 0)])
    def loop_inv(self, s, L): yield from init_to(L, s, S.lit(0), s[1])
CONTRACTS = [Bool, ToBool, Get, Index, Size, Set, CheckSet, Resize, Ctor, CtorInit]
