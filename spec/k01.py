"""K01: dissimilarity measures."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.exec import StrV
from .lib import *

class _Dist(Contract):
    inline = False
    def requires(self, s):
        n = s[2]
        yield "first vector has size elements", fits(s[0], n)
        yield "second vector has size elements", fits(s[1], n)
    def loop_inv(self, s, L):
        # every real accumulator against every term this measure sums, up to every loop counter
        for rn, r in L.reals:
            for inm, i in L.ints:
                for t, fn in self.terms(s):
                    yield "%s = sum of %s below %s" % (rn, t, inm), (lambda r, i, fn: lambda q: r(q) == S.Sum(i(q), fn, S.R))(r, i, fn)
    def x(self, s): return lambda j: s[0][j]
    def y(self, s): return lambda j: s[1][j]
    def terms(self, s):
        x, y = self.x(s), self.y(s)
        return [("squared difference", lambda j: sq(x(j) - y(j))), ("absolute difference", lambda j: absr(x(j) - y(j))),
                ("product", lambda j: S.mul(x(j), y(j))), ("x squared", lambda j: sq(x(j))), ("y squared", lambda j: sq(y(j)))]

def vec_of(p): return lambda j: p[j]

class EuclDist(_Dist):
    qname = "knor::base::eucl_dist"; targs = ["double"]
    def ensures(self, s): yield "Euclidean distance", s.ret == eucl(vec_of(s[0]), vec_of(s[1]), s[2])
class SqeuclDist(_Dist):
    qname = "knor::base::sqeucl_dist"; targs = ["double"]
    def ensures(self, s): yield "squared Euclidean distance", s.ret == sqeucl(vec_of(s[0]), vec_of(s[1]), s[2])
class TaxiDist(_Dist):
    qname = "knor::base::taxi_dist"; targs = ["double"]
    def ensures(self, s): yield "Manhattan distance", s.ret == taxi(vec_of(s[0]), vec_of(s[1]), s[2])
class CosDist(_Dist):
    qname = "knor::base::cos_dist"; targs = ["double"]
    def ensures(self, s): yield "cosine distance", s.ret == cosd(vec_of(s[0]), vec_of(s[1]), s[2])

class DistCompRaw(Contract):
    qname = "knor::base::dist_comp_raw"; targs = ["double"]
    def requires(self, s):
        n = s[2]
        yield "first vector has len elements", fits(s[0], n)
        yield "second vector has len elements", fits(s[1], n)
    def throws(self, s): return S.Not(valid_metric(s[3]))
    def ensures(self, s):
        yield "selected measure", s.ret == dist(vec_of(s[0]), vec_of(s[1]), s[2], s[3])

class GetDistType(Contract):
    qname = "knor::base::get_dist_type"
    NAMES = [("eucl", EUCL), ("cos", COS), ("taxi", TAXI), ("sqeucl", SQEUCL)]
    def is_(self, s, nm): return s._vals[0][2].term == StrV.lit('"%s"' % nm).term
    def throws(self, s): return S.And(*[S.Not(self.is_(s, n)) for n, _ in self.NAMES])
    def ensures(self, s):
        for n, v in self.NAMES: yield "'%s'" % n, S.Implies(self.is_(s, n), s.ret == v)

CONTRACTS = [EuclDist, SqeuclDist, TaxiDist, CosDist, DistCompRaw, GetDistType]
