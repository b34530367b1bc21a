"""Vocabulary shared by the contracts."""
import z3
from kv import sym as S
from kv.exec import Loc, Ptr, Unsupported
from kv.view import View, PView

# dist_t enumerators are read from the source by the driver (see kv.check); the order below is
# confirmed against the AST when the contracts are loaded
EUCL, COS, TAXI, SQEUCL = [S.lit(i) for i in range(4)]
ENUMS = {}

def And(*a): return S.And(*a)
def Or(*a): return S.Or(*a)
def Not(a): return S.Not(a)
def Imp(a, b): return S.Implies(a, b)
def ite(c, a, b): return S.ite(c, a, b)
def sq(t):
    t = S.norm(t); return S.mul(t, t)
def absr(t):
    t = S.norm(t); return S.ite(t >= 0, t, S.norm(-t))
def I(i): return S.lit(i) if isinstance(i, int) else i
def R(i): return S.rlit(i) if isinstance(i, int) else i

def fits(p, n):
    """n elements starting at p lie inside the region p points into"""
    return And(p.off >= 0, S.norm(p.off + n) <= p.cap)

def sqeucl(x, y, n): return S.Sum(n, lambda j: sq(x(j) - y(j)), S.R)
def eucl(x, y, n): return S.sqrt(sqeucl(x, y, n))
def taxi(x, y, n): return S.Sum(n, lambda j: absr(x(j) - y(j)), S.R)
def dot(x, y, n): return S.Sum(n, lambda j: S.mul(x(j), y(j)), S.R)
def cosd(x, y, n):
    return S.sub(S.rlit(1), S.rdiv(dot(x, y, n), S.mul(S.sqrt(dot(x, x, n)), S.sqrt(dot(y, y, n)))))
def valid_metric(t): return And(t >= 0, t <= 3)
def dist(x, y, n, t):
    return S.ite(t == EUCL, eucl(x, y, n), S.ite(t == COS, cosd(x, y, n), S.ite(t == TAXI, taxi(x, y, n), sqeucl(x, y, n))))

def forall(fn, n=1, pats=None, name="", sorts=None): return S.forall(fn, n, pats, name, sorts)
def between(j, lo, hi): return z3.And(j >= I(lo), j < hi)

def exists(fn, pat):
    k = z3.Const(S.fresh_name("ex"), S.I)
    return z3.Exists([k], fn(k), patterns=[pat(k)])

def distributes():
    """lemma: multiplication distributes over a sum known only by an equation"""
    return "multiplication distributes", S.forall(lambda x, y, w, z: Imp(x == y + w, S.rmul(x, z) == S.rmul(y, z) + S.rmul(w, z)), 4, pats=lambda x, y, w, z: [(S.rmul(x, z), S.rmul(y, z), S.rmul(w, z))], sorts=[S.R] * 4), "products"

# ---------------------------------------------------------------- invariant templates
def loop_vars(L):
    """(integers the loop changes, loop variables of the enclosing loops)"""
    return L.ints, L.outer()
def sweep(L, arr, off, n, val, name, only=None):
    """elements [off, off+progress) of a flat array hold val(p), the others their value on loop entry;
    progress ranges over every integer the loop changes, forwards and backwards.
    arr: state -> (p -> term)"""
    e = arr(L.entry)
    for inm, i in L.ints:
        forms = [("[off,off+%s)" % inm, lambda q, i=i: (off, S.norm(off + i(q)))),
                 ("[off,%s)" % inm, lambda q, i=i: (off, i(q))),
                 ("[off+%s,end)" % inm, lambda q, i=i: (S.norm(off + i(q)), S.norm(off + n))),
                 ("(off+%s,end)" % inm, lambda q, i=i: (S.norm(off + i(q) + 1), S.norm(off + n)))]
        if S.is_num(off) and off.as_long() == 0: del forms[1]
        for fnm, rng in forms:
            def fn(q, rng=rng):
                a = arr(q); lo, hi = rng(q)
                return S.forall(lambda p: a(p) == S.ite(And(p >= lo, p < hi), val(p), e(p)), 1, pats=lambda p: [a(p)])
            yield "%s swept over %s" % (name, fnm), fn

def sweep_ptr(L, arr, off, n, val, name):
    return sweep(L, arr, off, n, val, name)

def sums(L, cands):
    """every real accumulator equals a prefix sum of one of the candidate terms (plus its entry value)"""
    for rn, r in L.reals:
        r0 = r(L.entry)
        for inm, i in L.ints:
            for t, fn in cands:
                yield "%s = sum of %s below %s" % (rn, t, inm), (lambda r, i, fn, r0: lambda q: r(q) == S.add(r0, S.Sum(i(q), fn, S.R)))(r, i, fn, r0)

def same(a, b, n, name=""):
    """a(j) == b(j) for 0 <= j < n"""
    return S.forall(lambda j: Imp(And(j >= 0, j < n), a(j) == b(j)), 1, pats=lambda j: [a(j)], name=name)
def allj(n, fn, pats=None):
    return S.forall(lambda j: Imp(And(j >= 0, j < n), fn(j)), 1, pats=pats)


def enum(s, name):
    """value of an enumerator, read from the source"""
    return S.lit(s.ex.tu.enum_names[name])
