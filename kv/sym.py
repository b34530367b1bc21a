"""Terms: mathematical integers and reals with products kept in a canonical polynomial form over
uninterpreted multiplication, bounded sums as lambda-lifted recursive functions, arrays as closures."""
import z3, hashlib, itertools

_sort_eq = z3.SortRef.__eq__
z3.SortRef.__eq__ = lambda a, b: isinstance(b, z3.SortRef) and _sort_eq(a, b)
_sort_ne = z3.SortRef.__ne__
z3.SortRef.__ne__ = lambda a, b: not isinstance(b, z3.SortRef) or _sort_ne(a, b)

I = z3.IntSort(); R = z3.RealSort(); B = z3.BoolSort()
imul = z3.Function("imul", I, I, I)
rmul = z3.Function("rmul", R, R, R)
rinv = z3.Function("rinv", R, R)
sqrt = z3.Function("sqrt", R, R)
idiv = z3.Function("idiv", I, I, I)
rpow = z3.Function("rpow", R, R, R)
rlog = z3.Function("rlog", R, R)
rexp = z3.Function("rexp", R, R)
rceil = z3.Function("rceil", R, R)
rlog2 = z3.Function("rlog2", R, R)
rfun = {}
def real_fun(name):
    if name not in rfun:
        rfun[name] = z3.Function("rf_" + name, R, R)
    return rfun[name]
trunc = z3.Function("trunc", R, I)
DBL_MAX = z3.Real("DBL_MAX")
DBL_MIN = z3.Real("DBL_MIN")

_fresh = itertools.count()
def fresh_name(base):
    return "%s!%d" % (base, next(_fresh))
def fresh(sort, base):
    return z3.Const(fresh_name(base), sort)

def lit(v):
    return z3.IntVal(v)
def rlit(v):
    return z3.RealVal(v)

def is_num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)

# ---------------------------------------------------------------- polynomials
_atoms = {}
_keys = {}
def _akey(t):
    """structural ordering key: canonical across runs and independent of creation order"""
    i = t.get_id()
    k = _keys.get(i)
    if k is None:
        k = (t, (t.decl().name(), t.sexpr()))
        _keys[i] = k
        _atoms[k[1]] = t
    return k[1]

def to_poly(t):
    """dict: monomial (tuple of atoms sorted by key) -> Fraction coefficient."""
    from fractions import Fraction
    out = {}
    def add(m, c):
        key = tuple(sorted((_akey(a) for a in m)))
        for a in m:
            _atoms[_akey(a)] = a
        out[key] = out.get(key, 0) + c
        if out[key] == 0:
            del out[key]
    def go(t, c):
        if z3.is_int_value(t):
            add((), c * t.as_long()); return
        if z3.is_rational_value(t):
            add((), c * Fraction(t.numerator_as_long(), t.denominator_as_long())); return
        d = t.decl().kind()
        if d == z3.Z3_OP_ADD:
            for x in t.children(): go(x, c)
            return
        if d == z3.Z3_OP_SUB:
            ch = t.children(); go(ch[0], c)
            for x in ch[1:]: go(x, -c)
            return
        if d == z3.Z3_OP_UMINUS:
            go(t.arg(0), -c); return
        if d == z3.Z3_OP_MUL:
            ch = t.children()
            nums = [x for x in ch if is_num(x)]
            rest = [x for x in ch if not is_num(x)]
            if len(rest) <= 1:
                k = c
                for x in nums:
                    k = k * (x.as_long() if z3.is_int_value(x) else Fraction(x.numerator_as_long(), x.denominator_as_long()))
                if rest: go(rest[0], k)
                else: add((), k)
                return
        if t.decl().eq(imul) or t.decl().eq(rmul):
            add(tuple(_factors(t)), c); return
        if d == z3.Z3_OP_TO_REAL:
            a = t.arg(0)
            if a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
                p = to_poly(a)
                for m, k in p.items():
                    if len(m) <= 1:
                        add(tuple(z3.ToReal(_atoms[x]) for x in m), c * k)
                    else:
                        add(tuple([z3.ToReal(_mono(m, False))]), c * k)
                return
        add((t,), c)
    go(t, 1)
    return out

def _factors(t):
    if t.decl().eq(imul) or t.decl().eq(rmul):
        return _factors(t.arg(0)) + _factors(t.arg(1))
    return [t]

def _mono(key, real):
    f = [_atoms[k] for k in key]
    if not f:
        return rlit(1) if real else lit(1)
    r = f[-1]
    for x in reversed(f[:-1]):
        r = rmul(x, r) if real else imul(x, r)
    return r

def from_poly(p, real):
    terms = []
    for key in sorted(p):
        c = p[key]
        if key == ():
            terms.append(rlit(str(c)) if real else lit(int(c)))
            continue
        m = _mono(key, real)
        if c == 1: terms.append(m)
        elif c == -1: terms.append(-m)
        else: terms.append((rlit(str(c)) if real else lit(int(c))) * m)
    if not terms:
        return rlit(0) if real else lit(0)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r

def has_addlike(t):
    return True

def mul(a, b):
    """product with canonical form; sorts must agree"""
    real = z3.is_real(a)
    if z3.is_real(a) != z3.is_real(b):
        raise TypeError("mul sorts")
    if is_num(a) and is_num(b):
        return z3.simplify(a * b)
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 60:
        return rmul(a, b) if real else imul(a, b)
    out = {}
    for ka, ca in pa.items():
        for kb, cb in pb.items():
            k = tuple(sorted(ka + kb))
            if real:
                k = _cancel(k)
            out[k] = out.get(k, 0) + ca * cb
            if out[k] == 0: del out[k]
    return from_poly(out, real)

def _cancel(k):
    return k

def norm(t):
    real = z3.is_real(t)
    if z3.is_bool(t): return t
    return from_poly(to_poly(t), real)

def add(a, b): return norm(a + b)
def sub(a, b): return norm(a - b)

def rdiv(a, b):
    if is_num(b) and not z3.is_true(z3.simplify(b == 0)):
        return norm(z3.simplify(rlit(1) / b) * a)
    return mul(a, rinv(b))

def toreal(t):
    if z3.is_real(t): return t
    if z3.is_int_value(t): return rlit(t.as_long())
    if z3.is_bool(t): return z3.If(t, rlit(1), rlit(0))
    return norm(z3.ToReal(t))

def toint(t):
    if z3.is_bool(t): return z3.If(t, lit(1), lit(0))
    return t

def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)

def And(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs): return z3.BoolVal(False)
    if not xs: return z3.BoolVal(True)
    if len(xs) == 1: return xs[0]
    return z3.And(*xs)
def Or(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs): return z3.BoolVal(True)
    if not xs: return z3.BoolVal(False)
    if len(xs) == 1: return xs[0]
    return z3.Or(*xs)
def Not(x):
    if z3.is_true(x): return z3.BoolVal(False)
    if z3.is_false(x): return z3.BoolVal(True)
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return z3.BoolVal(True)
    return z3.Implies(a, b)

# ---------------------------------------------------------------- arrays as closures
class Arr:
    """n-dimensional array value: sel(*idx) -> term"""
    __slots__ = ("dim", "sort", "fn", "name", "_cache", "uf")
    def __init__(self, dim, sort, fn, name="", uf=None):
        self.dim = dim; self.sort = sort; self.fn = fn; self.name = name; self._cache = {}; self.uf = uf
    def sel(self, *idx):
        assert len(idx) == self.dim, (self.name, self.dim, idx)
        k = tuple(i.get_id() for i in idx)
        r = self._cache.get(k)
        if r is None:
            r = (idx, self.fn(*idx))
            self._cache[k] = r
        return r[1]
    def store(self, idx, v):
        old = self
        def fn(*j):
            conds = []
            for a, b in zip(idx, j):
                if a.eq(b): continue
                e = z3.simplify(a == b, arith_lhs=True) if (is_num(a) and is_num(b)) else _eqc(a, b)
                if z3.is_false(e): return old.sel(*j)
                conds.append(e)
            return ite(And(*conds), v, old.sel(*j))
        return Arr(self.dim, self.sort, fn, self.name)

def _eqc(a, b):
    p = to_poly(a - b)
    if not p: return z3.BoolVal(True)
    if list(p.keys()) == [()]: return z3.BoolVal(False)
    return a == b

def fresh_arr(dim, sort, name):
    uf = z3.Function(fresh_name(name), *([I] * dim + [sort]))
    return Arr(dim, sort, lambda *i: uf(*i), name, uf)

def const_arr(dim, sort, v):
    return Arr(dim, sort, lambda *i: v, "const")

# ---------------------------------------------------------------- quantified facts
class FA:
    """forall vars. body ; kept as a closure so the prover can instantiate it itself."""
    def __init__(self, sorts, fn, pats=None, guard=None, name=""):
        self.sorts = sorts; self.fn = fn; self.pats = pats; self.guard = guard; self.name = name
        self._z = None; self._ic = {}; self._rp = None; self._ep = None
    def inst(self, *v):
        k = tuple(x.get_id() for x in v)
        r = self._ic.get(k)
        if r is None:
            r = (v, self._inst(*v)); self._ic[k] = r
        return r[1]
    def _inst(self, *v):
        b = self.fn(*v)
        if self.guard is not None: b = Implies(self.guard, b)
        return b
    def guarded(self, g):
        g2 = g if self.guard is None else And(self.guard, g)
        return FA(self.sorts, self.fn, self.pats, g2, self.name)
    def z(self):
        if self._z is None:
            vs = [z3.Const("q%d!%d" % (i, next(_fresh)), s) for i, s in enumerate(self.sorts)]
            b = self.inst(*vs)
            pats = []
            if self.pats:
                for p in self.pats(*vs):
                    if isinstance(p, (list, tuple)):
                        pats.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
                    else: pats.append(p)
            pats = [p for p in pats if _okpat(p, vs)]
            pats = pats + [w for p in pats for w in _swapped(p)]
            self._z = z3.ForAll(vs, b, patterns=pats) if pats else z3.ForAll(vs, b)
        return self._z

def rowpats(fa):
    """patterns f(.., row*width + col, ..) of a fact over row and column: (symbol, argument, width, row position, column position)"""
    if fa._rp is None:
        fa._rp = []
        if len(fa.sorts) == 2 and fa.pats and all(s == I for s in fa.sorts):
            vs = [skolem(i, s, "rp") for i, s in enumerate(fa.sorts)]
            for p in fa.pats(*vs):
                if isinstance(p, (list, tuple)):
                    if len(p) != 1: continue
                    p = p[0]
                if not z3.is_app(p) or p.decl().kind() != z3.Z3_OP_UNINTERPRETED: continue
                for ai, a in enumerate(p.children()):
                    if not z3.is_int(a) or not z3.is_add(a): continue
                    q = to_poly(a)
                    for r in (0, 1):
                        kr, kc = _akey(vs[r]), _akey(vs[1 - r])
                        ms = [m for m in q if kr in m]
                        if len(ms) == 1 and len(ms[0]) == 2 and q[ms[0]] == 1 and len(q) == 2 and q.get((kc,)) == 1:
                            w = [x for x in ms[0] if x != kr]
                            if len(w) == 1: fa._rp.append((p.decl().name(), ai, w[0], r))
    return fa._rp

def elempats(fa):
    """patterns f(.., q, ..) of a fact over one index q: (symbol, argument)"""
    if fa._ep is None:
        fa._ep = []
        if len(fa.sorts) == 1 and fa.pats and fa.sorts[0] == I:
            v = skolem(0, I, "rp")
            for p in fa.pats(v):
                if isinstance(p, (list, tuple)):
                    if len(p) != 1: continue
                    p = p[0]
                if not z3.is_app(p) or p.decl().kind() != z3.Z3_OP_UNINTERPRETED: continue
                for ai, a in enumerate(p.children()):
                    if a.eq(v): fa._ep.append((p.decl().name(), ai))
    return fa._ep

def rowsplit(t, ai, w):
    """the (row, col) with argument ai of t equal to row*w + col"""
    q = to_poly(t.arg(ai)); out = []
    for m in q:
        if len(m) == 2 and q[m] == 1 and w in m:
            o = list(m); o.remove(w)
            rest = {k: v for k, v in q.items() if k != m}
            out.append((_atoms[o[0]], from_poly(rest, False)))
    return out

def _swapped(p):
    """the same pattern with every two-term sum written the other way round"""
    hit = [False]
    def go(t):
        if not z3.is_app(t) or not t.num_args(): return t
        ch = [go(c) for c in t.children()]
        if t.decl().kind() == z3.Z3_OP_ADD and len(ch) == 2:
            hit[0] = True; return ch[1] + ch[0]
        return t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
    if z3.is_pattern(p):
        q = [go(p.arg(i)) for i in range(p.num_args())] if hasattr(p, "num_args") else []
        return [z3.MultiPattern(*q)] if hit[0] and len(q) > 1 else []
    r = go(p)
    return [r] if hit[0] else []

def _okpat(p, vs):
    if z3.is_pattern(p): return True
    if not z3.is_app(p) or p.decl().kind() != z3.Z3_OP_UNINTERPRETED: return False
    txt = p.sexpr()
    if "ite" in txt: return False
    return all(v.decl().name() in txt for v in vs)

def forall(fn, n=1, pats=None, name="", sorts=None):
    return FA(sorts or [I] * n, fn, pats, None, name)

def fz(f):
    return f.z() if isinstance(f, FA) else f

def guard(c, f):
    if isinstance(f, FA): return f.guarded(c)
    return Implies(c, f)

# ---------------------------------------------------------------- bounded sums
class SumSym:
    def __init__(self, key, name, nparam, psorts, body, sort, kind="sum"):
        self.kind = kind
        self.key = key; self.name = name; self.psorts = psorts; self.body = body; self.sort = sort
        self.f = z3.Function(name, *(psorts + [I, sort]))
        self.nested = any(z3.is_app(t) and t.decl().name() in SUM_BY_DECL for t in subterms([body]))
SUMS = {}
SUM_BY_DECL = {}
_J = z3.Int("J!")
_depth = 0

def _contains(t, v, cache):
    k = t.get_id()
    if k in cache: return cache[k]
    r = t.eq(v) or any(_contains(c, v, cache) for c in t.children())
    cache[k] = r
    return r

def Min(n, fn):
    """least of DBL_MAX and fn(j) for 0 <= j < n"""
    return Sum(n, fn, R, "min")
def Max(n, fn, lo):
    raise NotImplementedError

def Sum(n, fn, sort=R, kind="sum"):
    """sum of fn(j) for 0 <= j < n; canonical up to syntactic equality of the body"""
    global _depth
    own = z3.Int("J!!%d" % _depth)      # nested sums must not capture each other's index
    _depth += 1
    try: body = fn(own)
    finally: _depth -= 1
    if sort == R and not z3.is_real(body): body = toreal(body)
    body = z3.simplify(body, som=False, blast_distinct=False, elim_ite=False, arith_ineq_lhs=False, push_ite_arith=False) if False else body
    cache = {}
    params = []
    pidx = {}
    def lift(t):
        if not _contains(t, own, cache):
            if is_num(t) or (z3.is_bool(t) and (z3.is_true(t) or z3.is_false(t))): return t
            k = t.get_id()
            if k not in pidx:
                pidx[k] = len(params); params.append(t)
            return z3.Const("V%d!%s" % (pidx[k], t.sort().name()), t.sort())
        if t.eq(own): return _J
        ch = [lift(c) for c in t.children()]
        # keep canonical child order for commutative +
        return t.decl()(*ch) if t.num_args() else t
    lb = lift(body)
    psorts = [p.sort() for p in params]
    key = kind + "|" + lb.sexpr() + "|" + str(sort)
    s = SUMS.get(key)
    if s is None:
        s = SumSym(key, "%s%d" % (kind.upper(), len(SUMS)), len(params), psorts, lb, sort, kind)
        SUMS[key] = s
        SUM_BY_DECL[s.f.name()] = s
    return s.f(*(params + [n]))

_sbc = {}
def sum_body(s, params, j):
    k = (s.name, tuple(p.get_id() for p in params), j.get_id())
    r = _sbc.get(k)
    if r is None:
        r = (params, j, _sum_body(s, params, j)); _sbc[k] = r
    return r[2]
def _sum_body(s, params, j):
    subs = [(z3.Const("V%d!%s" % (i, p.sort().name()), p.sort()), p) for i, p in enumerate(params)]
    subs.append((_J, j))
    return renorm(z3.substitute(s.body, *subs))

def renorm(t):
    """re-canonicalise products after substitution"""
    cache = {}
    def go(t):
        k = t.get_id()
        if k in cache: return cache[k][1]
        if z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            if t.decl().eq(imul) or t.decl().eq(rmul):
                r = mul(ch[0], ch[1])
            else:
                same = all(a.eq(b) for a, b in zip(ch, t.children()))
                r = t if same else t.decl()(*ch)
        else:
            r = t
        cache[k] = (t, r)
        return r
    return go(t)

def subterms(fs):
    seen = set(); out = []
    st = list(fs)
    while st:
        t = st.pop()
        k = t.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(t):
            out.append(t)
            continue   # ground terms only
        out.append(t)
        st.extend(t.children())
    return out

_skc = {}
def skolem(i, sort, tag="sk"):
    """constants private to one query; reused by later queries so that instances can be shared"""
    k = (tag, i, sort.name())
    if k not in _skc: _skc[k] = z3.Const("%s%d!%s" % (tag, i, sort.name()), sort)
    return _skc[k]

_scanc = {}
def scan(f):
    """the bounded sums and products occurring in one formula"""
    k = f.get_id()
    r = _scanc.get(k)
    if r is None:
        sums, mon, rowed = [], [], []
        for t in subterms([f]):
            if not z3.is_app(t): continue
            d = t.decl()
            if t.num_args() and d.kind() == z3.Z3_OP_UNINTERPRETED and any(z3.is_add(c) for c in t.children()): rowed.append(t)
            if d.name() in SUM_BY_DECL: sums.append(t)
            elif d.eq(rmul): mon.append(t)
        r = (f, sums, mon, rowed); _scanc[k] = r
    return r

# ---------------------------------------------------------------- background axioms
def axioms():
    x, y, n = z3.Ints("ax_x ax_y ax_n")
    r, s = z3.Reals("ax_r ax_s")
    A = []
    A.append(z3.ForAll([x, n], z3.Implies(z3.And(x >= 0, n >= 0), imul(x, n) >= 0), patterns=[imul(x, n)]))
    A.append(z3.ForAll([x, y], imul(x, y) == imul(y, x), patterns=[imul(x, y)]))
    A.append(z3.ForAll([x, n], z3.Implies(x == 0, imul(x, n) == 0), patterns=[imul(x, n)]))
    A.append(z3.ForAll([x, n], z3.Implies(x == 1, imul(x, n) == n), patterns=[imul(x, n)]))
    A.append(z3.ForAll([x, y, n], z3.Implies(z3.And(n >= 0, x < y), imul(x, n) + n <= imul(y, n)),
                       patterns=[z3.MultiPattern(imul(x, n), imul(y, n))]))
    A.append(z3.ForAll([x, y, n], z3.Implies(x + 1 == y, imul(y, n) == imul(x, n) + n),
                       patterns=[z3.MultiPattern(imul(x, n), imul(y, n))]))
    A.append(z3.ForAll([x, n], z3.Implies(z3.And(x >= 1, n >= 0), imul(x, n) >= n), patterns=[imul(x, n)]))
    d = idiv(x, n)
    A.append(z3.ForAll([x, n], z3.Implies(z3.And(x >= 0, n > 0), z3.And(d >= 0, imul(d, n) <= x, x < imul(d, n) + n)), patterns=[d]))
    A.append(z3.ForAll([r, s], rmul(r, s) == rmul(s, r), patterns=[rmul(r, s)]))
    A.append(z3.ForAll([r, s], z3.Implies(r == s, rmul(r, s) >= 0), patterns=[rmul(r, s)]))
    A.append(z3.ForAll([r, s], z3.Implies(r == 0, rmul(r, s) == 0), patterns=[rmul(r, s)]))
    A.append(z3.ForAll([r, s], z3.Implies(r == 1, rmul(r, s) == s), patterns=[rmul(r, s)]))
    A.append(z3.ForAll([r, s], z3.Implies(z3.And(r >= 0, s >= 0), rmul(r, s) >= 0), patterns=[rmul(r, s)]))
    A.append(z3.ForAll([r], z3.Implies(r != 0, rmul(r, rinv(r)) == 1), patterns=[rinv(r)]))
    A.append(z3.ForAll([r], z3.Implies(r > 0, rinv(r) > 0), patterns=[rinv(r)]))
    A.append(z3.ForAll([r], z3.Implies(r >= 0, sqrt(r) >= 0), patterns=[sqrt(r)]))
    A.append(z3.ForAll([r, s], z3.Implies(z3.And(r >= 0, r < s), sqrt(r) < sqrt(s)),
                       patterns=[z3.MultiPattern(sqrt(r), sqrt(s))]))
    A.append(z3.ForAll([r], z3.Implies(r > 0, sqrt(r) > 0), patterns=[sqrt(r)]))
    A.append(DBL_MAX > 1000000)
    A.append(z3.And(DBL_MIN > 0, DBL_MIN < rlit("1/1000000")))
    return A
_AX = None
def AX():
    global _AX
    if _AX is None: _AX = axioms()
    return _AX
