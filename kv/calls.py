"""Calls: contracts, inlining of uncontracted callees, and the model of the std:: operations in use."""
import z3, re
from . import sym as S, ctypes_ as C, prove as P
from .exec import *
from .exec import MergeFail
from .interp import Interp, IGNORED, TRANSP
from .cast import qt

LIMITS = {"double": (S.DBL_MAX, S.DBL_MIN), "float": (S.DBL_MAX, S.DBL_MIN)}
def strip(n):
    while n.get("kind") in TRANSP or n.get("kind", "").endswith("CastExpr"):
        n = n["inner"][0]
    return n

MPI_RC, MPI_SIZE, MPI_RANK = z3.Int("mpi_init_result"), z3.Int("mpi_processes"), z3.Int("mpi_this_process")

class Calls(Interp):
    # ------------------------------------------------------------ free functions
    def e_CallExpr(self, n, st):
        callee = strip(n["inner"][0]); args = n["inner"][1:]
        if callee["kind"] == "MemberExpr":      # static member
            d = {"id": callee.get("referencedMemberDecl"), "name": callee["name"], "kind": "CXXMethodDecl"}
        elif callee["kind"] == "DeclRefExpr": d = callee["referencedDecl"]
        else: raise Unsupported("call of " + callee["kind"])
        name = d.get("name", "?")
        f = self.tu.definition(d["id"])
        fd = self.tu.decl(d["id"])
        if f is not None or self.contract_for(fd):
            return self.call_func(f or fd, None, args, st, n)
        if name in ("__assert_fail", "abort", "exit"):
            self.oblige("unreachable %s" % name, st, z3.BoolVal(False), "assert")
            raise Infeasible()
        if name in self.opts.get("ignore", ()) or name in IGNORED:
            for a in args:
                pass
            so = self.sort_of(self.ctype(n))
            return S.fresh(so, "ign") if so in (S.I, S.R, S.B) else OPAQUE
        m = getattr(self, "b_" + name, None)
        if m is None: raise Unsupported("call of %s" % name)
        return m(n, args, st)

    def rargs(self, args, st): return [self.rv(a, st) for a in args]

    def b_move(self, n, a, st): return self.ev(a[0], st)
    b_forward = b_move
    def b_static_pointer_cast(self, n, a, st): return self.rv(a[0], st)
    b_dynamic_pointer_cast = b_static_pointer_cast
    def b_omp_get_thread_num(self, n, a, st):
        if self.omp_loops:
            f, lev, var = self.omp_loops[-1]
            if var is not None and var in self.frames[lev].env:
                t = f(self.rd(st, self.frames[lev].env[var]))
                self.assume(st, t >= 0); self.assumed.add("omp_get_thread_num: some fixed thread per iteration of the OpenMP loop")
                return t
        t = S.fresh(S.I, "tid"); self.assume(st, t >= 0); return t
    def b_omp_get_max_threads(self, n, a, st):
        t = S.fresh(S.I, "nthr"); self.assume(st, t >= 1); return t
    b_omp_get_num_threads = b_omp_get_max_threads
    # the process environment of MPI: how many processes there are and which of them this one is
    def b_MPI_Init(self, n, a, st): return MPI_RC
    def b_MPI_Comm_size(self, n, a, st):
        self.assume(st, z3.And(MPI_SIZE >= 1, MPI_SIZE <= 2147483647)); self.assumed.add("MPI_Comm_size: stores the number of processes, at least 1")
        self.wr(st, self.rv(a[1], st).loc(), MPI_SIZE); return S.fresh(S.I, "rc")
    def b_MPI_Comm_rank(self, n, a, st):
        self.assume(st, z3.And(MPI_RANK >= 0, MPI_RANK < MPI_SIZE)); self.assumed.add("MPI_Comm_rank: stores this process's number, below the number of processes")
        self.wr(st, self.rv(a[1], st).loc(), MPI_RANK); return S.fresh(S.I, "rc")
    def b_rand(self, n, a, st):
        t = S.fresh(S.I, "rand"); self.assume(st, z3.And(t >= 0, t <= 2147483647)); return t
    b_random = b_rand

    def b_max(self, n, a, st):
        if not a:
            ty = self.ctype(n)
            if C.is_float(ty): return S.DBL_MAX
            w, sg = C.INTS[ty]
            return S.lit((1 << (w - 1)) - 1 if sg else (1 << w) - 1)
        x, y = self.num2(a, st)
        return S.ite(x < y, y, x)
    def b_min(self, n, a, st):
        if not a:
            ty = self.ctype(n)
            if C.is_float(ty): return S.DBL_MIN
            w, sg = C.INTS[ty]
            return S.lit(-(1 << (w - 1)) if sg else 0)
        x, y = self.num2(a, st)
        return S.ite(y < x, y, x)
    def b_lowest(self, n, a, st):
        return S.norm(-S.DBL_MAX)
    def num2(self, a, st):
        x, y = self.rargs(a, st)
        if z3.is_real(x) or z3.is_real(y): return S.toreal(x), S.toreal(y)
        return S.toint(x), S.toint(y)
    def b_abs(self, n, a, st):
        x = self.rv(a[0], st)
        if not z3.is_real(x): x = S.toint(x)
        return S.ite(x >= 0, x, S.norm(-x))
    b_fabs = b_labs = b_llabs = b_abs
    def b_sqrt(self, n, a, st):
        x = S.toreal(self.rv(a[0], st))
        return S.sqrt(x)
    b_sqrtf = b_sqrt
    def b_pow(self, n, a, st):
        x = S.toreal(self.rv(a[0], st)); y = S.toreal(self.rv(a[1], st))
        if z3.is_rational_value(y):
            if y.denominator_as_long() == 1 and 0 <= y.numerator_as_long() <= 3:
                r = S.rlit(1)
                for _ in range(y.numerator_as_long()): r = S.mul(r, x)
                return r
        return S.rpow(x, y)
    def b_log(self, n, a, st): return S.rlog(S.toreal(self.rv(a[0], st)))
    def b_exp(self, n, a, st): return S.rexp(S.toreal(self.rv(a[0], st)))
    def b_log2(self, n, a, st): return S.rlog2(S.toreal(self.rv(a[0], st)))
    def b_ceil(self, n, a, st): return S.rceil(S.toreal(self.rv(a[0], st)))
    def b_floor(self, n, a, st): return S.real_fun("floor")(S.toreal(self.rv(a[0], st)))

    def b_swap(self, n, a, st):
        x, y = self.lv(a[0], st), self.lv(a[1], st)
        so = self.sort_of(x.ty)
        if so in (S.I, S.R, S.B, "ptr"):
            u, v = self.rd(st, x), self.rd(st, y)
            self.wr(st, x, v); self.wr(st, y, u); return None
        t = self.temp(x.ty)
        self.copy_obj(st, t, x); self.copy_obj(st, x, y); self.copy_obj(st, y, t)
        return None

    def b_fill(self, n, a, st):
        b, e = self.rv(a[0], st), self.rv(a[1], st)
        v = self.ev(a[2], st)
        self.fill_range(b, S.sub(e.off, b.off), v, st); return None
    def b_fill_n(self, n, a, st):
        b = self.rv(a[0], st); k = S.toint(self.rv(a[1], st)); v = self.ev(a[2], st)
        self.fill_range(b, k, v, st); return b.plus(k)
    def fill_range(self, b, k, v, st):
        so = self.sort_of(b.ty)
        if so not in (S.I, S.R, S.B): raise Unsupported("fill of " + b.ty)
        if isinstance(v, Loc): v = self.rd(st, v)
        v = self.coerce(v, so)
        self.range_check(b, k, st)
        p = b.path + "[]"
        old = self.sub_arr(st, p, b.idxs, so, b.ty); off = b.off
        self.set_sub(st, p, b.idxs, so, b.ty,
                     S.Arr(1, so, lambda i: S.ite(S.And(i >= off, i < S.norm(off + k)), v, old.sel(i))))
    def b_copy(self, n, a, st):
        b, e = self.rv(a[0], st), self.rv(a[1], st); d = self.rv(a[2], st)
        return self.copy_range(b, S.sub(e.off, b.off), d, st)
    def b_copy_n(self, n, a, st):
        b = self.rv(a[0], st); k = S.toint(self.rv(a[1], st)); d = self.rv(a[2], st)
        return self.copy_range(b, k, d, st)
    def copy_range(self, b, k, d, st):
        so = self.sort_of(d.ty)
        if so not in (S.I, S.R, S.B) or self.sort_of(b.ty) not in (S.I, S.R, S.B): raise Unsupported("copy of " + d.ty)
        self.range_check(b, k, st); self.range_check(d, k, st)
        src = self.sub_arr(st, b.path + "[]", b.idxs, self.sort_of(b.ty), b.ty); so_off = b.off
        old = self.sub_arr(st, d.path + "[]", d.idxs, so, d.ty); off = d.off
        if b.path == d.path and not (b.same_region(d) and b.off.eq(d.off)):
            pass  # overlapping-copy precondition is assumed
        def fn(i):
            v = src.sel(S.norm(i - off + so_off))
            if so == S.R: v = S.toreal(v)
            return S.ite(S.And(i >= off, i < S.norm(off + k)), v, old.sel(i))
        self.set_sub(st, d.path + "[]", d.idxs, so, d.ty, S.Arr(1, so, fn))
        return d.plus(k)
    def b_memcpy(self, n, a, st):
        d = self.rv(a[0], st); b = self.rv(a[1], st); nb = S.toint(self.rv(a[2], st))
        sz = {"double": 8, "unsigned int": 4, "unsigned long": 8, "int": 4}.get(d.ty)
        p = S.to_poly(nb)
        if sz is None or any(c % sz for c in p.values()): raise Unsupported("memcpy")
        k = S.from_poly({m: c // sz for m, c in p.items()}, False)
        self.copy_range(b, k, d, st); return d
    def b_memset(self, n, a, st):
        d = self.rv(a[0], st); v = self.rv(a[1], st); nb = S.toint(self.rv(a[2], st))
        sz = {"double": 8, "unsigned int": 4, "unsigned long": 8, "int": 4}.get(d.ty)
        p = S.to_poly(nb)
        if sz is None or any(c % sz for c in p.values()) or not (z3.is_int_value(v) and v.as_long() == 0): raise Unsupported("memset")
        self.fill_range(d, S.from_poly({m: c // sz for m, c in p.items()}, False), S.lit(0), st); return d

    def b_accumulate(self, n, a, st):
        b, e = self.rv(a[0], st), self.rv(a[1], st); init = self.rv(a[2], st)
        if len(a) > 3: raise Unsupported("accumulate with functor")
        k = S.sub(e.off, b.off)
        self.range_check(b, k, st)
        so = self.sort_of(b.ty)
        ity = self.ctype(n)
        if C.is_int(ity) and so == S.R: return S.fresh(S.I, "truncated_accumulate")
        src = self.sub_arr(st, b.path + "[]", b.idxs, so, b.ty); off = b.off
        if C.is_float(ity):
            return S.add(S.toreal(init), S.Sum(k, lambda j: S.toreal(src.sel(S.norm(off + j))), S.R))
        return S.add(S.toint(init), S.Sum(k, lambda j: S.toint(src.sel(S.norm(off + j))), S.I))
    def b_inner_product(self, n, a, st):
        b, e = self.rv(a[0], st), self.rv(a[1], st); c = self.rv(a[2], st); init = self.rv(a[3], st)
        if not C.is_float(self.ctype(n)): raise Unsupported("inner_product")
        k = S.sub(e.off, b.off)
        self.range_check(b, k, st); self.range_check(c, k, st)
        x = self.sub_arr(st, b.path + "[]", b.idxs, S.R, b.ty); y = self.sub_arr(st, c.path + "[]", c.idxs, S.R, c.ty)
        return S.add(S.toreal(init), S.Sum(k, lambda j: S.mul(x.sel(S.norm(b.off + j)), y.sel(S.norm(c.off + j))), S.R))
    def b_distance(self, n, a, st):
        b, e = self.rv(a[0], st), self.rv(a[1], st)
        if not b.same_region(e): raise Unsupported("distance")
        return S.sub(e.off, b.off)
    def _ext(self, a, st, mx):
        b, e = self.rv(a[0], st), self.rv(a[1], st)
        if len(a) > 2: raise Unsupported("comparator")
        so = self.sort_of(b.ty)
        src = self.sub_arr(st, b.path + "[]", b.idxs, so, b.ty)
        k = S.fresh(S.I, "ext_el")
        self.range_check(b, S.sub(e.off, b.off), st)
        self.assume(st, z3.Implies(b.off < e.off, z3.And(k >= b.off, k < e.off)))
        self.assume(st, z3.Implies(b.off >= e.off, k == e.off))
        self.assume(st, S.forall(lambda j: z3.Implies(z3.And(j >= b.off, j < e.off), src.sel(j) <= src.sel(k) if mx else src.sel(j) >= src.sel(k)),
                                 1, pats=lambda j: [src.sel(j)]))
        self.assume(st, S.forall(lambda j: z3.Implies(z3.And(j >= b.off, j < k), src.sel(j) != src.sel(k)), 1, pats=lambda j: [src.sel(j)]))
        return Ptr("arr", b.path, b.idxs, k, b.ty)
    def _bound(self, a, st, upper):
        b, e = self.rv(a[0], st), self.rv(a[1], st)
        if len(a) > 3 or not b.same_region(e): raise Unsupported("bound with comparator")
        so = self.sort_of(b.ty)
        v = self.rv(a[2], st); v = S.toreal(v) if so == S.R else S.toint(v)
        self.range_check(b, S.sub(e.off, b.off), st)
        src = self.sub_arr(st, b.path + "[]", b.idxs, so, b.ty)
        before = (lambda x: x <= v) if upper else (lambda x: x < v)
        # the range has to be partitioned with respect to the value
        i = S.fresh(S.I, "i"); j = S.fresh(S.I, "j")
        self.oblige("range partitioned", st, z3.Implies(z3.And(b.off <= i, i < j, j < e.off, before(src.sel(j))), before(src.sel(i))), "assert")
        k = S.fresh(S.I, "bound")
        self.assume(st, z3.Implies(b.off <= e.off, z3.And(k >= b.off, k <= e.off)))
        self.assume(st, S.forall(lambda j: z3.Implies(z3.And(j >= b.off, j < k), before(src.sel(j))), 1, pats=lambda j: [src.sel(j)]))
        self.assume(st, S.forall(lambda j: z3.Implies(z3.And(j >= k, j < e.off), S.Not(before(src.sel(j)))), 1, pats=lambda j: [src.sel(j)]))
        # the instances that decide most uses: the element before the result and the one at it
        self.assume(st, z3.Implies(k > b.off, before(src.sel(S.norm(k - 1)))))
        self.assume(st, z3.Implies(k < e.off, S.Not(before(src.sel(k)))))
        return Ptr("arr", b.path, b.idxs, k, b.ty)
    def b_upper_bound(self, n, a, st): return self._bound(a, st, True)
    def b_lower_bound(self, n, a, st): return self._bound(a, st, False)
    def b_min_element(self, n, a, st): return self._ext(a, st, False)
    def b_max_element(self, n, a, st): return self._ext(a, st, True)
    def b_equal(self, n, a, st):
        b, e = self.rv(a[0], st), self.rv(a[1], st); c = self.rv(a[2], st)
        if len(a) > 3: raise Unsupported("equal with predicate")
        so = self.sort_of(b.ty)
        k = S.sub(e.off, b.off)
        self.range_check(b, k, st); self.range_check(c, k, st)
        x = self.sub_arr(st, b.path + "[]", b.idxs, so, b.ty); y = self.sub_arr(st, c.path + "[]", c.idxs, so, c.ty)
        r = S.fresh(S.B, "equal"); w = S.fresh(S.I, "neq_at")
        self.assume(st, S.forall(lambda j: z3.Implies(z3.And(r, j >= 0, j < k), x.sel(S.norm(b.off + j)) == y.sel(S.norm(c.off + j))), 1,
                                 pats=lambda j: [x.sel(S.norm(b.off + j))]))
        self.assume(st, z3.Implies(z3.Not(r), z3.And(w >= 0, w < k, x.sel(S.norm(b.off + w)) != y.sel(S.norm(c.off + w)))))
        return r
    def b_strcmp(self, n, a, st):
        x, y = self.rv(a[0], st), self.rv(a[1], st)
        if isinstance(x, StrV): x, y = y, x
        if not (isinstance(y, StrV) and y.text is not None): raise Unsupported("strcmp")
        t = y.text[1:-1]
        if isinstance(x, StrV): return S.ite(self.cmp("==", x.term, y.term, st), S.lit(0), S.lit(1))
        conds = []; cur = z3.BoolVal(True)
        for i, ch in enumerate(list(t) + [None]):
            v = S.toint(self.rd(st, x.loc(S.lit(i)) if x.kind == "obj" else Loc(x.path + "[]", x.idxs + (S.norm(x.off + i),), x.ty)))
            conds.append(v == (ord(ch) if ch else 0))
        r = S.fresh(S.I, "strcmp")
        self.assume(st, (r == 0) == S.And(*conds))
        return r

    def map_iter(self, l, st, end):
        """iteration over an unordered_map visits every present key once, in some order"""
        kt, vt = C.map_kv(l.ty); self.mapish = self.mapish | {l.path}
        n = self.rd_size(st, l)
        if end: return Ptr("mapit", l.path, l.idxs, n, l.ty)
        key = z3.Function(S.fresh_name("mapkey"), S.I, S.I); idx = z3.Function(S.fresh_name("mapidx"), S.I, S.I)
        dom = self.sub_arr(st, l.path + ".dom[]", l.idxs, S.B, "bool")
        self.assume(st, n >= 0)
        self.assume(st, S.forall(lambda i: z3.Implies(z3.And(i >= 0, i < n), S.And(dom.sel(key(i)), idx(key(i)) == i)), 1, pats=lambda i: [key(i)]))
        self.assume(st, S.forall(lambda k: z3.Implies(dom.sel(k), z3.And(idx(k) >= 0, idx(k) < n, key(idx(k)) == k)), 1, pats=lambda k: [idx(k)]))
        self.mapkeys[(l.path, tuple(i.get_id() for i in l.idxs))] = (key, idx)
        return Ptr("mapit", l.path, l.idxs, S.lit(0), l.ty)
    mapkeys = {}
    def maporder(self, view):
        """(key at a position, position of a key) of the iteration over a map that is under way"""
        l = view._loc
        return self.mapkeys.get((l.path, tuple(i.get_id() for i in l.idxs)))
    def map_deref(self, p, st):
        key, idx = self.mapkeys[(p.path, tuple(i.get_id() for i in p.idxs))]
        k = key(p.off)
        kl = self.temp("unsigned int"); self.set_leaf(st, kl.path, k)
        return Pair(kl, Loc(p.path + "[]", p.idxs + (k,), C.map_kv(p.ty)[1]))

    def b_pthread_create(self, n, a, st):
        self.assumed.add("threads are created successfully (pthread_create returns 0)")
        return S.lit(0)
    def b_fopen(self, n, a, st):
        self.assumed.add("files open successfully (fopen returns non-null)")
        return Ptr("obj", "new#file", (), None, "FILE")
    def b_begin(self, n, a, st): return self.vec_method("begin", self.lv(a[0], st), [], st, n)
    def b_end(self, n, a, st): return self.vec_method("end", self.lv(a[0], st), [], st, n)
    def b_to_string(self, n, a, st): return OPAQUE
    def b_isnan(self, n, a, st): return z3.BoolVal(False)
    b_isinf = b_isnan
    def b_isfinite(self, n, a, st): return z3.BoolVal(True)
    def b_make_pair(self, n, a, st):
        x, y = self.rargs(a, st)
        return Pair(x, y)
    b_tie = None
    def b_numa_alloc_onnode(self, n, a, st):
        self.rv(a[0], st); raise Unsupported("numa_alloc")

    # ------------------------------------------------------------ member calls
    def e_CXXMemberCallExpr(self, n, st):
        me = strip(n["inner"][0]); args = n["inner"][1:]
        if me["kind"] != "MemberExpr": raise Unsupported("member call via " + me["kind"])
        name = me["name"]; rid = me.get("referencedMemberDecl")
        base = me["inner"][0]
        f = self.tu.definition(rid); fd = self.tu.decl(rid)
        if me.get("isArrow"):
            o = self.rv(base, st)
        else:
            o = self.ev(base, st)
        if o is OPAQUE or o is None:
            if name in ("print",): return None
            so = self.sort_of(self.ctype(n))
            if f is None and fd is None:
                for a in args:
                    pass
                return S.fresh(so, "opq_" + re.sub(r"\W", "_", name)) if so in (S.I, S.R, S.B) else OPAQUE
            raise Unsupported("method on opaque")
        if fd is not None or f is not None:
            if name in IGNORED and name.startswith("print"): return None
            loc = o.loc() if isinstance(o, Ptr) else o
            if not isinstance(loc, Loc): raise Unsupported("receiver")
            g = self.dispatch(fd or f, f, loc, base, me)
            return self.call_func(g, loc, args, st, n)
        # std types
        if isinstance(o, Ptr) and me.get("isArrow"):
            loc = o.loc()
        elif isinstance(o, Ptr):
            # iterator / smart pointer methods
            if name == "get": return o
            if name in ("operator bool", "operator const void *"): return z3.BoolVal(o.kind != "null")
            if name == "use_count": return S.fresh(S.I, "uc")
            raise Unsupported("pointer method " + name)
        elif isinstance(o, Loc): loc = o
        elif z3.is_expr(o):
            if name.startswith("operator"): return o
            raise Unsupported("method %s on value" % name)
        else: raise Unsupported("method on %r" % (o,))
        ty = loc.ty
        so = self.sort_of(ty)
        if so == "vec": return self.vec_method(name, loc, args, st, n)
        if so == "map": return self.map_method(name, loc, args, st, n)
        if so == "ptr":
            p = self.rd(st, loc)
            if name == "get": return p
            if name == "reset":
                self.wr(st, loc, self.rv(args[0], st) if args and args[0].get("kind") != "CXXDefaultArgExpr" else NULL); return None
            if name == "operator bool": return z3.BoolVal(p.kind != "null")
            raise Unsupported("pointer method " + name)
        if so in (S.I, S.R, S.B):      # std::atomic
            if name in ("load",) or name.startswith("operator ") : return self.rd(st, loc)
            if name == "store":
                self.wr(st, loc, self.rv(args[0], st)); return None
            if name in ("fetch_add", "fetch_sub"):
                x = self.rd(st, loc); self.wr(st, loc, S.add(x, S.toint(self.rv(args[0], st))) if name == "fetch_add" else S.sub(x, S.toint(self.rv(args[0], st)))); return x
            if name in ("operator++", "operator--"):
                x = self.rd(st, loc); y = S.norm(x + (1 if name == "operator++" else -1))
                self.wr(st, loc, y); return x if args else y
            if name in ("operator+=", "operator-="):
                x = self.rd(st, loc); v = S.toint(self.rv(args[0], st))
                y = S.add(x, v) if name == "operator+=" else S.sub(x, v)
                self.wr(st, loc, y); return y
            raise Unsupported("atomic " + name)
        if so == "opaque":
            r = self.sort_of(self.ctype(n))
            return S.fresh(r, "opq") if r in (S.I, S.R, S.B) else OPAQUE
        raise Unsupported("method %s on %s" % (name, ty))

    def dispatch(self, fd, f, loc, base, me):
        """virtual call: pick the override of the dynamic type the contract fixes for that object"""
        if not (fd.virtual or (f is not None and f.virtual) or self._overrides(fd)):
            return f or fd
        if strip(me).get("kind") == "MemberExpr" and self._qualified(me):
            return f or fd
        dt = self.dyn.get(loc.path)
        if dt is None: dt = loc.ty
        r = self.resolve_rec(dt)
        g = self.lookup_method(r, fd.name, fd)
        return g or f or fd

    def _qualified(self, me):
        return False
    def _overrides(self, fd):
        return any(x.get("kind") == "OverrideAttr" for x in fd.node.get("inner", [])) or fd.node.get("virtual")

    def lookup_method(self, r, name, like):
        if r is None: return None
        np_ = len(like.params)
        cands = [m for m in r.methods if m.name == name and len(m.params) == np_ and m.kind == "CXXMethodDecl"]
        if len(cands) > 1:
            ls = [C.canon(qt(p["type"])) for p in like.params]
            c2 = [m for m in cands if [C.canon(qt(p["type"])) for p in m.params] == ls]
            cands = c2 or cands
        for m in cands:
            d = self.tu.definition(m.id)
            if d is not None: return d
        for m in cands:
            if not m.node.get("pure"): return m
        for b in r.bases:
            g = self.lookup_method(self.resolve_rec(C.canon(b)), name, like)
            if g is not None: return g
        return None

    def vec_method(self, name, l, args, st, n):
        et = C.elem(l.ty); so = self.sort_of(et)
        if self.sort_of(l.ty) == "carr" or C.is_vec(l.ty): pass
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if name in ("size",): return self.length(st, l)
        if name == "empty": return self.cmp("==", self.length(st, l), S.lit(0), st)
        if name in ("capacity", "max_size"):
            c = S.fresh(S.I, "cap"); self.assume(st, c >= self.length(st, l)); return c
        if name in ("operator[]", "at"):
            i = S.toint(self.rv(args[0], st))
            return self.elem(l, i)
        if name in ("begin", "cbegin", "data"): return Ptr("arr", l.path, l.idxs, S.lit(0), et)
        if name in ("end", "cend"): return Ptr("arr", l.path, l.idxs, self.length(st, l), et)
        if name == "front": return self.elem(l, S.lit(0))
        if name == "back": return self.elem(l, S.sub(self.length(st, l), S.lit(1)))
        if name in ("reserve", "shrink_to_fit"): return None
        if name in ("push_back", "emplace_back"):
            ln = self.length(st, l)
            if so in (S.I, S.R, S.B, "ptr"): v = self.rv(args[0], st)
            else: v = self.ev(args[0], st)
            self.set_length(st, l, S.norm(ln + 1))
            if so == "opaque": return None
            e = self.elem(l, ln)
            st.checked[(l.path, tuple(o.get_id() for o in l.idxs), ln.get_id())] = (ln, l.idxs)
            if so == "pair": raise Unsupported("vector of pairs")
            self.wr(st, e, v)
            return None
        if name == "pop_back":
            ln = self.length(st, l)
            self.oblige("pop_back of non-empty", st, ln >= 1, "memory")
            self.set_length(st, l, S.sub(ln, S.lit(1))); return None
        if name == "clear":
            self.set_length(st, l, S.lit(0)); return None
        if name == "resize":
            k = S.toint(self.rv(args[0], st)); ln = self.length(st, l)
            v = None
            if len(args) > 1:
                v = self.rv(args[1], st) if so in (S.I, S.R, S.B) else self.ev(args[1], st)
            self.vec_resize(l, k, ln, v, st); return None
        if name == "assign":
            if len(args) == 2 and (C.is_iter(C.deref(self.ctype(args[0]))) or C.is_ptr(C.deref(self.ctype(args[0])))):
                b, e = self.rargs(args, st)
                self.vec_assign_range(l, b, e, st); return None
            k = S.toint(self.rv(args[0], st)); v = self.ev(args[1], st)
            self.vec_fill_all(l, v, st); self.set_length(st, l, k); return None
        if name == "swap":
            o = self.lv(args[0], st); t = self.temp(l.ty)
            self.copy_obj(st, t, l); self.copy_obj(st, l, o); self.copy_obj(st, o, t); return None
        if name == "operator=":
            src = self.ev(args[0], st)
            self.copy_obj(st, l, src); return l
        raise Unsupported("vector::" + name)

    def elem(self, l, i):
        return Loc(l.path + "[]", l.idxs + (S.norm(i),), C.elem(l.ty))

    def vec_resize(self, l, k, ln, v, st):
        et = C.elem(l.ty)
        for suf, so, ct in self.leafs(et):
            p = l.path + "[]" + suf
            old = self.sub_arr(st, p, l.idxs, so, ct)
            d0 = {S.I: S.lit(0), S.R: S.rlit(0), S.B: z3.BoolVal(False)}[so]
            if v is None: get = lambda *j, d0=d0: d0
            elif isinstance(v, Loc):
                x = self.get_leaf(st, v.path + suf, so, ct)
                get = lambda *j, x=x: (x.sel(*(v.idxs + tuple(j))) if isinstance(x, S.Arr) else x)
            else: get = lambda *j, so=so: self.coerce(v, so)
            self.set_sub(st, p, l.idxs, so, ct,
                         S.Arr(old.dim, so, (lambda old, get: lambda i, *j: S.ite(i < ln, old.sel(i, *j), get(*j)))(old, get)))
        self.set_length(st, l, k)

    # unordered_map<int-like, V>
    def map_method(self, name, l, args, st, n):
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        kt, vt = C.map_kv(l.ty); self.mapish = self.mapish | {l.path}
        dom = Loc(l.path + ".dom", l.idxs, "bool[]")
        def in_dom(k): 
            a = self.get_leaf(st, l.path + ".dom[]", S.B, "bool")
            return a.sel(*(l.idxs + (k,)))
        if name == "size":
            return self.rd_size(st, l)
        if name == "empty": return self.rd_size(st, l) == 0
        if name in ("begin", "cbegin"): return self.map_iter(l, st, False)
        if name in ("end", "cend"): return self.map_iter(l, st, True)
        if name == "clear":
            self.set_sub(st, l.path + ".dom[]", l.idxs, S.B, "bool", S.const_arr(1, S.B, z3.BoolVal(False)))
            self.set_scalar(st, l.path + ".size", l.idxs, S.I, "unsigned long", S.lit(0)); return None
        if name in ("operator[]", "at"):
            k = S.toint(self.rv(args[0], st))
            self.map_insert(l, k, vt, st, name == "at")
            return Loc(l.path + "[]", l.idxs + (k,), vt)
        if name == "count":
            k = S.toint(self.rv(args[0], st))
            return S.ite(in_dom(k), S.lit(1), S.lit(0))
        if name == "erase":
            k = S.toint(self.rv(args[0], st))
            i = in_dom(k)
            self.set_scalar(st, l.path + ".size", l.idxs, S.I, "unsigned long", S.ite(i, S.norm(self.rd_size(st, l) - 1), self.rd_size(st, l)))
            self.set_scalar(st, l.path + ".dom[]", l.idxs + (k,), S.B, "bool", z3.BoolVal(False))
            return S.ite(i, S.lit(1), S.lit(0))
        if name == "operator=":
            self.copy_obj(st, l, self.ev(args[0], st)); return l
        raise Unsupported("unordered_map::" + name)
    def rd_size(self, st, l):
        v = self.get_leaf(st, l.path + ".size", S.I, "unsigned long")
        return v.sel(*l.idxs) if isinstance(v, S.Arr) else v
    def map_insert(self, l, k, vt, st, at=False):
        a = self.get_leaf(st, l.path + ".dom[]", S.B, "bool")
        i = a.sel(*(l.idxs + (k,)))
        if at:
            self.oblige("map::at key present", st, i, "memory"); return
        self.set_scalar(st, l.path + ".size", l.idxs, S.I, "unsigned long", S.ite(i, self.rd_size(st, l), S.norm(self.rd_size(st, l) + 1)))
        for suf, so, ct in self.leafs(vt):
            v = {S.I: S.lit(0), S.R: S.rlit(0), S.B: z3.BoolVal(False)}[so]
            p = l.path + "[]" + suf
            cur = self.get_leaf(st, p, so, ct)
            nd = dims(p) - len(l.idxs) - 1
            if nd == 0:
                self.set_sub(st, p, l.idxs + (k,), so, ct, S.ite(i, cur.sel(*(l.idxs + (k,))), v))
            else:
                self.set_sub(st, p, l.idxs + (k,), so, ct, S.Arr(nd, so, (lambda cur, v: lambda *j: S.ite(i, cur.sel(*(l.idxs + (k,) + tuple(j))), v))(cur, v)))
        self.set_scalar(st, l.path + ".dom[]", l.idxs + (k,), S.B, "bool", z3.BoolVal(True))

    # ------------------------------------------------------------ operator calls
    def e_CXXOperatorCallExpr(self, n, st):
        callee = strip(n["inner"][0]); args = n["inner"][1:]
        d = callee.get("referencedDecl", {})
        name = d.get("name", "?")
        f = self.tu.definition(d.get("id")); fd = self.tu.decl(d.get("id")) if d.get("id") in self.tu.fn_decl_ctx else None
        if f is not None or self.contract_for(fd):
            if (f or fd).is_method:
                o = self.ev(args[0], st)
                loc = o.loc() if isinstance(o, Ptr) else o
                return self.call_func(self.dispatch(fd or f, f, loc, None, callee), loc, args[1:], st, n)
            return self.call_func(f, None, args, st, n)
        o = self.ev(args[0], st)
        if isinstance(o, StrV) and name in ("operator==", "operator!=", "operator+"):
            r = self.ev(args[1], st)
            if name == "operator+": return OPAQUE
            if isinstance(r, StrV):
                e = self.cmp("==", o.term, r.term, st)
                return e if name == "operator==" else S.Not(e)
            o = OPAQUE
        if isinstance(o, Opaque): o = OPAQUE
        if o is OPAQUE:
            so = self.sort_of(self.ctype(n))
            if name == "operator()":
                return self.rand_draw(n, st)
            return S.fresh(so, "opq") if so in (S.I, S.R, S.B) and n.get("valueCategory") != "lvalue" else OPAQUE
        if isinstance(o, Loc):
            so = self.sort_of(o.ty)
            if so == "ptr":
                if name == "operator=":
                    r = self.rv(args[1], st); self.wr(st, o, r); return o
                if name in ("operator++", "operator--", "operator+=", "operator-="):
                    p = self.rd(st, o)
                    if p.kind == "mapit":
                        self.wr(st, o, Ptr("mapit", p.path, p.idxs, S.norm(p.off + 1), p.ty)); return o
                    if name in ("operator++", "operator--"):
                        q = p.plus(S.lit(1 if name == "operator++" else -1))
                        self.wr(st, o, q); return p if len(args) > 1 else o
                    v = S.toint(self.rv(args[1], st))
                    self.wr(st, o, p.plus(v if name == "operator+=" else S.norm(-v))); return o
                o = self.rd(st, o)
            elif so == "vec":
                if name in ("operator==", "operator!="):
                    r = self.lv(args[1], st)
                    e = self.vec_eq(o, r, st)
                    return e if name == "operator==" else S.Not(e)
                return self.vec_method(name, o, args[1:], st, n)
            elif so == "map": return self.map_method(name, o, args[1:], st, n)
            elif so in (S.I, S.R, S.B):     # atomic / vector<bool> reference
                if name == "operator=":
                    v = self.rv(args[1], st); self.wr(st, o, v); return o
                x = self.rd(st, o)
                if name in ("operator++", "operator--"):
                    y = S.norm(x + (1 if name == "operator++" else -1)); self.wr(st, o, y)
                    return x if len(args) > 1 else y
                if name in ("operator+=", "operator-=") :
                    v = S.toint(self.rv(args[1], st)); y = S.add(x, v) if name == "operator+=" else S.sub(x, v)
                    self.wr(st, o, y); return y
                if name in ("operator==", "operator!="):
                    return self.cmp(name[8:], x, self.rv(args[1], st), st)
                raise Unsupported("scalar " + name)
            elif so == "rec":
                if name == "operator=":
                    src = self.ev(args[1], st)
                    self.copy_obj(st, o, src); return o
                raise Unsupported("record " + name)
            elif so == "opaque":
                for a in args[1:]: pass
                if name == "operator()": return self.rand_draw(n, st)
                r = self.sort_of(self.ctype(n))
                return S.fresh(r, "opq") if r in (S.I, S.R, S.B) and n.get("valueCategory") != "lvalue" else OPAQUE
            elif so == "pair": raise Unsupported("pair operator")
        if isinstance(o, Pair) and name == "operator=":
            raise Unsupported("pair =")
        if isinstance(o, Ptr):
            if name in ("operator*",):
                return self.map_deref(o, st) if o.kind == "mapit" else o.loc()
            if name == "operator->": return o
            if name == "operator[]": return o.loc(S.toint(self.rv(args[1], st)))
            r = self.rv(args[1], st)
            if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
                if o.kind == "mapit": return self.cmp(name[8:], o.off, r.off, st)
                return self.cmp(name[8:], o, r, st)
            if name == "operator+": return o.plus(S.toint(r))
            if name == "operator-":
                if isinstance(r, Ptr):
                    if not o.same_region(r): raise Unsupported("iterator difference")
                    return S.sub(o.off, r.off)
                return o.plus(S.norm(-S.toint(r)))
        raise Unsupported("operator call %s on %r" % (name, o))

    def rand_draw(self, n, st):
        so = self.sort_of(self.ctype(n))
        if so not in (S.I, S.R, S.B): raise Unsupported("functor")
        r = S.fresh(so, "draw")
        if so == S.R and self.unit_draws:
            self.assumed.add("uniform draws lie in [0, 1), as constructed")
            self.assume(st, z3.And(r >= 0, r < 1))
        return r
    unit_draws = False

    def vec_eq(self, a, b, st):
        et = C.elem(a.ty); so = self.sort_of(et)
        if so not in (S.I, S.R, S.B): raise Unsupported("vector == of " + et)
        la, lb = self.length(st, a), self.length(st, b)
        x = self.sub_arr(st, a.path + "[]", a.idxs, so, et); y = self.sub_arr(st, b.path + "[]", b.idxs, so, et)
        r = S.fresh(S.B, "veq"); w = S.fresh(S.I, "neq_at")
        self.assume(st, z3.Implies(r, la == lb))
        self.assume(st, S.forall(lambda j: z3.Implies(z3.And(r, j >= 0, j < la), x.sel(j) == y.sel(j)), 1, pats=lambda j: [x.sel(j)]))
        self.assume(st, z3.Implies(z3.Not(r), z3.Or(la != lb, z3.And(w >= 0, w < la, x.sel(w) != y.sel(w)))))
        return r

    # ------------------------------------------------------------ knor functions
    def contract_for(self, f):
        if f is None: return None
        for c in self.contracts.get(f.qname, ()):
            if c.matches(f): return c
        return None

    def bind_args(self, f, args, st, fr, caller):
        """evaluate arguments in the caller frame and bind them to the callee's parameters"""
        vals = []
        canon_id = self.tu._canon(f.id)
        for i, p in enumerate(f.params):
            pt = C.canon(qt(p["type"]))
            if i < len(args) and args[i].get("kind") != "CXXDefaultArgExpr": a = args[i]
            else:
                a = self.tu.default_args.get((canon_id, i))
                if a is None: raise Unsupported("missing default argument of %s" % f.qname)
            so = self.sort_of(C.deref(pt))
            if C.is_ref(pt):
                v = self.ev(a, st)
                if not isinstance(v, (Loc, Pair, Opaque)):
                    l = self.temp(C.deref(pt)); self.wr(st, l, v); v = l
                elif isinstance(v, Loc) and self.is_narrowing(v.ty, C.deref(pt)):
                    pass
            elif so in (S.I, S.R, S.B, "ptr"):
                v = self.rv(a, st)
                if so in (S.I, S.R, S.B): v = self.coerce(v, so)
            elif so == "opaque":
                v = OPAQUE
                if "string" in pt:
                    x = self.ev(a, st)
                    if isinstance(x, StrV): v = x
            else:
                v = self.ev(a, st)
            vals.append((pt, so, v))
        return vals

    def is_narrowing(self, a, b): return False

    def call_func(self, f, this, args, st, n):
        vals = self.bind_args(f, args, st, None, None)
        c = self.contract_for(f)
        if c is not None and not c.inline and (f is not self.root or True):
            return self.apply_contract(c, f, this, vals, st, n)
        d = self.tu.definition(f.id)
        if d is None: raise Unsupported("no body and no contract for " + f.qname)
        f = d
        if f.name == "operator=" and (f.node.get("isImplicit") or f.node.get("explicitlyDefaulted")) and isinstance(this, Loc) and isinstance(vals[0][2], Loc):
            self.copy_obj(st, this, vals[0][2]); return this
        if sum(1 for fr in self.frames if fr.fn is f) > 0: raise Unsupported("recursion without contract: " + f.qname)
        if len(self.frames) > 12: raise Unsupported("call depth")
        self.inlined.add(f.qname)
        return self.inline(f, this, vals, st, n)

    def inline(self, f, this, vals, st, n):
        fr = Frame(f, this)
        fr.prefix = (self.frames[-1].prefix if self.frames else "") + "%s." % self.short_id(n["id"])
        for p, (pt, so, v) in zip(f.params, vals):
            self.bind_param(fr, p, pt, so, v, st)
        if self.frames:
            ks = self.loop_ord.setdefault(("calls", id(self.frames[-1].fn)), {})
            if n["id"] not in ks: ks[n["id"]] = len(ks)
            fr.site = ks[n["id"]]
        save = self.curline
        self.frames.append(fr)
        try:
            outs = self.run_function(f, st)
        finally:
            self.frames.pop()
            self.curline = save
        if not outs: raise Infeasible()
        m, v = self.merge([o[1] for o in outs], [o[2] for o in outs])
        st.become(m)
        return v

    def bind_param(self, fr, p, pt, so, v, st):
        if C.is_ref(pt) or isinstance(v, (Opaque, Pair)):
            fr.env[p["id"]] = v; return
        l = Loc("L%s%s" % (fr.prefix, p.get("name", "anon" + self.short_id(p["id"]))), (), pt)
        if so in (S.I, S.R, S.B): self.set_leaf(st, l.path, v)
        elif so == "ptr": self.wr_ptr_local(st, l, v)
        else: self.copy_obj(st, l, v, pt)
        fr.env[p["id"]] = l

    def wr_ptr_local(self, st, l, v):
        st.ptrs[l.key()] = v if isinstance(v, Ptr) else NULL
        if st.writes is not None: st.writes.setdefault("ptr:" + l.path, []).append(())

    def run_function(self, f, st):
        """outcomes (kind, state, value)"""
        if f.kind == "CXXConstructorDecl": self.run_inits(f, st)
        if f.body is None: return [("ret", st, None)]
        outs = self.xs(f.body, st)
        res = []
        for k, s, v in outs:
            if k in ("ret", "next"): res.append(("ret", s, v))
            else: raise Unsupported("stray " + k)
        return res

    def run_inits(self, f, st):
        this = self.frames[-1].this
        done = set()
        for i in f.inits:
            inner = [x for x in i.get("inner", []) if x.get("kind")]
            if "anyInit" in i:
                fld = i["anyInit"]; nm = fld.get("name", "_anon")
                ft = C.canon(qt(fld["type"]))
                done.add(nm)
                l = Loc(this.path + "." + nm, this.idxs, ft)
                x = inner[0] if inner else None
                if x is None: continue
                so = self.sort_of(ft)
                if so == "opaque": continue
                y = x
                while y["kind"] in TRANSP: y = y["inner"][0]
                if y["kind"] == "CXXDefaultInitExpr": 
                    if not y.get("inner"): continue
                    y = y["inner"][0]
                if y["kind"] in ("CXXConstructExpr",) and so in ("vec", "map", "rec"):
                    self.construct(l, y, st)
                elif C.is_ref(ft):
                    v = self.ev(y, st)
                    if not isinstance(v, Loc): raise Unsupported("reference member bound to a value")
                    st.ptrs[l.key()] = Ptr("obj", v.path, v.idxs, None, C.deref(ft))
                    if st.writes is not None: st.writes.setdefault("ptr:" + l.path, []).append(l.idxs)
                elif so in (S.I, S.R, S.B, "ptr"): self.wr(st, l, self.rv(y, st))
                elif so == "carr": pass
                else:
                    self.copy_obj(st, l, self.ev(y, st))
            elif "baseInit" in i:
                x = inner[0]
                while x["kind"] in TRANSP: x = x["inner"][0]
                bt = C.canon(qt(i["baseInit"]))
                if x["kind"] == "CXXConstructExpr":
                    self.construct(Loc(this.path, this.idxs, bt), x, st)
            elif inner and inner[0]["kind"] == "CXXConstructExpr":   # delegating
                self.construct(Loc(this.path, this.idxs, this.ty), inner[0], st)
