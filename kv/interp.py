"""Expressions and statements of the clang AST."""
import z3, re
from . import sym as S, ctypes_ as C, prove as P
from .exec import *
from .exec import MergeFail
from .cast import qt

IGNORED = {"printf", "fprintf", "perror", "gettimeofday", "puts", "fflush", "ProfilerStart", "ProfilerStop", "exit_",
           "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_signal", "pthread_cond_wait", "pthread_mutex_init",
           "pthread_cond_init", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_cond_destroy",
           "pthread_mutex_destroy", "pthread_mutexattr_destroy", "pthread_join", "pthread_exit",
           "print", "omp_set_num_threads", "sleep", "usleep", "srand", "sparse_print", "time_diff"}
TRANSP = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr",
          "SubstNonTypeTemplateParmExpr", "CXXRewrittenBinaryOperator", "FullExpr"}
DEBUG = False

class Interp(Exec):
    # ================================================================== expressions
    def ev(self, n, st):
        k = n["kind"]
        self._line(n)
        if k in TRANSP:
            return self.ev(n["inner"][-1] if k == "SubstNonTypeTemplateParmExpr" else n["inner"][0], st)
        m = getattr(self, "e_" + k, None)
        if m is None: raise Unsupported("expression " + k)
        return m(n, st)

    def _line(self, n):
        r = n.get("range", {}).get("begin", {})
        if "expansionLoc" in r: r = r["expansionLoc"]
        if "line" in r: self.curline = r["line"]

    def rv(self, n, st):
        """evaluate to an rvalue (loads lvalues of scalar type)"""
        v = self.ev(n, st)
        if isinstance(v, Loc): return self.rd(st, v)
        return v

    def lv(self, n, st):
        v = self.ev(n, st)
        if isinstance(v, Loc): return v
        if isinstance(v, Ptr) or z3.is_expr(v):
            ty = C.deref(self.ctype(n))
            l = self.temp(ty)
            self.wr(st, l, v)
            return l
        if v is OPAQUE: return Loc("opaque", (), "std::string")
        raise Unsupported("lvalue expected: %s gives %r" % (n["kind"], v))

    def temp(self, ty, base="tmp#"):
        return Loc("%s%d" % (base, next(self.cnt)), (), ty)

    # ---- literals
    def e_IntegerLiteral(self, n, st): return S.lit(int(n["value"]))
    def e_FloatingLiteral(self, n, st):
        from fractions import Fraction
        return S.rlit(str(Fraction(float(n["value"]))))
    def e_CXXBoolLiteralExpr(self, n, st): return z3.BoolVal(bool(n["value"]))
    def e_CharacterLiteral(self, n, st): return S.lit(int(n["value"]))
    def e_StringLiteral(self, n, st):
        return StrV.lit(n["value"])
    def e_GNUNullExpr(self, n, st): return NULL
    def e_CXXNullPtrLiteralExpr(self, n, st): return NULL
    def e_PredefinedExpr(self, n, st): return OPAQUE
    def e_SourceLocExpr(self, n, st): return OPAQUE
    def e_CXXThisExpr(self, n, st):
        t = self.frames[-1].this
        if t is None: raise Unsupported("this")
        return Ptr("obj", t.path, t.idxs, None, t.ty)
    def e_CXXDefaultArgExpr(self, n, st):
        raise Unsupported("default arg outside call")
    def e_ImplicitValueInitExpr(self, n, st):
        so = self.sort_of(self.ctype(n))
        return {S.I: S.lit(0), S.R: S.rlit(0), S.B: z3.BoolVal(False)}.get(so, OPAQUE) if so in (S.I, S.R, S.B) else NULL
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]; i = d["id"]
        fr = self.frames[-1]
        if i in fr.env: return fr.env[i]
        if i in self.tu.enums: return S.lit(self.tu.enums[i])
        if d["kind"] == "EnumConstantDecl": raise Unsupported("enum " + d["name"])
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"): return Fn(d)
        if i in self.tu.globals:
            name, node = self.tu.globals[i]
            ty = C.canon(qt(node["type"]))
            if node["type"]["qualType"].startswith("const") and node.get("inner"):
                init = [x for x in node["inner"] if x.get("kind") and not x["kind"].endswith("Attr")]
                if init: return self.coerce(self.rv(init[-1], st), self.sort_of(ty))
            return Loc("G." + name.split("::")[-1], (), C.deref(ty))
        if d["kind"] in ("VarDecl",):
            if d["name"] in ("cout", "cerr", "clog"): return OPAQUE
            return Loc("G." + d["name"], (), C.deref(C.canon(qt(d["type"]))))
        raise Unsupported("reference to %s %s" % (d["kind"], d.get("name")))

    def e_MemberExpr(self, n, st):
        inner = n["inner"][0]
        ty = self.ctype(n)
        name = n["name"]
        rid = n.get("referencedMemberDecl")
        g = self.tu.globals.get(rid)
        if g is not None: return Loc("G." + g[0].split("::")[-1], (), C.deref(ty))
        if n.get("isArrow"):
            p = self.rv(inner, st)
            if p is OPAQUE: return OPAQUE
            base = p.loc()
        else:
            base = self.ev(inner, st)
            if base is OPAQUE: return OPAQUE
            if isinstance(base, Pair):
                return base.a if name == "first" else base.b
        fty = self._fieldtype(rid, ty)
        f = "u" if self.is_union_member(base, inner) else name
        l = Loc(base.path + "." + f, base.idxs, C.deref(fty))
        if C.is_arr(fty) and C.arr_len_known(fty): self.fixed[l.path] = C.arr_len(fty)
        if C.is_ref(fty):
            p = self.rd_ptr(st, Loc(l.path, l.idxs, C.deref(fty) + "*"))
            return p.loc()
        return l

    def is_union_member(self, base, inner):
        r = self.resolve_rec(base.ty)
        return r is not None and r.is_union

    def _fieldtype(self, rid, ty):
        d = self.tu.decls.get(rid)
        if d is not None and "type" in d:
            return C.canon(qt(d["type"]))
        return ty

    # ---- casts
    def e_ImplicitCastExpr(self, n, st): return self.cast(n, st)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXDynamicCastExpr = \
        lambda self, n, st: self.cast(n, st)

    def cast(self, n, st):
        ck = n.get("castKind"); inner = n["inner"][0]
        if ck == "LValueToRValue":
            v = self.ev(inner, st)
            return self.rd(st, v) if isinstance(v, Loc) else v
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "ConstructorConversion",
                  "FunctionToPointerDecay", "BuiltinFnToFnPtr", "UserDefinedConversion", "LValueBitCast"):
            v = self.ev(inner, st)
            if isinstance(v, Loc) and ck == "NoOp" and n.get("valueCategory") == "prvalue" and self.sort_of(v.ty) in (S.I, S.R, S.B, "ptr"):
                return self.rd(st, v)
            return v
        if ck == "BitCast":
            return self.ev(inner, st)
        if ck == "ToVoid":
            self.ev(inner, st); return None
        if ck == "ArrayToPointerDecay":
            v = self.ev(inner, st)
            if isinstance(v, Opaque): return v
            if isinstance(v, Loc):
                return Ptr("arr", v.path, v.idxs, S.lit(0), C.elem(v.ty))
            return v
        if ck == "NullToPointer": return NULL
        ty = self.ctype(n)
        v = self.rv(inner, st)
        if v is OPAQUE: return S.fresh(self.sort_of(ty), "opq") if self.sort_of(ty) in (S.I, S.R, S.B) else OPAQUE
        if ck == "IntegralCast": return self.int_cast(S.toint(v), self.ctype(inner), ty, st)
        if ck == "IntegralToFloating": return S.toreal(v)
        if ck == "FloatingCast": return v
        if ck == "FloatingToIntegral": return self.f2i(v, st)
        if ck == "IntegralToBoolean":
            return v if z3.is_bool(v) else v != 0
        if ck == "FloatingToBoolean": return v != 0
        if ck == "PointerToBoolean": return self.not_null(v, st)
        raise Unsupported("cast " + str(ck))

    def f2i(self, v, st):
        t = S.trunc(v)
        self.assume(st, z3.Implies(v >= 0, z3.And(z3.ToReal(t) <= v, v < z3.ToReal(t) + 1, t >= 0)))
        self.assume(st, z3.Implies(v < 0, z3.And(z3.ToReal(t) >= v, v > z3.ToReal(t) - 1, t <= 0)))
        return t

    def not_null(self, p, st):
        if isinstance(p, Ptr): 
            if p.kind == "null": return z3.BoolVal(False)
            if (p.path or "").startswith("maybe#"): return S.fresh(S.B, "file")
            return z3.BoolVal(True)
        return z3.Bool("nn!" + str(p))

    def int_cast(self, v, src, dst, st):
        if dst not in C.INTS: return v
        w, sg = C.INTS[dst]
        if z3.is_int_value(v):
            x = v.as_long()
            if dst == "bool": return z3.BoolVal(x != 0)
            x %= (1 << w)
            if sg and x >= (1 << (w - 1)): x -= (1 << w)
            return S.lit(x)
        if src in C.INTS and not sg and C.INTS[src][1]:
            # signed -> unsigned: exact wrap unless known non-negative
            if not self.nonneg(v, st):
                return z3.If(v >= 0, v, v + (1 << w))
        return v

    def nonneg(self, v, st):
        p = S.to_poly(v)
        if all(c >= 0 for c in p.values()) and all(self._atom_nonneg(a, st) for m in p for a in m): return True
        key = ("nn", v.get_id(), len(st.assumes))
        return self.quick(st, v >= 0)

    def _atom_nonneg(self, a, st):
        return a in self.nonneg_atoms
    nonneg_atoms = frozenset()

    # ---- operators
    def arith(self, op, a, b, ty, st, node=None):
        real = C.is_float(ty) or z3.is_real(a) or z3.is_real(b)
        if real: a, b = S.toreal(a), S.toreal(b)
        else: a, b = S.toint(a), S.toint(b)
        if op == "+": return S.add(a, b)
        if op == "-":
            r = S.sub(a, b)
            if not real and ty in C.INTS and not C.INTS[ty][1] and not z3.is_int_value(r):
                w = C.INTS[ty][0]
                if not self.quick(st, r >= 0):
                    return z3.If(a >= b, r, r + (1 << w))
            elif z3.is_int_value(r) and not real and ty in C.INTS and not C.INTS[ty][1] and r.as_long() < 0:
                return S.lit(r.as_long() % (1 << C.INTS[ty][0]))
            return r
        if op == "*": return S.mul(a, b)
        if op == "/":
            if real:
                return S.rdiv(a, b)
            return self.idiv(a, b, st)
        if op == "%":
            q = self.idiv(a, b, st)
            return S.sub(a, S.mul(q, b))
        if op in ("<<", ">>") and z3.is_int_value(b):
            return S.mul(a, S.lit(1 << b.as_long())) if op == "<<" else self.idiv(a, S.lit(1 << b.as_long()), st)
        raise Unsupported("operator " + op)

    def idiv(self, a, b, st):
        if z3.is_int_value(b) and b.as_long() > 0:
            q = S.idiv(a, b); p = S.mul(q, b)
        else:
            self.oblige("divisor non-zero", st, b != 0, "assert")
            q = S.idiv(a, b); p = S.mul(q, b)
        self.assume(st, z3.Implies(z3.And(a >= 0, b > 0), z3.And(q >= 0, p <= a, a < p + b)))
        return q

    def cmp(self, op, a, b, st):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.cmp_ptr(op, a, b, st)
        if a is OPAQUE or b is OPAQUE: return S.fresh(S.B, "opqcmp")
        if z3.is_bool(a) and z3.is_bool(b):
            if op == "==": return a == b
            if op == "!=": return a != b
        if z3.is_real(a) or z3.is_real(b): a, b = S.toreal(a), S.toreal(b)
        else: a, b = S.toint(a), S.toint(b)
        d = S.to_poly(a - b)
        if not d or list(d.keys()) == [()]:
            c = d.get((), 0)
            return z3.BoolVal({"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op])
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]

    def cmp_ptr(self, op, a, b, st):
        if not isinstance(a, Ptr): a = NULL
        if not isinstance(b, Ptr): b = NULL
        if (a.path or "").startswith("maybe#") or (b.path or "").startswith("maybe#"):
            return S.fresh(S.B, "filecmp")
        if a.kind == "null" or b.kind == "null":
            eq = a.kind == b.kind
            return z3.BoolVal(eq if op == "==" else not eq)
        if a.kind == "arr" and a.same_region(b): return self.cmp(op, a.off, b.off, st)
        if a.path == b.path and a.kind == b.kind:
            e = S.And(*[x == y for x, y in zip(a.idxs, b.idxs)])
            return e if op == "==" else S.Not(e)
        if op == "==": return z3.BoolVal(False)
        if op == "!=": return z3.BoolVal(True)
        raise Unsupported("pointer comparison across regions")

    def branch_eval(self, st, c, f1, f2):
        if z3.is_true(c): return f1(st)
        if z3.is_false(c): return f2(st)
        cs = z3.simplify(c)
        if z3.is_true(cs): return f1(st)
        if z3.is_false(cs): return f2(st)
        s1 = st.branch(c); s2 = st.branch(S.Not(c))
        outs = []
        for s, f in ((s1, f1), (s2, f2)):
            try:
                v = f(s)
                outs.append((s, v))
            except ThrowEx as e:
                self.throws.append((s, e.what))
            except Infeasible:
                pass
        if not outs: raise Infeasible()
        m, v = self.merge([o[0] for o in outs], [o[1] for o in outs])
        st.become(m)
        return v

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]; a, b = n["inner"]
        if op == "=":
            r = self.rv(b, st)
            l = self.lv(a, st)
            if self.sort_of(l.ty) == "vec" or self.sort_of(l.ty) == "rec": raise Unsupported("aggregate =")
            self.wr(st, l, r)
            return l
        if op == ",":
            self.ev(a, st); return self.ev(b, st)
        if op in ("&&", "||"):
            x = self.truth(self.rv(a, st))
            def go(s): return self.truth(self.rv(b, s))
            if op == "&&": return self.branch_eval(st, x, go, lambda s: z3.BoolVal(False))
            return self.branch_eval(st, x, lambda s: z3.BoolVal(True), go)
        x = self.rv(a, st); y = self.rv(b, st)
        if op in ("<", ">", "<=", ">=", "==", "!="): return self.cmp(op, x, y, st)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == "-" and isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.same_region(y): return S.sub(x.off, y.off)
                raise Unsupported("pointer difference")
            if op == "+": return x.plus(S.toint(y)) if isinstance(x, Ptr) else y.plus(S.toint(x))
            if op == "-": return x.plus(S.norm(-S.toint(y)))
        if x is OPAQUE or y is OPAQUE: return S.fresh(self.sort_of(self.ctype(n)), "opq")
        return self.arith(op, x, y, self.ctype(n), st, n)

    def truth(self, v):
        if isinstance(v, Ptr):
            if (v.path or "").startswith("maybe#"): return S.fresh(S.B, "file")
            return z3.BoolVal(v.kind != "null")
        if v is OPAQUE: return S.fresh(S.B, "opq")
        if z3.is_bool(v): return v
        return v != 0

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]; a, b = n["inner"]
        y = self.rv(b, st)
        l = self.lv(a, st)
        x = self.rd(st, l)
        if isinstance(x, Ptr):
            y = S.toint(y)
            self.wr(st, l, x.plus(y if op == "+" else S.norm(-y))); return l
        ct = C.canon(qt(n.get("computeResultType", n["type"])))
        r = self.arith(op, x, y, ct, st, n)
        if self.sort_of(l.ty) == S.I and z3.is_real(r): r = self.f2i(r, st)
        self.wr(st, l, r)
        return l

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]; a = n["inner"][0]
        if op == "&":
            v = self.ev(a, st)
            if isinstance(v, Fn) or v is OPAQUE: return v
            if not isinstance(v, Loc): raise Unsupported("address of rvalue")
            if v.path.endswith("[]"):
                return Ptr("arr", v.path[:-2], v.idxs[:-1], v.idxs[-1], v.ty)
            return Ptr("obj", v.path, v.idxs, None, v.ty)
        if op == "*":
            v = self.rv(a, st)
            if v is OPAQUE: return OPAQUE
            return v.loc()
        if op in ("++", "--"):
            l = self.lv(a, st); x = self.rd(st, l)
            d = 1 if op == "++" else -1
            if isinstance(x, Ptr): y = x.plus(S.lit(d))
            else:
                one = S.rlit(1) if z3.is_real(x) else S.lit(1)
                y = self.arith("+" if d > 0 else "-", x, one, l.ty, st, n)
            self.wr(st, l, y)
            return x if n.get("isPostfix") else l
        v = self.rv(a, st)
        if op == "!": return S.Not(self.truth(v))
        if v is OPAQUE: return OPAQUE
        if op == "-": return S.norm(-(v if z3.is_real(v) else S.toint(v)))
        if op == "+": return v
        raise Unsupported("unary " + op)

    def e_ArraySubscriptExpr(self, n, st):
        a, b = n["inner"]
        x = self.rv(a, st); y = self.rv(b, st)
        if isinstance(y, Ptr): x, y = y, x
        if x is OPAQUE: return OPAQUE
        return x.loc(S.toint(y)) if not (x.kind == "arr") else Loc(x.path + "[]", x.idxs + (S.norm(x.off + S.toint(y)),), x.ty)

    def is_fail(self, n):
        """a subexpression that is a call to __assert_fail"""
        while n.get("kind") in TRANSP or n.get("kind", "").endswith("CastExpr"):
            n = n["inner"][0]
        if n.get("kind") == "CallExpr":
            f = n["inner"][0]
            while f.get("kind") in TRANSP or f.get("kind", "").endswith("CastExpr"): f = f["inner"][0]
            return f.get("kind") == "DeclRefExpr" and f["referencedDecl"]["name"] in ("__assert_fail", "abort")
        return False

    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        if self.is_fail(b) or self.is_fail(a):
            t = self.truth(self.rv(c, st))
            if self.is_fail(a): t = S.Not(t)
            self.oblige("assert in source line %d" % self.curline, st, t, "assert")
            return None
        t = self.truth(self.rv(c, st))
        if n.get("valueCategory") == "lvalue":
            return self.branch_eval(st, t, lambda s: self.ev(a, s), lambda s: self.ev(b, s))
        return self.branch_eval(st, t, lambda s: self.rv(a, s), lambda s: self.rv(b, s))

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        t = n.get("argType")
        if t is None: raise Unsupported("sizeof expr")
        t = C.canon(qt(t))
        sz = {"double": 8, "float": 4, "unsigned int": 4, "int": 4, "unsigned long": 8, "long": 8, "char": 1, "bool": 1, "long long": 8}
        if t in sz: return S.lit(sz[t])
        raise Unsupported("sizeof " + t)

    def e_InitListExpr(self, n, st):
        ty = self.ctype(n)
        l = self.temp(ty)
        if self.sort_of(ty) == "carr":
            inner = n.get("inner", [])
            for i, x in enumerate(inner):
                self.set_length(st, l, S.lit(len(inner)))
                self.wr(st, Loc(l.path + "[]", (S.lit(i),), C.elem(ty)), self.rv(x, st))
            return l
        inner = n.get("inner", [])
        if self.sort_of(ty) in (S.I, S.R, S.B) and len(inner) == 1: return self.rv(inner[0], st)
        raise Unsupported("init list " + ty)

    def e_CXXNewExpr(self, n, st):
        ty = self.ctype(n)
        pt = C.pointee(ty)
        path = "new#%d" % next(self.cnt)
        inner = [x for x in n.get("inner", []) if x.get("kind")]
        if n.get("isArray"):
            ln = S.toint(self.rv(inner[0], st))
            self.set_length(st, Loc(path, (), pt), ln)
            for suf, so, ct in self.leafs(pt):
                self.initial(path + "[]" + suf, so, ct)
            return Ptr("arr", path, (), S.lit(0), pt)
        l = Loc(path, (), pt)
        self.dyn[path] = pt
        ctor = next((x for x in inner if x["kind"] in ("CXXConstructExpr",)), None)
        if ctor is not None: self.construct(l, ctor, st)
        elif inner: self.wr(st, l, self.rv(inner[-1], st))
        return Ptr("obj", path, (), None, pt)

    def e_CXXDeleteExpr(self, n, st):
        self.rv(n["inner"][0], st); return None

    def e_CXXThrowExpr(self, n, st):
        what = ""
        if n.get("inner"):
            x = n["inner"][0]
            what = self.ctype(x)
        raise ThrowEx(what)

    def e_LambdaExpr(self, n, st): raise Unsupported("lambda")

    # ---- construction
    def e_CXXConstructExpr(self, n, st):
        ty = self.ctype(n)
        args = [x for x in n.get("inner", [])]
        so = self.sort_of(ty)
        if so == "ptr":
            if not args: return NULL
            return self.rv(args[0], st)
        if so == "opaque" or ty.startswith("std::allocator"):
            for a in args: 
                if C.canon(ty).startswith("std::basic_string") or "string" in ty:
                    try:
                        v = self.ev(a, st)
                        if isinstance(v, StrV): return v
                    except Unsupported: pass
                try: self.ev(a, st)
                except Unsupported: pass
            return OPAQUE
        if so in (S.I, S.R, S.B):
            if args: return self.coerce(self.rv(args[0], st), so)
            return self.e_ImplicitValueInitExpr(n, st)
        if so == "pair":
            live = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            if len(live) == 1:
                v = self.ev(live[0], st)
                return v
            vs = [self.rv(a, st) for a in live]
            if not vs: 
                t = C.split_args(ty[10:-1])
                vs = [S.fresh(self.sort_of(x), "pair") for x in t]
            return Pair(vs[0], vs[1])
        l = self.temp(ty)
        self.construct(l, n, st)
        return l
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, l, n, st):
        ty = l.ty
        args = [a for a in n.get("inner", []) if a.get("kind")]
        so = self.sort_of(ty)
        live = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if so == "vec": return self.construct_vec(l, live, st)
        if so == "map":
            if live:
                src = self.ev(live[0], st)
                if isinstance(src, Loc): return self.copy_obj(st, l, src)
            self.set_sub(st, l.path + ".dom[]", l.idxs, S.B, "bool", S.const_arr(1, S.B, z3.BoolVal(False)))
            self.set_sub(st, l.path + ".size", l.idxs, S.I, "unsigned long", S.lit(0))
            return
        if so == "rec":
            # copy/move construction
            if len(live) == 1:
                a = live[0]
                at = C.deref(self.ctype(a))
                if at == ty or self.same_rec(at, ty):
                    src = self.ev(a, st)
                    if isinstance(src, Loc): return self.copy_obj(st, l, src)
            f = self.find_ctor(ty, n, len(args), [C.deref(self.ctype(a)) for a in args])
            if f is None:
                if not live:
                    for fn, ft in self.rec_fields(ty):
                        if self.sort_of(ft) == "vec":
                            self.set_length(st, Loc(l.path + "." + fn, l.idxs, ft), S.lit(0))
                    return
                raise Unsupported("constructor of %s" % ty)
            self.call_func(f, l, args, st, n)
            return
        raise Unsupported("construct " + ty)

    def same_rec(self, a, b):
        ra, rb = self.resolve_rec(a), self.resolve_rec(b)
        return ra is not None and ra is rb

    def find_ctor(self, ty, n, nargs, argtys):
        f = self._find_ctor(ty, n, nargs, argtys)
        while f is not None and len(f.inits or []) == 1 and f.inits[0].get("inner", [{}])[0].get("kind") == "CXXInheritedCtorInitExpr":
            g = None      # inherited constructor: the base's one with the same parameters
            for b in self.resolve_rec(ty).bases:
                r = self.resolve_rec(C.canon(b))
                ms = [m for m in (r.methods if r else []) if m.kind == "CXXConstructorDecl"]
                for m in ms:
                    if _nsig(m.type) != _nsig(f.type).replace("noexcept(false)", ""): continue
                    if m.body is None: m = next((d for d in ms if d.node.get("previousDecl") == m.node["id"] and d.body is not None), None)
                    if m is not None: g = m; up = C.canon(b)
            f = g; ty = up if g else ty
        return f

    def _find_ctor(self, ty, n, nargs, argtys):
        r = self.resolve_rec(ty)
        ct = n.get("ctorType", {}).get("qualType")
        cands = [f for f in r.methods if f.kind == "CXXConstructorDecl" and (f.body is not None or f.inits)]
        if ct:
            m = [f for f in cands if f.node["type"]["qualType"] == ct]
            if m: return m[0]
            want = C.canon(ct)
            m = [f for f in cands if _nsig(f.type) == _nsig(ct)]
            if m: return m[0]
        m = [f for f in cands if len(f.params) == nargs]
        if len(m) == 1: return m[0]
        # inherited constructors (using Base::Base)
        for b in r.bases:
            f = self.find_ctor(C.canon(b), n, nargs, argtys) if self.resolve_rec(C.canon(b)) else None
            if f is not None: return f
        return None

    def construct_vec(self, l, args, st):
        et = C.elem(l.ty)
        if not args:
            self.set_length(st, l, S.lit(0)); return
        a0 = args[0]
        t0 = C.deref(self.ctype(a0))
        if C.is_vec(t0):
            src = self.ev(a0, st)
            return self.copy_obj(st, l, src)
        if len(args) == 2 and (C.is_iter(t0) or C.is_ptr(t0)):
            b, e = self.rv(args[0], st), self.rv(args[1], st)
            return self.vec_assign_range(l, b, e, st)
        if t0.startswith("std::initializer_list"):
            self.set_length(st, l, S.lit(0))
            x = a0
            while x["kind"] != "InitListExpr": x = x["inner"][0]
            self.set_length(st, l, S.lit(len(x.get("inner", []))))
            for i, y in enumerate(x.get("inner", [])):
                self.wr(st, Loc(l.path + "[]", l.idxs + (S.lit(i),), et), self.rv(y, st))
            return
        nn = S.toint(self.rv(a0, st))
        self.set_length(st, l, nn)
        if len(args) > 1:
            v = self.ev(args[1], st)
            self.vec_fill_all(l, v, st)
        else:
            self.zero_elems(l, st)

    def zero_elems(self, l, st):
        for suf, so, ct in self.leafs(C.elem(l.ty)):
            v = {S.I: S.lit(0), S.R: S.rlit(0), S.B: z3.BoolVal(False)}[so]
            p = l.path + "[]" + suf
            self.set_sub(st, p, l.idxs, so, ct, S.const_arr(dims(p) - len(l.idxs), so, v))

    def vec_fill_all(self, l, v, st):
        et = C.elem(l.ty)
        so = self.sort_of(et)
        if so in (S.I, S.R, S.B):
            if isinstance(v, Loc): v = self.rd(st, v)
            v = self.coerce(v, so)
            self.set_sub(st, l.path + "[]", l.idxs, so, et, S.const_arr(1, so, v))
        elif so == "vec" or so == "rec":
            for suf, s2, ct in self.leafs(et):
                p = l.path + "[]" + suf
                k = dims(p) - len(l.idxs) - 1
                if k == 0:
                    x = self.get_leaf(st, v.path + suf, s2, ct)
                    x = x.sel(*v.idxs) if isinstance(x, S.Arr) else x
                    self.set_sub(st, p, l.idxs, s2, ct, S.const_arr(1, s2, x))
                else:
                    sub = self.sub_arr(st, v.path + suf, v.idxs, s2, ct)
                    self.set_sub(st, p, l.idxs, s2, ct, S.Arr(k + 1, s2, (lambda sub: lambda i, *j: sub.sel(*j))(sub)))
        elif so in ("ptr", "opaque"): pass
        else: raise Unsupported("fill of " + et)

    def vec_assign_range(self, l, b, e, st):
        et = C.elem(l.ty); so = self.sort_of(et)
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.same_region(e)): raise Unsupported("range from different regions")
        nn = S.sub(e.off, b.off)
        self.oblige("range is valid", st, nn >= 0, "memory")
        self.range_check(b, nn, st)
        for suf, s2, ct in self.leafs(et):
            src = self.sub_arr(st, b.path + "[]" + suf, b.idxs, s2, ct)
            off = b.off
            p = l.path + "[]" + suf
            self.set_sub(st, p, l.idxs, s2, ct, S.Arr(src.dim, s2, (lambda src: lambda i, *j: src.sel(S.norm(off + i), *j))(src)))
        self.set_length(st, l, nn)

    def range_check(self, p, n, st):
        """elements [p, p+n) lie inside the container"""
        ln = self.length(st, Loc(p.path, p.idxs))
        self.oblige("range in-bounds %s" % re.sub(r"[!#]\d+", "", p.path), st, S.Or(n <= 0, S.And(p.off >= 0, S.norm(p.off + n) <= ln)), "memory")

def _nsig(t):
    t = re.sub(r"\bconst\b", "", t)
    t = re.sub(r"std::vector<double(, std::allocator<double>)?\s*>", "kmsvector", t)
    t = re.sub(r"knor::base::|kbase::|base::|knor::", "", t)
    t = re.sub(r"\bunsigned int\b", "unsigned", t); t = re.sub(r"\bunsigned long\b", "size_t", t)
    return re.sub(r"\s+", "", t)
