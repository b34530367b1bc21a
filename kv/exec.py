"""Symbolic execution of the clang AST of the real functions: generates the proof obligations."""
import z3, re, itertools
from . import sym as S, ctypes_ as C, prove as P
from .cast import TU, qt

class Unsupported(Exception):
    pass
class ThrowEx(Exception):
    def __init__(self, what=""): self.what = what
class Infeasible(Exception):
    pass

class Loc:
    __slots__ = ("path", "idxs", "ty")
    def __init__(self, path, idxs=(), ty="?"):
        self.path = path; self.idxs = tuple(idxs); self.ty = ty
    def sub(self, suffix, ty, extra=()):
        return Loc(self.path + suffix, self.idxs + tuple(extra), ty)
    def key(self): return (self.path, tuple(i.get_id() for i in self.idxs))
    def __repr__(self): return "Loc(%s%s:%s)" % (self.path, list(self.idxs), self.ty)

class Ptr:
    """kind 'arr': element off of container path; 'obj': points at loc; 'null'"""
    __slots__ = ("kind", "path", "idxs", "off", "ty")
    def __init__(self, kind, path=None, idxs=(), off=None, ty=None):
        self.kind = kind; self.path = path; self.idxs = tuple(idxs); self.off = off; self.ty = ty
    def loc(self, k=None):
        if self.kind == "null": raise Unsupported("null dereference")
        if self.kind == "obj":
            if k is not None and not (z3.is_int_value(k) and k.as_long() == 0):
                raise Unsupported("index into single object")
            return Loc(self.path, self.idxs, self.ty)
        off = self.off if k is None else S.norm(self.off + k)
        return Loc(self.path + "[]", self.idxs + (off,), self.ty)
    def plus(self, k):
        if self.kind == "arr": return Ptr("arr", self.path, self.idxs, S.norm(self.off + k), self.ty)
        if z3.is_int_value(k) and k.as_long() == 0: return self
        raise Unsupported("pointer arithmetic on %s" % self.kind)
    def same_region(self, o):
        return self.kind == o.kind and self.path == o.path and len(self.idxs) == len(o.idxs) and all(a.eq(b) for a, b in zip(self.idxs, o.idxs))
    def __repr__(self): return "Ptr(%s,%s%s,+%s)" % (self.kind, self.path, list(self.idxs), self.off)

NULL = Ptr("null")

class Iter:
    """iterator over an unordered_map/vmap style container is not modelled; vector iterators are Ptr"""

class Fn:
    def __init__(self, decl): self.decl = decl

class Opaque:
    def __repr__(self): return "Opaque"
OPAQUE = Opaque()

class StrV(Opaque):
    """a string value, known only up to equality"""
    ids = {}
    def __init__(self, term, text=None): self.term = term; self.text = text
    @staticmethod
    def lit(text):
        if text not in StrV.ids: StrV.ids[text] = len(StrV.ids) + 1
        return StrV(S.lit(StrV.ids[text]), text)
    def __repr__(self): return "Str(%s)" % self.term

class Pair:
    def __init__(self, a, b): self.a = a; self.b = b
    first = property(lambda self: self.a)
    second = property(lambda self: self.b)

class State:
    __slots__ = ("store", "ptrs", "assumes", "npc", "checked", "aliases", "writes", "pc")
    def __init__(self):
        self.store = {}; self.ptrs = {}; self.assumes = []; self.checked = {}; self.aliases = {}; self.writes = None; self.pc = []
    def copy(self):
        s = State()
        s.store = dict(self.store); s.ptrs = dict(self.ptrs); s.assumes = list(self.assumes)
        s.checked = dict(self.checked); s.aliases = dict(self.aliases); s.writes = self.writes; s.pc = list(self.pc)
        return s
    def become(self, o):
        self.store = o.store; self.ptrs = o.ptrs; self.assumes = o.assumes; self.checked = o.checked
        self.aliases = o.aliases; self.pc = o.pc
    def branch(self, c):
        s = self.copy()
        s.assumes.append(c); s.pc.append(c)
        return s

def dims(path): return path.count("[]")

class Frame:
    site = 0
    def __init__(self, fn, this):
        self.fn = fn; self.env = {}; self.this = this; self.locals = []

class Obligation:
    __slots__ = ("name", "assumes", "goal", "where", "kind", "result", "func", "hints")
    def __init__(self, name, assumes, goal, where, kind, func, hints=()):
        self.name = name; self.assumes = assumes; self.goal = goal; self.where = where; self.kind = kind
        self.result = None; self.func = func; self.hints = hints

DECL_SORT = {"bool": S.B}

class Exec:
    def short_id(self, i): return "%d" % self.ids.setdefault(i, len(self.ids))
    def __init__(self, tu, contracts, opts=None):
        self.tu = tu
        self.contracts = contracts          # qname -> list of Contract
        self.facts = []                     # type facts about initial leaves (always valid)
        self.init = {}                      # path -> initial value
        self.leaf_sort = {}
        self.shapes = {}                    # pointer leaf path -> ('obj', path) | ('arr', path)
        self.dyn = {}                       # object path -> dynamic class name
        self.obls = []
        self.emit = True
        self.frames = []
        self.throws = []
        self.cnt = itertools.count(1)
        self.ids = {}                       # AST node ids are addresses: numbered in the order of first use, so that runs are repeatable
        self.cur = None                     # (contract ctx) of root function
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()                # textual assumptions met on the way
        self.loop_log = []
        self.inv_templates = []
        self.opts = opts or {}
        self.depth = 0
        self.locset = {}
        self.root = None

    # ------------------------------------------------------------------ types
    def resolve_rec(self, ty):
        t = ty
        if t in self.tu.records: return self.tu.records[t]
        for k in self.tu.records:
            if k.endswith("::" + t): return self.tu.records[k]
        # dense_matrix<double> instantiated name
        return None

    def sort_of(self, ty):
        if C.is_bool(ty): return S.B
        if C.is_int(ty): return S.I
        if C.is_float(ty): return S.R
        if C.is_ptr(ty) or C.is_iter(ty) or C.is_ref(ty): return "ptr"
        if C.is_vec(ty): return "vec"
        if C.is_map(ty): return "map"
        if C.is_arr(ty): return "carr"
        if C.is_opaque(ty): return "opaque"
        if ty.startswith("std::pair<"): return "pair"
        r = self.resolve_rec(ty)
        if r is not None: return "rec"
        if ty.startswith("std::"): return "opaque"
        return S.I   # enums

    def ctype(self, node):
        t = node.get("type") or {}
        return C.canon(qt(t) or "?")

    def rec_fields(self, ty):
        """[(name, type)] including bases"""
        r = self.resolve_rec(ty)
        out = []
        if r is None: return out
        for b in r.bases:
            out += self.rec_fields(C.canon(b))
        for k, t in r.fields.items():
            out.append((k, self._fix(C.canon(qt(t)))))
        return out

    def _fix(self, t):
        return t

    def leafs(self, ty):
        """[(suffix, sort, ctype)] of scalar leaves of an object of that type"""
        s = self.sort_of(ty)
        if s in (S.I, S.R, S.B): return [("", s, ty)]
        if s == "vec":
            out = [(".len", S.I, "unsigned long")]
            for suf, so, ct in self.leafs(C.elem(ty)):
                out.append(("[]" + suf, so, ct))
            return out
        if s == "map":
            k, v = C.map_kv(ty)
            out = [(".dom[]", S.B, "bool"), (".size", S.I, "unsigned long")]
            for suf, so, ct in self.leafs(v):
                out.append(("[]" + suf, so, ct))
            return out
        if s == "carr":
            return [("[]" + suf, so, ct) for suf, so, ct in self.leafs(C.elem(ty))]
        if s == "rec":
            out = []
            r = self.resolve_rec(ty)
            seen = set()
            for n, t in self.rec_fields(ty):
                fn = "." + self.fname(ty, n)
                if fn in seen: continue
                seen.add(fn)
                for suf, so, ct in self.leafs(t):
                    out.append((fn + suf, so, ct))
            return out
        return []

    def ptr_leafs(self, ty):
        s = self.sort_of(ty)
        if s == "ptr": return [("", ty)]
        if s == "vec" or s == "carr": return [("[]" + a, t) for a, t in self.ptr_leafs(C.elem(ty))]
        if s == "rec":
            out = []
            for n, t in self.rec_fields(ty):
                out += [("." + self.fname(ty, n) + a, tt) for a, tt in self.ptr_leafs(t)]
            return out
        return []

    def fname(self, ty, name):
        r = self.resolve_rec(ty)
        if r is not None and r.is_union: return "u"
        return name

    # ------------------------------------------------------------------ store
    def type_facts(self, term_fn, dim, ct, path):
        if C.is_bool(ct): return
        if ct in C.INTS:
            w, sg = C.INTS[ct]
            if sg: return
        elif C.is_float(ct): return
        else: return
        if dim == 0:
            self.facts.append(term_fn() >= 0)
        else:
            self.facts.append(S.forall(lambda *i: term_fn(*i) >= 0, dim, pats=lambda *i: [term_fn(*i)], name="type " + path))

    def initial(self, path, sort, ct):
        v = self.init.get(path)
        if v is None:
            v = self.mk(path, sort, ct)
            self.init[path] = v
            self.leaf_sort[path] = (sort, ct)
        return v

    def mk(self, path, sort, ct):
        d = dims(path)
        base = re.sub(r"[^A-Za-z0-9_\.\*\[\]>]", "_", path)
        if path.endswith(".len") or path.endswith(".size"): ct = "unsigned long"
        if d == 0:
            v = S.fresh(sort, base)
            self.type_facts(lambda: v, 0, ct, path)
            return v
        v = S.fresh_arr(d, sort, base)
        self.type_facts(lambda *i: v.uf(*i), d, ct, path)
        return v

    def get_leaf(self, st, path, sort, ct):
        if path in st.store: return st.store[path]
        return self.initial(path, sort, ct)

    def set_leaf(self, st, path, v, idxs=()):
        st.store[path] = v
        if st.writes is not None: st.writes.setdefault(path, []).append(tuple(idxs))

    def rd(self, st, loc):
        """read a scalar leaf"""
        so = self.sort_of(loc.ty)
        if so == "ptr": return self.rd_ptr(st, loc)
        if so == "opaque": return OPAQUE
        if so not in (S.I, S.R, S.B):
            return loc   # aggregates stay locations
        if not self.spec: self.bounds(st, loc)
        v = self.get_leaf(st, loc.path, so, loc.ty)
        return v.sel(*loc.idxs) if isinstance(v, S.Arr) else v

    spec = False
    def wr(self, st, loc, val):
        so = self.sort_of(loc.ty)
        if so == "ptr": return self.wr_ptr(st, loc, val)
        if so == "opaque": return
        if so not in (S.I, S.R, S.B):
            return self.copy_obj(st, loc, val)
        self.bounds(st, loc)
        val = self.coerce(val, so)
        cur = self.get_leaf(st, loc.path, so, loc.ty)
        if isinstance(cur, S.Arr):
            self.set_leaf(st, loc.path, cur.store(loc.idxs, val), loc.idxs)
        else:
            self.set_leaf(st, loc.path, val)

    def coerce(self, v, so):
        if v is OPAQUE: return S.fresh(so, "opq")
        if so == S.R: return S.toreal(v)
        if so == S.I:
            if z3.is_real(v): return S.trunc(v)
            return S.toint(v)
        if so == S.B:
            if z3.is_bool(v): return v
            return v != 0
        return v

    def bounds(self, st, loc):
        """every [] component must be inside its container"""
        parts = loc.path.split("[]")
        pre = ""
        k = 0
        for i, seg in enumerate(parts[:-1]):
            pre += seg
            idx = loc.idxs[k]; outer = loc.idxs[:k]
            if not pre.endswith("**") and not pre.startswith("T?"):
                self.check_index(st, pre, outer, idx)
            pre += "[]"; k += 1

    def is_mapish(self, path):
        return path in self.mapish
    mapish = frozenset()

    def check_index(self, st, cont, outer, idx):
        if cont in self.mapish or cont.endswith(".dom"): return
        key = (cont, tuple(o.get_id() for o in outer), idx.get_id())
        if key in st.checked: return
        st.checked[key] = (idx, tuple(outer))
        ln = self.length(st, Loc(cont, outer))
        goal = S.And(idx >= 0, idx < ln)
        self.oblige("in-bounds %s" % re.sub(r"!\d+", "", cont), st, goal, "memory")

    fixed = {}
    def length(self, st, loc):
        if loc.path in self.fixed: return S.lit(self.fixed[loc.path])
        if isinstance(loc.ty, str) and C.is_arr(loc.ty) and C.arr_len_known(loc.ty): return S.lit(C.arr_len(loc.ty))
        p = loc.path + ".len"
        v = self.get_leaf(st, p, S.I, "unsigned long")
        return v.sel(*loc.idxs) if isinstance(v, S.Arr) else v

    def set_scalar(self, st, path, idxs, sort, ct, val):
        cur = self.get_leaf(st, path, sort, ct)
        self.set_leaf(st, path, cur.store(tuple(idxs), val) if isinstance(cur, S.Arr) else val, idxs)

    def set_length(self, st, loc, val):
        st.checked = {}
        self.set_scalar(st, loc.path + ".len", loc.idxs, S.I, "unsigned long", val)

    def sub_arr(self, st, path, idxs, sort, ct):
        """array below a fixed index prefix"""
        v = self.get_leaf(st, path, sort, ct)
        n = len(idxs)
        if n == 0: return v
        return S.Arr(v.dim - n, v.sort, lambda *j: v.sel(*(tuple(idxs) + j)), path)

    def set_sub(self, st, path, idxs, sort, ct, sub):
        """replace the array (or scalar) below a fixed index prefix; sub: Arr of dim d-len(idxs) or term"""
        d = dims(path)
        if d == len(idxs):
            t = sub
            self.set_scalar(st, path, idxs, sort, ct, t); return
        if len(idxs) == 0:
            self.set_leaf(st, path, sub); return
        cur = self.get_leaf(st, path, sort, ct)
        n = len(idxs); idxs = tuple(idxs)
        def fn(*j):
            cs = []
            for a, b in zip(idxs, j[:n]):
                if a.eq(b): continue
                e = S._eqc(a, b)
                if z3.is_false(e): return cur.sel(*j)
                cs.append(e)
            return S.ite(S.And(*cs), sub.sel(*j[n:]), cur.sel(*j))
        self.set_leaf(st, path, S.Arr(d, sort, fn, path), idxs)

    def copy_obj(self, st, dst, src, ty=None):
        if isinstance(src, Ptr): raise Unsupported("copy from pointer value")
        if src is OPAQUE: return
        ty = ty or dst.ty
        for suf, so, ct in self.leafs(ty):
            sp, dp = src.path + suf, dst.path + suf
            if dims(sp) == len(src.idxs):
                v = self.get_leaf(st, sp, so, ct)
                v = v.sel(*src.idxs) if isinstance(v, S.Arr) else v
                self.set_sub(st, dp, dst.idxs, so, ct, v)
            else:
                self.set_sub(st, dp, dst.idxs, so, ct, self.sub_arr(st, sp, src.idxs, so, ct))
        for suf, pt in self.ptr_leafs(ty):
            if "[]" in suf:
                st.aliases[dst.path + suf] = (src.path + suf, len(dst.idxs), src.idxs)
            else:
                p = self.rd_ptr(st, Loc(src.path + suf, src.idxs, pt))
                self.wr_ptr(st, Loc(dst.path + suf, dst.idxs, pt), p)

    def zero_obj(self, st, loc, ty):
        for suf, so, ct in self.leafs(ty):
            v = {S.I: S.lit(0), S.R: S.rlit(0), S.B: z3.BoolVal(False)}[so]
            n = dims(loc.path + suf) - len(loc.idxs)
            self.set_sub(st, loc.path + suf, loc.idxs, so, ct, v if n == 0 else S.const_arr(n, so, v))

    # ------------------------------------------------------------------ pointers
    def rd_ptr(self, st, loc):
        k = loc.key()
        if k in st.ptrs: return st.ptrs[k]
        if ("taint:" + loc.path, ()) in st.ptrs: raise Unsupported("pointer member %s not known here" % loc.path)
        if loc.path in st.aliases:
            sp, n, sidx = st.aliases[loc.path]
            return self.rd_ptr(st, Loc(sp, tuple(sidx) + loc.idxs[n:], loc.ty))
        # default shape
        sh = self.shapes.get(loc.path)
        pt = C.pointee(loc.ty) if C.is_ptr(loc.ty) else "double"
        idxs = loc.idxs
        if sh is not None:
            kind, path = sh[0], sh[1]
            if len(sh) > 2 and sh[2] == "keep": pass
            else: idxs = ()
            if kind == "null": return NULL
            if kind == "fn": return path(self, st, loc)
        else:
            path = loc.path + "*"
            kind = "obj" if self.sort_of(pt) in ("rec", "vec", "map", "opaque", "pair") else "arr"
        if kind == "obj": return Ptr("obj", path, idxs, None, pt)
        return Ptr("arr", path, idxs, S.lit(0), pt)

    def wr_ptr(self, st, loc, val):
        if isinstance(val, Loc): raise Unsupported("store of location into pointer")
        if z3.is_expr(val): val = NULL
        if loc.idxs and val.kind == "obj" and val.path.startswith("new#") and not val.idxs:
            # ownership move of a fresh object into a family
            dst = Loc(loc.path + "*", loc.idxs, val.ty)
            ty = self.dyn.get(val.path, val.ty)
            self.copy_obj(st, dst, Loc(val.path, (), ty), ty)
            if val.path in self.dyn and self.resolve_rec(self.dyn.setdefault(loc.path + "*", ty)) is not self.resolve_rec(ty): raise Unsupported("family of objects of several classes: %s, %s" % (ty, self.dyn[loc.path + "*"]))
            return
        st.ptrs[loc.key()] = val
        if st.writes is not None: st.writes.setdefault("ptr:" + loc.path, []).append(loc.idxs)

    # ------------------------------------------------------------------ obligations
    def where(self):
        return self.curline

    curline = 0
    def local_hints(self, st):
        """instance points offered to the assumed quantified facts when a first attempt fails: the integer locals"""
        out = []; seen = set()
        for p, v in st.store.items():
            if p.startswith("L") and not dims(p) and z3.is_expr(v) and z3.is_int(v) and not z3.is_int_value(v) and v.get_id() not in seen:
                seen.add(v.get_id()); out.append((v,))
        return out[-8:]

    def oblige(self, name, st, goal, kind="assert", hints=()):
        if isinstance(goal, S.FA) or not z3.is_true(goal):
            if self.emit:
                fn = self.frames[-1].fn.qname if self.frames else "?"
                self.obls.append(Obligation(name, list(st.assumes), goal, self.curline, kind, fn, hints or self.local_hints(st)))
            # the continuation may rely on it
            if kind in ("memory", "assert"):
                st.assumes.append(goal)

    def assume(self, st, f):
        if isinstance(f, S.FA) or not z3.is_true(f): st.assumes.append(f)

    def quick(self, st, goal, timeout=1500):
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        r = P.prove(self.facts + st.assumes, goal, timeout=timeout, ext=False)
        return r.ok

    # ------------------------------------------------------------------ merging
    def merge(self, states, vals=None):
        """merge alternative continuations (mutually exclusive path conditions)"""
        if len(states) == 1: return states[0], (vals[0] if vals else None)
        n = min(len(s.assumes) for s in states)
        k = 0
        while k < n and all(s.assumes[k] is states[0].assumes[k] or _same(s.assumes[k], states[0].assumes[k]) for s in states): k += 1
        np_ = min(len(s.pc) for s in states)
        j = 0
        while j < np_ and all(_same(s.pc[j], states[0].pc[j]) for s in states): j += 1
        conds = [S.And(*s.pc[j:]) for s in states]
        m = states[0].copy()
        m.assumes = list(states[0].assumes[:k])
        m.pc = list(states[0].pc[:j])
        for s, c in zip(states, conds):
            lits = set(x.get_id() for x in s.pc[j:])
            for f in s.assumes[k:]:
                if not isinstance(f, S.FA) and f.get_id() in lits: continue
                m.assumes.append(S.guard(c, f))
        d = S.Or(*conds)
        if not z3.is_true(z3.simplify(d)): 
            m.assumes.append(d); m.pc.append(d)
        # store
        keys = set()
        for s in states: keys |= set(s.store)
        for p in keys:
            vs = []
            for s in states:
                if p in s.store: vs.append(s.store[p])
                elif p in self.init: vs.append(self.init[p])
                else: vs.append(None)
            if all(v is vs[0] for v in vs):
                if vs[0] is not None: m.store[p] = vs[0]
                continue
            if any(v is None for v in vs):
                # some path never saw this leaf: it is local to a branch (or its initial value)
                tmpl = next(v for v in vs if v is not None)
                so = tmpl.sort if isinstance(tmpl, S.Arr) else tmpl.sort()
                ini = self.initial(p, so, self.leaf_sort.get(p, (so, "?"))[1])
                vs = [ini if v is None else v for v in vs]
            m.store[p] = _ite_vals(conds, vs)
        # pointers
        pk = set()
        for s in states: pk |= set(s.ptrs)
        for key in pk:
            vs = [s.ptrs.get(key) for s in states]
            if all(v is vs[0] for v in vs): 
                m.ptrs[key] = vs[0]; continue
            live = [v for v in vs if v is not None]
            if len(live) < len(vs):
                if self.is_local_path(key[0]):
                    m.ptrs[key] = live[0]   # declared in one branch only
                    continue
                raise MergeFail("pointer %s" % (key,))
            m.ptrs[key] = self.merge_ptr(conds, vs)
        al = {}
        for s in states:
            for a, b in s.aliases.items():
                if a in al and not _alias_same(al[a], b): raise MergeFail("alias " + a)
                al[a] = b
        m.aliases = al
        m.checked = {}
        for q, v in states[0].checked.items():
            if all(q in s.checked for s in states): m.checked[q] = v
        v = None
        if vals is not None and any(x is not None for x in vals):
            v = self.merge_vals(conds, vals)
        return m, v

    def is_local_path(self, p): return p.startswith("L") or p.startswith("new#") or p.startswith("tmp#")

    def merge_ptr(self, conds, vs):
        if all(v.kind == "null" for v in vs): return vs[0]
        if all(v.kind == "null" or (v.path or "").startswith(("new#file", "maybe#file")) for v in vs):
            return Ptr("obj", "maybe#file", (), None, "FILE")       # a file handle: null or not
        if all(v.same_region(vs[0]) for v in vs):
            if vs[0].kind == "obj": return vs[0]
            off = vs[-1].off
            for c, v in reversed(list(zip(conds[:-1], vs[:-1]))):
                off = S.ite(c, v.off, off)
            return Ptr("arr", vs[0].path, vs[0].idxs, off, vs[0].ty)
        # same path, different family index
        if all(v.kind == vs[0].kind and v.path == vs[0].path and len(v.idxs) == len(vs[0].idxs) for v in vs):
            idxs = []
            for q in range(len(vs[0].idxs)):
                t = vs[-1].idxs[q]
                for c, v in reversed(list(zip(conds[:-1], vs[:-1]))): t = S.ite(c, v.idxs[q], t)
                idxs.append(t)
            off = vs[-1].off
            if vs[0].kind == "arr":
                for c, v in reversed(list(zip(conds[:-1], vs[:-1]))): off = S.ite(c, v.off, off)
            return Ptr(vs[0].kind, vs[0].path, idxs, off, vs[0].ty)
        raise MergeFail("pointer regions %s" % vs)

    def merge_vals(self, conds, vals):
        v0 = vals[0]
        if all(v is v0 for v in vals): return v0
        if all(isinstance(v, Ptr) for v in vals): return self.merge_ptr(conds, vals)
        if all(isinstance(v, Loc) for v in vals):
            if all(v.key() == v0.key() for v in vals): return v0
            if all(v.path == v0.path for v in vals):
                idxs = []
                for q in range(len(v0.idxs)):
                    t = vals[-1].idxs[q]
                    for c, v in reversed(list(zip(conds[:-1], vals[:-1]))): t = S.ite(c, v.idxs[q], t)
                    idxs.append(t)
                return Loc(v0.path, idxs, v0.ty)
            raise MergeFail("locations")
        if all(z3.is_expr(v) for v in vals):
            if not all(v.sort() == v0.sort() for v in vals):
                if any(z3.is_real(v) for v in vals): vals = [S.toreal(v) for v in vals]
                else: vals = [S.toint(v) for v in vals]
            t = vals[-1]
            for c, v in reversed(list(zip(conds[:-1], vals[:-1]))): t = S.ite(c, v, t)
            return t
        if all(v is None or v is OPAQUE for v in vals): return OPAQUE
        raise MergeFail("values %s" % (vals,))

class MergeFail(Unsupported):
    pass

def _alias_same(a, b):
    return a[0] == b[0] and a[1] == b[1] and len(a[2]) == len(b[2]) and all(x.eq(y) for x, y in zip(a[2], b[2]))

def _same(a, b):
    if a is b: return True
    if isinstance(a, S.FA) or isinstance(b, S.FA): return False
    return a.eq(b)

def _ite_vals(conds, vs):
    if isinstance(vs[0], S.Arr):
        def fn(*i):
            t = vs[-1].sel(*i)
            for c, v in reversed(list(zip(conds[:-1], vs[:-1]))): t = S.ite(c, v.sel(*i), t)
            return t
        return S.Arr(vs[0].dim, vs[0].sort, fn, vs[0].name)
    t = vs[-1]
    for c, v in reversed(list(zip(conds[:-1], vs[:-1]))): t = S.ite(c, v, t)
    return t
