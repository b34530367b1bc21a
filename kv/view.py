"""Readable access to symbolic states for contracts."""
import z3
from . import sym as S, ctypes_ as C
from .exec import *

class View:
    """an object or element in one state; attributes are fields, [] is element access, .len the length"""
    __slots__ = ("_ex", "_st", "_loc")
    def __init__(self, ex, st, loc):
        object.__setattr__(self, "_ex", ex); object.__setattr__(self, "_st", st); object.__setattr__(self, "_loc", loc)
    def _mk(self, loc):
        so = self._ex.sort_of(loc.ty)
        if so in (S.I, S.R, S.B):
            ex = self._ex; sv = ex.spec; ex.spec = True
            try: return ex.rd(self._st, loc)
            finally: ex.spec = sv
        if so == "ptr":
            return PView(self._ex, self._st, self._ex.rd_ptr(self._st, loc), loc)
        return View(self._ex, self._st, loc)
    def __getattr__(self, name):
        ex = self._ex; loc = self._loc
        if name in ("len", "size") and ex.sort_of(loc.ty) in ("vec", "carr", "map"):
            return ex.length(self._st, loc) if ex.sort_of(loc.ty) != "map" else ex.rd_size(self._st, loc)
        ft = None
        for n, t in ex.rec_fields(loc.ty):
            if n == name: ft = t
        if ft is None and loc.path in ex.dyn and ex.dyn[loc.path] != loc.ty:
            return getattr(View(ex, self._st, Loc(loc.path, loc.idxs, ex.dyn[loc.path])), name)
        if ft is None: raise Unsupported("no field %s in %s" % (name, loc.ty))
        l = Loc(loc.path + "." + ex.fname(loc.ty, name), loc.idxs, C.deref(ft))
        if C.is_ref(ft):
            return View(ex, self._st, ex.rd_ptr(self._st, Loc(l.path, l.idxs, C.deref(ft) + "*")).loc())
        if C.is_arr(ft) and C.arr_len_known(ft): ex.fixed[l.path] = C.arr_len(ft)
        return self._mk(l)
    def __getitem__(self, i):
        if isinstance(i, int): i = S.lit(i)
        ex = self._ex; loc = self._loc
        so = ex.sort_of(loc.ty)
        et = C.map_kv(loc.ty)[1] if so == "map" else C.elem(loc.ty)
        return self._mk(Loc(loc.path + "[]", loc.idxs + (S.norm(i),), et))
    def has(self, k):
        a = self._ex.get_leaf(self._st, self._loc.path + ".dom[]", S.B, "bool")
        return a.sel(*(self._loc.idxs + (k,)))
    def loc(self, name=None):
        """location of a field (for modifies clauses)"""
        if name is None: return self._loc
        for n, t in self._ex.rec_fields(self._loc.ty):
            if n == name: return Loc(self._loc.path + "." + self._ex.fname(self._loc.ty, name), self._loc.idxs, C.deref(t))
        raise Unsupported("no field %s in %s" % (name, self._loc.ty))
    def at(self, i):
        """location of element i"""
        et = C.elem(self._loc.ty)
        return Loc(self._loc.path + "[]", self._loc.idxs + (S.norm(i),), et)
    def locs(self): return [self._loc]

class PView:
    """a pointer value; [k] is the element it points at plus k; attributes go through it"""
    __slots__ = ("_ex", "_st", "ptr", "_loc")
    def __init__(self, ex, st, ptr, loc=None):
        self._ex = ex; self._st = st; self.ptr = ptr; self._loc = loc
    def obj(self):
        if self.ptr.kind == "arr":
            return View(self._ex, self._st, Loc(self.ptr.path + "[]", self.ptr.idxs + (self.ptr.off,), self.ptr.ty))
        return View(self._ex, self._st, self.ptr.loc())
    def __getitem__(self, k):
        if isinstance(k, int): k = S.lit(k)
        if self.ptr.kind == "obj": return self.obj()[k]
        v = View(self._ex, self._st, None)
        return v._mk(Loc(self.ptr.path + "[]", self.ptr.idxs + (S.norm(self.ptr.off + k),), self.ptr.ty))
    @property
    def off(self): return self.ptr.off
    @property
    def cap(self):
        """allocated elements of the region"""
        return self._ex.length(self._st, Loc(self.ptr.path, self.ptr.idxs))
    def region(self):
        """location of the whole region (for modifies clauses)"""
        return Loc(self.ptr.path, self.ptr.idxs, "std::vector<%s>" % self.ptr.ty)
    def loc(self, name=None):
        return self.obj().loc(name) if name is not None else self.obj()._loc
    def __getattr__(self, name):
        return getattr(self.obj(), name)

class Spec:
    """a call: receiver, arguments, old and new state, result"""
    def __init__(self, ex, c, f, this, vals, old, new, ret):
        self.ex = ex; self.c = c; self.f = f; self._this = this; self._vals = vals; self._old = old; self._new = new; self._ret = ret
        self.alt = None; self.root = False     # root: the function under verification itself, not a call to it
    def with_state(self, st):
        s = Spec(self.ex, self.c, self.f, self._this, self._vals, self._old, st, self._ret); s.root = self.root
        return s
    @property
    def new(self): return St(self, self._new)
    @property
    def old(self): return St(self, self._old)
    def st(self, state): return St(self, state)
    @property
    def ret(self):
        r = self._ret
        if isinstance(r, Loc): return St(self, self._new)._view(r)
        if isinstance(r, Ptr): return PView(self.ex, self._new, r)
        return r
    @property
    def this(self): return self.old.this
    def __getitem__(self, i): return self.old[i]

class St:
    """one state of a call"""
    def __init__(self, sp, st): self.sp = sp; self.st_ = st
    def _view(self, loc):
        return View(self.sp.ex, self.st_, None)._mk(loc)
    @property
    def this(self):
        return View(self.sp.ex, self.st_, self.sp._this)
    def __getitem__(self, i):
        """argument i: scalars are their call-time value; pointers keep their call-time target"""
        pt, so, v = self.sp._vals[i]
        if isinstance(v, Loc): return self._view(v)
        if isinstance(v, Ptr): return PView(self.sp.ex, self.st_, v)
        return v
    def glob(self, name, ty):
        return self._view(Loc("G." + name, (), ty))
