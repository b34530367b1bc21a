"""K15: the processes of the distributed library own disjoint, covering blocks of rows."""
import z3
from kv import sym as S
from kv.verify import Contract
from kv.calls import MPI_RC, MPI_SIZE, MPI_RANK
from kv.exec import Loc
from .lib import *
DRIVER = "dist"
DC = "knor::dist::dist_coordinator"; DT = "knor::prune::dist_task_coordinator"

def q(n, p): return S.idiv(n, p)
def start(n, p, r): return S.mul(r, q(n, p))
def size(n, p, r): return S.ite(r == p - 1, S.norm(n - S.mul(p - 1, q(n, p))), q(n, p))
def end(n, p, r): return S.norm(start(n, p, r) + size(n, p, r))

class Init(Contract):
    """a process learns who it is and gets the number of its rows"""
    qname = DC + "::init"; thisty = DC
    def requires(self, s): yield "a row per process", And(s[2] >= MPI_SIZE, MPI_SIZE >= 1, MPI_RANK >= 0, MPI_RANK < MPI_SIZE)
    def throws(self, s): return MPI_RC != 0
    def modifies(self, s): return [s.this.loc("nprocs"), s.this.loc("mpi_rank")]
    def ensures(self, s):
        n = s.new.this
        yield "processes", n.nprocs == MPI_SIZE
        yield "this process", n.mpi_rank == MPI_RANK
        yield "rows of the process", s.ret == size(s[2], MPI_SIZE, MPI_RANK)
        yield "at least one row", s.ret >= 1

class _Row(Contract):
    thisty = DC
    def requires(self, s):
        t = s.this
        yield "process numbers", And(t.nprocs >= 1, t.mpi_rank >= 0, t.mpi_rank < t.nprocs)
        yield "a row per process, and row ids fit", And(t.g_nrow >= t.nprocs, t.g_nrow < 9223372036854775808)
        yield "rows of the process", t.nrow == size(t.g_nrow, t.nprocs, t.mpi_rank)
    def modifies(self, s): return []
    def first(self, s): t = s.this; return start(t.g_nrow, t.nprocs, t.mpi_rank)
    def owned(self, s, x): t = s.this; return And(self.first(s) <= x, x < end(t.g_nrow, t.nprocs, t.mpi_rank))
    def lemmas(self, s):
        t = s.this; n, p, r = t.g_nrow, t.nprocs, t.mpi_rank
        yield "blocks end within the input", S.forall(lambda x: Imp(x == r, end(n, p, x) <= n), 1, pats=lambda x: [start(n, p, x)]), "direct"
class GlobalRid(_Row):
    qname = DC + "::global_rid"
    def ensures(self, s):
        yield "global id", s.ret == S.norm(self.first(s) + s[0])
        yield "own rows map to own rows", Imp(s[0] < s.this.nrow, self.owned(s, s.ret))
class LocalRid(_Row):
    qname = DC + "::local_rid"
    def throws(self, s): return Not(self.owned(s, s[0]))
    def ensures(self, s):
        yield "local id", S.norm(self.first(s) + s.ret) == s[0]
        yield "below the number of rows", And(s.ret >= 0, s.ret < s.this.nrow)
class IsLocal(_Row):
    """true on exactly one process: the blocks cover all rows and do not overlap (lemmas)"""
    qname = DC + "::is_local"
    def ensures(self, s): yield "owned", (s.ret == self.owned(s, s[0])) if z3.is_bool(s.ret) else ((s.ret != 0) == self.owned(s, s[0]))
    def lemmas(self, s):
        yield from _Row.lemmas(self, s)
        t = s.this; n, p = t.g_nrow, t.nprocs
        yield "the first block starts at the first row", S.forall(lambda r: Imp(r == 0, start(n, p, r) == 0), 1, pats=lambda r: [start(n, p, r)]), "direct"
        yield "the next block starts where this one ends, the last one ends at the last row", S.forall(lambda r: Imp(And(r >= 0, r < p), end(n, p, r) == S.ite(r == p - 1, n, start(n, p, S.norm(r + 1)))), 1, pats=lambda r: [start(n, p, r)]), "direct"

class Shift(Contract):
    """row numbers of the workers become local to the process"""
    qname = DC + "::shift_thread_start_rid"; thisty = DC
    def setup(self, ex): ex.dyn["this.threads[]*"] = "knor::kmeans_thread"
    def first(self, s): t = s.this; return S.mul(t.mpi_rank, S.idiv(t.g_nrow, t.nprocs))
    def requires(self, s):
        t = s.this
        yield "process numbers", And(t.nprocs >= 1, t.mpi_rank >= 0, t.g_nrow >= t.nprocs)
        yield "workers own rows of the process", S.forall(lambda i: Imp(And(i >= 0, i < t.threads.len), t.threads[i].start_rid >= self.first(s)), 1, pats=lambda i: [t.threads[i].start_rid])
    def modifies(self, s): return [Loc("this.threads[]*.start_rid", (), "unsigned long")]
    def at(self, s, q, lo, hi, d): return S.forall(lambda i: Imp(And(i >= lo, i < hi), s.st(q).this.threads[i].start_rid == S.norm(s.old.this.threads[i].start_rid - d)), 1, pats=lambda i: [s.st(q).this.threads[i].start_rid])
    def ensures(self, s): yield "local first rows", self.at(s, s._new, S.lit(0), s.this.threads.len, self.first(s))
    def loop_inv(self, s, L):
        for nm, i in L.ints:
            yield "shifted below " + nm, lambda q, i=i: self.at(s, q, S.lit(0), i(q), self.first(s))
            yield "unshifted from " + nm, lambda q, i=i: self.at(s, q, i(q), s.this.threads.len, S.lit(0))

def task(C):
    return type("Task" + C.__name__, (C,), {"qname": C.qname.replace(DC, DT), "thisty": DT})
BASE = [Init, GlobalRid, LocalRid, IsLocal]
CONTRACTS = BASE + [task(C) for C in BASE] + [Shift]
