"""Contracts of the CSR constructors: triples in, the same matrix in CSR out."""
import z3
from .core import *
from .contract import Contract
from .speclib import *
from . import lemmas as L


class SF:
    """prefix function that depends on the current contents of an array"""
    stateful = True
    def __init__(self, fn): self.fn = fn
    def __call__(self, *a): return self.fn(*a)


def perm_witness(ex, region):
    """pi with final[k] = initial[pi(k)], from the sorts performed on the region"""
    steps = [s for s in ex.sorts if s[0] is region]
    def pi(k):
        for (r, lo, hi, p, inv, old, new, conds, stable) in reversed(steps):
            c = z3.And(lo <= k, k < hi, *conds)
            k = z3.If(c, p(k), k)
        return k
    def inv_(k):
        for (r, lo, hi, p, inv, old, new, conds, stable) in steps:
            c = z3.And(lo <= k, k < hi, *conds)
            k = z3.If(c, inv(k), k)
        return k
    return pi, inv_


def permuted(c, st, src, n, paths):
    """final src[0..n) is a permutation of the initial one: [(name, lo, hi, P, pats)]"""
    pi, inv = perm_witness(c.ex, src.region)
    first = paths[0]
    def P(s, k):
        w = pi(src.off + k)
        return z3.And(w >= src.off, w < src.off + n, inv(w) == src.off + k, *[c.el(s, src, k, *p) == z3.Select(c.arr(c.s0, src, *p), w) for p in paths])
    return P


class CsrBuild(Contract):
    """Coo_to_Csr(A, nonzeros, rows, columns, nnz, isSorted, allocate)"""
    name = 'Coo_to_Csr'
    elem = ('val', 'col_ind')
    dst = 'Csr<float, unsigned int>'

    def names(self, c):
        a = c.args
        return a[0], a[1], a[2], a[3], a[4]

    def is_sorted(self, c): return c.args[5]
    def allocate(self, c): return c.args[6]

    def src_leaf(self, c, st, p):
        A, src, rows, cols, n = self.names(c)
        return c.arr(st, src, p)

    def pre(self, c):
        A, src, rows, cols, n = self.names(c)
        row = lambda k: c.el(c.s0, src, k, 'row')
        col = lambda k: c.el(c.s0, src, k, 'col')
        j, k = z3.Ints('j!q k!q')
        out = [('source holds nnz entries', c.room(src, n)), ('source pointer is the start of its array', src.off == 0),
               ('rows + 1 fits the index type', rows < (1 << 32) - 1),
               ('row indices are valid', every(0, n, lambda k: z3.And(row(k) >= 0, row(k) < rows), row)),
               ('column indices are valid', every(0, n, lambda k: z3.And(col(k) >= 0, col(k) < cols), col)),
               ('an input declared sorted is sorted by row', z3.Implies(self.is_sorted(c), z3.ForAll([j, k], z3.Implies(
                   z3.And(j >= 0, j < k, k < n), row(j) <= row(k)), patterns=[z3.MultiPattern(row(j), row(k))])))]
        return out + self.pre_alloc(c)

    def pre_alloc(self, c):
        A, src, rows, cols, n = self.names(c)
        if z3.is_true(self.allocate(c)): return []
        return [('%s holds nnz entries' % nm, z3.Implies(z3.Not(self.allocate(c)), c.room(c.fld(c.s0, A, nm), n))) for nm in self.elem]

    def axioms(self, c): return L.base()

    def cur_rows(self, c, st):
        A, src, rows, cols, n = self.names(c)
        return c.arr(st, src, 'row')

    def rp(self, c, st): return c.fld(st, self.names(c)[0], 'row_ptr')

    def prefixes(self, c):
        return [('Cnt', SF(lambda st, k, r: L.CNT(self.cur_rows(c, st), k, r)), 'cells', (IV(0),), lambda r, p: (IV(0), IV(1))),
                ('CL', SF(lambda st, k: L.CL(self.cur_rows(c, st), self.names(c)[4], k)), 'count')]

    def modifies(self, c):
        A, src, rows, cols, n = self.names(c)
        out = [('any', A)]
        if not z3.is_true(self.is_sorted(c)): out.append(('win', src, IV(0), n))
        if not z3.is_true(self.allocate(c)):
            for nm in self.elem: out.append(('win', c.fld(c.s0, A, nm), IV(0), n))
        return out

    def dval(self, c, st, k): return c.el(st, c.fld(st, self.names(c)[0], 'val'), k)
    def dcol(self, c, st, k): return c.el(st, c.fld(st, self.names(c)[0], 'col_ind'), k)
    def dptrs(self, c, st):
        A = self.names(c)[0]
        return [c.fld(st, A, nm) for nm in self.elem]

    def ok(self, c, st):
        """the destination's arrays exist in this state"""
        return all(isinstance(p, Ptr) and p.region is not None for p in self.dptrs(c, st) + [self.rp(c, st)])

    def cells(self, c):
        A, src, rows, cols, n = self.names(c)
        paths = [('row',), ('col',), ('val',)]
        perm = permuted(c, None, src, n, paths)
        f = z3.BoolVal(True)
        def rpk(st, k):
            p = self.rp(c, st)
            return c.el(st, p, k) == L.CL(self.cur_rows(c, st), n, k)
        def cnt(st, k):
            p = self.rp(c, st)
            return z3.Implies(k >= 1, c.el(st, p, k) == L.CNT(self.cur_rows(c, st), n, k - 1))
        out = []
        if c.s1 is not None or not c.verifying: pass
        out.append(('the source is only reordered', IV(0), n, perm, lambda st, k: [c.el(st, src, k, p) for p in ('row', 'col', 'val')]))
        out.append(('row_ptr[r] is the number of entries in rows before r', IV(0), rows + 1, rpk, lambda st, k: [c.el(st, self.rp(c, st), k)]))
        out.append(('entry k keeps its column and value', IV(0), n,
                    lambda st, k: z3.And(self.dval(c, st, k) == c.el(st, src, k, 'val'), self.dcol(c, st, k) == c.el(st, src, k, 'col')),
                    lambda st, k: [self.dcol(c, st, k), self.dval(c, st, k)]))
        return out

    def lemmas(self, c, st):
        A, src, rows, cols, n = self.names(c)
        a = self.cur_rows(c, st)
        return [L.inst_zero(a, n), L.inst_total(a, n, rows), L.inst_sorted(a, n)]


    def dims(self, c, st):
        A, src, rows, cols, n = self.names(c)
        return [('rows and columns are recorded', z3.And(c.fld(st, A, 'rows') == rows, c.fld(st, A, 'columns') == cols))]

    def post(self, c):
        A, src, rows, cols, n = self.names(c)
        st = c.s1
        rp = self.rp(c, st)
        k = z3.Int('k!z')
        row = c.el(st, src, k, 'row')
        out = self.dims(c, st) + [
               ('row_ptr has rows+1 entries', z3.And(rp.off == 0, rp.region.size == rows + 1)),
               ('row_ptr starts at 0', c.el(st, rp, IV(0)) == 0), ('row_ptr ends at nnz', c.el(st, rp, rows) == n),
               ('row_ptr never decreases', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < rows), c.el(st, rp, k) <= c.el(st, rp, k + 1)))),
               ('every entry lies in the segment of its row', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n),
                   z3.And(c.el(st, rp, row) <= k, k < c.el(st, rp, row + 1))))),
               ('returns 0', c.ret == 0 if c.ret is not None else z3.BoolVal(True))]
        for p in self.dptrs(c, st): out.append(('arrays hold nnz entries', c.room(p, n)))
        return out

    def leaks(self, c):
        return [p.region for p in self.dptrs(c, c.s1) + [self.rp(c, c.s1)] if isinstance(p, Ptr)]


class Csr2Build(CsrBuild):
    elem = ('data',)
    def dval(self, c, st, k): return c.el(st, c.fld(st, self.names(c)[0], 'data'), k, 'val')
    def dcol(self, c, st, k): return c.el(st, c.fld(st, self.names(c)[0], 'data'), k, 'index')


class BlockCsrBuild(CsrBuild):
    """column indices are stored in 16 bits: the block is at most 2^16 wide"""
    def is_sorted(self, c): return c.args[5] if len(c.args) > 5 else z3.BoolVal(True)
    def allocate(self, c): return z3.BoolVal(True)
    def pre(self, c):
        return super().pre(c) + [('columns fit the short index type', self.names(c)[3] <= 1 << 16)]


class FromCoo(CsrBuild):
    """Coo_to_Csr(A, B) for a coordinate matrix B"""
    coofield = 'triplets'
    def names(self, c):
        A, B = c.args
        return A, ptr_field(c, c.s0, B, self.coofield), c.fld(c.s0, B, 'rows'), c.fld(c.s0, B, 'columns'), c.fld(c.s0, B, 'nnz')
    def is_sorted(self, c): return z3.BoolVal(False)
    def allocate(self, c): return z3.BoolVal(True)
class FromCoo2(FromCoo, Csr2Build): pass


def _mk():
    out = []
    for base, dst in ((CsrBuild, 'Csr'), (Csr2Build, 'Csr2')):
        for nz in ('Triplet', 'Element'):
            for srt in (0, 1):
                for al in (0, 1):
                    nm = '%s_from_%s_%s_%s' % (dst, nz, 'sorted' if srt else 'unsorted', 'alloc' if al else 'inplace')
                    sig = ('%s<float, unsigned int> *' % dst, '%s<float, unsigned int> *' % nz, 'unsigned int', 'unsigned int', 'unsigned int', 'bool', 'bool')
                    out.append(type(nm, (base,), {'sig': sig, 'fixed': {5: srt, 6: al}, 'label': 'Coo_to_Csr<%s,%s>(sorted=%d,allocate=%d)' % (dst, nz, srt, al)}))
    for base, dst in ((FromCoo, 'Csr'), (FromCoo2, 'Csr2')):
        for coo, fld in (('Coo2', 'triplets'), ('Coo3', 'elements')):
            out.append(type('%s_from_%s' % (dst, coo), (base,), {'coofield': fld, 'label': 'Coo_to_Csr<%s,%s>' % (dst, coo),
                       'sig': ('%s<float, unsigned int> *' % dst, '%s<float, unsigned int> *' % coo)}))
    E, B = 'Element<float, unsigned int> *', 'BlockCsr<float, unsigned int, unsigned short> *'
    for srt in (0, 1):
        out.append(type('BlockCsr_%s' % ('sorted' if srt else 'unsorted'), (BlockCsrBuild,), {'label': 'Coo_to_Csr<BlockCsr,Element>(sorted=%d)' % srt,
                   'fixed': {5: srt}, 'sig': (B, E, 'unsigned int', 'unsigned int', 'unsigned int', 'bool')}))
    out.append(type('BlockCsr_default', (BlockCsrBuild,), {'label': 'Coo_to_Csr<BlockCsr,Element>', 'sig': (B, E, 'unsigned int', 'unsigned int', 'unsigned int')}))
    return out
ALL = _mk()
