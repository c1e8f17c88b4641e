"""Contracts of the row-wise multiplication routines."""
import z3
from .core import *
from .contract import Contract
from .speclib import *


class CsrSpmv(CsrLike): rec = 'Csr<float, unsigned int>'
class CsrSpmvSerial(CsrLike): rec = 'Csr<float, unsigned int>'; name = 'spmv_serial'

class Csr2Spmv(CsrLike):
    rec = 'Csr2<float, unsigned int>'
    def entry_arrays(self, c):
        d = ptr_field(c, c.s0, c.this, 'data')
        return [(d, ('val',)), (d, ('index',))]
class Csr2SpmvSerial(Csr2Spmv): name = 'spmv_serial'

class BlockCsrSpmv(CsrLike): rec = 'BlockCsr<float, unsigned int, unsigned short>'
class BlockCsrSpmvSerial(BlockCsrSpmv): name = 'spmv_serial'
class BlockCsr4Spmv(CsrLike): rec = 'BlockCsr<float, unsigned int, unsigned int>'


class CrCsrSpmv(CsrLike):
    """compressed rows: row i of the storage is row nnz_rows[i] of A"""
    sig = None
    def obj(self, c): return c.args[0]
    def M(self, c): return c.fld(c.s0, c.args[0], 'nnz_rows_num')
    def prepare(self, c):
        super().prepare(c)
        c.g['rows'] = z3.Int('rows!g')
        c.g['inv'] = z3.Function('rowslot', IntS, IntS)
    def pre(self, c):
        nr = ptr_field(c, c.s0, c.args[0], 'nnz_rows')
        M = self.M(c)
        e = lambda k: c.el(c.s0, nr, k)
        x, y = self.xy(c)
        return super().pre(c) + [('nnz_rows', c.room(nr, M)), ('listed rows are rows of A', every(0, M, lambda k: z3.And(e(k) >= 0, e(k) < c.g['rows']), e)),
                                 ('listed rows are distinct', every(0, M, lambda k: c.g['inv'](e(k)) == k, e, 'k!q3'))]
    def yroom(self, c, y, M): return c.room(y, c.g['rows'])
    def modifies(self, c): return [('win', c.args[2], IV(0), c.g['rows'])]
    def cells(self, c):
        x, y = self.xy(c)
        o = c.args[0]
        rp, nr = ptr_field(c, c.s0, o, 'row_ptr'), ptr_field(c, c.s0, o, 'nnz_rows')
        S, inv, M = c.g['S'], c.g['inv'], self.M(c)
        el = lambda k: c.el(c.s0, rp, k)
        nz = lambda k: c.el(c.s0, nr, k)
        listed = lambda r: z3.And(inv(r) >= 0, inv(r) < M, nz(inv(r)) == r)
        return [('every listed row of y grows by exactly its row of A x', IV(0), M,
                 lambda st, k: c.el(st, y, nz(k)) == c.el(c.s0, y, nz(k)) + (S(el(k + 1)) - S(el(k))), lambda st, k: [nz(k)]),
                ('rows without entries keep their value', IV(0), c.g['rows'],
                 lambda st, r: z3.Or(listed(r), c.el(st, y, r) == c.el(c.s0, y, r)), lambda st, r: [c.el(st, y, r)])]
    def extra_templates(self, c, ctx, M, U):
        """rows listed from slot v on are untouched so far"""
        x, y = self.xy(c)
        nr = ptr_field(c, c.s0, c.args[0], 'nnz_rows')
        nz = lambda k: c.el(c.s0, nr, k)
        k = z3.Int('k!i')
        out = []
        for v in M:
            for s in ('>=', '>'):
                out.append(((ctx.key, 'rows %s %s untouched' % (s, v.name)), lambda st, v=v, s=s: z3.ForAll([k], z3.Implies(
                    z3.And(k >= v(st) if s == '>=' else k > v(st), k < self.M(c)), c.el(st, y, nz(k)) == c.el(c.s0, y, nz(k))), patterns=[nz(k)])))
        return out
class CrCsrSpmvPar(CrCsrSpmv):
    name = 'spmv'
    sig = ('const CompRowCsr<float, unsigned int> *', 'const float *', 'float *')
class CrCsrSpmvSer(CrCsrSpmv):
    name = 'spmv_serial'
    sig = CrCsrSpmvPar.sig


class CooSpmv(CooLike):
    rec = 'Coo<float, unsigned int, unsigned int>'
    def arrays(self, c):
        return [(ptr_field(c, c.s0, c.this, n), ()) for n in ('I', 'J', 'val')]
class CooSmallSpmv(CooSpmv): rec = 'Coo<float, unsigned int, unsigned short>'
class TripletSpmv(CooLike):
    fieldname = 'triplets'
    def arrays(self, c):
        p = ptr_field(c, c.s0, c.this, self.fieldname)
        return [(p, ('row',)), (p, ('col',)), (p, ('val',))]
class Coo2Spmv(TripletSpmv): rec = 'Coo2<float, unsigned int>'
class Coo3Spmv(TripletSpmv): rec = 'Coo3<float, unsigned int>'; fieldname = 'elements'
class BlockCoo2Spmv(TripletSpmv): rec = 'BlockCoo2<float, unsigned int, unsigned short>'; fieldname = 'triplets'


class DenseBlockSpmv(DenseLike): rec = 'BlockDense<float, unsigned int>'
class DenseBlockSpmvSerial(DenseLike): rec = 'BlockDense<float, unsigned int>'; name = 'spmv_serial'
class DenseSerialSpmv(DenseLike): rec = 'DenseSerial<float, unsigned int>'
class DenseParallelSpmv(DenseLike): rec = 'DenseParallel<float, unsigned int>'


class BlockCoo1Spmv(CooLike):
    """coordinate block of the mixed-block format"""
    rec = 'BlockCoo<float, unsigned int, unsigned short>'
    def arrays(self, c):
        return [(ptr_field(c, c.s0, c.this, n), ()) for n in ('I', 'J', 'val')]
class BlockCoo14Spmv(BlockCoo1Spmv): rec = 'BlockCoo<float, unsigned int, unsigned int>'
class BlockCsr4SpmvSerial(BlockCsr4Spmv): name = 'spmv_serial'
class BlockCsrSerialSpmv(CsrLike):
    rec = 'BlockCsrSerial<float, unsigned int, unsigned short>'
    def M(self, c): return c.fld(c.s0, self.obj(c), 'M')
class BlockCsrParallelSpmv(BlockCsrSerialSpmv): rec = 'BlockCsrParallel<float, unsigned int, unsigned short>'


class FreeCsrSerial(CsrLike):
    """compressed rows given as separate arrays"""
    name = 'spmv_csr_serial'
    sig = ('const unsigned int *', 'const unsigned int *', 'const float *', 'unsigned int', 'const float *', 'float *')
    def M(self, c): return c.args[3]
    def rowptr(self, c): return c.args[0]
    def entry_arrays(self, c): return [(c.args[2], ()), (c.args[1], ())]


class CswrSpmv(Contract):
    """wide rows: band b holds rows b*width.., its entries are wrow_ptr[b]..wrow_ptr[b+1]"""
    rec = 'Cswr<float, unsigned int, unsigned char>'
    name = 'spmv'
    def fields(self, c):
        f = lambda n: ptr_field(c, c.s0, c.this, n)
        return f('val'), f('row'), f('col'), f('wrow_ptr'), c.fld(c.s0, c.this, 'nwrows'), c.fld(c.s0, c.this, 'width')
    def prepare(self, c):
        c.g['C'] = z3.Function('bandsum', IntS, IntS, RealS)      # C(j, q): sum over the first j entries with row q of their band
        c.g['nnz'], c.g['rows'], c.g['cols'] = z3.Ints('nnz!g rows!g cols!g')
        c.g['B'] = z3.Function('bandOf', IntS, IntS)
    def pre(self, c):
        v, r, ci, wp, n, w = self.fields(c)
        x, y = c.args
        nnz, rows, cols = c.g['nnz'], c.g['rows'], c.g['cols']
        e = lambda k: c.el(c.s0, wp, k)
        B = c.g['B']
        b, j = z3.Ints('b!q j!q')
        return [('band boundaries', c.room(wp, n + 1)), ('values', c.room(v, nnz)), ('rows', c.room(r, nnz)), ('columns', c.room(ci, nnz)), ('x', c.room(x, cols)), ('y', c.room(y, rows)),
                ('band boundaries increase', every(0, n, lambda k: e(k) <= e(k + 1), e)), ('band boundaries end by nnz', every(0, n + 1, lambda k: z3.And(e(k) >= 0, e(k) <= nnz), e, 'k!q2')),
                ('column indices are valid', every(0, nnz, lambda k: c.el(c.s0, ci, k) < cols, lambda k: c.el(c.s0, ci, k))),
                ('all bands fit the index type', mk_imul(n, w) < 1 << 32), ('a band has rows', w >= 1),
                ('row indices are valid inside their band', z3.ForAll([b, j], z3.Implies(z3.And(b >= 0, b < n, j >= e(b), j < e(b + 1)), z3.And(
                    c.el(c.s0, r, j) < w, mk_imul(b, w) + c.el(c.s0, r, j) < rows)), patterns=[z3.MultiPattern(e(b), c.el(c.s0, r, j))]))]
    def axioms(self, c):
        v, r, ci, wp, n, w = self.fields(c)
        x, y = c.args
        k = z3.Int('k!B')
        row = lambda k: c.el(c.s0, r, k)
        B = c.g['B']
        return cellsum_axioms(c.g['C'], row, lambda k: mk_fmul(c.el(c.s0, v, k), c.el(c.s0, x, c.el(c.s0, ci, k))), lambda k: [row(k)]) + [
            z3.ForAll([k], z3.Implies(z3.And(k >= 0, w >= 1), z3.And(B(k) >= 0, mk_imul(B(k), w) <= k, k < mk_imul(B(k) + 1, w))), patterns=[B(k)])]
    def modifies(self, c): return [('win', c.args[1], IV(0), c.g['rows'])]
    def done(self, c, st, k):
        v, r, ci, wp, n, w = self.fields(c)
        B, C = c.g['B'], c.g['C']
        y = c.args[1]
        e = lambda k: c.el(c.s0, wp, k)
        q = k - mk_imul(B(k), w)
        return c.el(st, y, k) == c.el(c.s0, y, k) + z3.If(B(k) < n, C(e(B(k) + 1), q) - C(e(B(k)), q), 0)
    def cells(self, c):
        y = c.args[1]
        return [('every row of y grows by exactly its row of A x', IV(0), c.g['rows'], lambda st, k: self.done(c, st, k), lambda st, k: [c.el(st, y, k)])]
    def extra_templates(self, c, ctx, M, U):
        v, r, ci, wp, n, w = self.fields(c)
        y = c.args[1]
        k = z3.Int('k!i')
        out = window_templates(c, ctx, M, y, c.g['C'], live_offsets(ctx, y.region), live_offsets(ctx, v.region) or [IV(0)], [w])
        same = lambda st, k: c.el(st, y, k) == c.el(c.s0, y, k)
        for u in M:
            out.append(((ctx.key, 'bands before %s done' % u.name), lambda st, u=u: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.g['rows'], k < mk_imul(u(st), w)), self.done(c, st, k)), patterns=[c.el(st, y, k)])))
            out.append(((ctx.key, 'bands from %s untouched' % u.name), lambda st, u=u: z3.ForAll([k], z3.Implies(k >= mk_imul(u(st), w), same(st, k)), patterns=[c.el(st, y, k)])))
        return out
    def leaks(self, c): return []


ALL = [CsrSpmv, CsrSpmvSerial, Csr2Spmv, Csr2SpmvSerial, BlockCsrSpmv, BlockCsrSpmvSerial, BlockCsr4Spmv, CrCsrSpmvPar, CrCsrSpmvSer,
       CooSpmv, CooSmallSpmv, Coo2Spmv, Coo3Spmv, BlockCoo2Spmv, DenseBlockSpmv, DenseBlockSpmvSerial, DenseSerialSpmv, DenseParallelSpmv,
       BlockCoo1Spmv, BlockCoo14Spmv, BlockCsr4SpmvSerial, BlockCsrSerialSpmv, BlockCsrParallelSpmv, FreeCsrSerial, CswrSpmv]
