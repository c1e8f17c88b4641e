"""Contracts of the wide-row (Cswr) constructors (C08)."""
import z3
from .core import *
from .speclib import *
from . import lemmas as L
from .spec_csr import CsrBuild, FromCoo


class WideBuild(CsrBuild):
    """Coo_to_Cswr(A, array, rows, columns, nnz, width)"""
    name = 'Coo_to_Cswr'
    elem = ('val', 'row', 'col')
    sit = 1 << 8
    def is_sorted(self, c): return z3.BoolVal(False)
    def allocate(self, c): return z3.BoolVal(True)
    def width(self, c): return c.args[5]
    def bands(self, c):
        A, src, rows, cols, n = self.names(c)
        w = self.width(c)
        return IDIV(rows + w - 1, w)
    def pre(self, c):
        A, src, rows, cols, n = self.names(c)
        w = self.width(c)
        row = lambda k: c.el(c.s0, src, k, 'row')
        col = lambda k: c.el(c.s0, src, k, 'col')
        return [('source holds nnz entries', c.room(src, n)), ('source pointer is the start of its array', src.off == 0),
                ('the width is positive', w >= 1), ('rows inside a band fit the short index type', w <= self.sit),
                ('rows + width fits the index type', rows + w < 1 << 32),
                ('row indices are valid', every(0, n, lambda k: z3.And(row(k) >= 0, row(k) < rows), row)),
                ('column indices are valid', every(0, n, lambda k: z3.And(col(k) >= 0, col(k) < cols), col))]
    def axioms(self, c):
        return L.base() + L.wide_defs()
    def cur_rows(self, c, st):
        A, src, rows, cols, n = self.names(c)
        return L.WR(c.arr(st, src, 'row'), self.width(c))
    def rp(self, c, st): return c.fld(st, self.names(c)[0], 'wrow_ptr')
    def dcol(self, c, st, k): return c.el(st, c.fld(st, self.names(c)[0], 'col'), k)
    def drow(self, c, st, k): return c.el(st, c.fld(st, self.names(c)[0], 'row'), k)
    def cells(self, c):
        A, src, rows, cols, n = self.names(c)
        w = self.width(c)
        perm, rpk, ent = super().cells(c)
        return [perm, ('wrow_ptr[b] is the number of entries in bands before b', IV(0), self.bands(c) + 1) + rpk[3:],
                ('entry k keeps its place in the band, its column and value', IV(0), n,
                 lambda st, k: z3.And(ent[3](st, k), self.drow(c, st, k) == IMOD(c.el(st, src, k, 'row'), w)), lambda st, k: ent[4](st, k) + [self.drow(c, st, k)])]
    def lemmas(self, c, st):
        A, src, rows, cols, n = self.names(c)
        a = self.cur_rows(c, st)
        w = self.width(c)
        return [L.band_below(rows, w), L.inst_zero(a, n), L.inst_total(a, n, self.bands(c)), L.inst_sorted(a, n)]
    def dims(self, c, st):
        A, src, rows, cols, n = self.names(c)
        f = lambda x: c.fld(st, A, x)
        return [('rows, columns, entries and width are recorded', z3.And(f('rows') == rows, f('columns') == cols, f('nnz') == n, f('width') == self.width(c))),
                ('the number of bands is ceil(rows / width)', f('nwrows') == self.bands(c))]
    def post(self, c):
        A, src, rows, cols, n = self.names(c)
        st = c.s1
        rp, nb = self.rp(c, st), self.bands(c)
        k = z3.Int('k!z')
        b = IDIV(c.el(st, src, k, 'row'), self.width(c))
        out = self.dims(c, st) + [
               ('wrow_ptr has one entry more than there are bands', z3.And(rp.off == 0, rp.region.size == nb + 1)),
               ('wrow_ptr starts at 0', c.el(st, rp, IV(0)) == 0), ('wrow_ptr ends at nnz', c.el(st, rp, nb) == n),
               ('wrow_ptr never decreases', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nb), c.el(st, rp, k) <= c.el(st, rp, k + 1)))),
               ('every entry lies in the segment of its band', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(c.el(st, rp, b) <= k, k < c.el(st, rp, b + 1)))))]
        for p in self.dptrs(c, st): out.append(('arrays hold nnz entries', c.room(p, n)))
        return out


class WideFromCoo(FromCoo, WideBuild):
    """Coo_to_Cswr(A, B, width)"""
    def names(self, c):
        A, B = c.args[0], c.args[1]
        return A, ptr_field(c, c.s0, B, self.coofield), c.fld(c.s0, B, 'rows'), c.fld(c.s0, B, 'columns'), c.fld(c.s0, B, 'nnz')
    def width(self, c): return c.args[2]


def _mk():
    out = []
    U = 'unsigned int'
    A = 'Cswr<float, unsigned int, unsigned char> *'
    for nz in ('Triplet', 'Element'):
        out.append(type('From' + nz, (WideBuild,), {'label': 'Coo_to_Cswr<%s>' % nz, 'sig': (A, nz + '<float, unsigned int> *', U, U, U, U)}))
    out.append(type('FromTriplet4', (WideBuild,), {'label': 'Coo_to_Cswr<Triplet>(uint32 rows)', 'sit': 1 << 32, 'sig': ('Cswr<float, unsigned int, unsigned int> *', 'Triplet<float, unsigned int> *', U, U, U, U)}))
    for coo, fld in (('Coo2', 'triplets'), ('Coo3', 'elements')):
        out.append(type('From' + coo, (WideFromCoo,), {'coofield': fld, 'label': 'Coo_to_Cswr<%s>' % coo, 'sig': (A, '%s<float, unsigned int> *' % coo, U)}))
    return out
ALL = _mk()
