"""Contracts of the dense constructors (C07)."""
import z3
from .core import *
from .contract import Contract
from .speclib import *


class ToDense(Contract):
    """Coo_to_Dense(A, entries, rows, columns, nnz)"""
    name = 'Coo_to_Dense'
    def src(self, c): return c.args[1], c.args[2], c.args[3], c.args[4]
    def obj(self, c): return c.args[0]

    def prepare(self, c):
        c.g['D'] = z3.Function('densesum', IntS, IntS, RealS)

    def pos(self, c, st, k):
        e, rows, cols, n = self.src(c)
        return mk_imul(c.el(st, e, k, 'row'), cols) + c.el(st, e, k, 'col')

    def pre(self, c):
        e, rows, cols, n = self.src(c)
        row = lambda k: c.el(c.s0, e, k, 'row')
        col = lambda k: c.el(c.s0, e, k, 'col')
        return [('the source holds nnz entries', c.room(e, n)), ('there are columns', cols >= 1),
                ('rows*columns fits the index type', mk_imul(rows, cols) < 1 << 32),
                ('row indices are valid', every(0, n, lambda k: z3.And(row(k) >= 0, row(k) < rows), row)),
                ('column indices are valid', every(0, n, lambda k: z3.And(col(k) >= 0, col(k) < cols), col))]

    def axioms(self, c):
        e, rows, cols, n = self.src(c)
        return cellsum_axioms(c.g['D'], lambda k: self.pos(c, c.s0, k), lambda k: c.el(c.s0, e, k, 'val'), lambda k: [c.el(c.s0, e, k, 'row')])

    def prefixes(self, c): return [('D', c.g['D'], 'cells')]
    def modifies(self, c): return [('any', self.obj(c))]
    def val(self, c, st): return c.fld(st, self.obj(c), 'val')

    def cells(self, c):
        e, rows, cols, n = self.src(c)
        return [('position p holds the sum of the values given for it', IV(0), mk_imul(rows, cols),
                 lambda st, p: c.el(st, self.val(c, st), p) == c.g['D'](n, p), lambda st, p: [c.el(st, self.val(c, st), p)])]

    def post(self, c):
        e, rows, cols, n = self.src(c)
        st = c.s1
        v = self.val(c, st)
        out = [('dimensions are recorded', z3.And(c.fld(st, self.obj(c), 'rows') == rows, c.fld(st, self.obj(c), 'columns') == cols)),
               ('val holds rows*columns values', z3.And(v.off == 0, v.region.size == mk_imul(rows, cols)))]
        if v.region is e.region: out.append(('the values are in an array of their own', z3.BoolVal(False)))
        return out

    def leaks(self, c): return [self.val(c, c.s1).region]


class FromCoo(ToDense):
    field = 'triplets'
    def src(self, c):
        B = c.args[1]
        return ptr_field(c, c.s0, B, self.field), c.fld(c.s0, B, 'rows'), c.fld(c.s0, B, 'columns'), c.fld(c.s0, B, 'nnz')


D = 'BlockDense<float, unsigned int> *'
class FromTriplets(ToDense):
    label = 'Coo_to_Dense<BlockDense,Triplet>'
    sig = (D, 'Triplet<float, unsigned int> *', 'unsigned int', 'unsigned int', 'unsigned int')
class FromElements(ToDense):
    label = 'Coo_to_Dense<BlockDense,Element>'
    sig = (D, 'Element<float, unsigned int> *', 'unsigned int', 'unsigned int', 'unsigned int')
class FromCoo2(FromCoo):
    label = 'Coo_to_Dense<BlockDense,Coo2>'
    sig = (D, 'Coo2<float, unsigned int> *')
class FromCoo3(FromCoo):
    label = 'Coo_to_Dense<BlockDense,Coo3>'
    field = 'elements'
    sig = (D, 'Coo3<float, unsigned int> *')


class DenseSerialCtor(ToDense):
    """DenseSerial(entries, rows, columns, nnz)"""
    label = 'DenseSerial::DenseSerial(Element*)'
    rec = name = 'DenseSerial<float, unsigned int>'
    def src(self, c): return c.args
    def obj(self, c): return c.this
    def post(self, c): return super().post(c) + [('the entry count is recorded', c.fld(c.s1, c.this, 'nnz') == c.args[3])]


ALL = [FromTriplets, FromElements, FromCoo2, FromCoo3]
