"""Contracts of the blocks of the mixed-block formats: construction of each kind."""
import z3
from .core import *
from .contract import Contract
from .speclib import *
from .spec_csr import BlockCsrBuild, permuted
from .spec_dense import ToDense
from .spec_coo import DST
from .spec_bits import InterleaveFn, InterleaveFn16

E = 'Element<float, unsigned int> *'
U = 'unsigned int'


class DenseSerialCtor(ToDense):
    """DenseSerial(entries, rows, columns, nnz)"""
    label = 'DenseSerial::DenseSerial'
    rec, name = 'DenseSerial<float, unsigned int>', 'DenseSerial'
    sig = (E, U, U, U)
    def src(self, c): return c.args[0], c.args[1], c.args[2], c.args[3]
    def obj(self, c): return c.this
    def post(self, c): return super().post(c) + [('the entry count is recorded', c.fld(c.s1, c.this, 'nnz') == c.args[3])]
class DenseParallelCtor(DenseSerialCtor):
    label = 'DenseParallel::DenseParallel'
    rec, name = 'DenseParallel<float, unsigned int>', 'DenseParallel'


class CsrSerialCtor(BlockCsrBuild):
    """BlockCsrSerial(entries sorted by row, rows, columns, nnz)"""
    label = 'BlockCsrSerial::BlockCsrSerial'
    rec, name = 'BlockCsrSerial<float, unsigned int, unsigned short>', 'BlockCsrSerial'
    sig = (E, U, U, U)
    fixed = {}
    def names(self, c): return c.this, c.args[0], c.args[1], c.args[2], c.args[3]
    def is_sorted(self, c): return z3.BoolVal(True)
    def allocate(self, c): return z3.BoolVal(True)
    def dims(self, c, st):
        return [('the number of rows is recorded', c.fld(st, c.this, 'M') == c.args[1]), ('the entry count is recorded', c.fld(st, c.this, 'nnz') == c.args[3])]
class CsrParallelCtor(CsrSerialCtor):
    label = 'BlockCsrParallel::BlockCsrParallel'
    rec, name = 'BlockCsrParallel<float, unsigned int, unsigned short>', 'BlockCsrParallel'


class MortonCoo(Contract):
    """coordinate block: the same entries, reordered"""
    def arrays(self, c, st): raise NotImplementedError   # {field: (ptr, path)}
    def src(self, c): return c.args[0], c.args[1]
    def obj(self, c): return c.this

    def pre(self, c):
        e, n = self.src(c)
        row = lambda k: c.el(c.s0, e, k, 'row')
        col = lambda k: c.el(c.s0, e, k, 'col')
        return [('the source holds nnz entries', c.room(e, n)),
                ('rows fit the short index type', every(0, n, lambda k: row(k) < 1 << 16, row)),
                ('columns fit the short index type', every(0, n, lambda k: col(k) < 1 << 16, col))]

    def modifies(self, c):
        e, n = self.src(c)
        return [('any', self.obj(c)), ('win', e, IV(0), n)]

    def cells(self, c):
        e, n = self.src(c)
        out = [('the source is only reordered', IV(0), n, permuted(c, None, e, n, [('row',), ('col',), ('val',)]),
                lambda st, k: [c.el(st, e, k, p) for p in ('row', 'col', 'val')])]
        def P(st, k): return z3.And(*[c.el(st, a, k, *p) == c.el(st, e, k, f) for f, (a, p) in self.arrays(c, st).items()])
        out.append(('entry k of the block is entry k of the reordered source', IV(0), n, P,
                    lambda st, k: [c.el(st, a, k, *p) for f, (a, p) in self.arrays(c, st).items()]))
        return out

    def post(self, c):
        e, n = self.src(c)
        st = c.s1
        out = [('the entry count is recorded', c.fld(st, self.obj(c), 'nnz') == n)]
        for f, (a, p) in self.arrays(c, st).items():
            out.append(('the array of %s holds exactly nnz entries' % f, z3.And(a.off == 0, a.region.size == n)))
            if a.region is e.region: out.append(('the block has arrays of its own', z3.BoolVal(False)))
        if c.ret is not None: out.append(('returns 0', c.ret == 0))
        return out

    def leaks(self, c): return [a.region for a, p in self.arrays(c, c.s1).values()]


class CooCtor(MortonCoo):
    label = 'Coo::Coo(Element*,nnz)'
    rec, name = 'Coo<float, unsigned int, unsigned short>', 'Coo'
    sig = (E, U)
    def arrays(self, c, st): return {f: (c.fld(st, c.this, a), ()) for f, a in (('row', 'I'), ('col', 'J'), ('val', 'val'))}
class BlockCooBuild(MortonCoo):
    label = 'Coo_to_Coo<BlockCoo,Element>'
    name = 'Coo_to_Coo'
    sig = ('BlockCoo<float, unsigned int, unsigned short> *', E, U)
    def src(self, c): return c.args[1], c.args[2]
    def obj(self, c): return c.args[0]
    def arrays(self, c, st): return {f: (c.fld(st, c.args[0], a), ()) for f, a in (('row', 'I'), ('col', 'J'), ('val', 'val'))}


class BlockCoo2Build(MortonCoo):
    """the source is unchanged, the copy is reordered"""
    label = 'Coo_to_Coo<BlockCoo2,Element>'
    name = 'Coo_to_Coo'
    sig = ('BlockCoo2<float, unsigned int, unsigned short> *', E, U)
    def src(self, c): return c.args[1], c.args[2]
    def obj(self, c): return c.args[0]
    def modifies(self, c): return [('any', self.obj(c))]
    def arrays(self, c, st): return {f: (c.fld(st, c.args[0], 'triplets'), (f,)) for f in ('row', 'col', 'val')}
    def cells(self, c):
        e, n = self.src(c)
        t = c.fld(c.s1 if c.s1 is not None else c.s0, c.args[0], 'triplets')
        from .spec_csr import perm_witness
        pi, inv = perm_witness(c.ex, t.region)
        def P(st, k):
            w = pi(k)
            return z3.And(w >= 0, w < n, inv(w) == k, *[c.el(st, c.fld(st, c.args[0], 'triplets'), k, f) == c.el(c.s0, e, w, f) for f in ('row', 'col', 'val')])
        def Q(st, k):
            return z3.And(*[c.el(st, c.fld(st, c.args[0], 'triplets'), k, f) == c.el(c.s0, e, k, f) for f in ('row', 'col', 'val')])
        pats = lambda st, k: [c.el(st, c.fld(st, c.args[0], 'triplets'), k, f) for f in ('row', 'col', 'val')]
        if c.s1 is None: return [('entries so far are copied', IV(0), n, Q, pats)]
        return [('the block holds the entries of the source, reordered', IV(0), n, P, pats)]


HELPERS = [InterleaveFn, InterleaveFn16]
ALL = [DenseSerialCtor, DenseParallelCtor, CsrSerialCtor, CsrParallelCtor, CooCtor, BlockCooBuild, BlockCoo2Build]
