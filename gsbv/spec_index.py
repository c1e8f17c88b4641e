"""Contracts of the index utilities: block location, block ids, counting (C13)."""
import z3
from .core import *
from .contract import Contract
from .speclib import *
from . import lemmas as L

E = 'Element<float, unsigned int> *'
T = 'Triplet<float, unsigned int> *'
P = 'unsigned int *'
U = 'unsigned int'


def sorted_pre(c, off, n, what):
    """off[0..n] starts at 0 and never decreases"""
    e = lambda k: c.el(c.s0, off, k)
    j, k = z3.Ints('j!q k!q')
    return [('%s hold one entry more than there are blocks' % what, c.room(off, n + 1)), ('there is a block', n >= 1), ('%s start at 0' % what, e(IV(0)) == 0),
            ('%s never decrease' % what, z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j <= k, k <= n), e(j) <= e(k)), patterns=[z3.MultiPattern(e(j), e(k))]))]


def locate_pre(c, off, n, BLK, what):
    """BLK(i) is the block that contains i (it exists: definition of the boundaries)"""
    e = lambda k: c.el(c.s0, off, k)
    return [('the block of an index below the last of the %s' % what, every(0, e(n), lambda i: z3.And(BLK(i) >= 0, BLK(i) < n, e(BLK(i)) <= i, i < e(BLK(i) + 1)), lambda i: BLK(i)))]


class Locate(Contract):
    """index_to_blockindex(offset, size, index)"""
    name = 'index_to_blockindex'
    def pre(self, c):
        off, n, i = c.args
        return sorted_pre(c, off, n, 'boundaries') + [('the index lies below the last boundary', i < c.el(c.s0, off, n))]
    def post(self, c):
        off, n, i = c.args
        r = c.ret
        return [('the result is a block', z3.And(r >= 0, r < n)), ('whose range contains the index', z3.And(c.el(c.s1, off, r) <= i, i < c.el(c.s1, off, r + 1)))]
    def leaks(self, c): return []


class Offsets(Contract):
    """size_to_offset(offsets, sizes, size)"""
    name = 'size_to_offset'
    def sizes(self, c): return c.arr(c.s0, c.args[1])
    def pre(self, c):
        o, s, n = c.args
        return [('offsets hold one entry more', c.room(o, n + 1)), ('sizes', c.room(s, n)),
                ('the sums fit the index type', L.PSUM(self.sizes(c), s.off, n) < 1 << 32)]
    def axioms(self, c): return L.psum_defs()
    def lemmas(self, c, st):
        o, s, n = c.args
        return [L.psum_mono(self.sizes(c), s.off, n)]
    def modifies(self, c): return [('win', c.args[0], IV(0), c.args[2] + 1)]
    def cells(self, c):
        o, s, n = c.args
        return [('boundary k is the sum of the first k sizes', IV(0), n + 1, lambda st, k: c.el(st, o, k) == L.PSUM(self.sizes(c), s.off, k), lambda st, k: [c.el(st, o, k)])]
    def prefixes(self, c):
        o, s, n = c.args
        return [('sum', lambda k: L.PSUM(self.sizes(c), s.off, k), 'count')]
    def leaks(self, c): return []


class BlockId(Contract):
    """calculate_block_id with block boundaries"""
    name = 'calculate_block_id'
    sig = (E, U, P, U, P, U)
    label = 'calculate_block_id(boundaries)'
    def prepare(self, c):
        c.g['R'], c.g['C'] = z3.Function('blockrow', IntS, IntS), z3.Function('blockcol', IntS, IntS)
    def pre(self, c):
        e, n, ro, nr, co, nc = c.args
        row = lambda k: c.el(c.s0, e, k, 'row')
        col = lambda k: c.el(c.s0, e, k, 'col')
        return ([('the array holds size entries', c.room(e, n))] + sorted_pre(c, ro, nr, 'row boundaries') + sorted_pre(c, co, nc, 'column boundaries')
                + locate_pre(c, ro, nr, c.g['R'], 'row boundaries') + locate_pre(c, co, nc, c.g['C'], 'column boundaries')
                + [('rows lie below the last boundary', every(0, n, lambda k: row(k) < c.el(c.s0, ro, nr), row)),
                   ('columns lie below the last boundary', every(0, n, lambda k: col(k) < c.el(c.s0, co, nc), col)),
                   ('block identifiers fit the index type', mk_imul(nr, nc) < 1 << 32)])
    def ident(self, c, st, k):
        e, nc = c.args[0], c.args[5]
        return mk_imul(c.g['R'](c.el(c.s0, e, k, 'row')), nc) + c.g['C'](c.el(c.s0, e, k, 'col'))
    def modifies(self, c): return [('win', c.args[0], IV(0), c.args[1], ('block',))]
    def cells(self, c):
        e, n = c.args[0], c.args[1]
        return [('the identifier is block row times block columns plus block column', IV(0), n,
                 lambda st, k: c.el(st, e, k, 'block') == self.ident(c, st, k), lambda st, k: [c.el(st, e, k, 'block')])]
    def leaks(self, c): return []


class BlockIdUniform(BlockId):
    """calculate_block_id with one block size"""
    sig = (E, U, U, U, U)
    label = 'calculate_block_id(sizes)'
    def pre(self, c):
        e, n, rs, cs, nc = c.args
        row = lambda k: c.el(c.s0, e, k, 'row')
        col = lambda k: c.el(c.s0, e, k, 'col')
        return [('the array holds size entries', c.room(e, n)), ('block sizes are positive', z3.And(rs >= 1, cs >= 1)),
                ('columns lie in a block', every(0, n, lambda k: IDIV(col(k), cs) < nc, col)),
                ('block identifiers fit the index type', every(0, n, lambda k: mk_imul(IDIV(row(k), rs), nc) + nc <= 1 << 32, row))]
    def ident(self, c, st, k):
        e, n, rs, cs, nc = c.args
        return mk_imul(IDIV(c.el(c.s0, e, k, 'row'), rs), nc) + IDIV(c.el(c.s0, e, k, 'col'), cs)


class CountRuns(Contract):
    """number of distinct values of a sorted field"""
    field = 'row'
    least = 1
    def arr(self, c): return c.arr(c.s0, c.args[0], self.field)
    def pre(self, c):
        a, n = c.args
        v = lambda k: c.el(c.s0, a, k, self.field)
        j, k = z3.Ints('j!q k!q')
        return [('the array holds size entries', c.room(a, n)), ('the array starts at its pointer', a.off == 0), ('entries', n >= self.least),
                ('sorted by %s' % self.field, z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), v(j) <= v(k)), patterns=[z3.MultiPattern(v(j), v(k))]))]
    def axioms(self, c): return L.chg_defs() + L.lem_chg()
    def prefixes(self, c):
        A = self.arr(c)
        return [('runs', lambda k: L.CHG(A, k), 'count'), ('runs, at least one', lambda k: z3.If(k < 1, IV(1), L.CHG(A, k)), 'count')]
    def index_arrays(self, c):
        v = lambda k: c.el(c.s0, c.args[0], k, self.field)
        return [('previous', lambda st, k: z3.If(k < 1, v(IV(0)), v(k - 1)))]
    def post(self, c): return [('returns the number of distinct values', c.ret == L.CHG(self.arr(c), c.args[1]))]
    def leaks(self, c): return []
class CountRowsT(CountRuns): name = 'count_nnz_rows'; sig = (T, U); label = 'count_nnz_rows<Triplet>'
class CountRowsE(CountRuns): name = 'count_nnz_rows'; sig = (E, U); label = 'count_nnz_rows<Element>'
class CountBlocks(CountRuns): name = 'count_blocks'; field = 'block'; least = 0


ALL = [Locate, Offsets, BlockId, BlockIdUniform, CountRowsT, CountRowsE, CountBlocks]
