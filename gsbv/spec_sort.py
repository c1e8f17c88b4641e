"""Contracts of the sorts (C14)."""
import z3
from .core import *
from .contract import Contract
from .speclib import *
from .spec_csr import perm_witness, permuted
from .spec_bits import InterleaveFn, InterleaveFn16, MORTON

T = 'Triplet<float, unsigned int> *'
E = 'Element<float, unsigned int> *'
TS = 'Triplet<float, unsigned short> *'
U = 'unsigned int'


class Sort(Contract):
    """array[0..size) becomes the stable permutation of itself ordered by key()"""
    fields = ('row', 'col', 'val')
    def arr_n(self, c): return c.args[0], c.args[1]
    def order(self, c, e): raise NotImplementedError     # tuple of terms; e(field) -> term

    def pre(self, c):
        a, n = self.arr_n(c)
        return [('the array holds size entries', c.room(a, n))] + self.pre_key(c)
    def pre_key(self, c): return []

    def modifies(self, c):
        a, n = self.arr_n(c)
        return [('win', a, IV(0), n)]

    def cells(self, c):
        a, n = self.arr_n(c)
        return [('the entries are a permutation of the former ones', IV(0), n, permuted(c, None, a, n, [(f,) for f in self.fields]),
                 lambda st, k: [c.el(st, a, k, f) for f in self.fields])]

    def less(self, x, y):
        """lexicographic x < y"""
        out = z3.BoolVal(False)
        for u, v in reversed(list(zip(x, y))): out = z3.Or(u < v, z3.And(u == v, out))
        return out

    def post(self, c):
        a, n = self.arr_n(c)
        j, k = z3.Ints('j!o k!o')
        kj = self.order(c, lambda f: c.el(c.s1, a, j, f))
        kk = self.order(c, lambda f: c.el(c.s1, a, k, f))
        pi, inv = perm_witness(c.ex, a.region)
        g = lambda b: z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), b))
        eq = z3.And(*[u == v for u, v in zip(kj, kk)])
        return [('the array is ordered by its key', g(z3.Not(self.less(kk, kj)))),
                ('entries with equal keys keep their order', g(z3.Implies(eq, pi(a.off + j) < pi(a.off + k))))]

    def leaks(self, c): return []


class RowMajor(Sort):
    def order(self, c, e): return (e('row'), e('col'))
class ColMajor(Sort):
    def order(self, c, e): return (e('col'), e('row'))
class Morton(Sort):
    def pre_key(self, c):
        a, n = self.arr_n(c)
        r, q = (lambda k: c.el(c.s0, a, k, 'row')), (lambda k: c.el(c.s0, a, k, 'col'))
        return [('rows have 16 bits', every(0, n, lambda k: r(k) < 1 << 16, r)), ('columns have 16 bits', every(0, n, lambda k: q(k) < 1 << 16, q))]
    def order(self, c, e): return (MORTON(e('row'), e('col')),)
class ByBlock(Sort):
    fields = ('row', 'col', 'val', 'block')
    def order(self, c, e): return (e('block'), e('row'), e('col'))
class WideRows(Sort):
    def pre_key(self, c): return [('the width is positive', c.args[2] >= 1)]
    def order(self, c, e): return (IDIV(e('row'), c.args[2]), e('col'), e('row'))


def _mk():
    out = []
    for nm, p in (('Triplet', T), ('Element', E)):
        fl = Sort.fields + (('block',) if nm == 'Element' else ())
        out.append(type('Row' + nm, (RowMajor,), {'name': 'sort_triplets', 'sig': (p, U, 'bool'), 'fixed': {2: 1}, 'label': 'sort_triplets<%s>(row_major=true)' % nm, 'fields': fl}))
        out.append(type('Col' + nm, (ColMajor,), {'name': 'sort_triplets', 'sig': (p, U, 'bool'), 'fixed': {2: 0}, 'label': 'sort_triplets<%s>(row_major=false)' % nm, 'fields': fl}))
        out.append(type('Def' + nm, (RowMajor,), {'name': 'sort_triplets', 'sig': (p, U), 'label': 'sort_triplets<%s>' % nm, 'fields': fl}))
        out.append(type('Morton' + nm, (Morton,), {'name': 'sort_triplets_morton', 'sig': (p, U), 'label': 'sort_triplets_morton<%s>' % nm, 'fields': fl}))
    out.append(type('MortonShort', (Morton,), {'name': 'sort_triplets_morton', 'sig': (TS, U), 'label': 'sort_triplets_morton<Triplet16>'}))
    out.append(type('ByBlockE', (ByBlock,), {'name': 'sort_elements_blocks', 'sig': (E, U), 'label': 'sort_elements_blocks'}))
    out.append(type('WideT', (WideRows,), {'name': 'sort_triplets_widerows', 'sig': (T, U, U), 'label': 'sort_triplets_widerows<Triplet>'}))
    return out
HELPERS = [InterleaveFn, InterleaveFn16]
ALL = _mk()
