"""Contracts of the permutation utilities (C15)."""
import z3
from .core import *
from .contract import Contract
from .speclib import *

E = 'Element<float, unsigned int> *'
T = 'Triplet<float, unsigned int> *'
P = 'unsigned int *'
U = 'unsigned int'


def is_permutation(c, p, n, INV):
    """p[0..n) is a permutation of 0..n-1; INV is its inverse"""
    e = lambda k: c.el(c.s0, p, k)
    return [('the permutation has size entries', c.room(p, n)),
            ('each entry is an index, no two are the same', every(0, n, lambda k: z3.And(e(k) >= 0, e(k) < n, INV(e(k)) == k), e)),
            ('every index occurs', every(0, n, lambda v: z3.And(INV(v) >= 0, INV(v) < n, e(INV(v)) == v), lambda v: INV(v), 'v!q'))]


class Invert(Contract):
    """invert_permutation(p, size)"""
    name = 'invert_permutation'
    def prepare(self, c): c.g['INV'] = z3.Function('inverse', IntS, IntS)
    def pre(self, c): return is_permutation(c, c.args[0], c.args[1], c.g['INV'])
    def extra_templates(self, c, ctx, M, U):
        """slots of entries seen so far hold their position"""
        p, n = c.args
        INV = c.g['INV']
        k = z3.Int('k!i')
        out = []
        ex = ctx.ex
        for (r, q) in ctx.mods:
            if isinstance(q, str) or ex.dims(r, q) != 1 or r.kind == 'param': continue
            for v in M:
                out.append(((ctx.key, 'slots filled before %s (%s)' % (v.name, r.stable)), lambda st, v=v, r=r, q=q: z3.ForAll([k], z3.Implies(
                    z3.And(k >= 0, k < n, INV(k) < v(st)), z3.Select(ex.rawget(st, r, q), k) == INV(k)), patterns=[z3.Select(ex.rawget(st, r, q), k)])))
        return out
    def post(self, c):
        p, n = c.args
        r = c.ret
        k = z3.Int('k!z')
        g = lambda b: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), b))
        return [('the result has size entries and an array of its own', z3.And(r.off == 0, r.region.size == n, z3.BoolVal(r.region is not p.region))),
                ('result[p[k]] = k', g(c.el(c.s1, r, c.el(c.s0, p, k)) == k)), ('p[result[v]] = v', g(c.el(c.s0, p, c.el(c.s1, r, k)) == k))]
    def leaks(self, c): return [c.ret.region]


class PermuteIndices(Contract):
    """permute_indeces(indices, permutation, size)"""
    name = 'permute_indeces'
    sig = (P, P, U)
    label = 'permute_indeces(indices)'
    def prepare(self, c): c.g['m'] = z3.Int('range!g')
    def pre(self, c):
        a, p, n = c.args
        v = lambda k: c.el(c.s0, a, k)
        return [('indices', c.room(a, n)), ('the permutation covers the indices', c.room(p, c.g['m'])), ('indices are in the range of the permutation', every(0, n, lambda k: v(k) < c.g['m'], v))]
    def modifies(self, c): return [('win', c.args[0], IV(0), c.args[2])]
    def cells(self, c):
        a, p, n = c.args
        return [('every index is replaced by its image', IV(0), n, lambda st, k: c.el(st, a, k) == c.el(c.s0, p, c.el(c.s0, a, k)), lambda st, k: [c.el(st, a, k)])]
    def leaks(self, c): return []


class PermuteEntriesE(Contract):
    """permute_indeces(entries, nnz, permutation): rows and columns, nothing else"""
    name = 'permute_indeces'
    sig = (E, U, P)
    label = 'permute_indeces<Element>'
    def prepare(self, c): c.g['m'] = z3.Int('range!g')
    def pre(self, c):
        a, n, p = c.args
        r, q = (lambda k: c.el(c.s0, a, k, 'row')), (lambda k: c.el(c.s0, a, k, 'col'))
        return [('entries', c.room(a, n)), ('the permutation covers the indices', c.room(p, c.g['m'])),
                ('rows are in the range of the permutation', every(0, n, lambda k: r(k) < c.g['m'], r)), ('columns are in the range of the permutation', every(0, n, lambda k: q(k) < c.g['m'], q))]
    def modifies(self, c): return [('win', c.args[0], IV(0), c.args[1], ('row',)), ('win', c.args[0], IV(0), c.args[1], ('col',))]
    def cells(self, c):
        a, n, p = c.args
        return [('every %s is replaced by its image' % f, IV(0), n, lambda st, k, f=f: c.el(st, a, k, f) == c.el(c.s0, p, c.el(c.s0, a, k, f)), lambda st, k, f=f: [c.el(st, a, k, f)]) for f in ('row', 'col')]
    def leaks(self, c): return []
class PermuteEntriesT(PermuteEntriesE):
    sig = (T, U, P)
    label = 'permute_indeces<Triplet>'


def lemmas():
    """a permutation followed by its inverse restores every index: from the contracts above"""
    p, q, a, b, r = [z3.Const(x, z3.ArraySort(IntS, IntS)) for x in 'pqabr']
    n, m, k = z3.Ints('n m k')
    S = z3.Select
    hyp = [z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), S(q, S(p, k)) == k)),       # Invert
           z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(S(a, k) >= 0, S(a, k) < m))),
           z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), S(b, k) == S(p, S(a, k)))),     # permute
           z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), S(r, k) == S(q, S(b, k))))]     # permute back
    return [('permuting and permuting back restores the indices', hyp, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), S(r, k) == S(a, k))))]


ALL = [Invert, PermuteIndices, PermuteEntriesE, PermuteEntriesT]
