"""Contracts of the block expansion (C16)."""
import z3
from .core import *
from .contract import Contract
from .speclib import *
from . import lemmas as L
from .spec_index import sorted_pre, locate_pre

E = 'Element<float, unsigned int> *'
P = 'unsigned int *'
U = 'unsigned int'
NP2 = z3.Function('nextpow2', IntS, IntS)     # the smallest power of two not below a number


def np2_axiom():
    n = z3.Int('n!l')
    return [z3.ForAll([n], z3.Implies(z3.And(n >= 1, n <= 1 << 63), z3.And(NP2(n) >= n, NP2(n) < 2 * n, NP2(n) >= 1)), patterns=[NP2(n)]), NP2(IV(0)) == 0,
            z3.ForAll([n], z3.Implies(z3.And(n >= 1, n <= 1 << 31), NP2(n) <= 1 << 31), patterns=[NP2(n)])]


class NextPow2Fn(Contract):
    """next_power_of_two at calls: contract proved over bit-vectors in spec_bits"""
    name = 'next_power_of_two'
    def axioms(self, c): return np2_axiom()
    def pre(self, c): return [('the argument is at most 2^63', c.args[0] <= 1 << 63)]
    def result(self, c, st, rt, n):
        c.ex.assumed.add('next_power_of_two is the function of its argument that its bit-vector contract gives')
        v = NP2(c.args[0])
        st.assume(z3.And(v >= 0, v < 1 << 64))
        return v


class BlockSize(Contract):
    """expand_block_size(sizes, count)"""
    name = 'expand_block_size'
    def arr(self, c): return c.arr(c.s0, c.args[0])
    def top(self, c): return L.MAXF(self.arr(c), c.args[0].off, c.args[1])
    def pre(self, c):
        s, n = c.args
        return [('sizes', c.room(s, n)), ('the power of two fits the index type', self.top(c) <= 1 << 31)]
    def axioms(self, c): return L.max_defs() + np2_axiom()
    def lemmas(self, c, st): return [L.max_upper(self.arr(c), c.args[0].off, c.args[1])]
    def prefixes(self, c): return [('max', lambda k: L.MAXF(self.arr(c), c.args[0].off, k), 'count')]
    def post(self, c):
        s, n = c.args
        k = z3.Int('k!z')
        return [('the smallest power of two not below the largest size', c.ret == NP2(self.top(c))),
                ('no block is larger', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), c.el(c.s0, s, k) <= c.ret), patterns=[c.el(c.s0, s, k)]))]
    def leaks(self, c): return []


def located(c, off, n):
    pass


class Index(Contract):
    """expand_index(offsets, blocks, block_size, index)"""
    name = 'expand_index'
    def prepare(self, c): c.g['B'] = z3.Function('blockof', IntS, IntS)
    def pre(self, c):
        off, n, bs, i = c.args
        B = c.g['B']
        return (sorted_pre(c, off, n, 'boundaries') + locate_pre(c, off, n, B, 'boundaries')
                + [('the index lies below the last boundary', i < c.el(c.s0, off, n)), ('the block does', z3.And(B(i) >= 0, B(i) < n)),
                   ('block sizes are not above the common one', every(0, n, lambda k: c.el(c.s0, off, k + 1) - c.el(c.s0, off, k) <= bs, lambda k: c.el(c.s0, off, k))),
                   ('expanded indices fit the index type', mk_imul(n, bs) < 1 << 32)])
    def post(self, c):
        off, n, bs, i = c.args
        B = c.g['B'](i)
        return [('b times the new size plus the distance into the block', c.ret == mk_imul(B, bs) + (i - c.el(c.s0, off, B)))]
    def leaks(self, c): return []


class Indices(Contract):
    """expand_indeces(indices, count, sizes, blocks)"""
    name = 'expand_indeces'
    sig = (P, U, P, U)
    label = 'expand_indeces(indices)'
    def sizes(self, c): return c.arr(c.s0, c.args[2])
    def sz(self, c): return c.args[2], c.args[3]
    def off(self, c, b): return L.PSUM(self.sizes(c), self.sz(c)[0].off, b)
    def top(self, c): return L.MAXF(self.sizes(c), self.sz(c)[0].off, self.sz(c)[1])
    def prepare(self, c): c.g['B'] = z3.Function('blockof', IntS, IntS)
    def pre_sizes(self, c):
        s, nb = self.sz(c)
        return [('sizes', c.room(s, nb)), ('there is a block', nb >= 1), ('blocks', nb < (1 << 32) - 1), ('the sums fit the index type', self.off(c, nb) < 1 << 32),
                ('the power of two fits the index type', self.top(c) <= 1 << 31), ('expanded indices fit the index type', mk_imul(nb, NP2(self.top(c))) < 1 << 32)]
    def pre(self, c):
        a, n, s, nb = c.args
        B = c.g['B']
        v = lambda k: c.el(c.s0, a, k)
        return self.pre_sizes(c) + [
                ('indices', c.room(a, n)), ('indices lie in a block', every(0, n, lambda k: v(k) < self.off(c, nb), v)),
                ('the block of an index', every(0, self.off(c, nb), lambda i: z3.And(B(i) >= 0, B(i) < nb, self.off(c, B(i)) <= i, i < self.off(c, B(i)) + c.el(c.s0, s, B(i)), i < self.off(c, B(i) + 1)), lambda i: B(i)))]
    def axioms(self, c): return L.psum_defs() + L.max_defs() + np2_axiom()
    def lemmas(self, c, st):
        s, nb = self.sz(c)
        return [L.psum_mono(self.sizes(c), s.off, nb), L.max_upper(self.sizes(c), s.off, nb), L.psum_scaled(self.sizes(c), s.off, nb, NP2(self.top(c)))]
    def prefixes(self, c):
        s, nb = self.sz(c)
        return [('max', lambda k: L.MAXF(self.sizes(c), s.off, k), 'count'), ('sum', lambda k: self.off(c, k), 'count')]
    def modifies(self, c): return [('win', c.args[0], IV(0), c.args[1])]
    def new(self, c, i):
        b = c.g['B'](i)
        return mk_imul(b, NP2(self.top(c))) + (i - self.off(c, b))
    def cells(self, c):
        a, n = c.args[0], c.args[1]
        return [('every index moves to its place in the expanded block', IV(0), n, lambda st, k: c.el(st, a, k) == self.new(c, c.el(c.s0, a, k)), lambda st, k: [c.el(st, a, k)])]
    def post(self, c): return [('returns the new block size', c.ret == NP2(self.top(c)))]
    def leaks(self, c): return []


class Entries(Indices):
    """expand_indeces(entries, count, sizes, boundaries, blocks)"""
    sig = (E, U, P, P, U)
    label = 'expand_indeces(entries)'
    def sz(self, c): return c.args[2], c.args[4]
    def pre(self, c):
        a, n, s, o, nb = c.args
        B = c.g['B']
        row, col, blk = [(lambda k, f=f: c.el(c.s0, a, k, f)) for f in ('row', 'col', 'block')]
        return self.pre_sizes(c) + [
                ('entries', c.room(a, n)), ('boundaries', c.room(o, nb + 1)),
                ('boundaries are the sums of the sizes', every(0, nb + 1, lambda k: c.el(c.s0, o, k) == self.off(c, k), lambda k: c.el(c.s0, o, k))),
                ('rows lie in a block', every(0, n, lambda k: row(k) < self.off(c, nb), row)), ('columns lie in a block', every(0, n, lambda k: col(k) < self.off(c, nb), col)),
                ('the block of an index', every(0, self.off(c, nb), lambda i: z3.And(B(i) >= 0, B(i) < nb, self.off(c, B(i)) <= i, i < self.off(c, B(i)) + c.el(c.s0, s, B(i)), i < self.off(c, B(i) + 1)), lambda i: B(i))),
                ('entries carry the identifier of their block', every(0, n, lambda k: blk(k) == mk_imul(B(row(k)), nb) + B(col(k)), blk))]
    def modifies(self, c): return [('win', c.args[0], IV(0), c.args[1], ('row',)), ('win', c.args[0], IV(0), c.args[1], ('col',))]
    def cells(self, c):
        a, n = c.args[0], c.args[1]
        return [('every %s moves to its place in the expanded block' % f, IV(0), n, lambda st, k, f=f: c.el(st, a, k, f) == self.new(c, c.el(c.s0, a, k, f)), lambda st, k, f=f: [c.el(st, a, k, f)])
                for f in ('row', 'col')]


def lemmas():
    """the map keeps the order and the block"""
    off = z3.Const('off', z3.ArraySort(IntS, IntS))
    B = z3.Function('B', IntS, IntS)
    i, j, bs, n, k = z3.Ints('i j bs n k')
    S = z3.Select
    new = lambda x: IMUL(B(x), bs) + (x - S(off, B(x)))
    inb = lambda x: z3.And(B(x) >= 0, B(x) < n, S(off, B(x)) <= x, x < S(off, B(x) + 1), S(off, B(x) + 1) - S(off, B(x)) <= bs)
    jj = z3.Int('jj')
    mono = z3.ForAll([k, jj], z3.Implies(z3.And(0 <= k, k <= jj, jj <= n), S(off, k) <= S(off, jj)), patterns=[z3.MultiPattern(S(off, k), S(off, jj))])
    h = [mono, inb(i), inb(j), i < j, bs >= 0] + arith_axioms({'imul'})
    return [('expansion keeps distinct indices distinct and in order', h, new(i) < new(j)),
            ('expansion keeps every index in its block', h, z3.And(IMUL(B(i), bs) <= new(i), new(i) < IMUL(B(i), bs) + bs))]


HELPERS = [NextPow2Fn]
ALL = [BlockSize, Index, Indices, Entries]
