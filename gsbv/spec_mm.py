"""Contracts of the Matrix Market reader and writer (C19)."""
import z3
from .core import *
from .speclib import *
from .spec_coo import FIELDS
from .spec_io import IO, Write, Read, DST, CH
from . import files as F

POSN = z3.Function('entriesBefore', IntS, IntS)       # entries that the lines before line k of a file stand for


def posn_axioms(sym, r, c):
    """a line of a symmetric file that is not on the diagonal stands for two entries"""
    k = z3.Int('k!s')
    return [POSN(IV(0)) == 0, z3.ForAll([k], posn_step(sym, r, c, k), patterns=[z3.Select(r, k)])]


def posn_step(sym, r, c, k): return z3.Implies(k >= 0, POSN(k + 1) == POSN(k) + z3.If(z3.And(sym, z3.Select(r, k) != z3.Select(c, k)), 2, 1))


def posn_lemma(sym, n):
    j, k = z3.Ints('j!l k!l')
    return z3.And(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j <= k, k <= n), POSN(j) + (k - j) <= POSN(k)), patterns=[z3.MultiPattern(POSN(j), POSN(k))]),
                  z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), z3.And(POSN(k) >= k, POSN(k) <= 2 * k, z3.Implies(z3.Not(sym), POSN(k) == k))), patterns=[POSN(k)]))


def lemmas():
    r, c = [z3.Const(x, z3.ArraySort(IntS, IntS)) for x in 'rc']
    n, sym = z3.Int('n'), z3.Bool('sym')
    return [('entries before a line: none before the first', posn_axioms(sym, r, c), posn_lemma(sym, IV(0))),
            ('entries before a line: step', posn_axioms(sym, r, c) + [n >= 0, posn_lemma(sym, n), posn_step(sym, r, c, n)], posn_lemma(sym, n + 1))]


class WriteMM(Write):
    name = 'write_mm_COO'
    modes = {1: 'mm'}
    CODE = [ord(x) for x in 'MCRG']
    def length(self, c, f): return 7 + 3 * self.source(c)
    def pre(self, c): return super().pre(c) + [('indices are valid', every(IV(0), self.source(c), lambda k: z3.And(self.entry(c, c.s0, k, 'row') < self.m(c, c.s0, 'rows'), self.entry(c, c.s0, k, 'col') < self.m(c, c.s0, 'columns')), lambda k: self.entry(c, c.s0, k, 'row'))), ('the dimensions and the entry count are within the reach of the format functions', z3.And(*[self.m(c, c.s0, d) < 1 << 31 for d in ('rows', 'columns', 'nnz')]))]
    def prefixes(self, c): return [('three', lambda k: 3 * k, 'count')]
    def head(self, c, st):
        f = self.by[1]
        return z3.And(*[self.item(c, st, f, IV(j), 201, IV(x)) for j, x in enumerate(self.CODE)], *[self.item(c, st, f, IV(4 + j), 202, self.m(c, c.s0, d)) for j, d in enumerate(('rows', 'columns', 'nnz'))])
    def item(self, c, st, f, k, t, v):
        a = f.reals(c.ex, st) if t == 204 else f.ints(c.ex, st)
        return z3.And(z3.Select(f.tags(c.ex, st), k) == t, z3.Select(a, k) == v)
    def cells(self, c):
        n, f, s = self.source(c), self.by[1], c.s0
        def P(st, k): return z3.Implies(self.ret_ok(c), z3.And(self.item(c, st, f, 7 + 3 * k, 203, self.entry(c, s, k, 'row') + 1), self.item(c, st, f, 8 + 3 * k, 203, self.entry(c, s, k, 'col') + 1), self.item(c, st, f, 9 + 3 * k, 204, self.entry(c, s, k, 'val'))))
        return [('line k is the row and column of entry k, counted from 1, and its value', IV(0), n, P, lambda st, k: [self.entry(c, s, k, 'row')])]
    def post(self, c): return super().post(c) + [('the file starts with a valid header: real, general, and the sizes', z3.Implies(c.ret == 0, self.head(c, c.s1)))]
    def extra_templates(self, c, ctx, M, U): return [('head', lambda st: self.head(c, st))]


class ReadMM(Read):
    name = 'read_mm_COO'
    modes = {1: 'text'}
    def sym(self, c): return self.by[1].code[3] == ord('S')
    def n(self, c): return POSN(self.by[1].L)
    def axioms(self, c): return posn_axioms(self.sym(c), *self.by[1].line[:2])
    def lemmas(self, c, st): return [posn_lemma(self.sym(c), self.by[1].L)]
    def supported(self, c):
        code = self.by[1].code
        return z3.And(code[1] == ord('C'), code[2] != ord('C'), code[2] != ord('P'), code[3] != ord('K'), code[3] != ord('H'))
    def pre(self, c):
        f = self.by[1]
        r, cc, v = f.line
        one = lambda x, s: z3.Or(*[x == ord(y) for y in s])
        nr, nc, nz = f.dims
        return [('a banner that is read names a known kind', z3.And(f.code[0] == ord('M'), one(f.code[1], 'CA'), one(f.code[2], 'RCPI'), one(f.code[3], 'GSHK'))),
                ('results of the format functions are ints', z3.And(f.banner >= -(1 << 31), f.banner < 1 << 31, f.size >= -(1 << 31), f.size < 1 << 31)),
                ('the sizes are not negative, and twice the number of lines fits an int', z3.And(nr >= 0, nc >= 0, nz >= 0, nr < 1 << 31, nc < 1 << 31, nz < 1 << 30)),
                ('there are no more lines than the size line says', f.L <= nz),
                ('indices are counted from 1 and are valid', every(IV(0), f.L, lambda k: z3.And(z3.Select(r, k) >= 1, z3.Select(r, k) <= nr, z3.Select(cc, k) >= 1, z3.Select(cc, k) <= nc), lambda k: z3.Select(r, k))),
                ('in a symmetric file they are valid when mirrored', z3.Implies(self.sym(c), nr == nc))]
    def prefixes(self, c): return [('posn', POSN, 'count')]
    def extra_templates(self, c, ctx, M, U):
        f = self.by[1]
        return super().extra_templates(c, ctx, M, U) + [('the position is within the file', lambda st: z3.And(f.pos(c.ex, st) >= 0, f.pos(c.ex, st) <= f.L))]
    def cells(self, c):
        f = self.by[1]
        r, cc, v = f.line
        def P(st, k):
            w = POSN(k)
            R, C, V = z3.Select(r, k) - 1, z3.Select(cc, k) - 1, z3.Select(v, k)
            at = lambda i, x, y: z3.And(self.entry(c, st, i, 'row') == x, self.entry(c, st, i, 'col') == y, self.entry(c, st, i, 'val') == V)
            return z3.Implies(self.ret_ok(c), z3.And(at(w, R, C), z3.Implies(z3.And(self.sym(c), R != C), at(w + 1, C, R))))
        return [('line k is there, counted from 0, and mirrored once if the file is symmetric and it is not on the diagonal', IV(0), f.L, P, lambda st, k: [z3.Select(r, k)])]
    def post(self, c):
        f, st = self.by[1], c.s1
        return [('returns 0 exactly if the file opens, its header is read and its kind is supported', (c.ret == 0) == z3.And(f.there, f.banner == 0, self.supported(c), f.size == 0)), ('a failure is negative', z3.Or(c.ret == 0, c.ret < 0)),
                ('the dimensions are those of the file', z3.Implies(c.ret == 0, z3.And(self.m(c, st, 'rows') == f.dims[0], self.m(c, st, 'columns') == f.dims[1]))),
                ('the entry count is that of the lines and their mirror images', z3.Implies(c.ret == 0, self.m(c, st, 'nnz') == self.n(c)))] + [
                ('the array of %ss holds the entries' % fl, z3.Implies(c.ret == 0, z3.And(p.off == 0, p.region.size >= self.n(c)))) for fl in FIELDS for p in [self.arr_of(c, st, fl)[0]]]


def _mk():
    out = []
    for s in ('Coo2', 'Coo3'):
        out.append(type('%s_write_mm' % s, (WriteMM,), {'store': s, 'label': 'write_mm_COO<%s>' % s, 'sig': (DST[s][0] + ' *', CH)}))
        out.append(type('%s_read_mm' % s, (ReadMM,), {'store': s, 'label': 'read_mm_COO<%s>' % s, 'sig': (DST[s][0] + ' *', CH)}))
    return out
ALL = _mk()
