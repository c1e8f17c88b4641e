"""Contracts of the division of block rows into chunks (C04)."""
import z3
from .core import *
from .contract import Contract
from .speclib import *

U = 'unsigned int'
F = 'float, unsigned int'

# ghost description of a block row s..e: NZ(b) nonzeros of block b; ACC(s,e,b) nonzeros counted since the
# previous division point when block b is reached; NUM(s,e,b) division points among the blocks before b
NZ = z3.Function('blockNonzeros', IntS, IntS)
ACC = z3.Function('countedSoFar', IntS, IntS, IntS, IntS)
NUM = z3.Function('divisionsBefore', IntS, IntS, IntS, IntS)


def threshold(c, st, A):
    """total nonzeros / (2 * workers)"""
    w = c.ex.builtins['omp_get_max_threads'](st, [], None)
    return IDIV(c.fld(st, A, 'nnz'), 2 * w)


def div(thr, s, e, b): return z3.And(ACC(s, e, b) + NZ(b) > thr, b < e - 1)


def divisions(thr):
    s, e, b, j = z3.Ints('s!d e!d b!d j!d')
    d = div(thr, s, e, b)
    return [z3.ForAll([s, e], z3.And(ACC(s, e, s) == 0, NUM(s, e, s) == 0), patterns=[ACC(s, e, s)]),
            z3.ForAll([s, e], z3.And(ACC(s, e, s) == 0, NUM(s, e, s) == 0), patterns=[NUM(s, e, s)]),
            z3.ForAll([s, e, b, j], z3.Implies(z3.And(s <= b, b < e), z3.And(ACC(s, e, b + 1) == z3.If(d, 0, ACC(s, e, b) + NZ(b)),
                                                                            NUM(s, e, b + 1) == NUM(s, e, b) + z3.If(d, 1, 0))),
                      patterns=[z3.MultiPattern(NZ(b), NUM(s, e, j))])]


class Parts:
    """the chunk boundaries of one block row"""
    def chunk(self, c, st, part, i):
        a = c.arr(st, part, 'chunks', '#data', '[]')
        return z3.Select(a, i) if part.region.single else z3.Select(z3.Select(a, part.off), i)
    def size(self, c, st, part):
        a = c.arr(st, part, 'chunks', '#size')
        return a if part.region.single else z3.Select(a, part.off)
    def inner(self, c, st, part, thr, s, e, hi):
        """boundaries 1..hi-1 are division points, in order"""
        i, j = z3.Ints('i!c j!c')
        ch = lambda i: self.chunk(c, st, part, i)
        return [('chunks begin at the first block', ch(IV(0)) == s),
                ('every chunk but the first begins at a division point, in order', z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < hi), z3.And(
                    ch(i) >= s, ch(i) < e, div(thr, s, e, ch(i)), NUM(s, e, ch(i)) == i - 1)), patterns=[ch(i)])),
                ('chunks never go back', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < hi), ch(i) <= ch(j)), patterns=[z3.MultiPattern(ch(i), ch(j))]))]
    def complete(self, c, st, part, thr, s, e, hi):
        b = z3.Int('b!c')
        return ('a chunk begins at every division point', z3.ForAll([b], z3.Implies(z3.And(b >= s, b < hi, div(thr, s, e, b)),
                z3.And(NUM(s, e, b) + 1 < self.size(c, st, part), self.chunk(c, st, part, NUM(s, e, b) + 1) == b)), patterns=[NUM(s, e, b)]))
    def division(self, c, st, part, thr, s, e):
        n = self.size(c, st, part)
        return ([('there are two boundaries more than division points', n == NUM(s, e, e) + 2), ('there are at least two boundaries', n >= 2)] + self.inner(c, st, part, thr, s, e, n - 1)
                + [('the last chunk ends after the last block', z3.And(self.chunk(c, st, part, n - 1) == e, self.chunk(c, st, part, n - 2) <= e)),
                   self.complete(c, st, part, thr, s, e, e)])


def nz_csbr(c, st, A, k):
    b = ptr_field(c, st, A, 'blocks')
    rp = c.ex.rawget(st, b.region, ('row_ptr',))
    return z3.Select(c.ex.rawget(st, rp.region, ()), z3.Select(rp.offs, k) + c.el(st, b, k, 'rows')), c.el(st, b, k, 'rows')


def pre_csbr(c, A):
    b = ptr_field(c, c.s0, A, 'blocks')
    rp = c.ex.rawget(c.s0, b.region, ('row_ptr',))
    if rp.region.size is None: rp.region.size = z3.Int('row pointers!size')
    n = c.fld(c.s0, A, 'nnzblocks')
    rows = lambda k: c.el(c.s0, b, k, 'rows')
    return [('blocks', c.room(b, n)), ('row pointers of every block', every(0, n, lambda k: z3.And(z3.Select(rp.offs, k) >= 0, z3.Select(rp.offs, k) + rows(k) < rp.region.size), rows))]


COO, CSR, DENSE = 0, 1, 2     # enum MatrixType


def nz_cgbr(c, st, A, k):
    b = ptr_field(c, st, A, 'blocks')
    f = lambda *p: c.el(st, b, k, *p)
    rp = c.ex.rawget(st, b.region, ('matrix', 'csr', 'row_ptr'))
    csr = z3.Select(c.ex.rawget(st, rp.region, ()), z3.Select(rp.offs, add(b.off, k)) + f('matrix', 'csr', 'rows'))
    return z3.If(f('type') == COO, f('matrix', 'coo', 'nnz'), z3.If(f('type') == CSR, csr, z3.If(
        f('type') == DENSE, mk_imul(f('matrix', 'dense', 'rows'), f('matrix', 'dense', 'columns')), 0))), f('type')


def pre_cgbr(c, A):
    b = ptr_field(c, c.s0, A, 'blocks')
    rp = c.ex.rawget(c.s0, b.region, ('matrix', 'csr', 'row_ptr'))
    if rp.region.size is None: rp.region.size = z3.Int('row pointers!size')
    n = c.fld(c.s0, A, 'nnzblocks')
    f = lambda k, *p: c.el(c.s0, b, k, *p)
    o = lambda k: z3.Select(rp.offs, add(b.off, k))
    return [('blocks', c.room(b, n)), ('row pointers of every compressed block', every(0, n, lambda k: z3.Implies(f(k, 'type') == CSR, z3.And(
                o(k) >= 0, o(k) + f(k, 'matrix', 'csr', 'rows') < rp.region.size)), lambda k: [f(k, 'type')])),
            ('dense blocks have fewer than 2^32 cells', every(0, n, lambda k: z3.Implies(f(k, 'type') == DENSE, mk_imul(f(k, 'matrix', 'dense', 'rows'), f(k, 'matrix', 'dense', 'columns')) < 1 << 32), lambda k: [f(k, 'type')]))]


def nz_cgbr2(c, st, A, k):
    b = ptr_field(c, st, A, 'blocks')
    p = c.ex.rawget(st, b.region, ())
    o = z3.Select(p.offs, add(b.off, k))
    return z3.Select(c.ex.rawget(st, p.region, ('nnz',)), o), o


def pre_cgbr2(c, A):
    b = ptr_field(c, c.s0, A, 'blocks')
    p = c.ex.rawget(c.s0, b.region, ())
    if p.region.size is None: p.region.size = z3.Int('objects!size')
    n = c.fld(c.s0, A, 'nnzblocks')
    o = lambda k: z3.Select(p.offs, add(b.off, k))
    return [('blocks', c.room(b, n)), ('every block points to an object', every(0, n, lambda k: z3.And(o(k) >= 0, o(k) < p.region.size), o))]


class PartitionRow(Contract, Parts):
    name = 'partition_blockrow'
    nz = pre_blocks = None
    array_recs = ('Csr<', 'MatrixBlock<')
    single_recs = ('BlockRowPartition<',)
    def thr(self, c): return threshold(c, c.s0, c.args[0])
    def pre(self, c):
        A, part, s, e = c.args
        n = c.fld(c.s0, A, 'nnzblocks')
        t = lambda k: type(self).nz(c, c.s0, A, k)
        return [('the block row is one of the matrix', z3.And(s <= e, e <= n)), ('total nonzeros fit', c.fld(c.s0, A, 'nnz') >= 0)] + type(self).pre_blocks(c, A) + [
            ('NZ is the number of nonzeros of a block', every(0, n, lambda k: NZ(k) == t(k)[0], lambda k: [t(k)[1]])),
            ('the counted nonzeros fit the index type', every(s, e, lambda k: ACC(s, e, k) + NZ(k) < 1 << 32, lambda k: [NZ(k)]))]
    def axioms(self, c): return divisions(self.thr(c))
    def modifies(self, c):
        part = c.args[1]
        return [('any', part) if part.region.single else ('win', part, IV(0), IV(1))]
    def post(self, c):
        A, part, s, e = c.args
        return self.division(c, c.s1, part, self.thr(c), s, e)
    def prefixes(self, c):
        A, part, s, e = c.args
        return [('counted', lambda b: ACC(s, e, b), 'count'), ('divisions', lambda b: NUM(s, e, b), 'count')]
    def extra_templates(self, c, ctx, M, Us):
        A, part, s, e = c.args
        thr = self.thr(c)
        out = []
        for i, (nm, _) in enumerate(self.inner(c, c.s0, part, thr, s, e, IV(0))):
            out.append(((ctx.key, nm), lambda st, i=i: self.inner(c, st, part, thr, s, e, self.size(c, st, part))[i][1]))
        for v in M:
            out.append(((ctx.key, 'division points before ' + v.name), lambda st, v=v: self.complete(c, st, part, thr, s, e, v(st))[1]))
            out.append(((ctx.key, 'boundaries below ' + v.name), lambda st, v=v: z3.ForAll([KS], z3.Implies(z3.And(KS >= 1, KS < self.size(c, st, part)),
                self.chunk(c, st, part, KS) < v(st)), patterns=[self.chunk(c, st, part, KS)])))
        return out
    def leaks(self, c): return []


def _mk():
    out = []
    for A, nz, pre in (('Csbr<%s>' % F, nz_csbr, pre_csbr), ('Cgbr<%s, unsigned int>' % F, nz_cgbr, pre_cgbr), ('Cgbr<%s, unsigned short>' % F, nz_cgbr, pre_cgbr),
                       ('Cgbr2<%s, unsigned short>' % F, nz_cgbr2, pre_cgbr2)):
        out.append(type('PartitionRow_' + A.split('<')[0] + ('4' if A.endswith('int>') and 'Cgbr' in A else ''), (PartitionRow,), {'label': 'partition_blockrow<%s>' % A, 'nz': nz, 'pre_blocks': pre,
                   'sig': ('const %s *' % A, 'BlockRowPartition<unsigned int> *', U, U)}))
    return out


ALL = _mk()


class PartitionInit(Contract, Parts):
    """every block row gets its division"""
    name = 'partition_init'
    array_recs = ('Csr<', 'MatrixBlock<')
    single_recs = ()
    nz = pre_blocks = None
    def bptr(self, c): return ptr_field(c, c.s0, c.args[0], 'blockrow_ptr')
    def pre(self, c):
        A = c.args[0]
        bp, n, m = self.bptr(c), c.fld(c.s0, A, 'blockrows'), c.fld(c.s0, A, 'nnzblocks')
        e = lambda k: c.el(c.s0, bp, k)
        t = lambda k: type(self).nz(c, c.s0, A, k)
        k, b = z3.Ints('k!q b!q')
        return [('block row pointers', c.room(bp, n + 1)), ('block row pointers increase', every(0, n, lambda k: e(k) <= e(k + 1), e)),
                ('block row pointers end by the number of blocks', every(0, n + 1, lambda k: e(k) <= m, e))] + type(self).pre_blocks(c, A) + [
                ('NZ is the number of nonzeros of a block', every(0, m, lambda k: NZ(k) == t(k)[0], lambda k: [t(k)[1]])),
                ('the counted nonzeros fit the index type', z3.ForAll([k, b], z3.Implies(z3.And(k >= 0, k < n, b >= e(k), b < e(k + 1)), ACC(e(k), e(k + 1), b) + NZ(b) < 1 << 32),
                    patterns=[z3.MultiPattern(e(k), NZ(b))]))]
    def thr(self, c): return threshold(c, c.s0, c.args[0])
    def modifies(self, c): return [('leaf', c.args[0], ('partition',))]
    def part(self, c, st, k):
        p = ptr_field(c, st, c.args[0], 'partition')
        return Ptr(p.region, add(p.off, k))
    def post(self, c):
        p = ptr_field(c, c.s1, c.args[0], 'partition')
        n = c.fld(c.s0, c.args[0], 'blockrows')
        return [('there is one division per block row', z3.And(p.off == 0, p.region.size == n) if p.region.size is not None else z3.BoolVal(False)),
                ('the divisions are on the heap', z3.BoolVal(p.region in c.ex.allocs))]
    def cells(self, c):
        bp, n = self.bptr(c), c.fld(c.s0, c.args[0], 'blockrows')
        e = lambda k: c.el(c.s0, bp, k)
        thr = self.thr(c)
        D = lambda st, k: self.division(c, st, self.part(c, st, k), thr, e(k), e(k + 1))
        return [('every block row: ' + nm, IV(0), n, lambda st, k, i=i: D(st, k)[i][1], lambda st, k: [self.size(c, st, self.part(c, st, k)), z3.Select(c.arr(st, self.part(c, st, k), 'chunks', '#data', '[]'), k)]) for i, nm in enumerate(PARTNAMES)]
    def leaks(self, c): return [ptr_field(c, c.s1, c.args[0], 'partition').region]


PARTNAMES = ['there are two boundaries more than division points', 'there are at least two boundaries', 'chunks begin at the first block', 'every chunk but the first begins at a division point, in order',
             'chunks never go back', 'the last chunk ends after the last block', 'a chunk begins at every division point']


def _mki():
    out = []
    for R in list(ALL):
        A = R.sig[0].replace('const ', '')
        out.append(type('PartitionInit' + R.__name__[12:], (PartitionInit,), {'label': 'partition_init<%s>' % A[:-2], 'nz': staticmethod(R.nz), 'pre_blocks': staticmethod(R.pre_blocks), 'sig': (A,), 'helpers': [R(single_recs=())]}))
    return out


ALL += _mki()
