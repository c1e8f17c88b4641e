"""Contracts of the multiplication of blocked formats (C02, C03).

A block o of a matrix is seen by its callers through four names: WF(o) (its storage is
well formed), NR(o), NC(o) (rows and columns it may touch) and B(o, xo, i) (sum of its
row i with the vector that begins at element xo of x).  They abbreviate, in this order, the
precondition, the number of rows, the number of columns and the row sums of the contract
of that block kind's own spmv in spec_spmv, which is verified against the real code."""
import z3
from .core import *
from .contract import Contract
from .speclib import *

U = 'unsigned int'
F = 'float, unsigned int'


class Names:
    """ghost names of the blocks of one kind"""
    def __init__(self, tag):
        self.WF = z3.Function('wellFormed_' + tag, IntS, BoolS)
        self.NR = z3.Function('blockRows_' + tag, IntS, IntS)
        self.NC = z3.Function('blockCols_' + tag, IntS, IntS)
        self.B = z3.Function('blockRowSum_' + tag, IntS, IntS, IntS, RealS)


class BlockCall(Contract):
    """y[0..rows) += block * x[0..columns)"""
    name = 'spmv'
    names = None
    bodiless = False
    def func(self, db):
        if not self.bodiless: return super().func(db)
        for f in db.funcs:
            if f.rec == self.rec and f.name == self.name: return f
    def obj(self, c): return c.this.off
    def pre(self, c):
        N, o = self.names, self.obj(c)
        x, y = c.args[-2:]
        return [('the block is well formed', N.WF(o)), ('x has as many entries as the block has columns', c.room(x, N.NC(o))), ('y has as many entries as the block has rows', c.room(y, N.NR(o)))]
    def modifies(self, c): return [('win', c.args[-1], IV(0), self.names.NR(self.obj(c)))]
    def reads(self, c): return [(c.args[-2], IV(0), self.names.NC(self.obj(c)), ())]
    def cells(self, c):
        N, o = self.names, self.obj(c)
        x, y = c.args[-2:]
        return [('every row of y grows by exactly its row of the block', y.off, y.off + N.NR(o),
                 lambda st, k: z3.Select(c.arr(st, y), k) == z3.Select(c.arr(c.s0, y), k) + N.B(o, x.off, sub(k, y.off)), lambda st, k: [z3.Select(c.arr(st, y), k)])]


class CsrSerialCall(BlockCall):
    """the free function on arrays: a block is named by where its row pointers begin"""
    name = 'spmv_csr_serial'
    sig = ('const unsigned int *', 'const unsigned int *', 'const float *', U, 'const float *', 'float *')
    def obj(self, c): return c.args[0].off
    def pre(self, c): return super().pre(c) + [('the number of rows is the block\'s', c.args[3] == self.names.NR(self.obj(c)))]


class Blocked:
    """a matrix of blocks: block k (of nnzblocks) has its block column in blockcol_ind[k], block row r
    has the blocks blockrow_ptr[r]..blockrow_ptr[r+1]"""
    names = None
    blocks = 'blocks'           # member that lists the blocks
    absolute = False            # column indices relative to the matrix
    P = z3.Function('blocksSum', IntS, IntS, IntS, RealS)      # P(xo, k, i): row i of the blocks before k, x from xo
    def bf(self, c, n): return ptr_field(c, c.s0, self.A(c), n)
    def blockobj(self, c, k):
        """(name of block k, pattern)"""
        b = self.bf(c, self.blocks)
        p = c.ex.rawget(c.s0, b.region, ()) if b.region.elem.k == 'ptr' else None
        return z3.Select(p.offs, add(b.off, k)) if isinstance(p, PtrArr) else add(b.off, k)
    def colind(self, c, k): return c.el(c.s0, self.bf(c, 'blockcol_ind'), k)
    def xat(self, c, x, k): return x.off if self.absolute else x.off + c.el(c.s0, self.bf(c, 'blockcol_offset'), self.colind(c, k))
    def trig(self, c, k): return self.blockobj(c, k) if self.absolute else self.colind(c, k)
    def sums(self, c, x):
        """P(k+1, i) = P(k, i) + row i of block k"""
        k, i, j = z3.Ints('k!P i!P j!P')
        N, P = self.names, self.P
        o = self.blockobj(c, k)
        return [z3.ForAll([k, i, j], z3.Implies(k >= 0, P(x.off, k + 1, i) == P(x.off, k, i) + z3.If(z3.And(i >= 0, i < N.NR(o)), N.B(o, self.xat(c, x, k), i), 0)),
                          patterns=[z3.MultiPattern(self.trig(c, k), P(x.off, j, i))])]
    def blocks_ok(self, c, x, lo, hi, rows, name='k!b'):
        """blocks lo..hi are well formed, fit below `rows` rows, and lie inside x"""
        N = self.names
        def f(k):
            o = self.blockobj(c, k)
            return z3.And(N.WF(o), N.NR(o) >= 0, N.NR(o) <= rows, N.NC(o) >= 0, self.xat(c, x, k) - x.off + N.NC(o) <= self.width)
        return every(lo, hi, f, lambda k: [self.trig(c, k)], name)
    def layout(self, c, x):
        """arrays of the matrix"""
        A = self.A(c)
        n = c.fld(c.s0, A, 'nnzblocks')
        self.width = z3.Int('columns!g')
        ci = [] if self.absolute else [('block columns', c.room(self.bf(c, 'blockcol_ind'), n)), ('block column offsets', c.room(self.bf(c, 'blockcol_offset'), c.fld(c.s0, A, 'blockcols') + 1)),
              ('block columns are valid', every(0, n, lambda k: z3.And(self.colind(c, k) >= 0, self.colind(c, k) < c.fld(c.s0, A, 'blockcols')), lambda k: self.colind(c, k)))]
        ext = self.extent(c, n)
        return [('x has as many entries as the matrix has columns', c.room(x, self.width))] + ci + ext
    def extent(self, c, n):
        b = self.bf(c, self.blocks)
        out = [('blocks', c.room(b, n))]
        p = c.ex.rawget(c.s0, b.region, ()) if b.region.elem.k == 'ptr' else None
        if isinstance(p, PtrArr):
            if p.region.size is None: p.region.size = z3.Int('objects!size')
            out.append(('every block points to an object', every(0, n, lambda k: z3.And(self.blockobj(c, k) >= 0, self.blockobj(c, k) < p.region.size), lambda k: self.blockobj(c, k), 'k!o')))
        return out


def chunk(c, st, part, i):
    a = c.arr(st, part, 'chunks', '#data', '[]')
    return z3.Select(a, i) if part.region.single else z3.Select(z3.Select(a, part.off), i)


def nchunk(c, st, part):
    a = c.arr(st, part, 'chunks', '#size')
    return a if part.region.single else z3.Select(a, part.off)


class Chunk(Contract, Blocked):
    """chunks first..last of one block row"""
    name = 'spmv_chunk'
    shorter = None              # as the callee of itself: the length of the caller's range
    def A(self, c): return c.args[0]
    def bounds(self, c):
        A, x, y, part, first, last, bsize = c.args
        return chunk(c, c.s0, part, first), chunk(c, c.s0, part, last)
    def pre(self, c):
        A, x, y, part, first, last, bsize = c.args
        n = c.fld(c.s0, A, 'nnzblocks')
        lo, hi = self.bounds(c)
        i, j = z3.Ints('i!c j!c')
        ch = lambda i: chunk(c, c.s0, part, i)
        out = self.layout(c, x) + [
            ('the division', c.room(part, IV(1))), ('there is a chunk', z3.And(first >= 0, first < last, last < nchunk(c, c.s0, part), last < 1 << 31)),
            ('chunks are in order', z3.ForAll([i, j], z3.Implies(z3.And(i >= first, i <= j, j <= last), ch(i) <= ch(j)), patterns=[z3.MultiPattern(ch(i), ch(j))])),
            ('chunks are inside the matrix', z3.And(lo >= 0, hi <= n)),
            ('blocks of the chunks are well formed', self.blocks_ok(c, x, lo, hi, bsize)), ('y has room for the block row', c.room(y, bsize))]
        if self.shorter is not None: out.append(('a recursive call gets fewer chunks', last - first < self.shorter))
        return out
    def axioms(self, c):
        if not c.verifying: return []
        self.helpers[0].shorter = c.args[5] - c.args[4]
        return self.sums(c, c.args[1])
    def modifies(self, c): return [('win', c.args[2], IV(0), c.args[6])]
    def reads(self, c): return [(c.args[1], IV(0), self.width, ())]
    def grow(self, c, x, y, lo, hi): return lambda st, k: z3.Select(c.arr(st, y), k) == z3.Select(c.arr(c.s0, y), k) + (self.P(x.off, hi, sub(k, y.off)) - self.P(x.off, lo, sub(k, y.off)))
    def cells(self, c):
        A, x, y, part, first, last, bsize = c.args
        lo, hi = self.bounds(c)
        return [('every row of y grows by exactly its row of these chunks', y.off, y.off + bsize, self.grow(c, x, y, lo, hi), lambda st, k: [z3.Select(c.arr(st, y), k)])]
    def extra_templates(self, c, ctx, M, U):
        x, y = c.args[1], c.args[2]
        return window_templates(c, ctx, M, y, lambda k, i: self.P(x.off, k, i), [y.off])
    def leaks(self, c): return []


class BlockedSpmv(Contract, Blocked):
    """the whole matrix"""
    name = 'spmv'
    divided = True              # uses the division into chunks unless balanced
    def A(self, c): return c.this
    def prepare(self, c): c.g['R'] = z3.Function('blockRowOf', IntS, IntS)
    def rp(self, c, k): return c.el(c.s0, self.bf(c, 'blockrow_ptr'), k)
    def ro(self, c, k): return c.el(c.s0, self.bf(c, 'blockrow_offset'), k)
    def pre(self, c):
        A, (x, y) = c.this, c.args
        n, br, rows = c.fld(c.s0, A, 'nnzblocks'), c.fld(c.s0, A, 'blockrows'), c.fld(c.s0, A, 'rows')
        rp, ro, N = lambda k: self.rp(c, k), lambda k: self.ro(c, k), self.names
        i, j, k = z3.Ints('i!q j!q k!q')
        out = self.layout(c, x) + [
            ('block row pointers', c.room(self.bf(c, 'blockrow_ptr'), br + 1)), ('block row offsets', c.room(self.bf(c, 'blockrow_offset'), br + 1)),
            ('block row offsets increase', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= br), ro(i) <= ro(j)), patterns=[z3.MultiPattern(ro(i), ro(j))])),
            ('block row offsets start at 0 and end at the number of rows', z3.And(ro(IV(0)) == 0, ro(br) == rows)), ('y has as many entries as the matrix has rows', c.room(y, rows)),
            ('block rows end where they begin or later', every(0, br, lambda k: rp(k) <= rp(k + 1), rp)), ('blocks of a block row are in the matrix', every(0, br + 1, lambda k: z3.And(rp(k) >= 0, rp(k) <= n), rp, 'k!q2')),
            ('blocks are as high as their block row', z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < br, k >= rp(i), k < rp(i + 1)), self.block_height(c, k, i)),
                                                              patterns=[z3.MultiPattern(rp(i), self.trig(c, k))])),
            ('blocks are well formed', self.blocks_ok(c, x, 0, n, rows))]
        if self.divided:
            p = self.bf(c, 'partition')
            at = lambda k: Ptr(p.region, add(p.off, k))
            ch = lambda b, i: chunk(c, c.s0, at(b), i)
            m = lambda b: nchunk(c, c.s0, at(b))
            bal = c.fld(c.s0, A, 'balanced')
            un = lambda f: z3.Implies(z3.Not(bal), f)
            out += [('a division for every block row, unless balanced', un(c.room(p, br))),
                    ('the division has chunks', un(every(0, br, lambda b: z3.And(m(b) >= 2, m(b) < 1 << 31), m))),
                    ('it spans the block row', un(every(0, br, lambda b: z3.And(ch(b, IV(0)) == rp(b), ch(b, m(b) - 1) == rp(b + 1)), m, 'b!q'))),
                    ('chunks are in order', un(z3.ForAll([i, j, k], z3.Implies(z3.And(i >= 0, i < br, j >= 0, j <= k, k < m(i)), ch(i, j) <= ch(i, k)),
                                                         patterns=[z3.MultiPattern(ch(i, j), ch(i, k))])))]
        return out
    def block_height(self, c, k, i): return self.names.NR(self.blockobj(c, k)) <= self.ro(c, i + 1) - self.ro(c, i)
    def axioms(self, c):
        k, j = z3.Ints('k!R j!R')
        R, br, rows = c.g['R'], c.fld(c.s0, c.this, 'blockrows'), c.fld(c.s0, c.this, 'rows')
        # the block row of a row: exists because the offsets start at 0 and end at the number of rows
        return self.sums(c, c.args[0]) + [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < rows), z3.And(R(k) >= 0, R(k) < br, self.ro(c, R(k)) <= k, k < self.ro(c, R(k) + 1))), patterns=[R(k)])]
    def modifies(self, c): return [('win', c.args[1], IV(0), c.fld(c.s0, c.this, 'rows'))]
    def done(self, c, st, k):
        x, y = c.args
        R, P = c.g['R'], self.P
        b, i = R(k), k - self.ro(c, R(k))
        return c.el(st, y, k) == c.el(c.s0, y, k) + (P(x.off, self.rp(c, b + 1), i) - P(x.off, self.rp(c, b), i))
    def cells(self, c):
        return [('every row of y grows by exactly its row of A x', IV(0), c.fld(c.s0, c.this, 'rows'), lambda st, k: self.done(c, st, k), lambda st, k: [c.el(st, c.args[1], k)])]
    def extra_templates(self, c, ctx, M, U):
        x, y = c.args
        k = z3.Int('k!i')
        R, rows = c.g['R'], c.fld(c.s0, c.this, 'rows')
        out = []
        arr = lambda st: c.arr(st, y)
        for u in M:
            out.append(((ctx.key, 'block rows before %s done' % u.name), lambda st, u=u: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < rows, k < self.ro(c, u(st))), self.done(c, st, k)), patterns=[c.el(st, y, k)])))
            out.append(((ctx.key, 'block rows from %s untouched' % u.name), lambda st, u=u: z3.ForAll([k], z3.Implies(k >= self.ro(c, u(st)), z3.Select(arr(st), k) == z3.Select(c.arr(c.s0, y), k)), patterns=[z3.Select(arr(st), k)])))
        bases = []
        e = arr(ctx.entry)
        for u in U:
            if 'this.' in u.name: continue
            bases.append(self.ro(c, u.ent))
            out.append(((ctx.key, 'only block row %s' % u.name), lambda st, u=u: z3.ForAll([k], z3.Implies(z3.Or(k < self.ro(c, u.ent), k >= self.ro(c, u.ent + 1)), z3.Select(arr(st), k) == z3.Select(e, k)),
                                                                                          patterns=[z3.Select(arr(st), k)])))
        return out + window_templates(c, ctx, M, y, lambda k, i: self.P(x.off, k, i), bases)
    def leaks(self, c): return []


class Csbr2Spmv(BlockedSpmv):
    """blocks are row pointers into common arrays, with column indices of the whole matrix"""
    rec = 'Csbr2<%s>' % F
    absolute, divided, blocks = True, False, 'row_ptr'
    def block_height(self, c, k, i): return self.names.NR(self.blockobj(c, k)) == self.ro(c, i + 1) - self.ro(c, i)


class MatrixBlockSpmv(Contract):
    """a block is multiplied as the kind it is"""
    name = 'spmv'
    kinds = ()
    def pick(self, c, f):
        t = c.fld(c.s0, c.this, 'type')
        return z3.If(t == 0, f(self.kinds[0]), z3.If(t == 1, f(self.kinds[1]), f(self.kinds[2])))
    def pre(self, c):
        x, y = c.args
        t, o = c.fld(c.s0, c.this, 'type'), c.this.off
        return [('the block has a kind', z3.Or(t == 0, t == 1, t == 2)), ('the block is well formed', self.pick(c, lambda N: N.WF(o))),
                ('x', c.room(x, self.pick(c, lambda N: N.NC(o)))), ('y', c.room(y, self.pick(c, lambda N: N.NR(o))))]
    def modifies(self, c): return [('win', c.args[1], IV(0), self.pick(c, lambda N: N.NR(c.this.off)))]
    def cells(self, c):
        x, y = c.args
        o = c.this.off
        return [('every row of y grows by exactly its row of the block', y.off, y.off + self.pick(c, lambda N: N.NR(o)),
                 lambda st, k: z3.Select(c.arr(st, y), k) == z3.Select(c.arr(c.s0, y), k) + self.pick(c, lambda N: N.B(o, x.off, sub(k, y.off))), lambda st, k: [z3.Select(c.arr(st, y), k)])]
    def leaks(self, c): return []


def _mk():
    out = []
    for A, rec, kind in (('Csbr<%s>' % F, 'Csr<%s>' % F, 'Csr'), ('Cgbr<%s, unsigned int>' % F, 'MatrixBlock<%s, unsigned int>' % F, 'MatrixBlock4'),
                         ('Cgbr<%s, unsigned short>' % F, 'MatrixBlock<%s, unsigned short>' % F, 'MatrixBlock'), ('Cgbr2<%s, unsigned short>' % F, 'BlockBase<%s>' % F, 'BlockBase')):
        N = Names(kind)
        n = A.split('<')[0] + ('4' if kind.endswith('4') else '')
        ar = ('Csr<', 'MatrixBlock<', 'BlockBase<')
        bc = BlockCall(rec=rec, names=N, label='block %s::spmv' % rec, bodiless=kind == 'BlockBase')
        sig = ('const %s *' % A, 'const float *', 'float *', 'const BlockRowPartition<unsigned int> *', U, U, U)
        rec_ = type('Chunk', (Chunk,), {'sig': sig, 'names': N, 'label': 'spmv_chunk<%s> (recursive call)' % A})()
        out.append(type('Chunk_' + n, (Chunk,), {'sig': sig, 'names': N, 'label': 'spmv_chunk<%s>' % A, 'helpers': [rec_, bc], 'array_recs': ar}))
        callee = type('Chunk', (Chunk,), {'sig': sig, 'names': N, 'label': 'spmv_chunk<%s>' % A})()
        out.append(type('Spmv_' + n, (BlockedSpmv,), {'rec': A, 'names': N, 'label': '%s::spmv' % A, 'helpers': [callee, bc], 'array_recs': ar}))
        if n.startswith('Cgbr') and n != 'Cgbr2':
            bs = BlockCall(rec=rec, name='spmv_serial', names=N, label='block %s::spmv_serial' % rec)
            out.append(type('SpmvSerial_' + n, (BlockedSpmv,), {'rec': A, 'name': 'spmv_serial', 'divided': False, 'names': N, 'label': '%s::spmv_serial' % A, 'helpers': [bs], 'array_recs': ar}))
            si = rec[:-1].split(', ')[-1]
            kinds = [('BlockCoo<%s, %s>' % (F, si), Names('coo')), ('BlockCsr<%s, %s>' % (F, si), Names('csr')), ('BlockDense<%s>' % F, Names('dense'))]
            for m in ('spmv', 'spmv_serial'):
                hs = [BlockCall(rec=r, name='spmv' if i == 0 else m, names=k, label='%s::%s' % (r, m)) for i, (r, k) in enumerate(kinds)]
                out.append(type('MatrixBlock_' + m + n[4:], (MatrixBlockSpmv,), {'rec': rec, 'name': m, 'label': '%s::%s' % (rec, m), 'kinds': [k for _, k in kinds], 'helpers': hs}))
    N = Names('rowPointers')
    out.append(type('Spmv_Csbr2', (Csbr2Spmv,), {'names': N, 'label': 'Csbr2<%s>::spmv' % F, 'helpers': [CsrSerialCall(names=N, label='block rows: spmv_csr_serial')]}))
    return out


ALL = _mk()
