"""Contracts of dividing a matrix into blocks (C10, C11).

R(i), C(j) are the block row and block column that contain row i and column j.  The entries are sorted by
block; S is the array of block identifiers after the sort.  The ghost functions below describe the block
that the m-th call of a constructor of blocks built: where its entries begin in the sorted array, how many
there are, its height and width, and its entries (row, column, value) at the time of the call."""
import z3
from .core import *
from .exec import PtrChoice
from .contract import Contract
from .speclib import *
from . import lemmas as L
from .spec_csr import SF
from .spec_index import BlockId, CountBlocks, sorted_pre, locate_pre
from .spec_part import PartitionInit, NZ, ACC, NUM, COO, CSR, divisions, pre_cgbr, ALL as PARTS

E = 'Element<float, unsigned int> *'
U = 'unsigned int'
F = 'float, unsigned int'

AROW = z3.Function('builtRow', IntS, IntS, IntS)
ACOL = z3.Function('builtCol', IntS, IntS, IntS)
AVAL = z3.Function('builtVal', IntS, IntS, RealS)
BASE = z3.Function('builtFrom', IntS, IntS)
HROWS = z3.Function('builtHeight', IntS, IntS)
HCOLS = z3.Function('builtWidth', IntS, IntS)
OBJ = z3.Function('builtObject', IntS, IntS)
CALLOF = z3.Function('builtBy', IntS, IntS)
BTA = z3.Const('builtKind', L.ArrI)
KINDS = 6                  # MATRIX_TYPE_NUM


def lex(a, b, x, y): return z3.Or(a < x, z3.And(a == x, b < y))


def small(off, c, n):
    j, k = z3.Ints('j!q k!q')
    return z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < n, k == j + 1), off(c, k) - off(c, j) <= 1 << 16), patterns=[z3.MultiPattern(off(c, j), off(c, k))])


class BlockCtor(Contract):
    """one block from a window of entries: (window, height, width, count, target)"""
    def win(self, c): raise NotImplementedError
    def target(self, c): raise NotImplementedError
    def pre(self, c):
        a, rows, cols, n, t = self.win(c)
        row = lambda k: z3.Select(c.arr(c.s0, a, 'row'), k)
        col = lambda k: z3.Select(c.arr(c.s0, a, 'col'), k)
        lo, hi = a.off, add(a.off, n)
        j, k = z3.Ints('j!q k!q')
        return [('the window lies inside the array', c.room(a, n)), ('the block has an entry', n >= 1), ('there is room for the block', c.room(t, IV(1))),
                ('rows lie in the block', every(lo, hi, lambda k: row(k) < rows, row)), ('columns lie in the block', every(lo, hi, lambda k: col(k) < cols, col)),
                ('the window is sorted by row', z3.ForAll([j, k], z3.Implies(z3.And(j >= lo, j < k, k < hi), row(j) <= row(k)), patterns=[z3.MultiPattern(row(j), row(k))])),
                ('the block is at most 2^16 high and wide', z3.And(rows <= 1 << 16, cols <= 1 << 16)), ('the block has fewer than 2^32 cells', mk_imul(rows, cols) < 1 << 32)]
    def modifies(self, c):
        a, rows, cols, n, t = self.win(c)
        return [('win', a, IV(0), n)]


class FactoryCall(BlockCtor):
    """BlockFactory::create, as its callers see it"""
    rec, name = 'BlockFactory<%s>' % F, 'create'
    label = 'BlockFactory::create'
    def func(self, db):
        for f in db.funcs:
            if f.rec == self.rec and f.name == self.name: return f
    def win(self, c): return c.args[1], c.args[2], c.args[3], c.args[4], c.args[0]
    def modifies(self, c): return super().modifies(c)
    def start(self, ex):
        g = self.ghost = ex.region('blocks built', U32, IV(1), True, 'ghost', stable='built')
        ex.init[(g, ())] = IV(0)
    def apply(self, ex, st, f, vals, this, n):
        self.m = ex.rawget(st, self.ghost, ())
        r = super().apply(ex, st, f, vals, this, n)
        for lg in ex.modlog: lg.add((self.ghost, ()))
        st.mem[(self.ghost, ())] = add(self.m, IV(1))
        t = vals[0]
        ex.write_leaf(st, Loc(t.region, t.off, t.path, t.sub, None), Ptr(self.arena, OBJ(self.m)), n, False)
        return r
    def post(self, c):
        a, rows, cols, n, t = self.win(c)
        m = self.m
        o = OBJ(m)
        return [('g', z3.And(BASE(m) == a.off, NZ(m) == n, HROWS(m) == rows, HCOLS(m) == cols, o >= 0, o < self.arena.size, CALLOF(o) == m,
                             z3.Select(c.ex.rawget(c.s0, self.arena, ('nnz',)), o) == n, c.ret == z3.Select(BTA, m), c.ret >= 0, c.ret < KINDS))]
    def cells(self, c):
        a, rows, cols, n, t = self.win(c)
        m = self.m
        old = lambda k, p: z3.Select(c.arr(c.s0, a, p), k)
        return [('entries', a.off, add(a.off, n), lambda st, k: z3.And(AROW(m, k) == old(k, 'row'), ACOL(m, k) == old(k, 'col'), AVAL(m, k) == old(k, 'val')),
                 lambda st, k: [AROW(m, k), ACOL(m, k), AVAL(m, k)])]


class Divide(PartitionInit):
    """partition_init as a callee: the divisions are a new array"""
    done = None
    def modifies(self, c): return []
    def apply(self, ex, st, f, vals, this, n):
        A = vals[0]
        ct = ex.leaf_ct(A.region, tuple(A.path) + ('partition',)).to
        r = ex.region('divisions', ct, ex.rawget(st, A.region, tuple(A.path) + ('blockrows',)), False, 'new[]')
        r.allocated = 'new[]'
        ex.newalloc(st, r)
        ex.write_leaf(st, Loc(A.region, A.off, tuple(A.path) + ('partition',), None, None), Ptr(r, IV(0)), n, False)
        self.done = Ptr(r, IV(0))
        return super().apply(ex, st, f, vals, this, n)


class Counted(CountBlocks):
    def axioms(self, c): return []      # the caller has its own form of the definition


def divide(name):
    P = [p for p in PARTS if p.__name__ == 'PartitionInit_' + name][0]
    return type('Divide', (Divide,), {'sig': P.sig, 'nz': staticmethod(P.nz), 'pre_blocks': staticmethod(P.pre_blocks), 'label': P.label})()


class Build(Contract):
    """the division into blocks: sorted by block, one block per distinct identifier"""
    array_recs = ('BlockBase<', 'MatrixBlock<')
    lean = True
    def src(self, c): return c.args[0], c.args[3]
    def dims(self, c): return c.args[1], c.args[2]
    def bounds(self, c): return c.args[4], c.args[5], c.args[6], c.args[7]
    def obj(self, c): return c.this
    def prepare(self, c):
        c.g['R'], c.g['C'] = z3.Function('blockrow', IntS, IntS), z3.Function('blockcol', IntS, IntS)
        self.call.start(c.ex)
        self.part.done = None

    # ---- after the sort
    def sorted(self, c):
        a, n = self.src(c)
        s = [t for t in c.ex.sorts if t[0] is a.region]
        return s[-1] if s else None
    def S(self, c): return self.sorted(c)[6][('block',)]
    def srow(self, c, k): return z3.Select(self.sorted(c)[6][('row',)], k)
    def scol(self, c, k): return z3.Select(self.sorted(c)[6][('col',)], k)
    def sval(self, c, k): return z3.Select(self.sorted(c)[6][('val',)], k)
    def RB(self, c): return L.RDIV(self.S(c), self.bounds(c)[3])
    def CB(self, c): return L.RMOD(self.S(c), self.bounds(c)[3])
    def ET(self, c): return L.SVAL(self.S(c), BTA)
    def N(self, c): return L.CHG(self.S(c), self.src(c)[1])
    def slot(self, c, k): return z3.Select(L.SLOT(self.S(c)), k)
    def ro(self, c, k): return c.el(c.s0, self.bounds(c)[0], k)
    def co(self, c, k): return c.el(c.s0, self.bounds(c)[2], k)

    def pre(self, c):
        a, n = self.src(c)
        rows, cols = self.dims(c)
        ro, nr, co, nc = self.bounds(c)
        row = lambda k: c.el(c.s0, a, k, 'row')
        col = lambda k: c.el(c.s0, a, k, 'col')
        return ([('the array holds nnz entries', c.room(a, n)), ('the array starts at its pointer', a.off == 0)] + sorted_pre(c, ro, nr, 'row boundaries') + sorted_pre(c, co, nc, 'column boundaries')
                + [('row boundaries end at the rows', self.ro(c, nr) == rows), ('column boundaries end at the columns', self.co(c, nc) == cols),
                   ('no more block rows than rows', nr <= rows), ('no more block columns than columns', nc <= cols)]
                + locate_pre(c, ro, nr, c.g['R'], 'row boundaries') + locate_pre(c, co, nc, c.g['C'], 'column boundaries')
                + [('rows are valid', every(0, n, lambda k: row(k) < rows, row)), ('columns are valid', every(0, n, lambda k: col(k) < cols, col)),
                   ('block identifiers fit the index type', mk_imul(nr, nc) < 1 << 32), ('one more than the block rows fits the index type', nr < (1 << 32) - 1),
                   ('blocks are at most 2^16 high', small(self.ro, c, nr)), ('blocks are at most 2^16 wide', small(self.co, c, nc)),
                   ('blocks with entries have fewer than 2^32 cells', every(0, n, lambda k: mk_imul(self.ro(c, c.g['R'](row(k)) + 1) - self.ro(c, c.g['R'](row(k))),
                        self.co(c, c.g['C'](col(k)) + 1) - self.co(c, c.g['C'](col(k)))) < 1 << 32, lambda k: [row(k), col(k)]))]) + self.pre_more(c)
    def pre_more(self, c): return []

    def axioms(self, c): return L.lean() + L.chg_steps() + L.slot_def() + L.lem_chg() + L.run_defs()

    def lemmas(self, c, st):
        if self.sorted(c) is None: return []
        a, n = self.src(c)
        ro, nr, co, nc = self.bounds(c)
        S, RB, N, R, C = self.S(c), self.RB(c), self.N(c), c.g['R'], c.g['C']
        k, v, s, e, b, q = z3.Ints('k!l v!l s!l e!l b!l q!l')
        per = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N), NZ(q) == L.CNT(L.SLOT(S), n, q)), patterns=[NZ(q)])
        return [L.run_positions(S, n), L.run_order(S, n), L.inst_total(RB, N, nr), L.inst_zero(RB, N), L.inst_sorted(RB, N), L.inst_zero(L.SLOT(S), n), L.inst_total(L.SLOT(S), n, N),
                z3.ForAll([v], L.run_start(S, n, v), patterns=[L.CL(L.SLOT(S), n, L.CHG(S, v))]),
                z3.ForAll([k], L.quotient(z3.Select(S, k), R(self.srow(c, k)), C(self.scol(c, k)), nc), patterns=[z3.Select(S, k), self.srow(c, k)]),
                z3.Implies(per, z3.ForAll([s, e, b], z3.Implies(z3.And(s >= 0, s <= b, b < e, e <= N), ACC(s, e, b) + NZ(b) <= n), patterns=[ACC(s, e, b)]))]     # 'counted', below

    # ---- what is built
    def fld(self, c, st, nm): return ptr_field(c, st, self.obj(c), nm)
    def listed(self, c, st, q):
        b = self.fld(c, st, 'blocks')
        return c.el(st, b, q)
    def objects_ok(self, c, st, q): return z3.And(self.listed(c, st, q) == OBJ(q), CALLOF(OBJ(q)) == q, OBJ(q) >= 0, OBJ(q) < self.call.arena.size, z3.Select(c.ex.rawget(st, self.call.arena, ('nnz',)), OBJ(q)) == NZ(q))

    def cells(self, c):
        if self.sorted(c) is None: return []
        a, n = self.src(c)
        ro, nr, co, nc = self.bounds(c)
        S, RB, CB, N = self.S(c), self.RB(c), self.CB(c), self.N(c)
        R, C = c.g['R'], c.g['C']
        r, lo, hi, pi, inv, old, new, conds, stable = self.sorted(c)
        q = lambda k: self.slot(c, k)
        at = lambda k: [q(k)]
        K, Q, X = (IV(0), n), (IV(0), N), (IV(0), nr + 1)
        rbq, cbq = lambda k: z3.Select(RB, k), lambda k: z3.Select(CB, k)
        init = lambda w, p: z3.Select(c.arr(c.s0, a, p), w)
        out = [('position k lies in block slot[k]: the entry, made relative to the block', *K, lambda st, k: z3.And(
                    AROW(q(k), k) == self.srow(c, k) - self.ro(c, R(self.srow(c, k))), ACOL(q(k), k) == self.scol(c, k) - self.co(c, C(self.scol(c, k))), AVAL(q(k), k) == self.sval(c, k)), lambda st, k: at(k)),
               ('the block of an entry is in its block row and block column', *K, lambda st, k: z3.And(z3.Select(RB, q(k)) == R(self.srow(c, k)), z3.Select(CB, q(k)) == C(self.scol(c, k))), lambda st, k: at(k)),
               ('a block holds the positions of its run', *Q, lambda st, k: z3.And(BASE(k) == L.CL(L.SLOT(S), n, k), NZ(k) == L.CNT(L.SLOT(S), n, k)), lambda st, k: [NZ(k)]),
               ('a block is as high and wide as its block row and block column', *Q, lambda st, k: z3.And(HROWS(k) == self.ro(c, rbq(k) + 1) - self.ro(c, rbq(k)), HCOLS(k) == self.co(c, cbq(k) + 1) - self.co(c, cbq(k))), lambda st, k: [HROWS(k)]),
               ('blocks lie in the matrix', *Q, lambda st, k: z3.And(rbq(k) >= 0, rbq(k) < nr, cbq(k) >= 0, cbq(k) < nc), lambda st, k: [rbq(k)])]
        if self.has(c, c.s1, 'blockcol_ind'): out.append(('the block column is recorded', *Q, lambda st, k: c.el(st, self.fld(c, st, 'blockcol_ind'), k) == cbq(k), lambda st, k: [c.el(st, self.fld(c, st, 'blockcol_ind'), k)]))
        if self.has(c, c.s1, 'blocks'): out.append(('block k is the object that was built k-th', *Q, lambda st, k: self.objects_ok(c, st, k), lambda st, k: [self.listed(c, st, k)]))
        if self.has(c, c.s1, 'blockrow_ptr'): out.append(('blockrow_ptr[r] is the number of blocks in block rows before r', *X, lambda st, k: c.el(st, self.fld(c, st, 'blockrow_ptr'), k) == L.CL(RB, N, k), lambda st, k: [c.el(st, self.fld(c, st, 'blockrow_ptr'), k)]))
        out += self.cells_more(c)
        if c.s1 is None: return out + [('adjusted', *K, lambda st, k: z3.And(c.el(st, a, k, 'row') == self.srow(c, k) - self.ro(c, R(self.srow(c, k))), c.el(st, a, k, 'col') == self.scol(c, k) - self.co(c, C(self.scol(c, k)))),
                                        lambda st, k: [c.el(st, a, k, 'row'), c.el(st, a, k, 'col')])]
        return out + [('the entries are a permutation of those given', *K, lambda st, k: z3.And(pi(k) >= 0, pi(k) < n, inv(pi(k)) == k, inv(k) >= 0, inv(k) < n, pi(inv(k)) == k,
                            self.srow(c, k) == init(pi(k), 'row'), self.scol(c, k) == init(pi(k), 'col'), self.sval(c, k) == init(pi(k), 'val')), lambda st, k: at(k))]
    def cells_more(self, c): return []
    def has(self, c, st, nm):
        """the arrays exist while the loops over blocks run, and when the function returns"""
        return True

    def post(self, c):
        a, n = self.src(c)
        rows, cols = self.dims(c)
        ro, nr, co, nc = self.bounds(c)
        st, o = c.s1, self.obj(c)
        S, RB, N, R, C = self.S(c), self.RB(c), self.N(c), c.g['R'], c.g['C']
        j, k = z3.Ints('j!o k!o')
        f = lambda nm: c.fld(st, o, nm)
        rp = self.fld(c, st, 'blockrow_ptr')
        same = lambda p, q: z3.BoolVal(isinstance(p, Ptr) and p.region is q.region) if not isinstance(p, Ptr) or p.region is not q.region else p.off == q.off
        out = [('dimensions and count are recorded', z3.And(f('rows') == rows, f('columns') == cols, f('nnz') == n, f('blockrows') == nr, f('blockcols') == nc)),
               ('the boundaries are kept', z3.And(same(f('blockrow_offset'), ro), same(f('blockcol_offset'), co))),
               ('one block per nonempty block', f('nnzblocks') == N),
               ('entries of different blocks differ in block row or block column, in order', z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n, self.slot(c, j) != self.slot(c, k)),
                    lex(R(self.srow(c, j)), C(self.scol(c, j)), R(self.srow(c, k)), C(self.scol(c, k)))))),
               ('positions of a block are its range', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(self.slot(c, k) >= 0, self.slot(c, k) < N, L.CL(L.SLOT(S), n, self.slot(c, k)) <= k, k < L.CL(L.SLOT(S), n, self.slot(c, k) + 1))))),
               ('blockrow_ptr has blockrows+1 entries, from 0 to the number of blocks', z3.And(rp.off == 0, rp.region.size == nr + 1, c.el(st, rp, IV(0)) == 0, c.el(st, rp, nr) == N)),
               ('the lists hold one entry per block', z3.And(*[z3.And(p.off == 0, p.region.size == N) for p in (self.fld(c, st, 'blocks'), self.fld(c, st, 'blockcol_ind'))]))]
        if c.ret is not None: out.append(('returns 0', c.ret == 0))
        return out + self.post_more(c)
    def post_more(self, c): return []

    def prefixes(self, c):
        if self.sorted(c) is None: return []
        S, RB, N = self.S(c), self.RB(c), self.N(c)
        nr = self.bounds(c)[1]
        fresh = lambda r, p: (IV(0), IV(1)) if r.kind == 'new[]' and z3.is_true(z3.simplify(r.size == nr + 1)) else ()
        return [('runs', lambda k: L.CHG(S, k), 'count'), ('per row', lambda k, r: L.CNT(RB, k, r), 'cells', (IV(0),), fresh)] + self.prefixes_more(c)
    def prefixes_more(self, c): return []

    def extra_templates(self, c, ctx, M, Us):
        if self.sorted(c) is None: return []
        a, n = self.src(c)
        S = self.S(c)
        out = []
        k = z3.Int('k!i')
        for v in M:
            out.append(((ctx.key, 'a block begins at %s' % v.name), lambda st, v=v: L.boundary(S, n, v(st))))
            for u in Us:
                if '@' not in u.name or '#' in u.name: continue
                out.append(((ctx.key, 'one block from %s to %s' % (u.name, v.name)), lambda st, u=u, v=v: z3.ForAll([k], z3.Implies(z3.And(k >= u.ent, k < v(st)), z3.And(
                    z3.Select(S, k) == z3.Select(S, u.ent), self.slot(c, k) == L.CHG(S, u.ent))), patterns=[z3.Select(S, k), self.slot(c, k)])))
                out.append(((ctx.key, 'still block %s at %s' % (u.name, v.name)), lambda st, u=u, v=v: z3.Implies(v(st) > u.ent, z3.And(z3.Select(S, v(st) - 1) == z3.Select(S, u.ent), L.CHG(S, v(st)) == L.CHG(S, u.ent) + 1))))
                out += self.extra_pair(c, ctx, u, v, k)
        return out
    def extra_pair(self, c, ctx, u, v, k): return []

    def modifies(self, c): return [('any', self.obj(c)), ('win', self.src(c)[0], IV(0), self.src(c)[1])]
    def leaks(self, c): return [self.fld(c, c.s1, nm).region for nm in ('blocks', 'blockrow_ptr', 'blockcol_ind', 'partition')]


class Cgbr2Build(Build):
    """Cgbr2::create"""
    rec, name = 'Cgbr2<%s, unsigned short>' % F, 'create'
    label = 'Cgbr2::create'
    call = FactoryCall()
    part = divide('Cgbr2')
    helpers = [BlockId(), Counted(), call, part]
    def prepare(self, c):
        super().prepare(c)
        b = c.fld(c.s0, c.this, 'blocks')
        p = c.ex.rawget(c.s0, b.region, ())
        p.region.size = z3.Int('objects!size')
        self.call.arena = p.region
    def counts(self, c, st, nm): return c.fld(st, self.obj(c), nm, '[]')
    def prefixes_more(self, c): return [('per kind', lambda k, t: L.CNT(BTA, k, t), 'cells', (IV(0),), lambda r, p: (IV(0),) if r is self.obj(c).region else ())]
    def extra_pair(self, c, ctx, u, v, k):
        S = self.S(c)
        ET = self.ET(c)
        return [((ctx.key, 'kinds from %s to %s' % (u.name, v.name)), lambda st, u=u, v=v: z3.ForAll([k], L.CNT(ET, v(st), k) == L.CNT(ET, u.ent, k) + z3.If(k == z3.Select(BTA, L.CHG(S, u.ent)), v(st) - u.ent, 0), patterns=[L.CNT(ET, v(st), k)]))]
    def extra_templates(self, c, ctx, M, Us):
        out = Build.extra_templates(self, c, ctx, M, Us)
        if not out: return out
        ET = self.ET(c)
        k = z3.Int('k!i')
        for v in M:
            out.append(((ctx.key, 'entries per kind before %s' % v.name), lambda st, v=v: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < KINDS), z3.Select(self.counts(c, st, 'type_nnz_count'), k) == L.CNT(ET, v(st), k)),
                                                                                          patterns=[z3.Select(self.counts(c, st, 'type_nnz_count'), k)])))
        return out
    def post_more(self, c):
        a, n = self.src(c)
        d = c.fld(c.s1, self.obj(c), 'partition')
        T = [IV(t) for t in range(KINDS)]
        return [('the block rows are divided into chunks', z3.BoolVal(isinstance(d, Ptr) and self.part.done is not None and d.region is self.part.done.region)),
                ('blocks of each kind are counted', z3.And(*[z3.Select(self.counts(c, c.s1, 'type_block_count'), t) == L.CNT(BTA, self.N(c), t) for t in T])),
                ('entries in blocks of each kind are counted', z3.And(*[z3.Select(self.counts(c, c.s1, 'type_nnz_count'), t) == L.CNT(self.ET(c), n, t) for t in T]))]


class BlockCall(BlockCtor):
    """Coo_to_MatrixBlock, as its caller sees it"""
    name = 'Coo_to_MatrixBlock'
    label = 'Coo_to_MatrixBlock'
    sig = ('MatrixBlock<%s, unsigned short> *' % F, U, U, E, U)
    def win(self, c): return c.args[3], c.args[1], c.args[2], c.args[4], c.args[0]
    def start(self, ex):
        g = self.ghost = ex.region('blocks built', U32, IV(1), True, 'ghost', stable='built')
        ex.init[(g, ())] = IV(0)
    def modifies(self, c):
        t = c.args[0]
        return super().modifies(c) + [('win', t, IV(0), IV(1), p) for p in (('type',), ('matrix', 'coo', 'nnz'), ('matrix', 'csr', 'rows'))]
    def apply(self, ex, st, f, vals, this, n):
        self.m = ex.rawget(st, self.ghost, ())
        t = vals[0]
        # the row pointers of a compressed block: somewhere among the arrays of blocks
        key = (t.region, tuple(t.path) + ('matrix', 'csr', 'row_ptr'))
        old = ex.rawget(st, *key)
        if old.region.size is None: old.region.size = z3.Int('row pointers!size')
        offs = ex.fresh('rowptrs', old.offs.sort())
        k = z3.Int('k!w')
        st.assume(z3.ForAll([k], z3.Implies(k != t.off, z3.Select(offs, k) == z3.Select(old.offs, k)), patterns=[z3.Select(offs, k)]))
        for lg in ex.modlog: lg.add(key); lg.add((self.ghost, ()))
        st.mem[key] = PtrArr(old.region, offs)
        for p in ('rows', 'columns'): ex.havoc_key(st, (t.region, tuple(t.path) + ('matrix', 'dense', p)))
        r = super().apply(ex, st, f, vals, this, n)
        st.mem[(self.ghost, ())] = add(self.m, IV(1))
        return r
    def post(self, c):
        a, rows, cols, n, t = self.win(c)
        m = self.m
        g = lambda *p: c.fld(c.s1, t, *p)
        rp = g('matrix', 'csr', 'row_ptr')
        return [('g', z3.And(BASE(m) == a.off, NZ(m) == n, HROWS(m) == rows, HCOLS(m) == cols, OBJ(m) == t.off, c.ret == z3.Select(BTA, m), g('type') == c.ret, z3.Or(c.ret == COO, c.ret == CSR),
                             z3.Implies(c.ret == COO, g('matrix', 'coo', 'nnz') == n),
                             z3.Implies(c.ret == CSR, z3.And(rp.off >= 0, rp.off + g('matrix', 'csr', 'rows') < rp.region.size, z3.Select(c.ex.rawget(c.s1, rp.region, ()), rp.off + g('matrix', 'csr', 'rows')) == n))))]
    def cells(self, c):
        a, rows, cols, n, t = self.win(c)
        m = self.m
        old = lambda k, p: z3.Select(c.arr(c.s0, a, p), k)
        return [('entries', a.off, add(a.off, n), lambda st, k: z3.And(AROW(m, k) == old(k, 'row'), ACOL(m, k) == old(k, 'col'), AVAL(m, k) == old(k, 'val')),
                 lambda st, k: [AROW(m, k), ACOL(m, k), AVAL(m, k)])]


class Balanced(Contract):
    """Cgbr::is_balanced: reads what it may, changes nothing"""
    rec, name = 'Cgbr<%s, unsigned short>' % F, 'is_balanced'
    label = 'Cgbr::is_balanced'
    array_recs = ('MatrixBlock<',)
    def pre(self, c):
        A = c.this
        bp, ci, n, m = ptr_field(c, c.s0, A, 'blockrow_ptr'), ptr_field(c, c.s0, A, 'blockcol_ind'), c.fld(c.s0, A, 'blockrows'), c.fld(c.s0, A, 'nnzblocks')
        e = lambda k: c.el(c.s0, bp, k)
        return [('block row pointers', c.room(bp, n + 1)), ('block columns', c.room(ci, m)), ('fewer than 2^32 - 1 block rows', n < (1 << 32) - 1),
                ('block row pointers end by the number of blocks', every(0, n + 1, lambda k: e(k) <= m, e))] + pre_cgbr(c, A)
    def leaks(self, c): return []


class CgbrBuild(Build):
    """Coo_to_Cgbr(A, B, row boundaries, column boundaries)"""
    name = 'Coo_to_Cgbr'
    label = 'Coo_to_Cgbr<Cgbr>'
    sig = ('Cgbr<%s, unsigned short> *' % F, 'Coo3<%s> *' % F, 'unsigned int *', U, 'unsigned int *', U)
    call = BlockCall()
    part = divide('Cgbr')
    helpers = [BlockId(), Counted(), Balanced(), call, part]
    def src(self, c): return ptr_field(c, c.s0, c.args[1], 'elements'), c.fld(c.s0, c.args[1], 'nnz')
    def dims(self, c): return c.fld(c.s0, c.args[1], 'rows'), c.fld(c.s0, c.args[1], 'columns')
    def bounds(self, c): return c.args[2], c.args[3], c.args[4], c.args[5]
    def obj(self, c): return c.args[0]
    def objects_ok(self, c, st, q):
        kind = z3.Select(BTA, q)
        return z3.And(OBJ(q) == q, self.listed(c, st, q) == kind, z3.Or(kind == COO, kind == CSR))
    def cells_more(self, c):
        Q = (IV(0), self.N(c))
        def b(st): return self.fld(c, st, 'blocks')
        def nnz(st, q): return c.el(st, b(st), q, 'matrix', 'coo', 'nnz')
        def height(st, q): return c.el(st, b(st), q, 'matrix', 'csr', 'rows')
        def arrays(st): return c.ex.rawget(st, b(st).region, ('matrix', 'csr', 'row_ptr'))
        def compressed(st, q):
            rp = arrays(st)
            o, h = z3.Select(rp.offs, q), height(st, q)
            return z3.Implies(z3.Select(BTA, q) == CSR, z3.And(o >= 0, o + h < rp.region.size, z3.Select(c.ex.rawget(st, rp.region, ()), o + h) == NZ(q)))
        return [('a coordinate block counts its entries', *Q, lambda st, k: z3.Implies(z3.Select(BTA, k) == COO, nnz(st, k) == NZ(k)), lambda st, k: [nnz(st, k)]),
                ('a compressed block has row pointers, up to its entries', *Q, compressed, lambda st, k: [height(st, k), z3.Select(arrays(st).offs, k)])]
    def listed(self, c, st, q): return c.el(st, self.fld(c, st, 'blocks'), q, 'type')
    def counts(self, c, st, nm): return c.fld(st, self.obj(c), nm, '[]')
    prefixes_more, extra_pair, extra_templates = Cgbr2Build.prefixes_more, Cgbr2Build.extra_pair, Cgbr2Build.extra_templates
    def post_more(self, c):
        a, n = self.src(c)
        d = c.fld(c.s1, self.obj(c), 'partition')
        bal = c.fld(c.s1, self.obj(c), 'balanced')
        T = [IV(t) for t in range(KINDS)]
        mine = lambda p: z3.BoolVal(isinstance(p, Ptr) and self.part.done is not None and p.region is self.part.done.region)
        where = z3.If(d.c, mine(d.a), mine(d.b)) if isinstance(d, PtrChoice) else mine(d)
        return [('the block rows are divided into chunks unless they are balanced', z3.Or(bal, where)),
                ('blocks of each kind are counted', z3.And(*[z3.Select(self.counts(c, c.s1, 'type_block_count'), t) == L.CNT(BTA, self.N(c), t) for t in T])),
                ('entries in blocks of each kind are counted', z3.And(*[z3.Select(self.counts(c, c.s1, 'type_nnz_count'), t) == L.CNT(self.ET(c), n, t) for t in T]))]
    def leaks(self, c): return [self.fld(c, c.s1, nm).region for nm in ('blocks', 'blockrow_ptr', 'blockcol_ind')] + ([self.part.done.region] if self.part.done is not None else [])


def lemmas():
    """what is counted since the last division point is at most the entries of the blocks passed (induction on b)"""
    a = z3.Const('a', L.ArrI)
    n, s, e, b, thr, N, j, q = z3.Ints('n s e b thr N j q')
    per = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N), NZ(q) == L.CNT(a, n, q)), patterns=[NZ(q)])
    D = divisions(thr) + L.lean() + [per, n >= 0, s >= 0, e <= N]
    P = lambda b: ACC(s, e, b) <= L.CL(a, n, b) - L.CL(a, n, s)
    return [('counted/base', D + [s <= e], P(s)),
            ('counted/step', D + [s <= b, b < e, P(b), j == NUM(s, e, b) + NZ(b) + L.CL(a, n, b + 1)], P(b + 1)),
            ('counted', D + [s <= b, b < e, P(b), j == NZ(b) + L.CL(a, n, b + 1)], ACC(s, e, b) + NZ(b) <= n)]


ALL = [Cgbr2Build, Balanced, CgbrBuild]
