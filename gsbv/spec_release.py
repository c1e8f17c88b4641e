"""Contracts of releasing a matrix: every array it owns is released exactly once, by the call
that matches its allocation, and nothing else is (C21)."""
import z3
from .core import *
from .contract import Contract
from .exec import Obligation
from .speclib import *

F = 'float, unsigned int'
S = F + ', unsigned short'


class Release(Contract):
    """owned: (member, how it was obtained)"""
    name = 'release'
    owned = ()
    destroyed = False            # the object's destructor releases the same members
    def obj(self, c): return c.args[0]
    def member(self, c, m):
        o = self.obj(c)
        return o.leaves[(m,)] if isinstance(o, StructVal) else c.fld(c.s0, o, m)
    def arrays(self, c): return [(self.member(c, m), m, kind) for m, kind in self.owned]
    def prepare(self, c):
        for p, m, kind in self.arrays(c) + self.extra(c):
            if getattr(p.region, 'allocated', None) is None: p.region.allocated = kind
    maybe = None                 # released unless the matrix is balanced
    def modifies(self, c):
        o = self.obj(c)
        return [('free', p, kind) for p, m, kind in self.arrays(c) + self.extra(c)] + ([] if isinstance(o, StructVal) else [('leaf', o, (m,)) for m, _ in self.owned])
    def extra(self, c): return [(self.member(c, self.maybe), self.maybe, 'new[]')] if self.maybe else []
    def leaks(self, c): return []
    def check_post(self, c, st):
        super().check_post(c, st)
        for p, m, kind in self.arrays(c):
            c.ex.obs.append(Obligation('leak', c.ex.curfunc, c.f.where(), list(st.pc), st.mem.get((p.region, '#freed'), z3.BoolVal(False)), 'the array %s is released' % m))
        for p, m, kind in self.extra(c):
            fr = st.mem.get((p.region, '#freed'), z3.BoolVal(False))
            c.ex.obs.append(Obligation('leak', c.ex.curfunc, c.f.where(), list(st.pc), fr == z3.Not(c.fld(c.s0, self.obj(c), 'balanced')), 'the array %s is released unless the matrix is balanced' % m))
        for p, m, kind in self.arrays(c):
            if self.destroyed:
                q = c.fld(st, self.obj(c), m)
                c.ex.obs.append(Obligation('release', c.ex.curfunc, c.f.where(), list(st.pc), z3.BoolVal(isinstance(q, Ptr) and q.region is None), 'the destructor will not release %s again' % m))


class Destroy(Release):
    def obj(self, c): return c.this


def _mk():
    out = []
    def rel(cls, sig, *members, kind='new[]', **kw):
        out.append(type(cls, (Release,), dict(sig=(sig,), owned=[(m, kind) for m in members], label='release<%s>' % sig.rstrip(' &*'), **kw)))
    rel('RelCoo', 'Coo<%s> &' % (F + ', unsigned int'), 'I', 'J', 'val', destroyed=True)
    rel('RelCoo2', 'Coo2<%s> &' % F, 'triplets')
    rel('RelCoo3', 'Coo3<%s> &' % F, 'elements')
    rel('RelCsr', 'Csr<%s> &' % F, 'val', 'row_ptr', 'col_ind')
    rel('RelCsr2', 'Csr2<%s> &' % F, 'row_ptr', 'data')
    rel('RelCrCsr', 'CompRowCsr<%s> &' % F, 'nnz_rows', 'row_ptr', 'col_ind', 'val')
    rel('RelCswr', 'Cswr<%s, unsigned char>' % F, 'val', 'row', 'col', 'wrow_ptr')
    rel('RelBlockCoo', 'BlockCoo<%s>' % S, 'I', 'J', 'val')
    rel('RelBlockCoo2', 'BlockCoo2<%s>' % S, 'triplets')
    rel('RelBlockCsr', 'BlockCsr<%s>' % S, 'val', 'row_ptr', 'col_ind')
    rel('RelDense', 'BlockDense<%s> &' % F, 'val')
    for cls, rec, members in (('DelCoo', 'Coo<%s>' % S, ('I', 'J', 'val')), ('DelCsrSerial', 'BlockCsrSerial<%s>' % S, ('row_ptr', 'col_ind', 'val')), ('DelDenseSerial', 'DenseSerial<%s>' % F, ('val',))):
        out.append(type(cls, (Destroy,), dict(rec=rec, name='~' + rec.split('<')[0], owned=[(m, 'new[]') for m in members], label='%s::~%s' % (rec, rec.split('<')[0]))))
    return out


class ReleaseBlocks(Release):
    """a blocked matrix: the arrays of the matrix and, for each block, its own.
    families: (member that lists the blocks, path of the pointer, how obtained, kind of block that has it or None)"""
    families = ()
    same = None                 # boundaries: None (not owned), True (one array for both), False (two)
    @property
    def owned(self): return self.fixed_owned + ([('blockrow_offset', 'malloc')] + ([] if self.same else [('blockcol_offset', 'malloc')]) if self.same is not None else [])
    def prepare(self, c):
        o = self.obj(c)
        if self.same: c.ex.init[(o.region, tuple(o.path) + ('blockcol_offset',))] = c.fld(c.s0, o, 'blockrow_offset')
        super().prepare(c)
        c.g['fam'] = []
        n = c.fld(c.s0, o, 'nnzblocks')
        for i, (m, path, kind, t) in enumerate(self.families):
            b = c.fld(c.s0, o, m)
            pa = c.ex.rawget(c.s0, b.region, path)
            inv = z3.Function('block_of_%d' % i, IntS, IntS)
            at = lambda k, pa=pa, b=b: z3.Select(pa.offs, add(b.off, k))
            has = lambda k, b=b, t=t: z3.BoolVal(True) if t is None else z3.Select(c.ex.rawget(c.s0, b.region, ('type',)), add(b.off, k)) == t
            pa.region.allocated = kind
            pa.region.windows = lambda off, inv=inv, at=at, has=has: z3.And(inv(off) >= 0, inv(off) < n, has(inv(off)), at(inv(off)) == off)
            c.g['fam'].append((pa.region, at, has, inv, '.'.join((m,) + path)))
    def modifies(self, c):
        b = lambda m: c.fld(c.s0, self.obj(c), m)
        return super().modifies(c) + [('leaf', b(m), path) for m, path, _, _ in self.families]
    def pre(self, c):
        o = self.obj(c)
        n = c.fld(c.s0, o, 'nnzblocks')
        out = []
        for m in {f[0] for f in self.families}:
            b = c.fld(c.s0, o, m)
            out.append(('as many blocks as recorded', c.room(b, n)))
            if any(f[3] is not None for f in self.families):
                ty = c.ex.rawget(c.s0, b.region, ('type',))
                e = lambda k: z3.Select(ty, add(b.off, k))
                out.append(('every block has a kind', every(0, n, lambda k: z3.And(e(k) >= 0, e(k) <= 2), e)))
        for r, at, has, inv, nm in c.g['fam']:
            out.append(('each block has its own ' + nm, every(0, n, lambda k: z3.Implies(has(k), inv(at(k)) == k), at)))
        return out
    def freed(self, st, r): return st.mem.get((r, '#wfreed'), z3.K(IntS, z3.BoolVal(False)))
    def cells(self, c):
        n = c.fld(c.s0, self.obj(c), 'nnzblocks')
        return [('%s of every block is released' % nm, IV(0), n, lambda st, k, r=r, at=at, has=has: z3.Implies(has(k), z3.Select(self.freed(st, r), at(k))), lambda st, k, at=at: [at(k)])
                for r, at, has, inv, nm in c.g['fam']]
    def extra_templates(self, c, ctx, M, U):
        out = []
        o = z3.Int('o!i')
        for v in M:
            for r, at, has, inv, nm in c.g['fam']:
                def pats(st, r=r, inv=inv):
                    f = self.freed(st, r)
                    return [z3.Select(f, o)] if z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED else [inv(o)]
                n = c.fld(c.s0, self.obj(c), 'nnzblocks')
                out.append(((ctx.key, '%s released only before %s' % (nm, v.name)), lambda st, v=v, r=r, inv=inv, pats=pats: z3.ForAll([o], z3.Implies(
                    z3.Select(self.freed(st, r), o), z3.And(inv(o) >= 0, inv(o) < v(st))), patterns=pats(st))))
                out.append(((ctx.key, '%s released only from %s' % (nm, v.name)), lambda st, v=v, r=r, inv=inv, pats=pats: z3.ForAll([o], z3.Implies(
                    z3.Select(self.freed(st, r), o), z3.And(inv(o) >= v(st), inv(o) < n)), patterns=pats(st))))
        return out


def _mkb():
    out = []
    K = ('Csr<', 'MatrixBlock<', 'BlockBase<')
    def rel(cls, A, owned, families, boundaries, **kw):
        for same in ((False, True) if boundaries else (None,)):
            out.append(type(cls + ('Same' if same else ''), (ReleaseBlocks,), dict(sig=(A + ' &',), fixed_owned=owned, families=families, same=same, array_recs=K, postkind='leak',
                            label='release<%s>%s' % (A, ' (one array of boundaries)' if same else ''), **kw)))
    m = lambda *names: [(n, 'malloc') for n in names]
    w = lambda *names: [(n, 'new[]') for n in names]
    rel('RelCsbr', 'Csbr<%s>' % F, m('blockcol_ind', 'blocks', 'blockrow_ptr', 'col_ind', 'val') + w('partition'), [('blocks', ('row_ptr',), 'new[]', None)], True)
    rel('RelCsbr2', 'Csbr2<%s>' % F, m('blockrow_ptr', 'row_ptr', 'col_ind', 'val'), [('row_ptr', (), 'malloc', None)], True)
    for s in ('int', 'short'):
        fam = [('blocks', ('matrix', k, a), 'new[]', t) for t, k, ms in ((0, 'coo', ('I', 'J', 'val')), (1, 'csr', ('val', 'row_ptr', 'col_ind')), (2, 'dense', ('val',))) for a in ms]
        rel('RelCgbr' + ('4' if s == 'int' else ''), 'Cgbr<%s, unsigned %s>' % (F, s), w('blocks', 'blockrow_ptr', 'blockcol_ind'), fam, False, maybe='partition')
    rel('RelCgbr2', 'Cgbr2<%s, unsigned short>' % F, w('blocks', 'blockrow_ptr', 'blockcol_ind', 'partition'), [('blocks', (), 'new', None)], False)
    return out


ALL = _mk() + _mkb()
