"""Contract of the default block factory (C11): whichever kind it picks, the block is built from exactly the entries it is given."""
import z3
from .core import *
from .contract import Contract
from .speclib import *
from .spec_build import BlockCtor, E, U
from . import spec_csr, spec_dense
from .spec_blocks import CooCtor, CsrSerialCtor, CsrParallelCtor, DenseParallelCtor, BlockCooBuild

F = 'float, unsigned int'
CLASS = {0: 'Coo<%s, unsigned short>' % F, 1: 'BlockCsrSerial<%s, unsigned short>' % F, 2: 'DenseParallel<%s>' % F, 4: 'BlockCsrParallel<%s, unsigned short>' % F}

BlockCsr = [C for C in spec_csr.ALL if C.__name__ == 'BlockCsr_default'][0]
BlockDense = [C for C in spec_dense.ALL if C.label == 'Coo_to_Dense<BlockDense,Element>'][0]


def built(C):
    """the constructor of a block as a callee: the object holds what its contract says; the arguments are noted"""
    class Built(C):
        def modifies(self, c): return [m for m in super().modifies(c) if m[0] != 'any']
        def axioms(self, c): return []
        def lemmas(self, c, st): return []
        def cells(self, c): return []
        def post(self, c):
            c.this.region.built_by = (C.name, c.args, {p: c.ex.rawget(c.s0, c.args[0].region, (p,)) for p in ('row', 'col', 'val')})
            return [('the entry count is recorded', c.fld(c.s1, c.this, 'nnz') == c.args[-1])]
    Built.__name__ = 'Built' + C.__name__
    return Built()


class FactoryDefault(BlockCtor):
    """BlockFactoryDefault::create"""
    rec, name = 'BlockFactoryDefault<%s, unsigned short>' % F, 'create'
    label = 'BlockFactoryDefault::create'
    split_returns = True
    helpers = [built(C) for C in (CooCtor, CsrSerialCtor, CsrParallelCtor, DenseParallelCtor)]
    def win(self, c): return c.args[1], c.args[2], c.args[3], c.args[4], c.args[0]
    def prepare(self, c):
        # the target is one pointer, not an array of them
        r = c.args[0].region
        r.single, r.size = True, IV(1)
    def pre(self, c):
        a, rows, cols, n, t = self.win(c)
        row, col = [z3.Select(c.arr(c.s0, a, p), a.off) for p in ('row', 'col')]
        # the second is the case k = 0 of what is required of every entry
        return super().pre(c) + [('the first entry lies in the block', z3.And(row < rows, col < cols))]
    def modifies(self, c): return [('win', c.args[1], IV(0), c.args[4]), ('any', c.args[0])]
    def target(self, c): return c.ex.rawget(c.s1, c.args[0].region, ())
    def post(self, c):
        p = self.target(c)
        a, rows, cols, n, t = self.win(c)
        if not isinstance(p, Ptr) or p.region not in c.ex.allocs: return [('the target points to a new object', z3.BoolVal(False))]
        by = getattr(p.region, 'built_by', None)
        cls = p.region.elem.name
        if by is None: return [('the object is built by a constructor of blocks', z3.BoolVal(False))]
        out = [('the returned kind is that of the object', z3.Or(*[c.ret == k for k, v in CLASS.items() if v == cls])),
               ('the object is the whole of an allocation', z3.And(p.off == 0, z3.BoolVal(p.region.allocated == 'new' and not p.path))),
               ('the object counts the entries', c.fld(c.s1, p, 'nnz') == n)]
        nm, args, at = by
        src = args[0]
        out.append(('the object is built from the entries given', z3.And(z3.BoolVal(src.region is a.region), src.off == a.off, args[-1] == n)))
        if len(args) == 4: out.append(('and has the height and width given', z3.And(args[1] == rows, args[2] == cols)))
        j = z3.Int('k!o')
        for p_, arr in at.items():
            out.append(('the %ss are unchanged until then' % p_, z3.ForAll([j], z3.Implies(z3.And(j >= a.off, j < a.off + n), z3.Select(arr, j) == z3.Select(c.arr(c.s0, a, p_), j)))))
        return out
    def leaks(self, c):
        p = self.target(c)
        return [p.region] if isinstance(p, Ptr) else []


# ---- the blocks of Cgbr: a tagged union
MEMBER = {'coo': 0, 'csr': 1, 'dense': 2}


def into(C, member):
    """a construction of a block as a callee of Coo_to_MatrixBlock: it fills one member of the union"""
    class Into(C):
        def outer(self, c): return c.ex.cfg
        def modifies(self, c): return [m for m in super().modifies(c) if m[0] != 'any']
        def axioms(self, c): return []
        def lemmas(self, c, st): return []
        def cells(self, c): return []
        def post(self, c): return []
        def pre(self, c):
            o = c.ex.cfg.c0
            A, src, rows, cols, n = o.args[0], o.args[3], o.args[1], o.args[2], o.args[4]
            a = c.args
            dst, mine = a[0], a[1]
            out = super().pre(c) + [('this fills the %s member of the block' % member, z3.BoolVal(dst.region is A.region and tuple(dst.path) == tuple(A.path) + ('matrix', member))),
                   ('from the entries given', z3.And(z3.BoolVal(mine.region is src.region), mine.off == src.off, a[4 if len(a) > 3 else 2] == n)),
                   ('and nothing was built before', c.ex.rawget(c.s0, self.ghost, ()) == -1)]
            if len(a) > 3: out.append(('with the height and width given', z3.And(a[2] == rows, a[3] == cols)))
            j = z3.Int('j!o')
            for p in ('row', 'col', 'val'):
                out.append(('the %ss are unchanged until then' % p, z3.ForAll([j], z3.Implies(z3.And(j >= src.off, j < src.off + n), z3.Select(c.arr(c.s0, src, p), j) == z3.Select(c.arr(o.s0, src, p), j)))))
            return out
        def apply(self, ex, st, f, vals, this, n):
            r = super().apply(ex, st, f, vals, this, n)
            for lg in ex.modlog: lg.add((self.ghost, ()))
            st.mem[(self.ghost, ())] = IV(MEMBER[member])
            return r
    Into.__name__ = 'Into' + C.__name__
    return Into()


class MatrixBlockBuild(BlockCtor):
    """Coo_to_MatrixBlock"""
    name = 'Coo_to_MatrixBlock'
    label = 'Coo_to_MatrixBlock'
    sig = ('MatrixBlock<%s, unsigned short> *' % F, U, U, E, U)
    helpers = [into(BlockCooBuild, 'coo'), into(BlockCsr, 'csr'), into(BlockDense, 'dense')]
    def win(self, c): return c.args[3], c.args[1], c.args[2], c.args[4], c.args[0]
    def prepare(self, c):
        g = c.ex.region('member filled', U32, IV(1), True, 'ghost', stable='built')
        c.ex.init[(g, ())] = IV(-1)
        for h in self.helpers: h.ghost = g
    def pre(self, c):
        a, rows, cols, n, t = self.win(c)
        row, col = [z3.Select(c.arr(c.s0, a, p), a.off) for p in ('row', 'col')]
        return super().pre(c) + [('the first entry lies in the block', z3.And(row < rows, col < cols))]
    def modifies(self, c): return [('win', c.args[3], IV(0), c.args[4]), ('any', c.args[0])]
    def post(self, c):
        g = self.helpers[0].ghost
        return [('the recorded and returned type is the member filled', z3.And(c.ret == c.fld(c.s1, c.args[0], 'type'), c.ex.rawget(c.s1, g, ()) == c.ret)),
                ('one member is filled, not the dense one', z3.Or(c.ret == MEMBER['coo'], c.ret == MEMBER['csr']))]
    def leaks(self, c): return []


ALL = [FactoryDefault, MatrixBlockBuild]
