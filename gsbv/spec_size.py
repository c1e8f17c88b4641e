"""Contracts of uniform blocking and of the block size heuristic (C12)."""
import z3
from .core import *
from .astdb import BOOL
from .contract import Contract
from .speclib import *
from .templates import arrays
from .spec_bits import NextPow2, HighestU32

U, P = 'unsigned int', 'unsigned int *'


class Construct(Contract):
    """construction from given boundaries: what uniform blocking must hand over.
    The boundaries are the precondition; `req` holds the sizes asked for."""
    req = (None, None)
    def pre(self, c):
        A, B, ro, nr, co, nc = c.args
        out = []
        for what, off, n, dim, size in (('row', ro, nr, c.fld(c.s0, B, 'rows'), self.req[0]), ('column', co, nc, c.fld(c.s0, B, 'columns'), self.req[1])):
            e = lambda k, off=off: c.el(c.s0, off, k)
            last = dim - e(n - 1)
            out += [('there is a %s block and a boundary more than blocks' % what, z3.And(n >= 1, c.room(off, n + 1))),
                    ('%s boundaries start at 0' % what, e(IV(0)) == 0), ('%s boundaries end at the dimension' % what, e(n) == dim),
                    ('every %s block is nonempty' % what, every(0, n, lambda k: e(k) < e(k + 1), e)),
                    ('every %s block but the last has the requested size' % what, z3.Implies(n > 1, every(0, n - 1, lambda k: e(k + 1) == e(k) + size, e))),
                    ('the last %s block has at least the requested size, less than twice that' % what, z3.Implies(n > 1, z3.And(size <= last, last < 2 * size))),
                    ('a single %s block when nothing is requested or the dimension is smaller' % what, z3.Implies(z3.Or(size == 0, dim < size), n == 1)),
                    ('a single %s block of twice the requested size or more does not happen' % what, z3.Implies(z3.And(n == 1, size > 0), dim < 2 * size))]
        return out
    def modifies(self, c): return [('any', c.args[0])]
    def apply(self, ex, st, f, vals, this, n):
        r = super().apply(ex, st, f, vals, this, n)
        self.kept = [v.region for v in (vals[2], vals[4]) if isinstance(v, Ptr)]
        if 'Csbr' in self.sig[0]:
            ex.oblige(st, 'dealloc', z3.BoolVal(all(v.allocated == 'malloc' for v in self.kept)), n, 'the boundaries are obtained with malloc, as the release of the matrix expects')
        for lg in ex.modlog: lg.add((self.ghost, ()))
        st.mem[(self.ghost, ())] = z3.BoolVal(True)
        return r


class Uniform(Contract):
    """blocking with a constant block height and width"""
    def pre(self, c):
        A, B, br, bc = c.args
        self.helper.req = (br, bc)
        g = self.helper.ghost = c.ex.region('constructed', BOOL, IV(1), True, 'ghost', stable='constructed')
        c.ex.init[(g, ())] = z3.BoolVal(False)
        return [('the matrix has a row', c.fld(c.s0, B, 'rows') >= 1), ('the matrix has a column', c.fld(c.s0, B, 'columns') >= 1),
                ('the number of rows is below the largest index', c.fld(c.s0, B, 'rows') < (1 << 32) - 1),
                ('the number of columns is below the largest index', c.fld(c.s0, B, 'columns') < (1 << 32) - 1)]
    def modifies(self, c): return [('any', c.args[0])]
    def leaks(self, c): return getattr(self.helper, 'kept', [])
    def post(self, c): return [('the matrix is constructed from those boundaries', c.ex.rawget(c.s1, self.helper.ghost, ()))]
    def extra_templates(self, c, ctx, M, Us):
        """boundaries written so far are multiples of the size"""
        out = []
        k = z3.Int('k!i')
        for (nm, r, p, get, e) in arrays(ctx):
            if r.kind in ('param',) or z3.Select(e, 0).sort() != IntS: continue
            for i, s in ((2, c.args[2]), (3, c.args[3])):
                for v in M:
                    for o in (1, 0):
                        out.append(((ctx.key, '%s multiples of %d below %s+%d' % (nm, i, v.name, o)), lambda st, get=get, s=s, v=v, o=o: z3.ForAll(
                            [k], z3.Implies(z3.And(k >= 0, k < v(st) + o), z3.Select(get(st), k) == mk_imul(k, s)), patterns=[z3.Select(get(st), k)])))
        for v in M:
            for u in M:
                for i, s in ((2, c.args[2]), (3, c.args[3])):
                    if u is not v: out.append(((ctx.key, '%s is %s times %d' % (v.name, u.name, i)), lambda st, u=u, v=v, s=s: v(st) == mk_imul(u(st), s)))
        return out


def _mk():
    out, helpers = [], []
    seen = set()
    def one(name, A, B, target, helpername):
        a, b = A + ' *', B + '<float, unsigned int> *'
        h = type('Construct_' + A.split('<')[0] + B, (Construct,), {'name': helpername, 'sig': (a, b, P, U, P, U), 'label': '%s<%s,%s>(boundaries)' % (helpername, A, B)})()
        k = type('Uniform_%s_%s_%s' % (name, A.replace('<', '_').replace('>', '').replace(', ', '_').replace(' ', ''), B), (Uniform,),
                 {'name': name, 'sig': (a, b, U, U), 'label': '%s<%s,%s>(sizes)' % (name, A, B), 'helper': h, 'helpers': [h]})
        out.append(k)
    F = 'float, unsigned int'
    one('Coo_to_Csbr', 'Csbr<%s>' % F, 'Coo2', 0, 'Coo_to_Csbr')
    one('Coo_to_Csbr', 'Csbr<%s>' % F, 'Coo3', 0, 'Coo_to_Csbr')
    one('Coo_to_Blocked', 'Csbr<%s>' % F, 'Coo3', 0, 'Coo_to_Csbr')
    one('Coo_to_Csbr', 'Csbr2<%s>' % F, 'Coo3', 0, 'Coo_to_Csbr')
    for sit in ('unsigned int', 'unsigned short'):
        one('Coo_to_Cgbr', 'Cgbr<%s, %s>' % (F, sit), 'Coo3', 0, 'Coo_to_Cgbr')
    one('Coo_to_Cgbr', 'Cgbr2<%s, unsigned short>' % F, 'Coo3', 0, 'Coo_to_Cgbr')
    return out


class PickBlockSize(Contract):
    """the automatically chosen block size, over bit vectors"""
    name = 'pick_block_size'
    no_unroll = True
    helpers = [NextPow2(), HighestU32()]
    mode = 'bv'
    def wide(self, v, w=64): return z3.ZeroExt(w - v.size(), v) if v.size() < w else v
    def pre(self, c):
        m, n, vs, w = c.args
        B = lambda v, k: z3.BitVecVal(k, v.size())
        return [('1 to 2^31 rows', z3.And(z3.UGE(m, 1), z3.ULE(m, B(m, 1 << 31)))), ('1 to 2^31 columns', z3.And(z3.UGE(n, 1), z3.ULE(n, B(n, 1 << 31)))),
                ('values of 1 to 8 bytes', z3.And(z3.UGE(vs, 1), z3.ULE(vs, 8))), ('1 to 2^20 workers', z3.And(w >= 1, w <= 1 << 20))]
    def post(self, c):
        m, n, vs, w = c.args
        r = c.ret
        W = self.wide
        return [('0 or a power of two', r & (r - 1) == 0), ('smaller than both dimensions', z3.Or(r == 0, z3.And(z3.ULT(r, m), z3.ULT(r, n)))),
                ('a block\'s share of x and of y fits the cache limit', z3.ULE(W(r) * vs, 256 * 1024)),
                ('with several workers there are more than four block rows per worker', z3.Or(r == 0, w == 1, z3.And(*[z3.Implies(r == 1 << b, self.share(c, b)) for b in range(32)])))]
    def share(self, c, b):
        """4 * workers * 2^b < m"""
        m, n, vs, w = c.args
        return z3.ULT((self.wide(w) * 4) << b, self.wide(m))
    def leaks(self, c): return []
    def extra_templates(self, c, ctx, M, Us):
        ex = c.ex
        out = []
        V, F = [], []
        live = {l.region for l in ctx.env.values()}
        for (r, p), v in list(ctx.head.mem.items()):
            if isinstance(p, str) or not r.single or r not in live or not z3.is_bv(v) or v.size() != 32: continue
            (V if (r, p) in ctx.mods else F).append((r.stable + str(p), lambda st, r=r, p=p: ex.rawget(st, r, p), ex.rawget(ctx.entry, r, p)))
        V.sort(key=lambda v: v[0]); F.sort(key=lambda v: v[0])
        W = self.wide
        m, n, vs, w = c.args
        def t(nm, f): out.append(((ctx.key, nm), f))
        for nm, g, e in V:
            t(nm + ' not above entry', lambda st, g=g, e=e: z3.ULE(g(st), e))
            for b in (15, 31): t(nm + ' at most %d' % b, lambda st, g=g, b=b: z3.ULE(g(st), b))
            t(nm + ' workers', lambda st, g=g: z3.Or(w == 1, z3.And(z3.ULE(g(st), 31), *[z3.Implies(g(st) == b, self.share(c, b)) for b in range(32)])))
            for nm2, g2, e2 in V + F:
                if nm2 == nm: continue
                t(nm + ' <= ' + nm2, lambda st, g=g, g2=g2: z3.ULE(g(st), g2(st)))
                t(nm + ' >= ' + nm2, lambda st, g=g, g2=g2: z3.UGE(g(st), g2(st)))
                t(nm + ' + ' + nm2, lambda st, g=g, g2=g2, e=e, e2=e2: g(st) + g2(st) == e + e2)
                t(nm + ' within values times 2^' + nm2, lambda st, g=g, g2=g2: z3.ULE(W(g(st)), vs << W(g2(st))))
                t(nm + ' or ' + nm2, lambda st, g=g, g2=g2: z3.Or(z3.ULE(g(st), 15), z3.ULE(g2(st), 15)))
        return out


ALL = _mk() + [PickBlockSize]
HELPERS = []
