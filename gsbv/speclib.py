"""Shared vocabulary of the contracts."""
import z3
from .core import *
from .contract import Contract, Ctx

KS = z3.Int('k!s')
RS = z3.Int('r!s')
JS = z3.Int('j!s')


def sel(a, i): return z3.Select(a, i)


def forall(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)


def every(lo, hi, f, pat=None, name='k!q'):
    """for all lo <= k < hi: f(k); triggered on pat(k)"""
    k = z3.Int(name)
    p = pat(k) if pat is not None else None
    b = z3.Implies(z3.And(k >= lo, k < hi), f(k))
    if p is None: return z3.ForAll([k], b)
    return z3.ForAll([k], b, patterns=p if isinstance(p, list) else [p])


def rowsum_axioms(F, term, pats, name='k!s'):
    """F(0)=0, F(k+1)=F(k)+term(k)"""
    k = z3.Int(name)
    return [F(IV(0)) == 0, z3.ForAll([k], z3.Implies(k >= 0, F(k + 1) == F(k) + term(k)), patterns=pats(k))]


def cellsum_axioms(F, row, term, pats):
    """F(0,r)=0, F(k+1,r)=F(k,r)+(row(k)=r ? term(k) : 0)"""
    k, r, j = z3.Int('k!s'), z3.Int('r!s'), z3.Int('j!s')
    zero = z3.RealVal(0) if F.range() == RealS else IV(0)
    out = [z3.ForAll([r], F(IV(0), r) == zero, patterns=[F(IV(0), r)])]
    for p in pats(k):
        out.append(z3.ForAll([k, r, j], z3.Implies(k >= 0, F(k + 1, r) == F(k, r) + z3.If(row(k) == r, term(k), zero)),
                             patterns=[z3.MultiPattern(p, F(j, r))]))
    return out


def ptr_field(c, st, obj, name):
    p = c.fld(st, obj, name)
    if not isinstance(p, Ptr): raise Unsupported('%s is not an array' % name)
    return p


class SpmvMethod(Contract):
    """y += A x for a row-indexed storage: subclasses give rows() and the row sums"""
    name = 'spmv'
    serial = False

    def obj(self, c): return c.this
    def xy(self, c): return c.args[-2], c.args[-1]

    def xwin(self, c):
        x, y = self.xy(c)
        return x


class CsrLike(SpmvMethod):
    """CSR storage: row_ptr, and per entry (column, value)"""
    rp = 'row_ptr'
    def rowptr(self, c): return ptr_field(c, c.s0, self.obj(c), self.rp)
    def M(self, c): return c.fld(c.s0, self.obj(c), 'rows')
    def entry_arrays(self, c):
        o = self.obj(c)
        return [(ptr_field(c, c.s0, o, 'val'), ()), (ptr_field(c, c.s0, o, 'col_ind'), ())]
    def outrow(self, c, i): return i

    def prepare(self, c):
        c.s0 = c.s0
        c.g['S'] = z3.Function('rowsum', IntS, RealS)
        c.g['nnz'] = z3.Int('nnz!g')
        c.g['cols'] = z3.Int('cols!g')

    def pre(self, c):
        o = self.obj(c)
        x, y = self.xy(c)
        rp = self.rowptr(c)
        M, nnz, cols = self.M(c), c.g['nnz'], c.g['cols']
        (v, vp), (ci, cp) = self.entry_arrays(c)
        el = lambda k: c.el(c.s0, rp, k)
        col = lambda k: c.el(c.s0, ci, k, *cp)
        return [('%s has one entry more than there are rows' % self.rp, c.room(rp, M + 1)),
                ('values hold nnz entries', c.room(v, nnz)), ('columns hold nnz entries', c.room(ci, nnz)),
                ('x has as many entries as A has columns', c.room(x, cols)),
                ('y has room for every row', self.yroom(c, y, M)),
                ('row pointers increase', every(0, M, lambda k: el(k) <= el(k + 1), el)),
                ('row pointers start at zero or later', el(IV(0)) >= 0),
                ('row pointers end by nnz', every(0, M + 1, lambda k: z3.And(el(k) <= nnz, el(k) >= 0), el, 'k!q2')),
                ('column indices are valid', every(0, nnz, lambda k: z3.And(col(k) >= 0, col(k) < cols), col))]

    def yroom(self, c, y, M): return c.room(y, M)

    def axioms(self, c):
        x, y = self.xy(c)
        (v, vp), (ci, cp) = self.entry_arrays(c)
        return rowsum_axioms(c.g['S'], lambda k: mk_fmul(c.el(c.s0, v, k, *vp), c.el(c.s0, x, c.el(c.s0, ci, k, *cp))),
                             lambda k: [c.el(c.s0, v, k, *vp)])

    def prefixes(self, c): return [('S', c.g['S'], 'scalar')]
    def modifies(self, c):
        x, y = self.xy(c)
        return [('win', y, IV(0), self.M(c))]

    def cells(self, c):
        x, y = self.xy(c)
        rp = self.rowptr(c)
        S = c.g['S']
        el = lambda k: c.el(c.s0, rp, k)
        return [('every row of y grows by exactly its row of A x', IV(0), self.M(c),
                 lambda st, k: c.el(st, y, k) == c.el(c.s0, y, k) + (S(el(k + 1)) - S(el(k))), lambda st, k: [c.el(st, y, k)])]

    def index_arrays(self, c):
        rp = self.rowptr(c)
        return [(self.rp, lambda st, k: c.el(c.s0, rp, k))]

    def leaks(self, c): return []


class CooLike(SpmvMethod):
    """coordinate storage: entry k is (row, col, val)"""
    def arrays(self, c):
        """(row ptr, path), (col ptr, path), (val ptr, path)"""
    def nnz(self, c): return c.fld(c.s0, self.obj(c), 'nnz')

    def prepare(self, c):
        c.g['C'] = z3.Function('cellsum', IntS, IntS, RealS)
        c.g['rows'] = z3.Int('rows!g')
        c.g['cols'] = z3.Int('cols!g')

    def pre(self, c):
        x, y = self.xy(c)
        (r, rp), (ci, cp), (v, vp) = self.arrays(c)
        n, rows, cols = self.nnz(c), c.g['rows'], c.g['cols']
        row = lambda k: c.el(c.s0, r, k, *rp)
        col = lambda k: c.el(c.s0, ci, k, *cp)
        return [('rows hold nnz entries', c.room(r, n)), ('columns hold nnz entries', c.room(ci, n)), ('values hold nnz entries', c.room(v, n)),
                ('x has as many entries as A has columns', c.room(x, cols)), ('y has room for every row', c.room(y, rows)),
                ('row indices are valid', every(0, n, lambda k: z3.And(row(k) >= 0, row(k) < rows), row)),
                ('column indices are valid', every(0, n, lambda k: z3.And(col(k) >= 0, col(k) < cols), col))]

    def axioms(self, c):
        x, y = self.xy(c)
        (r, rp), (ci, cp), (v, vp) = self.arrays(c)
        row = lambda k: c.el(c.s0, r, k, *rp)
        return cellsum_axioms(c.g['C'], row, lambda k: mk_fmul(c.el(c.s0, v, k, *vp), c.el(c.s0, x, c.el(c.s0, ci, k, *cp))), lambda k: [row(k)])

    def prefixes(self, c): return [('C', c.g['C'], 'cells')]
    def modifies(self, c):
        x, y = self.xy(c)
        return [('win', y, IV(0), c.g['rows'])]

    def cells(self, c):
        x, y = self.xy(c)
        return [('every row of y grows by exactly its row of A x', IV(0), c.g['rows'],
                 lambda st, k: c.el(st, y, k) == c.el(c.s0, y, k) + c.g['C'](self.nnz(c), k), lambda st, k: [c.el(st, y, k)])]

    def leaks(self, c): return []


class DenseLike(SpmvMethod):
    def prepare(self, c):
        c.g['S'] = z3.Function('rowsum', IntS, IntS, RealS)

    def pre(self, c):
        x, y = self.xy(c)
        o = self.obj(c)
        v = ptr_field(c, c.s0, o, 'val')
        M, N = c.fld(c.s0, o, 'rows'), c.fld(c.s0, o, 'columns')
        return [('val holds rows*columns entries', c.room(v, mk_imul(M, N))), ('rows*columns fits the index type', mk_imul(M, N) < 1 << 32),
                ('x', c.room(x, N)), ('y', c.room(y, M))]

    def axioms(self, c):
        x, y = self.xy(c)
        o = self.obj(c)
        v = ptr_field(c, c.s0, o, 'val')
        N = c.fld(c.s0, o, 'columns')
        F = c.g['S']
        k, i, j = z3.Int('k!s'), z3.Int('r!s'), z3.Int('j!s')
        # F(j, i): sum of the first j products of row i
        step = F(j + 1, i) == F(j, i) + mk_fmul(c.el(c.s0, v, mk_imul(i, N) + j), c.el(c.s0, x, j))
        return [z3.ForAll([i], F(IV(0), i) == 0, patterns=[F(IV(0), i)]),
                z3.ForAll([j, i, k], z3.Implies(j >= 0, step), patterns=[z3.MultiPattern(c.el(c.s0, x, j), F(k, i))])]

    def prefixes(self, c): return [('S', c.g['S'], 'rowcells')]
    def modifies(self, c):
        return [('win', self.xy(c)[1], IV(0), c.fld(c.s0, self.obj(c), 'rows'))]

    def cells(self, c):
        x, y = self.xy(c)
        o = self.obj(c)
        M, N = c.fld(c.s0, o, 'rows'), c.fld(c.s0, o, 'columns')
        return [('every row of y grows by exactly its row of A x', IV(0), M,
                 lambda st, k: c.el(st, y, k) == c.el(c.s0, y, k) + c.g['S'](N, k), lambda st, k: [c.el(st, y, k)])]

    def leaks(self, c): return []


def live_offsets(ctx, region):
    """where the pointer variables in scope that the loop does not move point to inside region"""
    out, seen = [], set()
    mods = set(ctx.mods)
    for l in ctx.env.values():
        if not isinstance(l, Loc) or (l.region, l.path) in mods: continue
        v = ctx.head.mem.get((l.region, l.path))
        if isinstance(v, Ptr) and v.region is region and v.off.get_id() not in seen:
            seen.add(v.off.get_id())
            out.append(v.off)
    return out


def window_templates(c, ctx, M, y, F, bases, starts=(IV(0),), widths=()):
    """what the loop over v has added to y so far, y[q] growing by F(v, q - base)"""
    out = []
    get = lambda st: c.arr(st, y)
    e = get(ctx.entry)
    k = z3.Int('k!i')
    for b in bases:
        for w in widths:
            out.append(((ctx.key, 'only %s from %s' % (w, b)), lambda st, b=b, w=w: z3.ForAll([k], z3.Implies(
                z3.Or(k < b, k >= b + w), z3.Select(get(st), k) == z3.Select(e, k)), patterns=[z3.Select(get(st), k)])))
    for v in M:
        for b in bases:
            for s in starts:
                def f(st, v=v, b=b, s=s):
                    a = get(st)
                    return z3.ForAll([k], z3.Select(a, k) - F(add(v(st), s), sub(k, b)) == z3.Select(e, k) - F(add(v.ent, s), sub(k, b)), patterns=[z3.Select(a, k)])
                out.append(((ctx.key, 'sums of %s+%s from %s' % (v.name, s, b)), f))
    return out
