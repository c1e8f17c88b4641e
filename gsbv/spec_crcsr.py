"""Contracts of the compressed-nonempty-row constructors (C09)."""
import z3
from .core import *
from .speclib import *
from . import lemmas as L
from .spec_csr import CsrBuild, FromCoo, SF, permuted
from .spec_index import CountRowsT, CountRowsE


class CrCsrBuild(CsrBuild):
    """Coo_to_CrCsr(A, nonzeros, nnz): both sorts, the count and the 4-argument form inlined"""
    name = 'Coo_to_CrCsr'
    def names(self, c):
        a = c.args
        return a[0], a[1], IV(1 << 32), IV(1 << 32), a[2]
    def is_sorted(self, c): return z3.BoolVal(False)
    def allocate(self, c): return z3.BoolVal(True)
    def pre(self, c):
        A, src, rows, cols, n = self.names(c)
        return [('source holds nnz entries', c.room(src, n)), ('source pointer is the start of its array', src.off == 0), ('there is an entry', n >= 1),
                ('the number of entries fits the index type with one to spare', n < (1 << 32) - 1)]
    def axioms(self, c): return L.base() + L.slot_defs() + L.lem_chg()
    def cur(self, c, st):
        A, src, rows, cols, n = self.names(c)
        return c.arr(st, src, 'row')
    def cur_rows(self, c, st): return L.SLOT(self.cur(c, st))
    def nr(self, c, st): return c.fld(st, self.names(c)[0], 'nnz_rows')
    def runs(self, c, st): return L.CHG(self.cur(c, st), self.names(c)[4])
    def prefixes(self, c):
        def last(st, k): return z3.If(k < 1, IV(0), L.CHG(self.cur(c, st), k) - 1)
        return super().prefixes(c) + [('Last', SF(last), 'count')]
    def on_permute(self, ex, st, r, lo, hi, pi, inv, old, new, n):
        """a stable sort of what is sorted already changes nothing"""
        super().on_permute(ex, st, r, lo, hi, pi, inv, old, new, n)
        if r.kind != 'param' or len([s for s in ex.sorts if s[0] is r]) < 2: return
        j, k = z3.Ints('j!n k!n')
        g = z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k, k < hi), pi(j) < pi(k)))
        ex.oblige(st, 'lemma', g, n, 'sorting sorted entries keeps every pair in order')
        st.assume(L.incr_identity(pi, inv, lo, hi))
        a = [p for p in old if p[-1] == 'row'][0]
        st.assume(L.chg_ext(new[a], old[a], hi))
    def dims(self, c, st): return [('the number of nonempty rows is recorded', c.fld(st, self.names(c)[0], 'nnz_rows_num') == self.runs(c, st))]
    def lemmas(self, c, st):
        A, src, rows, cols, n = self.names(c)
        a = self.cur_rows(c, st)
        return [L.inst_zero(a, n), L.inst_total(a, n, self.runs(c, st)), L.inst_sorted(a, n), L.chg_runs(self.cur(c, st), n)]
    def cells(self, c):
        A, src, rows, cols, n = self.names(c)
        perm, rpk, ent = super().cells(c)
        el = lambda st, k: c.el(st, self.nr(c, st), k)
        R = lambda st: self.runs(c, st)
        return [perm, ('row_ptr[s] is the number of entries in listed rows before s', IV(0), n + 1, lambda st, k: z3.Implies(k <= R(st), rpk[3](st, k)), rpk[4]), ent,
                ('the row of entry k is listed', IV(0), n, lambda st, k: el(st, z3.Select(self.cur_rows(c, st), k)) == c.el(st, src, k, 'row'), lambda st, k: [c.el(st, src, k, 'row')]),
                ('listed rows increase', IV(1), n, lambda st, k: z3.Implies(k < R(st), el(st, k - 1) < el(st, k)), lambda st, k: [el(st, k)])]
    def post(self, c):
        A, src, rows, cols, n = self.names(c)
        st = c.s1
        rp, nr, R = self.rp(c, st), self.nr(c, st), self.runs(c, st)
        k = z3.Int('k!z')
        s = z3.Select(self.cur_rows(c, st), k)
        out = self.dims(c, st) + [
               ('row_ptr has an entry more than there are listed rows', z3.And(rp.off == 0, rp.region.size == R + 1, nr.off == 0, nr.region.size == R)),
               ('row_ptr starts at 0', c.el(st, rp, IV(0)) == 0), ('row_ptr ends at nnz', c.el(st, rp, R) == n),
               ('row_ptr strictly increases', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < R), z3.And(L.CNT(self.cur_rows(c, st), n, k) >= 1, c.el(st, rp, k) < c.el(st, rp, k + 1))))),
               ('every entry lies in the segment of its row', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(s >= 0, s < R, c.el(st, rp, s) <= k, k < c.el(st, rp, s + 1)))))]
        for p in self.dptrs(c, st): out.append(('arrays hold nnz entries', c.room(p, n)))
        return out
    def leaks(self, c): return super().leaks(c) + [self.nr(c, c.s1).region]
    def extra_templates(self, c, ctx, M, U):
        def first(st):
            try: return c.el(st, self.nr(c, st), IV(0)) == c.el(st, self.names(c)[1], IV(0), 'row')
            except Exception: return z3.BoolVal(True)
        return [('nnz_rows[0] is the first row', first)]


class CrFromCoo(CrCsrBuild):
    coofield = 'triplets'
    def names(self, c):
        A, B = c.args
        return A, ptr_field(c, c.s0, B, self.coofield), IV(1 << 32), IV(1 << 32), c.fld(c.s0, B, 'nnz')


def _mk():
    out = []
    A, U = 'CompRowCsr<float, unsigned int> *', 'unsigned int'
    for nz in ('Triplet',):
        out.append(type('From' + nz, (CrCsrBuild,), {'label': 'Coo_to_CrCsr<%s>' % nz, 'sig': (A, nz + '<float, unsigned int> *', U)}))
    for coo, fld in (('Coo2', 'triplets'), ('Coo3', 'elements')):
        out.append(type('From' + coo, (CrFromCoo,), {'coofield': fld, 'label': 'Coo_to_CrCsr<%s>' % coo, 'sig': (A, '%s<float, unsigned int> *' % coo)}))
    return out
HELPERS = [CountRowsT, CountRowsE]
ALL = _mk()
