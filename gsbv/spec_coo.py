"""Contracts of the coordinate storages: conversions and element access."""
import z3
from .core import *
from .contract import Contract
from .speclib import *

FIELDS = ('row', 'col', 'val')
DST = {  # storage -> (record, {entry field: (array field, path)})
    'Coo': ('Coo<float, unsigned int, unsigned int>', {'row': ('I', ()), 'col': ('J', ()), 'val': ('val', ())}),
    'Coo2': ('Coo2<float, unsigned int>', {f: ('triplets', (f,)) for f in FIELDS}),
    'Coo3': ('Coo3<float, unsigned int>', {f: ('elements', (f,)) for f in FIELDS}),
    'BlockCoo': ('BlockCoo<float, unsigned int, unsigned short>', {'row': ('I', ()), 'col': ('J', ()), 'val': ('val', ())}),
    'BlockCoo2': ('BlockCoo2<float, unsigned int, unsigned short>', {f: ('triplets', (f,)) for f in FIELDS}),
}


class Convert(Contract):
    """Coo_to_Coo(A, source...): the same entries in the same order"""
    name = 'Coo_to_Coo'
    dst = 'Coo'

    def dest(self, c, st, f):
        """(array, path) of an entry field of the destination"""
        a, p = DST[self.dst][1][f]
        return c.fld(st, c.args[0], a), p
    def dest_el(self, c, st, k, f):
        a, p = self.dest(c, st, f)
        return c.el(st, a, k, *p)
    def source(self, c): raise NotImplementedError    # {f: (ptr, path)}, rows, cols, nnz

    def pre(self, c):
        S, rows, cols, n = self.source(c)
        return [('the source holds nnz entries (%s)' % f, c.room(p, n)) for f, (p, _) in S.items()]

    def modifies(self, c): return [('any', c.args[0])]

    def cells(self, c):
        S, rows, cols, n = self.source(c)
        def P(st, k): return z3.And(*[self.dest_el(c, st, k, f) == c.el(c.s0, S[f][0], k, *S[f][1]) for f in FIELDS])
        return [('entry k of the result is entry k of the source', IV(0), n, P, lambda st, k: [self.dest_el(c, st, k, f) for f in FIELDS])]

    def post(self, c):
        S, rows, cols, n = self.source(c)
        st = c.s1
        A = c.args[0]
        out = [('dimensions are recorded', z3.And(c.fld(st, A, 'rows') == rows, c.fld(st, A, 'columns') == cols)),
               ('the entry count is recorded', c.fld(st, A, 'nnz') == n), ('returns 0', c.ret == 0)]
        for f in FIELDS:
            p, _ = self.dest(c, st, f)
            out.append(('the array of %s holds exactly nnz entries' % f, z3.And(p.off == 0, p.region.size == n)))
            for g, (q, _) in S.items():
                if q.region is p.region: out.append(('the result has arrays of its own', z3.BoolVal(False)))
        return out

    def leaks(self, c): return [self.dest(c, c.s1, f)[0].region for f in FIELDS]


class FromMatrix(Convert):
    src = 'Coo2'
    def source(self, c):
        B = c.args[1]
        return ({f: (ptr_field(c, c.s0, B, a), p) for f, (a, p) in DST[self.src][1].items()},
                c.fld(c.s0, B, 'rows'), c.fld(c.s0, B, 'columns'), c.fld(c.s0, B, 'nnz'))
class FromArrays(Convert):
    def source(self, c):
        A, v, I, J, r, cc, n = c.args
        return {'row': (I, ()), 'col': (J, ()), 'val': (v, ())}, r, cc, n
class FromEntries(Convert):
    def source(self, c):
        A, e, r, cc, n = c.args
        return {f: (e, (f,)) for f in FIELDS}, r, cc, n


class Get(Contract):
    """element access: reads one field of one entry"""
    store, field = 'Coo', 'row'
    def where(self, c):
        a, p = DST[self.store][1][self.field]
        return ptr_field(c, c.s0, c.this, a), p
    def pre(self, c):
        p, path = self.where(c)
        return [('the index is one of the entries', z3.And(c.room(p, c.fld(c.s0, c.this, 'nnz')), c.args[0] >= 0, c.args[0] < c.fld(c.s0, c.this, 'nnz')))]
    def post(self, c):
        p, path = self.where(c)
        return [('returns the %s of that entry' % self.field, c.ret == c.el(c.s1, p, c.args[0], *path))]
class Nonzeros(Contract):
    name = 'nonzeros'
    def value(self, c): return c.fld(c.s0, c.this, 'nnz')
    def post(self, c): return [('returns the number of entries', c.ret == self.value(c))]
class Set(Get):
    def pre(self, c):
        return super().pre(c) + ([('the value fits the index type', c.args[1] < (1 << 16 if self.store == 'BlockCoo' else 1 << 32))] if self.field != 'val' else [])
    def modifies(self, c):
        p, path = self.where(c)
        return [('win', p, c.args[0], c.args[0] + 1, path)]
    def post(self, c):
        p, path = self.where(c)
        return [('the %s of that entry is the given one' % self.field, c.el(c.s1, p, c.args[0], *path) == c.args[1])]


def _mk():
    out = []
    for d, s in (('Coo', 'Coo2'), ('Coo', 'Coo3'), ('Coo2', 'Coo3'), ('Coo3', 'Coo2')):
        out.append(type('%s_from_%s' % (d, s), (FromMatrix,), {'dst': d, 'src': s, 'label': 'Coo_to_Coo<%s,%s>' % (d, s), 'sig': (DST[d][0] + ' *', DST[s][0] + ' *')}))
    for d in ('Coo', 'Coo2', 'Coo3'):
        out.append(type('%s_from_arrays' % d, (FromArrays,), {'dst': d, 'label': 'Coo_to_Coo<%s,arrays>' % d,
                   'sig': (DST[d][0] + ' *', 'float *', 'unsigned int *', 'unsigned int *', 'unsigned int', 'unsigned int', 'unsigned int')}))
    for d, e in (('Coo', 'Triplet'), ('Coo', 'Element'), ('Coo2', 'Element')):
        out.append(type('%s_from_%s' % (d, e), (FromEntries,), {'dst': d, 'label': 'Coo_to_Coo<%s,%s>' % (d, e),
                   'sig': (DST[d][0] + ' *', '%s<float, unsigned int> *' % e, 'unsigned int', 'unsigned int', 'unsigned int')}))
    for d in ('Coo', 'Coo2', 'Coo3', 'BlockCoo'):
        for f, nm in (('row', 'row_index'), ('col', 'column_index'), ('val', 'value')):
            out.append(type('%s_get_%s' % (d, f), (Get,), {'store': d, 'field': f, 'rec': DST[d][0], 'name': 'get_' + nm}))
            out.append(type('%s_set_%s' % (d, f), (Set,), {'store': d, 'field': f, 'rec': DST[d][0], 'name': 'set_' + nm}))
        out.append(type(d + '_nonzeros', (Nonzeros,), {'rec': DST[d][0] if d != 'Coo' else 'BlockBase<float, unsigned int>', 'label': d + '::nonzeros'}))
    return out
ALL = _mk()
