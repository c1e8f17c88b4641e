"""Contracts of the binary files (C18, C20): what is written is the documented sequence of numbers, and what is read is what the file holds."""
import z3
from .core import *
from .contract import Contract
from .speclib import *
from .spec_coo import DST as _DST, FIELDS
from . import files as F
from . import lemmas as L

DST = dict(_DST)
UINT, REAL, REAL8 = 4, 104, 108
CH = 'const char *'
for _s in ('Coo2', 'Coo3'):                # the same storages with values of another size than the indices
    DST[_s + 'd'] = (DST[_s][0].replace('float', 'double'), DST[_s][1])


class IO(Contract):
    split_returns = True
    modes = {}                              # parameter -> 'r' / 'w'
    store = 'Coo2'
    real = REAL                             # type of the values in a file
    def prepare(self, c):
        F.install(c.ex)
        self.files = [F.File(c.ex, i, m) for i, m in self.modes.items()]
        self.by = {f.i: f for f in self.files}
    def matrix(self, c): return c.args[0]
    def m(self, c, st, f): return c.fld(st, self.matrix(c), f)
    def arr_of(self, c, st, f):
        a, p = DST[self.store][1][f]
        return c.fld(st, self.matrix(c), a), p
    def entry(self, c, st, k, f):
        a, p = self.arr_of(c, st, f)
        return c.el(st, a, k, *p)
    def ret_ok(self, c): return c.ret == 0 if c.ret is not None and c.s1 is not None else z3.BoolVal(True)
    def item(self, c, st, f, k, t, v):
        """item k of the file is the number v of type t"""
        a = f.reals(c.ex, st) if t in (REAL, REAL8) else f.ints(c.ex, st)
        return z3.And(z3.Select(f.tags(c.ex, st), k) == t, z3.Select(a, k) == v)
    def pats(self, c, st, f, k): return [z3.Select(f.tags(c.ex, st), k)]


# ---- writing
class Write(IO):
    def source(self, c):
        n = self.m(c, c.s0, 'nnz')
        return n
    def pre(self, c):
        n = self.source(c)
        out = []
        for f in FIELDS:
            a, p = self.arr_of(c, c.s0, f)
            out.append(('the matrix holds nnz entries (%s)' % f, c.room(a, n)))
        return out
    def opened(self): return z3.And(*[f.there for f in self.files])
    def length(self, c, f): raise NotImplementedError
    def post(self, c):
        ex, st = c.ex, c.s1
        out = [('returns 0 exactly if every file can be opened', (c.ret == 0) == self.opened()), ('a failure is negative', z3.Or(c.ret == 0, c.ret < 0))]
        for f in self.files:
            out.append(('file %d has exactly the documented length and is closed' % f.i, z3.Implies(c.ret == 0, z3.And(f.pos(ex, st) == self.length(c, f), f.state(ex, st) == 2))))
        return out
    def leaks(self, c): return []


class WriteOne(Write):
    """write_bin_COO(A, file)"""
    name = 'write_bin_COO'
    modes = {1: 'w'}
    def matrix(self, c): return c.args[0]
    def symbolic(self, ex, st, nm, t, i):
        if i == 0:                          # passed by value
            r = ex.region(nm, t, IV(1), True, 'param', stable='#0')
            self.copy = Ptr(r, IV(0))
            return ex.read(st, Loc(r, IV(0), (), None, t), None, False)
        return super().symbolic(ex, st, nm, t, i)
    def m(self, c, st, f): return c.fld(st, self.copy, f)
    def arr_of(self, c, st, f):
        a, p = DST[self.store][1][f]
        return c.fld(st, self.copy, a), p
    def length(self, c, f): return 3 + 3 * self.source(c)
    def cells(self, c):
        n, f = self.source(c), self.by[1]
        s = c.s0
        def P(st, k):
            it = lambda t, v: self.item(c, st, f, k, t, v)
            body = z3.If(k < 3 + n, it(UINT, self.entry(c, s, k - 3, 'row')), z3.If(k < 3 + 2 * n, it(UINT, self.entry(c, s, k - 3 - n, 'col')), it(self.real, self.entry(c, s, k - 3 - 2 * n, 'val'))))
            for j, d in ((2, 'nnz'), (1, 'columns'), (0, 'rows')): body = z3.If(k == j, it(UINT, self.m(c, s, d)), body)
            return z3.Implies(self.ret_ok(c), body)
        return [('item k of the file is what the format says', IV(0), 3 + 3 * n, P, lambda st, k: self.pats(c, st, f, k))]


class WriteThree(Write):
    """write_bin_COO(A, rows, columns, values)"""
    name = 'write_bin_COO'
    modes = {1: 'w', 2: 'w', 3: 'w'}
    def length(self, c, f): return self.source(c)
    def cells(self, c):
        n = self.source(c)
        out = []
        for i, (fl, t) in enumerate((('row', UINT), ('col', UINT), ('val', self.real))):
            f = self.by[i + 1]
            out.append(('item k of the file of %ss is that of entry k' % fl, IV(0), n, lambda st, k, f=f, t=t, fl=fl: z3.Implies(self.ret_ok(c), self.item(c, st, f, k, t, self.entry(c, c.s0, k, fl))),
                        lambda st, k, f=f: self.pats(c, st, f, k)))
        return out


class WriteBlocked(WriteOne):
    """write_bin_blocked: six numbers, then four per entry"""
    name = 'write_bin_blocked'
    store = 'Coo3'
    HEAD = ('rows', 'columns', 'nnz', 'blockrows', 'blockcols', 'nnzblocks')
    def length(self, c, f): return 6 + 4 * self.source(c)
    def prefixes(self, c): return [('four', lambda k: 4 * k, 'count')]
    def el(self, c, k, p): return c.el(c.s0, c.fld(c.s0, self.copy, 'elements'), k, p)
    def head(self, c, st): return z3.And(*[self.item(c, st, self.by[1], IV(j), UINT, self.m(c, c.s0, d)) for j, d in enumerate(self.HEAD)])
    def cells(self, c):
        n, f = self.source(c), self.by[1]
        def P(st, k): return z3.Implies(self.ret_ok(c), z3.And(*[self.item(c, st, f, 6 + 4 * k + j, self.real if p == 'val' else UINT, self.el(c, k, p)) for j, p in enumerate(('block', 'row', 'col', 'val'))]))
        return [('the four numbers of entry k are its block, row, column and value', IV(0), n, P, lambda st, k: [self.el(c, k, 'row')])]
    def post(self, c): return super().post(c) + [('the file starts with the dimensions and counts', z3.Implies(c.ret == 0, self.head(c, c.s1)))]
    def extra_templates(self, c, ctx, M, U): return [('head', lambda st: self.head(c, st))]


class WriteArray(IO):
    name = 'write_bin_array'
    label = 'write_bin_array'
    modes = {0: 'w'}
    elem = UINT
    sig = (CH, 'unsigned int *', 'unsigned long')
    def pre(self, c): return [('the array holds num numbers', c.room(c.args[1], c.args[2]))]
    def cells(self, c):
        f = self.by[0]
        return [('number k of the file is that of the array', IV(0), c.args[2], lambda st, k: z3.Implies(self.ret_ok(c), self.item(c, st, f, k, self.elem, c.el(c.s0, c.args[1], k))), lambda st, k: self.pats(c, st, f, k))]
    def post(self, c):
        f = self.by[0]
        return [('returns 0 exactly if the file can be opened', (c.ret == 0) == f.there), ('a failure is negative', z3.Or(c.ret == 0, c.ret < 0)),
                ('the file has exactly the numbers and is closed', z3.Implies(c.ret == 0, z3.And(f.pos(c.ex, c.s1) == c.args[2], f.state(c.ex, c.s1) == 2)))]


# ---- reading
class Read(IO):
    def modifies(self, c): return [('any', c.args[0])]
    def leaks(self, c): return [p.region for f in FIELDS for p in [self.arr_of(c, c.s1, f)[0]] if isinstance(p, Ptr)]
    def holds(self, c, st, k, fl, f, j):
        """field fl of entry k is item j of file f"""
        a = f.reals(c.ex, c.s0) if fl == 'val' else f.ints(c.ex, c.s0)
        return z3.Implies(z3.And(self.ret_ok(c), j < f.L), self.entry(c, st, k, fl) == z3.Select(a, j))
    def places(self, c):
        """where in a file the loops may start: (file, item)"""
        return [(f, IV(0)) for f in self.files]
    def extra_templates(self, c, ctx, M, U):
        # how far a file has been read: as far as asked for, or to its end
        out = []
        for f, b in self.places(c):
            for v in M:
                if v.r is f.posr: continue
                def at(st, f=f, b=b, v=v):
                    w = b + v(st)
                    return f.pos(c.ex, st) == z3.If(w <= f.L, w, f.L)
                out.append(('%s is read from %s on by %s' % (f.posr.stable, b, v.name), at))
        return out
    def typed(self, c, f, t, lo, hi): return every(lo, hi, lambda k: z3.Select(f.tags(c.ex, c.s0), k) == t, lambda k: z3.Select(f.tags(c.ex, c.s0), k))
    def owns(self, c, n):
        out = []
        for fl in FIELDS:
            p, _ = self.arr_of(c, c.s1, fl)
            out.append(('the array of %ss holds exactly the entries' % fl, z3.Implies(c.ret == 0, z3.And(p.off == 0, p.region.size == n))))
        return out


class ReadOne(Read):
    name = 'read_bin_COO'
    modes = {1: 'r'}
    def head(self, c, j): return z3.Select(self.by[1].ints(c.ex, c.s0), IV(j))
    def n(self, c): return self.head(c, 2)
    def pre(self, c):
        f, n = self.by[1], self.n(c)
        return [('the file starts with three indices, then holds the rows and columns', self.typed(c, f, UINT, IV(0), 3 + 2 * n)),
                ('then the values', self.typed(c, f, self.real, 3 + 2 * n, 3 + 3 * n)),
                ('three times the number of entries fits the index type', 3 * n < 1 << 32)]
    def cells(self, c):
        f, n = self.by[1], self.n(c)
        return [('the %s of entry k is that in the file' % fl, IV(0), n, lambda st, k, fl=fl, i=i: self.holds(c, st, k, fl, f, 3 + i * n + k), lambda st, k, fl=fl: [self.entry(c, st, k, fl)]) for i, fl in enumerate(FIELDS)]
    def places(self, c): return [(self.by[1], 3 + i * self.n(c)) for i in range(3)]
    def post(self, c):
        f, n, st = self.by[1], self.n(c), c.s1
        return [('returns 0 exactly if the file opens and is complete', (c.ret == 0) == z3.And(f.there, f.L >= 3, f.L >= 3 + 3 * n)), ('a failure is negative', z3.Or(c.ret == 0, c.ret < 0)),
                ('dimensions and entry count are those of the file', z3.Implies(c.ret == 0, z3.And(*[self.m(c, st, d) == self.head(c, j) for j, d in enumerate(('rows', 'columns', 'nnz'))])))] + self.owns(c, n)


class ReadThree(Read):
    name = 'read_bin_COO'
    modes = {1: 'r', 2: 'r', 3: 'r'}
    def n(self, c): return self.by[3].L
    def prepare(self, c):
        super().prepare(c)
        self.mx = {i: z3.Function('largest%d' % i, IntS, IntS) for i in (1, 2)}
    def axioms(self, c):
        k = z3.Int('k!s')
        out = []
        for i, M in self.mx.items():
            a = self.by[i].ints(c.ex, c.s0)
            v = z3.Select(a, k)
            # the largest of the first k numbers of the file, 0 for none
            out += [M(IV(0)) == 0, z3.ForAll([k], z3.Implies(k >= 0, M(k + 1) == z3.If(v > M(k), v, M(k))), patterns=[v])]
        return out
    def pre(self, c):
        fr, fc, fv = self.by[1], self.by[2], self.by[3]
        n = self.n(c)
        fits = lambda f: every(IV(0), n, lambda k: z3.Select(f.ints(c.ex, c.s0), k) < (1 << 32) - 1, lambda k: z3.Select(f.ints(c.ex, c.s0), k))
        return [('the files hold rows, columns and values', z3.And(self.typed(c, fr, UINT, IV(0), fr.L), self.typed(c, fc, UINT, IV(0), fc.L), self.typed(c, fv, self.real, IV(0), fv.L))),
                ('the size of the value file is that of its numbers and a part of one', z3.And(fv.bytes >= (self.real - 100) * n, fv.bytes < (self.real - 100) * (n + 1))),
                ('three times the number of entries fits the index type', 3 * n < 1 << 32), ('the indices leave room for the dimensions', z3.And(fits(fr), fits(fc)))]
    def cells(self, c):
        n = self.n(c)
        return [('the %s of entry k is that in its file' % fl, IV(0), n, lambda st, k, fl=fl, i=i: self.holds(c, st, k, fl, self.by[i + 1], k), lambda st, k, fl=fl: [self.entry(c, st, k, fl)]) for i, fl in enumerate(FIELDS)]
    def prefixes(self, c): return [('largest%d' % i, M, 'count') for i, M in self.mx.items()]
    def post(self, c):
        fr, fc, fv = self.by[1], self.by[2], self.by[3]
        n, st = self.n(c), c.s1
        return [('returns 0 exactly if the files open and the index files are long enough', (c.ret == 0) == z3.And(fr.there, fc.there, fv.there, fr.L >= n, fc.L >= n)), ('a failure is negative', z3.Or(c.ret == 0, c.ret < 0)),
                ('the dimensions are the smallest that hold the entries', z3.Implies(c.ret == 0, z3.And(self.m(c, st, 'rows') == self.mx[1](n) + 1, self.m(c, st, 'columns') == self.mx[2](n) + 1))),
                ('the entry count is that of the value file', z3.Implies(c.ret == 0, self.m(c, st, 'nnz') == n))] + self.owns(c, n)
    def extra_templates(self, c, ctx, M, U):
        out = super().extra_templates(c, ctx, M, U)
        for i, G in self.mx.items():
            for v in M:
                out.append(('%s leaves room, if file %d is long enough' % (v.name, i), lambda st, v=v, i=i: z3.Implies(self.by[i].L >= self.n(c), v(st) < (1 << 32) - 1)))
                for u in M:
                    if u is v: continue
                    out.append(('%s is largest%d of %s, if the file is long enough' % (v.name, i, u.name), lambda st, u=u, v=v, i=i, G=G: z3.Implies(self.by[i].L >= self.n(c), v(st) == G(u(st)))))
        return out


class ReadArray(IO):
    name = 'read_bin_array'
    label = 'read_bin_array'
    modes = {0: 'r'}
    elem = UINT
    sig = (CH, 'unsigned int **', 'unsigned long *')
    def prepare(self, c):
        super().prepare(c)
        for a in c.args[1:]: a.region.single, a.region.size = True, IV(1)      # one pointer, one number
    def modifies(self, c): return [('any', c.args[1]), ('any', c.args[2])]
    def pre(self, c):
        f = self.by[0]
        k = lambda k: z3.Select(f.tags(c.ex, c.s0), k)
        b = self.elem % 100
        return [('the file holds numbers of the type', every(IV(0), f.L, lambda j: k(j) == self.elem, k)),
                ('the size of the file is that of its numbers and a part of one', z3.And(f.bytes >= b * f.L, f.bytes < b * f.L + b)), ('the size fits', f.bytes < 1 << 63)]
    def got(self, c, st): return c.ex.rawget(st, c.args[1].region, ())
    def post(self, c):
        f, p = self.by[0], self.got(c, c.s1)
        return [('a file that opens is read', z3.And(f.there, c.ret == 0)), ('the count is that of the file', c.ex.rawget(c.s1, c.args[2].region, ()) == f.L),
                ('the array holds exactly the numbers', z3.And(p.off == 0, p.region.size == f.L, z3.BoolVal(p.region in c.ex.allocs)))]
    def cells(self, c):
        f = self.by[0]
        return [('number k of the array is that of the file', IV(0), f.L, lambda st, k: c.el(st, self.got(c, st), k) == z3.Select(f.reals(c.ex, c.s0) if self.elem > 100 else f.ints(c.ex, c.s0), k), lambda st, k: [c.el(st, self.got(c, st), k)])]
    def leaks(self, c): return [self.got(c, c.s1).region]


class ReadCsr(ReadOne):
    """read_bin_CSR: a file sorted by row"""
    name = 'read_bin_CSR'
    label = 'read_bin_CSR'
    def leaks(self, c): return [p.region for f in ('row_ptr', 'col_ind', 'val') for p in [c.fld(c.s1, c.args[0], f)] if isinstance(p, Ptr)]
    def prepare(self, c):
        super().prepare(c)
        # the rows in the file, as an array of their own
        self.g_rows = z3.Const('file.rows', L.ArrI)
    def R(self, c): return self.head(c, 0)
    def axioms(self, c):
        k = z3.Int('k!s')
        v = z3.Select(self.by[1].ints(c.ex, c.s0), k)
        b = z3.Select(self.g_rows, k - 3) == v
        return L.base() + [z3.ForAll([k], b, patterns=[v])]
    def pre(self, c):
        n, a = self.n(c), self.g_rows
        row = lambda k: z3.Select(a, k)
        j, k = z3.Ints('j!q k!q')
        return super().pre(c) + [('row indices are valid', every(0, n, lambda k: z3.And(row(k) >= 0, row(k) < self.R(c)), row)), ('rows + 1 fits the index type', self.R(c) < (1 << 32) - 1),
                ('the file is sorted by row', z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), row(j) <= row(k)), patterns=[z3.MultiPattern(row(j), row(k))]))]
    def rp(self, c, st): return c.fld(st, c.args[0], 'row_ptr')
    def full(self, c): return self.by[1].L >= 3 + 3 * self.n(c)
    def prefixes(self, c):
        return [('Cnt', lambda k, r: L.CNT(self.g_rows, k, r), 'cells', (IV(0),), lambda r, p: (IV(0), IV(1))), ('CL', lambda k: L.CL(self.g_rows, self.n(c), k), 'count')]
    def lemmas(self, c, st):
        a, n = self.g_rows, self.n(c)
        return [L.inst_zero(a, n), L.inst_total(a, n, self.R(c)), L.inst_sorted(a, n)]
    def cells(self, c):
        f, n = self.by[1], self.n(c)
        F_, V_ = f.ints(c.ex, c.s0), f.reals(c.ex, c.s0)
        ok = lambda: z3.And(self.ret_ok(c), self.full(c))
        el = lambda st, k, a: c.el(st, c.fld(st, c.args[0], a), k)
        return [('row_ptr[r] is the number of entries in rows before r', IV(0), self.R(c) + 1, lambda st, k: z3.Implies(ok(), el(st, k, 'row_ptr') == L.CL(self.g_rows, n, k)), lambda st, k: [el(st, k, 'row_ptr')]),
                ('entry k has the column and value of entry k of the file', IV(0), n, lambda st, k: z3.Implies(ok(), z3.And(el(st, k, 'col_ind') == z3.Select(F_, 3 + n + k), el(st, k, 'val') == z3.Select(V_, 3 + 2 * n + k))),
                 lambda st, k: [el(st, k, 'col_ind'), el(st, k, 'val')])]
    def post(self, c):
        f, n, st = self.by[1], self.n(c), c.s1
        rp = self.rp(c, st)
        k = z3.Int('k!z')
        el = lambda k: c.el(st, rp, k)
        out = [('returns 0 exactly if the file opens and is complete', (c.ret == 0) == z3.And(f.there, f.L >= 3, self.full(c))), ('a failure is negative', z3.Or(c.ret == 0, c.ret < 0)),
               ('the dimensions are those of the file', z3.Implies(c.ret == 0, z3.And(self.m(c, st, 'rows') == self.R(c), self.m(c, st, 'columns') == self.head(c, 1)))),
               ('row_ptr starts at 0 and ends at the number of entries', z3.Implies(c.ret == 0, z3.And(el(IV(0)) == 0, el(self.R(c)) == n))),
               ('entry k lies in the segment of its row', z3.Implies(c.ret == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(el(z3.Select(self.g_rows, k)) <= k, k < el(z3.Select(self.g_rows, k) + 1))))))]
        for a, size in (('row_ptr', self.R(c) + 1), ('col_ind', n), ('val', n)):
            p = c.fld(st, c.args[0], a)
            out.append(('%s has exactly its size' % a, z3.Implies(c.ret == 0, z3.And(p.off == 0, p.region.size == size))))
        return out


class ReadHead(IO):
    """read_bin_blocked_common: the six numbers at the start of a blocked file; the file stays open at the first entry"""
    name = 'read_bin_blocked_common'
    modes = {1: 'r'}
    HEAD = ('rows', 'columns', 'nnz', 'blockrows', 'blockcols', 'nnzblocks')
    def head(self, c, j): return z3.Select(self.by[1].ints(c.ex, c.s0), IV(j))
    def modifies(self, c): return [('any', c.args[0])]
    def pre(self, c):
        f, (a, _, ro, nr, co, nc) = self.by[1], c.args
        h = lambda n: self.head(c, self.HEAD.index(n))
        tag = lambda k: z3.Select(f.tags(c.ex, c.s0), k)
        return [('the file has a header', z3.And(f.L >= 6, every(IV(0), IV(6), lambda k: tag(k) == UINT, tag))),
                ('the division into blocks is that of the header', z3.And(h('blockrows') == nr, h('blockcols') == nc)),
                ('the boundaries have an element for each block and one more', z3.And(c.room(ro, nr + 1), c.room(co, nc + 1), nr < (1 << 32) - 1, nc < (1 << 32) - 1)),
                ('the boundaries end at the dimensions', z3.And(c.el(c.s0, ro, nr) == h('rows'), c.el(c.s0, co, nc) == h('columns')))]
    def post(self, c):
        f, st, (a, _, ro, nr, co, nc) = self.by[1], c.s1, c.args
        same = lambda p, q: z3.And(z3.BoolVal(p.region is q.region), p.off == q.off)
        return [('it returns only if the file opens', f.there), ('dimensions and counts are those of the header', z3.And(*[self.m(c, st, n) == self.head(c, j) for j, n in enumerate(self.HEAD)])),
                ('the matrix takes the boundaries it is given', z3.And(same(c.fld(st, a, 'blockrow_offset'), ro), same(c.fld(st, a, 'blockcol_offset'), co))),
                ('the file is open at the first entry', z3.And(f.pos(c.ex, st) == 6, f.state(c.ex, st) == 1))]
    def leaks(self, c): return []


def _mk():
    out = []
    for s in ('Csbr<%s>', 'Csbr2<%s>', 'Cgbr<%s, unsigned short>'):
        n = s % 'float, unsigned int'
        out.append(type('Head_' + s.split('<')[0], (ReadHead,), {'label': 'read_bin_blocked_common<%s>' % s.split('<')[0], 'sig': (n + ' *', CH, 'unsigned int *', 'unsigned int', 'unsigned int *', 'unsigned int')}))
    for s in ('Coo2', 'Coo3', 'Coo2d', 'Coo3d'):
        R = DST[s][0]
        kw = {'store': s, 'real': REAL8 if s.endswith('d') else REAL}
        out.append(type('%s_write_one' % s, (WriteOne,), dict(kw, label='write_bin_COO<%s,1 file>' % s, sig=(R, CH))))
        out.append(type('%s_write_three' % s, (WriteThree,), dict(kw, label='write_bin_COO<%s,3 files>' % s, sig=(R + ' *', CH, CH, CH))))
        out.append(type('%s_read_one' % s, (ReadOne,), dict(kw, label='read_bin_COO<%s,1 file>' % s, sig=(R + ' *', CH))))
        out.append(type('%s_read_three' % s, (ReadThree,), dict(kw, label='read_bin_COO<%s,3 files>' % s, sig=(R + ' *', CH, CH, CH))))
    out.append(type('Coo_read_three', (ReadThree,), {'store': 'Coo', 'label': 'read_bin_COO<Coo,3 files>', 'sig': (DST['Coo'][0] + ' *', CH, CH, CH)}))
    out += [WriteArray, ReadArray]
    out.append(type('WriteArray_d', (WriteArray,), {'elem': REAL8, 'label': 'write_bin_array<double>', 'sig': (CH, 'double *', 'unsigned long')}))
    out.append(type('ReadArray_d', (ReadArray,), {'elem': REAL8, 'label': 'read_bin_array<double>', 'sig': (CH, 'double **', 'unsigned long *')}))
    out.append(type('Csr_read', (ReadCsr,), {'sig': ('Csr<float, unsigned int> *', CH)}))
    out.append(type('Csr_read_d', (ReadCsr,), {'real': REAL8, 'label': 'read_bin_CSR<double>', 'sig': ('Csr<double, unsigned int> *', CH)}))
    out.append(type('Blocked_write', (WriteBlocked,), {'label': 'write_bin_blocked', 'sig': (DST['Coo3'][0], CH)}))
    out.append(type('Blocked_write_d', (WriteBlocked,), {'real': REAL8, 'store': 'Coo3d', 'label': 'write_bin_blocked<double>', 'sig': (DST['Coo3d'][0], CH)}))
    return out
ALL = _mk()
