"""Assumed contracts of the C standard input and output used on binary files.

A file is a sequence of items; an item is a number of one type (its size and
class are its tag).  fread of a number is only allowed where the file holds an
item of that type (obligation `io`), and yields it while there are items left;
fwrite appends one.  Bytes after the last whole item yield nothing.  The items
of the files a function reads are described by its contract."""
import re
import z3
from .astdb import CT, U32, U64, F32, node_type, parse_type
from .core import *

TAG = {('int', 32): 4, ('int', 64): 8, ('int', 16): 2, ('float', 32): 104, ('float', 64): 108}


class File:
    """one file, named by the parameter that holds its name"""
    def __init__(self, ex, i, mode):
        self.i, self.mode = i, mode                     # 'r' or 'w'
        n = 'file%d' % i
        R = lambda s, ct, single: ex.region(n + '.' + s, ct, IV(1) if single else None, single, 'file', stable=n + '.' + s)
        self.handle = R('handle', U64, True)
        self.posr = R('pos', U64, True)
        self.stater = R('state', U32, True)             # 0 never opened, 1 open, 2 closed
        self.tagr = R('tag', U32, False)
        self.u = R('int', U32, False)
        self.f = R('real', F32, False)        # the numbers with a fraction, of either size: the tag tells
        self.L = z3.Int(n + '.items')                   # items (or lines) in a file that is read
        self.bytes = z3.Int(n + '.bytes')
        self.there = z3.Bool(n + '.opens')
        # a Matrix Market file that is read: outcome of reading banner and size line, what they say, and the lines of numbers
        self.banner, self.size = z3.Int(n + '.banner'), z3.Int(n + '.sizeline')
        self.code = [z3.Int('%s.code%d' % (n, j)) for j in range(4)]
        self.dims = [z3.Int('%s.%s' % (n, d)) for d in ('rows', 'columns', 'entries')]
        self.line = [z3.Const('%s.line%d' % (n, j), z3.ArraySort(IntS, RealS if j == 2 else IntS)) for j in range(3)]
        # what ftell says before line k: after a header, so not 0, and different for different lines
        self.tell, self.told = z3.Function(n + '.tell', IntS, IntS), z3.Function(n + '.told', IntS, IntS)
        if mode == 'text':
            k = z3.Int('k!f')
            ex.axioms.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= self.L), z3.And(self.told(self.tell(k)) == k, self.tell(k) > 0, self.tell(k) < 1 << 62)), patterns=[self.tell(k)]))
        for r, v in ((self.posr, IV(0)), (self.stater, IV(0))): ex.init[(r, ())] = v
        ex.axioms.append(z3.And(self.L >= 0, self.bytes >= 0))

    def pos(self, ex, st): return ex.rawget(st, self.posr, ())
    def state(self, ex, st): return ex.rawget(st, self.stater, ())
    def ints(self, ex, st): return ex.rawget(st, self.u, ())
    def reals(self, ex, st): return ex.rawget(st, self.f, ())
    def tags(self, ex, st): return ex.rawget(st, self.tagr, ())
    def content(self, ct): return self.f if ct.k == 'float' else self.u


def tag(ct):
    t = TAG.get((ct.k, ct.bits))
    if t is None: raise Unsupported('file item of type %s' % ct)
    return t


def install(ex):
    B = ex.builtins

    def files():
        f = getattr(ex.cfg, 'files', None)
        if not f: raise Unsupported('file outside a contract on files')
        return f

    def put(st, r, v):
        for lg in ex.modlog: lg.add((r, ()))
        st.mem[(r, ())] = v

    def fopen(st, args, n):
        p = ex.rval(st, args[0])
        m = args[1]
        while m['kind'] != 'StringLiteral': m = m['inner'][0]
        mode = m['value'].strip('"')
        f = [x for x in files() if isinstance(p, Ptr) and p.region is not None and p.region.stable == '#%d' % x.i]
        if not f: raise Unsupported('opening of an unknown file')
        f = f[0]
        ex.assumed.add('fopen/fread/fwrite/fclose: a file is a sequence of numbers, read and written in order; writing to an open file succeeds; contents do not change while a file is read')
        ex.oblige(st, 'io', z3.And(z3.Or(f.state(ex, st) != 1, z3.Not(f.there)), z3.BoolVal(mode[0] == ('w' if f.mode in ('w', 'mm') else 'r'))), n, 'opened once at a time, for %s' % ('writing' if f.mode in ('w', 'mm') else 'reading'))
        put(st, f.posr, IV(0)); put(st, f.stater, IV(1))
        from .exec import PtrChoice
        return PtrChoice(f.there, Ptr(f.handle, IV(0)), NULL)
    B['fopen'] = fopen

    def the(st, a, n):
        from .exec import PtrChoice
        p = ex.rval(st, a)
        if isinstance(p, PtrChoice):
            ex.oblige(st, 'io', p.c, n, 'the file is open')
            st.assume(p.c)
            p = p.a
        f = [x for x in files() if isinstance(p, Ptr) and p.region is x.handle]
        if not f: raise Unsupported('unknown file')
        ex.oblige(st, 'io', f[0].state(ex, st) == 1, n, 'the file is not closed yet')
        return f[0]

    def fclose(st, args, n):
        f = the(st, args[0], n)
        put(st, f.stater, IV(2))
        return IV(0)
    B['fclose'] = fclose

    def fseek(st, args, n):
        f = the(st, args[0], n)
        off, wh = ex.rval(st, args[1]), ex.rval(st, args[2])
        if f.mode == 'text' and z3.is_int_value(wh) and wh.as_long() == 0:
            at = f.told(off)
            ex.oblige(st, 'io', z3.And(at >= 0, at <= f.L, f.tell(at) == off), n, 'a position told earlier')
            put(st, f.posr, at)
            return IV(0)
        if not (z3.is_int_value(off) and off.as_long() == 0 and z3.is_int_value(wh) and wh.as_long() == 2): raise Unsupported('fseek other than to the end')
        put(st, f.posr, f.L)
        return IV(0)
    B['fseek'] = fseek

    def ftell(st, args, n):
        f = the(st, args[0], n)
        if f.mode == 'text': return f.tell(f.pos(ex, st))
        ex.oblige(st, 'io', f.pos(ex, st) == f.L, n, 'the position is asked for at the end of the file')
        return f.bytes
    B['ftell'] = ftell

    # ---- text: Matrix Market files
    ignored = B['fprintf']
    CONV = {'lu': 203, 'llu': 203, 'u': 203, 'zu': 203, 'g': 205, 'lg': 205, 'f': 205, 'e': 205}

    def kind(x):
        # 203 an integer, 204 a number with all its digits, 205 with fewer
        m = re.fullmatch(r'\.(\d+)l?([ge])', x)
        if m: return 204 if int(m.group(1)) + (m.group(2) == 'e') >= 17 else 205
        return CONV.get(x)

    def fmt(a):
        while a['kind'] != 'StringLiteral':
            if not a.get('inner'): raise Unsupported('format that is not a literal')
            a = a['inner'][0]
        return a['value'][1:-1]

    def append(st, f, t, v):
        pos, r = f.pos(ex, st), f.f if z3.is_real(v) else f.u
        put(st, r, z3.Store(ex.rawget(st, r, ()), pos, v)); put(st, f.tagr, z3.Store(f.tags(ex, st), pos, IV(t))); put(st, f.posr, pos + 1)

    def fprintf(st, args, n):
        if not getattr(ex.cfg, 'files', None): return ignored(st, args, n)
        try: p = ex.rval(st, args[0])
        except Unsupported: p = None
        h = getattr(p, 'a', p)
        if not any(isinstance(h, Ptr) and h.region is x.handle for x in ex.cfg.files): return ignored(st, args, n)
        ex.assumed.add('fprintf/fscanf: a decimal integer, or a double with 17 digits, is read as the number that was printed')
        f = the(st, args[0], n)
        s = fmt(args[1])
        m = re.fullmatch(r'%([a-z0-9.]+)((?:[ \t]+%[a-z0-9.]+)*)\\n', s)
        cs = re.findall(r'%([a-z0-9.]+)', s)
        if not m or any(kind(x) is None for x in cs) or len(cs) != len(args) - 2: raise Unsupported('format %s' % s)
        for x, a in zip(cs, args[2:]):
            v = ex.rval(st, a)
            append(st, f, kind(x), ex.to_real(v) if kind(x) > 203 else v)
        return IV(0)
    B['fprintf'] = fprintf

    def cell(st, p, j, n):
        if not isinstance(p, Ptr): raise Unsupported('typecode')
        if '[]' in p.path: return Loc(p.region, p.off, p.path, add(p.sub, IV(j)), ex.leaf_ct(p.region, p.path))
        ct = ex.leaf_ct(p.region, p.path)
        if ct.k == 'arr': return Loc(p.region, p.off, tuple(p.path) + ('[]',), IV(j), ct.to)
        return Loc(p.region, add(p.off, IV(j)), p.path, p.sub, ct)

    def mm_write_banner(st, args, n):
        f = the(st, args[0], n)
        p = ex.rval(st, args[1])
        ex.assumed.add('mm_io: mm_write_banner, mm_write_mtx_crd_size print the typecode and the sizes they are given; mm_read_banner, mm_read_mtx_crd_size read them')
        for j in range(4): append(st, f, 201, ex.read(st, cell(st, p, j, n), n))
        return IV(0)
    B['mm_write_banner'] = mm_write_banner

    def mm_write_size(st, args, n):
        f = the(st, args[0], n)
        for a in args[1:]: append(st, f, 202, ex.rval(st, a))
        return IV(0)
    B['mm_write_mtx_crd_size'] = mm_write_size

    def mm_read_banner(st, args, n):
        f = the(st, args[0], n)
        p = ex.rval(st, args[1])
        ex.assumed.add('mm_io: mm_write_banner, mm_write_mtx_crd_size print the typecode and the sizes they are given; mm_read_banner, mm_read_mtx_crd_size read them')
        for j in range(4):
            l = cell(st, p, j, n)
            v = ex.fresh('code', IntS)
            st.assume(z3.Implies(f.banner == 0, v == f.code[j]))
            ex.write(st, l, v, n)
        return f.banner
    B['mm_read_banner'] = mm_read_banner

    def mm_read_size(st, args, n):
        f = the(st, args[0], n)
        for j, a in enumerate(args[1:]):
            p = ex.rval(st, a)
            if not isinstance(p, Ptr): raise Unsupported('size')
            ct = ex.leaf_ct(p.region, p.path)
            v = ex.fresh_val('size', ct, st)
            st.assume(z3.Implies(f.size == 0, v == f.dims[j]))
            ex.write(st, Loc(p.region, p.off, p.path, p.sub, ct), v, n)
        return f.size
    B['mm_read_mtx_crd_size'] = mm_read_size
    B['mm_typecode_to_str'] = lambda st, args, n: Opaque('text')

    def fscanf(st, args, n):
        f = the(st, args[0], n)
        ex.assumed.add('fprintf/fscanf: a decimal integer, or a double with 17 digits, is read as the number that was printed')
        if f.mode != 'text' or fmt(args[1]).replace('\\n', '').split() != ['%lu', '%lu', '%lg']: raise Unsupported('format %s' % fmt(args[1]))
        pos = f.pos(ex, st)
        got = pos < f.L
        for j, a in enumerate(args[2:]):
            p = ex.rval(st, a)
            if not isinstance(p, Ptr): raise Unsupported('fscanf into %r' % (p,))
            ct = ex.leaf_ct(p.region, p.path)
            ex.oblige(st, 'io', z3.BoolVal(ct.bits == 64 and ct.k == ('float' if j == 2 else 'int')), n, 'the variable has the type the format says')
            l = Loc(p.region, p.off, p.path, p.sub, ct)
            old = ex.read(st, l, n)
            ex.write(st, l, z3.If(got, z3.Select(f.line[j], pos), old), n)
        put(st, f.posr, z3.If(got, pos + 1, pos))
        return z3.If(got, IV(3), IV(-1))
    B['fscanf'] = fscanf

    def where(st, args, n):
        p = ex.rval(st, args[0])
        if not isinstance(p, Ptr) or p.region is None: raise Unsupported('transfer to %r' % (p,))
        ct = ex.leaf_ct(p.region, p.path)
        if ct.k not in ('int', 'float'): raise Unsupported('transfer of %s' % ct)
        sz = ex.as_index(st, ex.rval(st, args[1]), node_type(args[1]))
        cnt = ex.as_index(st, ex.rval(st, args[2]), node_type(args[2]))
        f = the(st, args[3], n)
        ex.oblige(st, 'io', sz == ex.sizeof(ct), n, 'whole numbers are transferred')
        return p, ct, cnt, f

    def one(cnt): return z3.is_int_value(z3.simplify(cnt)) and z3.simplify(cnt).as_long() == 1

    def window(st, p, cnt, n):
        if p.path and '[]' in p.path or p.region.single: raise Unsupported('transfer of several members')
        if p.region.size is not None: ex.oblige(st, 'bounds', z3.And(p.off >= 0, p.off + cnt <= p.region.size), n, 'the numbers transferred lie inside their array')

    def fread(st, args, n):
        p, ct, cnt, f = where(st, args, n)
        pos, C, T = f.pos(ex, st), ex.rawget(st, f.content(ct), ()), f.tags(ex, st)
        k = z3.Int('k!f')
        if one(cnt):
            got = pos < f.L
            ex.oblige(st, 'io', z3.Implies(got, z3.Select(T, pos) == tag(ct)), n, 'the file holds a number of the type read')
            v = ex.fresh_val('read', ct, st)
            st.assume(z3.Implies(got, v == z3.Select(C, pos)))
            ex.write(st, Loc(p.region, p.off, p.path, p.sub, ct), v, n)
            put(st, f.posr, z3.If(got, pos + 1, pos))
            return z3.If(got, IV(1), IV(0))
        window(st, p, cnt, n)
        num = z3.If(pos + cnt <= f.L, cnt, f.L - pos)
        ex.oblige(st, 'io', z3.And(pos <= f.L, z3.ForAll([k], z3.Implies(z3.And(k >= pos, k < pos + num), z3.Select(T, k) == tag(ct)))), n, 'the file holds numbers of the type read')
        old = ex.rawget(st, p.region, p.path)
        new = ex.fresh('read', old.sort())
        st.assume(z3.ForAll([k], z3.Implies(z3.Or(k < p.off, k >= p.off + cnt), z3.Select(new, k) == z3.Select(old, k)), patterns=[z3.Select(new, k)]))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= p.off, k < p.off + num), z3.Select(new, k) == z3.Select(C, add(pos, sub(k, p.off)))), patterns=[z3.Select(new, k)]))
        if ct.k == 'int':
            a, b = rng(ct)
            st.assume(z3.ForAll([k], z3.And(z3.Select(new, k) >= a, z3.Select(new, k) <= b), patterns=[z3.Select(new, k)]))
        for lg in ex.modlog: lg.add((p.region, p.path))
        st.mem[(p.region, p.path)] = new
        put(st, f.posr, pos + num)
        return num
    B['fread'] = fread

    def fwrite(st, args, n):
        p, ct, cnt, f = where(st, args, n)
        pos, r = f.pos(ex, st), f.content(ct)
        C, T = ex.rawget(st, r, ()), f.tags(ex, st)
        k = z3.Int('k!f')
        if one(cnt):
            v = ex.read(st, Loc(p.region, p.off, p.path, p.sub, ct), n)
            put(st, r, z3.Store(C, pos, v)); put(st, f.tagr, z3.Store(T, pos, IV(tag(ct)))); put(st, f.posr, pos + 1)
            return IV(1)
        window(st, p, cnt, n)
        src = ex.rawget(st, p.region, p.path)
        for reg, old, g in ((r, C, lambda k: z3.Select(src, add(p.off, sub(k, pos)))), (f.tagr, T, lambda k: IV(tag(ct)))):
            new = ex.fresh('written', old.sort())
            st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(k >= pos, k < pos + cnt), g(k), z3.Select(old, k)), patterns=[z3.Select(new, k)]))
            put(st, reg, new)
        put(st, f.posr, pos + cnt)
        return cnt
    B['fwrite'] = fwrite
