"""Contracts of the C/C++ library and OpenMP calls the repository makes.

Everything here is an assumed contract on a dependency; each one that a
verification uses is reported in the evidence (`ex.assumed`)."""
import z3
from .astdb import CT, U32, I32, U64, F32, BOOL, node_type, parse_type
from .core import *
from .exec import Dead, Obligation

CEILF = z3.Function('ceil_r', RealS, RealS)
ROUNDF = z3.Function('round_r', RealS, RealS)
SQRTF = z3.Function('sqrt_r', RealS, RealS)
LOG2F = z3.Function('log2_r', RealS, RealS)

IGNORED = ['printf', 'fprintf', 'puts', 'fputs', 'fflush', 'perror', 'putchar', 'setbuf', 'fputc', 'tick']


def install(ex):
    B = ex.builtins

    def ev(st, args):
        out = []
        for a in args:
            v = ex.rval(st, a)
            out.append(v)
        return out

    def ignored(st, args, n):
        for a in args:
            try: ex.rval(st, a)
            except Unsupported: pass
        return z3.IntVal(0)
    for k in IGNORED: B[k] = ignored

    def dead(st, args, n):
        ex.assumed.add('exit/abort end the program')
        raise Dead()
    for k in ('exit', 'abort', '_exit'): B[k] = dead

    def assert_fail(st, args, n):
        ex.oblige(st, 'assert', z3.BoolVal(False), n, 'assertion at this line holds')
        raise Dead()
    B['__assert_fail'] = assert_fail

    # ---- allocation
    from .interp import Alloc
    def malloc(st, args, n):
        b = ex.as_index(st, ex.rval(st, args[0]), node_type(args[0]))
        ex.assumed.add('malloc/calloc/operator new succeed')
        return Alloc(b, 'malloc', False, ex.where(n))
    B['malloc'] = malloc

    def calloc(st, args, n):
        a = ex.as_index(st, ex.rval(st, args[0]), node_type(args[0]))
        b = ex.as_index(st, ex.rval(st, args[1]), node_type(args[1]))
        ex.assumed.add('malloc/calloc/operator new succeed')
        return Alloc(mk_imul(a, b), 'calloc', True, ex.where(n))
    B['calloc'] = calloc

    def aligned_alloc(st, args, n):
        ex.rval(st, args[0])
        b = ex.as_index(st, ex.rval(st, args[1]), node_type(args[1]))
        ex.assumed.add('malloc/calloc/operator new succeed')
        return Alloc(b, 'aligned_alloc', False, ex.where(n))
    B['aligned_alloc'] = aligned_alloc

    def free(st, args, n):
        p = ex.rval(st, args[0])
        ex.dealloc(st, p, 'malloc', n)
        return None
    B['free'] = free

    def realloc(st, args, n):
        raise Unsupported('realloc')
    B['realloc'] = realloc

    # ---- OpenMP
    def nthreads(st, args, n):
        ex.assumed.add('omp_get_max_threads() returns one value in [1, 2^20] during a call')
        k = ('omp', 'threads')
        if k not in ex.arenas:
            v = ex.gconst('omp_threads', ex.isort(I32))
            ex.arenas[k] = v
            if ex.mode == 'int': ex.axioms.append(z3.And(v >= 1, v <= 1 << 20))
            else: ex.axioms.append(z3.And(v >= 1, v <= z3.BitVecVal(1 << 20, 32)))
        return ex.arenas[k]
    B['omp_get_max_threads'] = nthreads
    B['omp_get_num_procs'] = nthreads

    # ---- math
    def uf(F, lo0=False):
        def f(st, args, n):
            v = ex.to_real(ex.rval(st, args[0]))
            t = F(v)
            if lo0: st.assume(z3.Implies(v >= 0, t >= 0))
            return t
        return f
    B['sqrt'] = uf(SQRTF, True); B['log2'] = uf(LOG2F); B['ceil'] = uf(CEILF); B['round'] = uf(ROUNDF, True)

    def maxval(st, args, n):
        ct = node_type(n)
        return ex.const(rng(ct)[1], ct)
    B['max'] = maxval

    def swap(st, args, n):
        a, b = ex.lval(st, args[0]), ex.lval(st, args[1])
        x, y = ex.read(st, a, n), ex.read(st, b, n)
        ex.write(st, a, y, n); ex.write(st, b, x, n)
        return None
    B['swap'] = swap

    def minmax(op):
        def f(st, args, n):
            if not args: return maxval(st, args, n) if op == '>' else ex.const(rng(node_type(n))[0], node_type(n))
            a, b = ex.arg(st, args[0], None), ex.arg(st, args[1], None)
            c = ex.cmp(st, op, a, b, node_type(args[0]))
            return ex.ite(c, a, b)
        return f
    B['min'] = minmax('<'); B['max'] = minmax('>')

    # ---- algorithms
    def upper_bound(st, args, n):
        """first element of a sorted range that is greater than the value"""
        a, b = ex.rval(st, args[0]), ex.rval(st, args[1])
        v = ex.arg(st, args[2], None)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is b.region): raise Unsupported('upper_bound')
        ct = a.region.elem
        ar = ex.rawget(st, a.region, a.path)
        ex.oblige(st, 'bounds', z3.And(a.off >= 0, a.off <= b.off, b.off <= a.region.size) if a.region.size is not None
                  else a.off <= b.off, n, 'searched range lies inside the array')
        p, q = z3.Ints('p!ub q!ub')
        ex.oblige(st, 'sorted', z3.ForAll([p, q], z3.Implies(z3.And(a.off <= p, p < q, q < b.off), z3.Select(ar, p) <= z3.Select(ar, q))),
                  n, 'searched range is sorted')
        r = UB(ar, a.off, b.off, v)
        ex.assumed.add('std::upper_bound returns the partition point of a sorted range')
        st.assume(z3.And(r >= a.off, r <= b.off))
        k = z3.Int('k!ub')
        st.assume(z3.ForAll([k], z3.Implies(z3.And(a.off <= k, k < r), z3.Select(ar, k) <= v), patterns=[z3.Select(ar, k)]))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(r <= k, k < b.off), v < z3.Select(ar, k)), patterns=[z3.Select(ar, k)]))
        st.assume(z3.Implies(r > a.off, z3.Select(ar, r - 1) <= v))
        st.assume(z3.Implies(r < b.off, v < z3.Select(ar, r)))
        return Ptr(a.region, r)
    B['upper_bound'] = upper_bound

    def partial_sum(st, args, n):
        a, b, d = ex.rval(st, args[0]), ex.rval(st, args[1]), ex.rval(st, args[2])
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(d, Ptr) and a.region is b.region): raise Unsupported('partial_sum')
        cnt = sub(b.off, a.off)
        ex.oblige(st, 'bounds', z3.And(a.off >= 0, b.off >= a.off, b.off <= a.region.size if a.region.size is not None else True), n, 'summed range lies inside the array')
        ex.oblige(st, 'bounds', z3.Implies(cnt > 0, z3.And(d.off >= 0, add(d.off, cnt) <= d.region.size)), n, 'partial sums fit the destination')
        ex.assumed.add('std::partial_sum writes the running sums (as long as they fit the element type)')
        src = ex.rawget(st, a.region, a.path)
        old = ex.rawget(st, d.region, d.path)
        ct = ex.leaf_ct(d.region, d.path)
        new = ex.fresh('psum', old.sort())
        k = z3.Int('k!ps')
        m = 1 << ct.bits
        from . import lemmas as L
        if not getattr(ex, 'psum_on', False):
            ex.psum_on = True
            ex.axioms.extend(L.psum_defs())
        s = L.PSUM(src, a.off, k - d.off + 1)
        st.assume(z3.ForAll([k], z3.Implies(z3.Or(k < d.off, k >= add(d.off, cnt)), z3.Select(new, k) == z3.Select(old, k)), patterns=[z3.Select(new, k)]))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= d.off, k < add(d.off, cnt), s >= 0, s < m), z3.Select(new, k) == s), patterns=[z3.Select(new, k)]))
        st.assume(z3.ForAll([k], z3.And(z3.Select(new, k) >= 0, z3.Select(new, k) < m), patterns=[z3.Select(new, k)]))
        for lg in ex.modlog: lg.add((d.region, d.path))
        st.mem[(d.region, d.path)] = new
        return Ptr(d.region, add(d.off, cnt))
    B['partial_sum'] = partial_sum

    def fill(st, args, n):
        a, b, v = ex.rval(st, args[0]), ex.rval(st, args[1]), ex.arg(st, args[2], None)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is b.region and a.region.size is not None) or ex.recorders or ex.mode != 'int': raise Unsupported('fill')
        old = ex.rawget(st, a.region, a.path)
        if not (z3.is_expr(old) and z3.is_array(old) and z3.is_expr(v)): raise Unsupported('fill')
        if old.sort().range() == z3.RealSort(): v = ex.to_real(v)
        ct = ex.leaf_ct(a.region, a.path)
        if old.sort().range() != v.sort() or z3.is_int(v) and not (z3.is_int_value(v) and rng(ct)[0] <= v.as_long() <= rng(ct)[1]): raise Unsupported('fill')
        ex.oblige(st, 'bounds', z3.And(a.off >= 0, a.off <= b.off, b.off <= a.region.size), n, 'filled range lies inside the array')
        ex.assumed.add('std::fill stores one value in a range')
        new = ex.fresh('fill', old.sort())
        k = z3.Int('k!fi')
        st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(k >= a.off, k < b.off), v, z3.Select(old, k)), patterns=[z3.Select(new, k)]))
        for lg in ex.modlog: lg.add((a.region, a.path))
        st.mem[(a.region, a.path)] = new
        return None
    B['fill'] = fill

    def mksort(stable):
        def f(st, args, n):
            a, b = ex.rval(st, args[0]), ex.rval(st, args[1])
            lam = ex.rval(st, args[2]) if len(args) > 2 else None
            sort_range(ex, st, a, b, lam, stable, n)
            return None
        return f
    B['parallel_stable_sort'] = mksort(True)
    B['stable_sort'] = mksort(True)
    B['sort'] = mksort(False)


UB = z3.Function('upper_bound', z3.ArraySort(IntS, IntS), IntS, IntS, IntS, IntS)


def comparator(ex, st, lam, el, n, A, B_):
    """formula of lam(a, b) for symbolic element values A, B_ ({path: term})"""
    from .interp import LambdaVal
    def tmp(vals):
        r = ex.region('cmparg', el, IV(1), True, 'temp')
        for p, t in vals.items(): st.mem[(r, p)] = t
        return Loc(r, IV(0), (), None, el)
    if lam is None: raise Unsupported('sort without comparator')
    if not isinstance(lam, LambdaVal): raise Unsupported('comparator %r' % lam)
    la, lb = tmp(A), tmp(B_)
    if not el.k == 'rec':
        return ex.to_bool(ex.call_lambda(st, lam, [la, lb], n))
    ps = [c for c in lam.method.get('inner', []) if c and c.get('kind') == 'ParmVarDecl']
    vals = []
    for p, l in zip(ps, (la, lb)):
        vals.append(l if node_type(p).k == 'ref' else ex.read(st, l, n))
    return ex.to_bool(ex.call_lambda(st, lam, vals, n))


def sort_range(ex, st, a, b, lam, stable, n):
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is b.region): raise Unsupported('sort range')
    r, lo, hi = a.region, a.off, b.off
    el = r.elem
    lv = ex.leaves(el)
    for p, t in lv:
        for lg in ex.modlog: lg.add((r, p))
    old = {p: ex.rawget(st, r, p) for p, t in lv}
    if ex.dry:
        for p, t in lv: st.mem[(r, p)] = ex.fresh('sorted', old[p].sort())
        return
    ex.assumed.add('parallel_stable_sort / std::stable_sort return the stable sorted permutation of the range; std::sort a sorted one' )
    ex.oblige(st, 'bounds', z3.And(lo >= 0, lo <= hi, hi <= r.size), n, 'sorted range lies inside the array')
    # comparator on arbitrary elements of the range
    es = st.fork()
    def sym(tag):
        d = {}
        i = ex.fresh('e' + tag, IntS)
        es.assume(z3.And(lo <= i, i < hi))
        for p, t in lv:
            d[p] = z3.Select(old[p], i)
            if t.k == 'int': ex.assume_range(es, d[p], t)
        return d
    A, B_, C_ = sym('a'), sym('b'), sym('c')
    nob = len(ex.obs)
    ab = comparator(ex, es, lam, el, n, A, B_)
    base = len(es.pc)
    # strict weak order
    sv = ex.obs
    ba = comparator(ex, es, lam, el, n, B_, A)
    bc = comparator(ex, es, lam, el, n, B_, C_)
    cb = comparator(ex, es, lam, el, n, C_, B_)
    ac = comparator(ex, es, lam, el, n, A, C_)
    ca = comparator(ex, es, lam, el, n, C_, A)
    ex.oblige(es, 'order', z3.Not(z3.And(ab, ba)), n, 'the comparison is asymmetric')
    ex.oblige(es, 'order', z3.Implies(z3.And(ab, bc), ac), n, 'the comparison is transitive')
    ex.oblige(es, 'order', z3.Implies(z3.And(z3.Not(ab), z3.Not(ba), z3.Not(bc), z3.Not(cb)), z3.And(z3.Not(ac), z3.Not(ca))), n,
              'elements the comparison does not distinguish are equivalent')
    ren = {}
    def inst(x, y):
        """comparison between explicit element values"""
        s = [(A[p], x[p]) for p in A] + [(B_[p], y[p]) for p in B_]
        return z3.substitute(ab, *s)
    k, j = z3.Ints('k!so j!so')
    new = {}
    for p, t in lv: new[p] = ex.fresh('sorted' + ''.join('.' + str(x) for x in p), old[p].sort())
    pi = z3.Function('pi!%d' % ex.nfresh, IntS, IntS)
    inv = z3.Function('inv!%d' % ex.nfresh, IntS, IntS)
    ex.sorts.append((r, lo, hi, pi, inv, old, new, list(st.conds), stable))
    pat = [z3.Select(new[p], k) for p, t in lv]
    body = [z3.And(pi(k) >= lo, pi(k) < hi, inv(pi(k)) == k)]
    for p, t in lv: body.append(z3.Select(new[p], k) == z3.Select(old[p], pi(k)))
    full = z3.is_int_value(lo) and lo.as_long() == 0 and r.size is not None and hi.eq(r.size)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.And(*body)), patterns=pat + [pi(k)]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.And(inv(k) >= lo, inv(k) < hi, pi(inv(k)) == k)), patterns=[inv(k)]))
    for p, t in lv:
        st.assume(z3.ForAll([k], z3.Implies(z3.Or(k < lo, k >= hi), z3.Select(new[p], k) == z3.Select(old[p], k)), patterns=[z3.Select(new[p], k)]))
    xj = {p: z3.Select(new[p], j) for p, t in lv}
    xk = {p: z3.Select(new[p], k) for p, t in lv}
    ckj = inst(xk, xj)
    cjk = inst(xj, xk)
    fs = [z3.Not(ckj)]
    if stable: fs.append(z3.Or(cjk, pi(j) < pi(k)))
    used = [p for p, t in lv if mentions(ab, A[p])] or [lv[0][0]]
    for p in used[:2]:
        st.assume(z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k, k < hi), z3.And(*fs)),
                            patterns=[z3.MultiPattern(z3.Select(new[p], j), z3.Select(new[p], k))]))
    for p, t in lv:
        idx = []
        ex.record(st, r, p, [lo], True, n)
        st.mem[(r, p)] = new[p]
    hook = ex.cfg and getattr(ex.cfg, 'on_permute', None)
    if hook: hook(ex, st, r, lo, hi, pi, inv, old, new, n)


def mentions(t, x):
    st, seen = [t], set()
    xi = x.get_id()
    while st:
        y = st.pop()
        if y.get_id() == xi: return True
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        st.extend(y.children())
    return False
