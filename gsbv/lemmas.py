"""Counting functions over index arrays, and the lemmas about them.

The definitions are recursive in n; every lemma used by a contract is itself
proved here, by induction, on every run (`prove_all`)."""
import z3
from .core import *

ArrI = z3.ArraySort(IntS, IntS)
CNT = z3.Function('Cnt', ArrI, IntS, IntS, IntS)      # #{ j<n : a[j] = r }
CL = z3.Function('CntLess', ArrI, IntS, IntS, IntS)   # #{ j<n : a[j] < r }
CHG = z3.Function('Changes', ArrI, IntS, IntS)        # #{ 0<j<n : a[j] != a[j-1] } + (n>0)


def defs():
    a = z3.Const('a!d', ArrI)
    k, r, j = z3.Ints('k!d r!d j!d')
    out = []
    for F, cmp in ((CNT, lambda x, r: x == r), (CL, lambda x, r: x < r)):
        out.append(z3.ForAll([a, r], F(a, IV(0), r) == 0, patterns=[F(a, IV(0), r)]))
        out.append(z3.ForAll([a, k, r, j], z3.Implies(k >= 0, F(a, k + 1, r) == F(a, k, r) + z3.If(cmp(z3.Select(a, k), r), 1, 0)),
                             patterns=[z3.MultiPattern(z3.Select(a, k), F(a, j, r))]))
    return out


def chg_defs():
    a = z3.Const('a!d', ArrI)
    k, j = z3.Ints('k!d j!d')
    return [z3.ForAll([a], CHG(a, IV(0)) == 0, patterns=[CHG(a, IV(0))]),
            z3.ForAll([a, k, j], z3.Implies(k >= 0, CHG(a, k + 1) == CHG(a, k) + z3.If(z3.Or(k == 0, z3.Select(a, k) != z3.Select(a, k - 1)), 1, 0)),
                      patterns=[z3.MultiPattern(z3.Select(a, k), CHG(a, j))])]


def chg_steps():
    """the same definition, unfolded only between elements that are both mentioned"""
    a = z3.Const('a!d', ArrI)
    k, j, p = z3.Ints('k!d j!d p!d')
    return [z3.ForAll([a, j], z3.And(CHG(a, IV(0)) == 0, CHG(a, IV(1)) == 1), patterns=[CHG(a, j)]),
            z3.ForAll([a, k, p, j], z3.Implies(z3.And(p >= 0, k == p + 1), CHG(a, k + 1) == CHG(a, k) + z3.If(z3.Select(a, k) != z3.Select(a, p), 1, 0)),
                      patterns=[z3.MultiPattern(z3.Select(a, k), z3.Select(a, p), CHG(a, j))])]


def slot_def():
    a = z3.Const('a!d', ArrI)
    k, j, r = z3.Ints('k!d j!d r!d')
    b = z3.Select(SLOT(a), k) == CHG(a, k + 1) - 1
    return [z3.ForAll([a, k], b, patterns=[z3.Select(SLOT(a), k)]), z3.ForAll([a, k, j, r], b, patterns=[z3.MultiPattern(z3.Select(a, k), CNT(SLOT(a), j, r))])]


PSUM = z3.Function('Psum', ArrI, IntS, IntS, IntS)    # a[lo] + ... + a[lo+n-1]
MAXF = z3.Function('Maxof', ArrI, IntS, IntS, IntS)   # max(0, a[lo], ..., a[lo+n-1])
SLOT = z3.Function('Slot', ArrI, ArrI)                # position k -> index of its run of equal values


def psum_defs():
    """unfolded where an element is mentioned"""
    a = z3.Const('a!d', ArrI)
    lo, k, j = z3.Ints('lo!d k!d j!d')
    return [z3.ForAll([a, lo], PSUM(a, lo, IV(0)) == 0, patterns=[PSUM(a, lo, IV(0))]),
            z3.ForAll([a, lo, k, j], z3.Implies(k >= lo, PSUM(a, lo, k - lo + 1) == PSUM(a, lo, k - lo) + z3.Select(a, k)),
                      patterns=[z3.MultiPattern(z3.Select(a, k), PSUM(a, lo, j))])]


def psum_mono(a, lo, n):
    """non-negative elements: the sums never decrease"""
    i, j, k = z3.Ints('i!l j!l k!l')
    return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < lo + n), z3.Select(a, k) >= 0), patterns=[z3.Select(a, k)]),
                      z3.And(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n), PSUM(a, lo, i) <= PSUM(a, lo, j)),
                                       patterns=[z3.MultiPattern(PSUM(a, lo, i), PSUM(a, lo, j))]),
                             PSUM(a, lo, IV(0)) == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), PSUM(a, lo, i) >= 0), patterns=[PSUM(a, lo, i)])))


def psum_scaled(a, lo, n, m):
    """elements at most m: b elements add up to at most b*m"""
    b, k = z3.Ints('b!l k!l')
    return z3.Implies(z3.And(m >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < lo + n), z3.Select(a, k) <= m), patterns=[z3.Select(a, k)])),
                      z3.ForAll([b], z3.Implies(z3.And(0 <= b, b <= n), PSUM(a, lo, b) <= mk_imul(b, m)), patterns=[PSUM(a, lo, b)]))


def max_defs():
    a = z3.Const('a!d', ArrI)
    lo, k, j = z3.Ints('lo!d k!d j!d')
    x, m = z3.Select(a, k), MAXF(a, lo, k - lo)
    return [z3.ForAll([a, lo], MAXF(a, lo, IV(0)) == 0, patterns=[MAXF(a, lo, IV(0))]),
            z3.ForAll([a, lo, k, j], z3.Implies(k >= lo, MAXF(a, lo, k - lo + 1) == z3.If(x > m, x, m)),
                      patterns=[z3.MultiPattern(z3.Select(a, k), MAXF(a, lo, j))])]


def max_upper(a, lo, n):
    k = z3.Int('k!l')
    return z3.Implies(n >= 0, z3.And(MAXF(a, lo, n) >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < lo + n), z3.Select(a, k) <= MAXF(a, lo, n)), patterns=[z3.Select(a, k)])))


def slot_defs(): return chg_defs() + slot_def()


def lem_chg():
    """CHG: between 0 and n, 0 only for no elements, never decreases"""
    a = z3.Const('a!l', ArrI); n, m = z3.Ints('n!l m!l')
    return [z3.ForAll([a, n], z3.Implies(n >= 0, z3.And(CHG(a, n) >= 0, CHG(a, n) <= n, z3.Implies(n >= 1, CHG(a, n) >= 1))), patterns=[CHG(a, n)]),
            z3.ForAll([a, n, m], z3.Implies(z3.And(0 <= n, n <= m), CHG(a, n) <= CHG(a, m)), patterns=[z3.MultiPattern(CHG(a, n), CHG(a, m))])]


def chg_runs(a, n):
    """every run has an element"""
    j = z3.Int('j!l')
    return z3.Implies(n >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < CHG(a, n)), CNT(SLOT(a), n, j) >= 1), patterns=[CNT(SLOT(a), n, j)]))


def chg_ext(a, b, n):
    """equal elements: equal counts"""
    k = z3.Int('k!l')
    return z3.Implies(z3.And(n >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(a, k) == z3.Select(b, k)), patterns=[z3.Select(a, k), z3.Select(b, k)])),
                      CHG(a, n) == CHG(b, n))


def incr_identity(pi, inv, lo, hi):
    """an increasing permutation of [lo,hi) is the identity"""
    j, k = z3.Ints('j!l k!l')
    return z3.Implies(z3.And(
        z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.And(pi(k) >= lo, pi(k) < hi, inv(pi(k)) == k))),
        z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.And(inv(k) >= lo, inv(k) < hi, pi(inv(k)) == k))),
        z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k, k < hi), pi(j) < pi(k)))),
        z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), pi(k) == k), patterns=[pi(k)]))


def lem_split():
    """CL(n, r+1) = CL(n, r) + Cnt(n, r)"""
    a = z3.Const('a!l', ArrI); n, r = z3.Ints('n!l r!l')
    return z3.ForAll([a, n, r], z3.Implies(n >= 0, CL(a, n, r + 1) == CL(a, n, r) + CNT(a, n, r)), patterns=[CNT(a, n, r)])


def lem_range():
    a = z3.Const('a!l', ArrI); n, r = z3.Ints('n!l r!l')
    return [z3.ForAll([a, n, r], z3.Implies(n >= 0, z3.And(F(a, n, r) >= 0, F(a, n, r) <= n)), patterns=[F(a, n, r)]) for F in (CL, CNT)]


def inst_zero(a, n, lo=0):
    """no element below lo -> CL(n, lo) = 0"""
    k = z3.Int('k!l')
    return z3.Implies(z3.And(n >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, k) >= lo), patterns=[z3.Select(a, k)])),
                      CL(a, n, IV(lo) if isinstance(lo, int) else lo) == 0)


def inst_total(a, n, R):
    """all elements below R -> CL(n, R) = n"""
    k = z3.Int('k!l')
    return z3.Implies(z3.And(n >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, k) < R), patterns=[z3.Select(a, k)])),
                      CL(a, n, R) == n)


def inst_sorted(a, n):
    """sorted -> (k < CL(n, r) <-> a[k] < r)"""
    k, j, r = z3.Ints('k!l j!l r!l')
    srt = z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), z3.Select(a, j) <= z3.Select(a, k)),
                    patterns=[z3.MultiPattern(z3.Select(a, j), z3.Select(a, k))])
    return z3.Implies(z3.And(n >= 0, srt),
                      z3.ForAll([k, r], z3.Implies(z3.And(k >= 0, k < n), (k < CL(a, n, r)) == (z3.Select(a, k) < r)),
                                patterns=[z3.MultiPattern(z3.Select(a, k), CL(a, n, r))]))


def lem_mono():
    """CL grows with r"""
    a = z3.Const('a!l', ArrI); n, r, q = z3.Ints('n!l r!l q!l')
    return z3.ForAll([a, n, r, q], z3.Implies(z3.And(n >= 0, r <= q), CL(a, n, r) <= CL(a, n, q)), patterns=[z3.MultiPattern(CL(a, n, r), CL(a, n, q))])


def lean():
    """base without the definition of CL over its elements"""
    return [defs()[0], defs()[1], lem_split()] + lem_range() + [lem_mono()]


def base():
    return defs() + [lem_split()] + lem_range() + [lem_mono()]


def prove_all(timeout=10000):
    """[(lemma, ok)] by induction on n; the induction variable is a fresh constant"""
    from .verify import mk_solver
    a = z3.Const('a', ArrI)
    n, r, q, k = z3.Ints('n r q k')
    D = defs()
    out = []

    def valid(name, hyps, goal):
        s = mk_solver(timeout)
        for d in D: s.add(d)
        for h in hyps: s.add(h)
        s.add(z3.Not(goal))
        out.append((name, s.check() == z3.unsat))
    # mention the element so that the definition unfolds
    see = [z3.Select(a, n) == z3.Select(a, n)]
    e = z3.Int('e')
    see = [e == z3.Select(a, n)]
    P = lambda m: CL(a, m, r + 1) == CL(a, m, r) + CNT(a, m, r)
    valid('split/base', [], P(IV(0)))
    valid('split/step', see + [n >= 0, P(n)], P(n + 1))
    for F, nm in ((CL, 'CL'), (CNT, 'Cnt')):
        P = lambda m: z3.And(F(a, m, r) >= 0, F(a, m, r) <= m)
        valid('range %s/base' % nm, [], P(IV(0)))
        valid('range %s/step' % nm, see + [n >= 0, P(n)], P(n + 1))
    P = lambda m: z3.Implies(r <= q, CL(a, m, r) <= CL(a, m, q))
    valid('mono/base', [], P(IV(0)))
    valid('mono/step', see + [n >= 0, P(n)], P(n + 1))
    P = lambda m: CL(a, m, r) == 0
    valid('zero/base', [], P(IV(0)))
    valid('zero/step', see + [n >= 0, P(n), z3.Select(a, n) >= r], P(n + 1))
    P = lambda m: CL(a, m, r) == m
    valid('total/base', [], P(IV(0)))
    valid('total/step', see + [n >= 0, P(n), z3.Select(a, n) < r], P(n + 1))
    prove_more(out, timeout)
    prove_bands(out, timeout)
    prove_runs(out, timeout)
    # sorted: for all k<n (k < CL(n,r) <-> a[k] < r), strengthened with CL(n,r) <= n
    j = z3.Int('j')
    def P(m):
        return z3.And(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), (j < CL(a, m, r)) == (z3.Select(a, j) < r)), patterns=[z3.Select(a, j)]),
                      CL(a, m, r) <= m, CL(a, m, r) >= 0)
    valid('sorted/base', [], P(IV(0)))
    # step: a[j] <= a[n] for j < n
    valid('sorted/step', see + [n >= 0, P(n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(a, j) <= z3.Select(a, n)), patterns=[z3.Select(a, j)]),
                                k == z3.Select(a, n - 1), q == z3.Select(a, CL(a, n, r))], P(n + 1))
    return out


def prove_more(out, timeout):
    from .verify import mk_solver
    a, b = z3.Const('a', ArrI), z3.Const('b', ArrI)
    n, m, lo, k, j, i = z3.Ints('n m lo k j i')

    def valid(name, D, hyps, goal):
        s = mk_solver(timeout)
        for d in D: s.add(d)
        for h in hyps: s.add(h)
        for x in arith_axioms({'imul'}): s.add(x)
        s.add(z3.Not(goal))
        out.append((name, s.check() == z3.unsat))
    D = psum_defs()
    e = z3.Int('e')
    # mono: PSUM(i) <= PSUM(i+d), by induction on d
    P = lambda d: PSUM(a, lo, i) <= PSUM(a, lo, i + d)
    valid('psum mono/base', D, [i >= 0], P(IV(0)))
    valid('psum mono/step', D, [i >= 0, n >= 0, P(n), z3.Select(a, lo + (i + n)) >= 0, e == PSUM(a, lo, i + n)], P(n + 1))
    P = lambda d: PSUM(a, lo, d) <= IMUL(d, m)
    valid('psum scaled/base', D, [m >= 0], P(IV(0)))
    valid('psum scaled/step', D, [m >= 0, n >= 0, P(n), z3.Select(a, lo + n) <= m], P(n + 1))
    D = max_defs()
    P = lambda d: z3.And(MAXF(a, lo, d) >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < lo + d), z3.Select(a, k) <= MAXF(a, lo, d)), patterns=[z3.Select(a, k)]))
    valid('max/base', D, [], P(IV(0)))
    valid('max/step', D, [n >= 0, P(n), e == z3.Select(a, lo + n)], P(n + 1))
    # attained: the maximum is 0 or one of the elements
    Q = lambda d: z3.Or(MAXF(a, lo, d) == 0, z3.Exists([k], z3.And(k >= lo, k < lo + d, z3.Select(a, k) == MAXF(a, lo, d))))
    valid('max attained/base', D, [], Q(IV(0)))
    valid('max attained/step', D, [n >= 0, Q(n), e == z3.Select(a, lo + n)], Q(n + 1))
    D = slot_defs()
    see = [e == z3.Select(a, n)]
    P = lambda d: z3.And(CHG(a, d) >= 0, CHG(a, d) <= d, z3.Implies(d >= 1, CHG(a, d) >= 1))
    valid('runs range/base', D, [], P(IV(0)))
    valid('runs range/step', D, see + [n >= 0, P(n)], P(n + 1))
    P = lambda d: CHG(a, i) <= CHG(a, d)
    valid('runs mono/base', D, [i >= 0], P(i))
    valid('runs mono/step', D, see + [i >= 0, n >= i, P(n)], P(n + 1))
    D2 = D + defs() + lem_chg() + lem_range()
    P = lambda d: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < CHG(a, d)), CNT(SLOT(a), d, j) >= 1), patterns=[CNT(SLOT(a), d, j)])
    valid('runs inhabited/base', D2, [], P(IV(0)))
    valid('runs inhabited/step', D2, see + [n >= 0, P(n), i == z3.Select(SLOT(a), n)], P(n + 1))
    P = lambda d: CHG(a, d) == CHG(b, d)
    valid('runs ext/base', D, [], P(IV(0)))
    valid('runs ext/step', D, see + [n >= 0, P(n), z3.Select(a, n) == z3.Select(b, n), z3.Implies(n >= 1, z3.Select(a, n - 1) == z3.Select(b, n - 1))], P(n + 1))
    # increasing permutation: pi(k) >= k by induction up, inv(k) >= k likewise (inv increases too), so pi(k) <= k
    hi = z3.Int('hi')
    pi, inv = z3.Function('pi', IntS, IntS), z3.Function('inv', IntS, IntS)
    bij = [z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.And(pi(k) >= lo, pi(k) < hi, inv(pi(k)) == k)), patterns=[pi(k)]),
           z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.And(inv(k) >= lo, inv(k) < hi, pi(inv(k)) == k)), patterns=[inv(k)]),
           z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k, k < hi), pi(j) < pi(k)), patterns=[z3.MultiPattern(pi(j), pi(k))])]
    valid('increasing permutation/inverse increases', [], bij + [lo <= i, i < n, n < hi], inv(i) < inv(n))
    for F, nm in ((pi, 'pi'), (inv, 'inv')):
        mono = [z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k, k < hi), F(j) < F(k)), patterns=[z3.MultiPattern(F(j), F(k))])]
        valid('increasing permutation/%s base' % nm, [], bij + mono + [lo < hi], F(lo) >= lo)
        valid('increasing permutation/%s step' % nm, [], bij + mono + [lo <= n, n + 1 < hi, F(n) >= n], F(n + 1) >= n + 1)
    up = [z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), F(k) >= k), patterns=[F(k)]) for F in (pi, inv)]
    valid('increasing permutation/identity', [], bij + up + [lo <= n, n < hi], pi(n) == n)


WR = z3.Function('WideRow', ArrI, IntS, ArrI)          # position k -> a[k] / w


def wide_defs():
    a = z3.Const('a!d', ArrI)
    k, w = z3.Ints('k!d w!d')
    b = z3.Select(WR(a, w), k) == IDIV(z3.Select(a, k), w)
    return [z3.ForAll([a, k, w], b, patterns=[z3.Select(WR(a, w), k)]), z3.ForAll([a, k, w], b, patterns=[z3.MultiPattern(z3.Select(a, k), WR(a, w))])]


def band_below(n, w):
    """0 <= x < n: x/w is one of the ceil(n/w) bands"""
    x = z3.Int('x!l')
    return z3.Implies(z3.And(n >= 0, w >= 1), z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), IDIV(x, w) < IDIV(n + w - 1, w)), patterns=[IDIV(x, w)]))


def prove_bands(out, timeout):
    from .verify import mk_solver
    q, r, Q, R, n, w, x = z3.Ints('q r Q R n w x')
    s = mk_solver(timeout)
    s.add(w >= 1, 0 <= x, x < n, x == q * w + r, 0 <= r, r < w, n + w - 1 == Q * w + R, 0 <= R, R < w, q >= Q)
    # q >= Q gives q*w >= Q*w
    d = z3.Int('d')
    s.add(d == q - Q, q * w == Q * w + d * w, z3.Implies(z3.And(d >= 0, w >= 1), d * w >= 0))
    out.append(('band of a row', s.check() == z3.unsat))

RDIV = z3.Function('RunDiv', ArrI, IntS, ArrI)         # run q of equal values -> that value / m
RMOD = z3.Function('RunMod', ArrI, IntS, ArrI)
SVAL = z3.Function('SlotVal', ArrI, ArrI, ArrI)        # position k -> b[run of k]


def run_defs():
    """consistent: positions of one run have one value (same_run)"""
    a, b = z3.Const('a!d', ArrI), z3.Const('b!d', ArrI)
    k, m, j, r = z3.Ints('k!d m!d j!d r!d')
    v = z3.Select(SVAL(a, b), k) == z3.Select(b, CHG(a, k + 1) - 1)
    return [z3.ForAll([a, k, m], z3.Implies(k >= 0, z3.Select(F(a, m), CHG(a, k + 1) - 1) == G(z3.Select(a, k), m)), patterns=[z3.MultiPattern(z3.Select(a, k), F(a, m))])
            for F, G in ((RDIV, IDIV), (RMOD, IMOD))] + [z3.ForAll([a, b, k], v, patterns=[z3.Select(SVAL(a, b), k)]),
            z3.ForAll([a, b, k, j, r], v, patterns=[z3.MultiPattern(z3.Select(a, k), CNT(SVAL(a, b), j, r))])]


def boundary(a, n, v): return z3.Or(v == 0, v == n, z3.Select(a, v) != z3.Select(a, v - 1))


def run_start(a, n, v):
    """a run that begins at v: as many positions belong to earlier runs"""
    return z3.Implies(z3.And(0 <= v, v <= n, boundary(a, n, v)), CL(SLOT(a), n, CHG(a, v)) == v)


def run_positions(a, n):
    """position k belongs to an earlier run than q exactly if it lies before the positions of run q"""
    k, q = z3.Ints('k!l q!l')
    return z3.Implies(n >= 0, z3.ForAll([k, q], z3.Implies(z3.And(k >= 0, k < n), (k < CL(SLOT(a), n, q)) == (z3.Select(SLOT(a), k) < q)),
                                        patterns=[z3.MultiPattern(z3.Select(SLOT(a), k), CL(SLOT(a), n, q))]))


def run_order(a, n):
    """sorted: a later run has a greater value"""
    i, j = z3.Ints('i!l j!l')
    srt = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Select(a, i) <= z3.Select(a, j)), patterns=[z3.MultiPattern(z3.Select(a, i), z3.Select(a, j))])
    return z3.Implies(z3.And(n >= 0, srt), z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n, z3.Select(SLOT(a), i) != z3.Select(SLOT(a), j)), z3.Select(a, i) < z3.Select(a, j)),
                                                     patterns=[z3.MultiPattern(z3.Select(SLOT(a), i), z3.Select(SLOT(a), j))]))


def quotient(x, r, c, m):
    """x = r*m + c with 0 <= c < m"""
    return z3.Implies(z3.And(m > 0, r >= 0, 0 <= c, c < m, x == mk_imul(r, m) + c), z3.And(IDIV(x, m) == r, IMOD(x, m) == c))


def prove_runs(out, timeout):
    from .verify import mk_solver
    a = z3.Const('a', ArrI)
    n, i, j, v, q, r, c, m, x, e = z3.Ints('n i j v q r c m x e')

    def valid(name, D, hyps, goal):
        s = mk_solver(timeout)
        for d in D: s.add(d)
        for h in hyps: s.add(h)
        for g in arith_axioms({'imul', 'idiv', 'imod'}): s.add(g)
        s.add(z3.Not(goal))
        out.append((name, s.check() == z3.unsat))
    see = lambda *ks: [z3.Int('e!%d' % u) == z3.Select(a, k) for u, k in enumerate(ks)]
    valid('runs first', chg_defs(), [e == z3.Select(a, 0)], CHG(a, 1) == 1)
    D = chg_defs() + lem_chg()
    P = lambda d: z3.Implies(CHG(a, i + 1) == CHG(a, d + 1), z3.Select(a, i) == z3.Select(a, d))
    valid('same run/base', D, [i >= 0], P(i))
    valid('same run/step', D, see(j + 1) + [i >= 0, j >= i, P(j), e == CHG(a, j + 1)], P(j + 1))
    P = lambda d: z3.Implies(CHG(a, i + 1) != CHG(a, d + 1), z3.Select(a, i) < z3.Select(a, d))
    srt = z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < n), z3.Select(a, q) <= z3.Select(a, r)), patterns=[z3.MultiPattern(z3.Select(a, q), z3.Select(a, r))])
    valid('run order/base', D, [i >= 0], P(i))
    valid('run order/step', D, see(j + 1, j, i) + [srt, i >= 0, j >= i, j + 1 < n, P(j), e == CHG(a, j + 1)], P(j + 1))
    S = slot_defs() + lem_chg()
    k = z3.Int('k')
    valid('run positions/slots never decrease', S, [0 <= i, i < j, e == CHG(a, j + 1)], z3.Select(SLOT(a), i) <= z3.Select(SLOT(a), j))
    # run positions is inst_sorted for the slots
    valid('run start/upper', S + lem_range() + [run_positions(a, n)], see(v) + [0 <= v, v <= n, boundary(a, n, v), e == z3.Select(SLOT(a), v)], CL(SLOT(a), n, CHG(a, v)) <= v)
    valid('run start/lower', S + lem_range() + [run_positions(a, n)], see(v) + [0 <= v, v <= n, boundary(a, n, v), j == CL(SLOT(a), n, CHG(a, v)), e == z3.Select(SLOT(a), j)], j >= v)
    valid('quotient', [], [e == IDIV(x, m), m > 0, r >= 0, 0 <= c, c < m, x == IMUL(r, m) + c], z3.And(IDIV(x, m) == r, IMOD(x, m) == c))
