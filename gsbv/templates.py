"""Candidate loop invariants.

Invariants are found, not written next to the code: every loop gets a family of
candidates built from the variables in scope and from the contract being
verified; candidates that the verifier cannot show to hold on entry and to be
preserved are dropped (Houdini), and only the ones that survive are assumed.
A wrong candidate can therefore never make a proof unsound, and a rewritten
loop gets its own invariants."""
import z3
from .core import *


class Sc:
    """an integer (or pointer offset) variable"""
    __slots__ = ('name', 'r', 'p', 'mod', 'ex', 'ent', 'sort', 'ptr')

    def __init__(self, ex, name, r, p, mod, ent):
        self.ex, self.name, self.r, self.p, self.mod = ex, name, r, p, mod
        self.ptr = isinstance(ent, Ptr)
        self.ent = self._t(ent)

    def _t(self, v):
        if isinstance(v, Ptr):
            if v.region is None: return None
            return v.sub if ('[]' in v.path) else v.off
        return v if z3.is_expr(v) and z3.is_int(v) else None

    def __call__(self, st):
        return self._t(self.ex.rawget(st, self.r, self.p))


def is_stack(r): return r.kind in ('local', 'temp')


def scalars(ctx):
    ex = ctx.ex
    mods = set(ctx.mods)
    live = {l.region for l in ctx.env.values()}
    seen, out = set(), []
    items = list(ctx.head.mem.items()) + list(ex.init.items())
    for (r, p), v in items:
        if (r, p) in seen or isinstance(p, str) or not isinstance(r, Region): continue
        seen.add((r, p))
        if r.kind == 'temp' and not (r.single and r.elem.k == 'rec'): continue
        if is_stack(r) and r not in live: continue
        if not r.single: continue
        if '[]' in p: continue
        m = (r, p) in mods
        if m and r.kind == 'local' and r.elem.k != 'rec' and (r, p) not in ctx.entry.mem: continue     # not assigned yet
        if isinstance(v, Ptr):
            if not m: 
                continue
        elif not (z3.is_expr(v) and z3.is_int(v)): continue
        ent = ctx.entry.mem.get((r, p), ex.init.get((r, p)))
        if ent is None:
            if not m: continue
            ent = ex.rawget(ctx.entry, r, p)
        s = Sc(ex, r.stable + ''.join('.' + str(x) for x in p), r, p, m, ent)
        if s.ent is None: continue
        out.append(s)
    out.sort(key=lambda s: s.name)
    return out


def arrays(ctx, sort=None):
    """modified one-dimensional arrays: (name, r, p, getter, entry term)"""
    ex = ctx.ex
    out = []
    for (r, p) in ctx.mods:
        if isinstance(p, str): continue
        if ex.dims(r, p) != 1: continue
        def get(st, r=r, p=p):
            v = ex.rawget(st, r, p)
            if isinstance(v, PtrArr): v = v.offs
            return v
        e = get(ctx.entry)
        if not z3.is_expr(e) or not z3.is_array(e): continue
        out.append((r.stable + ''.join('.' + str(x) for x in p), r, p, get, e))
    return out


def reals(ctx):
    ex = ctx.ex
    out = []
    for (r, p) in ctx.mods:
        if isinstance(p, str) or ex.dims(r, p) != 0: continue
        e = ex.rawget(ctx.entry, r, p)
        h = ex.rawget(ctx.head, r, p)
        if z3.is_expr(h) and z3.is_real(h):
            out.append((r.stable + ''.join('.' + str(x) for x in p), r, p, lambda st, r=r, p=p: ex.rawget(st, r, p), e))
    return out


def arrs2(ctx):
    return [(r, p) for (r, p) in ctx.mods if not isinstance(p, str) and ctx.ex.dims(r, p) == 2]


def dedup(S):
    """unmodified scalars with the same term are interchangeable"""
    out, seen = [], set()
    for s in S:
        if not s.mod:
            i = s.ent.get_id()
            if i in seen: continue
            seen.add(i)
        out.append(s)
    return out


KQ = z3.Int('k!i')


def allk(lo, hi, body, pats):
    rngs = []
    if lo is not None: rngs.append(KQ >= lo if not isinstance(lo, tuple) else KQ > lo[0])
    if hi is not None: rngs.append(KQ < hi)
    f = z3.Implies(z3.And(*rngs), body) if rngs else body
    return z3.ForAll([KQ], f, patterns=pats)


def generic(ctx, lean=False):
    """lean: fewer candidates, for functions with many variables"""
    ex = ctx.ex
    key = ctx.key
    S = dedup(scalars(ctx))
    M = [s for s in S if s.mod]
    U = [s for s in S if not s.mod]
    L = []

    def c(name, f):
        L.append(((key, name), f))

    for v in M:
        c('%s>=0' % v.name, lambda st, v=v: v(st) >= 0)
        c('%s>=entry' % v.name, lambda st, v=v: v(st) >= v.ent)
        c('%s<=entry' % v.name, lambda st, v=v: v(st) <= v.ent)
        for u in U:
            c('%s<=%s' % (v.name, u.name), lambda st, v=v, u=u: v(st) <= u.ent)
            c('%s>=%s' % (v.name, u.name), lambda st, v=v, u=u: v(st) >= u.ent)
            if not lean: c('%s<=%s|entry' % (v.name, u.name), lambda st, v=v, u=u: z3.Or(v(st) <= u.ent, v(st) == v.ent))
        for u in M:
            if u is v: continue
            c('%s<=%s' % (v.name, u.name), lambda st, v=v, u=u: v(st) <= u(st))
            if v.name < u.name:
                c('%s-%s' % (v.name, u.name), lambda st, v=v, u=u: v(st) - u(st) == v.ent - u.ent)
    for (nm, r, p, get, e) in arrays(ctx):
        def same(lo, hi, g=get, e=e):
            def f(st):
                l = lo(st) if callable(lo) else lo
                h = hi(st) if callable(hi) else hi
                a = g(st)
                return allk(l, h, z3.Select(a, KQ) == z3.Select(e, KQ), [z3.Select(a, KQ)])
            return f
        for v in M:
            c('%s same>=%s' % (nm, v.name), same(v, None))
            c('%s same>%s' % (nm, v.name), same(lambda st, v=v: (v(st),), None))
            c('%s same<%s' % (nm, v.name), same(None, v))
        if not lean and r.kind in ('new[]', 'malloc') and e.sort().range() in (z3.IntSort(), z3.RealSort()):
            # an array set to zero by a loop of its own
            for v in M:
                c('%s zero<%s' % (nm, v.name), lambda st, g=get, v=v: allk(0, v(st), z3.Select(g(st), KQ) == 0, [z3.Select(g(st), KQ)]))
        for u in [] if lean else U:
            c('%s same<%s' % (nm, u.name), same(None, u.ent))
            c('%s same>=%s' % (nm, u.name), same(u.ent, None))
            c('%s same!=%s' % (nm, u.name), lambda st, g=get, e=e, u=u: z3.ForAll(
                [KQ], z3.Implies(KQ != u.ent, z3.Select(g(st), KQ) == z3.Select(e, KQ)), patterns=[z3.Select(g(st), KQ)]))
    return L


def from_contract(ctx, con, c0):
    """candidates derived from the contract under verification"""
    ex = ctx.ex
    key = ctx.key
    S = dedup(scalars(ctx))
    M = [s for s in S if s.mod]
    U = [s for s in S if not s.mod]
    L = []

    def c(name, f):
        L.append(((key, name), f))

    modr = {k[0] for k in ctx.mods}
    A = arrays(ctx)
    # prefix functions: what has been accumulated so far
    for pf in con.prefixes(c0):
        nm, F, kind = pf[0], pf[1], pf[2]
        off = pf[3] if len(pf) > 3 else (IV(0),)
        bos = pf[4] if len(pf) > 4 else None
        stf = getattr(F, 'stateful', False)
        if kind == 'count' and not con.lean and not any(z3.is_int_value(o) and o.as_long() == 1 for o in off): off = tuple(off) + (IV(1),)   # a loop that starts at 1
        for sgn in (1,) if con.lean else (1, -1):
            for u in M:
                for o in off:
                    def Fu(st, t, *xs, o=o, F=F, stf=stf):
                        return F(st, sub(t, o), *xs) if stf else F(sub(t, o), *xs)
                    tag = '%s%+d(%s-%s)' % (nm, sgn, u.name, o)

                    def keep(getter, *xs, u=u, s=sgn, Fu=Fu, ent=ctx.entry):
                        """getter(state) -/+ F(u) is the same now as on loop entry"""
                        return lambda st: getter(st) - s * Fu(st, u(st), *xs) == getter(ent) - s * Fu(ent, u.ent, *xs)
                    if kind == 'scalar':
                        for (rn, r, p, get, e) in reals(ctx):
                            c('%s~%s' % (rn, tag), keep(get))
                        for (an, r, p, get, e) in A:
                            if not z3.is_real(z3.Select(e, KQ)): continue
                            for t in U:
                                c('%s[%s]~%s' % (an, t.name, tag), keep(lambda st, g=get, t=t: z3.Select(g(st), t.ent)))
                    elif kind == 'cells':
                        for (an, r, p, get, e) in A:
                            if z3.Select(e, KQ).sort() != Fu(ctx.entry, IV(0), IV(0)).sort(): continue
                            for bo in bos(r, p) if bos else (IV(0),):
                                f = keep(lambda st, g=get: z3.Select(g(st), KQ), sub(KQ, bo))
                                lo = KQ >= bo
                                if not (z3.is_int_value(bo) and bo.as_long() == 0):
                                    c('%s same below %s' % (an, bo), lambda st, g=get, e=e, bo=bo: z3.ForAll([KQ], z3.Implies(
                                        KQ < bo, z3.Select(g(st), KQ) == z3.Select(e, KQ)), patterns=[z3.Select(g(st), KQ)]))
                                c('%s[*-%s]~%s' % (an, bo, tag), lambda st, f=f, g=get, lo=lo: z3.ForAll([KQ], z3.Implies(lo, f(st)), patterns=[z3.Select(g(st), KQ)]))
                    elif kind == 'rowcells':
                        for t in U:
                            for (rn, r, p, get, e) in reals(ctx):
                                c('%s~%s,%s' % (rn, tag, t.name), keep(get, t.ent))
                            for (an, r, p, get, e) in A:
                                if not z3.is_real(z3.Select(e, KQ)): continue
                                c('%s[%s]~%s' % (an, t.name, tag), keep(lambda st, g=get, t=t: z3.Select(g(st), t.ent), t.ent))
                    elif kind == 'count':
                        for v in M:
                            if v is u: continue
                            c('%s~%s' % (v.name, tag), keep(v))
    # a variable that mirrors an element of an index array
    for (an, g) in con.index_arrays(c0):
        for v in M:
            for u in M:
                if u is v: continue
                c('%s==%s[%s]' % (v.name, an, u.name), lambda st, v=v, u=u, g=g: v(st) == g(st, u(st)))
    # pointwise facts of the postcondition
    for (nm, lo, hi, P, pats) in con.cells(c0):
        def body(st, P=P): return P(st, KQ)
        for v in M:
            def fwd(st, v=v, P=P, lo=lo, pats=pats):
                return allk(lo, v(st), P(st, KQ), pats(st, KQ))
            def fwd0(st, v=v, P=P, lo=lo, pats=pats):
                return allk(v.ent, v(st), P(st, KQ), pats(st, KQ))
            def bwd(st, v=v, P=P, hi=hi, pats=pats):
                return allk(v(st), hi, P(st, KQ), pats(st, KQ))
            c('%s <%s' % (nm, v.name), fwd)
            c('%s entry..%s' % (nm, v.name), fwd0)
            c('%s >=%s' % (nm, v.name), bwd)
            c('%s <=%s' % (nm, v.name), lambda st, v=v, P=P, lo=lo, pats=pats: allk(lo, v(st) + 1, P(st, KQ), pats(st, KQ)))
            if con.lean: continue
            c('%s >%s' % (nm, v.name), lambda st, v=v, P=P, hi=hi, pats=pats: allk(v(st) + 1, hi, P(st, KQ), pats(st, KQ)))
        c('%s all' % nm, lambda st, P=P, lo=lo, hi=hi, pats=pats: allk(lo, hi, P(st, KQ), pats(st, KQ)))
        for u in [] if con.lean else U:
            c('%s <%s' % (nm, u.name), lambda st, u=u, P=P, lo=lo, pats=pats: allk(lo, u.ent, P(st, KQ), pats(st, KQ)))
            c('%s >=%s' % (nm, u.name), lambda st, u=u, P=P, hi=hi, pats=pats: allk(u.ent, hi, P(st, KQ), pats(st, KQ)))
    # frame: elements outside the modifies windows keep the value they had on function entry
    for (an, r, p, get, e) in A:
        w = con.window(c0, r, p)
        if w is None: continue
        e0 = c0.ex.rawget(c0.s0, r, p)
        if isinstance(e0, PtrArr): e0 = e0.offs
        if not z3.is_array(e0): continue
        c('%s frame' % an, lambda st, g=get, e0=e0, w=w: z3.ForAll(
            [KQ], z3.Implies(z3.Or(KQ < w[0], KQ >= w[1]), z3.Select(g(st), KQ) == z3.Select(e0, KQ)), patterns=[z3.Select(g(st), KQ)]))
    for nm, f in con.extra_templates(c0, ctx, M, U):
        c(nm, f)
    return L
