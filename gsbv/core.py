"""Values, memory and arithmetic of the verification-condition generator.

Integers are mathematical integers with the C type's wrap-around written out
(mode 'int'), or bit-vectors (mode 'bv').  Floating values are reals; products
of two unknown reals are an uninterpreted commutative function.
"""
import z3
from .astdb import CT, U32, I32, U64, F32, BOOL

_ForAll = z3.ForAll


def _forall(vs, body, *a, **kw):
    """z3.ForAll that falls back to inferred patterns when a term cannot be one"""
    try:
        return _ForAll(vs, body, *a, **kw)
    except z3.Z3Exception:
        kw.pop('patterns', None)
        return _ForAll(vs, body, *a, **kw)


z3.ForAll = _forall
_MultiPattern, _alive = z3.MultiPattern, []


def _multipattern(*args):
    """z3.MultiPattern whose terms stay referenced (freed temporaries can crash z3)"""
    p = _MultiPattern(*args)
    _alive.append((p, args))
    return p


z3.MultiPattern = _multipattern

z3.set_param("warning", False)
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
IV = z3.IntVal


class Unsupported(Exception):
    pass


class Region:
    _n = 0

    def __init__(self, name, elem, size=None, single=False, kind='param', born=0):
        self.name, self.elem, self.size, self.single, self.kind = name, elem, size, single, kind
        self.born = born
        self.stable = name
        self.fields = None

    def __repr__(self):
        return 'R(%s)' % self.name


class Ptr:
    """pointer value: element `off` of `region`, optionally to a member"""
    __slots__ = ('region', 'off', 'path', 'sub')

    def __init__(self, region, off, path=(), sub=None):
        self.region, self.off, self.path, self.sub = region, off, path, sub

    def __repr__(self):
        return 'Ptr(%s+%s%s)' % (self.region, self.off, ''.join('.' + str(p) for p in self.path))


NULL = Ptr(None, IV(0))
NULLOFF = IV(-(1 << 80))     # a null pointer in an array of pointers


class Loc:
    __slots__ = ('region', 'off', 'path', 'sub', 'ct')

    def __init__(self, region, off, path=(), sub=None, ct=None):
        self.region, self.off, self.path, self.sub, self.ct = region, off, path, sub, ct


class PtrArr:
    """contents of an array of pointers that all point into one region"""
    __slots__ = ('region', 'offs')

    def __init__(self, region, offs):
        self.region, self.offs = region, offs


class StructVal:
    def __init__(self, leaves):
        self.leaves = leaves     # path -> value


class LambdaVal:
    def __init__(self, method, env):
        self.method, self.env = method, env


class Opaque:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


def is_num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_bv_value(t)


def simp(t):
    return z3.simplify(t)


def add(a, b):
    if z3.is_int_value(a) and a.as_long() == 0: return b
    if z3.is_int_value(b) and b.as_long() == 0: return a
    if z3.is_int_value(a) and z3.is_int_value(b): return IV(a.as_long() + b.as_long())
    # (x + c) + d
    r = a + b
    if z3.is_int_value(a) or z3.is_int_value(b): r = z3.simplify(r)
    return r


def sub(a, b):
    if z3.is_int_value(b) and b.as_long() == 0: return a
    if z3.is_int_value(a) and z3.is_int_value(b): return IV(a.as_long() - b.as_long())
    if a.eq(b): return IV(0)
    r = a - b
    if z3.is_int_value(b): r = z3.simplify(r)
    return r


def rng(ct):
    if ct.k == 'bool': return 0, 1
    if ct.signed: return -(1 << (ct.bits - 1)), (1 << (ct.bits - 1)) - 1
    return 0, (1 << ct.bits) - 1


# ------------------------------------------------------------- integer domain

IMUL = z3.Function('imul', IntS, IntS, IntS)
IDIV = z3.Function('idiv', IntS, IntS, IntS)
IMOD = z3.Function('imod', IntS, IntS, IntS)
FMUL = z3.Function('fmul', RealS, RealS, RealS)
FDIV = z3.Function('fdiv', RealS, RealS, RealS)
CEIL = z3.Function('fceil', RealS, IntS)


def linear(t):
    """(dict atom_ast -> coeff, const) of an Int term"""
    if z3.is_int_value(t): return {}, t.as_long()
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            d, c = {}, 0
            for ch in t.children():
                d2, c2 = linear(ch)
                for a, v in d2.items(): d[a] = d.get(a, 0) + v
                c += c2
            return {a: v for a, v in d.items() if v}, c
        if k == z3.Z3_OP_SUB:
            d, c = linear(t.children()[0])
            d = dict(d)
            for ch in t.children()[1:]:
                d2, c2 = linear(ch)
                for a, v in d2.items(): d[a] = d.get(a, 0) - v
                c -= c2
            return {a: v for a, v in d.items() if v}, c
        if k == z3.Z3_OP_UMINUS:
            d, c = linear(t.children()[0])
            return {a: -v for a, v in d.items()}, -c
        if k == z3.Z3_OP_MUL:
            ch = t.children()
            if len(ch) == 2 and z3.is_int_value(ch[0]):
                d, c = linear(ch[1])
                f = ch[0].as_long()
                return {a: v * f for a, v in d.items()}, c * f
            if len(ch) == 2 and z3.is_int_value(ch[1]):
                d, c = linear(ch[0])
                f = ch[1].as_long()
                return {a: v * f for a, v in d.items()}, c * f
    return {_K(t): 1}, 0


class _K:
    """hashable ast wrapper"""
    __slots__ = ('t',)

    def __init__(self, t): self.t = t
    def __hash__(self): return self.t.hash()
    def __eq__(self, o): return self.t.eq(o.t)


def from_linear(d, c):
    terms = []
    for a, v in sorted(d.items(), key=lambda kv: kv[0].t.get_id()):
        terms.append(a.t if v == 1 else IV(v) * a.t)
    if c or not terms: terms.append(IV(c))
    if len(terms) == 1: return terms[0]
    return z3.Sum(terms) if len(terms) > 2 else terms[0] + terms[1]


def mk_imul(a, b):
    """product of two Int terms, distributed over sums; atoms are imul(x,y)"""
    da, ca = linear(a)
    db, cb = linear(b)
    if not da and not db: return IV(ca * cb)
    if not da: return from_linear({k: v * ca for k, v in db.items() if v * ca}, ca * cb)
    if not db: return from_linear({k: v * cb for k, v in da.items() if v * cb}, ca * cb)
    out = {}
    for x, vx in da.items():
        for y, vy in db.items():
            p, q = (x, y) if x.t.sexpr() <= y.t.sexpr() else (y, x)
            k = _K(IMUL(p.t, q.t))
            out[k] = out.get(k, 0) + vx * vy
    for x, vx in da.items():
        if cb: out[x] = out.get(x, 0) + vx * cb
    for y, vy in db.items():
        if ca: out[y] = out.get(y, 0) + vy * ca
    return from_linear({k: v for k, v in out.items() if v}, ca * cb)


def mk_fmul(a, b):
    if z3.is_rational_value(a) or z3.is_rational_value(b):
        return z3.simplify(a * b)
    if a.sexpr() <= b.sexpr(): return FMUL(a, b)
    return FMUL(b, a)


def arith_axioms(used):
    """true facts about multiplication and division, as triggered axioms"""
    a, b, y, x = z3.Ints('a!m b!m y!m x!m')
    ax = []
    ax.append(z3.ForAll([a, b], z3.And(
        IMUL(a, b) == IMUL(b, a),
        z3.Implies(z3.And(a >= 0, b >= 0), IMUL(a, b) >= 0),
        z3.Implies(a == 0, IMUL(a, b) == 0),
        z3.Implies(a == 1, IMUL(a, b) == b),
        z3.Implies(z3.And(a >= 1, b >= 0), IMUL(a, b) >= b)), patterns=[IMUL(a, b)]))
    ax.append(z3.ForAll([a, b, y], z3.And(
        z3.Implies(z3.And(a < b, y >= 0), IMUL(a, y) + y <= IMUL(b, y)),
        z3.Implies(b == a + 1, IMUL(b, y) == IMUL(a, y) + y)),
        patterns=[z3.MultiPattern(IMUL(a, y), IMUL(b, y))]))
    if 'idiv' in used or 'imod' in used:
        q, r = IDIV(x, y), IMOD(x, y)
        body = z3.Implies(z3.And(y > 0, x >= 0),
                          z3.And(x == IMUL(q, y) + r, r >= 0, r < y, q >= 0, q <= x, r <= x))
        ax.append(z3.ForAll([x, y], body, patterns=[IDIV(x, y)]))
        ax.append(z3.ForAll([x, y], body, patterns=[IMOD(x, y)]))
    return ax


def float_axioms():
    a, b = z3.Reals('a!f b!f')
    return [z3.ForAll([a, b], FMUL(a, b) == FMUL(b, a), patterns=[FMUL(a, b)])]


ARITH = ('imul', 'idiv', 'imod', 'fmul')


def used_decls(ts, memo):
    """which of the arithmetic functions occur in the terms; memo: {id: (term, set)}"""
    st = list(ts)
    while st:
        t = st[-1]
        i = t.get_id()
        if i in memo: st.pop(); continue
        ch = [t.body()] if z3.is_quantifier(t) else t.children() if z3.is_app(t) else []
        new = [x for x in ch if x.get_id() not in memo]
        if new: st.extend(new); continue
        u = frozenset().union(*[memo[x.get_id()][1] for x in ch])
        if ch and not z3.is_quantifier(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in ARITH: u |= {d.name()}
        memo[i] = (t, u)
        st.pop()
    return set().union(*[memo[t.get_id()][1] for t in ts])
