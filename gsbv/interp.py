"""Expression and statement semantics over the clang AST."""
import re
import z3
from .astdb import CT, U32, I32, U64, F32, BOOL, VOID, node_type, parse_type
from .core import *
from .exec import Exec, State, Obligation, Access, Recorder, Dead, SKIP, PtrChoice

IGNORED = {'printf', 'fprintf', 'puts', 'fputs', 'fflush', 'perror', 'putchar', 'setbuf'}
EXPLICIT_CASTS = ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr')
STMTS = {'CompoundStmt', 'DeclStmt', 'IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'ReturnStmt', 'BreakStmt', 'ContinueStmt',
         'NullStmt', 'SwitchStmt', 'AttributedStmt', 'OMPParallelForDirective', 'OMPTaskDirective', 'OMPTaskwaitDirective',
         'OMPSimdDirective', 'OMPParallelDirective', 'OMPMasterDirective', 'OMPForDirective', 'OMPSingleDirective',
         'OMPParallelForSimdDirective', 'OMPForSimdDirective'}

RDIV = z3.Function('fquot', RealS, RealS, RealS)


class Frame:
    def __init__(self, func, this):
        self.func, self.this = func, this
        self.returns = []
        self.brk, self.cont = [], []
        self.loopno = 0


class LoopCtx:
    """what a loop-invariant template may look at"""
    def __init__(self, ex, key, node, entry, head, mods, anc_env):
        self.ex, self.key, self.node, self.entry, self.head, self.mods = ex, key, node, entry, head, mods
        self.env = anc_env

    def scalars(self, state, modified=None):
        """[(stable name, term)] of integer scalars visible in the loop"""
        out = []
        ms = {(r, p) for (r, p) in self.mods}
        for (r, p), v in list(state.mem.items()):
            if not isinstance(r, Region) or not z3.is_expr(v) or not z3.is_int(v): continue
            if r.kind not in ('local', 'param', 'temp'): continue
            if not r.single and r.kind != 'local': continue
            m = (r, p) in ms
            if modified is not None and m != modified: continue
            out.append((r.stable + '.'.join(('',) + tuple(map(str, p))), v))
        return out


class Interp(Exec):
    MAXDEPTH = 14

    def __init__(self, db, mode='int', config=None):
        super().__init__(db, mode, config)
        self.contracts = []
        self.target = None
        self.builtins = {}
        from . import builtins as B
        B.install(self)

    def reset(self):
        super().reset()
        self.ordinals = {}

    # ------------------------------------------------------------ branch
    def branch(self, st, cond, ft, fe):
        c = z3.simplify(cond)
        if z3.is_true(c): return ft(st)
        if z3.is_false(c): return fe(st)
        s1, s2 = st.fork(), st.fork()
        s1.assume(cond); s1.conds.append(cond)
        nc = z3.Not(cond)
        s2.assume(nc); s2.conds.append(nc)
        v1 = v2 = None
        try: v1 = ft(s1)
        except Dead: s1 = None
        try: v2 = fe(s2)
        except Dead: s2 = None
        if s1 is None and s2 is None: raise Dead()
        if s1 is None or s2 is None:
            s, v = (s2, v2) if s1 is None else (s1, v1)
            self._become(st, s)
            return v
        m = self.merge([s1, s2], st)
        v = None
        if v1 is not None or v2 is not None: v = self.ite(cond, v1, v2)
        self._become(st, m)
        return v

    # ------------------------------------------------------------ lvalues
    def lval(self, st, n):
        k = n['kind']
        if k in SKIP: return self.lval(st, self.kid(n))
        if k == 'MaterializeTemporaryExpr':
            return self.as_loc(st, n['inner'][0], node_type(n))
        if k == 'ImplicitCastExpr':
            ck = n['castKind']
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast'):
                l = self.lval(st, n['inner'][0])
                return l
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in st.env: return st.env[d['id']]
            dn = self.db.by_id.get(d['id'])
            if dn is not None and dn.get('kind') == 'VarDecl':
                return self.global_var(st, dn)
            raise Unsupported('variable %s' % d.get('name'))
        if k == 'MemberExpr':
            fr = self.db.field_rec.get(n.get('referencedMemberDecl'))
            base = n['inner'][0]
            if n.get('isArrow'):
                p = self.rval(st, base)
                l = self.deref(st, p, node_type(base), n)
            else:
                l = self.as_loc(st, base, node_type(base))
            ct = node_type(n)
            return self.member(l, n['name'], ct)
        if k == 'ArraySubscriptExpr':
            a, b = n['inner']
            ta = node_type(a)
            if ta.k not in ('ptr', 'arr'): a, b = b, a; ta = node_type(a)
            p = self.rval(st, a)
            i = self.as_index(st, self.rval(st, b), node_type(b))
            q = self.ptr_add(st, p, i, n)
            return self.deref(st, q, ta, n)
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '*':
                p = self.rval(st, n['inner'][0])
                return self.deref(st, p, node_type(n['inner'][0]), n)
            if op in ('++', '--') and not n.get('isPostfix'):
                self.incdec(st, n)
                return self.lval(st, n['inner'][0])
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n['opcode']
            if op == ',':
                self.rval(st, n['inner'][0]); return self.lval(st, n['inner'][1])
            if op == '=' or op.endswith('='):
                return self.assign(st, n)
        if k == 'ConditionalOperator':
            c = self.cond(st, n['inner'][0])
            sc = z3.simplify(c)
            if z3.is_true(sc): return self.lval(st, n['inner'][1])
            if z3.is_false(sc): return self.lval(st, n['inner'][2])
            hold = []
            def f(i):
                def g(s):
                    hold.append(self.lval(s, n['inner'][i]))
                return g
            self.branch(st, c, f(1), f(2))
            if len(hold) == 2:
                a, b = hold
                if a.region is b.region and a.path == b.path:
                    return Loc(a.region, self.ite(c, a.off, b.off), a.path,
                               None if a.sub is None else self.ite(c, a.sub, b.sub), a.ct)
            raise Unsupported('conditional lvalue')
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            v = self.call_expr(st, n)
            if isinstance(v, Loc): return v
            return self.temp(st, v, node_type(n))
        if k == 'CXXThisExpr': raise Unsupported('this as lvalue')
        if k in EXPLICIT_CASTS or k == 'ImplicitCastExpr':
            if n.get('castKind') in ('NoOp',): return self.lval(st, n['inner'][0])
        return self.temp(st, self.rval(st, n), node_type(n))

    def kid(self, n):
        for c in n.get('inner', []):
            if c and 'kind' in c: return c
        raise Unsupported('empty %s' % n.get('kind'))

    def global_var(self, st, dn):
        ct = node_type(dn)
        key = ('glob', dn['id'])
        if key not in self.arenas:
            r = self.region('global_' + dn.get('name', '?'), ct, IV(1), True, 'param')
            self.arenas[key] = r
        return Loc(self.arenas[key], IV(0), (), None, ct)

    def as_loc(self, st, n, ct):
        """location of a glvalue or of a materialised prvalue"""
        return self.lval(st, n)

    def temp(self, st, v, ct):
        if isinstance(v, Loc): return v
        if ct.k == 'ref': ct = ct.to
        r = self.region('tmp', ct, IV(1), True, 'temp')
        l = Loc(r, IV(0), (), None, ct)
        self.write(st, l, v, None, False)
        return l

    def member(self, l, name, ct):
        if isinstance(l, StructVal): raise Unsupported('member of value')
        return Loc(l.region, l.off, l.path + (name,), l.sub, ct)

    def as_index(self, st, v, ct):
        if z3.is_bool(v): v = self.to_int(v)
        if self.mode == 'bv' and z3.is_bv(v):
            if z3.is_bv_value(z3.simplify(v)):
                v = z3.simplify(v)
                return IV(v.as_signed_long() if ct.signed else v.as_long())
            return z3.BV2Int(v, ct.signed)
        return v

    def ptr_add(self, st, p, i, n, sign=1):
        if isinstance(p, PtrChoice):
            return PtrChoice(p.c, self.ptr_add(st, p.a, i, n, sign), self.ptr_add(st, p.b, i, n, sign))
        if isinstance(p, Opaque): raise Unsupported('arithmetic on %r' % p)
        if not isinstance(p, Ptr): raise Unsupported('pointer arithmetic on %r' % (p,))
        if p.path and '[]' in p.path:
            return Ptr(p.region, p.off, p.path, add(p.sub, i) if sign > 0 else sub(p.sub, i))
        return Ptr(p.region, add(p.off, i) if sign > 0 else sub(p.off, i), p.path, p.sub)

    def deref(self, st, p, pt, n):
        if isinstance(p, PtrChoice):
            # choose by branching on the condition where it is decided
            if self.quick(st, p.c): return self.deref(st, p.a, pt, n)
            if self.quick(st, z3.Not(p.c)): return self.deref(st, p.b, pt, n)
            raise Unsupported('access through a pointer with two targets')
        if isinstance(p, Loc): return p
        if isinstance(p, Opaque): raise Unsupported('access through %r' % p)
        if not isinstance(p, Ptr): raise Unsupported('access through %r' % (p,))
        if p.region is None:
            self.oblige(st, 'null', z3.BoolVal(False), n, 'no access through a null pointer')
            raise Dead()
        to = pt.to if pt.k in ('ptr', 'arr') else pt
        return Loc(p.region, p.off, p.path, p.sub, to)

    # ------------------------------------------------------------ rvalues
    def rval(self, st, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m: return m(st, n)
        if k in SKIP: return self.rval(st, self.kid(n))
        raise Unsupported('expression %s' % k)

    def cond(self, st, n):
        return self.to_bool(self.rval(st, n))

    def e_MaterializeTemporaryExpr(self, st, n):
        return self.rval(st, n['inner'][0])

    def e_IntegerLiteral(self, st, n):
        return self.const(int(n['value']), node_type(n))

    def e_CharacterLiteral(self, st, n):
        return self.const(int(n['value']), node_type(n))

    def e_CXXBoolLiteralExpr(self, st, n):
        return z3.BoolVal(bool(n['value']))

    def e_FloatingLiteral(self, st, n):
        return z3.RealVal(str(n['value']))

    def e_StringLiteral(self, st, n):
        return Opaque('str ' + n.get('value', ''))

    def e_PredefinedExpr(self, st, n):
        return Opaque('str')

    def e_SourceLocExpr(self, st, n):
        return Opaque('loc')

    def e_GNUNullExpr(self, st, n): return NULL
    def e_CXXNullPtrLiteralExpr(self, st, n): return NULL

    def e_CXXThisExpr(self, st, n):
        return self.frames[-1].this

    def e_ImplicitValueInitExpr(self, st, n):
        return self.zero(node_type(n))

    def e_CXXScalarValueInitExpr(self, st, n):
        return self.zero(node_type(n))

    def zero(self, ct):
        if ct.k == 'ptr': return NULL
        if ct.k == 'rec':
            return StructVal({p: (self.zero(t) if '[]' not in p else z3.K(IntS, self.zero(t))) for p, t in self.leaves(ct)})
        return self.const(0, ct)

    def e_DeclRefExpr(self, st, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            e = self.db.by_id.get(d['id'])
            v = e['_val'] if e is not None and '_val' in e else None
            if v is None: raise Unsupported('enum constant')
            return self.const(v, node_type(n))
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return Opaque('fn ' + d.get('name', ''))
        l = self.lval(st, n)
        return self.read(st, l, n)

    def e_MemberExpr(self, st, n):
        return self.read(st, self.lval(st, n), n)

    def e_ArraySubscriptExpr(self, st, n):
        return self.read(st, self.lval(st, n), n)

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        if n.get('name') not in ('sizeof', 'alignof'): raise Unsupported(n.get('name'))
        if 'argType' in n:
            t = n['argType']
            ct = parse_type(t.get('desugaredQualType') or t['qualType'])
        else:
            ct = node_type(self.kid(n))
        return self.const(self.sizeof(ct), U64)

    def e_ImplicitCastExpr(self, st, n):
        ck = n['castKind']
        c = n['inner'][0]
        if ck == 'LValueToRValue':
            ic = c
            while ic['kind'] == 'ParenExpr': ic = self.kid(ic)
            if ic['kind'] == 'ConditionalOperator' and not any(self.is_assert_fail(x) for x in ic['inner'][1:]):
                g = self.cond(st, ic['inner'][0])
                a, b = ic['inner'][1:]
                return self.branch(st, g, lambda s: self.read(s, self.lval(s, a), n), lambda s: self.read(s, self.lval(s, b), n))
            return self.read(st, self.lval(st, c), n)
        if ck == 'ArrayToPointerDecay':
            ic = c
            while ic['kind'] in SKIP: ic = self.kid(ic)
            if ic['kind'] in ('StringLiteral', 'PredefinedExpr'): return Opaque('str ' + ic.get('value', ''))
            l = self.lval(st, c)
            if not l.path and not l.region.single and l.region.elem == node_type(c).to:
                return Ptr(l.region, l.off)
            return Ptr(l.region, l.off, l.path + ('[]',), IV(0))
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return Opaque('fn')
        if ck == 'NullToPointer': return NULL
        return self.cast(st, n, c, ck)

    def cast(self, st, n, c, ck):
        frm, to = node_type(c), node_type(n)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion'):
            if to.k == 'rec' and n.get('valueCategory') != 'prvalue':
                return self.rval(st, c)
            v = self.rval(st, c)
            return v
        if ck == 'ToVoid':
            self.rval(st, c); return None
        if ck == 'BitCast':
            v = self.rval(st, c)
            return self.bitcast(st, v, frm, to, n)
        if ck == 'PointerToBoolean':
            return self.to_bool(self.rval(st, c))
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral',
                  'FloatingToBoolean', 'BooleanToSignedIntegral'):
            v = self.rval(st, c)
            if ck == 'FloatingCast' and to.k == 'float' and to.bits < frm.bits:
                pass
            return self.convert(st, v, frm, to, n)
        if ck == 'NullToPointer': return NULL
        raise Unsupported('cast %s' % ck)

    def bitcast(self, st, v, frm, to, n):
        if isinstance(v, Alloc):
            return v.make(self, st, to.to, n) if to.k == 'ptr' and to.to.k != 'void' else v
        if isinstance(v, (Opaque, PtrChoice)): return v
        if isinstance(v, Ptr):
            if v.region is None or to.to.k == 'void' or frm.to.k == 'void': return v
            if frm.to == to.to: return v
        raise Unsupported('pointer cast %s to %s' % (frm, to))

    def e_CStyleCastExpr(self, st, n): return self.cast(st, n, self.kid(n), n['castKind'])
    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CStyleCastExpr

    def e_ConditionalOperator(self, st, n):
        a, b, c = n['inner']
        for x, y, neg in ((b, c, False), (c, b, True)):
            if self.is_assert_fail(x):
                g = self.cond(st, a)
                if not neg: g = z3.Not(g)
                self.oblige(st, 'assert', g, n, 'assertion at this line holds')
                if self.dry: st.assume(g)
                return None
        g = self.cond(st, a)
        return self.branch(st, g, lambda s: self.rval(s, b), lambda s: self.rval(s, c))

    def is_assert_fail(self, n):
        while n['kind'] in SKIP or n['kind'] in ('ImplicitCastExpr',) + EXPLICIT_CASTS: n = self.kid(n)
        if n['kind'] != 'CallExpr': return False
        c = self.callee_ref(n)
        return c is not None and c.get('name') == '__assert_fail'

    def e_UnaryOperator(self, st, n):
        op = n['opcode']
        c = n['inner'][0]
        if op in ('++', '--'): return self.incdec(st, n)
        if op == '*': return self.read(st, self.lval(st, n), n)
        if op == '&':
            ic = c
            while ic['kind'] in SKIP: ic = self.kid(ic)
            l = self.lval(st, c)
            if l.path and l.path[-1] == '[]' or not l.path: return Ptr(l.region, l.off, l.path, l.sub)
            return Ptr(l.region, l.off, l.path, l.sub)
        if op == '!':
            return z3.Not(self.cond(st, c))
        v = self.rval(st, c)
        ct = node_type(n)
        if op == '+': return v
        if op == '-':
            if ct.k == 'float': return -v
            if self.mode == 'bv': return -v
            return self.arith(st, '-', IV(0), v, ct, n)
        if op == '~':
            if self.mode == 'bv': return ~v
            return self.norm(st, sub(IV(-1), v), ct, n) if ct.signed else sub(IV(rng(ct)[1]), v)
        raise Unsupported('unary ' + op)

    def incdec(self, st, n):
        c = n['inner'][0]
        l = self.lval(st, c)
        old = self.read(st, l, n)
        ct = node_type(c)
        if ct.k == 'ref': ct = ct.to
        if ct.k == 'ptr':
            new = self.ptr_add(st, old, IV(1), n, 1 if n['opcode'] == '++' else -1)
        elif ct.k == 'float':
            new = old + 1 if n['opcode'] == '++' else old - 1
        else:
            one = self.const(1, ct)
            wide = ct if ct.bits >= 32 or self.mode == 'bv' else I32
            new = self.arith(st, n['opcode'][0], old, one, wide, n)
            if wide is not ct: new = self.norm(st, new, ct, n)
        self.write(st, l, new, n, False)
        return old if n.get('isPostfix') else new

    def e_BinaryOperator(self, st, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            l = self.assign(st, n)
            return self._last
        if op == ',':
            self.rval(st, a); return self.rval(st, b)
        if op == '&&':
            g = self.cond(st, a)
            return self.branch(st, g, lambda s: self.cond(s, b), lambda s: z3.BoolVal(False))
        if op == '||':
            g = self.cond(st, a)
            return self.branch(st, g, lambda s: z3.BoolVal(True), lambda s: self.cond(s, b))
        ta, tb = node_type(a), node_type(b)
        if ta.k == 'arr': ta = CT('ptr', to=ta.to)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            x, y = self.rval(st, a), self.rval(st, b)
            if ta.k == 'ptr' or tb.k == 'ptr' or isinstance(x, (Ptr, Opaque, PtrChoice)) or isinstance(y, (Ptr, Opaque, PtrChoice)):
                return self.ptr_cmp(st, op, x, y)
            return self.cmp(st, op, x, y, ta)
        x, y = self.rval(st, a), self.rval(st, b)
        if ta.k == 'ptr' or tb.k == 'ptr':
            if op == '-' and ta.k == 'ptr' and tb.k == 'ptr':
                return self.ptr_diff(st, x, y, n)
            if ta.k != 'ptr': x, y, ta, tb = y, x, tb, ta
            return self.ptr_add(st, x, self.as_index(st, y, tb), n, 1 if op == '+' else -1)
        return self.arith(st, op, x, y, node_type(n), n)

    def ptr_diff(self, st, x, y, n):
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.region is y.region and x.path == y.path:
            return sub(x.off, y.off) if '[]' not in x.path else sub(x.sub, y.sub)
        raise Unsupported('difference of unrelated pointers')

    def ptr_cmp(self, st, op, x, y):
        if isinstance(x, PtrChoice): return self.ite(x.c, self.ptr_cmp(st, op, x.a, y), self.ptr_cmp(st, op, x.b, y))
        if isinstance(y, PtrChoice): return self.ite(y.c, self.ptr_cmp(st, op, x, y.a), self.ptr_cmp(st, op, x, y.b))
        if isinstance(x, Alloc) or isinstance(y, Alloc):
            if op in ('==', '!='): return z3.BoolVal(op == '!=')
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            o = x if isinstance(x, Opaque) else y
            q = y if o is x else x
            if isinstance(q, Ptr) and q.region is None and op in ('==', '!='):
                nn = getattr(o, 'nonnull', None)
                if nn is None: raise Unsupported('null test of %r' % o)
                return nn if op == '!=' else z3.Not(nn)
            raise Unsupported('comparison of %r' % o)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.region is y.region:
                a, b = (x.sub, y.sub) if '[]' in x.path else (x.off, y.off)
                return self.cmp(st, op, a, b, U64)
            if op in ('==', '!='):
                al = getattr(self.cfg, 'may_alias', None)
                if al and x.region and y.region and (x.region, y.region) in al: return al[(x.region, y.region)]
                return z3.BoolVal(op == '!=')
        raise Unsupported('pointer comparison')

    def assign(self, st, n):
        a, b = n['inner']
        op = n['opcode']
        ta = node_type(a)
        if ta.k == 'ref': ta = ta.to
        if op == '=':
            v = self.rval(st, b)
            l = self.lval(st, a)
            if isinstance(v, Alloc): v = v
            if isinstance(v, Loc): v = self.read(st, v, n)
            self.write(st, l, v, n)
            self._last = v
            return l
        v = self.rval(st, b)
        l = self.lval(st, a)
        old = self.read(st, l, n)
        o = op[:-1]
        if ta.k == 'ptr':
            new = self.ptr_add(st, old, self.as_index(st, v, node_type(b)), n, 1 if o == '+' else -1)
        else:
            lt = n.get('computeLHSType'); rt = n.get('computeResultType')
            clt = parse_type(lt.get('desugaredQualType') or lt['qualType']) if lt else ta
            crt = parse_type(rt.get('desugaredQualType') or rt['qualType']) if rt else ta
            x = self.convert(st, old, ta, clt, n)
            r = self.arith(st, o, x, v, crt, n)
            new = self.convert(st, r, crt, ta, n)
        self.write(st, l, new, n, False)
        self._last = new
        return l

    def e_CompoundAssignOperator(self, st, n):
        self.assign(st, n)
        return self._last

    def e_InitListExpr(self, st, n):
        ct = node_type(n)
        if ct.k in ('int', 'float', 'bool', 'ptr'):
            return self.rval(st, self.kid(n)) if n.get('inner') else self.zero(ct)
        if ct.k == 'rec':
            lv = {}
            fs = self.db.all_fields(ct.name)
            ins = [c for c in n.get('inner', []) if c]
            for (nm, t, i), c in zip(fs, ins):
                v = self.rval(st, c)
                if isinstance(v, StructVal):
                    for p, x in v.leaves.items(): lv[(nm,) + p] = x
                else: lv[(nm,)] = v
            return StructVal(lv)
        raise Unsupported('initializer list for %s' % ct)

    def e_CXXDefaultArgExpr(self, st, n):
        raise Unsupported('default argument')

    def e_LambdaExpr(self, st, n):
        rec = n['inner'][0]
        for m in rec.get('inner', []):
            if m and m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()':
                return LambdaVal(m, dict(st.env))
            if m and m.get('kind') == 'FunctionTemplateDecl': raise Unsupported('generic lambda')
        raise Unsupported('lambda')

    # ------------------------------------------------------------ new/delete
    def e_CXXNewExpr(self, st, n):
        pt = node_type(n)
        el = pt.to
        ins = [c for c in n.get('inner', []) if c and 'kind' in c]
        site = self.where(n)
        if n.get('isArray'):
            szn = ins[0]
            sz = self.as_index(st, self.rval(st, szn), node_type(szn))
            if node_type(szn).signed: self.oblige(st, 'alloc', sz >= 0, n, 'array size is not negative')
            r = self.region('new@' + site.split('/')[-1], el, sz, False, 'new[]')
            r.allocated = 'new[]'
            self.newalloc(st, r)
            init = n.get('initStyle')
            if init in ('call', 'list') :
                for p, t in self.leaves(el):
                    if t.k == 'ptr': continue
                    z = self.zero(t)
                    v = z3.K(IntS, z)
                    if '[]' in p: v = z3.K(IntS, v)
                    st.mem[(r, p)] = v
            elif el.k == 'rec' and self.has_vector(el):
                for p, t in self.leaves(el):
                    if '#size' in p: st.mem[(r, p)] = z3.K(IntS, IV(0))
            return Ptr(r, IV(0))
        r = self.region('new@' + site.split('/')[-1], el, IV(1), True, 'new')
        r.allocated = 'new'
        self.newalloc(st, r)
        l = Loc(r, IV(0), (), None, el)
        if ins:
            v = self.construct_into(st, l, ins[0])
        return Ptr(r, IV(0))

    def has_vector(self, ct):
        return any('#size' in p for p, t in self.leaves(ct))

    def newalloc(self, st, r):
        if not self.dry: self.allocs.append(r)
        st.mem[(r, '#alloc')] = z3.BoolVal(True)

    def construct_into(self, st, l, n):
        """initialise object at l from expression n"""
        k = n['kind']
        while k in SKIP:
            n = self.kid(n); k = n['kind']
        ct = l.ct
        if k == 'CXXConstructExpr':
            args = [c for c in n.get('inner', []) if c and 'kind' in c]
            return self.ctor(st, l, n, args)
        v = self.rval(st, n)
        if isinstance(v, Loc): v = self.read(st, v, n)
        self.write(st, l, v, n, False)

    def ctor(self, st, l, n, args):
        ct = l.ct
        if ct.k != 'rec': raise Unsupported('constructor of %s' % ct)
        cty = (n.get('ctorType') or {}).get('qualType', '')
        fs = [f for f in self.db.funcs if f.rec == ct.name and f.kind == 'CXXConstructorDecl' and f.type == cty]
        fs = sorted(fs, key=lambda f: f.body is None)
        if len(args) == 1 and node_type(args[0]) == ct and (not fs or fs[0].body is None or fs[0].node.get('isImplicit')):
            v = self.rval(st, args[0])
            if isinstance(v, Loc): v = self.read(st, v, n)
            self.write(st, l, v, n, False)
            return
        if ct.name.startswith('std::vector<') or ct.name.startswith('vector<'):
            if not args:
                self.write_leaf(st, Loc(l.region, l.off, l.path + ('#size',), l.sub, U64), IV(0), n, False)
                return
            raise Unsupported('vector constructor')
        if not args and (not fs or fs[0].body is None):
            self.default_init(st, l)
            return
        if not fs or fs[0].body is None: raise Unsupported('constructor %s %s' % (ct, cty))
        f = fs[0]
        vals = [self.rval(st, a) for a in args]
        c = self.contract_for(f)
        self.call_func(st, f, vals, Ptr(l.region, l.off, l.path, l.sub), n)

    def default_init(self, st, l):
        ct = l.ct
        if ct.k != 'rec': return
        for p, t in self.leaves(ct):
            if '#size' in p:
                self.write_leaf(st, Loc(l.region, l.off, l.path + p, l.sub, t), IV(0), None, False)
        r = self.db.records.get(ct.name)
        if r is None: return
        for f in r.node.get('inner', []):
            if f and f.get('kind') == 'FieldDecl' and f.get('hasInClassInitializer'):
                ins = [c for c in f.get('inner', []) if c and 'kind' in c]
                if ins and node_type(f).k in ('int', 'bool', 'float'):
                    v = self.rval(st, ins[-1])
                    self.write_leaf(st, Loc(l.region, l.off, l.path + (f['name'],), l.sub, node_type(f)), v, None, False)

    def e_CXXConstructExpr(self, st, n):
        ct = node_type(n)
        args = [c for c in n.get('inner', []) if c and 'kind' in c]
        if len(args) == 1 and node_type(args[0]).k == 'rec' and node_type(args[0]) == ct:
            v = self.rval(st, args[0])
            if isinstance(v, Loc): v = self.read(st, v, n)
            return v
        if len(args) == 1 and ct.k == 'rec' and 'lambda' in ct.name:
            return self.rval(st, args[0])
        r = self.region('tmp', ct, IV(1), True, 'temp')
        l = Loc(r, IV(0), (), None, ct)
        self.ctor(st, l, n, args)
        return self.read(st, l, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXDeleteExpr(self, st, n):
        p = self.rval(st, self.kid(n))
        kind = 'new[]' if n.get('isArray') or n.get('isArrayAsWritten') else 'new'
        ct = node_type(self.kid(n))
        if kind == 'new' and ct.k == 'ptr' and ct.to.k == 'rec': self.destructor(n, ct.to, st)
        if kind == 'new' and isinstance(p, Ptr) and p.region is not None:
            h = self.cfg and getattr(self.cfg, 'on_delete', None)
            if h: h(self, st, p, n)
        self.dealloc(st, p, kind, n)
        return None

    def destructor(self, n, ct, st):
        """deleting an object of a class with virtual functions runs the destructor of its real kind"""
        r = self.db.records.get(ct.name)
        if r is None: return
        kids = [m for m in r.node.get('inner', []) if m]
        if not any(m.get('virtual') for m in kids): return
        ds = [m for m in kids if m.get('kind') == 'CXXDestructorDecl']
        self.oblige(st, 'dealloc', z3.BoolVal(any(m.get('virtual') for m in ds)), n, 'deleting a %s runs the destructor of its kind' % ct.name)

    def dealloc(self, st, p, kind, n):
        if isinstance(p, PtrChoice): raise Unsupported('delete of one of two pointers')
        if isinstance(p, Opaque): raise Unsupported('delete of %r' % p)
        if p.region is None: return
        r = p.region
        a = getattr(r, 'allocated', None)
        nm = r.name.split('#')[0]
        if p.path: self.oblige(st, 'dealloc', z3.BoolVal(False), n, 'only whole allocations are freed')
        w = getattr(r, 'windows', None)
        if w is not None:
            # family of allocations: one per offset listed in the window map
            k = (r, '#wfreed')
            cur = st.mem.get(k)
            if cur is None: cur = z3.K(IntS, z3.BoolVal(False))
            self.oblige(st, 'dealloc', z3.Or(p.off == NULLOFF, z3.And(w(p.off), z3.Not(z3.Select(cur, p.off)))), n,
                        'each allocation of %s is freed at its start, once' % nm)
            for lg in self.modlog: lg.add(k)
            st.mem[k] = z3.Store(cur, p.off, z3.BoolVal(True))
        else:
            if not (z3.is_int_value(p.off) and p.off.as_long() == 0):
                self.oblige(st, 'dealloc', p.off == 0, n, 'freed pointer is the start of %s' % nm)
            k = (r, '#freed')
            cur = st.mem.get(k, z3.BoolVal(False))
            if not z3.is_false(cur):
                self.oblige(st, 'dealloc', z3.Not(cur), n, '%s is not freed twice' % nm)
            for lg in self.modlog: lg.add(k)
            st.mem[k] = z3.BoolVal(True)
        if a is not None:
            self.oblige(st, 'dealloc', z3.BoolVal(a == kind), n, '%s obtained with %s is released with the matching call' % (nm, a))

    # ------------------------------------------------------------ calls
    def callee_ref(self, n):
        c = n['inner'][0]
        while c['kind'] in SKIP or c['kind'] == 'ImplicitCastExpr': c = self.kid(c)
        if c['kind'] == 'DeclRefExpr': return c['referencedDecl']
        return None

    def e_CallExpr(self, st, n):
        v = self.call_expr(st, n)
        if isinstance(v, Loc) and node_type(n).k != 'ref' : return self.read(st, v, n)
        return v
    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr

    def call_expr(self, st, n):
        k = n['kind']
        args = [c for c in n['inner'][1:] if c and 'kind' in c]
        if k == 'CXXMemberCallExpr':
            me = n['inner'][0]
            while me['kind'] in SKIP: me = self.kid(me)
            if me['kind'] != 'MemberExpr': raise Unsupported('member call through %s' % me['kind'])
            base = me['inner'][0]
            if me.get('isArrow'):
                pv = self.rval(st, base)
                bt = node_type(base).to
            else:
                l = self.lval(st, base)
                bt = node_type(base)
                if bt.k == 'ref': bt = bt.to
                pv = Ptr(l.region, l.off, l.path, l.sub)
            if bt.k == 'rec' and (bt.name.startswith('std::vector<') or bt.name.startswith('vector<')):
                return self.vector_call(st, pv, bt, me['name'], args, n)
            f = self.db.func_by_id.get(me.get('referencedMemberDecl'))
            if f is not None and f.body is None:
                g = self.db.defs.get((f.rec, f.name, f.type)) or self.db.method_def(f)
                if g is not None: f = g
            if f is None and me.get('name', '').startswith('~'): return None
            if f is None: raise Unsupported('method %s' % me.get('name'))
            return self.invoke(st, f, args, pv, n, me['name'])
        if k == 'CXXOperatorCallExpr':
            ref = self.callee_ref(n)
            nm = ref.get('name') if ref else None
            t0 = node_type(args[0])
            if t0.k == 'ref': t0 = t0.to
            if t0.k == 'rec' and t0.name.startswith(('std::vector<', 'vector<')):
                l = self.lval(st, args[0])
                return self.vector_call(st, Ptr(l.region, l.off, l.path, l.sub), t0, nm, args[1:], n)
            if nm == 'operator()':
                lam = self.rval(st, args[0])
                if isinstance(lam, LambdaVal):
                    return self.call_lambda(st, lam, [self.arg(st, a, None) for a in args[1:]], n)
            if nm == 'operator<<':
                return Opaque('stream')
            if nm == 'operator=':
                v = self.rval(st, args[1])
                if isinstance(v, Loc): v = self.read(st, v, n)
                l = self.lval(st, args[0])
                self.write(st, l, v, n)
                return l
            raise Unsupported('operator call %s' % nm)
        ref = self.callee_ref(n)
        if ref is None:
            raise Unsupported('indirect call')
        name = ref.get('name')
        b = self.builtins.get(name)
        f = self.db.resolve(ref)
        if b is not None and (f is None or f.body is None or not f.file or not f.file.startswith(self._repo()) or name in self.force_builtin):
            return b(st, args, n)
        if f is None: raise Unsupported('call of %s' % name)
        return self.invoke(st, f, args, None, n, name)

    force_builtin = {'parallel_stable_sort'}

    def arg(self, st, a, pct):
        ta = node_type(a)
        if pct is not None and pct.k == 'ref':
            return self.as_loc(st, a, pct)
        v = self.rval(st, a)
        if isinstance(v, Loc): v = self.read(st, v, a)
        return v

    def invoke(self, st, f, args, this, n, name):
        pts = f.ptypes()
        vals = []
        for i, p in enumerate(f.params):
            if i < len(args):
                if args[i]['kind'] == 'CXXDefaultArgExpr':
                    d = [c for c in p.get('inner', []) if c and 'kind' in c]
                    if not d:
                        d = [c for c in args[i].get('inner', []) if c and 'kind' in c]
                    if not d: raise Unsupported('default argument')
                    vals.append(self.arg(st, d[0], pts[i]))
                else:
                    vals.append(self.arg(st, args[i], pts[i]))
            else: raise Unsupported('variadic call')
        return self.call_func(st, f, vals, this, n)

    def contract_for(self, f):
        for c in self.contracts:
            if c.matches(self, f): return c
        return None

    def call_func(self, st, f, vals, this, n):
        c = self.contract_for(f)
        if c is not None:
            self.used_funcs.setdefault(f.id, f)
            return c.apply(self, st, f, vals, this, n)
        if f.body is None and not f.inits:
            raise Unsupported('no body for %s' % f.sig())
        if len(self.callstack) > self.MAXDEPTH or [x for x in self.frames if x.func is f]:
            raise Unsupported('recursion through %s without a contract' % f.name)
        self.used_funcs.setdefault(f.id, f)
        return self.run_body(st, f, f.node, f.params, vals, this, n, f.body, f.inits)

    def run_body(self, st, f, fnode, params, vals, this, n, body, inits=(), env0=None):
        site = self.where(n) if n else ''
        self.callstack.append('%s@%s' % (f.name if f else 'lambda', self.ordinal(n) if n else 0))
        fr = Frame(f, this)
        self.frames.append(fr)
        caller_env = st.env
        anc = st.fork()
        st.env = dict(env0 or {})
        try:
            for p, v in zip(params, vals):
                ct = node_type(p)
                if ct.k == 'ref':
                    if isinstance(v, Loc): st.env[p['id']] = v
                    else: st.env[p['id']] = self.temp(st, v, ct.to)
                    continue
                if isinstance(v, Loc): v = self.read(st, v, n)
                r = self.region(p.get('name', 'arg'), ct, IV(1), True, 'local',
                                stable='%s|#%d' % ('/'.join(self.callstack), params.index(p)))
                st.env[p['id']] = Loc(r, IV(0), (), None, ct)
                if isinstance(v, LambdaVal): st.mem[(r, ())] = v
                elif isinstance(v, StructVal): self.write(st, st.env[p['id']], v, n, False)
                else: st.mem[(r, ())] = v
            try:
                for ci in inits: self.ctor_init(st, ci, this)
                self.stmt(st, body)
                fr.returns.append((st.fork(), None))
            except Dead:
                pass
            if self.frames[-1] is not fr: raise Unsupported('frame')
            if not fr.returns: raise Dead()
            if self.cfg is not None and getattr(self.cfg, 'split_returns', False) and len(self.frames) == 1 and not self.dry:
                for s, v in fr.returns: s.env = caller_env
                self.split = fr.returns
                return None
            if len(fr.returns) == 1:
                s, v = fr.returns[0]
                v = v
            else:
                ss = []
                for s, v in fr.returns:
                    s.ret = v
                    ss.append(s)
                if any(isinstance(s.ret, Loc) for s in ss): raise Unsupported('reference result from several returns')
                s = self.merge(ss, anc)
                v = s.ret
                s.ret = None
            self._become(st, s)
            st.conds = list(anc.conds)
            st.env = caller_env
            return v
        finally:
            self.frames.pop()
            self.callstack.pop()

    def ordinal(self, n):
        """position of a call inside its function: the same in every run"""
        f = self.frames[-1].func if self.frames else None
        root = f.node if f is not None else None
        k = ('calls', id(root))
        if k not in self.ordinals:
            o = {}
            def w(x):
                if 'Expr' in x.get('kind', ''): o.setdefault(x['id'], len(o))
                for c in x.get('inner', []):
                    if c: w(c)
            if root: w(root)
            self.ordinals[k] = o
        i = self.ordinals[k].get(n.get('id'))
        return i if i is not None else 'l%s' % n.get('_l')

    def ctor_init(self, st, ci, this):
        ex = self.kid(ci) if ci.get('inner') else None
        tl = Loc(this.region, this.off, this.path, this.sub, None)
        if 'baseInit' in ci:
            bt = parse_type(ci['baseInit'].get('desugaredQualType') or ci['baseInit']['qualType'])
            tl.ct = bt
            x = ex
            while x['kind'] in SKIP: x = self.kid(x)
            args = [c for c in x.get('inner', []) if c and 'kind' in c]
            self.ctor(st, tl, x, args)
            return
        if 'anyInit' in ci:
            d = ci['anyInit']
            ct = parse_type(d['type'].get('desugaredQualType') or d['type']['qualType'])
            l = Loc(this.region, this.off, this.path + (d['name'],), this.sub, ct)
            while ex['kind'] in SKIP or ex['kind'] == 'CXXDefaultInitExpr':
                if ex['kind'] == 'CXXDefaultInitExpr':
                    fd = self.db.by_id.get(d['id'])
                    ex = [c for c in fd.get('inner', []) if c and 'kind' in c][-1]
                else: ex = self.kid(ex)
            self.construct_into(st, l, ex)
            return
        raise Unsupported('constructor initialiser')

    def call_lambda(self, st, lam, vals, n):
        m = lam.method
        params = [c for c in m.get('inner', []) if c and c.get('kind') == 'ParmVarDecl']
        body = next(c for c in m.get('inner', []) if c and c.get('kind') == 'CompoundStmt')
        return self.run_body(st, None, m, params, vals, None, n, body, (), lam.env)

    # std::vector
    def vector_call(self, st, pv, bt, name, args, n):
        if not isinstance(pv, Ptr): raise Unsupported('vector through %r' % pv)
        ro = Loc(pv.region, pv.off, pv.path, pv.sub, bt)
        if not pv.region.single or pv.path: self.check_bounds(st, ro, n, False)
        size_l = Loc(pv.region, pv.off, pv.path + ('#size',), None, U64)
        el = parse_type(bt.name[bt.name.index('<') + 1:-1].split(',')[0])
        def data(i): return Loc(pv.region, pv.off, pv.path + ('#data', '[]'), i, el)
        def size(): return self.read_leaf(st, size_l, U64, n, False)
        if name == 'size': return size()
        if name == 'empty': return size() == 0
        if name == 'clear':
            self.write_leaf(st, size_l, IV(0), n, False); return None
        if name == 'reserve':
            for a in args: self.rval(st, a)
            return None
        if name in ('push_back', 'emplace_back'):
            v = self.arg(st, args[0], None)
            s = size()
            self.write_leaf(st, data(s), v, n, False)
            self.write_leaf(st, size_l, add(s, IV(1)), n, False)
            return None
        if name in ('operator[]', 'at'):
            i = self.arg(st, args[0], None)
            self.oblige(st, 'bounds', z3.And(i >= 0, i < size()), n, 'vector index below its size')
            return data(i)
        if name == 'back':
            self.oblige(st, 'bounds', size() > 0, n, 'back() of a non-empty vector')
            return data(sub(size(), IV(1)))
        if name == 'front':
            self.oblige(st, 'bounds', size() > 0, n, 'front() of a non-empty vector')
            return data(IV(0))
        raise Unsupported('vector::%s' % name)

    # ------------------------------------------------------------ statements
    def stmt(self, st, n):
        k = n.get('kind')
        if k is None: return
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(st, n)
        if k in SKIP: return self.stmt(st, self.kid(n))
        self.rval(st, n)

    def s_CompoundStmt(self, st, n):
        for c in n.get('inner', []):
            if c: self.stmt(st, c)

    def s_NullStmt(self, st, n): pass

    def s_AttributedStmt(self, st, n):
        for c in n.get('inner', []):
            if c and c['kind'].endswith('Attr'): continue
            self.stmt(st, c)

    def s_DeclStmt(self, st, n):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl': self.vardecl(st, d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'UsingDecl'): pass
            else: raise Unsupported('declaration %s' % d['kind'])

    def vardecl(self, st, d):
        ct = node_type(d)
        ins = [c for c in d.get('inner', []) if c and 'kind' in c and not c['kind'].endswith('Attr')]
        init = ins[0] if ins else None
        if d.get('storageClass') == 'static' and 'const' not in (d.get('type', {}).get('qualType') or ''):
            raise Unsupported('static variable')
        if ct.k == 'ref':
            st.env[d['id']] = self.as_loc(st, init, ct)
            return
        stable = '%s|%s' % ('/'.join(self.callstack), d.get('name'))
        if ct.k == 'arr':
            r = self.region(d['name'], ct.to, IV(ct.n or 0), False, 'local', stable=stable)
            r.allocated = 'stack'
            st.env[d['id']] = Loc(r, IV(0), (), None, ct)
            if init is not None:
                x = init
                while x['kind'] in SKIP: x = self.kid(x)
                if x['kind'] != 'InitListExpr': raise Unsupported('array initialiser %s' % x['kind'])
                els = [c for c in x.get('inner', []) if c and 'kind' in c]
                filler = 'array_filler' in x
                if filler: els = [c for c in x['array_filler'] if c and c.get('kind') != 'ImplicitValueInitExpr']
                a = z3.K(IntS, self.zero(ct.to))
                for i, c in enumerate(els):
                    v = self.rval(st, c)
                    a = z3.Store(a, IV(i), v)
                st.mem[(r, ())] = a
            return
        r = self.region(d.get('name', 'v'), ct, IV(1), True, 'local', stable=stable)
        r.allocated = 'stack'
        l = Loc(r, IV(0), (), None, ct)
        st.env[d['id']] = l
        if init is None: return
        x = init
        while x['kind'] in SKIP: x = self.kid(x)
        if ct.k == 'rec' and x['kind'] == 'CXXConstructExpr' and 'lambda' not in ct.name:
            args = [c for c in x.get('inner', []) if c and 'kind' in c]
            self.ctor(st, l, x, args)
            return
        v = self.rval(st, init)
        if isinstance(v, Loc): v = self.read(st, v, d)
        if isinstance(v, StructVal): self.write(st, l, v, d, False)
        else: self.write_local(st, r, v)

    def write_local(self, st, r, v):
        for lg in self.modlog: lg.add((r, ()))
        st.mem[(r, ())] = v

    def s_IfStmt(self, st, n):
        ins = [c for c in n['inner'] if c and 'kind' in c]
        if n.get('hasInit'): self.stmt(st, ins.pop(0))
        if n.get('hasVar'):
            self.stmt(st, ins.pop(0))
        c = self.cond(st, ins[0])
        t = ins[1]
        e = ins[2] if n.get('hasElse') and len(ins) > 2 else None
        self.branch(st, c, lambda s: self.stmt(s, t), lambda s: self.stmt(s, e) if e is not None else None)

    def s_ReturnStmt(self, st, n):
        ins = [c for c in n.get('inner', []) if c and 'kind' in c]
        v = None
        if ins:
            fr = self.frames[-1]
            rt = None
            if fr.func is not None:
                t = fr.func.type.split('(')[0].strip()
                if t.endswith('&'): v = self.lval(st, ins[0])
            if v is None:
                v = self.rval(st, ins[0])
                if isinstance(v, Loc): v = self.read(st, v, n)
        self.frames[-1].returns.append((st.fork(), v))
        raise Dead()

    def s_BreakStmt(self, st, n):
        self.frames[-1].brk[-1].append(st.fork())
        raise Dead()

    def s_ContinueStmt(self, st, n):
        self.frames[-1].cont[-1].append(st.fork())
        raise Dead()

    def s_SwitchStmt(self, st, n):
        ins = [c for c in n['inner'] if c and 'kind' in c]
        v = self.rval(st, ins[0])
        vct = node_type(ins[0])
        body = ins[-1]
        seq = []      # (labels or None, stmt)
        def flat(x):
            if x['kind'] == 'CaseStmt':
                xs = [c for c in x['inner'] if c and 'kind' in c]
                seq.append(('case', xs[0]))
                if len(xs) > 1: flat(xs[-1])
            elif x['kind'] == 'DefaultStmt':
                seq.append(('default', None))
                xs = [c for c in x['inner'] if c and 'kind' in c]
                if xs: flat(xs[-1])
            else: seq.append(('stmt', x))
        for c in body.get('inner', []):
            if c: flat(c)
        cases, default = [], None
        for i, (t, x) in enumerate(seq):
            if t == 'case': cases.append((self.cmp(st, '==', v, self.rval(st, x), vct), i))
            elif t == 'default': default = i
        fr = self.frames[-1]
        anc = st.fork()
        ends = []
        nots = []
        def runfrom(s, i):
            fr.brk.append([])
            try:
                for t, x in seq[i:]:
                    if t == 'stmt': self.stmt(s, x)
                ends.append(s)
            except Dead: pass
            ends.extend(fr.brk.pop())
        conds = [(c, i) for c, i in cases] + [(None, default)]
        for c, i in conds:
            s = anc.fork()
            g = z3.And(*(nots + ([c] if c is not None else []))) if (nots or c is not None) else z3.BoolVal(True)
            sg = z3.simplify(g)
            if c is not None: nots.append(z3.Not(c))
            if z3.is_false(sg): continue
            if not z3.is_true(sg):
                s.assume(g); s.conds.append(g)
            if i is None: ends.append(s)
            else: runfrom(s, i)
        if not ends: raise Dead()
        m = self.merge(ends, anc)
        m.env = anc.env
        self._become(st, m)

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, st, n, par=None):
        init, var, cond, inc, body = (list(n['inner']) + [{}] * 5)[:5]
        env = dict(st.env)
        if init and 'kind' in init: self.stmt(st, init)
        lv = self.loop_var(init, inc) if par is not None else None
        self.loop(st, n, cond if cond and 'kind' in cond else None, inc if inc and 'kind' in inc else None, body, par=par, lv=lv)
        # names declared in the loop header go out of scope
        for k in list(st.env):
            if k not in env: del st.env[k]

    def s_WhileStmt(self, st, n):
        ins = [c for c in n['inner'] if c and 'kind' in c]
        if n.get('hasVar'): raise Unsupported('declaration in while')
        self.loop(st, n, ins[0], None, ins[1])

    def s_DoStmt(self, st, n):
        ins = [c for c in n['inner'] if c and 'kind' in c]
        self.loop(st, n, ins[1], None, ins[0], post=True)

    def loop_var(self, init, inc):
        if init and init.get('kind') == 'DeclStmt':
            for d in init['inner']:
                if d['kind'] == 'VarDecl': return d['id']
        if init and init.get('kind') == 'BinaryOperator' and init['opcode'] == '=':
            x = init['inner'][0]
            while x['kind'] in SKIP: x = self.kid(x)
            if x['kind'] == 'DeclRefExpr': return x['referencedDecl']['id']
        return None

    def try_unroll(self, st, n, cond):
        if self.mode == 'bv' and not getattr(self.cfg, 'no_unroll', False): return 140
        if n['kind'] != 'ForStmt' or cond is None: return 0
        # counted loops with literal bounds
        def lit(x):
            while x['kind'] in SKIP or x['kind'] in ('ImplicitCastExpr',): x = self.kid(x)
            return int(x['value']) if x['kind'] == 'IntegerLiteral' else None
        if cond['kind'] != 'BinaryOperator' or cond['opcode'] not in ('<', '<=', '>', '>='): return 0
        b = lit(cond['inner'][1])
        if b is None: return 0
        self.dry += 1
        try:
            s = st.fork()
            v = self.rval(s, cond['inner'][0])
        finally: self.dry -= 1
        if not z3.is_int_value(z3.simplify(self.to_int(v))): return 0
        if abs(z3.simplify(self.to_int(v)).as_long() - b) > 16: return 0
        return 20

    def loop(self, st, n, cond, inc, body, post=False, par=None, lv=None):
        fr = self.frames[-1]
        mx = self.try_unroll(st, n, cond) if par is None else 0
        if mx:
            if self.unrolled(st, n, cond, inc, body, post, mx): return
        self.loop_havoc(st, n, cond, inc, body, post, par, lv)

    def unrolled(self, st, n, cond, inc, body, post, mx):
        """execute iterations while the condition is decided; False if it is not"""
        fr = self.frames[-1]
        save = st.fork()
        nobs = len(self.obs)
        brk = []
        first = True
        anc = st.fork()
        dead = False
        for it in range(mx):
            if not (post and first):
                c = self.cond(st, cond) if cond is not None else z3.BoolVal(True)
                c = z3.simplify(c)
                if z3.is_false(c):
                    break
                if not z3.is_true(c):
                    if self.mode == 'bv':
                        # fork: leave here or go on
                        out = st.fork()
                        nc = z3.Not(c)
                        out.assume(nc); out.conds.append(nc)
                        brk.append(out)
                        st.assume(c); st.conds.append(c)
                    else:
                        self._become(st, save); del self.obs[nobs:]
                        return False
            first = False
            fr.brk.append([]); fr.cont.append([])
            try:
                self.stmt(st, body)
                alive = True
            except Dead:
                alive = False
            b, c2 = fr.brk.pop(), fr.cont.pop()
            brk += b
            live = ([st.fork()] if alive else []) + c2
            if not live:
                dead = True
                break
            m = live[0] if len(live) == 1 else self.merge(live, anc)
            self._become(st, m)
            if inc is not None: self.rval(st, inc)
        else:
            self.oblige(st, 'termination', z3.BoolVal(False), n, 'loop ends within %d iterations' % mx)
            dead = True
        ends = ([] if dead else [st.fork()]) + brk
        if not ends: raise Dead()
        m = ends[0] if len(ends) == 1 else self.merge(ends, anc)
        env = anc.env
        self._become(st, m)
        st.env = env
        if len(ends) > 1: pass
        return True

    def havoc_key(self, st, key, hint=None):
        r, p = key
        for lg in self.modlog: lg.add(key)
        if p == '#freed':
            st.mem[key] = self.fresh('freed', BoolS); return
        if p == '#wfreed':
            st.mem[key] = self.fresh('wfreed', z3.ArraySort(IntS, BoolS)); return
        if isinstance(p, str): raise Unsupported('havoc of %s' % p)
        ct = self.leaf_ct(r, p)
        old = st.mem.get(key)
        if old is None: old = self.init_val(r, p, ct)
        nm = r.name.split('#')[0] + ''.join('.' + str(x) for x in p)
        st.mem[key] = self.havoc_val(st, nm, old, ct, hint)

    def havoc_val(self, st, nm, old, ct, hint=None):
        if isinstance(hint, (Ptr, PtrArr)): old = hint
        if isinstance(old, PtrArr):
            return PtrArr(old.region, self.fresh(nm + '@off', old.offs.sort()))
        if isinstance(old, Ptr):
            if old.region is None: raise Unsupported('loop changes a null pointer')
            if old.path and '[]' in old.path:
                return Ptr(old.region, old.off, old.path, self.fresh(nm + '@sub', IntS))
            return Ptr(old.region, self.fresh(nm + '@off', IntS), old.path, old.sub)
        if z3.is_expr(old):
            v = self.fresh(nm, old.sort())
            if z3.is_int(v) and ct.k == 'int' and self.mode == 'int':
                lo, hi = rng(ct)
                st.assume(z3.And(v >= lo, v <= hi))
            return v
        if isinstance(old, Opaque): return old
        raise Unsupported('loop modifies %r' % (old,))

    def find_mods(self, st, n, cond, inc, body, post):
        """locations the loop may change, found by abstractly running its body to a fixpoint"""
        mods, hints = [], {}
        ck = (tuple(self.callstack), n.get('id'))
        for rnd in range(6):
            s = st.fork()
            mark = self.nregion
            for k in mods: self.havoc_key(s, k, hints.get(k))
            log = set()
            self.modlog.append(log)
            self.dry += 1
            fr = self.frames[-1]
            fr.brk.append([]); fr.cont.append([])
            nret = len(fr.returns)
            ends = []
            try:
                try:
                    if not post and cond is not None:
                        c = self.cond(s, cond)
                    try:
                        self.stmt(s, body)
                        ends.append(s)
                    except Dead: pass
                    for s2 in ends + fr.cont[-1]:
                        if inc is not None: self.rval(s2, inc)
                        if post and cond is not None: self.cond(s2, cond)
                except Dead: pass
            finally:
                self.dry -= 1
                self.modlog.pop()
                fr.cont.pop(); fr.brk.pop()
                del fr.returns[nret:]
            new = [k for k in log if k not in mods and k[0].born <= mark]
            for k in log:
                for s2 in ends:
                    v = s2.mem.get(k)
                    if isinstance(v, (Ptr, PtrArr)):
                        o = st.mem.get(k)
                        if o is None and isinstance(v, PtrArr) and v.region.born <= mark: hints[k] = v
                        if isinstance(o, PtrArr) and isinstance(v, PtrArr) and o.region is not v.region: hints[k] = v
            if not new: return sorted(mods, key=lambda k: (k[0].born, str(k[1]))), hints
            mods += new
        raise Unsupported('loop effects did not stabilise')

    def loop_havoc(self, st, n, cond, inc, body, post, par, lv):
        fr = self.frames[-1]
        key = '%s:L%s' % ('/'.join(x.split('@')[0] for x in self.callstack), self.loop_ordinal(n))
        mods, hints = self.find_mods(st, n, cond, inc, body, post)
        priv = set()
        redvars = set()
        F0 = len(self.fresh_log)
        R0 = self.nregion
        if par is not None:
            for vid, loc in st.env.items():
                d = self.db.by_id.get(vid) or self.local_decl(vid)
                nm = loc.region.name.split('#')[0]
                if nm in par['private'] or nm in par['reduction'] or vid == lv:
                    priv.add(loc.region)
        entry = st.fork()
        h = st.fork()
        for k in mods: self.havoc_key(h, k, hints.get(k))
        if par is not None:
            # private copies start unset in every iteration
            pass
        ctx = LoopCtx(self, key, n, entry, h, mods, dict(st.env))
        cands = []
        if not self.dry:
            cands = [(ck, f) for ck, f in self.candidates(ctx) if ck not in self.disabled and (self.only is None or ck in self.only)]
            hpc = []
            for ck, f in cands:
                ge = f(entry)
                gh = f(h)
                if ge is None or gh is None: continue
                self.hchecks.append((ck, entry.pc, ge, 'entry', self.where(n)))
                hpc.append(gh)
            for g in hpc: h.assume(g)
        mod_entry = len(h.pc)
        fr.brk.append([]); fr.cont.append([])
        nret = len(fr.returns)
        rec = None
        if par is not None and not self.dry:
            rec = Recorder(R0, priv)
            self.recorders.append(rec)
        nalloc = len(self.allocs)
        b, head = h.fork(), h.fork()
        exits = []
        if not post:
            c = self.cond(h, cond) if cond is not None else z3.BoolVal(True)
            b = h.fork()
            b.assume(c); b.conds.append(c)
            x = h.fork()
            nc = z3.Not(c)
            x.assume(nc)
            if z3.is_false(z3.simplify(nc)): x = None
            elif not self.dry: self.at_limit(x, c)
        bstart = b.fork()
        ends = []
        try:
            self.stmt(b, body)
            ends.append(b)
        except Dead: pass
        brk, cont = fr.brk.pop(), fr.cont.pop()
        ends += cont
        if rec is not None: self.recorders.pop()
        endst = None
        if ends:
            endst = ends[0] if len(ends) == 1 else self.merge(ends, bstart)
            endst.env = dict(h.env)
            endst.conds = list(bstart.conds)
            try:
                if inc is not None: self.rval(endst, inc)
                if post:
                    c = self.cond(endst, cond)
                    x = endst.fork()
                    nc = z3.Not(c)
                    x.assume(nc); 
                    endst.assume(c)
            except Dead: endst = None
        elif post: x = None
        if endst is not None:
            for k in mods:
                a, bb = h.mem.get(k), endst.mem.get(k)
                if isinstance(a, Ptr) and isinstance(bb, Ptr) and a.region is not bb.region:
                    raise Unsupported('loop moves a pointer to another object')
                if isinstance(a, PtrArr) and isinstance(bb, PtrArr) and a.region is not bb.region:
                    raise Unsupported('loop fills a pointer array from several objects')
            for ck, f in cands:
                g = f(endst)
                if g is None: continue
                self.hchecks.append((ck, endst.pc, g, 'preserve', self.where(n)))
            if not self.dry: self.loop_leaks(endst, nalloc, n)
            if not self.dry:
                side = any(bstart.mem.get(k) is not head.mem.get(k) for k in mods)      # the condition itself changes variables
                self.termination(head if post or side else bstart, endst, cond, n, side)
        if rec is not None:
            self.races(entry, rec, F0, lv, h, st, n)
            for vid, loc in st.env.items(): pass
        if fr.returns[nret:] or True:
            if x is not None and not post and (len(fr.returns) > nret or brk):
                x.conds.append(z3.Not(c))
        outs = ([x] if x is not None else []) + brk
        if not outs: raise Dead()
        for o in outs: o.env = h.env
        m = outs[0] if len(outs) == 1 else self.merge(outs, h)
        self._become(st, m)
        if len(fr.returns) > nret or True:
            pass

    def at_limit(self, st, c):
        """a loop on a < b ends with a = b: said outright where it follows"""
        if z3.is_gt(c) or z3.is_lt(c):
            a, b = c.children()
            if z3.is_int(a) and self.quick(st, a == b): st.assume(a == b)

    def loop_leaks(self, st, nalloc, n):
        """memory an iteration allocates is released in it"""
        mine = self.allocs[nalloc:]
        if not mine or getattr(self.cfg, 'c0', None) is None or self.cfg.leaks(self.cfg.c0) is None: return
        for r in mine:
            if (r, '#alloc') not in st.mem: continue
            self.oblige(st, 'leak', z3.Implies(st.mem[(r, '#alloc')], st.mem.get((r, '#freed'), z3.BoolVal(False))), n,
                        'memory an iteration allocates as %s is released in it' % r.name.split('#')[0])

    def local_decl(self, vid): return None

    def loop_ordinal(self, n):
        """position of the loop inside its function: stable under edits elsewhere"""
        f = self.frames[-1].func
        root = f.node if f is not None else None
        k = id(root)
        if k not in self.ordinals:
            o = {}
            def w(x):
                if x.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt'): o[x['id']] = len(o)
                for c in x.get('inner', []):
                    if c: w(c)
            if root: w(root)
            self.ordinals[k] = o
        return self.ordinals[k].get(n.get('id'), n.get('_l'))

    def termination(self, h, e, cond, n, side=False):
        if cond is None:
            self.notes.append('termination not shown: ' + self.where(n)); return
        comps = []
        def w(x):
            while x['kind'] in SKIP or (x['kind'] == 'ImplicitCastExpr' and x['castKind'] == 'IntegralToBoolean'): x = self.kid(x)
            if x['kind'] == 'BinaryOperator':
                if x['opcode'] == '&&': w(x['inner'][0]); w(x['inner'][1])
                elif x['opcode'] in ('<', '<=', '>', '>=', '!='): comps.append(x)
        w(cond)
        alts = []
        self.dry += 1
        try:
            for x in comps:
                ms = []
                for s0 in (h, e):
                    s = s0.fork()
                    try:
                        a, b = self.rval(s, x['inner'][0]), self.rval(s, x['inner'][1])
                    except (Unsupported, Dead): break
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is b.region: a, b = a.off, b.off
                    if not (z3.is_expr(a) and z3.is_expr(b) and z3.is_int(a) and z3.is_int(b)): break
                    ms.append((a, b))
                if len(ms) < 2: continue
                (a, b), (a2, b2) = ms
                for p, q, p2, q2 in ((b, a, b2, a2), (a, b, a2, b2)):
                    if x['opcode'] in ('<', '<=') and p is a or x['opcode'] in ('>', '>=') and p is b: continue
                    alts.append(z3.And(p - q >= 0, p2 - q2 < p - q))
            if self.mode != 'bv' and side:
                # for (i = n; i-- > 0;): some integer variable gets smaller and stays >= 0
                for (r, p), v in h.mem.items():
                    if isinstance(p, str) or not r.single or not z3.is_expr(v) or not z3.is_int(v): continue
                    v2 = e.mem.get((r, p))
                    if z3.is_expr(v2) and z3.is_int(v2) and not v2.eq(v): alts.append(z3.And(v2 >= 0, v2 < v))
            if self.mode == 'bv':
                # some unsigned variable, or the sum of two, gets smaller
                ms = []
                for (r, p), v in h.mem.items():
                    if isinstance(p, str) or not r.single or not z3.is_bv(v): continue
                    v2 = e.mem.get((r, p))
                    if v2 is None or v2.eq(v): continue
                    ms.append((z3.ZeroExt(72 - v.size(), v), z3.ZeroExt(72 - v.size(), v2)))
                alts += [z3.ULT(b, a) for a, b in ms]
                alts += [z3.ULT(ms[i][1] + ms[j][1], ms[i][0] + ms[j][0]) for i in range(len(ms)) for j in range(i)]
        finally:
            self.dry -= 1
        if not alts:
            self.notes.append('termination not shown: ' + self.where(n)); return
        self.oblige(e, 'termination', z3.Or(*alts) if len(alts) > 1 else alts[0], n, 'loop makes progress')

    # ------------------------------------------------------------ templates
    def candidates(self, ctx):
        from . import templates
        out = list(templates.generic(ctx, getattr(self.cfg, 'lean', False)))
        if self.cfg is not None and getattr(self.cfg, 'templates', None):
            own = list(self.cfg.templates(ctx))
            self.own_cands.update(ck for ck, f in own)
            out += own
        return out

    # ------------------------------------------------------------ races
    def races(self, entry, rec, F0, lv, h, st, n):
        ren = self.fresh_log[F0:]
        prim = [z3.Const(c.decl().name() + "'", c.sort()) for c in ren]
        subs = list(zip(ren, prim))
        npc = len(entry.pc)
        ids = {f.get_id() for f in entry.pc}
        lvl = h.env.get(lv) if lv else None
        ivar = h.mem.get((lvl.region, lvl.path)) if lvl else None
        if ivar is None or not z3.is_expr(ivar): raise Unsupported('parallel loop without a simple index')
        groups = {}
        for a in rec.log: groups.setdefault(a.region, []).append(a)
        def key(a): return (a.path, a.write, tuple(i.get_id() for i in a.idx), tuple(f.get_id() for f in a.pc), tuple(f.get_id() for f in a.extra))
        for r, acc in groups.items():
            u = {}
            for a in acc: u.setdefault(key(a), a)
            acc = list(u.values())
            seen = set()
            for a in acc:
                if not a.write: continue
                for b in acc:
                    if not self._paths_overlap(a.path, b.path): continue
                    pk = (key(a), key(b))
                    if pk in seen or (pk[1], pk[0]) in seen and b.write: continue
                    seen.add(pk)
                    pcb = [z3.substitute(f, subs) for f in list(b.pc) + list(b.extra) if f.get_id() not in ids]
                    idxb = [z3.substitute(i, subs) for i in b.idx]
                    pc = list(entry.pc) + [f for f in list(a.pc) + list(a.extra) if f.get_id() not in ids] + pcb
                    pc.append(ivar != z3.substitute(ivar, subs))
                    eq = [x == y for x, y in zip(a.idx, idxb)]
                    goal = z3.Not(z3.And(*eq)) if eq else z3.BoolVal(False)
                    self.obs.append(Obligation('race', self.curfunc, a.where or self.where(n), pc, goal,
                                               'no two iterations of the parallel loop at %s touch the same element of %s when one writes (%s, %s)'
                                               % (self.where(n), r.name.split('#')[0], a.where, b.where)))

    def clause(self, txt, name):
        out = set()
        for m in re.finditer(r'\b%s\s*\(([^)]*)\)' % name, txt):
            s = m.group(1)
            if ':' in s: s = s.split(':', 1)[1]
            for x in s.split(','): out.add(x.strip())
        return out

    def par_info(self, n):
        t = self.db.pragma(n)
        if re.search(r'\bcollapse\b|\bordered\b', t): raise Unsupported('OpenMP clause in: ' + t)
        return {'private': self.clause(t, 'private') | self.clause(t, 'firstprivate') | self.clause(t, 'lastprivate'),
                'reduction': self.clause(t, 'reduction'), 'text': t}

    def omp_stmt(self, n):
        for c in n.get('inner', []):
            if not c or 'kind' not in c: continue
            k = c['kind']
            if k in ('CapturedStmt', 'CapturedDecl'):
                r = self.omp_stmt(c)
                if r is not None: return r
            elif k in STMTS or k in ('ForStmt', 'CompoundStmt') or k.endswith('Expr') or k.endswith('Operator'):
                if k.startswith('OMP') and not n['kind'].startswith('OMP') and False: continue
                return c
        return None

    def s_OMPParallelForDirective(self, st, n):
        p = self.par_info(n)
        f = self.omp_stmt(n)
        while f is not None and f['kind'] in ('CapturedStmt', 'CapturedDecl', 'AttributedStmt'): f = self.omp_stmt(f)
        if f is None or f['kind'] != 'ForStmt': raise Unsupported('parallel loop shape')
        self.s_ForStmt(st, f, par=p)
    s_OMPSimdDirective = s_OMPParallelForDirective
    s_OMPParallelForSimdDirective = s_OMPParallelForDirective

    def s_OMPTaskDirective(self, st, n):
        t = self.db.pragma(n)
        if re.search(r'\b(if|final|depend|untied)\b', t.split('task', 1)[-1]) and 'depend' in t: raise Unsupported('task clause')
        body = self.omp_stmt(n)
        if self.dry:
            self.stmt(st, body); return
        rec = Recorder(self.nregion)
        self.recorders.append(rec)
        try:
            self.stmt(st, body)
        finally:
            self.recorders.pop()
        foot = []
        for a in rec.log:
            if a.region.kind == 'local' and a.region.single:
                if a.write: raise Unsupported('task writes a local variable')
                continue
            foot.append(a)
        st.tasks = list(st.tasks) + [foot]

    def s_OMPTaskwaitDirective(self, st, n):
        st.tasks = []

    def s_OMPParallelDirective(self, st, n):
        raise Unsupported('parallel region')


class Alloc(Opaque):
    """result of malloc before it is given a type"""
    def __init__(self, bytes_, kind, zero, site, existing=None):
        self.what = 'allocation'
        self.bytes, self.kind, self.zero, self.site = bytes_, kind, zero, site
        self.nonnull = z3.BoolVal(True)

    def make(self, ex, st, el, n):
        if el.k == 'rec' and el.name not in ex.db.records: return self
        sz = ex.sizeof(el) if el.k != 'void' else 1
        d, c = linear(self.bytes)
        if all(v % sz == 0 for v in d.values()) and c % sz == 0:
            size = from_linear({k: v // sz for k, v in d.items()}, c // sz)
        else:
            size = self.bytes / IV(sz)
        r = ex.region('%s@%s' % (self.kind, self.site.split('/')[-1]), el, size, False, 'malloc')
        r.allocated = 'malloc'
        ex.newalloc(st, r)
        if self.zero:
            for p, t in ex.leaves(el):
                if t.k == 'ptr': continue
                v = z3.K(IntS, ex.zero(t))
                if '[]' in p: v = z3.K(IntS, v)
                st.mem[(r, p)] = v
        return Ptr(r, IV(0))
