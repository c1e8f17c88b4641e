"""Symbolic execution of clang AST bodies into verification conditions."""
import re
import os
import z3
from .astdb import CT, U32, I32, U64, F32, BOOL, VOID, node_type, parse_type
from .core import *


class Obligation:
    __slots__ = ('kind', 'func', 'where', 'pc', 'goal', 'desc', 'alts', 'status', 'backend', 'time', 'note')

    def __init__(self, kind, func, where, pc, goal, desc, alts=None):
        self.kind, self.func, self.where, self.pc, self.goal, self.desc = kind, func, where, pc, goal, desc
        self.alts = alts
        self.status = None
        self.backend = None
        self.time = 0.0
        self.note = ''

    def name(self):
        return '%s/%s: %s' % (self.func, self.kind, self.desc)


class State:
    __slots__ = ('mem', 'env', 'pc', 'conds', 'tasks', 'rng', 'ret')

    def __init__(self):
        self.mem, self.env, self.pc, self.conds, self.tasks, self.rng, self.ret = {}, {}, [], [], [], set(), None

    def fork(self):
        s = State()
        s.mem, s.env, s.pc, s.conds = dict(self.mem), dict(self.env), list(self.pc), list(self.conds)
        s.tasks, s.rng, s.ret = list(self.tasks), set(self.rng), self.ret
        return s

    def assume(self, f):
        if z3.is_true(f): return
        self.pc.append(f)


class Access:
    __slots__ = ('pc', 'region', 'path', 'idx', 'write', 'where', 'extra')

    def __init__(self, pc, region, path, idx, write, where, extra=()):
        self.pc, self.region, self.path, self.idx, self.write, self.where = pc, region, path, idx, write, where
        self.extra = extra


class Recorder:
    def __init__(self, mark, private=()):
        self.mark, self.log, self.private = mark, [], set(private)


class Dead(Exception):
    pass


SKIP = ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'SubstNonTypeTemplateParmExpr',
        'ConstantExpr', 'CXXBindTemporaryExpr', 'CXXRewrittenBinaryOperator', 'FullExpr')


class Exec:
    def __init__(self, db, mode='int', config=None):
        self.db, self.mode = db, mode
        self.cfg = config
        self.decl_memo = {}
        self.disabled = set()
        self.only = None
        self.own_cands = set()      # candidates that come from the contract
        self.loop_mods = {}
        self.trust = set()
        self.used_funcs = {}
        self.reset()

    def reset(self):
        self.obs, self.hchecks, self.axioms = [], [], []
        self.nfresh = 0
        self.fresh_log = []
        self.init = {}
        self.recorders = []
        self.callstack = []
        self.frames = []
        self.dry = 0
        self.modlog = []
        self.nregion = 0
        self.specs = {}
        self.curfunc = ''
        self.unroll = None
        self.candkeys = {}
        self.quick_cache = {}
        self.quick_solver = None
        self.arenas = {}
        self.notes = []
        self.allocs = []
        self.sorts = []
        self.assumed = set()

    # ------------------------------------------------------------ symbols
    def fresh(self, name, sort):
        self.nfresh += 1
        c = z3.Const('%s!%d' % (name, self.nfresh), sort)
        self.fresh_log.append(c)
        return c

    def isort(self, ct):
        if self.mode == 'bv':
            return z3.BitVecSort(1 if ct.k == 'bool' else ct.bits)
        return IntS

    def sort_of(self, ct):
        if ct.k == 'bool': return BoolS
        if ct.k == 'int': return self.isort(ct)
        if ct.k == 'float': return RealS
        raise Unsupported('sort of %r' % ct)

    def fresh_val(self, name, ct, st=None):
        v = self.fresh(name, self.sort_of(ct))
        if ct.k == 'int' and self.mode == 'int' and st is not None:
            lo, hi = rng(ct)
            st.assume(z3.And(v >= lo, v <= hi))
        return v

    def const(self, n, ct):
        if self.mode == 'bv' and ct.k == 'int': return z3.BitVecVal(n, ct.bits)
        if ct.k == 'float': return z3.RealVal(n)
        if ct.k == 'bool': return z3.BoolVal(bool(n))
        return IV(n)

    def region(self, name, elem, size=None, single=False, kind='param', stable=None):
        self.nregion += 1
        r = Region('%s#%d' % (name, self.nregion), elem, size, single, kind, born=self.nregion)
        r.stable = stable or ('%s|%s' % ('/'.join(map(str, self.callstack)), name))
        return r

    # ------------------------------------------------------------ sizeof
    def sizeof(self, ct):
        return self._sa(ct)[0]

    def _sa(self, ct):
        if ct.k in ('int', 'float'): 
            b = {80: 16}.get(ct.bits, ct.bits // 8)
            return b, b
        if ct.k == 'bool': return 1, 1
        if ct.k in ('ptr', 'ref'): return 8, 8
        if ct.k == 'arr':
            s, a = self._sa(ct.to)
            return s * ct.n, a
        if ct.k == 'rec':
            r = self.db.records.get(ct.name)
            if r is None: raise Unsupported('sizeof ' + ct.name)
            off, al, mx = 0, 1, 0
            for (n, t, i) in self.db.all_fields(ct.name):
                s, a = self._sa(t)
                off = (off + a - 1) // a * a + s
                mx = max(mx, s)
                al = max(al, a)
            if r.union: off = mx
            return (off + al - 1) // al * al, al
        raise Unsupported('sizeof %r' % ct)

    # ------------------------------------------------------------ leaves
    def leaves(self, ct):
        """[(path, CT)] of the scalar members of a type"""
        if ct.k in ('int', 'float', 'bool', 'ptr'): return [((), ct)]
        if ct.k == 'arr': return [(('[]',) + p, t) for p, t in self.leaves(ct.to)]
        if ct.k == 'rec':
            if ct.name.startswith('std::vector<') or ct.name.startswith('vector<'):
                el = parse_type(ct.name[ct.name.index('<') + 1:-1].split(',')[0])
                return [(('#size',), U64), (('#data', '[]'), el)]
            out = []
            if ct.name not in self.db.records: return []
            for (n, t, i) in self.db.all_fields(ct.name):
                for p, lt in self.leaves(t): out.append(((n,) + p, lt))
            return out
        return []

    def leaf_ct(self, region, path):
        ct = region.elem
        for p in path:
            if p == '[]': ct = ct.to if ct.k == 'arr' else ct
            elif p == '#size': ct = U64
            elif p == '#data':
                ct = CT('arr', to=parse_type(ct.name[ct.name.index('<') + 1:-1].split(',')[0]))
            else:
                f = [t for (n, t, i) in self.db.all_fields(ct.name) if n == p]
                if not f: raise Unsupported('field %s of %s' % (p, ct))
                ct = f[0]
        return ct

    def dims(self, region, path):
        return (0 if region.single else 1) + (1 if '[]' in path else 0)

    def gconst(self, name, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (name, self.nfresh), sort)

    def init_val(self, region, path, ct):
        """symbolic initial contents, shared by all states"""
        k = (region, path)
        if k in self.init: return self.init[k]
        mk = self.gconst if region.kind == 'param' else self.fresh
        nm = region.name + ''.join('.' + p for p in path)
        d = self.dims(region, path)
        if ct.k == 'ptr':
            if d == 0:
                v = self.param_ptr(region, path, ct)
            else:
                hook = self.cfg and self.cfg.ptr_array and self.cfg.ptr_array(self, region, path, ct)
                v = hook or PtrArr(self.region(nm + '*', ct.to, None, False, 'param', stable=region.stable + '.' + '.'.join(path) + '*'),
                                   mk(nm + '@off', z3.ArraySort(IntS, IntS)))
        elif d == 0:
            v = mk(nm, self.sort_of(ct))
            if ct.k == 'int' and self.mode == 'int':
                lo, hi = rng(ct)
                self.axioms.append(z3.And(v >= lo, v <= hi))
        else:
            s = self.sort_of(ct)
            for _ in range(d): s = z3.ArraySort(IntS, s)
            v = mk(nm, s)
            if d == 1 and ct.k == 'int' and self.mode == 'int':
                lo, hi = rng(ct)
                kk = z3.Int('k!r')
                self.axioms.append(z3.ForAll([kk], z3.And(z3.Select(v, kk) >= lo, z3.Select(v, kk) <= hi), patterns=[z3.Select(v, kk)]))
        self.init[k] = v
        return v

    def param_ptr(self, region, path, ct):
        nm = region.name.split('#')[0] + ''.join('.' + p for p in path)
        stable = region.stable + '.' + '.'.join(path)
        if ct.to.k in ('void', 'func') or (ct.to.k == 'rec' and ct.to.name not in self.db.records):
            return Opaque('ptr ' + nm)
        single = ct.to.k == 'rec' and not self.is_array_elem(ct.to.name)
        size = None
        r = self.region(nm, ct.to, size, single, 'param', stable=stable)
        if not single:
            r.size = self.gconst(nm + '.size', IntS)
            self.axioms.append(r.size >= 0)
        else:
            r.size = IV(1)
        return Ptr(r, IV(0))

    ARRAY_ELEMS = ('Triplet<', 'Element<', 'NonZero<', 'BlockRowPartition<')

    def is_array_elem(self, name):
        if self.cfg and getattr(self.cfg, 'single_recs', None) and any(name.startswith(p) for p in self.cfg.single_recs): return False
        if self.cfg and getattr(self.cfg, 'array_recs', None) and any(name.startswith(p) for p in self.cfg.array_recs): return True
        return any(name.startswith(p) for p in self.ARRAY_ELEMS)

    # ------------------------------------------------------------ memory
    def where(self, node):
        f = node.get('_f') or ''
        return '%s:%s' % (f.replace(str(self._repo()) + '/', ''), node.get('_l'))

    def _repo(self):
        from . import astdb
        return astdb.REPO

    def idx_of(self, loc):
        ix = []
        if not loc.region.single: ix.append(loc.off)
        if '[]' in loc.path: ix.append(loc.sub)
        return ix

    def record(self, st, region, path, idx, write, node, extra=()):
        if self.dry or not (self.recorders or st.tasks): return
        for r in self.recorders:
            if region.born <= r.mark and region not in r.private:
                r.log.append(Access(list(st.pc), region, path, list(idx), write, self.where(node) if node else '', extra))
        for t in st.tasks:
            for a in t:
                if a.region is region and (a.write or write) and self._paths_overlap(a.path, path):
                    self.emit_disjoint(st, a, idx, node)

    def _paths_overlap(self, p, q):
        n = min(len(p), len(q))
        return p[:n] == q[:n]

    def emit_disjoint(self, st, a, idx, node):
        eqs = [x == y for x, y in zip(a.idx, idx)]
        self.oblige(st, 'race', z3.Not(z3.And(*eqs)) if eqs else z3.BoolVal(False), node,
                    'no access to %s conflicts with a task still running' % a.region.name.split('#')[0],
                    extra=[f for f in a.pc[-40:]] + list(a.extra))

    def check_bounds(self, st, loc, node, write):
        r = loc.region
        if r is None:
            self.oblige(st, 'null', z3.BoolVal(False), node, 'no access through a null pointer')
            raise Dead()
        if not r.single:
            if r.size is not None and not (z3.is_int_value(loc.off) and z3.is_int_value(r.size)
                                           and 0 <= loc.off.as_long() < r.size.as_long()):
                self.oblige(st, 'bounds', z3.And(loc.off >= 0, loc.off < r.size), node,
                            '%s of %s stays inside its %s' % ('write' if write else 'read', r.name.split('#')[0], 'allocation'))
        elif not (z3.is_int_value(loc.off) and loc.off.as_long() == 0):
            self.oblige(st, 'bounds', loc.off == 0, node, 'object %s accessed at offset 0' % r.name.split('#')[0])
        if '[]' in loc.path and '#data' not in loc.path:
            n = self._arr_len(r, loc.path)
            if n is not None and loc.sub is not None and not (z3.is_int_value(loc.sub) and 0 <= loc.sub.as_long() < n):
                self.oblige(st, 'bounds', z3.And(loc.sub >= 0, loc.sub < n), node, 'index of member array of %s' % r.name.split('#')[0])
        if (r, '#freed') in st.mem and not z3.is_false(st.mem[(r, '#freed')]):
            self.oblige(st, 'lifetime', z3.Not(st.mem[(r, '#freed')]), node, 'no access to freed %s' % r.name.split('#')[0])

    def _arr_len(self, region, path):
        i = path.index('[]')
        ct = self.leaf_ct(region, path[:i])
        return ct.n if ct.k == 'arr' else None

    def rawget(self, st, region, path):
        k = (region, path)
        if k in st.mem: return st.mem[k]
        return self.init_val(region, path, self.leaf_ct(region, path))

    def sel(self, arr, idx):
        for i in idx: arr = z3.Select(arr, i)
        return arr

    def sto(self, arr, idx, v):
        if len(idx) == 1: return z3.Store(arr, idx[0], v)
        return z3.Store(arr, idx[0], self.sto(z3.Select(arr, idx[0]), idx[1:], v))

    def read_leaf(self, st, loc, ct, node, check=True):
        if check: self.check_bounds(st, loc, node, False)
        if loc.region is None: raise Dead()
        v = self.rawget(st, loc.region, loc.path)
        idx = self.idx_of(loc)
        if idx or loc.region.kind not in ('local', 'temp'):
            self.record(st, loc.region, loc.path, idx, False, node)
        elif self.recorders:
            self.record(st, loc.region, loc.path, idx, False, node)
        if isinstance(v, PtrArr):
            return Ptr(v.region, z3.Select(v.offs, idx[0]) if idx else v.offs)
        if not idx: 
            return v
        if isinstance(v, (Opaque, Ptr)):
            if isinstance(v, Opaque): raise Unsupported('read of %s' % v)
            return v
        t = self.sel(v, idx)
        if ct.k == 'int' and self.mode == 'int': self.assume_range(st, t, ct)
        return t

    def assume_range(self, st, t, ct):
        if z3.is_int_value(t): return
        i = t.get_id()
        if i in st.rng: return
        st.rng.add(i)
        lo, hi = rng(ct)
        st.assume(z3.And(t >= lo, t <= hi))

    def read(self, st, loc, node, check=True):
        ct = loc.ct
        if ct.k == 'rec' and 'lambda' in ct.name:
            v = st.mem.get((loc.region, loc.path))
            if v is None: raise Unsupported('lambda value')
            return v
        if ct.k == 'rec':
            if check and not loc.region.single: self.check_bounds(st, loc, node, False)
            lv = {}
            for p, t in self.leaves(ct):
                if '[]' in p: 
                    lv[p] = self.rawget(st, loc.region, loc.path + p)
                    continue
                lv[p] = self.read_leaf(st, Loc(loc.region, loc.off, loc.path + p, loc.sub, t), t, node, False)
            return StructVal(lv)
        return self.read_leaf(st, loc, ct, node, check)

    def write(self, st, loc, val, node, check=True):
        ct = loc.ct
        if isinstance(val, LambdaVal):
            st.mem[(loc.region, loc.path)] = val
            return
        if ct.k == 'rec':
            if not isinstance(val, StructVal): raise Unsupported('struct write of %r' % (val,))
            if check: self.check_bounds(st, loc, node, True)
            for p, v in val.leaves.items():
                if '[]' in p:
                    if loc.region.single:
                        for lg in self.modlog: lg.add((loc.region, loc.path + p))
                        st.mem[(loc.region, loc.path + p)] = v
                    else: raise Unsupported('copy of nested array')
                    continue
                self.write_leaf(st, Loc(loc.region, loc.off, loc.path + p, loc.sub, None), v, node, False)
            return
        self.write_leaf(st, loc, val, node, check)

    def write_leaf(self, st, loc, val, node, check=True):
        if check: self.check_bounds(st, loc, node, True)
        idx = self.idx_of(loc)
        self.record(st, loc.region, loc.path, idx, True, node)
        k = (loc.region, loc.path)
        for lg in self.modlog: lg.add(k)
        if not idx:
            st.mem[k] = val
            return
        old = self.rawget(st, loc.region, loc.path)
        if isinstance(val, Ptr) or isinstance(old, PtrArr):
            if isinstance(val, Ptr):
                if val.path: raise Unsupported('pointer to member stored in array')
                if isinstance(old, PtrArr) and val.region is None:
                    st.mem[k] = PtrArr(old.region, self.sto(old.offs, idx, NULLOFF))
                elif isinstance(old, PtrArr) and old.region is val.region:
                    st.mem[k] = PtrArr(val.region, self.sto(old.offs, idx, val.off))
                elif isinstance(old, PtrArr) and (old.region.kind == 'uninit' or self._unset(old, loc.region)):
                    st.mem[k] = PtrArr(val.region, self.sto(old.offs, idx, val.off))
                else:
                    raise Unsupported('array of pointers into several regions: %s' % loc.region)
                return
            raise Unsupported('pointer array write of %r' % (val,))
        if isinstance(val, (Opaque, LambdaVal, StructVal)): raise Unsupported('array write of %r' % (val,))
        st.mem[k] = self.sto(old, idx, val)

    def _unset(self, pa, region):
        return region.kind in ('new[]', 'malloc', 'calloc', 'local', 'uninit') and pa.region.kind == 'param' and pa.region.stable.endswith('*')

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, goal, node, desc, extra=None, alts=None):
        if self.dry: return
        g = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if not z3.is_quantifier(goal) and z3.is_true(g) : 
            self.trivial = getattr(self, 'trivial', 0) + 1
            return
        pc = list(st.pc)
        if extra: pc = pc + list(extra)
        self.obs.append(Obligation(kind, self.curfunc, self.where(node) if node else '', pc, goal, desc, alts))
        if not extra and kind not in ('race', 'termination') and not (kind in ('dealloc', 'leak') and z3.is_false(g)): st.assume(goal)

    def has_quant(self, t, _c={}):
        i = t.get_id()
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): return True
            st.extend(x.children())
        return False

    def quick(self, st, goal, ms=150):
        """cheap entailment test used only to choose simpler (equal) terms"""
        if self.dry: return False
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        s = z3.SimpleSolver()
        s.set('timeout', ms)
        s.set('smt.array.extensional', False)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        for f in self.axioms: s.add(f)
        for f in self.arith_for(list(st.pc) + [goal]): s.add(f)
        for f in st.pc: s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if os.environ.get("QDBG"): print("QUICK", g.sexpr()[:120], r, s.reason_unknown() if r==z3.unknown else "")
        return r == z3.unsat

    def arith_for(self, ts):
        u = used_decls(ts, self.decl_memo)
        out = []
        if u & {'imul', 'idiv', 'imod'}: out += arith_axioms(u | {'idiv', 'imod'})
        if 'fmul' in u: out += float_axioms()
        return out

    # ------------------------------------------------------------ integers
    def norm(self, st, r, ct, node, what='result'):
        """value of mathematical r after conversion to integer type ct"""
        if self.mode == 'bv': return r
        lo, hi = rng(ct)
        if z3.is_int_value(r):
            v = r.as_long()
            if lo <= v <= hi: return r
            v &= (1 << ct.bits) - 1
            if ct.signed and v > hi: v -= 1 << ct.bits
            return IV(v)
        if self.dry: return r
        okhi = self.quick(st, r <= hi)
        oklo = self.quick(st, r >= lo)
        if okhi and oklo: return r
        m = 1 << ct.bits
        if ct.signed:
            return z3.If(z3.And(r >= lo, r <= hi), r, ((r + (m >> 1)) % m) - (m >> 1))
        if oklo and self.quick(st, r < 2 * m): return z3.If(r <= hi, r, r - m)
        if okhi and self.quick(st, r >= -m): return z3.If(r >= 0, r, r + m)
        return z3.If(z3.And(r >= lo, r <= hi), r, r % m)

    def arith(self, st, op, a, b, ct, node):
        if ct.k == 'float':
            a, b = self.to_real(a), self.to_real(b)
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return mk_fmul(a, b)
            if op == '/':
                if z3.is_rational_value(b) and b.as_fraction() != 0: return a / b
                return FDIV(a, b)
            raise Unsupported('float op ' + op)
        if self.mode == 'bv': return self.arith_bv(st, op, a, b, ct, node)
        a, b = self.to_int(a), self.to_int(b)
        if op in '+-*' and len(op) == 1:
            r = add(a, b) if op == '+' else sub(a, b) if op == '-' else mk_imul(a, b)
            if ct.signed:
                lo, hi = rng(ct)
                self.oblige(st, 'overflow', z3.And(r >= lo, r <= hi), node, 'signed %s does not overflow' % op)
                return r
            return self.norm(st, r, ct, node)
        if op in ('/', '%'):
            self.oblige(st, 'div', b != 0, node, 'divisor is not zero')
            if z3.is_int_value(b) and b.as_long() > 0 and (not ct.signed or self.dry or self.quick(st, a >= 0)):
                return (a / b) if op == '/' else (a % b)
            if not ct.signed or (self.quick(st, a >= 0) and self.quick(st, b > 0)):
                return IDIV(a, b) if op == '/' else IMOD(a, b)
            return self.fresh_val('sdiv', ct, st)
        if op == '<<':
            if z3.is_int_value(b):
                if not (0 <= b.as_long() < ct.bits):
                    self.oblige(st, 'shift', z3.BoolVal(False), node, 'shift amount below the width')
                    return self.fresh_val('shl', ct, st)
                r = mk_imul(a, IV(1 << b.as_long()))
                return self.norm(st, r, ct, node)
            self.oblige(st, 'shift', z3.And(b >= 0, b < ct.bits), node, 'shift amount below the width')
            return self.fresh_val('shl', ct, st)
        if op == '>>':
            if z3.is_int_value(b) and 0 <= b.as_long() < ct.bits and not ct.signed: return a / IV(1 << b.as_long())
            self.oblige(st, 'shift', z3.And(b >= 0, b < ct.bits), node, 'shift amount below the width')
            v = self.fresh_val('shr', ct, st)
            st.assume(z3.Implies(a >= 0, z3.And(v >= 0, v <= a)))
            return v
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y) and y.as_long() >= 0 and (y.as_long() & (y.as_long() + 1)) == 0 and not ct.signed:
                    return x % IV(y.as_long() + 1)
        v = self.fresh_val('bits', ct, st)
        if op == '&' and not ct.signed: st.assume(z3.And(v <= a, v <= b))
        if op == '|' and not ct.signed: st.assume(z3.And(v >= a, v >= b, v <= a + b))
        if op == '^' and not ct.signed: st.assume(v <= a + b)
        return v

    def arith_bv(self, st, op, a, b, ct, node):
        w = ct.bits
        if z3.is_bool(a): a = z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if z3.is_bool(b): b = z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if op in ('<<', '>>'):
            bw = b.size()
            self.oblige(st, 'shift', z3.ULT(b, z3.BitVecVal(w, bw)) if bw >= 8 else z3.BoolVal(True), node,
                        'shift amount below the width')
            if bw < w: b = z3.ZeroExt(w - bw, b)
            elif bw > w: b = z3.Extract(w - 1, 0, b)
            if op == '<<': return a << b
            return (a >> b) if ct.signed else z3.LShR(a, b)
        if a.size() != w or b.size() != w: raise Unsupported('bv width %s %s' % (a.sort(), b.sort()))
        if op == '+': r = a + b
        elif op == '-': r = a - b
        elif op == '*': r = a * b
        elif op == '&': return a & b
        elif op == '|': return a | b
        elif op == '^': return a ^ b
        elif op in ('/', '%'):
            self.oblige(st, 'div', b != 0, node, 'divisor is not zero')
            if op == '/': return (a / b) if ct.signed else z3.UDiv(a, b)
            return z3.SRem(a, b) if ct.signed else z3.URem(a, b)
        else: raise Unsupported('bv op ' + op)
        if ct.signed:
            sa, sb = z3.SignExt(w, a), z3.SignExt(w, b)
            full = sa + sb if op == '+' else sa - sb if op == '-' else sa * sb
            self.oblige(st, 'overflow', full == z3.SignExt(w, r), node, 'signed %s does not overflow' % op)
        return r

    def cmp(self, st, op, a, b, ct):
        if ct.k == 'float' or (z3.is_expr(a) and z3.is_real(a)) or (z3.is_expr(b) and z3.is_real(b)):
            a, b = self.to_real(a), self.to_real(b)
        elif z3.is_bool(a) or z3.is_bool(b):
            if z3.is_bool(a) and z3.is_bool(b) and op in ('==', '!='):
                return a == b if op == '==' else a != b
            a, b = self.to_int(a), self.to_int(b)
        if self.mode == 'bv' and z3.is_bv(a):
            if op == '==': return a == b
            if op == '!=': return a != b
            if ct.signed: return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            return {'<': z3.ULT(a, b), '<=': z3.ULE(a, b), '>': z3.UGT(a, b), '>=': z3.UGE(a, b)}[op]
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]

    def to_int(self, v):
        if z3.is_bool(v):
            if self.mode == 'bv': return z3.If(v, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
            return z3.If(v, IV(1), IV(0))
        return v

    def to_real(self, v):
        if z3.is_real(v): return v
        if z3.is_bv(v): return z3.ToReal(z3.BV2Int(v))
        v = self.to_int(v)
        if z3.is_int_value(v): return z3.RealVal(v.as_long())
        return z3.ToReal(v)

    def to_bool(self, v):
        if isinstance(v, Ptr): return z3.BoolVal(v.region is not None)
        if isinstance(v, PtrChoice): return z3.If(v.c, self.to_bool(v.a), self.to_bool(v.b))
        if isinstance(v, Opaque): return self.opaque_bool(v)
        if not z3.is_expr(v): raise Unsupported('truth of %r' % (v,))
        if z3.is_bool(v): return v
        if z3.is_int_value(v): return z3.BoolVal(v.as_long() != 0)
        return v != 0

    def opaque_bool(self, v):
        if getattr(v, 'nonnull', None) is not None: return v.nonnull
        raise Unsupported('truth of %r' % v)

    def convert(self, st, v, frm, to, node):
        if to.k == 'bool': return self.to_bool(v)
        if to.k == 'int':
            if isinstance(v, (Ptr, Opaque)): return v
            if frm.k == 'float' or (z3.is_expr(v) and z3.is_real(v)):
                if z3.is_rational_value(v) and v.denominator_as_long() == 1:
                    return self.const(v.numerator_as_long(), to)
                if self.mode == 'bv': return self.fresh('f2i', self.isort(to))
                if z3.is_app(v) and v.decl().name() == 'to_real':
                    return self.norm(st, v.arg(0), to, node)
                return self.fresh_val('f2i', to, st)
            if z3.is_bool(v):
                if self.mode == 'bv': return z3.If(v, z3.BitVecVal(1, to.bits), z3.BitVecVal(0, to.bits))
                return z3.If(v, IV(1), IV(0))
            if self.mode == 'bv':
                w = v.size()
                if w == to.bits: return v
                if w > to.bits: return z3.Extract(to.bits - 1, 0, v)
                return z3.SignExt(to.bits - w, v) if (frm.signed and frm.k == 'int') else z3.ZeroExt(to.bits - w, v)
            flo, fhi = rng(frm) if frm.k == 'int' else (None, None)
            tlo, thi = rng(to)
            if flo is not None and tlo <= flo and fhi <= thi: return v
            return self.norm(st, v, to, node)
        if to.k == 'float': return self.to_real(v)
        return v

    # ------------------------------------------------------------ merging
    def merge(self, states, anc):
        """join of states forked from anc (whose pc/conds they extend)"""
        states = [s for s in states if s is not None]
        if not states: return None
        if len(states) == 1: return states[0]
        n0, c0 = len(anc.pc), len(anc.conds)
        conds = []
        for s in states:
            cs = s.conds[c0:]
            conds.append(z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True)))
        m = State()
        m.env = dict(states[0].env)
        m.pc = list(anc.pc)
        m.conds = list(anc.conds)
        m.rng = set(anc.rng)
        common = set.intersection(*[{f.get_id() for f in s.pc[n0:]} for s in states])
        done = set()
        for s, c in zip(states, conds):
            ex = s.pc[n0:]
            cl = s.conds[c0:]
            ids = {x.get_id() for x in cl}
            for f in ex:
                i = f.get_id()
                if i in common:
                    if i not in done:
                        done.add(i)
                        m.pc.append(f)
                    continue
                if i in ids: continue
                m.pc.append(z3.Implies(c, f) if not z3.is_true(c) else f)
        if len(states) == 2 and z3.simplify(conds[0] == z3.Not(conds[1])) is not None and z3.is_true(z3.simplify(conds[0] == z3.Not(conds[1]))):
            pass
        else:
            m.pc.append(z3.Or(*conds))
        keys = set()
        for s in states: keys |= s.mem.keys()
        for k in keys:
            vals = [s.mem.get(k, None) for s in states]
            if any(v is None for v in vals):
                if k[1] in ('#freed', '#alloc'):
                    vals = [z3.BoolVal(False) if v is None else v for v in vals]
                elif isinstance(k[0], Region) and k in self.init:
                    vals = [self.init[k] if v is None else v for v in vals]
                elif isinstance(k[0], Region):
                    # region unknown on some path: any value there
                    if k[0].born > 0 and any(k[0] is kk[0] for s in states for kk in ()):
                        pass
                    try:
                        iv = self.init_val(k[0], k[1], self.leaf_ct(k[0], k[1]))
                        vals = [iv if v is None else v for v in vals]
                    except Exception:
                        vals = [v for v in vals if v is not None]
                else:
                    vals = [v for v in vals if v is not None]
                    m.mem[k] = vals[0]
                    continue
            m.mem[k] = self.merge_cell(m, k, vals, conds)
        for s in states:
            for kk, vv in s.env.items():
                if kk not in m.env: m.env[kk] = vv
        m.ret = self.merge_vals([s.ret for s in states], conds) if any(s.ret is not None for s in states) else None
        for s in states:
            for t in s.tasks:
                if not any(t is u for u in m.tasks): m.tasks.append(t)
        return m

    def merge_cell(self, m, k, vals, conds):
        if z3.is_expr(vals[0]) and z3.is_array(vals[0]) and all(z3.is_expr(v) and v.sort() == vals[0].sort() for v in vals):
            if all(v.eq(vals[0]) for v in vals): return vals[0]
            f = self.fresh(k[0].name.split('#')[0] + '@m', vals[0].sort())
            for v, c in zip(vals, conds): m.pc.append(z3.Implies(c, f == v))
            return f
        if all(isinstance(v, PtrArr) and v.region is vals[0].region for v in vals):
            if all(v.offs.eq(vals[0].offs) for v in vals): return vals[0]
            f = self.fresh(k[0].name.split('#')[0] + '@m', vals[0].offs.sort())
            for v, c in zip(vals, conds): m.pc.append(z3.Implies(c, f == v.offs))
            return PtrArr(vals[0].region, f)
        return self.merge_vals(vals, conds)

    def merge_vals(self, vals, conds):
        v = vals[-1]
        for x, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
            v = self.ite(c, x, v)
        return v

    def ite(self, c, a, b):
        if a is b: return a
        if a is None or b is None: return a if b is None else b
        if z3.is_expr(a) and z3.is_expr(b):
            if a.eq(b): return a
            if z3.is_true(c): return a
            if z3.is_false(c): return b
            if a.sort() != b.sort():
                if z3.is_int(a) and z3.is_bool(b): b = self.to_int(b)
                elif z3.is_int(b) and z3.is_bool(a): a = self.to_int(a)
                else: return Opaque('merge of %s and %s' % (a.sort(), b.sort()))
            return z3.If(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.region is b.region and a.path == b.path:
                sub = None
                if a.sub is not None: sub = self.ite(c, a.sub, b.sub)
                return Ptr(a.region, self.ite(c, a.off, b.off), a.path, sub)
            return PtrChoice(c, a, b)
        if isinstance(a, (Ptr, PtrChoice)) and isinstance(b, (Ptr, PtrChoice)): return PtrChoice(c, a, b)
        if isinstance(a, PtrArr) and isinstance(b, PtrArr):
            if a.region is b.region: return PtrArr(a.region, self.ite(c, a.offs, b.offs))
            if a.region.stable.endswith('*'): return b
            if b.region.stable.endswith('*'): return a
        if isinstance(a, StructVal) and isinstance(b, StructVal):
            return StructVal({p: self.ite(c, a.leaves[p], b.leaves[p]) for p in a.leaves})
        return Opaque('merge of %r and %r' % (a, b))

    def branch(self, st, cond, ft, fe):
        """run ft/fe in forks of st under cond / not cond; returns merged value and updates st"""
        c = z3.simplify(cond)
        if z3.is_true(c): return ft(st)
        if z3.is_false(c): return fe(st)
        s1, s2 = st.fork(), st.fork()
        s1.assume(cond); s1.conds.append(cond)
        nc = z3.Not(cond)
        s2.assume(nc); s2.conds.append(nc)
        v1 = v2 = None
        try: v1 = ft(s1)
        except Dead: s1 = None
        try: v2 = fe(s2)
        except Dead: s2 = None
        if s1 is None and s2 is None: raise Dead()
        if s1 is not None: old1, s1.ret = s1.ret, None
        if s1 is None or s2 is None:
            s, v = (s2, v2) if s1 is None else (s1, v1)
            if s is s1: s.ret = old1
            self._become(st, s)
            return v
        s1.ret = old1
        r1, r2 = s1.ret, s2.ret
        m = self.merge([s1, s2], st)
        v = None
        if v1 is not None or v2 is not None: v = self.ite(cond, v1, v2)
        self._become(st, m)
        return v

    def _become(self, st, s):
        st.mem, st.env, st.pc, st.conds, st.tasks, st.rng, st.ret = s.mem, s.env, s.pc, s.conds, s.tasks, s.rng, s.ret


class PtrChoice:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
