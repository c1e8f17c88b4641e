"""Contracts: what a function of /repo requires and guarantees."""
import z3
from .astdb import CT, U32, I32, U64, F32, BOOL, node_type, parse_type
from .core import *
from .exec import State, Obligation, Dead, PtrChoice
from . import templates


class Ctx:
    """one use of a contract: a verification or a call"""
    def __init__(self, ex, f, args, this, s0):
        self.ex, self.f, self.args, self.this, self.s0 = ex, f, args, this, s0
        self.s1 = None
        self.ret = None
        self.g = {}          # ghosts chosen by the contract
        self.verifying = False

    # ---- reading values in a state
    def fld(self, st, obj, *path):
        """member of a single object"""
        ex = self.ex
        p = tuple(obj.path) + tuple(path)
        v = ex.rawget(st, obj.region, p)
        if not obj.region.single:
            if isinstance(v, PtrArr): return Ptr(v.region, z3.Select(v.offs, obj.off))
            t = z3.Select(v, obj.off)
            return t
        return v

    def arr(self, st, ptr, *path):
        v = self.ex.rawget(st, ptr.region, tuple(ptr.path) + tuple(path))
        if isinstance(v, PtrArr): return v.offs
        return v

    def el(self, st, ptr, k, *path):
        """element k of the array ptr points to"""
        v = self.arr(st, ptr, *path)
        return z3.Select(v, add(ptr.off, k))

    def room(self, ptr, n):
        """ptr[0..n) lies inside its object"""
        r = ptr.region
        if r.size is None: return z3.BoolVal(True)
        return z3.And(ptr.off >= 0, ptr.off + n <= r.size)


# how the releasing code expects the arrays of a storage to have been obtained
NEW = {'Csr': 'row_ptr col_ind val', 'Csr2': 'row_ptr data', 'Coo': 'I J val', 'Coo2': 'triplets', 'Coo3': 'elements', 'BlockCoo': 'I J val', 'BlockCoo2': 'triplets',
       'BlockCsr': 'row_ptr col_ind val', 'BlockCsrSerial': 'row_ptr col_ind val', 'BlockCsrParallel': 'row_ptr col_ind val', 'BlockDense': 'val', 'DenseSerial': 'val', 'DenseParallel': 'val',
       'Cswr': 'val row col wrow_ptr', 'CompRowCsr': 'nnz_rows row_ptr col_ind val', 'Csbr': 'partition', 'Cgbr': 'partition blocks blockrow_ptr blockcol_ind', 'Cgbr2': 'partition blocks blockrow_ptr blockcol_ind'}
MALLOC = {'Csbr': 'blocks blockrow_ptr blockcol_ind blockrow_offset blockcol_offset col_ind val', 'Csbr2': 'row_ptr blockrow_ptr blockrow_offset blockcol_offset col_ind val'}


def how_obtained(ct, path):
    if ct.k != 'rec' or len(path) != 1: return None
    n = ct.name.split('<')[0]
    for kind, t in (('new[]', NEW), ('malloc', MALLOC)):
        if path[0] in t.get(n, '').split(): return kind
    return None


class Contract:
    """subclasses describe one function; methods returning lists of (name, formula)"""
    name = None          # name of the C++ function
    rec = None
    sig = None           # tuple of parameter types, or None
    mode = 'int'
    prop = ()
    text = ''
    array_recs = ()
    ptr_array = None
    may_alias = {}
    depth_inline = True
    split_returns = False    # the postcondition is checked at each return statement on its own
    lean = False
    postkind = 'post'    # kind of the pointwise postconditions

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def key(self):
        return self.label if getattr(self, 'label', None) else ((self.rec + '::') if self.rec else '') + self.name

    # ---- matching
    def func(self, db):
        if getattr(self, '_f', None) is not None and self._db is db: return self._f
        self._db = db
        fs = db.find(self.name, self.rec)
        if not fs and self.rec:
            m = db.method(self.rec, self.name)
            fs = [m] if m else []
        if self.sig is not None:
            want = tuple(repr(parse_type(p)) for p in self.sig)
            fs = [f for f in fs if tuple(repr(t) for t in f.ptypes()) == want]
        self._f = fs[0] if fs else None
        return self._f

    def matches(self, ex, f):
        g = self.func(ex.db)
        return g is not None and (g.id == f.id or (g.rec == f.rec and g.name == f.name and g.type == f.type and g.rec is not None and g.file == f.file and g.line == f.line))

    # ---- specification (override)
    def pre(self, c): return []
    def post(self, c): return []
    def cells(self, c): return []          # (name, lo, hi, P(st,k), pats(st,k))
    def modifies(self, c): return []       # ('leaf', obj, path) | ('win', ptr, lo, hi, path)
    def prefixes(self, c): return []
    def axioms(self, c): return []
    def index_arrays(self, c): return []   # (name, fn(state, k) -> element)
    def extra_templates(self, c, ctx, M, U): return []
    def result_type(self, c): return None
    def terminates(self): return True
    def leaks(self, c): return None        # regions that may stay allocated; None: not checked
    def on_permute(self, ex, st, r, lo, hi, pi, inv, old, new, n):
        if getattr(self, 'c0', None) is not None and r.kind == 'param':
            for g in self.lemmas(self.c0, st): st.assume(g)
    def prepare(self, c): pass

    def templates(self, ctx):
        if getattr(self, 'c0', None) is None: return []
        return templates.from_contract(ctx, self, self.c0)

    # ---- windows
    def _mods(self, c):
        if 'mods' not in c.g: c.g['mods'] = list(self.modifies(c))
        return c.g['mods']

    def window(self, c, r, p):
        """absolute index range of array leaf (r,p) the function may change"""
        if r.kind != 'param': return None
        for m in self._mods(c):
            if m[0] == 'win' and m[1].region is r and (len(m) < 5 or tuple(m[1].path) + tuple(m[4]) == tuple(p)):
                return (add(m[1].off, m[2]), add(m[1].off, m[3]))
            if m[0] == 'any' and m[1].region is r: return None
            if m[0] == 'leaf' and m[1].region is r and tuple(m[1].path) + tuple(m[2]) == tuple(p)[:len(m[1].path) + len(m[2])]: return None
        return (IV(0), IV(0))

    # ---- verification of the body
    def symbolic_args(self, ex, st, f):
        vals = []
        for i, (p, t) in enumerate(zip(f.params, f.ptypes())):
            nm = p.get('name') or 'a%d' % i
            vals.append(self.symbolic(ex, st, nm, t, i))
        this = None
        if f.rec is not None:
            r = ex.region('this', CT('rec', name=f.rec), IV(1), True, 'param', stable='this')
            this = Ptr(r, IV(0))
        return vals, this

    fixed = {}                             # argument index -> literal, for case splits

    def symbolic(self, ex, st, nm, t, i):
        if i in self.fixed: return ex.const(self.fixed[i], t)
        if t.k in ('int', 'bool', 'float'):
            v = ex.gconst(nm, ex.sort_of(t))
            if t.k == 'int' and ex.mode == 'int':
                lo, hi = rng(t)
                st.assume(z3.And(v >= lo, v <= hi))
            return v
        if t.k == 'ptr':
            h = ex.region('arg%d' % i, t, IV(1), True, 'param', stable='#%d' % i)
            v = ex.param_ptr(h, (), t)
            if isinstance(v, Ptr):
                v.region.name = v.region.name.replace('arg%d' % i, nm)
                v.region.stable = '#%d' % i
            return v
        if t.k == 'ref':
            if t.to.k == 'rec' or t.to.k in ('int', 'float', 'bool', 'ptr'):
                r = ex.region(nm, t.to, IV(1), True, 'param', stable='#%d' % i)
                return Loc(r, IV(0), (), None, t.to)
        if t.k == 'rec':
            r = ex.region(nm, t, IV(1), True, 'param', stable='#%d' % i)
            return ex.read(st, Loc(r, IV(0), (), None, t), None, False)
        raise Unsupported('parameter type %s' % t)

    def run(self, ex):
        """symbolically execute the body against this contract"""
        f = self.func(ex.db)
        if f is None: raise Unsupported('function %s not found' % self.key())
        ex.reset()
        ex.cfg = self
        ex.curfunc = f.sig()
        self.c0 = None
        st = State()
        vals, this = self.symbolic_args(ex, st, f)
        c = Ctx(ex, f, vals, this, st)
        c.verifying = True
        self.prepare(c)
        for a in self.axioms(c): ex.axioms.append(a)
        for nm, g in self.pre(c): st.assume(g)
        self.c0 = c
        for g in self.lemmas(c, st): st.assume(g)
        c.s0 = st.fork()
        if f.id not in ex.used_funcs: ex.used_funcs[f.id] = f
        ex.pre_pc = list(st.pc)
        args = [(v if not isinstance(v, Loc) else v) for v in vals]
        try:
            c.ret = ex.run_body(st, f, f.node, f.params, args, this, None, f.body, f.inits)
        except Dead:
            ex.notes.append('function never returns under its precondition')
            ex.obs.append(Obligation('vacuity', ex.curfunc, f.where(), [], z3.BoolVal(False), 'the function can return'))
            return c
        if self.split_returns:
            for st, c.ret in ex.split:
                c.s1 = st
                self.finish(c)
                self.check_post(c, st)
            return c
        c.s1 = st
        if isinstance(c.ret, Loc) and not (f.type.split('(')[0].strip().endswith('&')): c.ret = ex.read(st, c.ret, None)
        self.finish(c)
        self.check_post(c, st)
        return c

    def finish(self, c): pass

    def lemmas(self, c, st): return []     # proved lemmas instantiated for the final state

    def check_post(self, c, st):
        ex = c.ex
        for g in self.lemmas(c, st): st.assume(g)
        for nm, g in self.post(c):
            ex.obs.append(Obligation('post', ex.curfunc, c.f.where(), list(st.pc), g, nm))
        for (nm, lo, hi, P, pats) in self.cells(c):
            k = z3.Int('k!p')
            ex.obs.append(Obligation(self.postkind, ex.curfunc, c.f.where(), list(st.pc),
                                     z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), P(st, k))), nm))
        # frame
        for (r, p), v in list(st.mem.items()):
            if not isinstance(r, Region) or r.kind != 'param' or isinstance(p, str): continue
            e = c.s0.mem.get((r, p), ex.init.get((r, p)))
            if e is None: continue
            self.frame(c, st, r, p, e, v)
        for r, p in [k for k in st.mem if k[1] == '#freed' and k[0].kind == 'param']:
            if not any(m[0] == 'free' and m[1].region is r for m in self._mods(c)):
                ex.obs.append(Obligation('release', ex.curfunc, c.f.where(), list(st.pc), z3.Not(st.mem[(r, p)]),
                                         'does not release %s' % r.name.split('#')[0]))
        for (r, p), v in list(st.mem.items()):
            if not isinstance(r, Region) or r.kind != 'param' or not r.single or not isinstance(v, Ptr) or v.region not in ex.allocs or isinstance(p, str): continue
            kind = how_obtained(r.elem, p)
            if kind: ex.obs.append(Obligation('dealloc', ex.curfunc, c.f.where(), list(st.pc), z3.BoolVal(v.region.allocated == kind and z3.is_int_value(v.off) and v.off.as_long() == 0),
                                              '%s is obtained with %s, as its release expects' % (''.join('.' + x for x in p)[1:], kind)))
        if st.tasks: ex.obs.append(Obligation('race', ex.curfunc, c.f.where(), list(st.pc), z3.BoolVal(False), 'tasks are complete when the function returns'))
        lk = self.leaks(c)
        if lk is not None:
            keep = {x for x in lk if x is not None}
            for r in ex.allocs:
                if r in keep: continue
                if (r, '#alloc') not in st.mem: continue      # allocated in a loop: see loop_leaks
                fr = z3.Implies(st.mem[(r, '#alloc')], st.mem.get((r, '#freed'), z3.BoolVal(False)))
                ex.obs.append(Obligation('leak', ex.curfunc, c.f.where(), list(st.pc), fr,
                                         'memory allocated as %s is released or handed to the caller' % r.name.split('#')[0]))

    def frame(self, c, st, r, p, e, v):
        ex = c.ex
        nm = r.name.split('#')[0] + ''.join('.' + str(x) for x in p)
        if e is v: return
        for m in self._mods(c):
            if m[0] == 'any' and m[1].region is r: return
            if m[0] == 'leaf' and m[1].region is r and tuple(p)[:len(m[1].path) + len(m[2])] == tuple(m[1].path) + tuple(m[2]): return
        if isinstance(e, PtrArr) and isinstance(v, PtrArr) and e.region is v.region: e, v = e.offs, v.offs
        if z3.is_expr(e) and z3.is_expr(v):
            if e.eq(v): return
            if z3.is_array(e) and ex.dims(r, p) == 1:
                w = self.window(c, r, p)
                k = z3.Int('k!f')
                if w is None: return
                g = z3.ForAll([k], z3.Implies(z3.Or(k < w[0], k >= w[1]), z3.Select(v, k) == z3.Select(e, k)))
            else: g = v == e
        elif isinstance(e, Ptr) and isinstance(v, Ptr):
            g = z3.BoolVal(False) if e.region is not v.region else (e.off == v.off)
        elif isinstance(e, Opaque) and e is v: return
        else: g = z3.BoolVal(False)
        ex.obs.append(Obligation('frame', ex.curfunc, c.f.where(), list(st.pc), g, 'leaves %s outside its declared window unchanged' % nm))

    # ---- use at a call
    def apply(self, ex, st, f, vals, this, n):
        c = Ctx(ex, f, vals, this, st)
        self.prepare(c)
        for nm, g in self.pre(c):
            ex.oblige(st, 'pre', g, n, '%s: %s' % (self.key(), nm))
            if ex.dry: st.assume(g)
        self.reads_at_call(c, st, n)
        s0 = st.fork()
        c.s0 = s0
        self.separation(c, n, st)
        for m in self._mods(c):
            if m[0] == 'win':
                ptr, lo, hi = m[1], add(m[1].off, m[2]), add(m[1].off, m[3])
                r = ptr.region
                for p, t in ex.leaves(r.elem):
                    if len(m) >= 5 and tuple(p) != tuple(m[4]): continue
                    old = ex.rawget(st, r, p)
                    if isinstance(old, PtrArr): raise Unsupported('window of pointers')
                    new = ex.fresh(r.name.split('#')[0], old.sort())
                    k = z3.Int('k!w')
                    for lg in ex.modlog: lg.add((r, p))
                    st.assume(z3.ForAll([k], z3.Implies(z3.Or(k < lo, k >= hi), z3.Select(new, k) == z3.Select(old, k)), patterns=[z3.Select(new, k)]))
                    if t.k == 'int' and ex.mode == 'int' and ex.dims(r, p) == 1:
                        a, b = rng(t)
                        st.assume(z3.ForAll([k], z3.And(z3.Select(new, k) >= a, z3.Select(new, k) <= b), patterns=[z3.Select(new, k)]))
                    self.record_window(ex, st, r, p, lo, hi, True, n)
                    st.mem[(r, p)] = new
            elif m[0] == 'leaf':
                obj, path = m[1], tuple(m[1].path) + tuple(m[2])
                ct = ex.leaf_ct(obj.region, path)
                for p, t in ex.leaves(ct):
                    ex.havoc_key(st, (obj.region, path + p))
            elif m[0] == 'free':
                ex.dealloc(st, m[1], m[2], n)
            elif m[0] == 'any':
                for p, t in ex.leaves(m[1].region.elem):
                    for lg in ex.modlog: lg.add((m[1].region, p))
                    st.mem[(m[1].region, p)] = Opaque('member written by %s' % self.name)
        f_t = c.f.type.split('(')[0].strip()
        rt = parse_type(f_t) if f_t not in ('void', '') else None
        c.s1 = st
        c.ret = self.result(c, st, rt, n)
        for nm, g in self.post(c): st.assume(g)
        for (nm, lo, hi, P, pats) in self.cells(c):
            k = z3.Int('k!c')
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), P(st, k)), patterns=pats(st, k)))
        for a in self.axioms(c): st.assume(a)
        return c.ret

    def reads_at_call(self, c, st, n):
        for (ptr, lo, hi, path) in self.reads(c):
            self.record_window(c.ex, st, ptr.region, tuple(ptr.path) + tuple(path), add(ptr.off, lo), add(ptr.off, hi), False, n)

    def reads(self, c): return []

    def record_window(self, ex, st, r, p, lo, hi, write, n):
        if ex.dry or not (ex.recorders or st.tasks): return
        if r.single: ex.record(st, r, p, [], write, n); return
        i = ex.fresh('w', IntS)
        ex.record(st, r, p, [i], write, n, extra=(i >= lo, i < hi))

    def result(self, c, st, rt, n):
        if rt is None: return None
        if rt.k in ('int', 'float', 'bool'): return c.ex.fresh_val('ret_' + self.name, rt, st)
        raise Unsupported('result of %s' % self.name)

    def separation(self, c, n, st):
        """arrays a callee writes must not overlap its other arguments"""
        ex = c.ex
        ptrs = [v for v in c.args if isinstance(v, Ptr) and v.region is not None]
        for m in self._mods(c):
            if m[0] != 'win': continue
            same = [v for v in ptrs if v.region is m[1].region]
            if len(same) > 1: ex.oblige(st, 'alias', z3.BoolVal(False), n, '%s: written array is passed only once' % self.key())
