"""Discharging obligations: Houdini over candidate invariants, then the proof."""
import os, random, sys, time, pickle, subprocess, tempfile, select, signal
import z3
from .core import *
from .exec import Obligation, Unsupported, Dead
from .interp import Interp
from . import astdb

EFFORT = 1500000
AGAIN = 4
SATURATED = ('(incomplete quantifiers)', '(incomplete (theory arithmetic))', 'unknown', '')
NPROC = int(os.environ.get('GSBV_JOBS', '8'))


def mk_solver(timeout, rlimit=None):
    s = z3.SimpleSolver()
    s.set('timeout', int(timeout))
    if rlimit: s.set('rlimit', int(rlimit))
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.set('smt.array.extensional', False)     # arrays are compared element by element in the contracts
    s.set('smt.qi.eager_threshold', 20.0)
    return s


def parallel(items, fn, nproc=None, deadline=None):
    """fn(item) in forked workers; order kept.  Items are indices into shared data."""
    n = len(items)
    nproc = min(nproc or NPROC, n)
    if n == 0: return []
    if nproc <= 1: return [fn(i) for i in items]
    res = [None] * n
    # dynamic distribution through a pipe used as a token queue
    tr, tw = os.pipe()
    os.write(tw, b''.join(i.to_bytes(4, 'little') for i in range(min(n, 15000))))
    if n > 15000: raise Exception('too many items')
    os.close(tw)
    kids = []
    for w in range(nproc):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                out = os.fdopen(wr, 'wb')
                while True:
                    b = os.read(tr, 4)
                    if len(b) < 4: break
                    i = int.from_bytes(b, 'little')
                    try: v = fn(items[i])
                    except Exception as e: v = ('error', 0.0, repr(e))
                    pickle.dump((i, v), out)
                    out.flush()
                out.close()
            except BaseException:
                code = 1
            os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    os.close(tr)
    for pid, r in kids:
        f = os.fdopen(r, 'rb')
        while True:
            try: i, v = pickle.load(f)
            except EOFError: break
            except Exception: break
            res[i] = v
        f.close()
        os.waitpid(pid, 0)
    return res


def _axioms(ex, fs):
    return list(ex.axioms) + ex.arith_for(list(fs) + list(ex.axioms))


WAYS = ((None, {}), (-1, {'smt.relevancy': 0}), (1, {'smt.random_seed': 1}), (2, {'smt.relevancy': 0, 'smt.random_seed': 2}), (3, {'smt.arith.solver': 6}), (4, {'smt.random_seed': 5}))


def attempt(ex, pc, goal, timeout, way, rlimit=None):
    """one run of the solver: WAYS differ in the order of the hypotheses and in the search"""
    order, opts = WAYS[way]
    s = mk_solver(timeout, rlimit)
    for k, v in opts.items(): s.set(k, v)
    fs = _axioms(ex, list(pc) + [goal]) + list(pc)
    if order == -1: fs = fs[::-1]
    elif order: random.Random(order).shuffle(fs)
    for f in fs: s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat: return 'proved'
    if r == z3.sat: return 'failed'
    rs = s.reason_unknown()
    return 'timeout' if 'timeout' in rs or 'canceled' in rs or 'resource' in rs else 'failed'


def solve(ex, pc, goal, timeout):
    """('proved'|'failed'|'timeout', seconds, backend)"""
    t = time.time()
    out = 'failed'
    for w in range(len(WAYS)):
        r = attempt(ex, pc, goal, min(timeout, 4000 if w == 0 else 2500), w)
        if r == 'proved': return (r, time.time() - t, 'z3')
        if r == 'timeout': out = r
    if out == 'timeout' and timeout > 4000: out = attempt(ex, pc, goal, timeout, 0)
    return (out, time.time() - t, 'z3')


def solve_cvc5(ex, pc, goal, timeout):
    t = time.time()
    s = z3.Solver()
    for f in _axioms(ex, list(pc) + [goal]): s.add(f)
    for f in pc: s.add(f)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, fh.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    except Exception:
        out = ''
    finally:
        os.unlink(fh.name)
    d = time.time() - t
    if out == 'unsat': return ('proved', d, 'cvc5')
    if out == 'sat': return ('failed', d, 'cvc5')
    return ('timeout', d, 'cvc5')


class Result:
    def __init__(self, con):
        self.con = con
        self.key = con.key()
        self.obs = []
        self.error = None
        self.notes = []
        self.rounds = 0
        self.time = 0.0
        self.ninv = 0
        self.ncand = 0
        self.funcs = []
        self.assumed = []
        self.trivial = 0
        self.where = ''

    @property
    def proved(self): return self.error is None and all(o.status == 'proved' for o in self.obs)

    @property
    def failed(self): return [o for o in self.obs if o.status != 'proved']


def houdini(db, con, contracts, hto, log, only=None, effort=None, known=frozenset(), tally=None):
    """known: candidates already shown to hold on entry and to be preserved, without the others"""
    disabled = set()
    rounds = 0
    while True:
        rounds += 1
        t0 = time.time()
        ex = Interp(db, con.mode, con)
        ex.contracts = [k for k in contracts if k is not con]
        ex.disabled = disabled
        ex.only = only
        ex.trivial = 0
        con.run(ex)
        H = ex.hchecks

        def work(ch):
            pc = H[ch[0]][1]
            s = mk_solver(hto, effort)
            gs = [H[i][2] for i in ch]
            for f in _axioms(ex, list(pc) + gs): s.add(f)
            for f in pc: s.add(f)
            out = []
            for i in ch:
                g = H[i][2]
                if z3.is_true(z3.simplify(g)): out.append((i, True)); continue
                s.push()
                s.add(z3.Not(g))
                t = time.time()
                ok = s.check() == z3.unsat
                if not ok and s.reason_unknown() not in SATURATED: ok = None
                s.pop()
                if not ok and effort is None and only is not None: ok = solve(ex, pc, g, max(hto, 10000))[0] == 'proved'   # alone, with a new solver
                elif not ok and known and H[i][0] in ex.own_cands:
                    ok = any(attempt(ex, pc, g, hto, w, effort) == 'proved' for w in (1, 2)) or ok
                out.append((i, ok))
            return out
        # checks of a candidate in waves, so that one that has failed is not tried on the other paths
        per, wave = {}, {}
        for i, h in enumerate(H):
            if h[0] not in known: per.setdefault(h[0], []).append(i)
        for l in per.values():
            for w, i in enumerate(l): wave.setdefault(w if w < 3 else 3 if w < 6 else 4, []).append(i)
        bad, tried = set(), 0
        for w in sorted(wave):
            groups, chunks = {}, []
            for i in wave[w]:
                if H[i][0] not in bad: groups.setdefault(id(H[i][1]), []).append(i)
            left = sum(map(len, groups.values()))
            tried += left
            step = max(4, min(24, (left // NPROC) // 2 + 1))
            for g in groups.values():
                for a in range(0, len(g), step): chunks.append(g[a:a + step])
            for ch, r in zip(chunks, parallel(chunks, work)):
                if r is None or (isinstance(r, tuple) and r and r[0] == 'error'):
                    for i in ch: bad.add(H[i][0])
                    continue
                for i, ok in r:
                    if ok: continue
                    bad.add(H[i][0])
                    if tally is not None and (ok is None or H[i][0] in ex.own_cands): tally.add(H[i][0])
        log('  round %d: %d of %d checks, %d candidates dropped, %.0f s' % (rounds, tried, len(H), len(bad), time.time() - t0))
        if not bad: return ex, rounds, disabled
        disabled |= bad
        if rounds >= 60: raise Unsupported('invariant inference did not converge')


def deep(x):
    return tuple(deep(y) for y in x) if isinstance(x, list) else x


def load_hints(path=None):
    import json
    path = path or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'hints')
    out = {}
    if os.path.isdir(path):
        for f in sorted(os.listdir(path)):
            if f.endswith('.json'):
                for k, v in json.load(open(os.path.join(path, f))).items():
                    out[k] = {deep(x) for x in v}
    return out


def verify(db, con, contracts, log=lambda s: None, hto=2000, oto=20000, cvc5=True, hint=None):
    """hint: names of candidates tried first (only a speed-up: each one is still
    proved on entry and preserved; on any failure all candidates are tried)"""
    t0 = time.time()
    if hint is not None:
        R = _verify(db, con, contracts, log, hto, min(oto, 10000), False, set(hint))
        if R.proved or R.error: return R
    R = _verify(db, con, contracts, log, hto, oto, cvc5, None)
    R.time = time.time() - t0
    return R


def _verify(db, con, contracts, log, hto, oto, cvc5, only, want=None, effort=None):
    """effort: a limit on the solver's work for each candidate; a true one rarely needs much"""
    R = Result(con)
    t0 = time.time()
    try:
        con._f = None
        f = con.func(db)
        if f is None: raise Unsupported('function %s not found' % con.key())
        R.where = f.where()
        again, tries = set(), 0
        ex, R.rounds, dis = houdini(db, con, contracts, hto, log, only, effort, tally=again)
        while effort and again and not all(r and r[0] == 'proved' for r in parallel(list(range(len(ex.obs))), lambda i: solve(ex, ex.obs[i].pc, ex.obs[i].goal, 4000))):
            # with what is left as hypotheses, the others that come from the contract or were cut off
            kept = {h[0] for h in ex.hchecks}
            log('  again: %d kept, %d candidates' % (len(kept), len(again)))
            nxt = set()
            ex, more, dis2 = houdini(db, con, contracts, hto, log, kept | again, AGAIN * effort, kept, nxt)
            R.rounds += more
            dis = (dis - again) | dis2
            gain = len(again) - len(dis2)
            again = nxt if gain and tries < 2 else set()
            tries += 1
    except Unsupported as e:
        R.error = 'unsupported: %s' % e
        R.time = time.time() - t0
        return R
    R.notes = list(ex.notes)
    R.kept = sorted({h[0] for h in ex.hchecks}, key=str)
    R.ninv = len(R.kept)
    R.ncand = R.ninv + len(dis)
    R.hinted = only is not None
    R.funcs = [(g.sig(), g.where()) for g in ex.used_funcs.values()]
    R.assumed = sorted(ex.assumed)
    R.trivial = ex.trivial
    obs = ex.obs
    # merge duplicates
    uniq, seen = [], set()
    for o in obs:
        k = (o.kind, o.goal.get_id(), tuple(x.get_id() for x in o.pc))
        if k in seen: continue
        seen.add(k)
        uniq.append(o)
    posts = [o for o in uniq if o.kind == 'post']
    obs = [o for o in uniq if want is None or want(o)]

    def work(i):
        o = obs[i]
        return solve(ex, o.pc, o.goal, oto)
    res = parallel(list(range(len(obs))), work)
    retry = []
    for i, (o, r) in enumerate(zip(obs, res)):
        if r is None or r[0] == 'error': r = ('timeout', 0.0, 'z3')
        o.status, o.time, o.backend = r
        if o.status != 'proved' and o.kind != 'vacuity': retry.append(i)
    if retry and cvc5:
        def work2(i):
            o = obs[i]
            return solve_cvc5(ex, o.pc, o.goal, oto)
        for i, r in zip(retry, parallel(retry, work2)):
            if r is not None and r[0] == 'proved':
                obs[i].status, obs[i].backend = 'proved', 'cvc5'
                obs[i].time += r[1]
    # vacuity: the preconditions, and the assumptions at the end, are consistent
    sanity = [('precondition', ex.pre_pc)]
    if posts: sanity.append(('path to the postcondition', posts[-1].pc))
    for nm, pc in sanity:
        r = solve(ex, pc, z3.BoolVal(False), 3000)
        if r[0] == 'proved':
            o = Obligation('vacuity', f.sig(), R.where, [], z3.BoolVal(False), '%s is satisfiable' % nm)
            o.status = 'failed'
            obs.append(o)
    R.obs = obs
    R.hqueries = len(ex.hchecks)
    R.time = time.time() - t0
    return R


def light(R):
    """picklable form of a result"""
    for o in R.obs: o.pc, o.goal, o.alts = [], None, None
    R.con = None
    return R


def jobs(todo, fn, nproc, deadline=None, stop=None, limit=None):
    """{i: fn(i)} for i in todo; every job in its own process group, ended at the deadline"""
    out, queue, live = {}, list(todo), {}

    def reap(i, kill=False):
        pid, f, t = live.pop(i)
        if kill:
            try: os.killpg(pid, signal.SIGKILL)
            except OSError: pass
        try: os.waitpid(pid, 0)
        except OSError: pass
        try:
            f.seek(0)
            if not kill: out[i] = pickle.load(f)
        except Exception: pass
        f.close()
    while queue or live:
        over = (deadline and time.time() > deadline) or (stop and stop())
        if over:
            for i in list(live): reap(i, True)
            break
        while queue and len(live) < nproc:
            i = queue.pop(0)
            f = tempfile.TemporaryFile()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    pickle.dump(fn(i), f)
                    f.flush()
                except BaseException as e:
                    import traceback
                    try:
                        f.seek(0)
                        f.truncate()
                        pickle.dump(traceback.format_exc(), f)
                        f.flush()
                    except BaseException: pass
                os._exit(0)
            try: os.setpgid(pid, pid)
            except OSError: pass
            live[i] = (pid, f, time.time())
        time.sleep(0.02)
        for i in list(live):
            pid, f, t = live[i]
            if limit and time.time() - t > limit: reap(i, True); continue
            try: done, _ = os.waitpid(pid, os.WNOHANG)
            except OSError: done = pid
            if done: reap(i)
    return out


def undecided(c, db, why):
    R = Result(c)
    R.error = why
    try: R.where = c.func(db).where()
    except Exception: pass
    R.con = None
    return R


def verify_many(db, specs, log=lambda s: None, hints=None, oto=15000, hto=2000, deadline=None, stop=None, want=None):
    """specs: [(contract, helper contracts)].  Contracts are discharged side by side first with the
    recorded candidates, then whatever is left with all candidates."""
    global NPROC
    hints = load_hints() if hints is None else hints
    res = [None] * len(specs)
    first = [i for i, (c, h) in enumerate(specs) if c.key() in hints]
    save = NPROC

    def one(i):
        global NPROC
        NPROC = 1
        c, h = specs[i]
        return light(_verify(db, c, h, lambda s: None, hto, 10000, False, hints[c.key()], want))
    for i, r in jobs(first, one, save, deadline, stop, 120).items():
        if isinstance(r, Result) and (r.proved or r.error): res[i] = r
    rest = [i for i in range(len(specs)) if res[i] is None]
    side = max(1, min(4, len(rest)))

    def all_(i):
        global NPROC
        NPROC = max(1, save // side)
        c, h = specs[i]
        log('all candidates: ' + c.key())
        R = _verify(db, c, h, log, 10000, 8000, False, None, want, EFFORT)
        if not (R.proved or R.error):
            log('more effort: ' + c.key())
            R = _verify(db, c, h, log, hto, oto, True, None, want)
        return light(R)
    got = jobs(rest, all_, side, deadline, stop)
    for i in rest:
        r = got.get(i)
        if isinstance(r, str): r = undecided(specs[i][0], db, 'verifier error: ' + r[-800:])
        res[i] = r or undecided(specs[i][0], db, 'not decided: %s' % ('a failing input was found first' if stop and stop() else 'time limit'))
    return res
