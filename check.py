#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo.

1. The clang AST of /repo's current sources is dumped; the contracts of the
   property are turned into obligations and discharged (z3, cvc5).
2. A harness compiled from /repo's current sources replays the property on
   generated inputs: the oracle for a failed obligation, the bounded stand-in for
   code that is out of the verifier's reach, and the conformance check of the
   assumed contracts.
Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: no answer."""
import os, sys, json, time, subprocess, threading, tempfile, shutil, importlib, collections

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('GSBV_REPO', '/repo')
CXXF = ['-std=c++17', '-g', '-fopenmp', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr']
TSANF = ['-std=c++17', '-g', '-fopenmp', '-fsanitize=thread']
ARCHER = '/usr/lib/llvm-18/lib/libarcher.so'
ASAN = 'detect_leaks=0:handle_abort=0:allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=190:detect_stack_use_after_return=0'


class Harness:
    """build and run of one harness"""
    def __init__(self, name, tmp, tsan=False):
        self.name, self.tmp, self.tsan = name, tmp, tsan
        self.exe = os.path.join(tmp, name)
        self.err = None
        self.t = threading.Thread(target=self.build)
        self.t.start()

    def build(self):
        src = os.path.join(HERE, 'harness', self.name + '.cpp')
        objs = []
        try:
            cc, cxx = ('clang-18', 'clang++-18') if self.tsan else ('gcc', 'g++')
            mm = os.path.join(self.tmp, self.name + '_mm.o')
            san = TSANF if self.tsan else CXXF
            p = subprocess.run([cc, '-g', '-O1', '-fsanitize=thread' if self.tsan else '-fsanitize=address', '-w', '-c', REPO + '/dep/mm_io/mm_io.c', '-o', mm], capture_output=True, text=True, timeout=120)
            if p.returncode == 0: objs.append(mm)
            cmd = [cxx, '-O1', '-w'] + san + ['-I' + os.path.join(HERE, 'harness'), '-I' + REPO + '/include', '-I' + REPO + '/dep', src, REPO + '/src/common.cpp'] + objs + ['-o', self.exe]
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
            if p.returncode != 0 and not self.tsan:
                for o in objs: os.unlink(o)
                subprocess.run(['clang-18'] + ['-g', '-O1', '-fsanitize=address', '-w', '-c', REPO + '/dep/mm_io/mm_io.c', '-o', mm], capture_output=True, timeout=120)
                p = subprocess.run(['clang++-18'] + cmd[1:], capture_output=True, text=True, timeout=400)
            if p.returncode != 0: self.err = 'does not compile: ' + p.stderr[-2000:]
        except Exception as e:
            self.err = 'build failed: %r' % e

    def run(self, seed, tier, budget, report, extra=()):
        self.t.join()
        if self.err: return None
        log = report + '.log'
        env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS='print_stacktrace=1', OMP_WAIT_POLICY='passive', GSBV_TMP=self.tmp)
        if self.tsan: env.update(OMP_TOOL_LIBRARIES=ARCHER, TSAN_OPTIONS='ignore_noninstrumented_modules=1:halt_on_error=0:exitcode=0')
        cmd = [self.exe, '--seed', str(seed), '--budget', str(budget), '--report', report] + (['--thorough'] if tier == 'thorough' else []) + list(extra)
        for attempt in range(6):            # 78: the OpenMP runtime crashed; says nothing about the code
            with open(log, 'w') as lf:
                try:
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=lf, text=True, timeout=budget + 150, env=env, cwd=self.tmp)
                    rc, out = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, out = -1, ''
            if rc != 78: break
        st = {'rc': rc, 'cmd': cmd}
        if rc == 0:
            for l in reversed(out.strip().split('\n')):
                if l.startswith('{'):
                    try: st.update(json.loads(l))
                    except ValueError: pass
                    break
        st['failed'] = os.path.exists(report)
        st['report'] = open(report).read() if st['failed'] else ''
        st['log'] = open(log, errors='replace').read()[-6000:]
        return st


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    from gsbv.props import PROPS, TRUSTED
    P = PROPS[prop]
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'replay')
    os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run', dir=os.path.join(HERE, 'build'))
    try:
        rc = decide(prop, P, tier, seed, t0, tmp, rdir, TRUSTED)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def prove(P, tier, deadline=None, stop=None):
    """(results, error)"""
    try:
        from gsbv.astdb import DB
        from gsbv.verify import verify_many
        from gsbv.prove import specs_of
        db = DB()
        S = []
        for m in P.get('specs', []):
            names = ()
            if isinstance(m, tuple): m, names = m
            S += specs_of(importlib.import_module('gsbv.' + m), names)
        # only the obligations that speak about this property count for it
        only, skip = P.get('kinds'), P.get('skip_kinds', ('leak', 'dealloc', 'release'))
        R = verify_many(db, S, oto=15000 if tier == 'quick' else 60000, hto=2000 if tier == 'quick' else 5000, deadline=deadline, stop=stop,
                        want=lambda o: o.kind == 'vacuity' or (o.kind in only if only else o.kind not in skip))
        return [(type(c).__name__, r) for (c, h), r in zip(S, R) if r.obs or r.error], None
    except Exception as e:
        import traceback
        return [], 'extraction failed: %s\n%s' % (e, traceback.format_exc()[-1500:])


def lemma_results(P):
    if not P.get('specs'): return []
    from gsbv import lemmas
    from gsbv.verify import mk_solver
    import z3
    out = lemmas.prove_all()
    for m in P['specs']:
        f = getattr(importlib.import_module('gsbv.' + (m[0] if isinstance(m, tuple) else m)), 'lemmas', None)
        for name, hyp, goal in (f() if f else []):
            s = mk_solver(10000)
            for h in hyp: s.add(h)
            s.add(z3.Not(goal))
            out.append((name, s.check() == z3.unsat))
    return out


def decide(prop, P, tier, seed, t0, tmp, rdir, TRUSTED):
    hs = [Harness(n, tmp, P.get('tsan', False)) for n in ([P['harness']] if P.get('harness') else [])]
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == prop and k.get('status') == 'open']
    violations, notes, hst = [], [], []
    budget = P.get('budget', 45) if tier == 'quick' else P.get('budget_thorough', 300)

    def harnesses():
        for h in hs:
            rep = os.path.join(rdir, '%s-%s.txt' % (prop, h.name))
            for p in (rep, rep + '.log'):
                if os.path.exists(p): os.unlink(p)
            st = h.run(seed, tier, budget, rep)
            if st is None: notes.append('harness %s %s' % (h.name, h.err)); continue
            hst.append((h, st))
            if st['failed'] or st['rc'] not in (0,):
                if not st['failed']:
                    notes.append('harness %s ended with %s' % (h.name, st['rc']))
                    if st['rc'] in (-1, 2, 78): continue
                with open(rep, 'a') as f:
                    f.write('\n--- replay\n%s\nVERIF_SEED=%d, run with: --only INDEX from the first line\n--- log\n%s\n' % (' '.join(st['cmd']), seed, st['log']))
                if os.path.exists(rep + '.log'): os.unlink(rep + '.log')
                violations.append((rep, True, st['report'].split('\n')[1] if st['report'].count('\n') > 1 else 'crash'))
            elif os.path.exists(rep + '.log'): os.unlink(rep + '.log')
    ht = threading.Thread(target=harnesses)
    ht.start()
    # the proof goes on beside the replay; a failing input ends the search for invariants, not the first pass
    t1 = time.time()
    results, perr = prove(P, tier, t1 + (330 if tier == 'quick' else 700), lambda: bool(violations) and time.time() > t1 + 60)
    lem = lemma_results(P) if results else []
    ht.join()
    # failed obligations
    bad = []
    for nm, r in results:
        for o in r.obs:
            if o.status == 'failed': bad.append((nm, r, o))
    for nm, ok in lem:
        if not ok: notes.append('lemma %s not proved' % nm)
    if bad:
        rep = os.path.join(rdir, '%s-obligations.txt' % prop)
        with open(rep, 'w') as f:
            f.write('obligations of %s that the verifier rejects on the current sources\n' % prop)
            for nm, r, o in bad:
                f.write('\ncontract %s (%s)\n  kind %s at %s\n  obligation: %s\n  result: %s by %s in %.2fs\n' % (r.key, r.where, o.kind, o.where, o.desc, o.status, o.backend, o.time))
            if violations: f.write('\nfailing input: see %s\n' % violations[0][0])
        if not violations: violations.append((rep, False, bad[0][2].desc))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    nob = sum(len(r.obs) for _, r in results) + len(lem)
    ndis = sum(1 for _, r in results for o in r.obs if o.status == 'proved') + sum(1 for _, ok in lem if ok)
    unproved = [(nm, r) for nm, r in results if not r.proved]
    back = collections.Counter(o.backend for _, r in results for o in r.obs if o.status == 'proved')
    kinds = collections.Counter(o.kind for _, r in results for o in r.obs)
    funcs = sorted({'%s (%s)' % f for _, r in results for f in r.funcs})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'),
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
            'trusted_base': TRUSTED + sorted({a for _, r in results for a in r.assumed}) + list(P.get('assumptions', [])),
            'contracts': [{'function': r.key, 'at': r.where, 'status': 'proved' if r.proved else (r.error or 'not proved'), 'obligations': len(r.obs),
                           'loop_invariants_proved': r.ninv, 'invariant_queries': getattr(r, 'hqueries', 0), 'seconds': round(r.time, 2),
                           'not_shown': r.notes} for _, r in results],
            'functions_under_contract_or_inlined': funcs,
            'obligation_kinds': dict(kinds), 'back_ends': dict(back),
            'solver_seconds': round(sum(o.time for _, r in results for o in r.obs), 2),
            'lemmas': [{'lemma': n, 'proved': ok} for n, ok in lem],
            'bounded_check': 'harness/%s.cpp: bounded, never counted as proved' % P['harness'] if hst else 'none',
            'rule': '; '.join(st.get('rule', '') for _, st in hst), 'samples': [x for _, st in hst for x in st.get('samples', [])],
            'bounded_stand_in_for': [r.key + ': ' + (r.error or 'obligation undecided') for _, r in unproved] + list(P.get('bounded', [])),
            'evaluations': sum(st.get('evaluations', 0) for _, st in hst),
            'distinct_nontrivial': sum(st.get('distinct', 0) for _, st in hst),
        },
        'assumptions': list(P.get('assumptions', [])) + (['verification error: ' + perr] if perr else []) + notes,
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d contracts; harness cases %d; %.1fs' % (prop, ndis, nob, len(results), ev['coverage']['evaluations'], time.time() - t0))
    for nm, r in unproved: print('  undecided: %s %s' % (r.key, r.error or [(o.status, o.kind, o.desc, o.where) for o in r.failed]))
    for n in notes: print('  note: ' + n[:1500])
    if perr: print('  ' + perr)
    for rep, found, what in violations:
        print('  ' + what)
        print('VIOLATION property=%s replay=%s%s' % (prop, rep, '' if found else ' no-failing-input-found'))
    if violations: return 1
    if hs and not hst and (perr or unproved): return 2
    return 0


if __name__ == '__main__': main()
