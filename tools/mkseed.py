#!/usr/bin/env python3
"""mkseed.py FILE...: FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++), optional FLAGS.
Makes /verif/seeded/ID after confirming in a scratch copy that it builds, passes the stable tests and that the demo tells the two apart."""
import sys, os, subprocess, json, shutil, tempfile, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
H="$(cd "$(dirname "$0")" && pwd)"
D="$(mktemp -d)"
trap 'rm -rf "$D"' EXIT
%(mm)s%(cxx)s -std=c++17 -g -O1 -w -fopenmp %(flags)s -Iinclude -Idep "$H/demo.cpp" src/common.cpp %(obj)s -o "$D/demo" || exit 99
cd "$D"
%(env)stimeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    for f in sys.argv[1:]:
        g = runpy.run_path(f)
        sid = g['ID']
        base = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        try:
            d = base + '/w'
            sh('cp -a /repo %s && cd %s && git checkout -q -- .' % (d, d))
            ctxt = {'cxx': 'g++', 'flags': '-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all', 'env': 'ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 ', 'mm': '', 'obj': ''}
            if g.get('TSAN'): ctxt.update(cxx='clang++-18', flags='-fsanitize=thread', env='OMP_TOOL_LIBRARIES=/usr/lib/llvm-18/lib/libarcher.so TSAN_OPTIONS=ignore_noninstrumented_modules=1:halt_on_error=1 ')
            if g.get('LEAK'): ctxt.update(env='ASAN_OPTIONS=detect_leaks=0 ')
            if g.get('MM'): ctxt.update(mm='gcc -g -w -c dep/mm_io/mm_io.c -o "$D/mm.o" || exit 99\n', obj='"$D/mm.o"')
            dd = base + '/s'; os.mkdir(dd)
            open(dd + '/demo.cpp', 'w').write(g['DEMO']); open(dd + '/demo.sh', 'w').write(DEMO_SH % ctxt); os.chmod(dd + '/demo.sh', 0o755)
            for fn, a, b in g['EDITS']:
                s = open(d + '/' + fn).read()
                if s.count(a) != 1: print(sid, 'EDIT MISMATCH', fn, s.count(a)); break
            else:
                r0 = sh('bash %s/demo.sh' % dd, cwd=d)
                for fn, a, b in g['EDITS']:
                    s = open(d + '/' + fn).read(); open(d + '/' + fn, 'w').write(s.replace(a, b))
                diff = sh('git diff', cwd=d).stdout
                r1 = sh('bash %s/demo.sh' % dd, cwd=d)
                print(sid, 'demo clean', r0.returncode, 'patched', r1.returncode, (r0.stdout + r0.stderr)[-600:] if r0.returncode else '', (r1.stdout + r1.stderr)[-200:].replace('\n', ' | '))
                # build and tests need /repo itself
                sh('git -C /repo apply -', input=diff)
                try:
                    b = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh %s/out.json' % base)
                finally:
                    sh('git -C /repo checkout -- .')
                res = json.load(open(base + '/out.json')); bl = json.load(open('/opt/vp/BASELINE.json'))
                stable = bl.get('stable') or bl.get('passed') or bl.get('tests')
                if isinstance(stable, dict): stable = list(stable)
                passed = res.get('passed') or [k for k, v in res.get('tests', {}).items() if v in ('passed', True)]
                miss = [x for x in stable if x not in passed]
                print('   build', b.returncode, 'stable', len(stable), 'missing', len(miss), miss[:3])
                if r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and not miss:
                    o = HERE + '/seeded/' + sid
                    os.makedirs(o, exist_ok=True)
                    for x in ('demo.cpp', 'demo.sh'): shutil.copy(dd + '/' + x, o + '/' + x)
                    open(o + '/patch.diff', 'w').write(diff)
                    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(o + '/meta.json', 'w'), indent=1)
                    print('   kept')
                else: print('   NOT KEPT')
        finally:
            shutil.rmtree(base, ignore_errors=True)
    sh('bash /opt/vp/build.sh')
main()
