"""dbg.py MODULE CLASS SUBSTR: why is a candidate invariant dropped?"""
import sys, importlib, time
sys.path.insert(0, '/verif')
from gsbv.astdb import DB
from gsbv import verify as V
from gsbv.interp import Interp
from gsbv.prove import specs_of
import z3
m = importlib.import_module('gsbv.' + sys.argv[1])
(con, hs), = specs_of(m, [sys.argv[2]])
db = DB()
con._f = None; con.func(db)
ex, r, dis = V.houdini(db, con, hs, 2000, print)
kept = {h[0] for h in ex.hchecks}
want = {d for d in dis if sys.argv[3] in str(d)}
print('kept', len(kept)); [print('   ', k[1] if isinstance(k, tuple) else k, '@', k[0] if isinstance(k, tuple) else '') for k in sorted(kept, key=str)]
print('matching dropped', sorted(want, key=str))
if len(sys.argv) > 4: sys.exit()
ex = Interp(db, con.mode, con)
ex.contracts = [k for k in hs if k is not con]
ex.disabled = set(); ex.only = kept | want; ex.trivial = 0
con.run(ex)
for nm, pc, g, *rest in ex.hchecks:
    if nm not in want: continue
    t = time.time()
    r = V.solve(ex, pc, g, 20000)
    print(nm, r, rest)
    if r[0] != 'proved' and '-s' in sys.argv:
        print(z3.simplify(g)); [print('  ', z3.simplify(p)) for p in pc]
