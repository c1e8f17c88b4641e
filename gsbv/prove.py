"""python3 -m gsbv.prove MODULE [Class...] [--hints]: discharge the contracts of a spec module."""
import sys, os, json, importlib
from .astdb import DB
from .verify import verify_many, load_hints
from .core import Unsupported


def specs_of(m, names=()):
    hs = [k() if isinstance(k, type) else k for k in getattr(m, 'HELPERS', [])]
    return [(C() if isinstance(C, type) else C, hs + list(getattr(C, 'helpers', []))) for C in m.ALL if not names or (C.__name__ if isinstance(C, type) else C.key()) in names]


def main(argv):
    upd = '--hints' in argv
    nohint = '--nohint' in argv
    verb = '-v' in argv
    argv = [a for a in argv if not a.startswith('-')]
    m = importlib.import_module('gsbv.' + argv[0])
    db = DB()
    S = specs_of(m, argv[1:])
    R = verify_many(db, S, log=print if verb else lambda s: None, hints={} if nohint else None)
    out = {}
    ok = True
    for (c, h), r in zip(S, R):
        print(type(c).__name__, r.key, 'ERR ' + r.error if r.error else 'OK' if r.proved else 'FAIL', '%.1fs' % r.time, 'obs', len(r.obs), 'inv', r.ninv, '/', r.ncand,
              'rounds', r.rounds, r.notes, flush=True)
        for o in r.failed: print('    ', o.status, o.kind, o.desc, o.where, round(o.time, 2), o.backend)
        ok &= bool(r.proved)
        if r.proved: out[r.key] = r.kept
    if upd:
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'hints')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, argv[0] + '.json')
        old = json.load(open(p)) if os.path.exists(p) else {}
        old.update({k: [list(x) for x in v] for k, v in out.items()})
        json.dump(old, open(p, 'w'), indent=0, sort_keys=True)
    return 0 if ok else 1


if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
