"""Runs verification units, one per process, and turns them into obligations."""
import re
import sys
import time
import multiprocessing as mp
from mirv.engine import Program, Unsupported
from checks.ctx import Ob

LOSSY = re.compile(r"L[\w:]+:\d+:\d+:\('[LH]', [^)]*\)\([^)]*\)(?!\.(e\.|m\.)*i\b)")

_P = None
_J = None


def lossy(msgs):
    """is every one of these failures about a value of which a loop summary
    knows nothing? Then the summary is too weak, and nothing is decided."""
    return bool(msgs) and all(LOSSY.search(m) for m in msgs)


def one(name):
    fn, thunk = _J[name][:2]
    t = time.time()
    try:
        n, bad, eng = thunk(_P)
        if lossy(bad) and not getattr(eng, 'exact', False):
            return (name, fn, 'undecided', 'loop summary too weak: ' + bad[0][:600], 0, 0.0, [], time.time() - t, False)
        if bad and getattr(eng, 'missing', None):
            # a function the contracts speak about is gone, or no longer called: the proof has to be rewritten
            return (name, fn, 'undecided', f'no function {eng.missing[:3]}: ' + bad[0][:300], 0, 0.0, [], time.time() - t, False)
        return (name, fn, 'failed' if bad else 'proved', '\n'.join(bad[:3]), n, eng.qtime, sorted(eng.inlined), time.time() - t,
                bool(getattr(eng, 'unroll', None)) and not getattr(eng, 'cut', 1))
    except Unsupported as e:
        return (name, fn, 'undecided', str(e)[:300], 0, 0.0, [], time.time() - t, False)
    except Exception as e:       # the verifier's own limits are never reported as violations
        import traceback
        return (name, fn, 'undecided', f'verifier: {type(e).__name__}: {e} {traceback.format_exc()[-500:]}'[:900], 0, 0.0, [], time.time() - t, False)


def prove(ctx, *parts):
    """parts: (module, groups). A job is (function, thunk) or, when its claim
    holds only up to a bound, (function, thunk, bound)."""
    global _P, _J
    sys.setrecursionlimit(20000)
    _P = Program(ctx.mir)
    _J = {}
    ctx.assume = getattr(ctx, 'assume', [])
    for mod, groups in parts:
        ctx.assume += [f'{mod.__name__.split(".")[-1]}: {a}' for a in mod.ASSUMES]
        J = mod.jobs()
        for n in J:
            if any(n.startswith(p) for g in groups for p in mod.GROUPS[g]):
                _J[n] = J[n]
    names = list(_J)
    out = []
    with mp.get_context('fork').Pool(8) as pool:
        for name, fn, status, detail, n, qt, inl, secs, whole in pool.imap_unordered(one, names, chunksize=1):
            o = Ob(name, status, detail, fn, 'mirv+z3', qt)
            o.count = n
            o.wall = secs
            # a unit with unrolled loops in which no path reached the bound is complete
            o.bound = _J[name][2] if len(_J[name]) > 2 and not whole else None
            out.append(o)
            ctx.inlined = getattr(ctx, 'inlined', set()) | set(inl)
    return sorted(out, key=lambda o: names.index(o.name))
