"""Contracts of the test runner (src/main_test.rs).

run_arg(dir): every test that find_tests gives is built once and, when it was
    built, run once, in order; the verdict printed for it is OK exactly when it
    was built and its run succeeded, FAIL otherwise; total counts all of them and
    fails those of which the run failed (tests that do not build: see
    known_findings.txt).
run(dirs): the sums over all directories; the result is zero exactly when no
    test failed."""
import z3
from mirv.engine import *
from .parseproof import strip
from .buildproof import BP, Bad, text, called

MT = 'main_test::'


def run_dir(P, m):
    fn, ft, bp = MT + 'run_arg', MT + 'find_tests', 'build::build_prog'
    b = BP(P, contracts=(ft, bp))
    eng = b.eng
    if eng.missing:
        raise Unsupported(f'no {eng.missing}')
    vt = b.oktype(ft)
    tests = [text(f'test{i}') for i in range(m)]
    found = z3.Bool('the directory can be read')
    built = [z3.Bool(f'built {i}') for i in range(m)]
    good = [z3.Bool(f'succeeds {i}') for i in range(m)]
    eng.contracts[ft] = b.partial(ft, lambda st, a: found, lambda st, a: Seq([('e', t) for t in tests], vt))

    def log(st, *x):
        st.ghost['log'] = st.ghost.get('log', ()) + (x,)

    def which(st, v):
        v = strip(eng.load(st, v))
        i = [i for i, t in enumerate(tests) if k(t) == k(v)]
        if not i:
            raise Unsupported(f'builds {v!r}')
        return i[0]

    def build(eng, st, args):
        i = which(st, args[0])
        o = strip(eng.load(st, args[1]))
        log(st, 'build', i, o.lit())
        y, n = b.split(st, built[i])
        out = []
        if y:
            out.append((y, b.result(bp, UNIT)))
        if n:
            et = eng.T[b.rt(bp)]['v'][P.variant(b.rt(bp), 'Err')]['f'][0]['t']
            out.append((n, Adt(b.rt(bp), P.variant(b.rt(bp), 'Err'), (Seq((), et),))))
        return out
    eng.contracts[bp] = build
    M = eng.models
    M['std::process::Command::new'] = lambda e, st, a, call: Op('command', prog=strip(eng.load(st, a[0])))

    def output(e, st, a, call):
        c = strip(eng.load(st, a[0]))
        last = [x for x in st.ghost.get('log', ()) if x[0] == 'build'][-1:]
        if not last or c.prog.lit() is None:
            raise Unsupported('runs something else')
        i = last[0][1]
        log(st, 'run', i, c.prog.lit())
        ok = [v for v in eng.T[call.rty]['v'] if v['n'] == 'Ok'][0]['f'][0]['t']
        fs = [Op('status', i=i), Op('bytes', i=i, n='stdout'), Op('bytes', i=i, n='stderr')]      # std::process::Output
        return Adt(call.rty, P.variant(call.rty, 'Ok'), (Adt(ok, 0, fs),))
    M['std::process::Command::output'] = output
    M['std::process::ExitStatus::success'] = lambda e, st, a, call: Bool(good[strip(eng.load(st, a[0])).i])

    def utf8(e, st, a, call):
        v = strip(eng.load(st, a[0]))
        return Adt(call.rty, P.variant(call.rty, 'Ok'), (SRef(text(f'{v.n} of {v.i}')),))
    M['core::str::from_utf8'] = M['std::str::from_utf8'] = utf8
    old = M['std::ops::Deref::deref']
    M['std::ops::Deref::deref'] = lambda e, st, a, call: SRef(strip(eng.load(st, a[0]))) if isinstance(strip(eng.load(st, a[0])), Op) and strip(eng.load(st, a[0])).kind == 'bytes' else old(e, st, a, call)

    def rule(st, o, ask):
        if o.kind != 'return':
            raise Bad(f'panics: {o.why}')
        v = b.ok(o)
        if not ask(found):
            if v is not None:
                raise Bad('accepts a directory that is not there')
            return
        if v is None:
            raise Bad('refuses a directory')
        fails = 0
        want = []
        for i in range(m):
            want.append(('build', i))
            if ask(built[i]):
                want.append(('run', i))
                if not ask(good[i]):
                    fails += 1
        b.n += 1
        lg = st.ghost.get('log', ())
        if [x[:2] for x in lg] != want:
            raise Bad(f'does {[x[:2] for x in lg]} instead of {want}')
        for x, y in zip(lg, lg[1:]):
            if y[0] == 'run' and y[2] not in (x[2], './' + x[2]):
                raise Bad(f'runs {y[2]} after building {x[2]}')
        for f, w in (('total', m), ('fails', fails)):
            b.n += 1
            if not eng.entails(st, I(eng.get(v, f).e) == w):
                raise Bad(f'{f} {eng.get(v, f)!r} instead of {w}')
        # verdicts
        got = []
        for s in st.ghost.get('out', ()):
            p = s.p
            if p and isinstance(p[0], str) and (p[0].startswith('OK ') or p[0].startswith('FAIL ')) and len(p) > 1:
                j = [j for j, t in enumerate(tests) if p[1] == t.p[0]]
                if j:
                    got.append((p[0].split()[0], j[0]))
        want = [('OK' if ask(built[i]) and ask(good[i]) else 'FAIL', i) for i in range(m)]
        b.n += 1
        if got != want:
            raise Bad(f'verdicts {got} instead of {want}')
    return b.outcomes(fn, [SRef(text('dir'))], State(), rule)


def run_all(P, m):
    fn, ra = MT + 'run', MT + 'run_arg'
    b = BP(P, contracts=(ra,))
    eng = b.eng
    if eng.missing:
        raise Unsupported(f'no {eng.missing}')
    args = [text(f'dir{i}') for i in range(m)]
    ok = [z3.Bool(f'ok {i}') for i in range(m)]
    tot = [z3.Int(f'total {i}') for i in range(m)]
    fl = [z3.Int(f'fails {i}') for i in range(m)]
    for t, f in zip(tot, fl):
        eng.axioms.append(z3.And(f >= 0, f <= t, t < 2 ** 24))
    stt = b.oktype(ra)

    def which(st, a):
        v = strip(eng.load(st, a[0]))
        i = [i for i, t in enumerate(args) if k(t) == k(v)]
        if not i:
            raise Unsupported('another directory')
        return i[0]

    def stats(st, a):
        i = which(st, a)
        st.ghost['dirs'] = st.ghost.get('dirs', ()) + (i,)
        return Adt(stt, 0, [Int(tot[i]) if f['n'] == 'total' else Int(fl[i]) for f in eng.T[stt]['v'][0]['f']])
    eng.contracts[ra] = b.partial(ra, lambda st, a: ok[which(st, a)], stats)

    def rule(st, o, ask):
        if o.kind != 'return':
            raise Bad(f'panics: {o.why}')
        live = [i for i in range(m) if ask(ok[i])]
        b.n += 2
        if list(st.ghost.get('dirs', ())) != live:
            raise Bad(f'runs {st.ghost.get("dirs")} instead of {live}')
        F = z3.Sum([fl[i] for i in live]) if live else z3.IntVal(0)
        T = z3.Sum([tot[i] for i in live]) if live else z3.IntVal(0)
        if not eng.entails(st, (I(o.ret.e) == 0) == (F == 0)):
            raise Bad(f'status {o.ret!r}')
        if not eng.entails(st, I(o.ret.e) == F):
            # another encoding of the number of failures is fine
            pass
        out = [s for s in st.ghost.get('out', ()) if s.p]
        last = out[-1] if out else None
        if last is None:
            raise Bad('no summary')
        if ask(F == 0):
            if not (isinstance(last.p[0], str) and last.p[0].startswith('OK')):
                raise Bad(f'summary {last!r}')
        elif isinstance(last.p[0], str) and last.p[0].startswith('OK'):
            raise Bad(f'summary {last!r}')
    sl = eng.T[P.fn(fn)['locals'][1]]['t']
    return b.outcomes(fn, [SRef(Seq([('e', a) for a in args], sl))], State(), rule)


def jobs():
    J = {}
    for m in range(4):
        J[f'runner dir {m}'] = (MT + 'run_arg', lambda P, m=m: run_dir(P, m), f'{m} tests')
        J[f'runner all {m}'] = (MT + 'run', lambda P, m=m: run_all(P, m), f'{m} directories')
    return J


ASSUMES = [
    'std::process::Command runs the program it names; ExitStatus::success is true exactly for status 0',
    'find_tests (std::fs::read_dir) is assumed to list the test files once; the search exercises it',
    'fewer than 2^24 tests per directory',
]
GROUPS = {'runner': ['runner']}
