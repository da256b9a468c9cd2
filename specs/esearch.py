"""Searches for a concrete failing program: random che programs (and the
repository's own modules) go through the real translator and the result is
compared with the reference lowering."""
import glob
import os
import random
import time
from concurrent.futures import ProcessPoolExecutor

from checks.ctx import REPO
from oracle import e2e, expect, gen, neg

BAD = ('reject', 'crash', 'hang')


def one(che, tmp, seed, profile, cats, depth):
    d = os.path.join(tmp, f'w{os.getpid()}')
    files, main = gen.program(seed, profile, depth=depth)
    e2e.write(files, d)
    ds = e2e.compare(che, os.path.join(d, main), d + '.out', REPO)
    if ds and ds[0][0] == 'oracle':
        return seed, 0, None
    hit = [x for x in ds if x[0] in cats or x[0] in BAD]
    size = sum(len(t) for t in files.values())
    if not hit:
        return seed, size, None
    return seed, size, report(files, main, hit)


def report(files, main, hit):
    out = ['The translation of this program is not what it has to be.', '']
    for c, t in hit[:6]:
        out.append(f'* [{c}] {t[:1500]}')
    out += ['', f'Replay: write the files below to a directory and run `che genc {main} OUTDIR` there.', '']
    for n, t in files.items():
        out += [f'--- {n}', t]
    return '\n'.join(out)


def batch(a):
    che, tmp, seeds, profile, cats, depth, until = a
    out = []
    for s in seeds:
        if time.time() > until:
            break
        r = one(che, tmp, s, profile, cats, depth)
        out.append(r)
        if r[2]:
            break
    return out


def corpus_one(a):
    che, tmp, path, cats = a
    d = os.path.join(tmp, f'c{os.getpid()}')
    ds = e2e.compare(che, path, d + '.out', REPO)
    hit = [x for x in ds if x[0] in cats]
    if not hit:
        return path, bool(ds), None
    return path, True, 'Module of the repository: %s\nReplay: CHELANG_HOME=%s che genc %s OUTDIR\n' % (path, REPO, path) + \
        '\n'.join(f'* [{c}] {t[:1500]}' for c, t in hit[:6])


def corpus():
    return sorted(p for p in glob.glob(REPO + '/lib/**/*.c', recursive=True) + glob.glob(REPO + '/prog/**/*.c', recursive=True))


def programs(ctx, st, cats, profiles, n, seconds, failed=(), rule='', depth=4, use_corpus=True, fixed=()):
    """returns [(name, replay text)]; fills the evidence in st"""
    che = ctx.che
    rnd = random.Random(ctx.seed * 7919 + 13)
    if ctx.tier == 'thorough':
        n, seconds = n * 20, 600
    if failed:
        n, seconds = n * 6, max(seconds, 150)
    bad = []
    ev = dist = 0
    samples = []
    until = time.time() + seconds
    with ProcessPoolExecutor(8) as ex:
        if use_corpus:
            for path, any_, txt in ex.map(corpus_one, [(che, ctx.tmp, p, cats) for p in corpus()], chunksize=4):
                ev += 1
                dist += 1
                if txt:
                    bad.append(('corpus', txt))
        if fixed and not bad:
            for name, files, main in fixed:
                d = os.path.join(ctx.tmp, 'fixed')
                e2e.write(files, d)
                ds = e2e.compare(che, os.path.join(d, main), d + '.out', REPO)
                hit = [x for x in ds if x[0] in cats or x[0] in BAD]
                ev += 1
                if hit:
                    bad.append((name, report(files, main, hit)))
        if not bad:
            jobs = []
            base = rnd.randrange(1 << 30)
            step = 20
            for i in range(0, n, step):
                jobs.append((che, ctx.tmp, list(range(base + i, base + i + step)), profiles[(i // step) % len(profiles)],
                             tuple(cats), depth, until))
            for res in ex.map(batch, jobs):
                for seed, size, txt in res:
                    if not size:
                        continue
                    ev += 1
                    dist += 1
                    if len(samples) < 1:
                        samples.append({'seed': seed, 'bytes': size})
                    if txt:
                        bad.append((f'seed{seed}', txt))
                if bad:
                    ex.shutdown(wait=False, cancel_futures=True)
                    break
    st['evaluations'] = st.get('evaluations', 0) + ev
    st['distinct_nontrivial'] = st.get('distinct_nontrivial', 0) + dist
    st['rule'] = rule or ('random multi-module che programs (oracle/gen.py, profiles %s) and every module of lib/ and prog/; '
                          'each is a different program whose generated C is compared node by node' % ', '.join(profiles))
    st.setdefault('samples', [])
    st['samples'] += samples
    return bad


MAKE = {'scope': lambda s: neg.case(s, 'scope'), 'types': lambda s: neg.case(s, 'types'), 'flow': neg.flowcase,
        'graph': neg.graphcase}


def judge(che, tmp, x, cats=()):
    """None if the translator answers as it has to, else the replay text"""
    d = os.path.join(tmp, f'n{os.getpid()}')
    e2e.write(x['files'], d)
    rc, err = e2e.genc(che, os.path.join(d, x['main']), d + '.out', REPO)
    if rc is None:
        msg = 'the translator did not finish'
    elif rc < 0:
        msg = f'the translator died from signal {-rc}' + (', the program has to be rejected: ' + x['why'] if x['want'] == 'reject' else '')
    elif x['want'] == 'reject' and rc == 0:
        msg = 'the translator accepted a program that it has to reject: ' + x['why']
    elif x['want'] == 'accept' and rc != 0:
        msg = f'the translator rejected a valid program ({x["why"]}): {err[-600:]}'
    else:
        if x['want'] == 'accept' and cats:
            ds = [t for t in e2e.compare(che, os.path.join(d, x['main']), d + '.out', REPO) if t[0] in cats]
            if ds:
                return report(x['files'], x['main'], ds)
        return None
    out = [msg, '', f'Replay: write the files below to a directory and run `che genc {x["main"]} OUTDIR` there.', '']
    for n, t in x['files'].items():
        out += [f'--- {n}', t]
    return '\n'.join(out)


def negbatch(a):
    che, tmp, kind, seeds, cats, until = a
    out = []
    for s in seeds:
        if time.time() > until:
            break
        x = MAKE[kind](s)
        if x is None:
            continue
        t = judge(che, tmp, x, cats)
        out.append((s, x['want'], t))
        if t:
            break
    return out


def verdicts(ctx, st, kind, n, seconds, failed=(), cats=(), rule=''):
    """programs that have to be rejected (or accepted)"""
    che = ctx.che
    if ctx.tier == 'thorough':
        n, seconds = n * 20, 500
    if failed:
        n, seconds = n * 5, max(seconds, 120)
    base = random.Random(ctx.seed * 104729 + len(kind)).randrange(1 << 30)
    until = time.time() + seconds
    bad, rej, acc = [], 0, 0
    step = 20
    with ProcessPoolExecutor(8) as ex:
        jobs = [(che, ctx.tmp, kind, list(range(base + i, base + i + step)), tuple(cats), until) for i in range(0, n, step)]
        for res in ex.map(negbatch, jobs):
            for seed, want, txt in res:
                rej += want == 'reject'
                acc += want == 'accept'
                if txt:
                    bad.append((f'seed{seed}', txt))
            if bad:
                ex.shutdown(wait=False, cancel_futures=True)
                break
    st['evaluations'] = st.get('evaluations', 0) + rej + acc
    st['distinct_nontrivial'] = st.get('distinct_nontrivial', 0) + rej + acc
    r = rule or f'{rej} generated programs that have to be rejected and {acc} that have to be accepted (oracle/neg.py, kind {kind})'
    st['rule'] = (st['rule'] + '; ' + r) if st.get('rule') else r
    st.setdefault('samples', []).append({'kind': kind, 'first_seed': base})
    return bad


def typetable(ctx, st, n, seconds, failed=()):
    """statements of the type table, every pair of operands under every operator"""
    from oracle import typetab
    full = bool(failed) or ctx.tier == 'thorough'
    r = random.Random(ctx.seed * 7919 + 5)
    es = typetab.exhaustive()
    for _ in range(20000 if full else 2000):
        e = typetab.rnd(r, 3)
        es.append(r.choice([e, ('cond', e), ('for', e)]))
    r.shuffle(es)
    if not full:
        es = es[:n]
    until = time.time() + (300 if full else seconds)
    bad, tot = [], 0
    with ProcessPoolExecutor(8) as ex:
        for k, txt in ex.map(typetab.batch, [(ctx.che, ctx.tmp, es[i:i + 300], until) for i in range(0, len(es), 300)]):
            tot += k
            if txt:
                bad.append(('typetable', txt))
                ex.shutdown(wait=False, cancel_futures=True)
                break
    st['evaluations'] = st.get('evaluations', 0) + tot
    st['distinct_nontrivial'] = st.get('distinct_nontrivial', 0) + tot
    rule = f'{tot} statements judged by an independent typer (oracle/typetab.py), of {len(es)} (every operator on every pair of {len(typetab.ATOMS)} operands and deeper ones)'
    st['rule'] = (st['rule'] + '; ' + rule) if st.get('rule') else rule
    return bad
