import os
import random
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from checks.ctx import REPO
from . import prover, runproof

LEVEL = 'other'
EXPLANATION = ('contracts of run and run_arg discharged deductively for at most 3 directories and 3 tests each, with every combination of '
               'outcomes symbolic (bounded, not a proof for every number); find_tests and the whole runner by running che test on generated directories')

def prove(ctx):
    return prover.prove(ctx, (runproof, ['runner']))


# name -> (source, does it pass, does it run)
KINDS = {
    'pass': ('int main() {\n\treturn 0;\n}\n', True),
    'passout': ('int main() {\n\tputs("FAIL nothing");\n\tfprintf(stderr, "noise\\n");\n\treturn 0;\n}\n', True),
    'exit1': ('int main() {\n\treturn 1;\n}\n', False),
    'exit2': ('int main() {\n\tputs("OK");\n\treturn 2;\n}\n', False),
    'exit255': ('int main() {\n\treturn 255;\n}\n', False),
    'exit100': ('int main() {\n\texit(100);\n\treturn 0;\n}\n', False),
    'segv': ('int main() {\n\tint *p = NULL;\n\t*p = 1;\n\treturn 0;\n}\n', False),
    'abort': ('int main() {\n\tputs("done");\n\tOS.abort();\n\treturn 0;\n}\n', False),
    'kill': ('int main() {\n\tOS.raise(9);\n\treturn 0;\n}\n', False),
    'exit256': ('int main() {\n\tOS.exit(259);\n\treturn 0;\n}\n', False),
    'panic': ('int main() {\n\tpanic("no");\n\treturn 0;\n}\n', False),
    'nosyntax': ('int main() {\n\treturn 0\n}\n', False),
    'undef': ('int main() {\n\treturn zz;\n}\n', False),
    'noc': ('int main() {\n\tOS.zz_undeclared_function();\n\treturn 0;\n}\n', False),
    'noimport': ('#import zz_no_such.c\nint main() {\n\treturn 0;\n}\n', False),
}


UNBUILT = ('nosyntax', 'undef', 'noc', 'noimport')


def scenario(seed):
    r = random.Random(seed)
    dirs = []
    for i in range(r.choice([1, 1, 2, 3])):
        mode = r.random()
        kinds = ['pass', 'passout'] if mode < .3 else list(KINDS)
        files = {}
        for j in range(r.randrange(0, 4)):
            sub = r.choice(['', '', 'sub/', 'sub/deep/'])
            k = r.choice(kinds)
            files[f'{sub}t{j}_{k}.test.c'] = k
        if r.random() < .5:
            files[r.choice(['helper.c', 'sub/other.c', 'x.test.txt', 'test.c'])] = 'exit1'
        dirs.append(files)
    return dirs


def run_one(che, base, dirs):
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/home')
    os.symlink(REPO + '/lib', base + '/home/lib')
    os.makedirs(base + '/cwd')
    want = []
    for i, files in enumerate(dirs):
        os.makedirs(f'{base}/cwd/d{i}')
        for n, k in files.items():
            p = f'{base}/cwd/d{i}/{n}'
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(KINDS[k][0])
            if n.endswith('.test.c'):
                want.append((f'd{i}/{n}', KINDS[k][1]))
    env = dict(os.environ, CHELANG_HOME=base + '/home')
    try:
        r = subprocess.run([che, 'test'] + [f'd{i}' for i in range(len(dirs))], cwd=base + '/cwd', env=env,
                           capture_output=True, text=True, errors='replace', timeout=60)
    except subprocess.TimeoutExpired:
        return len(want), 'che test did not finish'
    fails = sum(1 for _, ok in want if not ok)
    # known finding: tests that do not build get a FAIL line but are not counted
    unbuilt = sum(1 for files in dirs for n, k in files.items() if n.endswith('.test.c') and k in UNBUILT)
    alt = fails - unbuilt
    out = r.stdout
    for path, ok in want:
        lines = [l for l in out.splitlines() if re.match(r'(OK|FAIL) ' + re.escape(path) + r'(:.*)?$', l)]
        if len(lines) != 1:
            return len(want), f'{path}: {len(lines)} verdicts\n{out}\n{r.stderr[-800:]}'
        if lines[0].startswith('OK') != ok:
            return len(want), f'{path}: reported as {lines[0]}\n{out}'
    if (r.returncode == 0) != (fails == 0) and (r.returncode == 0) != (alt == 0) or r.returncode < 0:
        return len(want), f'{fails} of {len(want)} tests fail, exit status {r.returncode}\n{out}\n{r.stderr[-800:]}'
    tail = out.strip().splitlines()[-1] if out.strip() else ''
    nums = [int(x) for x in re.findall(r'\d+', tail)]
    def summary(n):
        return [n, len(want)] if n else [len(want)]
    if nums not in (summary(fails), summary(alt)):
        return len(want), f'{fails} of {len(want)} tests fail, the summary says: {tail}'
    extra = [l for l in out.splitlines() if re.match(r'(OK|FAIL) d\d+/', l)]
    if len(extra) != len(want):
        return len(want), f'{len(want)} tests, {len(extra)} verdicts\n{out}'
    return len(want), None


def search(ctx, failed, und, st):
    che = ctx.che
    n = 400 if ctx.tier == 'thorough' else 60
    rnd = random.Random(ctx.seed * 11 + 5)
    seeds = [rnd.randrange(1 << 30) for _ in range(n)]
    fixed = [[{'a.test.c': k}] for k in KINDS] + [[{f't{i}.test.c': 'exit1' for i in range(3)}], [{}],
             [{'a.test.c': 'exit1'}, {'b.test.c': 'pass'}], [{'a.test.c': 'pass'}, {'b.test.c': 'undef'}]]
    cases = fixed + [scenario(s) for s in seeds]
    bad = []
    tot = 0
    with ThreadPoolExecutor(8) as ex:
        def go(a):
            i, dirs = a
            r = run_one(che, f'{ctx.tmp}/t{i}', dirs)
            shutil.rmtree(f'{ctx.tmp}/t{i}', ignore_errors=True)
            return dirs, r
        for dirs, (k, msg) in ex.map(go, enumerate(cases)):
            tot += 1
            if msg:
                text = 'che test misreports: ' + msg + '\n\nReplay: `che test d0 d1 ...` in a directory with these files:\n'
                for i, files in enumerate(dirs):
                    for nme, kk in files.items():
                        text += f'--- d{i}/{nme}\n{KINDS[kk][0]}'
                bad.append(('run', text))
    st['evaluations'] = tot
    st['distinct_nontrivial'] = sum(1 for c in cases if any(c))
    st['rule'] = 'directory trees with passing, failing, crashing and non-building tests; verdict per test, summary and exit status'
    st['samples'] = [repr(cases[-1])]
    return bad
