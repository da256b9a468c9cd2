"""Programs that have to be rejected, and neighbours of theirs that have to be
accepted. Each case is a dict: files, main, want ('reject' | 'accept'), why."""
import random
import re

from . import gen
from .cfront import tokens

T = lambda s: [v for k, v, _ in tokens(s)]

# statement contexts for an expression; E is put where any expression may stand
CONTEXTS = [
    'OS.use(E);', 'OS.use(1, E);', 'OS.use(E) + 1;', '1 - OS.use(E);', '-OS.use(E);', '(int) OS.use(E);',
    'OS.use(E).x;', 'OS.use(E)->y;', 'OS.use(E)[0];', 'OS.ua[OS.use(E)];', 'OS.use(E)++;', 'OS.use(E)();',
    'OS.ua = OS.use(E);', 'OS.ua += OS.use(E);', 'OS.use(E) && OS.ua;', 'OS.ua || OS.use(E);', 'sizeof(OS.use(E));',
    '!OS.use(E);', 'OS.use(E) == OS.ua;', '(OS.use(E));', 'OS.ua * (OS.ub - OS.use(E));',
    'if (OS.use(E)) { OS.ua(); }', 'if (OS.ua) { OS.use(E); }', 'if (OS.ua) { OS.ub(); } else { OS.use(E); }',
    'if (OS.ua) { OS.ub(); } else if (OS.use(E)) { OS.uc(); }',
    'while (OS.use(E)) { OS.ua(); }', 'while (OS.ua) { OS.use(E); }', 'while (OS.ua) { if (OS.ub) { OS.use(E); } }',
    'for (OS.use(E); OS.ua; OS.ub) { OS.uc(); }', 'for (OS.ua; OS.use(E); OS.ub) { OS.uc(); }',
    'for (OS.ua; OS.ub; OS.use(E)) { OS.uc(); }', 'for (;;) { OS.use(E); }',
    'for (int zq = OS.use(E); zq < 3; zq++) { OS.uc(); }',
    'switch (OS.use(E)) { case 1: { OS.ua(); } }', 'switch (OS.ua) { case 1: { OS.use(E); } }',
    'switch (OS.ua) { case 1: { OS.ub(); } default: { OS.use(E); } }',
    'switch str (OS.use(E)) { case "a": { OS.ua(); } }', 'switch str (OS.ua) { case "a": { OS.use(E); } }',
    'switch str (OS.ua) { case "a": { OS.ub(); } case "b": { OS.use(E); } }',
    'switch str (OS.ua) { case "a": { OS.ub(); } default: { OS.use(E); } }',
    'return OS.use(E);', 'int zq = OS.use(E); OS.use(zq);', 'int zq[2] = { 1, OS.use(E) }; OS.use(zq);',
    'int zq[2] = { [OS.use(E)] = 1 }; OS.use(zq);', 'FILE zq = { .x = OS.use(E) }; OS.use(zq);',
    'int zq[OS.use(E)]; OS.use(zq);', 'panic("%d", OS.use(E));', 'OS.use(calloc!(1, OS.use(E)));',
    'if (OS.ua) { if (OS.ub) { while (OS.uc) { OS.use(E); } } }',
]


def ctx(r, e, loopok=True):
    c = r.choice(CONTEXTS)
    return c.replace('E)', e + ')', 1) if 'E)' in c else c


def visible(g):
    """(spelling, nparams, variadic) of the functions that can be called here"""
    out = []
    for f in g.m.pubfn + g.m.privfn:
        if not g.shadowed(f[0]):
            out.append((f[0],) + tuple(f[1:]))
    for imp in g.m.imports:
        if not g.shadowed(imp.name) and imp.name in g.m.usedns0:
            out += [(imp.name + '.' + f[0],) + tuple(f[1:]) for f in imp.pubfn]
    return out


def args(n):
    return ', '.join(['OS.ua', '1', '"s"', 'OS.ub(2)'][i % 4] for i in range(n))


TYPED = ('int zzi = 1; int64_t zzl = 1; size_t zzu = 1; uint8_t zzb = 1; double zzd = 1.5; float zzf = 1.5; char zzc = \'a\'; '
         'char *zzp = NULL; int *zzq = NULL; int zza[3] = {1}; FILE *zzfp = NULL; bool zzt = true; '
         'OS.use(zzi, zzl, zzu, zzb, zzd, zzf, zzc, zzp, zzq, zza, zzfp, zzt); ')

SINT, UINT, FLT = ['zzi', 'zzl'], ['zzu', 'zzb'], ['zzd', 'zzf']
PTR = ['zzp', 'zzq', 'zzfp']


def bad_typed(r):
    """an expression that the documented type rules forbid"""
    num = SINT + UINT + FLT
    k = r.randrange(9)
    if k == 0:
        return r.choice(['*zzi', '*zzd', '*zzc', '*zzu', '*(zzi + 1)', '**zzp', '*1', '*zzp[0]', '*zza[0]', '*sizeof(zzi)'])
    if k == 1:
        return r.choice(['zzi(1)', 'zzp()', 'zzd(1, 2)', 'zzt()', 'zza(1)', 'zzp[0]()', 'zzu(zzu)', '(zzi + 1)(2)'])
    if k == 2:
        return r.choice(['%s && zzi', 'zzi || %s', '%s || %s', 'OS.ua && %s', 'zzp && %s']).replace(
            '%s', r.choice(['zzd', 'zzf', 'zzc', '1', "'a'", '(1 + 2)', 'zza', '(zzd * 2)']))
    if k == 3:
        return '%s %s %s' % (r.choice(PTR), r.choice(['*', '/', '%', '&', '|', '^', '<<', '>>']), r.choice(SINT + UINT + ['2'] + PTR))
    if k == 4:
        return '%s %s %s' % (r.choice(SINT + UINT + ['2']), r.choice(['*', '/', '%', '&', '|', '^', '<<', '>>']), r.choice(PTR))
    if k == 5:
        a, b = r.choice(PTR), r.choice(PTR)
        return f'{a} + {b}'
    cmp = r.choice(['==', '!=', '<', '>', '<=', '>='])
    if k == 6:
        a, b = r.choice(SINT), r.choice(UINT)
    elif k == 7:
        a, b = r.choice(FLT), r.choice(SINT + UINT + PTR)
    else:
        a, b = r.choice(PTR), r.choice(SINT + UINT + ['zzc', '1'])
    if r.random() < .5:
        a, b = b, a
    return f'{a} {cmp} {b}'


def good_typed(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice(['*zzp', '*zzq', '*(zzp + 1)', '*zzfp', '&zzi', '!zzd', '!zzp', '-zzi', '~zzu', 'zzi++', '--zzi'])
    if k == 1:
        return '%s %s %s' % (r.choice(['zzi', 'zzp', 'zzt', 'zzu', '(zzi == zzl)', 'OS.ua']), r.choice(['&&', '||']),
                             r.choice(['zzi', 'zzp', 'zzt', 'zzu', '(zzu < zzb)', '!zzd']))
    if k == 2:
        x = r.choice([SINT, UINT, FLT])
        return '%s %s %s' % (r.choice(x), r.choice(['*', '/', '+', '-']), r.choice(x + ['2']))
    if k == 3:
        return '%s %s %s' % (r.choice(PTR), r.choice(['+', '-']), r.choice(SINT + UINT + ['2']))
    if k == 4:
        return '%s - %s' % (r.choice(PTR), r.choice(PTR))
    if k == 5:
        return r.choice(['zzp[0]', 'zza[1]', 'zzp[zzi]', 'zza[zzu + 1]'])
    cmp = r.choice(['==', '!=', '<', '>', '<=', '>='])
    x = r.choice([SINT + ['1'], UINT + ['1'], FLT + ['1'], PTR, ['zzc', "'a'", 'zzi', '1']])
    a, b = r.choice(x), r.choice(x)
    return f'{a} {cmp} {b}'


def bad_cond(r):
    b = r.choice(['zzd', 'zzc', '1', "'a'", 'zza', 'zzd * 2', '0', 'zzf', 'zzi = 1', '2 + 3'])
    return r.choice(['while (%s) { OS.ua(); }', 'for (;%s;) { OS.ua(); }', 'for (OS.ua;%s;OS.ub) { OS.ua(); }',
                     'if (OS.ua) { while (%s) { OS.ua(); } }', 'while (OS.ua) { for (;%s;) { OS.ub(); } }']).replace('%s', b)


def bad_arity(g, r):
    fs = visible(g)
    if not fs:
        return None
    f, n, var = r.choice(fs)
    if var:
        if n == 0:
            return None
        k = r.randrange(n)
    else:
        k = r.choice([x for x in range(n + 3) if x != n])
    return f'{f}({args(k)})', f'{f} takes {"at least " if var else ""}{n} arguments, {k} are passed'


def good_arity(g, r):
    fs = visible(g)
    if not fs:
        return None
    f, n, var = r.choice(fs)
    k = n + (r.randrange(3) if var else 0)
    return f'{f}({args(k)})'


def near(n, known, r):
    """names that are almost n"""
    out = [x for x in (n[1:], n[:-1], n + n[-1], '_' + n, n + '_', n.swapcase(), n[::-1]) if re.fullmatch(r'[A-Za-z_]\w+', x) and x not in known]
    return [x for x in out if x not in ('int', 'char', 'if', 'str', 'do', 'for')] or ['zznone']


def scope_case(g, r, loop):
    """tokens breaking the scoping rules, and why"""
    k = r.randrange(14)
    u = r.choice(['zzundef', 'zzundef(1)', 'zzundef.x', 'zzundef[0]', 'zzundef + 1', '&zzundef', 'zzundef = 1', 'OS.ua(zzundef)',
                  'zzundef++', '(int) zzundef', 'sizeof(zzundef)', 'OS.ua[zzundef]', '-zzundef', '!zzundef', '*zzundef'])
    if k < 4:
        return ctx(r, u), 'an undeclared name is used'
    if k == 4:
        return r.choice([
            'if (OS.ua) { int zz1 = 1; OS.use(zz1); } ', 'for (int zz1 = 0; zz1 < 3; zz1++) { OS.ua(); } ',
            'while (OS.ua) { int zz1 = 1; OS.use(zz1); } ', 'for (;;) { int zz1 = 1; OS.use(zz1); break; } ',
            'switch (OS.ua) { case 1: { int zz1 = 1; OS.use(zz1); } } ',
            'switch (OS.ua) { case 1: { OS.ub(); } default: { int zz1 = 1; OS.use(zz1); } } ',
            'switch str (OS.ua) { case "a": { int zz1 = 1; OS.use(zz1); } } ',
            'switch str (OS.ua) { case "a": { OS.ub(); } default: { int zz1 = 1; OS.use(zz1); } } ',
            'if (OS.ua) { OS.ub(); } else { int zz1 = 1; OS.use(zz1); } ']) + ctx(r, 'zz1'), 'a local is used outside its block'
    if k == 5:
        return r.choice([
            'if (OS.ua) { int zz1 = 1; OS.use(zz1); } else { OS.use(zz1); }',
            'if (OS.ua) { OS.use(zz1); } else { int zz1 = 1; OS.use(zz1); }',
            'switch (OS.ua) { case 1: { int zz1 = 1; OS.use(zz1); } case 2: { OS.use(zz1); } }',
            'switch (OS.ua) { case 1: { int zz1 = 1; OS.use(zz1); } default: { OS.use(zz1); } }',
            'switch str (OS.ua) { case "a": { int zz1 = 1; OS.use(zz1); } case "b": { OS.use(zz1); } }',
            'while (OS.use(zz1)) { int zz1 = 1; OS.use(zz1); }',
            'for (;;OS.use(zz1)) { int zz1 = 1; OS.use(zz1); }',
            'OS.use(zz1); int zz1 = 1; OS.use(zz1);']), 'a local is used where it is not declared'
    if k == 6:
        c = r.choice(['%s', 'if (OS.ua) { %s }', 'if (OS.ua) { OS.ub(); } else { %s }', 'while (OS.ua) { %s }', 'for (;;) { %s }',
                      'switch (OS.ua) { case 1: { %s } }', 'switch (OS.ua) { case 1: { OS.ub(); } default: { %s } }',
                      'switch str (OS.ua) { case "a": { %s } }', 'switch str (OS.ua) { case "a": { OS.ub(); } default: { %s } }'])
        return c.replace('%s', r.choice(['int zz1 = 1;', 'int zz1;', 'char *zz1;', 'int zz1[3];', 'int zz1 = 1; OS.ua();'])), \
            'a local is not used'
    if k == 7:
        return r.choice(['for (int zz1 = 0; OS.ua; OS.ub) { OS.uc(); }', 'for (int zz1 = OS.ua; ; ) { OS.uc(); break; }']), \
            'a loop counter is not used'
    if k == 8:
        return r.choice([
            'int zz1 = 1; if (OS.ua) { int zz1 = 2; OS.use(zz1); }', 'int zz1 = 1; while (OS.ua) { int zz1 = 2; OS.use(zz1); }',
            'int zz1 = 1; for (int zz1 = 0; zz1 < 3; zz1++) { OS.ua(); }',
            'for (int zz1 = 0; OS.ua; OS.ub) { int zz1 = 1; OS.use(zz1); }',
            'int zz1 = 1; OS.use(zz1); if (OS.ua) { int zz1 = 2; } OS.use(zz1);',
            'if (OS.ua) { int zz1 = 1; OS.use(zz1); if (OS.ub) { int zz1 = 2; } }',
            'int zz1 = 1; OS.use(zz1); for (int zz1 = 0; OS.ua; OS.ub) { OS.uc(); }']), \
            'a shadowed or shadowing local is not used'
    if k in (9, 10):
        imps = [i for i in g.m.imports if i.name in g.m.usedns0 and not g.shadowed(i.name)]
        if imps:
            i = r.choice(imps)
            names = [f[0] for f in i.privfn] + i.privconst + i.modvars + ['zznone']
            vals = [f[0] for f in i.pubfn] + i.pubconst
            if vals and r.random() < .4:
                names = near(r.choice(vals), vals + i.pubtype, r)
            if r.random() < .3:
                names = i.privtype + ['zznone_t']
                if i.pubtype and r.random() < .4:
                    names = near(r.choice(i.pubtype), vals + i.pubtype, r)
                n = r.choice(names)
                return r.choice([f'{i.name}.{n} *zz1 = NULL; OS.use(zz1);', f'for ({i.name}.{n} *zz1 = NULL; OS.use(zz1); OS.ua) {{ OS.uc(); }}',
                                 f'OS.use(sizeof({i.name}.{n}));']), \
                    f'{n} is not an exported type of {i.name}'
            n = r.choice(names)
            return ctx(r, f'{i.name}.{n}' + r.choice(['', '', '(1)', ' + 1'])), f'{i.name} does not export {n}'
    if k == 11:
        return r.choice(['zznomod.f();', 'OS.use(zznomod.K);', 'zznomod.t_t *zz1 = NULL; OS.use(zz1);']), 'the module is not imported'
    return r.choice(['zzunk_t zz1 = 1; OS.use(zz1);', 'zzunk_t *zz1 = NULL; OS.use(zz1);', 'OS.use(sizeof(zzunk_t));',
                     'for (zzunk_t zz1 = 0; zz1 < 1; zz1++) { OS.ua(); }', 'const zzunk_t *zz1 = NULL; OS.use(zz1);']), 'the type is not known'


TOPBAD = [
    ('int zzf1() { return 1; }', 'a private function is not used'),
    ('char *zzf1(int a, b) { OS.use(a, b); return NULL; }', 'a private function is not used'),
    ('int zzf1() { return zzf1(); } int zzf2() { return 1; }', 'a private function is not used'),
    ('enum { ZZ1, ZZ2 } pub int zzf() { return ZZ1; }', 'a private constant is not used'),
    ('enum { ZZ1 }', 'a private constant is not used'),
    ('int zzg = 1;', 'a module variable is not used'),
    ('char *zzg[] = { "a", "b" };', 'a module variable is not used'),
    ('int zzg = 1; pub int zzf(int zzg) { return zzg; }', 'a module variable is only shadowed'),
    ('pub int zzf(int a, b) { return a; }', 'a parameter is not used'),
    ('pub int zzf(int a; char *b) { OS.use(b); return 1; }', 'a parameter is not used'),
    ('pub int zzf(int a) { int b = 1; if (OS.ua) { int a = 2; OS.use(a); } return b; }', 'a parameter is only shadowed'),
    ('pub int zzf(int a) { OS.use(a); return 1; } pub int zzh() { return a; }', 'a parameter is used in another function'),
    ('pub int zzf() { int b = 1; return b; } pub int zzh() { return b; }', 'a local is used in another function'),
    ('pub zzunk_t zzf() { return OS.ua; }', 'the return type is not known'),
    ('pub zzunk_t *zzf() { return OS.ua; }', 'the return type is not known'),
    ('pub int zzf(zzunk_t *a) { return OS.use(a); }', 'the type of a parameter is not known'),
    ('pub typedef { zzunk_t a; } zzs_t;', 'the type of a field is not known'),
    ('typedef { int b; zzunk_t *a; } zzs_t;', 'the type of a field is not known'),
    ('typedef { union { int b; zzunk_t *a; } u; } zzs_t;', 'the type of a field is not known'),
    ('typedef zzunk_t zzs_t;', 'the type behind a typedef is not known'),
    ('typedef int zzs_t(int, zzunk_t *);', 'the type of a parameter is not known'),
    ('zzunk_t *zzg = NULL; pub int zzf() { return OS.use(zzg); }', 'the type of a module variable is not known'),
    ('int zzg = zzundef; pub int zzf() { return zzg; }', 'an undeclared name is used'),
    ('pub enum { ZZ1 = zzundef }', 'an undeclared name is used'),
    ('pub enum { ZZ1 = 1, ZZ2 = ZZ1 + zzundef }', 'an undeclared name is used'),
    ('pub typedef { int a[zzundef]; } zzs_t;', 'an undeclared name is used'),
    ('pub int zzf(int a[zzundef]) { return OS.use(a); }', 'an undeclared name is used'),
    ('pub int zzf() { return zzundef; }', 'an undeclared name is used'),
]


SCOPEGOOD = [
    'int zz1 = 1; if (OS.ua) { int zz1 = 2; OS.use(zz1); } OS.use(zz1);',
    'if (OS.ua) { int zz1 = 1; OS.use(zz1); } else { int zz1 = 1; OS.use(zz1); }',
    'for (int zz1 = 0; zz1 < 3; zz1++) { OS.ua(); } for (int zz1 = 0; zz1 < 3; zz1++) { OS.ua(); }',
    'for (int zz1 = 0; OS.ua; OS.ub) { OS.use(zz1); int zz1 = 2; OS.use(zz1); }',
    'while (OS.ua) { int zz1 = 1; while (OS.ub) { int zz1 = 2; OS.use(zz1); } OS.use(zz1); }',
    'switch (OS.ua) { case 1: { int zz1 = 1; OS.use(zz1); } case 2: { int zz1 = 1; OS.use(zz1); } default: { int zz1 = 1; OS.use(zz1); } }',
    'switch str (OS.ua) { case "a": { int zz1 = 1; OS.use(zz1); } case "b": { int zz1 = 1; OS.use(zz1); } default: { int zz1 = 1; OS.use(zz1); } }',
    'int zz1 = 1; int zz2 = zz1; OS.use(zz2);', 'int zz1 = 1; int zz2[zz1]; OS.use(zz2);', 'int zz1; zz1 = 1;', 'int zz1; zz1++;',
    'int zz1 = 1; while (OS.ua) { if (OS.ub) { return zz1; } }', 'int zz1 = 1; switch (zz1) { case 1: { OS.ua(); } }',
    'int zz1 = 1; for (int zz2 = zz1; zz2 < 1; zz2++) { OS.ua(); }', 'int zz1 = 1; panic("%d", zz1);',
    'int zz1 = 1; OS.use(sizeof(zz1));', 'int zz1 = 1; int zz2[] = { zz1 }; OS.use(zz2);', 'int zz1 = 1; OS.use(calloc!(1, zz1));',
    'char *zz1 = "a"; switch str (zz1) { case "a": { OS.ua(); } }', 'char *zz1 = "a"; switch str (OS.ua) { case "b": { OS.ub(); } default: { OS.use(zz1); } }',
]


STYLES = [lambda n: n, lambda n: '_' + n, lambda n: n.swapcase(), lambda n: n + '_', lambda n: '__' + n, lambda n: n.capitalize()]


def respell(t, r):
    """the names in other spellings; the rules are the same for all of them"""
    f = r.choice(STYLES) if r.random() < .5 else STYLES[0]
    return re.sub(r'\b(zz|ZZ)\w+', lambda m: m.group(0) if m.group(0) == 'zzmark' else f(m.group(0)), t)


def case(seed, kind, want=None):
    """kind: scope | types; None if the dice gave nothing usable"""
    r = random.Random(seed * 31 + 7)
    want = want or ('reject' if r.random() < .75 else 'accept')
    prof = r.choice(['mix', 'stmt', 'mods', 'local'])
    files, main, g, mods = gen.program(seed, prof, depth=2, full=True)
    if kind == 'scope' and r.random() < .25 and want == 'reject':
        if r.random() < .25:
            m = r.choice(sorted(files))
            # often a name close to one that is imported and used
            near_ = [x.name for y in mods if y.name + '.c' == m for x in y.used_imports]
            n = r.choice(near_) if near_ and r.random() < .7 else 'zzimp'
            if n != 'zzimp':
                n = r.choice([n + 's', n + '_', n[:-1], n[1:], '_' + n, n.swapcase()])
            if not re.fullmatch(r'[A-Za-z_]\w+', n) or n in ('str', 'lib', 'for', 'do', 'if', 'OS') or n.lower() + '.c' in [f.lower() for f in files] \
                    or re.search(r'\b%s\b' % n, files[m]):
                n = 'zzimp'
            files[n + '.c'] = 'pub int zzf() { return 1; }\n'
            j = 0
            if r.random() < .5:
                while files[m].startswith('#import ', j):
                    j = files[m].find('\n', j) + 1
            files[m] = files[m][:j] + f'#import {n}.c\n' + files[m][j:]
            return dict(files=files, main=main, want='reject', why=f'{m} imports {n} and does not use it') if used(mods, m, main) else None
        m = r.choice(sorted(files))
        t, why = r.choice(TOPBAD)
        if not used(mods, m, main):
            return None
        t = respell(t.replace('; char *b)', ', char *b)'), r)
        files[m] += t + '\n' if r.random() < .7 else ''
        if t not in files[m]:
            j = 0
            while files[m].startswith('#import ', j):
                j = files[m].find('\n', j) + 1
            files[m] = files[m][:j] + t + '\n' + files[m][j:]
        return dict(files=files, main=main, want='reject', why=f'{m}: {why}: {t}')
    info = {}
    ns0 = {m.name: set(i.name for i in m.used_imports) for m in mods}

    def fn(g, loop):
        g.m.usedns0 = ns0.get(g.m.name, set())
        info['mod'] = g.m.name
        if kind == 'scope':
            if want == 'accept':
                t, why = r.choice(SCOPEGOOD), 'every name is declared and used'
            else:
                t, why = scope_case(g, r, loop)
        else:
            k = r.randrange(3)
            if k == 0:
                x = bad_arity(g, r) if want == 'reject' else good_arity(g, r)
                if x is None:
                    return []
                t, why = (ctx(r, x[0]), x[1]) if want == 'reject' else (ctx(r, x), '')
            elif k == 1 and want == 'reject':
                t = bad_cond(r)
                why = f'condition of a type that is not allowed there: {t}'
                t = TYPED + t
            else:
                e = bad_typed(r) if want == 'reject' else good_typed(r)
                why = f'ill-typed: {e}'
                t = TYPED + (ctx(r, e))
        info['why'] = why
        return T('OS.zzmark(); ' + (respell(t, r) if kind == 'scope' else t))
    for _ in range(4):
        info.clear()
        n = r.randrange(max(g.nblocks, 1))
        files, main, g2, mods2 = gen.program(seed, prof, depth=2, inject=(n, fn), full=True)
        if 'why' in info and 'zzmark' in files[info['mod'] + '.c'] and \
                used(mods2, info['mod'] + '.c', main):
            return dict(files=files, main=main, want=want, why=info['mod'] + '.c: ' + info['why'])
    return None


def used(mods, m, main):
    """is module m reachable from the main module?"""
    by = {x.name: x for x in mods}
    todo, seen = [main[:-2]], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo += [i.name for i in by[n].used_imports]
    return m[:-2] in seen


# -- missing returns
def flow(seed):
    r = random.Random(seed)

    def body(d, loop):
        n = r.choice([0, 1, 1, 2, 2, 3])
        return [stmt(d, loop, i == n - 1) for i in range(n)]

    def stmt(d, loop, last):
        k = r.randrange(14)
        if last and r.random() < .5:
            k = r.choice([0, 1, 2, 3, 6, 7])
        if k == 0:
            return ('return',)
        if k == 1 and r.random() < .5:
            return ('panic',)
        if k in (4, 5) and loop and r.random() < .6:
            return ('break',) if k == 4 else ('continue',)
        if d <= 0 or k > 9:
            return ('expr',)
        if k in (2, 4, 9):
            return ('if', body(d - 1, loop), body(d - 1, loop) if r.random() < .7 else None)
        if k in (3, 5):
            return ('while', r.random() < .6, body(d - 1, True))
        if k == 6:
            return ('for', r.random() < .3, body(d - 1, True))
        s = r.random() < .35
        # a break inside a regular switch leaves the switch: allowed by C
        return ('switch', s, [body(d - 1, loop or (not s and r.random() < .4)) for _ in range(r.choice([1, 1, 2, 3] if s else [0, 1, 2, 3]))],
                body(d - 1, loop or (not s and r.random() < .4)) if r.random() < .75 else None)
    return body(3, False)


def outcomes(b):
    """ways to leave the statement list: fall, break, continue"""
    out = set()
    for s in b:
        o = out1(s)
        out |= o - {'fall'}
        if 'fall' not in o:
            return out
    return out | {'fall'}


def out1(s):
    k = s[0]
    if k in ('return', 'panic'):
        return set()
    if k in ('break', 'continue'):
        return {k}
    if k == 'expr':
        return {'fall'}
    if k == 'if':
        return outcomes(s[1]) | (outcomes(s[2]) if s[2] is not None else {'fall'})
    if k in ('while', 'for'):
        if s[1]:
            return {'fall'} if 'break' in outcomes(s[2]) else set()
        return {'fall'}
    o = set()
    for b in s[2] + ([s[3]] if s[3] is not None else []):
        o |= outcomes(b)
    if s[3] is None:
        o.add('fall')
    if not s[1] and 'break' in o:
        o.discard('break')
        o.add('fall')
    return o


def ends(b):
    """the documented forms that count as returning"""
    if not b:
        return False
    s = b[-1]
    k = s[0]
    if k in ('return', 'panic'):
        return True
    if k == 'if':
        return s[2] is not None and ends(s[1]) and ends(s[2])
    if k == 'while':
        return s[1] and not brk(s[2])
    if k == 'switch':
        return s[3] is not None and ends(s[3]) and all(ends(c) for c in s[2]) and not any(brk(c) for c in s[2] + [s[3]])
    return False


def brk(b):
    for s in b:
        if s[0] == 'break':
            return True
        if s[0] == 'if' and (brk(s[1]) or s[2] is not None and brk(s[2])):
            return True
        if s[0] == 'switch' and s[1] and any(brk(c) for c in s[2] + ([s[3]] if s[3] is not None else [])):
            return True
    return False


def flowtext(b, val, ind=1):
    t = '\t' * ind
    out = ''
    for s in b:
        k = s[0]
        if k == 'return':
            out += f'{t}return {val};\n'
        elif k == 'panic':
            out += f'{t}panic("x");\n'
        elif k in ('break', 'continue'):
            out += f'{t}{k};\n'
        elif k == 'expr':
            out += f'{t}OS.ua();\n'
        elif k == 'if':
            out += f'{t}if (OS.ua) {{\n{flowtext(s[1], val, ind + 1)}{t}}}'
            if s[2] is not None:
                out += f' else {{\n{flowtext(s[2], val, ind + 1)}{t}}}'
            out += '\n'
        elif k == 'while':
            out += f'{t}while ({"true" if s[1] else "OS.ua"}) {{\n{flowtext(s[2], val, ind + 1)}{t}}}\n'
        elif k == 'for':
            out += f'{t}for (;{"" if s[1] else "OS.ua"};) {{\n{flowtext(s[2], val, ind + 1)}{t}}}\n'
        else:
            out += f'{t}switch {"str " if s[1] else ""}(OS.ua) {{\n'
            for i, c in enumerate(s[2]):
                v = f'"{i}"' if s[1] else str(i)
                out += f'{t}case {v}: {{\n{flowtext(c, val, ind + 1)}{t}}}\n'
            if s[3] is not None:
                out += f'{t}default: {{\n{flowtext(s[3], val, ind + 1)}{t}}}\n'
            out += f'{t}}}\n'
    return out


def flowcase(seed):
    r = random.Random(seed * 17 + 3)
    b = flow(seed)
    ty = r.choice(['int', 'char *', 'void *', 'void', 'void **', 'double', 'size_t', 'FILE *', 'bool', 'const char *'])
    val = {'void': ''}.get(ty, 'OS.ub')
    text = f'pub {ty} f() {{\n{flowtext(b, val)}}}\n\nint main() {{\n\treturn 0;\n}}\n'
    if ty == 'void' or ends(b):
        want = 'accept'
    elif 'fall' in outcomes(b):
        want = 'reject'
    else:
        return None
    return dict(files={'m.c': text}, main='m.c', want=want, why='control can reach the end of f' if want == 'reject' else
                'every path of f returns')


# -- module graphs
def graphcase(seed):
    """import graphs: several directories, file names that repeat in
    different directories, exported names that repeat in all modules"""
    r = random.Random(seed)
    n = r.randrange(2, 8)
    ids = list(range(n))
    # modules only import from their own directory or below
    dirs = r.choice([[''], ['', 'sub/'], ['', 'a/', 'b/'], ['', 'a/', 'a/b/']])
    pool = [f'm{i}' for i in range(r.choice([n, n, max(2, n // 2)]))]
    base, path, seen = {}, {}, set()
    for i in ids:
        for _ in range(50):
            d = '' if i == n - 1 else r.choice(dirs)
            b = 'main' if i == n - 1 and r.random() < .5 else r.choice(pool)
            if d + b not in seen:
                break
        else:
            return None
        seen.add(d + b)
        base[i], path[i] = b, d + b + '.c'
    same = r.random() < .5
    nm = (lambda i: 'x') if same else (lambda i: f'x{i}')

    def ok(i, j):
        return path[j].startswith(path[i][:path[i].rindex('/') + 1] if '/' in path[i] else '')
    cyc = r.random() < .4
    imp = {i: [] for i in ids}

    def add(i, j):
        if j not in imp[i] and ok(i, j) and (twice or all(base[k] != base[j] for k in imp[i])):
            imp[i].append(j)
    dens = r.choice([.3, .5, .8])
    twice = r.random() < .2     # two imports under one name: the first is the one used
    for i in ids:
        for j in ids[:i]:
            if r.random() < dens:
                add(i, j)
    if cyc:
        i = r.choice(ids)
        j = r.choice(ids[i:])
        add(i, j)
    for i in ids:
        r.shuffle(imp[i])
    first = {i: [j for k, j in enumerate(imp[i]) if all(base[h] != base[j] for h in imp[i][:k])] for i in ids}
    main = n - 1
    reach, todo = set(), [main]
    while todo:
        i = todo.pop()
        if i not in reach:
            reach.add(i)
            todo += imp[i]

    def cyclic():
        state = {}

        def go(i):
            if state.get(i) == 1:
                return True
            if state.get(i) == 2:
                return False
            state[i] = 1
            bad = any([go(j) for j in imp[i]])
            state[i] = 2
            return bad
        return go(main)
    bad = cyclic()
    files = {}
    late = r.random() < .3
    for i in ids:
        t = ''
        d = path[i][:path[i].rindex('/') + 1] if '/' in path[i] else ''
        x = nm(i)
        parts = [f'pub typedef {{ int a; }} {x}_t;\n', f'pub enum {{ K_{x} = 1 }}\n', f'int priv() {{\n\treturn {i};\n}}\n']
        k = 0
        for j in imp[i]:
            if late and r.random() < .5:
                k = r.randrange(k, len(parts) + 1)
            parts.insert(k, f'#import {path[j][len(d):]}\n')
            k += 1
        t += ''.join(parts)
        t += f'pub int f_{x}() {{\n'
        for j in first[i]:
            b, y = base[j], nm(j)
            t += f'\t{b}.{y}_t v_{b} = {{}};\n\tOS.use(v_{b}, {b}.K_{y}, {b}.f_{y}());\n'
        t += '\treturn priv();\n}\n'
        if i == main:
            t += 'int main() {\n\treturn f_%s();\n}\n' % x
        files[path[i]] = t
    return dict(files=files, main=path[main], want='reject' if bad else 'accept', why='imports form a cycle' if bad else 'no cycle',
                reach=sorted(path[i] for i in reach))
