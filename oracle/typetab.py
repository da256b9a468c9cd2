"""An independent typer of expressions and the programs it judges.
Types: a base name, ('p', T), ('a', T), ('f', [T..], variadic, T)."""
import itertools
import random
import os
import subprocess
import tempfile

SINT = ['int', 'int16_t', 'int32_t', 'int64_t', 'int8_t', 'ptrdiff_t']
UINT = ['size_t', 'uint16_t', 'uint32_t', 'uint64_t', 'uint8_t']
FLT = ['float', 'double']
SIZE = {'size_t': 64, 'uint64_t': 64, 'int64_t': 64, 'uint32_t': 32, 'int32_t': 32, 'uint16_t': 16, 'int16_t': 16,
        'uint8_t': 8, 'int8_t': 8, 'int': 32, 'double': 64, 'float': 32, 'ptrdiff_t': 64}
TD = {'ti_t': 'int', 'tu_t': 'uint32_t', 'td_t': 'double', 'tp_t': ('p', 'char'), 'tt_t': 'int', 'tq_t': ('p', ('p', 'int')),
      'tf_t': ('f', ['int', 'int'], False, 'int'), 'tv_t': ('f', [('p', 'char')], True, ('p', 'char')), 'ta_t': ('a', 'int'),
      'tb_t': 'bool', 'tc_t': 'char', 'tg_t': ('f', [], False, 'double')}
STRUCT = {'zs_t': {'i': 'int', 'd': 'double', 'c': 'char', 'p': ('p', 'char'), 'a': ('a', 'int'), 's': ('p', 'zs_t'), 't': 'ti_t',
                   'u': 'size_t', 'b': 'bool', 'f': ('p', 'tf_t')}}
DECL = '''enum { ZK = 3 }
typedef int ti_t;
typedef uint32_t tu_t;
typedef double td_t;
typedef char *tp_t;
typedef ti_t tt_t;
typedef int **tq_t;
typedef int tf_t(int, int);
typedef char *tv_t(char *, ...);
typedef int ta_t[4];
typedef bool tb_t;
typedef char tc_t;
typedef double tg_t();
typedef { int i; double d; char c; char *p; int a[3]; zs_t *s; ti_t t; size_t u; bool b; tf_t *f; } zs_t;
int f0() { return 1; }
double f1(int a) { return OS.use(a); }
char *f2(int a, char *b) { OS.use(a, b); return NULL; }
size_t f3(int a, b, c) { OS.use(a, b, c); return 1; }
int fv(char *a, ...) { return OS.use(a); }
void fw(int a, char *b, ...) { OS.use(a, b); }
tt_t *fp(tp_t a) { OS.use(a); return NULL; }
bool fb(int a[3], zs_t *s) { OS.use(a, s); return true; }
'''
FUN = {'f0': ('f', [], False, 'int'), 'f1': ('f', ['int'], False, 'double'), 'f2': ('f', ['int', ('p', 'char')], False, ('p', 'char')),
       'f3': ('f', ['int'] * 3, False, 'size_t'), 'fv': ('f', [('p', 'char')], True, 'int'),
       'fw': ('f', ['int', ('p', 'char')], True, 'void'), 'fp': ('f', ['tp_t'], False, ('p', 'tt_t')),
       'fb': ('f', [('a', 'int'), ('p', 'zs_t')], False, 'bool')}
VARS = [('vi', 'int'), ('vl', 'int64_t'), ('vs', 'int16_t'), ('vb', 'int8_t'), ('vd', 'ptrdiff_t'), ('vu', 'size_t'), ('vv', 'uint32_t'),
        ('vw', 'uint8_t'), ('ve', 'double'), ('vf', 'float'), ('vc', 'char'), ('vt', 'bool'), ('vp', ('p', 'char')),
        ('vq', ('p', 'int')), ('vr', ('p', ('p', 'char'))), ('vn', ('p', 'void')), ('va', ('a', 'int')), ('vk', ('a', ('p', 'char'))),
        ('vx', 'zs_t'), ('vy', ('p', 'zs_t')), ('wi', 'ti_t'), ('wu', 'tu_t'), ('wd', 'td_t'), ('wp', 'tp_t'), ('wt', 'tt_t'),
        ('wq', 'tq_t'), ('wb', 'tb_t'), ('wc', 'tc_t'), ('wr', ('p', 'ti_t')), ('wf', ('p', 'tf_t')), ('wv', ('p', 'tv_t')),
        ('wg', ('p', 'tg_t')), ('wa', 'ta_t')]
ENV = dict(VARS)
ENV.update(FUN)
ENV['ZK'] = '#'
UNK = '?'


def decl(n, t):
    if t[0] == 'a' and not isinstance(t, str):
        b, s = base(t[1])
        return f'{b} {s}{n}[3] = {{}};'
    b, s = base(t)
    return f'{b} {s}{n} = OS.x;'


def base(t):
    s = ''
    while not isinstance(t, str):
        t, s = t[1], s + '*'
    return t, s


class Ill(Exception):
    pass


def arr(t):
    return not isinstance(t, str) and t[0] == 'a'


def root(t):
    """typedefs looked through"""
    if isinstance(t, str):
        return TD.get(t, t) if TD.get(t) != t else t
    if t[0] in 'pa':
        r = root(t[1])
        return (t[0], r)
    return (t[0], t[1], t[2], root(t[3]))


def kind(t):
    if not isinstance(t, str):
        return {'p': 'PTR', 'a': 'ARR', 'f': 'NONE'}[t[0]]
    if t in SINT:
        return 'SINT'
    if t in UINT:
        return 'UINT'
    if t in FLT:
        return 'FLT'
    return {'#': 'NUM', 'char': 'CHAR', '?': 'UNK', 'bool': 'BOOL'}.get(t, 'NONE')


def wide(a, b):
    return a if SIZE[a] > SIZE[b] else b


def booly(t):
    return kind(root(t)) in ('PTR', 'SINT', 'UINT', 'BOOL', 'UNK')


def binary(op, a, b):
    a, b = root(a), root(b)
    x, y = kind(a), kind(b)
    ints, nums = ('SINT', 'UINT'), ('SINT', 'UINT', 'FLT')
    if op in ('&&', '||'):
        if not booly(a) or not booly(b):
            raise Ill('operand of ' + op)
        return 'bool'
    if op in ('==', '!=', '<', '>', '<=', '>='):
        ok = 'UNK' in (x, y) or (x == y and x in ('FLT', 'SINT', 'UINT', 'CHAR', 'BOOL', 'PTR', 'NUM'))
        ok = ok or (x == 'NUM' and y in nums + ('CHAR',)) or (y == 'NUM' and x in nums + ('CHAR',))
        ok = ok or {x, y} == {'CHAR', 'SINT'}
        if not ok:
            raise Ill('comparison')
        return 'bool'
    if op in ('+', '-'):
        if 'UNK' in (x, y):
            return UNK
        if x == y == 'NUM':
            return a
        if x == y and x in nums:
            return wide(a, b)
        if x == 'NUM' and y in nums:
            return b
        if y == 'NUM' and x in nums:
            return a
        if op == '-' and x == y == 'PTR':
            return 'ptrdiff_t'
        if x in ('PTR', 'ARR') and y in ('NUM',) + ints:
            return a
        if y in ('PTR', 'ARR') and x in ('NUM',) + ints:
            return b
        raise Ill('sum')
    if op in ('*', '/', '%', '<<', '>>', '&', '|', '^'):
        if 'UNK' in (x, y):
            return UNK
        if x == y == 'NUM':
            return a
        if x == y == 'FLT' or (x in ints and y in ints):
            return wide(a, b)
        if {x, y} == {'CHAR', 'NUM'}:
            return 'int'
        if x == 'NUM' and y in nums:
            return b
        if y == 'NUM' and x in nums:
            return a
        if x in ints and y == 'FLT':
            return b
        if y in ints and x == 'FLT':
            return a
        raise Ill('arithmetic')
    return 'void'


def call(t, n):
    if t == UNK:
        return UNK
    if not isinstance(t, str) and t[0] == 'f':
        if n < len(t[1]) if t[2] else n != len(t[1]):
            raise Ill('arity')
        return t[3]
    if isinstance(t, str) and t in TD:
        return call(TD[t], n)
    if not isinstance(t, str) and t[0] == 'p' and isinstance(t[1], str) and t[1] in TD:
        return call(TD[t[1]], n)
    raise Ill('not a function')


def typ(e):
    k = e[0]
    if k == 'v':
        return ENV[e[1]]
    if k == 'lit':
        return {"'": 'char', '"': ('p', 'char')}.get(e[1][0], '#')
    if k == 'os':
        return UNK
    if k == 'bin':
        return binary(e[1], typ(e[2]), typ(e[3]))
    if k == 'pre':
        t = typ(e[2])
        if e[1] == '!':
            return 'bool'
        if e[1] == '&':
            return ('p', t)
        if e[1] == '*':
            t = root(t)
            if t == UNK:
                return t
            if isinstance(t, str) or t[0] != 'p':
                raise Ill('dereference')
            return t[1]
        return t
    if k == 'post':
        return typ(e[2])
    if k == 'cast':
        typ(e[2])
        return e[1]
    if k == 'sizeof':
        typ(e[1])
        return 'size_t'
    if k == 'idx':
        t, _ = typ(e[1]), typ(e[2])
        if isinstance(t, str):
            return UNK
        if t[0] == 'f':
            raise Ill('index')
        return t[1]
    if k == 'fld':
        t = typ(e[2])
        if t == UNK:
            return UNK
        while not isinstance(t, str):
            t = t[3] if t[0] == 'f' else t[1]
        return STRUCT.get(t, {}).get(e[3], UNK)
    if k == 'call':
        for a in e[2]:
            typ(a)
        return call(typ(e[1]), len(e[2]))
    raise AssertionError(e)


def text(e):
    k = e[0]
    if k in ('v', 'lit', 'os'):
        return e[1]
    if k == 'bin':
        return f'({text(e[2])}) {e[1]} ({text(e[3])})'
    if k == 'pre':
        return f'{e[1]}({text(e[2])})'
    if k == 'post':
        return f'({text(e[2])}){e[1]}'
    if k == 'cast':
        b, s = base(e[1])
        return f'({b} {s}) ({text(e[2])})'
    if k == 'sizeof':
        return f'sizeof(({text(e[1])}) + 0)' if False else f'sizeof({text(e[1])})'
    if k == 'idx':
        return f'({text(e[1])})[{text(e[2])}]'
    if k == 'fld':
        return f'({text(e[2])}){e[1]}{e[3]}'
    if k == 'call':
        return f'({text(e[1])})({", ".join(text(a) for a in e[2])})' if e[1][0] != 'v' else f'{e[1][1]}({", ".join(text(a) for a in e[2])})'


OPS = ['&&', '||', '==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '=', '+=', '-=', '<<=']
ATOMS = [('v', n) for n, _ in VARS] + [('lit', '1'), ('lit', "'a'"), ('lit', '"s"'), ('os', 'OS.x'), ('v', 'ZK'), ('v', 'f0')]


def exhaustive():
    out = []
    for a, b in itertools.product(ATOMS, ATOMS):
        for op in OPS:
            out.append(('bin', op, a, b))
    for a in ATOMS:
        for op in ('!', '-', '~', '*', '&', '++', '--'):
            out.append(('pre', op, a))
        out += [('post', '++', a), ('idx', a, ('lit', '1')), ('sizeof', a), ('cast', 'char', a), ('cast', ('p', 'int'), a)]
        for f in STRUCT['zs_t']:
            out.append(('fld', '->', a, f))
        for n in range(5):
            out.append(('call', a, [('os', 'OS.x')] * n))
    for f in FUN:
        for n in range(6):
            out.append(('call', ('v', f), [('os', 'OS.x'), ('lit', '1'), ('lit', '"s"'), ('v', 'vi'), ('v', 'vx')][:n]))
    # what the type of a result allows: conditions and one more operator
    seen = set()
    res = []
    for e in out:
        try:
            t = typ(e)
        except Ill:
            continue
        key = (e[0], e[1] if e[0] in ('bin', 'pre', 'fld') else '', str(t)) + tuple(kind(root(typ(x))) for x in e[2:] if isinstance(x, tuple) and e[0] in ('bin', 'pre'))
        if key in seen:
            continue
        seen.add(key)
        res.append(e)
    for e in res:
        out.append(('bin', '&&', e, ('v', 'vi')))
        out.append(('pre', '*', e))
        out.append(('bin', '==', e, ('v', 'vi')))
        out.append(('bin', '<', ('v', 'vu'), e))
        out.append(('bin', '==', ('v', 've'), e))
        out.append(('bin', '==', ('v', 'vp'), e))
        out.append(('bin', '*', e, ('v', 'vi')))
        out.append(('bin', '-', e, ('v', 'vp')))
        out.append(('cond', e))
    return out


def rnd(r, d):
    k = r.random()
    if d == 0 or k < .15:
        return r.choice(ATOMS)
    if k < .5:
        return ('bin', r.choice(OPS[:18]), rnd(r, d - 1), rnd(r, d - 1))
    if k < .65:
        return ('pre', r.choice(['!', '-', '*', '&', '*', '&']), rnd(r, d - 1))
    if k < .72:
        return ('idx', rnd(r, d - 1), rnd(r, d - 1))
    if k < .8:
        return ('fld', r.choice(['.', '->']), rnd(r, d - 1), r.choice(list(STRUCT['zs_t'])))
    if k < .92:
        f = r.choice([('v', x) for x in FUN] + [('v', 'wf'), ('v', 'wv'), ('v', 'wg'), ('fld', '->', ('v', 'vy'), 'f')])
        n = len(ENV[f[1]][1]) if f[0] == 'v' and f[1] in FUN else 2
        n = max(0, n + r.choice([0, 0, 0, 1, -1]))
        return ('call', f, [rnd(r, d - 1) for _ in range(n)])
    if k < .96:
        return ('cast', r.choice(['int', 'char', 'double', ('p', 'char'), 'size_t', 'ti_t']), rnd(r, d - 1))
    return ('sizeof', rnd(r, d - 1))


def verdict(e):
    try:
        if e[0] == 'cond':
            return booly(typ(e[1]))
        if e[0] == 'for':
            return booly(typ(e[1]))
        typ(e)
        return True
    except Ill:
        return False


def stmt(e):
    if e[0] == 'cond':
        return f'while ({text(e[1])}) {{ OS.y(); }}'
    if e[0] == 'for':
        return f'for (OS.a; {text(e[1])}; OS.b) {{ OS.y(); }}'
    return f'OS.use({text(e)});' if not (e[0] == 'bin' and e[1].endswith('=') and e[1] not in ('==', '!=', '<=', '>=')) else text(e) + ';'


def program(stmts):
    ds = ' '.join(decl(n, t) for n, t in VARS)
    us = 'OS.use(' + ', '.join([n for n, _ in VARS] + ['ZK'] + list(FUN)) + ');'
    return DECL + 'int main() {\n' + ds + '\n' + us + '\n' + '\n'.join(stmts) + '\nreturn 0;\n}\n'


def compile_(che, d, src):
    p = os.path.join(d, 'x.c')
    with open(p, 'w') as f:
        f.write(src)
    try:
        r = subprocess.run([che, 'genc', 'x.c', os.path.join(d, 'out')], cwd=d, capture_output=True, text=True, errors='replace', timeout=20)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    return r.returncode == 0, (r.stdout + r.stderr)[:400]


def batch(a):
    """-> (number judged, failure text or None)"""
    che, tmp, es, until = a
    import time
    d = tempfile.mkdtemp(dir=tmp)
    good = [e for e in es if verdict(e)]
    n = 0
    for i in range(0, len(good), 60):
        part = good[i:i + 60]
        ok, msg = compile_(che, d, program([stmt(e) for e in part]))
        n += len(part)
        if not ok:
            for e in part:
                src = program([stmt(e)])
                ok, msg = compile_(che, d, src)
                if not ok:
                    return n, f'a well-typed statement is rejected: {stmt(e)}\nche genc: {msg}\n--- x.c\n{src}'
    for e in es:
        if verdict(e):
            continue
        if time.time() > until:
            break
        src = program([stmt(e)])
        ok, msg = compile_(che, d, src)
        n += 1
        if ok or 'panicked' in msg:
            return n, f'an ill-typed statement is {"accepted" if ok else "not diagnosed"}: {stmt(e)}\n{msg}\n--- x.c\n{src}'
    return n, None
