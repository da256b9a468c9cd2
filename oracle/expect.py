"""Reference semantics of che: what the C module of a che module has to contain.

Project() parses a che program with cfront (not with /repo's parser) and
`check()` compares the C files that `che genc` wrote with the documented
lowering. Every difference is (category, text). Names of exported things are
matched up to the module prefix: any prefix will do as long as it is the same
for one module everywhere and differs between modules."""
import hashlib
import os
import re

from . import cfront
from .cfront import P, ParseError, tokens, typedef_names

HEADERS = ('assert ctype errno limits math stdarg stdbool stddef stdint stdio stdlib string time setjmp signal').split()


class Reject(Exception):
    pass


class Mod:
    pass


class Project:
    def __init__(self, main, home):
        self.home = home
        self.mods = {}
        self.order = []
        self.load(main, [])

    def load(self, path, crumbs):
        if path in crumbs:
            raise Reject('import loop')
        if path in self.mods:
            return self.mods[path]
        m = Mod()
        m.path = path
        m.text = open(path, encoding='utf-8').read()
        m.toks = tokens(m.text)
        m.types = typedef_names(m.toks)
        m.imports = {}
        m.paths = []
        for k, v, _ in m.toks:
            if k == 'macro' and v.startswith('#import'):
                name = v[7:].strip()
                if name.endswith('.c'):
                    ip = os.path.join(os.path.dirname(path), name)
                else:
                    ip = f'{self.home}/lib/{name}.c'
                if not os.path.exists(ip):
                    raise Reject('no module ' + name)
                ns = os.path.basename(ip)[:-2]
                m.imports.setdefault(ns, ip)
                if ip not in m.paths:
                    m.paths.append(ip)
        for ip in m.paths:
            self.load(ip, crumbs + [path])
        nstypes = {ns: self.mods[ip].types for ns, ip in m.imports.items()}
        p = P(m.toks, types=m.types, nss=set(m.imports) | {'OS'}, nstypes=nstypes)
        m.elems = p.che_module()
        m.exports = {}
        m.pubs = {}
        for e in m.elems:
            if e[0] == 'enum' and e[1]:
                for n, _ in e[2]:
                    m.pubs[n] = 'const'
            elif e[0] in ('struct',) and e[1]:
                m.pubs[e[2]] = 'type'
            elif e[0] == 'typedef' and e[1]:
                m.pubs[e[4]] = 'type'
            elif e[0] == 'alias' and e[1]:
                m.pubs[e[3]] = 'type'
            elif e[0] == 'func' and e[1]:
                m.pubs[e[3][1]] = 'func'
        self.mods[path] = m
        self.order.append(path)
        return m


def Q(path, name):
    return ('Q', path, name)


class Lower:
    """che trees -> expected C trees for one module"""

    def __init__(self, proj, m):
        self.proj = proj
        self.m = m
        self.scopes = []
        self.calloc = False

    def fail(self, msg):
        raise Reject(msg)

    # -- names
    def name(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return n
        if self.m.pubs.get(n) in ('func', 'const') and n != 'main':
            return Q(self.m.path, n)
        return n

    def nsname(self, ns, n):
        if ns == 'OS':
            return n
        return Q(self.m.imports[ns], n)

    def tname(self, t):
        const, n = t[0], t[1]
        if n[0] == 'ns':
            r = self.nsname(n[1], n[2])
        else:
            r = n[1]
            if r not in cfront.CHETYPES and self.m.pubs.get(r) == 'type':
                r = Q(self.m.path, r)
        return (const, ('n', r)) + tuple(t[2:])

    def form(self, f, name=None):
        return (f[0], name or f[1], tuple(None if i is None else self.e(i) for i in f[2]))

    # -- expressions
    def e(self, x):
        k = x[0]
        if k in ('num', 'chr'):
            return x
        if k == 'str':
            return x
        if k == 'id':
            return ('id', self.name(x[1]))
        if k == 'ns':
            return ('id', self.nsname(x[1], x[2]))
        if k == 'bin':
            return ('bin', x[1], self.e(x[2]), self.e(x[3]))
        if k in ('pre', 'post'):
            return (k, x[1], self.e(x[2]))
        if k == 'cast':
            return ('cast', self.tname(x[1]), self.e(x[2]))
        if k == 'sizeof':
            return ('sizeof', x[1], self.tname(x[2]) if x[1] == 't' else self.e(x[2]))
        if k == 'call':
            f = x[1]
            if f[0] == 'id' and f[1] == 'calloc!':
                self.calloc = True
                f = ('id', 'calloc_or_panic', None)
            return ('call', self.e(f), tuple(self.e(a) for a in x[2]))
        if k == 'idx':
            return ('idx', self.e(x[1]), self.e(x[2]))
        if k == 'fld':
            return ('fld', x[1], self.e(x[2]), x[3])
        if k == 'comp':
            out = []
            for key, v in x[1]:
                if key and key[0] == 'idx':
                    key = ('idx', self.e(key[1]))
                out.append((key, self.e(v)))
            if not out:
                return ('comp', ((None, ('num', '0')),))
            return ('comp', tuple(out))
        raise AssertionError(k)

    # -- statements
    def body(self, b):
        self.scopes.append(set())
        r = tuple(self.s(x) for x in b)
        self.scopes.pop()
        return r

    def s(self, x):
        k = x[0]
        if k in ('break', 'continue'):
            return x
        if k == 'return':
            return ('return', None if x[1] is None else self.e(x[1]))
        if k == 'var':
            self.scopes[-1].add(x[2][1])
            return ('var', self.tname(x[1]), self.form(x[2]), None if x[3] is None else self.e(x[3]))
        if k == 'while':
            return ('while', self.e(x[1]), self.body(x[2]))
        if k == 'if':
            return ('if', self.e(x[1]), self.body(x[2]), None if x[3] is None else self.body(x[3]))
        if k == 'for':
            self.scopes.append(set())
            init = x[1]
            if init:
                if init[0] == 'decl':
                    self.scopes[-1].add(init[2][1])
                    init = ('decl', self.tname(init[1]), self.form(init[2]), self.e(init[3]))
                else:
                    init = ('expr', self.e(init[1]))
            r = ('for', init, None if x[2] is None else self.e(x[2]), None if x[3] is None else self.e(x[3]),
                 self.body(x[4]))
            self.scopes.pop()
            return r
        if k == 'switch':
            if x[1]:
                return self.strswitch(x)
            cases = tuple((tuple(self.e(v) for v in vals), self.body(b) + (('break',),)) for vals, b in x[3])
            return ('switch', False, self.e(x[2]), cases, None if x[4] is None else self.body(x[4]))
        if k == 'expr':
            e = x[1]
            if e[0] == 'call' and e[1][0] == 'id' and e[1][1] == 'panic':
                return self.panic(e)
            return ('expr', self.e(e))
        raise AssertionError(k)

    def strswitch(self, x):
        val = self.e(x[2])
        if not x[3]:
            self.fail('switch str without cases')

        def cond(vals):
            r = None
            for v in vals:
                c = ('pre', '!', ('call', ('id', 'strcmp'), (self.e(v), val)))
                r = c if r is None else ('bin', '||', r, c)
            return r
        rest = None if x[4] is None else self.body(x[4])
        for vals, b in reversed(x[3]):
            st = ('if', cond(vals), self.body(b), rest)
            rest = (st,)
        return st

    def panic(self, e):
        line, col = e[1][2]
        err = ('id', 'stderr')

        def fp(*a):
            return ('expr', ('call', ('id', 'fprintf'), (err,) + a))
        return ('block', (fp(('str', '*** panic at %s ***\\n'), ('str', f'{self.m.path}:{line}:{col}')),
                          fp(*[self.e(a) for a in e[2]]), fp(('str', '\\n')),
                          ('expr', ('call', ('id', 'exit'), (('num', '1'),)))))

    def params(self, ps):
        return tuple((self.tname(t), self.form(f)) for t, f in ps)

    # -- module level
    def module(self):
        out = {'func': {}, 'proto': {}, 'enum': [], 'typedef': {}, 'struct': {}, 'modvar': [], 'macro': []}
        m = self.m
        q = lambda pub, n: Q(m.path, n) if pub and n != 'main' else n
        for el in m.elems:
            k = el[0]
            if k == 'macro':
                if el[1] not in ('type', 'link'):
                    out['macro'].append(('#' + el[1] + ' ' + el[2].strip()))
            elif k == 'enum':
                out['enum'].append((el[1], tuple((q(el[1], n), None if v is None else self.e(v)) for n, v in el[2])))
            elif k == 'struct':
                fs = []
                for f in el[3]:
                    if f[0] == 'field':
                        fs.append(('field', self.tname(f[1]), self.form(f[2])))
                    else:
                        fs.append(('union', self.form(f[1]), tuple((self.tname(t), self.form(g)) for t, g in f[2])))
                out['struct'][q(el[1], el[2])] = (el[1], tuple(fs))
            elif k == 'alias':
                out['typedef'][q(el[1], el[3])] = (el[1], ((False, ('n', 'struct ' + el[2])), 0, None, None))
            elif k == 'typedef':
                _, pub, t, stars, name, ps, size = el
                if ps is not None:
                    ps = (tuple(self.tname(x) for x in ps[0]), ps[1])
                out['typedef'][q(pub, name)] = (pub, (self.tname(t), stars, ps, size))
            elif k == 'modvar':
                _, t, f, v = el
                out['modvar'].append((self.tname(t), self.form(f), self.e(v)))
            elif k == 'func':
                _, pub, t, f, ps, var, body = el
                name = f[1]
                rt = self.tname(t)
                rf = self.form(f, q(pub, name))
                rp = self.params(ps)
                self.scopes.append({g[1] for _, g in ps})
                b = self.body(body)
                self.scopes.pop()
                static = not pub and name != 'main'
                out['func'][rf[1]] = (static, rt, rf, rp, var, b)
                if name != 'main':
                    out['proto'][rf[1]] = (static, rt, rf, rp, var)
        return out


class Names:
    """one prefix per module, injective"""

    def __init__(self):
        self.pref = {}

    def match(self, want, got):
        if isinstance(want, str):
            return want == got
        _, path, name = want
        if not isinstance(got, str) or not got.endswith('__' + name):
            return False
        p = got[:-len(name) - 2]
        if path in self.pref:
            return self.pref[path] == p
        if p in self.pref.values() or not p:
            return False
        self.pref[path] = p
        return True


class Diff:
    def __init__(self, names, where):
        self.names = names
        self.where = where
        self.out = []

    def add(self, cat, msg):
        self.out.append((cat, f'{self.where}: {msg}'))

    def eq(self, want, got):
        """structural equality of expression-level trees"""
        if isinstance(want, tuple) and want and want[0] == 'Q':
            return self.names.match(want, got)
        if isinstance(want, tuple):
            if not isinstance(got, tuple):
                return False
            if want and want[0] == 'id':
                return bool(got) and got[0] == 'id' and self.eq(want[1], got[1])
            return len(want) == len(got) and all(self.eq(a, b) for a, b in zip(want, got))
        return want == got

    def need(self, cat, what, want, got):
        if not self.eq(want, got):
            self.add(cat, f'{what}: want {show(want)}, got {show(got)}')
            if cat != 'vis' and plain(want) == plain(got):
                # nothing but the names differs
                self.add('vis', f'{what}: want {show(want)}, got {show(got)}')

    def body(self, cat, want, got):
        if got is None or want is None:
            if want is not got:
                self.add(cat, f'body: want {show(want)}, got {show(got)}')
            return
        if len(want) != len(got):
            self.add(cat, f'{len(want)} statements expected, got {len(got)}: {show(got)[:300]}')
            return
        for a, b in zip(want, got):
            self.stmt(cat, a, b)

    def stmt(self, cat, w, g):
        k = w[0]
        if k != g[0]:
            c = cat
            if k in ('switch', 'block') or g[0] in ('switch', 'block'):
                c = 'switch' if 'switch' in (k, g[0]) else 'panic'
            self.add(c, f'{k} statement became {g[0]}: {show(g)[:300]}')
            return
        if k == 'return':
            self.need('expr' if w[1] and g[1] else cat, 'return', w[1], g[1])
        elif k == 'expr':
            self.need('expr', 'statement', w[1], g[1])
        elif k == 'var':
            self.need('decl', 'local type', w[1], g[1])
            self.need('decl', 'local form', w[2], g[2])
            self.need('expr', 'initial value', w[3], g[3])
        elif k == 'while':
            self.need('expr', 'while condition', w[1], g[1])
            self.body(cat, w[2], g[2])
        elif k == 'if':
            self.need('expr', 'if condition', w[1], g[1])
            self.body(cat, w[2], g[2])
            self.body(cat, w[3], g[3])
        elif k == 'for':
            self.need(cat, 'for init', w[1], g[1])
            self.need(cat, 'for condition', w[2], g[2])
            self.need(cat, 'for action', w[3], g[3])
            self.body(cat, w[4], g[4])
        elif k == 'switch':
            self.need('switch', 'switch value', w[2], g[2])
            if len(w[3]) != len(g[3]):
                self.add('switch', f'{len(w[3])} cases expected, got {len(g[3])}')
            for (wv, wb), (gv, gb) in zip(w[3], g[3]):
                self.need('switch', 'case values', wv, gv)
                self.body('switch', wb, gb)
            if (w[4] is None) != (g[4] is None):
                self.add('switch', 'default case')
            elif w[4] is not None:
                gd = g[4]
                if len(gd) == len(w[4]) + 1 and gd[-1] == ('break',):
                    gd = gd[:-1]
                self.body('switch', w[4], gd)
        elif k == 'block':
            self.need('panic', 'block', w, g)
        else:
            self.need(cat, k, w, g)


def plain(x):
    """a tree without module prefixes"""
    if isinstance(x, tuple):
        return x[2] if x and x[0] == 'Q' else tuple(plain(a) for a in x)
    if isinstance(x, str) and '__' in x and not x.startswith('__'):
        return x.split('__', 1)[1]
    return x


def show(x):
    s = repr(x)
    return s if len(s) < 600 else s[:600] + '...'


def strip(x):
    """drop source positions and adjust shapes of a parsed C tree"""
    if isinstance(x, tuple):
        if x and x[0] == 'id' and len(x) == 3:
            return ('id', x[1])
        if x and x[0] == 'expr' and len(x) == 3:
            return ('expr', strip(x[1]))
        return tuple(strip(a) for a in x)
    return x


def outfile(dirpath, path):
    return os.path.join(dirpath, hashlib.md5(path.encode()).hexdigest() + '.c')


def check(proj, outdir, only=None):
    """differences between the C in outdir and the lowering of the project"""
    diffs = []
    names = Names()
    wants = {}
    for path in proj.order:
        wants[path] = Lower(proj, proj.mods[path])
        wants[path].out = wants[path].module()
    for path in proj.order:
        f = outfile(outdir, path)
        if not os.path.exists(f):
            diffs.append(('module', f'{path}: no C file'))
            continue
        d = Diff(names, path)
        diffs += d.out if only and path not in only else check_module(proj, path, wants, open(f).read(), d)
    return diffs


def ostypes(x):
    """names used as OS.<type>"""
    out = set()
    if isinstance(x, (tuple, list)):
        if len(x) >= 2 and isinstance(x[0], bool) and isinstance(x[1], tuple) and x[1][:2] == ('ns', 'OS'):
            out.add(x[1][2])
        for a in x:
            out |= ostypes(a)
    return out


def typewords(x):
    """names in the places of types"""
    out = []
    if isinstance(x, tuple):
        if len(x) >= 2 and isinstance(x[0], bool) and isinstance(x[1], tuple) and x[1][:1] == ('n',):
            out.append(x[1][1])
        for a in x:
            out += typewords(a)
    return out


def reach(proj, path):
    """transitive imports"""
    seen = []

    def go(p):
        for ip in proj.mods[p].paths:
            if ip not in seen:
                seen.append(ip)
                go(ip)
    go(path)
    return seen


def check_module(proj, path, wants, text, d):
    try:
        toks = tokens(text)
    except ParseError as e:
        d.add('lex', f'generated C: {e}')
        return d.out
    known = set()
    for p in [path] + reach(proj, path):
        known |= {v[5:].strip() for k, v, _ in proj.mods[p].toks if k == 'macro' and v.startswith('#type')}
        known |= ostypes(proj.mods[p].elems)
    p = P(toks, types=known, mode='c')
    try:
        els = [strip(x) for x in p.c_module()]
    except ParseError as e:
        d.add('syntax', f'generated C does not parse: {e}')
        return d.out
    w = wants[path]
    want = w.out
    direct = list(proj.mods[path].paths)
    trans = reach(proj, path)
    g = {'func': [], 'proto': [], 'enum': [], 'typedef': [], 'structdef': [], 'modvar': [], 'macro': [],
         'fwdstruct': []}
    for e in els:
        g[e[0]].append(e)
    # functions
    gf = list(g['func'])
    cal = [e for e in gf if e[3][1] == 'calloc_or_panic']
    gf = [e for e in gf if e[3][1] != 'calloc_or_panic']
    if w.calloc:
        check_calloc(cal, d)
    if len(gf) != len(want['func']):
        d.add('decl', f'{len(want["func"])} functions expected, got {len(gf)}')
    for name, (static, rt, rf, ps, var, body) in want['func'].items():
        hit = [e for e in gf if d.names.match(name, e[3][1])]
        if len(hit) != 1:
            d.add('vis', f'function {name}: {len(hit)} definitions')
            continue
        _, gs, gt, gform, gps, gvar, gbody = hit[0]
        if gs != static:
            d.add('vis', f'function {name}: static={gs}')
        d.need('decl', f'{name}: return type', rt, gt)
        d.need('decl', f'{name}: form', rf, gform)
        d.need('decl', f'{name}: parameters', ps, gps)
        d.need('decl', f'{name}: variadic', var, gvar)
        d.body('stmt', body, gbody)
    # prototypes
    for name, pr in want['proto'].items():
        hit = [e for e in g['proto'] if d.names.match(name, e[3][1])]
        if not hit:
            d.add('decl', f'{name}: no prototype')
        for e in hit:
            if e[1] != pr[0]:
                d.add('vis', f'prototype {name}: static={e[1]}')
            d.need('decl', f'{name}: prototype', pr[1:], e[2:])
    used = len(want['proto'])
    for p in trans:
        for name, pr in wants[p].out['proto'].items():
            hit = [e for e in g['proto'] if d.names.match(name, e[3][1])] if isinstance(name, tuple) else []
            if pr[0]:
                continue
            if not hit and p in direct:
                d.add('vis', f'{name}: imported function has no prototype')
            for e in hit:
                d.need('vis', f'{name}: imported prototype', pr, e[1:])
    allowed = [n for n in want['proto']]
    for p in trans:
        allowed += [n for n, pr in wants[p].out['proto'].items() if not pr[0]]
    for e in g['proto']:
        if not any(d.names.match(n, e[3][1]) for n in allowed):
            d.add('vis', f'unexpected prototype of {e[3][1]}')
    # protos come before definitions
    kinds = [e[0] for e in els if not (e[0] == 'func' and e[3][1] == 'calloc_or_panic')]
    if 'func' in kinds and 'proto' in kinds[kinds.index('func'):]:
        d.add('decl', 'a prototype after a function definition')
    # a struct, a prototype and a variable come after the typedefs they mention
    alias = {e[3] for e in g['typedef']}
    seen = set()
    for e in els:
        if e[0] == 'typedef':
            seen.add(e[3])
        elif e[0] in ('structdef', 'proto', 'modvar'):
            for t in typewords(e):
                if t in alias and t not in seen:
                    d.add('decl', f'{e[0]}: the type {t} is declared after its use')
    # module variables
    gv = g['modvar']
    if len(gv) != len(want['modvar']):
        d.add('decl', f'{len(want["modvar"])} module variables expected, got {len(gv)}')
    for a, b in zip(want['modvar'], gv):
        if not b[1]:
            d.add('vis', f'module variable {b[3][1]} is not static')
        d.need('decl', 'module variable type', a[0], b[2])
        d.need('decl', 'module variable', a[1], b[3])
        d.need('expr', 'module variable value', a[2], b[4])
    # enums
    need = [(path, x) for x in want['enum']]
    opt = []
    for p in trans:
        for x in wants[p].out['enum']:
            if x[0]:
                (need if p in direct else opt).append((p, x))
    left = list(g['enum'])
    for p, (pub, ents) in need + opt:
        hit = next((e for e in left if len(e[1]) == len(ents) and
                    all(d.names.match(a[0], b[0]) for a, b in zip(ents, e[1]))), None)
        if hit is None:
            if (p, (pub, ents)) in need:
                d.add('vis' if p != path else 'decl', f'no enum {show(ents)}')
            continue
        left.remove(hit)
        for a, b in zip(ents, hit[1]):
            d.need('expr', f'enum value {a[0]}', a[1], b[1])
    if left:
        d.add('vis', f'unexpected enum {show(left[0])}')
    # typedefs and structs
    tds = list(g['typedef'])
    structs = {e[1]: e[2] for e in g['structdef']}
    fwd = {e[1] for e in g['fwdstruct']}
    seen = []
    for p in [path] + trans:
        o = wants[p].out
        for name, (pub, td) in o['typedef'].items():
            if p != path and not pub:
                continue
            hit = [e for e in tds if d.names.match(name, e[3])]
            if not hit:
                if p == path or p in direct:
                    d.add('decl' if p == path else 'vis', f'no typedef {name}')
                continue
            seen += hit
            for e in hit:
                d.need('decl', f'typedef {name}', td, (e[1], e[2], e[4], e[5]))
        for name, (pub, fs) in o['struct'].items():
            if p != path and not pub:
                continue
            hit = [e for e in tds if d.names.match(name, e[3])]
            if not hit:
                if p == path or p in direct:
                    d.add('decl' if p == path else 'vis', f'no typedef {name}')
                continue
            seen += hit
            t = hit[0][1][1][1]
            if not t.startswith('struct ') or t[7:] not in structs:
                d.add('decl', f'{name} is not a struct: {t}')
                continue
            d.need('decl', f'struct {name}', fs, structs.pop(t[7:]))
    for e in tds:
        if e not in seen:
            d.add('vis', f'unexpected typedef {e[3]}')
    for n in structs:
        d.add('vis', f'unexpected struct {n}')
    # macros
    gm = [' '.join(e[1].split()) for e in g['macro']]
    it = iter(gm)
    for x in want['macro']:
        if ' '.join(x.split()) not in it:
            d.add('decl', f'macro lost: {x}')
            break
    for h in HEADERS:
        if f'#include <{h}.h>' not in gm:
            d.add('decl', f'header {h} is not included')
    return d.out


def check_calloc(defs, d):
    ok = False
    if len(defs) == 1:
        _, st, t, f, ps, var, body = defs[0]
        ok = st and t == (False, ('n', 'void')) and f[0] == 1 and len(ps) == 2 and not var and \
            all(p[0] == (False, ('n', 'size_t')) for p in ps)
        if ok:
            a, b = ps[0][1][1], ps[1][1][1]
            flat = repr(body)
            ok = f"('call', ('id', 'calloc'), (('id', '{a}'), ('id', '{b}')))" in flat and \
                "('call', ('id', 'exit'), (('num', '1'),))" in flat and body[-1][0] == 'return'
    if not ok:
        d.add('panic', f'calloc_or_panic: {show(defs)}')
