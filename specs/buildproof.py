"""Contracts of the project loader (src/build.rs, src/preparser.rs, src/resolve.rs).

resolve_import(base, name): a name ending in .c is the file of that name beside
    base, any other name is lib/<name>.c in che's home; refused when there is no
    such file; its namespace is the file name without ".c".
basename(path):  what stands behind the last slash.
get_typename:    the name that the parser's rule for a typedef gives it.
skip_brackets:   to behind the brace that belongs to the next one.
preparse(path):  every import of the file, resolved, in order; every type name
    that the file declares (typedef, #type), in order; refused on an error token.
build::preparse(cache, path): the head of path, read once.
load_tree(path, crumbs): path, then the trees of its imports in order, each
    loaded with path added to the crumbs; refused when path is among the crumbs
    or a part of it is refused.
uniq(ss):        the first occurrence of every text, in order.
translate_mods:  the translations, in order, each made with the earlier ones.
parse_project:   the reversed tree without repetitions; then parsed, then
    translated in that order.
Lemma (over the contracts): in a reversed tree without repetitions every module
    stands once, behind everything it imports."""
import z3
from mirv.engine import *
from .parseproof import Pr, strip, LX, N, P0

PP = 'preparser::'
RS = 'resolve::'
BD = 'build::'


class Bad(Exception):
    pass


def called(P, fn):
    return fn in P.byname and fn in P.called()


class BP(Pr):
    def __init__(self, P, unroll=None, contracts=(), budget=60.0):
        self.P = P
        self.eng = eng = Engine(P, budget=budget, max_paths=20000)
        if unroll:
            eng.unroll = unroll
        eng.missing = []
        eng.axioms.append(z3.And(P0 >= 0, P0 <= N, N < 2 ** 40))
        self.tt = P.type_named('lexer::Token')
        self.subs = {}
        self.n = 0
        for m in ('get', 'unget', 'peek', 'peekn', 'more', 'follows', 'eat', 'pos'):
            if LX + m in P.byname:
                eng.contracts[LX + m] = getattr(self, 'lx_' + m)
        if 'buf::Pos::fmt' in P.byname:
            eng.contracts['buf::Pos::fmt'] = lambda eng, st, args: [(st, Str((Atom(f'msg#{next(eng.uid)}'),)))]
        if PP + 'with_comment' in P.byname:
            eng.contracts[PP + 'with_comment'] = lambda eng, st, args: [(st, Str((Atom(f'msg#{next(eng.uid)}'),)))]
        files(eng)
        for fn in contracts:
            if not called(P, fn):
                eng.missing.append(fn)

    def result(self, fn, v, err=False):
        rt = self.rt(fn)
        if err:
            vi = self.P.variant(rt, 'Err')
            return Adt(rt, vi, (self.eng.make(self.eng.T[rt]['v'][vi]['f'][0]['t'], f'err#{next(self.eng.uid)}'),))
        return Adt(rt, self.P.variant(rt, 'Ok'), (v,))

    def oktype(self, fn):
        rt = self.rt(fn)
        return self.eng.T[rt]['v'][self.P.variant(rt, 'Ok')]['f'][0]['t']

    def partial(self, fn, cond, val):
        """a contract: Ok(val) when cond, else Err"""
        def c(eng, st, args):
            ok = cond(st, args)
            y, n = self.split(st, ok)
            return ([(y, self.result(fn, val(y, args)))] if y else []) + ([(n, self.result(fn, None, True))] if n else [])
        return c

    # comparing
    def same(self, st, a, b, what):
        self.n += 1
        a, b = strip(a), strip(b)
        if k(a) == k(b):
            return
        if isinstance(a, Str) and isinstance(b, Str):
            c = self.eng.streq(a, b)
            if c is True or (c is not False and self.eng.entails(st, c)):
                return
        raise Bad(f'{what}: {a!r} instead of {b!r}'[:500])

    def samelist(self, st, a, b, what):
        a = strip(a)
        self.n += 1
        if isinstance(a, Seq) and a.concrete():
            xs = a.items()
            if len(xs) != len(b):
                raise Bad(f'{what}: {len(xs)} instead of {len(b)}: {a!r}'[:500])
            for i, (x, y) in enumerate(zip(xs, b)):
                self.same(st, x, y, f'{what} {i}')
            return
        raise Bad(f'{what}: {a!r}'[:500])

    def outcomes(self, fn, args, st, rule):
        """rule(st, result variant, value, ask) raises Bad; ask(c) splits"""
        bad, oks = [], 0
        for o in self.eng.run(fn, args, st):
            work = [o.state]
            while work:
                s = work.pop()
                if not self.eng.feasible(s):
                    continue

                def ask(c):
                    self.n += 1
                    if isinstance(c, bool):
                        return c
                    if self.eng.check(s.pc + (c,)) == z3.unsat:
                        return False
                    if self.eng.check(s.pc + (NOT(c),)) == z3.unsat:
                        return True
                    raise Open(c)
                try:
                    rule(s, o, ask)
                    oks += 1
                except Open as e:
                    work += [s.copy().assume(e.c), s.copy().assume(NOT(e.c))]
                except Bad as e:
                    bad.append(f'{fn}: {e}; path: {[str(z3.simplify(c))[:60] for c in s.pc if not isinstance(c, bool)][-8:]}')
            if len(bad) > 3:
                break
        if not oks and not bad:
            raise Unsupported('no outcome')
        return self.n, bad, self.eng

    def ok(self, o):
        """the value of an Ok result, or None"""
        if o.kind == 'panic':
            return None
        r = strip(o.ret)
        if not isinstance(r, Adt):
            raise Unsupported('unknown result')
        return strip(r.f[0]) if self.eng.T[r.t]['v'][r.v]['n'] == 'Ok' else None


class Open(Exception):
    def __init__(self, c):
        self.c = c


def files(eng):
    """the file system and the environment, as far as the loader looks at them"""
    M = eng.models
    S = lambda st, v: strip(eng.load(st, v))

    def res(call, ok, v):
        vi = eng.P.variant(call.rty, 'Ok' if ok else 'Err')
        t = eng.T[call.rty]['v'][vi]['f'][0]['t']
        return Adt(call.rty, vi, (v if v is not None else Op('opaque', name='io', t=t),))
    M['std::path::Path::new'] = lambda e, st, a, call: SRef(S(st, a[0]))
    M['std::path::Path::parent'] = lambda e, st, a, call: eng.option(eng, call.rty, SRef(directory(S(st, a[0]))))
    M['std::path::Path::join'] = lambda e, st, a, call: joined(S(st, a[0]), S(st, a[1]))
    M['std::path::Path::to_str'] = lambda e, st, a, call: eng.option(eng, call.rty, SRef(S(st, a[0])))

    def metadata(e, st, a, call):
        c = there(S(st, a[0]))
        out = []
        for ok in (True, False):
            cc = c if ok else NOT(c)
            if eng.feasible(st, cc):
                out.append((st.copy().assume(cc), res(call, ok, None)))
        return out
    M['std::fs::metadata'] = metadata

    def var(e, st, a, call):
        c = z3.Bool('CHELANG_HOME is set')
        s = S(st, a[0])
        if s.lit() != 'CHELANG_HOME':
            raise Unsupported('another variable')
        return [(st.copy().assume(c), res(call, True, Str((Atom('$CHELANG_HOME'),)))), (st.copy().assume(NOT(c)), res(call, False, None))]
    M['std::env::var'] = var


def directory(s):
    return Str((Atom(f'directory of {s.p}'),))


def joined(a, b):
    return Str((Atom(f'{a.p} joined with {b.p}'),))


def there(s):
    return z3.Bool(f'there is a file {s.p}')


def text(n):
    return Str((Atom(n),))


# ---------------------------------------------------------------- resolve
def run_resolve(P):
    fn, bn = RS + 'resolve_import', RS + 'basename'
    b = BP(P, contracts=(bn, RS + 'homepath'))
    eng = b.eng
    base, name, home = text('base'), text('name'), text('home')
    if RS + 'homepath' in P.byname:
        eng.contracts[RS + 'homepath'] = lambda eng, st, args: [(st, home)]
    last = lambda s: Str((Atom(f'behind the last slash of {s.p}'),))
    if bn in P.byname:
        def c(eng, st, args):
            s = last(strip(eng.load(st, args[0])))
            return [(st, s)]
        eng.contracts[bn] = c
    cc = z3.Bool(f"ends_with({[k(name), k(Str(('.c',)))]})")

    def rule(st, o, ask):
        path = joined(directory(base), name) if ask(cc) else Str((home.p[0], '/lib/', name.p[0], '.c'))
        v = b.ok(o)
        if not ask(there(path)):
            if v is not None:
                raise Bad('accepts a missing file')
            return
        if v is None:
            raise Bad('refuses an existing file')
        b.same(st, eng.get(v, 'path'), path, 'path')
        ns = strip(eng.get(v, 'ns'))
        f = last(path)
        a = ns.p[0] if len(ns.p) == 1 and isinstance(ns.p[0], Atom) else None
        b.n += 1
        if a is None or not a.info or a.info[0] != 'substring':
            raise Unsupported(f'namespace {ns!r}')
        if k(a.info[1]) != k(f) or not isinstance(a.info[2], int) or a.info[2] != 0:
            raise Bad(f'namespace {ns!r}')
        if not eng.entails(st, I(a.info[3]) == z3.Int('length of the file name') - 2):
            raise Bad(f'namespace {ns!r}')
    f0 = lambda st, v: None
    # the length of the file name, whichever path it is
    import mirv.models as md
    old = eng.models['std::string::String::len']

    def ln(e, st, a, call):
        s = strip(eng.load(st, a[0]))
        if len(s.p) == 1 and isinstance(s.p[0], Atom) and s.p[0].name.startswith('behind the last slash'):
            return Int(z3.Int('length of the file name'))
        return old(e, st, a, call)
    eng.axioms.append(z3.And(z3.Int('length of the file name') >= 2, z3.Int('length of the file name') < 2 ** 40))
    eng.models['std::string::String::len'] = ln
    eng.models['core::str::<impl str>::len'] = ln
    return b.outcomes(fn, [SRef(base), SRef(name)], State(), rule)


def run_home(P):
    fn = RS + 'homepath'
    b = BP(P)

    def rule(st, o, ask):
        if o.kind != 'return':
            raise Bad('panics')
        b.same(st, o.ret, text('$CHELANG_HOME') if ask(z3.Bool('CHELANG_HOME is set')) else Str(('.',)), 'home')
    return b.outcomes(fn, [], State(), rule)


def run_basename(P, m):
    fn = RS + 'basename'
    b = BP(P)
    ps = [Atom(f'part{i}', ('without', '/.')) for i in range(m + 1)]
    parts = [ps[0]]
    for p in ps[1:]:
        parts += ['/', p]

    def rule(st, o, ask):
        if o.kind != 'return':
            raise Bad('panics')
        b.same(st, o.ret, Str((ps[-1], '.c')), 'file name')
    return b.outcomes(fn, [SRef(Str(tuple(parts) + ('.c',)))], State(), rule)


# ---------------------------------------------------------------- preparser
def setkinds(b, st, kinds, base=P0):
    """the tokens from base on: a kind, or a tuple of kinds it does not have"""
    eng = b.eng
    for i, kd in enumerate(kinds):
        x = b.kind(base + i)
        if isinstance(kd, tuple):
            for y in kd:
                st.assume(NOT(eng.streq(x, Str((y,)))))
        else:
            st.assume(eng.streq(x, Str((kd,))))
    st.assume(base + len(kinds) <= N)


def brackets(b):
    """contract of skip_brackets at a '{': to behind the matching brace"""
    fn = PP + 'skip_brackets'
    if not called(b.P, fn):
        return

    def c(eng, st, args):
        p = b.cur(st)
        c0 = AND(p < N, eng.streq(b.kind(p), Str(('{',))))
        y, n = b.split(st, c0)
        out = []
        if n:
            out.append((n, Outcome('panic', n, why='no brace')))
        if y:
            q = z3.Int(f'end {{}}@({z3.simplify(I(p))})')
            y.assume(z3.And(q > p, q <= N))
            b.move(y, q)
            out.append((y, UNIT))
        return out
    b.eng.contracts[fn] = c


def run_typename_struct(P):
    fn = PP + 'get_typename'
    b = BP(P, unroll=3)
    brackets(b)
    eng = b.eng
    st, args = b.start(fn)
    setkinds(b, st, ['{'])
    q = z3.Int('end {}@(p0)')

    def rule(st, o, ask):
        v = b.ok(o)
        good = ask(AND(q + 1 < N, eng.streq(b.kind(q), Str(('word',))), eng.streq(b.kind(q + 1), Str((';',)))))
        if not good:
            return
        if v is None:
            raise Bad('refuses a struct')
        b.same(st, v, b.content(q), 'type name')
        b.n += 1
        if not eng.entails(st, I(b.cur(st)) == q + 2):
            raise Bad('stops elsewhere')
    return b.outcomes(fn, args, st, rule)


def run_typename(P, m, suffix):
    """m tokens, the name, then nothing, an array size or parameters"""
    fn = PP + 'get_typename'
    suf = {'plain': [], 'array': ['[', 'num', ']'], 'func': ['(', ')'], 'func1': ['(', (';', '(', ')'), ')'], 'func2': ['(', (';', '(', ')'), (';', '(', ')'), ')']}[suffix]
    kinds = [('{', '}', ';', '(', ')')] * m + ['word'] + suf + [';']
    b = BP(P, unroll=len(kinds) + 1)
    brackets(b)
    eng = b.eng
    st, args = b.start(fn)
    setkinds(b, st, kinds)

    def rule(st, o, ask):
        v = b.ok(o)
        if v is None:
            raise Bad('refuses a typedef')
        b.same(st, v, b.content(P0 + m), 'type name')
        b.n += 1
        if not eng.entails(st, I(b.cur(st)) == P0 + len(kinds)):
            raise Bad('stops elsewhere')
    return b.outcomes(fn, args, st, rule)


def run_skip(P, shape):
    """shape: items between the braces, '.' a token, 'B' a pair of braces"""
    fn = PP + 'skip_brackets'
    b = BP(P, unroll=len(shape) + 1)
    brackets(b)
    eng = b.eng
    st, args = b.start(fn)
    setkinds(b, st, ['{'])
    p = P0 + 1
    for x in shape:
        if x == '.':
            setkinds(b, st, [('{', '}')], p)
            p = p + 1
        else:
            setkinds(b, st, ['{'], p)
            p = z3.Int(f'end {{}}@({z3.simplify(I(p))})')
    setkinds(b, st, ['}'], p)

    def rule(st, o, ask):
        if o.kind != 'return':
            raise Bad(f'panics: {o.why}')
        b.n += 1
        if not eng.entails(st, I(b.cur(st)) == p + 1):
            raise Bad('stops elsewhere')
    return b.outcomes(fn, args, st, rule)


def run_nested(P, kinds):
    """recursion and all, over tokens of which the kinds are given"""
    fn = PP + 'skip_brackets'
    b = BP(P, unroll=len(kinds) + 1)
    eng = b.eng
    st, args = b.start(fn)
    kinds = [('{', '}') if x == '.' else x for x in kinds]
    setkinds(b, st, kinds)

    def rule(st, o, ask):
        if o.kind != 'return':
            raise Bad(f'panics: {o.why}')
        b.n += 1
        if not eng.entails(st, I(b.cur(st)) == P0 + len(kinds)):
            raise Bad('stops elsewhere')
    return b.outcomes(fn, args, st, rule)


def run_preparse(P, m):
    fn = PP + 'preparse'
    rs, gt, ff = RS + 'resolve_import', PP + 'get_typename', 'lexer::for_file'
    b = BP(P, unroll=m + 1, contracts=(rs, gt, ff))
    eng = b.eng
    if eng.missing:
        raise Unsupported(f'no {eng.missing}')
    path = text('path')
    isfile = z3.Bool('file can be read')

    def forfile(st, args):
        b.same(st, eng.load(st, args[0]), path, 'file that is read')
        return isfile
    eng.contracts[ff] = b.partial(ff, forfile, lambda st, args: Op('lexer'))
    mref = b.oktype(rs)
    rname = lambda base, name: f'import {k(base)} {k(name)}'
    rcond = lambda base, name: z3.Bool('found ' + rname(base, name))
    eng.contracts[rs] = b.partial(rs, lambda st, a: rcond(strip(eng.load(st, a[0])), strip(eng.load(st, a[1]))),
                                  lambda st, a: eng.make(mref, rname(strip(eng.load(st, a[0])), strip(eng.load(st, a[1])))))

    def typename(eng, st, args):
        p = b.cur(st)
        ok, end, nm = b.sub('typedef', p)
        y, n = b.split(st, ok)
        out = []
        if y:
            b.move(y, end)
            out.append((y, b.result(gt, text(nm))))
        if n:
            out.append((n, b.result(gt, None, True)))
        return out
    eng.contracts[gt] = typename
    st = State()
    st.ghost['p'] = Int(P0)
    st.assume(P0 + m >= N)

    def rule(st, o, ask):
        v = b.ok(o)
        im, ty = [], []
        p = P0
        good = ask(isfile)
        while good and ask(p < N):
            is_ = lambda s: ask(eng.streq(b.kind(p), Str((s,))))
            if is_('error'):
                good = False
            elif is_('import'):
                if ask(rcond(path, b.content(p))):
                    im.append(eng.make(mref, rname(path, b.content(p))))
                else:
                    good = False
            elif is_('typedef'):
                ok, end, nm = b.sub('typedef', p + 1)
                if ask(ok):
                    ty.append(text(nm))
                    p = end
                    continue
                good = False
            elif is_('macro') and ask(z3.Bool(f"starts_with({[k(b.content(p)), k(Str(('#type',)))]})")):
                ty.append(('hint', b.content(p)))
            p = p + 1
        if not good:
            if v is not None:
                raise Bad('accepts what has to be refused')
            return
        if v is None:
            if o.kind == 'panic' and any(isinstance(t, tuple) for t in ty):
                return       # '#type' alone
            raise Bad(f'refuses: {o.kind} {o.why}')
        b.same(st, eng.get(v, 'filepath'), path, 'path')
        b.samelist(st, eng.get(v, 'imports'), im, 'import')
        got = strip(eng.get(v, 'typedefs'))
        if not got.concrete() or len(got.items()) != len(ty):
            raise Bad(f'types {got!r}')
        for x, y in zip(got.items(), ty):
            x = strip(x)
            if isinstance(y, tuple):
                a = x.p[0] if len(x.p) == 1 else None
                b.n += 1
                if not (isinstance(a, Atom) and k(y[1]) == k(hinted(a))):
                    raise Bad(f'#type {x!r}')
            else:
                b.same(st, x, y, 'type')
    return b.outcomes(fn, [SRef(path)], st, rule)


def hinted(a):
    """the directive of which this is the trimmed rest"""
    i = a.info
    if not i or i[0] != 'trim' or len(i[1].p) != 1:
        return None
    i = i[1].p[0].info
    if not i or i[0] != 'sub' or 'RangeFrom' not in i[2] or i[3] not in ([5], [6]):
        return None
    return i[1]


# ---------------------------------------------------------------- build
def run_cached(P):
    """the head of path, read once"""
    fn, pp = BD + 'preparse', PP + 'preparse'
    b = BP(P, contracts=(pp,))
    eng = b.eng
    if eng.missing:
        raise Unsupported('no preparse')
    mt = b.oktype(pp)
    path = text('path')
    ok = z3.Bool('read path')
    eng.contracts[pp] = b.partial(pp, lambda st, a: (b.same(st, eng.load(st, a[0]), path, 'file'), ok)[1], lambda st, a: eng.make(mt, 'head of path'))
    ct = eng.T[P.fn(fn)['locals'][1]]['t']
    st = State()
    cell = ('H', next(eng.uid))
    st.heap[cell] = Op('map', base='cache', ins=(), t=ct)
    has, cv = eng.mapsym(st.heap[cell], path)

    def rule(st, o, ask):
        v = b.ok(o)
        if ask(has):
            if v is None:
                raise Bad('refuses what is there')
            return b.same(st, v, cv, 'head')
        if not ask(ok):
            if v is not None:
                raise Bad('accepts an unreadable file')
            return
        if v is None:
            raise Bad('refuses')
        b.same(st, v, eng.make(mt, 'head of path'), 'head')
        m = st.heap[cell]
        b.n += 1
        if len(m.ins) != 1 or k(strip(m.ins[0][0])) != k(path) or k(strip(m.ins[0][1])) != k(eng.make(mt, 'head of path')):
            raise Bad(f'cache {m.ins!r}')
    return b.outcomes(fn, [MRef(cell), SRef(path)], st, rule)


def tree(n):
    return f'tree of {n}'


def run_tree(P, nimp, ncr):
    fn, pp = BD + 'load_tree', BD + 'preparse'
    b = BP(P, contracts=(pp, fn))
    eng = b.eng
    if eng.missing:
        raise Unsupported('no load_tree')
    eng.lens = lambda n: nimp if n.endswith('.imports') else None
    path = text('path')
    crumbs = [text(f'crumb{i}') for i in range(ncr)]
    vt = b.oktype(fn)
    ht = eng.T[b.oktype(pp)]['t']
    head = eng.make(ht, 'head')
    readable = z3.Bool('readable')

    def pre(st, args):
        b.same(st, eng.load(st, args[1]), path, 'file that is read')
        return readable
    eng.contracts[pp] = b.partial(pp, pre, lambda st, a: SRef(head))
    imps = [eng.get(i, 'path') for i in eng.get(head, 'imports').items()]

    def sub(p):
        return z3.Bool(f'loads {k(p)}'), Seq((('s', SymSeq(tree(k(p)), eng.T[vt]['args'][0])),), vt)

    def rec(st, args):
        p = strip(eng.load(st, args[1]))
        b.samelist(st, eng.load(st, args[2]), crumbs + [path], 'crumbs of an import')
        return sub(p)[0]
    eng.contracts[fn] = b.partial(fn, rec, lambda st, a: sub(strip(eng.load(st, a[1])))[1])
    st = State()
    cell = ('H', next(eng.uid))
    st.heap[cell] = Op('map', base='cache', ins=(), t=eng.T[P.fn(fn)['locals'][1]]['t'])
    cr = Seq([('e', c) for c in crumbs], P.fn(fn)['locals'][3])

    def rule(st, o, ask):
        v = b.ok(o)
        if o.kind == 'panic':
            raise Bad('panics')
        if ask(OR(*[eng.streq(c, path) for c in crumbs])):
            if v is not None:
                raise Bad('accepts an import loop')
            return
        good = ask(readable)
        want = [('e', path)]
        for p in imps:
            if not good:
                break
            good = ask(sub(p)[0])
            want.append(sub(p)[1].p[0])
        if not good:
            if v is not None:
                raise Bad('accepts what has to be refused')
            return
        if v is None:
            raise Bad('refuses')
        b.n += 1
        got = [(x[0], k(strip(x[1])) if x[0] == 'e' else x[1].name) for x in v.p]
        exp = [(x[0], k(x[1]) if x[0] == 'e' else x[1].name) for x in want]
        if got != exp:
            raise Bad(f'tree {got} instead of {exp}'[:400])
    del eng.contracts[fn]
    real = eng.run

    def rule_contract(e, st, args):
        return eng_contract(e, st, args)
    eng_contract = b.partial(fn, rec, lambda st, a: sub(strip(eng.load(st, a[1])))[1])
    eng.contracts[fn] = rule_contract
    try:
        return b.outcomes(fn, [MRef(cell), SRef(path), cr], st, rule)
    except Bad as e:
        return b.n, [f'{fn}: {e}'], eng


def run_uniq(P, m):
    fn = BD + 'uniq'
    b = BP(P)
    eng = b.eng
    ss = [text(f's{i}') for i in range(m)]

    def rule(st, o, ask):
        if o.kind != 'return':
            raise Bad('panics')
        want = []
        for s in ss:
            if not any(ask(eng.streq(s, w)) for w in want):
                want.append(s)
        b.samelist(st, o.ret, want, 'path')
    return b.outcomes(fn, [Seq([('e', s) for s in ss], P.fn(fn)['locals'][1])], State(), rule)


def run_translate(P, m):
    fn, tr = BD + 'translate_mods', 'translator::translate'
    b = BP(P, contracts=(tr,))
    eng = b.eng
    if eng.missing:
        raise Unsupported('no translate')
    f = P.fn(fn)
    mods = eng_list(eng, f['locals'][1], 'mod', m)
    metas = eng_list(eng, eng.T[f['locals'][2]]['t'], 'head', m)
    ct = b.oktype(tr)
    cm = lambda i: eng.make(ct, f'translation {i}')
    okc = lambda i: z3.Bool(f'translates {i}')

    def which(st, args):
        x = strip(eng.load(st, args[0]))
        i = [j for j, y in enumerate(mods.items()) if k(y) == k(x)]
        if not i:
            raise Bad(f'translates {x!r}')
        i = i[0]
        p = strip(eng.load(st, args[1]))
        b.samelist(st, eng.get(p, 'cmods'), [cm(j) for j in range(i)], 'earlier translation')
        b.same(st, eng.get(p, 'this_mod_head'), metas.items()[i], 'head')
        b.samelist(st, eng.get(p, 'all_mod_heads'), metas.items(), 'heads')
        b.samelist(st, eng.get(p, 'mods'), mods.items(), 'modules')
        return i
    eng.contracts[tr] = b.partial(tr, lambda st, a: okc(which(st, a)), lambda st, a: cm(which(st, a)))

    def rule(st, o, ask):
        v = b.ok(o)
        if o.kind == 'panic':
            raise Bad('panics ' + o.why)
        for i in range(m):
            if not ask(okc(i)):
                if v is not None:
                    raise Bad('goes on after an error')
                return
        if v is None:
            raise Bad('refuses')
        b.samelist(st, v, [cm(i) for i in range(m)], 'translation')
    try:
        return b.outcomes(fn, [mods, SRef(metas)], State(), rule)
    except Bad as e:
        return b.n, [f'{fn}: {e}'], eng


def run_parse(P, m):
    """every module is parsed from its own file, knowing all heads"""
    fn, pm, ff = BD + 'parse_mods', 'parser::parse_module', 'lexer::for_file'
    b = BP(P, contracts=(pm, ff))
    eng = b.eng
    if eng.missing:
        raise Unsupported(f'no {eng.missing}')
    heads = eng_list(eng, eng.T[P.fn(fn)['locals'][1]]['t'], 'head', m)
    okc = lambda i: z3.Bool(f'parses {i}')
    mod = lambda i: eng.make(b.oktype(pm), f'module {i}')
    eng.contracts[ff] = lambda eng, st, args: [(st, b.result(ff, Op('file', path=strip(eng.load(st, args[0])))))]

    def which(st, args):
        f = strip(eng.load(st, args[0]))
        c = strip(eng.load(st, args[1]))
        i = [j for j, h in enumerate(heads.items()) if k(strip(eng.get(h, 'filepath'))) == k(f.path)]
        if not i:
            raise Bad(f'parses {f!r}')
        b.same(st, eng.get(c, 'thismod'), heads.items()[i[0]], 'head')
        b.samelist(st, eng.get(c, 'allmods'), heads.items(), 'heads')
        return i[0]
    eng.contracts[pm] = b.partial(pm, lambda st, a: okc(which(st, a)), lambda st, a: mod(which(st, a)))

    def rule(st, o, ask):
        v = b.ok(o)
        if o.kind == 'panic':
            raise Bad('panics ' + o.why)
        for i in range(m):
            if not ask(okc(i)):
                if v is not None:
                    raise Bad('goes on after an error')
                return
        if v is None:
            raise Bad('refuses')
        b.samelist(st, v, [mod(i) for i in range(m)], 'module')
    try:
        return b.outcomes(fn, [SRef(heads)], State(), rule)
    except Bad as e:
        return b.n, [f'{fn}: {e}'], eng


def eng_list(eng, t, name, m):
    return Seq([('e', eng.make(eng.T[t]['args'][0], f'{name}{i}')) for i in range(m)], t)


def run_project(P, m):
    """m modules in the tree, in any arrangement with repetitions"""
    fn, lt, pm, tm = BD + 'parse_project', BD + 'load_tree', BD + 'parse_mods', BD + 'translate_mods'
    b = BP(P, contracts=(lt, pm, tm))
    eng = b.eng
    if eng.missing:
        raise Unsupported(f'no {eng.missing}')
    vt = b.oktype(lt)
    main = text('main')
    ss = [text(f's{i}') for i in range(m)]
    mt = P.type_named('preparser::ModuleInfo')
    tree_ok, parse_ok, tr_ok = z3.Bools('tree parse translate')

    def lcond(st, args):
        b.same(st, eng.load(st, args[1]), main, 'main file')
        b.samelist(st, eng.load(st, args[2]), [], 'crumbs')
        return tree_ok

    def lval(st, args):
        # every module of the tree has been read
        mp = eng.load(st, args[0])
        ins = tuple((s, eng.make(mt, f'head {i}')) for i, s in enumerate(ss))
        eng.store(st, args[0], mp.with_(ins=ins[::-1]))
        return Seq([('e', s) for s in ss], vt)
    eng.contracts[lt] = b.partial(lt, lcond, lval)
    seen = {}

    def heads(st, v):
        v = strip(eng.load(st, v))
        return tuple(k(strip(eng.get(x, 'filepath'))) for x in v.items()), v
    mods = eng.make(b.oktype(pm), 'modules')
    cmods = eng.make(b.oktype(tm), 'translations')
    got = {}

    def pcond(st, args):
        st.ghost['heads'] = strip(eng.load(st, args[0]))
        return parse_ok
    eng.contracts[pm] = b.partial(pm, pcond, lambda st, a: mods)

    def tcond(st, args):
        b.same(st, eng.load(st, args[0]), mods, 'modules')
        st.ghost['heads2'] = strip(eng.load(st, args[1]))
        return tr_ok
    eng.contracts[tm] = b.partial(tm, tcond, lambda st, a: cmods)
    # a head knows its path
    for i, s in enumerate(ss):
        h = eng.make(mt, f'head {i}')

    def rule(st, o, ask):
        v = b.ok(o)
        if o.kind == 'panic':
            raise Bad('panics ' + o.why)
        if not ask(tree_ok):
            if v is not None:
                raise Bad('accepts a tree that was refused')
            return
        want = []
        for i, s in reversed(list(enumerate(ss))):
            if not any(ask(eng.streq(s, ss[j])) for j in want):
                want.append(i)

        def order(x):
            fp = [k(strip(eng.get(y, 'filepath'))) for y in x.items()]
            exp = []
            for i in want:
                # the cache has the last one of equal keys in front
                j = [j for j in range(m) if ask(eng.streq(ss[j], ss[i]))]
                exp.append([k(strip(eng.get(eng.make(mt, f'head {q}'), 'filepath'))) for q in j])
            b.n += 1
            if len(fp) != len(exp) or any(f not in e for f, e in zip(fp, exp)):
                raise Bad(f'order {fp} instead of {exp}')
            ids = [strip(eng.get(y, 'uniqid')) for y in x.items()]
            for i, a in enumerate(ids):
                for c in ids[:i]:
                    b.n += 1
                    if not uniq_ids(eng, st, a, c):
                        raise Bad(f'ids {a!r} and {c!r}')
        order(st.ghost['heads'])
        if not ask(parse_ok) or not ask(tr_ok):
            if v is not None:
                raise Bad('accepts a module that was refused')
            return
        if v is None:
            raise Bad('refuses')
        order(st.ghost['heads2'])
        order(strip(eng.get(v, 'modheads')))
        b.same(st, eng.get(v, 'cmodules'), cmods, 'translations')
        b.same(st, eng.get(v, 'modules'), mods, 'modules')
    try:
        return b.outcomes(fn, [SRef(main)], State(), rule)
    except Bad as e:
        return b.n, [f'{fn}: {e}'], eng


def uniq_ids(eng, st, a, b):
    """texts that begin with different numbers"""
    x, y = a.p and a.p[0], b.p and b.p[0]
    if isinstance(x, str) and isinstance(y, str):
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return True
    return eng.entails(st, NOT(eng.streq(a, b)))


def order_lemma(P):
    """P(L): whatever a module at i of L imports occurs behind i.
    P(A) and P(B) give P(A ++ B); if P holds for the trees of the imports of m
    and each starts with its module, it holds for [m] ++ the trees. For the
    reversed list without repetitions (first occurrences kept): a module stands
    at the place of its last occurrence, so behind everything it imports."""
    n = 0
    bad = []
    M = z3.DeclareSort('Module')
    imp = z3.Function('imports', M, M, z3.BoolSort())
    A, B_, L = [z3.Array(x, z3.IntSort(), M) for x in ('A', 'B', 'L')]
    a, bl = z3.Ints('lenA lenB')
    i, j = z3.Ints('i j')
    d = z3.Const('d', M)
    m = z3.Const('m', M)
    good = lambda X, ln: z3.ForAll([i, d], z3.Implies(z3.And(0 <= i, i < ln, imp(X[i], d)), z3.Exists([j], z3.And(j > i, j < ln, X[j] == d))))
    cat = z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a), L[i] == A[i])), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < bl), L[a + i] == B_[i])))

    def prove(name, hyps, goal):
        nonlocal n
        n += 1
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyps)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unknown:
            raise Unsupported('lemma ' + name)
        if r == z3.sat:
            bad.append('lemma ' + name)
    ii, jj = z3.Ints('ii jj')
    dd = z3.Const('dd', M)
    # concatenation
    prove('concatenation', [a >= 0, bl >= 0, good(A, a), good(B_, bl), cat, 0 <= ii, ii < a, imp(L[ii], dd)],
          z3.Exists([j], z3.And(j > ii, j < a + bl, L[j] == dd)))
    w = z3.Int('w')
    prove('concatenation, behind', [a >= 0, bl >= 0, good(B_, bl), cat, a <= ii, ii < a + bl, imp(L[ii], dd), w == ii - a, B_[w] == L[ii],
                                    z3.Exists([j], z3.And(j > w, j < bl, B_[j] == dd))],
          z3.Exists([j], z3.And(j > ii, j < a + bl, L[j] == dd)))
    # the root: its imports are the heads of the trees behind it
    s = z3.Function('start', M, z3.IntSort())
    prove('root', [z3.ForAll([d], z3.Implies(imp(m, d), z3.And(s(d) >= 1, s(d) < a, A[s(d)] == d))), A[0] == m, imp(A[0], dd)],
          z3.Exists([j], z3.And(j > 0, j < a, A[j] == dd)))
    # first occurrences of the reverse = last occurrences
    last = z3.Function('last', M, z3.IntSort())
    occ = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a), z3.And(i <= last(A[i]), last(A[i]) < a, A[last(A[i])] == A[i])))
    x, y = z3.Consts('x y', M)
    prove('imports first', [good(A, a), occ, 0 <= last(x), last(x) < a, A[last(x)] == x, imp(x, y)], last(y) > last(x))

    class E:
        qtime = 0.0
        inlined = set()
    return n, bad, E()


def jobs():
    J = {}
    J['resolve import'] = (RS + 'resolve_import', run_resolve)
    J['resolve home'] = (RS + 'homepath', run_home)
    for m in range(4):
        J[f'resolve basename {m}'] = (RS + 'basename', lambda P, m=m: run_basename(P, m), f'{m} directories')
    J['heads struct'] = (PP + 'get_typename', run_typename_struct)
    for s in ('plain', 'array', 'func', 'func1', 'func2'):
        for m in range(1, 5):
            J[f'heads {s} {m}'] = (PP + 'get_typename', lambda P, m=m, s=s: run_typename(P, m, s), f'{m} tokens before the name, at most 2 of parameters')
    for sh in ('', '.', 'B', '..', '.B', 'B.', 'BB', '.B.', 'B.B', '...'):
        J[f'heads braces {sh!r}'] = (PP + 'skip_brackets', lambda P, sh=sh: run_skip(P, sh), 'at most 3 items between braces')
    for sh in ('{}', '{.}', '{{}}', '{.{.}.}', '{{}{}}', '{{{.}}.}', '{.{{}{}}{}.}'):
        J[f'heads nested {sh}'] = (PP + 'skip_brackets', lambda P, sh=sh: run_nested(P, sh), 'these nestings, any other tokens')
    for m in range(4):
        J[f'heads file {m}'] = (PP + 'preparse', lambda P, m=m: run_preparse(P, m), f'{m} tokens, typedefs counted once')
    J['tree cache'] = (BD + 'preparse', run_cached)
    for ni in range(4):
        for nc in range(3):
            J[f'tree {ni} {nc}'] = (BD + 'load_tree', lambda P, ni=ni, nc=nc: run_tree(P, ni, nc), f'{ni} imports, {nc} modules on the way')
    for m in range(5):
        J[f'tree uniq {m}'] = (BD + 'uniq', lambda P, m=m: run_uniq(P, m), f'{m} paths')
    for m in range(4):
        J[f'tree translate {m}'] = (BD + 'translate_mods', lambda P, m=m: run_translate(P, m), f'{m} modules')
        J[f'tree parse {m}'] = (BD + 'parse_mods', lambda P, m=m: run_parse(P, m), f'{m} modules')
        J[f'tree project {m}'] = (BD + 'parse_project', lambda P, m=m: run_project(P, m), f'{m} entries in the tree')
    J['tree lemma'] = ('', order_lemma)
    return J


ASSUMES = [
    'a module is identified by the text of its resolved path (two spellings of one path are two modules)',
    'Path::parent, Path::join and std::fs::metadata are uninterpreted functions of their arguments; the file system does not change during a run',
    'after load_tree every module of the tree is in the cache (contract of build::preparse)',
]
GROUPS = {'heads': ['heads', 'resolve'], 'tree': ['tree'], 'resolve': ['resolve']}
