"""Contracts of the character buffer (src/buf.rs) and of the token reader
(src/lexer.rs).

Ghost state: the characters c(0) .. c(n-1) of the file. L(i) and C(i) are the line
and column of position i (defined by recursion over the characters before i).
Invariant of Buf: the cursor is within the text and line/col are L and C of it.
The language of tokens is given by functions over positions, each defined by
recursion over the text: run(set, p) is the end of the longest run of characters
of the set from p on, close(p) the closing quote of a string whose text starts at
p, and so on. A contract says where a reader stops and which part of the text the
token consists of. Loops: candidate invariants (the position functions keep their
value, a text is the part of the file that was passed) are kept as long as they
are inductive."""
import time
import z3
from mirv.engine import *
from mirv import loops
from .parseproof import Split, Bad, strip

BU = 'buf::Buf::'
LE = 'lexer::'
LX = 'lexer::Lexer::'
N = z3.Int('nchar')
P0 = z3.Int('p0')
ZI = z3.IntSort()
CH = z3.Function('c', ZI, ZI)
LN = z3.Function('line', ZI, ZI)
CO = z3.Function('col', ZI, ZI)

SPACES = '\r\n\t '
DIGITS = '0123456789'
HEX = '0123456789ABCDEFabcdef'
KEYWORDS = ['break', 'case', 'const', 'continue', 'default', 'else', 'enum', 'for', 'if', 'pub', 'return',
            'sizeof', 'struct', 'switch', 'typedef', 'union', 'while']
SYMBOLS = ['<<=', '>>=', '...', '++', '--', '->', '<<', '>>', '<=', '>=', '&&', '||', '+=', '-=',
           '*=', '/=', '%=', '&=', '^=', '|=', '==', '!=', '!', '~', '&', '^', '*', '/', '%', '=',
           '|', ':', ',', '<', '>', '+', '-', '{', '}', ';', '[', ']', '(', ')', '.', '?']
SETS = {'sp': SPACES, 'dig': DIGITS, 'hex': HEX, 'UL': 'UL', 'ULf': 'ULf'}
READERS = {'read_word': 'word', 'read_number': 'number', 'read_hex': 'hex', 'read_string_literal': 'string',
           'read_char_literal': 'char', 'read_multiline_comment': 'comment'}


class Malformed(Exception):
    """outside the language: anything goes"""


class ErrTok(Exception):
    pass


def sim(e):
    return z3.simplify(I(e))


class Lexp:
    def __init__(self, P, unroll=None, contracts=(), budget=25.0):
        self.P = P
        self.n = 0
        eng = self.eng = Engine(P, budget=budget, max_paths=20000)
        eng.unroll = unroll
        eng.missing = []
        # a bounded run: a short text from its beginning
        self.p0 = P0 if unroll is None else z3.IntVal(0)
        if unroll is not None:
            eng.axioms.append(N <= unroll + 4)
        eng.axioms.append(z3.And(self.p0 >= 0, self.p0 <= N, N >= 0, N < 2 ** 40, LN(0) == 1, CO(0) == 1))
        eng.elem0, eng.streq0, eng.seqlen0 = eng.elem, eng.streq, eng.seqlen
        eng.elem, eng.streq, eng.seqlen = self.elem, self.streq, self.seqlen
        self.bt = P.type_named('buf::Buf')
        self.pt = P.type_named('buf::Pos')
        self.tt = P.type_named('lexer::Token')
        fs = [f['n'] for f in eng.T[self.bt]['v'][0]['f']]
        if not {'s', 'pos', 'line', 'col'} <= set(fs):
            raise Unsupported(f'Buf has the fields {fs}')
        self.fi = {n: i for i, n in enumerate(fs)}
        self.ps = {}          # positions whose character is spoken of
        self.fs = {}          # position functions
        self.apps = set()
        self.asked = {}       # comparisons of texts with literals
        self.memo = {}
        # definitions of the position functions (in bounded runs they are always at hand)
        self.defs = [] if unroll is None else eng.axioms
        self.todef = 0
        eng.exact = True
        for fn in contracts:
            if fn in P.byname and fn in P.called():
                eng.contracts[fn] = getattr(self, 'k_' + fn.split('::')[-1]) if not fn.startswith(LE) or fn == LE + 'read_token' \
                    else self.reader(fn)
            else:
                eng.missing.append(fn)

    # ---- text
    def elem(self, ss, idx):
        if ss.name == 'S':
            return Int(self.c(idx))
        return self.eng.elem0(ss, idx)

    def seqlen(self, seq):
        n = 0
        for x in seq.p:
            if x[0] == 's' and x[1].name == 'S':
                n = n + N
            else:
                n = n + self.eng.seqlen0(Seq((x,)))
        return n

    def c(self, i):
        i = sim(i)
        key = i.sexpr()
        if key not in self.ps:
            self.ps[key] = i
            ax = self.eng.axioms
            ax.append(z3.And(CH(i) >= 0, CH(i) <= 0x10ffff))
            nl = CH(i) == 10
            ax.append(z3.Implies(z3.And(i >= 0, i < N), z3.And(
                LN(i + 1) == z3.If(nl, LN(i) + 1, LN(i)), CO(i + 1) == z3.If(nl, z3.IntVal(1), CO(i) + 1),
                LN(i) >= 1, CO(i) >= 1, LN(i) <= i + 1, CO(i) <= i + 1)))
            for f in list(self.fs.values()):
                self.unfold(f, i)
        return CH(i)

    def fun(self, name, body, lemma):
        """a function over positions: body(f, i) is its definition, lemma(i, f(i)) what follows from it by induction"""
        if name not in self.fs:
            f = (z3.Function(name, ZI, ZI), body, lemma, name)
            self.fs[name] = f
            for i in list(self.ps.values()):
                self.unfold(f, i)
        return self.fs[name]

    def unfold(self, f, i):
        # (only where the character at i is spoken of: the terms in the body are not unfolded further)
        self.todef += 1
        d = f[1](lambda j: self.app(f, j), i)
        self.defs.append(z3.Implies(z3.And(i >= 0, i <= N), f[0](i) == d))
        self.lem(f, i)
        self.todef -= 1

    def lem(self, f, i):
        i = sim(i)
        key = (f[3], i.sexpr(), bool(self.todef))
        if key not in self.apps:
            self.apps.add(key)
            (self.defs if self.todef else self.eng.axioms).append(z3.Implies(z3.And(i >= 0, i <= N), f[2](i, f[0](i))))

    def entails(self, st, c):
        """first without the definitions, then with them"""
        if c is True:
            return True
        if c is not False and self.eng.entails(st, c):
            return True
        cs = frozenset(B(x).get_id() for x in st.pc + (NOT(c),)) | {('d', len(self.defs), len(self.eng.axioms))}
        if cs in self.memo:
            return self.memo[cs][0]
        t = time.time()
        if t > self.eng.deadline:
            raise Unsupported('time budget exhausted')
        slow = z3.SimpleSolver()
        slow.set('timeout', 3000)
        for x in self.eng.axioms + (self.defs if self.defs is not self.eng.axioms else []) + [B(x) for x in st.pc + (NOT(c),)]:
            slow.add(x)
        r = slow.check()
        self.eng.qtime += time.time() - t
        if r == z3.unknown:          # a short text is enough to refute
            slow.add(N <= 6, self.p0 == 0)
            if slow.check() != z3.sat:
                raise Unsupported('solver: unknown')
            r = z3.sat
        self.memo[cs] = (r == z3.unsat, st.pc, c)
        return r == z3.unsat

    def app(self, f, i):
        self.lem(f, i)
        return f[0](sim(i))

    def at(self, f, i):
        """f(i), with its definition"""
        self.c(i)
        return self.app(f, i)

    def inset(self, name, ch):
        if name in SETS:
            return z3.Or(*[ch == ord(x) for x in SETS[name]])
        if name == 'word':
            return z3.Or(self.eng.charclass(self.eng, 'is_alphanumeric', ch), ch == ord('_'))
        if name.startswith('not'):
            return ch != int(name[3:])
        raise KeyError(name)

    def run(self, name):
        def body(f, i):
            return z3.If(z3.And(i < N, self.inset(name, CH(i))), f(i + 1), i)

        def lemma(i, e):
            return z3.And(e >= i, e <= N, z3.Implies(e < N, z3.Not(self.inset(name, CH(e)))), z3.Implies(e > i, self.inset(name, CH(i))))
        return self.fun('run_' + name, body, lemma)

    def close(self):
        def body(f, i):
            return z3.If(i >= N, i, z3.If(CH(i) == 34, i, z3.If(CH(i) == 92, z3.If(i + 1 >= N, N, f(i + 2)), f(i + 1))))

        def lemma(i, e):
            return z3.And(e >= i, e <= N, z3.Implies(e < N, CH(e) == 34))
        return self.fun('close', body, lemma)

    def strend(self):
        """end of a sequence of strings; n + 1 when one of them is not closed"""
        cl, sp = self.close(), self.run('sp')

        def body(f, i):
            q = self.app(cl, i + 1)
            return z3.If(z3.And(i < N, CH(i) == 34), z3.If(q < N, f(self.app(sp, q + 1)), N + 1), i)

        def lemma(i, e):
            return z3.And(e >= i, e <= N + 1)
        return self.fun('strend', body, lemma)

    def follows(self, lit, i):
        return z3.And(I(i) + len(lit) <= N, *[self.c(I(i) + j) == ord(x) for j, x in enumerate(lit)])

    def until(self, lit):
        def fol(i):
            return z3.And(i + len(lit) <= N, *[CH(sim(i + j)) == ord(x) for j, x in enumerate(lit)])

        def body(f, i):
            return z3.If(z3.Or(i >= N, fol(i)), i, f(i + 1))

        def lemma(i, e):
            return z3.And(e >= i, e <= N, z3.Implies(e < N, fol(e)))
        return self.fun('until_' + lit, body, lemma)

    def skip(self):
        """first token from the position on that is not a comment"""
        t = self.tokfuns()

        def body(f, i):
            return z3.If(z3.And(z3.Not(t['none'](i)), t['comment'](i)), f(t['end'](i)), i)

        def lemma(i, e):
            return z3.And(e >= i, e <= N, z3.Or(t['none'](e), z3.Not(t['comment'](e))))
        return self.fun('skip', body, lemma)

    def tokfuns(self):
        return {'none': z3.Function('tnone', ZI, z3.BoolSort()), 'comment': z3.Function('tcomment', ZI, z3.BoolSort()),
                'end': z3.Function('tend', ZI, ZI)}

    # ---- texts as parts of the file
    def span(self, a, b):
        a, b = sim(a), sim(b)
        return Str((Atom(f'txt({a},{b})', ('span', a, b)),))

    def segs(self, s, eq=()):
        out = []
        for x in s.p:
            if isinstance(x, str):
                out.append(('lit', x))
                continue
            if eq and x.name in eq:
                out += eq[x.name]
                continue
            i = x.info
            if i and i[0] == 'span':
                out.append(i)
            elif i and i[0] == 'ch':
                e = i[1]
                if z3.is_expr(e) and z3.is_app(e) and e.decl().name() == 'c':
                    out.append(('span', e.arg(0), sim(e.arg(0) + 1)))
                else:
                    out.append(('chr', e))
            elif i and i[0] == 'ct':
                out.append(i)
            elif i and i[0] == 'trim':
                out.append(('trim', self.segs(i[1], eq)))
            else:
                out.append(('atom', x.name))
        # adjacent parts
        m = []
        for x in out:
            if m and x[0] == 'span' and m[-1][0] == 'span' and z3.is_true(sim2(m[-1][2] == x[1])):
                m[-1] = ('span', m[-1][1], x[2])
            else:
                m.append(x)
        return m

    def islit(self, a, b, lit):
        key = (a.get_id(), b.get_id(), lit)
        if key not in self.memo:
            self.memo[key] = (z3.And(sim(b - a) == len(lit), *[self.c(a + j) == ord(x) for j, x in enumerate(lit)]), a, b)
        return self.memo[key][0]

    def streq(self, a, b):
        la, lb = a.lit(), b.lit()
        if (la is None) != (lb is None):
            s = self.segs(b if la is not None else a)
            lit = la if la is not None else lb
            if len(s) == 1 and s[0][0] == 'span':
                return self.islit(s[0][1], s[0][2], lit)
            r = self.eng.streq0(a, b)
            if not isinstance(r, bool):
                self.asked[(k(a), k(b))] = (b if la is not None else a, lit, r)
            return r
        return self.eng.streq0(a, b)

    # ---- the buffer
    def mkbuf(self, p):
        fs = []
        for f in self.eng.T[self.bt]['v'][0]['f']:
            if f['n'] == 's':
                fs.append(Seq((('s', SymSeq('S', self.eng.T[f['t']]['args'][0])),), f['t']))
            elif f['n'] == 'pos':
                fs.append(Int(p))
            elif f['n'] == 'line':
                fs.append(Int(LN(p)))
            elif f['n'] == 'col':
                fs.append(Int(CO(p)))
            else:
                fs.append(self.eng.make(f['t'], f"buf.{f['n']}"))
        return Adt(self.bt, 0, fs)

    def cur(self, st, a):
        return self.eng.load(st, a).f[self.fi['pos']].e

    def move(self, st, a, p):
        b = self.eng.load(st, a)
        fs = list(b.f)
        p = sim(p)
        for n, v in (('pos', p), ('line', LN(p)), ('col', CO(p))):
            fs[self.fi[n]] = Int(v)
        for n, i in self.fi.items():
            if n not in ('s', 'pos', 'line', 'col'):
                fs[i] = self.eng.make(self.eng.T[self.bt]['v'][0]['f'][i]['t'], f'buf.{n}@{p}')
        self.eng.store(st, a, Adt(self.bt, 0, fs))

    def split(self, st, c):
        e = self.eng
        y = st.copy().assume(c) if e.feasible(st, c) else None
        n = st.copy().assume(NOT(c)) if e.feasible(st, NOT(c)) else None
        return y, n

    def opt(self, rt, v):
        return Adt(rt, self.P.variant(rt, 'None' if v is None else 'Some'), () if v is None else (v,))

    def k_more(self, eng, st, args):
        return [(st, Bool(self.cur(st, args[0]) < N))]

    def k_ended(self, eng, st, args):
        return [(st, Bool(NOT(self.cur(st, args[0]) < N)))]

    def k_pos(self, eng, st, args):
        return [(st, self.mkpos(self.cur(st, args[0])))]

    def mkpos(self, p):
        fs = [Int({'line': LN, 'col': CO}[f['n']](sim(p))) for f in self.eng.T[self.pt]['v'][0]['f']]
        self.c(p)
        return Adt(self.pt, 0, fs)

    def k_peek(self, eng, st, args):
        p = self.cur(st, args[0])
        rt = self.P.fn(BU + 'peek')['locals'][0]
        y, n = self.split(st, p < N)
        return ([(y, self.opt(rt, Int(self.c(p))))] if y else []) + ([(n, self.opt(rt, None))] if n else [])

    def k_get(self, eng, st, args):
        p = self.cur(st, args[0])
        rt = self.P.fn(BU + 'get')['locals'][0]
        y, n = self.split(st, p < N)
        out = []
        if y:
            v = Int(self.c(p))
            self.move(y, args[0], p + 1)
            out.append((y, self.opt(rt, v)))
        if n:
            out.append((n, self.opt(rt, None)))
        return out

    def litarg(self, st, a):
        v = strip(self.eng.load(st, a))
        if isinstance(v, Str) and v.lit() is not None:
            return v.lit()
        raise Unsupported('unknown text for the buffer')

    def k_literal_follows(self, eng, st, args):
        return [(st, Bool(self.follows(self.litarg(st, args[1]), self.cur(st, args[0]))))]

    def k_skip_literal(self, eng, st, args):
        lit = self.litarg(st, args[1])
        p = self.cur(st, args[0])
        y, n = self.split(st, self.follows(lit, p))
        out = []
        if y:
            self.move(y, args[0], p + len(lit))
            out.append((y, Bool(True)))
        if n:
            out.append((n, Bool(False)))
        return out

    def k_read_set(self, eng, st, args):
        s = self.litarg(st, args[1])
        nm = next((n for n, x in SETS.items() if set(x) == set(s)), None)
        if nm is None:
            return None
        return self.passed(st, args[0], self.run(nm))

    def passed(self, st, buf, f):
        p = self.cur(st, buf)
        e = self.at(f, p)
        self.c(e)
        self.move(st, buf, e)
        return [(st, self.span(p, e))]

    def k_skip_until(self, eng, st, args):
        ch = args[1].e
        if not isinstance(ch, int):
            raise Unsupported('skip_until')
        return self.passed(st, args[0], self.run(f'not{ch}'))

    def k_until_literal(self, eng, st, args):
        return self.passed(st, args[0], self.until(self.litarg(st, args[1])))

    # ---- tokens
    def token(self, kind, content, p):
        fs = []
        for f in self.eng.T[self.tt]['v'][0]['f']:
            fs.append({'kind': lambda: kind, 'content': lambda: content, 'pos': lambda: self.mkpos(p)}[f['n']]())
        return Adt(self.tt, 0, fs)

    def reader(self, fn):
        rule = READERS[fn.split('::')[-1]]
        self.P.fn(fn)

        def k_(eng, st, args):
            p = self.cur(st, args[0])
            out = []
            for s, r, w in cases(self, st, lambda r: getattr(r, 'r_' + rule)(p)):
                if w[0] == 'malformed':
                    # the contract says nothing
                    o2 = s.copy()
                    e = z3.Int(f'any#{next(eng.uid)}')
                    o2.assume(z3.And(e >= I(p), e <= N))
                    self.move(o2, args[0], e)
                    t = eng.fresh(self.tt, 'anytoken')
                    o2.ghost['malformed'] = True
                    out.append((o2, t))
                elif w[0] == 'error':
                    e = z3.Int(f'any#{next(eng.uid)}')
                    o2 = s.copy().assume(z3.And(e >= I(p), e <= N))
                    self.move(o2, args[0], e)
                    out.append((o2, self.token(Str(('error',)), Str((Atom(f'message#{next(eng.uid)}'),)), p)))
                else:
                    _, kind, segs, end, _ = w
                    o2 = s.copy()
                    self.c(end)
                    self.move(o2, args[0], end)
                    text = totext(self, segs) if segs is not None else Str((Atom(f'message#{next(eng.uid)}'),))
                    out.append((o2, self.token(totext(self, kind), text, p)))
            return out
        return k_

    def k_read_token(self, eng, st, args):
        """what the token at a position is does not matter here"""
        p = sim(self.cur(st, args[0]))
        t = self.tokfuns()
        self.c(p)
        key = ('tok', p.sexpr())
        if key not in eng.memo:
            eng.memo[key] = p
            kind = eng.get(eng.make(self.tt, f'TK[{p}]'), 'kind')
            eng.axioms.append(z3.Implies(z3.And(p >= 0, p <= N, z3.Not(t['none'](p))), z3.And(t['end'](p) > p, t['end'](p) <= N)))
            eng.axioms.append(B(eng.streq(kind, Str(('comment',)))) == t['comment'](p))
        rt = self.P.fn(LE + 'read_token')['locals'][0]
        y, n = self.split(st, z3.Not(t['none'](p)))
        out = []
        if y:
            self.move(y, args[0], t['end'](p))
            out.append((y, self.opt(rt, eng.make(self.tt, f'TK[{p}]'))))
        if n:
            out.append((n, self.opt(rt, None)))
        return out


def sim2(b):
    return z3.simplify(b)


def totext(lx, x):
    """expected text -> Str"""
    if isinstance(x, str):
        return Str((x,))
    if isinstance(x, Str):
        return x
    parts = ()
    for s in x:
        if s[0] == 'span':
            parts += lx.span(s[1], s[2]).p
        elif s[0] == 'lit':
            parts += (s[1],)
        elif s[0] == 'atom':
            parts += (Atom(s[1]),)
        elif s[0] == 'ct':
            parts += (Atom(f'ct({s[1]})', ('ct', s[1])),)
        else:
            raise Unsupported(f'text {s!r}')
    return Str(parts)


def cases(lx, st, f, inv=None):
    """runs the specification under the path; yields (state, ref, result)"""
    work = [st]
    m = 0
    while work:
        s = work.pop()
        m += 1
        if m > 300:
            raise Unsupported('too many cases in the specification')
        if not lx.eng.feasible(s):
            continue
        r = Ref(lx, s, inv)
        try:
            try:
                w = f(r)
            except Malformed:
                w = ('malformed',)
            except ErrTok:
                w = ('error',)
            yield s, r, w
        except Split as sp:
            work.append(s.copy().assume(sp.c))
            work.append(s.copy().assume(NOT(sp.c)))
        except Bad:
            if not lx.entails(s, False):       # (a path that the definitions exclude)
                raise


class Ref:
    def __init__(self, lx, st, inv=None):
        self.lx = lx
        self.eng = lx.eng
        self.st = st
        self.inv = inv or {}

    def ask(self, c):
        self.lx.n += 1
        if isinstance(c, bool):
            return c
        if self.eng.check(self.st.pc + (c,)) == z3.unsat:
            return False
        if self.eng.check(self.st.pc + (NOT(c),)) == z3.unsat:
            return True
        raise Split(c)

    def is_(self, p, ch):
        return self.ask(z3.And(I(p) < N, self.lx.c(p) == ord(ch)))

    def run(self, name, p):
        e = sim(self.lx.at(self.lx.run(name), p))
        self.lx.c(e)
        return e

    # ---- results: ('token', kind, text, end, start)
    def r_token(self, p):
        lx = self.lx
        q = self.run('sp', p)
        if not self.ask(q < N):
            return ('none',)
        c = lx.c(q)
        if self.ask(c == ord('#')):
            if self.ask(lx.follows('#import', q)):
                if not self.ask(z3.And(q + 7 < N, z3.Or(lx.c(q + 7) == 32, lx.c(q + 7) == 9))):
                    raise Malformed
                a = self.run('sp', q + 7)
                e = self.run('not10', a)
                return ('token', 'import', [('trim', [('span', a, e)])], e, q)
            e = self.run('not10', q)
            return ('token', 'macro', [('span', q, e)], e, q)
        if self.ask(lx.follows('/*', q)):
            return self.r_comment(q)
        if self.ask(lx.follows('//', q)):
            return ('token', 'comment', None, self.run('not10', q + 2), q)
        if self.ask(z3.Or(self.eng.charclass(self.eng, 'is_ascii_alphabetic', c), c == ord('_'))):
            return self.r_word(q)
        if self.ask(self.eng.charclass(self.eng, 'is_ascii_digit', c)):
            return self.r_number(q)
        if self.ask(c == 34):
            return self.r_string(q)
        if self.ask(c == 39):
            return self.r_char(q)
        for s in SYMBOLS:
            if self.ask(lx.follows(s, q)):
                return ('token', s, [], sim(q + len(s)), q)
        raise ErrTok

    def r_comment(self, p):
        f = self.lx.until('*/')
        e = sim(self.lx.at(f, I(p) + 2))
        self.lx.c(e)
        self.lx.c(e + 1)
        if self.ask(e < N):
            return ('token', 'comment', None, sim(e + 2), p)
        raise ErrTok

    def r_word(self, p):
        lx = self.lx
        e = self.run('word', p)
        if self.ask(lx.islit(p, e, 'calloc')) and self.is_(e, '!'):
            return ('token', 'word', [('span', p, sim(e + 1))], sim(e + 1), p)
        if self.ask(z3.Or(*[lx.islit(p, e, w) for w in KEYWORDS])):
            return ('token', [('span', p, e)], [], e, p)
        return ('token', 'word', [('span', p, e)], e, p)

    def r_hex(self, p):
        e = self.run('UL', self.run('hex', I(p) + 2))
        return ('token', 'num', [('span', p, e)], e, p)

    def r_number(self, p):
        lx = self.lx
        if self.ask(lx.follows('0x', p)):
            return self.r_hex(p)
        mods = 'UL'
        e = self.run('dig', p)
        if self.is_(e, '.'):
            mods = 'ULf'
            e = self.run('dig', e + 1)
        if self.ask(z3.And(e < N, z3.Or(lx.c(e) == ord('e'), lx.c(e) == ord('E')))):
            e = sim(e + 1)
            if self.is_(e, '-'):
                e = sim(e + 1)
            if not self.ask(z3.And(e < N, self.eng.charclass(self.eng, 'is_ascii_digit', lx.c(e)))):
                raise Malformed
            e = self.run('dig', e)
        e = self.run(mods, e)
        if self.ask(z3.And(e < N, self.eng.charclass(self.eng, 'is_ascii_alphabetic', lx.c(e)))):
            raise ErrTok
        return ('token', 'num', [('span', p, e)], e, p)

    def ct(self, p):
        """the text of the strings from p on"""
        for a, g, gp in self.inv.get('ct', ()):
            if not z3.is_true(sim2(I(p) == gp)) and self.lx.entails(self.st, I(p) == a):
                return g + self.ct(gp)
        if not self.is_(p, '"'):
            return []
        q = sim(self.lx.at(self.lx.close(), I(p) + 1))
        self.lx.c(q)
        return [('span', sim(I(p) + 1), q)] + self.ct(self.run('sp', q + 1))

    def r_string(self, p):
        lx = self.lx
        f = lx.strend()
        e = sim(lx.at(f, p))
        if not self.ask(e <= N):
            raise ErrTok
        lx.c(e)
        return ('token', 'string', [('ct', p)], e, p)

    def r_char(self, p):
        lx = self.lx
        q = sim(I(p) + 1)
        if self.is_(q, '\\'):
            q = sim(q + 1)
        elif self.is_(q, "'"):
            raise Malformed
        if not self.ask(q < N):
            raise ErrTok
        if not self.is_(q + 1, "'"):
            raise ErrTok
        return ('token', 'char', [('span', sim(I(p) + 1), sim(q + 1))], sim(q + 2), p)


# ---------------------------------------------------------------- comparison
class Cmp:
    def __init__(self, lx, st, inv):
        self.lx = lx
        self.eng = lx.eng
        self.st = st
        self.inv = inv

    def must(self, c, what):
        self.lx.n += 1
        if not self.lx.entails(self.st, c):
            raise Bad(what)

    def dec(self, c):
        self.lx.n += 1
        if isinstance(c, bool):
            return c
        if self.eng.entails(self.st, c):
            return True
        if self.eng.entails(self.st, NOT(c)):
            return False
        raise Split(c)

    def text(self, got, want, what):
        """got, want: segments"""
        a, b = list(got), list(want)
        bad = f'{what}: {show(got)} instead of {show(want)}'
        m = 0
        while a or b:
            m += 1
            if m > 200:
                raise Unsupported('text')
            for x in (a, b):
                while x and (x[0][0] == 'lit' and not x[0][1] or x[0][0] == 'span' and self.dec(x[0][1] >= x[0][2])):
                    x.pop(0)
            if a and b and a[0][0] == 'ct' and b[0][0] == 'ct' and self.lx.entails(self.st, I(a[0][1]) == I(b[0][1])):
                a.pop(0)
                b.pop(0)
                continue
            for x in (a, b):
                if x and x[0][0] == 'ct':
                    r = Ref(self.lx, self.st, self.inv)
                    x[:1] = r.ct(x[0][1])
                    break
            else:
                if not a and not b:
                    break
                if not a or not b:
                    raise Bad(bad)
                x, y = a[0], b[0]
                if x[0] == 'atom' and y[0] == 'atom' and x[1] == y[1]:
                    a.pop(0)
                    b.pop(0)
                elif x[0] == 'trim' and y[0] == 'trim':
                    self.text(x[1], y[1], what)
                    a.pop(0)
                    b.pop(0)
                elif x[0] == 'lit' and y[0] == 'lit':
                    n = min(len(x[1]), len(y[1]))
                    if x[1][:n] != y[1][:n]:
                        raise Bad(bad)
                    a[0], b[0] = ('lit', x[1][n:]), ('lit', y[1][n:])
                elif x[0] == 'span' and y[0] == 'span':
                    self.must(x[1] == y[1], bad)
                    if self.dec(x[2] == y[2]):
                        a.pop(0)
                        b.pop(0)
                    elif self.dec(x[2] < y[2]):
                        a.pop(0)
                        b[0] = ('span', x[2], y[2])
                    else:
                        b.pop(0)
                        a[0] = ('span', y[2], x[2])
                elif {x[0], y[0]} == {'lit', 'span'}:
                    l, s = (x, y) if x[0] == 'lit' else (y, x)
                    self.must(self.lx.c(s[1]) == ord(l[1][0]), bad)
                    for z, u in ((a, x), (b, y)):
                        z[0] = ('lit', u[1][1:]) if u is l else ('span', sim(u[1] + 1), u[2])
                elif {x[0], y[0]} == {'chr', 'span'}:
                    l, s = (x, y) if x[0] == 'chr' else (y, x)
                    self.must(self.lx.c(s[1]) == I(l[1]), bad)
                    for z, u in ((a, x), (b, y)):
                        if u is l:
                            z.pop(0)
                        else:
                            z[0] = ('span', sim(u[1] + 1), u[2])
                else:
                    raise Bad(bad)
        self.lx.n += 1

    def tok(self, t, w):
        """t: the token of the code, w: ('token', kind, text, end, start)"""
        eng = self.eng
        _, kind, text, _, q = w
        eq = self.inv.get('eq', {})
        kd = strip(eng.get(t, 'kind'))
        self.text(self.lx.segs(kd, eq), [('lit', kind)] if isinstance(kind, str) else kind, 'kind')
        if text is not None:
            self.text(self.lx.segs(strip(eng.get(t, 'content')), eq), text, 'content')
        ps = strip(eng.get(t, 'pos'))
        self.must(I(eng.get(ps, 'line').e) == LN(sim(q)), f'line of the token at {q}')
        self.must(I(eng.get(ps, 'col').e) == CO(sim(q)), f'column of the token at {q}')


def show(segs):
    out = []
    for s in segs:
        out.append(repr(s[1]) if s[0] == 'lit' else f'text[{s[1]}:{s[2]}]' if s[0] == 'span' else f'{s[0]}({s[1]})')
    return ' + '.join(out) or "''"


# ---------------------------------------------------------------- loop invariants
class Loops:
    def __init__(self, lx, bufpath):
        self.lx = lx
        self.eng = lx.eng
        self.bufpath = bufpath          # (cell, path) of the buffer
        self.cands = {}

    def buf(self, st):
        v = loops.at_path(loops.getcell(st, self.bufpath[0]), self.bufpath[1])
        return v if isinstance(v, Adt) else None

    def pos(self, st):
        b = self.buf(st)
        return b.f[self.lx.fi['pos']].e if b is not None else None

    def setup(self, final):
        live = {l for s in final for l in s.ghost.get('loops', ())}
        self.log = {l: x for l, x in self.eng.loop_log.items() if l in live}
        more = True
        while more:
            more = False
            for l in list(self.log):
                for b in self.log[l][3]:
                    for x in b.ghost.get('loops', ()):
                        if x not in self.log and x in self.eng.loop_log:
                            self.log[x] = self.eng.loop_log[x]
                            more = True
        for lid, (st, sh, abss, backs) in self.log.items():
            cs = []
            if self.pos(sh) is not None and self.bufpath[0] in abss:
                a, gp = I(self.pos(st)), I(self.pos(sh))
                self.lx.c(a)
                self.lx.c(gp)
                cs.append(('buf',))
                for f in list(self.lx.fs.values()):
                    cs.append(('fun', f[3]))
                hc = loops.cells(sh)
                for c in abss:
                    for path, v in texts(hc.get(c)):
                        if len(v.p) == 1 and isinstance(v.p[0], Atom):
                            cs.append(('text', c, path, v.p[0].name))
                            if 'strend' in self.lx.fs:
                                cs.append(('ct', c, path, v.p[0].name))
            self.cands[lid] = cs
        self.fix()

    def formulas(self, lid, cand, st):
        """the invariant as a formula about the state st"""
        lx = self.lx
        st0 = self.log[lid][0]
        a, p = I(self.pos(st0)), I(self.pos(st))
        if cand[0] == 'buf':
            b = self.buf(st)
            return z3.And(p >= a, p <= N, I(b.f[lx.fi['line']].e) == LN(sim(p)), I(b.f[lx.fi['col']].e) == CO(sim(p)))
        if cand[0] == 'fun':
            f = lx.fs[cand[1]]
            return lx.at(f, p) == lx.at(f, a)

    def inv(self, path):
        """what is known on a path that passed these loops"""
        eq, ct, fm = {}, [], []
        lx = self.lx
        for l in path:
            if l not in self.cands:
                continue
            st, sh = self.log[l][:2]
            a, gp = self.pos(st), self.pos(sh)
            for cd in self.cands[l]:
                if cd[0] in ('buf', 'fun'):
                    fm.append(self.formulas(l, cd, sh))
                elif cd[0] == 'text':
                    v0 = loops.at_path(loops.getcell(st, cd[1]), cd[2])
                    sg = lx.segs(v0, eq) + [('span', sim(a), sim(gp))]
                    eq[cd[3]] = lx.segs(totext(lx, sg)) if all(x[0] in ('span', 'lit', 'atom') for x in sg) else sg
            for cd in self.cands[l]:
                if cd[0] == 'ct':
                    v0 = loops.at_path(loops.getcell(st, cd[1]), cd[2])
                    if not lx.segs(v0, eq) and cd[3] not in eq:
                        ct.append((I(a), [('atom', cd[3])], I(gp)))
        if eq:
            for s, lit, r in list(lx.asked.values()):
                x = lx.segs(s, eq)
                if len(x) == 1 and x[0][0] == 'span' and any(isinstance(y, Atom) and y.name in eq for y in s.p):
                    fm.append(r == lx.islit(x[0][1], x[0][2], lit))
        return {'eq': eq, 'ct': ct}, fm

    def know(self, st, path=None):
        inv, fm = self.inv(st.ghost.get('loops', ()) if path is None else path)
        s = st.copy()
        for f in fm:
            s.assume(f)
        return s, inv

    def holds(self, lid, cd, st, inv):
        """does the candidate hold in the state st (with what is known)?"""
        lx = self.lx
        st0, sh = self.log[lid][:2]
        if not self.eng.feasible(st):
            return True
        if cd[0] in ('buf', 'fun'):
            f = self.formulas(lid, cd, st)
            lx.n += 1
            return self.lx.entails(st, f)
        v0 = loops.at_path(loops.getcell(st0, cd[1]), cd[2])
        v = loops.at_path(loops.getcell(st, cd[1]), cd[2])
        if not isinstance(v, Str):
            return False
        a, p = I(self.pos(st0)), I(self.pos(st))
        eq = inv['eq']
        if cd[0] == 'text':
            return self.settle(st, lambda s: Cmp(lx, s, inv).text(lx.segs(v, eq), lx.segs(v0, eq) + [('span', sim(a), sim(p))], 'text'))
        # ct: v0 ++ ct(a) == v ++ ct(p)
        if lx.segs(v0, eq):
            return False
        gp = I(self.pos(sh))
        if z3.is_true(sim2(p == gp)) or st is st0:
            return not lx.segs(v, eq) if st is st0 else True
        e2 = {x: y for x, y in eq.items() if x != cd[3]}

        def f(s):
            # one step of the definition from the generic position
            r = Ref(lx, s)
            if not r.is_(gp, '"'):
                raise Bad('no string')
            q = sim(lx.at(lx.close(), gp + 1))
            c = Cmp(lx, s, inv)
            c.text(lx.segs(v, e2), [('atom', cd[3]), ('span', sim(gp + 1), q)], 'text')
            c.must(p == lx.app(lx.run('sp'), q + 1), 'position')
        return self.settle(st, f)

    def settle(self, st, f):
        work = [st]
        m = 0
        while work:
            s = work.pop()
            m += 1
            if m > 60:
                return False
            if not self.eng.feasible(s):
                continue
            try:
                f(s)
            except Split as sp:
                work += [s.copy().assume(sp.c), s.copy().assume(NOT(sp.c))]
            except Bad:
                if not self.lx.entails(s, False):
                    return False
        return True

    def fix(self):
        for rnd in range(12):
            drop = False
            for lid in self.cands:
                st, sh, abss, backs = self.log[lid]
                outer = st.ghost.get('loops', ())
                s0, i0 = self.know(st, outer)
                bs = [(self.know(b)) for b in backs]
                keep = []
                for cd in self.cands[lid]:
                    ok = self.holds_at(lid, cd, st, s0, i0) and all(self.holds_at(lid, cd, b, s, i) for b, (s, i) in zip(backs, bs))
                    if ok:
                        keep.append(cd)
                if len(keep) != len(self.cands[lid]):
                    self.cands[lid] = keep
                    drop = True
            if not drop:
                return
        raise Unsupported('no loop invariant')

    def holds_at(self, lid, cd, st, s, inv):
        if st is self.log[lid][0]:
            # before the loop
            lx = self.lx
            if cd[0] == 'ct':
                v0 = loops.at_path(loops.getcell(st, cd[1]), cd[2])
                return not lx.segs(v0, inv['eq'])
            if cd[0] == 'text':
                return True
            if cd[0] == 'fun':
                return True
            return self.holds(lid, cd, s, inv)
        return self.holds(lid, cd, s, inv)


def texts(v, path=()):
    if isinstance(v, Str):
        yield path, v
    elif isinstance(v, (Adt, Tup)):
        for i, x in enumerate(v.f):
            yield from texts(x, path + (i,))


# ---------------------------------------------------------------- units
def deep(P, fn, want, unroll, contracts=(), pre=None, arg=None, cell=None, bufpath=(), key=None):
    """fn on a buffer at p0; want(lx, o, s, inv) raises Bad or Split"""
    lx = Lexp(P, unroll=unroll, contracts=contracts)
    eng = lx.eng
    st = State()
    c = ('H', 1)
    st.heap[c] = cell(lx) if cell else lx.mkbuf(lx.p0)
    lx.c(lx.p0)
    if pre is not None:
        st.assume(pre(lx))
    for nm in ('sp',):
        lx.run(nm)
    av = [MRef(c)] + (arg(lx) if arg else [])
    f = P.fn(fn)
    if eng.T[f['locals'][1]]['k'] == 'ref' and not eng.T[f['locals'][1]]['mut']:
        av[0] = SRef(st.heap[c])
    if key is not None:
        eng.loop_hooks['force'] = lambda eng, st, fr: fr.f['short'].startswith(LX)
        eng.loop_key = key
    outs = eng.run(fn, av, st)
    # the functions the specification uses are candidates for the invariants
    for o in outs:
        try:
            for _ in cases(lx, o.state, lambda r: want(lx, o, r, None)):
                pass
        except (Bad, Unsupported):
            pass
    lo = Loops(lx, (c, bufpath))
    lo.setup([o.state for o in outs])
    bad = []
    for o in outs:
        s, inv = lo.know(o.state)
        if not eng.feasible(s):
            continue
        try:
            for _ in cases(lx, s, lambda r: want(lx, o, r, inv), inv):
                pass
        except Bad as e:
            bad.append(str(e)[:500])
        if len(bad) > 2:
            break
    if not outs:
        bad.append('no outcome')
    return lx.n, bad, eng


def both(fn, want, unroll=2, **kw):
    """any number of repetitions, or else as many as can be run"""
    def thunk(P):
        why = None
        try:
            n, bad, eng = deep(P, fn, want, None, **kw)
            if not bad:
                return n, bad, eng
            why = bad[0]
            if not eng.loop_log:
                return n, bad, eng
        except Unsupported as e:
            why = str(e)
        for u in (1, unroll, 7):
            n, bad, eng = deep(P, fn, want, u, **kw)
            if bad:
                return n, bad, eng
        raise Unsupported('no loop invariant: ' + str(why)[:300])
    return thunk


CELL = ('H', 1)


def endpos(lx, o, path=()):
    v = loops.at_path(o.state.heap[CELL], path)
    return v


def framed(lx, o, cm, end, path=()):
    """the buffer afterwards: at this position, with its invariant"""
    b = endpos(lx, o, path)
    p = I(b.f[lx.fi['pos']].e)
    sp = lx.run('sp')
    cm.must(z3.And(p >= 0, p <= N), f'position {p}')
    cm.must(lx.at(sp, p) == lx.at(sp, end), f'stops at {p} instead of {end}')
    cm.must(I(b.f[lx.fi['line']].e) == LN(sim(p)), f'line at {p}')
    cm.must(I(b.f[lx.fi['col']].e) == CO(sim(p)), f'column at {p}')
    s = b.f[lx.fi['s']]
    if not (isinstance(s, Seq) and len(s.p) == 1 and s.p[0][0] == 's' and s.p[0][1].name == 'S'):
        raise Bad('the text is changed')


def exact(lx, o, cm, end):
    b = endpos(lx, o)
    cm.must(I(b.f[lx.fi['pos']].e) == I(end), f"stops at {b.f[lx.fi['pos']].e} instead of {end}")
    framed(lx, o, cm, end)


def reads(fn, rule, pre, contracts, at=None):
    def want(lx, o, r, inv):
        try:
            w = getattr(r, 'r_' + rule)(lx.p0)
        except Malformed:
            return None
        except ErrTok:
            if o.kind == 'panic' or inv is None:
                return None
            t = strip(o.ret)
            if w_none(lx, o, t):
                raise Bad('ends where there is an error')
            t = inner(lx, t)
            cm = Cmp(lx, r.st, inv or {'eq': {}})
            cm.text(lx.segs(strip(lx.eng.get(t, 'kind')), (inv or {'eq': {}})['eq']), [('lit', 'error')], 'kind')
            return None
        if inv is None:
            return None
        if 'malformed' in r.st.ghost:
            return None
        if o.kind == 'panic':
            raise Bad(f'panics: {o.why}')
        t = strip(o.ret)
        if w[0] == 'none':
            if not w_none(lx, o, t):
                raise Bad('a token at the end of the text')
            return None
        if w_none(lx, o, t):
            raise Bad(f'no token instead of {w[1]}')
        t = inner(lx, t)
        cm = Cmp(lx, r.st, inv)
        cm.tok(t, w)
        framed(lx, o, cm, w[3])
    return both(LE + fn, want, pre=pre, contracts=contracts)


def w_none(lx, o, t):
    return isinstance(t, Adt) and lx.eng.T[t.t]['v'][t.v]['n'] == 'None'


def inner(lx, t):
    if isinstance(t, Adt) and lx.eng.T[t.t]['v'][t.v]['n'] == 'Some':
        return strip(t.f[0])
    return t


def char0(lx):
    return lx.c(lx.p0)


PRE = {
    'word': lambda lx: z3.And(lx.p0 < N, z3.Or(lx.eng.charclass(lx.eng, 'is_ascii_alphabetic', lx.c(lx.p0)), lx.c(lx.p0) == 95)),
    'number': lambda lx: z3.And(lx.p0 < N, lx.eng.charclass(lx.eng, 'is_ascii_digit', lx.c(lx.p0))),
    'hex': lambda lx: lx.follows('0x', lx.p0),
    'string': lambda lx: z3.And(lx.p0 < N, lx.c(lx.p0) == 34),
    'char': lambda lx: z3.And(lx.p0 < N, lx.c(lx.p0) == 39),
    'comment': lambda lx: lx.follows('/*', lx.p0),
}
BUFC = [BU + m for m in ('more', 'ended', 'peek', 'get', 'pos', 'read_set', 'skip_literal', 'until_literal', 'literal_follows', 'skip_until')]


def simple(fn, want, contracts=(), arg=None, pre=None, unroll=3):
    """a method of Buf; want(lx, o, cm) checks the outcome"""
    def w(lx, o, r, inv):
        if inv is None:
            want(lx, o, None, r)
            return
        if o.kind == 'panic':
            raise Bad(f'panics: {o.why}')
        cm = Cmp(lx, r.st, inv)
        want(lx, o, cm, r)
    return both(BU + fn, w, contracts=[BU + c for c in contracts], arg=arg, pre=pre, unroll=unroll)


def jobs():
    J = {}

    def b_more(neg):
        def want(lx, o, cm, r):
            if cm:
                cm.must(B(o.ret.e) == (z3.Not(lx.p0 < N) if neg else lx.p0 < N), 'more')
                exact(lx, o, cm, lx.p0)
        return want
    J['buf more'] = (BU + 'more', simple('more', b_more(False)))
    J['buf ended'] = (BU + 'ended', simple('ended', b_more(True)))

    def b_char(step):
        def want(lx, o, cm, r):
            if not cm:
                return
            more = r.ask(lx.p0 < N)
            if w_none(lx, o, strip(o.ret)) == more:
                raise Bad('end of the text')
            if more:
                cm.must(inner(lx, strip(o.ret)).e == lx.c(lx.p0), 'character')
                exact(lx, o, cm, lx.p0 + step)
            else:
                exact(lx, o, cm, lx.p0)
        return want
    J['buf peek'] = (BU + 'peek', simple('peek', b_char(0)))
    J['buf get'] = (BU + 'get', simple('get', b_char(1)))

    def b_pos(lx, o, cm, r):
        if cm:
            cm.must(I(lx.eng.get(o.ret, 'line').e) == LN(lx.p0), 'line')
            cm.must(I(lx.eng.get(o.ret, 'col').e) == CO(lx.p0), 'column')
    J['buf pos'] = (BU + 'pos', simple('pos', b_pos))

    def passes(f):
        def want(lx, o, cm, r):
            g = f(lx)
            e = sim(lx.at(g, lx.p0))
            lx.c(e)
            if cm:
                cm.text(lx.segs(strip(o.ret), cm.inv['eq']), [('span', lx.p0, e)], 'text')
                exact(lx, o, cm, e)
        return want
    for nm, s in SETS.items():
        J[f'buf read_set {nm}'] = (BU + 'read_set', simple('read_set', passes(lambda lx, nm=nm: lx.run(nm)), ['more', 'peek', 'get'],
                                                          arg=lambda lx, s=s: [Str((s,))], unroll=2))
    for ch in ('\n', 'x', '"'):
        J[f'buf skip_until {ord(ch)}'] = (BU + 'skip_until', simple('skip_until', passes(lambda lx, ch=ch: lx.run(f'not{ord(ch)}')), ['more', 'peek', 'get'],
                                                                   arg=lambda lx, ch=ch: [Int(ord(ch))]))
    for s in ('*/', '//', '###'):
        J[f'buf until_literal {s}'] = (BU + 'until_literal', simple('until_literal', passes(lambda lx, s=s: lx.until(s)), ['more', 'peek', 'get', 'literal_follows'],
                                                                   arg=lambda lx, s=s: [SRef(Str((s,)))]))

    def b_fol(s, step):
        def want(lx, o, cm, r):
            if not cm:
                return
            f = lx.follows(s, lx.p0)
            cm.must(B(o.ret.e) == f, 'follows')
            if step and r.ask(f):
                exact(lx, o, cm, lx.p0 + len(s))
            elif step:
                exact(lx, o, cm, lx.p0)
        return want
    for s in SYMBOLS + ['#import', '/*', '//', '*/', '0x', '']:
        J[f'buf literal_follows {s}'] = (BU + 'literal_follows', simple('literal_follows', b_fol(s, False), arg=lambda lx, s=s: [SRef(Str((s,)))]))
        J[f'buf skip_literal {s}'] = (BU + 'skip_literal', simple('skip_literal', b_fol(s, True), ['literal_follows', 'get'], arg=lambda lx, s=s: [SRef(Str((s,)))]))
    J['buf new'] = ('buf::new', new_unit)
    for fn, rule in READERS.items():
        J[f'lex {rule}'] = (LE + fn, reads(fn, rule, PRE[rule], BUFC + ([LE + 'read_hex'] if rule == 'number' else [])))
    J['lex token'] = (LE + 'read_token', reads('read_token', 'token', None, BUFC + [LE + f for f in READERS]))
    for d in range(4):
        for m in ('get', 'unget', 'more', 'peek', 'follows', 'eat', 'peekn 1', 'peekn 2', 'peekn 3'):
            J[f'lexer {m} {d}'] = (LX + m.split()[0], lexer_unit(m, d), 'at most 3 tokens are put back')
    return J


def new_unit(P):
    lx = Lexp(P)
    eng = lx.eng
    outs = eng.run('buf::new', [Str((Atom('source'),))])
    bad = []
    for o in outs:
        if o.kind == 'panic':
            bad.append('panics')
            continue
        b = o.ret
        lx.n += 4
        for n, v in (('pos', 0), ('line', 1), ('col', 1)):
            if not (isinstance(b.f[lx.fi[n]].e, int) and b.f[lx.fi[n]].e == v):
                bad.append(f'{n} is {b.f[lx.fi[n]]!r}')
        s = b.f[lx.fi['s']]
        if not (isinstance(s, Seq) and len(s.p) == 1 and s.p[0][0] == 's' and s.p[0][1].info and s.p[0][1].info[0] == 'chars' and s.p[0][1].info[1].p == (Atom('source'),)):
            bad.append(f'text is {s!r}')
    return lx.n, bad, eng


# ---------------------------------------------------------------- the token queue
def lexer_unit(m, d):
    name, _, cnt = m.partition(' ')

    def thunk(P):
        lt = P.type_named('lexer::Lexer')

        def cell(lx):
            fs = []
            for f in lx.eng.T[lt]['v'][0]['f']:
                if f['t'] == lx.bt:
                    fs.append(lx.mkbuf(lx.p0))
                elif 'VecDeque' in lx.eng.T[f['t']].get('n', ''):
                    fs.append(Seq([('e', lx.eng.make(lx.tt, f'Q{i}')) for i in range(d)], f['t']))
                else:
                    raise Unsupported('Lexer')
            return Adt(lt, 0, fs)
        eng0 = Engine(P)
        fields = eng0.T[lt]['v'][0]['f']
        bi = [i for i, f in enumerate(fields) if f['t'] == P.type_named('buf::Buf')]
        qi = [i for i, f in enumerate(fields) if 'VecDeque' in eng0.T[f['t']].get('n', '')]
        if len(bi) != 1 or len(qi) != 1 or len(fields) != 2:
            raise Unsupported('Lexer has other fields')

        def arg(lx):
            if name == 'unget':
                return [lx.eng.make(lx.tt, 'T')]
            if name in ('follows', 'eat'):
                return [SRef(Str((Atom('wanted'),)))]
            if name == 'peekn':
                return [Int(int(cnt))]
            return []

        def stream(lx, r, k_, p):
            """the k-th token from position p of the buffer: (name or None, position behind it)"""
            t = lx.tokfuns()
            sk = lx.skip()
            q = p
            for _ in range(k_ + 1):
                q = sim(lx.at(sk, q))
                lx.c(q)
                if r.ask(t['none'](q)):
                    return None, q
                last, q = q, sim(t['end'](q))
                lx.eng.axioms.append(z3.Implies(z3.And(last >= 0, last <= N, z3.Not(t['none'](last))), z3.And(q > last, q <= N)))
            return last, q

        def want(lx, o, r, inv):
            eng = lx.eng
            t = lx.tokfuns()
            if inv is None:
                for i in range(3):
                    stream(lx, r, i, lx.p0)
                return
            if o.kind == 'panic':
                raise Bad(f'panics: {o.why}')
            cm = Cmp(lx, r.st, inv)

            def at(i):
                """token i of the stream, from the queue or the text: a name or a position"""
                if i < d:
                    return ('q', f'Q{i}'), None
                a, q = stream(lx, r, i - d, lx.p0)
                return (None if a is None else ('p', a)), q

            def same(v, w, what):
                v = strip(v)
                if w[0] == 'q':
                    if k(v) != k(eng.make(lx.tt, w[1])):
                        raise Bad(f'{what}: {v!r} instead of {w[1]}'[:300])
                    lx.n += 1
                    return
                nm = getattr(v, 'name', '')
                if not nm.startswith('TK['):
                    raise Bad(f'{what}: {v!r} instead of the token at {w[1]}'[:300])
                key = [p for kk, p in eng.memo.items() if isinstance(kk, tuple) and kk[0] == 'tok' and f'TK[{p}]' == nm]
                cm.must(key[0] == w[1], f'{what}: the token at {key[0]} instead of {w[1]}')

            def rest(skip, extra=()):
                """the stream afterwards is the one before without its first tokens"""
                v = o.state.heap[CELL]
                q = v.f[qi[0]]
                b = v.f[bi[0]]
                if not isinstance(q, Seq) or not q.concrete():
                    raise Unsupported('queue')
                items = list(extra_check(q.items(), extra))
                j = skip
                for x in items:
                    w, _ = at(j)
                    if w is None:
                        raise Bad('a token behind the end')
                    same(x, w, f'token {j}')
                    j += 1
                if j < d:
                    raise Bad('a token is lost')
                want_p = lx.p0
                if j > d:
                    _, want_p = stream(lx, r, j - d - 1, lx.p0)
                sk = lx.skip()
                p = I(b.f[lx.fi['pos']].e)
                cm.must(z3.And(lx.at(sk, p) == lx.at(sk, want_p), p >= 0, p <= N), f'the text is read from {p} instead of {want_p}')
                cm.must(z3.And(I(b.f[lx.fi['line']].e) == LN(sim(p)), I(b.f[lx.fi['col']].e) == CO(sim(p))), f'line and column at {p}')

            def extra_check(items, extra):
                items = list(items)
                for w in extra:
                    if not items:
                        raise Bad('a token is lost')
                    if k(strip(items[0])) != k(w):
                        raise Bad(f'{items[0]!r} comes first'[:200])
                    items.pop(0)
                return items

            ret = strip(o.ret) if o.ret is not None else None
            if name == 'unget':
                return rest(0, [eng.make(lx.tt, 'T')])
            w, _ = at(0)
            if name == 'more':
                cm.must(ret.e if w is not None else NOT(ret.e), 'more')
                return rest(0)
            if name in ('follows', 'eat'):
                if w is None:
                    cm.must(NOT(ret.e), name)
                    return rest(0)
                nm = w[1] if w[0] == 'q' else None
                if nm is None:
                    keys = [p for kk, p in eng.memo.items() if isinstance(kk, tuple) and kk[0] == 'tok']
                    ps = [p for p in keys if lx.entails(r.st, p == w[1])]
                    if not ps:
                        raise Bad(f'{name}: the token at {w[1]} is not looked at')
                    nm = f'TK[{ps[0]}]'
                    # the same token under different names
                    kds = [eng.get(eng.make(lx.tt, f'TK[{p}]'), 'kind') for p in ps]
                    for x in kds[1:]:
                        r.st.assume(B(eng.streq(x, kds[0])))
                kd = eng.get(eng.make(lx.tt, nm), 'kind')
                yes = r.ask(eng.streq(kd, Str((Atom('wanted'),))))
                cm.must(ret.e if yes else NOT(ret.e), name)
                return rest(1 if yes and name == 'eat' else 0)
            if name == 'peekn':
                ws = [at(i)[0] for i in range(int(cnt))]
                if any(x is None for x in ws):
                    if not w_none(lx, o, ret):
                        raise Bad('tokens behind the end')
                    return rest(0)
                if w_none(lx, o, ret):
                    raise Bad('no tokens')
                sq = inner(lx, ret)
                if not isinstance(sq, Seq) or len(sq.items()) != int(cnt):
                    raise Bad(f'{sq!r} instead of {cnt} tokens'[:200])
                for x, y in zip(sq.items(), ws):
                    same(strip(eng.load(o.state, x)) if isinstance(x, MRef) else x, y, 'token')
                return rest(0)
            # get, peek
            if w is None:
                if not w_none(lx, o, ret):
                    raise Bad('a token behind the end')
                return rest(0)
            if w_none(lx, o, ret):
                raise Bad('no token')
            v = inner(lx, ret)
            same(strip(eng.load(o.state, v)) if isinstance(v, MRef) else v, w, 'token')
            rest(1 if name == 'get' else 0)
        con = [LE + 'read_token']
        return both(LX + name, want, arg=arg, cell=cell, bufpath=(bi[0],), contracts=con,
                    key=lambda st: len(st.heap[CELL].f[qi[0]].p) if isinstance(st.heap[CELL].f[qi[0]], Seq) else None)(P)
    return thunk


ASSUMES = [
    'fewer than 2^40 characters',
    'inductive lemmas about the position functions (line and column after a prefix) are assumed',
    "'#import' directly followed by a line end, '1e' without digits, three single quotes and '#define X' without a value are outside the language",
    'the texts of error tokens are of no interest',
]
GROUPS = {'lex': ['buf', 'lex ', 'lexer']}
