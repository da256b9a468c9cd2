"""Contracts of the type rules (src/types.rs and the typed part of
src/translator.rs): which operands, conditions and calls are accepted, and which
type an accepted expression has.

A type is a base name and the operations that lead to it. The rules are stated
on the kind of a type (pointer, array, signed, unsigned, floating point, numeric
constant, character, boolean, unknown, other) after typedefs are looked through.
The functions of types.rs are inlined into the translating functions, so that
the rules are checked where a program meets them; each is also checked alone,
for types with any number of operations."""
import itertools
import re
from .nameproof import *
from . import nameproof

PTR, ARR, SINT, UINT, FLT, NUM, CHAR, UNK, BOOL, NONE = range(10)
TODO = '*** TODO *** '
NAMES = [(SINT, ['int', 'int16_t', 'int32_t', 'int64_t', 'int8_t', 'ptrdiff_t']),
         (UINT, ['size_t', 'uint16_t', 'uint32_t', 'uint64_t', 'uint8_t']),
         (FLT, ['float', 'double']), (NUM, ['number']), (CHAR, ['char']), (UNK, [TODO]), (BOOL, ['bool'])]
CLASS = {PTR: 'PTR', ARR: 'ARR', SINT: 'SINT', UINT: 'UINT', FLT: 'FLT', NUM: 'CONSTNUM', CHAR: 'CHAR', UNK: 'UNK', BOOL: 'BOOL', NONE: 'NONE'}
SIZES = {'size_t': 64, 'uint64_t': 64, 'int64_t': 64, 'uint32_t': 32, 'int32_t': 32, 'uint16_t': 16, 'int16_t': 16,
        'uint8_t': 8, 'int8_t': 8, 'int': 32, 'double': 64, 'float': 32, 'ptrdiff_t': 64, 'char': 8, 'time_t': 32}
CMP = ['==', '<', '>', '!=', '>=', '<=']
ARITH = ['*', '/', '%', '<<', '>>', '&', '|', '^']
ASSIGN = ['=', '+=', '-=', '/=', '*=', '|=', '%=', '&=', '^=', '<<=', '>>=']
TYPEFNS = ('types::is_booly', 'types::typeof_boolcomp', 'types::typeof_cmp', 'types::typeof_plusminus', 'types::typeof_arith',
           'types::typeof_deref', 'types::typeof_index', TR + 'typeof_struct_field', TR + 'typeof_call', TR + 'root_type',
           TR + 'typefrom_typename', TR + 'typefrom_baretypeform', TR + 'typeof_literal', TR + 'typefrom_funcdecl',
           TR + 'typefrom_typedef', 'types::typeof_addr')


class Ty:
    """a type seen by the rules"""

    def __init__(self, ns, name, ops):
        self.ns, self.name, self.ops = ns, name, ops


class TT(N):
    def __init__(self, P, lens=None, no=(), **kw):
        super().__init__(P, lens=lens, no=tuple(no) + TYPEFNS, **kw)
        self.tt = P.type_named('types::Type')
        self.classed = set()
        if self.has('types::Type::fmt'):
            self.eng.contracts['types::Type::fmt'] = self.fmt_contract
        if 'types::classify' in P.byname and 'types::classify' not in no:
            self.eng.contracts['types::classify'] = self.classify_contract
        if 'types::typesize' in P.byname and 'types::typesize' not in no:
            self.eng.contracts['types::typesize'] = self.size_contract
        if TR + 'root_type' in P.byname and 'root_type' not in no:
            self.eng.contracts[TR + 'root_type'] = self.root_contract
            self.rooted = True
        else:
            self.rooted = False

    def classify_contract(self, eng, st, args):
        y = self.ty(eng.load(st, args[0]))
        rt = self.ret_type('types::classify')
        kd = self.kind(y)
        nm = self.name('class', (k(strip(eng.load(st, args[0]))),))
        c = eng.make(rt, nm)
        if nm not in self.classed:
            self.classed.add(nm)
            tag = eng.tag(c)
            for code, vn in CLASS.items():
                eng.axioms.append((tag == self.P.variant(rt, vn)) == (kd == code))
        return [(st, c)]

    def size_contract(self, eng, st, args):
        y = self.ty(eng.load(st, args[0]))
        ok = self.named(y, list(SIZES))
        out = []
        if eng.feasible(st, ok):
            out.append((st.copy().assume(ok), Int(self.size(y))))
        if eng.feasible(st, NOT(ok)):
            s2 = st.copy().assume(NOT(ok))
            out.append((s2, Outcome('panic', s2, why='size of an unknown type')))
        return out

    def root_contract(self, eng, st, args):
        t = [strip(eng.load(st, a)) for a in args]
        t = [x for x in t if not self.isctx(x)][0]
        return [(st, self.root_sym(t))]

    def root_sym(self, t):
        return self.eng.make(self.tt, self.name('root', (k(strip(t)),)))

    # ---- the text of a type
    def fmt_contract(self, eng, st, args):
        t = strip(eng.load(st, args[0]))
        y = self.ty(t)
        out = []
        L = I(eng.seqlen(y.ops))
        e0 = z3.And(L == 0, B(eng.streq(y.ns, Str(()))))
        if eng.feasible(st, e0):
            out.append((st.copy().assume(e0), Str(strip(y.name).p)))
        e1 = z3.And(L == 0, NOT(B(eng.streq(y.ns, Str(())))))
        if eng.feasible(st, e1):
            s = st.copy().assume(e1)
            r = Str((Atom(f'fmt {k(t)}'),))
            # neither part of a qualified name has a dot or a blank in it
            for _, ns in NAMES + [(0, ['...', 'void'])]:
                for n in ns:
                    eng.axioms.append(NOT(B(eng.streq(r, Str((n,))))))
            out.append((s, r))
        for v, lit in (('Deref', 'pointer to '), ('Index', 'array of '), ('Call', 'func (')):
            if y.ops.concrete() and not y.ops.items():
                break
            c = z3.And(L > 0, self.tag0(y, v))
            if eng.feasible(st, c):
                out.append((st.copy().assume(c), Str((lit, Atom(f'fmt rest {k(t)}')))))
        return out

    # ---- types
    def ty(self, v):
        v = strip(v)
        b = strip(self.eng.get(v, 'base'))
        return Ty(strip(self.eng.get(b, 'ns')), strip(self.eng.get(b, 'name')), strip(self.eng.get(v, 'ops')))

    def just(self, name, ops=()):
        ot = [f['t'] for f in self.eng.T[self.tt]['v'][0]['f'] if f['n'] == 'ops'][0]
        et = self.eng.T[ot]['args'][0]
        return Ty(Str(()), Str((name,) if name else ()), Seq([('e', Adt(et, self.P.variant(et, o), ())) for o in ops], ot))

    def op0(self, y):
        if y.ops.concrete():
            its = y.ops.items()
            return its[0] if its else None
        return self.eng.index(None, y.ops, 0)

    def tag0(self, y, variant):
        o = self.op0(y)
        if o is None:
            return z3.BoolVal(False)
        return self.istag(o, variant)

    def istag(self, o, variant):
        o = strip(o)
        if isinstance(o, Adt):
            return z3.BoolVal(o.v == self.P.variant(o.t, variant))
        return self.eng.tag(o) == self.P.variant(o.t, variant)

    def se(self, a, b):
        return B(self.eng.streq(strip(a), Str((b,) if b else ()) if isinstance(b, str) else strip(b)))

    def plain(self, y):
        return z3.And(I(self.eng.seqlen(y.ops)) == 0, self.se(y.ns, ''))

    def named(self, y, names):
        return z3.And(self.plain(y), z3.Or(*[self.se(y.name, n) for n in names]))

    def todo(self, y):
        return self.named(y, [TODO])

    def kind(self, y):
        r = z3.IntVal(NONE)
        for c, ns in reversed(NAMES):
            r = z3.If(z3.Or(*[self.se(y.name, n) for n in ns]), c, r)
        r = z3.If(self.plain(y), r, NONE)
        if y.ops.concrete() and not y.ops.items():
            return r
        L = I(self.eng.seqlen(y.ops))
        return z3.If(L > 0, z3.If(self.tag0(y, 'Deref'), PTR, z3.If(self.tag0(y, 'Index'), ARR, NONE)), r)

    def size(self, y):
        r = z3.IntVal(0)
        for n, s in SIZES.items():
            r = z3.If(self.se(y.name, n), s, r)
        return r

    def opseq(self, a, b):
        """are two lists of operations the same?"""
        if k(a) == k(b):
            return z3.BoolVal(True)
        if not (a.concrete() and b.concrete()):
            La, Lb = I(self.eng.seqlen(a)), I(self.eng.seqlen(b))
            if (a.concrete() and not a.items()) or (b.concrete() and not b.items()):
                return La == Lb
            raise Unsupported('operations of unknown number')
        xs, ys = a.items(), b.items()
        if len(xs) != len(ys):
            return z3.BoolVal(False)
        cs = []
        for x, y in zip(xs, ys):
            x, y = strip(x), strip(y)
            if k(x) == k(y):
                continue
            if isinstance(x, Adt) and isinstance(y, Adt):
                if x.v != y.v:
                    return z3.BoolVal(False)
                if x.f:
                    p, q = strip(x.f[0]), strip(y.f[0])
                    if k(p) != k(q):
                        if not (p.concrete() and q.concrete()):
                            raise Unsupported('parameters')
                        ps, qs = p.items(), q.items()
                        if len(ps) != len(qs):
                            return z3.BoolVal(False)
                        cs += [self.same(self.ty(u), self.ty(w)) for u, w in zip(ps, qs)]
                continue
            z, w = (x, y) if isinstance(x, Adt) else (y, x)
            if isinstance(z, Adt) and not z.f:
                cs.append(self.istag(w, self.eng.T[z.t]['v'][z.v]['n']))
                continue
            raise Unsupported('operation')
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def same(self, a, b):
        return z3.And(self.se(a.ns, b.ns), self.se(a.name, b.name), self.opseq(a.ops, b.ops))

    def alike(self, a, b):
        """the same type as far as the rules can tell"""
        num = z3.And(self.plain(a), self.plain(b), z3.Or(*[self.kind(b) == c for c in (SINT, UINT, FLT)]),
                     self.kind(a) == self.kind(b), self.size(a) == self.size(b))
        return z3.Or(self.same(a, b), num)

    # ---- typedefs: [(condition, type)]
    def root(self, t, ctx):
        if self.rooted:
            return [(z3.BoolVal(True), self.ty(self.root_sym(t)))]
        return self.roots(self.ty(t), ctx)

    def roots(self, y, ctx):
        eng = self.eng
        m = eng.get(ctx, 'other_typedefs')
        out = [(NOT(self.se(y.ns, '')), self.just(TODO))]
        loc = self.se(y.ns, '')
        nm = self.csym(y.name)
        cs = eng.make(self.P.type_named('cspec::CSymbol'), 'csym ' + nm)
        builtin = z3.And(z3.Bool('csym ' + nm), eng.tag(eng.get(cs, 'kind')) == self.P.variant(eng.get(cs, 'kind').t, 'TYPE'))
        out.append((z3.And(loc, builtin), y))
        h, d = eng.mapsym(m, y.name)
        dy = self.ty(eng.get(d, 't'))
        if not (y.ops.concrete() and dy.ops.concrete()):
            raise Unsupported('operations of unknown number')
        ry = Ty(dy.ns, dy.name, Seq(y.ops.p + dy.ops.p, y.ops.t))
        loc = z3.And(loc, NOT(builtin))
        out.append((z3.And(loc, h), ry))
        out.append((z3.And(loc, NOT(h)), y))
        return out

    def kinds(self, ys):
        r = z3.IntVal(NONE)
        for c, y in ys:
            r = z3.If(c, self.kind(y), r)
        return r


def isin(x, *cs):
    return z3.Or(*[x == c for c in cs])


class Rules:
    """accepts: formula; results: [(condition, alternatives)] where the
    alternatives of a type are [(condition, type)]"""

    def __init__(self, tt, a, b=None):
        self.tt, self.A, self.B_ = tt, a, b
        self.a = tt.kinds(a)
        self.b = tt.kinds(b) if b else None

    def j(self, name, ops=()):
        return [(z3.BoolVal(True), self.tt.just(name, ops))]

    def booly(self, x):
        return isin(x, PTR, SINT, UINT, BOOL, UNK)

    def boolcomp(self):
        return z3.And(self.booly(self.a), self.booly(self.b)), [(True, self.j('bool'))]

    def cmp(self):
        a, b = self.a, self.b
        num = lambda x: isin(x, FLT, SINT, UINT, CHAR)
        acc = z3.Or(a == UNK, b == UNK,
                    z3.And(a == b, isin(a, FLT, SINT, UINT, CHAR, BOOL, PTR, NUM)),
                    z3.And(num(a), b == NUM), z3.And(a == NUM, num(b)),
                    z3.And(a == CHAR, b == SINT), z3.And(a == SINT, b == CHAR))
        return acc, [(True, self.j('bool'))]

    def wide(self):
        """of two numeric types, the wider one; of two equally wide ones, the second"""
        tt = self.tt
        out = []
        for ca, ya in self.A:
            for cb, yb in self.B_:
                w = tt.size(ya) > tt.size(yb)
                out.append((z3.And(ca, cb, w), ya))
                out.append((z3.And(ca, cb, z3.Not(w)), yb))
        return out

    def arith(self):
        a, b = self.a, self.b
        ints = lambda x: isin(x, SINT, UINT)
        num = lambda x: isin(x, SINT, UINT, FLT)
        R = [
            (z3.And(a == NUM, b == NUM), self.A),
            (z3.And(a == FLT, b == FLT), self.wide()),
            (z3.And(ints(a), ints(b)), self.wide()),
            (z3.Or(z3.And(a == CHAR, b == NUM), z3.And(a == NUM, b == CHAR)), self.j('int')),
            (z3.And(a == NUM, num(b)), self.B_),
            (z3.And(num(a), b == NUM), self.A),
            (z3.Or(a == UNK, b == UNK), self.j(TODO)),
            (z3.And(ints(a), b == FLT), self.B_),
            (z3.And(a == FLT, ints(b)), self.A),
        ]
        return z3.Or(*[c for c, _ in R]), R

    def plusminus(self, minus):
        a, b = self.a, self.b
        num = lambda x: isin(x, SINT, UINT, FLT)
        off = lambda x: isin(x, SINT, UINT, NUM)
        mem = lambda x: isin(x, PTR, ARR)
        R = [
            (z3.And(a == NUM, b == NUM), self.A),
            (z3.And(a == b, isin(a, SINT, UINT, FLT)), self.wide()),
            (z3.And(a == NUM, num(b)), self.B_),
            (z3.And(num(a), b == NUM), self.A),
            (z3.Or(a == UNK, b == UNK), self.j(TODO)),
            (z3.And(minus, a == PTR, b == PTR), self.j('ptrdiff_t')),
            (z3.And(mem(a), off(b)), self.A),
            (z3.And(off(a), mem(b)), self.B_),
        ]
        return z3.Or(*[c for c, _ in R]), R


class Judge:
    """compares the outcomes with a rule"""

    def __init__(self, tt, fn):
        self.tt, self.fn = tt, fn
        self.bad = []
        self.n = 0
        self.oks = 0

    def run(self, args, st, acc, res, typ, pre=(), errs=True):
        tt, eng = self.tt, self.tt.eng
        outs = eng.run(self.fn, args, st)
        if callable(acc):
            acc, res = acc()
        for o in outs:
            self.n += 1
            if o.kind == 'panic':
                if eng.feasible(o.state) and 'already defined' not in o.why:
                    self.bad.append(f'{self.fn} panics: {o.why}; path: {pcs(o.state)}')
                continue
            v = ok_value(tt, o)
            if v is None:
                if errs and (o.state.ghost.get('err') or any(c is not True and ('U#' in str(c) or '.used' in str(c)) for c in o.state.pc)):
                    continue
                if not eng.entails(o.state, NOT(acc)):
                    self.bad.append(f'{self.fn} refuses what is well typed; path: {pcs(o.state)}')
                continue
            self.oks += 1
            if not eng.entails(o.state, acc):
                self.bad.append(f'{self.fn} accepts what is ill typed; path: {pcs(o.state)}')
                continue
            if res is not None:
                self.result(o.state, tt.ty(typ(v)), res)
        if not self.oks and not self.bad:
            raise Unsupported('nothing is accepted')
        return self.n, self.bad, eng

    def result(self, st, got, res):
        tt, eng = self.tt, self.tt.eng
        for c, alts in res:
            for ca, y in alts:
                cc = AND(B(c), B(ca))
                if not eng.feasible(st, cc):
                    continue
                self.n += 1
                if not eng.entails(st.copy().assume(cc), tt.alike(got, y)):
                    self.bad.append(f'{self.fn}: the type is {got.ns!r} {got.name!r} {got.ops!r} instead of {y.ns!r} {y.name!r} {y.ops!r}; path: {pcs(st)}')


def lens_for(table, extra=None):
    """numbers of operations per operand: {suffix of the source: n}; '*' typedefs"""
    box = {}

    def f(name):
        m = re.match(r'type of (T expr#\d+)\.ops$', name)
        if m:
            rev = {v: kk for kk, v in box['tr'].reg.items()}
            src = str(rev[m.group(1)][1][0])
            for suf, n in table.items():
                if src.endswith(suf + "')"):
                    return n
            return None
        if re.match(r'root#\d+\.ops$', name):
            return table.get('root')
        if name.endswith('.t.ops') and 'other_typedefs' in name:
            return table.get('*')
        return extra(name) if extra else None
    return f, box


def tt_for(P, table, extra=None, budget=60.0, no=(), fixed=None):
    ln, box = lens_for(table, extra)
    tt = TT(P, lens=ln, budget=budget, no=no, fixed=fixed)
    box['tr'] = tt
    return tt


def typ_of(tt, ctx, part):
    return tt.eng.make(tt.tt, 'type of ' + tt.tname('expr', strip(part), ctx))


def run_binary(P, group, la, lb, ld):
    tt = tt_for(P, {'.a': la, '.b': lb, '*': ld})
    eng = tt.eng
    e = eng.make(P.type_named('nodes::Expr'), 'e')
    st = State()
    st.assume(eng.tag(e) == P.variant(e.t, 'BinaryOp'))
    cm, ctx0 = tt.context(st)
    x = strip(eng.get(e, '0', 'BinaryOp'))
    op = eng.get(x, 'op')
    ops = {'bool': ['&&', '||'], 'cmp': CMP, 'plusminus': ['+', '-'], 'arith': ARITH, 'assign': ASSIGN}[group]
    st.assume(z3.Or(*[tt.se(op, o) for o in ops]))
    ra = tt.root(typ_of(tt, ctx0, eng.get(x, 'a')), ctx0)
    rb = tt.root(typ_of(tt, ctx0, eng.get(x, 'b')), ctx0)
    R = Rules(tt, ra, rb)
    if group == 'bool':
        acc, res = R.boolcomp()
    elif group == 'cmp':
        acc, res = R.cmp()
    elif group == 'arith':
        acc, res = R.arith()
    elif group == 'plusminus':
        acc, res = R.plusminus(tt.se(op, '-'))
    else:
        acc, res = z3.BoolVal(True), [(True, R.j('void'))]
    return Judge(tt, TR + 'tr_expr').run([SRef(e), cm], st, acc, res, lambda v: eng.get(strip(v), 'typ'))


def bare(P, fn, no=(), lens=None, budget=60.0):
    """a function of types alone"""
    tt = TT(P, lens=lens, no=no, budget=budget)
    if fn not in P.byname:
        raise Unsupported(f'no function {fn}')
    return tt, tt.eng, State()


def run_classify(P):
    fn = 'types::classify'
    tt, eng, st = bare(P, fn, (fn,))
    t = eng.make(tt.tt, 't')
    kd = tt.kind(tt.ty(t))
    bad, n = [], 0
    for o in eng.run(fn, [SRef(t)], st):
        n += 1
        if o.kind == 'panic':
            bad.append(f'{fn} panics: {o.why}')
            continue
        r = strip(o.ret)
        for code, vn in CLASS.items():
            n += 1
            if not eng.entails(o.state, tt.istag(r, vn) == (kd == code)):
                bad.append(f'{fn}: wrong about {vn}; path: {pcs(o.state)}')
    return n, bad, eng


def run_size(P):
    fn = 'types::typesize'
    tt, eng, st = bare(P, fn, (fn,))
    t = eng.make(tt.tt, 't')
    y = tt.ty(t)
    st.assume(tt.named(y, list(SIZES)))
    bad, n = [], 0
    for o in eng.run(fn, [SRef(t)], st):
        n += 1
        if o.kind == 'panic':
            if eng.feasible(o.state):
                bad.append(f'{fn} panics: {o.why}')
        elif not eng.entails(o.state, I(o.ret.e) == tt.size(y)):
            bad.append(f'{fn}: wrong size; path: {pcs(o.state)}')
    return n, bad, eng


def run_fmt(P, nops, nargs):
    """what the contract of fmt says about the text of a type"""
    fn = 'types::Type::fmt'

    def ln(name):
        if name == 't.ops':
            return nops
        if name.startswith('t.ops') and name.endswith('.0'):
            return nargs
        return None
    tt, eng, st = bare(P, fn, (fn,), lens=ln)
    top = True
    t = eng.make(tt.tt, 't')
    y = tt.ty(t)

    def inner(eng, st, args):
        v = strip(eng.load(st, args[0]))
        if k(v) == k(t):
            raise Unsupported('fmt of itself')
        return [(st, Str((Atom(f'fmt {k(v)}'),)))]
    bad, n = [], 0
    eng.contracts[fn] = inner
    for o in eng.run(fn, [SRef(t)], st):
        n += 1
        if o.kind == 'panic':
            bad.append(f'{fn} panics: {o.why}')
            continue
        s = strip(o.ret)
        if nops == 0:
            loc = tt.se(y.ns, '')
            s1 = o.state.copy().assume(loc)
            if eng.feasible(s1) and not eng.entails(s1, tt.se(s, y.name)):
                bad.append(f'the text of a plain type is {s!r}; path: {pcs(o.state)}')
            s2 = o.state.copy().assume(NOT(loc))
            if eng.feasible(s2) and not (len(s.p) == 3 and s.p[1] == '.' and k(Str(s.p[:1])) == k(y.ns) and k(Str(s.p[2:])) == k(y.name)):
                bad.append(f'the text of a qualified type is {s!r}; path: {pcs(o.state)}')
            continue
        first = s.p[0] if s.p else None
        ok = False
        for v, lit in (('Deref', 'pointer to '), ('Index', 'array of '), ('Call', 'func (')):
            if isinstance(first, str) and first.startswith(lit):
                ok = eng.entails(o.state, tt.tag0(y, v))
        if not ok:
            bad.append(f'the text of a type with operations is {s!r}; path: {pcs(o.state)}')
    return n, bad, eng


def run_root(P, n0, nd):
    fn = TR + 'root_type'
    if fn not in P.byname:
        raise Unsupported('no root_type')

    def ln(name):
        if name == 't.ops':
            return n0
        if name.endswith('.t.ops'):
            return nd
        return None
    tt = TT(P, lens=ln, no=('root_type',))
    eng = tt.eng
    st = State()
    cm, ctx0 = tt.context(st)
    t = eng.make(tt.tt, 't')
    J = Judge(tt, fn)
    alts = tt.roots(tt.ty(t), ctx0)
    for o in eng.run(fn, [SRef(t), SRef(ctx0)], st):
        J.n += 1
        if o.kind == 'panic':
            J.bad.append(f'{fn} panics: {o.why}')
            continue
        J.result(o.state, tt.ty(o.ret), [(True, alts)])
    return J.n, J.bad, eng


def any_expr(P, only, table, extra=None, no=(), budget=60.0, fixed=None):
    tt = tt_for(P, table, extra, no=no, budget=budget, fixed=fixed)
    eng = tt.eng
    e = eng.make(P.type_named('nodes::Expr'), 'e')
    st = State()
    st.assume(eng.tag(e) == P.variant(e.t, only))
    cm, ctx0 = tt.context(st)
    return tt, eng, st, cm, ctx0, e, strip(eng.get(e, '0', only))


def judge_expr(tt, e, cm, st, acc, res):
    return Judge(tt, TR + 'tr_expr').run([SRef(e), cm], st, acc, res, lambda v: tt.eng.get(strip(v), 'typ'))


T_ = z3.BoolVal(True)


def tail(y):
    return Ty(y.ns, y.name, Seq(y.ops.p[1:], y.ops.t))


def run_prefix(P, n):
    tt, eng, st, cm, ctx0, e, x = any_expr(P, 'PrefixOperator', {'.operand': n, 'root': n})
    op = eng.get(x, 'operator')
    t = typ_of(tt, ctx0, eng.get(x, 'operand'))
    y = tt.ty(t)
    deref = tt.se(op, '*')
    root = tt.ty(tt.root_sym(t))
    if not tt.rooted:
        raise Unsupported('no root_type')
    unk = tt.todo(root)
    isptr = tt.tag0(root, 'Deref')
    acc = z3.Or(NOT(deref), unk, isptr)
    pt = Ty(y.ns, y.name, Seq((('e', tt.just('', ['Deref']).ops.items()[0]),) + y.ops.p, y.ops.t))
    res = [(z3.Or(*[tt.se(op, o) for o in ('++', '--', '-', '~')]), [(T_, y)]),
           (tt.se(op, '!'), [(T_, tt.just('bool'))]),
           (tt.se(op, '&'), [(T_, pt)]),
           (z3.And(deref, unk), [(T_, tt.just(TODO))])]
    if n:
        res.append((z3.And(deref, NOT(unk)), [(T_, tail(root))]))
    return judge_expr(tt, e, cm, st, acc, res)


def run_postfix(P):
    tt, eng, st, cm, ctx0, e, x = any_expr(P, 'PostfixOperator', {})
    y = tt.ty(typ_of(tt, ctx0, eng.get(x, 'operand')))
    return judge_expr(tt, e, cm, st, T_, [(T_, [(T_, y)])])


def run_index(P, n):
    tt, eng, st, cm, ctx0, e, x = any_expr(P, 'ArrIndex', {'.array': n})
    y = tt.ty(typ_of(tt, ctx0, eng.get(x, 'array')))
    fun = tt.tag0(y, 'Call')
    return judge_expr(tt, e, cm, st, NOT(fun), [(T_, [(T_, tail(y) if n else tt.just(TODO))])])


def run_literal(P):
    tt, eng, st, cm, ctx0, e, x = any_expr(P, 'Literal', {})
    isv = lambda v: eng.tag(x) == P.variant(x.t, v)
    res = [(isv('Char'), [(T_, tt.just('char'))]), (isv('String'), [(T_, tt.just('char', ['Deref']))]), (isv('Number'), [(T_, tt.just('number'))])]
    return judge_expr(tt, e, cm, st, T_, res)


def run_sizeof(P):
    tt, eng, st, cm, ctx0, e, x = any_expr(P, 'Sizeof', {})
    return judge_expr(tt, e, cm, st, T_, [(T_, [(T_, tt.just('size_t'))])])


def run_cast(P, hops):
    tt, eng, st, cm, ctx0, e, x = any_expr(P, 'Cast', {}, fixed={'e.Cast.0.typeform.hops': Int(hops)})
    tf = strip(eng.get(x, 'typeform'))
    nm = strip(eng.get(strip(eng.get(tf, 'typename')), 'name'))
    if eng.get(tf, 'hops').e is not hops:
        raise Unsupported('hops')
    y = tt.just('', ['Deref'] * hops)
    y = Ty(strip(eng.get(nm, 'ns')), strip(eng.get(nm, 'name')), y.ops)
    return judge_expr(tt, e, cm, st, T_, [(T_, [(T_, y)])])


def typ_anywhere(tt, part):
    """type of a part, in whatever scope it was translated"""
    found = [nm for kk, nm in tt.reg.items() if kk[0] == 'T expr' and kk[1][0] == k(strip(part))]
    if len(found) != 1:
        raise Unsupported('the part is not translated exactly once')
    return tt.eng.make(tt.tt, 'type of ' + found[0])


def run_cond(P, kind, sub=None):
    """loop conditions"""
    tt = tt_for(P, {}, lambda name: 1 if name == 'b.statements' else None)
    eng = tt.eng
    b = eng.make(P.type_named('nodes::Body'), 'b')
    st = State()
    s = eng.get(b, 'statements').items()[0]
    st.assume(eng.tag(s) == P.variant(s.t, kind))
    x = strip(eng.get(s, '0', kind))
    if kind == 'While':
        c = eng.get(x, 'cond')
    else:
        oc = strip(eng.get(x, 'condition'))
        c = eng.get(oc, '0', 'Some')
        st.assume(eng.tag(oc) == P.variant(oc.t, 'Some' if sub else 'None'))
        it = strip(eng.get(x, 'init'))
        st.assume(eng.tag(it) == P.variant(it.t, 'None' if sub in (None, 'no init') else 'Some'))
        if sub and sub != 'no init':
            iv = strip(eng.get(it, '0', 'Some'))
            st.assume(eng.tag(iv) == P.variant(iv.t, sub))
    cm, ctx0 = tt.context(st)

    def acc():
        if kind == 'For' and not sub:
            return T_, None
        R = Rules(tt, tt.root(typ_anywhere(tt, c), ctx0))
        return R.booly(R.a), None
    return Judge(tt, TR + 'tr_body').run([SRef(b), cm], st, acc, None, None)


def call_rule(tt, y, nargs, m, depth=0):
    """[(condition, result type)] of the accepted calls of y with nargs arguments"""
    eng = tt.eng
    out = [(tt.todo(y), tt.just(TODO))]
    known = NOT(tt.todo(y))
    iscall = tt.tag0(y, 'Call')
    if y.ops.concrete() and y.ops.items():
        ps = strip(eng.get(y.ops.items()[0], '0', 'Call'))
        L = I(eng.seqlen(ps))
        if ps.concrete():
            last = ps.items()[-1] if ps.items() else None
        else:
            last = eng.elem(ps.p[0][1], z3.simplify(L - 1))
        ell = z3.And(L > 0, tt.named(tt.ty(last), ['...'])) if last is not None else z3.BoolVal(False)
        fits = z3.If(ell, nargs >= L - 1, L == nargs)
        out.append((z3.And(known, iscall, fits), tail(y)))
    if depth < 1 and y.ops.concrete() and len(y.ops.items()) < 2:
        n = len(y.ops.items())
        h, d = eng.mapsym(m, y.name)
        via = z3.And(known, tt.se(y.ns, ''), h)
        if n:
            via = z3.And(via, tt.tag0(y, 'Deref'))
        for c, r in call_rule(tt, tt.ty(eng.get(d, 't')), nargs, m, depth + 1):
            out.append((z3.And(via, c), r))
    return out


def run_call(P, na, nf, nd, nps=None):
    """arity; na arguments, the function's type has nf operations, a typedef nd"""
    def ln(name):
        if name == 'e.Call.0.args':
            return na
        if name.endswith('.Call.0'):
            return nps
        return None
    tt, eng, st, cm, ctx0, e, x = any_expr(P, 'Call', {'.func': nf, '*': nd}, ln)
    f = strip(eng.get(x, 'func'))
    nn = strip(eng.get(f, '0', 'NsName'))
    # calloc! has its own rule
    st.assume(NOT(z3.And(eng.tag(f) == P.variant(f.t, 'NsName'), tt.se(eng.get(nn, 'name'), 'calloc!'))))
    y = tt.ty(typ_of(tt, ctx0, f))
    m = eng.get(ctx0, 'other_typedefs')
    # typedefs are looked through when they are recorded
    h, d = eng.mapsym(m, y.name)
    dy = tt.ty(eng.get(d, 't'))
    h2, _ = eng.mapsym(m, dy.name)
    st.assume(NOT(z3.And(tt.se(dy.ns, ''), h2)))
    rs = call_rule(tt, y, na, m)
    acc = z3.Or(*[c for c, _ in rs])
    return judge_expr(tt, e, cm, st, acc, [(c, [(T_, r)]) for c, r in rs])


def ops_of(y, kinds):
    return y


def type_from(tt, tn, form_ops):
    eng = tt.eng
    nm = strip(eng.get(strip(tn), 'name'))
    return Ty(strip(eng.get(nm, 'ns')), strip(eng.get(nm, 'name')), tt.just('', form_ops).ops)


def judge_value(tt, fn, args, st, y):
    J = Judge(tt, fn)
    for o in tt.eng.run(fn, args, st):
        J.n += 1
        if o.kind == 'panic':
            if tt.eng.feasible(o.state):
                J.bad.append(f'{fn} panics: {o.why}')
            continue
        J.result(o.state, tt.ty(o.ret), [(T_, [(T_, y)])])
    return J.n, J.bad, tt.eng


def run_from_typename(P, hops, idx):
    """T name[..]..: an array of pointers"""
    fn = TR + 'typefrom_typename'
    if fn not in P.byname:
        raise Unsupported('no ' + fn)
    tt = tt_for(P, {}, lambda n: idx if n == 'f.indexes' else None, fixed={'f.hops': Int(hops)})
    eng = tt.eng
    tn = eng.make(P.type_named('nodes::Typename'), 't')
    fm = eng.make(P.type_named('nodes::Form'), 'f')
    return judge_value(tt, fn, [SRef(tn), SRef(fm)], State(), type_from(tt, tn, ['Index'] * idx + ['Deref'] * hops))


def fun_ops(tt, params, ell):
    """func (params) ->"""
    ot = [f['t'] for f in tt.eng.T[tt.tt]['v'][0]['f'] if f['n'] == 'ops'][0]
    et = tt.eng.T[ot]['args'][0]
    vi = tt.P.variant(et, 'Call')
    at = tt.eng.T[et]['v'][vi]['f'][0]['t']
    nt = [f['t'] for f in tt.eng.T[tt.tt]['v'][0]['f'] if f['n'] == 'base'][0]

    def val(y):
        fs = []
        for f in tt.eng.T[nt]['v'][0]['f']:
            fs.append({'ns': y.ns, 'name': y.name}.get(f['n']) or tt.eng.make(f['t'], 'nopos'))
        base = Adt(nt, 0, fs)
        return Adt(tt.tt, 0, [base if f['n'] == 'base' else y.ops for f in tt.eng.T[tt.tt]['v'][0]['f']])
    ps = [('e', val(p)) for p in params]
    if ell:
        ps.append(('e', val(tt.just('...'))))
    return Adt(et, vi, (Seq(ps, at),))


def run_from_fun(P, shape, ell, hops):
    """type of a declared function; shape: forms per parameter group"""
    fn = TR + 'typefrom_funcdecl'
    if fn not in P.byname:
        raise Unsupported('no ' + fn)
    fixed = {'f.form.hops': Int(hops), 'f.params.ellipsis': Bool(ell)}

    def ln(n):
        if n == 'f.params.list':
            return len(shape)
        m = re.match(r'f\.params\.list\[(\d+)\]\.forms$', n)
        if m:
            return shape[int(m.group(1))]
        if n.endswith('.indexes'):
            return 1 if n.endswith('list[0].forms[0].indexes') else 0
        return None
    for i, c in enumerate(shape):
        for j in range(c):
            fixed[f'f.params.list[{i}].forms[{j}].hops'] = Int((i + j) % 3)
    tt = tt_for(P, {}, ln, fixed=fixed)
    eng = tt.eng
    f = eng.make(P.type_named('nodes::FuncDecl'), 'f')
    ps = []
    for p in eng.get(eng.get(f, 'params'), 'list').items():
        for fm in eng.get(p, 'forms').items():
            ps.append(type_from(tt, eng.get(p, 'typename'), ['Index'] * len(eng.get(fm, 'indexes').items()) + ['Deref'] * eng.get(fm, 'hops').e))
    r = type_from(tt, eng.get(f, 'typename'), ['Deref'] * hops)
    y = Ty(r.ns, r.name, Seq((('e', fun_ops(tt, ps, ell)),) + r.ops.p, r.ops.t))
    return judge_value(tt, fn, [SRef(f)], State(), y)


def run_from_typedef(P, params, ell, arr, hops):
    fn = TR + 'typefrom_typedef'
    if fn not in P.byname:
        raise Unsupported('no ' + fn)
    fixed = {'d.derefs': Int(hops)}
    for j in range(params or 0):
        fixed[f'd.func_params.Some.0.forms[{j}].hops'] = Int((j + 1) % 3)
    tt = tt_for(P, {}, lambda n: params if n.endswith('.forms') else None, fixed=fixed)
    eng = tt.eng
    d = eng.make(P.type_named('nodes::Typedef'), 'd')
    st = State()
    fp = strip(eng.get(d, 'func_params'))
    st.assume(eng.tag(fp) == P.variant(fp.t, 'None' if params is None else 'Some'))
    sz = I(eng.get(d, 'array_size').e)
    st.assume(sz > 0 if arr else sz == 0)
    r = type_from(tt, eng.get(d, 'typename'), (['Index'] if arr else []) + ['Deref'] * hops)
    if params is not None:
        q = strip(eng.get(fp, '0', 'Some'))
        e = eng.get(q, 'ellipsis').e
        st.assume(e if ell else NOT(e))
        ps = []
        for b in eng.get(q, 'forms').items():
            ps.append(type_from(tt, eng.get(b, 'typename'), ['Deref'] * eng.get(b, 'hops').e))
        r = Ty(r.ns, r.name, Seq((('e', fun_ops(tt, ps, ell)),) + r.ops.p, r.ops.t))
    return judge_value(tt, fn, [SRef(d)], st, r)


def jobs():
    J = {}
    for g in ('bool', 'cmp', 'plusminus', 'arith', 'assign'):
        J[f'binary {g}'] = (TR + 'tr_binary_op', lambda P, g=g: run_binary(P, g, None, None, None))
    J['classify'] = ('types::classify', run_classify)
    J['typesize'] = ('types::typesize', run_size)
    for n in (0, 1, 2, 3):
        for na in (0, 1, 2) if n else (0,):
            J[f'fmt[{n} operations, {na} parameters]'] = ('types::Type::fmt', lambda P, n=n, na=na: run_fmt(P, n, na), 'types of at most 3 operations with at most 2 parameters')
    for n, d in itertools.product((0, 1, 2, 3), (0, 1, 2, 3)):
        J[f'root_type[{n} operations on a typedef of {d}]'] = (TR + 'root_type', lambda P, n=n, d=d: run_root(P, n, d), 'types of at most 3 operations over typedefs of at most 3')
    B_ = 'types of at most 3 operations'
    for n in (0, 1, 2, 3):
        J[f'prefix[{n} operations]'] = (TR + 'tr_prefop', lambda P, n=n: run_prefix(P, n), B_)
        J[f'index[{n} operations]'] = (TR + 'tr_arr_index', lambda P, n=n: run_index(P, n), B_)
        J[f'cast[{n} pointers]'] = (TR + 'tr_cast', lambda P, n=n: run_cast(P, n), 'at most 3 pointers')
    J['postfix'] = (TR + 'tr_postop', run_postfix)
    J['literal'] = (TR + 'typeof_literal', run_literal)
    J['sizeof'] = (TR + 'tr_sizeof', run_sizeof)
    J['while condition'] = (TR + 'tr_while', lambda P: run_cond(P, 'While'))
    for sub in ('no init', 'Expr', 'DeclLoopCounter'):
        J[f'for condition[{sub}]'] = (TR + 'tr_for', lambda P, sub=sub: run_cond(P, 'For', sub))
    J['for without condition'] = (TR + 'tr_for', lambda P: run_cond(P, 'For'))
    for na, nf in itertools.product((0, 1, 2, 3, 4), (0, 1, 2)):
        for nd in (0, 1, 2) if nf < 2 else (0,):
            J[f'call[{na} arguments, type of {nf} operations, typedef of {nd}]'] = (TR + 'tr_call', lambda P, na=na, nf=nf, nd=nd: run_call(P, na, nf, nd), 'at most 4 arguments, types of at most 2 operations; any number of parameters')
    for h, i in itertools.product((0, 1, 2, 3), (0, 1, 2)):
        J[f'typefrom_typename[{h} pointers, {i} indexes]'] = (TR + 'typefrom_typename', lambda P, h=h, i=i: run_from_typename(P, h, i), 'at most 3 pointers and 2 indexes')
    for sh in ((), (1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1)):
        for ell in (False, True):
            J[f'typefrom_funcdecl[{sh}, {ell}]'] = (TR + 'typefrom_funcdecl', lambda P, sh=sh, ell=ell: run_from_fun(P, sh, ell, len(sh) % 3), 'at most 3 parameters')
    for ps, ell, arr, h in itertools.product((None, 0, 1, 2, 3), (False, True), (False, True), (0, 1, 2)):
        if ps is None and ell:
            continue
        J[f'typefrom_typedef[{ps} parameters, {ell}, {arr}, {h}]'] = (TR + 'typefrom_typedef', lambda P, ps=ps, ell=ell, arr=arr, h=h: run_from_typedef(P, ps, ell, arr, h), 'at most 3 parameters and 2 pointers')
    return J


ASSUMES = [
    'the table of C library types (cspec) is an uninterpreted function',
    'typedefs are resolved when they are recorded',
    'base type names contain neither dots nor blanks',
    "the language's type rules are those written down in oracle/typetab.py",
]
GROUPS = {'types': ['']}
