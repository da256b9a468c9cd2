"""Contracts of the parser (src/parser.rs).

Ghost state: the tokens T[0], T[1], ... T[n-1] of the file, and a cursor. The
methods of Lexer move the cursor (their own contracts are discharged in
lexproof). Contract of a parsing function F called with the cursor at p: it
returns the tree that the grammar gives for the tokens from p on and leaves the
cursor behind the last token of it, or it fails. The grammar below is the
specification; it is written over the same token sequence and mentions the part
of another rule X at q as the symbol X@q with the end 'end X@q', which is also
what the contract of the function for X leaves in its caller. Functions that have
no rule of their own are inlined."""
import z3
from mirv.engine import *

PA = 'parser::'
LX = 'lexer::Lexer::'
N = z3.Int('ntok')
P0 = z3.Int('p0')

BINLEVELS = [
    ('assign', ['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '^=', '|=']),
    ('oror', ['||']), ('andand', ['&&']), ('or', ['|']), ('xor', ['^']), ('and', ['&']),
    ('eq', ['!=', '==']), ('rel', ['>', '<', '>=', '<=']), ('shift', ['<<', '>>']),
    ('add', ['+', '-']), ('mul', ['*', '/', '%']),
]
NAMES = [n for n, _ in BINLEVELS] + ['prefix', 'suffix']
BINOPS = [o for _, os in BINLEVELS for o in os]
PREOPS = ['!', '--', '++', '*', '~', '&', '-']
STRAY = ['~', '++', '--']      # never follow a complete expression

# function -> (rule, errors are carried along)
RULES = {
    'parse_expr': 'expr', 'parse_prefix_expr': 'prefix', 'base': 'suffix', 'read_expression_atom': 'atom',
    'parse_composite_literal': 'complit', 'parse_composite_literal_entry': 'comentry',
    'parse_call': 'call', 'read_ns_id': 'nsid', 'parse_typename': 'typename', 'parse_bare_typeform': 'typeform',
    'parse_form': 'form', 'parse_statement': 'stmt', 'parse_statements_block': 'block', 'read_body': 'body',
    'read_switch_case': 'case', 'parse_function_parameter': 'param', 'parse_type_and_forms': 'fields',
    'parse_union': 'union', 'parse_anonymous_parameters': 'anonparams', 'parse_module_object': 'object',
    'parse_compat_macro': 'macro', 'parse_enum': 'enum', 'parse_typedef': 'typedef',
    'parse_function_declaration': 'func', 'parse_literal': 'literal', 'parse_module': 'module',
}
PREDS = {'type_follows': 'typeat', 'is_type': 'istype', 'ParseCtx::is_imported_ns': 'isns'}
ANY = object()


class Reject(Exception):
    pass


class Split(Exception):
    def __init__(self, c):
        self.c = c


class Bad(Exception):
    pass


class AtHead(Exception):
    def __init__(self, lid, vs, p, again):
        self.lid = lid
        self.vs = vs
        self.p = p
        self.again = again


def strip(v):
    while isinstance(v, (SRef, BoxV)):
        v = v.v
    return v


class V:
    """expected: a variant of an enum (or Option/struct) with the given fields"""

    def __init__(self, variant, *pos, **fields):
        self.variant = variant
        self.pos = pos
        self.fields = fields

    def __repr__(self):
        return f'{self.variant}({", ".join([repr(x) for x in self.pos] + [f"{a}={b!r}" for a, b in self.fields.items()])})'


def St(**fields):
    return V(None, **fields)


NONE = V('None')


def some(x):
    return V('Some', x)


class Pr:
    def __init__(self, P, unroll=2, no=(), inline=(), budget=100.0):
        self.P = P
        self.eng = eng = Engine(P, budget=budget, max_paths=20000)
        eng.unroll = unroll
        eng.missing = []
        eng.axioms.append(z3.And(P0 >= 0, P0 <= N, N < 2 ** 40))
        self.tt = P.type_named('lexer::Token')
        self.subs = {}
        self.n = 0
        for m in ('get', 'unget', 'peek', 'peekn', 'more', 'follows', 'eat', 'pos'):
            if self.has(LX + m):
                eng.contracts[LX + m] = getattr(self, 'lx_' + m)
        for fn, rule in RULES.items():
            if fn not in inline and fn not in no and self.has(PA + fn):
                eng.contracts[PA + fn] = self.rule_contract(PA + fn, rule)
        for fn, rule in PREDS.items():
            if fn not in inline and self.has(PA + fn):
                eng.contracts[PA + fn] = self.pred_contract(PA + fn, rule)
        if 'get_exports' not in inline and self.has(PA + 'get_exports'):
            rt = P.fn(PA + 'get_exports')['locals'][0]
            eng.contracts[PA + 'get_exports'] = lambda eng, st, args: [(st, eng.make(rt, 'exports'))]
        # texts of messages are of no interest
        for fn in ('with_comment', 'token_to_string'):
            if PA + fn in P.byname:
                eng.contracts[PA + fn] = lambda eng, st, args: [(st, Str((Atom(f'msg#{next(eng.uid)}'),)))]
        dfn = [n for n in P.byname if n.endswith('lexer::Token as std::fmt::Display>::fmt')]
        if 'buf::Pos::fmt' in P.byname:
            eng.contracts['buf::Pos::fmt'] = lambda eng, st, args: [(st, Str((Atom(f'msg#{next(eng.uid)}'),)))]
        self.levels()

    def has(self, fn):
        if fn in self.P.byname and fn in self.P.called():
            return True
        self.eng.missing.append(fn)
        return False

    # ---- the strengths the code uses, and the rules they stand for
    def strength(self, op):
        try:
            e2 = Engine(self.P)
            outs = e2.run(PA + 'operator_strength', [SRef(Str((op,)))])
        except Unsupported:
            raise
        if len(outs) == 1 and outs[0].kind == 'return' and isinstance(outs[0].ret.e, int):
            return outs[0].ret.e
        return None

    def levels(self):
        self.str = {o: self.strength(o) for o in BINOPS + ['prefix', 'suffix']}
        if any(v is None for v in self.str.values()):
            raise Unsupported(f'strengths {self.str}')

    def level(self, s):
        ops = frozenset(o for o in BINOPS if self.str[o] >= s)
        if not ops:
            return 'prefix' if s <= self.str['prefix'] else 'suffix' if s <= self.str['suffix'] else f'odd {s}'
        for i, (n, _) in enumerate(BINLEVELS):
            if ops == frozenset(o for _, os in BINLEVELS[i:] for o in os):
                return n
        return f'odd {s}'

    # ---- tokens
    def tok(self, i):
        return self.eng.make(self.tt, f'T[{z3.simplify(I(i))}]')

    def kind(self, i):
        return self.eng.get(self.tok(i), 'kind')

    def content(self, i):
        return self.eng.get(self.tok(i), 'content')

    def cur(self, st):
        return st.ghost['p'].e

    def move(self, st, p):
        st.ghost['p'] = Int(z3.simplify(I(p)))

    def opt(self, rt, v):
        if v is None:
            return Adt(rt, self.P.variant(rt, 'None'), ())
        return Adt(rt, self.P.variant(rt, 'Some'), (v,))

    def rt(self, fn):
        return self.P.fn(fn)['locals'][0]

    def split(self, st, c):
        """states where c holds / does not hold"""
        e = self.eng
        if isinstance(c, bool):
            return (st if c else None), (None if c else st)
        y = st.copy().assume(c) if e.feasible(st, c) else None
        n = st.copy().assume(NOT(c)) if e.feasible(st, NOT(c)) else None
        return y, n

    def lx_get(self, eng, st, args):
        p = self.cur(st)
        y, n = self.split(st, p < N)
        out = []
        if y:
            self.move(y, p + 1)
            out.append((y, self.opt(self.rt(LX + 'get'), self.tok(p))))
        if n:
            out.append((n, self.opt(self.rt(LX + 'get'), None)))
        return out

    def lx_unget(self, eng, st, args):
        t = strip(args[1])
        p = z3.simplify(self.cur(st) - 1)
        self.n += 1
        if k(t) != k(self.tok(p)):
            # some other token is put back: the text is no longer read as written
            st.ghost['unget'] = Bool(True)
        self.move(st, p)
        return [(st, UNIT)]

    def lx_peek(self, eng, st, args):
        p = self.cur(st)
        y, n = self.split(st, p < N)
        rt = self.rt(LX + 'peek')
        return ([(y, self.opt(rt, SRef(self.tok(p))))] if y else []) + ([(n, self.opt(rt, None))] if n else [])

    def lx_peekn(self, eng, st, args):
        p = self.cur(st)
        m = args[1].e
        if not isinstance(m, int):
            raise Unsupported('peekn of an unknown number')
        y, n = self.split(st, p + m <= N)
        rt = self.rt(LX + 'peekn')
        vt = eng.T[rt]['v'][self.P.variant(rt, 'Some')]['f'][0]['t']
        out = []
        if y:
            out.append((y, self.opt(rt, Seq([('e', SRef(self.tok(p + i))) for i in range(m)], vt))))
        if n:
            out.append((n, self.opt(rt, None)))
        return out

    def lx_more(self, eng, st, args):
        y, n = self.split(st, self.cur(st) < N)
        return ([(y, Bool(True))] if y else []) + ([(n, Bool(False))] if n else [])

    def foll(self, st, lit):
        p = self.cur(st)
        return AND(p < N, self.eng.streq(self.kind(p), strip(self.eng.load(st, lit))))

    def lx_follows(self, eng, st, args):
        y, n = self.split(st, self.foll(st, args[1]))
        return ([(y, Bool(True))] if y else []) + ([(n, Bool(False))] if n else [])

    def lx_eat(self, eng, st, args):
        y, n = self.split(st, self.foll(st, args[1]))
        if y:
            self.move(y, self.cur(y) + 1)
        return ([(y, Bool(True))] if y else []) + ([(n, Bool(False))] if n else [])

    def lx_pos(self, eng, st, args):
        return [(st, eng.make(self.rt(LX + 'pos'), f'pos#{next(eng.uid)}'))]

    # ---- rules
    def sub(self, rule, p):
        """the part that the rule gives at p: (success, end, name)"""
        nm = f'{rule}@({z3.simplify(I(p))})'
        if nm not in self.subs:
            ok, end = z3.Bool('ok ' + nm), z3.Int('end ' + nm)
            self.eng.axioms.append(z3.Implies(ok, z3.And(end > I(p), end <= N)))
            self.subs[nm] = (ok, end)
        return self.subs[nm] + (nm,)

    def value(self, ty, nm, func=None):
        """the tree of the part"""
        e = self.eng
        n = e.T[ty].get('n', '')
        if n.endswith('TWithErrors'):
            fs = []
            for f in e.T[ty]['v'][0]['f']:
                fs.append(None if f['n'] == 'errors' else self.value(f['t'], nm, func))
            return Adt(ty, 0, fs)
        if nm.startswith('call@'):
            p = nm[5:]
            vi = self.P.variant(ty, 'Call')
            ct = e.T[ty]['v'][vi]['f'][0]['t']
            fs = []
            for f in e.T[ct]['v'][0]['f']:
                if f['n'] == 'func':
                    v = BoxV(func)
                elif f['n'] == 'pos':
                    v = e.get(e.make(self.tt, f'T[{p[1:-1]}]'), 'pos')
                else:
                    v = e.make(f['t'], f'args@{p}')
                fs.append(v)
            return Adt(ty, vi, (Adt(ct, 0, fs),))
        return e.make(ty, nm)

    def rule_contract(self, fn, rule):
        rt = self.rt(fn)
        e = self.eng

        def c(eng, st, args):
            r = rule
            func = None
            extra = []
            for a in args:
                v = a
                if isinstance(a, MRef):
                    continue
                v = strip(eng.load(st, a))
                if isinstance(v, Op) and v.kind == 'ctx':
                    continue
                if rule == 'expr' and isinstance(v, Int):
                    if not isinstance(v.e, int):
                        raise Unsupported('unknown strength')
                    r = self.level(v.e)
                elif rule == 'call' and isinstance(v, (Sym, Adt)) and eng.T[v.t]['n'].endswith('nodes::Expr'):
                    func = v
                elif rule == 'func' and isinstance(v, (Sym, Adt)) and eng.T[v.t]['n'].endswith('buf::Pos'):
                    pass
                elif isinstance(v, (Bool, Sym, Adt)):
                    if not eng.T[getattr(v, 't', 0)].get('n', '').endswith('ParseCtx') or isinstance(v, Bool):
                        extra.append(k(v))
            if extra:
                r += ' ' + repr(tuple(extra)).replace(' ', '')
            p = self.cur(st)
            ok, end, nm = self.sub(r, p)
            okt = eng.T[rt]['v'][self.P.variant(rt, 'Ok')]['f'][0]['t']
            out = []
            y, n = self.split(st, ok)
            if y:
                self.move(y, end)
                val = self.value(okt, nm, func)
                if eng.T[okt].get('n', '').endswith('TWithErrors'):
                    for clean in (True, False):
                        c = z3.Bool('clean ' + nm)
                        s2 = y.copy().assume(c if clean else z3.Not(c))
                        if not eng.feasible(s2):
                            continue
                        fs = []
                        for i, f in enumerate(eng.T[okt]['v'][0]['f']):
                            if f['n'] == 'errors':
                                et = eng.T[f['t']]['args'][0]
                                fs.append(Seq(() if clean else (('e', eng.make(et, 'E ' + nm)),), f['t']))
                            else:
                                fs.append(val.f[i])
                        out.append((s2, Adt(rt, self.P.variant(rt, 'Ok'), (Adt(okt, 0, fs),))))
                else:
                    out.append((y, Adt(rt, self.P.variant(rt, 'Ok'), (val,))))
            if n:
                et = eng.T[rt]['v'][self.P.variant(rt, 'Err')]['f'][0]['t']
                q = z3.Int(f'stop {nm}')       # a failed rule may have read anything
                n.assume(z3.And(q >= p, q <= N))
                self.move(n, q)
                out.append((n, Adt(rt, self.P.variant(rt, 'Err'), (eng.make(et, 'E ' + nm),))))
            return out
        return c

    def pred(self, rule, key):
        return z3.Bool(f'{rule} {key}')

    def pred_contract(self, fn, rule):
        def c(eng, st, args):
            if rule == 'typeat':
                b = self.pred(rule, z3.simplify(I(self.cur(st))))
            else:
                b = None
                for a in args:
                    v = strip(eng.load(st, a))
                    if isinstance(v, Str):
                        b = self.pred(rule, k(v))
            return [(st, Bool(b))]
        return c

    # ---- running
    def start(self, fn, **given):
        eng = self.eng
        st = State()
        f = self.P.fn(fn)
        args = []
        st.ghost['p'] = Int(P0)
        for i in range(f['argc']):
            ty = f['locals'][i + 1]
            t = eng.T[ty]
            if t['k'] == 'ref' and t['mut'] and eng.T[t['t']].get('n', '').endswith('lexer::Lexer'):
                cell = ('H', next(eng.uid))
                st.heap[cell] = Op('lexer')
                args.append(MRef(cell))
            elif t['k'] in ('uint', 'int') and 's' in given:
                args.append(Int(given['s']))
            else:
                args.append(eng.make(ty, f'a{i}'))
        return st, args


class Ref:
    """the grammar, over the tokens from p on; conditions the path leaves open
    are split"""

    def __init__(self, pr, st, p=P0):
        self.pr = pr
        self.eng = pr.eng
        self.st = st
        self.p = p
        self.seen = []
        self.errs = None

    def ask(self, c):
        self.pr.n += 1
        if isinstance(c, bool):
            return c
        if self.eng.check(self.st.pc + (c,)) == z3.unsat:
            return False
        if self.eng.check(self.st.pc + (NOT(c),)) == z3.unsat:
            return True
        raise Split(c)

    # -- repetition: without 'gen' the rule is simply run; otherwise the first
    # arrival at the head of a repetition continues from the generic state
    gen = None
    stop = None

    def head(self, lid, *vs):
        if self.gen is None:
            return vs if len(vs) != 1 else vs[0]
        if lid in self.seen:
            raise AtHead(lid, vs, self.p, True)
        self.seen.append(lid)
        j = len(self.seen) - 1
        if self.stop == j:
            raise AtHead(lid, vs, self.p, False)
        if j >= len(self.gen):
            raise Unsupported('the code has no repetition here')
        g = self.gen[j]
        self.p = g['p']
        self.errs = g.get('errs')
        return g['vars'] if len(vs) != 1 else g['vars'][0]

    def more(self, d=0):
        return self.ask(self.p + d < N)

    def at(self, lit, d=0):
        return self.more(d) and self.ask(self.eng.streq(self.pr.kind(self.p + d), Str((lit,))))

    def in_(self, lits, d=0):
        if not self.more(d):
            return False
        kd = self.pr.kind(self.p + d)
        return self.ask(OR(*[self.eng.streq(kd, Str((x,))) for x in lits]))

    def content(self, d=0):
        return self.pr.content(self.p + d)

    def kind(self, d=0):
        return self.pr.kind(self.p + d)

    def next(self):
        self.p = z3.simplify(self.p + 1)

    def eat(self, lit):
        if self.at(lit):
            self.next()
            return True
        return False

    def need(self, lit):
        if not self.at(lit):
            raise Reject(f'{lit} expected')
        c = self.content()
        self.next()
        return c

    def sub(self, rule, twe=False):
        ok, end, nm = self.pr.sub(rule, self.p)
        if not self.ask(ok):
            raise Reject(nm)
        if twe and not self.ask(z3.Bool('clean ' + nm)):
            raise Reject(nm)
        self.p = end
        return ('sub', nm)

    def expr(self):
        return self.sub('assign')

    def block(self):
        return self.sub('block', True)

    def body(self):
        return self.sub('body', True)

    def istype(self, d=0):
        return self.more(d) and self.ask(self.pr.pred('istype', k(self.content(d))))

    def typeat(self):
        return self.ask(self.pr.pred('typeat', z3.simplify(I(self.p))))

    # -- expressions
    def r_binary(self, level):
        i = NAMES.index(level)
        ops = BINLEVELS[i][1]
        r = self.sub(NAMES[i + 1])
        while True:
            r = self.head('ops', r)
            if not self.in_(ops):
                break
            op = self.kind()
            self.next()
            b = self.sub(level if level == 'assign' else NAMES[i + 1])
            r = V('BinaryOp', St(op=op, a=r, b=b))
        if self.in_(STRAY):
            raise Reject('stray operator')
        return r

    def r_prefix(self):
        if self.in_(PREOPS):
            op = self.kind()
            self.next()
            return V('PrefixOperator', St(operator=op, operand=self.sub('prefix')))
        if self.at('(') and not self.more(1):
            raise Reject('end')
        if self.at('(') and self.at('word', 1) and self.istype(1):
            self.next()
            t = self.sub('typeform')
            self.need(')')
            return V('Cast', St(typeform=t, operand=self.sub('prefix')))
        if self.eat('sizeof'):
            self.need('(')
            a = V('Typename', self.sub('typeform')) if self.typeat() else V('Expr', self.expr())
            self.need(')')
            return V('Sizeof', St(arg=a))
        return self.sub('suffix')

    def r_suffix(self):
        r = self.sub('atom')
        while True:
            r = self.head('suffixes', r)
            if self.at('('):
                ok, end, nm = self.pr.sub('call', self.p)
                pos = self.eng.get(self.pr.tok(self.p), 'pos')
                if not self.ask(ok):
                    raise Reject('call')
                r = V('Call', St(func=r, pos=pos, args=('subseq', 'args@' + nm[5:])))
                self.p = end
            elif self.eat('['):
                i = self.expr()
                self.need(']')
                r = V('ArrIndex', St(array=r, index=i))
            elif self.in_(['++', '--']):
                r = V('PostfixOperator', St(operator=self.kind(), operand=r))
                self.next()
            elif self.in_(['->', '.']):
                op = self.kind()
                self.next()
                r = V('FieldAccess', St(op=op, target=r, field_name=self.need('word')))
            else:
                return r

    def r_call(self):
        pos = self.eng.get(self.pr.tok(self.p), 'pos')
        self.need('(')
        args = []
        if not self.at(')'):
            args = [self.expr()]
            while True:
                args = self.head('args', args)
                if not self.eat(','):
                    break
                args = args + [self.expr()]
        self.need(')')
        return V('Call', St(pos=pos, func=('val', 'func'), args=args))

    def r_atom(self):
        if not self.more():
            raise Reject('end')
        if self.at('word'):
            if self.ask(self.pr.pred('isns', k(self.content()))):
                return V('NsName', self.sub('nsid'))
            n = self.content()
            self.next()
            return V('NsName', St(ns=Str(()), name=n))
        if self.in_(['num', 'string', 'char']):
            return V('Literal', self.sub('literal'))
        if self.eat('('):
            r = self.expr()
            self.need(')')
            return r
        if self.at('{'):
            return V('CompositeLiteral', self.sub('complit'))
        raise Reject('atom')

    def r_literal(self):
        for kd, v in (('string', 'String'), ('num', 'Number'), ('char', 'Char')):
            if self.at(kd):
                c = self.content()
                self.next()
                return V(v, c)
        if self.at('word') and self.ask(self.eng.streq(self.content(), Str(('NULL',)))):
            self.next()
            return V('Null')
        raise Reject('literal')

    def r_nsid(self):
        n = self.need('word')
        if self.ask(self.pr.pred('isns', k(n))) and self.at('.') and self.at('word', 1):
            m = self.content(1)
            self.next()
            self.next()
            return St(ns=n, name=m)
        return St(ns=Str(()), name=n)

    def r_complit(self):
        self.need('{')
        es = []
        while True:
            es = self.head('entries', es)
            if self.at('}'):
                break
            es = es + [self.sub('comentry')]
            if not self.eat(','):
                break
        self.need('}')
        return St(entries=es)

    def r_comentry(self):
        if self.eat('.'):
            n = self.need('word')
            self.need('=')
            return St(is_index=False, key=some(V('NsName', St(ns=Str(()), name=n))), value=self.expr())
        if self.eat('['):
            key = self.expr()
            self.need(']')
            self.need('=')
            return St(is_index=True, key=some(key), value=self.expr())
        return St(is_index=False, key=NONE, value=self.expr())

    # -- types and forms
    def r_typename(self):
        c = self.eat('const')
        return St(is_const=c, name=self.sub('nsid'))

    def stars(self):
        n = 0
        while True:
            n = self.head('stars', n)
            if not self.eat('*'):
                return n
            n = n + 1

    def r_typeform(self):
        t = self.sub('typename')
        return St(typename=t, hops=self.stars())

    def r_form(self):
        if not self.more():
            raise Reject('end')
        n = self.stars()
        name = self.need('word')
        if self.ask(self.eng.streq(name, Str(()))):
            raise Reject('empty name')
        ix = []
        while True:
            ix = self.head('indexes', ix)
            if not self.eat('['):
                break
            if self.at(']') or not self.more():
                ix = ix + [NONE]
            else:
                ix = ix + [some(self.expr())]
            self.need(']')
        return St(name=name, hops=n, indexes=ix)

    def r_anonparams(self):
        self.need('(')
        fs = []
        ell = False
        if not self.at(')'):
            fs = [self.sub('typeform')]
            while True:
                fs = self.head('types', fs)
                if not self.eat(','):
                    break
                if self.eat('...'):
                    ell = True
                    break
                fs = fs + [self.sub('typeform')]
        self.need(')')
        return St(ellipsis=ell, forms=fs)

    def r_param(self):
        t = self.sub('typename')
        fs = [self.sub('form')]
        while True:
            fs = self.head('forms', fs)
            if not self.at(','):
                break
            p = self.p
            self.next()
            if self.typeat() or self.at('...'):
                self.p = p
                break
            fs = fs + [self.sub('form')]
        return St(typename=t, forms=fs)

    def r_fields(self):
        if self.at('struct'):
            raise Reject('struct')
        t = self.sub('typename')
        fs = [self.sub('form')]
        while True:
            fs = self.head('forms', fs)
            if not self.eat(','):
                break
            fs = fs + [self.sub('form')]
        self.need(';')
        return St(typename=t, forms=fs)

    def r_union(self):
        self.need('union')
        self.need('{')
        fs = []
        while True:
            fs = self.head('members', fs)
            if self.at('}'):
                break
            t = self.sub('typename')
            f = self.sub('form')
            self.need(';')
            fs = fs + [St(type_name=t, form=f)]
        self.need('}')
        f = self.sub('form')
        self.need(';')
        return St(form=f, fields=fs)

    # -- statements
    def r_stmt(self):
        if not self.more():
            raise Reject('end')
        if self.typeat():
            t = self.sub('typename')
            f = self.sub('form')
            v = some(self.expr()) if self.eat('=') else NONE
            self.need(';')
            return V('VarDecl', St(typename=t, form=f, value=v))
        if self.eat('break'):
            self.need(';')
            return V('Break')
        if self.eat('continue'):
            self.need(';')
            return V('Continue')
        if self.eat('for'):
            self.need('(')
            if self.at(';'):
                init = NONE
            elif self.at('word') and self.istype():
                t = self.sub('typename')
                f = self.sub('form')
                self.need('=')
                init = some(V('DeclLoopCounter', type_name=t, form=f, value=self.expr()))
            else:
                init = some(V('Expr', self.expr()))
            self.need(';')
            c = NONE if self.at(';') else some(self.expr())
            self.need(';')
            a = NONE if self.at(')') else some(self.expr())
            self.need(')')
            return V('For', St(init=init, condition=c, action=a, body=self.block()))
        if self.eat('if'):
            self.need('(')
            c = self.expr()
            self.need(')')
            b = self.block()
            e = some(self.block()) if self.eat('else') else NONE
            return V('If', St(condition=c, body=b, else_body=e))
        if self.eat('return'):
            if self.eat(';'):
                return V('Return', St(expression=NONE))
            e = self.expr()
            self.need(';')
            return V('Return', St(expression=some(e)))
        if self.eat('switch'):
            s = self.at('word') and self.ask(self.eng.streq(self.content(), Str(('str',))))
            if s:
                self.next()
            self.need('(')
            v = self.expr()
            self.need(')')
            self.need('{')
            cs = []
            while True:
                cs = self.head('cases', cs)
                if not self.at('case'):
                    break
                cs = cs + [self.sub('case', True)]
            d = NONE
            if self.eat('default'):
                self.need(':')
                d = some(self.body())
            self.need('}')
            return V('Switch', St(is_str=s, value=v, cases=cs, default_case=d))
        if self.eat('while'):
            self.need('(')
            c = self.expr()
            self.need(')')
            return V('While', St(cond=c, body=self.block()))
        e = self.expr()
        self.need(';')
        return V('Expression', e)

    def r_case(self):
        self.need('case')
        vs = []
        while True:
            vs = self.head('values', vs)
            vs = vs + [V('Ident', self.sub('nsid')) if self.at('word') else V('Literal', self.sub('literal'))]
            if not self.eat(','):
                break
        self.need(':')
        return St(values=vs, body=self.body())

    def r_block(self):
        if self.at('{'):
            return self.body()
        return St(statements=[self.sub('stmt', True)])

    def r_body(self):
        self.need('{')
        ss = []
        while True:
            ss = self.head('statements', ss)
            if not self.more() or self.at('}'):
                break
            ss = ss + [self.sub('stmt', True)]
        self.need('}')
        return St(statements=ss)

    # -- modules
    def r_enum(self):
        self.need('enum')
        self.need('{')
        es = []
        while True:
            es = self.head('entries', es)
            n = self.need('word')
            v = some(self.expr()) if self.eat('=') else NONE
            es = es + [St(name=n, val=v)]
            if not self.eat(',') or self.at('}'):
                break
        self.need('}')
        self.eat(';')
        return V('Enum', St(is_pub=('arg', 'pub'), entries=es))

    def r_typedef(self):
        self.need('typedef')
        pub = ('arg', 'pub')
        if self.eat('{'):
            fs = []
            while True:
                fs = self.head('fields', fs)
                if not self.more() or self.at('}'):
                    break
                fs = fs + [V('Union', self.sub('union')) if self.at('union') else V('Plain', self.sub('fields'))]
            self.need('}')
            n = self.need('word')
            self.need(';')
            return V('StructTypedef', St(ispub=pub, entries=fs, name=n))
        if self.eat('struct'):
            a = self.need('word')
            b = self.need('word')
            self.need(';')
            return V('StructAlias', St(ispub=pub, structname=a, typename=b))
        t = self.sub('typename')
        n = self.stars()
        alias = self.need('word')
        ps = some(self.sub('anonparams')) if self.at('(') else NONE
        size = 0
        if self.eat('['):
            c = self.need('num')
            if not self.ask(z3.Int('tag!' + self.pr.parsed(c)) == 0):
                raise Reject('number')
            size = ('parsed', c)
            self.need(']')
        self.need(';')
        return V('Typedef', St(ispub=pub, typename=t, derefs=n, func_params=ps, array_size=size, alias=alias))

    def r_func(self):
        self.need('(')
        ps = []
        while True:
            ps = self.head('params', ps)
            if not self.typeat():
                break
            ps = ps + [self.sub('param')]
            if not self.eat(','):
                break
        var = self.eat('...')
        self.need(')')
        b = self.block()
        return V('FuncDecl', St(ispub=('arg', 'pub'), typename=('arg', 'typename'), form=('arg', 'form'),
                                params=St(list=ps, ellipsis=var), body=b))

    def r_object(self):
        if not self.more():
            raise Reject('end')
        pub = self.eat('pub')
        if self.at('enum'):
            return self.sub('enum ' + repr((k(Bool(pub)),)).replace(' ', ''))
        if self.at('typedef'):
            return self.sub('typedef ' + repr((k(Bool(pub)),)).replace(' ', ''))
        t = self.sub('typename')
        f = self.sub('form')
        if not self.more():
            raise Reject('end')
        if self.at('('):
            e = self.eng
            tv = e.make(self.pr.P.type_named('nodes::Typename'), t[1])
            fv = e.make(self.pr.P.type_named('nodes::Form'), f[1])
            return self.sub('func ' + repr((k(Bool(pub)), k(tv), k(fv))).replace(' ', ''), True)
        self.need('=')
        if pub:
            raise Reject('exported variable')
        v = self.expr()
        self.need(';')
        return V('ModVar', St(typename=t, form=f, value=some(v)))


    def r_module(self):
        es = []
        while True:
            es = self.head('elements', es)
            if not self.more():
                return St(elements=es)
            if self.eat('import'):
                continue
            if self.at('macro'):
                es = es + [self.sub('macro')]
            else:
                es = es + [self.sub('object', True)]


class Cmp:
    def __init__(self, pr, st, args):
        self.pr = pr
        self.eng = pr.eng
        self.st = st
        self.args = args

    def must(self, c, what):
        self.pr.n += 1
        if c is True:
            return
        if c is False or not self.eng.entails(self.st, c):
            raise Bad(what)

    def variant(self, v):
        vs = self.eng.T[v.t]['v']
        if isinstance(v, Adt):
            return vs[v.v]['n']
        t = self.eng.tag(v)
        live = [i for i in range(len(vs)) if self.eng.check(self.st.pc + (t == i,)) == z3.sat]
        return vs[live[0]]['n'] if len(live) == 1 else None

    def eq(self, v, e, path):
        v = strip(v)
        if e is ANY:
            return
        if isinstance(e, tuple) and e[0] == 'sub':
            nm = e[1]
            want = nm
            if isinstance(v, Sym) and v.name == want:
                self.pr.n += 1
                return
            if isinstance(v, Adt):
                # taken apart and put together again
                return self.same(v, self.eng.make(v.t, want), path)
            raise Bad(f'{path}: {self.show(v)} instead of {want}')
        if isinstance(e, tuple) and e[0] == 'subseq':
            if isinstance(v, Seq) and len(v.p) == 1 and v.p[0][0] == 's' and v.p[0][1].name == e[1]:
                self.pr.n += 1
                return
            raise Bad(f'{path}: {self.show(v)} instead of {e[1]}')
        if isinstance(e, tuple) and e[0] in ('val', 'arg'):
            return self.same(v, strip(self.args[e[1]]), path)
        if isinstance(e, tuple) and e[0] == 'parsed':
            self.must(isinstance(v, Int) and str(v.e) == self.pr.parsed(e[1]) + '.Ok.0', f'{path}: {self.show(v)} instead of the number {e[1]!r}')
            return
        if isinstance(e, bool):
            self.must(v.e if e else NOT(v.e), f'{path}: {self.show(v)} instead of {e}')
            return
        if isinstance(e, int) or z3.is_expr(e):
            if not isinstance(v, Int):
                raise Bad(f'{path}: {self.show(v)} instead of {e}')
            self.must(v.e == e, f'{path}: {self.show(v)} instead of {e}')
            return
        if isinstance(e, Str):
            if not isinstance(v, Str):
                raise Bad(f'{path}: {self.show(v)} instead of {e!r}')
            self.must(self.eng.streq(v, e), f'{path}: {self.show(v)} instead of {e!r}')
            return
        if isinstance(e, Val):
            return self.same(v, e, path)
        if isinstance(e, list):
            if not isinstance(v, Seq) or len(v.p) != len(e):
                raise Bad(f'{path}: {self.show(v)} instead of {len(e)} elements')
            for i, (x, y) in enumerate(zip(v.p, e)):
                if isinstance(y, tuple) and y[0] == 'rest' or x[0] == 's':
                    if not (x[0] == 's' and isinstance(y, tuple) and y[0] == 'rest' and y[1] == x[1].name):
                        raise Bad(f'{path}[{i}]: {x!r} instead of {y!r}'[:200])
                    continue
                self.eq(x[1], y, f'{path}[{i}]')
            return
        if isinstance(e, V):
            if not isinstance(v, (Adt, Sym)):
                raise Bad(f'{path}: {self.show(v)} instead of {e!r}'[:300])
            self.pr.n += 1
            if e.variant is not None:
                w = self.variant(v)
                if w != e.variant:
                    raise Bad(f'{path}: {w or self.show(v)} instead of {e.variant}')
                vi = self.pr.P.variant(v.t, e.variant)
            else:
                vi = 0
            for i, x in enumerate(e.pos):
                self.eq(self.eng.child(v, vi, i), x, f'{path}.{e.variant}')
            for f, x in e.fields.items():
                self.eq(self.eng.child(v, vi, self.pr.P.field(v.t, vi, f)), x, f'{path}.{f}')
            return
        raise Unsupported(f'expectation {e!r}')

    def same(self, v, w, path):
        v, w = strip(v), strip(w)
        self.pr.n += 1
        if k(v) == k(w):
            return
        if isinstance(v, Str) and isinstance(w, Str):
            return self.must(self.eng.streq(v, w), f'{path}: {v!r} instead of {w!r}')
        if isinstance(v, (Int, Bool)) and isinstance(w, type(v)):
            return self.must(B(v.e) == B(w.e) if isinstance(v, Bool) else I(v.e) == I(w.e), f'{path}: {v!r} instead of {w!r}')
        if isinstance(v, (Adt, Sym)) and isinstance(w, (Adt, Sym)) and v.t == w.t:
            if self.eng.T[v.t]['n'].endswith('buf::Pos') and not path.endswith('pos!'):
                pass
            a, b = self.variant(v), self.variant(w)
            if a is not None and a == b:
                vi = self.pr.P.variant(v.t, a)
                for i, f in enumerate(self.eng.T[v.t]['v'][vi]['f']):
                    self.same(self.eng.child(v, vi, i), self.eng.child(w, vi, i), f"{path}.{f['n']}")
                return
        raise Bad(f'{path}: {self.show(v)} instead of {self.show(w)}')

    def show(self, v):
        return repr(v)[:200]


def judge(pr, o, ref, args):
    """compares one outcome with the grammar; returns failures"""
    eng = pr.eng
    work = [o.state]
    bad = []
    m = 0
    while work:
        st = work.pop()
        m += 1
        if m > 400:
            raise Unsupported('too many cases in the grammar')
        if not eng.feasible(st):
            continue
        try:
            r = Ref(pr, st)
            want, why = None, ''
            try:
                want = ref(r)
            except Reject as e:
                why = str(e)
            pr.n += 1
            if o.kind == 'panic':
                if want is not None:
                    bad.append(f'panics ({o.why}) on input of the language: {want!r}'[:500])
                continue
            ret = strip(o.ret)
            c = Cmp(pr, st, args)
            vi = c.variant(ret)
            okv = None
            if vi == 'Ok':
                okv = strip(eng.child(ret, pr.P.variant(ret.t, 'Ok'), 0))
                if eng.T[okv.t].get('n', '').endswith('TWithErrors'):
                    errs = eng.get(okv, 'errors')
                    ln = eng.seqlen(errs)
                    if isinstance(ln, int):
                        clean = ln == 0
                    else:
                        clean = not eng.entails(st, ln > 0)
                    if not clean:
                        vi = 'Err'
                    okv = eng.get(okv, 'obj')
            elif vi is None:
                raise Unsupported(f'result {ret!r}'[:200])
            if want is None:
                if vi == 'Ok':
                    bad.append(f'accepts what the grammar rejects ({why}): {ret!r}'[:500])
                continue
            if vi != 'Ok':
                bad.append(f'rejects input of the language: {want!r}'[:500])
                continue
            if 'unget' in st.ghost:
                bad.append('puts back a token other than the one just read')
                continue
            try:
                c.eq(okv, want, 'result')
                c.must(I(st.ghost['p'].e) == I(r.p), f"stops at token {st.ghost['p'].e} instead of {r.p}")
            except Bad as e:
                bad.append(f'{e} (expected {want!r})'[:700])
        except Split as s:
            work.append(st.copy().assume(s.c))
            work.append(st.copy().assume(NOT(s.c)))
        if len(bad) > 2:
            break
    return bad


def show_tokens(pr, st):
    return ''


def unit(fn, ref, unroll=2, s=None, inline=(), alt=None, budget=100.0):
    def thunk(P):
        pr = Pr(P, unroll=unroll, inline=inline, budget=budget)
        eng = pr.eng
        name = PA + fn
        st, av = pr.start(name, **({'s': s(pr) if callable(s) else s} if s is not None else {}))
        args = argmap(P, eng, name, av)
        outs = eng.run(name, av, st)
        bad = []
        for o in outs:
            b = judge(pr, o, lambda r: ref(pr, r), args)
            if b and alt:
                b2 = judge(pr, o, lambda r: alt(pr, r), args)
                if not b2:
                    b = []
            bad += b
            if len(bad) > 2:
                break
        if not outs:
            bad.append('no outcome')
        eng.bounded = eng.cut > 0
        return pr.n, bad, eng
    return thunk


# ---------------------------------------------------------------- any number of repetitions
def positions(v, path=()):
    v0 = v
    if isinstance(v, (Int, Seq, Sym, Str)):
        yield path, v
    elif isinstance(v, Adt):
        yield path, v
        for i, x in enumerate(v.f):
            if x is not None:
                yield from positions(x, path + (i,))
    elif isinstance(v, Tup):
        for i, x in enumerate(v.f):
            if x is not None:
                yield from positions(x, path + (i,))
    elif isinstance(v, (SRef, BoxV)):
        yield from positions(v.v, path + ('*',))


def fits(ref, v):
    if isinstance(ref, list):
        return isinstance(v, Seq)
    if isinstance(ref, int) or z3.is_expr(ref):
        return isinstance(v, Int)
    return isinstance(v, (Sym, Adt))


def generic(ref, v):
    """the value of the grammar's variable that the generic value v stands for"""
    if isinstance(v, Seq):
        out = []
        i = 0
        for x in v.p:
            if x[0] == 's':
                out.append(('rest', x[1].name))
            else:
                out.append(x[1])
        return out
    if isinstance(v, Int):
        return v.e
    return v


class Induct:
    def __init__(self, pr, ref, args):
        self.pr = pr
        self.eng = pr.eng
        self.ref = ref
        self.args = args
        self.maps = {}        # loop -> generic state for the grammar

    def path(self, st):
        return [self.maps[l] for l in st.ghost.get('loops', ()) if l in self.maps]

    def cases(self, st, stop):
        """runs the grammar under the path, splitting what is open:
        yields (state, grammar state, value or None, AtHead or None)"""
        work = [st]
        m = 0
        while work:
            s = work.pop()
            m += 1
            if m > 300:
                raise Unsupported('too many cases in the grammar')
            if not self.eng.feasible(s):
                continue
            r = Ref(self.pr, s)
            r.gen = self.path(st)
            r.stop = stop
            try:
                try:
                    yield s, r, self.ref(r), None
                except Reject as e:
                    yield s, r, None, None
                except AtHead as h:
                    yield s, r, None, h
            except Split as sp:
                work.append(s.copy().assume(sp.c))
                work.append(s.copy().assume(NOT(sp.c)))

    def errs(self, st, cell):
        if cell is None:
            return None
        from mirv import loops
        return loops.at_path(loops.getcell(st, cell[0]), cell[1])

    def couple(self, lid):
        from mirv import loops
        import itertools
        st, sh, abss, backs = self.eng.loop_log[lid]
        j = len(self.path(st))
        inits = []
        for s, r, v, h in self.cases(st, j):
            if h is None or h.again:
                raise Unsupported('the code repeats where the grammar does not')
            inits.append((s, h))
        if not inits:
            return
        n = len(inits[0][1].vs)
        cand = []
        errc = [None]
        hc = loops.cells(sh)
        for c, a in abss.items():
            if c == ('G', 'p'):
                continue
            for path, v in positions(hc.get(c)):
                if isinstance(v, Seq) and self.eng.T[self.eng.seq_et(v)].get('n', '').endswith('errors::Error'):
                    errc.append((c, path))
                else:
                    cand.append((c, path, v))
        gp = hc[('G', 'p')].e
        errc = errc[-1:]
        per = []
        for i in range(n):
            ok = []
            for c, path, v in cand:
                if not fits(inits[0][1].vs[i], v):
                    continue
                try:
                    for s, h in inits:
                        cm = Cmp(self.pr, s, self.args)
                        cm.eq(loops.at_path(loops.getcell(st, c), path), h.vs[i], 'before the repetition')
                        cm.must(I(st.ghost['p'].e) == I(h.p), 'cursor')
                    ok.append((c, path, v))
                except Bad:
                    pass
            per.append(ok)
        why = 'no variable of the code fits the grammar'
        for pick in itertools.product(*per):
            inv = [z3.And(x[2].e >= 0, x[2].e <= gp, gp <= N) for x in pick if isinstance(x[2], Int)]
            g = {'p': gp, 'inv': inv, 'vars': [generic(inits[0][1].vs[i], x[2]) for i, x in enumerate(pick)], 'errs': errc[0], 'lid': lid}
            self.maps[lid] = g
            try:
                for b in backs:
                    self.back(b, j, pick, errc[0], sh)
                # a counter never exceeds the number of tokens
                for x in pick:
                    if isinstance(x[2], Int):
                        for s, at in [(st, st)] + [(b.copy().assume(inv[0]), b) for b in backs]:
                            w = loops.at_path(loops.getcell(at, x[0]), x[1]).e
                            q = I(at.ghost['p'].e)
                            self.pr.n += 1
                            if not self.eng.entails(s, z3.And(I(w) >= 0, I(w) <= q, q <= N)):
                                raise Bad('counter')
                return
            except (Bad, Unsupported) as e:
                why = str(e)
                del self.maps[lid]
        raise Unsupported(f'repetition {lid}: {why}'[:400])

    def back(self, b, j, pick, ec, sh):
        from mirv import loops
        e0 = self.errs(sh, ec)
        e1 = self.errs(b, ec)
        if e0 is not None:
            b = b.copy().assume(I(self.eng.seqlen(e0)) == 0)
        for s, r, v, h in self.cases(b, None):
            self.pr.n += 1
            if h is None and v is None:
                # rejected: that must be on record
                if e1 is None or not self.eng.entails(s, I(self.eng.seqlen(e1)) > 0):
                    raise Bad('goes on after an error')
                continue
            if h is None or not h.again:
                raise Bad('goes on where the grammar ends')
            cm = Cmp(self.pr, s, self.args)
            if e1 is not None:
                cm.must(I(self.eng.seqlen(e1)) == 0, 'errors without a reason')
            if 'unget' in s.ghost:
                raise Bad('puts back another token')
            cm.must(I(b.ghost['p'].e) == I(h.p), 'cursor')
            for i, (c, path, _) in enumerate(pick):
                cm.eq(loops.at_path(loops.getcell(b, c), path), h.vs[i], 'after one repetition')
        if e0 is not None:
            # errors stay on record
            s = b.copy()
            s.pc = b.pc[:-1] + (I(self.eng.seqlen(e0)) > 0,)
            if self.eng.feasible(s) and not self.eng.entails(s, I(self.eng.seqlen(e1)) > 0):
                raise Bad('forgets an error')

    def outcome(self, o):
        st = o.state
        # nothing was rejected in an earlier repetition
        for g in self.path(st):
            if g['inv']:
                st = st.copy().assume(z3.And(*g['inv']))
            if g['errs'] is not None:
                e0 = self.errs(self.eng.loop_log[g['lid']][1], g['errs'])
                ln = I(self.eng.seqlen(e0))
                # an earlier error: the result has to be an error
                s2 = st.copy().assume(ln > 0)
                if self.eng.feasible(s2) and o.kind == 'return':
                    self.rejected(s2, o)
                st = st.copy().assume(ln == 0)
        if not self.eng.feasible(st):
            return
        gen = self.path(st)

        def ref(r):
            r.gen = gen
            try:
                return self.ref(r)
            except AtHead:
                raise Bad('ends where the grammar repeats')
        try:
            bad = judge(self.pr, Outcome(o.kind, st, o.ret, o.why), ref, self.args)
        except Bad as e:
            bad = [str(e)]
        if bad:
            raise Unsupported('any number of repetitions: ' + bad[0][:300])

    def rejected(self, st, o):
        c = Cmp(self.pr, st, self.args)
        ret = strip(o.ret)
        vi = c.variant(ret)
        if vi == 'Err':
            return
        okv = strip(self.eng.child(ret, self.pr.P.variant(ret.t, 'Ok'), 0))
        if not self.eng.entails(st, I(self.eng.seqlen(self.eng.get(okv, 'errors'))) > 0):
            raise Unsupported('an earlier error is lost')


def induct(fn, ref, s=None, deep=12):
    def thunk(P):
        try:
            return induct1(fn, ref, s)(P)
        except Unsupported as e:
            # no induction: at least many repetitions
            for k_ in (5, deep):
                try:
                    n, bad, eng = unit(fn, ref, unroll=k_, s=s, budget=12.0)(P)
                except Unsupported:
                    break
                if bad:
                    return n, bad, eng
            raise e
    return thunk


def induct1(fn, ref, s=None):
    def thunk(P):
        pr = Pr(P, unroll=None)
        eng = pr.eng
        name = PA + fn
        st, av = pr.start(name, **({'s': s} if s is not None else {}))
        args = argmap(P, eng, name, av)
        outs = eng.run(name, av, st)
        ind = Induct(pr, lambda r: ref(pr, r), args)
        used = [l for o in outs for l in o.state.ghost.get('loops', ())]
        for lid in eng.loop_log:
            if lid in used and not any(lid in b.ghost.get('loops', ()) and b.ghost['loops'][-1] == lid and False for b in ()):
                top = eng.loop_log[lid][0].ghost.get('loops', ())
                if all(x in ind.maps for x in top):
                    if inner(eng, lid):
                        continue
                    ind.couple(lid)
        for o in outs:
            ind.outcome(o)
        return pr.n, [], eng
    return thunk


def inner(eng, lid):
    """is this loop inside another one (error recovery)?"""
    st = eng.loop_log[lid][0]
    f = st.frames[-1]
    return bool(f.inloop) and any(h != int(lid.split(':')[-2]) for h in f.inloop)


def argmap(P, eng, name, av):
    args = {}
    f = P.fn(name)
    for i, a in enumerate(av):
        n = eng.T[f['locals'][i + 1]].get('n', '')
        if isinstance(a, Bool):
            args['pub'] = a
        elif n.endswith('nodes::Typename'):
            args['typename'] = a
        elif n.endswith('nodes::Form'):
            args['form'] = a
        elif n.endswith('nodes::Expr'):
            args['func'] = a
    return args


def parsed(self, s):
    return f'parse({k(s)})'


Pr.parsed = parsed


def expr_unit(i):
    """the i-th strength the code distinguishes"""
    def thunk(P):
        pr0 = Pr(P)
        lv = pr0.level(i)
        if i > pr0.str['suffix']:
            return 1, [], pr0.eng        # not a strength
        if lv.startswith('odd'):
            return 1, [f'operators of strength {i} and more are not those of any level of the C grammar'], pr0.eng
        top = pr0.level(i + 1) == lv and i < pr0.str['suffix']

        def ref(pr, r):
            if lv in ('prefix', 'suffix'):
                return r.sub(lv)
            return r.r_binary(lv)

        def alt(pr, r):
            v = r.sub(lv)
            if r.in_(STRAY):
                raise Reject('stray operator')
            return v
        return unit('parse_expr', ref, s=i, alt=alt if top else None)(P)
    return thunk


def expr_induct(i):
    def thunk(P):
        pr0 = Pr(P)
        lv = pr0.level(i)
        if lv not in NAMES[:-2] or pr0.level(i + 1) == lv:
            # no operators of its own: nothing is ever repeated
            n, bad, eng = expr_unit(i)(P)
            if eng.cut:
                raise Unsupported('repetition at a strength without operators')
            return n, bad, eng
        return induct('parse_expr', lambda pr, r: r.r_binary(lv), s=i)(P)
    return thunk


def distinct(eng, strs):
    for i in range(len(strs)):
        for j in range(i):
            eng.axioms.append(NOT(eng.streq(strs[i], strs[j])))


def type_follows_unit(m):
    def thunk(P):
        pr = Pr(P, inline=('type_follows',))
        eng = pr.eng
        eng.lens = lambda n: m if n.endswith(('.imports', '.allmods', '.typedefs')) and '[' not in n else 2 if n.endswith('.typedefs') else None
        name = PA + 'type_follows'
        st, av = pr.start(name)
        ctx = [strip(a) for a in av if not isinstance(a, MRef)][0]
        im = eng.get(eng.get(ctx, 'thismod'), 'imports').items()
        mods = eng.get(ctx, 'allmods').items()
        distinct(eng, [eng.get(i, 'ns') for i in im])
        distinct(eng, [eng.get(i, 'filepath') for i in mods])
        lit = lambda s: Str((s,))
        kd = lambda d: pr.kind(P0 + d)
        ns, ty = pr.content(P0), pr.content(P0 + 2)
        imp = OR(*[AND(eng.streq(eng.get(i, 'ns'), ns), eng.streq(eng.get(i, 'path'), eng.get(x, 'filepath')),
                       OR(*[eng.streq(t, ty) for t in eng.get(x, 'typedefs').items()])) for i in im for x in mods])
        want = AND(P0 < N, OR(eng.streq(kd(0), lit('const')), AND(eng.streq(kd(0), lit('word')), OR(
            pr.pred('istype', k(ns)),
            AND(P0 + 3 <= N, eng.streq(kd(1), lit('.')), eng.streq(kd(2), lit('word')), imp)))))
        bad = []
        for o in eng.run(name, av, st):
            pr.n += 1
            if o.kind != 'return':
                bad.append(f'panics: {o.why}')
            elif not eng.entails(o.state, B(o.ret.e) == B(want)):
                bad.append(f'says {o.ret.e} where a type does not follow, or the other way round')
            elif o.state.ghost['p'].e is not P0 and not eng.entails(o.state, I(o.state.ghost['p'].e) == P0):
                bad.append('moves the cursor')
        return pr.n, bad, eng
    return thunk


def is_type_unit(m):
    def thunk(P):
        pr = Pr(P, inline=('is_type',))
        eng = pr.eng
        eng.lens = lambda n: m
        has = z3.Bool('C type')
        if 'cspec::has_type' not in P.byname:
            raise Unsupported('no cspec::has_type')
        eng.contracts['cspec::has_type'] = lambda eng, st, args: [(st, Bool(has))]
        av = [eng.make(t, f'a{i}') for i, t in enumerate(eng.argtypes(PA + 'is_type'))]
        s, ts = strip(av[0]), strip(av[1])
        want = OR(has, *[eng.streq(s, Str((x,))) for x in ('struct', 'enum', 'union')], *[eng.streq(s, x) for x in ts.items()])
        bad = []
        for o in eng.run(PA + 'is_type', av):
            pr.n += 1
            if o.kind != 'return' or not eng.entails(o.state, B(o.ret.e) == B(want)):
                bad.append(f'is_type: {o.kind} {o.ret!r}')
        return pr.n, bad, eng
    return thunk


def is_ns_unit(m):
    def thunk(P):
        pr = Pr(P, inline=('ParseCtx::is_imported_ns',))
        eng = pr.eng
        eng.lens = lambda n: m if n.endswith('.imports') else None
        fn = PA + 'ParseCtx::is_imported_ns'
        av = [eng.make(t, f'a{i}') for i, t in enumerate(eng.argtypes(fn))]
        c, s = strip(av[0]), strip(av[1])
        im = eng.get(eng.get(c, 'thismod'), 'imports').items()
        want = OR(eng.streq(s, Str(('OS',))), *[eng.streq(s, eng.get(i, 'ns')) for i in im])
        bad = []
        for o in eng.run(fn, av):
            pr.n += 1
            if o.kind != 'return' or not eng.entails(o.state, B(o.ret.e) == B(want)):
                bad.append(f'is_imported_ns: {o.kind} {o.ret!r}')
        return pr.n, bad, eng
    return thunk


def exports_unit(m, en):
    """what a module exports: the exported objects, in order"""
    def thunk(P):
        pr = Pr(P, inline=('get_exports',))
        eng = pr.eng
        eng.lens = lambda n: m if n == 'a0' else en if n.endswith('.entries') and '.Enum' in n else None
        av = [eng.make(t, f'a{i}') for i, t in enumerate(eng.argtypes(PA + 'get_exports'))]
        els = strip(av[0]).items()
        bad = []
        for o in eng.run(PA + 'get_exports', av):
            work = [o.state]
            while work:
                st = work.pop()
                if not eng.feasible(st):
                    continue
                r = Ref(pr, st)
                try:
                    want = dict(consts=[], fns=[], types=[], structs=[])
                    for e in els:
                        vs = eng.T[e.t]['v']
                        live = [i for i in range(len(vs)) if eng.check(st.pc + (eng.tag(e) == i,)) == z3.sat]
                        for i in live[:-1]:
                            r.ask(eng.tag(e) == i)
                        live = [i for i in live if eng.check(st.pc + (eng.tag(e) == i,)) == z3.sat]
                        n = vs[live[0]]['n']
                        x = strip(eng.get(e, '0', n))
                        if n == 'Enum' and r.ask(eng.get(x, 'is_pub').e):
                            want['consts'] += eng.get(x, 'entries').items()
                        if n == 'Typedef' and r.ask(eng.get(x, 'ispub').e):
                            want['types'].append(eng.get(x, 'alias'))
                        if n == 'StructAlias' and r.ask(eng.get(x, 'ispub').e):
                            want['types'].append(eng.get(x, 'typename'))
                        if n == 'StructTypedef' and r.ask(eng.get(x, 'ispub').e):
                            want['types'].append(eng.get(x, 'name'))
                            want['structs'].append(x)
                        if n == 'FuncDecl' and r.ask(eng.get(x, 'ispub').e):
                            want['fns'].append(x)
                    if o.kind != 'return':
                        bad.append(f'panics {o.why}')
                        continue
                    Cmp(pr, st, {}).eq(o.ret, St(**want), 'exports')
                except Split as s:
                    work.append(st.copy().assume(s.c))
                    work.append(st.copy().assume(NOT(s.c)))
                except Bad as e:
                    bad.append(str(e))
            if len(bad) > 2:
                break
        return pr.n, bad, eng
    return thunk


def jobs():
    J = {}

    def job(name, fn, thunk, bound=None):
        J[name] = (PA + fn, thunk) + ((bound,) if bound else ())
    for i in range(15):
        job(f'parse expr {i}', 'parse_expr', expr_unit(i), 'at most 2 operators of one level in a row')
    for i in range(13):
        job(f'parse any expr {i}', 'parse_expr', expr_induct(i))
    for fn, rule in RULES.items():
        if rule in ('expr', 'macro'):
            continue
        m = getattr(Ref, 'r_' + rule, None)
        if m is None:
            continue
        job(f'parse any {rule}', fn, induct(fn, lambda pr, r, m=m: m(r)))
        job(f'parse {rule}', fn, unit(fn, lambda pr, r, m=m: m(r)), 'repetitions of at most 2')
    for m in range(3):
        job(f'typeat {m}', 'type_follows', type_follows_unit(m), f'{m} imports and modules, 2 types each')
        job(f'istype {m}', 'is_type', is_type_unit(m), f'{m} types')
        job(f'isns {m}', 'ParseCtx::is_imported_ns', is_ns_unit(m), f'{m} imports')
        for en in range(3):
            job(f'exports {m} {en}', 'get_exports', exports_unit(m, en), f'{m} objects, {en} constants each')
    return J


ASSUMES = [
    'the grammar in specs/parseproof.py is the language (it is the specification)',
    'fewer than 2^40 tokens',
    'the tokens ~ ++ -- directly behind a complete expression are refused',
    'a panic of the compiler on malformed input counts as a refusal',
    'the contracts of Lexer::get/peek/peekn/unget/more/follows/eat (discharged under C07)',
]
GROUPS = {
    'expr': ['parse expr', 'parse prefix', 'parse suffix', 'parse atom', 'parse call', 'parse com', 'parse literal', 'parse nsid'],
    'stmt': ['parse stmt', 'parse block', 'parse body', 'parse case'],
    'switch': ['parse stmt', 'parse case'],
    'decl': ['parse typename', 'parse typeform', 'parse form', 'parse anonparams', 'parse param', 'parse fields', 'parse union',
             'parse enum', 'parse typedef', 'parse func', 'parse object'],
    'module': ['parse module', 'parse object'],
    'exports': ['exports'],
    'types': ['typeat', 'istype', 'isns'],
    'literal': ['parse literal'],
}
for g in ('literal', 'expr', 'stmt', 'switch', 'decl', 'module'):
    GROUPS[g] = GROUPS[g] + [x.replace('parse ', 'parse any ') for x in GROUPS[g]]
