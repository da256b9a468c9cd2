"""Contracts of the C formatter (src/format_c.rs).

Contract of every function F(node): the text it returns is derived, in the C
grammar, from the production that belongs to the node, and its parse tree is the
tree of the node. A caller is checked against the contracts of the functions it
calls: a call leaves a placeholder token that stands for any text satisfying the
callee's contract. Expressions carry the grammar level of the callee's text, so
every place where a placeholder stands asks for a minimal level."""
import itertools
import time
import z3
from mirv.engine import *
from oracle import cfront
from oracle.cfront import ParseError, LEVEL
from checks.ctx import Ob

BINOPS = list(LEVEL)
PREOPS = ['!', '--', '++', '*', '~', '&', '-', '+']
POSTOPS = ['++', '--']
# contracted function -> kind of text it returns
KINDS = {
    'format_c::fmt_expr': 'expr',
    'format_c::format_literal': 'literal',
    'format_c::format_type': 'type',
    'format_c::fmt_bare_typeform': 'baretype',
    'format_c::format_form': 'form',
    'format_c::fmt_func_params': 'params',
    'format_c::fmt_anon_params': 'anonparams',
    'format_c::format_body': 'body',
    'format_c::format_statement': 'stmt',
    'format_c::format_union': 'union',
    'format_c::fmt_enumdef': 'mod',
    'format_c::fmt_func_def': 'mod',
    'format_c::fmt_forward_func': 'mod',
    'format_c::format_compat_struct_definition': 'mod',
    'format_c::format_typedef': 'mod',
}


class Ph:
    def __init__(self, kind, val, atom):
        self.kind = kind
        self.val = val
        self.atom = atom

    def __repr__(self):
        return f'<{self.kind} {self.atom.name}>'


class Mismatch(Exception):
    pass


class Split(Exception):
    """the match depends on an unknown: (list of conditions to try)"""

    def __init__(self, conds):
        self.conds = conds


def domains(name):
    if name.endswith('.BinaryOp.0.op'):
        return BINOPS
    if name.endswith('.PrefixOp.operator'):
        return PREOPS
    if name.endswith('.PostfixOp.operator'):
        return POSTOPS
    if name.endswith('.FieldAccess.op'):
        return ['.', '->']
    return None


def engine(P, skip=(), budget=60.0):
    eng = Engine(P, budget=budget)
    eng.domains = domains
    eng.missing = []
    for fn, kind in KINDS.items():
        if fn in P.byname:
            eng.contracts[fn] = contract(fn, kind)
        else:
            eng.missing.append(fn)
    if 'format_c::indent' in P.byname:
        eng.contracts['format_c::indent'] = indent_contract
    return eng


def contract(fn, kind):
    def c(eng, st, args):
        v = eng.load(st, args[0])
        while isinstance(v, (SRef, BoxV)):
            v = v.v
        return [(st, Str((Atom(f'{fn}({k(v)})', ('ph', kind, v)),)))]
    return c


def indent_contract(eng, st, args):
    """only white space between tokens differs"""
    s = eng.load(st, args[0])
    return [(st, Str(('\t',) + s.p))]


# ------------------------------------------------------------------ tokens

ALLF = ['x', '1', '"s"', "'c'", '(', '{'] + PREOPS
ALLL = ['x', '1', '"s"', "'c'", ')', ']', '}', '++', '--']
NAMES = {'Literal': (['x', '1', '"s"', "'c'"],) * 2, 'CompositeLiteral': (['{'], ['}']), 'Ident': (['x'], ['x']),
         'BinaryOp': (ALLF, ALLL), 'FieldAccess': (['x', '1', '"s"', "'c'", '(', '{'], ['x']),
         'PrefixOp': (PREOPS, ALLL), 'PostfixOp': (['x', '1', '"s"', "'c'", '(', '{'], ['++', '--']), 'Cast': (['('], ALLL),
         'Call': (['x', '1', '"s"', "'c'", '(', '{'], [')']), 'Sizeof': (['x'], ALLL), 'ArrayIndex': (['x', '1', '"s"', "'c'", '(', '{'], [']'])}


class M:
    """one outcome of a formatter function under a path condition"""

    def __init__(self, eng, st, own=None):
        self.eng = eng
        self.st = st
        self.T = eng.T
        self.obs = 0
        self.own = own

    # -- symbolic case analysis
    def strip(self, v):
        while isinstance(v, (SRef, BoxV)):
            v = v.v
        return v

    def variants(self, v):
        v = self.strip(v)
        vs = self.T[v.t]['v']
        if isinstance(v, Adt):
            return [vs[v.v]['n']]
        t = self.eng.tag(v)
        out = []
        for i, x in enumerate(vs):
            if self.eng.check(self.st.pc + (t == i,)) == z3.sat:
                out.append(x['n'])
        return out

    def tag(self, v):
        v = self.strip(v)
        if not isinstance(v, (Adt, Sym)):
            raise Unsupported(f'tag of {v!r}'[:100])
        names = self.variants(v)
        if len(names) == 1:
            return names[0]
        if not names:
            raise Mismatch('unreachable')
        t = self.eng.tag(v)
        idx = {x['n']: i for i, x in enumerate(self.T[v.t]['v'])}
        raise Split([t == idx[n] for n in names])

    def bool(self, v):
        v = self.strip(v)
        if isinstance(v.e, bool):
            return v.e
        yes = self.eng.check(self.st.pc + (v.e,)) == z3.sat
        no = self.eng.check(self.st.pc + (NOT(v.e),)) == z3.sat
        if yes and no:
            raise Split([v.e, NOT(v.e)])
        return yes

    def cond(self, c):
        if isinstance(c, bool):
            return c
        return self.bool(Bool(c))

    def text(self, s, dom):
        """value of a text that comes from a finite set"""
        s = self.strip(s)
        if s.lit() is not None:
            return s.lit()
        t = self.eng.strterm(s)
        out = [d for d in dom if self.eng.check(self.st.pc + (t == self.eng.strterm(Str((d,))),)) == z3.sat]
        if len(out) == 1:
            return out[0]
        raise Split([t == self.eng.strterm(Str((d,))) for d in out])

    def opt(self, v):
        v = self.strip(v)
        if self.tag(v) == 'None':
            return None
        return self.strip(self.eng.get(v, '0', 'Some'))

    def get(self, v, f, variant=None):
        return self.strip(self.eng.get(self.strip(v), f, variant))

    def items(self, v):
        v = self.strip(v)
        if not isinstance(v, Seq) or not v.concrete():
            raise Unsupported('list of unknown length')
        return [self.strip(x) for x in v.items()]

    # -- text to tokens
    def toks(self, s):
        phs = []
        units = []     # ('lit', text) | ('ph', index)
        for x in s.p:
            if isinstance(x, str):
                units.append(('lit', x))
                continue
            info = x.info
            dom = domains(x.name)
            if dom:
                units.append(('lit', self.text(Str((x,)), dom)))
                continue
            if info and info[0] == 'ph':
                ph = Ph(info[1], info[2], x)
            elif info and info[0] == 'repeat':
                if info[1].lit() != '*':
                    raise Unsupported('repeat')
                ph = Ph('stars', info[2], x)
            elif info and info[0] in ('fold', 'join', 'sub', 'map'):
                raise Unsupported(f'text {x!r}'[:150])
            elif x.name.endswith('.stars'):
                ph = Ph('stars', Str((x,)), x)
            elif x.name.endswith(('.typename.name', '.type_name.name')):
                ph = Ph('typeword', Str((x,)), x)
            else:
                ph = Ph('raw', Str((x,)), x)
            units.append(('ph', len(phs)))
            phs.append(ph)
        # merge neighbouring literals (operators were substituted)
        merged = []
        for u in units:
            if merged and u[0] == 'lit' and merged[-1][0] == 'lit':
                merged[-1] = ('lit', merged[-1][1] + u[1])
            else:
                merged.append(u)
        out = []
        for i, u in enumerate(merged):
            if i and (u[0] == 'ph' or merged[i - 1][0] == 'ph'):
                self.boundary(merged[i - 1], u, phs)
            if u[0] == 'lit':
                nl = False
                try:
                    ts = cfront.tokens(u[1])
                except ParseError as e:
                    raise Mismatch(f'not C tokens: {u[1]!r} ({e})')
                pos = 0
                for kd, v, _ in ts:
                    j = u[1].index(v, pos)
                    nl = '\n' in u[1][pos:j] or (out and out[-1][2] == 'nl')
                    if out and out[-1][2] == 'nl':
                        out[-1] = (out[-1][0], out[-1][1], (0, 0))
                    out.append((kd, v, ('nl' if False else (1 if nl else 0, 0))))
                    pos = j + len(v)
                if '\n' in u[1][pos:] and out:
                    self_nl = out[-1]
                    out[-1] = (self_nl[0], self_nl[1], (self_nl[2][0], 1))
            else:
                out.append(('ph', u[1], (0, 0)))
        self.phs = phs
        self.units = merged
        return out

    def edge(self, u, phs, last):
        """(representative tokens, white space at the edge?)"""
        if u[0] == 'lit':
            t = u[1]
            if t[-1 if last else 0].isspace():
                return None
            ts = cfront.tokens(t)
            if ts[-1 if last else 0][0] == 'macro':
                return None         # directives are checked by line
            return [ts[-1 if last else 0][1]]
        ph = phs[u[1]]
        if ph.kind == 'expr':
            out = []
            for n in self.variants(ph.val):
                reps = NAMES[n][1 if last else 0]
                if n == 'PrefixOp' and not last:
                    op = self.strip(self.eng.get(ph.val, 'operator', 'PrefixOp'))
                    t = self.eng.strterm(op)
                    reps = [d for d in PREOPS if self.eng.check(self.st.pc + (t == self.eng.strterm(Str((d,))),)) == z3.sat]
                if n == 'Literal' and self.nonumber(ph.val):
                    reps = [x for x in reps if x != '1']
                out += reps
            return sorted(set(out))
        if ph.kind == 'literal':
            return ['x', '1', '"s"', "'c'"]
        if ph.kind == 'stars':
            return ['*']
        if ph.kind in ('raw', 'typeword'):
            return ['x', '1'] if not last else ['x', '1']
        if ph.kind == 'type':
            return ['x']
        if ph.kind == 'baretype':
            return ['x', '*'] if last else ['x']
        if ph.kind == 'form':
            return ['x', ']'] if last else ['x', '*']
        if ph.kind in ('params', 'anonparams'):
            return [')'] if last else ['(']
        if ph.kind in ('body',):
            return ['}'] if last else ['{']
        if ph.kind == 'stmt':
            return [';', '}'] if last else ALLF + [';']
        if ph.kind in ('mod', 'union'):
            return [';'] if last else ['x', ';']
        raise Unsupported(ph.kind)

    def nonumber(self, v):
        """precondition: the target of a field access is not a number literal"""
        return getattr(v, 'name', '').endswith('.FieldAccess.target')

    def boundary(self, a, b, phs):
        if (a[0] == 'lit' and not a[1]) or (b[0] == 'lit' and not b[1]):
            return
        if (a[0] == 'lit' and a[1][-1].isspace()) or (b[0] == 'lit' and b[1][0].isspace()):
            return
        x = self.edge(a, phs, True)
        y = self.edge(b, phs, False)
        if x is None or y is None:
            return
        for p in x:
            for q in y:
                if p == '*' and q == '*':
                    continue
                ta = cfront.tokens(p + q) if True else None
                if [t[1] for t in ta] != [p, q]:
                    if a[0] == 'ph' and b[0] == 'ph' and phs[a[1]].kind in ('raw',) and phs[b[1]].kind in ('raw',):
                        raise Mismatch(f'words run together: {phs[a[1]]} {phs[b[1]]}')
                    if '1' in (p, q) and (a[0] == 'ph' and phs[a[1]].kind == 'raw' or b[0] == 'ph' and phs[b[1]].kind == 'raw') \
                            and ('x' not in (p, q)):
                        continue       # an identifier, by the position it stands in
                    raise Mismatch(f'tokens run together: {p} {q} at {a} {b}')

    # -- levels
    def level_cond(self, v, req):
        """z3 condition: the contract level of fmt_expr(v) is below req"""
        v = self.strip(v)
        bad = []
        idx = {x['n']: i for i, x in enumerate(self.T[v.t]['v'])}
        for n in self.variants(v) if isinstance(v, Adt) else idx:
            if n == 'BinaryOp':
                op = self.strip(self.eng.get(self.eng.get(v, '0', 'BinaryOp'), 'op'))
                low = [o for o in BINOPS if LEVEL[o] < req]
                if op.lit() is not None:
                    c = op.lit() in low or op.lit() not in LEVEL
                else:
                    t = self.eng.strterm(op)
                    c = OR(*[t == self.eng.strterm(Str((o,))) for o in low]) if low else False
            elif n in ('PrefixOp', 'Cast', 'Sizeof'):
                c = 13 < req
            elif n == 'CompositeLiteral':
                c = False           # precondition: only as an initialiser
            else:
                c = 14 < req
            if c is False:
                continue
            bad.append(AND(self.eng.tag(v) == idx[n], c) if isinstance(v, Sym) else c)
        return OR(*bad)

    def need_level(self, ph, req, where):
        self.obs += 1
        c = self.level_cond(ph.val, req)
        if c is False:
            return
        if self.eng.check(self.st.pc + (c,)) == z3.sat:
            raise Mismatch(f'{where}: operand {ph} may bind weaker than the position allows (level {req}); {self.example(c, ph.val)}')

    def example(self, c, v):
        s = self.eng.solver
        s.push()
        for x in self.st.pc + (c,):
            s.add(B(x))
        txt = ''
        if s.check() == z3.sat:
            m = s.model()
            rev = {n: t for t, n in self.eng.lits.items()}
            items = []
            for d in m.decls():
                n = d.name()
                val = m[d]
                if n.startswith('tag!') and getattr(v, 'name', '')[:1] == n[4:5]:
                    items.append(f'{n}={val}')
                elif n.startswith('s!') and z3.is_int_value(val) and val.as_long() in rev:
                    items.append(f'{n[2:]}={rev[val.as_long()]!r}')
            txt = ', '.join(sorted(items))
        s.pop()
        return 'for example ' + txt[:300]

    # -- matchers
    def same(self, a, b, what):
        self.obs += 1
        if not same(self.strip(a), self.strip(b)):
            if isinstance(a, Str) and isinstance(b, Str):
                c = self.eng.streq(a, b)
                if c is True or (c is not False and self.eng.entails(self.st, c)):
                    return
            raise Mismatch(f'{what}: {a!r} where {b!r} is due'[:400])

    def isph(self, t):
        return isinstance(t, tuple) and t and t[0] == 'ph'

    def ph(self, t):
        return self.phs[t[1]]

    def expr(self, t, v, req=2, where='expression'):
        v = self.strip(v)
        if t[0] == 'paren':
            return self.expr(t[1], v, 2, where)
        if self.isph(t):
            ph = self.ph(t)
            if ph.kind == 'expr':
                self.same(ph.val, v, where)
                return self.need_level(ph, req, where)
            tg = self.tag(v)
            if ph.kind == 'literal':
                if tg != 'Literal':
                    raise Mismatch(f'{where}: literal for {tg}')
                return self.same(ph.val, self.get(v, '0', 'Literal'), where)
            if ph.kind == 'raw':
                if tg == 'Ident':
                    return self.same(ph.val, self.get(v, '0', 'Ident'), where)
                if tg == 'Literal' and self.tag(self.get(v, '0', 'Literal')) == 'Number':
                    return self.same(ph.val, self.get(self.get(v, '0', 'Literal'), '0', 'Number'), where)
                raise Mismatch(f'{where}: {ph} for {tg}')
            raise Mismatch(f'{where}: {ph} for {tg}')
        tg = self.tag(v)
        g = lambda f: self.get(v, f, tg)
        if tg == 'Literal':
            lit = g('0')
            if self.tag(lit) == 'Null' and t[0] == 'id' and t[1] == 'NULL':
                return
            raise Mismatch(f'{where}: {t} for a literal')
        if tg == 'BinaryOp':
            if t[0] != 'bin':
                raise Mismatch(f'{where}: {t[0]} for a binary operator')
            x = g('0')
            op = self.text(self.get(x, 'op'), BINOPS)
            if t[1] != op:
                raise Mismatch(f'{where}: operator {t[1]} for {op}')
            lv = LEVEL[op]
            self.expr(t[2], self.get(x, 'a'), lv if lv > 2 else 3, f'left of {op}')
            return self.expr(t[3], self.get(x, 'b'), lv + 1 if lv > 2 else 2, f'right of {op}')
        if tg == 'PrefixOp':
            if t[0] != 'pre' or t[1] != self.text(g('operator'), PREOPS):
                raise Mismatch(f'{where}: {t} for prefix operator')
            return self.expr(t[2], g('operand'), 13, 'operand of ' + t[1])
        if tg == 'PostfixOp':
            if t[0] != 'post' or t[1] != self.text(g('operator'), POSTOPS):
                raise Mismatch(f'{where}: {t} for postfix operator')
            return self.expr(t[2], g('operand'), 14, 'operand of postfix ' + t[1])
        if tg == 'FieldAccess':
            if t[0] != 'fld' or t[1] != self.text(g('op'), ['.', '->']):
                raise Mismatch(f'{where}: {t} for field access')
            self.expr(t[2], g('target'), 14, 'target of ' + t[1])
            return self.word(t[3], g('field_name'), 'field name')
        if tg == 'Cast':
            if t[0] != 'cast':
                raise Mismatch(f'{where}: {t[0]} for a cast')
            self.baretype(t[1], g('type_name'))
            return self.expr(t[2], g('operand'), 13, 'operand of a cast')
        if tg == 'Call':
            if t[0] != 'call':
                raise Mismatch(f'{where}: {t[0]} for a call')
            self.expr(t[1], g('func'), 14, 'function of a call')
            return self.list(t[2], self.items(g('args')), lambda a, b: self.expr(a, b, 2, 'argument'), 'arguments')
        if tg == 'Sizeof':
            if t[0] != 'sizeof':
                raise Mismatch(f'{where}: {t[0]} for sizeof')
            arg = g('arg')
            at = self.tag(arg)
            if at == 'Typename':
                if t[1] != 't':
                    raise Mismatch('sizeof an expression for sizeof a type')
                return self.baretype(t[2], self.get(arg, '0', at))
            if t[1] != 'e':
                raise Mismatch('sizeof a type for sizeof an expression')
            return self.expr(t[2], self.get(arg, '0', at), 13, 'operand of sizeof')
        if tg == 'ArrayIndex':
            if t[0] != 'idx':
                raise Mismatch(f'{where}: {t[0]} for an index')
            self.expr(t[1], g('array'), 14, 'array')
            return self.expr(t[2], g('index'), 2, 'index')
        if tg == 'CompositeLiteral':
            if t[0] != 'comp':
                raise Mismatch(f'{where}: {t[0]} for an initialiser list')
            es = self.items(self.get(g('0'), 'entries'))
            if not es and t[1] in ((), ((None, ('num', '0')),)):
                return
            return self.list(t[1], es, self.entry, 'entries')
        raise Mismatch(f'{where}: {t} for {tg}')

    def entry(self, t, v):
        key = self.opt(self.get(v, 'key'))
        if key is None:
            if t[0] is not None:
                raise Mismatch('a key for an entry without one')
        elif t[0] is None:
            raise Mismatch('entry lost its key')
        elif self.bool(self.get(v, 'is_index')):
            if t[0][0] != 'idx':
                raise Mismatch('field key for an index')
            self.expr(t[0][1], key, 2, 'index key')
        else:
            if t[0][0] != 'fld':
                raise Mismatch('index key for a field')
            if self.isph(t[0][1]) and self.ph(t[0][1]).kind == 'expr':
                self.same(self.ph(t[0][1]).val, key, 'field key')
            else:
                if self.tag(key) != 'Ident':
                    raise Mismatch('field key')
                self.word(t[0][1], self.get(key, '0', 'Ident'), 'field key')
        self.expr(t[1], self.get(v, 'val'), 2, 'entry value')

    def list(self, ts, vs, f, what):
        if len(ts) != len(vs):
            raise Mismatch(f'{len(ts)} {what} for {len(vs)}')
        for a, b in zip(ts, vs):
            f(a, b)

    def word(self, t, s, what):
        if self.isph(t):
            ph = self.ph(t)
            if ph.kind not in ('raw', 'typeword'):
                raise Mismatch(f'{what}: {ph}')
            return self.same(ph.val, s, what)
        if not (isinstance(t, str) and self.strip(s).lit() == t):
            c = self.eng.streq(Str((t,)), self.strip(s))
            if c is True or (c is not False and self.eng.entails(self.st, c)):
                return
            raise Mismatch(f'{what}: {t!r}')

    def starsn(self, t, v, what):
        """t: number of '*' tokens or placeholder; v: Str of stars or Int"""
        v = self.strip(v)
        self.obs += 1
        if isinstance(t, int):
            if isinstance(v, Int):
                ok = self.eng.entails(self.st, I(v.e) == t)
            elif v.lit() is not None:
                ok = v.lit() == '*' * t
            else:
                c = self.eng.streq(v, Str(('*' * t,)))
                ok = c is True or (c is not False and self.eng.entails(self.st, c))
            if not ok:
                raise Mismatch(f'{what}: {t} stars for {v!r}')
            return
        ph = self.ph(t)
        if isinstance(v, Int):
            if isinstance(ph.val, Str) or not self.eng.entails(self.st, I(ph.val) == I(v.e)):
                raise Mismatch(f'{what}: stars {ph} for {v!r}')
            return
        if not (isinstance(ph.val, Str) and same(ph.val, v)):
            raise Mismatch(f'{what}: stars {ph} for {v!r}')

    def type(self, t, v):
        """Typename"""
        if self.isph(t):
            ph = self.ph(t)
            if ph.kind != 'type':
                raise Mismatch(f'type: {ph}')
            return self.same(ph.val, v, 'type')
        const, name = t
        if const != self.bool(self.get(v, 'is_const')):
            raise Mismatch('const')
        self.word(name[1], self.get(v, 'name'), 'type name')

    def baretype(self, t, v):
        if self.isph(t):
            ph = self.ph(t)
            if ph.kind != 'baretype':
                raise Mismatch(f'type: {ph}')
            return self.same(ph.val, v, 'type')
        self.type(t[0], self.get(v, 'typename'))
        self.starsn(t[1], self.get(v, 'hops'), 'type')

    def form(self, t, v):
        if self.isph(t):
            ph = self.ph(t)
            if ph.kind != 'form':
                raise Mismatch(f'form: {ph}')
            return self.same(ph.val, v, 'form')
        n, name, idx = t
        self.starsn(n, self.get(v, 'stars'), 'form')
        self.word(name, self.get(v, 'name'), 'form name')

        def one(a, b):
            b = self.opt(b)
            if (a is None) != (b is None):
                raise Mismatch('array dimension lost or added')
            if a is not None:
                self.expr(a, b, 2, 'array dimension')
        self.list(idx, self.items(self.get(v, 'indexes')), one, 'array dimensions')

    def tf(self, t, tv, fv):
        self.type(t[0], tv)
        self.form(t[1], fv)

    def params(self, t, v):
        if self.isph(t):
            return self.same(self.kind(t, 'params'), v, 'parameters')
        ps, var = t
        self.list(ps, self.items(self.get(v, 'list')),
                  lambda a, b: self.tf(a, self.get(b, 'type_name'), self.get(b, 'form')), 'parameters')
        if var != self.bool(self.get(v, 'variadic')):
            raise Mismatch('variadic marker')

    def kind(self, t, *kinds):
        ph = self.ph(t)
        if ph.kind not in kinds:
            raise Mismatch(f'{ph} where {kinds} is due')
        return ph.val

    def anonparams(self, t, v):
        if self.isph(t):
            return self.same(self.kind(t, 'anonparams'), v, 'parameters')
        ps, var = t
        fs = self.items(self.get(v, 'forms'))
        self.list(ps, fs, self.baretype, 'parameters')
        if fs and var != self.bool(self.get(v, 'ellipsis')):
            raise Mismatch('variadic marker')

    def body(self, t, v):
        if self.isph(t):
            return self.same(self.kind(t, 'body'), v, 'body')
        self.stmts(t, self.get(v, 'statements'))

    def stmts(self, ts, v):
        self.list(ts, self.items(v), self.stmt, 'statements')

    def initial(self, t, v, what):
        v = self.opt(v)
        if (t is None) != (v is None):
            raise Mismatch(f'{what} lost or added')
        if t is not None:
            self.expr(t, v, 2, what)

    def stmt(self, t, v):
        v = self.strip(v)
        if self.isph(t):
            return self.same(self.kind(t, 'stmt'), v, 'statement')
        tg = self.tag(v)
        g = lambda f: self.get(v, f, tg)

        def need(x):
            if t[0] != x:
                raise Mismatch(f'{t[0]} statement for {tg}')
        if tg == 'Block':
            need('block')
            if self.isph(t[1]):
                return self.same(self.get(self.kind(t[1], 'body'), 'statements'), g('statements'), 'block')
            return self.stmts(t[1], g('statements'))
        if tg in ('Break', 'Continue'):
            return need(tg.lower())
        if tg == 'VarDecl':
            need('var')
            self.type(t[1], g('type_name'))
            fs = self.items(g('forms'))
            vs = self.items(g('values'))
            self.list(t[2], list(zip(fs, vs)), lambda a, b: (self.form(a[0], b[0]), self.initial(a[1], b[1], 'initialiser')),
                      'declarators')
            return
        if tg == 'If':
            need('if')
            self.expr(t[1], g('condition'), 2, 'condition')
            self.body(t[2], g('body'))
            e = self.opt(g('else_body'))
            if (t[3] is None) != (e is None):
                raise Mismatch('else branch lost or added')
            if e is not None:
                self.body(t[3], e)
            return
        if tg == 'For':
            need('for')
            i = self.opt(g('init'))
            if (t[1] is None) != (i is None):
                raise Mismatch('for initialiser lost or added')
            if i is not None:
                it = self.tag(i)
                x = self.get(i, '0', it)
                if it == 'Expr':
                    if t[1][0] != 'expr':
                        raise Mismatch('for initialiser')
                    self.expr(t[1][1], x, 2, 'for initialiser')
                else:
                    if t[1][0] != 'decl':
                        raise Mismatch('for initialiser')
                    self.tf(t[1][1:3], self.get(x, 'typename'), self.get(x, 'form'))
                    self.expr(t[1][3], self.get(x, 'value'), 2, 'for initialiser')
            self.initial(t[2], g('condition'), 'for condition')
            self.initial(t[3], g('action'), 'for action')
            return self.body(t[4], g('body'))
        if tg == 'While':
            need('while')
            self.expr(t[1], g('cond'), 2, 'condition')
            return self.body(t[2], g('body'))
        if tg == 'Return':
            need('return')
            return self.initial(t[1], g('expression'), 'returned value')
        if tg == 'Expression':
            need('expr')
            return self.expr(t[1], g('0'), 2, 'statement')
        if tg == 'Switch':
            need('switch')
            return self.switch(t, g('0'))
        raise Mismatch(f'{t} for {tg}')

    def switch(self, t, x):
        self.expr(t[1], self.get(x, 'value'), 2, 'switch value')
        cases, default = t[2], t[3]

        def cv(a, b):
            tg = self.tag(b)
            if tg == 'Ident':
                return self.word(a, self.get(b, '0', tg), 'case value')
            if self.isph(a) and self.ph(a).kind == 'literal':
                return self.same(self.ph(a).val, self.get(b, '0', tg), 'case value')
            raise Mismatch('case value')

        def case(a, b):
            self.list(a[0], self.items(self.get(b, 'values')), cv, 'case values')
            body = list(a[1])
            if not body or body[-1] != ('break',):
                raise Mismatch('a case does not end in break')
            self.stmts(tuple(body[:-1]), self.get(self.get(b, 'body'), 'statements'))
        self.list(cases, self.items(self.get(x, 'cases')), case, 'cases')
        d = self.opt(self.get(x, 'default'))
        if (d is None) != (default is None):
            raise Mismatch('default lost or added')
        if d is not None:
            body = list(default)
            want = self.items(self.get(d, 'statements'))
            if len(body) == len(want) + 1 and body[-1] == ('break',):
                body.pop()
            self.list(body, want, self.stmt, 'statements')

    # -- module level
    def is_main(self, form):
        """conditions under which the form is the function main"""
        a = Atom(f'format_c::format_form({k(form)})', ('ph', 'form', form))
        return OR(self.eng.streq(Str((a,)), Str(('main',))), self.eng.streq(self.get(form, 'name'), Str(('main',))))

    def static(self, flag, v):
        st = self.get(v, 'is_static').e
        m = self.is_main(self.get(v, 'form'))
        self.obs += 1
        if flag:
            if not self.eng.entails(self.st, AND(st, NOT(m))):
                a = Atom(f"format_c::format_form({k(self.get(v, 'form'))})")
                if not self.eng.entails(self.st, AND(st, NOT(self.eng.streq(Str((a,)), Str(('main',)))))) and \
                        not self.eng.entails(self.st, AND(st, NOT(self.eng.streq(self.get(self.get(v, 'form'), 'name'), Str(('main',)))))):
                    raise Mismatch('static for an exported function or main')
        elif not self.eng.entails(self.st, OR(NOT(st), m)):
            raise Mismatch('a private function is not static')

    def modelem(self, t, v):
        v = self.strip(v)
        tg = self.tag(v)
        x = self.get(v, '0', tg)
        if self.isph(t):
            return self.same(self.kind(t, 'mod'), x, 'module element')
        if tg == 'VarDecl':
            if t[0] != 'modvar' or not t[1]:
                raise Mismatch('module variable')
            self.tf(t[2:4], self.get(x, 'typename'), self.get(x, 'form'))
            return self.expr(t[4], self.get(x, 'value'), 2, 'module variable value')
        if tg == 'Macro':
            if t[0] != 'directive':
                raise Mismatch('directive')
            self.word(t[1], self.get(x, 'name'), 'directive')
            return self.word(t[2], self.get(x, 'value'), 'directive')
        if tg == 'Include':
            if t[0] != 'include':
                raise Mismatch('include')
            return self.word(t[1], x, 'include')
        if tg == 'ForwardStruct':
            if t[0] != 'fwdstruct':
                raise Mismatch('struct declaration')
            return self.word(t[1], x, 'struct name')
        f = {'DefEnum': self.enumdef, 'Typedef': self.typedef, 'StuctDef': self.structdef, 'ForwardFunc': self.proto,
             'FuncDef': self.funcdef}.get(tg)
        if not f:
            raise Unsupported('module element ' + tg)
        return f(t, x)

    def enumdef(self, t, x):
        if t[0] != 'enum':
            raise Mismatch('enum')

        def one(a, b):
            self.word(a[0], self.get(b, 'id'), 'enum member')
            self.initial(a[1], self.get(b, 'value'), 'enum value')
        self.list(t[1], self.items(self.get(x, 'entries')), one, 'enum members')

    def typedef(self, t, x):
        if t[0] != 'typedef':
            raise Mismatch('typedef')
        f = self.get(x, 'form')
        self.type(t[1], self.get(x, 'typename'))
        self.starsn(t[2], self.get(f, 'stars'), 'typedef')
        self.word(t[3], self.get(f, 'alias'), 'typedef name')
        ps = self.opt(self.get(f, 'params'))
        if (ps is None) != (t[4] is None):
            raise Mismatch('typedef parameters lost or added')
        if ps is not None:
            self.anonparams(t[4], ps)
        n = self.get(f, 'size').e
        if t[5] is None:
            if not self.eng.entails(self.st, I(n) <= 0):
                raise Mismatch('typedef size lost')
        else:
            at = self.ph(t[5]).atom if self.isph(t[5]) else None
            if at is None or not at.info and at is not None or at.info[0] != 'dec' or not self.eng.entails(self.st, I(at.info[1]) == I(n)):
                raise Mismatch('typedef size')

    def structdef(self, t, x):
        if t[0] != 'structdef':
            raise Mismatch('struct')
        self.word(t[1], self.get(x, 'name'), 'struct name')

        def one(a, b):
            tg = self.tag(b)
            y = self.get(b, '0', tg)
            if tg == 'Field':
                if a[0] != 'field':
                    raise Mismatch('field')
                return self.tf(a[1:3], self.get(y, 'type_name'), self.get(y, 'form'))
            if self.isph(a):
                return self.same(self.kind(a, 'union'), y, 'union')
            return self.union(a, y)
        self.list(t[2], self.items(self.get(x, 'fields')), one, 'fields')

    def union(self, t, x):
        if t[0] != 'union':
            raise Mismatch('union')
        self.form(t[1], self.get(x, 'form'))
        self.list(t[2], self.items(self.get(x, 'fields')),
                  lambda a, b: self.tf(a, self.get(b, 'type_name'), self.get(b, 'form')), 'union fields')

    def proto(self, t, x):
        if t[0] != 'proto':
            raise Mismatch('prototype')
        self.static(t[1], x)
        self.tf(t[2:4], self.get(x, 'type_name'), self.get(x, 'form'))
        self.params(t[4], self.get(x, 'parameters'))

    def funcdef(self, t, x):
        if t[0] != 'func':
            raise Mismatch('function')
        self.static(t[1], x)
        self.tf(t[2:4], self.get(x, 'type_name'), self.get(x, 'form'))
        self.params(t[4], self.get(x, 'parameters'))
        self.body(t[5], self.get(x, 'body'))


class FP(cfront.P):
    """the C grammar over tokens and placeholders; keeps parentheses"""

    def __init__(self, toks, phs):
        super().__init__(toks, mode='c')
        self.phs = phs

    def phk(self, *kinds, n=0):
        kd, v, _ = self.pk(n)
        return kd == 'ph' and self.phs[v].kind in kinds

    def takeph(self):
        v = self.pk()[1]
        self.i += 1
        return ('ph', v)

    def end(self):
        if self.pk()[0] != 'eof':
            raise ParseError(f'text after the end: {self.pk()!r}')

    def is_typeword(self, n=0):
        if self.phk('type', 'baretype', 'typeword', n=n):
            return True
        return super().is_typeword(n)

    def type_follows(self):
        if self.phk('type', 'baretype', 'typeword'):
            return True
        # declaration of an unknown word: word word / word stars word
        return super().type_follows()

    def word(self):
        if self.phk('raw', 'typeword'):
            return self.takeph()
        return super().word()

    def typename(self):
        if self.phk('type'):
            return self.takeph()
        const = self.eat('const')
        if self.eat('struct'):
            return (const, ('n', self.word()))
        return (const, ('n', self.word()))

    def stars(self):
        if self.phk('stars'):
            return self.takeph()
        return super().stars()

    def baretype(self):
        if self.phk('baretype'):
            return self.takeph()
        return (self.typename(), self.stars())

    def form(self):
        if self.phk('form'):
            return self.takeph()
        return super().form()

    def atom(self):
        if self.phk('expr', 'literal', 'raw'):
            return self.takeph()
        if self.eat('('):
            e = self.expr()
            self.need(')')
            return ('paren', e)
        return super().atom()

    def composite(self):
        self.need('{')
        ents = []
        while not self.at('}'):
            if self.eat('.'):
                key = ('fld', self.takeph() if self.phk('expr') else self.word())
                self.need('=')
            elif self.eat('['):
                key = ('idx', self.expr())
                self.need(']')
                self.need('=')
            else:
                key = None
            ents.append((key, self.expr()))
            if not self.eat(','):
                break
        self.need('}')
        return ('comp', tuple(ents))

    def block(self):
        if self.phk('body'):
            return self.takeph()
        if self.at('{'):
            return self.braces()
        raise ParseError('a body without braces')

    def onestmt(self):
        s = self.stmt()
        while self.eat(';'):
            pass
        return s

    def stmt(self):
        if self.phk('stmt'):
            return self.takeph()
        if self.phk('body'):
            return ('blockph', self.takeph())
        if self.type_follows():
            t = self.typename()
            ds = []
            while True:
                f = self.form()
                ds.append((f, self.expr() if self.eat('=') else None))
                if not self.eat(','):
                    break
            self.need(';')
            return ('var', t, tuple(ds))
        if self.eat('if'):
            self.need('(')
            c = self.expr()
            self.need(')')
            b = self.block()
            e = None
            if self.eat('else'):
                e = self.block()
            return ('if', c, b, e)
        return super().stmt()

    def switch(self):
        self.need('(')
        v = self.expr()
        self.need(')')
        self.need('{')
        cases = []
        default = None
        while self.at('case') or self.at('{') or self.phk('body'):
            vals = []
            while self.eat('case'):
                vals.append(self.casevalue())
                self.need(':')
            cases.append((tuple(vals), self.block()))
        if self.eat('default'):
            self.need(':')
            default = self.block()
        self.need('}')
        return ('switch', v, tuple(cases), default)

    def casevalue(self):
        if self.phk('literal', 'raw'):
            return self.takeph()
        raise ParseError('case value')

    def params(self):
        if self.phk('params'):
            return self.takeph()
        return super().params()

    def anonparams(self):
        if self.phk('anonparams'):
            return self.takeph()
        return super().anonparams()

    def fields(self):
        self.need('{')
        out = []
        while not self.at('}'):
            if self.phk('union'):
                out.append(self.takeph())
            elif self.at('union'):
                out.append(self.union())
            else:
                t = self.typename()
                out.append(('field', t, self.form()))
                self.need(';')
        self.need('}')
        return tuple(out)

    def union(self):
        self.need('union')
        self.need('{')
        fs = []
        while not self.at('}'):
            t = self.typename()
            fs.append((t, self.form()))
            self.need(';')
        self.need('}')
        f = self.form()
        self.need(';')
        return ('union', f, tuple(fs))

    def modelem(self):
        kd, v, pos = self.pk()
        if self.phk('mod'):
            return self.takeph()
        if kd == 'macro':
            if self.i and not self.nlafter.get(self.i) and not (self.pk(-1)[0] == 'ph' and self.phs[self.pk(-1)[1]].kind in ('mod', 'body')):
                raise ParseError('a directive that does not start its line')
            if v.split() == ['#include']:
                self.i += 1
                x = self.word()
                self.endline()
                return ('include', x)
            if v.strip() == '#':
                self.i += 1
                a = self.word()
                b = self.word()
                self.endline()
                return ('directive', a, b)
            raise ParseError('directive')
        if self.at('enum'):
            e = self.enum()
            self.need(';')
            return ('enum', e)
        if self.eat('typedef'):
            t = self.typename()
            n = self.stars()
            name = self.word()
            ps = self.anonparams() if self.at('(') or self.phk('anonparams') else None
            size = None
            if self.eat('['):
                size = self.takeph() if self.pk()[0] == 'ph' else self.pk()[1]
                self.need(']')
            self.need(';')
            return ('typedef', t, n, name, ps, size)
        if self.at('struct') and self.at(';', 2):
            self.i += 1
            n = self.word()
            self.need(';')
            return ('fwdstruct', n)
        if self.at('struct') and self.at('{', 2):
            self.i += 1
            n = self.word()
            f = self.fields()
            self.need(';')
            return ('structdef', n, f)
        static = self.eat('static')
        t = self.typename()
        f = self.form()
        if self.at('(') or self.phk('params'):
            ps = self.params()
            if self.eat(';'):
                return ('proto', static, t, f, ps)
            return ('func', static, t, f, ps, self.block())
        self.need('=')
        v = self.expr()
        self.need(';')
        return ('modvar', static, t, f, v)

    def endline(self):
        # the placeholder before must be followed by a line break
        if not self.nlafter.get(self.i):
            raise ParseError('a directive without a line break')

    def module(self):
        out = []
        while self.pk()[0] != 'eof':
            out.append(self.modelem())
        return tuple(out)


# ------------------------------------------------------------------ running

def line_breaks(m, toks):
    """token index -> a line break precedes it"""
    nl = {}
    i = 0
    for u in m.units:
        if u[0] == 'ph':
            i += 1
            continue
        ts = cfront.tokens(u[1])
        pos = 0
        for kd, v, _ in ts:
            j = u[1].index(v, pos)
            if '\n' in u[1][pos:j]:
                nl[i] = True
            pos = j + len(v)
            i += 1
        if '\n' in u[1][pos:]:
            nl[i] = True
    return nl


ENTRY = {
    'expr': ('expr', 'expr'), 'type': ('typename', 'type'), 'baretype': ('baretype', 'baretype'), 'form': ('form', 'form'),
    'params': ('params', 'params'), 'anonparams': ('anonparams', 'anonparams'), 'body': ('block', 'body'),
    'stmt': ('onestmt', 'stmt'), 'union': ('union', 'union'),
}


def check_outcome(eng, o, kind, v, own, matcher=None, entry=None):
    """-> (obligations, [mismatch texts])"""
    work = [()]
    n = 0
    bad = []
    rounds = 0
    while work:
        extra = work.pop()
        rounds += 1
        if rounds > 4000:
            raise Unsupported('too many cases')
        st = o.state.copy()
        st.pc = st.pc + extra
        m = M(eng, st, own)
        try:
            if eng.check(st.pc) != z3.sat:
                continue
            toks = m.toks(o.ret)
            p = FP(toks, m.phs)
            p.nlafter = line_breaks(m, toks)
            try:
                t = getattr(p, entry or ENTRY[kind][0])()
                p.end()
            except (ParseError, IndexError) as e:
                raise Mismatch(f'the text is not a C {kind}: {e}')
            if t and t[0] == 'blockph':
                t = ('block', t[1])
            getattr(m, matcher or ENTRY[kind][1])(t, v)
            if kind == 'expr':
                edges(m, v)
            if kind in ('mod', 'body') and m.units:
                u = m.units[-1]
                m.obs += 1
                if not (u[1].endswith('\n') if u[0] == 'lit' else m.phs[u[1]].kind in ('mod', 'body')):
                    raise Mismatch('the text does not end its line')
            n += 1 + m.obs
        except Split as s:
            if len(extra) > 40:
                raise Unsupported('case split too deep')
            for c in s.conds:
                work.append(extra + (c,))
        except Mismatch as e:
            if str(e) == 'unreachable':
                continue
            bad.append(f'{e}\n  text: {show(o.ret)}\n  case: {"; ".join(str(x)[:160] for x in extra)[:600]}\n  path: '
                       + '; '.join(' '.join(str(c).split())[:160] for c in o.state.pc[:8]))
            n += 1
            if len(bad) > 3:
                break
    return n, bad


def edges(m, v):
    """the first and last token of an expression's text are among those its contract promises"""
    if not m.units:
        raise Mismatch('empty text')
    tg = m.tag(v)
    f, l = NAMES[tg]
    if tg == 'PrefixOp':
        f = [m.text(m.get(v, 'operator', tg), PREOPS)]
    if tg == 'Ident':
        return
    if tg == 'FieldAccess':
        l = ALLL        # ends in the field name, checked by the match
    a = m.edge(m.units[0], m.phs, False) if f != ALLF else None
    b = m.edge(m.units[-1], m.phs, True) if l != ALLL else None
    for x in a or []:
        if x not in f and not (x not in ALLF and 'x' in f) and not x == '(':
            raise Mismatch(f'unexpected first token {x}')
    for x in b or []:
        if x not in l and x not in (')',) and not (x not in ALLL and 'x' in l):
            raise Mismatch(f'unexpected last token {x}')
    m.obs += 2


def show(s):
    return ''.join(x if isinstance(x, str) else f'⟨{x.name}⟩' for x in s.p)[:400]


def run_fn(P, fn, tname, kind, lens, name='e', matcher=None, entry=None, pre=None, budget=60.0, only=None, fixed=None):
    """verifies one function for one choice of list lengths"""
    eng = engine(P, budget=budget)
    eng.lens = lens
    eng.fixed = fixed or {}
    v = eng.make(P.type_named(tname), name)
    st = State()
    if only is not None:
        st.assume(eng.tag(v) == P.variant(v.t, only))
    if pre:
        for c in pre(eng, v):
            st.assume(c)
    outs = eng.run(fn, [SRef(v)], st)
    n = 0
    bad = []
    if not outs:
        raise Unsupported('no outcome')
    for o in outs:
        if o.kind == 'panic':
            n += 1
            bad.append(f'panics: {o.why}\n  path: ' + '; '.join(' '.join(str(c).split())[:160] for c in o.state.pc[:8]))
            continue
        a, b = check_outcome(eng, o, kind, v, fn, matcher, entry)
        n += a
        bad += b
    return n, bad, eng


# ------------------------------------------------------------------ special contracts

def run_literal(P, case):
    """format_literal: the literal's own characters between its own quotes; a line break in a
    string is written as an escape and the pieces are adjacent literals"""
    eng = engine(P)
    del eng.contracts['format_c::format_literal']
    tid = P.type_named('c::CLiteral')
    bad = []
    kind, n = case
    vi = P.variant(tid, kind)
    atoms = [Atom(f'part{i}', ('without', '\n"')) for i in range(n)]
    parts = []
    for i, a in enumerate(atoms):
        if i:
            parts.append('\n')
        parts.append(a)
    v = Adt(tid, vi, [Str(parts)] if kind != 'Null' else [])
    outs = eng.run('format_c::format_literal', [SRef(v)])
    for o in outs:
        if o.kind != 'return':
            bad.append(f'panics: {o.why}')
            continue
        got = o.ret.p
        if kind == 'Null':
            ok = o.ret.lit() is not None and o.ret.lit().strip() in ('NULL', '((void*)0)', '((void *)0)')
        elif kind == 'Number':
            ok = [x for x in got if not isinstance(x, str) or x.strip()] == parts
        elif kind == 'Char':
            ok = [x.strip() if isinstance(x, str) else x for x in got] == ["'"] + parts + ["'"]
        else:
            ok = string_ok(got, atoms)
        if not ok:
            bad.append(f'literal {kind} {parts!r} is written as {show(o.ret)}')
    return len(outs), bad, eng


def string_ok(got, atoms):
    """concatenating the adjacent literals gives atom0 \\n atom1 \\n ..."""
    inside = False
    val = []
    for x in got:
        if isinstance(x, str):
            i = 0
            while i < len(x):
                c = x[i]
                if c == '"':
                    inside = not inside
                elif inside:
                    if c == '\\':
                        val.append(x[i:i + 2])
                        i += 1
                    else:
                        val.append(c)
                elif not c.isspace():
                    return False
                i += 1
        else:
            if not inside:
                return False
            val.append(x)
    if inside:
        return False
    want = []
    for i, a in enumerate(atoms):
        if i:
            want.append('\\n')
        want.append(a)
    return val == want


def run_indent(P):
    """indent changes nothing but white space: every piece of its text is the text itself with a
    line break replaced by a line break and more white space, or its own result on that text
    without a trailing line break"""
    eng = engine(P)
    eng.contracts['format_c::indent'] = lambda e, st, args: [(st, Str((Atom(f'indent({k(e.load(st, args[0]))})', ('indent', e.load(st, args[0]))),)))]
    s = Str((Atom('text'),))
    outs = eng.run('format_c::indent', [SRef(s)])
    bad = []
    for o in outs:
        if o.kind != 'return':
            # the slice bounds: guarded by ends_with
            bad.append(f'panics: {o.why}')
            continue
        rest = [x for x in o.ret.p if not (isinstance(x, str) and x.strip() == '')]
        ok = len(rest) == 1 and not isinstance(rest[0], str) and wsame(eng, rest[0], s, o)
        if not ok:
            bad.append(f'indent changes more than white space: {show(o.ret)}')
    return len(outs), bad, eng


def wsame(eng, a, s, o):
    if a == s.p[0]:
        return True
    if not a.info:
        return False
    if a.info[0] == 'indent':
        t = a.info[1]
        return len(t.p) == 1 and not isinstance(t.p[0], str) and wsame(eng, t.p[0], s, o)
    if a.info[0] == 'replace':
        _, t, x, y = a.info
        x, y = x.lit(), y.lit()
        if x is None or y is None:
            return False
        return x.strip() == '' and y.strip() == '' and x != '' and '\n' in y and len(t.p) == 1 and \
            not isinstance(t.p[0], str) and wsame(eng, t.p[0], s, o)
    if a.info[0] == 'sub':
        # text[0..len-1] when the text ends with a line break
        _, t, nm, fs = a.info
        if not same(t, s) or len(fs) != 2 or fs[0] != 0:
            return False
        ends = z3.Bool(f"ends_with({[k(s), k(Str((chr(10),)))]})")
        return eng.entails(o.state, z3.And(ends, I(fs[1]) == z3.Int('slen!' + s.p[0].name) - 1))
    return False


# ------------------------------------------------------------------ jobs

def by_depth(*ns):
    """lengths by nesting depth of the list: the last one is repeated"""
    def f(name):
        d = name.count('[')
        return ns[min(d, len(ns) - 1)]
    return f


def lens_of(**kw):
    """lengths by the last component of the name, or by the whole name"""
    def f(name):
        last = name.rsplit('.', 1)[-1]
        return kw.get(last)
    return f


EXPRS = 'Literal Ident FieldAccess PrefixOp PostfixOp Cast Sizeof ArrayIndex'.split()


def jobs():
    """name -> (function, thunk(P) -> (n, bad, eng))"""
    J = {}

    def add(name, fn, *a, **kw):
        J[name] = (fn, lambda P, fn=fn, a=a, kw=kw: run_fn(P, fn, *a, **kw))
    E = 'format_c::fmt_expr'
    for x in EXPRS:
        add(f'fmt_expr[{x}]', E, 'c::Expr', 'expr', None, only=x)
    for op in BINOPS:
        add(f'fmt_expr[BinaryOp {op}]', E, 'c::Expr', 'expr', None, only='BinaryOp', fixed={'e.BinaryOp.0.op': Str((op,))})
    for n in range(4):
        add(f'fmt_expr[Call, {n} arguments]', E, 'c::Expr', 'expr', lens_of(args=n), only='Call')
        add(f'fmt_expr[CompositeLiteral, {n} entries]', E, 'c::Expr', 'expr', lens_of(entries=n), only='CompositeLiteral')
        add(f'format_form[{n} dimensions]', 'format_c::format_form', 'c::Form', 'form', lens_of(indexes=n))
        add(f'fmt_func_params[{n}]', 'format_c::fmt_func_params', 'c::FuncParams', 'params', lens_of(list=n),
            pre=(lambda eng, v: [z3.Not(eng.get(v, 'variadic').e)]) if n == 0 else None)
        add(f'fmt_anon_params[{n}]', 'format_c::fmt_anon_params', 'c::CAnonymousParameters', 'anonparams', lens_of(forms=n))
        add(f'format_body[{n}]', 'format_c::format_body', 'c::CBody', 'body', lens_of(statements=n))
        add(f'format_union[{n}]', 'format_c::format_union', 'c::CUnion', 'union', lens_of(fields=n))
        add(f'fmt_enumdef[{n}]', 'format_c::fmt_enumdef', 'c::EnumDef', 'mod', lens_of(entries=n), matcher='enumdef', entry='modelem')
        add(f'format_compat_struct_definition[{n}]', 'format_c::format_compat_struct_definition', 'c::StructDef', 'mod',
            lens_of(fields=n), matcher='structdef', entry='modelem')
    add('format_type', 'format_c::format_type', 'c::Typename', 'type', None)
    add('fmt_bare_typeform', 'format_c::fmt_bare_typeform', 'c::BareTypeform', 'baretype', None)
    add('format_typedef', 'format_c::format_typedef', 'c::Typedef', 'mod', None, matcher='typedef', entry='modelem')
    add('fmt_forward_func', 'format_c::fmt_forward_func', 'c::ForwardFunc', 'mod', None, matcher='proto', entry='modelem')
    add('fmt_func_def', 'format_c::fmt_func_def', 'c::FuncDef', 'mod', None, matcher='funcdef', entry='modelem')
    S = 'format_c::format_statement'
    for x in 'Break Continue If For While Return Expression'.split():
        add(f'format_statement[{x}]', S, 'c::Statement', 'stmt', None, only=x)
    for n in range(3):
        add(f'format_statement[Block {n}]', S, 'c::Statement', 'stmt', lens_of(statements=n), only='Block')
    for n in (1, 2, 3):
        add(f'format_statement[VarDecl {n}]', S, 'c::Statement', 'stmt', lens_of(forms=n, values=n), only='VarDecl')
    for nc, nv, ns in [(0, 1, 1), (1, 1, 0), (1, 2, 1), (2, 1, 2), (2, 2, 1), (3, 1, 1), (1, 3, 3), (2, 3, 0)]:
        add(f'format_statement[Switch {nc} cases {nv} values {ns} statements]', S, 'c::Statement', 'stmt',
            lens_of(cases=nc, values=nv, statements=ns), only='Switch')
    for n in range(3):
        add(f'format_module[{n}]', 'format_c::format_module', 'c::CModule', 'mod', lens_of(elements=n), matcher='mod_elems', entry='module')
    for c in [('Char', 1), ('Number', 1), ('Null', 0), ('String', 1), ('String', 2), ('String', 3)]:
        J[f'format_literal[{c[0]} {c[1]}]'] = ('format_c::format_literal', lambda P, c=c: run_literal(P, c))
    J['indent'] = ('format_c::indent', run_indent)
    # no bound on the lists: beyond the lengths above every further item is treated alike
    for name, fn, t, only in [('Call', E, 'c::Expr', 'Call'), ('CompositeLiteral', E, 'c::Expr', 'CompositeLiteral'),
                              ('format_form', 'format_c::format_form', 'c::Form', None),
                              ('fmt_func_params', 'format_c::fmt_func_params', 'c::FuncParams', None),
                              ('fmt_anon_params', 'format_c::fmt_anon_params', 'c::CAnonymousParameters', None),
                              ('format_body', 'format_c::format_body', 'c::CBody', None),
                              ('format_union', 'format_c::format_union', 'c::CUnion', None),
                              ('fmt_enumdef', 'format_c::fmt_enumdef', 'c::EnumDef', None),
                              ('struct', 'format_c::format_compat_struct_definition', 'c::StructDef', None),
                              ('VarDecl', S, 'c::Statement', 'VarDecl'), ('Switch', S, 'c::Statement', 'Switch'),
                              ('format_module', 'format_c::format_module', 'c::CModule', None)]:
        J[f'any length[{name}]'] = (fn, lambda P, fn=fn, t=t, only=only: run_uniform(P, fn, t, only))
    return J


def mod_elems(self, t, v):
    self.list(t, self.items(self.get(v, 'elements')), self.modelem, 'module elements')


M.mod_elems = mod_elems


class NotUniform(Exception):
    pass


def run_uniform(P, fn, tname, only, K=2):
    eng = engine(P)
    v = eng.make(P.type_named(tname), 'e')
    st = State()
    if only is not None:
        st.assume(eng.tag(v) == P.variant(v.t, only))
    outs = eng.run(fn, [SRef(v)], st)
    n = 0
    seen = set()
    for o in outs:
        if o.kind != 'return':
            continue
        work = list(o.ret.p)
        while work:
            a = work.pop()
            if isinstance(a, str) or not a.info or id(a.info) in seen:
                continue
            seen.add(id(a.info))
            if a.info[0] == 'fold':
                f = a.info[1]
                xs = [x for _, x, _ in f.ivars]
                for pc, delta in f.steps:
                    if delta is None:
                        raise Unsupported('a loop that does not only append')
                    n += 1
                    base = [z3.And(x >= I(x0.e) + K) for _, x, x0 in f.ivars if isinstance(x0, Int)]
                    for c in pc:
                        if c is True or not mentions(c, xs):
                            continue
                        lo = list(o.state.pc[:1]) + base + [d for d in pc if d is not True and is_bound(d, xs)]
                        if eng.check(tuple(lo) + (NOT(c),)) != z3.unsat and eng.check(tuple(lo) + (c,)) != z3.unsat:
                            if is_bound(c, xs):
                                continue
                            raise Unsupported(f'items beyond {K} are not all treated alike: {" ".join(str(c).split())[:200]}')
                    work.extend(x for x in delta if not isinstance(x, str))
                work.extend(f.init.p)
            elif a.info[0] == 'join':
                for part in a.info[1].p:
                    if part[0] == 'e':
                        continue
                    inf = part[1].info
                    if not inf or inf[0] not in ('map', 'gmap'):
                        raise Unsupported('join of ' + str(inf and inf[0]))
                    n += 1
                    conds = inf[4] if inf[0] == 'map' else [c for pc, _ in inf[3] for c in pc]
                    for c in conds:
                        if c is not True and mentions(c, [inf[2]]) and not is_bound(c, [inf[2]]):
                            raise Unsupported('items are not all treated alike')
    if not n:
        raise Unsupported('no loop found')
    return n, [], eng


def mentions(c, xs):
    ids = {x.get_id() for x in xs}
    seen = set()
    work = [c]
    while work:
        e = work.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.get_id() in ids:
            return True
        work.extend(e.children())
    return False


def is_bound(c, xs):
    """x < length"""
    return c.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_NOT) and 'len!' in str(c) and len(str(c)) < 400


ASSUMES = [
    "operators are those the parser produces; the target of a field access is not a number literal; stars are only '*'",
    'composite literals occur only as initialisers; a composite key that is not an index is a plain identifier',
    'the number of initialisers equals the number of declared forms; a variadic function has at least one parameter',
    "character and string literals contain no raw line break other than those the lexer lets through; a module's macros end with their line",
    'contract of indent: only white space is added at line starts',
]
GROUPS = {
    'expr': ['fmt_expr', 'any length[Call]', 'any length[CompositeLiteral]', 'fmt_bare_typeform', 'format_literal'],
    'stmt': ['format_statement[B', 'format_statement[C', 'format_statement[I', 'format_statement[F', 'format_statement[W',
             'format_statement[R', 'format_statement[E', 'format_statement[V', 'format_body', 'indent', 'any length[VarDecl]',
             'any length[format_body]'],
    'switch': ['format_statement[Switch', 'any length[Switch]', 'indent'],
    'decl': ['format_form', 'fmt_func_params', 'fmt_anon_params', 'format_union', 'fmt_enumdef', 'format_compat_struct',
             'format_type', 'fmt_bare_typeform', 'format_typedef', 'fmt_forward_func', 'fmt_func_def', 'format_module',
             'any length[format_form]', 'any length[fmt_func_params]', 'any length[fmt_anon_params]', 'any length[format_union]',
             'any length[fmt_enumdef]', 'any length[struct]', 'any length[format_module]', 'format_statement[VarDecl'],
    'linkage': ['fmt_forward_func', 'fmt_func_def', 'format_module'],
    'literal': ['format_literal'],
}
