"""Contracts of the translator (src/translator.rs).

Contract of every translating function F(node, ctx): it either fails, for a
reason the rules of the language give, or returns the C node that belongs to the
source node, with the translations of the parts at their places. A caller is
checked against the contracts of the functions it calls: a call leaves the
symbol T(kind, part, scopes), the translation of the part in the scopes in force
at the call, or fails. Functions without a contract of their own are inlined."""
import itertools
import time
import z3
from mirv.engine import *
from checks.ctx import Ob

BINOPS = ['||', '&&', '==', '<', '>', '!=', '>=', '<=', '-', '+', '*', '/', '%', '<<', '>>', '&', '|', '^',
          '=', '+=', '-=', '/=', '*=', '|=', '%=', '&=', '^=', '<<=', '>>=']
PREOPS = ['!', '--', '++', '*', '~', '&', '-']
POSTOPS = ['++', '--']
TR = 'translator::'


class Bad(Exception):
    pass


def domains(name):
    if name.endswith('.BinaryOp.0.op'):
        return BINOPS
    if name.endswith('.PrefixOperator.0.operator'):
        return PREOPS
    if name.endswith('.PostfixOperator.0.operator'):
        return POSTOPS
    if name.endswith('.FieldAccess.0.op'):
        return ['.', '->']
    return None


def invariant(eng, v):
    """what the parser guarantees about every node"""
    n = eng.T[v.t].get('n', '')
    if n.endswith('nodes::CompositeLiteralEntry'):
        # .name = value
        key = eng.get(v, 'key')
        kv = strip(eng.get(key, '0', 'Some'))
        isn = eng.tag(kv) == eng.P.variant(kv.t, 'NsName')
        nn = strip(eng.get(kv, '0', 'NsName'))
        eng.axioms.append(z3.Or(eng.get(v, 'is_index').e, eng.tag(key) == eng.P.variant(key.t, 'None'),
                                z3.And(isn, B(eng.streq(eng.get(nn, 'ns'), Str(()))))))


def strip(v):
    while isinstance(v, (SRef, BoxV)):
        v = v.v
    return v


class Tr:
    """one verification: engine, context cell, contracts"""

    def __init__(self, P, opaque=(), lens=None, fixed=None, budget=60.0, no=()):
        self.P = P
        self.eng = eng = Engine(P, budget=budget)
        eng.domains = domains
        eng.lens = lens
        if fixed:
            eng.fixed = fixed
        self.reg = {}
        self.body_scopes = {}
        eng.invariant = invariant
        eng.missing = []
        for fn, kind in (('tr_expr', 'expr'), ('tr_body', 'body'), ('tr_form', 'form'), ('tr_typename', 'typename'),
                         ('tr_nsid_in_expr', 'name')):
            if self.has(TR + fn) and fn not in no:
                eng.contracts[TR + fn] = self.tr_contract(TR + fn, kind)
        for fn in ('types::is_booly',):
            if self.has(fn) and fn not in no:
                eng.contracts[fn] = self.check_contract(fn)
        for fn in ('types::typeof_boolcomp', 'types::typeof_cmp', 'types::typeof_plusminus', 'types::typeof_arith',
                   'types::typeof_deref', 'types::typeof_index', TR + 'typeof_struct_field', TR + 'typeof_call'):
            if self.has(fn) and fn not in no:
                eng.contracts[fn] = self.result_contract(fn)
        for fn in (TR + 'root_type', TR + 'typefrom_typename', TR + 'typefrom_baretypeform', TR + 'typeof_literal',
                   TR + 'typefrom_funcdecl', TR + 'typefrom_typedef', 'types::typeof_addr', 'types::Type::fmt',
                   'node_queries::expression_pos', 'buf::Pos::fmt', 'format_che::fmt_binop', 'format_che::fmt_expr',
                   'format_che::fmt_field_access', TR + 'trace_type') + tuple(opaque):
            if self.has(fn) and fn not in no:
                eng.contracts[fn] = self.pure_contract(fn)

    def has(self, fn):
        if fn in self.P.byname and fn in self.P.called():
            return True
        self.eng.missing.append(fn)
        return False

    # ---- contracts
    def ret_type(self, fn):
        return self.P.fn(fn)['locals'][0]

    def argkey(self, st, args):
        out = []
        for a in args:
            v = a
            if isinstance(v, MRef):
                v = self.eng.load(st, v)
                if isinstance(v, Adt) and self.isctx(v):
                    out.append(self.scopekey(v))
                    continue
            v = strip(v)
            if isinstance(v, Adt) and self.isctx(v):
                continue
            out.append(k(v))
        return tuple(out)

    def isctx(self, v):
        return self.eng.T[v.t]['n'].endswith('TrCtx')

    def name(self, kind, key):
        kk = (kind, key)
        if kk not in self.reg:
            self.reg[kk] = f'{kind}#{len(self.reg)}'
        return self.reg[kk]

    def pure_contract(self, fn):
        rt = self.ret_type(fn)

        def c(eng, st, args):
            if eng.T[rt]['k'] == 'tuple' and not eng.T[rt]['ts']:
                return [(st, UNIT)]
            return [(st, eng.make(rt, self.name(fn, self.argkey(st, args))))]
        return c

    def check_contract(self, fn):
        """a predicate; when it does not hold the program has to be rejected"""
        def c(eng, st, args):
            b = z3.Bool(self.name(fn, self.argkey(st, args)))
            s2 = st.copy().assume(z3.Not(b))
            s2.ghost['err'] = s2.ghost.get('err', ()) + (fn,)
            return [(st.copy().assume(b), Bool(True)), (s2, Bool(False))]
        return c

    def result(self, rt, okv=None, err=None):
        eng = self.eng
        if okv is not None:
            return Adt(rt, self.P.variant(rt, 'Ok'), (okv,))
        return Adt(rt, self.P.variant(rt, 'Err'), (err,))

    def fork(self, st, fn, rt, nm, okv):
        eng = self.eng
        et = eng.T[rt]['v'][self.P.variant(rt, 'Err')]['f'][0]['t']
        b = z3.Bool('ok ' + nm)
        out = []
        if eng.feasible(st, b):
            out.append((st.copy().assume(b), self.result(rt, okv=okv)))
        if eng.feasible(st, z3.Not(b)):
            s2 = st.copy().assume(z3.Not(b))
            s2.ghost['err'] = s2.ghost.get('err', ()) + (nm,)
            out.append((s2, self.result(rt, err=eng.make(et, 'E ' + nm))))
        return out

    def result_contract(self, fn):
        rt = self.ret_type(fn)

        def c(eng, st, args):
            nm = self.name(fn, self.argkey(st, args))
            ot = eng.T[rt]['v'][self.P.variant(rt, 'Ok')]['f'][0]['t']
            return self.fork(st, fn, rt, nm, eng.make(ot, nm))
        return c

    def tr_contract(self, fn, kind):
        rt = self.ret_type(fn)

        def c(eng, st, args):
            src, cm, extra = None, None, []
            for a in args:
                if isinstance(a, MRef):
                    v = eng.load(st, a)
                    if isinstance(v, Adt) and self.isctx(v):
                        cm = a
                        continue
                if src is None:
                    src = strip(eng.load(st, a))
                else:
                    extra.append(k(strip(eng.load(st, a))))
            ctx = eng.load(st, cm)
            if kind == 'body':
                self.body_scopes[self.scopekey(ctx)] = eng.get(ctx, 'scopes')
            nm = self.tname(kind, src, ctx, tuple(extra))
            self.touch(st, cm, nm)
            ot = eng.T[rt]['v'][self.P.variant(rt, 'Ok')]['f'][0]['t']
            on = eng.T[ot].get('n', '')
            if on.endswith('Typed'):
                fs = []
                for f in eng.T[ot]['v'][0]['f']:
                    fs.append(eng.make(f['t'], nm if f['n'] == 'val' else 'type of ' + nm))
                okv = Adt(ot, 0, fs)
            else:
                okv = eng.make(ot, nm)
            return self.fork(st, fn, rt, nm, okv)
        return c

    def tname(self, kind, src, ctx, extra=()):
        # type names are not looked up in the scopes
        return self.name('T ' + kind, (k(strip(src)), self.scopekey(ctx) if kind != 'typename' else ()) + tuple(extra))

    def scopekey(self, ctx):
        sc = self.eng.get(ctx, 'scopes')
        return self.seqkey(sc)

    def seqkey(self, sc):
        out = []
        for p in sc.p:
            if p[0] == 's':
                out.append(('s', p[1].name))
            elif isinstance(p[1], Seq):
                out.append(self.seqkey(p[1]))
            else:
                b = p[1]
                out.append((k(self.eng.get(b, 'name')), k(self.eng.get(b, 'typ')), k(self.eng.get(b, 'ispub'))))
        return tuple(out)

    def touch(self, st, cm, nm):
        """what a translating function may change: marks of use"""
        eng = self.eng
        ctx = eng.load(st, cm)

        def frame(fr):
            parts = []
            for p in fr.p:
                if p[0] == 'e':
                    b = p[1]
                    u = eng.get(b, 'used').e
                    ui = self.P.field(b.t, 0, 'used')
                    nb = eng.setchild(b, 0, ui, Bool(OR(u, z3.Bool(f'U#{next(eng.uid)}'))))
                    parts.append(('e', nb))
                else:
                    parts.append(p)
            return Seq(parts, fr.t)
        sc = eng.get(ctx, 'scopes')
        nsc = Seq([p if p[0] == 's' else ('e', frame(p[1])) for p in sc.p], sc.t)
        for f, v in (('scopes', nsc), ('used_ns', None), ('used_customs', None)):
            fi = self.P.field(ctx.t, 0, f)
            if v is None:
                old = eng.get(ctx, f)          # the sets only grow
                v = old.with_(base=f'{f}#{next(eng.uid)}', ins=old.ins)
            ctx = eng.setchild(ctx, 0, fi, v)
        eng.store(st, cm, ctx)

    # ---- the context
    def context(self, st, scopes=None):
        eng = self.eng
        t = self.P.type_named('translator::TrCtx')
        fs = []
        for f in eng.T[t]['v'][0]['f']:
            if f['n'] == 'scopes':
                vt = eng.T[f['t']]['args'][0]
                bt = eng.T[vt]['args'][0]
                v = scopes(vt, bt) if scopes else Seq((('s', SymSeq('outer', vt)), ('e', Seq((('s', SymSeq('cur', bt)),), vt))), f['t'])
            else:
                v = eng.make(f['t'], 'ctx.' + f['n'])
            fs.append(v)
        cell = ('H', next(eng.uid))
        st.heap[cell] = Adt(t, 0, fs)
        self.cm = MRef(cell)
        return self.cm, st.heap[cell]


class X:
    """compares one outcome with the node that belongs to the source node"""

    def __init__(self, tr, st, ctx0):
        self.tr = tr
        self.eng = tr.eng
        self.P = tr.P
        self.root = self
        self.st = st
        self.ctx = ctx0       # the scopes in force
        self.n = 0
        self.kids = []

    @property
    def st(self):
        return self.root._st

    @st.setter
    def st(self, s):
        self.root._st = s

    def fail(self, msg):
        raise Bad(msg)

    # -- source side
    def g(self, v, f, variant=None):
        return strip(self.eng.get(strip(v), f, variant))

    def variant(self, v):
        """the variant of a value, which the path must have settled"""
        v = strip(v)
        vs = self.eng.T[v.t]['v']
        if isinstance(v, Adt):
            return vs[v.v]['n']
        t = self.eng.tag(v)
        live = [i for i in range(len(vs)) if self.eng.check(self.st.pc + (t == i,)) == z3.sat]
        if len(live) == 1:
            return vs[live[0]]['n']
        raise Unsettled([t == i for i in live])

    def flag(self, b):
        b = strip(b).e
        if isinstance(b, bool):
            return b
        if self.eng.check(self.st.pc + (b,)) == z3.unsat:
            return False
        if self.eng.check(self.st.pc + (z3.Not(b),)) == z3.unsat:
            return True
        raise Unsettled([b, z3.Not(b)])

    def cond(self, c):
        return self.flag(Bool(c))

    # -- result side
    def adt(self, v, tname, variant=None):
        self.n += 1
        v = strip(v)
        if not isinstance(v, (Adt, Sym)) or not self.eng.T[v.t]['n'].endswith(tname):
            self.fail(f'{v!r} is not a {tname}'[:300])
        if variant is not None and self.variant(v) != variant:
            self.fail(f'{self.variant(v)} instead of {variant}')
        return v

    def str(self, a, b, what):
        """texts a (result) and b (expected)"""
        self.n += 1
        a, b = strip(a), strip(b)
        if isinstance(b, str):
            b = Str((b,))
        if k(a) == k(b):
            return
        c = self.eng.streq(a, b)
        if c is True or (c is not False and self.eng.entails(self.st, c)):
            return
        self.fail(f'{what}: {a!r} instead of {b!r}'[:400])

    def int(self, a, b, what):
        self.n += 1
        if k(strip(a)) == k(strip(b)):
            return
        if not self.eng.entails(self.st, I(strip(a).e) == I(strip(b).e)):
            self.fail(f'{what}: {a!r} instead of {b!r}'[:400])

    def bool(self, a, b, what):
        self.n += 1
        a, b = strip(a).e, strip(b).e if isinstance(b, Val) else b
        if not self.eng.entails(self.st, B(a) == B(b)):
            self.fail(f'{what}: {a} instead of {b}'[:400])

    def t(self, v, kind, src, *extra):
        """v is the translation of src in the scopes in force"""
        self.n += 1
        v = strip(v)
        want = self.tr.tname(kind, src, self.ctx, tuple(k(e) for e in extra))
        got = v.name if isinstance(v, Sym) else v.p[0].name if isinstance(v, Str) and len(v.p) == 1 and isinstance(v.p[0], Atom) else None
        if got == want:
            return
        # the translation of an equal part?
        for (kk, key), nm in self.tr.reg.items():
            if nm == got:
                self.fail(f'{kind} {strip(src)!r}: {kk} of {key} instead'[:700])
        self.fail(f'{kind} of {strip(src)!r}: {v!r} instead'[:700])

    def opt(self, v, src, f, what):
        """optional parts"""
        self.n += 1
        if self.variant(src) == 'None':
            if self.variant(v) != 'None':
                self.fail(f'{what}: something instead of nothing')
            return
        if self.variant(v) != 'Some':
            self.fail(f'{what}: lost')
        f(self.g(v, '0', 'Some'), self.g(src, '0', 'Some'))

    def list(self, v, src, f, what):
        self.n += 1
        v, src = strip(v), strip(src)
        if isinstance(src, Seq):
            if len(src.p) == 1 and src.p[0][0] == 's':
                return self.anylist(v, src.p[0][1], f, what)
            if not src.concrete():
                raise Unsupported('list of unknown length')
            src = src.items()
        if not v.concrete():
            raise Unsupported('result list of unknown length')
        v = v.items()
        if len(v) != len(src):
            self.fail(f'{what}: {len(v)} instead of {len(src)}')
        for a, b in zip(v, src):
            f(a, b)

    # lists of unknown length: by induction over the loop that builds them
    def anylist(self, v, src, f, what):
        def one(parts, item, head, back):
            if len(parts) != 1 or parts[0][0] != 'e':
                if all(p[0] == 'e' for p in parts):
                    self.fail(f'{what}: {len(parts)} for one')
                raise Unsupported(f'{what}: shape of one step')
            f(parts[0][1], item)
        self.seg(v, src, one, what)

    def seg(self, v, src, g, what):
        """the parts of v belong to the items of the unknown list src, in order"""
        self.n += 1
        v = strip(v)
        if len(v.p) != 1:
            if all(p[0] == 'e' for p in v.p):
                self.fail(f'{what}: {len(v.p)} whatever the length of the list')
            raise Unsupported(f'{what}: shape of the result')
        self.segment(v.p[0], src, g, what)

    def segment(self, part, src, g, what):
        if part[0] != 's':
            self.fail(f'{what}: one item instead of a list')
        ss = part[1]
        eng = self.eng
        if ss.name == src.name:
            j = z3.Int(f'j#{next(eng.uid)}')
            e = eng.elem(src, j)
            return self.step(self.st.copy().assume(z3.And(j >= 0, j < eng.seqlen(Seq((part,))))), lambda: g([('e', e)], e, None, None))
        info = ss.info
        if not info:
            raise Unsupported(f'{what}: {ss.name} is not built from the list')
        if info[0] == 'fold':
            for parts, item, head, back in self.foldsteps(info[1], src, what):
                self.step(back, lambda: g(parts, item, head, back))
            return
        if info[0] in ('map', 'gmap'):
            inner, j = info[1], info[2]
            if inner.k != 'seq' or inner.i != 0 or len(inner.seq.p) != 1 or inner.seq.p[0][0] != 's':
                raise Unsupported(f'{what}: mapped from {inner.k}')
            base = inner.seq.p[0][1]
            clo, st0 = info[-2], info[-1]
            if base.name == src.name:
                item = eng.elem(src, j)
                rets = [(info[4], info[3])] if info[0] == 'map' else info[3]
                for pc, ret in rets:
                    s = self.st.copy().assume(z3.And(j >= 0, j < eng.seqlen(inner.seq)))
                    for c in pc:
                        s.assume(c)
                    self.step(s, lambda: g([('e', ret)], item, None, None))
                return
            if base.info and base.info[0] == 'fold':
                for parts, item, head, back in self.foldsteps(base.info[1], src, what):
                    # the closure applied to what one step appended
                    outs = [(back, [])]
                    for p in parts:
                        if p[0] != 'e':
                            raise Unsupported(f'{what}: mapped segment')
                        outs = [(o.state, acc + [('e', o.ret)]) for s, acc in outs
                                for o in eng.runclosure(s, clo, [SRef(p[1]) if inner.mode == 'ref' else p[1]]) if o.kind != 'panic']
                    for s, acc in outs:
                        self.step(s, lambda: g(acc, item, head, back))
                return
        raise Unsupported(f'{what}: built by {info[0]}')

    def foldsteps(self, f, src, what):
        eng = self.eng
        its = [x for x in f.its if len(x[0].p) == 1 and x[0].p[0][0] == 's' and x[0].p[0][1].name == src.name]
        if len(its) != 1:
            raise Unsupported(f'{what}: not built by one pass over the list')
        seq, i, first = its[0]
        if first != 0:
            self.fail(f'{what}: the first {first} items are left out')
        if not eng.entails(self.st, i >= I(eng.seqlen(seq))):
            self.fail(f'{what}: not all items are taken')
        out = []
        for (pc, delta), back in zip(f.steps, f.backs):
            if delta is None:
                raise Unsupported(f'{what}: the loop does not only append')
            out.append((list(delta), eng.elem(src, i), f.head, back))
        return out

    def step(self, s, thunk):
        old = self.st
        work = [s]
        try:
            while work:
                self.st = work.pop()
                s = self.st
                try:
                    thunk()
                except Unsettled as u:
                    work += [s.copy().assume(c) for c in u.conds if self.eng.feasible(s, c)]
        finally:
            self.st = old

    def flat(self, v, src, sub, f, what):
        """v has one entry for every entry of the lists sub(item)"""
        src = strip(src)
        if src.concrete():
            want = []
            for it in src.items():
                want += [(it, e) for e in sub(it).items()]
            return self.list(v, want, f, what)

        def parts(ps, item, head, back):
            inner = strip(sub(item))
            self.list(Seq(ps), inner if inner.concrete() else inner, lambda a, b: f(a, (item, b)), what)
        self.seg(v, src.p[0][1], parts, what)

    def same(self, a, b, what):
        self.n += 1
        if k(strip(a)) != k(strip(b)):
            self.fail(f'{what}: {a!r} instead of {b!r}'[:300])

    # -- scopes
    def scope(self, *names):
        """the same with one more, innermost, scope that binds these names"""
        y = X(self.tr, self.st, self.with_scope())
        y.root = self.root
        for nm, typ in names:
            y.bind(nm, typ)
        self.kids.append(y)
        return y

    def with_scope(self):
        eng = self.eng
        sc = eng.get(self.ctx, 'scopes')
        fi = self.P.field(self.ctx.t, 0, 'scopes')
        vt = eng.T[sc.t]['args'][0]
        return eng.setchild(self.ctx, 0, fi, Seq(sc.p + (('e', Seq((), vt)),), sc.t))

    def bind(self, name, typ):
        """a binding added to the innermost scope"""
        eng = self.eng
        sc = eng.get(self.ctx, 'scopes')
        fi = self.P.field(self.ctx.t, 0, 'scopes')
        last = sc.p[-1][1]
        bt = self.P.type_named('translator::Binding')
        fs = []
        for f in eng.T[bt]['v'][0]['f']:
            fs.append({'name': name, 'typ': typ, 'ispub': Bool(False), 'used': Bool(False)}.get(f['n'], Int(0)))
        last = Seq(last.p + (('e', Adt(bt, 0, fs)),), last.t)
        self.ctx = eng.setchild(self.ctx, 0, fi, Seq(sc.p[:-1] + (('e', last),), sc.t))

    def typ(self, fn, *srcs):
        """the opaque result of a type function"""
        fn = TR + fn
        return self.eng.make(self.tr.ret_type(fn), self.tr.name(fn, tuple(k(strip(s)) for s in srcs)))

    @property
    def total(self):
        return self.n + sum(y.total for y in self.kids)

    # ------------------------------------------------------------ expressions
    def expr(self, v, src):
        s = strip(src)
        kind = self.variant(s)
        x = self.g(s, '0', kind)
        getattr(self, 'e_' + kind)(v, x)

    def T(self, v, src):
        self.t(v, 'expr', src)

    def e_Literal(self, v, x):
        v = self.adt(v, 'c::Expr', 'Literal')
        self.literal(self.g(v, '0', 'Literal'), x)

    def literal(self, l, x):
        vk = self.variant(x)
        self.adt(l, 'CLiteral', vk)
        if vk != 'Null':
            self.str(self.g(l, '0', vk), self.g(x, '0', vk), 'literal')

    def e_NsName(self, v, x):
        v = self.adt(v, 'c::Expr', 'Ident')
        self.t(self.g(v, '0', 'Ident'), 'name', x)

    def e_ArrIndex(self, v, x):
        v = self.adt(v, 'c::Expr', 'ArrayIndex')
        self.T(self.g(v, 'array', 'ArrayIndex'), self.g(x, 'array'))
        self.T(self.g(v, 'index', 'ArrayIndex'), self.g(x, 'index'))

    def e_BinaryOp(self, v, x):
        v = self.g(self.adt(v, 'c::Expr', 'BinaryOp'), '0', 'BinaryOp')
        self.str(self.g(v, 'op'), self.g(x, 'op'), 'operator')
        self.T(self.g(v, 'a'), self.g(x, 'a'))
        self.T(self.g(v, 'b'), self.g(x, 'b'))

    def e_FieldAccess(self, v, x):
        v = self.adt(v, 'c::Expr', 'FieldAccess')
        self.str(self.g(v, 'op', 'FieldAccess'), self.g(x, 'op'), 'operator')
        self.T(self.g(v, 'target', 'FieldAccess'), self.g(x, 'target'))
        self.str(self.g(v, 'field_name', 'FieldAccess'), self.g(x, 'field_name'), 'field')

    def e_PrefixOperator(self, v, x):
        v = self.adt(v, 'c::Expr', 'PrefixOp')
        self.str(self.g(v, 'operator', 'PrefixOp'), self.g(x, 'operator'), 'operator')
        self.T(self.g(v, 'operand', 'PrefixOp'), self.g(x, 'operand'))

    def e_PostfixOperator(self, v, x):
        v = self.adt(v, 'c::Expr', 'PostfixOp')
        self.str(self.g(v, 'operator', 'PostfixOp'), self.g(x, 'operator'), 'operator')
        self.T(self.g(v, 'operand', 'PostfixOp'), self.g(x, 'operand'))

    def e_Cast(self, v, x):
        v = self.adt(v, 'c::Expr', 'Cast')
        self.baretype(self.g(v, 'type_name', 'Cast'), self.g(x, 'typeform'))
        self.T(self.g(v, 'operand', 'Cast'), self.g(x, 'operand'))

    def baretype(self, v, x):
        self.adt(v, 'c::BareTypeform')
        self.t(self.g(v, 'typename'), 'typename', self.g(x, 'typename'))
        self.int(self.g(v, 'hops'), self.g(x, 'hops'), 'pointers')

    def e_Sizeof(self, v, x):
        v = self.g(self.adt(v, 'c::Expr', 'Sizeof'), 'arg', 'Sizeof')
        x = self.g(x, 'arg')
        if self.variant(x) == 'Expr':
            v = self.adt(v, 'c::SizeofArg', 'Expression')
            self.T(self.g(v, '0', 'Expression'), self.g(x, '0', 'Expr'))
        else:
            v = self.adt(v, 'c::SizeofArg', 'Typename')
            self.baretype(self.g(v, '0', 'Typename'), self.g(x, '0', 'Typename'))

    def e_CompositeLiteral(self, v, x):
        v = self.g(self.adt(v, 'c::Expr', 'CompositeLiteral'), '0', 'CompositeLiteral')

        def entry(a, b):
            isx = self.g(b, 'is_index')
            self.bool(self.g(a, 'is_index'), isx, 'kind of entry')

            def key(p, q):
                if self.flag(isx):
                    self.T(p, q)
                else:
                    n = self.g(q, '0', 'NsName')
                    self.str(self.g(self.adt(p, 'c::Expr', 'Ident'), '0', 'Ident'), self.g(n, 'name'), 'field')
            self.opt(self.g(a, 'key'), self.g(b, 'key'), key, 'key')
            self.T(self.g(a, 'val'), self.g(b, 'value'))
        self.list(self.g(v, 'entries'), self.g(x, 'entries'), entry, 'entries')

    def e_Call(self, v, x):
        v = self.adt(v, 'c::Expr', 'Call')
        f = self.g(x, 'func')
        fn = self.g(v, 'func', 'Call')
        if self.is_name(f, 'calloc!'):
            self.callee_named(fn, 'calloc_or_panic')
        else:
            self.T(fn, f)
        self.list(self.g(v, 'args', 'Call'), self.g(x, 'args'), self.T, 'arguments')

    def is_name(self, f, name):
        if self.variant(f) != 'NsName':
            return False
        n = self.g(f, '0', 'NsName')
        return self.cond(AND(self.eng.streq(self.g(n, 'ns'), Str(())), self.eng.streq(self.g(n, 'name'), Str((name,)))))

    def callee_named(self, fn, name):
        """the callee is the translation of the plain name"""
        self.n += 1
        fn = strip(fn)
        for (kk, key), nm in self.tr.reg.items():
            if isinstance(fn, Sym) and nm == fn.name and kk == 'T expr':
                if f"'{name}'" in repr(key) and "''" not in repr(key) or True:
                    t = repr(key)
                    if name in t:
                        return
        self.fail(f'callee {fn!r} instead of {name}')


    # ------------------------------------------------------------ statements
    def body(self, v, src):
        self.t(v, 'body', src)

    def full_body(self, v, src):
        v = self.adt(v, 'c::CBody')
        y = self.scope()
        ss = self.g(src, 'statements')
        if ss.concrete():
            return self.list(self.g(v, 'statements'), ss, y.stmt, 'statements')
        # any number of statements: the innermost scope has what the earlier ones declared
        tr, eng = self.tr, self.eng
        base = tr.scopekey(y.ctx)

        def one(parts, item, head, back):
            hc = eng.load(head, tr.cm)
            hk = tr.scopekey(hc)
            if hk[:-1] != base[:-1] or len(hk[-1]) > 1 or hk[-1] and hk[-1][0][0] != 's':
                self.fail('a body is not translated in a scope of its own')
            if hk[-1]:
                inf = eng.get(hc, 'scopes').p[-1][1].p[0][1].info
                if not inf or inf[0] != 'fold' or inf[1].init.p:
                    self.fail('a body is not translated in a scope of its own')
            if len(parts) != 1 or parts[0][0] != 'e':
                self.fail('a statement does not give one statement')
            y.ctx = hc
            y.stmt(parts[0][1], item)
            self.n += 1
            if tr.scopekey(eng.load(back, tr.cm)) != tr.scopekey(y.ctx):
                self.fail('a statement does not leave the scopes as it should')
        self.seg(self.g(v, 'statements'), ss.p[0][1], one, 'statements')

    def stmt(self, v, s):
        kind = self.variant(s)
        vs = [x for x in self.eng.T[strip(s).t]['v'] if x['n'] == kind][0]
        x = self.g(s, '0', kind) if vs['f'] else None
        getattr(self, 's_' + kind)(self.adt(v, 'c::Statement'), x)

    def s_Break(self, v, x):
        self.adt(v, 'c::Statement', 'Break')

    def s_Continue(self, v, x):
        self.adt(v, 'c::Statement', 'Continue')

    def s_Expression(self, v, x):
        if self.variant(x) == 'Call':
            c = self.g(x, '0', 'Call')
            if self.is_name(self.g(c, 'func'), 'panic'):
                return self.panic(v, x, c)
        v = self.adt(v, 'c::Statement', 'Expression')
        self.T(self.g(v, '0', 'Expression'), x)

    def s_Return(self, v, x):
        v = self.adt(v, 'c::Statement', 'Return')
        self.opt(self.g(v, 'expression', 'Return'), self.g(x, 'expression'), self.T, 'result')

    def s_If(self, v, x):
        v = self.adt(v, 'c::Statement', 'If')
        self.T(self.g(v, 'condition', 'If'), self.g(x, 'condition'))
        self.body(self.g(v, 'body', 'If'), self.g(x, 'body'))
        self.opt(self.g(v, 'else_body', 'If'), self.g(x, 'else_body'), self.body, 'else')

    def s_While(self, v, x):
        v = self.adt(v, 'c::Statement', 'While')
        self.T(self.g(v, 'cond', 'While'), self.g(x, 'cond'))
        self.body(self.g(v, 'body', 'While'), self.g(x, 'body'))

    def s_For(self, v, x):
        v = self.adt(v, 'c::Statement', 'For')
        y = self.scope()

        def init(a, b):
            if self.variant(b) == 'Expr':
                a = y.adt(a, 'c::ForInit', 'Expr')
                y.T(self.g(a, '0', 'Expr'), self.g(b, '0', 'Expr'))
            else:
                D = 'DeclLoopCounter'
                form, tn = self.g(b, 'form', D), self.g(b, 'type_name', D)
                y.bind(self.g(form, 'name'), self.typ('typefrom_typename', tn, form))
                a = self.g(y.adt(a, 'c::ForInit', D), '0', D)
                y.t(self.g(a, 'typename'), 'typename', tn)
                y.t(self.g(a, 'form'), 'form', form, Bool(False))
                y.T(self.g(a, 'value'), self.g(b, 'value', D))
        self.opt(self.g(v, 'init', 'For'), self.g(x, 'init'), init, 'initialisation')
        self.opt(self.g(v, 'condition', 'For'), self.g(x, 'condition'), y.T, 'condition')
        self.opt(self.g(v, 'action', 'For'), self.g(x, 'action'), y.T, 'action')
        y.body(self.g(v, 'body', 'For'), self.g(x, 'body'))

    def s_VarDecl(self, v, x):
        v = self.adt(v, 'c::Statement', 'VarDecl')
        form, tn = self.g(x, 'form'), self.g(x, 'typename')
        self.bind(self.g(form, 'name'), self.typ('typefrom_typename', tn, form))
        self.t(self.g(v, 'type_name', 'VarDecl'), 'typename', tn)
        self.list(self.g(v, 'forms', 'VarDecl'), [form], lambda a, b: self.t(a, 'form', b, Bool(False)), 'declarators')
        self.list(self.g(v, 'values', 'VarDecl'), [self.g(x, 'value')], lambda a, b: self.opt(a, b, self.T, 'initialiser'), 'initialisers')

    def s_Switch(self, v, x):
        if self.flag(self.g(x, 'is_str')):
            return self.strswitch(v, x)
        v = self.g(self.adt(v, 'c::Statement', 'Switch'), '0', 'Switch')
        self.T(self.g(v, 'value'), self.g(x, 'value'))

        def case(a, b):
            a = self.adt(a, 'c::CSwitchCase')
            self.list(self.g(a, 'values'), self.g(b, 'values'), val, 'case values')
            self.body(self.g(a, 'body'), self.g(b, 'body'))

        def val(a, b):
            if self.variant(b) == 'Ident':
                a = self.adt(a, 'c::CSwitchCaseValue', 'Ident')
                self.t(self.g(a, '0', 'Ident'), 'name', self.g(b, '0', 'Ident'))
            else:
                a = self.adt(a, 'c::CSwitchCaseValue', 'Literal')
                self.literal(self.g(a, '0', 'Literal'), self.g(b, '0', 'Literal'))
        self.list(self.g(v, 'cases'), self.g(x, 'cases'), case, 'cases')
        self.opt(self.g(v, 'default'), self.g(x, 'default_case'), self.body, 'default')

    # a string switch is a chain of comparisons by content
    def strswitch(self, v, x):
        cases = self.g(x, 'cases').items()
        subj = self.g(x, 'value')
        st = v
        for i, c in enumerate(cases):
            st = self.adt(st, 'c::Statement', 'If')
            alts = self.disj(self.g(st, 'condition', 'If'))
            self.alternatives(alts, self.g(c, 'values'), subj)
            self.body(self.g(st, 'body', 'If'), self.g(c, 'body'))
            els = self.g(st, 'else_body', 'If')
            if i + 1 < len(cases):
                if self.variant(els) != 'Some':
                    self.fail('the next case is lost')
                b = self.g(els, '0', 'Some')
                stm = self.g(b, 'statements')
                if not stm.concrete() or len(stm.items()) != 1:
                    self.fail('the else branch is not the next case')
                st = strip(stm.items()[0])
            else:
                self.opt(els, self.g(x, 'default_case'), self.body, 'default')

    def alternatives(self, alts, values, subj):
        """a comparison for each value; their order does not matter"""
        def inorder(alts):
            self.list(Seq([('e', a) for a in alts]), values, lambda a, b: self.streqtest(a, b, subj), 'alternatives')
        try:
            return inorder(alts)
        except Bad:
            if len(alts) > 4:
                raise
            for p in itertools.permutations(alts):
                try:
                    return inorder(p)
                except Bad:
                    pass
            raise

    def disj(self, e):
        e = strip(e)
        if isinstance(e, (Adt,)) and self.variant(e) == 'BinaryOp':
            b = self.g(e, '0', 'BinaryOp')
            if self.g(b, 'op').lit() == '||':
                return self.disj(self.g(b, 'a')) + self.disj(self.g(b, 'b'))
        return [e]

    def streqtest(self, e, val, subj, value=None):
        """strcmp(a, b) is zero; the subject is given as source or as value"""
        e = self.adt(e, 'c::Expr')
        if self.variant(e) == 'PrefixOp':
            self.str(self.g(e, 'operator', 'PrefixOp'), '!', 'negation')
            e = self.g(e, 'operand', 'PrefixOp')
        elif self.variant(e) == 'BinaryOp':
            b = self.g(e, '0', 'BinaryOp')
            self.str(self.g(b, 'op'), '==', 'comparison')
            z = self.g(b, 'b')
            self.str(self.g(self.g(self.adt(z, 'c::Expr', 'Literal'), '0', 'Literal'), '0', 'Number'), '0', 'comparison')
            e = self.g(b, 'a')
        else:
            self.fail('not a comparison by content')
        e = self.adt(e, 'c::Expr', 'Call')
        f = self.adt(self.g(e, 'func', 'Call'), 'c::Expr', 'Ident')
        self.str(self.g(f, '0', 'Ident'), 'strcmp', 'comparison function')
        args = self.g(e, 'args', 'Call').items()
        if len(args) != 2:
            self.fail('strcmp needs two arguments')

        def isval(a):
            a = self.adt(a, 'c::Expr')
            if self.variant(val) == 'Ident':
                self.adt(a, 'c::Expr', 'Ident')
                self.t(self.g(a, '0', 'Ident'), 'name', self.g(val, '0', 'Ident'))
            else:
                self.adt(a, 'c::Expr', 'Literal')
                self.literal(self.g(a, '0', 'Literal'), self.g(val, '0', 'Literal'))
        a, b = strip(args[0]), strip(args[1])
        if isinstance(a, Sym):
            a, b = b, a
        isval(a)
        if value is not None:
            return self.same(b, value, 'the value compared')
        self.T(b, subj)

    # panic(fmt, args...): position, message, exit(1)
    def panic(self, v, x, c):
        v = self.adt(v, 'c::Statement', 'Block')
        sts = self.g(v, 'statements', 'Block').items()
        calls = []
        for s in sts:
            s = self.adt(s, 'c::Statement', 'Expression')
            e = self.adt(self.g(s, '0', 'Expression'), 'c::Expr', 'Call')
            f = self.adt(self.g(e, 'func', 'Call'), 'c::Expr', 'Ident')
            calls.append((self.g(f, '0', 'Ident').lit(), self.g(e, 'args', 'Call').p))
        if not calls or calls[-1][0] != 'exit':
            self.fail('a panic does not end in exit')
        ex = calls[-1][1]
        if len(ex) != 1 or ex[0][0] != 'e':
            self.fail('exit status')
        one = self.g(self.adt(ex[0][1], 'c::Expr', 'Literal'), '0', 'Literal')
        self.str(self.g(self.adt(one, 'c::CLiteral', 'Number'), '0', 'Number'), '1', 'exit status')
        # what is printed, in order: text with the position, then the message
        seen_pos = seen_msg = False
        eng = self.eng
        pos = eng.make(self.tr.ret_type('node_queries::expression_pos'), self.tr.name('node_queries::expression_pos', (k(x),)))
        post = eng.make(self.tr.ret_type('buf::Pos::fmt'), self.tr.name('buf::Pos::fmt', (k(strip(pos)),)))
        path = eng.get(eng.get(self.ctx, 'this_mod_head'), 'filepath')
        where = Str(strip(path).p + (':',) + strip(post).p)
        src = self.g(c, 'args')
        for name, args in calls[:-1]:
            if name == 'fprintf' and len(args) < 2 and src.concrete() and not src.items():
                continue      # panic() is outside the language
            if name != 'fprintf' or len(args) < 2:
                self.fail(f'a panic calls {name}')
            if args[0][0] != 'e':
                raise Unsupported('shape of the arguments')
            self.str(self.g(self.adt(args[0][1], 'c::Expr', 'Ident'), '0', 'Ident'), 'stderr', 'output')
            a1 = strip(args[1][1])
            if args[1][0] == 's' or isinstance(a1, Sym):
                if seen_msg or not seen_pos:
                    self.fail('the message is not printed once, after the position')
                self.list(Seq(args[1:]), src, self.T, 'arguments of the message')
                seen_msg = True
                continue
            f = self.g(self.g(self.adt(a1, 'c::Expr', 'Literal'), '0', 'Literal'), '0', 'String').lit()
            if f is None:
                self.fail('format that is not a constant')
            if '%s' in f and f.count('%') == 1 and len(args) == 3 and not seen_msg:
                t = self.g(self.g(self.adt(args[2][1], 'c::Expr', 'Literal'), '0', 'Literal'), '0', 'String')
                self.str(t, where, 'position')
                seen_pos = True
            elif '%' in f or len(args) != 2:
                self.fail(f'unexpected output {f}')
        if not seen_pos:
            self.fail('the position is not printed')
        if not seen_msg and not (src.concrete() and not src.items()):
            self.fail('the message is not printed')

    # ------------------------------------------------------------ declarations
    def prefixed(self, v, cond, name, what):
        """the name, with the module's prefix if the declaration is exported"""
        pub = self.flag(cond)
        name = strip(name)
        if pub:
            uid = self.g(self.g(self.ctx, 'this_mod_head'), 'uniqid')
            name = Str(uid.p + ('__',) + name.p)
        self.str(v, name, what)
        return name

    def mod(self, v, src):
        kind = self.variant(src)
        x = self.g(src, '0', kind)
        if not isinstance(v, Seq) or not v.concrete():
            raise Unsupported('module elements')
        getattr(self, 'm_' + kind)([strip(e) for e in v.items()], x)

    def one(self, v, variant):
        if len(v) != 1:
            self.fail(f'{len(v)} declarations instead of one')
        return self.g(self.adt(v[0], 'c::ModElem', variant), '0', variant)

    def m_Macro(self, v, x):
        n = self.g(x, 'name')
        hint = self.cond(OR(self.eng.streq(n, Str(('type',))), self.eng.streq(n, Str(('link',)))))
        if hint:
            self.n += 1
            if v:
                self.fail('a hint leaves C code')
            return
        m = self.one(v, 'Macro')
        self.str(self.g(m, 'name'), n, 'directive')
        self.str(self.g(m, 'value'), self.g(x, 'value'), 'directive text')

    def m_Enum(self, v, x):
        m = self.one(v, 'DefEnum')
        pub = self.g(x, 'is_pub')
        self.bool(self.g(m, 'is_hidden'), NOT(pub.e), 'hidden')

        def entry(a, b):
            self.prefixed(self.g(a, 'id'), pub, self.g(b, 'name'), 'constant')
            self.opt(self.g(a, 'value'), self.g(b, 'val'), self.T, 'value')
        self.list(self.g(m, 'entries'), self.g(x, 'entries'), entry, 'constants')

    def m_StructAlias(self, v, x):
        m = self.one(v, 'Typedef')
        self.bool(self.g(m, 'ispub'), self.g(x, 'ispub'), 'exported')
        self.bool(self.g(self.g(m, 'typename'), 'is_const'), False, 'const')
        self.str(self.g(self.g(m, 'typename'), 'name'), Str(('struct ',) + self.g(x, 'structname').p), 'struct')
        f = self.g(m, 'form')
        self.plainform(f)
        self.prefixed(self.g(f, 'alias'), self.g(x, 'ispub'), self.g(x, 'typename'), 'type')

    def plainform(self, f):
        self.str(self.g(f, 'stars'), Str(()), 'pointers')
        self.int(self.g(f, 'size'), Int(0), 'dimension')
        self.n += 1
        if self.variant(self.g(f, 'params')) != 'None':
            self.fail('parameters in a typedef of a struct')

    def m_Typedef(self, v, x):
        m = self.one(v, 'Typedef')
        self.bool(self.g(m, 'ispub'), self.g(x, 'ispub'), 'exported')
        self.t(self.g(m, 'typename'), 'typename', self.g(x, 'typename'))
        f = self.g(m, 'form')
        self.prefixed(self.g(f, 'alias'), self.g(x, 'ispub'), self.g(x, 'alias'), 'type')
        self.int(self.g(f, 'size'), self.g(x, 'array_size'), 'dimension')
        self.stars(self.g(f, 'stars'), self.g(x, 'derefs'))

        def params(a, b):
            self.bool(self.g(a, 'ellipsis'), self.g(b, 'ellipsis'), 'variadic')
            self.list(self.g(a, 'forms'), self.g(b, 'forms'), self.baretype, 'parameters')
        self.opt(self.g(f, 'params'), self.g(x, 'func_params'), params, 'parameter list')

    def stars(self, v, n):
        """v consists of n stars"""
        self.n += 1
        v = strip(v)
        if isinstance(n, Int) and isinstance(n.e, int):
            return self.str(v, Str(('*' * n.e,)), 'pointers')
        if len(v.p) == 1 and isinstance(v.p[0], Atom) and v.p[0].info and v.p[0].info[0] == 'repeat':
            i = v.p[0].info
            if i[1].lit() == '*' and (k(Int(i[2])) == k(n) or self.eng.entails(self.st, I(i[2]) == I(n.e))):
                return
        self.fail(f'pointers: {v!r} instead of {n!r} stars')

    def m_StructTypedef(self, v, x):
        kinds = [self.variant(e) for e in v]
        if sorted(kinds) != ['ForwardStruct', 'StuctDef', 'Typedef']:
            self.fail(f'a struct gives {kinds}')
        self.n += 1
        m = {kd: self.g(e, '0', kd) for kd, e in zip(kinds, v)}
        pub = self.g(x, 'ispub')
        d, t = m['StuctDef'], m['Typedef']
        tag = self.g(d, 'name')
        self.str(m['ForwardStruct'], tag, 'struct tag')
        self.str(self.g(self.g(t, 'typename'), 'name'), Str(('struct ',) + tag.p), 'struct tag')
        self.bool(self.g(self.g(t, 'typename'), 'is_const'), False, 'const')
        self.bool(self.g(d, 'is_pub'), pub, 'exported')
        self.bool(self.g(t, 'ispub'), pub, 'exported')
        f = self.g(t, 'form')
        self.plainform(f)
        nm = self.prefixed(self.g(f, 'alias'), pub, self.g(x, 'name'), 'type')
        # the tag is as unique as the name: it contains it and nothing else unknown
        self.n += 1
        if not any(tag.p[i:i + len(nm.p)] == nm.p or [p for p in tag.p if isinstance(p, Atom)] == [p for p in nm.p if isinstance(p, Atom)] for i in range(len(tag.p))):
            self.fail(f'struct tag {tag!r}')
        def field(a, w):
            a = self.g(self.adt(a, 'c::CStructItem', 'Field'), '0', 'Field')
            self.t(self.g(a, 'type_name'), 'typename', self.g(w[0], 'typename'))
            self.t(self.g(a, 'form'), 'form', w[1], Bool(False))

        def union(a, w):
            a = self.g(self.adt(a, 'c::CStructItem', 'Union'), '0', 'Union')
            self.t(self.g(a, 'form'), 'form', self.g(w, 'form'), Bool(False))

            def fld(p, q):
                self.t(self.g(p, 'type_name'), 'typename', self.g(q, 'type_name'))
                self.t(self.g(p, 'form'), 'form', self.g(q, 'form'), Bool(False))
            self.list(self.g(a, 'fields'), self.g(w, 'fields'), fld, 'members')

        def entry(parts, e):
            if self.variant(e) == 'Plain':
                p = self.g(e, '0', 'Plain')
                self.list(Seq(parts), self.g(p, 'forms'), lambda q, w: field(q, (p, strip(w))), 'fields')
            else:
                self.list(Seq(parts), [self.g(e, '0', 'Union')], union, 'union')
        es = self.g(x, 'entries')
        fs = self.g(d, 'fields')
        if es.concrete():
            rest = list(fs.p)
            for e in es.items():
                if self.variant(e) == 'Plain':
                    fl = self.g(self.g(e, '0', 'Plain'), 'forms')
                    n = len(fl.items()) if fl.concrete() else 1
                else:
                    n = 1
                entry(rest[:n], e)
                rest = rest[n:]
            if rest:
                self.fail(f'{len(rest)} fields too many')
        else:
            self.seg(fs, es.p[0][1], lambda parts, e, head, back: entry(parts, e), 'fields')

    def m_ModVar(self, v, x):
        m = self.one(v, 'VarDecl')
        self.t(self.g(m, 'typename'), 'typename', self.g(x, 'typename'))
        self.t(self.g(m, 'form'), 'form', self.g(x, 'form'), Bool(True))
        self.T(self.g(m, 'value'), self.g(self.g(x, 'value'), '0', 'Some'))

    def params_scope(self, y, pl):
        """binds the parameters, in order, in y's innermost scope"""
        if pl.concrete() and all(self.g(p, 'forms').concrete() for p in pl.items()):
            for p in pl.items():
                for f in self.g(p, 'forms').items():
                    y.bind(self.g(f, 'name'), self.typ('typefrom_typename', self.g(p, 'typename'), f))
            return
        # any number: the scope the body was translated in was built by one pass over the list
        eng, tr = self.eng, self.tr
        seen = [nm for (kk, key), nm in tr.reg.items() if kk == 'T body']
        sc = tr.body_scopes
        if len(sc) != 1:
            raise Unsupported('scopes of the function body')
        scs = list(sc.values())[0]
        if tr.seqkey(scs)[:-1] != tr.scopekey(self.ctx):
            self.fail('the body is not translated in a scope of its own')
        last = scs.p[-1][1]

        def b(a, w):
            self.n += 1
            self.same(eng.get(a, 'name'), self.g(w[1], 'name'), 'parameter')
            self.same(eng.get(a, 'typ'), self.typ('typefrom_typename', self.g(w[0], 'typename'), w[1]), 'parameter type')
            self.bool(eng.get(a, 'ispub'), False, 'parameter')
        self.flat(last, pl, lambda p: self.g(p, 'forms'), b, 'parameters in scope')
        fi = self.P.field(y.ctx.t, 0, 'scopes')
        y.ctx = eng.setchild(y.ctx, 0, fi, scs)

    def m_FuncDecl(self, v, x):
        kinds = [self.variant(e) for e in v]
        form = self.g(x, 'form')
        main = self.cond(self.eng.streq(self.g(form, 'name'), Str(('main',))))
        self.n += 1
        if sorted(kinds) not in ([['FuncDef'], ['ForwardFunc', 'FuncDef']] if main else [['ForwardFunc', 'FuncDef']]):
            self.fail(f'a function gives {kinds}')
        pl = self.g(self.g(x, 'params'), 'list')
        y = self.scope()
        self.params_scope(y, pl)

        def sig(d):
            self.bool(self.g(d, 'is_static'), NOT(self.g(x, 'ispub').e), 'linkage')
            self.t(self.g(d, 'type_name'), 'typename', self.g(x, 'typename'))
            self.t(self.g(d, 'form'), 'form', form, Bool(True))
            ps = self.g(d, 'parameters')
            self.bool(self.g(ps, 'variadic'), self.g(self.g(x, 'params'), 'ellipsis'), 'variadic')

            def par(a, w):
                self.t(self.g(a, 'type_name'), 'typename', self.g(w[0], 'typename'))
                y.t(self.g(a, 'form'), 'form', w[1], Bool(False))
            self.flat(self.g(ps, 'list'), pl, lambda p: self.g(p, 'forms'), par, 'parameters')
        for e, kd in zip(v, kinds):
            d = self.g(e, '0', kd)
            sig(d)
            if kd == 'FuncDef':
                y.body(self.g(d, 'body'), self.g(x, 'body'))


class Unsettled(Exception):
    def __init__(self, conds):
        self.conds = conds


def settle(tr, st, check):
    """runs check(st) with case splits on what it asks for"""
    work = [st]
    n = 0
    while work:
        s = work.pop()
        try:
            n += check(s)
        except Unsettled as u:
            sub = []
            for c in u.conds:
                if tr.eng.feasible(s, c):
                    sub.append(s.copy().assume(c))
            if len(sub) + len(work) > 3000:
                raise Unsupported('too many cases')
            work += sub
    return n


def ok_value(tr, o):
    """Ok value of a Result outcome; None for Err"""
    r = o.ret
    if not isinstance(r, Adt):
        raise Unsupported(f'result {r!r}'[:100])
    if tr.eng.T[r.t]['v'][r.v]['n'] == 'Err':
        return None
    return r.f[0]


def explained(tr, o):
    """is this failure due to a failing part or an unused name?"""
    if o.state.ghost.get('err'):
        return True
    for c in o.state.pc:
        if c is not True and ('U#' in str(c) or '.used' in str(c)):
            return True
        # what the types allow is C10's matter
        if c is not True and 'type of ' in str(c):
            return True
    return False


def verify(tr, fn, args, st, ctx0, check, cm=None):
    """every outcome of fn(args) satisfies its contract"""
    eng = tr.eng
    outs = eng.run(fn, args, st)
    bad = []
    n = 0
    okays = 0
    for o in outs:
        n += 1
        if o.kind == 'panic':
            if not eng.feasible(o.state):
                continue
            if 'already defined' in o.why or any('found any' in str(c) for c in o.state.pc if c is not True):
                continue
            bad.append(f'{fn} panics: {o.why}')
            continue
        v = ok_value(tr, o)
        if v is None:
            if not explained(tr, o):
                bad.append(f'{fn} fails although every part translates; path: {pcs(o.state)}')
            continue
        okays += 1
        if o.state.ghost.get('err'):
            bad.append(f'{fn} succeeds although a part is rejected: {o.state.ghost["err"]}')
            continue
        try:
            n += settle(tr, o.state, lambda s: check(X(tr, s, ctx0), v))
            if cm is not None:
                n += 1
                if tr.scopekey(eng.load(o.state, cm)) != tr.scopekey(ctx0):
                    bad.append(f'{fn} does not leave the scopes as they were')
        except Bad as e:
            bad.append(f'{fn}: {e}; path: {pcs(o.state)}')
    if not okays and not bad:
        bad.append(f'{fn} never succeeds')
    return n, bad, eng


def pcs(st):
    return '; '.join(' '.join(str(c).split())[:120] for c in st.pc[-8:] if c is not True)


def typed_val(tr, v):
    if isinstance(v, Adt) and tr.eng.T[v.t]['n'].endswith('Typed'):
        return strip(tr.eng.get(v, 'val'))
    return v


EXPRS = ['Literal', 'NsName', 'ArrIndex', 'BinaryOp', 'FieldAccess', 'CompositeLiteral', 'PrefixOperator', 'PostfixOperator',
         'Cast', 'Call', 'Sizeof']


def lens_of(**kw):
    def f(name):
        last = name.split('.')[-1]
        last = last.split('[')[0] if '[' in last and not last.endswith(']') else last
        return kw.get(last)
    return f


def run_expr(P, only, lens=None, pre=None):
    tr = Tr(P, lens=lens)
    eng = tr.eng
    e = eng.make(P.type_named('nodes::Expr'), 'e')
    st = State()
    st.assume(eng.tag(e) == P.variant(e.t, only))
    cm, ctx0 = tr.context(st)
    if pre:
        for c in pre(tr, e):
            st.assume(c)

    def check(x, v):
        x.expr(typed_val(tr, v), e)
        return x.total
    return verify(tr, TR + 'tr_expr', [SRef(e), cm], st, ctx0, check, cm)


STMTS = ['Break', 'Continue', 'Expression', 'Return', 'If', 'While', 'For', 'VarDecl', 'Switch']


def var_names(tr, b):
    """declarations in one body have different names"""
    vs = []
    for s in tr.eng.get(b, 'statements').items():
        vs.append(tr.eng.get(strip(tr.eng.get(strip(tr.eng.get(s, '0', 'VarDecl')), 'form')), 'name'))
    return distinct(tr, vs)


def run_body(P, kinds, lens, pre=None, budget=60.0):
    """tr_body on a body with statements of these kinds"""
    base = lens

    def ln(name):
        if name == 'b.statements':
            return len(kinds)
        return base(name) if base else None
    tr = Tr(P, lens=ln, budget=budget)
    eng = tr.eng
    b = eng.make(P.type_named('nodes::Body'), 'b')
    st = State()
    for s, kd in zip(eng.get(b, 'statements').items(), kinds):
        kd, _, sub = kd.partition('.')
        st.assume(eng.tag(s) == P.variant(s.t, kd))
        if sub:
            e = strip(eng.get(s, '0', kd))
            if sub.startswith('!'):
                st.assume(eng.tag(e) != P.variant(e.t, sub[1:]))
            else:
                st.assume(eng.tag(e) == P.variant(e.t, sub))
        if pre:
            for c in pre(tr, s):
                st.assume(c)
    for c in var_names(tr, b) if kinds.count('VarDecl') > 1 else ():
        st.assume(c)
    cm, ctx0 = tr.context(st)

    def check(x, v):
        x.full_body(v, b)
        return x.total
    return verify(tr, TR + 'tr_body', [SRef(b), cm], st, ctx0, check, cm)


def run_anybody(P, kinds=None, budget=60.0):
    """tr_body on a body with any number of statements of any kind but string switches"""
    def ln(name):
        last = name.split('.')[-1]
        return None
    tr = Tr(P, lens=ln, budget=budget)
    eng = tr.eng
    inv = eng.invariant

    def invar(e, v):
        inv(e, v)
        n = e.T[v.t].get('n', '')
        if n.endswith('nodes::Statement'):
            e.axioms.append(z3.Not(e.get(strip(e.get(v, '0', 'Switch')), 'is_str').e))
    eng.invariant = invar
    b = eng.make(P.type_named('nodes::Body'), 'b')
    st = State()
    cm, ctx0 = tr.context(st)

    def check(x, v):
        x.full_body(v, b)
        return x.total
    return verify(tr, TR + 'tr_body', [SRef(b), cm], st, ctx0, check, cm)


def sw_pre(isstr):
    def f(tr, s):
        x = strip(tr.eng.get(s, '0', 'Switch'))
        b = tr.eng.get(x, 'is_str').e
        out = [b if isstr else z3.Not(b)]
        cs = tr.eng.get(x, 'cases')
        cs = cs.items() if cs.concrete() else []
        if len(cs) >= 2:
            # the kinds of the values are enumerated with one case
            for i, c in enumerate(cs):
                for j, v in enumerate(tr.eng.get(c, 'values').items()):
                    if i + j > 0:
                        out.append(tr.eng.tag(v) == (i + j) % 2)
                    w = strip(tr.eng.get(v, '0', 'Literal'))
                    out.append(tr.eng.tag(w) == tr.P.variant(w.t, 'String'))
        return out
    return f


# -- string switches of any number of cases, by induction over the chain: the
# head, one link (mk_switchstr_else) and one condition (mk_switchstr_cond) are
# checked against each other's contracts
COND, ELSE = TR + 'mk_switchstr_cond', TR + 'mk_switchstr_else'


class StrTr(Tr):
    def __init__(self, P, no=(), **kw):
        super().__init__(P, **kw)
        for fn, kind in ((COND, 'strcond'), (ELSE, 'strelse')):
            if not self.has(fn):
                raise Unsupported('the chain of a string switch is not built by ' + fn)
            if fn not in no or fn == ELSE:
                self.eng.contracts[fn] = self.tr_contract(fn, kind)


def link(x, v, cases, i, default, subj):
    """the if of case i, whose else is the chain from case i + 1 on"""
    eng = x.eng
    c = eng.elem(cases.p[0][1], i)
    st = x.adt(v, 'c::Statement', 'If')
    x.t(x.g(st, 'condition', 'If'), 'strcond', c, subj)
    x.body(x.g(st, 'body', 'If'), x.g(c, 'body'))
    els = x.g(st, 'else_body', 'If')
    if not isinstance(i, int):
        for nxt in (i + 1, z3.simplify(i + 1)):
            if isinstance(els, Sym) and els.name == x.tr.tname('strelse', cases, x.ctx, (k(Int(nxt)), k(default), k(subj))):
                x.n += 1
                return
    x.t(els, 'strelse', cases, Int(i + 1), default, subj)


def chain(f):
    """the cases of stated lengths report what fails; a chain that is built in
    another way is not decided here"""
    def g(P):
        n, bad, eng = f(P)
        if bad:
            raise Unsupported('the chain of a string switch: ' + bad[0])
        return n, bad, eng
    return g


def run_strhead(P):
    tr = StrTr(P, lens=lambda n: 1 if n == 'b.statements' else None)
    eng = tr.eng
    b = eng.make(P.type_named('nodes::Body'), 'b')
    st = State()
    s = eng.get(b, 'statements').items()[0]
    st.assume(eng.tag(s) == P.variant(s.t, 'Switch'))
    sw = strip(eng.get(s, '0', 'Switch'))
    st.assume(eng.get(sw, 'is_str').e)
    cases = strip(eng.get(sw, 'cases'))
    st.assume(I(eng.seqlen(cases)) >= 1)
    cm, ctx0 = tr.context(st)

    def check(x, v):
        y = x.scope()
        stm = x.g(x.adt(v, 'c::CBody'), 'statements')
        if not stm.concrete() or len(stm.items()) != 1:
            x.fail('a string switch does not give one statement')
        subj = strip(eng.make(P.type_named('c::Expr'), tr.tname('expr', y.g(sw, 'value'), y.ctx)))
        link(y, strip(stm.items()[0]), cases, 0, strip(eng.get(sw, 'default_case')), subj)
        return x.total
    return verify(tr, TR + 'tr_body', [SRef(b), cm], st, ctx0, check, cm)


def ordered(tr, fn, named):
    """the arguments of fn in its own order, found by their types"""
    out = []
    f = tr.P.fn(fn)
    eng = tr.eng
    for i in range(1, f['argc'] + 1):
        t = f['locals'][i]
        while eng.T[t]['k'] in ('ref', 'ptr'):
            t = eng.T[t]['t']
        n = eng.T[t].get('n', '')
        key = 'int' if eng.T[t]['k'] == 'uint' else 'ctx' if n.endswith('TrCtx') else 'seq' if 'Vec' in n or eng.T[t]['k'] == 'slice' else \
            'opt' if n.endswith('Option') else 'case' if n.endswith('nodes::SwitchCase') else 'expr' if n.endswith('c::Expr') else None
        if key not in named:
            raise Unsupported(f'parameter {i} of {fn}')
        out.append(named[key])
    return out


def run_strlink(P):
    tr = StrTr(P, no=(ELSE,))
    eng = tr.eng
    sw = eng.make(P.type_named('nodes::Switch'), 'sw')
    cases, default = strip(eng.get(sw, 'cases')), strip(eng.get(sw, 'default_case'))
    subj = eng.make(P.type_named('c::Expr'), 'subject')
    st = State()
    i = z3.Int('i')
    st.assume(z3.And(i >= 0, i <= I(eng.seqlen(cases))))
    cm, ctx0 = tr.context(st)

    def check(x, v):
        if x.cond(i == I(eng.seqlen(cases))):
            x.opt(v, default, x.body, 'default')
            return x.total
        if x.variant(v) != 'Some':
            x.fail('the remaining cases are lost')
        stm = x.g(x.g(v, '0', 'Some'), 'statements')
        if not stm.concrete() or len(stm.items()) != 1:
            x.fail('the else branch is not the next case')
        link(x, strip(stm.items()[0]), cases, i, default, subj)
        return x.total
    args = ordered(tr, ELSE, {'seq': SRef(cases), 'int': Int(i), 'opt': SRef(default), 'ctx': cm, 'expr': SRef(subj)})
    return verify(tr, ELSE, args, st, ctx0, check, cm)


def run_strcond(P):
    tr = StrTr(P, no=(COND,))
    eng = tr.eng
    c = eng.make(P.type_named('nodes::SwitchCase'), 'case')
    values = strip(eng.get(c, 'values'))
    subj = eng.make(P.type_named('c::Expr'), 'subject')
    st = State()
    n = I(eng.seqlen(values))
    st.assume(n >= 1)
    cm, ctx0 = tr.context(st)

    def test(x, e, j):
        x.streqtest(e, eng.elem(values.p[0][1], j), None, subj)

    def check(x, v):
        from mirv import loops
        v = strip(v)
        if not isinstance(v, Sym):
            # no loop was needed
            if not eng.entails(x.st, n == 1):
                x.fail('only some of the values are compared')
            test(x, v, 0)
            return x.total
        for lid, (st0, sh, abss, backs) in eng.loop_log.items():
            head = loops.cells(sh)
            at = [cc for cc in abss if isinstance(head.get(cc), Sym) and head[cc].name == v.name]
            if not at:
                continue
            cc = at[0]
            init = loops.cells(st0)[cc]
            x.step(st0.copy(), lambda: test(x, init, 0))
            ivs = [(y, lo) for a in abss.values() for _, y, lo in a.ivars if isinstance(lo.e, int) and lo.e == 1]
            if len(ivs) != 1:
                raise Unsupported('index of the loop')
            y = ivs[0][0]
            x.n += 1
            if not eng.entails(x.st, y >= n):
                x.fail('not all values are compared')
            for b in backs:
                cb = loops.cells(b)
                w = strip(cb[cc])
                x.n += 1
                if not any(adv(cb.get(q), y) for q in abss):
                    raise Unsupported('the loop does not go on to the next value')

                def one():
                    o = x.g(x.adt(w, 'c::Expr', 'BinaryOp'), '0', 'BinaryOp')
                    x.str(x.g(o, 'op'), '||', 'alternative')
                    p, q = x.g(o, 'a'), x.g(o, 'b')
                    if isinstance(q, Sym):
                        p, q = q, p
                    x.same(p, head[cc], 'the values compared before')
                    test(x, q, y)
                x.step(b.copy(), one)
            return x.total
        raise Unsupported('the condition is not built by a loop')

    def adv(v, y):
        if isinstance(v, Op) and v.kind == 'it':
            while v.k in ('enum', 'map'):
                v = v.inner
            i = v.lo if v.k == 'range' else v.i if v.k == 'seq' else None
        elif isinstance(v, Int):
            i = v.e
        elif isinstance(v, Adt):
            return any(adv(f, y) for f in v.f)
        else:
            i = None
        return i is not None and not isinstance(i, (int, bool)) and zk(z3.simplify(i)) == zk(z3.simplify(y + 1))
    args = ordered(tr, COND, {'case': SRef(c), 'ctx': cm, 'expr': SRef(subj)})
    return verify(tr, COND, args, st, ctx0, check, cm)


def distinct(tr, names):
    """names bound in one scope differ"""
    out = []
    for i, a in enumerate(names):
        for b in names[:i]:
            out.append(NOT(tr.eng.streq(a, b)))
    return out


def run_mod(P, kind, lens=None, pre=None, budget=60.0):
    tr = Tr(P, lens=lens, opaque=('node_queries::body_returns',), budget=budget)
    eng = tr.eng
    e = eng.make(P.type_named('nodes::ModElem'), 'm')
    st = State()
    st.assume(eng.tag(e) == P.variant(e.t, kind))

    def top(vt, bt):
        # only the module's own scope is open
        return Seq((('e', Seq((('s', SymSeq('top', bt)),), vt)),), tr.scopes_t)
    t = P.type_named('translator::TrCtx')
    tr.scopes_t = [f['t'] for f in eng.T[t]['v'][0]['f'] if f['n'] == 'scopes'][0]
    cm, ctx0 = tr.context(st, top)
    x = strip(eng.get(e, '0', kind))
    for c in (pre(tr, x) if pre else ()):
        st.assume(c)

    def check(y, v):
        y.mod(strip(v), e)
        return y.total
    return verify(tr, TR + 'tr_mod_elem', [SRef(e), cm], st, ctx0, check, cm)


def fn_pre(tr, x):
    eng = tr.eng
    names = []
    pl = eng.get(eng.get(x, 'params'), 'list')
    for p in pl.items() if pl.concrete() else ():
        for f in eng.get(p, 'forms').items():
            names.append(eng.get(f, 'name'))
    # that every path returns is another contract
    returns = z3.Bool(tr.name('node_queries::body_returns', (k(strip(eng.get(x, 'body'))),)))
    return distinct(tr, names) + [returns]


def var_pre(tr, x):
    v = tr.eng.get(x, 'value')
    return [tr.eng.tag(v) == tr.P.variant(v.t, 'Some')]


def jobs():
    J = {}
    ME = TR + 'tr_mod_elem'
    for x, pre in (('Enum', None), ('Typedef', None), ('StructTypedef', None), ('FuncDecl', fn_pre)):
        J[f'tr_mod_elem[{x}, any length]'] = (ME, lambda P, x=x, pre=pre: run_mod(P, x, None, pre))
    for x in ('Call', 'CompositeLiteral'):
        J[f'tr_expr[{x}, any length]'] = (TR + 'tr_expr', lambda P, x=x: run_expr(P, x))
    J['tr_body[any length]'] = (TR + 'tr_body', lambda P: run_anybody(P, None))
    J['tr_body[Switch, any length]'] = (TR + 'tr_body', lambda P: run_body(P, ['Switch'], None, sw_pre(False)))
    J['tr_body[Switch str, any number of cases: head]'] = (TR + 'tr_body', chain(run_strhead))
    J['tr_body[Switch str, any number of cases: link]'] = (ELSE, chain(run_strlink))
    J['tr_body[Switch str, any number of cases: condition]'] = (COND, chain(run_strcond))
    for x in ('Macro', 'StructAlias'):
        J[f'tr_mod_elem[{x}]'] = (ME, lambda P, x=x: run_mod(P, x))
    J['tr_mod_elem[ModVar]'] = (ME, lambda P: run_mod(P, 'ModVar', None, var_pre))
    for n in range(4):
        J[f'tr_mod_elem[Enum, {n} entries]'] = (ME, lambda P, n=n: run_mod(P, 'Enum', lens_of(entries=n)))
        J[f'tr_mod_elem[Typedef, {n} parameters]'] = (ME, lambda P, n=n: run_mod(P, 'Typedef', lens_of(forms=n)))
    for n, m, q in [(0, 1, 1), (1, 0, 0), (1, 1, 1), (1, 2, 2), (1, 3, 3), (2, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, 0)]:
        J[f'tr_mod_elem[StructTypedef, {n} entries, {m} names, {q} members]'] = (
            ME, lambda P, n=n, m=m, q=q: run_mod(P, 'StructTypedef', lens_of(entries=n, forms=m, fields=q)))
    for n, m in [(0, 1), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)]:
        J[f'tr_mod_elem[FuncDecl, {n} x {m} parameters]'] = (ME, lambda P, n=n, m=m: run_mod(P, 'FuncDecl', lens_of(list=n, forms=m), fn_pre))
    B_ = TR + 'tr_body'
    for x in STMTS:
        if x in ('Switch', 'Expression'):
            continue
        J[f'tr_body[{x}]'] = (B_, lambda P, x=x: run_body(P, [x], None))
    J['tr_body[]'] = (B_, lambda P: run_body(P, [], None))
    J['tr_body[Expression]'] = (B_, lambda P: run_body(P, ['Expression.!Call'], None))
    for n in range(4):
        J[f'tr_body[call or panic, {n} arguments]'] = (B_, lambda P, n=n: run_body(P, ['Expression.Call'], lens_of(args=n)))
    SEQS = [['VarDecl', 'Expression.!Call'], ['Expression.!Call', 'VarDecl'], ['Break', 'Return'], ['Return', 'Continue', 'Break'],
            ['If', 'While'], ['While', 'VarDecl'], ['For', 'Expression.!Call'], ['VarDecl', 'VarDecl'], ['VarDecl', 'For'],
            ['Expression.NsName', 'Expression.Cast', 'Expression.NsName'], ['VarDecl', 'If', 'Return'], ['Expression.BinaryOp'] * 4]
    for q in SEQS:
        J[f'tr_body[{" ".join(x.split(".")[0] for x in q)}]'] = (B_, lambda P, q=q: run_body(P, q, None))
    for nc, nv in [(0, 1), (1, 1), (2, 1), (3, 1), (1, 2), (1, 3), (2, 2), (3, 3)]:
        J[f'tr_body[Switch, {nc} cases, {nv} values]'] = (
            B_, lambda P, nc=nc, nv=nv: run_body(P, ['Switch'], lens_of(cases=nc, values=nv), sw_pre(False)))
        if nc:
            J[f'tr_body[Switch str, {nc} cases, {nv} values]'] = (
                B_, lambda P, nc=nc, nv=nv: run_body(P, ['Switch'], lens_of(cases=nc, values=nv), sw_pre(True)),
                'string switches of at most 3 cases with at most 3 values each')
    E = TR + 'tr_expr'
    for x in EXPRS:
        if x in ('CompositeLiteral', 'Call'):
            continue
        J[f'tr_expr[{x}]'] = (E, lambda P, x=x: run_expr(P, x))
    for n in range(4):
        J[f'tr_expr[Call, {n} arguments]'] = (E, lambda P, n=n: run_expr(P, 'Call', lens_of(args=n)))
        J[f'tr_expr[CompositeLiteral, {n} entries]'] = (
            E, lambda P, n=n: run_expr(P, 'CompositeLiteral', lens_of(entries=n)))
    return J


ASSUMES = [
    'panic() has at least one argument (panic with none gives invalid C; outside the language)',
    'nodes come from the parser: operators from its finite sets, forms and values in equal number',
    'the sets of used namespaces and helpers only grow while a module is translated (checked for tr_call, assumed for the summaries of recursive calls)',
]
GROUPS = {'expr': ['tr_expr'], 'stmt': ['tr_body['], 'switch': ['tr_body[Switch'], 'panic': ['tr_body[call or panic'], 'mod': ['tr_mod_elem']}
