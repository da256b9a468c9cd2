"""Contracts of the name rules (src/translator.rs, src/nodes.rs): what a name, a
type name and a declared name are translated to, which are rejected, and which
binding a use marks. The lists a context holds (scopes, imports, exports) are
enumerated up to stated lengths; their contents are arbitrary."""
from .trproof import *
from . import trproof


class N(Tr):
    def __init__(self, P, lens=None, no=(), **kw):
        super().__init__(P, lens=lens, no=no, **kw)
        eng = self.eng
        if self.has('cspec::find_sym'):
            eng.contracts['cspec::find_sym'] = self.sym_contract('cspec::find_sym')

    def sym_contract(self, fn):
        """the table of C's own names"""
        rt = self.ret_type(fn)

        def c(eng, st, args):
            nm = self.csym(strip(eng.load(st, args[0])))
            out = []
            b = z3.Bool('csym ' + nm)
            vs = eng.T[rt]['v']
            some = self.P.variant(rt, 'Some')
            none = self.P.variant(rt, 'None')
            if eng.feasible(st, b):
                out.append((st.copy().assume(b), Adt(rt, some, (self.sym(nm, vs[some]['f'][0]['t']),))))
            if eng.feasible(st, z3.Not(b)):
                out.append((st.copy().assume(z3.Not(b)), Adt(rt, none, ())))
            return out
        return c

    def csym(self, name):
        return self.name('C', (k(name),))

    def sym(self, nm, t):
        T = self.eng.T[t]
        if T['k'] in ('ref', 'ptr'):
            return SRef(self.eng.make(T['t'], 'csym ' + nm))
        return self.eng.make(t, 'csym ' + nm)


def scopes_of(shape, named=True):
    """scopes with the given numbers of bindings"""
    def mk(tr):
        eng = tr.eng

        def f(vt, bt):
            out = []
            for i, n in enumerate(shape):
                fr = []
                for j in range(n):
                    fr.append(('e', eng.make(bt, f'b{i}_{j}')))
                out.append(('e', Seq(fr, vt)))
            return Seq(out, tr.scopes_t)
        return f
    return mk


def scopes_any(tr):
    """any number of scopes, the innermost with any bindings"""
    eng = tr.eng

    def f(vt, bt):
        return Seq((('s', SymSeq('outer', vt)), ('e', Seq((('s', SymSeq('inner', bt)),), vt))), tr.scopes_t)
    return f


class NX(X):
    """the rules"""

    def inner(self, ctx=None):
        return self.eng.get(ctx or self.ctx, 'scopes').p[-1][1]

    def frames(self, ctx=None):
        return [fr[1].items() for fr in self.eng.get(ctx or self.ctx, 'scopes').p]

    def eqs(self, a, b):
        if isinstance(b, str):
            b = Str((b,))
        return self.cond(self.eng.streq(strip(a), strip(b)))

    def bound(self, name):
        """(frame, index) of the innermost binding"""
        fs = self.frames()
        for i in reversed(range(len(fs))):
            for j in range(len(fs[i])):
                if self.eqs(self.g(fs[i][j], 'name'), name):
                    return i, j
        return None

    def csym(self, name):
        return self.cond(z3.Bool('csym ' + self.tr.csym(strip(name))))

    def prefix(self, name, uniqid=None):
        u = uniqid if uniqid is not None else self.g(self.g(self.ctx, 'this_mod_head'), 'uniqid')
        return Str(strip(u).p + ('__',) + strip(name).p)

    # lists of any length
    def some(self, seq, test):
        """an element the test holds of, or None. Of a list of unknown length: one
        of those the code looked at, or one at an arbitrary index; that there is
        none is judged at all of these (and the indexes are skolem constants: what
        is shown is shown of every one)"""
        seq = strip(seq)
        if seq.concrete():
            for i, e in enumerate(seq.items()):
                if self.cond(B(test(e))):
                    return i, e
            return None
        if len(seq.p) != 1:
            raise Unsupported('list in parts')
        n = I(self.eng.seqlen(seq))
        for i in self.eng.indexes.get(k(seq), []) + [self.eng.arb(seq)]:
            e = self.eng.elem(seq.p[0][1], i)
            if self.cond(z3.And(i >= 0, i < n, B(test(e)))):
                return i, e
        return None

    def imported_any(self, ns):
        eng = self.eng
        hd = self.g(self.ctx, 'this_mod_head')
        at = self.some(self.g(hd, 'imports'), lambda e: eng.streq(strip(eng.get(e, 'ns')), strip(ns)))
        if at is None:
            return None
        path = strip(eng.get(at[1], 'path'))
        hs, ms = strip(self.g(self.ctx, 'all_mod_heads')), strip(self.g(self.ctx, 'mods'))
        at = self.some(hs, lambda e: eng.streq(strip(eng.get(e, 'filepath')), path))
        if at is None:
            return None
        return at[1], eng.elem(ms.p[0][1], at[0])

    def exported_any(self, m, name, e=None):
        eng = self.eng
        e = e if e is not None else self.g(m, 'exports')
        for kind, ls, f in (('const', 'consts', lambda c: eng.get(c, 'name')), ('fn', 'fns', lambda c: eng.get(eng.get(c, 'form'), 'name')), ('type', 'types', lambda c: c)):
            at = self.some(self.g(e, ls), lambda c: eng.streq(strip(f(c)), strip(name)))
            if at is not None:
                return kind, at[1], at[0]
        return None

    def of_fn(self, typ, m, name, at):
        """the type of the function of that name; in a list of any length its index
        may be called differently by the code (names in one module differ)"""
        eng = self.eng
        fns = strip(self.g(self.g(m, 'exports'), 'fns'))
        if fns.concrete():
            return self.same(typ, self.typ('typefrom_funcdecl', at), 'type')
        n = I(eng.seqlen(fns))
        for i in eng.indexes.get(k(fns), []):
            e = eng.elem(fns.p[0][1], i)
            if k(strip(typ)) == k(strip(self.typ('typefrom_funcdecl', e))):
                self.n += 1
                if not eng.entails(self.st, z3.And(i >= 0, i < n, B(eng.streq(strip(eng.get(eng.get(e, 'form'), 'name')), strip(name))))):
                    self.fail('the type of another function')
                return
        self.fail('type: not that of the function')

    # imports: (head, module) or None
    def imported(self, ns):
        if not strip(self.g(self.ctx, 'all_mod_heads')).concrete():
            return self.imported_any(ns)
        for imp in self.g(self.g(self.ctx, 'this_mod_head'), 'imports').items():
            if self.eqs(self.g(imp, 'ns'), ns):
                for h, m in zip(self.g(self.ctx, 'all_mod_heads').items(), self.g(self.ctx, 'mods').items()):
                    if self.eqs(self.g(h, 'filepath'), self.g(imp, 'path')):
                        return h, m
                return None
        return None

    def exported(self, m, name):
        """the kind of export with this name"""
        e = self.g(m, 'exports')
        if not strip(self.g(e, 'consts')).concrete():
            return self.exported_any(m, name)
        for x in self.g(e, 'consts').items():
            if self.eqs(self.g(x, 'name'), name):
                return 'const', x
        for x in self.g(e, 'fns').items():
            if self.eqs(self.g(self.g(x, 'form'), 'name'), name):
                return 'fn', x
        for x in self.g(e, 'types').items():
            if self.eqs(x, name):
                return 'type', x
        return None

    # -- what the context is afterwards
    def unchanged(self, after, marked=None, ns=None, what='name'):
        eng = self.eng
        a, b = self.frames(), self.frames(after)
        self.n += 1
        if [len(f) for f in a] != [len(f) for f in b]:
            self.fail(f'{what}: bindings appear or disappear')
        for i, (x, y) in enumerate(zip(a, b)):
            for j, (p, q) in enumerate(zip(x, y)):
                for f in ('name', 'typ', 'ispub'):
                    self.same(self.g(q, f), self.g(p, f), f'binding {f}')
                if (i, j) == marked:
                    self.bool(self.g(q, 'used'), True, 'the use is not marked')
                else:
                    self.bool(self.g(q, 'used'), self.g(p, 'used'), 'another binding is marked as used')
        u0, u1 = eng.get(self.ctx, 'used_ns'), eng.get(after, 'used_ns')
        self.n += 1
        ins = u1.ins[len(u0.ins):]
        if u0.base != u1.base or u1.ins[:len(u0.ins)] != u0.ins:
            self.fail(f'{what}: the set of used imports changes')
        if ns is None and ins:
            self.fail(f'{what}: {ins} counted as a used import')
        if ns is not None and (not ins or any(not self.eqs(eng.load(self.st, x), ns) for x in ins)):
            self.fail(f'{what}: the import is not counted as used')
        c0, c1 = eng.get(self.ctx, 'used_customs'), eng.get(after, 'used_customs')
        if k(c0) != k(c1):
            self.fail(f'{what}: helpers change')


def decide(tr, fn, args, st, ctx0, cm, rule, cls=NX):
    """rule(x): None when the call has to be refused, otherwise a function that
    checks the accepted value and the context afterwards"""
    eng = tr.eng
    bad = []
    n = 0
    oks = 0

    def one(o):
        def f(s):
            x = cls(tr, s, ctx0)
            want = rule(x)
            refused = o.kind == 'panic'
            v = None
            if not refused:
                v = ok_value(tr, o)
                refused = v is None
            x.n += 1
            if want is None:
                if not refused:
                    raise Bad('accepted')
            else:
                if refused:
                    raise Bad('refused: ' + str(getattr(o, 'why', ''))[:100])
                want(v, eng.load(s, cm) if cm is not None else None)
            return x.total
        return f
    for o in eng.run(fn, args, st):
        if o.kind == 'panic' and not eng.feasible(o.state):
            continue
        try:
            n += settle(tr, o.state, one(o))
            oks += 1
        except Bad as e:
            bad.append(f'{fn}: {e}; path: {pcs(o.state)}')
    if not oks and not bad:
        raise Unsupported('no outcome')
    return n, bad, eng


def prep(P, shape, lens, no, extra=None, **kw):
    def ln(name):
        for suf, n in lens.items():
            if name.endswith(suf):
                return n
        return None
    tr = N(P, lens=ln, no=no, **kw)
    eng = tr.eng
    eng.arb = lambda q: z3.Int('J ' + q.p[0][1].name) if len(q.p) == 1 and q.p[0][0] == 's' else None
    t = P.type_named('translator::TrCtx')
    tr.scopes_t = [f['t'] for f in eng.T[t]['v'][0]['f'] if f['n'] == 'scopes'][0]
    st = State()
    cm, ctx0 = tr.context(st, scopes_any(tr) if shape == 'any' else scopes_of(shape)(tr) if shape is not None else None)
    # names in one scope differ
    for fr in eng.get(ctx0, 'scopes').p if shape is not None and shape != 'any' else ():
        for c in distinct(tr, [eng.get(b, 'name') for b in fr[1].items()]):
            st.assume(c)
    if 'all_mod_heads' not in lens and 'this_mod_head.imports' not in lens:
        # one head per module
        st.assume(I(eng.seqlen(eng.get(ctx0, 'all_mod_heads'))) == I(eng.seqlen(eng.get(ctx0, 'mods'))))
    # modules are identified by their paths, imports by their names
    if 'all_mod_heads' in lens:
        for c in distinct(tr, [eng.get(h, 'filepath') for h in eng.get(ctx0, 'all_mod_heads').items()]):
            st.assume(c)
        for c in distinct(tr, [eng.get(h, 'ns') for h in eng.get(eng.get(ctx0, 'this_mod_head'), 'imports').items()]):
            st.assume(c)
    return tr, eng, st, cm, ctx0


NOIMP = {'this_mod_head.imports': 0, 'all_mod_heads': 0, 'ctx.mods': 0}


def nsname(tr, st, ns):
    eng = tr.eng
    x = eng.make(tr.P.type_named('nodes::NsName'), 'x')
    s = eng.get(x, 'ns')
    if ns == '':
        st.assume(B(eng.streq(s, Str(()))))
    elif ns == 'OS':
        st.assume(B(eng.streq(s, Str(('OS',)))))
    else:
        st.assume(z3.Not(B(eng.streq(s, Str(())))))
        st.assume(z3.Not(B(eng.streq(s, Str(('OS',))))))
    return x


def run_name(P, shape):
    """a plain name in an expression"""
    fn = TR + 'tr_nsid_in_expr'
    tr, eng, st, cm, ctx0 = prep(P, shape, NOIMP, ('tr_nsid_in_expr',))
    nn = nsname(tr, st, '')
    name = eng.get(nn, 'name')
    # nelem is in C's table
    st.assume(z3.Implies(B(eng.streq(name, Str(('nelem',)))), z3.Bool('csym ' + tr.csym(name))))

    def rule(x):
        at = x.bound(name)
        if at is None and not x.csym(name):
            return None

        def ok(v, after):
            v = strip(v)
            if at is not None:
                b = x.frames()[at[0]][at[1]]
                pub = x.flag(x.g(b, 'ispub')) and not x.eqs(name, 'main')
                x.str(x.g(v, 'val'), x.prefix(name) if pub else name, 'name')
                x.same(x.g(v, 'typ'), x.g(b, 'typ'), 'type')
            else:
                x.str(x.g(v, 'val'), name, 'name')
            x.unchanged(after, at)
        return ok
    return decide(tr, fn, [SRef(nn), cm], st, ctx0, cm, rule)


IMPS = {'this_mod_head.imports': 2, 'all_mod_heads': 2, 'ctx.mods': 2}


def run_osname(P):
    fn = TR + 'tr_nsid_in_expr'
    tr, eng, st, cm, ctx0 = prep(P, (1,), NOIMP, ('tr_nsid_in_expr',))
    nn = nsname(tr, st, 'OS')

    def rule(x):
        def ok(v, after):
            x.str(x.g(strip(v), 'val'), eng.get(nn, 'name'), 'name')
            x.unchanged(after)
        return ok
    return decide(tr, fn, [SRef(nn), cm], st, ctx0, cm, rule)


def implens(nc, nf, nt):
    return {} if nc is None else dict(IMPS, **{'exports.consts': nc, 'exports.fns': nf, 'exports.types': nt, 'exports.structs': 0})


def run_impname(P, nc, nf, nt):
    """a name of an imported module"""
    fn = TR + 'tr_nsid_in_expr'
    tr, eng, st, cm, ctx0 = prep(P, (1,), implens(nc, nf, nt), ('tr_nsid_in_expr',))
    nn = nsname(tr, st, 'import')
    name, ns = eng.get(nn, 'name'), eng.get(nn, 'ns')

    def rule(x):
        hm = x.imported(ns)
        if hm is None:
            return None
        kind = x.exported(hm[1], name)
        if kind is None or kind[0] == 'type':
            return None       # a type is not a value

        def ok(v, after):
            v = strip(v)
            x.str(x.g(v, 'val'), x.prefix(name, x.g(hm[0], 'uniqid')), 'name')
            if kind[0] == 'fn':
                x.of_fn(x.g(v, 'typ'), hm[1], name, kind[1])
            x.unchanged(after, ns=ns)
        return ok
    return decide(tr, fn, [SRef(nn), cm], st, ctx0, cm, rule)


def typename(tr, st, ns):
    eng = tr.eng
    x = eng.make(tr.P.type_named('nodes::Typename'), 't')
    s = eng.get(eng.get(x, 'name'), 'ns')
    e, o = B(eng.streq(s, Str(()))), B(eng.streq(s, Str(('OS',))))
    st.assume({'': e, 'OS': o}.get(ns, z3.And(z3.Not(e), z3.Not(o))))
    return x


def run_type(P, nt):
    """a plain type name"""
    fn = TR + 'tr_typename'
    tr, eng, st, cm, ctx0 = prep(P, (1,), dict(NOIMP, **({'this_mod_head.typedefs': nt} if nt is not None else {})), ('tr_typename',))
    t = typename(tr, st, '')
    name = strip(eng.get(eng.get(t, 'name'), 'name'))

    def has(x, mp):
        m = eng.get(x.ctx, mp)
        return x.cond(z3.Bool(f'has({m.base},{k(name)})'))

    def entry(x, mp):
        m = eng.get(x.ctx, mp)
        return eng.make(eng.T[m.t]['args'][1], f'{m.base}[{name.lit() if name.lit() is not None else name.p}]')

    def rule(x):
        pub = None
        kinds = []
        if x.csym(name) and x.variant(x.g(tr.sym(tr.csym(name), eng.P.type_named('cspec::CSymbol')), 'kind')) == 'TYPE':
            pub = False
        elif has(x, 'struct_typedefs'):
            pub = x.flag(x.g(entry(x, 'struct_typedefs'), 'ispub'))
        elif has(x, 'other_typedefs'):
            pub = x.flag(x.g(entry(x, 'other_typedefs'), 'is_pub'))
        elif x.some(x.g(x.g(x.ctx, 'this_mod_head'), 'typedefs'), lambda y: eng.streq(strip(y), name)) is not None:
            pub = False
        if pub is None:
            return None

        def ok(v, after):
            v = strip(v)
            x.str(x.g(v, 'name'), x.prefix(name) if pub else name, 'type name')
            x.bool(x.g(v, 'is_const'), x.g(t, 'is_const'), 'const')
            x.unchanged(after, what='type name')
        return ok

    return decide(tr, fn, [SRef(t), cm], st, ctx0, cm, rule)


def run_ostype(P):
    fn = TR + 'tr_typename'
    tr, eng, st, cm, ctx0 = prep(P, (1,), NOIMP, ('tr_typename',))
    t = typename(tr, st, 'OS')

    def rule(x):
        def ok(v, after):
            v = strip(v)
            x.str(x.g(v, 'name'), x.g(x.g(t, 'name'), 'name'), 'type name')
            x.bool(x.g(v, 'is_const'), x.g(t, 'is_const'), 'const')
            x.unchanged(after, what='type name')
        return ok
    return decide(tr, fn, [SRef(t), cm], st, ctx0, cm, rule)


def run_imptype(P, nc, nf, nt):
    fn = TR + 'tr_typename'
    tr, eng, st, cm, ctx0 = prep(P, (1,), implens(nc, nf, nt), ('tr_typename',))
    t = typename(tr, st, 'import')
    name, ns = eng.get(eng.get(t, 'name'), 'name'), eng.get(eng.get(t, 'name'), 'ns')

    def rule(x):
        hm = x.imported(ns)
        if hm is None:
            return None
        kind = x.exported(hm[1], name)
        if kind is None:
            return None

        def ok(v, after):
            v = strip(v)
            x.str(x.g(v, 'name'), x.prefix(name, x.g(hm[0], 'uniqid')), 'type name')
            x.bool(x.g(v, 'is_const'), x.g(t, 'is_const'), 'const')
            x.unchanged(after, ns=ns, what='type name')
        if kind[0] != 'type':
            # a constant or a function where a type is due: C rejects it
            return lambda v, after: None
        return ok
    return decide(tr, fn, [SRef(t), cm], st, ctx0, cm, rule)


def run_form(P, shape, nidx):
    """a declared name with its array dimensions"""
    fn = TR + 'tr_form'
    tr, eng, st, cm, ctx0 = prep(P, shape, dict(NOIMP, **({'f.indexes': nidx} if nidx is not None else {})), ('tr_form',))
    f = eng.make(P.type_named('nodes::Form'), 'f')
    name = eng.get(f, 'name')
    pub = eng.make(P.fn(fn)['locals'][3], 'publishable')

    def rule(x):
        # fails exactly when a dimension does
        if x.st.ghost.get('err'):
            return None

        def ok(v, after):
            v = strip(v)
            x.adt(v, 'c::Form')
            x.list(x.g(v, 'indexes'), x.g(f, 'indexes'), lambda a, b: x.opt(a, b, x.T, 'dimension'), 'dimensions')
            x.stars(x.g(v, 'stars'), x.g(f, 'hops'))
            if shape is None:
                return      # the name is the business of the other cases
            at = x.bound(name) if x.flag(pub) else None
            p = at is not None and x.flag(x.g(x.frames()[at[0]][at[1]], 'ispub')) and not x.eqs(name, 'main')
            x.str(x.g(v, 'name'), x.prefix(name) if p else name, 'declared name')
            x.n += 1
            if tr.scopekey(after) != tr.scopekey(ctx0):
                x.fail('the scopes change')
        return ok
    return decide(tr, fn, [SRef(f), cm, pub], st, ctx0, cm, rule)


def run_endscope(P, shape):
    fn = TR + 'end_scope'
    tr, eng, st, cm, ctx0 = prep(P, shape, NOIMP, ())

    def rule(x):
        if shape == 'any':
            if x.some(x.inner(), lambda b: z3.And(z3.Not(eng.get(b, 'ispub').e), z3.Not(eng.get(b, 'used').e))) is not None:
                return None

            def closed(v, after):
                x.n += 1
                if k(eng.get(after, 'scopes')) != k(Seq(eng.get(ctx0, 'scopes').p[:-1], tr.scopes_t)):
                    x.fail('the other scopes change')
            return closed
        for b in x.frames()[-1]:
            if not x.flag(x.g(b, 'ispub')) and not x.flag(x.g(b, 'used')):
                return None

        def ok(v, after):
            x.n += 1
            if tr.scopekey(after) != tr.scopekey(ctx0)[:-1]:
                x.fail('the scope is not closed')
            for p, q in zip(x.frames(), x.frames(after)):
                for a, b in zip(p, q):
                    x.bool(x.g(b, 'used'), x.g(a, 'used'), 'a mark of use is lost')
        return ok
    return decide(tr, fn, [cm], st, ctx0, cm, rule)


def run_beginscope(P):
    fn = TR + 'begin_scope'
    tr, eng, st, cm, ctx0 = prep(P, (2, 1), NOIMP, ())

    def rule(x):
        def ok(v, after):
            x.n += 1
            if tr.scopekey(after) != tr.scopekey(ctx0) + ((),):
                x.fail('no scope is opened')
            for p, q in zip(x.frames(), x.frames(after)):
                for a, b in zip(p, q):
                    x.bool(x.g(b, 'used'), x.g(a, 'used'), 'a mark of use is lost')
        return ok
    return unit(tr, fn, [cm], st, ctx0, cm, rule)


def run_addbinding(P, shape):
    fn = TR + 'add_binding'
    tr, eng, st, cm, ctx0 = prep(P, shape, NOIMP, ())
    ls = P.fn(fn)['locals']
    nm, pos, pub, typ = eng.make(ls[2], 'name'), eng.make(ls[3], 'pos'), eng.make(ls[4], 'pub'), eng.make(ls[5], 'typ')

    def new_binding(x, new):
        x.str(x.g(new, 'name'), nm, 'bound name')
        x.same(x.g(new, 'typ'), typ, 'bound type')
        x.bool(x.g(new, 'ispub'), pub, 'exported')
        x.bool(x.g(new, 'used'), False, 'used at once')

    def rule(x):
        if shape == 'any':
            if x.some(x.inner(), lambda b: eng.streq(strip(eng.get(b, 'name')), strip(nm))) is not None:
                return None

            def added(v, after):
                a, b = eng.get(ctx0, 'scopes'), eng.get(after, 'scopes')
                x.n += 1
                if k(Seq(b.p[:-1])) != k(Seq(a.p[:-1])) or k(Seq(b.p[-1][1].p[:-1])) != k(Seq(a.p[-1][1].p)) or b.p[-1][1].p[-1][0] != 'e':
                    x.fail('a declaration does not add one binding to the innermost scope')
                new_binding(x, b.p[-1][1].p[-1][1])
            return added
        if any(x.eqs(x.g(b, 'name'), nm) for b in x.frames()[-1]):
            return None       # twice in one scope

        def ok(v, after):
            a, b = x.frames(), x.frames(after)
            x.n += 1
            if [len(f) for f in b] != [len(f) for f in a[:-1]] + [len(a[-1]) + 1]:
                x.fail('a declaration does not add one binding to the innermost scope')
            new_binding(x, b[-1][-1])
            for p, q in zip(a, b):
                for c, d in zip(p, q):
                    x.same(d, c, 'earlier binding')
        return ok
    return unit(tr, fn, [cm, nm, pos, pub, typ], st, ctx0, cm, rule)


def unit(tr, fn, args, st, ctx0, cm, rule):
    """a function that returns nothing: refuses by panicking"""
    eng = tr.eng
    bad, n = [], 0
    for o in eng.run(fn, args, st):
        if o.kind == 'panic' and not eng.feasible(o.state):
            continue

        def one(s):
            x = NX(tr, s, ctx0)
            want = rule(x)
            x.n += 1
            if (want is None) != (o.kind == 'panic'):
                raise Bad('accepted' if want is None else f'refused: {o.why}')
            if want:
                want(None, eng.load(s, cm))
            return x.total
        try:
            n += settle(tr, o.state, one)
        except Bad as e:
            bad.append(f'{fn}: {e}; path: {pcs(o.state)}')
    return n, bad, eng


def run_exports(P, nc, nf, nt):
    fn = 'nodes::exports_has'
    tr, eng, st, cm, ctx0 = prep(P, (), dict(NOIMP, **({'.consts': nc, '.fns': nf, '.types': nt, '.structs': 1} if nc is not None else {})), ())
    e = eng.make(P.type_named('nodes::Exports'), 'e')
    name = eng.make(P.fn(fn)['locals'][2], 'n')
    bad, n = [], 0
    for o in eng.run(fn, [SRef(e), name], st):
        if o.kind == 'panic':
            bad.append('panics')
            continue

        def one(s):
            x = NX(tr, s, ctx0)
            if nc is None:
                w = x.exported_any(None, name, e) is not None
            else:
                w = any(x.eqs(x.g(c, 'name'), name) for c in x.g(e, 'consts').items()) or any(
                    x.eqs(x.g(x.g(f, 'form'), 'name'), name) for f in x.g(e, 'fns').items()) or any(x.eqs(t, name) for t in x.g(e, 'types').items())
            x.bool(o.ret, w, 'exported')
            return x.total
        try:
            n += settle(tr, o.state, one)
        except Bad as ex:
            bad.append(f'{fn}: {ex}; path: {pcs(o.state)}')
    return n, bad, eng


def whole(f):
    """lists of any length: what fails is reported by the cases of stated lengths;
    here it is not decided"""
    def g(P):
        n, bad, eng = f(P)
        if bad:
            raise Unsupported('lists of any length: ' + bad[0])
        return n, bad, eng
    return g


SHAPES = [(), (0,), (1,), (2,), (1, 1), (2, 2), (1, 0, 1), (1, 1, 1), (2, 1, 2), (1, 1, 1, 1), (3, 3)]


def jobs():
    J = {}
    for s in SHAPES:
        J[f'name[{s}]'] = (TR + 'tr_nsid_in_expr', lambda P, s=s: run_name(P, s))
        J[f'declared name[{s}]'] = (TR + 'tr_form', lambda P, s=s: run_form(P, s, 0))
        if s:
            J[f'end of scope[{s}]'] = (TR + 'end_scope', lambda P, s=s: run_endscope(P, s))
            J[f'declaration[{s}]'] = (TR + 'add_binding', lambda P, s=s: run_addbinding(P, s))
    J['start of scope'] = (TR + 'begin_scope', run_beginscope)
    for n in (1, 2, 3, None):
        J[f'array dimensions[{n if n is not None else "any number"}]'] = (
            TR + 'tr_form', lambda P, n=n: run_form(P, (1,) if n is not None else (), n))
    J['name[OS]'] = (TR + 'tr_nsid_in_expr', run_osname)
    J['type[OS]'] = (TR + 'tr_typename', run_ostype)
    for q in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 2, 1)]:
        J[f'imported name[{q}]'] = (TR + 'tr_nsid_in_expr', lambda P, q=q: run_impname(P, *q))
        J[f'imported type[{q}]'] = (TR + 'tr_typename', lambda P, q=q: run_imptype(P, *q))
        J[f'exports[{q}]'] = ('nodes::exports_has', lambda P, q=q: run_exports(P, *q))
    J['end of scope[any scopes]'] = (TR + 'end_scope', whole(lambda P: run_endscope(P, 'any')))
    J['declaration[any scopes]'] = (TR + 'add_binding', whole(lambda P: run_addbinding(P, 'any')))
    J['imported name[any lists]'] = (TR + 'tr_nsid_in_expr', whole(lambda P: run_impname(P, None, None, None)))
    J['imported type[any lists]'] = (TR + 'tr_typename', whole(lambda P: run_imptype(P, None, None, None)))
    J['exports[any lists]'] = ('nodes::exports_has', whole(lambda P: run_exports(P, None, None, None)))
    J['type[any typedefs]'] = (TR + 'tr_typename', whole(lambda P: run_type(P, None)))
    for n in (0, 1, 3):
        J[f'type[{n} typedefs]'] = (TR + 'tr_typename', lambda P, n=n: run_type(P, n))
    for n in list(J):
        if ' any ' not in n.replace('[', ' ') and n not in ('array dimensions[any number]', 'name[OS]', 'type[OS]', 'start of scope'):
            J[n] = J[n] + ('lists of the context (scopes, imports, exports) of the stated lengths',)
    return J


ASSUMES = [
    'names in one scope, type names of one module, import namespaces and module paths are pairwise different (duplicates are refused elsewhere)',
    'the lookup of a plain name through the stack of scopes: scopes of the stated small sizes (imports, exports, type names, the innermost scope: any length)',
    'as many module heads as modules, in the same order (they are built together)',
]
GROUPS = {'names': [''], 'form': ['array', 'declared'], 'linkage': ['name', 'declared', 'imported', 'exports', 'type']}
