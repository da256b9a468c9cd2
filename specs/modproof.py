"""Contracts of whole modules (src/translator.rs): what a module is made of, in
which order, what it exports to the modules that import it, and the helper
behind checked allocations.

get_module_synopsis(m): the exported elements of m, in order.
expand_imports(ctx):    the synopses of the imported modules, in order, every
                        declaration once.
reorder_elems(es):      es grouped (macros, forward structs, typedefs, structs
                        and enums, prototypes, variables, functions), stable, a
                        typedef or struct that is already there left out.
translate(m, params):   bindings for all module-level names are there before
                        the first element is translated; the result is the head
                        (headers, helper, imports) and then the translations of
                        the elements, in order; an unused name or import is
                        refused, nothing else."""
import itertools
from .nameproof import *
from . import nameproof

CM = 'c::ModElem'
GROUP = {'Include': 0, 'Macro': 0, 'ForwardStruct': 1, 'Typedef': 2, 'StuctDef': 3, 'DefEnum': 3, 'ForwardFunc': 4, 'VarDecl': 5, 'FuncDef': 6}
EXPORTED = {'Typedef': ('ispub', True), 'StuctDef': ('is_pub', True), 'ForwardFunc': ('is_static', False),
            'DefEnum': ('is_hidden', False)}


class MX(NX):
    def equal(self, a, b, what):
        """the same value, perhaps rebuilt"""
        self.n += 1
        if not self.eq(a, b):
            self.fail(f'{what}: {a!r} instead of {b!r}'[:400])

    def eq(self, a, b):
        a, b = strip(a), strip(b)
        if k(a) == k(b):
            return True
        eng = self.eng
        if isinstance(a, Str) and isinstance(b, Str):
            c = eng.streq(a, b)
            return c is True or (c is not False and eng.entails(self.st, c))
        if isinstance(a, (Int, Bool)) and isinstance(b, (Int, Bool)):
            return eng.entails(self.st, I(a.e) == I(b.e) if isinstance(a, Int) else B(a.e) == B(b.e))
        if isinstance(a, Seq) and isinstance(b, Seq):
            return len(a.p) == len(b.p) and all(p[0] == q[0] and (self.eq(p[1], q[1]) if p[0] == 'e' else p[1].name == q[1].name)
                                               for p, q in zip(a.p, b.p))
        if isinstance(a, (Adt, Sym)) and isinstance(b, (Adt, Sym)) and a.t == b.t and (isinstance(a, Adt) or isinstance(b, Adt)):
            va = self.variant(a)
            if va != self.variant(b):
                return False
            i = self.P.variant(a.t, va) if len(eng.T[a.t]['v']) > 1 else 0
            return all(self.eq(eng.get(a, f['n'], va), eng.get(b, f['n'], va)) for f in eng.T[a.t]['v'][i]['f'])
        return False

    def payload(self, e):
        return self.g(e, '0', self.variant(e))

    def exports(self, e):
        v = self.variant(e)
        if v == 'Macro':
            return True
        if v not in EXPORTED:
            return False
        f, want = EXPORTED[v]
        return self.flag(self.g(self.payload(e), f)) == want

    def ident(self, e):
        """what a declaration declares"""
        v = self.variant(e)
        x = self.payload(e)
        if v == 'DefEnum':
            return v, [self.g(m, 'id') for m in self.g(x, 'entries').items()]
        if v == 'Macro':
            return v, [self.g(x, 'value')]
        if v == 'Typedef':
            return v, [self.g(self.g(x, 'form'), 'alias')]
        if v == 'StuctDef':
            return v, [self.g(x, 'name')]
        if v == 'ForwardFunc':
            return v, [self.g(self.g(x, 'form'), 'name')]
        return v, [x]

    def twice(self, a, b):
        (va, ia), (vb, ib) = self.ident(a), self.ident(b)
        return va == vb and len(ia) == len(ib) and all(self.eqs(p, q) for p, q in zip(ia, ib))


def ln_of(d):
    def f(name):
        for suf, n in d.items():
            if name.endswith(suf):
                return n
        return None
    return f


def value(tr, fn, args, st, rule, any_ok=False, panics=None):
    """a function that returns a plain value; rule(x, v) checks it"""
    eng = tr.eng
    bad, n, oks = [], 0, 0
    for o in eng.run(fn, args, st):
        n += 1
        if o.kind == 'panic':
            if not eng.feasible(o.state) or (panics and panics in o.why):
                continue
            bad.append(f'{fn} panics: {o.why}; path: {pcs(o.state)}')
            continue

        def one(s):
            x = MX(tr, s, None)
            rule(x, strip(o.ret))
            return x.total
        try:
            n += settle(tr, o.state, one)
            oks += 1
        except Bad as e:
            bad.append(f'{fn}: {e}; path: {pcs(o.state)}')
        if len(bad) > 3:
            break
    if not oks and not bad:
        raise Unsupported('no outcome')
    return n, bad, eng


def plain_tr(P, lens, opaque=(), no=()):
    tr = N(P, lens=lens, opaque=opaque, no=no)
    tr.eng.missing = [f for f in opaque if not (f in P.byname and f in P.called())]
    return tr


def pick(tr, st, e, kinds):
    st.assume(z3.Or(*[tr.eng.tag(e) == tr.P.variant(e.t, v) for v in kinds]))


# ---------------------------------------------------------------- synopsis
def run_synopsis(P, n):
    fn = TR + 'get_module_synopsis'
    tr = plain_tr(P, ln_of({'m.elements': n}))
    eng = tr.eng
    m = eng.make(P.type_named('c::CModule'), 'm')
    es = eng.get(m, 'elements')

    def rule(x, v):
        if n is None:
            def one(parts, item, head, back):
                x.list(Seq(parts), [item] if x.exports(item) else [], lambda a, b: x.equal(a, b, 'element'), 'exported element')
            return x.seg(v, es.p[0][1], one, 'synopsis')
        want = [e for e in es.items() if x.exports(e)]
        x.list(v, want, lambda a, b: x.equal(a, b, 'element'), 'synopsis')
    return value(tr, fn, [SRef(m)], State(), rule)


# ---------------------------------------------------------------- order
FORMATS = ('format_c::format_typedef', 'format_c::format_compat_struct_definition')


def run_reorder(P, kinds):
    fn = TR + 'reorder_elems'
    n = len(kinds)
    tr = plain_tr(P, None, opaque=FORMATS)
    eng = tr.eng
    t = P.type_named(CM)
    st = State()
    es = [eng.make(t, f'e{i}') for i in range(n)]
    for e, kd in zip(es, kinds):
        if kd:
            pick(tr, st, e, kd)
    arg = Seq([('e', e) for e in es], P.fn(fn)['locals'][1])

    def text(x, e):
        v = x.variant(e)
        f = FORMATS[0] if v == 'Typedef' else FORMATS[1]
        return eng.make(tr.ret_type(f), tr.name(f, (k(x.payload(e)),)))

    def rule(x, v):
        keep = []
        for e in es:
            if x.variant(e) in ('Typedef', 'StuctDef') and any(
                    x.variant(q) in ('Typedef', 'StuctDef') and x.eqs(text(x, e), text(x, q)) for q in keep):
                continue
            keep.append(e)
        want = sorted(keep, key=lambda e: GROUP[x.variant(e)])
        x.list(v, want, lambda a, b: x.equal(a, b, 'element'), 'elements')
    return value(tr, fn, [arg], st, rule)


# ---------------------------------------------------------------- imports
def run_expand(P, nimp, nel, nen=1, kinds=list(EXPORTED) + ['Macro']):
    """nimp imports of nimp+1 modules, nel elements in each synopsis"""
    fn = TR + 'expand_imports'
    lens = {'this_mod_head.imports': nimp, 'all_mod_heads': nimp + 1, 'ctx.cmods': nimp + 1, '.entries': nen}
    GS = TR + 'get_module_synopsis'
    if GS not in P.byname or GS not in P.called():
        raise Unsupported('no ' + GS)
    tr, eng, st, cm, ctx0 = prep(P, (), lens, ())
    eng.missing = []
    eng.joined = True
    rt = tr.ret_type(GS)
    et = eng.T[rt]['args'][0]

    def synopsis(m):
        nm = tr.name('synopsis', (k(strip(m)),))
        return Seq([('e', eng.make(et, f'{nm}.{i}')) for i in range(nel)], rt)
    made = {}

    def contract(eng, st, args):
        s = synopsis(eng.load(st, args[0]))
        for p in s.p:
            pick(tr, st, p[1], kinds)
        return [(st, s)]
    eng.contracts[GS] = contract
    imps = eng.get(eng.get(ctx0, 'this_mod_head'), 'imports').items()
    heads = eng.get(ctx0, 'all_mod_heads').items()
    cmods = eng.get(ctx0, 'cmods').items()
    # every import is a module of the project
    for i in imps:
        st.assume(z3.Or(*[B(eng.streq(eng.get(h, 'filepath'), eng.get(i, 'path'))) for h in heads]))

    def rule(x, v):
        want = []
        for i in imps:
            at = [j for j, h in enumerate(heads) if x.eqs(x.g(h, 'filepath'), x.g(i, 'path'))][0]
            for p in synopsis(cmods[at]).p:
                e = p[1]
                if any(x.variant(q) == x.variant(e) and x.twice(q, e) for q in want):
                    continue
                want.append(e)
        # declarations of different kinds have different names
        for a, b in itertools.combinations(want, 2):
            if x.variant(a) != x.variant(b) and 'DefEnum' not in (x.variant(a), x.variant(b)):
                if x.eqs(x.ident(a)[1][0], x.ident(b)[1][0]):
                    return
        x.list(v, want, lambda a, b: x.equal(a, b, 'element'), 'imported elements')
    return value(tr, fn, [SRef(ctx0)], st, rule)


# ---------------------------------------------------------------- checked allocation
class Stop(Exception):
    pass


def lit(v):
    v = strip(v)
    if not isinstance(v, Str) or v.lit() is None:
        raise Unsupported(f'text {v!r}'[:80])
    return v.lit()


class CEval:
    """runs a small piece of C of which the syntax tree is known; calloc gives
    NULL or memory"""

    def __init__(self, tr, null):
        self.tr, self.eng, self.P = tr, tr.eng, tr.P
        self.null = null
        self.env = {}
        self.errors = []
        self.calls = []

    def g(self, v, f, variant=None):
        return strip(self.eng.get(strip(v), f, variant))

    def variant(self, v):
        v = strip(v)
        if not isinstance(v, Adt):
            raise Unsupported('unknown node')
        return self.eng.T[v.t]['v'][v.v]['n']

    def body(self, b):
        for s in self.g(b, 'statements').items():
            self.stmt(s)

    def stmt(self, s):
        v = self.variant(s)
        if v == 'VarDecl':
            for f, x in zip(self.g(s, 'forms', v).items(), self.g(s, 'values', v).items()):
                self.env[lit(self.g(f, 'name'))] = self.expr(self.g(x, '0', 'Some')) if self.variant(x) == 'Some' else None
        elif v == 'Expression':
            self.expr(self.g(s, '0', v))
        elif v == 'If':
            if self.expr(self.g(s, 'condition', v)):
                self.body(self.g(s, 'body', v))
            else:
                e = self.g(s, 'else_body', v)
                if self.variant(e) == 'Some':
                    self.body(self.g(e, '0', 'Some'))
        elif v == 'Return':
            e = self.g(s, 'expression', v)
            raise Stop('return', self.expr(self.g(e, '0', 'Some')) if self.variant(e) == 'Some' else None)
        elif v == 'Block':
            for t in self.g(s, 'statements', v).items():
                self.stmt(t)
        else:
            raise Unsupported('statement ' + v)

    def expr(self, e):
        v = self.variant(e)
        if v == 'Ident':
            n = lit(self.g(e, '0', v))
            if n in self.env:
                return self.env[n]
            if n == 'NULL':
                return 0
            if n == 'stderr':
                return 'stderr'
            if n == 'EXIT_FAILURE':
                return 1
            raise Unsupported('name ' + n)
        if v == 'Literal':
            x = self.g(e, '0', v)
            w = self.variant(x)
            if w == 'Null':
                return 0
            t = lit(self.g(x, '0', w))
            return int(t) if w == 'Number' else t
        if v == 'PrefixOp':
            if lit(self.g(e, 'operator', v)) == '!':
                return int(not self.expr(self.g(e, 'operand', v)))
            raise Unsupported('operator')
        if v == 'BinaryOp':
            b = self.g(e, '0', v)
            op, x, y = lit(self.g(b, 'op')), self.expr(self.g(b, 'a')), self.expr(self.g(b, 'b'))
            if op in ('==', '!='):
                return int((x == y) == (op == '=='))
            raise Unsupported('operator ' + op)
        if v == 'Call':
            f = lit(self.g(self.g(e, 'func', v), '0', 'Ident'))
            args = [self.expr(a) for a in self.g(e, 'args', v).items()]
            self.calls.append((f, args))
            if f == 'calloc':
                if sorted(map(str, args)) != ['size of one', 'number']  and sorted(map(str, args)) != ['number', 'size of one']:
                    raise Bad(f'calloc is called with {args}')
                return 0 if self.null else 'memory'
            if f == 'exit':
                raise Stop('exit', args[0])
            if f in ('fprintf', 'fputs', 'puts', 'perror', 'fflush'):
                return 0
            raise Unsupported('call of ' + f)
        raise Unsupported('expression ' + v)


def helper_checks(tr, m):
    """m: the module element of the helper"""
    m = strip(m)
    ev = CEval(tr, False)
    if ev.variant(m) != 'FuncDef':
        raise Bad('the helper of checked allocations is not a function')
    d = ev.g(m, '0', 'FuncDef')
    n = 0
    if lit(ev.g(ev.g(d, 'form'), 'name')) != 'calloc_or_panic':
        raise Bad('name of the helper')
    if lit(ev.g(ev.g(d, 'form'), 'stars')) != '*' or lit(ev.g(ev.g(d, 'type_name'), 'name')) != 'void':
        raise Bad('result type of the helper')
    if strip(ev.g(d, 'is_static')).e is not True:
        raise Bad('the helper is visible to other modules')
    ps = ev.g(ev.g(d, 'parameters'), 'list').items()
    if len(ps) != 2 or any(lit(ev.g(ev.g(p, 'type_name'), 'name')) != 'size_t' or lit(ev.g(ev.g(p, 'form'), 'stars')) != '' for p in ps):
        raise Bad('parameters of the helper')
    if strip(ev.g(ev.g(d, 'parameters'), 'variadic')).e is not False:
        raise Bad('the helper is variadic')
    n += 6
    for null in (True, False):
        ev = CEval(tr, null)
        for p, w in zip(ps, ('number', 'size of one')):
            ev.env[lit(ev.g(ev.g(p, 'form'), 'name'))] = w
        try:
            ev.body(ev.g(d, 'body'))
            r = ('return', None)
        except Stop as s:
            r = s.args
        n += 1
        if not null and r != ('return', 'memory'):
            raise Bad(f'allocated memory is not returned: {r}')
        if null and r != ('exit', 1):
            raise Bad(f'a failed allocation does not stop the program with status 1: {r}')
    return n


def run_helper(P):
    fn = TR + 'mk_calloc_or_panic'
    if fn not in P.byname:
        raise Unsupported('no ' + fn)
    tr = plain_tr(P, None)
    n, bad = 0, []
    for o in tr.eng.run(fn, [], State()):
        if o.kind == 'panic':
            bad.append(f'{fn} panics')
            continue
        try:
            n += helper_checks(tr, o.ret)
        except Bad as e:
            bad.append(str(e))
    return n, bad, tr.eng


# ---------------------------------------------------------------- translate
NEL = 'nodes::ModElem'
DEFINES = {'number': ' LIMIT 12\n', 'text': ' LIMIT "a"\n', 'name': ' LIMIT other\n'}


class Module:
    """translate() on a module of a few elements"""

    def __init__(self, P, kinds, nimp, customs=None):
        self.P = P
        fixed = {}
        self.defs = {}
        kinds = [kd.split(':') for kd in kinds]
        for i, kd in enumerate(kinds):
            if kd[0] == 'Macro':
                fixed[f'm.elements[{i}].Macro.0.name'] = Str((kd[1],))
                if kd[1] == 'define':
                    fixed[f'm.elements[{i}].Macro.0.value'] = Str((DEFINES[kd[2]].replace('LIMIT', f'LIMIT{i}'),))
        nent = 2 if len(kinds) == 1 else 1
        lens = ln_of({'m.elements': len(kinds), '.entries': nent, 'this_mod_head.imports': nimp})
        self.tr = tr = N(P, lens=lens, fixed=fixed, opaque=(TR + 'expand_imports', TR + 'is_numeric'))
        self.eng = eng = tr.eng
        eng.missing = []
        for f in ('expand_imports', 'reorder_elems', 'tr_mod_elem', 'mk_calloc_or_panic'):
            if not tr.has(TR + f):
                raise Unsupported('no ' + f)
        eng.missing = []
        if TR + 'is_numeric' in eng.contracts:
            eng.contracts[TR + 'is_numeric'] = lambda eng, st, args: [(st, Bool(numeric(lit(eng.load(st, args[0])))))]
        eng.contracts[TR + 'reorder_elems'] = lambda eng, st, args: [(st, args[0])]
        ct = P.type_named(CM)
        self.helper = eng.make(ct, 'HELPER')
        eng.contracts[TR + 'mk_calloc_or_panic'] = lambda eng, st, args: [(st, self.helper)]
        self.customs = customs
        self.mrt = tr.ret_type(TR + 'tr_mod_elem')
        eng.contracts[TR + 'tr_mod_elem'] = self.elem_contract
        xt = tr.ret_type(TR + 'expand_imports')
        self.imported = Seq([('e', eng.make(ct, f'IMP{i}')) for i in range(2)], xt)
        eng.contracts[TR + 'expand_imports'] = self.expand_contract
        self.m = eng.make(P.type_named('nodes::Module'), 'm')
        self.p = eng.make(P.type_named('translator::TrParams'), 'p')
        self.els = eng.get(self.m, 'elements').items()
        self.imps = eng.get(eng.get(self.p, 'this_mod_head'), 'imports').items()
        self.st = State()
        for e, kd in zip(self.els, kinds):
            pick(tr, self.st, e, [kd[0]])
        self.kinds = kinds
        names = self.names(None)
        for c in distinct(tr, [b[0] for b in names]):
            self.st.assume(c)
        for c in distinct(tr, [eng.get(i, 'ns') for i in self.imps]):
            self.st.assume(c)
        tn = {'StructTypedef': 'name', 'StructAlias': 'typename', 'Typedef': 'alias'}
        for c in distinct(tr, [eng.get(eng.get(e, '0', kd[0]), tn[kd[0]]) for e, kd in zip(self.els, kinds) if kd[0] in tn]):
            self.st.assume(c)

    def names(self, x):
        """the bindings of the module: (name, exported, type)"""
        eng, tr = self.eng, self.tr
        out = []
        for i, (e, kd) in enumerate(zip(self.els, self.kinds)):
            n = strip(eng.get(e, '0', kd[0]))
            if kd[0] == 'Macro' and kd[1] == 'define':
                out.append((Str((f'LIMIT{i}',)), False, 'number' if kd[2] == 'number' else 'todo', n))
            elif kd[0] == 'Enum':
                for en in eng.get(n, 'entries').items():
                    out.append((eng.get(en, 'name'), eng.get(n, 'is_pub').e, 'number', n))
            elif kd[0] == 'ModVar':
                f = strip(eng.get(n, 'form'))
                out.append((eng.get(f, 'name'), False, ('typefrom_typename', strip(eng.get(n, 'typename')), f), n))
            elif kd[0] == 'FuncDecl':
                f = strip(eng.get(n, 'form'))
                out.append((eng.get(f, 'name'), OR(eng.get(n, 'ispub').e, eng.streq(strip(eng.get(f, 'name')), Str(('main',)))),
                            ('typefrom_funcdecl', n), n))
        return out

    def elems(self, src):
        nm = self.tr.name('M', (k(strip(src)),))
        t = self.eng.T[self.mrt]['v'][self.P.variant(self.mrt, 'Ok')]['f'][0]['t']
        et = self.eng.T[t]['args'][0]
        return nm, Seq([('e', self.eng.make(et, f'{nm}.{i}')) for i in range(2)], t)

    def elem_contract(self, eng, st, args):
        tr = self.tr
        src, cm = None, None
        for a in args:
            v = eng.load(st, a)
            if isinstance(v, Adt) and tr.isctx(v):
                cm = a
            else:
                src = strip(v)
        ctx = eng.load(st, cm)
        try:
            if 'bad' not in st.ghost:
                settle(tr, st, lambda s: self.ready(MX(tr, s, ctx), ctx))
        except Bad as e:
            st.ghost['bad'] = str(e)
        nm, v = self.elems(src)
        tr.touch(st, cm, nm)
        if self.customs is not None:
            c2 = eng.load(st, cm)
            fi = self.P.field(c2.t, 0, 'used_customs')
            c2 = eng.setchild(c2, 0, fi, eng.get(c2, 'used_customs').with_(ins=self.customs))
            eng.store(st, cm, c2)
        st.ghost['order'] = st.ghost.get('order', ()) + (nm,)
        st.ghost['ctx'] = eng.load(st, cm)
        return tr.fork(st, TR + 'tr_mod_elem', self.mrt, nm, v)

    def expand_contract(self, eng, st, args):
        ctx = strip(eng.load(st, args[0]))
        try:
            if 'bad' not in st.ghost:
                settle(self.tr, st, lambda s: self.same_world(MX(self.tr, s, ctx), ctx))
        except Bad as e:
            st.ghost['bad'] = str(e)
        return [(st, self.imported)]

    def same_world(self, x, ctx):
        for f in ('this_mod_head', 'all_mod_heads', 'cmods', 'mods'):
            x.equal(x.g(ctx, f), x.g(self.p, f), f)
        return x.n

    def ready(self, x, ctx):
        """the context in which an element is translated"""
        tr, eng = self.tr, self.eng
        self.same_world(x, ctx)
        sc = x.g(ctx, 'scopes')
        if not sc.concrete() or len(sc.items()) != 1:
            x.fail('module elements are not translated in the module scope')
        got = strip(sc.items()[0]).items()
        want = self.names(x)
        if len(got) != len(want):
            x.fail(f'{len(got)} names in the module scope instead of {len(want)}')
        for g, (nm, pub, typ, n) in zip(got, want):
            x.str(x.g(g, 'name'), nm, 'name in the module scope')
            x.bool(x.g(g, 'ispub'), pub, 'exported')
            if isinstance(typ, str):
                b = x.g(x.g(g, 'typ'), 'base')
                x.str(x.g(b, 'name'), {'number': 'number', 'todo': '*** TODO *** '}[typ], 'type of a constant')
            else:
                x.same(x.g(g, 'typ'), x.typ(*typ), 'type of a name')
        # the types of the module
        for e, kd in zip(self.els, self.kinds):
            n = strip(eng.get(e, '0', kd[0]))
            if kd[0] == 'StructTypedef':
                self.entry(x, x.g(ctx, 'struct_typedefs'), x.g(n, 'name'), lambda v: x.equal(v, n, 'recorded struct'))
            if kd[0] == 'StructAlias':
                self.entry(x, x.g(ctx, 'other_typedefs'), x.g(n, 'typename'),
                           lambda v: x.bool(x.g(v, 'is_pub'), x.g(n, 'ispub'), 'exported type'))
            if kd[0] == 'Typedef':
                def f(v):
                    x.bool(x.g(v, 'is_pub'), x.g(n, 'ispub'), 'exported type')
                    t = x.g(v, 't')
                    want = [tr.name(TR + 'root_type', (k(x.typ('typefrom_typedef', n)),))]
                    if not (isinstance(t, Sym) and t.name in want):
                        x.fail(f'recorded type {t!r}')
                self.entry(x, x.g(ctx, 'other_typedefs'), x.g(n, 'alias'), f)
        return x.n

    def entry(self, x, m, key, f):
        """the last entry of the map for the key"""
        x.n += 1
        if m.base is not None:
            x.fail('types from elsewhere')
        for kk, v in reversed(m.ins):
            if x.eqs(strip(kk), strip(key)):
                return f(strip(v))
        x.fail('a type of the module is not recorded')

    def has(self, m, key):
        cs = [z3.Bool(f'in({m.base},{k(strip(key))})')] if m.base is not None else []
        cs += [B(self.eng.streq(strip(i), strip(key))) for i in m.ins]
        return z3.Or(*cs) if cs else z3.BoolVal(False)

    def reasons(self, st):
        """why the module has to be refused"""
        ctx = st.ghost.get('ctx')
        out = []
        if ctx is None:
            return [z3.BoolVal(True)] * (len(self.imps) > 0)
        for b in strip(self.eng.get(ctx, 'scopes').items()[0]).items():
            out.append(z3.And(z3.Not(B(self.eng.get(b, 'ispub').e)), z3.Not(B(self.eng.get(b, 'used').e))))
        ns = self.eng.get(ctx, 'used_ns')
        for i in self.imps:
            out.append(z3.Not(self.has(ns, self.eng.get(i, 'ns'))))
        return out

    def head(self, x, es):
        """splits the elements into those of the head and the rest"""
        eng = self.eng
        n = 2 * len(self.els)
        hd, body = es[:len(es) - n], es[len(es) - n:]
        want = [e[1] for s in self.els for e in self.elems(s)[1].p]
        x.list(Seq([('e', b) for b in body]), want, lambda a, b: x.same(a, b, 'element'), 'elements')
        inc, mac, rest = [], [], []
        for i, e in enumerate(hd):
            e = strip(e)
            if isinstance(e, Adt):
                v = x.variant(e)
                if v == 'Include':
                    inc.append((i, lit(x.payload(e))))
                elif v == 'Macro':
                    mac.append((i, lit(x.g(x.payload(e), 'name')), lit(x.g(x.payload(e), 'value'))))
                else:
                    x.fail(f'{v} in the head')
            else:
                rest.append(e)
        have = [t for _, t in inc]
        for h in ('assert', 'ctype', 'errno', 'limits', 'math', 'stdarg', 'stdbool', 'stddef', 'stdint', 'stdio', 'stdlib', 'string',
                  'time', 'setjmp', 'signal'):
            if f'<{h}.h>' not in have:
                x.fail(f'no {h}.h')
        if not any(v.startswith('nelem(x)') for _, _, v in mac):
            x.fail('no nelem')
        px = [i for i, _, v in mac if v.startswith('_XOPEN_SOURCE')]
        if not px or px[0] > inc[0][0]:
            x.fail('the feature macro does not come first')
        x.n += 18
        return rest

    def run(self):
        tr, eng = self.tr, self.eng
        fn = TR + 'translate'
        bad, n, oks = [], 0, 0
        for o in eng.run(fn, [SRef(self.m), SRef(self.p)], self.st):
            n += 1
            g = o.state.ghost
            if o.kind == 'panic':
                if not eng.feasible(o.state) or 'already defined' in o.why:
                    continue
                bad.append(f'{fn} panics: {o.why}; path: {pcs(o.state)}')
                continue
            if 'bad' in g:
                bad.append(f"{fn}: {g['bad']}; path: {pcs(o.state)}")
                continue
            v = ok_value(tr, o)
            why = self.reasons(o.state)
            if v is None:
                if g.get('err'):
                    continue
                if len(g.get('order', ())) != len(self.els) or not eng.entails(o.state, z3.Or(*why) if why else z3.BoolVal(False)):
                    bad.append(f'{fn} refuses a module in which every name is used; path: {pcs(o.state)}')
                continue
            oks += 1
            if g.get('err'):
                bad.append(f'{fn} accepts a module with an element that is refused')
                continue
            if why and not eng.entails(o.state, z3.Not(z3.Or(*why))):
                bad.append(f'{fn} accepts a module with an unused name or import; path: {pcs(o.state)}')
                continue

            def one(s):
                x = MX(tr, s, None)
                es = x.g(v, 'elements').items()
                rest = self.head(x, es)
                want = [p[1] for p in self.imported.p]
                if self.customs is not None:
                    x.n += 1
                    if not any(k(e) == k(self.helper) for e in rest):
                        x.fail('no helper in a module with a checked allocation')
                rest = [e for e in rest if k(e) != k(self.helper)]
                x.list(Seq([('e', r) for r in rest]), want, lambda a, b: x.same(a, b, 'imported element'), 'imported elements')
                links = [x.g(x.g(e, '0', 'Macro'), 'value') for e, kd in zip(self.els, self.kinds) if kd[:2] == ['Macro', 'link']]
                x.list(x.g(v, 'link'), links, lambda a, b: x.str(a, b, 'library'), 'libraries')
                return x.n
            try:
                n += settle(tr, o.state, one)
            except Bad as e:
                bad.append(f'{fn}: {e}; path: {pcs(o.state)}')
            if len(bad) > 3:
                break
        if not oks and not bad and (self.els or not self.imps):
            bad.append(f'{fn} never succeeds')
        return n, bad, eng


def numeric(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def run_translate(P, kinds, nimp):
    return Module(P, kinds, nimp).run()


def customs_of(P):
    """the marks that every translation of a checked allocation leaves"""
    tr = Tr(P, lens=lens_of(args=1))
    eng = tr.eng
    e = eng.make(P.type_named('nodes::Expr'), 'e')
    st = State()
    st.assume(eng.tag(e) == P.variant(e.t, 'Call'))
    f = strip(eng.get(eng.get(e, '0', 'Call'), 'func'))
    st.assume(eng.tag(f) == P.variant(f.t, 'NsName'))
    nn = eng.get(f, '0', 'NsName')
    st.assume(B(eng.streq(strip(eng.get(nn, 'ns')), Str(()))))
    st.assume(B(eng.streq(strip(eng.get(nn, 'name')), Str(('calloc!',)))))
    cm, ctx0 = tr.context(st)
    marks = None
    n = 0
    for o in eng.run(TR + 'tr_expr', [SRef(e), cm], st):
        if o.kind == 'panic' or ok_value(tr, o) is None:
            continue
        n += 1
        s = {lit(i) for i in eng.get(eng.load(o.state, cm), 'used_customs').ins}
        marks = s if marks is None else marks & s
    return n, marks or set()


def run_customs(P):
    n, marks = customs_of(P)
    m = Module(P, ['FuncDecl'], 0, customs=tuple(Str((x,)) for x in sorted(marks)))
    n2, bad, eng = m.run()
    return n + n2, bad, eng


ALLC = list(GROUP)


def jobs():
    J = {}
    S = TR + 'get_module_synopsis'
    J['synopsis[any length]'] = (S, lambda P: run_synopsis(P, None))
    for n in (0, 1, 2):
        J[f'synopsis[{n} elements]'] = (S, lambda P, n=n: run_synopsis(P, n), 'modules of at most 2 elements')
    R = TR + 'reorder_elems'
    Rb = 'modules of at most 3 elements'
    for n in (0, 1, 2):
        J[f'order[{n} elements]'] = (R, lambda P, n=n: run_reorder(P, [None] * n), Rb)
    for v in ALLC:
        J[f'order[{v} and 2 elements]'] = (R, lambda P, v=v: run_reorder(P, [[v], None, None]), Rb)
    X_ = TR + 'expand_imports'
    for i, e, en in ((0, 0, 1), (1, 1, 0), (1, 2, 1), (2, 1, 1), (1, 2, 2), (2, 1, 2)):
        J[f'imports[{i} modules, {e} elements, {en} constants]'] = (X_, lambda P, i=i, e=e, en=en: run_expand(P, i, e, en), 'at most 2 imports with 2 declarations')
    for vs in itertools.combinations(('ForwardFunc', 'Typedef', 'StuctDef', 'Macro', 'DefEnum'), 2):
        J[f'imports[3 elements of {vs}]'] = (X_, lambda P, vs=vs: run_expand(P, 1, 3, 1, vs), 'at most 2 imports or 3 declarations')
    J['checked allocation'] = (TR + 'mk_calloc_or_panic', run_helper)
    T_ = TR + 'translate'
    KS = ['Typedef', 'StructAlias', 'StructTypedef', 'FuncDecl', 'Enum', 'ModVar', 'Macro:link', 'Macro:type', 'Macro:include',
          'Macro:define:number', 'Macro:define:text', 'Macro:define:name']
    Tb = 'modules of at most 2 elements and 2 imports'
    for ni in (0, 1, 2):
        J[f'module[empty, {ni} imports]'] = (T_, lambda P, ni=ni: run_translate(P, [], ni), Tb)
    for kd in KS:
        J[f'module[{kd}, 1 import]'] = (T_, lambda P, kd=kd: run_translate(P, [kd], 1), Tb)
    for a, b in itertools.product(['FuncDecl', 'Enum', 'ModVar', 'Typedef', 'Macro:link', 'Macro:define:number', 'StructTypedef'], repeat=2):
        J[f'module[{a}, {b}]'] = (T_, lambda P, a=a, b=b: run_translate(P, [a, b], 0), Tb)
    J['module with a checked allocation'] = (T_, run_customs)
    return J


ASSUMES = [
    'declarations of different kinds have different identities; names contain no separator character',
    'every import of a module is a module of the project (contract of the loader, C08)',
    'calloc returns NULL or zeroed memory; fprintf and exit behave as in ISO C',
]
GROUPS = {'module': ['module['], 'export': ['synopsis', 'imports'], 'order': ['order'], 'calloc': ['checked allocation', 'module with']}
