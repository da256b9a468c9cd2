"""Contracts of the return rule (src/node_queries.rs, tr_func_decl).

leaves(b): every path through b ends in a return, a panic or never ends.
  body_returns(b) => leaves(b), and body_returns(b) holds for the bodies the
  language accepts.
breaks(b): a break in b leaves the loop or switch around b.
  has_break(b) <=> breaks(b).
A recursive call is replaced by the callee's contract: R(b) or H(b), an unknown
truth value of which the induction hypothesis is known."""
from .trproof import *
from . import trproof

NQ = 'node_queries::'


class Flow:
    def __init__(self, P, fn, lens=None, budget=60.0):
        self.P = P
        self.eng = eng = Engine(P, budget=budget)
        eng.lens = lens
        # an arbitrary case of a switch
        eng.arb = lambda q: z3.Int('J ' + q.p[0][1].name) if len(q.p) == 1 and q.p[0][0] == 's' and q.p[0][1].name.endswith('.cases') else None
        for f, nm in (('body_returns', 'R'), ('has_break', 'H')):
            if NQ + f in P.byname:
                eng.contracts[NQ + f] = self.c(nm)
            else:
                eng.missing = [NQ + f]
        self.top = fn

    def c(self, nm):
        def f(eng, st, args):
            return [(st, Bool(self.q(nm, strip(eng.load(st, args[0])))))]
        return f

    def q(self, nm, body):
        b = strip(body)
        return z3.Bool(f'{nm} {b.name}' if isinstance(b, Sym) else f'{nm} {k(b)}')

    # ---- the rules, over statement nodes
    def g(self, v, f, variant=None):
        return strip(self.eng.get(strip(v), f, variant))

    def isv(self, v, variant):
        v = strip(v)
        return self.eng.tag(v) == self.P.variant(v.t, variant)

    def opt(self, v, f, none):
        return z3.If(self.isv(v, 'Some'), f(self.g(v, '0', 'Some')), z3.BoolVal(none))

    def items(self, v):
        v = strip(v)
        if not v.concrete():
            raise Unsupported('list of unknown length')
        return v.items()

    def every(self, v, f, given):
        """f holds of every element. As a fact (given) it is used at the indexes
        the code looked at; as a goal it is shown at an arbitrary index."""
        v = strip(v)
        if v.concrete():
            return z3.And(*[f(x) for x in v.items()])
        ix = self.eng.indexes.get(k(v), []) + [self.eng.arb(v)] if given else [self.eng.arb(v)]
        n = I(self.eng.seqlen(v))
        return z3.And(*[z3.Implies(z3.And(i >= 0, i < n), f(self.eng.elem(v.p[0][1], i))) for i in ix])

    def named(self, e, name):
        n = self.g(e, '0', 'NsName')
        return z3.And(self.isv(e, 'NsName'), B(self.eng.streq(self.g(n, 'ns'), Str(()))), B(self.eng.streq(self.g(n, 'name'), Str((name,)))))

    def cases(self, f):
        """per kind of statement"""
        def h(s):
            out = []
            for kd in ('Return', 'If', 'Switch', 'While', 'For', 'Expression', 'Break'):
                r = f(kd, self.g(s, '0', kd) if kd != 'Break' else None)
                if r is not False:
                    out.append(z3.And(self.isv(s, kd), B(r)))
            return z3.Or(*out)
        return h

    def leaves(self, s, exact):
        """exact False: all that is sound, a goal; True: the forms the language accepts, given"""
        R, H = (lambda b: self.q('R', b)), (lambda b: self.q('H', b))

        def f(kd, x):
            if kd == 'Return':
                return True
            if kd == 'If':
                return z3.And(R(self.g(x, 'body')), self.opt(self.g(x, 'else_body'), R, False))
            if kd == 'Switch':
                d = self.g(x, 'default_case')
                cs = self.every(self.g(x, 'cases'), lambda c: z3.And(R(self.g(c, 'body')), z3.Not(H(self.g(c, 'body')))), exact)
                return z3.And(self.opt(d, R, False), z3.Not(self.opt(d, H, False)), cs)
            if kd == 'While':
                return z3.And(self.named(self.g(x, 'cond'), 'true'), z3.Not(H(self.g(x, 'body'))))
            if kd == 'For':
                return False if exact else z3.And(self.isv(self.g(x, 'condition'), 'None'), z3.Not(H(self.g(x, 'body'))))
            if kd == 'Expression':
                c = self.g(x, '0', 'Call')
                return z3.And(self.isv(x, 'Call'), self.named(self.g(c, 'func'), 'panic'))
            return False
        return self.cases(f)(s)

    def breaks(self, s, given=True):
        H = lambda b: self.q('H', b)

        def f(kd, x):
            if kd == 'Break':
                return True
            if kd == 'If':
                return z3.Or(H(self.g(x, 'body')), self.opt(self.g(x, 'else_body'), H, False))
            if kd == 'Switch':
                # a break in a switch leaves the switch; a string switch becomes ifs
                # some case breaks: given, at an arbitrary one; as a goal, at one the code found
                cs = z3.Not(self.every(self.g(x, 'cases'), lambda c: z3.Not(H(self.g(c, 'body'))), not given))
                return z3.And(self.g(x, 'is_str').e, z3.Or(self.opt(self.g(x, 'default_case'), H, False), cs))
            return False
        return self.cases(f)(s)


def run_returns(P, n, nc, noswitch=False):
    def ln(name):
        if name == 'b.statements':
            return n
        if name.endswith('.cases'):
            return nc
        return None
    fl = Flow(P, 'body_returns', ln)
    eng = fl.eng
    b = eng.make(P.type_named('nodes::Body'), 'b')
    st = State()
    ss = eng.get(b, 'statements')
    top = k(b)
    if noswitch:
        L0 = eng.seqlen(ss)
        e0 = eng.elem(ss.p[0][1], z3.simplify(I(L0) - 1))
        st.assume(z3.Implies(I(L0) > 0, eng.tag(e0) != P.variant(e0.t, 'Switch')))
    # the function itself is not called on its own argument
    c0 = eng.contracts.pop(NQ + 'body_returns')
    outs = None

    def guard(eng, st, args):
        if k(strip(eng.load(st, args[0]))) == top:
            raise Unsupported('recursion on the same body')
        return c0(eng, st, args)
    outs = run_top(eng, NQ + 'body_returns', guard, [SRef(b)], st)
    bad, m = [], 0
    for o in outs:
        m += 2
        if o.kind == 'panic':
            bad.append(f'body_returns panics: {o.why}')
            continue
        r = B(o.ret.e)
        if n is None:
            # a body that is not empty: its last statement is all that matters
            L = eng.seqlen(ss)
            last = eng.elem(ss.p[0][1], z3.simplify(I(L) - 1))
            ne = I(L) > 0
            if not eng.entails(o.state, z3.Implies(r, z3.And(ne, fl.leaves(last, False)))):
                raise Unsupported('not decided by the last statement')
            comp = z3.And(ne, fl.leaves(last, True))
        else:
            its = ss.items()
            sound = z3.Or(*[fl.leaves(s, False) for s in its]) if its else z3.BoolVal(False)
            comp = fl.leaves(its[-1], True) if its else z3.BoolVal(False)
            if not eng.entails(o.state, z3.Implies(r, sound)):
                bad.append(f'body_returns holds although the end can be reached; path: {pcs(o.state)}')
        if not eng.entails(o.state, z3.Implies(comp, r)):
            if nc is None:
                raise Unsupported('switches of any number of cases not decided')
            bad.append(f'body_returns does not hold for a body that always returns; path: {pcs(o.state)}')
    return m, bad, eng


def run_top(eng, fn, guard, args, st):
    """runs fn itself; calls of fn inside go through its contract"""
    eng.contracts[fn] = guard
    return eng.run(fn, args, st)


def run_breaks(P, n, nc, noswitch=False):
    def ln(name):
        if name == 'b.statements':
            return n
        if name.endswith('.cases'):
            return nc
        return None
    fl = Flow(P, 'has_break', ln)
    eng = fl.eng
    b = eng.make(P.type_named('nodes::Body'), 'b')
    st = State()
    ss = eng.get(b, 'statements')
    outs = eng.run(NQ + 'has_break', [SRef(b)], st)
    bad, m = [], 0
    for o in outs:
        m += 1
        if o.kind == 'panic':
            bad.append(f'has_break panics: {o.why}')
            continue
        r = B(o.ret.e)
        if n is None:
            # any statement: the search looks at every one of them
            info = eng.memo.get(('search', str(o.ret.e)))
            if not info or info[0] != 'any' or info[1].k != 'seq' or info[1].i != 0 or k(info[1].seq) != k(ss):
                raise Unsupported('not a search of the whole body')
            kind, base, idx, pred, revd = info
            e = eng.elem(ss.p[0][1], idx)
            s2 = o.state.copy().assume(z3.And(idx >= 0, idx < eng.seqlen(ss)))
            if noswitch:
                s2.assume(eng.tag(e) != P.variant(e.t, 'Switch'))
            if not eng.entails(s2, z3.And(z3.Implies(B(pred), fl.breaks(e, False)), z3.Implies(fl.breaks(e), B(pred)))):
                if nc is None:
                    raise Unsupported('switches of any number of cases not decided')
                bad.append(f'has_break judges a statement wrongly: {pcs(o.state)}')
            continue
        want = z3.Or(*[fl.breaks(s) for s in ss.items()]) if ss.items() else z3.BoolVal(False)
        if not eng.entails(o.state, r == want):
            bad.append(f'has_break {"misses a break" if eng.entails(o.state, z3.Not(r)) else "sees a break that is not there"}; path: {pcs(o.state)}')
    return m, bad, eng


def run_rule(P, np):
    """tr_func_decl refuses exactly the functions that must return and do not"""
    tr = Tr(P, lens=lens_of(list=np, forms=1), opaque=('node_queries::body_returns',))
    eng = tr.eng
    t = P.type_named('translator::TrCtx')
    tr.scopes_t = [f['t'] for f in eng.T[t]['v'][0]['f'] if f['n'] == 'scopes'][0]
    x = eng.make(P.type_named('nodes::FuncDecl'), 'f')
    st = State()
    cm, ctx0 = tr.context(st, lambda vt, bt: Seq((('e', Seq((('s', SymSeq('top', bt)),), vt)),), tr.scopes_t))
    for c in distinct(tr, [eng.get(f, 'name') for p in eng.get(eng.get(x, 'params'), 'list').items() for f in eng.get(p, 'forms').items()]):
        st.assume(c)
    R = z3.Bool(tr.name('node_queries::body_returns', (k(strip(eng.get(x, 'body'))),)))
    nm = eng.get(eng.get(x, 'typename'), 'name')
    void = z3.And(B(eng.streq(eng.get(nm, 'ns'), Str(()))), B(eng.streq(eng.get(nm, 'name'), Str(('void',)))),
                  I(eng.get(eng.get(x, 'form'), 'hops').e) == 0)
    bad, n = [], 0
    for o in eng.run(TR + 'tr_func_decl', [SRef(x), cm], st):
        n += 1
        if o.kind == 'panic':
            if not eng.feasible(o.state) or 'already defined' in o.why:
                continue
            bad.append(f'tr_func_decl panics: {o.why}')
            continue
        if ok_value(tr, o) is not None:
            if not eng.entails(o.state, z3.Or(R, void)):
                bad.append(f'a function with a result can run off its end; path: {pcs(o.state)}')
        elif not explained(tr, o):
            if not eng.entails(o.state, z3.And(z3.Not(R), z3.Not(void))):
                bad.append(f'a function that returns is refused; path: {pcs(o.state)}')
    return n, bad, eng


def jobs():
    J = {}
    BR, HB = NQ + 'body_returns', NQ + 'has_break'
    J['body_returns[any length, switches of any length]'] = (BR, lambda P: run_returns(P, None, None))
    J['has_break[any length, switches of any length]'] = (HB, lambda P: run_breaks(P, None, None))
    J['body_returns[any length, no switch at the end]'] = (BR, lambda P: run_returns(P, None, 0, True))
    J['has_break[any length, statements other than switches]'] = (HB, lambda P: run_breaks(P, None, 0, True))
    for nc in (0, 1, 2, 3):
        B_ = 'switches of at most 3 cases'
        J[f'body_returns[any length, {nc} cases]'] = (BR, lambda P, nc=nc: run_returns(P, None, nc), B_)
        J[f'has_break[any length, {nc} cases]'] = (HB, lambda P, nc=nc: run_breaks(P, None, nc), B_)
        for n in (0, 1, 2, 3):
            Bd = 'bodies of at most 3 statements, switches of at most 3 cases'
            J[f'body_returns[{n} statements, {nc} cases]'] = (BR, lambda P, n=n, nc=nc: run_returns(P, n, nc), Bd)
            J[f'has_break[{n} statements, {nc} cases]'] = (HB, lambda P, n=n, nc=nc: run_breaks(P, n, nc), Bd)
    for np in (0, 1, 2):
        J[f'return rule[{np} parameters]'] = (TR + 'tr_func_decl', lambda P, np=np: run_rule(P, np), 'at most 2 parameters')
    return J


ASSUMES = [
    'a call of panic never returns (decided in C11)',
    'the constant true is the only condition known to hold',
]
GROUPS = {'flow': ['']}
