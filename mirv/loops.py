"""Loops. A loop over known data is unrolled; a loop over unknown data is
replaced by an inductive summary: the body is run once from a generic state in
which everything the body changes is unknown, text and vectors being 'what was
there plus what the earlier iterations appended'. The appended text of one
generic iteration is what the accumulated text is then known to consist of."""
import z3
from .engine import *


class Fold:
    """the text/vector accumulated by a loop: init ++ step(0) ++ ... """
    __slots__ = ('init', 'steps', 'iters', 'ivars', 'loopid', 'ok', 'exhausted', 'its', 'head', 'backs', 'npc')

    def __init__(self, init, loopid):
        self.init = init
        self.steps = []       # list of (path condition of the step, appended parts)
        self.iters = []
        self.ivars = []
        self.loopid = loopid
        self.ok = True
        self.its = []         # (sequence, index variable, first index) of the iterators that advance
        self.head = None      # generic state at the loop head
        self.backs = []       # states after one generic iteration, in the order of steps
        self.npc = 0

    def __repr__(self):
        return f'Fold({self.init}, {self.steps})'


def find_iters(eng, st, fr, blocks):
    """values of the iterators advanced by this loop but not by a loop inside it"""
    f = fr.f
    loops = eng.P.loops(f)
    inner = set()
    for h, b in loops.items():
        if h in blocks and b < blocks:
            inner |= b
    found = []
    for bi in blocks:
        if bi in inner:
            continue
        t = f['blocks'][bi]['t']
        if isinstance(t, dict) and 'call' in t and 'const' in t['call']:
            d = t['call']['const'].get('def')
            if d == 'std::iter::Iterator::next':
                arg = t['args'][0]
                pl = arg.get('mv') or arg.get('cp')
                l = pl[0]
                # the temp is assigned &mut iter (perhaps reborrowed) in the loop
                for _ in range(6):
                    src = None
                    for b2 in blocks:
                        for s in f['blocks'][b2]['s']:
                            if 'p' in s and s['p'][0] == l and not s['p'][1]:
                                if 'ref' in s['r']:
                                    src = s['r']['ref']
                                elif 'use' in s['r']:
                                    u = s['r']['use']
                                    src = u.get('mv') or u.get('cp')
                    if src is None:
                        break
                    if src[1] in ([], ['deref']) and fr.locals[src[0]] is None and src[0] != l:
                        l = src[0]
                        continue
                    found.append(src)
                    break
    vals = []
    for pl in found:
        v = fr.locals[pl[0]]
        if v is None:
            return None
        try:
            v = eng.read(st, fr, pl)
            while isinstance(v, MRef):
                v = eng.load(st, v)
            vals.append(eng.itval(st=st, eng=eng, v=v) if not (isinstance(v, Op) and v.kind == 'it') else v)
        except Unsupported:
            return None
    return vals


def enter(eng, st, hd, blocks):
    fr = st.frames[-1]
    vals = find_iters(eng, st, fr, blocks)
    if vals:
        if all(eng.concrete_it(v) for v in vals):
            fr.iters = {h: n for h, n in fr.iters.items() if h != hd}
            return None
        if eng.unroll is not None:
            fr.iters = {**fr.iters, hd: 0}
            return None
        return summarise(eng, st, hd, blocks)
    # no iterator: one concrete trial step
    hook = eng.loop_hooks.get('force')
    if hook and eng.unroll is not None and hook(eng, st, fr):
        fr.iters = {**fr.iters, hd: 0}
        return None
    if not (hook and hook(eng, st, fr)):
        if concrete_guard(eng, st, hd, blocks):
            return None
        if eng.unroll is not None:
            fr.iters = {**fr.iters, hd: 0}
            return None
        try:
            s0 = st.copy()
            backs, exits, outs = eng.explore(s0, (fr.uid, hd, blocks))
            if len(backs) + len(exits) + len(outs) == 1 and len((backs + exits + [o.state for o in outs])[0].pc) == len(st.pc):
                return None
        except Unsupported:
            pass
    return summarise(eng, st, hd, blocks)


def concrete_guard(eng, st, hd, blocks):
    """is the loop's first test decided by known data?"""
    s = st.copy()
    uid = s.frames[-1].uid
    s.frames[-1].inloop = s.frames[-1].inloop + (hd,)
    try:
        for _ in range(200):
            fr = s.frames[-1]
            t = fr.f['blocks'][fr.bb]['t']
            nxt, outs = eng.block(s)
            if fr.uid == uid and isinstance(t, dict) and 'switch' in t:
                tg = [x for _, x in t['br']] + [t['else']]
                if any(x not in blocks for x in tg):
                    v = eng.operand(s if s.frames and s.frames[-1] is fr else st, fr, t['switch']).e
                    return isinstance(v, (bool, int))
            if len(nxt) != 1 or outs:
                return False
            s = nxt[0]
    except Unsupported:
        pass
    return False


def cells(st):
    out = {}
    for f in st.frames:
        for i, v in enumerate(f.locals):
            out[('L', f.uid, i)] = v
    for c, v in st.heap.items():
        out[c] = v
    for g, v in st.ghost.items():
        if isinstance(v, Val):
            out[('G', g)] = v
    return out


def setcell(st, c, v):
    if c[0] == 'L':
        for f in st.frames:
            if f.uid == c[1]:
                f.locals[c[2]] = v
    elif c[0] == 'G':
        st.ghost[c[1]] = v
    else:
        st.heap[c] = v


def getcell(st, c):
    if c[0] == 'L':
        for f in st.frames:
            if f.uid == c[1]:
                return f.locals[c[2]]
        return None
    if c[0] == 'G':
        return st.ghost.get(c[1])
    return st.heap.get(c)


def cell_ty(st, c):
    if c[0] == 'L':
        for f in st.frames:
            if f.uid == c[1]:
                return f.f['locals'][c[2]]
    return None


class Abs:
    """how one cell is generalised"""

    def __init__(self, eng, lid, cell, v0, ty):
        self.eng = eng
        self.lid = lid
        self.cell = cell
        self.v0 = v0
        self.ty = ty
        self.folds = []
        self.ivars = []
        self.its = []
        self.mode = {}

    def gen(self, v, ty, path):
        eng = self.eng
        nm = f'L{self.lid}:{self.cell}{path}'
        m = self.mode.get(path)
        if m == 'same':
            return v
        if v is None:
            return None
        if m == 'havoc':
            if isinstance(v, Seq):
                return Seq((('s', SymSeq(nm + '~', eng.seq_et(v))),), v.t)
            if isinstance(v, Str):
                return Str((Atom(nm + '~'),))
            if isinstance(v, (Adt, Sym)):
                return Sym(v.t, nm + '~')
            if isinstance(v, SRef):
                return SRef(self.gen_h(v.v, nm))
            if isinstance(v, BoxV):
                return BoxV(self.gen_h(v.v, nm))
        if isinstance(v, Str):
            f = Fold(v, self.lid)
            self.folds.append((path, f))
            return Str((Atom(nm, ('fold', f)),))
        if isinstance(v, Seq) and m == 'elems':
            et = eng.seq_et(v) if v.t is not None else None
            return Seq([p if p[0] == 's' else ('e', self.gen(p[1], et, path + (j,))) for j, p in enumerate(v.p)], v.t)
        if isinstance(v, Seq):
            # what was there, then what the earlier iterations appended
            f = Fold(Seq((), v.t), self.lid)
            self.folds.append((path, f))
            return Seq(v.p + (('s', SymSeq(nm, eng.seq_et(v), ('fold', f))),), v.t)
        if isinstance(v, Int):
            x = z3.Int(nm)
            if ('lv', nm) not in eng.memo:
                eng.memo[('lv', nm)] = x
                t = ty
                if t is not None and eng.T[t]['k'] in ('int', 'uint', 'char'):
                    lo, hi = eng.int_range(t)
                    eng.axioms.append(z3.And(x >= lo, x <= hi))
            self.ivars.append((path, x, v))
            return Int(x)
        if isinstance(v, Bool):
            return Bool(z3.Bool(nm))
        if isinstance(v, Op) and v.kind == 'it':
            return self.gen_it(v, nm, path)
        if isinstance(v, Op) and v.kind in ('set', 'map'):
            return v.with_(base=nm, ins=())
        if isinstance(v, Op) and v.kind in eng.loop_hooks:
            return eng.loop_hooks[v.kind](eng, self, v, nm, path)
        if isinstance(v, Adt):
            fs = []
            T = eng.T[v.t]['v'][v.v]['f']
            for i, x in enumerate(v.f):
                fs.append(self.gen(x, T[i]['t'], path + (i,)))
            return Adt(v.t, v.v, fs)
        if isinstance(v, Tup):
            return Tup(self.gen(x, None, path + (i,)) for i, x in enumerate(v.f))
        if isinstance(v, Sym):
            return Sym(v.t, nm)
        if isinstance(v, SRef):
            return SRef(self.gen(v.v, eng.T[ty]['t'] if ty is not None and eng.T[ty]['k'] == 'ref' else None, path + ('*',)))
        if isinstance(v, BoxV):
            return BoxV(self.gen(v.v, None, path + ('*',)))
        if isinstance(v, MRef):
            return None
        if isinstance(v, (Op, FnV, Clo, HBox)):
            return None
        raise Unsupported(f'loop variable {v!r}'[:100])

    def gen_h(self, v, nm):
        if isinstance(v, (Adt, Sym)):
            return Sym(v.t, nm + '~')
        if isinstance(v, Str):
            return Str((Atom(nm + '~'),))
        if isinstance(v, Seq):
            return Seq((('s', SymSeq(nm + '~', self.eng.seq_et(v))),), v.t)
        raise Unsupported('havoc')

    def gen_it(self, it, nm, path):
        eng = self.eng
        if it.k == 'seq':
            x = z3.Int(nm + '.i')
            self.ivars.append((path + ('i',), x, Int(it.i)))
            self.its.append((it.seq, x, it.i))
            n = eng.seqlen(it.seq)
            key = ('lv', nm + '.i')
            if key not in eng.memo:
                eng.memo[key] = x
                eng.axioms.append(z3.And(x >= I(it.i), x <= I(n)))
            return it.with_(i=x)
        if it.k == 'range':
            x = z3.Int(nm + '.i')
            self.ivars.append((path + ('i',), x, Int(it.lo)))
            key = ('lv', nm + '.i')
            if key not in eng.memo:
                eng.memo[key] = x
                eng.axioms.append(z3.And(x >= I(it.lo), z3.Or(x <= I(it.hi), x == I(it.lo))))
            return it.with_(lo=x)
        if it.k == 'enum':
            inner = self.gen_it(it.inner, nm + '.e', path + ('e',))
            # the counter advances with the inner iterator
            base = inner
            while base.k in ('enum', 'map'):
                base = base.inner
            if base.k == 'seq' and isinstance(it.n, int):
                b0 = it.inner
                while b0.k in ('enum', 'map'):
                    b0 = b0.inner
                n = base.i if (it.n == 0 and b0.i == 0) else z3.simplify(base.i - I(b0.i) + it.n)
                return it.with_(inner=inner, n=n)
            raise Unsupported('enumerate over ' + base.k)
        if it.k == 'map':
            return it.with_(inner=self.gen_it(it.inner, nm + '.m', path + ('m',)))
        raise Unsupported('loop over iterator ' + it.k)


def check_prefix(v0, v1):
    """v1 = v0 ++ delta -> delta parts, else None"""
    if isinstance(v0, Str) and isinstance(v1, Str):
        p = v0.p
        if v1.p[:len(p)] == p:
            return v1.p[len(p):]
        return None
    if isinstance(v0, Seq) and isinstance(v1, Seq):
        n = len(v0.p)
        if len(v1.p) >= n and k(Seq(v1.p[:n])) == k(Seq(v0.p)):
            return v1.p[n:]
    return None


def at_path(v, path):
    for p in path:
        if v is None:
            return None
        if p == '*':
            v = v.v if isinstance(v, (SRef, BoxV)) else None
        elif isinstance(p, int):
            if isinstance(v, (Adt, Tup)) and p < len(v.f):
                v = v.f[p]
            elif isinstance(v, Seq) and p < len(v.p):
                v = v.p[p][1]
            else:
                return None
        else:
            return v
    return v


def summarise(eng, st, hd, blocks):
    fr = st.frames[-1]
    lid = f"{fr.f['short']}:{hd}:{next(eng.uid)}"
    base_cells = cells(st)
    mod = {}
    modes = {}
    for rnd in range(14):
        sh = st.copy()
        abss = {}
        for c in mod:
            a = Abs(eng, lid, c, base_cells.get(c), cell_ty(st, c))
            a.mode = modes.setdefault(c, {})
            g = a.gen(base_cells.get(c), a.ty, ())
            abss[c] = a
            setcell(sh, c, g)
        sh.frames[-1].inloop = tuple(x for x in sh.frames[-1].inloop) + (hd,)
        sh.ghost['loops'] = st.ghost.get('loops', ()) + (lid,)
        head = cells(sh)
        backs, exits, outs = eng.explore(sh.copy(), (fr.uid, hd, blocks))
        if eng.loop_key is not None:
            # only iterations that keep the key are summarised; the others enter the loop anew
            key = eng.loop_key(sh)
            steps = [b for b in backs if eng.loop_key(b) != key]
            backs = [b for b in backs if eng.loop_key(b) == key]
            for b in steps:
                b.frames[-1].inloop = tuple(x for x in b.frames[-1].inloop if x != hd)
            exits = exits + steps
        changed = False
        for b in backs:
            cb = cells(b)
            for c, v in head.items():
                w = cb.get(c)
                if c in abss:
                    # shapes that cannot be kept as guessed are generalised further
                    a = abss[c]
                    if refine(eng, a, head[c], w, ()):
                        changed = True
                    continue
                if not same(v, w):
                    if v is None:
                        # temporaries: uninitialised at the head
                        continue
                    mod[c] = True
                    premode(v, w, (), modes.setdefault(c, {}))
                    changed = True
        if not changed:
            break
    else:
        raise Unsupported(f'loop summary of {lid} does not stabilise')
    eng.loop_log[lid] = (st, sh, abss, backs)
    # temporaries of the body must not leak: cells None at the head stay None
    # record the folds
    ivars = []
    its = []
    for a in abss.values():
        ivars.extend(a.ivars)
        its.extend(a.its)
    for c, a in abss.items():
        for path, f in a.folds:
            f.ivars = ivars
            f.its = its
            f.head = sh
            f.backs = backs
            f.npc = len(st.pc)
            for b in backs:
                v1 = at_path(cells(b).get(c), path)
                d = check_prefix(at_path(head[c], path), v1)
                f.steps.append((b.pc[len(st.pc):], d))
            # one element per iteration: the length is the number of iterations
            v = at_path(head[c], path)
            if isinstance(v, Seq) and f.its and f.steps and all(d is not None and len(d) == 1 and d[0][0] == 'e' for _, d in f.steps):
                _, x, first = f.its[0]
                if all(advanced(eng, abss, b, x) for b in backs):
                    eng.axioms.append(eng.seqlen(Seq(v.p[-1:])) == x - I(first))
    if eng.arb:
        for seq, x, first in its:
            seen_all(eng, st, lid, seq, x, first, backs, abss, exits + [o.state for o in outs])
    return exits, outs


def seen_all(eng, st, lid, seq, x, first, backs, abss, after):
    """every element before the current one took one of the ways around the
    loop: stated at an arbitrary index"""
    j = eng.arb(seq)
    if j is None or not all(advanced(eng, abss, b, x) for b in backs):
        return
    eng.indexes.setdefault(k(seq), []).append(x)
    alts = []
    for b in backs:
        cs = [eng.subst(B(c), x, j) for c in b.pc[len(st.pc):]]
        cs = [c for c in cs if f'L{lid}:' not in c.sexpr()]     # what depends on the loop's other variables is not known of earlier iterations
        alts.append(z3.And(*cs))
    fact = z3.Implies(z3.And(j >= I(first), j < x), z3.Or(*alts))
    for s in after:
        s.assume(fact)


def premode(v, w, path, mode):
    """first guess: what did not change stays, vectors of the same shape are
    generalised element by element"""
    if path in mode:
        return
    if same(v, w):
        mode[path] = 'same'
    elif isinstance(v, Adt) and isinstance(w, Adt) and v.t == w.t and v.v == w.v or \
            isinstance(v, Tup) and isinstance(w, Tup) and len(v.f) == len(w.f):
        for i, (x, y) in enumerate(zip(v.f, w.f)):
            premode(x, y, path + (i,), mode)
    elif isinstance(v, Seq) and isinstance(w, Seq) and sameshape(v, w):
        mode[path] = 'elems'
        for j, (x, y) in enumerate(zip(v.p, w.p)):
            if x[0] == 'e':
                premode(x[1], y[1], path + (j,), mode)


def sameshape(v, w):
    return len(v.p) == len(w.p) > 0 and all(x[0] == y[0] and (x[0] == 'e' or x[1].name == y[1].name) for x, y in zip(v.p, w.p))


def advanced(eng, abss, b, x):
    """the iterator with index x is one further in b"""
    cb = cells(b)
    want = zk(z3.simplify(x + 1))

    def has(v):
        if isinstance(v, Op) and v.kind == 'it':
            while v.k in ('enum', 'map'):
                v = v.inner
            return v.k == 'seq' and not isinstance(v.i, int) and zk(z3.simplify(v.i)) == want
        return False
    return any(has(cb.get(c)) for c in abss)


def refine(eng, a, h, w, path):
    """does the value w after one iteration fit the generic value h?
    If not, widens the abstraction and returns True."""
    m = a.mode.get(path)
    if m == 'havoc':
        return False
    if h is None:
        return False
    if same(h, w):
        return False
    if w is None:
        return False
    if m == 'same':
        del a.mode[path]
        premode(h, w, path, a.mode)
        return True
    if m == 'elems':
        if not isinstance(w, Seq) or not sameshape(h, w):
            del a.mode[path]
            return True
        r = False
        for j, (x, y) in enumerate(zip(h.p, w.p)):
            if x[0] == 'e':
                r = refine(eng, a, x[1], y[1], path + (j,)) or r
        return r
    if isinstance(h, (Str, Seq)) and type(h) is type(w):
        if check_prefix(h, w) is None:
            a.mode[path] = 'havoc'
            return True
        return False
    if isinstance(h, (Int, Bool)):
        return False
    if isinstance(h, Op):
        if h.kind == 'it' and isinstance(w, Op) and w.kind == 'it' and w.k == h.k:
            return False
        if h.kind in ('set', 'map') and isinstance(w, Op) and w.kind == h.kind:
            return False
        if h.kind in eng.loop_hooks:
            f = eng.loop_hooks.get(h.kind + ':refine')
            return f(eng, a, h, w, path) if f else False
        raise Unsupported(f'loop changes {h.kind}')
    if isinstance(h, Adt) and isinstance(w, Adt) and h.t == w.t and h.v == w.v:
        r = False
        for i, (x, y) in enumerate(zip(h.f, w.f)):
            r = refine(eng, a, x, y, path + (i,)) or r
        return r
    if isinstance(h, Tup) and isinstance(w, Tup) and len(h.f) == len(w.f):
        r = False
        for i, (x, y) in enumerate(zip(h.f, w.f)):
            r = refine(eng, a, x, y, path + (i,)) or r
        return r
    if isinstance(h, SRef) and isinstance(w, SRef):
        return refine(eng, a, h.v, w.v, path + ('*',))
    if isinstance(h, BoxV) and isinstance(w, BoxV):
        return refine(eng, a, h.v, w.v, path + ('*',))
    if isinstance(h, Sym) and isinstance(w, (Sym, Adt)):
        return False    # already fully unknown
    if isinstance(h, (Adt, Sym)) and isinstance(w, (Adt, Sym)):
        a.mode[path] = 'havoc'
        return True
    raise Unsupported(f'loop variable changes shape {h!r} -> {w!r}'[:160])
