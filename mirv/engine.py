"""mirv: a contract checker over the MIR of /repo's own functions.

Forward symbolic execution of rustc's MIR, one function at a time. A call to a
function that has a contract is replaced by that contract; a call to any other
local function is inlined (so extracting a helper changes nothing); loops over
unknown data are handled by an inductive summary computed from one generic
iteration. Branch feasibility and every obligation are decided by z3.
"""
import json, itertools, time, sys
import z3

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """Outside the verifier's reach (never reported as a violation)."""


# ----------------------------------------------------------------- values

class Val:
    __slots__ = ()


class Int(Val):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'Int({self.e})'

    def key(self):
        return ('i', zk(self.e))


class Bool(Val):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'Bool({self.e})'

    def key(self):
        return ('b', zk(self.e))


class Atom:
    """An opaque piece of text."""
    __slots__ = ('name', 'info')

    def __init__(self, name, info=None):
        self.name = name
        self.info = info

    def __repr__(self):
        return '<' + self.name + '>'

    def __eq__(self, o):
        return isinstance(o, Atom) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Str(Val):
    """Text: a tuple of literal pieces and atoms, in normal form."""
    __slots__ = ('p',)

    def __init__(self, parts):
        out = []
        for x in parts:
            if isinstance(x, str):
                if x == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
        self.p = tuple(out)

    def lit(self):
        if not self.p:
            return ''
        if len(self.p) == 1 and isinstance(self.p[0], str):
            return self.p[0]
        return None

    def __repr__(self):
        return 'Str' + repr(self.p)

    def key(self):
        return ('s', self.p)


class Adt(Val):
    __slots__ = ('t', 'v', 'f')

    def __init__(self, t, v, f):
        self.t = t
        self.v = v
        self.f = tuple(f)

    def __repr__(self):
        return f'Adt({self.t},{self.v},{self.f})'

    def key(self):
        return ('a', self.v, tuple(k(x) for x in self.f))


class Tup(Val):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return f'Tup{self.f}'

    def key(self):
        return ('t', tuple(k(x) for x in self.f))


class Sym(Val):
    """An unknown value of an ADT type, expanded on demand."""
    __slots__ = ('t', 'name', 'info')

    def __init__(self, t, name, info=None):
        self.t = t
        self.name = name
        self.info = info

    def __repr__(self):
        return f'Sym({self.name})'

    def key(self):
        return ('y', self.name)


class SymSeq:
    """An unknown sequence (a segment of a Seq)."""
    __slots__ = ('name', 'et', 'info')

    def __init__(self, name, et, info=None):
        self.name = name
        self.et = et
        self.info = info

    def __repr__(self):
        return f'SymSeq({self.name})'

    def __eq__(self, o):
        return isinstance(o, SymSeq) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Seq(Val):
    """A vector: a tuple of single elements ('e', v) and segments ('s', SymSeq)."""
    __slots__ = ('p', 't')

    def __init__(self, parts, t=None):
        self.p = tuple(parts)
        self.t = t

    def concrete(self):
        return all(x[0] == 'e' for x in self.p)

    def items(self):
        assert self.concrete()
        return [x[1] for x in self.p]

    def __repr__(self):
        return 'Seq' + repr(self.p)

    def key(self):
        return ('q', tuple(('e', k(x[1])) if x[0] == 'e' else ('s', x[1].name) for x in self.p))


class SRef(Val):
    """A shared reference, by value (the borrow checker freezes the target)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'&{self.v}'

    def key(self):
        return ('r', k(self.v))


class MRef(Val):
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = tuple(path)

    def __repr__(self):
        return f'&mut {self.cell}{self.path}'

    def key(self):
        return ('m', self.cell, self.path)


class BoxV(Val):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'Box({self.v})'

    def key(self):
        return ('x', k(self.v))


class HBox(Val):
    """A box whose content lives in a heap cell (only inside vec![] lowering)."""
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def key(self):
        return ('h', self.cell)


class Clo(Val):
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t = t
        self.f = tuple(f)

    def key(self):
        return ('c', self.t, tuple(k(x) for x in self.f))


class FnV(Val):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def key(self):
        return ('f', str(self.c.get('def')))


class Op(Val):
    """Any other model object (iterator, map, format arguments, ghost stream)."""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d

    def __getattr__(self, n):
        try:
            return object.__getattribute__(self, 'd')[n]
        except KeyError:
            raise AttributeError(n)

    def with_(self, **d):
        n = dict(self.d)
        n.update(d)
        return Op(self.kind, **n)

    def __repr__(self):
        return f'Op({self.kind},{self.d})'

    def key(self):
        return ('o', self.kind, tuple((a, k(b)) for a, b in sorted(self.d.items())))


UNIT = Tup(())


def k(v):
    if isinstance(v, Val):
        return v.key()
    if isinstance(v, (tuple, list)):
        return tuple(k(x) for x in v)
    if isinstance(v, SymSeq):
        return ('ss', v.name)
    if isinstance(v, z3.ExprRef):
        return zk(v)
    return v


_alive = {}


def zk(e):
    """key of a term: terms are hash-consed, so the id identifies it while it lives"""
    if isinstance(e, z3.ExprRef):
        i = e.get_id()
        _alive[i] = e
        return ('z', i)
    return ('c', str(e))


def same(a, b):
    return a is b or (a is not None and b is not None and k(a) == k(b))


# ----------------------------------------------------------------- program

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = {int(a): b for a, b in d['types'].items()}
        self.fns = d['fns']
        self.byname = {}
        for key, f in self.fns.items():
            f['key'] = key
            n = f['name']
            if n.startswith('che::'):
                n = n[5:]
            f['short'] = n
            self.byname.setdefault(n, key)
        self._loops = {}
        self.adt = {}
        for i, t in self.T.items():
            if t['k'] == 'adt' and t.get('local') and not t['args']:
                self.adt[t['n'].replace('che::', '')] = i

    def called(self):
        """names of the functions that some function of the program mentions"""
        if not hasattr(self, '_called'):
            s = set()

            def walk(x):
                if isinstance(x, dict):
                    n = x.get('name')
                    if isinstance(n, str) and 'body' in x and 'key' in x:
                        s.add(n[5:] if n.startswith('che::') else n)
                    for y in x.values():
                        walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            for f in self.fns.values():
                for b in f['blocks']:
                    t = b['t']
                    self._f = f
                    if isinstance(t, dict) and 'call' in t:
                        n = ((t['call'].get('const') or {}).get('fn') or {}).get('name', '')
                        n = n[5:] if n.startswith('che::') else n
                        if n == f['short']:
                            walk(t['args'])
                            continue
                    walk(b)
            self._called = s
        return self._called

    def fn(self, name):
        key = self.byname.get(name)
        if key is None:
            raise Unsupported(f'function {name} not found in the crate')
        return self.fns[key]

    def type_named(self, n):
        if n not in self.adt:
            raise Unsupported(f'type {n} not found in the crate')
        return self.adt[n]

    def variant(self, tid, name):
        for i, v in enumerate(self.T[tid]['v']):
            if v['n'] == name:
                return i
        raise Unsupported(f"variant {name} not found in {self.T[tid]['n']}")

    def field(self, tid, vi, name):
        for i, f in enumerate(self.T[tid]['v'][vi]['f']):
            if f['n'] == name:
                return i
        raise Unsupported(f"field {name} not found in {self.T[tid]['n']}")

    def succ(self, b):
        t = b['t']
        if isinstance(t, str):
            return []
        if 'goto' in t:
            return [t['goto']]
        if 'switch' in t:
            return [x[1] for x in t['br']] + [t['else']]
        if 'call' in t:
            return [t['target']] if t['target'] is not None else []
        if 'assert' in t:
            return [t['target']]
        return []

    def loops(self, f):
        """natural loops: header -> set of blocks (reachable part only)"""
        key = f['key']
        if key in self._loops:
            return self._loops[key]
        B = f['blocks']
        n = len(B)
        succ = [self.succ(b) for b in B]
        reach = []
        seen = {0}
        stack = [0]
        while stack:
            x = stack.pop()
            reach.append(x)
            for s in succ[x]:
                if s not in seen:
                    seen.add(s)
                    stack.append(s)
        pred = {x: [] for x in seen}
        for x in seen:
            for s in succ[x]:
                pred[s].append(x)
        dom = {x: set(seen) for x in seen}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for x in sorted(seen):
                if x == 0:
                    continue
                ps = [dom[p] for p in pred[x]]
                nd = set.intersection(*ps) | {x} if ps else {x}
                if nd != dom[x]:
                    dom[x] = nd
                    ch = True
        loops = {}
        for x in seen:
            for s in succ[x]:
                if s in dom[x]:
                    body = loops.setdefault(s, {s})
                    st = [x]
                    while st:
                        y = st.pop()
                        if y in body:
                            continue
                        body.add(y)
                        st.extend(pred[y])
        self._loops[key] = loops
        return loops


# ----------------------------------------------------------------- state

class Frame:
    __slots__ = ('uid', 'f', 'locals', 'bb', 'dest', 'target', 'inloop', 'wrap', 'iters')

    def copy(self):
        g = Frame()
        g.uid = self.uid
        g.f = self.f
        g.locals = list(self.locals)
        g.bb = self.bb
        g.dest = self.dest
        g.target = self.target
        g.inloop = self.inloop
        g.wrap = self.wrap
        g.iters = self.iters
        return g


class State:
    __slots__ = ('frames', 'heap', 'pc', 'ghost', 'steps')

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.pc = ()
        self.ghost = {}
        self.steps = 0

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        return s

    def assume(self, c):
        if c is True:
            return self
        self.pc = self.pc + (c,)
        return self


class Outcome:
    def __init__(self, kind, state, ret=None, why=''):
        self.kind = kind
        self.state = state
        self.ret = ret
        self.why = why


def B(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def I(e):
    return z3.IntVal(e) if isinstance(e, int) and not isinstance(e, bool) else e


def AND(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*[B(x) for x in xs]) if len(xs) > 1 else xs[0]


def OR(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*[B(x) for x in xs]) if len(xs) > 1 else xs[0]


def NOT(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


class Engine:
    def __init__(self, prog, max_paths=6000, budget=240.0):
        self.P = prog
        self.T = prog.T
        self.uid = itertools.count(1)
        self.lits = {}
        self.atoms = {}
        self.tags = {}
        self.memo = {}
        self.axioms = []
        self.contracts = {}       # short name -> callable(eng, st, args, call) -> [(st, ret)]
        self.models = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.nax = 0
        self.queries = 0
        self.qtime = 0.0
        self.cache = {}
        self.deadline = time.time() + budget
        self.max_paths = max_paths
        self.paths = 0
        self.inlined = set()
        self.assumed = set()
        self.opaque_calls = set()
        self.loop_hooks = {}
        self.arb = None           # an arbitrary index into a sequence of unknown length, for facts about all elements
        self.qids = {}
        self.univ = {}            # what searches say of every element of a sequence
        self.indexes = {}         # index terms at which searches and loops looked at a sequence
        self.loop_log = {}        # summarised loops: state before, generic state, what is generalised, states after one iteration
        self.domains = None       # precondition: texts that come from a finite set
        self.nomerge = set()
        self.invariant = None     # data type invariants: called on every unknown value of a struct or enum type
        self.fixed = {}           # texts that are enumerated
        self.unroll = None        # loops over unknown data are run at most so often (bounded units only)
        self.cut = 0
        self.loop_key = None
        self.joined = False       # joined names have no separator in them
        self.lens = None          # lengths of the vectors that are enumerated
        from . import models
        models.install(self)

    # ---- solver
    def check(self, conds):
        cs = [c for c in conds if c is not True]
        if any(c is False for c in cs):
            return z3.unsat
        key = frozenset(c.get_id() for c in cs)
        if key in self.cache:
            return self.cache[key][0]
        while self.nax < len(self.axioms):
            self.solver.add(self.axioms[self.nax])
            self.nax += 1
        self.queries += 1
        t = time.time()
        r = self.solver.check(*[B(c) for c in cs])
        self.qtime += time.time() - t
        if r == z3.unknown:
            raise Unsupported('solver: unknown')
        self.cache[key] = (r, cs)     # cs keeps the term ids alive
        return r

    def feasible(self, st, c=True):
        if c is False:
            return False
        return self.check(st.pc + (c,)) == z3.sat

    def entails(self, st, c):
        if c is True:
            return True
        return self.check(st.pc + (NOT(c),)) == z3.unsat

    # ---- symbols
    def strterm(self, s):
        """z3 Int term standing for a text value"""
        parts = s.p
        if not parts:
            parts = ('',)
        ts = []
        for x in parts:
            if isinstance(x, str):
                if x not in self.lits:
                    self.lits[x] = len(self.lits) + 1000000
                ts.append(z3.IntVal(self.lits[x]))
            else:
                if x.name not in self.atoms:
                    v = self.atoms[x.name] = z3.Int('s!' + x.name)
                    dom = self.domains(x.name) if self.domains else None
                    if dom:
                        self.axioms.append(z3.Or(*[v == self.strterm(Str((d,))) for d in dom]))
                ts.append(self.atoms[x.name])
        t = ts[0]
        if len(ts) > 1:
            cat = z3.Function('cat', z3.IntSort(), z3.IntSort(), z3.IntSort())
            for u in ts[1:]:
                t = cat(t, u)
        return t

    def domain(self, s):
        if len(s.p) == 1 and isinstance(s.p[0], Atom) and self.domains:
            return self.domains(s.p[0].name)
        return None

    def streq(self, a, b):
        if a.p == b.p:
            return True
        la, lb = a.lit(), b.lit()
        if la is not None and lb is not None:
            return la == lb
        # a text with a non-empty literal piece is not empty
        if la == '' or lb == '':
            o = b if la == '' else a
            if any(isinstance(x, str) for x in o.p):
                return False
        # strip common literal prefix/suffix
        if a.p and b.p and isinstance(a.p[0], str) and isinstance(b.p[0], str):
            x, y = a.p[0], b.p[0]
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
        if a.p and b.p and isinstance(a.p[-1], str) and isinstance(b.p[-1], str):
            x, y = a.p[-1], b.p[-1]
            n = min(len(x), len(y))
            if n and x[-n:] != y[-n:]:
                return False
        # equal pieces at either end do not matter
        p, q = a.p, b.p
        while p and q and p[0] == q[0]:
            p, q = p[1:], q[1:]
        while p and q and p[-1] == q[-1]:
            p, q = p[:-1], q[:-1]
        if len(p) < len(a.p):
            return self.streq(Str(p), Str(q))
        # a name is not a text with something else than letters in it
        if self.joined:
            for x, y in ((p, q), (q, p)):
                if len(x) == 1 and not isinstance(x[0], str) and any(isinstance(z, str) and not z.isidentifier() for z in y):
                    return False
        # names without the separator between them
        if self.joined and len(p) == len(q) > 1 and all(x == y if isinstance(x, str) else not isinstance(y, str) for x, y in zip(p, q)):
            return AND(*[self.streq(Str((x,)), Str((y,))) for x, y in zip(p, q) if not isinstance(x, str)])
        return self.strterm(a) == self.strterm(b)

    def tag(self, sym):
        if sym.name not in self.tags:
            n = len(self.T[sym.t]['v'])
            v = z3.Int('tag!' + sym.name)
            self.axioms.append(z3.And(v >= 0, v < n))
            self.tags[sym.name] = v
        return self.tags[sym.name]

    def fresh(self, t, base='h'):
        return self.make(t, f'{base}#{next(self.uid)}')

    def make(self, tid, name):
        """an unknown value of the type"""
        key = (tid, name)
        if key in self.memo:
            return self.memo[key]
        v = self._make(tid, name)
        self.memo[key] = v
        if self.invariant is not None and isinstance(v, Sym):
            self.invariant(self, v)
        return v

    def _make(self, tid, name):
        if name in self.fixed:
            return self.fixed[name]
        t = self.T[tid]
        kk = t['k']
        if kk in ('int', 'uint'):
            v = z3.Int(name)
            lo, hi = self.int_range(tid)
            self.axioms.append(z3.And(v >= lo, v <= hi))
            return Int(v)
        if kk == 'char':
            v = z3.Int(name)
            self.axioms.append(z3.And(v >= 0, v <= 0x10ffff))
            return Int(v)
        if kk == 'bool':
            return Bool(z3.Bool(name))
        if kk == 'str':
            return Str((Atom(name),))
        if kk == 'ref':
            if t['mut']:
                raise Unsupported('symbolic &mut')
            return SRef(self.make(t['t'], name))
        if kk == 'tuple':
            return Tup(self.make(x, f'{name}.{i}') for i, x in enumerate(t['ts']))
        if kk in ('slice',):
            return Seq((('s', SymSeq(name, t['t'])),), tid)
        if kk == 'adt':
            n = t['n']
            if n == 'std::string::String':
                return Str((Atom(name),))
            if t.get('box'):
                return BoxV(self.make(t['args'][0], name))
            if n == 'std::vec::Vec':
                ln = self.lens(name) if self.lens else None
                if ln is not None:
                    return Seq([('e', self.make(t['args'][0], f'{name}[{i}]')) for i in range(ln)], tid)
                return Seq((('s', SymSeq(name, t['args'][0])),), tid)
            if n in ('std::collections::HashMap', 'std::collections::HashSet'):
                return Op('map' if n.endswith('Map') else 'set', base=name, ins=(), t=tid)
            if t['v']:
                return Sym(tid, name)
            return Op('opaque', name=name, t=tid)
        return Op('opaque', name=name, t=tid)

    def int_range(self, tid):
        t = self.T[tid]
        if t['k'] == 'char':
            return 0, 0x10ffff
        bits = {'usize': 64, 'isize': 64}.get(t['n'])
        if bits is None:
            bits = int(t['n'][1:])
        if t['k'] == 'uint':
            return 0, 2 ** bits - 1
        return -2 ** (bits - 1), 2 ** (bits - 1) - 1

    def seqlen(self, seq):
        n = 0
        for x in seq.p:
            if x[0] == 'e':
                n = n + 1
            else:
                v = z3.Int('len!' + x[1].name)
                if ('len', x[1].name) not in self.memo:
                    self.memo[('len', x[1].name)] = v
                    self.axioms.append(z3.And(v >= 0, v < 2 ** 40))
                n = n + v
        return n

    def elem(self, ss, idx):
        """element of an unknown sequence at an index term"""
        i = str(z3.simplify(I(idx)))
        return self.make(ss.et, f'{ss.name}[{i}]')

    # ---- field access
    def child(self, v, vi, fi):
        if isinstance(v, Adt):
            return v.f[fi]
        if isinstance(v, Tup):
            return v.f[fi]
        if isinstance(v, Clo):
            return v.f[fi]
        if isinstance(v, Sym):
            var = self.T[v.t]['v'][vi if vi is not None else 0]
            fd = var['f'][fi]
            if self.T[v.t]['enum']:
                nm = f"{v.name}.{var['n']}.{fd['n']}"
            else:
                nm = f"{v.name}.{fd['n']}"
            return self.make(fd['t'], nm)
        if isinstance(v, (BoxV, HBox)):
            return v
        if isinstance(v, Op) and v.kind == 'uninit':
            return v
        raise Unsupported(f'field of {type(v).__name__} {v!r}'[:200])

    def get(self, v, name, variant=None):
        """field by name (spec side)"""
        while isinstance(v, (SRef, BoxV)):
            v = v.v
        tid = v.t
        vi = 0 if variant is None else self.P.variant(tid, variant)
        fi = self.P.field(tid, vi, name)
        return self.child(v, vi, fi)

    def setchild(self, v, vi, fi, nv):
        if isinstance(v, Adt):
            f = list(v.f)
            f[fi] = nv
            return Adt(v.t, v.v, f)
        if isinstance(v, Tup):
            f = list(v.f)
            f[fi] = nv
            return Tup(f)
        if isinstance(v, Clo):
            f = list(v.f)
            f[fi] = nv
            return Clo(v.t, f)
        if isinstance(v, Sym):
            i = vi if vi is not None else 0
            if self.T[v.t]['enum'] and vi is None:
                raise Unsupported('write to enum field without variant')
            n = len(self.T[v.t]['v'][i]['f'])
            f = [self.child(v, i, j) for j in range(n)]
            f[fi] = nv
            return Adt(v.t, i, f)
        if isinstance(v, Op) and v.kind == 'uninit':
            return nv
        raise Unsupported(f'write field of {type(v).__name__}')

    # ---- places
    def readcell(self, st, cell):
        if cell[0] == 'L':
            for f in st.frames:
                if f.uid == cell[1]:
                    return f.locals[cell[2]]
            raise Unsupported('dangling frame reference')
        return st.heap[cell]

    def writecell(self, st, cell, v):
        if cell[0] == 'L':
            for f in st.frames:
                if f.uid == cell[1]:
                    f.locals[cell[2]] = v
                    return
            raise Unsupported('dangling frame reference')
        st.heap[cell] = v

    def project(self, st, v, path):
        for e in path:
            if e[0] == 'f':
                v = self.child(v, e[1], e[2])
            elif e[0] == 'deref':
                v = self.deref(st, v)
            elif e[0] == 'idx':
                v = self.index(st, v, e[1])
            else:
                raise Unsupported(f'projection {e}')
        return v

    def deref(self, st, v):
        if isinstance(v, (SRef, BoxV)):
            return v.v
        if isinstance(v, MRef):
            return self.project(st, self.readcell(st, v.cell), v.path)
        if isinstance(v, HBox):
            return st.heap[v.cell]
        raise Unsupported(f'deref of {type(v).__name__} {v!r}'[:160])

    def index(self, st, v, i):
        while isinstance(v, SRef):
            v = v.v
        if not isinstance(v, Seq):
            raise Unsupported(f'index of {v!r}'[:160])
        if isinstance(i, int):
            n = 0
            for x in v.p:
                if x[0] == 's':
                    if len(v.p) == 1:
                        return self.elem(x[1], i)
                    break
                if n == i:
                    return x[1]
                n += 1
            raise Unsupported('index into unknown part')
        if len(v.p) == 1 and v.p[0][0] == 's':
            return self.elem(v.p[0][1], i)
        # e1 ++ sym etc.: try to resolve by entailment
        off = 0
        for x in v.p:
            if x[0] == 'e':
                if self.entails(st, I(i) == I(off)):
                    return x[1]
                off = off + 1
            else:
                ln = self.seqlen(Seq((x,)))
                if self.entails(st, z3.And(I(i) >= I(off), I(i) < I(off) + ln)):
                    return self.elem(x[1], z3.simplify(I(i) - I(off)))
                off = off + ln
        raise Unsupported(f'symbolic index {v!r} {i!r}'[:300])

    def update(self, st, v, path, nv):
        if not path:
            return nv
        e = path[0]
        if e[0] == 'f':
            c = self.child(v, e[1], e[2]) if v is not None else None
            return self.setchild(v, e[1], e[2], self.update(st, c, path[1:], nv) if len(path) > 1 else nv)
        if e[0] == 'deref':
            if isinstance(v, BoxV):
                return BoxV(self.update(st, v.v, path[1:], nv))
            if isinstance(v, MRef):
                cur = self.readcell(st, v.cell)
                self.writecell(st, v.cell, self.update(st, cur, v.path + tuple(path[1:]), nv))
                return v
            if isinstance(v, HBox):
                st.heap[v.cell] = self.update(st, st.heap[v.cell], path[1:], nv)
                return v
            raise Unsupported('write through ' + type(v).__name__)
        if e[0] == 'idx':
            if isinstance(v, Seq) and isinstance(e[1], int) and v.concrete() and e[1] < len(v.p):
                p = list(v.p)
                p[e[1]] = ('e', self.update(st, p[e[1]][1], path[1:], nv))
                return Seq(p, v.t)
            if isinstance(v, Seq):
                off = 0
                for j, x in enumerate(v.p):
                    if x[0] == 'e':
                        if self.entails(st, I(e[1]) == I(off)):
                            p = list(v.p)
                            p[j] = ('e', self.update(st, x[1], path[1:], nv))
                            return Seq(p, v.t)
                        off = off + 1
                    else:
                        off = off + self.seqlen(Seq((x,)))
                cur = self.index(st, v, e[1])
                new = self.update(st, cur, path[1:], nv)
                return Seq((('s', SymSeq(f'upd#{next(self.uid)}', self.seq_et(v), ('update', v, e[1], new))),), v.t)
        raise Unsupported(f'write projection {e}')

    def seq_et(self, v):
        if v.t is not None:
            t = self.T[v.t]
            if t['k'] == 'adt':
                return t['args'][0]
            return t['t']
        for x in v.p:
            if x[0] == 's':
                return x[1].et
        raise Unsupported('element type unknown')

    def norm_path(self, st, fr, proj):
        out = []
        vi = None
        for e in proj:
            if e == 'deref':
                out.append(('deref',))
            elif 'dc' in e:
                vi = e['dc']
                continue
            elif 'f' in e:
                out.append(('f', vi, e['f']))
            elif 'idx' in e:
                iv = fr.locals[e['idx']]
                out.append(('idx', iv.e))
            elif 'cidx' in e:
                if e['end']:
                    raise Unsupported('cidx from end')
                out.append(('idx', e['cidx']))
            else:
                raise Unsupported(f'projection {e}')
            vi = None
        return out

    def read(self, st, fr, place):
        l, proj = place
        v = fr.locals[l]
        if not proj:
            if v is None:
                raise Unsupported(f"read of uninitialised _{l} in {fr.f['short']}")
            return v
        vi = None
        for e in proj:
            if e == 'deref':
                v = self.deref(st, v)
            elif 'dc' in e:
                vi = e['dc']
                continue
            elif 'f' in e:
                v = self.child(v, vi, e['f'])
            elif 'idx' in e:
                v = self.index(st, v, fr.locals[e['idx']].e)
            elif 'cidx' in e and not e['end']:
                v = self.index(st, v, e['cidx'])
            elif 'cidx' in e and isinstance(v, Seq) and v.concrete():
                v = v.p[len(v.p) - e['cidx']][1]
            elif 'sub' in e:
                v = Op('subslice', base=v, frm=e['sub'][0])
            else:
                raise Unsupported(f'projection {e}')
            vi = None
        return v

    def write(self, st, fr, place, nv):
        l, proj = place
        if not proj:
            fr.locals[l] = nv
            return
        path = self.norm_path(st, fr, proj)
        v = fr.locals[l]
        if v is None:
            v = Op('uninit')
        fr.locals[l] = self.update(st, v, path, nv)

    def mref(self, st, fr, place):
        """a mutable reference to a place"""
        l, proj = place
        path = self.norm_path(st, fr, proj)
        cell = ('L', fr.uid, l)
        cur = []
        for e in path:
            if e[0] == 'deref':
                v = self.project(st, self.readcell(st, cell), cur)
                if isinstance(v, MRef):
                    cell, cur = v.cell, list(v.path)
                    continue
                if isinstance(v, HBox):
                    cell, cur = v.cell, []
                    continue
                if isinstance(v, BoxV):
                    cur.append(e)
                    continue
                if isinstance(v, SRef):
                    return None
                raise Unsupported('&mut through ' + type(v).__name__)
            cur.append(e)
        return MRef(cell, cur)

    def load(self, st, r):
        """value behind a reference of either kind (deep)"""
        while True:
            if isinstance(r, (SRef, BoxV)):
                r = r.v
            elif isinstance(r, MRef):
                r = self.project(st, self.readcell(st, r.cell), r.path)
            else:
                return r

    def store(self, st, r, v):
        if not isinstance(r, MRef):
            raise Unsupported('store through shared reference')
        # collapse nested &mut &mut
        cur = self.project(st, self.readcell(st, r.cell), r.path)
        if isinstance(cur, MRef):
            return self.store(st, cur, v)
        base = self.readcell(st, r.cell)
        self.writecell(st, r.cell, self.update(st, base, r.path, v))

    # ---- constants and operands
    def const(self, c, ty):
        if 'str' in c:
            return SRef(Str((c['str'],)))
        if 'int' in c:
            return Int(int(c['int']))
        if 'bool' in c:
            return Bool(c['bool'])
        if 'char' in c:
            return Int(c['char'])
        if 'ref' in c:
            t = self.T[ty]
            return SRef(self.const(c['ref'], t['t']))
        if 'arr' in c:
            t = self.T[ty]
            return Seq([('e', self.const(x, t['t'])) for x in c['arr']], ty)
        if 'struct' in c:
            t = self.T[ty]
            fs = [self.const(x, f['t']) for x, f in zip(c['struct'], t['v'][0]['f'])]
            return Adt(ty, 0, fs)
        if 'enum' in c:
            v = self.T[ty]['v'][c['enum']]
            return Adt(ty, c['enum'], [self.const(x, f['t']) for x, f in zip(c['fields'], v['f'])])
        if 'fn' in c:
            return FnV(c)
        if 'static' in c:
            v = c.get('val')
            if v and ('bool' in v or 'int' in v or 'str' in v):
                return self.const(v, ty)
            return Op('static', name=c['static'])
        if 'unit' in c:
            return UNIT
        if 'zst' in c:
            t = self.T[ty]
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'closure':
                return Clo(ty, ())
            if t['k'] == 'adt' and t['v'] and len(t['v']) == 1 and not t['v'][0]['f']:
                return Adt(ty, 0, ())
            if t['k'] == 'adt' and t['n'] == 'std::option::Option':
                return Adt(ty, 0, ())         # Option<Infallible>: nothing
            return Op('zst', t=ty)
        return Op('constopaque', t=ty, d_=str(c))

    def operand(self, st, fr, o):
        if 'cp' in o:
            return self.read(st, fr, o['cp'])
        if 'mv' in o:
            return self.read(st, fr, o['mv'])
        if 'const' in o:
            return self.const(o['const'], o['ty'])
        if 'rtcheck' in o:
            return Bool(True)
        raise Unsupported(f'operand {o}')

    # ---- rvalues
    def discr(self, v):
        if isinstance(v, Adt):
            return Int(self.T[v.t]['v'][v.v]['d'])
        if isinstance(v, Sym):
            vs = self.T[v.t]['v']
            if any(x['d'] != i for i, x in enumerate(vs)):
                raise Unsupported('explicit discriminants')
            return Int(self.tag(v))
        raise Unsupported(f'discriminant of {type(v).__name__} {v!r}'[:200])

    def rvalue(self, st, fr, r, dty):
        if 'use' in r:
            return self.operand(st, fr, r['use'])
        if 'ref' in r:
            pl = r['ref']
            if r.get('mut') or r.get('raw'):
                m = self.mref(st, fr, pl)
                if m is not None:
                    return m
            return SRef(self.read(st, fr, pl))
        if 'discr' in r:
            return self.discr(self.read(st, fr, r['discr']))
        if 'len' in r:
            return Int(self.seqlen(self.read(st, fr, r['len'])))
        if 'agg' in r:
            ops = [self.operand(st, fr, o) for o in r['ops']]
            a = r['agg']
            if a['k'] == 'tuple':
                return Tup(ops)
            if a['k'] == 'array':
                return Seq([('e', x) for x in ops], dty)
            if a['k'] == 'adt':
                return Adt(a['t'], a['v'], ops)
            if a['k'] == 'closure':
                return Clo(a['t'], ops)
            raise Unsupported(f'aggregate {a}')
        if 'bin' in r or 'cbin' in r:
            a = self.operand(st, fr, r['a'])
            b = self.operand(st, fr, r['b'])
            op = r.get('bin') or r.get('cbin')
            checked = 'cbin' in r
            return self.binop(op, a, b, checked, dty, r, fr)
        if 'un' in r:
            a = self.operand(st, fr, r['a'])
            if r['un'] == 'Not' and isinstance(a, Bool):
                return Bool(NOT(a.e))
            if r['un'] == 'Neg':
                return Int(-a.e)
            if r['un'] == 'PtrMetadata':
                v = self.load(st, a)
                if isinstance(v, Seq):
                    return Int(self.seqlen(v))
            raise Unsupported(f"unop {r['un']}")
        if 'cast' in r:
            a = self.operand(st, fr, r['a'])
            ck = r['cast']
            if ck.startswith('IntToInt'):
                lo, hi = self.int_range(r['t'])
                if isinstance(a, Bool):
                    if isinstance(a.e, bool):
                        return Int(int(a.e))
                    return Int(z3.If(a.e, 1, 0))
                e = a.e
                if isinstance(e, int):
                    return Int((e - lo) % (hi - lo + 1) + lo)
                return Int(e)   # widening or in range; see trusted base
            return a     # pointer coercions, transmutes of boxes
        if 'repeat' in r:
            v = self.operand(st, fr, r['repeat'])
            return Seq([('e', v)] * r['n'], dty)
        raise Unsupported(f'rvalue {r}'[:200])

    def binop(self, op, a, b, checked, dty, r, fr):
        if isinstance(a, Bool) and isinstance(b, Bool):
            x, y = a.e, b.e
            if op == 'Eq':
                res = (x == y) if isinstance(x, bool) and isinstance(y, bool) else B(x) == B(y)
            elif op == 'Ne':
                res = (x != y) if isinstance(x, bool) and isinstance(y, bool) else B(x) != B(y)
            elif op == 'BitAnd':
                res = AND(x, y)
            elif op == 'BitOr':
                res = OR(x, y)
            else:
                raise Unsupported('bool ' + op)
            return Bool(res)
        if not (isinstance(a, Int) and isinstance(b, Int)):
            raise Unsupported(f'binop {op} on {a!r} {b!r}'[:200])
        x, y = a.e, b.e
        conc = isinstance(x, int) and isinstance(y, int)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            f = {'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y,
                 'Gt': lambda: x > y, 'Ge': lambda: x >= y}[op]
            return Bool(f())
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked'):
            o = op[:3]
            res = x + y if o == 'Add' else x - y if o == 'Sub' else x * y
            if checked:
                t = self.T[dty]['ts'][0]
                lo, hi = self.int_range(t)
                ov = (not (lo <= res <= hi)) if conc else z3.Or(I(res) < lo, I(res) > hi)
                return Tup((Int(res), Bool(ov)))
            return Int(res)
        if conc and op in ('Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            f = {'Div': lambda: x // y, 'Rem': lambda: x % y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y}[op]
            return Int(f())
        raise Unsupported('int ' + op)

    # ---- execution
    def push(self, st, f, args, dest, target, wrap=None):
        fr = Frame()
        fr.uid = next(self.uid)
        fr.f = f
        fr.locals = [None] * len(f['locals'])
        for i, a in enumerate(args):
            fr.locals[i + 1] = a
        fr.bb = 0
        fr.dest = dest
        fr.target = target
        fr.inloop = ()
        fr.iters = {}
        fr.wrap = wrap
        if sum(1 for g in st.frames if g.f is f) > 3:
            raise Unsupported(f"unbounded recursion through {f['short']} (no contract)")
        st.frames.append(fr)
        return fr

    def finish_call(self, st, fr, dest, target, ret):
        if target is None:
            return None
        self.write(st, fr, dest, ret)
        fr.bb = target
        return st

    def explore(self, st, loop=None):
        """Runs to completion. Without loop: list of Outcomes (return/panic).
        With loop=(uid, header, blocks): (backs, exits, panics)."""
        work = [st]
        outs, backs, exits = [], [], []
        first = True
        while work:
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            s = work.pop()
            fr = s.frames[-1]
            if loop and fr.uid == loop[0]:
                if fr.bb == loop[1] and not first:
                    backs.append(s)
                    continue
                if fr.bb not in loop[2]:
                    exits.append(s)
                    continue
            # entering an inner loop header from outside?
            loops = self.P.loops(fr.f)
            if fr.bb in loops and not (loop and fr.uid == loop[0] and fr.bb == loop[1] and first):
                hd = fr.bb
                # forget headers of loops we are no longer inside
                fr.inloop = tuple(h for h in fr.inloop if hd in loops.get(h, ()))
                if hd not in fr.inloop:
                    res = self.enter_loop(s, hd, loops[hd])
                    if res is not None:
                        for o in res[1]:
                            outs.append(o)
                        for e in res[0]:
                            work.append(e)
                        first = False
                        continue
                    fr.inloop = fr.inloop + (hd,)
                elif hd in fr.iters:
                    # bounded unrolling of a loop over unknown data
                    n = fr.iters[hd] + 1
                    if n > self.unroll:
                        self.cut += 1
                        continue
                    fr.iters = {**fr.iters, hd: n}
            first = False
            nxt, out = self.block(s)
            for o in out:
                outs.append(o)
            work.extend(nxt)
            self.paths += max(0, len(nxt) - 1)
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')
        if loop:
            return backs, exits, outs
        return outs

    def block(self, st):
        """executes one basic block; returns (states, outcomes)"""
        fr = st.frames[-1]
        st.steps += 1
        if st.steps > 20000:
            raise Unsupported('too many steps')
        b = fr.f['blocks'][fr.bb]
        lt = fr.f['locals']
        for s in b['s']:
            if 'p' in s:
                pl = s['p']
                dty = lt[pl[0]] if not pl[1] else self.place_ty(fr, pl)
                v = self.rvalue(st, fr, s['r'], dty)
                self.write(st, fr, pl, v)
            elif 'setd' in s:
                raise Unsupported('set discriminant')
        t = b['t']
        if t == 'return':
            ret = fr.locals[0]
            if ret is None:
                ret = UNIT
            st.frames.pop()
            if fr.wrap is not None:
                ret = fr.wrap(ret)
            if fr.dest is None:
                return [], [Outcome('return', st, ret)]
            if callable(fr.dest):
                return fr.dest(st, ret)
            caller = st.frames[-1]
            if fr.target is None:
                return [], []
            self.write(st, caller, fr.dest, ret)
            caller.bb = fr.target
            return [st], []
        if t == 'unreachable':
            return [], []
        if t in ('resume', 'asm'):
            return [], []
        if 'goto' in t:
            fr.bb = t['goto']
            return [st], []
        if 'switch' in t:
            v = self.operand(st, fr, t['switch'])
            return self.switch(st, fr, v, t), []
        if 'assert' in t:
            c = self.operand(st, fr, t['assert']).e
            ok = c if t['exp'] else NOT(c)
            outs = []
            if ok is not True:
                bad = NOT(ok)
                if self.feasible(st, bad):
                    s2 = st.copy().assume(bad)
                    outs.append(Outcome('panic', s2, why=f"{t['msg']} in {fr.f['short']}:{t.get('line')}"))
                    if not self.feasible(st, ok):
                        return [], outs
                st.assume(ok)
            fr.bb = t['target']
            return [st], outs
        if 'call' in t:
            return self.call(st, fr, t)
        raise Unsupported(f'terminator {t}'[:120])

    def place_ty(self, fr, pl):
        ty = fr.f['locals'][pl[0]]
        for e in pl[1]:
            if isinstance(e, dict) and 'f' in e:
                ty = e['t']
            elif e == 'deref':
                tt = self.T[ty]
                ty = tt.get('t', tt.get('args', [None])[0] if tt['k'] == 'adt' else None)
            elif isinstance(e, dict) and ('idx' in e or 'cidx' in e):
                ty = self.T[ty].get('t')
        return ty

    def switch(self, st, fr, v, t):
        if isinstance(v, Bool):
            out = []
            els_c = True
            for val, tgt in t['br']:
                want = v.e if int(val) else NOT(v.e)
                els_c = AND(els_c, NOT(want))
                out.append((want, tgt))
            out.append((els_c, t['else']))
        elif isinstance(v, Int):
            out = []
            els = []
            for val, tgt in t['br']:
                n = int(val)
                c = (v.e == n)
                out.append((c, tgt))
                els.append(NOT(c))
            out.append((AND(*els), t['else']))
        else:
            raise Unsupported(f'switch on {v!r}'[:100])
        res = []
        live = []
        for c, tgt in out:
            if c is False:
                continue
            if fr.f['blocks'][tgt]['t'] == 'unreachable' and not fr.f['blocks'][tgt]['s']:
                continue
            live.append((c, tgt))
            if c is True:
                break
        for i, (c, tgt) in enumerate(live):
            if c is True or self.feasible(st, c):
                s2 = st.copy() if len(live) > 1 else st
                s2.assume(c)
                s2.frames[-1].bb = tgt
                res.append(s2)
        return res

    def call(self, st, fr, t):
        f = t['call']
        if 'const' not in f:
            v = self.operand(st, fr, f)
            if isinstance(v, FnV):
                c = v.c
            else:
                raise Unsupported('indirect call')
        else:
            c = f['const']
        args = [self.operand(st, fr, a) for a in t['args']]
        return self.docall(st, fr, c, args, t['dest'], t['target'], t)

    def docall(self, st, fr, c, args, dest, target, t=None):
        fn = c.get('fn')
        d = c['def']
        name = fn['name'] if fn else d
        short = name[5:] if name.startswith('che::') else name
        res = self.contracts[short](self, st, args) if short in self.contracts else None
        if res is not None:          # (a contract that does not apply leaves the call to inlining)
            out = []
            for s2, ret in res:
                if isinstance(ret, Outcome):
                    return [], [ret]
                r = self.finish_call(s2, s2.frames[-1], dest, target, ret)
                if r is not None:
                    out.append(r)
            return out, []
        m = self.models.get(d) or self.models.get(short)
        if m is None:
            for pre, mm in self.prefix_models:
                if d.startswith(pre):
                    m = mm
                    break
        if m is not None:
            res = m(self, st, args, Call(self, c, dest, target, t, fr))
            if isinstance(res, Val):
                r = self.finish_call(st, fr, dest, target, res)
                return ([r] if r is not None else []), []
            if isinstance(res, Outcome):
                return [], [res]
            if isinstance(res, tuple) and res and res[0] == 'states':
                return res[1], res[2]
            out, pan = [], []
            for s2, ret in res:
                if isinstance(ret, Outcome):
                    pan.append(ret)
                    continue
                r = self.finish_call(s2, s2.frames[-1], dest, target, ret)
                if r is not None:
                    out.append(r)
            return out, pan
        if d in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once'):
            return self.callclosure(st, args[0], list(args[1].f), dest, target)
        if fn and fn['body'] and fn['key'] in self.P.fns:
            g = self.P.fns[fn['key']]
            self.inlined.add(short)
            if self.mergeable(g, args) and short not in self.nomerge:
                m = self.merged(g, args)
                if m is not None:
                    return self.apply_merged(st, fr, m, dest, target)
            self.push(st, g, args, dest, target)
            return [st], []
        raise Unsupported(f'no model for {d}  [{name}]')

    # ---- scalar-valued pure functions: all paths joined into one term
    def mergeable(self, g, args):
        if not g['local'] or self.T[g['locals'][0]]['k'] not in ('bool', 'int', 'uint', 'char'):
            return False
        return all(self.pure_val(a) for a in args)

    def pure_val(self, v):
        if isinstance(v, (MRef, HBox, Clo)):
            return False
        if isinstance(v, (SRef, BoxV)):
            return self.pure_val(v.v)
        if isinstance(v, (Adt, Tup)):
            return all(x is None or self.pure_val(x) for x in v.f)
        if isinstance(v, Op):
            return v.kind in ('map', 'set', 'opaque')
        if isinstance(v, Seq):
            return all(x[0] == 's' or self.pure_val(x[1]) for x in v.p)
        return isinstance(v, (Int, Bool, Str, Sym, FnV))

    def merged(self, g, args):
        key = ('merged', g['key'], tuple(k(a) for a in args))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None      # recursion: no summary
        st = State()
        self.push(st, g, args, None, None)
        try:
            outs = self.explore(st)
        except Unsupported:
            return None
        res = []
        pan = []
        for o in outs:
            if any(g != 'loops' for g in o.state.ghost):
                return None
            c = AND(*o.state.pc)
            if o.kind == 'panic':
                pan.append((c, o.why))
            else:
                if not isinstance(o.ret, (Int, Bool)):
                    return None
                res.append((c, o.ret))
        if len(res) > 200:
            return None
        val = None
        for c, r in reversed(res):
            if val is None:
                val = r.e
            elif c is True:
                val = r.e
            elif isinstance(r, Int):
                val = val if k(val) == k(r.e) else z3.If(B(c), I(r.e), I(val))
            else:
                val = val if k(val) == k(r.e) else z3.If(B(c), B(r.e), B(val))
        if res:
            val = Int(val) if isinstance(res[0][1], Int) else Bool(val)
        m = (val, pan)
        self.memo[key] = m
        return m

    def apply_merged(self, st, fr, m, dest, target):
        val, pan = m
        outs = []
        for c, why in pan:
            if self.feasible(st, c):
                s2 = st.copy().assume(c)
                outs.append(Outcome('panic', s2, why=why))
            st.assume(NOT(c))
        if val is None or (outs and not self.feasible(st)):
            return [], outs
        r = self.finish_call(st, fr, dest, target, val)
        return ([r] if r is not None else []), outs

    def callclosure(self, st, clo, args, dest, target, wrap=None):
        """pushes a frame for a closure (or fn item) value"""
        cv = clo
        while isinstance(cv, SRef):
            cv = cv.v
        if isinstance(cv, MRef):
            cv2 = self.load(st, cv)
        else:
            cv2 = cv
        if isinstance(cv2, FnV):
            fn = cv2.c['fn']
            short = fn['name'][5:] if fn and fn['name'].startswith('che::') else (fn or {}).get('name')
            if short in self.contracts:
                work, outs = [], []
                for s2, ret in self.contracts[short](self, st, args):
                    if isinstance(ret, Outcome):
                        outs.append(ret)
                        continue
                    if wrap is not None:
                        ret = wrap(ret)
                    if callable(dest):
                        a, b = dest(s2, ret)
                        work += a
                        outs += b
                        continue
                    r = self.finish_call(s2, s2.frames[-1], dest, target, ret)
                    if r is not None:
                        work.append(r)
                return work, outs
            if fn and fn['body'] and fn['key'] in self.P.fns:
                self.push(st, self.P.fns[fn['key']], args, dest, target, wrap)
                return [st], []
            raise Unsupported('call of std fn item')
        if not isinstance(cv2, Clo):
            raise Unsupported(f'call of {cv2!r}'[:100])
        inst = self.T[cv2.t].get('inst')
        if not inst or inst['key'] not in self.P.fns:
            raise Unsupported('closure body missing')
        g = self.P.fns[inst['key']]
        # how does the body take itself?
        st0 = self.T[g['locals'][1]]
        if st0['k'] == 'ref' and st0['mut']:
            if isinstance(cv, MRef):
                selfv = cv
            else:
                cell = ('H', next(self.uid))
                st.heap[cell] = cv2
                selfv = MRef(cell)
        elif st0['k'] == 'ref':
            selfv = SRef(cv2)
        else:
            selfv = cv2
        self.push(st, g, [selfv] + args, dest, target, wrap)
        return [st], []

    def runclosure(self, st, clo, args):
        """explores a closure call to completion on a copy of the state;
        returns list of (state, value); panics are dropped into st.ghost."""
        s2 = st.copy()
        res = []

        def done(s, ret):
            return [], [Outcome('ret1', s, ret)]
        work, outs = self.callclosure(s2, clo, args, done, 0)
        for w in work:
            outs = outs + self.explore(w)
        return outs

    # ---- loops
    def enter_loop(self, st, hd, blocks):
        """None: unroll concretely. Otherwise (exit states, outcomes)."""
        from . import loops
        return loops.enter(self, st, hd, blocks)

    # ---- running a function
    def run(self, fname, args, st=None, ghost=None):
        f = self.P.fn(fname)
        st = st or State()
        if ghost:
            st.ghost.update(ghost)
        # a root frame-less call
        self.push(st, f, args, None, None)
        return self.explore(st)

    def argtypes(self, fname):
        f = self.P.fn(fname)
        return [f['locals'][i + 1] for i in range(f['argc'])]


class Call:
    def __init__(self, eng, c, dest, target, t, fr):
        self.c = c
        self.targs = c.get('targs', [])
        self.dest = dest
        self.target = target
        self.fr = fr
        self.name = (c.get('fn') or {}).get('name', c['def'])
        if isinstance(dest, (list, tuple)):
            self.rty = eng.place_ty(fr, dest) if dest[1] else fr.f['locals'][dest[0]]
        else:
            self.rty = None
