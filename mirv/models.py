"""Assumed contracts of the std functions che uses (the trusted base of mirv)."""
import z3
from .engine import *
from . import engine as E_


def install(eng):
    M = eng.models
    eng.prefix_models = []

    def reg(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    def S(v):
        if not isinstance(v, Str):
            raise Unsupported(f'text expected, got {v!r}'[:160])
        return v

    # ------------------------------------------------------------ formatting
    def display(eng, st, v, kind='display'):
        v = eng.load(st, v)
        if isinstance(v, Str):
            return v
        if isinstance(v, Int):
            if isinstance(v.e, int):
                return Str((str(v.e),))
            return Str((Atom(f'dec({v.e})', ('dec', v.e)),))
        return Str((Atom(f'disp({abs(hash(k(v)))})', ('disp', v)),))

    def display_char(v):
        if isinstance(v.e, int):
            return Str((chr(v.e),))
        return Str((Atom(f'ch({v.e})', ('ch', v.e)),))

    def mkarg(eng, st, args, call):
        t = eng.T[call.targs[0]] if call.targs else None
        v = eng.load(st, args[0])
        while t and t['k'] == 'ref':
            t = eng.T[t['t']]
        if t and t['k'] == 'char':
            return Op('fmtarg', s=display_char(v))
        return Op('fmtarg', s=display(eng, st, v))
    reg("core::fmt::rt::Argument::<'_>::new_display")(mkarg)

    def mkdbg(eng, st, args, call):
        v = eng.load(st, args[0])
        return Op('fmtarg', s=Str((Atom(f'dbg({abs(hash(k(v)))})'),)))
    reg("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex")(mkdbg)

    @reg("std::fmt::Arguments::<'a>::new")
    def arguments_new(eng, st, args, call):
        tpl = [x.e for x in eng.load(st, args[0]).items()]
        av = [eng.load(st, x) for x in eng.load(st, args[1]).items()]
        parts = []
        i = 0
        ai = 0
        while True:
            n = tpl[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                parts.append(bytes(tpl[i:i + n]).decode())
                i += n
            elif n == 0x80:
                ln = tpl[i] | tpl[i + 1] << 8
                i += 2
                parts.append(bytes(tpl[i:i + ln]).decode())
                i += ln
            elif n == 0xC0:
                parts.extend(av[ai].s.p)
                ai += 1
            else:
                opts = False
                if n & 1:
                    i += 4
                    opts = True
                if n & 2:
                    i += 2
                    opts = True
                if n & 4:
                    i += 2
                    opts = True
                if n & 8:
                    ai = tpl[i] | tpl[i + 1] << 8
                    i += 2
                if opts:
                    raise Unsupported('format options')
                parts.extend(av[ai].s.p)
                ai += 1
        return Op('fmtargs', s=Str(parts))

    @reg("std::fmt::Arguments::<'a>::from_str")
    def arguments_from_str(eng, st, args, call):
        return Op('fmtargs', s=S(eng.load(st, args[0])))

    @reg('std::fmt::format')
    def fmt_format(eng, st, args, call):
        return args[0].s

    @reg('std::hint::must_use')
    def must_use(eng, st, args, call):
        return args[0]

    @reg('std::io::_print', 'std::io::_eprint')
    def prints(eng, st, args, call):
        st.ghost['out'] = st.ghost.get('out', ()) + (args[0].s,)
        return UNIT

    @reg('std::rt::panic_fmt', 'std::rt::begin_panic', 'core::panicking::panic', 'std::option::unwrap_failed',
         'std::result::unwrap_failed', 'core::panicking::todo_default_msg', 'core::panicking::panic_fmt',
         'std::option::expect_failed', 'core::panicking::unreachable_display', 'core::panicking::panic_explicit',
         'std::rt::panic_display', 'core::panicking::panic_display', 'core::panicking::assert_failed')
    def panics(eng, st, args, call):
        return Outcome('panic', st, why=f"{call.c['def']} in {call.fr.f['short']}")

    # ------------------------------------------------------------ basic traits
    @reg('std::clone::Clone::clone')
    def clone(eng, st, args, call):
        return eng.deref(st, args[0])

    @reg('std::ops::Deref::deref', 'std::convert::AsRef::as_ref', 'std::string::String::as_str',
         'std::borrow::Borrow::borrow', 'std::vec::Vec::<T, A>::as_slice')
    def deref(eng, st, args, call):
        v = eng.deref(st, args[0])
        if isinstance(v, (BoxV, SRef)) and isinstance(v, BoxV):
            return SRef(v.v)
        if isinstance(v, HBox):
            return SRef(st.heap[v.cell])
        return SRef(v)

    @reg('std::ops::DerefMut::deref_mut')
    def deref_mut(eng, st, args, call):
        return args[0]

    def eq(eng, st, a, b):
        a, b = eng.load(st, a), eng.load(st, b)
        if isinstance(a, Str) and isinstance(b, Str):
            return eng.streq(a, b)
        if isinstance(a, Int) and isinstance(b, Int):
            return a.e == b.e
        if isinstance(a, Bool) and isinstance(b, Bool):
            return B(a.e) == B(b.e)
        if same(a, b):
            return True
        if isinstance(a, Adt) and isinstance(b, Adt) and a.t == b.t and eng.T[a.t]['n'] == 'std::option::Option':
            if a.v != b.v:
                return False
            cs = [eq(eng, st, x, y) for x, y in zip(a.f, b.f)]
            return None if any(c is None for c in cs) else AND(*cs)
        return None

    @reg('core::str::<impl str>::get')
    def str_get(eng, st, args, call):
        s = S(eng.load(st, args[0]))
        r = eng.load(st, args[1])
        if not (isinstance(r, Adt) and eng.T[r.t]['n'] == 'std::ops::Range'):
            raise Unsupported('str::get')
        a, b = r.f[0].e, r.f[1].e
        if not (isinstance(a, int) and isinstance(b, int)):
            raise Unsupported('str::get of an unknown range')
        l = s.lit()
        if l is not None:
            bs = l.encode()
            return option(eng, call.rty, SRef(Str((bs[a:b].decode(),))) if a <= b <= len(bs) else None)
        dom = eng.domain(s)
        if dom is None or any(len(x) < b for x in dom):
            raise Unsupported('str::get of unknown text')
        at = Atom(f'get({s.p[0].name},{a},{b})', ('get', s, a, b))
        if ('get', at.name) not in eng.memo:
            eng.memo[('get', at.name)] = True
            for x in dom:
                eng.axioms.append(z3.Implies(eng.strterm(s) == eng.strterm(Str((x,))),
                                             eng.strterm(Str((at,))) == eng.strterm(Str((x[a:b],)))))
        return option(eng, call.rty, SRef(Str((at,))))

    @reg('std::cmp::PartialEq::eq')
    def peq(eng, st, args, call):
        r = eq(eng, st, args[0], args[1])
        if r is None:
            return inline(eng, st, args, call)
        return Bool(r)

    @reg('std::cmp::PartialEq::ne')
    def pne(eng, st, args, call):
        r = eq(eng, st, args[0], args[1])
        if r is None:
            raise Unsupported('ne')
        return Bool(NOT(r))

    def inline(eng, st, args, call):
        fn = call.c.get('fn')
        if fn and fn['body'] and fn['key'] in eng.P.fns:
            eng.push(st, eng.P.fns[fn['key']], args, call.dest, call.target)
            return ('states', [st], [])
        raise Unsupported(f'no model for {call.name}')

    @reg('std::convert::From::from', 'std::convert::Into::into', 'std::borrow::ToOwned::to_owned')
    def from_(eng, st, args, call):
        v = args[0]
        w = eng.load(st, v) if isinstance(v, (SRef, MRef)) else v
        if isinstance(w, Str):
            t = eng.T[call.rty] if call.rty is not None else None
            if t is None or (t['k'] == 'adt' and t['n'] == 'std::string::String'):
                return w
            if t['k'] == 'adt' and t.get('box'):
                return Op('boxedstr', s=w)
        if call.rty is not None and len(call.targs) >= 2 and call.targs[0] == call.targs[1]:
            return v
        if isinstance(w, Seq):
            return w
        raise Unsupported(f'From::from {call.name}')

    @reg('std::string::ToString::to_string')
    def to_string(eng, st, args, call):
        t = eng.T[call.targs[0]] if call.targs else None
        v = eng.load(st, args[0])
        if t and t['k'] == 'char':
            return display_char(v)
        return display(eng, st, v)

    @reg('std::ops::AddAssign::add_assign')
    def add_assign(eng, st, args, call):
        cur = eng.load(st, args[0])
        if isinstance(cur, Str):
            eng.store(st, args[0], Str(cur.p + S(eng.load(st, args[1])).p))
            return UNIT
        raise Unsupported('add_assign')

    @reg('std::ops::Add::add')
    def add(eng, st, args, call):
        a = eng.load(st, args[0])
        b = eng.load(st, args[1])
        if isinstance(a, Str):
            return Str(a.p + S(b).p)
        raise Unsupported('add')

    # ------------------------------------------------------------ strings
    @reg('std::string::String::new')
    def string_new(eng, st, args, call):
        return Str(())

    @reg('std::string::String::with_capacity')
    def string_cap(eng, st, args, call):
        return Str(())

    @reg('std::string::String::push_str')
    def push_str(eng, st, args, call):
        return add_assign(eng, st, args, call)

    @reg('std::string::String::push')
    def push(eng, st, args, call):
        cur = eng.load(st, args[0])
        eng.store(st, args[0], Str(cur.p + display_char(args[1]).p))
        return UNIT

    @reg('std::str::<impl str>::repeat')
    def repeat(eng, st, args, call):
        s = S(eng.load(st, args[0]))
        n = args[1].e
        if isinstance(n, int) and s.lit() is not None:
            return Str((s.lit() * n,))
        return Str((Atom(f'repeat({s.p},{n})', ('repeat', s, n)),))

    def lenof(eng, s):
        n = 0
        for x in s.p:
            if isinstance(x, str):
                n = n + len(x.encode())
            else:
                v = z3.Int('slen!' + x.name)
                if ('slen', x.name) not in eng.memo:
                    eng.memo[('slen', x.name)] = v
                    eng.axioms.append(z3.And(v >= 0, v < 2 ** 62))
                    eng.axioms.append((v == 0) == (eng.strterm(Str((x,))) == eng.strterm(Str(()))))
                n = n + v
        return n

    @reg('core::str::<impl str>::len', 'std::string::String::len')
    def strlen(eng, st, args, call):
        return Int(lenof(eng, S(eng.load(st, args[0]))))

    @reg('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
    def str_is_empty(eng, st, args, call):
        return Bool(eng.streq(S(eng.load(st, args[0])), Str(())))

    def opaque_bool(name):
        def f(eng, st, args, call):
            vs = [eng.load(st, a) for a in args]
            if name in ('ends_with', 'starts_with') and isinstance(vs[0], Str) and isinstance(vs[1], Str):
                a, b = vs[0], vs[1].lit()
                if b is not None:
                    if a.lit() is not None:
                        return Bool(getattr(a.lit(), name.replace('_', ''))(b))
                    if name == 'ends_with' and a.p and isinstance(a.p[-1], str) and len(a.p[-1]) >= len(b):
                        return Bool(a.p[-1].endswith(b))
                    if name == 'starts_with' and a.p and isinstance(a.p[0], str) and len(a.p[0]) >= len(b):
                        return Bool(a.p[0].startswith(b))
                    c = z3.Bool(f'{name}({[k(v) for v in vs]})')
                    eng.axioms.append(z3.Implies(c, lenof(eng, a) >= len(b.encode())))
                    return Bool(c)
            return Bool(z3.Bool(f'{name}({[k(v) for v in vs]})'))
        return f
    M['core::str::<impl str>::ends_with'] = opaque_bool('ends_with')
    M['core::str::<impl str>::starts_with'] = opaque_bool('starts_with')
    def str_contains(eng, st, args, call):
        a, b = eng.load(st, args[0]), eng.load(st, args[1])
        if isinstance(a, Str) and a.lit() is not None:
            if isinstance(b, Int):
                return Bool(chr(b.e) in a.lit() if isinstance(b.e, int) else OR(*[b.e == ord(x) for x in a.lit()]))
            if isinstance(b, Str) and b.lit() is not None:
                return Bool(b.lit() in a.lit())
        return opaque_bool('contains')(eng, st, args, call)
    M['core::str::<impl str>::contains'] = str_contains

    def opaque_text(name):
        def f(eng, st, args, call):
            vs = [eng.load(st, a) for a in args]
            if all(isinstance(v, Str) and v.lit() is not None for v in vs):
                a = [v.lit() for v in vs]
                if name == 'trim':
                    r = a[0].strip()
                elif name == 'trim_end':
                    r = a[0].rstrip()
                elif name == 'replace':
                    r = a[0].replace(a[1], a[2])
                else:
                    raise Unsupported(name)
                return SRef(Str((r,))) if name.startswith('trim') else Str((r,))
            s = Str((Atom(f'{name}({[k(v) for v in vs]})', (name,) + tuple(vs)),))
            return SRef(s) if name.startswith('trim') else s
        return f
    M['core::str::<impl str>::trim'] = opaque_text('trim')
    M['core::str::<impl str>::trim_end'] = opaque_text('trim_end')
    M['core::str::<impl str>::trim_start'] = opaque_text('trim_start')
    M['std::str::<impl str>::replace'] = opaque_text('replace')

    @reg('substring::Substring::substring')
    def substring(eng, st, args, call):
        v = S(eng.load(st, args[0]))
        return SRef(Str((Atom(f'substring({k(v)},{args[1].e},{args[2].e})', ('substring', v, args[1].e, args[2].e)),)))

    def charpred(name, f):
        def g(eng, st, args, call):
            v = eng.load(st, args[0])
            c = v.e
            if isinstance(c, int):
                return Bool(bool(f(chr(c))))
            return Bool(charclass(eng, name, c))
        return g

    def charclass(eng, name, c):
        az = z3.Or(z3.And(c >= 97, c <= 122), z3.And(c >= 65, c <= 90))
        dg = z3.And(c >= 48, c <= 57)
        if name == 'is_ascii_alphabetic':
            return az
        if name == 'is_ascii_digit':
            return dg
        if name == 'is_ascii_alphanumeric':
            return z3.Or(az, dg)
        if name == 'is_alphanumeric':
            u = z3.Function('uni_alnum', z3.IntSort(), z3.BoolSort())
            return z3.If(c < 128, z3.Or(az, dg), u(c))
        raise Unsupported(name)
    eng.charclass = charclass
    for n, f in [('is_ascii_alphabetic', lambda x: x.isascii() and x.isalpha()),
                 ('is_ascii_digit', lambda x: x.isascii() and x.isdigit()),
                 ('is_ascii_alphanumeric', lambda x: x.isascii() and x.isalnum()),
                 ('is_alphanumeric', lambda x: x.isalnum())]:
        M['std::char::methods::<impl char>::' + n] = charpred(n, f)

    @reg('core::str::<impl str>::parse')
    def parse(eng, st, args, call):
        v = S(eng.load(st, args[0]))
        return eng.make(call.rty, f'parse({k(v)})')

    # ------------------------------------------------------------ vectors
    @reg('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
    def vec_new(eng, st, args, call):
        return Seq((), call.rty)

    @reg('std::collections::VecDeque::<T>::new')
    def vd_new(eng, st, args, call):
        return Seq((), call.rty)

    @reg('std::vec::Vec::<T, A>::push', 'std::collections::VecDeque::<T, A>::push_back')
    def vec_push(eng, st, args, call):
        cur = eng.load(st, args[0])
        eng.store(st, args[0], Seq(cur.p + (('e', args[1]),), cur.t))
        return UNIT

    @reg('std::collections::VecDeque::<T, A>::push_front')
    def push_front(eng, st, args, call):
        cur = eng.load(st, args[0])
        eng.store(st, args[0], Seq((('e', args[1]),) + cur.p, cur.t))
        return UNIT

    @reg('std::vec::Vec::<T, A>::insert')
    def vec_insert(eng, st, args, call):
        cur = eng.load(st, args[0])
        i = args[1].e
        if isinstance(i, int) and all(x[0] == 'e' for x in cur.p[:i]):
            eng.store(st, args[0], Seq(cur.p[:i] + (('e', args[2]),) + cur.p[i:], cur.t))
            return UNIT
        eng.store(st, args[0], Seq((('s', SymSeq(f'ins#{next(eng.uid)}', eng.seq_et(cur), ('insert', cur, i, args[2]))),), cur.t))
        return UNIT

    @reg('std::vec::Vec::<T, A>::remove')
    def vec_remove(eng, st, args, call):
        cur = eng.load(st, args[0])
        i = args[1].e
        if not isinstance(i, int) or any(x[0] != 'e' for x in cur.p[:i + 1]):
            raise Unsupported('remove from an unknown list')
        if i >= len(cur.p):
            return Outcome('panic', st, why='remove out of bounds')
        eng.store(st, args[0], Seq(cur.p[:i] + cur.p[i + 1:], cur.t))
        return cur.p[i][1]

    @reg('std::vec::Vec::<T, A>::truncate')
    def vec_truncate(eng, st, args, call):
        cur = eng.load(st, args[0])
        i = args[1].e
        if not isinstance(i, int) or not cur.concrete():
            raise Unsupported('truncate of an unknown list')
        eng.store(st, args[0], Seq(cur.p[:i], cur.t))
        return UNIT

    @reg('std::vec::Vec::<T, A>::append')
    def vec_append(eng, st, args, call):
        a = eng.load(st, args[0])
        b = eng.load(st, args[1])
        eng.store(st, args[0], Seq(a.p + b.p, a.t))
        eng.store(st, args[1], Seq((), b.t))
        return UNIT

    @reg('std::vec::Vec::<T, A>::extend_from_slice')
    def vec_extend(eng, st, args, call):
        a = eng.load(st, args[0])
        b = eng.load(st, args[1])
        eng.store(st, args[0], Seq(a.p + b.p, a.t))
        return UNIT

    def veclen(eng, st, v):
        v = eng.load(st, v)
        if not isinstance(v, Seq):
            raise Unsupported(f'len of {v!r}'[:100])
        return eng.seqlen(v)

    @reg('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'std::collections::VecDeque::<T, A>::len')
    def vec_len(eng, st, args, call):
        return Int(veclen(eng, st, args[0]))

    @reg('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
    def vec_is_empty(eng, st, args, call):
        n = veclen(eng, st, args[0])
        return Bool(n == 0)

    @reg('std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec')
    def to_vec(eng, st, args, call):
        v = eng.load(st, args[0])
        return Seq(v.p, call.rty)

    @reg('std::boxed::Box::<T>::new')
    def box_new(eng, st, args, call):
        return BoxV(args[0])

    @reg('std::boxed::Box::<T>::new_uninit')
    def new_uninit(eng, st, args, call):
        c = ('H', next(eng.uid))
        st.heap[c] = Op('uninit')
        return HBox(c)

    @reg('std::boxed::box_assume_init_into_vec_unsafe')
    def assume_init(eng, st, args, call):
        v = st.heap[args[0].cell]
        return Seq(v.p, call.rty)

    def option(eng, tid, v):
        vi = eng.P.variant(tid, 'None' if v is None else 'Some')
        return Adt(tid, vi, () if v is None else (v,))
    eng.option = option

    @reg('std::vec::Vec::<T, A>::pop')
    def vec_pop(eng, st, args, call):
        cur = eng.load(st, args[0])
        if not cur.p:
            return option(eng, call.rty, None)
        last = cur.p[-1]
        if last[0] == 'e':
            eng.store(st, args[0], Seq(cur.p[:-1], cur.t))
            return option(eng, call.rty, last[1])
        ss = last[1]
        n = eng.seqlen(Seq((last,)))
        out = []
        if eng.feasible(st, n > 0):
            s1 = st.copy().assume(n > 0)
            nm = SymSeq(f'{ss.name}[..-1]', ss.et, ('init', ss))
            eng.store(s1, args[0], Seq(cur.p[:-1] + (('s', nm),), cur.t))
            out.append((s1, option(eng, call.rty, eng.elem(ss, n - 1))))
        if len(cur.p) == 1 and eng.feasible(st, n == 0):
            s2 = st.copy().assume(n == 0)
            out.append((s2, option(eng, call.rty, None)))
        return out

    @reg('std::collections::VecDeque::<T, A>::pop_front')
    def pop_front(eng, st, args, call):
        cur = eng.load(st, args[0])
        if not cur.p:
            return option(eng, call.rty, None)
        if cur.p[0][0] == 'e':
            eng.store(st, args[0], Seq(cur.p[1:], cur.t))
            return option(eng, call.rty, cur.p[0][1])
        raise Unsupported('pop_front of unknown queue')

    @reg('core::slice::<impl [T]>::get', 'std::collections::VecDeque::<T, A>::get')
    def slice_get(eng, st, args, call):
        v = eng.load(st, args[0])
        i = args[1]
        if not isinstance(v, Seq) or not isinstance(i, Int):
            raise Unsupported('get of a range')
        n = eng.seqlen(v)
        c = I(i.e) < I(n)
        out = []
        if eng.feasible(st, c):
            s1 = st.copy().assume(c)
            out.append((s1, option(eng, call.rty, SRef(eng.index(s1, v, i.e)))))
        if eng.feasible(st, NOT(c)):
            out.append((st.copy().assume(NOT(c)), option(eng, call.rty, None)))
        return out

    def first_last(which):
        def f(eng, st, args, call):
            v = eng.load(st, args[0])
            if v.concrete():
                it = v.items()
                return option(eng, call.rty, SRef(it[0 if which == 'first' else -1]) if it else None)
            n = eng.seqlen(v)
            out = []
            if eng.feasible(st, n > 0):
                idx = 0 if which == 'first' else z3.simplify(I(n) - 1)
                s1 = st.copy().assume(n > 0)
                out.append((s1, option(eng, call.rty, SRef(eng.index(s1, v, idx)))))
            if eng.feasible(st, n == 0):
                out.append((st.copy().assume(n == 0), option(eng, call.rty, None)))
            return out
        return f
    M['core::slice::<impl [T]>::first'] = first_last('first')
    M['core::slice::<impl [T]>::last'] = first_last('last')

    @reg('core::slice::<impl [T]>::reverse')
    def reverse(eng, st, args, call):
        v = eng.load(st, args[0])
        if v.concrete():
            eng.store(st, args[0], Seq(v.p[::-1], v.t))
        else:
            eng.store(st, args[0], Seq((('s', SymSeq(f'rev({k(v)})', eng.seq_et(v), ('rev', v))),), v.t))
        return UNIT

    @reg('core::slice::<impl [T]>::contains')
    def contains(eng, st, args, call):
        v = eng.load(st, args[0])
        x = args[1]
        if v.concrete():
            cs = []
            for y in v.items():
                r = eq(eng, st, y, x)
                if r is None:
                    raise Unsupported('contains on ' + repr(y)[:60])
                cs.append(r)
            return Bool(OR(*cs))
        found = z3.Bool(f'contains({k(v)},{k(eng.load(st, x))})')
        arb = eng.arb(v) if eng.arb and isinstance(v, Seq) else None
        y = S(eng.load(st, x)) if arb is not None and isinstance(eng.load(st, x), (Str, SRef)) else None
        if y is not None:
            qid = f'contains!{eng.qids.setdefault(str(found), len(eng.qids))}'
            w, n = z3.Int('at ' + qid), I(eng.seqlen(v))
            test = lambda at: B(eng.streq(S(eng.elem(v.p[0][1], at)), y))
            about_all(eng, v, qid, w, lambda at: z3.Implies(z3.And(at >= 0, at < n, z3.Not(found)), z3.Not(test(at))))
            eng.axioms.append(z3.Implies(found, z3.And(w >= 0, w < n, test(w))))
        return Bool(found)

    def about_all(eng, seq, qid, w, fact):
        """a search over a list looked at w and says fact(i) of every index i: used
        at an arbitrary index and at those that other searches of the list give"""
        seen = eng.indexes.setdefault(k(seq), [])
        univ = eng.univ.setdefault(k(seq), {})
        if not any(w.eq(x) for x in seen):
            seen.append(w)
            for g in univ.values():
                eng.axioms.append(g(w))
        if qid not in univ:
            univ[qid] = fact
            for at in seen + [eng.arb(seq)]:
                eng.axioms.append(fact(at))

    @reg('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::collections::VecDeque::<T, A>::iter')
    def slice_iter(eng, st, args, call):
        if isinstance(args[0], MRef) and call.c['def'].endswith('iter_mut'):
            return Op('it', k='seqmut', ref=args[0], i=0)
        return Op('it', k='seq', seq=eng.load(st, args[0]), i=0, mode='ref')

    @reg('std::iter::IntoIterator::into_iter')
    def into_iter(eng, st, args, call):
        v = args[0]
        if isinstance(v, Op) and v.kind == 'it':
            return v
        if isinstance(v, Seq):
            return Op('it', k='seq', seq=v, i=0, mode='val')
        if isinstance(v, (SRef, MRef)):
            w = eng.load(st, v)
            if isinstance(w, Seq):
                if isinstance(v, MRef):
                    return Op('it', k='seqmut', ref=v, i=0)
                return Op('it', k='seq', seq=w, i=0, mode='ref')
        if isinstance(v, Adt) and 'Range' in eng.T[v.t]['n']:
            return Op('it', k='range', lo=v.f[0].e, hi=v.f[1].e)
        raise Unsupported(f'into_iter of {v!r}'[:120])

    def itval(eng, st, v):
        v = eng.load(st, v)
        if isinstance(v, Adt) and 'Range' in eng.T[v.t]['n']:
            return Op('it', k='range', lo=v.f[0].e, hi=v.f[1].e)
        if not (isinstance(v, Op) and v.kind == 'it'):
            raise Unsupported(f'iterator expected: {v!r}'[:100])
        return v
    eng.itval = itval

    def concrete_it(it):
        if it.k == 'seq':
            return it.seq.concrete() and isinstance(it.i, int)
        if it.k == 'range':
            return isinstance(it.lo, int) and isinstance(it.hi, int)
        if it.k in ('enum', 'map', 'rev', 'filter', 'take', 'peekable'):
            return concrete_it(it.inner)
        if it.k in ('chain', 'zip'):
            return concrete_it(it.a) and concrete_it(it.b)
        if it.k == 'list':
            return True
        if it.k == 'seqmut':
            return isinstance(it.i, int)
        return False
    eng.concrete_it = concrete_it

    def nexts(eng, st, it):
        """-> list of (state, iterator', item or None)"""
        if it.k == 'seq':
            seq = it.seq
            w = (lambda x: SRef(x)) if it.mode == 'ref' else (lambda x: x)
            if seq.concrete() and isinstance(it.i, int):
                items = seq.items()
                if it.i < len(items):
                    return [(st, it.with_(i=it.i + 1), w(items[it.i]))]
                return [(st, it, None)]
            n = eng.seqlen(seq)
            out = []
            c = I(it.i) < I(n)
            c2 = I(it.i) >= I(n)
            if eng.feasible(st, c):
                s1 = st.copy().assume(c)
                el = eng.index(s1, seq, it.i)
                out.append((s1, it.with_(i=(it.i + 1 if isinstance(it.i, int) else z3.simplify(it.i + 1))), w(el)))
            if eng.feasible(st, c2):
                s2 = st.copy().assume(c2)
                out.append((s2, it, None))
            return out
        if it.k == 'seqmut':
            seq = eng.load(st, it.ref)
            r = it.ref
            while True:
                cur = eng.project(st, eng.readcell(st, r.cell), r.path)
                if isinstance(cur, MRef):
                    r = cur
                else:
                    break
            if seq.concrete() and isinstance(it.i, int):
                if it.i < len(seq.p):
                    return [(st, it.with_(i=it.i + 1), MRef(r.cell, r.path + (('idx', it.i),)))]
                return [(st, it, None)]
            raise Unsupported('iter_mut over unknown sequence')
        if it.k == 'range':
            lo, hi = it.lo, it.hi
            if isinstance(lo, int) and isinstance(hi, int):
                if lo < hi:
                    return [(st, it.with_(lo=lo + 1), Int(lo))]
                return [(st, it, None)]
            out = []
            c = I(lo) < I(hi)
            if eng.feasible(st, c):
                s1 = st.copy().assume(c)
                out.append((s1, it.with_(lo=lo + 1 if isinstance(lo, int) else z3.simplify(lo + 1)), Int(lo)))
            if eng.feasible(st, NOT(c)):
                out.append((st.copy().assume(NOT(c)), it, None))
            return out
        if it.k == 'enum':
            out = []
            for s, inn, x in nexts(eng, st, it.inner):
                if x is None:
                    out.append((s, it.with_(inner=inn), None))
                else:
                    nn = it.n + 1 if isinstance(it.n, int) else z3.simplify(it.n + 1)
                    out.append((s, it.with_(inner=inn, n=nn), Tup((Int(it.n), x))))
            return out
        if it.k == 'map':
            out = []
            for s, inn, x in nexts(eng, st, it.inner):
                if x is None:
                    out.append((s, it.with_(inner=inn), None))
                else:
                    for o in eng.runclosure(s, it.clo, [x]):
                        if o.kind == 'panic':
                            out.append((o.state, it, o))
                        else:
                            out.append((o.state, it.with_(inner=inn), o.ret))
            return out
        if it.k == 'rev':
            inn = it.inner
            if concrete_it(inn):
                items = drain(eng, st, inn)
                if not items:
                    return [(st, it, None)]
                return [(st, Op('it', k='list', items=tuple(items[::-1][1:])), items[-1])]
        if it.k == 'list':
            if it.items:
                return [(st, it.with_(items=it.items[1:]), it.items[0])]
            return [(st, it, None)]
        if it.k == 'take':
            if it.n == 0:
                return [(st, it, None)]
            return [(s, it.with_(inner=inn, n=it.n if x is None else it.n - 1), x) for s, inn, x in nexts(eng, st, it.inner)]
        if it.k == 'chain':
            out = []
            for s, a, x in nexts(eng, st, it.a):
                if x is None:
                    out += [(s2, it.with_(a=a, b=b), y) for s2, b, y in nexts(eng, s, it.b)]
                else:
                    out.append((s, it.with_(a=a), x))
            return out
        if it.k == 'zip':
            out = []
            for s, a, x in nexts(eng, st, it.a):
                if x is None or isinstance(x, Outcome):
                    out.append((s, it.with_(a=a), x))
                    continue
                for s2, b, y in nexts(eng, s, it.b):
                    out.append((s2, it.with_(a=a, b=b), y if y is None or isinstance(y, Outcome) else Tup((x, y))))
            return out
        if it.k == 'filter' and concrete_it(it.inner):
            out, work = [], [(st, it.inner)]
            while work:
                s, inn = work.pop()
                for s1, inn1, x in nexts(eng, s, inn):
                    if x is None or isinstance(x, Outcome):
                        out.append((s1, it.with_(inner=inn1), x))
                        continue
                    for o in eng.runclosure(s1, it.clo, [SRef(x)]):
                        if o.kind == 'panic':
                            out.append((o.state, it, o))
                            continue
                        c = o.ret.e
                        if eng.feasible(o.state, c):
                            out.append((o.state.copy().assume(c), it.with_(inner=inn1), x))
                        if eng.feasible(o.state, NOT(c)):
                            work.append((o.state.copy().assume(NOT(c)), inn1))
            return out
        raise Unsupported(f'next of {it.k}')
    eng.nexts = nexts

    def drain(eng, st, it):
        """all items of a concrete iterator whose steps do not fork"""
        out = []
        while True:
            r = nexts(eng, st, it)
            if len(r) != 1:
                raise Unsupported('forking iterator')
            _, it, x = r[0]
            if x is None:
                return out
            if isinstance(x, Outcome):
                raise Unsupported('panicking iterator')
            out.append(x)
    eng.drain = drain

    @reg('std::iter::Iterator::last')
    def it_last(eng, st, args, call):
        it = itval(eng, st, args[0])
        if not eng.concrete_it(it):
            if it.k == 'split':
                s = SRef(Str((Atom(f'last({k(it.s)},{it.sep})', ('last', it.s, it.sep)),)))
                return option(eng, call.rty, s)
            raise Unsupported('last of ' + it.k)
        xs = drain(eng, st, it)
        return option(eng, call.rty, xs[-1] if xs else None)

    @reg('std::iter::Iterator::next')
    def it_next(eng, st, args, call):
        it = itval(eng, st, args[0])
        out = []
        for s, it2, x in nexts(eng, st, it):
            if isinstance(x, Outcome):
                out.append((s, x))
                continue
            v = eng.load(s, args[0])
            if isinstance(v, Adt):   # a bare Range
                eng.store(s, args[0], Adt(v.t, v.v, (Int(it2.lo), Int(it2.hi))))
            else:
                eng.store(s, args[0], it2)
            out.append((s, option(eng, call.rty, x)))
        return out

    @reg('std::iter::Iterator::enumerate')
    def enumerate_(eng, st, args, call):
        return Op('it', k='enum', inner=itval(eng, st, args[0]), n=0)

    @reg('std::iter::Iterator::skip')
    def skip(eng, st, args, call):
        it, n = itval(eng, st, args[0]), args[1].e
        if not isinstance(n, int):
            raise Unsupported('skip of an unknown number')
        if it.k == 'seq' and isinstance(it.i, int):
            return it.with_(i=it.i + n)
        if concrete_it(it):
            return Op('it', k='list', items=tuple(drain(eng, st, it)[n:]))
        raise Unsupported('skip')

    @reg('std::iter::Iterator::take')
    def take(eng, st, args, call):
        it, n = itval(eng, st, args[0]), args[1].e
        if not isinstance(n, int):
            raise Unsupported('take of an unknown number')
        return Op('it', k='take', inner=it, n=n)

    @reg('std::iter::Iterator::chain')
    def chain(eng, st, args, call):
        return Op('it', k='chain', a=itval(eng, st, args[0]), b=into_iter(eng, st, args[1:], call))

    @reg('std::iter::Iterator::zip')
    def zip_(eng, st, args, call):
        return Op('it', k='zip', a=itval(eng, st, args[0]), b=into_iter(eng, st, args[1:], call))

    def folded(eng, st, it, acc, step):
        """(state, value) per path of a fold over a concrete iterator"""
        if not concrete_it(it):
            raise Unsupported('fold over unknown data')
        out, work = [], [(st, it, acc)]
        while work:
            s, i2, a = work.pop()
            for s2, i3, x in nexts(eng, s.copy(), i2):
                if isinstance(x, Outcome):
                    out.append((s2, x))
                elif x is None:
                    out.append((s2, a))
                else:
                    for o in step(s2, a, x):
                        if o.kind == 'panic':
                            out.append((o.state, o))
                        else:
                            work.append((o.state, i3, o.ret))
        return out

    @reg('std::iter::Iterator::fold')
    def fold(eng, st, args, call):
        return folded(eng, st, itval(eng, st, args[0]), args[1], lambda s, a, x: eng.runclosure(s, args[2], [a, x]))

    @reg('std::iter::Iterator::for_each')
    def for_each(eng, st, args, call):
        return folded(eng, st, itval(eng, st, args[0]), Tup(()), lambda s, a, x: eng.runclosure(s, args[1], [x]))

    @reg('std::iter::Iterator::rev')
    def rev(eng, st, args, call):
        return Op('it', k='rev', inner=itval(eng, st, args[0]))

    @reg('std::iter::Iterator::map')
    def map_(eng, st, args, call):
        return Op('it', k='map', inner=itval(eng, st, args[0]), clo=args[1])

    @reg('std::iter::Iterator::filter')
    def filter_(eng, st, args, call):
        return Op('it', k='filter', inner=itval(eng, st, args[0]), clo=args[1])

    @reg('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
    def cloned(eng, st, args, call):
        it = itval(eng, st, args[0])
        if it.k == 'seq':
            return it.with_(mode='val')
        raise Unsupported('cloned')

    def base_seq(it):
        """(sequence, per-item wrapper) of a plain iterator over one unknown sequence"""
        if it.k == 'seq' and not it.seq.concrete() and it.i == 0:
            return it
        return None

    def strsplit_it(it):
        return it.k == 'split'

    @reg('std::iter::Extend::extend')
    def extend(eng, st, args, call):
        a = eng.load(st, args[0])
        it = into_iter(eng, st, args[1:], call)
        if not isinstance(a, Seq):
            raise Unsupported('extend of ' + repr(a)[:60])
        if it.k == 'seq' and it.i == 0:
            parts = it.seq.p
        elif concrete_it(it):
            parts = tuple(('e', strip_ref(x)) for x in drain(eng, st, it))
        else:
            raise Unsupported('extend by an unknown iterator')
        eng.store(st, args[0], Seq(a.p + tuple(parts), a.t))
        return UNIT

    def strip_ref(x):
        return x.v if isinstance(x, SRef) else x

    @reg('std::iter::Iterator::collect')
    def collect(eng, st, args, call):
        it = itval(eng, st, args[0])
        t = eng.T[call.rty]
        wrap = None
        if t['k'] == 'adt' and t['n'] in ('std::result::Result', 'std::option::Option'):
            wrap = t
            inner_t = t['args'][0]
            t = eng.T[inner_t]
        if not (t['k'] == 'adt' and t['n'] == 'std::vec::Vec'):
            raise Unsupported('collect into ' + str(t.get('n')))
        if concrete_it(it):
            out = []
            work = [(st, it, ())]
            while work:
                s, i2, acc = work.pop()
                for s2, i3, x in nexts(eng, s.copy(), i2):
                    if isinstance(x, Outcome):
                        out.append((s2, x))
                    elif x is None:
                        v = Seq(acc, call.rty if wrap is None else inner_t)
                        if wrap is not None:
                            good = 'Ok' if wrap['n'].endswith('Result') else 'Some'
                            v = Adt(call.rty, eng.P.variant(call.rty, good), (v,))
                        out.append((s2, v))
                    elif wrap is None:
                        work.append((s2, i3, acc + (('e', x),)))
                    else:
                        good = eng.P.variant(x.t, 'Ok' if wrap['n'].endswith('Result') else 'Some')
                        d = eng.discr(x).e
                        c = (d == good)
                        if eng.feasible(s2, c):
                            work.append((s2.copy().assume(c), i3, acc + (('e', eng.child(x, good, 0)),)))
                        if eng.feasible(s2, NOT(c)):
                            bad = 1 - good
                            fs = () if not eng.T[x.t]['v'][bad]['f'] else (eng.child(x, bad, 0),)
                            out.append((s2.copy().assume(NOT(c)), Adt(call.rty, eng.P.variant(call.rty, 'Err' if fs else 'None'), fs)))
            return out
        if wrap is not None:
            raise Unsupported('collect of results over unknown data')
        if it.k == 'seq' and it.i == 0:
            return Seq(it.seq.p, call.rty)
        if it.k == 'map':
            inner = it.inner
            gen, src = generic_item(eng, st, inner)
            outs = eng.runclosure(src[1], it.clo, [gen])
            rets = [o for o in outs if o.kind != 'panic']
            pans = [o for o in outs if o.kind == 'panic']
            if len(rets) == 1:
                o = rets[0]
                ss = SymSeq(f'map#{next(eng.uid)}', t['args'][0],
                            ('map', inner, src[0], o.ret, o.state.pc[len(src[1].pc):], it.clo, st))
                n = z3.Int('len!' + ss.name)
                eng.memo[('len', ss.name)] = n
                eng.axioms.append(n == I(it_len(eng, inner)))
                # effects of the closure on the state must be none
                return Seq((('s', ss),), call.rty)
            # several outcomes: keep them as a guarded map
            ss = SymSeq(f'map#{next(eng.uid)}', t['args'][0],
                        ('gmap', inner, src[0], tuple((o.state.pc[len(src[1].pc):], o.ret) for o in rets), it.clo, st))
            n = z3.Int('len!' + ss.name)
            eng.memo[('len', ss.name)] = n
            eng.axioms.append(n == I(it_len(eng, inner)))
            return Seq((('s', ss),), call.rty)
        if it.k == 'chars':
            return Seq((('s', SymSeq(f'chars({k(it.s)})', t['args'][0], ('chars', it.s))),), call.rty)
        raise Unsupported(f'collect of {it.k}')

    def it_len(eng, it):
        if it.k == 'seq':
            return eng.seqlen(it.seq)
        if it.k in ('enum', 'map', 'rev'):
            return it_len(eng, it.inner)
        if it.k == 'split':
            v = z3.Int(f'nsplit({k(it.s)},{it.sep})')
            return v
        raise Unsupported('it_len ' + it.k)

    def generic_item(eng, st, it):
        """an arbitrary item of an iterator over unknown data: (item, (index, state))"""
        idx = z3.Int(f'j#{next(eng.uid)}')
        s = st.copy()
        if it.k == 'seq':
            if len(it.seq.p) == 1 and it.seq.p[0][0] == 's' and it.i == 0:
                s.assume(z3.And(idx >= 0, idx < eng.seqlen(it.seq)))
                x = eng.elem(it.seq.p[0][1], idx)
                return (SRef(x) if it.mode == 'ref' else x), (idx, s)
        if it.k == 'enum' and it.n == 0:
            x, (i, s) = generic_item(eng, st, it.inner)
            return Tup((Int(i), x)), (i, s)
        if it.k == 'split':
            return SRef(Str((Atom(f'piece({k(it.s)},{it.sep},{idx})', ('piece', it.s, it.sep, idx)),))), (idx, s)
        raise Unsupported(f'generic item of {it.k}')
    eng.generic_item = generic_item

    @reg('std::slice::<impl [T]>::join', 'std::slice::Join::join')
    def join(eng, st, args, call):
        v = eng.load(st, args[0])
        sep = S(eng.load(st, args[1]))
        if v.concrete():
            parts = []
            for i, x in enumerate(v.items()):
                if i:
                    parts.extend(sep.p)
                parts.extend(S(eng.load(st, x)).p)
            return Str(parts)
        return Str((Atom(f'join({k(v)},{k(sep)})', ('join', v, sep)),))

    @reg('std::slice::<impl [T]>::concat')
    def concat(eng, st, args, call):
        v = eng.load(st, args[0])
        if v.concrete():
            parts, seq = [], []
            for x in v.items():
                x = eng.load(st, x)
                if isinstance(x, Seq):
                    seq.extend(x.p)
                else:
                    parts.extend(S(x).p)
            return Seq(seq) if seq else Str(parts)
        return Str((Atom(f'join({k(v)},)', ('join', v, Str(()))),))

    # searches: concrete sequences are decided element by element, unknown
    # ones give an opaque answer that remembers the question
    def search(kind):
        def f(eng, st, args, call):
            it = itval(eng, st, args[0])
            clo = args[1]
            if concrete_it(it):
                return search_concrete(eng, st, it, clo, kind, call)
            base = it
            revd = False
            if kind == 'any' and it.k == 'seq' and it.i == 0 and len(it.seq.p) > 1:
                acc = [(st, False)]
                for part in it.seq.p:
                    nxt = []
                    for s, c in acc:
                        sub = f(eng, s, [it.with_(seq=Seq((part,), it.seq.t)), clo], call)
                        for s2, r in (sub if isinstance(sub, list) else [(s, sub)]):
                            nxt.append((s2, OR(c, r.e)))
                    acc = nxt
                return [(s, Bool(c)) for s, c in acc]
            if base.k == 'rev':
                base = base.inner
                revd = True
            gen, (idx, s1) = generic_item(eng, st, base)
            parg = SRef(gen) if kind == 'find' else gen
            outs = eng.runclosure(s1, clo, [parg])
            outs = [o for o in outs if o.kind != 'panic']
            n = it_len(eng, base)
            base_pc = len(s1.pc)
            if kind == 'find_map':
                nm = f'find_map#{next(eng.uid)}'
                r = eng.make(call.rty, nm)
                st.ghost.setdefault('searches', ())
                st.ghost['searches'] = st.ghost['searches'] + ((nm, kind, base, idx, tuple((o.state.pc[base_pc:], o.ret) for o in outs), revd, st.pc),)
                return r
            # predicate as a formula over the index
            disj = []
            for o in outs:
                c = o.ret.e
                disj.append(AND(*(list(o.state.pc[base_pc:]) + [c])))
            pred = OR(*disj)
            qid = f'{kind}:{k(base)}:{z3.simplify(B(subst(B(pred), idx, z3.Int("J!"))))}'
            arb = eng.arb(base.seq) if eng.arb and base.k == 'seq' and base.i == 0 else None
            if arb is not None:
                qid = f'{kind}!{eng.qids.setdefault(qid, len(eng.qids))}'
            found = z3.Bool('found ' + qid)
            w = z3.Int('at ' + qid)
            info = (kind, base, idx, pred, revd)
            eng.memo.setdefault(('search', str(found)), info)
            if arb is not None:
                # at an arbitrary index: what the answer says about every element
                if kind == 'all':
                    fact = lambda at: z3.Implies(z3.And(at >= 0, at < n, found), B(subst(pred, idx, at)))
                else:
                    fact = lambda at: z3.Implies(z3.And(at >= 0, at < n, z3.Not(found)), z3.Not(B(subst(pred, idx, at))))
                about_all(eng, base.seq, qid, w, fact)
            if kind == 'any':
                # found => a witness satisfying the predicate exists
                eng_ax(eng, z3.Implies(found, z3.And(w >= 0, w < n, subst(pred, idx, w))))
                return Bool(found)
            if kind == 'all':
                if arb is not None:
                    eng_ax(eng, z3.Implies(z3.Not(found), z3.And(w >= 0, w < n, z3.Not(B(subst(pred, idx, w))))))
                return Bool(found)
            if arb is not None:
                eng_ax(eng, z3.Implies(found, z3.And(w >= 0, w < n, B(subst(pred, idx, w)))))
            out = []
            if eng.feasible(st, found):
                s2 = st.copy().assume(found).assume(z3.And(w >= 0, w < n))
                p = subst(pred, idx, w)
                # instantiate the element at w so that its symbols exist
                s2.assume(p)
                if eng.feasible(s2):
                    if kind == 'position':
                        out.append((s2, option(eng, call.rty, Int(w))))
                    else:
                        item = rename_item(eng, base, w)
                        out.append((s2, option(eng, call.rty, item)))
            if eng.feasible(st, z3.Not(found)):
                out.append((st.copy().assume(z3.Not(found)), option(eng, call.rty, None)))
            return out
        return f

    def rename_item(eng, it, w):
        if it.k == 'seq':
            x = eng.elem(it.seq.p[0][1], w)
            return SRef(x) if it.mode == 'ref' else x
        raise Unsupported('search item')

    def eng_ax(eng, a):
        eng.axioms.append(a)

    def subst(pred, idx, w):
        """predicate at another index: rename the generic element's symbols"""
        if isinstance(pred, bool):
            return pred
        i, j = str(idx), str(w)
        subs = []
        seen = set()

        def walk(e):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if n == i:
                    subs.append((e, w))
                elif f'[{i}]' in n:
                    nn = n.replace(f'[{i}]', f'[{j}]')
                    subs.append((e, z3.Const(nn, e.sort())))
            for ch in e.children():
                walk(ch)
        walk(pred)
        return z3.substitute(pred, *subs) if subs else pred
    eng.subst = subst

    def search_concrete(eng, st, it, clo, kind, call):
        items = drain(eng, st, it)
        out = []
        live = [st]
        for i, x in enumerate(items):
            nxt = []
            for s in live:
                for o in eng.runclosure(s, clo, [SRef(x) if kind == 'find' else x]):
                    if o.kind == 'panic':
                        out.append((o.state, o))
                        continue
                    if kind == 'find_map':
                        r = o.ret
                        d = eng.discr(r).e
                        some = eng.P.variant(r.t, 'Some')
                        for val, tgt in ((True, 'hit'), (False, 'miss')):
                            c = (d == some) if val else NOT(d == some)
                            if eng.feasible(o.state, c):
                                s2 = o.state.copy().assume(c)
                                if val:
                                    out.append((s2, r))
                                else:
                                    nxt.append(s2)
                        continue
                    c = o.ret.e
                    if kind == 'all':
                        c = NOT(c)
                    if eng.feasible(o.state, c):
                        s2 = o.state.copy().assume(c)
                        v = {'any': lambda: Bool(True), 'all': lambda: Bool(False),
                             'position': lambda: option(eng, call.rty, Int(i)),
                             'find': lambda: option(eng, call.rty, x)}[kind]()
                        out.append((s2, v))
                    if eng.feasible(o.state, NOT(c)):
                        nxt.append(o.state.copy().assume(NOT(c)))
            live = nxt
        for s in live:
            v = {'any': lambda: Bool(False), 'all': lambda: Bool(True)}.get(kind, lambda: option(eng, call.rty, None))()
            out.append((s, v))
        return out

    for kd in ('any', 'all', 'position', 'find', 'find_map'):
        M['std::iter::Iterator::' + kd] = search(kd)

    # ------------------------------------------------------------ text iterators
    @reg('core::str::<impl str>::chars')
    def chars(eng, st, args, call):
        s = S(eng.load(st, args[0]))
        if s.lit() is not None:
            return Op('it', k='list', items=tuple(Int(ord(c)) for c in s.lit()))
        return Op('it', k='chars', s=s)

    @reg('core::str::<impl str>::bytes')
    def bytes_(eng, st, args, call):
        s = S(eng.load(st, args[0]))
        if s.lit() is not None:
            return Op('it', k='list', items=tuple(Int(c) for c in s.lit().encode()))
        return Op('it', k='bytes', s=s)

    @reg('core::str::<impl str>::split_whitespace', 'core::str::<impl str>::split_ascii_whitespace')
    def split_ws(eng, st, args, call):
        s = eng.load(st, args[0])
        if s.lit() is None:
            raise Unsupported('words of an unknown text')
        return Op('it', k='list', items=tuple(SRef(Str((x,))) for x in s.lit().split()))

    @reg('core::str::<impl str>::split')
    def split(eng, st, args, call):
        s = S(eng.load(st, args[0]))
        sep = eng.load(st, args[1])
        sv = sep.lit() if isinstance(sep, Str) else (chr(sep.e) if isinstance(sep, Int) and isinstance(sep.e, int) else None)
        if sv is None:
            raise Unsupported('split by unknown')
        if s.lit() is not None:
            return Op('it', k='list', items=tuple(SRef(Str((x,))) for x in s.lit().split(sv)))
        if all(isinstance(x, str) or (x.info and x.info[0] == 'without' and sv in x.info[1]) for x in s.p):
            # the unknown pieces do not contain the separator
            cur, out = [], []
            for x in s.p:
                if isinstance(x, str):
                    ys = x.split(sv)
                    for y in ys[:-1]:
                        out.append(Str(cur + [y]))
                        cur = []
                    cur.append(ys[-1])
                else:
                    cur.append(x)
            out.append(Str(cur))
            return Op('it', k='list', items=tuple(SRef(x) for x in out))
        return Op('it', k='split', s=s, sep=sv)

    # ------------------------------------------------------------ indexing
    @reg('std::ops::Index::index')
    def index(eng, st, args, call):
        v = eng.load(st, args[0])
        i = args[1]
        if isinstance(v, Seq) and isinstance(i, Int):
            n = eng.seqlen(v)
            c = I(i.e) < I(n)
            c = z3.simplify(c)
            if z3.is_true(c):
                return SRef(eng.index(st, v, i.e))
            out = []
            if eng.feasible(st, NOT(c)):
                s2 = st.copy().assume(NOT(c))
                out.append((s2, Outcome('panic', s2, why=f"index out of bounds in {call.fr.f['short']}")))
            if v.concrete() and not isinstance(i.e, int):
                for j, x in enumerate(v.items()):
                    cj = I(i.e) == j
                    if eng.feasible(st, cj):
                        out.append((st.copy().assume(cj), SRef(x)))
                return out
            if eng.feasible(st, c):
                s1 = st.copy().assume(c)
                out.append((s1, SRef(eng.index(s1, v, i.e))))
            return out
        if isinstance(v, Seq) and isinstance(i, Adt) and 'RangeFrom' in eng.T[i.t]['n'] and isinstance(i.f[0].e, int):
            m = i.f[0].e
            if all(x[0] == 'e' for x in v.p[:m]) and len(v.p) >= m:
                return SRef(Seq(v.p[m:], v.t))
            if len(v.p) == 1 and v.p[0][0] == 's':
                ss = v.p[0][1]
                return SRef(Seq((('s', SymSeq(f'{ss.name}[{m}..]', ss.et, ('tail', ss, m))),), v.t))
        if isinstance(v, Str) and isinstance(i, Adt):
            nm = eng.T[i.t]['n']
            fs = [x.e for x in i.f]
            # text without its last byte when it ends in a literal
            return SRef(Str((Atom(f'sub({k(v)},{nm},{fs})', ('sub', v, nm, fs)),)))
        raise Unsupported(f'index {v!r} {i!r}'[:160])

    @reg('std::ops::IndexMut::index_mut')
    def index_mut(eng, st, args, call):
        r = args[0]
        while True:
            cur = eng.project(st, eng.readcell(st, r.cell), r.path)
            if isinstance(cur, MRef):
                r = cur
            else:
                break
        n = eng.seqlen(cur)
        i = args[1].e
        c = I(i) < I(n)
        out = []
        if not z3.is_true(z3.simplify(c)):
            if eng.feasible(st, NOT(c)):
                s2 = st.copy().assume(NOT(c))
                out.append((s2, Outcome('panic', s2, why=f"index out of bounds in {call.fr.f['short']}")))
        if eng.feasible(st, c):
            s1 = st.copy().assume(c)
            out.append((s1, MRef(r.cell, tuple(r.path) + (('idx', i),))))
        return out

    # ------------------------------------------------------------ maps and sets
    @reg('std::collections::HashSet::<T>::new')
    def set_new(eng, st, args, call):
        return Op('set', base=None, ins=(), t=call.rty)

    @reg('std::collections::HashMap::<K, V>::new')
    def map_new(eng, st, args, call):
        return Op('map', base=None, ins=(), t=call.rty)

    def setbase(m, key):
        return z3.Bool(f'in({m.base},{k(key)})') if m.base is not None else False

    @reg('std::collections::HashSet::<T, S, A>::insert')
    def set_insert(eng, st, args, call):
        m = eng.load(st, args[0])
        kv = args[1]
        c = set_has(eng, st, m, kv)
        eng.store(st, args[0], m.with_(ins=m.ins + (kv,)))
        return Bool(NOT(c))

    def set_has(eng, st, m, kv):
        kv = eng.load(st, kv)
        cs = [setbase(m, kv)]
        for x in m.ins:
            cs.append(eq(eng, st, x, kv))
        return OR(*cs)

    @reg('std::collections::HashSet::<T, S, A>::contains')
    def set_contains(eng, st, args, call):
        return Bool(set_has(eng, st, eng.load(st, args[0]), args[1]))

    @reg('std::collections::HashSet::<T, S, A>::is_empty', 'std::collections::HashMap::<K, V, S, A>::is_empty')
    def set_empty(eng, st, args, call):
        m = eng.load(st, args[0])
        if m.ins:
            return Bool(False)
        return Bool(True if m.base is None else z3.Bool(f'empty({m.base})'))

    @reg('std::collections::HashMap::<K, V, S, A>::insert')
    def map_insert(eng, st, args, call):
        m = eng.load(st, args[0])
        eng.store(st, args[0], m.with_(ins=m.ins + ((args[1], args[2]),)))
        return Op('opaque', name='old', t=call.rty)

    def map_lookup(eng, st, m, kv):
        """-> list of (state, value or None)"""
        kv = eng.load(st, kv)
        out = []
        cur = st
        for key, val in reversed(m.ins):
            c = eq(eng, cur, key, kv)
            if eng.feasible(cur, c):
                out.append((cur.copy().assume(c), val))
            nc = NOT(c)
            if not eng.feasible(cur, nc):
                return out
            cur = cur.copy().assume(nc)
        if m.base is None:
            out.append((cur, None))
            return out
        h = z3.Bool(f'has({m.base},{k(kv)})')
        vt = eng.T[m.t]['args'][1]
        if eng.feasible(cur, h):
            out.append((cur.copy().assume(h), eng.make(vt, f'{m.base}[{kv.lit() if isinstance(kv, Str) and kv.lit() is not None else kv.p}]')))
        if eng.feasible(cur, NOT(h)):
            out.append((cur.copy().assume(NOT(h)), None))
        return out

    def mapsym(m, kv):
        """(is the key there, the value) for an unknown map"""
        vt = eng.T[m.t]['args'][1]
        nm = f'{m.base}[{kv.lit() if isinstance(kv, Str) and kv.lit() is not None else kv.p}]'
        return z3.Bool(f'has({m.base},{k(kv)})'), eng.make(vt, nm)
    eng.mapsym = mapsym

    @reg('std::collections::HashMap::<K, V, S, A>::get')
    def map_get(eng, st, args, call):
        m = eng.load(st, args[0])
        return [(s, option(eng, call.rty, None if v is None else SRef(v))) for s, v in map_lookup(eng, st, m, args[1])]

    @reg('std::collections::HashMap::<K, V, S, A>::contains_key')
    def map_contains(eng, st, args, call):
        m = eng.load(st, args[0])
        return [(s, Bool(v is not None)) for s, v in map_lookup(eng, st, m, args[1])]

    @reg('std::process::exit')
    def exit_(eng, st, args, call):
        return Outcome('panic', st, why='exit')
