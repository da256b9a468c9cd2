"""Random che programs for the end-to-end searches.

Programs are built as token lists that /repo's language rules accept: every
local is used, every private function is called, every import is used, and
operands that the translator's loose type check would refuse are avoided by
leaning on OS.<name> identifiers, which have no type."""
import random
import re

from .cfront import LEVEL, tokens, ParseError

BIN = [o for o in LEVEL if LEVEL[o] > 2]
ASG = [o for o in LEVEL if LEVEL[o] == 2]
ARITH = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^']
CMP = ['==', '!=', '<', '>', '<=', '>=']
BOOL = ['&&', '||']
PRE = ['!', '--', '++', '*', '~', '&', '-']
NUMS = ['0', '1', '7', '42', '100', '0x1F', '0xff', '0xABCDEFUL', '1.5', '1.5f', '2.', '1e6', '3.9E-2', '10UL', '7L',
        '3U', '0x0', '18446744073709551615UL', '007', '0xDEADBEEF', '1E5', '12.25e-3', '6e2', '5UL']
CHRS = ["'a'", "'Z'", "'0'", "' '", "'\\n'", "'\\\\'", "'\\''", "'\"'", "'\\0'", "'\\t'", "'/'", "'{'", "';'"]
STRS = ['""', '"a"', '"hello, world"', '"%d %s\\n"', '"\\""', '"\\\\"', '"// not a comment"', '"/* nor this */"',
        '"tab\\there"', '"a\nb"', '"line1\nline2\n\nline4"', '"x;y{z}"', '"\'"', '"#import"', '"caf\u00e9"',
        '"ab" "cd"', '"ab"\n\t"cd" "ef"', '"\\n"', '"\n"', '"a\\\\" "b"', '"ends with newline\n"', '"a  b"', '"a\tb"',
        '"q\\"\nr"', '"//" "/*"', '"\n\n"', '" lead"', '"trail "', '"a\n b"', '"\u4f60\n\u597d"']
LOCALS = ['x', 'y', 'i', 'n', 'iff', 'forx', 'returned', 'breaks', '_t', 'str', 'a1', 'whiles', 'caseb', 'defaults',
          'elsex', 'constant', 'sizeofx', 'p', 'q', 'val', 'pubx', 'enums', 'structs', 'unions', 'typedefs', 'l', 'U',
          'e', 'f0', 'callocx', 'panics', 'switched', 'continues', 'X_1', 'ncase']
OSN = ['ua', 'ub', 'uc', 'ud', 'ue', 'uf', 'ug']
FIELDS = ['x', 'y', 'next', 'len', 'data', 'size', 'main', 'f']
TYPES = ['int', 'char', 'double', 'float', 'size_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'int8_t', 'int16_t',
         'int32_t', 'int64_t', 'bool', 'ptrdiff_t', 'FILE', 'time_t']


class Module:
    def __init__(self, name):
        self.name = name
        self.pubfn = []      # (name, nparams, variadic)
        self.privfn = []
        self.pubconst = []
        self.privconst = []
        self.pubtype = []
        self.privtype = []
        self.modvars = []
        self.imports = []
        self.usedns = set()
        self.used = set()


class Gen:
    def __init__(self, seed, profile='mix', depth=4):
        self.r = random.Random(seed)
        self.profile = profile
        self.maxd = depth
        self.uniq = 0
        self.spelled = []
        self.scopes = []
        self.m = None
        self.nblocks = 0
        self.inject = None   # (block number, function of (self, loop) -> tokens)

    def ch(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def cnt(self, lo, hi):
        """how many: mostly few"""
        return self.r.randrange(hi, hi + 10) if self.p(.03) else self.r.randrange(lo, hi)

    def fresh(self, base=None):
        self.uniq += 1
        n = f'{base or self.ch(["fn", "do", "get", "main_", "iff", "T", "str"])}{self.uniq}'
        k = self.r.random()
        if k < .05:
            n = '_' + n
        elif k < .1 and self.spelled:
            n = self.ch(self.spelled).swapcase()     # differs from another name by case only
        elif k < .13 and self.spelled:
            n = self.ch(self.spelled) + '_'
        if n in self.spelled:
            n = f'z{self.uniq}'
        self.spelled.append(n)
        return n

    # -- expressions: (tokens, level, class); classes U unknown, I int, B bool, P pointer, V void, N number, C char
    def leafU(self):
        return (['OS', '.', self.ch(OSN)], 15, 'U')

    def locals(self):
        out = []
        for s in self.scopes:
            for n in s:
                if n not in out:
                    out.append(n)
        return out

    def leaf(self):
        k = self.r.randrange(10)
        if k < 3:
            return self.leafU()
        if k < 6:
            ns = self.locals()
            ints = [n for n in ns if self.cls(n) == 'I']
            if ints:
                n = self.ch(ints)
                return ([n], 15, 'I')
            return self.leafU()
        if k == 6:
            return ([self.ch(NUMS)], 15, 'N')
        if k == 7:
            return ([self.ch(CHRS)], 15, 'C')
        if k == 8:
            c = self.constname()
            if c:
                return (c, 15, 'N')
        return self.leafU()

    def cls(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    def shadowed(self, n):
        return self.cls(n) is not None

    def constname(self):
        opts = [[c] for c in self.m.pubconst + self.m.privconst if not self.shadowed(c)]
        for imp in self.m.imports:
            if not self.shadowed(imp.name):
                opts += [[imp.name, '.', c] for c in imp.pubconst]
        if not opts:
            return None
        c = self.ch(opts)
        if len(c) == 3:
            self.m.usedns.add(c[0])
        else:
            self.m.used.add(c[0])
        return c

    def wrap(self, e, lvl):
        t, l, c = e
        if l < lvl or self.p(.06):
            return ['('] + t + [')']
        return t

    def e(self, d=None, cls=None):
        """an expression; cls asks for a class: 'U', 'booly' or None"""
        d = self.maxd if d is None else d
        if cls == 'U':
            return self.eU(d)
        if cls == 'booly':
            for _ in range(6):
                e = self.e(d)
                if e[2] in 'UBIP':
                    return e
            return self.eU(d)
        if d <= 0 or self.p(.12):
            return self.leaf()
        k = self.r.randrange(20)
        if k < 8:
            return self.binary(d)
        if k < 11:
            return self.prefix(d)
        if k < 12:
            return self.cast(d)
        if k < 13:
            return self.sizeof(d)
        if k < 14:
            op = self.ch(ASG)
            a = self.e(d - 1, 'U') if self.p(.5) else self.lval(d - 1)
            b = self.e(d - 1)
            return (self.wrap(a, 3) + [op] + self.wrap(b, 2), 2, 'V')
        return self.eU(d)

    def lval(self, d):
        ints = [n for n in self.locals() if self.cls(n) == 'I']
        if ints and self.p(.6):
            return ([self.ch(ints)], 15, 'I')
        return self.eU(d)

    def eU(self, d):
        """an expression without a known type"""
        if d <= 0 or self.p(.15):
            return self.leafU()
        k = self.r.randrange(12)
        if k < 4:
            op = self.ch(ARITH)
            lv = LEVEL[op]
            a, b = self.eU(d - 1), self.e(d - 1)
            if self.p(.5):
                a, b = b, a
            return (self.wrap(a, lv) + [op] + self.wrap(b, lv + 1), lv, 'U')
        if k < 6:
            op = self.ch(['*', '-', '~', '--', '++'])
            a = self.eU(d - 1)
            return ([op] + self.wrap(a, 13), 13, 'U')
        t = self.wrap(self.eU(d - 1), 14)
        if k < 8:
            args = []
            for i in range(self.cnt(0, 4)):
                if i:
                    args.append(',')
                x = self.arg(d - 1)
                args += x
            return (t + ['('] + args + [')'], 14, 'U')
        if k == 8:
            return (t + ['['] + self.e(d - 1)[0] + [']'], 14, 'U')
        if k == 9:
            return (t + [self.ch(['.', '->']), self.ch(FIELDS)], 14, 'U')
        if k == 10:
            return (t + [self.ch(['++', '--'])], 14, 'U')
        return self.callfn(d)

    def arg(self, d):
        if self.p(.15):
            return [self.ch(STRS)]
        return self.e(d)[0]

    def callfn(self, d):
        """a call of a known function; its result is an int"""
        opts = []
        for f in self.m.pubfn + self.m.privfn:
            if not self.shadowed(f[0]) and f[0] != 'panic':
                opts.append(([f[0]], f))
        for imp in self.m.imports:
            if not self.shadowed(imp.name):
                opts += [([imp.name, '.', f[0]], f) for f in imp.pubfn]
        if not opts:
            return self.leafU()
        t, f = self.ch(opts)
        if len(t) == 3:
            self.m.usedns.add(t[0])
        else:
            self.m.used.add(f[0])
        n = f[1] + (self.r.randrange(3) if f[2] else 0)
        args = []
        for i in range(n):
            if i:
                args.append(',')
            args += self.arg(d - 1)
        # through a cast-free unknown so that any operator may follow
        return (['OS', '.', self.ch(OSN), '('] + t + ['('] + args + [')', ')'], 14, 'U')

    def binary(self, d):
        k = self.r.randrange(10)
        if k < 6:
            return self.eU(d) if self.p(.3) else self._arith(d)
        if k < 8:
            op = self.ch(CMP)
            lv = LEVEL[op]
            a, b = self.eU(d - 1), self.e(d - 1)
            if self.p(.5):
                a, b = b, a
            return (self.wrap(a, lv) + [op] + self.wrap(b, lv + 1), lv, 'B')
        op = self.ch(BOOL)
        lv = LEVEL[op]
        return (self.wrap(self.e(d - 1, 'booly'), lv) + [op] + self.wrap(self.e(d - 1, 'booly'), lv + 1), lv, 'B')

    def _arith(self, d):
        op = self.ch(ARITH)
        lv = LEVEL[op]
        a, b = self.eU(d - 1), self.e(d - 1)
        if self.p(.5):
            a, b = b, a
        return (self.wrap(a, lv) + [op] + self.wrap(b, lv + 1), lv, 'U')

    def prefix(self, d):
        op = self.ch(PRE)
        a = self.eU(d - 1) if op in ('*', '&') else self.e(d - 1)
        if op in ('-', '~', '++', '--') and a[2] not in 'UI':
            a = self.eU(d - 1)
        c = {'!': 'B', '&': 'P'}.get(op, a[2])
        return ([op] + self.wrap(a, 13), 13, c)

    def typetoks(self, star=True):
        t = []
        opts = [[x] for x in TYPES] + [[x] for x in self.m.pubtype + self.m.privtype]
        t += self.ch(opts)
        return t + ['*'] * (self.r.randrange(3) if star else 0)

    def cast(self, d):
        base = self.ch(['int', 'size_t', 'uint8_t', 'int64_t'])
        stars = self.r.randrange(2)
        a = self.e(d - 1)
        return (['(', base] + ['*'] * stars + [')'] + self.wrap(a, 13), 13, 'P' if stars else 'I')

    def sizeof(self, d):
        if self.p(.4):
            return (['sizeof', '('] + self.typetoks() + [')'], 13, 'I')
        return (['sizeof', '('] + self.e(d - 1)[0] + [')'], 13, 'I')

    # -- statements
    def block(self, d, loop, cond=None):
        """tokens of { ... }, or a single statement sometimes"""
        if d > 0 and self.p(.2):
            s = self.simple(d, loop)
            if s:
                return s
        return self.braces(d, loop)

    def braces(self, d, loop, scope=None, tail=None):
        self.scopes.append(scope if scope is not None else {})
        out = ['{']
        me = self.nblocks
        self.nblocks += 1
        for _ in range(self.cnt(0, 4)):
            out += self.stmt(d, loop)
        mine = [n for n in self.scopes[-1]]
        for n in mine:
            out += ['OS', '.', 'use', '(', n, ')', ';']
        if self.inject and self.inject[0] == me:
            out += self.inject[1](self, loop)
        if tail:
            out += tail()
        self.scopes.pop()
        return out + ['}']

    def simple(self, d, loop):
        k = self.r.randrange(6)
        if k == 0 and loop:
            return [self.ch(['break', 'continue']), ';']
        if k == 1:
            return ['return'] + self.e(2)[0] + [';']
        return self.e(self.maxd)[0] + [';'] if k < 4 else self.ctl(d, loop)

    def newlocal(self):
        names = [n for n in LOCALS + [f[0] for f in self.m.pubfn if f[0] != 'panic'] + self.m.pubconst + [i.name for i in self.m.imports][:0]
                 if n not in self.scopes[-1]]
        return self.ch(names)

    def stmt(self, d, loop):
        k = self.r.randrange(12)
        if self.profile == 'expr' and self.p(.7):
            k = 3
        elif self.profile in ('stmt', 'switch') and self.p(.5):
            k = 11
        elif self.profile == 'panic' and self.p(.5):
            k = 6 + self.r.randrange(2)
        elif self.profile == 'local' and self.p(.5):
            k = 0
        if k < 3:
            n = self.newlocal()
            t = []
            if self.p(.2):
                t.append('const')
            kind = self.r.randrange(4)
            if kind < 2:
                self.scopes[-1][n] = 'I'
                init = []
                if self.p(.6):
                    init = ['='] + self.e()[0]
                return t + [self.ch(['int', 'int64_t', 'size_t']), n] + init + [';']
            self.scopes[-1][n] = 'P'
            if kind == 2:
                init = ['='] + self.ch([['NULL'], [self.ch(STRS)], self.eU(2)[0]]) if self.p(.5) else []
                return t + ['char'] + ['*'] * self.r.randrange(1, 3) + [n] + init + [';']
            dims = []
            for _ in range(self.r.randrange(1, 3)):
                dims += ['['] + self.e(1)[0] + [']']
            init = ['='] + self.complit(2) if self.p(.5) else []
            return t + self.typetoks() + [n] + dims + init + [';']
        if k < 6:
            return self.e()[0] + [';']
        if k == 6:
            args = []
            for _ in range(self.ch([0, 0, 1, 1, 2, 5, 12])):
                args += [','] + self.arg(2)
            return ['panic', '(', self.ch(STRS)] + args + [')', ';']
        if k == 7 and self.p(.8 if self.profile == 'panic' else .4):
            return ['OS', '.', 'use', '(', 'calloc!', '(', '1', ','] + self.sizeof(1)[0] + [')', ')', ';']
        if k == 8 and loop and self.p(.5):
            return [self.ch(['break', 'continue']), ';']
        return self.ctl(d, loop)

    def ctl(self, d, loop):
        if d <= 0:
            return self.e(2)[0] + [';']
        k = self.r.randrange(8)
        if self.profile == 'switch' and self.p(.6):
            k = 7
        if k < 3:
            out = ['if', '('] + self.e()[0] + [')']
            b = self.block(d - 1, loop)
            if self.p(.5):
                if b[0] != '{':
                    b = self.braces(d - 1, loop)
                return out + b + ['else'] + self.block(d - 1, loop)
            if b[0] == 'if':
                b = ['{'] + b + ['}']
            return out + b
        if k < 4:
            return ['while', '('] + self.e(None, 'booly')[0] + [')'] + self.block(d - 1, True)
        if k < 6:
            sc = {}
            self.scopes.append(sc)
            init = []
            pre = None
            if self.p(.4):
                n = self.newlocal()
                sc[n] = 'I'
                init = [self.ch(['int', 'size_t']), n, '='] + self.e(2)[0]
                pre = n
            elif self.p(.6):
                init = self.e(2)[0]
            cond = self.e(None, 'booly')[0] if self.p(.8) else []
            if pre and not self.shadow_in(pre):
                cond = ['OS', '.', 'use', '(', pre, ')'] + (['&&'] + self.wrap(self.e(1, 'booly'), 5))
            act = self.e(2)[0] if self.p(.8) else []
            body = self.block(d - 1, True)
            self.scopes.pop()
            return ['for', '('] + init + [';'] + cond + [';'] + act + [')'] + body
        isstr = self.p(.4)
        out = ['switch'] + (['str'] if isstr else []) + ['('] + (self.eU(2)[0] if isstr else self.e(3)[0]) + [')', '{']
        n = self.cnt(1 if isstr else 0, 4)
        for _ in range(n):
            out.append('case')
            for j in range(self.cnt(1, 4)):
                if j:
                    out.append(',')
                c = self.constname() if self.p(.3) else None
                if isstr:
                    out += ['OS', '.', self.ch(OSN)] if self.p(.2) else [self.ch(STRS)]
                else:
                    out += c or [self.ch(CHRS + NUMS[:8])]
            out.append(':')
            out += self.braces(d - 1, loop)
        if self.p(.6):
            out += ['default', ':'] + self.braces(d - 1, loop)
        return out + ['}']

    def shadow_in(self, n):
        return False

    def complit(self, d):
        k = self.r.randrange(4)
        out = ['{']
        n = self.cnt(0, 4)
        for i in range(n):
            if i:
                out.append(',')
            if k == 0:
                out += ['.', self.ch(FIELDS), '=']
            elif k == 1:
                out += ['['] + self.e(1)[0] + [']', '=']
            if self.p(.2) and d > 0:
                out += self.complit(d - 1)
            elif self.p(.2):
                out += [self.ch(STRS)]
            else:
                out += self.e(2)[0]
        if n and self.p(.2):
            out.append(',')
        return out + ['}']

    # -- modules
    def fieldlist(self, d=1):
        out = []
        for _ in range(self.cnt(1, 5)):
            if d and self.p(.2):
                out += ['union', '{']
                for _ in range(self.cnt(1, 4)):
                    out += self.typetoks(False) + self.form(self.fresh('u')) + [';']
                out += ['}'] + self.form(self.fresh('un')) + [';']
                continue
            if self.p(.2):
                out.append('const')
            out += self.anytype()
            out += self.form(self.fresh('m'))
            while self.p(.3):
                out += [','] + self.form(self.fresh('m'))
            out.append(';')
        return out

    def anytype(self):
        opts = []
        for imp in self.m.imports:
            opts += [[imp.name, '.', t] for t in imp.pubtype]
        if opts and self.p(.4):
            t = self.ch(opts)
            self.m.usedns.add(t[0])
            return t
        return self.typetoks(False)

    def form(self, n, arr=True):
        out = ['*'] * self.r.choice([0, 0, 1, 2]) + [n]
        if arr:
            for _ in range(self.r.choice([0, 0, 0, 1, 2])):
                out += ['['] + (['4'] if self.p(.7) else ['2', '*', '3']) + [']']
        return out

    def module(self, name, imports):
        self.m = m = Module(name)
        m.imports = imports
        chunks = []
        # types
        for _ in range(self.r.randrange(2, 8) if self.profile == 'decl' else self.r.randrange(0, 4)):
            n = self.fresh('t') + '_t'
            pub = self.p(.5)
            out = ['pub'] if pub else []
            k = self.r.randrange(5)
            if k == 4:
                out += ['typedef', 'struct', self.ch(['tm', 'stat', 'zz']), n, ';']
            elif k < 2:
                out += ['typedef', '{'] + self.fieldlist() + ['}', n, ';']
            elif k == 2:
                ps = []
                for i in range(self.cnt(0, 4)):
                    ps += ([','] if i else []) + (['const'] if self.p(.2) else []) + self.anytype() + \
                        ['*'] * self.r.randrange(3)
                if ps and self.p(.2):
                    ps += [',', '...']
                out += ['typedef'] + self.anytype() + ['*'] * self.r.randrange(2) + [n, '('] + ps + [')', ';']
            else:
                out += ['typedef'] + self.anytype() + ['*'] * self.r.randrange(2) + [n]
                if self.p(.4):
                    out += ['[', str(self.r.randrange(1, 300)), ']']
                out.append(';')
            (m.pubtype if pub else m.privtype).append(n)
            chunks.append(out)
        # enums
        for _ in range(self.r.randrange(1, 4) if self.profile == 'decl' else self.r.randrange(0, 3)):
            pub = self.p(.5)
            out = (['pub'] if pub else []) + ['enum', '{']
            k = self.cnt(1, 5)
            names = []
            for i in range(k):
                n = self.fresh('K')
                out += ([','] if i else []) + [n]
                if self.p(.4):
                    out += ['='] + self.ch([['1'], ["'a'"], ['1', '<<', '3'], ['2', '*', '(', '3', '+', '4', ')'],
                                            ['0xff', '-', '(', '1', '-', '3', ')']])
                names.append(n)
            if self.p(.3):
                out.append(',')
            out.append('}')
            if self.p(.5):
                out.append(';')
            (m.pubconst if pub else m.privconst).extend(names)
            chunks.append(out)
        # function heads
        heads = []
        for _ in range(self.r.randrange(1, 5)):
            pub = self.p(.5)
            n = self.fresh()
            if pub and not any(h[1] == 'panic' for h in heads) and self.p(.15 if self.profile == 'panic' else .02):
                n = 'panic'      # panic(...) stays the builtin, MODULE.panic(...) is this function
            ps = []
            scope = {}
            nparams = 0
            for i in range(self.cnt(0, 4)):
                if nparams > 15:
                    break
                if i:
                    ps.append(',')
                if self.p(.2):
                    ps.append('const')
                ps += self.anytype()
                for j in range(self.r.choice([1, 1, 1, 2, 3])):
                    if j:
                        ps.append(',')
                    a = self.ch([x for x in LOCALS + (m.pubconst + [h[1] for h in heads if h[1] != 'panic'] if self.p(.3) else []) if x not in scope])
                    f = self.form(a)
                    ps += f
                    scope[a] = 'P'
                    nparams += 1
            var = bool(ps) and self.p(.15)
            if var:
                ps += [',', '...']
            heads.append((pub, n, ps, scope, var))
            (m.pubfn if pub else m.privfn).append((n, nparams, var))
        for _ in range(self.r.randrange(0, 3)):
            n = self.fresh('g')
            t = self.typetoks(False)
            f = self.form(n)
            v = self.complit(2) if '[' in f else self.ch([['1'], ['NULL'], [self.ch(STRS)], ['-', '1'], ['1', '<<', '4']])
            chunks.append((['const'] if self.p(.2) else []) + t + f + ['='] + v + [';'])
            m.modvars.append(n)
        for pub, n, ps, scope, var in heads:
            self.scopes = []
            # parameters count as declared in the function scope: all of them are used in the body
            sc = dict(scope)
            self.scopes.append(sc)
            uses = []
            for a in sc:
                uses += ['OS', '.', 'use', '(', a, ')', ';']

            def tail():
                return ['return'] + self.e(2)[0] + [';']
            body = self.braces(2, False, None, tail)
            body = body[:1] + uses + body[1:]
            self.scopes = []
            rt = self.ch(['int', 'size_t', 'char', 'double'])
            chunks.append((['pub'] if pub else []) + (['const'] if self.p(.1) else []) + [rt] +
                          ['*'] * self.r.choice([0, 0, 0, 1]) + [n, '('] + ps + [')'] + body)
        # main calls what must be used
        m.usedns = {t for c in chunks for t, d in zip(c, c[1:]) if d == '.' and t in {i.name for i in imports}}
        out = ['int', 'main', '(', ')', '{']
        self.scopes = []
        for f in m.privfn:
            out += [f[0], '('] + sum([[','] * (i > 0) + ['OS', '.', 'ua'] for i in range(f[1])], []) + [')', ';']
        for n in m.privconst + m.modvars:
            out += ['OS', '.', 'use', '(', n, ')', ';']
        for imp in m.imports:
            if imp.name in m.usedns:
                continue
            fns = imp.pubfn
            if fns:
                f = fns[0]
                out += [imp.name, '.', f[0], '('] + sum([[','] * (i > 0) + ['1'] for i in range(f[1])], []) + [')', ';']
                m.usedns.add(imp.name)
        if self.p(.2):
            out += ['if', '(', 'OS', '.', 'ua', ')', '{', 'return', 'main', '(', ')', ';', '}']
        out += ['return', '0', ';', '}']
        chunks.append(out)
        # fields named like functions, constants and types of the module
        clash = [f[0] for f in m.pubfn + m.privfn if f[0] != 'panic'] + m.pubconst + m.privconst + m.modvars
        for c in chunks:
            if c[0] == 'typedef' or c[:2] == ['pub', 'typedef']:
                pool = list(clash)
                for i, x in enumerate(c):
                    if pool and re.fullmatch(r'(m|u|un)\d+', x) and self.p(.25):
                        c[i] = pool.pop(self.r.randrange(len(pool)))
        self.r.shuffle(chunks)
        head = [i for i in imports if i.name in m.usedns]
        m.chunks = chunks
        m.used_imports = head
        return m

    # -- text
    def join(self, toks):
        out = []
        prev = None
        nl = ['\n', '\n', '\n\n', '\r\n', '\n\t']
        for t in toks:
            if prev is not None:
                sep = ''
                if prev in (';', '{', '}') and self.p(.7):
                    sep = self.ch(nl)
                    if self.p(.05):
                        sep += self.ch([' // a "comment\n', '/* it\'s; a * / { comment */', '/*\n*/\n', ' /**/ ', ' //\n', '/*/ x; /*/', '/***/', '/* **/'])
                elif self.p(.3 if self.profile == 'lex' else .6):
                    sep = ' '
                    if self.p(.2 if self.profile == 'lex' else .02) and not prev.startswith('"'):
                        sep = self.ch([' /* c */ ', ' /**/ ', ' // x\n', '\n', '\t', '  ', ' /*/ c */ ', ' /***/ '])
                if not sep and not self.tight(prev, t):
                    sep = ' '
                out.append(sep)
            out.append(t)
            prev = t
        return ''.join(out)

    def tight(self, a, b):
        if a[0] == '"' and b[0] == '"' or a[-1] == '/' and b[0] in '/*':
            return False
        try:
            r = [v for _, v, _ in tokens(a + b)]
        except ParseError:
            return False
        if a[0].isdigit() and (b[0].isalnum() or b[0] in '._'):
            return False
        return len(r) == 2 and r[0] == a and r[1] == b

    def text(self, m):
        parts = [self.join(c) + '\n' for c in m.chunks]
        late = self.p(.25)
        head = ''
        for imp in m.used_imports:
            t = f'#import {imp.name}.c\n'
            if late and self.p(.6):
                parts.insert(self.r.randrange(len(parts) + 1), t)
            else:
                head += t
        if self.p(.3):
            for i in range(self.r.randrange(1, 4)):
                t = self.ch(['#include <ctype.h>\n', '#pragma GCC poison zznever\n', '#undef ZD%d\n' % i, '#line 7 "a"\n',
                             '#if 1\n#endif /* 1 */\n', '#define ZD%d %d\npub int zd%d() { return ZD%d; }\n' % (i, i + 5, i, i),
                             '#define ZD%d (1 + 2)\npub int zd%d() { return 3 * ZD%d; }\n' % (i, i, i)])
                parts.insert(self.r.randrange(len(parts) + 1), t)
        return head + ''.join(parts)


def program(seed, profile='mix', nmods=None, depth=4, inject=None, full=False):
    """{file name: text}, main file name; with full also the generator and its modules"""
    g = Gen(seed, profile, depth)
    g.inject = inject
    n = nmods or g.r.choice({'expr': [1], 'mods': [2, 3, 4, 5]}.get(profile, [1, 1, 2, 3]))
    mods = []
    files = {}
    for i in range(n):
        imps = [m for m in mods if g.p(.6) and m.pubfn]
        name = g.ch(['alpha', 'beta', 'mod', 'x', 'util', 'str', 'lib']) + str(i)
        if mods and g.p(.25):
            # a name that starts with another one
            name = g.ch(mods).name + g.ch(['s', 'x', '_'])
            while any(m.name == name for m in mods):
                name += 's'
        m = g.module(name, imps)
        mods.append(m)
        files[name + '.c'] = g.text(m)
    if full:
        return files, mods[-1].name + '.c', g, mods
    return files, mods[-1].name + '.c'
