"""An independent front end for che sources and for the C that che generates.

It is the oracle of the end-to-end searches: a che module is parsed here, the C
that /repo's translator wrote for it is parsed here too, and the two trees are
compared after the documented lowering (see expect.py). Expressions follow the
C99 grammar. Trees are plain tuples."""
import re


class ParseError(Exception):
    pass


TOK = re.compile(r'''
  (?P<ws>[ \t\r\n]+)
 |(?P<comment>/\*.*?\*/|//[^\n]*)
 |(?P<macro>\#[^\n]*)
 |(?P<num>0x[0-9A-Fa-f]*[UL]*|[0-9]+(?:\.[0-9]*)?(?:[eE]-?[0-9]+)?[ULf]*)
 |(?P<word>[A-Za-z_][A-Za-z0-9_]*!?)
 |(?P<str>"(?:\\.|[^"\\])*")
 |(?P<chr>'(?:\\.[^']*|[^'\\])')
 |(?P<sym><<=|>>=|\.\.\.|\+\+|--|->|<<|>>|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\^=|\|=|==|!=|[!~&^*/%=|:,<>+\-{};\[\]().?])
''', re.X | re.S)


def tokens(text):
    out = []
    i = 0
    line = 1
    col = 1
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise ParseError(f'line {line}: unexpected {text[i:i+10]!r}')
        kind = m.lastgroup
        v = m.group()
        end = m.end()
        if kind == 'word' and v.endswith('!'):
            if v != 'calloc!':
                v = v[:-1]
                end -= 1
        if kind not in ('ws', 'comment'):
            out.append((kind, v, (line, col)))
        nl = text.count('\n', i, end)
        line += nl
        col = end - text.rfind('\n', i, end) if nl else col + end - i
        i = end
    return out


CTYPES = set('''void char int short long float double unsigned signed bool size_t ptrdiff_t
 int8_t int16_t int32_t int64_t uint8_t uint16_t uint32_t uint64_t FILE time_t va_list clock_t
 ssize_t jmp_buf ldiv_t div_t wchar_t intptr_t uintptr_t sig_atomic_t clockid_t sigset_t'''.split())

# the type names that che knows without a declaration
CHETYPES = set('''char double float int void ptrdiff_t size_t int8_t int16_t int32_t int64_t uint8_t
 uint16_t uint32_t uint64_t bool FILE time_t jmp_buf va_list'''.split())

LEVEL = {}
for n, ops in enumerate(['=,+=,-=,*=,/=,%=,<<=,>>=,&=,^=,|=', '||', '&&', '|', '^', '&', '==,!=', '<,>,<=,>=', '<<,>>',
                         '+,-', '*,/,%']):
    for o in ops.split(','):
        LEVEL[o] = n + 2
PREFIX = {'!', '--', '++', '*', '~', '&', '-', '+'}


class P:
    def __init__(self, toks, types=(), nss=None, nstypes=None, mode='che'):
        self.t = toks
        self.i = 0
        self.types = set(types)
        self.nss = set(nss or ())
        self.nstypes = nstypes or {}
        self.mode = mode

    # -- tokens
    def pk(self, n=0):
        j = self.i + n
        return self.t[j] if j < len(self.t) else ('eof', '', (0, 0))

    def at(self, v, n=0):
        k, x, _ = self.pk(n)
        return x == v and k in ('sym', 'word')

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise ParseError(f'line {self.pk()[2]}: expected {v!r}, got {self.pk()!r}')

    def word(self):
        k, v, ln = self.pk()
        if k != 'word':
            raise ParseError(f'line {ln}: word expected, got {v!r}')
        self.i += 1
        return v

    # -- types
    def is_typeword(self, n=0):
        k, v, _ = self.pk(n)
        if k != 'word':
            return False
        if v == 'const' or v == 'struct':
            return True
        return v in (CTYPES if self.mode == 'c' else CHETYPES) or v in self.types

    def type_follows(self):
        k, v, _ = self.pk()
        if k != 'word':
            return False
        if v == 'const':
            return True
        if self.mode == 'che' and v in self.nss and self.at('.', 1) and self.pk(2)[0] == 'word':
            if self.pk(2)[1] in self.nstypes.get(v, ()):
                return True
        return self.is_typeword()

    def typename(self):
        """(const, name) where name is ('n', x) or ('ns', a, b)"""
        const = self.eat('const')
        if self.mode == 'c' and self.eat('struct'):
            return (const, ('n', 'struct ' + self.word()))
        w = self.word()
        if self.mode == 'che' and w in self.nss and self.at('.') and self.pk(1)[0] == 'word':
            self.i += 1
            return (const, ('ns', w, self.word()))
        return (const, ('n', w))

    def stars(self):
        n = 0
        while self.eat('*'):
            n += 1
        return n

    def baretype(self):
        t = self.typename()
        return t + (self.stars(),)

    def form(self):
        n = self.stars()
        name = self.word()
        idx = []
        while self.eat('['):
            if self.at(']'):
                idx.append(None)
            else:
                idx.append(self.expr())
            self.need(']')
        return (n, name, tuple(idx))

    # -- expressions
    def expr(self, lvl=2):
        if lvl > 12:
            return self.unary()
        if lvl == 2:
            a = self.expr(3)
            k, v, _ = self.pk()
            if k == 'sym' and LEVEL.get(v) == 2:
                self.i += 1
                return ('bin', v, a, self.expr(2))
            return a
        a = self.expr(lvl + 1)
        while True:
            k, v, _ = self.pk()
            if k == 'sym' and LEVEL.get(v) == lvl:
                self.i += 1
                a = ('bin', v, a, self.expr(lvl + 1))
            else:
                return a

    def unary(self):
        k, v, _ = self.pk()
        if k == 'sym' and v in PREFIX:
            self.i += 1
            return ('pre', v, self.unary())
        if self.at('(') and self.is_typeword(1):
            self.i += 1
            t = self.baretype()
            self.need(')')
            return ('cast', t, self.unary())
        if self.at('sizeof'):
            self.i += 1
            if self.at('('):
                save = self.i
                self.i += 1
                if self.type_follows():
                    t = self.baretype()
                    self.need(')')
                    return ('sizeof', 't', t)
                self.i = save
            return ('sizeof', 'e', self.unary())
        return self.postfix()

    def postfix(self):
        e = self.atom()
        while True:
            if self.eat('('):
                args = []
                if not self.at(')'):
                    args.append(self.expr())
                    while self.eat(','):
                        args.append(self.expr())
                self.need(')')
                e = ('call', e, tuple(args))
            elif self.eat('['):
                i = self.expr()
                self.need(']')
                e = ('idx', e, i)
            elif self.at('++') or self.at('--'):
                e = ('post', self.pk()[1], e)
                self.i += 1
            elif self.at('.') or self.at('->'):
                op = self.pk()[1]
                self.i += 1
                e = ('fld', op, e, self.word())
            else:
                return e

    def strval(self):
        """adjacent string literals as one list of source characters"""
        s = ''
        while self.pk()[0] == 'str':
            s += self.pk()[1][1:-1].replace('\n', '\\n')
            self.i += 1
        return s

    def atom(self):
        k, v, ln = self.pk()
        if k == 'num':
            self.i += 1
            return ('num', v)
        if k == 'str':
            return ('str', self.strval())
        if k == 'chr':
            self.i += 1
            return ('chr', v[1:-1])
        if k == 'word':
            self.i += 1
            if self.mode == 'che' and v in self.nss and self.at('.') and self.pk(1)[0] == 'word':
                self.i += 1
                return ('ns', v, self.word())
            return ('id', v, ln)
        if self.eat('('):
            e = self.expr()
            self.need(')')
            return e
        if self.at('{'):
            return self.composite()
        raise ParseError(f'line {ln}: unexpected {v!r} in expression')

    def composite(self):
        self.need('{')
        ents = []
        while not self.at('}'):
            if self.eat('.'):
                key = ('fld', self.word())
                self.need('=')
            elif self.eat('['):
                key = ('idx', self.expr())
                self.need(']')
                self.need('=')
            else:
                key = None
            ents.append((key, self.expr()))
            if not self.eat(','):
                break
        self.need('}')
        return ('comp', tuple(ents))

    # -- statements
    def block(self):
        """body of a control statement, as a tuple of statements"""
        if self.at('{'):
            return self.braces()
        return (self.stmt(),)

    def braces(self):
        self.need('{')
        out = []
        while not self.at('}'):
            if self.mode == 'c' and self.eat(';'):
                continue
            out.append(self.stmt())
        self.need('}')
        return tuple(out)

    def stmt(self):
        ln = self.pk()[2]
        if self.type_follows():
            t = self.typename()
            f = self.form()
            v = None
            if self.eat('='):
                v = self.expr()
            self.need(';')
            return ('var', t, f, v)
        if self.mode == 'c' and self.at('{'):
            return ('block', self.braces())
        for kw in ('break', 'continue'):
            if self.eat(kw):
                self.need(';')
                return (kw,)
        if self.eat('return'):
            if self.eat(';'):
                return ('return', None)
            e = self.expr()
            self.need(';')
            return ('return', e)
        if self.eat('while'):
            self.need('(')
            c = self.expr()
            self.need(')')
            return ('while', c, self.block())
        if self.eat('if'):
            self.need('(')
            c = self.expr()
            self.need(')')
            b = self.block()
            e = None
            if self.eat('else'):
                e = self.block()
            return ('if', c, b, e)
        if self.eat('for'):
            self.need('(')
            init = None
            if not self.at(';'):
                if self.is_typeword():
                    t = self.typename()
                    f = self.form()
                    self.need('=')
                    init = ('decl', t, f, self.expr())
                else:
                    init = ('expr', self.expr())
            self.need(';')
            c = None if self.at(';') else self.expr()
            self.need(';')
            a = None if self.at(')') else self.expr()
            self.need(')')
            return ('for', init, c, a, self.block())
        if self.eat('switch'):
            return self.switch()
        e = self.expr()
        self.need(';')
        return ('expr', e, ln)

    def switch(self):
        isstr = False
        if self.mode == 'che' and self.at('str'):
            self.i += 1
            isstr = True
        self.need('(')
        v = self.expr()
        self.need(')')
        self.need('{')
        cases = []
        default = None
        while self.eat('case'):
            vals = [self.casevalue()]
            if self.mode == 'che':
                while self.eat(','):
                    vals.append(self.casevalue())
                self.need(':')
            else:
                self.need(':')
                while self.eat('case'):
                    vals.append(self.casevalue())
                    self.need(':')
            cases.append((tuple(vals), self.braces()))
        if self.eat('default'):
            self.need(':')
            default = self.braces()
        self.need('}')
        return ('switch', isstr, v, tuple(cases), default)

    def casevalue(self):
        return self.atom()

    # -- module level
    def params(self):
        """list of (typename, form), variadic"""
        self.need('(')
        out = []
        var = False
        if self.mode == 'c' and self.at('void') and self.at(')', 1):
            self.i += 2
            return (), False
        if self.mode == 'c' and self.at(')'):
            self.need('void')       # in C, () says nothing about the parameters
        while not self.at(')'):
            if self.eat('...'):
                var = True
                break
            if self.mode == 'c' or not out or self.type_follows():
                t = self.typename()
            out.append((t, self.form()))
            if not self.eat(','):
                break
        self.need(')')
        return tuple(out), var

    def anonparams(self):
        self.need('(')
        out = []
        var = False
        if self.mode == 'c' and self.at('void') and self.at(')', 1):
            self.i += 2
            return ((), False)
        if self.mode == 'c' and self.at(')'):
            self.need('void')
        while not self.at(')'):
            if self.eat('...'):
                var = True
                break
            out.append(self.baretype())
            if not self.eat(','):
                break
        self.need(')')
        return (tuple(out), var)

    def enum(self):
        self.need('enum')
        self.need('{')
        out = []
        while not self.at('}'):
            n = self.word()
            v = None
            if self.eat('='):
                v = self.expr()
            out.append((n, v))
            if not self.eat(','):
                break
        self.need('}')
        return tuple(out)

    def fields(self):
        self.need('{')
        out = []
        while not self.at('}'):
            if self.eat('union'):
                self.need('{')
                fs = []
                while not self.at('}'):
                    t = self.typename()
                    fs.append((t, self.form()))
                    self.need(';')
                self.need('}')
                f = self.form()
                self.need(';')
                out.append(('union', f, tuple(fs)))
                continue
            t = self.typename()
            out.append(('field', t, self.form()))
            while self.eat(','):
                out.append(('field', t, self.form()))
            self.need(';')
        self.need('}')
        return tuple(out)

    def che_module(self):
        out = []
        while self.pk()[0] != 'eof':
            k, v, ln = self.pk()
            if k == 'macro':
                self.i += 1
                if v.startswith('#import'):
                    out.append(('import', v[7:].strip()))
                else:
                    name, _, val = v[1:].partition(' ')
                    out.append(('macro', name, val))
                continue
            pub = self.eat('pub')
            if self.at('enum'):
                e = self.enum()
                self.eat(';')
                out.append(('enum', pub, e))
                continue
            if self.eat('typedef'):
                if self.at('{'):
                    f = self.fields()
                    n = self.word()
                    self.need(';')
                    out.append(('struct', pub, n, f))
                elif self.eat('struct'):
                    a = self.word()
                    n = self.word()
                    self.need(';')
                    out.append(('alias', pub, a, n))
                else:
                    out.append(('typedef', pub) + self.typedef_rest())
                continue
            t = self.typename()
            f = self.form()
            if self.at('('):
                ps, var = self.params()
                out.append(('func', pub, t, f, ps, var, self.block()))
                continue
            self.need('=')
            v = self.expr()
            self.need(';')
            out.append(('modvar', t, f, v))
        return out

    def typedef_rest(self):
        t = self.typename()
        n = self.stars()
        name = self.word()
        ps = self.anonparams() if self.at('(') else None
        size = None
        if self.eat('['):
            size = self.pk()[1]
            self.i += 1
            self.need(']')
        self.need(';')
        return (t, n, name, ps, size)

    def c_module(self):
        out = []
        while self.pk()[0] != 'eof':
            k, v, ln = self.pk()
            if k == 'macro':
                self.i += 1
                out.append(('macro', v))
                continue
            if self.at('enum'):
                e = self.enum()
                self.need(';')
                out.append(('enum', e))
                continue
            if self.eat('typedef'):
                x = self.typedef_rest()
                self.types.add(x[2])
                out.append(('typedef',) + x)
                continue
            if self.at('struct') and self.at(';', 2):
                self.i += 1
                n = self.word()
                self.need(';')
                out.append(('fwdstruct', n))
                continue
            if self.at('struct') and self.at('{', 2):
                self.i += 1
                n = self.word()
                f = self.fields()
                self.need(';')
                out.append(('structdef', n, f))
                continue
            static = self.eat('static')
            t = self.typename()
            f = self.form()
            if self.at('('):
                ps, var = self.params()
                if self.eat(';'):
                    out.append(('proto', static, t, f, ps, var))
                else:
                    out.append(('func', static, t, f, ps, var, self.braces()))
                continue
            self.need('=')
            v = self.expr()
            self.need(';')
            out.append(('modvar', static, t, f, v))
        return out


def typedef_names(toks):
    """names declared by the typedefs and #type hints of a che module"""
    out = []
    i = 0
    while i < len(toks):
        k, v, _ = toks[i]
        if k == 'macro' and v.startswith('#type'):
            out.append(v[5:].strip())
        if k == 'word' and v == 'typedef':
            depth = 0
            j = i + 1
            last = None
            while j < len(toks):
                kk, vv, _ = toks[j]
                if kk == 'sym' and vv in '({[':
                    depth += 1
                elif kk == 'sym' and vv in ')}]':
                    depth -= 1
                elif kk == 'sym' and vv == ';' and depth == 0:
                    break
                elif kk == 'word' and depth == 0:
                    last = vv
                j += 1
            out.append(last)
            i = j
        i += 1
    return out
