"""Texts in and around the Move language, for the checks of the parser and what stands on it."""

WORDS = ['struct', 'script', 'module', 'const', 'use', 'as', 'let', 'mut', 'return', 'fun', 'true', 'false', 'move', 'while',
         'if', 'else', 'break', 'continue', 'address', 'a', 'b', 'T', 'Self', 'x1', '_', 'abort', 'public', 'u8']
PUNCT = list('(){}[]<>,.;:+-*/%^|&!=@#') + ['::', '..', '&&', '||', '==', '!=', '<=', '>=', '<<', '>>', '==>', '<==>', '&mut']
LITERALS = ['0', '1', '42u8', '0x1', '0xAFu128', '7u64', 'x"0a"', 'b"h\\"i"', '@0x1', '@a', '0x']
STRANGE = ['\u00e9', '\U0001f600', '"', 'x"zz', '\\', '$', '?', '`', "'", '~', '\r', '\0', '\u2028', '\u65e5', 'b"', '\ufeff']
GAPS = [' ', ' ', ' ', '\n', '\t', '  ', ' // c\n', '\n// \u00e9 {\n', '\n\n']


def soup(rng, n, strange=.05):
    out = []
    for _ in range(n):
        x = rng.random()
        out.append(rng.choice(STRANGE) if x < strange else rng.choice(WORDS) if x < .4 else rng.choice(LITERALS) if x < .5 else rng.choice(PUNCT))
        if rng.random() < .8:
            out.append(rng.choice(GAPS))
    return ''.join(out)


class Program:
    """A random program of the supported language, as a list of tokens."""

    def __init__(self, rng, size=30):
        self.rng, self.left, self.out = rng, size, []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            self.top()

    def e(self, *ts):
        self.out.extend(ts)

    def name(self):
        self.e(self.rng.choice(['a', 'b', 'foo', 'T', 'x1', '_', '_a', 'Vector', 'u8', 'abc_d']))

    def some(self, f, sep=None, least=0, most=3):
        n = self.rng.randint(least, most) if self.left > 0 else least
        for k in range(n):
            f()
            if sep and (k < n - 1 or self.rng.random() < .3):
                self.e(sep)

    def top(self):
        x = self.rng.random()
        if x < .35:
            self.e('script', '{')
            self.some(self.fun, None, 0, 2)
            self.e('}')
        elif x < .8:
            self.module(True)
        else:
            self.e('address')
            self.e(self.rng.choice(['0x1', '0xAB', 'std']))
            self.e('{')
            self.some(lambda: self.module(False), None, 0, 2)
            self.e('}')

    def module(self, addr):
        self.e('module')
        if addr and self.rng.random() < .5:
            self.e(self.rng.choice(['0x1', '0x00', 'std']), '::')
        self.name()
        self.e('{')
        self.some(lambda: self.fun() if self.rng.random() < .7 else self.struct(), None, 0, 3)
        self.e('}')

    def struct(self):
        self.e('struct')
        self.name()
        if self.rng.random() < .4:
            self.e('<')
            self.some(self.type_param, ',', 1, 2)
            self.e('>')
        if self.rng.random() < .2:
            self.e(';')
            return
        self.e('{')
        self.some(self.field, ',', 0, 3)
        self.e('}')

    def type_param(self):
        self.name()
        if self.rng.random() < .4:
            self.e(':')
            self.name()
            if self.rng.random() < .4:
                self.e('+')
                self.name()

    def field(self):
        self.name()
        self.e(':')
        self.type()

    def type(self):
        self.left -= 1
        x = self.rng.random()
        if x < .15 and self.left > 0:
            self.e(*self.rng.choice([['&'], ['&mut'], ['&', 'mut']]))
            self.type()
        else:
            self.path()

    def path(self):
        self.name()
        while self.rng.random() < .25:
            self.e('::')
            self.name()

    def fun(self):
        self.e('fun')
        self.name()
        self.e('(')
        self.some(self.field, ',', 0, 2)
        self.e(')')
        if self.rng.random() < .3:
            self.e(':')
            self.type()
        self.block()

    def block(self):
        self.e('{')
        n = self.rng.randint(0, 3) if self.left > 0 else 0
        for k in range(n):
            if self.rng.random() < .35:
                self.e('let')
                self.pattern()
                if self.rng.random() < .3:
                    self.e(':')
                    self.type()
                if self.rng.random() < .7:
                    self.e('=')
                    self.expr()
            else:
                self.expr()
            if k < n - 1 or self.rng.random() < .7:
                self.e(';')
        self.e('}')

    def pattern(self):
        self.left -= 1
        x = self.rng.random()
        if x < .6 or self.left < 0:
            if self.rng.random() < .3:
                self.e('mut')
            self.name()
        elif x < .8:
            self.e('(')
            self.some(self.pattern, ',', 0, 3)
            self.e(')')
        else:
            self.name()
            self.e('{')
            self.some(self.field_pattern, ',', 0, 2)
            self.e('}')

    def field_pattern(self):
        self.name()
        if self.rng.random() < .5:
            self.e(':')
            self.pattern()

    def expr(self):
        self.left -= 1
        x = self.rng.random()
        if self.left < 0 or x < .3:
            self.atom()
        elif x < .6:
            self.expr()
            self.e(self.rng.choice(['=', '<', '>', '|', '^', '&', '+', '-', '*', '/', '%']))
            self.expr()
        elif x < .7:
            self.e(self.rng.choice(['*', '!', '-']))
            self.expr()
        elif x < .8:
            self.path()
            self.e('(')
            self.some(self.expr, ',', 0, 3)
            self.e(')')
        elif x < .87:
            self.atom()
            self.e('.')
            self.name()
        elif x < .92:
            self.path()
            self.e('{')
            self.some(self.field_expr, ',', 0, 3)
            self.e('}')
        elif x < .96:
            self.e('(')
            self.expr()
            self.e(')')
        else:
            self.block()

    def field_expr(self):
        self.name()
        if self.rng.random() < .6:
            self.e(':')
            self.expr()

    def atom(self):
        if self.rng.random() < .5:
            self.path()
        else:
            self.e(*self.rng.choice([['1'], ['42u8'], ['0x1f'], ['true'], ['false'], ['x"0a"'], ['b"\\"q"'], ['@', '0x1'], ['@', 'std']]))


def program(rng, size=30):
    return Program(rng, size).out


def layout(rng, tokens, gaps=GAPS):
    return ''.join(t + rng.choice(gaps) for t in tokens)


def broken_tokens(rng, size=30):
    """A program with some tokens removed, doubled, replaced or put in."""
    ts = program(rng, size)
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        if not ts:
            break
        i = rng.randrange(len(ts))
        x = rng.random()
        if x < .35:
            del ts[i]
        elif x < .5:
            ts.insert(i, ts[i])
        elif x < .75:
            ts[i] = rng.choice(PUNCT + WORDS + LITERALS + STRANGE)
        elif x < .95:
            ts.insert(i, rng.choice(PUNCT + WORDS + LITERALS + STRANGE))
        else:
            del ts[i:]
    return ts


def broken(rng, size=30):
    """A program broken in its tokens, or in its characters."""
    s = layout(rng, broken_tokens(rng, size))
    if rng.random() < .2 and s:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(['', rng.choice(STRANGE), s[i] * 2]) + s[i + 1:]
    return s


def any_text(rng):
    x = rng.random()
    if x < .15:
        return layout(rng, program(rng, rng.choice([5, 30, 80])))
    if x < .65:
        return broken(rng, rng.choice([5, 30, 60]))
    if x < .9:
        return soup(rng, rng.choice([2, 5, 10, 30, 60]))
    return ''.join(rng.choice(WORDS + PUNCT + STRANGE + GAPS) for _ in range(rng.randint(0, 20)))


# beginnings of programs that stop at every kind of place; what follows is read there
BEGINNINGS = ['', 'script', 'script {', 'script { fun', 'script { fun f', 'script { fun f(', 'script { fun f(a', 'script { fun f(a:',
              'script { fun f(a: T,', 'script { fun f() :', 'script { fun f() {', 'script { fun f() { a', 'script { fun f() { a +',
              'script { fun f() { a(', 'script { fun f() { a(b,', 'script { fun f() { a.', 'script { fun f() { (', 'script { fun f() { (a',
              'script { fun f() { {', 'script { fun f() { T {', 'script { fun f() { T { a', 'script { fun f() { T { a:', 'script { fun f() { T { a,',
              'script { fun f() { let', 'script { fun f() { let a', 'script { fun f() { let a:', 'script { fun f() { let a =', 'script { fun f() { let (',
              'script { fun f() { let (a,', 'script { fun f() { let T {', 'script { fun f() { let T { a:', 'script { fun f() { @', 'script { fun f() { a::',
              'script { fun f() { -', 'script { fun f() {}', 'script {} ', 'module', 'module M', 'module M {', 'module 0x1', 'module 0x1::', 'module 0x1::M',
              'module M { struct', 'module M { struct S', 'module M { struct S <', 'module M { struct S <T', 'module M { struct S <T:',
              'module M { struct S <T: A +', 'module M { struct S {', 'module M { struct S { a', 'module M { struct S { a:', 'module M { struct S { a: &',
              'module M { struct S { a: T,', 'module M { struct S;', 'module M { {', 'address', 'address 0x1', 'address 0x1 {', 'address 0x1 { {',
              'address 0x1 { module', 'address 0x1 { module M {', 'module M { struct S { {', 'script { fun f() { T { {', 'script { fun f() { let T { {']


def contexts():
    return [b + ' ' if b else '' for b in BEGINNINGS]


# the characters that never join a token next to them
ALONE = set('(){}[],;@#')


def gap(rng, before, after, gaps=None):
    """Something between two tokens ('' at the ends of the text) that keeps them as they are."""
    if before[:2] in ('x"', 'b"') and (len(before) == 2 or before[-1] != '"') or before == '"' or before.startswith('//'):
        return rng.choice(['\n', '\n\n', '\n  ', '\n// c\n'])
    g = rng.choice(gaps or ['', '', ' ', '  ', '\n', '\t', '\n\n\n', '// c\n', '//\n', ' // \u00e9 { ;\n', '\n// "\n  ', '// a\n// b\n', ' // x"\n\n//\n', '//' * 5 + '\n'])
    if g == '' and before and after and before[-1] not in ALONE and after[0] not in ALONE:
        g = ' '
    if g.startswith('//') and before.endswith('/'):
        g = ' ' + g
    return g


def relayout(rng, tokens, gaps=None):
    """The same tokens in some layout."""
    out = []
    for a, b in zip([''] + tokens, tokens + ['']):
        out += [gap(rng, a, b, gaps), b]
    s = ''.join(out)
    return s[:-1] if s.endswith('\n') and rng.random() < .2 and not s.endswith('"\n') else s


def split(s):
    """The tokens of a beginning (see BEGINNINGS)."""
    import re
    return re.findall(r'::|0x[0-9]+|\w+|\S', s)
