"""P22: layout and comments do not change the meaning of grammar text; text that is not a grammar is refused."""
import contextlib
import io

from harness.common import Case, make_cli, run_line
from symx.api import ISet, ANY, alphabet, drive

UP = ISet(((65, 90), (0xC0, 0xD6)))

ONE = r'''
token W StringToken ( ) , N RangedIntToken ( -9 , 120 ) , F ;
part [ $p , $q = "dq" ] : << call inn ( $p , $q ) ; >> ( "s" : "help of s" | N << $p = inc ( $1 ) ; call got ( $p , $q ) ; >> ) ;
root : "go" << $a = "t\"x" ; $b = None ; >> { part [ $a ] } ( "x" , { "y" : "the y" } ) << call two ( $3 , $b ) ; >> end
| "rep" ( W << call one ( $1 , list ( $1 , -2 , 1.5 , True ) ) ; print ( "p" , $1 ) ; >> ) * ( 1 : 2 ) "z" * 2 ;
'''
ONE_LINES = ['go s x end', 'go 7 y x end', 'go x y end', 'rep A z z', 'rep A B z z', 'rep z', 'go 130 x end', 'go s']
ONE_PARTIAL = ['', 'go ', 'go x ', 'rep a z']
TWO = r'''
pick : { "m" << call got ( $1 ) ; >> << call two ( ) ; >> } "n" ;
root : << call one ( "start" ) ; >> pick << $x = call got ( "in" ) ; >> ( ( "b" | "c" "d" ) << call got ( $2 ) ; >> ) * 2
"fin" : "last" << call two ( $1 , $x ) ; >> ;
'''
TWO_LINES = ['m n b c d fin', 'n c d c d fin', 'n b b fin', 'n b fin', 'm m n b b fin']
TWO_PARTIAL = ['', 'm ', 'n b ', 'n b b f']
HANDLERS = ['one', 'two', 'got', 'inn']
GRAMMARS = {'one': (ONE, ONE_LINES, ONE_PARTIAL), 'two': (TWO, TWO_LINES, TWO_PARTIAL)}


def elements(text):
    """The elements of the text, and for each whether it stands inside an action."""
    out, i = [], 0
    while i < len(text):
        if text[i] in ' \n':
            i += 1
            continue
        j = i + 1
        if text[i] == '"':
            while text[j] != '"':
                j += 2 if text[j] == '\\' else 1
            j += 1
        else:
            while text[j] not in ' \n':
                j += 1
        out.append(text[i:j])
        i = j
    inside, flags = False, []
    for e in out:
        if e == '>>':
            inside = False
        flags.append(inside)
        if e == '<<':
            inside = True
    return out, flags


def build(text):
    from nessaid_cli.tokens import StringToken, RangedIntToken, CliToken
    return make_cli(text, handlers=HANDLERS, token_classes=[StringToken, RangedIntToken, CliToken])


def offers(cli, typed):
    cli.readline.buffer = typed
    cli._completion_matches = []
    res = drive(cli.match([w for w in typed.split(' ') if w], dry_run=True, last_token_complete=typed.endswith(' '), arglist=[]))
    return sorted([str(t) + '=' + str(t.helpstring) for t in res.next_tokens if t])


def behaviour(cli, lines, partial):
    out = []
    for l in lines:
        n, k = len(cli.err.parts), len(cli.out.parts)
        rc, calls = run_line(cli, l)
        out.append([l, rc, calls, ''.join(cli.err.parts[n:]), ''.join(cli.out.parts[k:])])
    for p in partial:
        out.append([p, offers(cli, p)])
    return out


BLANK = [' ', '\n', '\t', '\r\n', '\r', '  ', '\n\n \t']
TRICKY = ['', '"', '<<', ';', '\\', '*', '/', '/*', '//', '#', '" "', '\'', '<', 'go ";', '/**', '(', '"x\\', 'root : "q" ;', ' é\t']


def comment(kind, body):
    return {'#': '#' + body + '\n', '//': '//' + body + '\n', '/*': '/*' + body + '*/'}[kind]


def fits(body, kind, inside):
    """A comment of the kind can have this text."""
    if kind == '/*':
        return '*/' not in body and not (inside and '>>' in body)
    return '\n' not in body and '\r' not in body and not (inside and '>>' in body)


def same(S, text, cli, want, lines, partial):
    got = behaviour(build(text), lines, partial)
    S.observe('behaviour', [[g[0], g[1]] for g in got])
    for g, w in zip(got, want):
        S.check(g == w, lambda: '%r: %r, expected %r' % (text, g, w))
    S.reach('same')


def prepare(name):
    def f():
        text, lines, partial = GRAMMARS[name]
        cli = build(text)
        return behaviour(cli, lines, partial)
    return f


def places(elems, inside, every):
    """Gaps to try: all, or one of each kind of neighbours."""
    if every:
        return list(range(len(elems) + 1))
    seen, out = set(), []
    for i in range(len(elems) + 1):
        around = (kind(elems[i - 1], inside[i - 1]) if i else '', kind(elems[i], inside[i]) if i < len(elems) else '', i < len(elems) and inside[i])
        if around not in seen:
            seen.add(around)
            out.append(i)
    return out


def spread(S, elems, inside, groups, fill):
    """The text with the filler in one gap, or in every groups-th gap when groups is given; fill(here) for a gap
    inside an action or not."""
    n = S.choice('gap', groups or len(elems) + 1)
    t = ''
    for i in range(len(elems) + 1):
        here = i < len(elems) and inside[i]
        t += (' ' if i else '') + (fill(here) + ' ' if (i % groups if groups else i) == n else '') + (elems[i] if i < len(elems) else '')
    return t


def layout(name, n, groups):
    """One comment in one gap, or in several."""
    def f(S, want):
        text, lines, partial = GRAMMARS[name]
        elems, inside = elements(text)
        kind = S.pick('kind', ['#', '//', '/*'])
        body = S.str('comment', 0, n, ANY)
        S.assume(fits(body, kind, False))
        t = spread(S, elems, inside, groups, lambda here: comment(kind, body if fits(body, kind, here) else ''))
        same(S, t, None, want, lines, partial)
    return f


def fixed(name, groups):
    """The same with comments full of marks, and blanks of every kind."""
    def f(S, want):
        text, lines, partial = GRAMMARS[name]
        elems, inside = elements(text)
        kind = S.pick('kind', ['#', '//', '/*', 'blank'])
        if kind == 'blank':
            blank = S.pick('blank', BLANK)
            t = spread(S, elems, inside, groups, lambda here: blank)
        else:
            body = S.pick('comment', TRICKY)
            S.assume(fits(body, kind, False))
            t = spread(S, elems, inside, groups, lambda here: comment(kind, body if fits(body, kind, here) else ''))
        same(S, t, None, want, lines, partial)
    return f


def word(c):
    return c.isalnum() or c in '_-.+$'


def everywhere(name, n):
    """The same filler in every gap, with or without blanks around it; no blanks at all where none are needed."""
    def f(S, want):
        text, lines, partial = GRAMMARS[name]
        elems, inside = elements(text)
        kind = S.pick('kind', ['none', 'blank', '#', '//', '/*', '/*2'])
        if kind == 'none':
            t = elems[0]
            for a, b in zip(elems, elems[1:]):
                t += (' ' if word(a[-1]) and word(b[0]) else '') + b
        elif kind == 'blank':
            t = S.pick('blank', BLANK).join(elems)
        else:
            body = S.str('comment', 0, n, ANY)
            S.assume(fits(body, kind[:2], True))
            pad = S.pick('pad', ['', ' ', '\n'])
            fill = comment(kind[:2], body)
            if kind == '/*2':
                fill = fill + pad + '/**/'
            t = (pad + fill + pad).join(elems)
            if S.bool('ends'):
                t += pad + fill
            if kind != '/*' and kind != '/*2' and S.bool('no newline'):
                t += '#' + body
        same(S, t, None, want, lines, partial)
    return f


# ---- names
def refused(S, text, what):
    accepted = True
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            build(text)
    except Exception:
        accepted = False
    S.check(not accepted, lambda: '%s accepted: %r' % (what, text))
    S.reach('refused')


NAME1 = alphabet('abwAB_')
NAME2 = alphabet('abwAB_-01')


def name(S, label, n):
    return S.char(label, NAME1) + S.str(label + "'", 0, n, NAME2)


DOUBLE = {
    'grammars': '%s : "x" ; root : "y" ; %s : "z" ;',
    'grammars with parameters': '%s [ $p ] : "x" ; %s : "z" ; root : "y" ;',
    'tokens': 'token %s StringToken ( ) , %s RangedIntToken ( 1 , 2 ) ; root : "y" ;',
    'tokens apart': 'token %s StringToken ( ) ; root : "y" ; token %s RangedIntToken ( 1 , 2 ) ;',
    'token and grammar': 'token %s StringToken ( ) ; %s : "x" ; root : "y" ;',
    'grammar and token': '%s : "x" ; root : "y" ; token %s StringToken ( ) ;',
}


def double(n):
    """Two definitions of one name are refused, of two names accepted."""
    def f(S, env):
        form = S.pick('form', list(DOUBLE) + ['parameters'])
        a, b = name(S, 'a', n), name(S, 'b', n)
        if form == 'parameters':
            S.assume('-' not in a and '-' not in b)
            text = 'sub [ $%s , $%s ] : "x" ; root : "y" ;' % (a, b)
        else:
            text = DOUBLE[form] % (a, b)
        if a == b:
            refused(S, text, 'a second definition')
        else:
            rc, calls = run_line(build(text), 'y')
            S.check(rc == 0, lambda: '%r: %r' % (text, rc))
            S.reach('different')
    return f


WORDS = ['token', 'import', 'True', 'False', 'None', 'call', 'print', 'list']
LIKE = ['true', 'FALSE', 'none', 'Token', 'IMPORT', 'True2', 'token-', 'imports']


def named(n):
    """Any name, the words of the grammar language included, can name a token, a rule or stand for itself."""
    def f(S, env):
        which = S.choice('own name', 3)
        own = name(S, 'name', n) if S.bool('any name') else S.pick('like', LIKE[:5] if n == 1 else LIKE)
        names = [own if i == which else S.pick('word%d' % i, WORDS[:5] if n == 1 else WORDS) for i in range(3)]
        a, b, c = names
        S.assume(a != b and b != c and a != c and a != 'root' and b != 'root' and c != 'root')
        params = S.pick('parameters', ['[ ]', '[ $p ]'] if n == 1 else ['', '[ ]', '[ $p ]'])
        args = S.pick('arguments', ['', '[ ]'])
        text = 'token %s StringToken ( ) ; %s %s : "x" << call one ( "x" ) ; >> ; root : %s %s %s %s << call got ( $1 , $2 , $3 ) ; >> ;' % (a, b, params, a, b, args, c)
        cli = build(text)
        rc, calls = run_line(cli, 'q x ' + c)
        S.observe('calls', calls)
        S.check(rc == 0 and calls == [('one', 'x'), ('got', 'q', 'x', c)], lambda: '%r: %r %r' % (text, rc, calls))
        S.reach('named')
    return f


# ---- quoted keywords
ESC = {'\\n': '\n', '\\t': '\t', '\\"': '"', '\\\\': '\\', '\\r': '\r', '\\a': '\a', '\\b': '\b', '\\v': '\v', '\\0': '\0'}
TEXT = ISet(((32, 33), (35, 91), (93, 126), (0xA1, 0x17F)))


def keyword(n):
    """A quoted keyword stands for the text after replacing escapes, and that text reaches the handler."""
    def f(S, env):
        from nessaid_cli.utils import convert_to_cli_string
        a, b = S.str('before', 0, n, TEXT), S.str('after', 0, n, TEXT)
        esc = S.pick('escape', [''] + list(ESC))
        text = a + (ESC[esc] if esc else '') + b
        S.assume(len(text) > 0)
        cli = build('root : "%s" << call got ( $1 ) ; >> | "%s" "no" << call one ( ) ; >> ;' % (a + esc + b, 'zz' + b + esc + a))
        rc, calls = run_line(cli, convert_to_cli_string(text))
        S.observe('calls', calls)
        S.check(rc == 0 and calls == [('got', text)], lambda: 'keyword %r: %r %r' % (text, rc, calls))
        other = S.pick('other', ['!', '\\', 'n', '"', '\n'])
        if text + other != 'zz' + b + (ESC[esc] if esc else '') + a:
            rc, calls = run_line(cli, convert_to_cli_string(text + other))
            S.check(rc != 0 and calls == [], lambda: 'keyword %r, typed %r: %r %r' % (text, text + other, rc, calls))
        S.reach('keyword')
    return f


# ---- a parser of the documented syntax
class No(Exception):
    pass


class Reader:
    def __init__(self, kinds):
        self.k, self.i = kinds + ['end'], 0

    def see(self, *ks):
        return self.k[self.i] in ks

    def take(self, *ks):
        if not self.see(*ks):
            raise No()
        self.i += 1

    def maybe(self, *ks):
        if self.see(*ks):
            self.i += 1
            return True
        return False

    def name(self):
        self.take('name', 'token', 'constant', 'call')

    def spec(self):
        while not self.see('end'):
            if self.see('token') and self.k[self.i + 1] not in (':', '['):
                self.i += 1
                self.deftoken()
                while self.maybe(','):
                    self.deftoken()
                self.take(';')
            else:
                self.name()
                if self.maybe('['):
                    if not self.see(']'):
                        self.param()
                        while self.maybe(','):
                            self.param()
                    self.take(']')
                self.take(':')
                self.rule()
                self.take(';')

    def deftoken(self):
        self.name()
        if not self.see(',', ';'):
            self.name()
            self.take('(')
            if not self.see(')'):
                self.tokenarg()
                while self.maybe(','):
                    self.tokenarg()
            self.take(')')

    def basic(self):
        self.take('int', 'float', 'string', 'constant')

    def tokenarg(self):
        if self.see('name', 'token', 'constant', 'call') and self.k[self.i + 1] == '=':
            self.i += 2
        self.basic()

    def param(self):
        self.take('$name')
        if self.maybe('='):
            self.take('string', '$name', 'int', 'float')

    def rule(self):
        self.alternative()
        while self.maybe('|'):
            self.alternative()

    def alternative(self):
        while self.see('<<'):
            self.action()
        self.part()
        if self.see(','):
            while self.maybe(','):
                self.part()
        else:
            while not self.see('|', ')', '}', ';', 'end', ','):
                self.part()
        if self.see(','):
            raise No()

    def part(self):
        self.term()
        while self.maybe('*'):
            if self.maybe('('):
                self.take('int')
                if self.maybe(':'):
                    self.take('int')
                self.take(')')
            else:
                self.take('int')
        while self.see('<<'):
            self.action()

    def term(self):
        if self.maybe('('):
            self.rule()
            self.take(')')
        elif self.maybe('{'):
            self.rule()
            self.take('}')
        elif self.maybe('string'):
            if self.maybe(':'):
                self.take('string')
        else:
            self.name()
            if self.maybe(':'):
                self.take('string')
            elif self.maybe('['):
                if not self.see(']'):
                    self.argument()
                    while self.maybe(','):
                        self.argument()
                self.take(']')

    def argument(self):
        if self.see('$name') and self.k[self.i + 1] == '=':
            self.i += 2
        if not self.maybe('$name', '$number'):
            self.basic()

    def action(self):
        self.take('<<')
        while not self.maybe('>>'):
            if self.maybe('$name'):
                self.take('=')
                self.value()
            else:
                self.maybe_call()
            self.take(';')

    def maybe_call(self):
        if self.see('call') and self.k[self.i + 1] != '(':
            self.i += 1
        self.take('name', 'call', 'constant')
        self.take('(')
        if not self.see(')'):
            self.value()
            while self.maybe(','):
                self.value()
        self.take(')')

    def value(self):
        if self.see('name', 'call') or self.see('constant') and self.k[self.i + 1] == '(':
            self.maybe_call()
        elif not self.maybe('$name', '$number'):
            self.basic()


def kind(e, inside):
    if e[0] == '"':
        return 'string'
    if e[0] == '$':
        return '$number' if e[1].isdigit() else '$name'
    if e[0].isdigit() or e[0] == '-' and e[1:2].isdigit():
        return 'float' if '.' in e else 'int'
    if e in ('True', 'False', 'None'):
        return 'constant'
    if e == 'token':
        return 'name' if inside else 'token'
    if e == 'call':
        return 'call' if inside else 'name'
    if e[0].isalpha() or e[0] == '_':
        return 'name'
    return e


def grammatical(elems):
    inside = False
    kinds = []
    for e in elems:
        if e == '>>':
            inside = False
        kinds.append(kind(e, inside))
        if e == '<<':
            inside = True
    try:
        Reader(kinds).spec()
    except (No, IndexError):
        return False
    return True


EXTRA = ['(', ')', '{', '}', '[', ']', ':', ';', ',', '|', '*', '=', '&', '"new"', 'new', '$v', '$1', '3', '2.5', '<<', '>>', 'True', '\\n', '"op',
         'call', 'token']


def mutated(which, swaps, every):
    """One element removed, replaced, added, or two exchanged."""
    def f(S, env):
        text = GRAMMARS[which][0]
        elems, inside = elements(text)
        at = [p for p in places(elems, inside, every) if p < len(elems)]
        i = S.pick('at', at)
        what = S.pick('what', ['drop', 'replace', 'insert', 'double', 'exchange'])
        if what == 'drop':
            new = elems[:i] + elems[i + 1:]
        elif what == 'double':
            new = elems[:i] + [elems[i]] + elems[i:]
        elif what == 'exchange':
            j = i + 1 + S.choice('with', swaps)
            S.assume(j < len(elems) and elems[i] != elems[j])
            new = list(elems)
            new[i], new[j] = elems[j], elems[i]
        else:
            extra = EXTRA if every else EXTRA[what == 'insert'::3]
            e = S.pick('element', extra)
            new = elems[:i] + [e] + elems[i + (what == 'replace'):]
        if grammatical(new):
            S.reach('another grammar')
            return
        refused(S, ' '.join(new), 'text that is not a grammar')
    return f


ORDINARY = ISet(((9, 10), (13, 13), (32, 32), (48, 57), (65, 90), (95, 95), (97, 122)) )
MARKS = '()[]{}:;,|*=#/'


def stray(which, every):
    """A character that no element begins with, anywhere between elements."""
    def f(S, env):
        text = GRAMMARS[which][0]
        elems, inside = elements(text)
        i = S.pick('at', places(elems, inside, every))
        c = S.char('character', ANY)
        S.assume(c not in MARKS and c not in ' \t\r\n_' and not ('0' <= c <= '9' or 'a' <= c <= 'z' or 'A' <= c <= 'Z'))
        refused(S, ' '.join(elems[:i] + [c] + elems[i:]), 'a stray character')
    return f


def limits(S, env):
    """Repetition counts: none below one, and a negative count is no count."""
    a, b = S.int('a', -2, 3), S.int('b', -2, 3)
    one = S.bool('one count')
    text = 'root : "x" * %s << call got ( ) ; >> ;' % (str(a) if one else '( ' + str(a) + ' : ' + str(b) + ' )')
    if one and a <= 0 or not one and (a < 0 or b < 0 or a == 0 and b == 0):
        refused(S, text, 'a repetition count')
        return
    cli = build(text)
    lo, hi = (a, a) if one else (min(a, b), max(a, b))
    n = 1 + S.choice('words', 4)
    rc, calls = run_line(cli, ' '.join(['x'] * n))
    S.observe('rc', rc)
    if lo <= n <= hi:
        S.check(rc == 0 and calls == [('got',)], lambda: '%r with %d words: %r %r' % (text, n, rc, calls))
    else:
        S.check(rc != 0 and calls == [], lambda: '%r with %d words: %r %r' % (text, n, rc, calls))
    S.reach('counted')


def cases(tier):
    q = tier == 'quick'
    out = []
    for g in GRAMMARS:
        n = 1 if q else 2
        some = ' (several gaps at once)' if q else ''
        e = len(elements(GRAMMARS[g][0])[0])
        out += [
            Case('comment:' + g, prepare(g), layout(g, n, 16 if q else 0), 'a comment of up to %d arbitrary characters in any of the %d gaps%s' % (n, e + 1, some), ('same',)),
            Case('filler:' + g, prepare(g), fixed(g, 8 if q else 0), '%d kinds of blanks, %d comment texts of three kinds in any gap%s' % (len(BLANK), len(TRICKY), some), ('same',)),
            Case('everywhere:' + g, prepare(g), everywhere(g, 1 if q else 3), 'the same filler in every gap, comment of up to %d arbitrary characters' % (1 if q else 3), ('same',)),
            Case('mutated:' + g, lambda: None, mutated(g, 2 if q else 12, not q), 'one element dropped, doubled, replaced or preceded by one of %d others, or exchanged with one of the next %d' % (len(EXTRA), 2 if q else 12), ('refused', 'another grammar')),
            Case('stray:' + g, lambda: None, stray(g, not q), 'any other character in any gap', ('refused',)),
        ]
    m = 1 if q else 2
    out += [
        Case('names', lambda: None, double(m), 'names of up to %d characters of ab01wAB_-' % (m + 1), ('refused', 'different')),
        Case('words as names', lambda: None, named(1 if q else 2), 'a token, a rule and a keyword of any names, %s among them' % ', '.join(WORDS), ('named',)),
        Case('keywords', lambda: None, keyword(1 if q else 2), 'keywords of up to %d printable characters and an escape' % (2 if q else 4), ('keyword',)),
        Case('limits', lambda: None, limits, 'counts -2..3', ('refused', 'counted')),
    ]
    return out
