"""P24: token classes written by the user decide by their own answers. The answers of the class (match, get_value,
complete, completable, cacheable, raising an exception) are choices of the solver, made when the class is first asked."""
from harness.common import Case, make_cli, run_line
from harness.p09 import offers, same
from symx.api import alphabet, drive

LOW = alphabet('abc')
MATCHES = ['success', 'partial', 'failure', 'raises']
VALUES = ['text', 'null', 'number', 'zero', 'empty', 'raises']
COMPS = ['none', 'one', 'two', 'too many', 'raises']
TEXT = {'text': 'V', 'number': 7, 'zero': 0, 'empty': ''}


class Answers:
    """What one token class answers; the same question always gets the same answer."""

    def __init__(self, S, name, values=VALUES, comps=COMPS):
        self.S, self.name = S, name
        self.completable = S.bool(name + ' completable')
        self.cacheable = S.bool(name + ' cacheable')
        self.values, self.comps = values, comps
        self._match = self._value = self._comp = None

    def match(self):
        if self._match is None:
            self._match = self.S.pick(self.name + ' match', MATCHES)
        return self._match

    def value(self):
        if self._value is None:
            self._value = self.S.pick(self.name + ' value', self.values)
        return self._value

    def comp(self):
        if self._comp is None:
            self._comp = self.S.pick(self.name + ' completions', self.comps)
        return self._comp

    def accepts(self):
        return self.match() in ('success', 'partial') and self.value() not in ('null', 'raises')

    def rejects(self):
        """Certainly not this token: no match, or a full match without a value."""
        return self.match() in ('failure', 'raises') or (self.match() == 'success' and not self.accepts())

    def delivered(self):
        v = self.value()
        return self.name + TEXT[v] if v == 'text' else TEXT[v]

    # the class's methods end up here
    def do_match(self, text):
        if self.match() == 'raises':
            raise ValueError('match')
        return self.match()

    def do_value(self, text):
        from nessaid_cli.tokens import NullTokenValue
        if self.value() == 'raises':
            raise ValueError('get_value')
        return NullTokenValue if self.value() == 'null' else self.delivered()

    def do_complete(self, text):
        from nessaid_cli.tokens import TOO_MANY_COMPLETIONS
        c = self.comp()
        if c == 'raises':
            raise ValueError('complete')
        if c == 'too many':
            return TOO_MANY_COMPLETIONS, []
        got = {'none': [], 'one': [self.name + 'one'], 'two': [self.name + 'one', self.name + 'two']}[c]
        return len(got), got

    def offered(self):
        if self.completable and self.comp() in ('one', 'two'):
            return self.do_complete('')[1]
        return ['help ' + self.name]


def custom(name, is_async):
    from nessaid_cli.tokens import CliToken

    class Token(CliToken):
        answers = None

        @property
        def helpstring(self):
            return 'help ' + self.answers.name

        @property
        def completable(self):
            return self.answers.completable

        @property
        def cacheable(self):
            return self.answers.cacheable
    if is_async:
        async def match(self, token_input, cli=None):
            return self.answers.do_match(token_input)

        async def get_value(self, match_string=None, cli=None):
            return self.answers.do_value(match_string)

        async def complete(self, token_input, cli=None):
            return self.answers.do_complete(token_input)
    else:
        def match(self, token_input, cli=None):
            return self.answers.do_match(token_input)

        def get_value(self, match_string=None, cli=None):
            return self.answers.do_value(match_string)

        def complete(self, token_input, cli=None):
            return self.answers.do_complete(token_input)
    Token.match, Token.get_value, Token.complete = match, get_value, complete
    Token.__name__ = Token.__qualname__ = name
    return Token


ONE = 'token T Tok();\nroot[]: "k" T << call h($2); >> "e" | "l" T << call i($2); >> | "o" { T << call j($1); >> } ;'


def setup_one():
    toks = [custom('Tok', a) for a in (False, True)]
    return toks, [make_cli(ONE, handlers=('h', 'i', 'j'), token_classes=(t,)) for t in toks]


def one(S, env):
    """A line with one word for the token: executed exactly if the class accepts the word."""
    toks, clis = env
    kind = S.choice('async', 2)
    cli = clis[kind]
    a = toks[kind].answers = Answers(S, 'A')
    verb, handler, tail = S.pick('where', [('k', 'h', ' e'), ('l', 'i', ''), ('o', 'j', '')])
    word = S.char('word', LOW)
    rc, calls = run_line(cli, verb + ' ' + word + tail)
    S.observe('rc', rc)
    S.observe('calls', calls)
    if a.accepts():
        S.check(rc == 0 and calls == [(handler, a.delivered())] and type(calls[0][1]) is type(a.delivered()),
                'the token accepts the word, but the line was not executed with its value')
        S.reach('accepted')
    else:
        S.check(rc != 0 and not calls, 'the token does not accept the word')
        S.reach('rejected')


def same_answers(S, env):
    """Methods written as coroutines or as plain functions make no difference."""
    toks, clis = env
    a = Answers(S, 'A')
    toks[0].answers = toks[1].answers = a
    verb, tail = S.pick('where', [('k', ' e'), ('k', ' '), ('l', ''), ('o', '')])
    word = S.char('word', LOW)
    r = [run_line(c, verb + ' ' + word + tail) for c in clis]
    S.observe('plain', r[0])
    S.check(r[0] == r[1], 'plain and coroutine methods give different results')
    o = []
    complete = S.bool('blank')
    for c in clis:
        res, got, eoi = offers(S, c, [verb, word] if not complete else [verb], complete)
        o.append((res.result, sorted(got), eoi))
    S.observe('offers', set(o[0][1]))
    S.check(o[0] == o[1], 'plain and coroutine methods give different completions')


TWO = ('token T Tok();\ntoken U Uok();\nroot[]: T << call h($1); >> | U << call i($1); >> | '
       '"p" ( T << call h($1); >> "x" | U << call i($1); >> "y" );')


def setup_two():
    t, u = custom('Tok', True), custom('Uok', False)
    return t, u, make_cli(TWO, handlers=('h', 'i'), token_classes=(t, u))


def two(values, comps):
    def f(S, env):
        """Alternatives of two classes: a class that rejects the word never gets the line."""
        t, u, cli = env
        a, b = Answers(S, 'A', values, comps), Answers(S, 'B', values, comps)
        t.answers, u.answers = a, b
        where = S.choice('where', 3)
        word = S.char('word', LOW)
        S.assume(not word == 'p')
        rc, calls = run_line(cli, [word, 'p %s x' % word, 'p %s y' % word][where])
        S.observe('rc', rc)
        S.observe('calls', calls)
        S.check((rc == 0) == (len(calls) == 1) and len(calls) < 2, 'status')
        if calls:
            S.check(calls[0] == ('h', a.delivered()) if a.accepts() and calls[0][0] == 'h' else
                    b.accepts() and calls[0] == ('i', b.delivered()),
                    'a token that does not accept the word, or a wrong value')
        okay = []
        if where != 2:
            okay.append(('h', a))
        if where != 1:
            okay.append(('i', b))
        for name, x in okay:
            other = b if x is a else a
            if x.accepts() and other.rejects():
                S.check(calls == [(name, x.delivered())], 'the only token that accepts the word')
                S.reach('one')
    return f


def offered(S, env):
    """What is offered where the token stands."""
    toks, clis = env
    kind = S.choice('async', 2)
    cli = clis[kind]
    a = toks[kind].answers = Answers(S, 'A', ['text', 'null'])
    verb = S.pick('verb', ['k', 'l', 'o'])
    blank = S.bool('blank')
    words = [verb] if blank else [verb, S.char('word', LOW)]
    res, got, eoi = offers(S, cli, words, blank)
    S.observe('result', res.result)
    S.observe('got', set(got))
    if blank:
        want = a.offered()
    elif a.match() == 'success':
        want = a.offered() if a.value() != 'null' else []
    elif a.match() == 'partial':
        want = a.offered()
    else:
        want = []
    S.check(set(got) == set(want), lambda: 'offered %r instead of %r' % (got, want))
    S.check(eoi == (blank and verb == 'o'), 'complete command')
    S.check(not cli.log, 'a handler ran')
    S.reach('offers' if want else 'none')


# ---- a token whose choices depend on the words before it

def dependent():
    from nessaid_cli.tokens import CliToken, NullTokenValue

    class Part(CliToken):
        """Offers the parts, separated by commas, of the word matched at a position."""

        def __init__(self, name, index, helpstring, cli):
            super().__init__(name, helpstring=helpstring, cli=cli)
            self.index = index

        @property
        def completable(self):
            return True

        @property
        def cacheable(self):
            return False

        def options(self, cli):
            vals = cli.get_matched_values()
            cli.seen.append(vals[:self.index + 1])
            return [x for x in vals[self.index].split(',') if x]

        async def complete(self, text, cli=None):
            return await CliToken.complete_from_multiple(self.options(cli), text, cli)

        async def match(self, text, cli=None):
            return await CliToken.match_from_multiple(self.options(cli), text, cli)

        async def get_value(self, match_string=None, cli=None):
            opts = self.options(cli)
            if match_string in opts:
                return match_string
            n, comp = await self.complete(match_string, cli)
            return comp[0] if n == 1 else NullTokenValue
    return Part


DEP = [
    ('plain', 'root[]: "t" W P << call h($2, $3); >>;', 1, 't '),
    ('keyword in between', 'root[]: ( "t" | "u" ) W "of" P << call h($2, $4); >>;', 1, 't '),
    ('rule', 'w[$v]: W << $v = $1; >>;\nroot[]: << $x = ""; >> "t" "u" w[$x] P << call h($x, $4); >>;', 2, 't u '),
    ('block', 'root[]: "t" { "x" } W P << call h($3, $4); >>;', 1, 't '),
    ('repeated', 'root[]: W P * (1:2) << call h($1, $2); >>;', 0, ''),
]
BETWEEN = {'keyword in between': 'of '}
PARTS = alphabet('ab,')


def setup_dep(which):
    name, g, index, head = which
    text = 'token W StringToken();\ntoken P Part(%d);\n' % index + g

    def setup():
        from nessaid_cli.tokens import StringToken
        cli = make_cli(text, handlers=('h',), token_classes=(StringToken, dependent()))
        cli.seen = []
        return cli
    return setup


def body_dep(which, n, m, lines):
    name, g, index, head = which

    def f(S, cli):
        for k in range(lines):
            first = S.str('first%d' % k, 1, n, PARTS)
            word = S.str('word%d' % k, 1, m, PARTS)
            del cli.seen[:]
            opts = []
            for x in first.split(','):
                if x and not any(x == y for y in opts):
                    opts.append(x)
            fit = [x for x in opts if x.startswith(word)]
            rc, calls = run_line(cli, head + first + ' ' + BETWEEN.get(name, '') + word)
            S.observe('rc', rc)
            S.observe('calls', calls)
            for s in cli.seen:
                S.check(s == (head.split() + [first]), lambda: 'get_matched_values: %r' % (s,))
            S.check(len(cli.seen) > 0, 'the token was not asked')
            if any(word == x for x in opts):
                want = word
            elif len(fit) == 1:
                want = fit[0]
            else:
                want = None
            if want is None:
                S.check(rc != 0 and not calls, 'not one of the parts')
                S.reach('rejected')
            else:
                S.check(rc == 0 and calls == [('h', first, want)], 'one of the parts')
                S.reach('accepted')
            blank = S.bool('blank%d' % k)
            words = head.split() + [first] + BETWEEN.get(name, '').split() + ([] if blank else [word])
            res, got, eoi = offers(S, cli, words, blank)
            possible = opts if blank else fit
            S.observe('offers', set(got))
            if possible:
                same(S, got, possible, 'completions')
    return f


# ---- words read in two ways at once

READ = '''
token W StringToken(); token N RangedIntToken(0, 99); token S Before();
root: W S "w" << call h($2); >> | N S "n" << call h($2); >> | W "k" S "v" << call h($3); >> | N W S "m" << call h($3); >> ;
'''


def setup_read():
    from nessaid_cli.tokens import CliToken, StringToken, RangedIntToken, MATCH_SUCCESS

    class Before(CliToken):
        """Any word; its value are the values before it."""

        @property
        def completable(self):
            return False

        @property
        def cacheable(self):
            return False

        async def match(self, text, cli=None):
            cli.seen.append(cli.get_matched_values())
            return MATCH_SUCCESS

        async def get_value(self, match_string=None, cli=None):
            return cli.get_matched_values()

        async def complete(self, text, cli=None):
            return 0, []

    cli = make_cli(READ, handlers=('h',), token_classes=(StringToken, RangedIntToken, Before))
    cli.seen = []
    return cli


def readings(first, rest):
    out = [[first] + rest]
    if first.isdigit():
        out.append([int(first)] + rest)
    return out


def body_read(lines):
    def f(S, cli):
        for i in range(lines):
            first = S.str('first%d' % i, 1, 2, alphabet('15k'))
            words = [first]
            if S.bool('second%d' % i):
                words.append(S.char('second word%d' % i, alphabet('1k')))
            last = S.pick('last%d' % i, ['w', 'n', 'v', 'm'])
            words += [S.char('word%d' % i, alphabet('1k')), last]
            del cli.seen[:]
            rc, calls = run_line(cli, ' '.join(words))
            S.observe('rc', rc)
            S.observe('calls', calls)
            possible = readings(first, []) + readings(first, [words[1]])
            for s in cli.seen:
                S.check(any(alike(s, p) for p in possible), lambda: 'get_matched_values in %r: %r' % (words, s))
            want = None
            if len(words) == 3 and last in 'wn':
                want = [first]
            elif len(words) == 4 and (last == 'm' or last == 'v' and words[1] == 'k'):
                want = [first, words[1]]
            if want and last in 'nm':
                want[0] = int(first) if first.isdigit() else None
            if not want or want[0] is None:
                S.check(rc != 0 and not calls, lambda: '%r: %r %r' % (words, rc, calls))
                S.reach('rejected')
            else:
                S.check(rc == 0 and len(calls) == 1 and alike(calls[0][1], want), lambda: '%r: %r %r' % (words, rc, calls))
                S.reach('accepted')
    return f


def alike(x, y):
    return len(x) == len(y) and all(isinstance(p, int) == isinstance(q, int) and p == q for p, q in zip(x, y))


# ---- arguments of a token definition

def args_case(n, full, by_name=False):
    def f(S, env):
        from nessaid_cli.tokens import CliToken
        seen = []

        class Tok(CliToken):
            def __init__(self, *args, **kw):
                seen.append((args, kw))
                super().__init__(args[0], helpstring=kw['helpstring'], cli=kw['cli'])
        parts, want, named = [], [], {}
        count = S.choice('arguments', n + 1)
        names = S.pick('names', [['p', 'q', 'r'], ['r', 'q', 'p'], ['w1', 'p_', 'x']]) if by_name else []
        first_named = S.choice('named from', count + 1) if by_name else count
        for i in range(count):
            kinds = ['int', 'negative', 'decimal', 'string', 'empty', 'None', 'True', 'False']
            kind = S.pick('kind%d' % i, (['int', 'string', 'None'] if by_name else kinds) if i < full else ['int'])
            if kind in ('int', 'negative', 'decimal'):
                v = S.pick('value%d' % i, [0, 7, 42]) if kind == 'decimal' else S.int('value%d' % i, 0, 999)
                t = str(v)
                if kind == 'decimal':
                    t, v = t + '.5', v + 0.5
                elif kind == 'negative':
                    t, v = '-' + t, -v
            elif kind == 'string':
                v = S.str('text%d' % i, 1, 2, alphabet('aZ 0,();#'))
                t = '"' + v + '"'
            else:
                t, v = {'empty': ('""', ''), 'None': ('None', None), 'True': ('True', True),
                        'False': ('False', False)}[kind]
            if i >= first_named:
                parts.append(names[i] + S.pick('sign', [' = ', '=']) + t)
                named[names[i]] = v
            else:
                parts.append(t)
                want.append(v)
        cli = make_cli('token T Tok(' + S.pick('comma', [', '] if by_name else [', ', ',', ' , ']).join(parts) + ');\nroot[]: "k" T;',
                       token_classes=(Tok,))
        run_line(cli, 'k T')
        S.check(len(seen) == 1, 'the token is created once')
        args, kw = seen[0]
        S.observe('args', list(args))
        S.check(args[0] == 'T' and len(args) == 1 + len(want), 'number of arguments')
        S.check(sorted(k for k in kw if k not in ('cli', 'helpstring')) == sorted(named), lambda: 'named arguments %r arrived as %r' % (named, kw))
        for g, w in list(zip(args[1:], want)) + [(kw[k], named[k]) for k in named]:
            S.check(g == w and (g is None) == (w is None) and isinstance(g, bool) == isinstance(w, bool)
                    and isinstance(g, str) == isinstance(w, str) and isinstance(g, int) == isinstance(w, int), lambda: 'argument %r arrived as %r' % (w, g))
        S.check(kw['cli'] is cli, 'the command line object')
    return f


def cases(tier):
    q = tier == 'quick'
    both = ('accepted', 'rejected')
    out = [
        Case('one token', setup_one, one, 'any answers of a class with plain or coroutine methods', both),
        Case('plain or coroutine', setup_one, same_answers, 'the same answers by plain and coroutine methods'),
        Case('two tokens', setup_two, two(['text', 'null'] if q else VALUES[:4] + ['raises'],
                                          ['none', 'one', 'two'] if q else COMPS),
             'any answers of two classes that are alternatives', ('one',)),
        Case('offered', setup_one, offered, 'any answers', ('offers', 'none')),
        Case('two readings', setup_read, body_read(1 if q else 2), 'any two or three words, the first read as a word and a number, before a class that tells what it sees', both),
        Case('named arguments', lambda: None, args_case(2, 2, True) if q else args_case(3, 3, True), 'up to 2 (3) arguments, by position or name'),
        Case('arguments', lambda: None, args_case(2, 2) if q else args_case(3, 3),
             'definitions with up to %d arguments of 8 kinds' % (2 if q else 3)),
    ]
    for d in DEP:
        lines = 2 if d[0] == 'plain' or not q else 1
        out.append(Case('earlier words: ' + d[0], setup_dep(d), body_dep(d, 3 if q else 4, 2, lines),
                        '%d lines, any word of up to %d of "ab,", whose parts are the choices for the next one'
                        % (lines, 3 if q else 4),
                        both))
    return out
