"""P19: what a line does never depends on earlier lines or on caches.

Two command line objects over the same grammar: one executes some history first, then both get the same line.
"""
from harness.common import Case, FakeReadline, make_cli, make_cmd, run_line, tab
from symx.api import ISet, alphabet, drive

STR = alphabet('a"\\n 1')
LET = alphabet('abst ')
MIX = alphabet('1a"\\ ')


def boom(self, *args):
    self.log.append(('boom',) + args)
    raise ValueError('boom')


def twins(grammar, handlers=('hit', 'two', 'done'), **kw):
    """Two equal objects, on the same compiled grammar or one each; small caches."""
    from nessaid_cli.tokens import StringToken, RangedIntToken, AlternativeStringsToken, BooleanToken, RangedStringToken
    class Doubled(StringToken):
        async def get_value(self, match_string=None, cli=None):
            return match_string + match_string

    class Turned(StringToken):
        async def get_value(self, match_string=None, cli=None):
            return match_string[1:] + match_string[:1]

    out = []
    for i in range(2):
        c = make_cli(grammar, handlers=handlers, token_classes=[
            StringToken, RangedIntToken, AlternativeStringsToken, BooleanToken, RangedStringToken, Doubled, Turned], **kw)
        type(c).boom = boom
        out.append(c)
    return tuple(out)


def outcome(cli, line):
    n, e, o = len(cli.log), len(cli.err.parts), len(cli.out.parts)
    rc = drive(cli.exec_line(line))
    return rc, cli.log[n:], ''.join(cli.err.parts[e:]), ''.join(cli.out.parts[o:])


def equal(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is list:
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return equal([list(x) for x in a.items()], [list(x) for x in b.items()])
    return a == b


def same(S, fresh, used, line, text=True):
    a = outcome(fresh, line)
    b = outcome(used, line)
    S.observe('fresh', a[:2])
    S.observe('used', b[:2])
    S.check(a[0] == b[0], lambda: 'line %r: status %r first, %r after other lines' % (line, a[0], b[0]))
    S.check(len(a[1]) == len(b[1]) and [len(x) for x in a[1]] == [len(x) for x in b[1]],
            lambda: 'line %r: %r first, %r after other lines' % (line, a[1], b[1]))
    for x, y in zip(a[1], b[1]):
        for u, v in zip(x, y):
            S.check(equal(u, v), lambda: 'line %r: %r first, %r after other lines' % (line, a[1], b[1]))
    if text:
        S.check(a[2] == b[2] and a[3] == b[3], lambda: 'line %r: messages %r first, %r after other lines' % (line, a[2:], b[2:]))
    if a[0] == 0:
        S.reach('run')
    else:
        S.reach('refused')


def request(cli, text):
    cli.readline.buffer = text
    cli._readline.inserted = []
    drive(cli.complete('', 0))


STRINGS = '''
token W StringToken(), V StringToken(), L RangedStringToken(1, 2);
root: W << call hit($1); >> | "s" L << call two($2); >> | W V << call two($1, $2); >> ;
'''


def strings(n, m, size):
    def setup():
        return twins(STRINGS, str_cache_size=size)

    def f(S, env):
        fresh, used = env
        old = S.str('earlier', 1, n, STR)
        line = S.str('line', 1, m, STR)
        if S.bool('twice'):
            outcome(used, old)
        if S.bool('tab'):
            request(used, old)
        else:
            outcome(used, old)
        same(S, fresh, used, line, text=False)
    return setup, f


VARS = '''
token W StringToken(), N RangedIntToken(0, 9), M RangedIntToken(5, 15);
sub[$p, $q]: { W << $p = $1; >> } { N << $q = $1; >> } << call two($p, $q); >> ;
root: "a" << $l = list(); >> { W << $x = $1; append($l, $1); >> } << call done($x, $l); >>
    | "b" ( W << $y = $1; >> | N << $z = $1; >> ) * (0:2) << call done($y, $z); >>
    | "s" sub[$u, 3] << call done($u); >>
    | "t" sub["d", $v] "s" << call done($v); >>
    | "k" << $d = dict(); >> ( W N << update($d, $1, $2); >> ) * (1:2) << call done($d); >>
    | "m" M << call hit($2); >>
    | "e" W << call boom($2); >> ;
'''

HISTORY = ['a A', 'a A B', 'b X', 'b 7 Y', 's P 4', 's P', 't P 4 s', 't s', 'k A 1 B 2', 'k C 9', 'm 7', 'm 3', 'e x', 'zz', 'k', 'a', '']
LINES = ['a', 'a Q', 'b', 'b Q', 'b 5', 's', 's Q', 's 8', 't s', 't 8 s', 'k Q 5', 'm 7', 'e y', 'k']


def variables(n, nl, k):
    """Variables and collections a line fills are not seen by the next."""
    def f(S, env):
        fresh, used = env
        for i in range(n):
            h = S.pick('earlier%d' % i, HISTORY[:k])
            if S.bool('tab%d' % i):
                request(used, h)
            else:
                outcome(used, h)
        line = S.pick('line', LINES[:nl])
        same(S, fresh, used, line)
    return f


def values(S, env):
    """The same, with arbitrary words."""
    fresh, used = env
    A = alphabet('AB78')
    old = [S.str('old%d' % i, 1, 1, A) for i in range(1 + S.choice('oldwords', 2))]
    new = [S.str('new%d' % i, 1, 1, A) for i in range(S.choice('newwords', 3))]
    v = S.pick('verb', ['a', 'b', 's', 't', 'k', 'm'])
    w = S.pick('earlier verb', ['b', 'k', 's', 'a', 'm', 't'])
    tail = ['s'] if v == 't' else []
    outcome(used, ' '.join([w] + old + (['s'] if w == 't' else [])))
    same(S, fresh, used, ' '.join([v] + new + tail))


TYPES = '''
token A RangedIntToken(0, 7), B RangedIntToken(1, 2), C AlternativeStringsToken("start", "stop", "77"), D BooleanToken(),
      E RangedStringToken(1, 2), F AlternativeStringsToken("sta", "top"), G Doubled(), H Turned();
root: "a" A << call hit($2); >> | "b" B << call hit($2); >> | "c" C << call hit($2); >> | "d" D << call hit($2); >>
    | "e" E << call hit($2); >> | "f" F << call hit($2); >> | "g" ( A | C | D ) << call hit($2); >>
    | "x" G << call hit($2); >> | "y" H << call hit($2); >> ;
'''


def types(n, alpha):
    """The same word read by different tokens."""
    def f(S, env):
        fresh, used = env
        v, w = S.pick('verb', list('abcdefgxy')), S.pick('earlier verb', list('abcdefgxy'))
        word = S.str('word', 1, n, alpha)
        if S.bool('tab'):
            request(used, w + ' ' + word)
        else:
            outcome(used, w + ' ' + word)
        same(S, fresh, used, v + ' ' + word)
    return f


def long(grammar, verb, n, check):
    """After more lines than the caches hold; any last line."""
    def setup():
        fresh, used = twins(grammar)
        for i in range(n):
            drive(used.exec_line('%s w%d' % (verb, i)))
            if i % 10 == 0:
                request(used, '%s x%d' % (verb, i))
        return fresh, used
    return setup, check


def long_line(S, env):
    fresh, used = env
    q = S.bool('quoted')
    word = S.str('word', 1, 3, alphabet('w19 \\n'))
    same(S, fresh, used, 's "%s"' % word if q else 's ' + word, text=False)


LONG = '''
token W StringToken();
root: "s" W << call hit($2); >> ;
'''


class Method:
    def do_set(self, name, value):
        """
        "set" W << $name = $2; >> { N << $value = $1; >> }
        """
        self.log.append(('set', name, value))

    def do_get(self, name, value):
        """
        "get" { W << $name = $1; >> } { "all" << $value = $1; >> }
        """
        self.log.append(('get', name, value))

    def do_bad(self, name):
        """
        "bad" W << $name = $2; >>
        """
        self.log.append(('bad', name))
        raise ValueError(name)

    def do_now(self):
        """
        "now"
        """
        self.log.append(('now', self.exec_args('get', 'Z') if 0 else 0))


def method_setup():
    from nessaid_cli.tokens import StringToken, RangedIntToken
    return tuple(make_cmd(Method, 'token W StringToken();\ntoken N RangedIntToken(0, 6);\n',
                          token_classes=[StringToken, RangedIntToken], disable_default_hooks=True, use_base_grammar=False) for i in range(2))


M_HISTORY = ['set A 5', 'set A', 'get', 'get B all', 'get all', 'bad X', 'now', 'set', 'nope']


def methods(n):
    """Parameters of command methods."""
    def f(S, env):
        fresh, used = env
        for i in range(n):
            h = S.pick('earlier%d' % i, M_HISTORY)
            if S.bool('tab%d' % i):
                request(used, h)
            else:
                outcome(used, h)
        v = S.pick('verb', ['set', 'get', 'bad', 'now'])
        words = [S.str('word%d' % i, 1, 2, alphabet('AB5al')) for i in range(S.choice('words', 2 if n > 1 else 3))]
        same(S, fresh, used, ' '.join([v] + words))
    return f


TAB = '''
token W StringToken(), N RangedIntToken(5, 15), C AlternativeStringsToken("start", "stop");
root: "set" C << call hit($2); >> | "show" N << call hit($2); >> | "sa" W << call hit($2); >> | "st" ( "ab" | "abc" "d" | "b" ) << call hit($2); >> ;
'''


def offers(cli, line, times):
    """What pressing TAB shows; the typed line is put back each time."""
    for i in range(times):
        cli.readline.buffer = line
        cli.readline.inserted = []
        shown = tab(cli)
    return cli.readline.inserted, shown


def completions(n, k):
    """What the TAB key offers for a line after other lines were executed or completed."""
    def f(S, env):
        fresh, used = env
        old = S.pick('earlier', ['set st', 'sa "x', 'show 1', 's', '', 'st a', 'set ', 'st abc d', 'zz'][:k])
        w = S.str('line', 0, n, alphabet('setaho '))
        way = S.choice('how', 2)
        if way == 0:
            outcome(used, old)
        else:
            offers(used, old, 1)
        a = drive(fresh.match(words(fresh, w), dry_run=True, last_token_complete=w[-1:] == ' '))
        b = drive(used.match(words(used, w), dry_run=True, last_token_complete=w[-1:] == ' '))
        ta, tb = sorted(str(x) for x in a.next_tokens), sorted(str(x) for x in b.next_tokens)
        S.observe('offers', [ta, tb])
        S.check(a.result == b.result, lambda: 'line %r: %r first, %r after %r' % (w, a.result, b.result, old))
        S.check(len(ta) == len(tb) and all(x == y for x, y in zip(ta, tb)), lambda: 'line %r: offers %r first, %r after %r' % (w, ta, tb, old))
        S.reach('offers' if ta else 'none')
    return f


def words(cli, line):
    return [str(t) for t in cli.tokenize(line)[2]]


def cases(tier):
    q = tier == 'quick'
    s1, b1 = strings(2, 2 if q else 3, 128)
    s2, b2 = strings(2, 2, 1)
    ls, lb = long(LONG, 's', 140 if q else 300, long_line)
    both = ('run', 'refused')
    return [
        Case('strings', s1, b1, 'an earlier line of up to 2 characters and a line of up to %d out of a " \\ n blank 1' % (2 if q else 3), both),
        Case('strings, cache of 1', s2, b2, 'the same with a string cache of one entry', both),
        Case('variables', lambda: twins(VARS), variables(1 if q else 2, 14, 17), '%d earlier lines of 17, executed or completed, then one of 14' % (1 if q else 2), both),
        Case('values', lambda: twins(VARS), values, 'an earlier line and a line with arbitrary words', both),
        Case('types', lambda: twins(TYPES), types(2, alphabet('7sta1') if q else alphabet('0571stapofTr')), 'the same word of up to 2 characters read by two of 9 rules, two of them with classes of the user', both),
        Case('full caches', ls, lb, 'after %d distinct lines, any word of up to 3 characters' % (140 if q else 300), ('run',)),
        Case('methods', method_setup, methods(1 if q else 2), '%d earlier lines of 9, then a line with arbitrary words' % (1 if q else 2), both),
        Case('completions', lambda: twins(TAB), completions(3 if q else 5, 9), 'what is offered for any line of up to %d characters after an earlier line' % (3 if q else 5), ('offers', 'none')),
    ]
