"""P08: a line runs a command once and reports success, or runs nothing."""
from harness.common import Case, make_cli, run_line, make_cmd, FakeLoop
from symx.api import ISet, ANY, drive, alphabet

GRAMMAR = r'''
token W StringToken(), N RangedIntToken(0, 120), B BooleanToken();
root: "a" << call h0($1); >> | "ab" W << call h1($2); >> | "n" N << call h2($2); >> | ( "b" { B } ) << call h3($1); >>
    | "abc" ( "x" | "x" "y" ) << call h4(); >> ;
'''
HS = ['h0', 'h1', 'h2', 'h3', 'h4']


def setup():
    from nessaid_cli.tokens import StringToken, RangedIntToken, BooleanToken
    return make_cli(GRAMMAR, handlers=HS, token_classes=[StringToken, RangedIntToken, BooleanToken])


class Cmds:
    """Mixed into a NessaidCmd class."""

    def do_a(self):
        """
        "a"
        """
        self.log.append(('h0',))

    async def do_ab(self, w):
        """
        "ab" W << $w = $2; >>
        """
        self.log.append(('h1', w))

    def do_n(self, n):
        """
        "n" N << $n = $2; >>
        """
        self.log.append(('h2', n))

    def do_b(self, v):
        """
        "b" { B << $v = $1; >> }
        """
        self.log.append(('h3', v))

    def do_abc(self):
        """
        "abc" ( "x" | "x" "y" )
        """
        self.log.append(('h4',))


def setup_cmd():
    from nessaid_cli.tokens import StringToken, RangedIntToken, BooleanToken
    return make_cmd(Cmds, 'token W StringToken(), N RangedIntToken(0, 120), B BooleanToken();',
                    [StringToken, RangedIntToken, BooleanToken], disable_default_hooks=True)


def number(w):
    """Value of a decimal numeral, or None."""
    ds = w[1:] if w[:1] == '-' else w
    if not ds.isdecimal():
        return None
    return int(w)


def isbool(w):
    low = w.lower()
    return 'true'.startswith(low) or 'false'.startswith(low)


def meanings(words):
    """The commands (index into HS) the words can be read as, keywords being typed in full or as a prefix."""
    out = []
    if not words:
        return out
    first, rest = words[0], words[1:]
    if 'a'.startswith(first) and not rest:
        out.append(0)
    if 'ab'.startswith(first) and len(rest) == 1:
        out.append(1)
    if 'n'.startswith(first) and len(rest) == 1:
        v = number(rest[0])
        if v is not None and 0 <= v <= 120:
            out.append(2)
    if 'b'.startswith(first) and (not rest or len(rest) == 1 and isbool(rest[0])):
        out.append(3)
    if 'abc'.startswith(first) and (rest == ['x'] or rest == ['x', 'y']):
        out.append(4)
    return out


def attempt(S, cli, line, tag=''):
    """Executes line and checks that status, calls and messages agree."""
    from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer, TokenizerException
    e0 = len(cli.err.parts)
    rc, calls = run_line(cli, line)
    shown = len(cli.err.parts) > e0
    S.observe(tag + 'rc', rc)
    S.observe(tag + 'calls', calls)
    try:
        words = [str(w) for w in NessaidCliTokenizer().parse('' if line == '\n' else line)]
    except TokenizerException:
        words = None
    want = [] if words is None else meanings(words)
    if not want:
        S.check(rc != 0 and not calls, 'a line that is not a command ran one or reported success')
        S.check(shown or words == [], 'a failing line shows no error')
        S.reach('fails')
    elif len(want) > 1 and rc != 0:
        S.check(not calls and shown, 'an ambiguous line ran a command or shows no error')
        S.reach('ambiguous')
    else:
        S.check(len(calls) == 1, 'the command was not executed exactly once')
        S.check(calls[0][0] in [HS[i] for i in want], 'another command was executed')
        S.check(rc == 0, 'a command that ran does not report success')
        S.check(not shown, 'an error is shown for a command that ran')
        S.reach('runs')
    return rc, calls


def body(n):
    def f(S, cli):
        attempt(S, cli, S.str('line', 0, n))
    return f


def body_words(m, k):
    """Lines of words over the letters that matter."""
    A = alphabet('abcnxyt120-"')

    def f(S, cli):
        words = [S.str('w%d' % i, 1, k, A) for i in range(1 + S.choice('words', m))]
        attempt(S, cli, ' '.join(words))
    return f


def press(S, cli, line, times=1):
    cli.readline.buffer = line
    for i in range(times):
        drive(cli.complete('', 0))


def body_dry(n, m):
    """A completion request for any line, then a command line: as if the request had not been made."""
    A = alphabet('abnx1t ')

    def f(S, cli):
        first = S.str('partial', 0, n)
        cli.readline.buffer = first
        k = len(cli.log)
        drive(cli.complete('', 0))
        S.check(len(cli.log) == k, 'a completion request called a handler')
        if S.bool('twice'):
            drive(cli.complete('', 0))
            S.check(len(cli.log) == k, 'a completion request called a handler')
        second = S.str('line', 1, m, A)
        attempt(S, cli, second)
    return f


def body_dry_same(n):
    """Completion requests on every prefix of a line while it is typed, then the line itself."""
    A = alphabet('abcnx1t ')

    def f(S, cli):
        line = S.str('line', 1, n, A)
        for i in range(1, len(line) + 1):
            cli.readline.buffer = line[:i]
            drive(cli.complete('', 0))
            S.check(not cli.log, 'a completion request called a handler')
        attempt(S, cli, line)
    return f


def body_handler_fails():
    """A handler that raises: it was called once; the next line is not affected."""
    def f(S, cli):
        n = S.str('num', 1, 2, alphabet('0123456789-x'))
        attempt(S, cli, 'n ' + n)
        attempt(S, cli, S.str('next', 1, 2, alphabet('abn ')), 'next ')
    return f


FORMS = ['"alpha" "beta"', '"alpha" ( "beta" )', '( "alpha" "beta" )', 'sub[1]', 'sub[2]', '"alpha" part', '"alpha" { "gamma" } "beta"',
         '"alpha" "beta" { "gamma" }', '( "alpha" | "gamma" ) "beta"', '"alpha" * 1 "beta"', '( "beta" , "alpha" )',
         '{ "alpha" "beta" }', '( "alpha" "beta" ) * (1:2)', '{ "alpha" } "beta"', '"alpha" ( "gamma" | "beta" )']
AROUND = ['%s << call one(); >> | %s << call two(); >>', '"x" ( %s << call one(); >> | %s << call two(); >> )',
          '( << call one(); >> %s | << call two(); >> %s ) "z"', '"x" ( %s << call one(); >> | "y" << call three(); >> | %s << call two(); >> ) "z"',
          '"x" %s << call one(); >> "z" | "x" %s << call two(); >> "z"']


def same_words(quick):
    """Two commands with the same words: which one is meant cannot be told, so neither runs."""
    def f(S, env):
        around = S.pick('around', AROUND)
        i, j = S.choice('one', len(FORMS)), S.choice('two', len(FORMS))
        S.assume(not quick or i <= j)
        a = S.str('a', 1, 5 if not quick else 1, alphabet('alphbet'))
        b = S.pick('b', ['beta', 'b'])
        S.assume('alpha'.startswith(a))
        cli = make_cli('part : "beta"; sub[$x] : "alpha" "beta" << call three($x); >>; root : ' + around % (FORMS[i], FORMS[j]) + ';',
                       handlers=['one', 'two', 'three'])
        words = (['x'] if 'x' in around else []) + [a, b] + (['z'] if 'z' in around else [])
        rc, calls = run_line(cli, ' '.join(words))
        S.observe('rc', rc)
        S.check(not calls, lambda: 'line %r of %r: %r' % (words, around % (FORMS[i], FORMS[j]), calls))
        S.check(rc != 0 and len(cli.err.parts) > 0, lambda: 'line %r of %r: reported success' % (words, around % (FORMS[i], FORMS[j])))
        S.reach('ambiguous')
    return f


def cases(tier):
    q = tier == 'quick'
    n = 4 if q else 6
    out = [Case('line', setup, body(n), 'any line of up to %d characters' % n),
           Case('line-cmd', setup_cmd, body(n - 1), 'command class; any line of up to %d characters' % (n - 1)),
           Case('words', setup, body_words(3, 2 if q else 3), 'up to 3 words of 1..%d characters of abcnxyt120-"' % (2 if q else 3)),
           Case('words-cmd', setup_cmd, body_words(2, 2 if q else 3), 'the same for a command class, 2 words'),
           Case('after-completion', setup, body_dry(2 if q else 3, 2 if q else 3),
                'completion requests for any line, then a line of letters abnx1t and blanks'),
           Case('while-typing', setup, body_dry_same(4 if q else 6), 'a completion request after every character typed'),
           Case('same-words', lambda: None, same_words(q), 'two alternatives of %d forms describing the same two words in %d surroundings' % (len(FORMS), len(AROUND)), ('ambiguous',)),
           Case('two-lines', setup, body_handler_fails(), 'two lines one after the other')]
    return out
