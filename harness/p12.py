"""P12: BooleanToken accepts exactly the prefixes of true and false."""
from harness.common import Case, make_cli, run_line, tab, FakeReadline
from symx.api import ISet, ANY, drive

WORD = ISet(((33, 33), (35, 91), (93, 126), (0x130, 0x131), (0x17F, 0x17F), (0x212A, 0x212A)))


def meaning(text):
    """True/False for a prefix of true/false in any letter case, else None."""
    if len(text) == 0:
        return None
    for v, name in ((True, 'true'), (False, 'false')):
        if len(text) <= len(name) and all(c == k or c == k.upper() for c, k in zip(text, name)):
            return v
    return None


def name(v):
    return 'true' if v else 'false'


def direct(width, alpha):
    def f(S, env):
        from nessaid_cli.tokens import BooleanToken, NullTokenValue, MATCH_FAILURE
        t = BooleanToken('B')
        text = S.str('text', 1, width, alpha)
        v = drive(t.get_value(text))
        m = drive(t.match(text))
        n, got = drive(t.complete(text))
        v = None if v is NullTokenValue else v
        S.observe('value', v)
        S.observe('match', m)
        S.observe('completions', list(got))
        want = meaning(text)
        S.check(v is want, lambda: 'value of %r is %r' % (text, v))
        S.check((m != MATCH_FAILURE) == (want is not None), lambda: 'match of %r is %r' % (text, m))
        if want is None:
            S.check(len(got) == 0, lambda: 'completions of %r: %r' % (text, got))
            S.reach('rejected')
        else:
            S.check(len(got) == 1 and got[0].startswith(text) and got[0][len(text):] == name(want)[len(text):],
                    lambda: 'completions of %r: %r' % (text, got))
            S.reach('accepted')
    return f


GRAMMAR = '''
token B BooleanToken();
root: "b" B << call flag($2); >> ;
'''


def setup():
    from nessaid_cli.tokens import BooleanToken
    return make_cli(GRAMMAR, handlers=['flag'], token_classes=[BooleanToken])


def line(width):
    def f(S, cli):
        text = S.str('text', 1, width, WORD)
        rc, calls = run_line(cli, 'b ' + text)
        S.observe('calls', calls)
        want = meaning(text)
        if want is None:
            S.check(rc != 0 and calls == [], lambda: '%r: %r %r' % (text, rc, calls))
            S.reach('rejected')
        else:
            S.check(rc == 0 and len(calls) == 1 and calls[0][1] is want, lambda: '%r: %r %r' % (text, rc, calls))
            S.reach('accepted')
    return f


def tabs(width):
    """Two TABs complete the word, keeping what was typed."""
    def f(S, cli):
        text = S.str('text', 0, width, WORD)
        cli.readline.buffer = 'b ' + text
        shown = tab(cli)
        first = list(cli.readline.inserted)
        tab(cli)
        S.observe('shown', shown)
        S.observe('buffer', cli.readline.buffer)
        want = meaning(text)
        S.check(cli.readline.buffer.startswith('b ' + text), 'typed text changed')
        if text == '':
            S.check(cli.readline.buffer == 'b ', 'something inserted')
            S.check([l.split(' ')[0] for l in shown] == ['False', 'True'], lambda: 'shown %r' % shown)
        elif want is None:
            S.check(cli.readline.buffer == 'b ' + text and shown[0].startswith('Failed'), lambda: 'shown %r' % shown)
        else:
            S.check(cli.readline.buffer.rstrip(' ') == 'b ' + text + name(want)[len(text):],
                    lambda: 'line is %r' % cli.readline.buffer)
    return f


def cases(tier):
    q = tier == 'quick'
    n = 6 if q else 8
    return [
        Case('token', lambda: None, direct(n, ANY), 'any text of 1..%d characters' % n, ('accepted', 'rejected')),
        Case('line', setup, line(n), 'any word of 1..%d printable characters without quotes and backslashes' % n, ('accepted', 'rejected')),
        Case('tab', setup, tabs(n), 'any word of up to %d printable characters without quotes and backslashes' % n),
    ]
