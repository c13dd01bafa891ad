"""P13: AlternativeStringsToken accepts exactly its alternatives and their unique prefixes."""
from harness.common import Case, make_cli, run_line
from symx.api import ISet, alphabet, drive

LETTER = ISet(((97, 122),))
WORD = ISet(((33, 33), (35, 91), (93, 126), (0xB5, 0xB5)))
ESC = {'\n': '\\n', '\0': '\\0', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\v': '\\v', '\a': '\\a', '"': '\\"', '\\': '\\\\'}


def typed(s):
    """How the text is typed on the command line."""
    if any(c == ' ' or c in ESC for c in s):
        return '"' + ''.join(ESC[c] if c in ESC else c for c in s) + '"'
    return s


def inside(s):
    t = typed(s)
    return t if t == s else t[1:-1]


def meaning(alts, text):
    """The alternative selected by the typed text, or None."""
    forms = [(typed(a), a) for a in alts]
    for f, a in forms:
        if f == text:
            return a
    got = []
    for f, a in forms:
        if f.startswith(text) and not any(a == g for g in got):
            got.append(a)
    return got[0] if len(got) == 1 else None


def judge(S, t, alts, text):
    from nessaid_cli.tokens import NullTokenValue, MATCH_FAILURE
    v = drive(t.get_value(text))
    m = drive(t.match(text))
    n, got = drive(t.complete(text))
    v = None if v is NullTokenValue else v
    S.observe('value', None if v is None else str(v))
    S.observe('match', m)
    S.observe('completions', set(str(g) for g in got))
    want = meaning(alts, text)
    if want is None:
        S.check(v is None, lambda: '%r of %r gives %r' % (text, alts, v))
        S.reach('rejected')
    else:
        # tokens give the text between the quotes as typed; its escapes are replaced when the action runs (see the
        # cases executing lines)
        S.check(v is not None and v == inside(want), lambda: '%r of %r gives %r' % (text, alts, v))
        S.reach('accepted')
    forms = [typed(a) for a in alts if typed(a).startswith(text)]
    S.check((m == MATCH_FAILURE) == (not forms), lambda: '%r of %r: match is %r' % (text, alts, m))
    S.check(n == len(got), 'number of completions')
    for g in got:
        S.check(any(str(g) == f for f in forms), lambda: '%r of %r: offered %r' % (text, alts, got))
    for f in forms:
        S.check(any(str(g) == f for g in got), lambda: '%r of %r: offered %r' % (text, alts, got))


def direct(lens, alpha, width, form):
    def f(S, env):
        from nessaid_cli.tokens import AlternativeStringsToken
        alts = [S.str('alternative%d' % i, lo, hi, alpha) for i, (lo, hi) in enumerate(lens)]
        for a in alts:
            S.assume(not a.startswith('"') and not a.endswith('"'))
        if form == 'list':
            t = AlternativeStringsToken('A', list(alts))
        elif form == 'tuple':
            t = AlternativeStringsToken('A', tuple(alts))
        else:
            t = AlternativeStringsToken('A', *alts)
        # the typed text: a start of some alternative, possibly continued or cut anywhere
        text = S.str('text', 1, width, alpha)
        judge(S, t, alts, text)
    return f


def whole(lens, alpha):
    """Every start of every alternative, as typed."""
    def f(S, env):
        from nessaid_cli.tokens import AlternativeStringsToken
        alts = [S.str('alternative%d' % i, lo, hi, alpha) for i, (lo, hi) in enumerate(lens)]
        for a in alts:
            S.assume(not a.startswith('"') and not a.endswith('"'))
        t = AlternativeStringsToken('A', *alts)
        form = typed(alts[S.choice('which', len(alts))])
        n = 1 + S.choice('length', 2 * max(h for _, h in lens) + 2)
        S.assume(n <= len(form))
        judge(S, t, alts, form[:n])
    return f


FIXED = ['in', 'int', 'internal', 'off', 'one more', 'one mode', 'tab\there', 'say "hi" now', 'µ']
GRAMMAR = '''
token A AlternativeStringsToken(%s);
root: "a" A << call choice($2); >> | "b" A "x" << call choice($2); >>;
'''


def setup(alts):
    def f():
        from nessaid_cli.tokens import AlternativeStringsToken
        args = ', '.join('"%s"' % ''.join(ESC.get(c, c) for c in a) for a in alts)
        return make_cli(GRAMMAR % args, handlers=['choice'], token_classes=[AlternativeStringsToken])
    return f


def result(S, cli, alts, text, rc, calls):
    want = meaning(alts, text)
    S.observe('calls', calls)
    if want is None:
        S.check(rc != 0 and calls == [], lambda: '%r: %r %r' % (text, rc, calls))
        S.reach('rejected')
    else:
        S.check(rc == 0 and calls == [('choice', want)], lambda: '%r: %r %r' % (text, rc, calls))
        S.reach('accepted')


def line(alts, width):
    def f(S, cli):
        text = S.str('text', 1, width, WORD)
        verb = S.pick('verb', ['a %s', 'b %s x'])
        rc, calls = run_line(cli, verb % text)
        result(S, cli, alts, text, rc, calls)
    return f


def quoted(alts):
    """A quoted word: any start of an alternative, closed or not."""
    def f(S, cli):
        form = typed(S.pick('alternative', [a for a in alts if typed(a) != a]))
        n = 1 + S.choice('length', len(form))
        text = form[:n]
        S.assume(not text.endswith('\\') or text.endswith('\\\\'))
        rc, calls = run_line(cli, 'a ' + text)
        result(S, cli, alts, text, rc, calls)
    return f


# Alternatives that contain backslashes followed by letters, next to the characters those would stand for.
BACK = ['a\\nb', 'a\nb', 'plain', '\\', '\\\\', '\\"', 'C:\\tmp\\new', 'x\\\\t']


def chosen(S, cli):
    """The handler, a list and a variable receive the alternative itself."""
    form = typed(S.pick('alternative', BACK))
    n = 1 + S.choice('length', len(form))
    text = form[:n]
    S.assume(not text.endswith('\\') or text.endswith('\\\\'))
    rc, calls = run_line(cli, 'a ' + text)
    result(S, cli, BACK, text, rc, calls)


def cases(tier):
    q = tier == 'quick'
    ab = alphabet('ab ')
    abq = alphabet('a "\\\t')
    out = [
        Case('three alternatives', lambda: None, direct([(1, 2), (2, 2), (1, 3)] if q else [(1, 3), (2, 3), (1, 3)], ab, 3, 'args'),
             'three alternatives of up to %d characters of "ab ", typed text of up to 3' % (2 if q else 3), ('accepted', 'rejected')),
        Case('list of alternatives', lambda: None, direct([(1, 2), (2, 2)], LETTER, 3, 'list'), 'two alternatives of letters', ('accepted', 'rejected')),
        Case('tuple of alternatives', lambda: None, direct([(1, 2), (2, 2)], LETTER, 3, 'tuple'), 'two alternatives of letters', ('accepted', 'rejected')),
        Case('special characters', lambda: None, whole([(2, 2), (1, 2)] if q else [(3, 3), (2, 3)], abq),
             'two alternatives over blank, tab, quote, backslash and "a"; every start of their typed forms', ('accepted',)),
        Case('line', setup(FIXED), line(FIXED, 4 if q else 7), 'alternatives %r; any word' % FIXED, ('accepted', 'rejected')),
        Case('quoted line', setup(FIXED), quoted(FIXED), 'alternatives %r; every start of each quoted one' % FIXED, ('accepted', 'rejected')),
        Case('backslash', setup(BACK), chosen, 'alternatives %r, every start of each' % BACK, ('accepted', 'rejected')),
    ]
    return out
