"""P04: keyword selection by exact word or unique prefix."""
from harness.common import Case, make_cli, run_line
from symx.api import ISet

KEY = ISet(((48, 57), (65, 90), (97, 122)))
WORD = ISet.of(map(ord, ' \t\n"\\\r\0')).compl().inter(ISet(((0, 0x10FFFF),))).minus(ISet(((0xD800, 0xDFFF),)))


def expected(keys, w):
    """Index of the keyword w selects, or None."""
    hits = []
    for i, k in enumerate(keys):
        if k == w:
            return i
        if k.startswith(w):
            hits.append(i)
    return hits[0] if len(hits) == 1 else None


def verdict(S, cli, keys, w, line, handlers, extra=()):
    rc, calls = run_line(cli, line)
    S.observe('rc', rc)
    S.observe('calls', calls)
    want = expected(keys, w)
    if want is None:
        S.check(rc != 0 and not calls, 'a word that selects no keyword ran a command')
        S.reach('rejected')
    else:
        S.check(rc == 0, 'a word that selects one keyword was rejected')
        S.check(len(calls) == 1 and calls[0][0] == handlers[want], 'another command ran')
        S.check(calls[0][1] == keys[want], 'the handler did not get the full keyword')
        S.reach('selected')


def keywords(S, lens, alpha=KEY):
    keys = [S.str('key%d' % i, n, None, alpha) for i, n in enumerate(lens)]
    for i in range(len(keys)):
        for j in range(i):
            S.assume(keys[i] != keys[j])
    return keys


def symbolic(lens, wmax, ctx):
    """Every keyword is symbolic: the grammar is compiled from text with symbolic keywords."""
    hs = ['h%d' % i for i in range(len(lens))]

    def body(S, env):
        keys = keywords(S, lens)
        rules = ' | '.join('"' + k + '" << call h%d($1); >>' % i for i, k in enumerate(keys))
        w = S.str('word', 1, wmax, WORD)
        if ctx == 'alone':
            cli = make_cli('root: ' + rules + ';', handlers=hs)
            verdict(S, cli, keys, w, w, hs)
        else:
            cli = make_cli('''
                sub[$k]: %s ;
                root[$k]: "go" sub[$k] "end" << call got($k); >> ;
            ''' % ' | '.join('"' + k + '" << $k = $1; >>' for k in keys), handlers=['got'])
            rc, calls = run_line(cli, 'go ' + w + ' end')
            S.observe('rc', rc)
            S.observe('calls', calls)
            want = expected(keys, w)
            if want is None:
                S.check(rc != 0 and not calls, 'a word that selects no keyword ran a command')
            else:
                S.check(rc == 0 and len(calls) == 1, 'a word that selects one keyword was rejected')
                S.check(calls[0][1] == keys[want], 'the handler did not get the full keyword')
    return body


FIXED = [['show', 'shut', 'shutdown'], ['a', 'ab', 'abc'], ['set', 'reset', 'get'],
         ['on-line', 'on_line', 'on line'], ['x', 'X', 'xx']]


def fixed(i):
    keys = FIXED[i]
    hs = ['h%d' % k for k in range(len(keys))]

    def setup():
        return make_cli('root: ' + ' | '.join('"%s" << call h%d($1); >>' % (k, j) for j, k in enumerate(keys)) + ';',
                        handlers=hs)

    def body(S, cli):
        w = S.str('word', 1, 5, WORD)
        cs = ['"%s"' % k if ' ' in k else k for k in keys]
        rc, calls = run_line(cli, w)
        S.observe('rc', rc)
        S.observe('calls', calls)
        want = expected(cs, w)
        if want is None:
            S.check(rc != 0 and not calls, 'a word that selects no keyword ran a command')
        else:
            S.check(rc == 0, 'a word that selects one keyword was rejected')
            S.check(len(calls) == 1 and calls[0][0] == hs[want], 'another command ran')
            S.check(calls[0][1] == keys[want], 'the handler did not get the full keyword')
    return setup, body


def cases(tier):
    wmax = 4 if tier == 'quick' else 6
    out = []
    tops = 3 if tier == "quick" else 5
    for a in range(1, tops + 1):
        for b in range(a, tops + 1):
            out.append(Case('two:%d,%d' % (a, b), lambda: None, symbolic((a, b), wmax, 'alone'),
                            'any two keywords of length %d and %d, any word of length 1..%d' % (a, b, wmax)))
    for lens in ([(1, 1, 2), (1, 2, 2), (2, 2, 2), (2, 1, 3), (3, 3, 2), (1, 2, 3), (3, 3, 3)] if tier == 'quick' else
                 [(a, b, c) for a in range(1, 5) for b in range(1, a + 1) for c in range(1, b + 1)]):
        out.append(Case('three:%d,%d,%d' % lens, lambda: None, symbolic(lens, wmax, 'alone'),
                        'any three keywords of these lengths, any word of length 1..%d' % wmax))
    for lens in ([(1, 2), (2, 2)] if tier == 'quick' else [(1, 2), (2, 2), (2, 3), (1, 2, 3)]):
        out.append(Case('inside:' + ','.join(map(str, lens)), lambda: None, symbolic(lens, wmax, 'inside'),
                        'in a referenced rule between two other keywords, word of length 1..%d' % wmax))
    for i in range(len(FIXED)):
        s, b = fixed(i)
        out.append(Case('fixed:' + '/'.join(FIXED[i]), s, b, 'any word of length 1..5'))
    return out
