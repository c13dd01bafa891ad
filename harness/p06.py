"""P06: repetition limits."""
from harness.common import Case, make_cli
from harness import gram
from harness.p05 import WORDCH, judge, seq, alt, opt, rep, sset

K = lambda w: ('k', w)
BLOCKS = {
    'a': lambda: K('a'),
    '(a b)': lambda: seq(K('a'), K('b')),
    '(a|b)': lambda: alt(K('a'), K('b')),
    '(a|b c)': lambda: alt(K('a'), seq(K('b'), K('c'))),
    'r:(a b)': lambda: ('ref', 'r1', seq(K('a'), K('b'))),
    '(a {b})': lambda: seq(K('a'), opt(K('b'))),
    '({a} b)': lambda: seq(opt(K('a')), K('b')),
    '(a,b)': lambda: sset(K('a'), K('b')),
    '{a}': lambda: opt(K('a')),
    '{a b}': lambda: opt(seq(K('a'), K('b'))),
    'a*2': lambda: rep(K('a'), 2, 2),
    'a*(1:2)': lambda: rep(K('a'), 1, 2),
}
CONTEXTS = {
    'X': lambda x: x,
    'x X y': lambda x: seq(K('x'), x, K('y')),
    '{X}': lambda x: opt(x),
    'x {X} y': lambda x: seq(K('x'), opt(x), K('y')),
    'x | X': lambda x: alt(K('x'), x),
    'x , X': lambda x: sset(K('x'), x),
    'x {X y}': lambda x: seq(K('x'), opt(seq(x, K('y')))),
    'r:X y': lambda x: seq(('ref', 'r2', x), K('y')),
    '(X y)*2': lambda x: rep(seq(x, K('y')), 2, 2),
    '(x X)*(0:2)': lambda x: rep(seq(K('x'), x), 0, 2),
}


def make(g):
    return make_cli(gram.defs(g) + 'root : ( ' + gram.text(g) + ' ) << call hit(); >> ;', handlers=['hit'])


def limits(S, top):
    n = S.choice('max', top) + 1
    return S.choice('min', n + 1), n


def body_counts(ctx, block, top):
    """Lines that are all right except, possibly, for the number of occurrences and one arbitrary word."""
    def f(S, env):
        m, n = limits(S, top)
        b = BLOCKS[block]()
        g = CONTEXTS[ctx](rep(b, m, n))
        cli = make(g)
        count = S.choice('count', n + 3)
        words = []
        for i in range(count):
            words = words + occurrence(S, block, i)
        if ctx in ('x X y', 'x {X} y', 'x , X', 'x {X y}', '(x X)*(0:2)'):
            words = ['x'] + words
        if ctx in ('x X y', 'x {X} y', 'x {X y}', 'r:X y', '(X y)*2'):
            words = words + ['y']
        if ctx == '(X y)*2':
            for i in range(S.choice('count2', n + 2)):
                words = words + occurrence(S, block, 100 + i)
            words = words + ['y']
        if ctx == '(x X)*(0:2)' and S.bool('again'):
            words = words + ['x']
            for i in range(S.choice('count2', n + 2)):
                words = words + occurrence(S, block, 100 + i)
        if ctx == 'x , X' and S.bool('last'):
            words = words[1:] + ['x']
        S.assume(len(words) > 0)
        if S.bool('spoil'):
            words[S.choice('at', len(words))] = S.char('other', WORDCH)
        judge(S, cli, g, words)
    return f


def occurrence(S, block, i):
    if block in ('a', '{a}'):
        return ['a']
    if block == 'a*2':
        return ['a', 'a']
    if block == 'a*(1:2)':
        return ['a'] * S.pick('o%d' % i, [1, 2])
    if block in ('(a b)', 'r:(a b)', '{a b}'):
        return ['a', 'b']
    if block == '(a|b)':
        return [S.pick('o%d' % i, ['a', 'b'])]
    if block == '(a|b c)':
        return S.pick('o%d' % i, [['a'], ['b', 'c']])
    if block == '(a {b})':
        return S.pick('o%d' % i, [['a'], ['a', 'b']])
    if block == '({a} b)':
        return S.pick('o%d' % i, [['b'], ['a', 'b']])
    return S.pick('o%d' % i, [['b', 'a'], ['a', 'b']])


def body_words(ctx, block, top, maxwords):
    """Lines of entirely arbitrary words."""
    def f(S, env):
        m, n = limits(S, top)
        g = CONTEXTS[ctx](rep(BLOCKS[block](), m, n))
        cli = make(g)
        lo, hi = gram.width(g)
        k = 1 + S.choice('words', min(hi + 1, maxwords))
        words = [S.char('word%d' % i, WORDCH) for i in range(k)]
        judge(S, cli, g, words)
    return f


def body_single(block, top):
    """The short form  block * n  and  block * (n)."""
    def f(S, env):
        n = S.choice('n', top) + 1
        b = BLOCKS[block]()
        g = rep(b, n, n)
        t = gram.text(b) + (' * %d' if S.bool('form') else ' * (%d)') % n
        cli = make_cli(gram.defs(g) + 'root : ( ' + t + ' ) << call hit(); >> ;', handlers=['hit'])
        count = S.choice('count', n + 3)
        words = []
        for i in range(count):
            words = words + occurrence(S, block, i)
        S.assume(len(words) > 0)
        if S.bool('spoil'):
            words[S.choice('at', len(words))] = S.char('other', WORDCH)
        judge(S, cli, g, words)
    return f


def body_reversed(ctx, block, top):
    """The limits written the wrong way round,  block * (n:m)  with m < n, mean the same as  block * (m:n)."""
    def f(S, env):
        n = S.choice('max', top) + 1
        m = S.choice('min', n)
        b = BLOCKS[block]()
        g = CONTEXTS[ctx](rep(b, m, n))
        t = gram.text(CONTEXTS[ctx](K('@'))).replace('"@"', gram.text(b) + ' * (%d:%d)' % (n, m))
        cli = make_cli(gram.defs(g) + 'root : ( ' + t + ' ) << call hit(); >> ;', handlers=['hit'])
        words = []
        for i in range(S.choice('count', n + 3)):
            words = words + occurrence(S, block, i)
        if ctx == 'x X y':
            words = ['x'] + words + ['y']
        S.assume(len(words) > 0)
        if S.bool('spoil'):
            words[S.choice('at', len(words))] = S.char('other', WORDCH)
        judge(S, cli, g, words)
    return f


def cases(tier):
    q = tier == 'quick'
    out = []
    for b in (['a', '(a b)', 'r:(a b)'] if q else ['a', '(a b)', '(a|b)', '(a|b c)', 'r:(a b)']):
        out.append(Case('exact: ' + b, lambda: None, body_single(b, 4), '%s * n, n 1..4, 0..n+2 occurrences, '
                        'any word replaced by an arbitrary one' % b))
    for c in ('X', 'x X y'):
        for b in (['a'] if q else ['a', '(a b)', '(a|b)']):
            out.append(Case('reversed: %s in %s' % (b, c), lambda: None, body_reversed(c, b, 3 if q else 4),
                            '(n:m) with m < n, 0..n+2 occurrences, any word replaced by an arbitrary one'))
    for c in CONTEXTS:
        for b in (['a', '(a b)'] + (['a*2', 'a*(1:2)', '{a b}'] if c == 'x X y' else []) if q and c not in ('(X y)*2', '(x X)*(0:2)')
                  else ['a'] if q else list(BLOCKS)):
            top = (4 if b == 'a' else 2) if q else 4 if b in ('a', '(a b)', 'r:(a b)') else 3
            if c in ('(X y)*2', '(x X)*(0:2)'):
                top = min(top, 2 if q or b != 'a' else 3)
            out.append(Case('counts: %s in %s' % (b, c), lambda: None, body_counts(c, b, top),
                            '(m:n) with 0<=m<=n<=%d, 0..n+2 occurrences, any word replaced by an arbitrary one' % top))
    for c in (['X', 'x X y'] if q else list(CONTEXTS)):
        for b in (['(a|b)', '(a {b})'] if q else list(BLOCKS)):
            top, mw = (2, 4) if q else (3, 5)
            out.append(Case('words: %s in %s' % (b, c), lambda: None, body_words(c, b, top, mw),
                            '(m:n) with n<=%d, up to %d arbitrary words' % (top, mw)))
    return out
