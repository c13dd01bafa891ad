"""P05: a grammar accepts exactly the lines it describes."""
from harness.common import Case, make_cli, run_line
from harness import gram
from symx.api import ISet

LETTER = ISet(((97, 122),))
WORDCH = ISet.of(map(ord, ' \t\n"\\\r\0')).compl().inter(ISet(((0, 0xD7FF), (0xE000, 0x10FFFF))))


class Keys:
    """Hands out keyword letters: symbolic ones, or distinct fixed ones."""

    def __init__(self, S, symbolic, spelling=None):
        self.S, self.symbolic, self.n, self.refs, self.spelling = S, symbolic, 0, 0, spelling
        self.early, self.late = [], []

    def k(self):
        self.n += 1
        if self.symbolic:
            return ('k', self.S.char('key%d' % self.n, LETTER))
        letter = 'abcdefghijklmnopqrst'[self.n - 1]
        how = self.spelling[min(self.n, len(self.spelling)) - 1] if self.spelling else 'quoted'
        if how == 'quoted':
            return ('k', letter)
        if how != 'bare':
            (self.early if how == 'declared' else self.late).append(letter)
        return ('k', letter, 'bare')

    def tokens(self, names):
        return 'token ' + ', '.join(names) + ' ;\n' if names else ''

    def ref(self, g):
        self.refs += 1
        return ('ref', 'rule%d' % self.refs, g)


def seq(*a):
    return ('seq', list(a))


def alt(*a):
    return ('alt', list(a))


def sset(*a):
    return ('set', list(a))


def opt(a):
    return ('opt', a)


def rep(a, m, n):
    return ('rep', a, m, n)


KIDS = {
    'k': lambda K: K.k(),
    '{k}': lambda K: opt(K.k()),
    '(k k)': lambda K: seq(K.k(), K.k()),
    '(k|k)': lambda K: alt(K.k(), K.k()),
    '{k k}': lambda K: opt(seq(K.k(), K.k())),
    '(k,k)': lambda K: sset(K.k(), K.k()),
    '({k}|k)': lambda K: alt(opt(K.k()), K.k()),
    '({k} k)': lambda K: seq(opt(K.k()), K.k()),
    '(k {k})': lambda K: seq(K.k(), opt(K.k())),
    '(k,{k})': lambda K: sset(K.k(), opt(K.k())),
    '({k},{k})': lambda K: sset(opt(K.k()), opt(K.k())),
    '{k|k}': lambda K: opt(alt(K.k(), K.k())),
    'k*2': lambda K: rep(K.k(), 2, 2),
    'k*(1:2)': lambda K: rep(K.k(), 1, 2),
    '{k*(1:2)}': lambda K: opt(rep(K.k(), 1, 2)),
    'r:k': lambda K: K.ref(K.k()),
    'r:(k {k})': lambda K: K.ref(seq(K.k(), opt(K.k()))),
    'r:(k|k k)': lambda K: K.ref(alt(K.k(), seq(K.k(), K.k()))),
    '{r:(k|k)}': lambda K: opt(K.ref(alt(K.k(), K.k()))),
}
ROOTS = {
    'x y': lambda K, a, b: seq(a, b),
    'x | y': lambda K, a, b: alt(a, b),
    'x , y': lambda K, a, b: sset(a, b),
    '{x} y': lambda K, a, b: seq(opt(a), b),
    'k {x y}': lambda K, a, b: seq(K.k(), opt(seq(a, b))),
    'k (x | y)': lambda K, a, b: seq(K.k(), alt(a, b)),
    '(x | y) k': lambda K, a, b: seq(alt(a, b), K.k()),
    'k (x , y) k': lambda K, a, b: seq(K.k(), sset(a, b), K.k()),
    'k {x , y}': lambda K, a, b: seq(K.k(), opt(sset(a, b))),
    '(x y)*(1:2)': lambda K, a, b: rep(seq(a, b), 1, 2),
    '(x | y)*2': lambda K, a, b: rep(alt(a, b), 2, 2),
    'k , x , y': lambda K, a, b: sset(K.k(), a, b),
    'r:(x y)': lambda K, a, b: K.ref(seq(a, b)),
}


def judge(S, cli, g, words, line=None):
    rc, calls = run_line(cli, ' '.join(words) if line is None else line)
    S.observe('rc', rc)
    S.observe('n', len(calls))
    n = gram.ways(g, words, 0, len(words))
    S.check((rc == 0) == (len(calls) == 1) and len(calls) <= 1, 'status and execution disagree')
    if n == 0:
        S.check(rc != 0 and not calls, 'a line the grammar does not describe was executed')
        S.reach('rejected')
    elif n == 1:
        S.check(rc == 0 and len(calls) == 1, 'a line the grammar describes in one way was not executed')
        S.reach('accepted')
    elif rc != 0:
        S.check('ambig' in cli.err.text().lower(), 'a described line was rejected as wrong')
        S.reach('ambiguous')


def build(g, before='', after=''):
    return make_cli(before + gram.defs(g) + 'root : ( ' + gram.text(g) + ' ) << call hit(); >> ;' + after, handlers=['hit'])


def body(root, kids, symbolic, maxwords):
    def f(S, env):
        K = Keys(S, symbolic)
        a = KIDS[S.pick('x', kids)](K)
        b = KIDS[S.pick('y', kids)](K)
        g = ROOTS[root](K, a, b)
        cli = build(g)
        lo, hi = gram.width(g)
        top = min(hi + 1, maxwords)
        low = max(1, min(lo - 1, top))
        n = low + S.choice('words', top - low + 1)
        words = [S.char('word%d' % i, WORDCH) for i in range(n)]
        judge(S, cli, g, words)
    return f


SPELLINGS = ['quoted', 'bare', 'declared', 'declared at the end']


def spelled(root, kids, maxwords):
    """Keywords with and without quotes, declared as tokens before or after the rule, or not at all."""
    def f(S, env):
        K = Keys(S, False, (S.pick('first keyword', SPELLINGS[1:]), S.pick('other keywords', SPELLINGS)))
        a = KIDS[S.pick('x', kids)](K)
        b = KIDS[S.pick('y', kids)](K)
        g = ROOTS[root](K, a, b)
        cli = build(g, K.tokens(K.early), K.tokens(K.late))
        lo, hi = gram.width(g)
        top = min(hi + 1, maxwords)
        low = max(1, min(lo - 1, top))
        words = [S.char('word%d' % i, WORDCH) for i in range(low + S.choice('words', top - low + 1))]
        judge(S, cli, g, words)
    return f


def cases(tier):
    q = ['k', '{k}', '(k|k)', '(k,{k})', 'r:(k {k})']
    allk = list(KIDS)
    out = []
    for r in ROOTS:
        kids = q if tier == 'quick' else allk
        out.append(Case('distinct: ' + r, lambda: None, body(r, kids, False, 4 if tier == 'quick' else 6),
                        'x, y over %s; distinct keywords; up to %d arbitrary words' % (kids, 4 if tier == 'quick' else 6)))
    for r in (['x y', 'x | y', 'x , y', '{x} y'] if tier == 'quick' else list(ROOTS)):
        kids = ['k', '{k}', '(k|k)'] if tier == 'quick' else q
        out.append(Case('any keywords: ' + r, lambda: None, body(r, kids, True, 4 if tier == 'quick' else 5),
                        'x, y over %s; arbitrary one-letter keywords, equal ones included; arbitrary words' % kids))
    for r in (['x y', '{x} y'] if tier == 'quick' else list(ROOTS)):
        kids = ['k', '{k}'] if tier == 'quick' else ['k', '{k}', '(k|k)', '(k,{k})', 'k*2', '{k*(1:2)}']
        out.append(Case('spelling: ' + r, lambda: None, spelled(r, kids, 3 if tier == 'quick' else 4),
                        'x, y over %s; keywords quoted, bare, declared before or after the rule; arbitrary words' % kids))
    return out
