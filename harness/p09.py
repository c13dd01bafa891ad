"""P09: offered completions are sound and complete."""
from harness.common import Case, make_cli, run_line, tab, FakeReadline
from harness import gram
from harness.p05 import KIDS, ROOTS, Keys, WORDCH, build, seq, alt, opt, rep, sset, LETTER
from symx.api import ISet, drive


def prefix(w, k):
    return k.startswith(w)


def offers(S, cli, words, complete):
    """(offered texts, complete command offered) by the matcher."""
    from nessaid_cli.elements import EndOfInpuToken
    res = drive(cli.match(list(words), dry_run=True, last_token_complete=complete))
    got, eoi = [], False
    for t in res.next_tokens:
        if t is EndOfInpuToken:
            eoi = True
        else:
            got.append(str(t))
    return res, got, eoi


def same(S, got, want, what):
    for g in got:
        S.check(any(g == w for w in want), lambda: '%s: offered %r, possible %r' % (what, got, want))
    for w in want:
        S.check(any(g == w for g in got), lambda: '%s: offered %r, possible %r' % (what, got, want))


def expect(g, words, complete):
    """(texts to offer, complete command?)"""
    if complete:
        f = gram.follow(g, words, prefix)
        return [x for x in f if x is not gram.EOI], any(x is gram.EOI for x in f) and len(words) > 0
    f = gram.follow(g, words[:-1], prefix)
    return [x for x in f if x is not gram.EOI and x.startswith(words[-1])], False


def judge(S, cli, g, words, complete):
    res, got, eoi = offers(S, cli, words, complete)
    S.observe('offers', set(got))
    S.observe('eoi', eoi)
    want, weoi = expect(g, words, complete)
    same(S, got, want, 'completions')
    S.check(eoi == weoi, 'complete command offered' if eoi else 'complete command not offered')
    S.check(len(cli.log) == 0, 'a handler ran')
    if got:
        S.reach('offers')
    S.check((res.result == 'failure') == (not want and not weoi), 'result of a completion request')


def body(root, kids, symbolic, maxwords):
    def f(S, env):
        K = Keys(S, symbolic)
        a = KIDS[S.pick('x', kids)](K)
        b = KIDS[S.pick('y', kids)](K)
        g = ROOTS[root](K, a, b)
        cli = build(g)
        top = min(gram.width(g)[1] + 1, maxwords)
        complete = S.bool('complete')
        n = S.choice('words', top + 1)
        S.assume(complete or n > 0)
        words = [S.char('word%d' % i, WORDCH) for i in range(n)]
        judge(S, cli, g, words, complete)
    return f


TREES = {
    'verbs': lambda: alt(seq(('k', 'show'), alt(('k', 'ip'), ('k', 'int'), opt(('k', 'all')))),
                         seq(('k', 'shut'), opt(('k', 'int'))), ('k', 'set'), seq(('k', 'se'), ('k', 'int'))),
    'options': lambda: seq(('k', 'go'), sset(opt(('k', 'fast')), opt(seq(('k', 'far'), ('k', 'out'))), ('k', 'now'))),
    'repeat': lambda: seq(rep(alt(('k', 'ab'), seq(('k', 'abc'), ('k', 'd'))), 1, 2), ('k', 'abd')),
}


def tree(name):
    def setup():
        g = TREES[name]()
        return g, build(g)

    def f(k):
        def body(S, env):
            g, cli = env
            # the last word is arbitrary; earlier ones too, but short
            n = S.choice('words', k + 1)
            complete = S.bool('complete') if n else True
            words = [S.str('word%d' % i, 1, 4 if i == n - 1 else 2, WORDCH) for i in range(n)]
            judge(S, cli, g, words, complete)
        return body
    return setup, f


def body_line(k):
    """Through the line editor interface: what the user sees after pressing TAB once."""
    def f(S, env):
        g, cli = env
        n = S.choice('words', k + 1)
        words = [S.str('word%d' % i, 1, 3, LETTER) for i in range(n)]
        complete = S.bool('blank') if n else True
        line = ' '.join(words) + (' ' if complete and n else '')
        cli.readline.buffer = line
        shown = tab(cli)
        want, weoi = expect(g, words, complete)
        S.observe('inserted', cli.readline.inserted)
        if cli.readline.inserted:
            S.check(cli.readline.inserted == [' '] and len(want) == 1 and want[0] == words[-1],
                    'text inserted at the first TAB')
            S.reach('inserted')
            return
        S.observe('shown', shown)
        if not want and not weoi:
            S.check(len(shown) == 1 and shown[0].startswith('Failed to parse'), 'an impossible line is not reported')
            return
        got, eoi = [], False
        for l in shown:
            if l == 'NEWLINE: Complete command' or (l.startswith('NEWLINE') and 'Complete command' in l):
                eoi = True
            else:
                got.append(l.split(' ')[0])
        same(S, got, want, 'shown')
        S.check(eoi == weoi, 'complete command shown')
    return f


SYM = '''
root: "%s" "%s" << call hit(); >> | "%s" << call hit(); >> | "%s" { "%s" } ;
'''


def body_keys(lens, wmax):
    """Symbolic keywords of several letters."""
    def f(S, env):
        ks = [S.str('key%d' % i, n, None, LETTER) for i, n in enumerate(lens)]
        g = alt(seq(('k', ks[0]), ('k', ks[1])), ('k', ks[2]), seq(('k', ks[3]), opt(('k', ks[4]))))
        cli = build(g)
        n = 1 + S.choice('words', 2)
        complete = S.bool('complete')
        words = [S.str('word%d' % i, 1, wmax, LETTER) for i in range(n)]
        judge(S, cli, g, words, complete)
    return f


TYPED = '''
token W StringToken(), N RangedIntToken(5, 120), B BooleanToken(), A AlternativeStringsToken("on", "off", "one more");
root: "w" ( W | "k" ) << call hit(); >> | "n" N << call hit(); >> | "b" { B : "yes or no" } | "a" A "z" : "last one" ;
'''


def setup_typed():
    from nessaid_cli.tokens import StringToken, RangedIntToken, BooleanToken, AlternativeStringsToken
    return make_cli(TYPED, handlers=['hit'],
                    token_classes=[StringToken, RangedIntToken, BooleanToken, AlternativeStringsToken])


def typed(S, cli):
    w1 = S.char('verb', LETTER)
    last = S.str('last', 0, 3, ISet(((48, 57), (97, 122))))
    words = [w1] + ([last] if last else [])
    res, got, eoi = offers(S, cli, words, not last)
    S.observe('offers', set(got))
    S.observe('eoi', eoi)
    want, weoi = [], False
    if w1 == 'w':
        want = ['Any string']
        if 'k'.startswith(last):
            want.append('k')
    elif w1 == 'n':
        S.assume(not last.startswith('0'))
        nums = [str(i) for i in range(5, 121) if str(i).startswith(last)]
        want = nums if len(nums) <= 10 else ['An integer between 5 and 120']
        if not last:
            want = ['An integer between 5 and 120']
    elif w1 == 'b':
        if not last:
            want, weoi = ['True', 'False'], True
        else:
            want = [x for x in ['true', 'false'] if x.startswith(last)]
    elif w1 == 'a':
        want = [x for x in ['on', 'off', '"one more"'] if x.startswith(last)]
    same(S, got, want, 'completions')
    S.check(eoi == weoi, 'complete command')


AFTER = 'token R RangedStringToken(2, 3); token N RangedIntToken(5, 120); token B BooleanToken(); ' \
        'token C AlternativeStringsToken("on", "off", "own"); ' \
        'root: "r" R "x" | "n" N "x" | "b" B "x" | "a" C "x" | "i" R | "o" { N } "x" | "m" R * (1:2) "x" ;'


def setup_after():
    from nessaid_cli.tokens import RangedStringToken, RangedIntToken, BooleanToken, AlternativeStringsToken
    return make_cli(AFTER, token_classes=[RangedStringToken, RangedIntToken, BooleanToken, AlternativeStringsToken])


def after(width, wlast):
    """What is offered after a typed word: nothing unless its token accepts it."""
    def f(S, cli):
        verb = S.pick('verb', ['r', 'n', 'b', 'a', 'i', 'o', 'm'])
        w = S.str('word', 1, width, ISet(((48, 57), (97, 122))))
        last = S.str('last', 0, wlast, LETTER)
        res, got, eoi = offers(S, cli, [verb, w] + ([last] if last else []), not last)
        S.observe('offers', set(got))
        S.observe('eoi', eoi)
        if verb in ('r', 'i', 'm'):
            ok = 2 <= len(w) <= 3
        elif verb == 'b':
            ok = 'true'.startswith(w) or 'false'.startswith(w)
        elif verb == 'a':
            ok = len([a for a in ('on', 'off', 'own') if a.startswith(w)]) == 1 or w == 'on'
        else:
            S.assume(not w.startswith('0'))
            ok = any(w == str(i) for i in range(5, 121))
        want, weoi = [], False
        if ok and verb == 'i':
            weoi = not last
        elif ok or verb == 'o' and w == 'x':
            want = ['x'] if 'x'.startswith(last) else []
            if verb == 'm':
                want.append('Any string of length (2-3)')
            if verb == 'o' and w == 'x':
                want, weoi = [], not last
        if verb == 'm' and ok and len(last) > 3:
            want = []
        same(S, got, want, 'after %r %r' % (verb, w))
        S.check(eoi == weoi, 'complete command')
        if want:
            S.reach('offers')
    return f


def cases(tier):
    q = tier == 'quick'
    kq = ['k', '{k}', '(k|k)', '(k,{k})']
    out = []
    for r in (['x y', 'x , y', '{x} y', '(x y)*(1:2)', 'k {x , y}'] if q else list(ROOTS)):
        kids = kq if q else list(KIDS)
        out.append(Case('distinct: ' + r, lambda: None, body(r, kids, False, 3 if q else 4),
                        'x, y over %s; up to %d arbitrary words, the last one complete or not' % (kids, 3 if q else 4)))
    for r in (['x | y', '{x} y'] if q else list(ROOTS)):
        kids = ['k', '{k}'] if q else kq
        out.append(Case('any keywords: ' + r, lambda: None, body(r, kids, True, 3),
                        'x, y over %s; arbitrary one-letter keywords' % kids))
    for t in TREES:
        s, f = tree(t)
        out.append(Case('tree: ' + t, s, f(2 if q else 3), 'up to %d arbitrary words of 1..2 characters (last: 1..4)' % (2 if q else 3)))
        out.append(Case('shown: ' + t, s, body_line(2 if q else 3), 'what one TAB shows; words of 1..3 letters'))
    out.append(Case('keywords', lambda: None, body_keys((2, 1, 2, 1, 2), 2), 'any keywords of 1..2 letters, two words of 1..2 letters'))
    if not q:
        out.append(Case('keywords long', lambda: None, body_keys((3, 2, 2, 3, 1), 3), 'any keywords of 1..3 letters, two words of 1..3 letters'))
    out.append(Case('after typed words', setup_after, after(3 if q else 4, 1 if q else 2), 'a verb, any word of 1..%d letters or digits and the beginning of another' % (3 if q else 4)))
    out.append(Case('typed', setup_typed, typed, 'a verb and up to 3 letters or digits'))
    return out
