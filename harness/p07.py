"""P07: actions run in order and see the right values. Each case builds the typed words and the expected
handler calls side by side from the same structural choices; typed values are symbolic."""
from harness.common import Case, make_cli, run_line
from harness import gram
from symx.api import ISet

UP = ISet(((65, 90), (0xC0, 0xD6), (0x4E00, 0x9FFF)))
TOKENS = 'token W StringToken(), N RangedIntToken(0, 99);\n'
HANDLERS = ['pre', 's', 'b', 'w', 'opt', 'c', 'd', 'dw', 'alt', 'n', 'it', 'kv', 'done', 'x', 'y', 'z', 'got', 'inner',
            'seen', 'in2', 'outer', 'out3', 'fin', 'two', 'never']


def setup(grammar):
    def f():
        from nessaid_cli.tokens import StringToken, RangedIntToken
        return make_cli(TOKENS + grammar, handlers=HANDLERS, token_classes=[StringToken, RangedIntToken])
    return f


class Line:
    def __init__(self, S):
        self.S, self.words, self.calls, self.k = S, [], [], 0

    def key(self, k):
        self.words.append(k)
        return k

    def word(self, n=2):
        self.k += 1
        w = self.S.str('word%d' % self.k, 1, n, UP)
        self.words.append(w)
        return w

    def num(self):
        self.k += 1
        n = self.S.int('num%d' % self.k, 0, 99)
        self.words.append(str(n))
        return n

    def call(self, *c):
        self.calls.append(c)

    def yes(self, name):
        return self.S.bool(name)

    def verdict(self, cli):
        S = self.S
        rc, calls = run_line(cli, ' '.join(self.words))
        S.observe('rc', rc)
        S.observe('calls', calls)
        S.check(rc == 0, 'a described line was not executed')
        S.check([c[0] for c in calls] == [c[0] for c in self.calls],
                lambda: 'actions run: %r, expected %r' % ([c[0] for c in calls], [c[0] for c in self.calls]))
        for got, want in zip(calls, self.calls):
            S.check(len(got) == len(want), 'number of arguments')
            for a, b in zip(got, want):
                S.check(type(a) is bool or not isinstance(b, bool), 'type of argument')
                S.check(a == b, lambda: '%s got %r instead of %r' % (got[0], got, want))


ORDER = '''
root: << call pre(); >> "s" << call s($1); >>
      { "b" << call b($1); >> W << call w($2); >> } << call opt($2); >>
      ( "c" << call c($1); >> | "d" << call d($1); >> W << call dw($1, $2); >> ) << call alt($3); >>
      N << call n($4, $1); >> ;
'''


def order(S, cli):
    L = Line(S)
    L.call('pre')
    L.call('s', L.key('s'))
    if L.yes('opt'):
        L.call('b', L.key('b'))
        w = L.word()
        L.call('w', w)
        L.call('opt', ['b', w])
    if L.yes('alt'):
        L.call('c', L.key('c'))
        L.call('alt', 'c')
    else:
        L.call('d', L.key('d'))
        w = L.word()
        L.call('dw', 'd', w)
        L.call('alt', ['d', w])
    n = L.num()
    L.call('n', n, 's')
    L.verdict(cli)


REPEAT = '''
root: << $l = list(); $m = list(); >> "r" ( W << append($l, $1); call it($1); >> ) * (1:3)
      ( "k" W << call kv($1, $2); append($m, $2); >> ) * (0:2) "end" << call done($l, $m); >> ;
'''


def repeat(S, cli):
    L = Line(S)
    L.key('r')
    l, m = [], []
    for i in range(1 + S.choice('n', 3)):
        w = L.word(1)
        l.append(w)
        L.call('it', w)
    for i in range(S.choice('m', 3)):
        L.key('k')
        w = L.word(1)
        m.append(w)
        L.call('kv', 'k', w)
    L.key('end')
    L.call('done', l, m)
    L.verdict(cli)


REPEAT_EXACT = '''
root: << $l = list(); >> ( "k" { N << append($l, $1); >> } << call it($1); >> ) * 2
      ( W << append($l, $1); >> ) * 2 << call done($l); >> ;
'''


def repeat_exact(S, cli):
    L = Line(S)
    l = []
    for i in range(2):
        L.key('k')
        if L.yes('num%d?' % i):
            l.append(L.num())
            L.call('it', 'k')
    for i in range(2):
        l.append(L.word(1))
    L.call('done', l)
    L.verdict(cli)


SET = '''
root: << $x = "nox"; $y = -1; >> "set"
      { ( "x" W << $x = $2; call x($2); >> ), ( "y" N << $y = $2; call y($2); >> ), "z" << call z(); >> }
      "end" << call done($x, $y); >> ;
'''
SET_MUST = '''
root: << $x = "nox"; $y = -1; >> "set"
      ( ( "x" W << $x = $2; call x($2); >> ), { "y" N << $y = $2; call y($2); >> }, { "z" << call z(); >> } )
      "end" << call done($x, $y); >> ;
'''


def orderless(must):
    def f(S, cli):
        L = Line(S)
        L.key('set')
        x, y = 'nox', -1
        left = ['x', 'y', 'z']
        while left:
            i = S.choice('next%d' % len(left), len(left) + 1)
            if i == len(left):
                break
            e = left.pop(i)
            L.key(e)
            if e == 'x':
                x = L.word(1)
                L.call('x', x)
            elif e == 'y':
                y = L.num()
                L.call('y', y)
            else:
                L.call('z')
        if must:
            S.assume('x' not in left)
        else:
            S.assume(len(left) in (0, 3))
        L.key('end')
        L.call('done', x, y)
        L.verdict(cli)
    return f


REFS = '''
inner[$out, $n = 7]: "i" W << $out = $2; call inner($n, $2); >> ;
mid[$a, $b]: inner[$a] "m" inner[$b, 3] ;
root: << $p = "p0"; $q = "q0"; >> "go" { mid[$p, $q] << call two($p, $q); >> } "end" << call got($p, $q); >> ;
'''


def refs(S, cli):
    L = Line(S)
    L.key('go')
    p, q = 'p0', 'q0'
    if L.yes('mid'):
        L.key('i')
        p = L.word()
        L.call('inner', 7, p)
        L.key('m')
        L.key('i')
        q = L.word()
        L.call('inner', 3, q)
        L.call('two', p, q)
    L.key('end')
    L.call('got', p, q)
    L.verdict(cli)


LOCALS = '''
loc[$o]: << $o = "none"; $mine = "unset"; >> "l" { W << $o = $1; $mine = $1; >> } "." << call inner($mine); >> ;
root: << $a = "a0"; $b = "b0"; $mine = "outer"; >> loc[$a] << call seen($a, $mine); >> { loc[$b] << call seen($b, $mine); >> }
      "end" << call got($a, $b, $mine); >> ;
'''


def locals_(S, cli):
    L = Line(S)

    def loc(i):
        L.key('l')
        o = 'none'
        mine = 'unset'
        if L.yes('w%d' % i):
            o = mine = L.word()
        L.key('.')
        L.call('inner', mine)
        L.call('seen', o, 'outer')
        return o
    a, b = loc(0), 'b0'
    if L.yes('second'):
        b = loc(1)
    L.key('end')
    L.call('got', a, b, 'outer')
    L.verdict(cli)


REFREP = '''
pair[$k, $v]: W << $k = $1; >> "is" ( N << $v = $1; >> | "none" << $v = None; >> ) ;
root: << $d = list(); $k = ""; $v = ""; >> "let" ( pair[$k, $v] << append($d, $k, $v); call seen($k, $v); >> ) * (1:3)
      << call done($d); >> ;
'''


def refrep(S, cli):
    L = Line(S)
    L.key('let')
    d = []
    for i in range(1 + S.choice('n', 3)):
        k = L.word(1)
        L.key('is')
        if L.yes('num%d?' % i):
            v = L.num()
        else:
            L.key('none')
            v = None
        d.append(k)
        d.append(v)
        L.call('seen', k, v)
    L.call('done', d)
    L.verdict(cli)


NESTED = '''
root: "a" ( "b" W << call in2($1, $2); >> ) << call outer($1, $2); >> W << call out3($3, $1); >>
      ( N << $x = $1; >> | ( "t" N << $x = $2; >> ) ) << call fin(add(inc($x), 2), list($x, $3, "lit")); >> ;
'''


def nested(S, cli):
    L = Line(S)
    L.key('a')
    L.key('b')
    w = L.word()
    L.call('in2', 'b', w)
    L.call('outer', 'a', ['b', w])
    w3 = L.word()
    L.call('out3', w3, 'a')
    if L.yes('t'):
        L.key('t')
    x = L.num()
    L.call('fin', x + 3, [x, w3, 'lit'])
    L.verdict(cli)


NAMED = '''
f[$x = "dx", $y = "dy", $z]: "f" { W << $z = $1; >> } << call inner($x, $y, $z); >> ;
root: << $r = "r0"; >> ( "one" f["lit"] | "two" f[$z = $r, $x = "kx"] | "three" f[1, "yy", $r] | "four" f )
      "end" << call got($r); >> ;
'''


def named(S, cli):
    L = Line(S)
    i = S.choice('which', 4)
    L.key(['one', 'two', 'three', 'four'][i])
    L.key('f')
    r = 'r0'
    z = r if i in (1, 2) else None
    if L.yes('w'):
        z = L.word()
        if i in (1, 2):
            r = z
        L.call('inner', ['lit', 'kx', 1, 'dx'][i], ['dy', 'dy', 'yy', 'dy'][i], z)
    L.key('end')
    L.call('got', r)
    L.verdict(cli)


BLOCKS = '''
root: "a" << call s(1); >> << call s(2); call s(3); >> { << call pre(); >> W } << call opt($2); >>
      { { "c" << call c(); >> } "d" << call d(); >> } ( "x" << call x($1); >> | { "y" << call y($1); >> } "z" << call z(); >> ) ;
'''


def blocks(S, cli):
    L = Line(S)
    L.key('a')
    L.call('s', 1)
    L.call('s', 2)
    L.call('s', 3)
    if L.yes('w'):
        w = L.word()
        L.call('pre')
        L.call('opt', w)
    if L.yes('d'):
        if L.yes('c'):
            L.key('c')
            L.call('c')
        L.key('d')
        L.call('d')
    if L.yes('x'):
        L.call('x', L.key('x'))
    else:
        if L.yes('y'):
            L.call('y', L.key('y'))
        L.key('z')
        L.call('z')
    L.verdict(cli)


COPIES = '''
put[$p, $q]: N << $q = $p; $p = $1; >> { W << $q = $1; >> } "t" << call inner($p, $q); >> ;
root: "a" << $a = $1; $b = $a; $a = 5; $c = $b; >> W << $b = $2; $d = $b; $d = 7; call s($a, $b, $c, $2); $e = $e; call x($e, $1); >>
      put[$a, $b] << call outer($a, $b, $c, $d); >> ;
'''


def copies(S, cli):
    L = Line(S)
    L.key('a')
    w = L.word()
    L.call('s', 5, w, 'a', w)
    L.call('x', None, 'a')
    p = L.num()
    q = 5
    if L.yes('w'):
        q = L.word()
    L.key('t')
    L.call('inner', p, q)
    L.call('outer', p, q, 'a', 7)
    L.verdict(cli)


PREREP = '''
root: ( << call pre(); $v = "none"; >> ( << call s($v); >> "a" << call x($1, $v); $v = "got"; >> | "b" << $v = $1; >> )
      W << call it($1, $2, $v); >> ) * (1:3) ( << call b(); >> "k" ( << call c(); >> N << call n($1); >> ) * 2 ) * (0:2) << call out3($1, $2); >>
      "end" << call fin($3, $2); >> ;
'''


def prerep(S, cli):
    L = Line(S)
    n = 1 + S.choice('n', 2)
    for i in range(n):
        L.call('pre')
        if L.yes('a%d' % i):
            L.call('s', 'none')
            L.key('a')
            L.call('x', 'a', 'none')
            k, v = 'a', 'got'
        else:
            k = v = L.key('b')
        w = L.word(1)
        L.call('it', k, w, v)
    one = list(L.words)
    for i in range(S.choice('m', 2)):
        L.call('b')
        L.key('k')
        for j in range(2):
            L.call('c')
            L.call('n', L.num())
    two = L.words[len(one):]
    if two:
        # numbers are collected as numbers
        nums = iter([c[1] for c in L.calls if c[0] == 'n'])
        two = ['k' if w == 'k' else next(nums) for w in two]
        L.call('out3', one, two)
    L.key('end')
    L.call('fin', 'end', two or None)
    L.verdict(cli)


ALL = [('order', ORDER, order), ('repeat', REPEAT, repeat), ('repeat-exact', REPEAT_EXACT, repeat_exact),
       ('set', SET, orderless(False)), ('set-required', SET_MUST, orderless(True)), ('references', REFS, refs),
       ('locals', LOCALS, locals_), ('reference-repeat', REFREP, refrep), ('nested', NESTED, nested),
       ('named-arguments', NAMED, named), ('blocks', BLOCKS, blocks),
       ('copies', COPIES, copies), ('before-repeat', PREREP, prerep)]


# Grammars of every shape with an action in front of and after every part, each naming its part and the value it matched.

class Part:
    def __init__(self, t, kids=(), word=None, m=1, n=1):
        self.t, self.kids, self.word, self.m, self.n, self.id = t, list(kids), word, m, n, 0


def number_parts(g, k=0):
    g.id = k = k + 1
    for c in g.kids:
        k = number_parts(c, k)
    return k


def before(g):
    return '<< call p(%d); >> ' % g.id


def after(g, pos, upto=0):
    t = ' << call q(%d, $%d); ' % (g.id, pos)
    if upto:
        t += 'call all(%d, %s); ' % (g.id, ', '.join('$%d' % (i + 1) for i in range(upto)))
    return t + '>>'


def melts(g):
    """Directly inside braces such a part is the sequence of the braces itself."""
    return g.t == 'seq' or g.t == 'rep' and 0 < g.m < g.n


def row(g):
    return ' '.join([term(c, i + 1, i + 1 if i + 1 == len(g.kids) and c.t in 'kw' else 0) for i, c in enumerate(g.kids)])


def term(g, pos, upto=0, post=True):
    end = after(g, pos, upto) if post else ''
    if g.t == 'k':
        return '"' + g.word + '"' + end
    if g.t == 'w':
        return 'W' + end
    if g.t == 'seq':
        return '( ' + before(g) + row(g) + ' )' + end
    if g.t == 'alt':
        return '( ' + ' | '.join([before(c) + term(c, 1) for c in g.kids]) + ' )' + end
    if g.t == 'set':
        return '( ' + before(g) + ' , '.join([term(c, i + 1) for i, c in enumerate(g.kids)]) + ' )' + end
    c = g.kids[0]
    if g.t == 'opt':
        if c.t == 'seq':
            return '{ ' + before(g) + row(c) + ' }' + end
        return '{ ' + before(g) + term(c, 1, 0, not melts(c)) + ' }' + end
    if g.t == 'rep':
        return '( ' + before(g) + term(c, 1) + ' ) * (%d:%d)' % (g.m, g.n) + end
    if g.t == 'ref':
        return 'rule%d' % g.id + end


def rules(g):
    out = ''.join([rules(c) for c in g.kids])
    if g.t == 'ref':
        out += 'rule%d : ' % g.id + before(g) + term(g.kids[0], 1) + ' ;\n'
    return out


class Walk:
    """Chooses a line the grammar describes and writes down the calls it should make."""

    def __init__(self, S, longest):
        self.S, self.longest, self.words, self.kinds, self.calls, self.k = S, longest, [], [], [], 0

    def choose(self, n):
        self.k += 1
        return self.S.choice('choice%d' % self.k, n)

    def value(self, n0):
        got = self.words[n0:]
        return got[0] if len(got) == 1 else list(got)

    def post(self, g, n0, upto=None):
        self.calls.append(('q', g.id, self.value(n0)))
        if upto:
            self.calls.append(('all', g.id) + tuple(upto))

    def row(self, g):
        values = []
        for i, c in enumerate(g.kids):
            n0 = len(self.words)
            self.go(c, values if i + 1 == len(g.kids) and c.t in 'kw' else None)
            values.append(self.value(n0) if len(self.words) > n0 else None)

    def go(self, g, values=None, post=True, there=False):
        """values: those of the parts before it, when it is the last of its row."""
        n0 = len(self.words)
        c = g.kids[0] if g.kids else None
        if g.t in 'kw':
            if g.t == 'k':
                self.words.append(g.word)
            else:
                self.k += 1
                self.words.append(self.S.char('word%d' % self.k, UP))
            self.kinds.append(g.word)
            self.S.assume(len(self.words) <= self.longest)
            self.post(g, n0, values + [self.words[-1]] if values is not None else None)
            return
        if g.t == 'opt':
            if not there and not self.choose(2):
                return
            self.calls.append(('p', g.id))
            if c.t == 'seq':
                self.row(c)
            else:
                self.go(c, None, not melts(c))
        elif g.t == 'seq':
            self.calls.append(('p', g.id))
            self.row(g)
        elif g.t == 'alt':
            c = g.kids[self.choose(len(g.kids))]
            k0 = len(self.calls)
            self.calls.append(('p', c.id))
            self.go(c)
            if len(self.words) == n0:
                del self.calls[k0:]
        elif g.t == 'ref':
            k0 = len(self.calls)
            self.calls.append(('p', g.id))
            self.go(c)
            if len(self.words) == n0:
                del self.calls[k0:]
        elif g.t == 'rep':
            for i in range(g.m + self.choose(g.n - g.m + 1)):
                self.calls.append(('p', g.id))
                self.go(c)
        elif g.t == 'set':
            left = list(g.kids)
            self.calls.append(('p', g.id))
            k0 = len(self.calls) - 1
            while left:
                stop = all([x.t == 'opt' for x in left])
                c = self.choose(len(left) + (1 if stop else 0))
                if c == len(left):
                    break
                self.go(left.pop(c), there=True)
            if len(self.words) == n0:
                del self.calls[k0:]
        if post and len(self.words) > n0:
            self.post(g, n0)


def P(t):
    return lambda *kids, **k: Part(t, kids, **k)


seq, alt, sset, opt, rep, ref = P('seq'), P('alt'), P('set'), P('opt'), P('rep'), P('ref')


class Fresh:
    def __init__(self):
        self.n = 0

    def k(self):
        self.n += 1
        return Part('k', word='abcdefghijklmnopqrst'[self.n - 1])

    def w(self):
        return Part('w')


SHAPES = {
    'k': lambda F: F.k(),
    'w': lambda F: F.w(),
    '{k}': lambda F: opt(F.k()),
    '(k w)': lambda F: seq(F.k(), F.w()),
    '{k w}': lambda F: opt(seq(F.k(), F.w())),
    '(k|w)': lambda F: alt(F.k(), F.w()),
    '({k} k)': lambda F: seq(opt(F.k()), F.k()),
    '(k {w})': lambda F: seq(F.k(), opt(F.w())),
    '(k,{k},k)': lambda F: sset(F.k(), opt(F.k()), F.k()),
    '(k w)*(1:3)': lambda F: rep(seq(F.k(), F.w()), m=1, n=3),
    'w*(2:2)': lambda F: rep(F.w(), m=2, n=2),
    'k*(0:2)': lambda F: rep(F.k(), m=0, n=2),
    '(k|k w)*(2:3)': lambda F: rep(alt(F.k(), seq(F.k(), F.w())), m=2, n=3),
    '{k|(k w)}': lambda F: opt(alt(F.k(), seq(F.k(), F.w()))),
    '(k ((k {w})|k)*(1:2))': lambda F: seq(F.k(), rep(alt(seq(F.k(), opt(F.w())), F.k()), m=1, n=2)),
    'r:k': lambda F: ref(F.k()),
    'r:(k {w})': lambda F: ref(seq(F.k(), opt(F.w()))),
    '{r:(k|w)}': lambda F: opt(ref(alt(F.k(), F.w()))),
    'r:(k w)*(1:2)': lambda F: rep(ref(seq(F.k(), F.w())), m=1, n=2),
}
AROUND = {
    'x y k': lambda F, x, y: seq(x, y, F.k()),
    '{x} k y': lambda F, x, y: seq(opt(x), F.k(), y),
    'k {x y} k': lambda F, x, y: seq(F.k(), opt(seq(x, y)), F.k()),
    'k (x|y) k': lambda F, x, y: seq(F.k(), alt(x, y), F.k()),
    'k (x,y) k': lambda F, x, y: seq(F.k(), sset(x, y), F.k()),
    '(k x y)*(1:2) k': lambda F, x, y: seq(rep(seq(F.k(), x, y), m=1, n=2), F.k()),
    'k (k x | k y)*(2:2)': lambda F, x, y: seq(F.k(), rep(alt(seq(F.k(), x), seq(F.k(), y)), m=2, n=2)),
    'r:(k x) {y} k': lambda F, x, y: seq(ref(seq(F.k(), x)), opt(y), F.k()),
}


def plain_grammar(g):
    """As harness.gram describes it."""
    if g.t == 'k':
        return ('k', g.word)
    if g.t == 'w':
        return ('w',)
    c = [plain_grammar(x) for x in g.kids]
    return {'seq': lambda: ('seq', c), 'alt': lambda: ('alt', c), 'set': lambda: ('set', c), 'opt': lambda: ('opt', c[0]),
            'rep': lambda: ('rep', c[0], g.m, g.n), 'ref': lambda: ('ref', '', c[0])}[g.t]()


def shaped(around, xs, ys, longest):
    def f(S, env):
        from nessaid_cli.tokens import StringToken
        F = Fresh()
        x = SHAPES[S.pick('x', xs)](F)
        y = SHAPES[S.pick('y', ys)](F)
        g = AROUND[around](F, x, y)
        number_parts(g)
        W = Walk(S, longest)
        W.go(g)
        S.assume(len(W.words) > 0)
        S.assume(gram.ways(plain_grammar(g), W.kinds, 0, len(W.kinds)) == 1)
        cli = make_cli('token W StringToken();\n' + rules(g) + 'root : ' + before(g) + term(g, 1) + ' ;', handlers=['p', 'q', 'all'],
                       token_classes=[StringToken])
        rc, calls = run_line(cli, ' '.join(W.words))
        S.observe('rc', rc)
        S.observe('calls', calls)
        want = [('p', g.id)] + W.calls
        S.check(rc == 0, lambda: 'line %r of %s: status %r' % (W.words, term(g, 1), rc))
        S.check(calls == want, lambda: 'line %r of %s: %r, expected %r' % (W.words, term(g, 1), calls, want))
        S.reach('run')
    return f


def twice(body):
    """The same command object executes two such lines one after the other."""
    class Pre:
        def __init__(self, S, p):
            self.S, self.p = S, p

        def __getattr__(self, a):
            f = getattr(self.S, a)
            if a in ('choice', 'bool', 'str', 'int', 'char', 'pick'):
                return lambda name, *x: f(self.p + name, *x)
            return f

    def f(S, cli):
        body(Pre(S, '1.'), cli)
        body(Pre(S, '2.'), cli)
    return f


def cases(tier):
    out = []
    for name, g, b in ALL:
        out.append(Case(name, setup(g), b, 'every line of this grammar: %s; words of 1..2 letters, numbers 0..99' %
                        ' '.join(g.split())))
    for name, g, b in ALL:
        if tier != 'quick' or name in ('references', 'locals', 'blocks', 'named-arguments'):
            out.append(Case('twice:' + name, setup(g), twice(b), 'two such lines one after the other'))
    q = tier == 'quick'
    xs = ['w', '{k}', '(k|w)', '(k {w})', '(k,{k},k)', '(k w)*(1:3)', 'r:(k {w})'] if q else list(SHAPES)
    ys = ['k', '{k w}', 'k*(0:2)', '{r:(k|w)}', '(k|k w)*(2:3)']
    for a in AROUND:
        out.append(Case('shape: ' + a, lambda: None, shaped(a, xs, ys, 6 if q else 7),
                        'x over %s, y over %s, an action before and after every part; every line of up to %d words the '
                        'grammar describes in one way, string words arbitrary capitals' % (xs, ys, 6 if q else 7), ('run',)))
    return out
