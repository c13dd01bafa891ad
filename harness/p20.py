"""P20: built-in action functions compute what the manual says. Arguments come from handlers (any integer, any
collection) and from typed words; results go to handlers and to the output."""
from harness.common import Case, make_cli, drive
from harness.p19 import equal
from symx.api import ISet, alphabet

UP = ISet(((65, 90), (0xC0, 0xD6), (0x4E00, 0x9FFF)))
TEXT = ISet(((32, 33), (35, 91), (93, 126)))
BIG = 10 ** 12


def setup(grammar):
    def f():
        from nessaid_cli.tokens import StringToken, RangedIntToken
        cli = make_cli('token W StringToken(), N RangedIntToken(-99, 99);\n' + grammar, handlers=['got', 'two'],
                       token_classes=[StringToken, RangedIntToken])
        cli.vals = {}
        for n in 'abcl':
            setattr(type(cli), 'val_' + n, lambda self, n=n: self.vals[n])
        return cli
    return f


def run(S, cli, line):
    n = len(cli.log)
    rc = drive(cli.exec_line(line))
    S.check(rc == 0, lambda: 'line %r: status %r, %r' % (line, rc, cli.err.parts))
    S.check(cli.err.parts == [], lambda: 'line %r: %r' % (line, cli.err.parts))
    return cli.log[n:]


def expect(S, calls, want):
    S.observe('calls', calls)
    S.check(len(calls) == len(want), lambda: 'calls %r, expected %r' % (calls, want))
    for g, w in zip(calls, want):
        S.check(len(g) == len(w), lambda: 'calls %r, expected %r' % (calls, want))
        for x, y in zip(g, w):
            S.check(same(x, y), lambda: 'calls %r, expected %r' % (calls, want))


def same(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(b, set):
        return type(a) is set and len(a) == len(b) and all(any(x == y for y in a) for x in b)
    return equal(a, b)


ARITH = '''
root: "go" <<
    $a = call val_a(); $b = call val_b(); $c = call val_c();
    call got(inc($a), dec($a), add($a, $b), add($a, $b, $c), add($a));
    call got(inc(inc($a)), dec(inc($b)), add(dec($a), inc($b), 7, -3), inc(add($a, $a)), add(add($a, $b), $c));
    $d = inc($a);
    $e = dec($d);
    $f = add($a, $d, $e);
    $a = inc($a);
    call got($a, $d, $e, $f, $b);
    inc($b);
    $b = dec(dec($b));
    call got($b, inc(5), dec(0), dec(-1), inc(-1), add(1, 2, 3), add(10, -4), inc(0), dec(1));
>> ;
'''


def arithmetic(S, cli):
    a, b, c = [S.int(n, -BIG, BIG) for n in 'abc']
    cli.vals = {'a': a, 'b': b, 'c': c}
    expect(S, run(S, cli, 'go'), [
        ('got', a + 1, a - 1, a + b, a + b + c, a),
        ('got', a + 2, b, a + b + 4, a + a + 1, a + b + c),
        ('got', a + 1, a + 1, a, a + a + a + 1, b),
        ('got', b - 2, 6, -1, -2, 0, 6, 6, 1, 0),
    ])


TYPED = '''
root: "n" N << call got(inc($2), dec($2), add($2, 1)); $s = $2; >> { N << $s = add($s, $1); call two($s); >> }
      { W N << call got(add($2, $s, 2), $1); >> } "z" << call got(inc(add($s, $2))); >> ;
'''


def typed(S, cli):
    a, b, c = S.int('a', -99, 99), S.int('b', -99, 99), S.int('c', -99, 99)
    w = S.str('w', 1, 2, UP)
    line = 'n ' + str(a)
    want = [('got', a + 1, a - 1, a + 1)]
    s = a
    if S.bool('second'):
        line += ' ' + str(b)
        s = a + b
        want.append(('two', s))
    if S.bool('third'):
        line += ' ' + w + ' ' + str(c)
        want.append(('got', c + s + 2, w))
    want.append(('got', s + a + 1))
    expect(S, run(S, cli, line + ' z'), want)


COLL = '''
root: "c" W W N << call got(list($2), list($3, $2, $4), list(), set($2, $3), set(), set($4, $2, $2), dict());
                   $l = list($2); $m = append($l, $3, $4); call got($l, $m); append($l, $2); call got($m);
                   $s = set($2); append($s, $3); $t = append($s, $4, $3); call got($s, $t);
                   $d = dict(); update($d, $2, $4); $e = update($d, $3, $3); call got($d, $e);
                   update($e, $2, list($4)); update($d, 7, True); call got($d);
                   call two(append(list(), $2), update(dict(), $3, $2), append(set($2), $2), list(list($2), set($3), dict())); >> ;
'''


def ordered(*kv):
    d = []
    for k, v in kv:
        for e in d:
            if e[0] == k:
                e[1] = v
                break
        else:
            d.append([k, v])
    return D(d)


class D:
    """A dictionary as a list of pairs."""
    def __init__(self, items):
        self.items = items


def uniq(*xs):
    out = []
    for x in xs:
        if not any(type(x) is type(y) and x == y for y in out):
            out.append(x)
    return Set(out)


class Set(D):
    pass


def snapshot(v):
    if type(v) is list:
        return [snapshot(x) for x in v]
    if type(v) is set:
        return Set([snapshot(x) for x in v])
    if type(v) is dict:
        return D([[k, snapshot(x)] for k, x in v.items()])
    return v


def plain(v):
    if isinstance(v, Set):
        return set([plain(x) for x in v.items])
    if isinstance(v, D):
        return ['dict', [[plain(k), plain(x)] for k, x in v.items]]
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def agree(a, b):
    """Two snapshots hold the same."""
    if isinstance(b, Set):
        return isinstance(a, Set) and len(a.items) == len(b.items) and all(any(x == y for y in a.items) for x in b.items)
    if isinstance(b, D):
        return type(a) is D and len(a.items) == len(b.items) and all(
            any(type(k) is type(k2) and k == k2 and agree(v, v2) for k2, v2 in a.items) for k, v in b.items)
    if isinstance(b, list):
        return type(a) is list and len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    return type(a) is type(b) and a == b


def recording(grammar):
    base = setup(grammar)

    def f():
        cli = base()
        for h in ('got', 'two'):
            setattr(type(cli), h, lambda self, *a, h=h: self.log.append((h,) + tuple(snapshot(x) for x in a)))
        return cli
    return f


def compare(S, calls, want):
    S.observe('calls', plain([list(c) for c in calls]))
    S.check(len(calls) == len(want), lambda: 'calls %r' % (plain([list(c) for c in calls]),))
    for g, w in zip(calls, want):
        S.check(agree(list(g), list(w)), lambda: 'call %r, expected %r' % (plain(list(g)), plain(list(w))))


def collections(S, cli):
    v, w = S.str('v', 1, 1, UP), S.str('w', 1, 1, UP)
    n = S.int('n', -9, 9)
    line = 'c %s %s %s' % (v, w, str(n))
    want = [
        ('got', [v], [w, v, n], [], uniq(v, w), uniq(), uniq(n, v), D([])),
        ('got', [v, w, n], [v, w, n]),
        ('got', [v, w, n, v]),
        ('got', uniq(v, w, n), uniq(v, w, n)),
        ('got', ordered((v, n), (w, w)), ordered((v, n), (w, w))),
        ('got', ordered((v, n), (w, w), (v, [n]), (7, True))),
        ('two', [v], D([[w, v]]), uniq(v), [[v], uniq(w), D([])]),
    ]
    compare(S, run(S, cli, line), want)
    if S.bool('again'):
        compare(S, run(S, cli, line), want)
        S.reach('again')


GIVEN = '''
root: "l" << $l = call val_l(); append($l, 1, "x"); call got($l); >> | "d" W << $l = call val_l(); update($l, "k", $2); call got($l); >>
    | "e" N << $l = call val_l(); $m = append($l, $2); call got(list($l, $m)); >> ;
'''


def given(S, cli):
    """Collections handed in by the program, of any length up to 2."""
    kind = S.pick('kind', ['list', 'set', 'dict'])
    n = S.choice('n', 3)
    items = [S.str('i%d' % i, 1, 1, UP) for i in range(n)]
    if kind == 'dict':
        d = {}
        for i, x in enumerate(items):
            d[x] = i
        cli.vals = {'l': d}
        w = S.str('w', 1, 2, UP)
        want = snapshot(d)
        compare(S, run(S, cli, 'd ' + w), [('got', ordered(*([(k, v) for k, v in want.items] + [('k', w)])))])
        return
    k = S.int('k', -9, 9)
    if kind == 'list':
        cli.vals = {'l': list(items)}
        if S.bool('two'):
            compare(S, run(S, cli, 'l'), [('got', items + [1, 'x'])])
        else:
            compare(S, run(S, cli, 'e ' + str(k)), [('got', [items + [k], items + [k]])])
    else:
        c = set()
        for x in items:
            c.add(x)
        cli.vals = {'l': c}
        compare(S, run(S, cli, 'l'), [('got', uniq(*(items + [1, 'x'])))])


LEAK = '''
root: "a" << $l = list(); $s = set(); $d = dict(); >> { W << append($l, $1); append($s, $1); update($d, $1, 1); >> }
      { N << append($l, $1); append($s, $1); update($d, $1, 2); >> } "z" << call got($l, $s, $d); >>
    | "b" << call two(list(), set(), dict(), append(list(), 1), append(set(), 2), update(dict(), 1, 2)); >>
    | "c" ( W << $m = list($1); append($m, "z"); call got($m); >> ) * (1:2) << call got($m); >>
    | "p" << $u = list(); $v = dict(); >> sub[$u, $v] | "q" << $u = list("q"); $v = dict(); >> sub[$u, $v] ;
'''
SUB = 'sub[$l, $d]: { W << append($l, $1); update($d, $1, $1); >> } "z" << call got($l, $d); >> ;'


def leak_setup():
    return recording(SUB + LEAK)()


def leak(n):
    """New collections in each call: whatever the lines before were."""
    def f(S, cli):
        kept = []
        for i in range(n):
            verb = S.pick('verb%d' % i, ['a', 'b', 'c', 'p', 'q'])
            words = []
            if verb != 'b' and (verb == 'c' or S.bool('word%d' % i)):
                words.append(S.str('w%d' % i, 1, 1, UP))
            if verb == 'a':
                num = S.bool('number%d' % i)
                ws = words + ([4] if num else [])
                want = [('got', ws, uniq(*ws), ordered(*([(w, 1) for w in words] + ([(4, 2)] if num else []))))]
                line = ' '.join(['a'] + words + (['4'] if num else []) + ['z'])
            elif verb == 'b':
                want, line = [('two', [], uniq(), D([]), [1], uniq(2), D([[1, 2]]))], 'b'
            elif verb == 'c':
                if S.bool('twice%d' % i):
                    words.append('Y')
                want = [('got', [w, 'z']) for w in words] + [('got', [words[-1], 'z'])]
                line = ' '.join(['c'] + words)
            else:
                want = [('got', (['q'] if verb == 'q' else []) + words, ordered(*[(w, w) for w in words]))]
                line = ' '.join([verb] + words + ['z'])
            compare(S, run(S, cli, line), want)
    return f


PRINT = '''
root: "p" W << print($2); >> { N << print($1, inc($1), "a b", -1, True, None); >> }
      "z" << print(); print("x", $2); $r = print("r"); call got($r); print(list($2), 1); >>
    | "w" W W N << print($2, $3, $4); call got(print($4)); >> ;
'''


def printing(S, cli):
    w, v = S.str('w', 1, 2, UP), S.str('v', 1, 1, UP)
    n = S.int('n', -99, 99)
    if S.bool('short'):
        calls = run(S, cli, 'w %s %s %s' % (w, v, str(n)))
        want = '%s %s %s\n%s\n' % (w, v, str(n), str(n))
    else:
        line, mid = 'p ' + w, ''
        if S.bool('number'):
            line += ' ' + str(n)
            mid = '%s %s a b -1 True None\n' % (str(n), str(n + 1))
        calls = run(S, cli, line + ' z')
        want = w + '\n' + mid + '\n' + 'x ' + w + '\nr\n' + "['" + w + "'] 1\n"
    S.observe('out', cli.out.text())
    S.check(cli.out.text() == want, lambda: 'printed %r, expected %r' % (cli.out.text(), want))
    expect(S, calls, [('got', None)])


def literal(n):
    """A string literal of an action reaches the handler with its escapes replaced; so does a quoted argument of a function."""
    def f(S, env):
        text = S.str('text', 0, n, TEXT)
        S.assume('>>' not in text)      # >> ends the action
        esc = S.pick('escape', ['', '\\n', '\\t', '\\"', '\\\\', '\\0', '\\a', '\\\\\\\\'])
        means = {'': '', '\\n': '\n', '\\t': '\t', '\\"': '"', '\\\\': '\\', '\\0': '\0', '\\a': '\a', '\\\\\\\\': '\\\\'}[esc]
        lit = '"' + text + esc + '"'
        want = text + means
        cli = recording('root: "a" << call got(%s); $x = %s; call got($x, list(%s), 1); >> ;' % (lit, lit, lit))()
        compare(S, run(S, cli, 'a'), [('got', want), ('got', want, [want], 1)])
    return f


def numeral(S, env):
    """Number literals."""
    d = S.str('digits', 1, 3, alphabet('0123456789'))
    S.assume(len(d) == 1 or d[0] != '0')
    neg = S.bool('negative')
    frac = S.bool('fraction')
    text = ('-' if neg else '') + d
    cli = recording('root: "a" << call got(inc(%s), %s); >> ;' % (text, text + ('.5' if frac else '')))()
    n = int(d)
    n = -n if neg else n
    calls = run(S, cli, 'a')
    S.observe('n', calls[0][1])
    S.check(calls[0][1] == n + 1, 'inc of a literal')
    if frac:
        S.check(type(calls[0][2]) is float and calls[0][2] == float(text + '.5'), 'decimal literal')
    else:
        S.check(calls[0][2] == n, 'literal')


REUSE = '''
root: "a" << $t = call val_a(); call got($t); call two(add("", $t), list($t)); >> ;
'''


def results(n):
    """A text returned by a function reaches the next function as it is."""
    def f(S, cli):
        t = S.str('text', 0, n, alphabet('a\\n" t'))
        cli.vals = {'a': t}
        calls = run(S, cli, 'a')
        compare(S, calls, [('got', t), ('two', t, [t])])
    return f


NEST = '''
root: "a" << $l = call val_l(); call got(list($l)); call got(list(list($l))); call got(list(list())); call got(list(dict()), list(set()));
             $m = list($l); append($m, 2); call got($m, list($m)); call got($l); call two(append(list(), $l), append(list(), list()));
             $d = update(dict(), "k", list($l)); call got($d, list($d)); >> ;
'''


def nested(S, cli):
    """A collection is one item of the list made of it."""
    kind = S.pick('kind', ['list', 'set', 'dict'])
    items = [S.str('i%d' % i, 1, 1, UP) for i in range(S.choice('n', 3))]
    l = list(items)
    if kind == 'set':
        l = set()
        for x in items:
            l.add(x)
    elif kind == 'dict':
        l = {}
        for x in items:
            l[x] = 1
    cli.vals = {'l': l}
    g = snapshot(l)
    d = D([['k', [g]]])
    compare(S, run(S, cli, 'a'), [
        ('got', [g]), ('got', [[g]]), ('got', [[]]), ('got', [D([])], [Set([])]), ('got', [g, 2], [[g, 2]]), ('got', g),
        ('two', [g], [[]]), ('got', d, [d])])


JOINED = '''
root: "a" W << $a = list($2); $b = add($a, list("x")); $c = add($b, $a, $b); call got($a, $b, $c); $d = call val_a(); $e = call val_b();
               $f = add($d, $e); call got($d, $e, $f); append($f, 1); call got($d, $f); $g = $2; $h = add($g, "y", $g); call got($g, $h); >> ;
'''


def joined(S, cli):
    """A sum is a new value: what it was made of stays as it was."""
    w = S.str('w', 1, 1, UP)
    a = [S.str('a%d' % i, 1, 1, UP) for i in range(S.choice('na', 3))]
    b = [S.str('b%d' % i, 1, 1, UP) for i in range(S.choice('nb', 3))]
    cli.vals = {'a': list(a), 'b': list(b)}
    compare(S, run(S, cli, 'a ' + w), [
        ('got', [w], [w, 'x'], [w, 'x', w, w, 'x']), ('got', a, b, a + b), ('got', a, a + b + [1]), ('got', w, w + 'y' + w)])
    S.check(agree(cli.vals['a'], a) and agree(cli.vals['b'], b), lambda: 'given %r and %r' % (cli.vals['a'], cli.vals['b']))


KEYWORDS = ['call', 'True', 'False', 'None', 'list', 'print', 'inc']


def names(n):
    """A handler is called by its name, whatever the name begins with."""
    def f(S, env):
        k = S.pick('keyword', KEYWORDS)
        rest = S.str('rest', 1, n, alphabet('ab_1AZ'))
        name = k + rest
        S.assume(not name.endswith('__'))
        cli = recording('root: "a" W << call %s($2, 1); >> { "b" << $x = call %s(call %s()); call got($x); >> } ;' % (name, name, name))()
        for other in (name, rest):
            if not other[0].isdigit() and other != 'val_a' and not hasattr(cli, other):
                setattr(type(cli), other, lambda self, *a, other=other: self.log.append((other,) + a) or len(a))
        w = S.str('w', 1, 1, UP)
        if S.bool('more'):
            compare(S, run(S, cli, 'a ' + w + ' b'), [(name, w, 1), (name,), (name, 0), ('got', 1)])
        else:
            compare(S, run(S, cli, 'a ' + w), [(name, w, 1)])
    return f


def cases(tier):
    q = tier == 'quick'
    return [
        Case('arithmetic', setup(ARITH), arithmetic, 'any three integers up to 10**12 in size, 28 calls of inc, dec, add nested up to two deep'),
        Case('typed numbers', setup(TYPED), typed, 'any typed integers -99..99 and words'),
        Case('collections', recording(COLL), collections, 'list, set, dict, append, update of any two one-letter words and a number, twice', ('again',)),
        Case('given collections', recording(GIVEN), given, 'append and update on a list, set or mapping of up to 2 entries handed in by the program'),
        Case('fresh', leak_setup, leak(2 if q else 3), '%d lines of 5 kinds with arbitrary words' % (2 if q else 3)),
        Case('print', setup(PRINT), printing, 'print of any words of up to 2 letters and numbers'),
        Case('string literals', lambda: None, literal(1 if q else 3), 'string literals of up to %d printable characters without >> and an escape' % (1 if q else 3)),
        Case('number literals', lambda: None, numeral, 'number literals of up to 3 digits, negative, with a fraction'),
        Case('nested collections', recording(NEST), nested, 'lists of lists, sets and mappings of up to 2 entries'),
        Case('sums of lists and texts', recording(JOINED), joined, 'add of lists of up to 2 one-letter words, and of words'),
        Case('names', lambda: None, names(1 if q else 2), 'handler names: a keyword or function name and up to %d letters, digits or _' % (1 if q else 2)),
        Case('results', recording(REUSE), results(2 if q else 4), 'text of up to %d characters returned by a handler' % (2 if q else 4)),
    ]
