"""P11: RangedDecimalToken accepts exactly the numbers in its range."""
from harness.common import Case, make_cli, run_line
from symx.api import ISet, drive

D = ISet(((48, 57),))
TEXT = ISet(((0, 127), (0xB2, 0xB3), (0x660, 0x669)))
WORD = ISet(((33, 33), (35, 91), (93, 126), (0xB2, 0xB3)))


def digits(t):
    return len(t) > 0 and all('0' <= c <= '9' for c in t)


def decimal(t):
    """Plain decimal notation: digits, with an optional sign, fraction and exponent."""
    if t[:1] in ('-', '+'):
        t = t[1:]
    for e in 'eE':
        if e in t:
            t, x = t.split(e, 1)
            if x[:1] in ('-', '+'):
                x = x[1:]
            if not digits(x):
                return False
            break
    if '.' in t:
        i, f = t.split('.', 1)
        return digits(i + f)
    return digits(t)


def has_digit(t):
    return any(c.isdecimal() for c in t)


def limit(S, name, width):
    return S.int(name, -width, width)


def judge(S, t, text, lower, upper, v, matched):
    if decimal(text):
        n = float(text)
        if lower <= n and n <= upper:
            S.check(type(v) is float or isinstance(v, float), lambda: '%r in %r..%r gives %r' % (text, lower, upper, v))
            S.check(v == n, lambda: '%r in %r..%r gives %r' % (text, lower, upper, v))
            S.check(matched, lambda: '%r in %r..%r does not match' % (text, lower, upper))
            S.reach('accepted')
        else:
            S.check(v is None, lambda: '%r in %r..%r gives %r' % (text, lower, upper, v))
            S.reach('out of range')
    elif not has_digit(text):
        S.check(v is None, lambda: '%r in %r..%r gives %r' % (text, lower, upper, v))
        S.reach('no number')
    elif v is not None:
        S.check(lower <= v and v <= upper, lambda: '%r in %r..%r gives %r' % (text, lower, upper, v))


def value(width, lwidth):
    def f(S, env):
        from nessaid_cli.tokens import RangedDecimalToken, NullTokenValue, MATCH_FAILURE
        a = limit(S, 'start', lwidth)
        b = limit(S, 'end', lwidth)
        text = S.str('text', 0, width, TEXT)
        t = RangedDecimalToken('D', a, b)
        v = drive(t.get_value(text))
        m = drive(t.match(text))
        v = None if v is NullTokenValue else v
        S.observe('value', v)
        S.observe('match', m)
        x, y = float(a), float(b)
        judge(S, t, text, x if x <= y else y, y if x <= y else x, v, m != MATCH_FAILURE)
    return f


GRAMMAR = '''
token D RangedDecimalToken(%s, %s);
root: "d" ( D << call number($1); >> | "end" << call end(); >> );
'''


def line(a, b, width):
    def setup():
        from nessaid_cli.tokens import RangedDecimalToken
        return make_cli(GRAMMAR % (a, b), handlers=['number', 'end'], token_classes=[RangedDecimalToken])

    def f(S, cli):
        text = S.str('text', 1, width, WORD)
        S.assume(text not in ('e', 'en', 'end'))
        rc, calls = run_line(cli, 'd ' + text)
        S.observe('calls', calls)
        S.check((rc == 0) == (len(calls) == 1) and len(calls) <= 1, 'status')
        v = None
        if calls:
            S.check(calls[0][0] == 'number', 'handler')
            v = calls[0][1]
        judge(S, None, text, min(a, b), max(a, b), v, True)
    return setup, f


def long(a, b, whole, part):
    """Numbers of many digits."""
    s, f = line(a, b, 1)

    def body(S, cli):
        text = S.pick('sign', ['', '-']) + S.str('whole', 1, whole, D) + '.' + S.str('part', part, None, D) + S.pick('exponent', ['', 'e2', 'E-3'])
        rc, calls = run_line(cli, 'd ' + text)
        S.observe('calls', calls)
        S.check((rc == 0) == (len(calls) == 1) and len(calls) <= 1, 'status')
        judge(S, None, text, a, b, calls[0][1] if calls else None, True)
    return s, body


def cases(tier):
    q = tier == 'quick'
    out = [Case('value', lambda: None, value(3 if q else 4, 20), 'any whole limits from -20 to 20; any text of up to %d characters' % (3 if q else 4),
                ('accepted', 'out of range', 'no number'))]
    if not q:
        out.append(Case('value, wide limits', lambda: None, value(3, 1000), 'any whole limits from -1000 to 1000; any text of up to 3 characters'))
    for a, b in ((0.5, 2.5), (10, -10)) if q else ((0.5, 2.5), (10, -10), (-5, -2.25), (0, 0), (1.25, 1.25), (-0.125, 0), (99, 101)):
        s, f = line(a, b, 3 if q else 4)
        out.append(Case('line %s..%s' % (a, b), s, f, 'any word of up to %d characters' % (3 if q else 4), ('accepted', 'out of range', 'no number')))
    for a, b, w, n in ((0, 1, 1, 8),) if q else ((0, 1, 1, 8), (-0.25, 1e6, 7, 7), (-1e12, 1e12, 12, 3)):
        s, f = long(a, b, w, n)
        out.append(Case('digits %s..%s' % (a, b), s, f, 'up to %d digits, a point, %d digits, perhaps an exponent' % (w, n), ('accepted', 'out of range')))
    return out
