"""P10: RangedIntToken accepts exactly the integers in its range."""
from harness.common import Case, make_cli, run_line
from symx.api import ISet, drive

# ASCII, superscripts (numeric, not decimal), Arabic-Indic digits (decimal), a numeric ideograph
NUM = ISet(((0, 127), (0xB2, 0xB3), (0x660, 0x669), (0x4E00, 0x4E00)))
DIG = ISet(((45, 45), (48, 57)))


def numeral(text):
    """Is the text a decimal numeral (optional minus sign, digits)?"""
    t = text[1:] if text.startswith('-') else text
    return len(t) > 0 and all(c.isdecimal() for c in t)


def canonical(text):
    """Can the text be extended to the decimal form of some integer?"""
    t = text[1:] if text.startswith('-') else text
    return t == '' or t[0] != '0' or text == '0'


def overlap(a, b, lo, hi):
    lo = a if a > lo else lo
    hi = b if b < hi else hi
    return hi - lo + 1 if hi >= lo else 0


def extensions(text, a, b, width):
    """How many integers of a..b have a decimal form beginning with text."""
    if text == '':
        return b - a + 1
    if text.startswith('-'):
        if a >= 0:
            return 0
        a, b = (-b if b < 0 else 1), -a
        text = text[1:]
        if text == '':
            return b - a + 1
    elif a < 0:
        if b < 0:
            return 0
        a = 0
    v = int(text)
    if v == 0:
        return 1 if a == 0 else 0
    n = 0
    p = 1
    for k in range(width - len(text) + 1):
        n += overlap(a, b, v * p, v * p + p - 1)
        p *= 10
    return n


def make(a, b, **kw):
    from nessaid_cli.tokens import RangedIntToken
    return RangedIntToken('N', a, b, **kw)


def value(lo, hi, width, alpha):
    def f(S, env):
        from nessaid_cli.tokens import NullTokenValue, MATCH_FAILURE
        a = S.int('start', lo, hi)
        b = S.int('end', lo, hi)
        t = make(a, b)
        text = S.str('text', 0, width, alpha)
        v = drive(t.get_value(text))
        S.observe('value', None if v is NullTokenValue else v)
        lower, upper = (a, b) if a <= b else (b, a)
        if numeral(text):
            n = int(text)
            if n >= lower and n <= upper:
                S.check(v is not NullTokenValue and type(v) is not bool and v == n,
                        lambda: 'value of %r in %r..%r is %r' % (text, a, b, v))
                S.check(drive(t.match(text)) != MATCH_FAILURE, lambda: '%r of %r..%r does not match' % (text, a, b))
                S.reach('accepted')
                return
        S.check(v is NullTokenValue, lambda: 'value of %r for %r..%r is %r' % (text, a, b, v))
        S.reach('rejected')
    return f


RANGES = [(5, 120), (20, -20), (-9, -3), (0, 0), (1, 10), (1, 11), (95, 105), (-1200, 999), (-5, 4), (1, 100000), (17, 17)]


BASES = [995, -1005, 9990, -10005, 99995]


def comps(lo, hi, width, wlen, limits, bases=None):
    def f(S, env):
        from nessaid_cli.tokens import MATCH_FAILURE
        if bases:
            # numbers of several lengths; the typed text is the beginning of one near the range
            base = S.pick('near', bases)
            a = base + S.int('start', 0, 10)
            b = base + S.int('end', 0, 22)
            lim = S.pick('limit', limits)
            t = make(a, b, max_suggestions=lim)
        elif limits:
            a = S.int('start', lo, hi)
            b = S.int('end', lo, hi)
            lim = S.pick('limit', limits)
            t = make(a, b, max_suggestions=lim)
        else:
            a, b = S.pick('range', RANGES)
            lim = 10
            t = make(a, b)
        if bases:
            near = str(base + S.int('typed', -1, 23))
            text = near[:1 + S.choice('length', 6)]
        else:
            text = S.str('text', 0, wlen, DIG)
        S.assume(text in ('', '-') or (numeral(text) and canonical(text)))
        S.assume(text != '-0')
        n, got = drive(t.complete(text))
        m = drive(t.match(text))
        lower, upper = (a, b) if a <= b else (b, a)
        want = extensions(text, lower, upper, width)
        S.observe('completions', list(got))
        S.observe('match', m)
        what = lambda: '%r of %r..%r (limit %d): %r, %r' % (text, a, b, lim, n, got)
        S.check((m == MATCH_FAILURE) == (want == 0), lambda: 'match is %s: %s' % (m, what()))
        if want == 0:
            S.check(len(got) == 0 and n == 0, what)
            S.reach('none')
        elif want > lim:
            S.check(len(got) == 0 and n != 0, what)
            S.reach('many')
        else:
            S.check(len(got) == want, what)
            last = None
            for c in sorted(int(c) for c in got):
                S.check(c >= lower and c <= upper and (last is None or c != last), what)
                last = c
            for c in got:
                S.check(c.startswith(text) and numeral(c) and canonical(c), what)
            S.reach('list')
    return f


GRAMMAR = '''
token N RangedIntToken(%d, %d);
root: "n" ( N << call number($1); >> | "end" << call end(); >> );
'''


def line(a, b, wlen):
    def setup():
        from nessaid_cli.tokens import RangedIntToken
        return make_cli(GRAMMAR % (a, b), handlers=['number', 'end'], token_classes=[RangedIntToken])

    def f(S, cli):
        text = S.str('text', 1, wlen, ISet(((33, 33), (35, 91), (93, 126), (0xB2, 0xB3))))
        rc, calls = run_line(cli, 'n ' + text)
        S.observe('calls', calls)
        if numeral(text) and min(a, b) <= int(text) <= max(a, b):
            S.check(rc == 0 and len(calls) == 1 and calls[0][0] == 'number' and calls[0][1] == int(text),
                    lambda: '%r in %d..%d: status %r, %r' % (text, a, b, rc, calls))
            S.reach('accepted')
        elif text == 'e' or text == 'en' or text == 'end':
            S.check(rc == 0 and calls == [('end',)], 'keyword')
        else:
            S.check(rc != 0 and calls == [], lambda: '%r in %d..%d: status %r, %r' % (text, a, b, rc, calls))
            S.reach('rejected')
    return setup, f


def cases(tier):
    q = tier == 'quick'
    out = []
    out.append(Case('value', lambda: None, value(-150, 150, 3 if q else 4, NUM),
                    'any range within -150..150, any text of up to %d characters (ASCII, superscript and Arabic-Indic digits)' % (3 if q else 4), ('accepted', 'rejected')))
    out.append(Case('completions', lambda: None, comps(-30 if q else -130, 120 if q else 230, 3, 2 if q else 3, (4,) if q else (1, 3, 10, 12)),
                    'any range within %s, typed numerals of up to %d characters' % (('-30..120', 2) if q else ('-130..230', 3)), ('none', 'many', 'list')))
    out.append(Case('completions, default limit', lambda: None, comps(0, 0, 6, 4 if q else 6, None),
                    'ranges %r, typed numerals of up to %d characters' % (RANGES, 4 if q else 6), ('none', 'many', 'list')))
    out.append(Case('completions, long numbers', lambda: None, comps(0, 0, 7, 6, (10,) if q else (4, 10), BASES[:2] if q else BASES),
                    'any range within 0..22 of %r, the beginning of any number there' % (BASES[:2] if q else BASES), ('none', 'many', 'list')))
    for a, b in ((5, 120), (20, -20), (-9, -3), (0, 0)) if q else ((5, 120), (20, -20), (-9, -3), (0, 0), (7, 7), (95, 105), (1, 12), (-1200, 999), (-1, 0)):
        s, f = line(a, b, 3 if q else 4)
        out.append(Case('line %d..%d' % (a, b), s, f, 'range %d..%d, any word of up to %d characters' % (a, b, 3 if q else 4), ('accepted', 'rejected')))
    return out
