"""P14: RangedStringToken accepts exactly the strings of allowed length."""
from harness.common import Case, make_cli, run_line
from symx.api import ISet, ANY, drive

PLAIN = ISet(((0, 33), (35, 91), (93, 0xD7FF), (0xE000, 0x10FFFF)))          # no quote, no backslash
WORD = ISet(((33, 33), (35, 91), (93, 126), (0xA1, 0xFF)))
INSIDE = ISet(((32, 33), (35, 91), (93, 126), (0xA1, 0xFF)))


def direct(limit, width):
    def f(S, env):
        from nessaid_cli.tokens import RangedStringToken, NullTokenValue, MATCH_FAILURE
        a = S.int('from', -2, limit)
        b = S.int('to', -2, limit)
        lower, upper = (a, b) if a <= b else (b, a)
        try:
            t = RangedStringToken('W', a, b)
        except ValueError:
            S.check(lower < 0, lambda: 'limits %r, %r refused' % (a, b))
            S.reach('refused')
            return
        S.check(lower >= 0, lambda: 'limits %r, %r not refused' % (a, b))
        text = S.str('text', 0, width, PLAIN)
        shape = S.pick('quotes', ['%s', '"%s"', '"%s'])
        S.assume(text != '' or shape != '%s')
        v = drive(t.get_value(shape % text))
        m = drive(t.match(shape % text))
        v = None if v is NullTokenValue else v
        S.observe('value', v)
        S.observe('match', m)
        if lower <= len(text) and len(text) <= upper:
            S.check(v is not None and v == text, lambda: '%r (%r..%r): %r' % (text, a, b, v))
            S.check(m != MATCH_FAILURE, lambda: '%r (%r..%r) does not match' % (text, a, b))
            S.reach('accepted')
        else:
            S.check(v is None, lambda: '%r (%r..%r): %r' % (text, a, b, v))
            S.reach('rejected')
    return f


GRAMMAR = '''
token W RangedStringToken(%d, %d);
root: "w" W << call text($2); >> | "w" W "x" << call more($2); >> ;
'''


def line(a, b, width):
    def setup():
        from nessaid_cli.tokens import RangedStringToken
        return make_cli(GRAMMAR % (a, b), handlers=['text', 'more'], token_classes=[RangedStringToken])

    def f(S, cli):
        shape = S.pick('quotes', ['%s', '"%s"', '"%s" x', '%s x'])
        text = S.str('text', 0 if '"' in shape else 1, width, INSIDE if '"' in shape else WORD)
        S.assume(text != '\n')
        rc, calls = run_line(cli, 'w ' + shape % text)
        S.observe('calls', calls)
        name = 'more' if shape.endswith('x') else 'text'
        if min(a, b) <= len(text) <= max(a, b):
            S.check(rc == 0 and calls == [(name, text)], lambda: '%r: %r %r' % (text, rc, calls))
            S.reach('accepted')
        else:
            S.check(rc != 0 and calls == [], lambda: '%r: %r %r' % (text, rc, calls))
            S.reach('rejected')
    return setup, f


def cases(tier):
    q = tier == 'quick'
    n = 8 if q else 14
    out = [Case('token', lambda: None, direct(n + 1, n), 'any limits from -2 to %d, any text of up to %d characters without quotes and backslashes, plain or quoted' % (n + 1, n),
                ('accepted', 'rejected', 'refused'))]
    for a, b in ((2, 3), (4, 0), (1, 1)) if q else ((2, 3), (4, 0), (1, 1), (0, 0), (3, 6), (5, 5)):
        s, f = line(a, b, 6 if q else 9)
        out.append(Case('line %d..%d' % (a, b), s, f, 'any word of up to %d characters, plain or quoted' % (6 if q else 9), ('rejected',) + (('accepted',) if b else ())))
    return out
