"""P16: arguments given by a program reach the command one word per argument."""
from harness.common import Case, make_cmd, ANY
from symx.api import ISet, alphabet

WILD = alphabet('a "\\\n\t\r\0\b\v\a\x0cn')


class Commands:
    def do_take(self, first, second, third):
        r"""
        "take" T << $first = $2; >> { T << $second = $1; >> { T << $third = $1; >> } }
        """
        self.log.append(('take', first, second, third))

    def do_count(self, n, rest):
        r"""
        "count" N << $n = $2; >> { T << $rest = $1; >> }
        """
        self.log.append(('count', n, rest))


def setup():
    from nessaid_cli.tokens import StringToken, RangedIntToken
    return make_cmd(Commands, 'token T StringToken();\ntoken N RangedIntToken(0, 999);\n', token_classes=[StringToken, RangedIntToken],
                    disable_default_hooks=True, use_base_grammar=False)


def blank(a):
    return all(c == ' ' or c == '\t' for c in a)


def enclosed(a):
    return len(a) > 1 and a.startswith('"') and a.endswith('"')


def judge(S, cmd, args, verb='take', head=None):
    """args: the arguments after the verb; none is enclosed in quotes."""
    rc = cmd.exec_args(verb, *(args if head is None else [head] + args))
    S.observe('calls', cmd.log)
    words = [a for a in args if not blank(a)]
    if head is None:
        want = words
        ok = 1 <= len(words) <= 3
    else:
        want = [int(head)] + words
        ok = len(words) <= 1
    if not ok:
        S.check(rc != 0 and cmd.log == [], lambda: '%r: %r %r' % (args, rc, cmd.log))
        S.reach('rejected')
        return
    S.check(rc == 0 and len(cmd.log) == 1 and cmd.log[0][0] == verb, lambda: '%r: %r %r' % (args, rc, cmd.log))
    got = list(cmd.log[0][1:])
    want = want + [''] * (len(got) - len(want))
    for g, w in zip(got, want):
        S.check(g == w, lambda: '%r: %r' % (args, cmd.log))
    S.reach('run')


def free(lens, alpha):
    def f(S, cmd):
        args = [S.str('arg%d' % i, lo, hi, alpha) for i, (lo, hi) in enumerate(lens)]
        for a in args:
            S.assume(not enclosed(a))
        judge(S, cmd, args)
    return f


def number(alpha):
    def f(S, cmd):
        head = S.pick('number', ['7', '42', '007'])
        arg = S.str('arg', 0, 2, alpha)
        S.assume(not enclosed(arg))
        judge(S, cmd, [arg], 'count', head)
    return f


PLAIN = ISet(((32, 33), (35, 91), (93, 126)))


def quoted(n):
    """An argument enclosed in double quotes is taken as typed."""
    def f(S, cmd):
        inner = S.str('inner', 0, n, PLAIN)
        arg = S.str('arg', 0, 2, WILD)
        S.assume(not enclosed(arg))
        first = S.bool('first')
        q = '"' + inner + '"'
        args = [q, arg] if first else [arg, q]
        rc = cmd.exec_args('take', *args)
        S.observe('calls', cmd.log)
        want = [inner if a is q else a for a in args if a is q or not blank(a)]
        S.check(rc == 0 and len(cmd.log) == 1, lambda: '%r: %r %r' % (args, rc, cmd.log))
        want += [''] * (3 - len(want))
        for g, w in zip(cmd.log[0][1:], want):
            S.check(g == w, lambda: '%r: %r' % (args, cmd.log))
    return f


def cases(tier):
    q = tier == 'quick'
    return [
        Case('one argument', setup, free([(0, 3 if q else 4)], ANY), 'one argument of up to %d characters' % (3 if q else 4), ('run', 'rejected')),
        Case('two arguments', setup, free([(0, 2), (0, 1 if q else 2)], ANY), 'two arguments of up to %d characters' % (1 if q else 2), ('run', 'rejected')),
        Case('four arguments', setup, free([(0, 1)] * 4, alphabet('a "\\\n') if q else WILD), 'four arguments of at most one special character', ('run', 'rejected')),
        Case('number', setup, number(WILD), 'a number and one argument', ('run',)),
        Case('quoted', setup, quoted(2 if q else 4), 'a quoted argument and another one'),
    ]
