"""P03: a typed string reaches the handler as meant."""
from harness.common import Case, make_cli, run_line
from symx.api import ISet, ANYCHAR

GRAMMAR = r'''
token S StringToken();
root:
    "say" S << call one($2); >>
    | "var" << $x = "none"; >> S << $x = $2; >> "end" << call one($x); >>
    | "pair" S S << call two($2, $3); >>
    | "list" ( S S ) << call one($2); >>
    | "again" S << $x = $2; $y = list($x, $2); $z = $x; call two($z, $y); >>
    ;
first:
    S "tail" << call one($1); >>
    ;
'''
PLAIN = ISet.of(map(ord, ' \t\n"\\')).compl().inter(ANYCHAR)
INQ = ISet.of(map(ord, '\n\r\t\0"\\')).compl().inter(ANYCHAR)
ESC = {'0': '\0', 'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'v': '\v', 'a': '\a', '"': '"', '\\': '\\'}


def setup(root='root'):
    from nessaid_cli.tokens import StringToken
    return make_cli(GRAMMAR, root, handlers=['one', 'two'], token_classes=[StringToken])


def word(S, name, n):
    """(typed form, meant text) of an arbitrary word of up to n units."""
    quoted = S.bool(name + '.quoted')
    typed, meant = '', ''
    k = S.choice(name + '.len', n + 1 if quoted else n) + (0 if quoted else 1)
    for i in range(k):
        u = name + str(i)
        if not quoted:
            c = S.char(u, PLAIN)
            typed, meant = typed + c, meant + c
        elif S.bool(u + '.esc'):
            e = S.pick(u + '.kind', '0nrtbva"\\')
            typed, meant = typed + '\\' + e, meant + ESC[e]
        else:
            c = S.char(u, INQ)
            typed, meant = typed + c, meant + c
    return ('"' + typed + '"' if quoted else typed), meant


def body(n, fmt, m=1):
    def f(S, cli):
        ws = [word(S, 'w%d' % i, n) for i in range(m)]
        line = fmt % tuple(w[0] for w in ws)
        rc, calls = run_line(cli, line)
        S.observe('rc', rc)
        S.observe('calls', calls)
        S.check(rc == 0, 'a string word is not accepted')
        S.check(len(calls) == 1, 'handler not called once')
        S.check(len(calls[0]) == m + 1, 'number of arguments')
        for i in range(m):
            S.check(type(calls[0][i + 1]) is str or isinstance(calls[0][i + 1], str), 'argument is not text')
            S.check(calls[0][i + 1] == ws[i][1], 'the handler received another text')
    return f


def listed(n):
    """The words of a block arrive as a list of texts."""
    def f(S, cli):
        ws = [word(S, 'w%d' % i, n) for i in range(2)]
        rc, calls = run_line(cli, 'list %s %s' % (ws[0][0], ws[1][0]))
        S.observe('calls', calls)
        S.check(rc == 0 and len(calls) == 1 and len(calls[0]) == 2, 'the handler is called once with a list')
        got = calls[0][1]
        S.check(type(got) is list and len(got) == 2, 'a list of two texts')
        for i in range(2):
            S.check(got[i] == ws[i][1], 'the handler received another text')
    return f


def copied(n):
    """Copying a value and collecting it does not decode it again."""
    def f(S, cli):
        w, meant = word(S, 'w', n)
        rc, calls = run_line(cli, 'again ' + w)
        S.observe('calls', calls)
        S.check(rc == 0 and len(calls) == 1 and len(calls[0]) == 3, 'the handler is called once')
        S.check(calls[0][1] == meant, 'the handler received another text')
        S.check(len(calls[0][2]) == 2 and calls[0][2][0] == meant and calls[0][2][1] == meant, 'the list holds another text')
    return f


def cases(tier):
    n, m = (3, 1) if tier == 'quick' else (4, 2)
    return [Case('one', setup, body(n, 'say %s'), 'a word of up to %d characters or escapes' % n),
            Case('variable', setup, body(m + 1, 'var %s end'), 'through a grammar variable, up to %d units' % (m + 1)),
            Case('pair', setup, body(m, 'pair %s %s', 2), 'two words of up to %d units' % m),
            Case('first', lambda: setup('first'), body(m + 1, '%s tail'), 'as first word, up to %d units' % (m + 1)),
            Case('list', setup, listed(m), 'two words of up to %d units collected by a block' % m),
            Case('copied', setup, copied(m + 1), 'assigned, collected and passed on, up to %d units' % (m + 1))]
