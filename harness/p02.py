"""P02: escape round trip."""
from harness.common import Case, ANY

ASSUMPTIONS = ['texts enclosed in double quotes are taken as already quoted and are outside the property']


class Cache:
    """The caching part of a command line object."""

    def __init__(self):
        self.str_cache = {}

    def cache_string(self, k, v):
        self.str_cache[k] = v


def setup():
    from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer
    return NessaidCliTokenizer()


def text(S, name, n):
    t = S.str(name, 1, n, ANY)
    S.assume(len(t) == 1 or not (t.startswith('"') and t.endswith('"')))
    return t


def trip(S, tk, t, cli):
    from nessaid_cli.utils import convert_to_python_string, convert_to_cli_string
    form = convert_to_cli_string(t)
    S.observe('form', str(form))
    words = tk.parse('a ' + form + ' b')
    S.check(len(words) == 3, 'the typed form is not exactly one word')
    S.check(words[1] == form, 'the word differs from the typed form')
    back = convert_to_python_string(words[1], cli=cli)
    S.check(back == t, 'reading back gives another text')
    direct = convert_to_python_string(form, cli=cli)
    S.check(direct == t, 'converting back without typing gives another text')


def body(n, cached):
    def f(S, tk):
        trip(S, tk, text(S, 't', n), Cache() if cached else None)
    return f


def body2(n):
    def f(S, tk):
        c = Cache()
        trip(S, tk, text(S, 't', n), c)
        trip(S, tk, text(S, 'u', n), c)
    return f


def cases(tier):
    n, m = (3, 1) if tier == 'quick' else (4, 2)
    return [Case('plain', setup, body(n, False), 'text of length 1..%d' % n),
            Case('cached', setup, body(n, True), 'text of length 1..%d, with a cache' % n),
            Case('two', setup, body2(m), 'two texts of length 1..%d sharing a cache' % m)]
