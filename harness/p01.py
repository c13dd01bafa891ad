"""P01: splitting a command line into words."""
from harness.common import Case, alphabet

ASSUMPTIONS = [
    'for a quote followed by a character that may not occur in quotes (bad escape, raw tab, newline, carriage '
    'return, NUL) only the cover condition is asserted: words are consecutive slices of the line separated by blanks',
]
ESC = '0nrtbva"\\'


def ref(line):
    """(words, invalid, malformed) as documented; words are (text, position, quoted, incomplete)."""
    toks, i, n = [], 0, len(line)
    while i < n:
        c = line[i]
        if c == ' ' or c == '\t':
            i += 1
        elif c == '"':
            j = i + 1
            closed = False
            while j < n:
                d = line[j]
                if d == '"':
                    j += 1
                    closed = True
                    break
                if d == '\\':
                    if j + 1 == n:
                        j += 1
                        continue
                    if line[j + 1] not in ESC:
                        return toks, False, True
                    j += 2
                    continue
                if d in '\n\r\t\0':
                    return toks, False, True
                j += 1
            toks.append((line[i:j], i, True, not closed))
            i = j
        elif c == '\n' or c == '\\':
            return toks, True, False
        else:
            j = i
            while j < n and line[j] not in '"\n\\ \t':
                j += 1
            toks.append((line[i:j], i, False, False))
            i = j
    return toks, False, False


def setup():
    from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer
    return NessaidCliTokenizer()


def check(S, tk, line):
    from nessaid_cli.tokenizer.tokenizer import TokenizerException
    try:
        toks = tk.parse(line)
        err = False
    except TokenizerException:
        toks, err = [], True
    S.observe('toks', [str(t) for t in toks])
    S.observe('err', err)
    want, invalid, malformed = ref(line)
    if not malformed:
        S.check(err == invalid, 'line %s as invalid' % ('reported' if err else 'not reported'))
        if not err:
            S.check(len(toks) == len(want), 'wrong number of words')
            for t, (text, pos, quoted, inc) in zip(toks, want):
                S.check(t == text, 'wrong text of a word')
                S.check(t.lexpos == pos and t.lexlen == len(text), 'wrong position of a word')
                S.check(bool(t.quoted) == quoted, 'wrong quoted flag')
                S.check(bool(t.quote_incomplete) == inc, 'wrong incomplete flag')
    elif not err:
        i = 0
        for t in toks:
            while line[i:i + 1] in (' ', '\t') and not line[i:].startswith(str(t)):
                i += 1
            S.check(line[i:].startswith(str(t)) and len(t) > 0, 'a word is not the next slice of the line')
            i += len(t)
        S.check(all(c in ' \t' for c in line[i:]), 'text dropped at the end of the line')


def body(n):
    def f(S, tk):
        check(S, tk, S.str('line', 0, n))
    return f


def body2(n):
    """The same tokenizer object used twice: the second line is split afresh."""
    def f(S, tk):
        check(S, tk, S.str('first', 1, n))
        check(S, tk, S.str('second', 1, n))
    return f


def body_long(n):
    def f(S, tk):
        # long words around symbolic characters
        line = 'word' + S.char('a') + '"quoted text' + S.char('b') + S.char('c') + 'tail"' + S.char('d') + 'end'
        check(S, tk, line)
    return f


def cases(tier):
    n, m = (5, 2) if tier == 'quick' else (7, 3)
    return [Case('line', setup, body(n), 'one line, length <= %d, any characters' % n),
            Case('two-lines', setup, body2(m), 'two lines, length 1..%d each' % m),
            Case('embedded', setup, body_long(1), 'fixed line of 25 characters with 4 arbitrary characters in it')]
