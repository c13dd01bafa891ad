"""Reference meaning of grammars: text of an abstract grammar and the ways it describes a line.
Grammar: ('k', word) or ('k', word, 'bare') without the quotes | ('seq', [g..]) | ('alt', [g..]) | ('opt', g) | ('rep', g, m, n) | ('set', [g..]) | ('ref', name, g)
"""


def text(g, act=None):
    t = g[0]
    if t == 'k':
        return '"' + g[1] + '"' if len(g) == 2 else g[1]
    if t == 'seq':
        return '( ' + ' '.join([text(c) for c in g[1]]) + ' )'
    if t == 'alt':
        return '( ' + ' | '.join([text(c) for c in g[1]]) + ' )'
    if t == 'opt':
        return '{ ' + text(g[1]) + ' }'
    if t == 'rep':
        return text(g[1]) + (' * %d' % g[2] if g[2] == g[3] else ' * (%d:%d)' % (g[2], g[3]))
    if t == 'set':
        return '( ' + ' , '.join([text(c) for c in g[1]]) + ' )'
    if t == 'ref':
        return g[1]
    raise ValueError(t)


def defs(g):
    """Named rules used by g, innermost first."""
    t = g[0]
    if t == 'ref':
        return defs(g[2]) + '%s : %s ;\n' % (g[1], text(g[2]))
    out = ''
    if t in ('seq', 'alt', 'set'):
        for c in g[1]:
            out = out + defs(c)
    elif t in ('opt', 'rep'):
        out = defs(g[1])
    return out


def width(g):
    """(fewest, most) words g can describe."""
    t = g[0]
    if t in 'kw':
        return 1, 1
    if t == 'ref':
        return width(g[2])
    if t == 'opt':
        return 0, width(g[1])[1]
    if t == 'rep':
        a, b = width(g[1])
        return a * g[2], b * g[3]
    ws = [width(c) for c in g[1]]
    if t == 'alt':
        return min(a for a, b in ws), max(b for a, b in ws)
    return sum(a for a, b in ws), sum(b for a, b in ws)


def nullable(g):
    return ways(g, [], 0, 0) > 0


def ways(g, words, i, j):
    """In how many ways g describes words[i:j] (2 stands for two or more)."""
    t = g[0]
    lo, hi = width(g)
    if j - i < lo or j - i > hi:
        return 0
    if t == 'k':
        return 1 if words[i] == g[1] else 0
    if t == 'w':
        return 1 if words[i] is None else 0
    if t == 'ref':
        return ways(g[2], words, i, j)
    if t == 'opt':
        n = 1 if i == j else 0
        return min(2, n + ways(g[1], words, i, j))
    if t == 'alt':
        n = 0
        for c in g[1]:
            n += ways(c, words, i, j)
            if n > 1:
                return 2
        return n
    if t == 'seq':
        return seqways(g[1], words, i, j)
    if t == 'rep':
        n = 0
        for k in range(g[2], g[3] + 1):
            n += seqways([g[1]] * k, words, i, j)
            if n > 1:
                return 2
        return n
    if t == 'set':
        return setways(g[1], words, i, j)
    raise ValueError(t)


def seqways(cs, words, i, j):
    if not cs:
        return 1 if i == j else 0
    n = 0
    for m in range(i, j + 1):
        a = ways(cs[0], words, i, m)
        if a:
            n += a * seqways(cs[1:], words, m, j)
            if n > 1:
                return 2
    return n


def setways(cs, words, i, j):
    """Elements in any order, each once; an element that describes the empty line may be missing."""
    if i == j:
        n = 1
        for c in cs:
            n *= ways(c, words, i, i)
        return min(2, n)
    n = 0
    for x in range(len(cs)):
        for m in range(i + 1, j + 1):
            a = ways(cs[x], words, i, m)
            if a:
                n += a * setways(cs[:x] + cs[x + 1:], words, m, j)
                if n > 1:
                    return 2
    return n


EOI = '<complete>'


def follow(g, words, m):
    """What can come after the words: keywords, and EOI when they are a whole line.
    m(word, keyword) says whether a typed word can stand for a keyword."""
    out = []

    def top(i):
        if i == len(words):
            _add(out, EOI)
    _walk(g, words, 0, top, out, m)
    return out


def _add(out, x):
    for y in out:
        if x == y:
            return
    out.append(x)


def _walk(g, words, i, k, out, m):
    t = g[0]
    if t == 'k':
        if i == len(words):
            _add(out, g[1])
        elif m(words[i], g[1]):
            k(i + 1)
    elif t == 'ref':
        _walk(g[2], words, i, k, out, m)
    elif t == 'opt':
        k(i)
        _walk(g[1], words, i, k, out, m)
    elif t == 'alt':
        for c in g[1]:
            _walk(c, words, i, k, out, m)
    elif t == 'seq':
        _chain(g[1], words, i, k, out, m)
    elif t == 'rep':
        for n in range(g[2], g[3] + 1):
            _chain([g[1]] * n, words, i, k, out, m)
    elif t == 'set':
        _any(g[1], words, i, k, out, m)
    else:
        raise ValueError(t)


def _chain(cs, words, i, k, out, m):
    if not cs:
        k(i)
    else:
        _walk(cs[0], words, i, lambda j: _chain(cs[1:], words, j, k, out, m), out, m)


def _any(cs, words, i, k, out, m):
    if all(nullable(c) for c in cs):
        k(i)
    for x in range(len(cs)):
        rest = cs[:x] + cs[x + 1:]
        # an element that describes nothing here is one that is left out
        _walk(cs[x], words, i, lambda j, rest=rest, i=i: _any(rest, words, j, k, out, m) if j > i else None, out, m)
