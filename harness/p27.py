"""P27: what TAB lists: every possible completion with its help text, one per line."""
from harness.common import Case, make_cli, tab
from symx.api import alphabet

LOW = alphabet('ab')
HELP = alphabet('abz :')
TOKENS = 'token W StringToken(), V StringToken(), N RangedIntToken(1, 3), C AlternativeStringsToken("ab", "b a");\n'
FREE = 'Any string'


def classes():
    from nessaid_cli.tokens import StringToken, RangedIntToken, AlternativeStringsToken
    return [StringToken, RangedIntToken, AlternativeStringsToken]


class Alt:
    """One alternative: its first term, what it offers for a typed beginning, with which help."""

    def __init__(self, S, i, kinds, hlen):
        self.kind = S.pick('term%d' % i, kinds)
        self.rest = S.bool('rest%d' % i)
        self.help = S.str('help%d' % i, 1, hlen, HELP) if hlen and S.bool('help of %d' % i) else None
        if self.kind == 'kw':
            self.kw = S.str('keyword%d' % i, 1, 2, LOW)
            self.text = '"' + self.kw + '"'
        else:
            self.text = self.kind
        if self.help is not None:
            self.text = self.text + ': "' + self.help + '"'
        if self.rest:
            self.text = self.text + ' "rest": "the rest"'

    def offers(self, typed):
        """[(completion or None, help or None for the default one)]; [] when the word does not begin this alternative."""
        if self.kind == 'kw':
            return [(self.kw, self.help)] if self.kw.startswith(typed) else []
        if self.kind in ('W', 'V'):
            return [(None, self.help or FREE)]
        if self.kind == 'N':
            return [(c, self.help or 'An integer between 1 and 3') for c in '123' if c.startswith(typed)]
        return [(c, self.help) for c in ('ab', '"b a"') if c.startswith(typed)]


def make(S, alts):
    return make_cli(TOKENS + 'root: ' + ' | '.join(a.text for a in alts) + ' ;', token_classes=classes())


def listing(S, alts, typed, shown):
    want = []           # (completion or None, possible helps)
    for a in alts:
        for c, h in a.offers(typed):
            for w in want:
                if c is None and w[0] is None:
                    if w[1] == [h]:
                        break
                elif c is not None and w[0] is not None and w[0] == c:
                    w[1].append(h)
                    break
            else:
                want.append((c, [h]))
    if not want:
        S.check(len(shown) == 1 and shown[0].startswith('Failed'), lambda: 'typed %r: shown %r' % (typed, shown))
        S.reach('nothing fits')
        return
    S.check(len(shown) == len(want), lambda: 'typed %r: %r listed instead of %r' % (typed, shown, want))
    width = max(len(c or '') for c, h in want)
    left = list(want)
    for line in shown:
        start, text = line[:width], line[width:]
        S.check(text[:2] == ' :', lambda: 'typed %r: line %r' % (typed, line))
        text = text[2:].lstrip(' ')
        start = start.rstrip(' ')
        for k, (c, helps) in enumerate(left):
            if (c or '') == start and any(text == c or h is not None and h.lstrip(' ') == text for h in helps):
                del left[k]
                break
        else:
            S.check(False, lambda: 'typed %r: line %r among %r, not in %r' % (typed, line, shown, left))
    for x, y in zip(shown, shown[1:]):
        S.check(x <= y, lambda: 'not in order: %r' % shown)
    S.reach('listed')


def first(n, kinds, hlen, width):
    """The first word of any alternatives."""
    def f(S, env):
        alts = [Alt(S, i, kinds, hlen) for i in range(n)]
        cli = make(S, alts)
        typed = S.str('typed', 0, width, LOW)
        cli.readline.buffer = typed
        shown = tab(cli)
        # which help is shown for a completion that several terms offer is left open
        S.observe('shown', [l.split(' : ')[0].rstrip(' ') for l in shown])
        S.observe('inserted', cli.readline.inserted)
        if cli.readline.inserted:
            offers = [c for a in alts for c, h in a.offers(typed)]
            S.check(cli.readline.inserted == [' '] and shown == [], 'inserted text')
            S.check(offers != [] and all(c is not None and c == typed for c in offers), lambda: 'typed %r is not finished: %r' % (typed, offers))
            S.reach('finished')
            return
        listing(S, alts, typed, shown)
    return f


def ends(hlen):
    """Lists after a keyword: optional terms, the end of the line, terms that must follow."""
    def f(S, env):
        end = S.pick('then', ['may end', 'must go on', 'must end'])
        h1 = S.str('help1', 1, hlen, HELP)
        h2 = S.str('help2', 1, hlen, HELP)
        kw = S.str('keyword', 1, 2, LOW)
        other = S.pick('other', ['N: "%s"', 'W: "%s"', '"cc": "%s"']).split('%s')
        inner = '"' + kw + '": "' + h1 + '" | ' + other[0] + h2 + other[1]
        grammar = TOKENS + 'root: "go" ' + {'may end': '{ ' + inner + ' }', 'must go on': '( ' + inner + ' )', 'must end': ''}[end] + ' ;'
        cli = make_cli(grammar, token_classes=classes())
        cli.readline.buffer = 'go '
        shown = tab(cli)
        S.observe('shown', shown)
        S.check(cli.readline.inserted == [], 'inserted text')
        want = []
        if end != 'must end':
            want = [(kw, h1)] + ([(c, h2) for c in '123'] if other[0][0] == 'N' else [('', h2)] if other[0][0] == 'W' else [('cc', h2)])
        last = shown[-1]
        if end == 'must go on':
            S.check(all(not l.startswith('NEWLINE') for l in shown), lambda: 'shown %r' % shown)
        else:
            S.check(last.startswith('NEWLINE') and last.endswith('Complete command'), lambda: 'shown %r' % shown)
            shown = shown[:-1]
        S.check(len(shown) == len(want), lambda: 'shown %r, expected %r' % (shown, want))
        left = list(want)
        for line in shown:
            at = [k for k, (c, h) in enumerate(left) if line.startswith(c + ' ') and line.endswith(': ' + ' ' * 3 + h) and line[len(c):-len(h)].strip(' ') == ':']
            S.check(at != [], lambda: 'line %r among %r, expected %r' % (line, shown, left))
            del left[at[0]]
        S.reach(end)
    return f


def long(S, env):
    """Long completions: nothing is cut off."""
    n = 36 + S.choice('length', 9)
    word = 'k' * (n - 1) + S.char('last', LOW)
    h = S.str('help', 1, 2, HELP)
    cli = make_cli(TOKENS + 'root: "' + word + '": "' + h + '" | "a": "short" | W ;', token_classes=classes())
    cli.readline.buffer = ''
    shown = tab(cli)
    S.observe('shown', shown)
    S.check(len(shown) == 3, lambda: 'shown %r' % shown)
    for c, t in ((word, h), ('a', 'short'), ('', FREE)):
        S.check(len([l for l in shown if l.startswith(c + ' ') and l.endswith(t) and l[len(c):len(l) - len(t)].strip(' ') == ':']) >= 1,
                lambda: '%r not in %r' % (c, shown))
    S.reach('long')


TYPES = {
    # definition, completions at the start of the word and after each typed beginning, the help text of the type
    'S': ('StringToken()', {'': [''], '1': [''], 't': ['']}, 'Any string'),
    'R': ('RangedStringToken(2, 3)', {'': [''], '1': [''], 't': ['']}, 'Any string of length (2-3)'),
    'N': ('RangedIntToken(1, 300)', {'': [''], '1': ['']}, 'An integer between 1 and 300'),
    'M': ('RangedIntToken(11, 13)', {'': ['11', '12', '13'], '1': ['11', '12', '13']}, 'An integer between 11 and 13'),
    'D': ('RangedDecimalToken(1.5, 3)', {'': [''], '1': ['']}, 'A decimal number between 1.5 and 3.0'),
    'B': ('BooleanToken()', {'': ['False', 'True'], 't': ['true']}, 'True or False'),
    'P': ('PathToken()', {'': ['']}, 'A path. Start the input with quote (") and use / as separator'),
    'F': ('PathToken("file")', {'': ['']}, 'A file. Start the input with quote (") and use / as separator'),
}


def types(hlen):
    """The help of each type of token, given by the grammar or not."""
    def f(S, env):
        from nessaid_cli.tokens import StringToken, RangedStringToken, RangedIntToken, RangedDecimalToken, BooleanToken, PathToken
        t = S.pick('type', list(TYPES))
        definition, offers, own = TYPES[t]
        typed = S.pick('typed', list(offers))
        h = S.str('help', 1, hlen, HELP) if S.bool('help given') else None
        other = S.pick('other', ['"kk"', '"kk": "help of kk"', 'kk: "help of kk"'])
        text = t + (': "' + h + '"' if h is not None else '')
        where = S.pick('where', ['first', 'last', 'later', 'optional', 'rule', 'again'])
        rule = {'first': text + ' | ' + other, 'last': other + ' | ' + text, 'later': '"go" ( ' + text + ' | ' + other + ' )',
                'optional': '"go" { ' + text + ' } ' + other, 'rule': 'sub | ' + other,
                'again': '( ' + other + ' | ' + text + ' ) * 3'}[where]
        token = 'token ' + t + ' ' + definition + '; '
        rules = 'sub: ' + text + '; root: ' + rule + '; '
        cli = make_cli(rules + token if S.bool('token defined at the end') else token + rules,
                       token_classes=[StringToken, RangedStringToken, RangedIntToken, RangedDecimalToken, BooleanToken, PathToken])
        cli.readline.buffer = ('go ' if where in ('later', 'optional') else 'kk ' if where == 'again' else '') + typed
        shown = tab(cli)
        S.observe('shown', shown)
        S.check(cli.readline.inserted == [], 'inserted text')
        want = [(c, h if h is not None else own) for c in offers[typed]]
        if typed == '':
            want.append(('kk', 'help of kk' if 'help' in other else 'kk'))
        S.check(len(shown) == len(want), lambda: 'shown %r, expected %r' % (shown, want))
        left = list(want)
        for line in shown:
            at = [k for k, (c, h) in enumerate(left) if (line.startswith(c + ' ') and line.endswith(h) and line[len(c):len(line) - len(h)].strip(' ') == ':')]
            S.check(at != [], lambda: 'line %r among %r, expected %r' % (line, shown, left))
            del left[at[0]]
        S.reach('listed')
    return f


def cases(tier):
    q = tier == 'quick'
    none = lambda: None
    kinds = ['kw', 'W', 'N', 'C', 'V']
    return [
        Case('first word', none, first(2, kinds[:4], 1 if q else 2, 1 if q else 2), 'two alternatives of keywords, words, numbers and choices with any help', ('listed', 'nothing fits')),
        Case('keywords', none, first(2 if q else 3, ['kw', 'W'], 1, 2), 'keywords and words with help of a character, up to 2 characters typed', ('listed', 'nothing fits', 'finished')),
        Case('same help', none, first(2, ['kw', 'W', 'V'], 2, 0), 'help texts that may equal a keyword or each other', ('listed',)),
        Case('end', none, ends(1 if q else 2), 'terms that may, must or must not follow', ('may end', 'must go on', 'must end')),
        Case('types', none, types(1 if q else 2), 'every type of token with any help or its own, in five places', ('listed',)),
        Case('long', none, long, 'completions of 36 to 44 characters', ('long',)),
    ]
