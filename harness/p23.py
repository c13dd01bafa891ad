"""P23: the TAB key only extends what was typed."""
from harness.common import Case, make_cli, run_line, tab, ScriptEnd
from harness import gram
from harness.p05 import build, LETTER
from harness.p09 import TREES, expect
from harness.p15 import Mounted, Tree, Node, ModelPath
from symx.api import ISet, ANY, alphabet, drive

CAND = 'candidates'


def press(S, cli):
    """One TAB: (line before, text inserted)."""
    before = cli.readline.buffer
    n = len(cli.readline.inserted)
    shown = tab(cli)
    after = cli.readline.buffer
    S.check(after.startswith(before), lambda: 'line %r became %r' % (before, after))
    ins = cli.readline.inserted[n:]
    for t in ins:
        S.check('\x7f' not in t and '\x08' not in t, lambda: 'line %r: inserted %r' % (before, t))
    S.check(not cli.log, 'a handler ran')
    new = after[len(before):]
    S.check(new != '' or shown != [], lambda: 'line %r: nothing inserted and nothing shown' % before)
    return before, new


def split(line):
    """(words, last one finished by a blank) of a line without quotes."""
    words = [w for w in line.split(' ') if w]
    return words, line[-1:] == ' ' or not words


def agreed(cands):
    """What all of them begin with."""
    p = cands[0]
    for c in cands[1:]:
        n = 0
        while n < len(p) and n < len(c) and p[n] == c[n]:
            n += 1
        p = p[:n]
    return p


def justified(S, before, new, cands, eoi, last):
    """The inserted text is what every candidate for the last word (or, after a blank, the next word) has; a blank
    follows only the one complete word."""
    if new == '':
        return
    S.check(len(cands) > 0 and not (eoi and last == ''), lambda: 'line %r: inserted %r though a whole line or nothing can follow' % (before, new))
    body = new[:-1] if new[-1] == ' ' else new
    for c in cands:
        S.check(c.startswith(last + body), lambda: 'line %r: inserted %r, candidates %r' % (before, new, cands))
    if body != new:
        S.check(all(c == last + body for c in cands), lambda: 'line %r: a blank inserted, candidates %r' % (before, cands))
    S.reach('inserted')


def history(n, width, presses, typed):
    """TAB several times, with letters typed in between."""
    def f(S, env):
        g, cli = env
        k = S.choice('words', n + 1)
        words = [S.str('word%d' % i, 1, width if i == k - 1 else 1, LETTER) for i in range(k)]
        blank = S.bool('blank') if k else False
        cli.readline.buffer = ' '.join(words) + (' ' if blank else '')
        before = None
        for i in range(presses):
            if i and typed and S.bool('type%d' % i):
                cli.readline.buffer += S.char('letter%d' % i, LETTER) if S.bool('isletter%d' % i) else ' '
                before = None
            again = before is not None and before == cli.readline.buffer
            before, new = press(S, cli)
            words, complete = split(before)
            cands, eoi = expect(g, words, complete)
            last = '' if complete else words[-1]
            justified(S, before, new, cands, eoi, last)
            # the second TAB on a line inserts all the candidates agree on
            if again and cands and not (eoi and last == ''):
                a = agreed(cands)
                if last != '' and a != last:
                    S.check(new == a[len(last):] or new == a[len(last):] + ' ', lambda: 'line %r: %r inserted, candidates %r' % (before, new, cands))
                    S.reach('second')
    return f


def tree(name):
    def f():
        g = TREES[name]()
        return g, build(g)
    return f


def keywords(lens, k):
    """Arbitrary keywords."""
    def f(S, env):
        ks = [S.str('key%d' % i, 1, n, LETTER) for i, n in enumerate(lens)]
        g = gram_of(ks)
        cli = build(g)
        lead = S.choice('lead', 2)
        line = (ks[0] + ' ' if lead else '') + S.str('word', 0, k, LETTER)
        if line and line[-1] != ' ' and S.bool('blank'):
            line += ' '
        cli.readline.buffer = line
        before = None
        for i in range(2):
            again = before == cli.readline.buffer
            before, new = press(S, cli)
            words, complete = split(before)
            cands, eoi = expect(g, words, complete)
            last = '' if complete else words[-1]
            justified(S, before, new, cands, eoi, last)
            if again and cands and last != '' and agreed(cands) != last:
                a = agreed(cands)
                S.check(new in [a[len(last):], a[len(last):] + ' '], lambda: 'line %r: %r inserted, candidates %r' % (before, new, cands))
                S.reach('second')
    return f


def gram_of(ks):
    return ('alt', [('seq', [('k', ks[0]), ('alt', [('k', ks[1]), ('k', ks[2])])]), ('k', ks[3])])


# ---- any line: only the matcher's own offers are known
TYPED = r'''
token W StringToken(), N RangedIntToken(5, 120), B BooleanToken(), A AlternativeStringsToken("on", "only", "one more", "q\"t"), D RangedDecimalToken(0, 1.5);
root: "w" W ( "up" | "upper" ) | "n" N { "x" } | "b" { B : "yes or no" } "end" | "a" A "z" : "last one" | "d" D | "abc" * (1:2) "bb" | "big word" "x";
'''


def setup_typed():
    from nessaid_cli.tokens import StringToken, RangedIntToken, BooleanToken, AlternativeStringsToken, RangedDecimalToken
    return make_cli(TYPED, token_classes=[StringToken, RangedIntToken, BooleanToken, AlternativeStringsToken, RangedDecimalToken])


def parse(line):
    from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer, TokenizerException
    try:
        return [str(t) for t in NessaidCliTokenizer().parse(line)]
    except TokenizerException:
        return None


def finished(line, words):
    """A blank after the last word, not one inside an open quote."""
    return line[-1:] in (' ', '\t') and not (words and words[-1].endswith(line[-1]))


def offers(cli, line):
    """The matcher's own offers for the line: (result, candidates, whole line)."""
    from nessaid_cli.elements import EndOfInpuToken
    words = parse(line)
    if words is None:
        return 'failure', [], False, []
    res = drive(cli.match(words, dry_run=True, last_token_complete=finished(line, words)))
    cands, eoi = [], False
    for t in res.next_tokens:
        if t is EndOfInpuToken:
            eoi = True
        else:
            cands.append(t.completion)
    return res.result, cands, eoi, words


def anyline(make, presses, cli_of=lambda env: env):
    """Any line of the shape: what TAB inserts keeps the words typed and leads to a line that is possible when it was."""
    def f(S, env):
        cli = cli_of(env)
        cli.readline.buffer = make(S)
        for i in range(presses):
            before, new = press(S, cli)
            if new == '':
                continue
            result, cands, eoi, words = offers(cli, before)
            S.check(result != 'failure', lambda: 'line %r: inserted %r though no command begins like that' % (before, new))
            result2, cands2, eoi2, words2 = offers(cli, before + new)
            S.check(result2 != 'failure', lambda: 'line %r: with %r inserted no command begins like that' % (before, new))
            blank = finished(before, words) or not words
            keep = words if blank else words[:-1]
            S.check(words2[:len(keep)] == keep, lambda: 'line %r: words %r became %r' % (before, words, words2))
            S.check(len(words2) == len(keep) + 1, lambda: 'line %r: words %r became %r' % (before, words, words2))
            last = '' if blank else words[-1]
            low = words2[-1].lower()
            S.check(low.startswith(last.lower()), lambda: 'line %r: word %r became %r' % (before, last, words2[-1]))
            S.check(not (eoi and blank), lambda: 'line %r: inserted %r though the line is complete' % (before, new))
            for c in cands:
                S.check(c is not None and c.lower().startswith(low), lambda: 'line %r: inserted %r, offered %r' % (before, new, cands))
            if new[-1] == ' ':
                S.check(len(cands) == 1 and cands[0].lower() == low, lambda: 'line %r: a blank inserted, offered %r' % (before, cands))
            S.reach('inserted')
    return f


def line_of(verbs, n, chars):
    def make(S):
        v = S.pick('verb', verbs)
        return v + S.str('rest', 0, n, chars)
    return make


def paths(n):
    def make(S):
        return S.pick('verb', ['p ', 'p "', 'q "s" "']) + S.str('rest', 0, n, alphabet('ab./" '))
    return make


def path_case(n, presses):
    def f(S, env):
        names = ['ab', 'abb', 'b']
        entries = []
        for i, nm in enumerate(names):
            k = S.pick('kind' + nm, ['none', 'file', 'dir', 'full'])
            if k == 'full':
                entries.append([nm, Node('dir', [['a', Node('file')], ['ab', Node('dir')]])])
            elif k != 'none':
                entries.append([nm, Node(k)])
        with Mounted(S, Tree(entries)):
            from nessaid_cli.tokens import PathToken, StringToken
            cli = make_cli('token P PathToken(), W StringToken(); root: "p" P { "x" } | "q" W P ;', token_classes=[PathToken, StringToken])
            anyline(paths(n), presses)(S, cli)
    return f


def continued(n):
    """A line continued from the one before: TAB joins the parts, typed text unchanged."""
    def f(S, cli):
        part = S.pick('verb', ['', 'w ', 'n 1']) + S.str('first', 0, n, LETTER) + (' ' if S.bool('blank') else '')
        rest = S.str('second', 0, n, alphabet('abw15'))
        reader = cli.readline
        state = []

        async def readline(prompt='', **k):
            if not state:
                state.append(prompt)
                return part + '\\'
            if len(state) > 1:
                raise ScriptEnd()
            state.append(prompt)
            reader.buffer = rest
            await cli.complete('', 0)
            S.check(not cli.log, 'a handler ran')
            return reader.buffer

        reader.readline = readline
        try:
            drive(cli.cmdloop('root'))
        except ScriptEnd:
            pass
        S.observe('buffer', reader.buffer)
        S.check(reader.buffer == part + rest, lambda: '%r and %r became %r' % (part, rest, reader.buffer))
        S.check(state == [cli.prompt, ''], 'prompts')
        other = setup_typed()
        rc, calls = run_line(other, part + rest)
        S.observe('rc', rc)
        S.check(cli.err.text() == other.err.text(), lambda: '%r and %r: %r, as one line %r' % (part, rest, cli.err.text(), other.err.text()))
        S.reach('joined')
        if rc == 0:
            S.reach('ran')
    return f


def cases(tier):
    q = tier == 'quick'
    out = []
    for t in TREES:
        out.append(Case('tree: ' + t, tree(t), history(2, 3 if q else 4, 3, not q),
                        'up to 2 words of 1..%d letters, 3 TABs%s' % (3 if q else 4, '' if q else ' with a letter or blank typed between'), ('inserted',)))
        if q:
            out.append(Case('typing: ' + t, tree(t), history(1, 2, 3, True), 'a word of up to 2 letters, 3 TABs with a letter or blank typed between', ('inserted',)))
    out.append(Case('keywords', lambda: None, keywords((1, 2, 3, 2) if q else (2, 3, 4, 2), 2 if q else 3), 'any keywords of up to 3 letters, 2 TABs', ('inserted',)))
    chars = alphabet('abenotrufwxz1" \\TRF')
    verbs = ['', 'w ', 'n ', 'b ', 'a ', 'd ', 'b t', 'w u u', 'a "on', 'abc a', '"big']
    out.append(Case('typed', setup_typed, anyline(line_of(verbs, 2 if q else 3, chars), 2 if q else 3), 'lines of a verb and up to %d characters' % (2 if q else 3), ('inserted',)))
    out.append(Case('any text', setup_typed, anyline(line_of(['', 'w ', 'a "'], 2 if q else 3, ANY), 2), 'up to %d arbitrary characters' % (2 if q else 3)))
    out.append(Case('paths', lambda: None, path_case(2 if q else 4, 2), 'a directory of up to 3 entries, up to %d characters of ab./" and blank' % (2 if q else 4), ('inserted',)))
    out.append(Case('continued', setup_typed, continued(2), 'a continued line', ('joined', 'ran')))
    return out
