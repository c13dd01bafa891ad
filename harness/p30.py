"""P30: a mistake in grammar text is reported with the line it is on."""
import contextlib
import io

from harness.common import Case
from harness.p22 import GRAMMARS, elements, places
from symx.api import ANY

FILL = ['\n', '/* x\n * y\r\n */', '// ) x\n', '\\\n', '\r\n', '# "\n', '\n\n \t', '\\\r\n', ' ']
OPEN = {'(': ')', '[': ']', '{': '}'}
MARKS = '()[]{}:;|&,=*/#\\"$+-.<>'
ALONE = '$+-.<>/"'       # marks that begin nothing when a line end follows


class Place:
    """The gaps of a grammar: inside an action, inside which brackets, between definitions."""

    def __init__(self, name):
        self.elems, self.inside = elements(GRAMMARS[name][0])
        self.open, self.action, self.between = [], [], []
        stack, action = [], False
        for i in range(len(self.elems) + 1):
            self.open.append(list(stack))
            self.action.append(action)
            self.between.append(not stack and not action and (i == 0 or self.elems[i - 1] == ';'))
            if i < len(self.elems):
                e = self.elems[i]
                if e in ('<<', '>>'):
                    action = e == '<<'
                elif not action and e in OPEN:
                    stack.append(e)
                elif not action and stack and e == OPEN[stack[-1]]:
                    stack.pop()


def compiled(text):
    """The message of the error, or None."""
    from nessaid_cli.compiler import compile_grammar
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            compile_grammar(text)
        except Exception as e:
            return str(e)
    return None


def reported(S, before, mistake, after):
    message = compiled(before + mistake + after)
    S.observe('message', message)
    line = 1 + before.count('\n')
    S.check(message is not None, lambda: '%r was taken for a grammar' % (before + mistake + after))
    S.check(message.startswith('Line: ' + str(line) + ' '), lambda: '%r after %r, line %d: %r' % (mistake, before[-30:], line, message))


def upto(S, p, at, fillers, every):
    """The text before the gap, with the fillers in earlier gaps or in this one."""
    gaps = []
    for k in range(fillers):
        near = S.choice('filler%d' % k, 3 if every else 2)      # halfway, just before, or at the beginning
        gaps.append(([at // 2, at, 0][near], S.pick('kind%d' % k, FILL if every else FILL[:5])))
    t = ''
    for i in range(at + 1):
        t += ' ' if i else ''
        for g, f in gaps:
            if g == i:
                t += f + ' '
        if i < at:
            t += p.elems[i]
    return t


def after(S, p, at, every):
    return '\n\n' + ('' if every and S.bool('cut') else '\n'.join(p.elems[at:]) + '\n')


def some(p, every):
    places_ = places(p.elems, p.inside, every)
    return places_ if every else places_[::3]


def stray(name, fillers, every):
    """A character that begins nothing."""
    p = Place(name)

    def f(S, env):
        at = S.pick('at', [i for i in some(p, every) if not p.action[i]])
        c = S.char('character', ANY)
        S.assume(c not in ' \t\r\n_' and not ('0' <= c <= '9' or 'a' <= c <= 'z' or 'A' <= c <= 'Z'))
        S.assume(c not in MARKS or c in ALONE)
        before = upto(S, p, at, fillers, every)
        reported(S, before, c, after(S, p, at, every))
        S.reach('stray')
    return f


def closing(name, fillers, every):
    """An element that cannot stand there."""
    p = Place(name)

    def f(S, env):
        at = S.pick('at', [i for i in some(p, every) if not p.action[i]])
        e = S.pick('element', [')', ']', '}', '=', '>>', '&'])
        S.assume(not (p.open[at] and OPEN[p.open[at][-1]] == e) and (e != '=' or not p.open[at]) and (e != '&' or not p.between[at]))
        before = upto(S, p, at, fillers, every)
        reported(S, before, e, after(S, p, at, every))
        S.reach('element')
    return f


def ended(name, fillers, every):
    """Text that ends in the middle."""
    p = Place(name)

    def f(S, env):
        at = S.pick('at', [i for i in some(p, every) if not p.between[i]])
        before = upto(S, p, at, fillers, every)
        end = S.pick('end', ['', '\n', ' \n\n', '\n// x', '\n/* \n */'])
        reported(S, before + end, '', '')
        S.reach('ended')
    return f


def cases(tier):
    q = tier == 'quick'
    out = []
    none = lambda: None
    for g in GRAMMARS:
        n = 1 if q else 2
        out += [
            Case('stray:' + g, none, stray(g, n, not q), 'any character that begins nothing in a gap outside the actions, %d of %d fillers before it' % (n, 5 if q else len(FILL)), ('stray',)),
            Case('element:' + g, none, closing(g, n, not q), 'an element that cannot stand there, %d fillers before it' % n, ('element',)),
            Case('end:' + g, none, ended(g, n, not q), 'text cut in any gap', ('ended',)),
        ]
    return out
