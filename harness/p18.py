"""P18: nested command contexts hand over and return correctly."""
from harness.common import Case, FakeLoop, FakeReadline, ScriptEnd, Sink
from harness.p17 import Files
from symx.api import ISet, alphabet, drive

LETTER = alphabet('bcegnpqsu')


def note(ctx, what):
    top = ctx
    while top.parent:
        top = top.parent
    top.log.append((type(ctx).__name__, what, chain(ctx), owner(ctx.readline)))


def chain(ctx):
    """The contexts that run, outermost first."""
    out = []
    c = ctx.top_cli
    while c:
        if c.running:
            out.append(type(c).__name__)
        c = c.parent
    return tuple(reversed(out))


def owner(readline):
    """The context whose completer the TAB key uses."""
    return type(readline.completer.__self__).__name__


class Line(FakeReadline):
    async def readline(self, prompt='', **k):
        self.seen.append((prompt, owner(self)))
        self.rings.append(self._enable_bell)
        return await FakeReadline.readline(self, prompt, **k)


def classes():
    from nessaid_cli.cmd import NessaidCmd

    class Noted(NessaidCmd):
        async def on_exit(self):
            note(self, 'exit')

    class Loading(Noted):
        def do_load(self):
            """
            "load"
            """
            note(self, 'load')
            self.add_file_to_execute('1')

    class Deep(Noted):
        def do_gg(self):
            """
            "gg"
            """
            note(self, 'gg')

        def do_both(self):
            """
            "both"
            """
            note(self, 'both')

        def do_up(self):
            """
            "up"
            """
            note(self, 'up')
            self.exit_loop()

    class Child(Loading):
        def do_cc(self):
            """
            "cc"
            """
            note(self, 'cc')

        def do_both(self):
            """
            "both"
            """
            note(self, 'both')

        def do_show(self):
            """
            "show" "q"
            """
            note(self, 'show q')

        async def do_enter(self):
            """
            "enter"
            """
            note(self, 'enter')
            await self.enter_context(Deep, prompt='deep', match_parent_grammar=self.flag2, disable_default_hooks=True, **self.ring(1))

        def do_up(self):
            """
            "up"
            """
            note(self, 'up')
            self.exit_loop()

        @property
        def flag2(self):
            return self.parent.flag2

        def ring(self, i):
            return self.parent.ring(i)

    class Top(Loading):
        flag1 = flag2 = False
        bells = (None, None)
        start = False
        given = None

        def ring(self, i):
            return {} if self.bells[i] is None else {'enable_bell': self.bells[i]}

        async def postintro(self):
            if self.given:
                self.add_file_to_execute(self.given)
            if self.start:
                await self.enter_context(Child, prompt='child', match_parent_grammar=self.flag1, disable_default_hooks=True, **self.ring(0))

        def do_pp(self):
            """
            "pp"
            """
            note(self, 'pp')

        def do_both(self):
            """
            "both"
            """
            note(self, 'both')

        def do_show(self):
            """
            "show"
            """
            note(self, 'show')

        def do_two(self):
            """
            "pq" "q"
            """
            note(self, 'pq q')

        async def do_enter(self):
            """
            "enter"
            """
            note(self, 'enter')
            await self.enter_context(Child, prompt='child', match_parent_grammar=self.flag1, disable_default_hooks=True, **self.ring(0))

        async def do_nest(self):
            """
            "nest"
            """
            note(self, 'nest')
            await self.enter_context(Child, prompt='child', match_parent_grammar=self.flag1, disable_default_hooks=True, **self.ring(0))

        def do_quit(self):
            """
            "quit"
            """
            note(self, 'quit')
            self.exit_loop()

    return Top


COMMANDS = {
    'Top': ['pp', 'both', 'show', 'pq q', 'enter', 'nest', 'quit', 'load'],
    'Child': ['cc', 'both', 'show q', 'enter', 'up', 'load'],
    'Deep': ['gg', 'both', 'up'],
}
PROMPT = {'Top': 'top', 'Child': 'child', 'Deep': 'deep'}


def setup():
    import nessaid_cli.cli as C
    C.NessaidAsyncReadline = Line
    try:
        top = classes()(prompt='top', loop=FakeLoop(), stdout=Sink(), stderr=Sink(), disable_default_hooks=True, use_base_grammar=False)
    finally:
        C.NessaidAsyncReadline = FakeReadline
    top.log = []
    top.readline.seen = []
    top.readline.rings = []
    return top


def reading(ctx, words):
    """('run', command) | 'ambiguous' | 'incomplete' | 'none' for the words in that context alone."""
    full, part = [], False
    for c in COMMANDS[ctx]:
        ks = c.split(' ')
        if len(words) <= len(ks) and all(k.startswith(w) for k, w in zip(ks, words)):
            if len(words) == len(ks):
                full.append(c)
            else:
                part = True
    if len(full) > 1:
        exact = [c for c in full if all(k == w for k, w in zip(c.split(' '), words))]
        full = exact if len(exact) == 1 else full
    if len(full) == 1:
        return 'run', full[0]
    return ('ambiguous' if full else 'incomplete' if part else 'none'), None


class Model:
    def __init__(self, flag1, flag2, start):
        self.match_parent = {'Top': False, 'Child': flag1, 'Deep': flag2}
        self.stack = ['Top', 'Child'] if start else ['Top']
        self.log, self.seen = [], []
        self.ended = False

    def leave(self):
        self.log.append((self.stack[-1], 'exit', tuple(self.stack), self.stack[-1]))
        self.stack.pop()

    def above(self, i, words):
        """What the contexts from i upwards make of the line."""
        r, c = reading(self.stack[i], words)
        if r == 'none' and i and self.match_parent[self.stack[i]]:
            return self.above(i - 1, words)
        return r

    def line(self, S, words):
        if not words:
            return
        while True:
            ctx = self.stack[-1]
            r, c = reading(ctx, words)
            if r == 'run':
                self.log.append((ctx, c, tuple(self.stack), ctx))
                if c in ('enter', 'nest'):
                    self.stack.append('Child' if ctx == 'Top' else 'Deep')
                elif c in ('up', 'quit'):
                    self.leave()
                    self.ended = not self.stack
                return c
            i = len(self.stack) - 1
            if i and self.match_parent[ctx]:
                a = self.above(i - 1, words)
                # outside the claim: a line of which the context above has only the beginning, or several readings
                S.assume(a != 'ambiguous' and (a != 'incomplete' or r != 'none'))
                if a == 'run':
                    self.leave()
                    continue
            return


def judge(S, top, lines, flag1, flag2, start, texts={}, given=None, bells=None):
    top.flag1, top.flag2, top.start = flag1, flag2, start
    top.given = given
    bells = bells or (False, None, None)
    top.readline.enable_bell(bells[0])
    top.bells = bells[1:]
    top.readline.lines = list(lines)
    ended = True
    with Files(S, top, texts):
        try:
            drive(top.cmdloop())
        except ScriptEnd:
            ended = False
    S.observe('log', top.log)
    S.observe('seen', top.readline.seen)
    m = Model(flag1, flag2, start)
    seen = []
    terminal = list(lines)
    files = [texts[given].split('\n')[:-1]] if given else []
    while not m.ended and (terminal or files):
        if files:
            l = files[-1].pop(0)
            if not files[-1]:
                files.pop()
        else:
            seen.append((PROMPT[m.stack[-1]], m.stack[-1]))
            l = terminal.pop(0)
        if m.line(S, [w for w in l.split(' ') if w]) == 'load' and texts:
            files.append(texts['1'].split('\n')[:-1])
    if not m.ended:
        seen.append((PROMPT[m.stack[-1]], m.stack[-1]))
        while m.stack:           # the end of the script ends every loop
            m.leave()
    S.check(len(top.log) == len(m.log) and all(g == w for g, w in zip(top.log, m.log)),
            lambda: 'lines %r: ran %r, expected %r' % (lines, top.log, m.log))
    S.check(top.readline.seen == seen, lambda: 'lines %r: prompts and completers %r, expected %r' % (lines, top.readline.seen, seen))
    rings = [bool(bells[('Top', 'Child', 'Deep').index(c)]) for p, c in seen]
    S.check(top.readline.rings == rings, lambda: 'lines %r: bell on %r, expected %r (contexts %r)' % (lines, top.readline.rings, rings, bells))
    S.check(ended == m.ended and not top.running and top.top_cli is top, 'end of the loops')
    if len(m.log) > 0:
        S.reach('ran')
    if any(len(x[2]) > 1 for x in m.log):
        S.reach('nested')


FMENU = ['enter', 'up', 'cc', 'pp', 'both', 'zz', 'quit', 'gg']
FMENU2 = ['enter', 'up', 'load', 'both', 'pp', 'quit', 'cc', 'nest']
MENU = ['both', 'nest', 'up', 'show', 'enter', 'pp', 'cc', 'show q', 'pq', 'pq q', 'zz', 'gg', 'quit', '']


def script(n, k, flags=None):
    """From inside the first nested context: any lines out of the menu."""
    def f(S, top):
        start = S.bool('started nested')
        flag1 = S.bool('child matches parent')
        flag2 = S.bool('grandchild matches parent') if flags is None else flags
        lines = [] if start else ['enter']
        lines += [S.pick('line%d' % i, MENU[:k]) for i in range(n)]
        judge(S, top, lines, flag1, flag2, start)
    return f


def deep(n, k):
    """From inside the second nested context."""
    def f(S, top):
        start = S.bool('started nested')
        flag1 = S.bool('child matches parent')
        flag2 = S.bool('grandchild matches parent')
        lines = ['enter'] if start else ['enter', 'enter']
        lines += [S.pick('line%d' % i, MENU[:k]) for i in range(n)]
        judge(S, top, lines, flag1, flag2, start)
    return f


def word(width, two):
    """An arbitrary word in a nested context, then a look at where we are."""
    def f(S, top):
        depth = S.choice('depth', 3)
        flag1 = S.bool('child matches parent')
        flag2 = S.bool('grandchild matches parent')
        text = S.str('word', 1, width, LETTER)
        if two:
            text = text + ' ' + S.str('second', 1, 1, LETTER)
        judge(S, top, ['enter'] * depth + [text, 'both'], flag1, flag2, False)
    return f


def bell(n, k):
    """Every context has its own setting of the bell."""
    def f(S, top):
        bells = (S.bool('bell'), S.pick('child bell', [True, False, None]), S.pick('grandchild bell', [True, None]))
        start = S.bool('started nested')
        flag1 = S.bool('child matches parent')
        flag2 = S.bool('grandchild matches parent')
        lines = ([] if start else ['enter']) + [S.pick('line%d' % i, ['enter', 'up', 'pp', 'zz', 'quit'][:k]) for i in range(n)]
        judge(S, top, lines, flag1, flag2, start, bells=bells)
    return f


def files(n, m, k):
    """Lines of a command file started by a command in any context or given at the start, then terminal lines."""
    def f(S, top):
        given = S.pick('given', [None, '2'])
        flag1 = S.bool('child matches parent')
        one = [S.pick('line%d' % i, FMENU[:k]) for i in range(n)]
        two = [S.pick('other%d' % i, FMENU2[:k]) for i in range(m)] if given else []
        texts = {'1': ''.join(l + '\n' for l in one), '2': ''.join(l + '\n' for l in two)}
        judge(S, top, ['load', 'both', 'both'] if given else [S.pick('first', ['enter', 'pp']), 'load', 'both', 'both'],
              flag1, False, False, texts, given)
    return f


def cases(tier):
    q = tier == 'quick'
    lab = ('ran', 'nested')
    return [
        Case('child', setup, script(2 if q else 3, 9 if q else 13, False), 'up to %d lines of a menu in a nested context, started by a command or at the beginning' % (2 if q else 3), lab),
        Case('grandchild', setup, deep(2 if q else 3, 9 if q else 13), 'up to %d lines of a menu in a context nested twice' % (2 if q else 3), lab),
        Case('files', setup, files(2 if q else 3, 2, 5 if q else 8), 'command files of two lines started at the beginning or in a nested context', lab),
        Case('bell', setup, bell(2 if q else 4, 3 if q else 5), 'up to %d lines in contexts with and without the bell' % (2 if q else 4), lab),
        Case('word', setup, word(3 if q else 5, False), 'any word of up to %d letters out of bcegnpqsu at depth 0..2' % (3 if q else 5), lab),
        Case('two words', setup, word(2 if q else 3, True), 'any two words at depth 0..2', lab),
    ]
