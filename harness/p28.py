"""P28: built-in commands and the ways to start a command class do not change what commands do."""
import contextlib

from harness.common import Case, FakeLoop, FakeReadline, ScriptEnd, Sink, make_cmd
from symx.api import alphabet, drive

LOW = alphabet('uvw0')


def own():
    from nessaid_cli.tokens import StringToken, RangedIntToken

    class Own:
        log = None

        def get_token_classes(self):
            return [StringToken, RangedIntToken]

        def do_a(self, w):
            """
            "a" W << $w = $2; >>
            """
            self.log.append(('a', w))

        def do_many(self, l):
            """
            "many" << $l = list(); >> ( N << append($l, $1); >> ) * (1:3)
            """
            self.log.append(('many',) + tuple(l))

        def do_fail(self):
            """
            "fail"
            """
            self.log.append(('fail',))
            raise RuntimeError('handler failed')

        async def do_soon(self):
            """
            "soon"
            """
            self.log.append(('soon',))

        async def on_exit(self):
            self.log.append(('on_exit',))

    return Own


TOKENS = 'token W StringToken(), N RangedIntToken(0, 99);'


def new(**kw):
    return make_cmd(own(), TOKENS, prompt='> ', **kw)


def setup():
    return new(), new(disable_default_hooks=True, use_base_grammar=False)


BUILTIN = ['cmd-timing on', 'cmd-timing off', 'cmd-profiling on', 'cmd-profiling off', 'exit', 'quit', 'cmd-t on', 'qui']
MENU = ['a', 'fail', 'soon', 'many', 'zz', 'cmd-timing', '', 'cmd-profiling x']


def line(S, label, k, b):
    kind = S.pick(label, (BUILTIN[:b] + MENU[:k]))
    if kind == 'a':
        return 'a ' + S.char(label + ' word', LOW)
    if kind == 'many':
        return 'many ' + ' '.join(S.char('%s number %d' % (label, i), alphabet('0129x')) for i in range(1 + S.choice(label + ' numbers', 2)))
    return kind


def run(cmd, lines):
    """Whether the loop ended by itself, number of lines read, and the output of each line."""
    cmd.log = []
    outs, n = [], [0, 0]

    async def readline(prompt='', **k):
        n[0] += 1
        if n[0] > 1:
            outs.append((''.join(cmd.out.parts), ''.join(cmd.err.parts)))
            del cmd.out.parts[:]
            del cmd.err.parts[:]
        if n[0] > len(lines):
            raise ScriptEnd()
        return lines[n[0] - 1]

    cmd.readline.readline = readline
    ended = True
    profile = Sink()
    with contextlib.redirect_stdout(profile):
        try:
            drive(cmd.cmdloop())
        except ScriptEnd:
            ended = False
    return ended, n[0], outs



def loop(n, k, b):
    """A session with built-in commands does what the same session without them does."""
    def f(S, env):
        cmd, bare = env
        lines = [line(S, 'line%d' % i, k, b) for i in range(n)]
        kept, stop, timing, timed = [], False, False, []
        for i, l in enumerate(lines):
            timed.append(None)
            if l in ('exit', 'quit', 'qui'):
                stop = True
                break
            if l in ('cmd-timing on', 'cmd-t on', 'cmd-timing off'):
                timing = l[-1] == 'n'
                timed[i] = False
            elif l in ('cmd-profiling on', 'cmd-profiling off'):
                timed[i] = timing
            else:
                kept.append(l)
                if l[:2] == 'a ' or l in ('fail', 'soon'):
                    timed[i] = timing
        ended, reads, outs = run(cmd, lines)
        S.observe('log', cmd.log)
        S.observe('reads', [ended, reads])
        S.check(ended == stop and reads == (len(timed) if stop else n + 1), lambda: 'lines %r: ended %r after %d reads' % (lines, ended, reads))
        log = cmd.log
        bended, breads, bouts = run(bare, kept)
        S.observe('bare', bare.log)
        S.check(len(log) == len(bare.log) and all(same(x, y) for x, y in zip(log, bare.log)),
                lambda: 'lines %r: ran %r, without the built-in ones %r' % (lines, log, bare.log))
        for i, (out, err) in enumerate(outs):
            if timed[i] is not None:
                S.check(('Time taken' in out) == timed[i], lambda: 'lines %r: output of line %d: %r' % (lines, i, out))
        errs = [bool(err) for i, (out, err) in enumerate(outs) if lines[i] in kept]
        S.check(errs == [bool(err) for out, err in bouts][:len(errs)], lambda: 'lines %r: errors %r' % (lines, errs))
        S.reach('ended' if stop else 'ran')
    return f


def same(x, y):
    return len(x) == len(y) and all(p == q for p, q in zip(x, y))


def disabled(S, env):
    """With the built-in commands disabled their names are unknown, or free for own commands."""
    cmd, bare = env
    l = S.pick('line', BUILTIN + ['system-info', 'cmd-timing', 'e'])
    rc = drive(bare.exec_line(l))
    S.observe('rc', rc)
    S.check(rc != 0 and bare.log == [] and bare.err.text() != '', lambda: '%r: %r' % (l, rc))
    l2 = 'a ' + S.char('word', LOW)
    rc = drive(bare.exec_line(l2))
    S.check(rc == 0 and bare.log == [('a', l2[2:])], lambda: '%r after %r: %r' % (l2, l, bare.log))
    S.reach('unknown')


def shown(S, env):
    """Showing the generated grammar, or tracing memory, changes no command."""
    cmd, bare = env
    other = new(**{S.pick('option', ['show_grammar', 'do_tracemalloc', 'enable_bell', 'use_rawinput']): True})
    other.log = []
    l = S.pick('verb', ['a', 'many', 'cmd-timing', 'zz']) + ' ' + S.str('word', 0, 2, alphabet('0ou n'))
    a, b = drive(cmd.exec_line(l)), drive(other.exec_line(l))
    S.observe('rc', a)
    S.check(a == b and len(cmd.log) == len(other.log) and all(same(x, y) for x, y in zip(cmd.log, other.log)), lambda: '%r: %r %r' % (l, cmd.log, other.log))
    S.reach('run' if a == 0 else 'refused')


def started(n):
    """The class-level functions do what the methods of an object do."""
    def f(S, env):
        import asyncio
        cmd, bare = env
        log = []
        cls = type('Cmds', (own(), type(bare).__mro__[1]), {'__doc__': TOKENS, 'log': log, '__module__': 'harness'})
        args = [S.pick('verb', ['a', 'many', 'zz', 'exit'])] + [S.str('arg%d' % i, 0, n, alphabet('u1 "\\')) for i in range(S.choice('args', 3))]
        get = asyncio.get_event_loop
        asyncio.get_event_loop = FakeLoop
        sink = Sink()
        try:
            with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
                if S.bool('line'):
                    line = ' '.join(args)
                    rc = drive(cls.execute_line(line))
                    want = drive(cmd.exec_line(line))
                    base = cmd
                else:
                    rc = cls.execute_args(*args)
                    want = bare.exec_args(*args)
                    base = bare
        finally:
            asyncio.get_event_loop = get
        S.observe('rc', rc)
        S.observe('log', log)
        S.check(rc == want, lambda: '%r: %r, object %r' % (args, rc, want))
        S.check(len(log) == len(base.log) and all(same(x, y) for x, y in zip(log, base.log)), lambda: '%r: %r, object %r' % (args, log, base.log))
        S.reach('ran' if log else 'refused')
    return f


def echo(n, width):
    """A class without commands prints the words of the line."""
    def f(S, env):
        class Nothing:
            pass
        cmd = make_cmd(Nothing, disable_default_hooks=True)
        words, values = [], []
        for i in range(1 + S.choice('words', n)):
            w = S.str('word%d' % i, 1, width, alphabet('uv01'))
            values.append(w)
            words.append('"' + w + '"' if S.bool('quoted %d' % i) else w)
        rc = drive(cmd.exec_line(' '.join(words)))
        S.observe('out', cmd.out.text())
        S.check(rc == 0 and cmd.out.text() == ' '.join(values) + '\n', lambda: '%r: %r %r' % (words, rc, cmd.out.text()))
        S.reach('printed')
    return f


def cases(tier):
    q = tier == 'quick'
    return [
        Case('session', setup, loop(2, 8, 8) if q else loop(3, 8, 8), 'any %d lines out of built-in and own commands' % (2 if q else 3), ('ran', 'ended')),
        Case('long session', setup, loop(3, 2, 4) if q else loop(4, 3, 6), 'any %d lines out of fewer commands' % (3 if q else 4), ('ran',)),
        Case('disabled', setup, disabled, 'each built-in command where they are disabled', ('unknown',)),
        Case('options', setup, shown, 'options of the constructor', ('run', 'refused')),
        Case('class level', setup, started(2 if q else 3), 'up to 3 arguments of up to %d characters' % (2 if q else 3), ('ran', 'refused')),
        Case('no commands', lambda: None, echo(3, 2 if q else 3), 'up to 3 words of up to %d characters' % (2 if q else 3), ('printed',)),
    ]
