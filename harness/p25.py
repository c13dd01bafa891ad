"""P25: the command loop survives failing commands, interrupts and ends of file, and ends when told."""
from harness.common import Case, FakeLoop, FakeReadline, ScriptEnd, Sink
from symx.api import alphabet, drive

LOW = alphabet('uvw0')


class Stopped(BaseException):
    """Such as a cancelled task."""


class Line(FakeReadline):
    """Each read takes the next event: a line, or an exception to raise."""

    async def readline(self, prompt='', **k):
        cmd = self.cmd
        cmd.log.append(('read', prompt, len(cmd.err.parts) > cmd.errors, cmd.running))
        cmd.errors = len(cmd.err.parts)
        if not self.lines:
            raise ScriptEnd()
        x = self.lines.pop(0)
        if isinstance(x, str):
            return x
        raise x


def setup(line=None):
    import nessaid_cli.cli as C
    from nessaid_cli.cmd import NessaidCmd
    from nessaid_cli.tokens import StringToken

    class Cmds(NessaidCmd):
        """
        token W StringToken();
        """
        hooks = {}

        def get_token_classes(self):
            return [StringToken]

        def hook(self, name, *extra):
            self.log.append((name,) + extra)
            do = self.hooks.get(name, 'pass')
            if do == 'exit':
                self.exit_loop()
            elif do == 'raise':
                raise ValueError(name)

        async def preloop(self):
            self.hook('preloop', self.out.text(), self.running and self.top_cli is self)

        async def postintro(self):
            self.hook('postintro', self.out.text())

        async def on_exit(self):
            self.hook('on_exit')

        async def handle_keyboard_interrupt(self):
            self.hook('interrupt')

        async def handle_eof(self):
            self.hook('eof')

        def do_a(self, w):
            """
            "a" W << $w = $2; >>
            """
            self.log.append(('a', w))

        def do_fail(self):
            """
            "fail"
            """
            self.log.append(('fail',))
            raise RuntimeError('handler failed')

        async def do_soon(self):
            """
            "soon"
            """
            self.log.append(('soon',))
            raise RuntimeError('coroutine failed')

        def do_lost(self, w):
            """
            "lost" << call not_there($1); call there($1); >>
            """
            self.log.append(('lost', w))

        def there(self, w):
            self.log.append(('there', w))

        def do_bye(self):
            """
            "bye"
            """
            self.log.append(('bye',))
            self.exit_loop()

        def do_crash(self):
            """
            "crash"
            """
            self.log.append(('crash',))
            self.exit_loop()
            raise RuntimeError('after exit_loop')

        async def do_ask(self):
            """
            "get"
            """
            self.log.append(('ask', await self.input('? ')))

        def do_nested(self):
            """
            "nested"
            """
            try:
                self.run()
            except Exception as e:
                self.log.append(('nested', type(e).__name__))

        def do_stop(self):
            """
            "stop"
            """
            self.log.append(('stop',))
            raise Stopped()

    C.NessaidAsyncReadline = line or Line
    try:
        cmd = Cmds(prompt='> ', loop=FakeLoop(), stdout=Sink(), stderr=Sink(), disable_default_hooks=True)
    finally:
        C.NessaidAsyncReadline = FakeReadline
    cmd.out, cmd.err = cmd.stdout, cmd.stderr
    cmd.readline.cmd = cmd
    return cmd


class Model:
    def __init__(self, hooks, intro, events):
        self.hooks, self.events = hooks, list(events)
        self.log = []
        self.error = False
        self.end = False
        self.raised = None
        self.prompt = '> '
        self.out = ''
        self.held = ''
        try:
            self.hook('preloop', '', True)
            if intro is not None:
                self.out = intro + '\n'
            self.hook('postintro', self.out)
            while not self.end:
                try:
                    self.one()
                except Interrupt:
                    self.hook('interrupt')
                except EndOfFile:
                    self.hook('eof')
        except (Raised, Stopped, ScriptEnd) as e:
            self.raised = type(e).__name__ if not isinstance(e, Raised) else 'ValueError'
        self.log.append(('on_exit',))

    def hook(self, name, *extra):
        self.log.append((name,) + extra)
        do = self.hooks.get(name, 'pass')
        if do == 'exit':
            self.end = True
        elif do == 'raise':
            raise Raised()

    def read(self, prompt):
        self.log.append(('read', prompt, self.error, True))
        self.error = False
        if not self.events:
            raise ScriptEnd()
        x = self.events.pop(0)
        if isinstance(x, str):
            return x
        raise x

    def one(self):
        line = self.read('' if self.held else '> ')
        kind, word = split(line)
        if kind == 'partial':
            self.held = self.held + 'a '
            return
        if self.held:
            # the text held back and this line are one line
            words = (self.held + line).split(' ')
            self.held = ''
            if len(words) == 2 and words[1] and not words[1].endswith('b'):
                self.log.append(('a', words[1]))
            else:
                self.error = True
            return
        if kind == 'a':
            self.log.append(('a', word))
        elif kind in ('fail', 'soon'):
            self.log.append((kind,))
            self.error = True
        elif kind == 'lost':
            self.error = True
            self.log.append(('there', 'lost'))
            self.log.append(('lost', ''))
        elif kind == 'bye':
            self.log.append(('bye',))
            self.end = True
        elif kind == 'crash':
            self.log.append(('crash',))
            self.error = True
            self.end = True
        elif kind == 'get':
            try:
                text = self.read('? ')
            except (Interrupt, EndOfFile):
                text = ''
            self.log.append(('ask', text))
        elif kind == 'nested':
            self.log.append(('nested', 'CliAlreadyRunning'))
        elif kind == 'stop':
            self.log.append(('stop',))
            raise Stopped()
        elif kind == 'empty':
            pass
        else:
            self.error = True


class Raised(Exception):
    pass


SINGLE = ('fail', 'soon', 'lost', 'bye', 'crash', 'get', 'nested', 'stop', 'zz', 'a')
Interrupt = EndOfFile = None


def split(line):
    if line == '':
        return 'empty', None
    if line == 'a \\':
        return 'partial', None
    if line in SINGLE:
        return line, None
    if line.startswith('a '):
        return 'a', line[2:]
    return 'word', line


MENU = ['bye', 'a', 'fail', 'interrupt', 'eof', 'soon', 'get', 'lost', 'crash', 'partial', 'zz', 'stop', 'nested', 'invalid',
        'empty', 'end of input']


def events(S, label, n, k):
    from nessaid_readline.async_readline import NessaidReadlineEOF, NessaidReadlineKeyboadInterrupt
    global Interrupt, EndOfFile
    Interrupt, EndOfFile = NessaidReadlineKeyboadInterrupt, NessaidReadlineEOF
    out = []
    for i in range(n):
        kind = S.pick('%s%d' % (label, i), MENU[:k])
        if kind == 'a':
            out.append('a ' + S.char('%sword%d' % (label, i), LOW))
        elif kind == 'interrupt':
            out.append(NessaidReadlineKeyboadInterrupt())
        elif kind == 'eof':
            out.append(NessaidReadlineEOF())
        elif kind == 'partial':
            out.append('a \\')
        elif kind == 'invalid':
            out.append('a\\b')
        elif kind == 'empty':
            out.append('')
        elif kind == 'end of input':
            out.append(EOFError())
        else:
            out.append(kind)
    return out


def judge(S, cmd, hooks, intro, evs, what):
    cmd.log, cmd.errors = [], len(cmd.err.parts)
    del cmd.out.parts[:]
    cmd.hooks = hooks
    cmd.readline.lines = list(evs)
    raised = None
    try:
        drive(cmd.cmdloop(intro=intro))
    except (ScriptEnd, Stopped, ValueError) as e:
        raised = type(e).__name__
    S.observe(what + 'log', cmd.log)
    m = Model(hooks, intro, [x if not isinstance(x, EOFError) else '' for x in evs])
    S.check(len(cmd.log) == len(m.log) and all(same(g, w) for g, w in zip(cmd.log, m.log)),
            lambda: '%sevents %r: %r, expected %r' % (what, evs, cmd.log, m.log))
    S.check(raised == m.raised, lambda: '%sthe loop ended with %s, expected %s' % (what, raised, m.raised))
    S.check(cmd.top_cli is cmd and not cmd.running, 'the loop has ended')
    S.check(cmd.readline.lines == [] or len(cmd.readline.lines) == len(m.events), 'events read')


def same(g, w):
    return len(g) == len(w) and all(x == y for x, y in zip(g, w))


def script(n, k, exits):
    def f(S, cmd):
        hooks = {}
        for h in ('interrupt', 'eof'):
            if exits:
                hooks[h] = S.pick('in ' + h, ['pass', 'exit'])
        judge(S, cmd, hooks, None, events(S, 'event', n, k), '')
    return f


def hooked(S, cmd):
    hooks = {h: S.pick('in ' + h, ['pass', 'exit', 'raise']) for h in ('preloop', 'postintro')}
    intro = S.pick('intro', [None, 'hello'])
    judge(S, cmd, hooks, intro, events(S, 'event', 1, 5), '')
    again(S, cmd)


def again(S, cmd):
    word = S.char('again', LOW)
    judge(S, cmd, {}, 'hello', ['a ' + word, 'bye', 'bye'], 'second run, ')


def twice(n, k):
    def f(S, cmd):
        hooks = {'interrupt': S.pick('in interrupt', ['exit', 'raise']), 'eof': 'exit'}
        judge(S, cmd, hooks, None, events(S, 'event', n, k), '')
        again(S, cmd)
    return f


class Pause:
    def __await__(self):
        yield


async def pause(*args):
    await Pause()


class Turns:
    """Event loop: one turn of every task in order, again and again; Ctrl-C arrives before the given turns."""

    def __init__(self, running=False):
        self.running, self.tasks, self.failed, self.at, self.turn, self.hit = running, [], [], [], 0, []

    def is_running(self):
        return self.running

    def create_task(self, coro):
        self.tasks.append(coro)
        return coro

    def step(self):
        for t in list(self.tasks):
            try:
                t.send(None)
            except StopIteration:
                self.tasks.remove(t)
            except (ScriptEnd, Stopped, ValueError) as e:
                self.tasks.remove(t)
                self.failed.append(type(e).__name__)

    def run_until_complete(self, task):
        while task in self.tasks:
            self.turn = self.turn + 1
            assert self.turn < 200, 'run does not end'
            if self.turn in self.at:
                self.at.remove(self.turn)
                self.hit.append(self.readline.waiting and not self.readline.interrupted)
                raise KeyboardInterrupt()
            self.step()


class Waiting(Line):
    """Each read waits a turn or two and may be interrupted meanwhile."""
    waiting = interrupted = False
    busy = 0
    turns = 2

    async def readline(self, prompt='', **k):
        cmd = self.cmd
        cmd.log.append(('read', prompt, len(cmd.err.parts) > cmd.errors, cmd.running))
        cmd.errors = len(cmd.err.parts)
        if not self.lines:
            self.given.append(ScriptEnd())
            raise ScriptEnd()
        self.waiting = True
        for i in range(self.turns):
            await Pause()
            if self.interrupted:
                self.waiting = self.interrupted = False
                self.given.append(Interrupt())
                raise Interrupt()
        self.waiting = False
        self.given.append(self.lines[0])
        x = self.lines.pop(0)
        if isinstance(x, str):
            return x
        raise x

    def handle_external_keyboard_interrupt(self):
        if self.busy:
            self.busy = self.busy - 1
            raise KeyboardInterrupt()
        self.told = self.told + 1
        self.interrupted = self.waiting


class Stood:
    """asyncio.sleep waits one turn, time.sleep not at all."""

    def __enter__(self):
        import asyncio
        import time
        self.old = asyncio.sleep, time.sleep
        asyncio.sleep, time.sleep = pause, lambda t: None

    def __exit__(self, *a):
        import asyncio
        import time
        asyncio.sleep, time.sleep = self.old


def run_setup():
    from nessaid_readline.async_readline import NessaidReadlineKeyboadInterrupt
    global Interrupt
    Interrupt = NessaidReadlineKeyboadInterrupt
    return setup(Waiting)


def start(S, cmd, loop, evs, hooks, intro, at, busy):
    rl = cmd.readline
    cmd._loop = loop
    loop.readline = rl
    loop.at, loop.hit, loop.failed = at, [], []
    rl.lines, rl.given, rl.told, rl.busy, rl.interrupted, rl.waiting = list(evs), [], 0, busy, False, False
    cmd.log, cmd.errors, cmd.hooks = [], len(cmd.err.parts), hooks
    del cmd.out.parts[:]
    with Stood():
        cmd.run(intro=intro)
        if loop.is_running():
            S.check(cmd.running and cmd.log == [], 'run returns while the loop goes on')
            try:
                cmd.run()
                refused = False
            except Exception as e:
                refused = type(e).__name__ == 'CliAlreadyRunning'
            S.check(refused, 'running it twice')
            for i in range(100):
                if loop.tasks:
                    loop.step()
    S.check(not cmd.running and loop.tasks == [], 'run has ended')
    S.check(rl.told == len(loop.hit), lambda: '%d interrupts, %d handled' % (len(loop.hit), rl.told))


def running(n, k, last):
    def f(S, cmd):
        loop = Turns(S.bool('loop runs already'))
        hooks = {'postintro': S.pick('in postintro', ['pass', 'exit', 'raise']), 'interrupt': S.pick('in interrupt', ['pass', 'exit'])}
        intro = S.pick('intro', [None, 'hello'])
        at, busy = [], 0
        if not loop.running:
            at = [1 + S.choice('first', last)]
            if S.bool('second'):
                at = at + [at[0] + 1 + S.choice('after', 2)]
            busy = S.choice('while handling', 2)
        evs = events(S, 'event', n, k) + ['bye']
        start(S, cmd, loop, evs, hooks, intro, at, busy)
        S.observe('log', cmd.log)
        rl = cmd.readline
        m = Model(hooks, intro, [x for x in rl.given if not isinstance(x, ScriptEnd)])
        S.check(len(cmd.log) == len(m.log) and all(same(g, w) for g, w in zip(cmd.log, m.log)),
                lambda: 'given %r: %r, expected %r' % (rl.given, cmd.log, m.log))
        S.check(loop.failed == ([m.raised] if m.raised else []), lambda: 'ended with %r, expected %r' % (loop.failed, m.raised))
        S.check(len([x for x in rl.given if isinstance(x, Interrupt)]) >= len([x for x in loop.hit if x]),
                lambda: 'interrupted %r, given %r' % (loop.hit, rl.given))
        if S.bool('run again'):
            word = S.char('again', LOW)
            start(S, cmd, loop, ['a ' + word, 'bye'], {}, None, [], 0)
            S.check([x for x in cmd.log if x[0] in ('a', 'bye', 'on_exit')] == [('a', word), ('bye',), ('on_exit',)], 'second run')
        S.reach('interrupted' if any(loop.hit) else 'undisturbed')
    return f


def inner(last):
    def f(S, cmd):
        from nessaid_cli.cmd import NessaidCmd as Base
        log = []

        class Child(Base):
            def do_leave(self):
                """
                "leave"
                """
                log.append('leave')
                self.exit_loop()

            async def handle_keyboard_interrupt(self):
                log.append('inner interrupt')

        class Outer(Base):
            async def do_into(self):
                """
                "into"
                """
                log.append('into')
                await self.enter_context(Child, prompt='in')

            def do_bye(self):
                """
                "bye"
                """
                log.append('bye')
                self.exit_loop()

            async def handle_keyboard_interrupt(self):
                log.append('outer interrupt')

        import nessaid_cli.cli as C
        C.NessaidAsyncReadline = Inner
        loop = Turns()
        try:
            outer = Outer(prompt='> ', loop=loop, stdout=Sink(), stderr=Sink(), disable_default_hooks=True)
        finally:
            C.NessaidAsyncReadline = FakeReadline
        rl = outer.readline
        rl.lines, rl.given, rl.told = ['into', 'leave', 'into', 'leave', 'bye'], [], 0
        loop.readline = rl
        first = 1 + S.choice('first', last)
        loop.at = [first, first + 1 + S.choice('after', 4)]
        with Stood():
            outer.run()
        S.observe('log', log)
        want, depth = [], 'outer'
        for x in rl.given:
            if isinstance(x, str):
                want.append(x)
                depth = {'into': 'inner', 'leave': 'outer'}.get(x, depth)
            else:
                want.append(depth + ' interrupt')
        S.check(log == want, lambda: '%r, expected %r' % (log, want))
        S.check(rl.lines == [] and not outer.running, 'all lines are read')
        S.check(rl.told == len(loop.hit), 'interrupts handled')
    return f


class Inner(Waiting):
    class cmd:
        log, errors, running = [], 0, True

        class err:
            parts = []


def cases(tier):
    q = tier == 'quick'
    return [
        Case('run', run_setup, running(1 if q else 2, 6 if q else 9, 5 if q else 8), 'run() on an idle or a running event loop, Ctrl-C before any one or two of the first turns, '
             'also while one is handled; 1 or 2 events, hooks', ('interrupted', 'undisturbed')),
        Case('contexts', run_setup, inner(12 if q else 16), 'run() with a nested context, Ctrl-C before any two of the first turns'),
        Case('events', setup, script(2 if q else 3, 16, False), 'any %d events out of %d' % (2 if q else 3, len(MENU))),
        Case('exits', setup, script(2 if q else 3, 7 if q else 10, True), 'any events, handlers of interrupt and end of file ending the loop or not'),
        Case('hooks', setup, hooked, 'hooks before the loop that end it or raise, an event, then a second run'),
        Case('again', setup, twice(1 if q else 2, 16), 'any events, then a second run of the same object'),
    ]
