"""P29: lines run by commands, and lines run at the same time, do what each does alone."""
from harness.common import Case, ScriptEnd, make_cli, make_cmd
from symx.api import alphabet, drive

LOW = alphabet('uvw')


class Pause:
    """Something to wait for: gives the scheduler a turn."""

    def __await__(self):
        yield


def own(pausing, values=True):
    from nessaid_cli.tokens import CliToken, StringToken, RangedIntToken, MATCH_SUCCESS, MATCH_FAILURE, NullTokenValue

    class Same(CliToken):
        """Accepts the word before it in the line."""

        @property
        def completable(self):
            return False

        @property
        def cacheable(self):
            return False

        async def match(self, token_input, cli):
            for i in range(pausing):
                await Pause()
            v = cli.get_matched_values()
            return MATCH_SUCCESS if v and v[-1] == token_input else MATCH_FAILURE

        async def get_value(self, match_string=None, cli=None):
            if await self.match(match_string, cli) == MATCH_SUCCESS:
                return match_string
            return NullTokenValue

        async def complete(self, token_input, cli):
            return 0, []

    class Own:
        log = None
        inner = None

        def get_token_classes(self):
            return [StringToken, RangedIntToken, Same]

        def note(self, *args):
            self.log.append(('note',) + args + (tuple(self.get_matched_values()) if values else ()))

        async def wait(self, *args):
            self.log.append(('wait',) + args)
            for i in range(pausing):
                await Pause()
            return args[0]

        async def do_put(self, w):
            """
            "put" W << $w = $2; >>
            """
            self.log.append(('put', w))

        async def do_many(self, l):
            """
            "many" << $l = list(); >> ( one[$l] ) * (1:3) << $x = call wait($l); call note($x); >>
            """
            self.log.append(('many',) + tuple(l))

        async def do_set(self, a, b):
            """
            "set" { { "a" W << $a = $2; call wait($a); >> }, { "b" N << $b = $2; call wait($b); >> } }
            """
            self.log.append(('set', a, b))

        async def do_twice(self, w):
            """
            "twice" W S << $w = $2; >>
            """
            self.log.append(('twice', w))

        async def do_fail(self):
            """
            "fail"
            """
            self.log.append(('fail',))
            await self.wait('x')
            raise RuntimeError('handler failed')

        async def do_run(self, w, v):
            """
            "run" << call note("first"); >> W << $w = $2; $v = call line(); call note($w, $v); >>
            """
            self.log.append(('run', w, v))

        async def line(self):
            if self.inner:
                self.log.append(('rc', await self.exec_line(self.inner.pop(0))))
            return 'done'

        async def do_nest(self, w):
            """
            "nest" W << $w = $2; >>
            """
            self.log.append(('nest', w))
            await self.line()
            self.log.append(('nested', w) + (tuple(self.get_matched_values()) if values else ()))

    return Own


GRAMMAR = 'token W StringToken(); token N RangedIntToken(0, 99); token S Same(); one[$l]: W << call wait($1); append($l, $1); >>;'


def new(pausing=0, **kw):
    return make_cmd(own(pausing, not pausing), GRAMMAR, prompt='> ', **kw)


VERBS = ['put', 'many', 'set', 'twice', 'fail', 'run', 'nest', 'zz']


def text(S, label, verbs, n, width=1):
    """A line: a verb and up to n words."""
    verb = S.pick(label, verbs)
    words = [verb]
    if verb == 'set':
        words += S.pick(label + ' set', [[], ['a', S.char(label + ' a', LOW)], ['b', S.char(label + ' b', alphabet('12x'))],
                                         ['b', S.char(label + ' b', alphabet('12x')), 'a', S.char(label + ' a', LOW)]])
    elif verb == 'twice':
        words += [S.char(label + ' word', LOW), S.char(label + ' again', LOW)]
    elif verb != 'fail':
        for i in range(S.choice(label + ' words', n + 1)):
            words.append(S.char('%s word %d' % (label, i), LOW))
    return ' '.join(words)


def alike(x, y):
    if isinstance(x, (tuple, list)):
        return isinstance(y, (tuple, list)) and len(x) == len(y) and all(alike(p, q) for p, q in zip(x, y))
    return x == y


def alone(cmd, line):
    cmd.log = []
    cmd.inner = []
    rc = drive(cmd.exec_line(line))
    return rc, cmd.log, cmd.err.text() != ''


def expected(cmd, line, inner):
    """Log and status of a line whose command runs the inner lines one after the other."""
    n = len(cmd.err.parts)
    rc, log, _ = alone(cmd, line)
    err = len(cmd.err.parts) > n
    if rc == 0 and inner:
        at = [i for i, e in enumerate(log) if e[:2] == ('note', 'first') or e[0] == 'nest']
        if at:
            irc, ilog, ierr, rest = expected(cmd, inner[0], inner[1:])
            i = at[0] + 1
            log = log[:i] + ilog + [('rc', irc)] + log[i:]
            return rc, log, err or ierr, rest
    return rc, log, err, inner


def nested(n, verbs, depth):
    def f(S, env):
        cmd, fresh = env
        line = text(S, 'line', ['run', 'nest'], 1)
        inner = [text(S, 'inner%d' % i, verbs, n) for i in range(depth)]
        rc, log, err, rest = expected(fresh, line, inner)
        cmd.inner = list(inner)
        got = drive(cmd.exec_line(line))
        S.observe('rc', got)
        S.observe('log', cmd.log)
        S.check(got == rc and alike(cmd.log, log), lambda: '%r with %r: %r %r, expected %r %r' % (line, inner, got, cmd.log, rc, log))
        S.check((cmd.err.text() != '') == err, lambda: '%r with %r: error text %r' % (line, inner, cmd.err.text()))
        S.reach('nested' if rest != inner else 'plain')
    return f


def looped(n, verbs):
    """The same from a running loop; the lines after it are not affected."""
    def f(S, env):
        cmd, fresh = env
        line = text(S, 'line', ['run', 'nest'], 1)
        inner = [text(S, 'inner', verbs, n)]
        later = text(S, 'later', ['put', 'many', 'set'], 1)
        if inner[0] != 'quit':
            rc, log, err, rest = expected(fresh, line, inner)
        else:
            rc, log, _ = alone(fresh, line)
            err, rest = False, [] if rc == 0 else inner
            if rc == 0:
                i = 1
                log = log[:i] + [('rc', 0)] + log[i:]
        ended = inner[0] == 'quit' and not rest
        if not ended:
            log = log + alone(fresh, later)[1]
        cmd.inner = list(inner)
        cmd.readline.lines = [line, later]
        try:
            drive(cmd.cmdloop())
            stop = True
        except ScriptEnd:
            stop = False
        S.observe('log', cmd.log)
        S.check(stop == ended and alike(cmd.log, log), lambda: '%r with %r, then %r: %r, expected %r' % (line, inner, later, cmd.log, log))
        S.reach('ended' if ended else 'went on')
    return f


def turns_of(S, cmd, tasks, turns):
    """Results and logs of two coroutines; at each of the first turns either may go on."""
    logs, rcs, done = [[], []], [None, None], [False, False]
    switched = 0
    try:
        for turn in range(1000):
            live = [i for i in range(2) if not done[i]]
            if not live:
                break
            i = S.choice('turn %d' % turn, 2) if len(live) == 2 and turn < turns else live[0]
            switched += len(live) == 2
            cmd.log = logs[i]
            try:
                tasks[i].send(None)
            except StopIteration as e:
                done[i], rcs[i] = True, e.value
    finally:
        for t in tasks:
            t.close()
    return rcs, logs, switched


def beside(n, turns, verbs):
    """A line run while a loop waits for, or runs, its own lines."""
    def f(S, env):
        cmd, fresh = env
        script = [text(S, 'first', verbs, n), text(S, 'second', ['put', 'many'], n)]
        line = text(S, 'line', ['many', 'set', 'fail'], n)
        want = []
        for l in script:
            want += alone(fresh, l)[1]
        rc, log = alone(fresh, line)[:2]
        lines = script + ['quit']

        async def readline(prompt='', **k):
            await Pause()
            return lines.pop(0)

        cmd.readline.readline = readline
        rcs, logs, switched = turns_of(S, cmd, [cmd.cmdloop(), cmd.exec_line(line)], turns)
        S.observe('rcs', rcs)
        S.observe('logs', logs)
        S.check(lines == [] and not cmd.running, lambda: '%r beside %r: not read %r' % (line, script, lines))
        S.check(alike(logs[0], want), lambda: '%r beside %r: the loop ran %r, alone %r' % (line, script, logs[0], want))
        S.check(rcs[1] == rc and alike(logs[1], log), lambda: '%r beside %r: %r %r, alone %r %r' % (line, script, rcs[1], logs[1], rc, log))
        S.reach('together' if switched > 3 else 'apart')
    return f


def meanwhile(n, first, second, turns):
    """Two lines on one object; after every wait either may go on."""
    def f(S, env):
        cmd, fresh = env
        lines = [text(S, 'line', first, n), text(S, 'other', second, n)]
        want = [alone(fresh, l)[:2] for l in lines]
        rcs, logs, switched = turns_of(S, cmd, [cmd.exec_line(l) for l in lines], turns)
        S.observe('rcs', rcs)
        S.observe('logs', logs)
        for i in range(2):
            if lines[i][:5] == 'twice' and (rcs[i], want[i][0]) in ((0, 12), (12, 0)):
                S.reach('known:words-of-the-other-line')
            S.check(rcs[i] == want[i][0] and alike(logs[i], want[i][1]),
                    lambda: '%r at the same time as %r: %r %r, alone %r' % (lines[i], lines[1 - i], rcs[i], logs[i], want[i]))
        S.reach('together' if switched > 3 else 'apart')
    return f


PLAIN = '''
token W StringToken(); token N RangedIntToken(0, 99); one[$l]: W << call wait($1); append($l, $1); call note($l, $v); $v = $1; >>;
root: "put" << call note($x); $x = 1; >> W << call wait($2); $w = $2; >> << call note($1, $2, $w); >>
    | "many" << $l = list(); >> ( one[$l] ) * (1:3) << $x = call wait("z"); call note($x, $l, $1, $2); >>
    | "set" { { "a" W << call note($a); $a = $2; call wait($a); >> }, { "b" N << $b = $2; call wait($b); >> } } << call note($a, $b, $1, $2); >>
    | "run" << call note($v); >> W << call note("first"); $v = call line(); call note($1, $2, $v); >> ;
'''


def copied(v):
    return [copied(x) for x in v] if isinstance(v, (list, tuple)) else v


def plain(pausing=0):
    """An object that is told its grammar once and keeps it for all lines."""
    from nessaid_cli.tokens import StringToken, RangedIntToken
    cli = make_cli(PLAIN, token_classes=[StringToken, RangedIntToken])
    cls = type(cli)

    def note(self, *args):
        self.log.append(('note',) + tuple(copied(args)))

    async def wait(self, *args):
        self.log.append(('wait',) + args)
        for i in range(pausing):
            await Pause()
        return args[0]

    async def line(self):
        if self.inner:
            self.log.append(('rc', await self.exec_line(self.inner.pop(0))))
        return 'done'

    cls.note, cls.wait, cls.line, cls.inner = note, wait, line, None
    return cli


def given_up(S, env):
    """A line given up at one of its waits leaves nothing behind."""
    cmd, fresh = env
    first = text(S, 'line', ['put', 'many', 'set', 'fail'] if hasattr(cmd, 'do_fail') else ['put', 'many', 'set'], 2)
    later = text(S, 'later', ['put', 'many', 'set'], 1)
    rc, log, err = alone(fresh, later)
    task = cmd.exec_line(first)
    cmd.log = []
    turns = S.choice('turns', 3)
    stopped = True
    try:
        for i in range(turns + 1):
            task.send(None)
        task.throw(Stop())
    except Stop:
        pass
    except StopIteration:
        stopped = False
    got = alone(cmd, later)
    S.observe('log', got[1])
    S.check(got[0] == rc and alike(got[1], log), lambda: '%r after %r was given up: %r %r, alone %r' % (later, first, got[0], got[1], log))
    S.reach('given up' if stopped else 'ended')


class Stop(BaseException):
    """What gives a line up, as a cancelled task does."""


def cases(tier):
    q = tier == 'quick'
    both = lambda p: lambda: (new(p), new(p))
    kept = lambda p: lambda: (plain(p), plain(p))
    verbs = ['put', 'many', 'set', 'run', 'zz']
    return [
        Case('nested', both(0), nested(2 if q else 3, VERBS, 2 if q else 3), 'a command running any line of ≤ 2 words, which may run another', ('nested', 'plain')),
        Case('in the loop', both(0), looped(2, VERBS + ['quit']), 'the same in a running loop, followed by any line', ('went on', 'ended')),
        Case('two at a time', both(1), meanwhile(2, ['put', 'many', 'set', 'fail', 'zz'], ['many', 'set'], 4 if q else 7), 'two lines, any order of the first turns', ('together',)),
        Case('beside a loop', both(1), beside(1, 4 if q else 6, ['many', 'zz'] if q else ['put', 'many', 'set', 'fail', 'zz']), 'a line run while a loop reads and runs two lines', ('together',)),
        Case('nested, one grammar', kept(0), nested(2, verbs, 2 if q else 3), 'an action running any line of ≤ 2 words of the same object, which may run another', ('nested', 'plain')),
        Case('two at a time, one grammar', kept(1), meanwhile(2, verbs, ['many', 'set'], 4 if q else 7), 'two lines of one such object, any order of the first turns', ('together',)),
        Case('given up', kept(1), given_up, 'a line of such an object given up at one of its first 3 waits, then any line', ('given up', 'ended')),
        Case('given up, methods', both(1), given_up, 'a line of command methods given up at one of its first 3 waits, then any line', ('given up', 'ended')),
        Case('words before', both(1), meanwhile(1, ['twice'], ['twice', 'put', 'set'], 6 if q else 10), 'two lines, one or both with a class that reads earlier words', ('together',)),
    ]
