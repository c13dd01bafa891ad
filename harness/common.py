"""Shared by all harnesses: loading the code under test with its terminal replaced by a stub."""
import sys

from symx.api import drive, alphabet, ASCII, PRINTABLE, ANY

ASSUMPTIONS = [
    'CPython 3.12 semantics of str/int/float/re as implemented by the engine in /verif/symx, cross-validated by '
    're-running path models on the real code',
    'the terminal line editor (nessaid_readline) is a stub: it records calls and supplies scripted lines',
    'the event loop is a driver that runs one coroutine at a time to completion',
    'text is any sequence of Unicode scalar values (no lone surrogates) unless a bound says otherwise',
    'z3 is trusted',
]


class Case:
    def __init__(self, name, setup, body, bounds, labels=()):
        self.name, self.setup, self.body, self.bounds, self.labels = name, setup, body, bounds, labels


class FakeReadline:
    """Stand-in for nessaid_readline.async_readline.NessaidAsyncReadline."""

    def __init__(self, loop=None, stdin=None, stdout=None, stderr=None):
        self._enable_bell = False
        self._input_prompt = ''
        self.buffer = ''
        self.lines = []
        self.prompts = []
        self.inserted = []
        self.bells = 0

    def set_prepare_history_entry(self, f):
        pass

    def set_history_size(self, n):
        pass

    def enable_bell(self, b=True):
        self._enable_bell = b

    def set_completer(self, c):
        self.completer = c

    def parse_and_bind(self, s):
        pass

    def get_line_buffer(self):
        return self.buffer

    async def insert_text(self, t):
        self.inserted.append(t)
        if t == '\x7f' or t == '\x08':
            self.buffer = self.buffer[:-1]
        else:
            self.buffer = self.buffer + t

    def play_bell(self):
        self.bells += 1

    async def readline(self, prompt='', **k):
        self.prompts.append(prompt)
        if not self.lines:
            raise ScriptEnd()
        return self.lines.pop(0)

    async def input(self, prompt='', mask_input=False):
        return await self.readline(prompt)


class ScriptEnd(BaseException):
    """No more scripted input lines."""


class FakeLoop:
    def run_until_complete(self, coro):
        return drive(coro)

    def create_task(self, coro):
        coro.close()

    def is_running(self):
        return True


class Sink:
    """Text stream that keeps what is written."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return ''.join(self.parts)


def load_repo():
    import nessaid_readline.async_readline as ar
    ar.NessaidAsyncReadline = FakeReadline
    import nessaid_cli.cli
    import nessaid_cli.cmd
    import nessaid_cli.compiler
    import nessaid_cli.utils
    import nessaid_cli.tokens
    import nessaid_cli.tokenizer.tokenizer


load_repo()


class Log:
    """What handlers were called with."""

    def __init__(self):
        self.calls = []


def make_cli(grammar, root='root', handlers=(), token_classes=(), **kw):
    """A NessaidCli over grammar text whose handlers record their calls."""
    from nessaid_cli.cli import NessaidCli
    from nessaid_cli.compiler import compile_grammar

    class Cli(NessaidCli):
        def get_token_classes(self):
            return list(token_classes)

    for h in handlers:
        setattr(Cli, h, _recorder(h))
    out, err = Sink(), Sink()
    cli = Cli(compile_grammar(grammar), loop=FakeLoop(), stdout=out, stderr=err, **kw)
    cli.log = []
    cli.out, cli.err = out, err
    cli.enter_grammar(root)
    return cli


def _recorder(name):
    def handler(self, *args):
        self.log.append((name,) + args)
    handler.__name__ = name
    return handler


def tab(cli):
    """One TAB the way a line editor asks: candidate 0, 1, ... until there is none. What it gets to show."""
    shown = []
    while True:
        got = drive(cli.complete('', len(shown)))
        if got is None:
            return shown
        shown.append(got)


def run_line(cli, line):
    """exec_line's status and the handler calls it made."""
    n = len(cli.log)
    rc = drive(cli.exec_line(line))
    return rc, cli.log[n:]


def make_cmd(mixin, grammar='', token_classes=(), bases=(), name='Cmds', **kw):
    """A NessaidCmd whose commands come from the mixin classes given."""
    from nessaid_cli.cmd import NessaidCmd
    mixins = mixin if isinstance(mixin, tuple) else (mixin,)
    body = {'__doc__': grammar or None, '__module__': 'harness'}
    for m in reversed(mixins):
        for k, v in vars(m).items():
            if k[:2] != '__':
                body[k] = v
    if token_classes:
        body['get_token_classes'] = lambda self: list(token_classes)
    cls = type(name, tuple(bases) or (NessaidCmd,), body)
    out, err = Sink(), Sink()
    kw.setdefault('loop', FakeLoop())
    cmd = cls(stdout=out, stderr=err, **kw)
    cmd.log = []
    cmd.out, cmd.err = out, err
    return cmd
