"""P17: command files and continued lines execute as one stream of logical lines."""
import os
import shutil
import tempfile

from harness.common import Case, FakeReadline, make_cmd, ScriptEnd
from symx.api import alphabet, drive

ASSUMPTIONS = ['command files are a stub of open() in symbolic mode and real files in a scratch directory in concrete mode; '
               'their lines end with newline characters']


class Commands:
    def do_a(self, n):
        """
        "a" { "1" << $n = "1"; >> }
        """
        self.log.append(('a', n))

    def do_hash(self):
        """
        "a" "#1"
        """
        self.log.append(('hash',))

    def do_fail(self):
        """
        "fail"
        """
        self.log.append(('fail',))
        raise RuntimeError('handler failed')

    async def do_ask(self):
        """
        "ask"
        """
        line = await self.input('? ')
        self.log.append(('ask', line))

    def do_src(self, which):
        """
        "src" ( "1" << $which = "1"; >> | "2" << $which = "2"; >> | "none" << $which = "none"; >> )
        """
        self.log.append(('src', which))
        self.add_file_to_execute(which)

    def do_quit(self):
        """
        "quit"
        """
        self.log.append(('quit',))
        self.exit_loop()


def setup():
    both = {first: make_cmd(Commands, disable_default_hooks=True, use_base_grammar=False, filename=first) for first in (None, '1')}
    return lambda filename: both[filename]


class ModelFile:
    def __init__(self, text):
        self.text = text

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def readlines(self):
        out, at = [], 0
        while True:
            i = self.text.find('\n', at)
            if i < 0:
                break
            out.append(self.text[at:i + 1])
            at = i + 1
        if at < len(self.text):
            out.append(self.text[at:])
        return out

    def __iter__(self):
        return iter(self.readlines())

    def read(self):
        return self.text

    def close(self):
        pass


class Files:
    """The named command files while a script runs."""

    def __init__(self, S, cmd, texts):
        self.S, self.cmd, self.texts = S, cmd, texts

    def __enter__(self):
        import nessaid_cli.cli as C
        self.C = C
        if self.S.symbolic:
            def model_open(name, *a, **k):
                if name not in self.texts:
                    raise FileNotFoundError(name)
                return ModelFile(self.texts[name])
            C.open = model_open
        else:
            self.back = os.getcwd()
            self.dir = tempfile.mkdtemp(prefix='verif-p17-')
            os.chdir(self.dir)
            for n, t in self.texts.items():
                with open(n, 'w', newline='') as f:
                    f.write(t)
        return self

    def __exit__(self, *a):
        if self.S.symbolic:
            del self.C.open
        else:
            os.chdir(self.back)
            shutil.rmtree(self.dir)
        return False


def run(cmd, lines):
    """Feed terminal lines to the command loop; True when the loop was left before they ran out."""
    cmd.readline.lines = list(lines)
    try:
        drive(cmd.cmdloop())
    except ScriptEnd:
        return False
    return True


class Stream:
    """Lines of open files, innermost first, then the terminal's."""

    def __init__(self, lines):
        self.files, self.lines = [], list(lines)

    def next(self):
        while self.files:
            if self.files[-1]:
                return self.files[-1].pop(0)
            self.files.pop()
        return self.lines.pop(0) if self.lines else None


def words(line):
    return [w for w in line.replace('\t', ' ').split(' ') if w]


def selects(text, ws):
    """Do the words select that command? Keywords may be abbreviated as far as they stay unique."""
    ks = text.split(' ')
    return len(ws) == len(ks) and all(k.startswith(w) for k, w in zip(ks, ws))


COMMANDS = ['a', 'a 1', 'a #1', 'fail', 'ask', 'src 1', 'src 2', 'src none', 'quit']


def command(logical):
    """The command a logical line runs, if any."""
    ws = words(logical)
    if not ws:
        return None
    for c in COMMANDS:
        if words(c) == ws:
            return c
    got = [c for c in COMMANDS if selects(c, ws)]
    return got[0] if len(got) == 1 else None


def oracle(lines, texts, first=None):
    """What the script does: the log, and whether it ends before its lines run out."""
    s = Stream(lines)
    log = []

    def source(n):
        if n in texts:
            t = texts[n]
            ls = t.split('\n')
            if ls[-1] == '':
                ls.pop()
            s.files.append([l.rstrip() for l in ls])
    if first:
        source(first)
    while True:
        logical = ''
        while True:
            l = s.next()
            if l is None:
                return log, False
            logical = logical + l
            r = logical.rstrip()
            if not r.endswith('\\'):
                break
            logical = r[:-1]
        if logical.lstrip().startswith('#'):
            continue
        if '\\' in logical:
            continue
        c = command(logical)
        if c is None:
            continue
        if c == 'a':
            log.append(('a', ''))
        elif c == 'a 1':
            log.append(('a', '1'))
        elif c == 'a #1':
            log.append(('hash',))
        elif c == 'fail':
            log.append(('fail',))
        elif c == 'ask':
            l = s.next()
            if l is None:
                return log, False
            log.append(('ask', l))
        elif c == 'quit':
            log.append(('quit',))
            return log, True
        else:
            n = c[4:]
            log.append(('src', n))
            source(n)


def judge(S, new, lines, texts, first=None):
    cmd = new(filename=first)
    with Files(S, cmd, texts):
        ended = run(cmd, lines)
    S.observe('log', cmd.log)
    S.observe('ended', ended)
    want, wend = oracle(lines, texts, first)
    S.check(len(cmd.log) == len(want) and all(g == w for g, w in zip(cmd.log, want)),
            lambda: 'lines %r, files %r: ran %r, expected %r' % (lines, texts, cmd.log, want))
    S.check(ended == wend, 'end of the loop')
    S.check(not cmd.running and cmd.top_cli is cmd, 'state after the loop')
    if want:
        S.reach('ran')


def terminal(n, width, alpha):
    """Arbitrary text lines from the terminal."""
    def f(S, new):
        lines = [S.str('line%d' % i, 0, width, alpha) for i in range(n)]
        judge(S, new, lines + ['a'], {})
    return f


def onefile(n, width, alpha):
    """Arbitrary text lines in a command file."""
    def f(S, new):
        lines = [S.str('line%d' % i, 0, width, alpha) for i in range(n)]
        text = '\n'.join(lines) + S.pick('end', ['\n', ''])
        if S.bool('given at start'):
            judge(S, new, ['a 1'], {'1': text}, '1')
        else:
            judge(S, new, ['src 1', 'a 1'], {'1': text})
    return f


MENU = ['a', 'src 2', 'a \\', '1 ', ' # c', '', 'bad', 'ask', 'fail', 'src none', 'quit', '# \\']
MENU2 = ['a 1', 'a\\  ', '#', 'ask', 'quit', '']


def script(n1, n2, k1, k2):
    """Any script over a menu of lines: terminal, file 1 and file 2 (started from either)."""
    def f(S, new):
        inner = [S.pick('inner%d' % i, MENU2[:k2]) for i in range(S.choice('inner lines', n2 + 1))]
        outer = [S.pick('outer%d' % i, MENU[:k1]) for i in range(S.choice('outer lines', n1 + 1))]
        texts = {'1': ''.join(l + '\n' for l in outer), '2': ''.join(l + '\n' for l in inner)}
        start = S.pick('start', ['src 1', 'src 2', 'at start'])
        if start == 'at start':
            judge(S, new, ['a', 'src 2', 'ask', '1', 'a'], texts, '1')
        else:
            judge(S, new, [start, 'a', 'ask', '1', 'a'], texts)
    return f


class Inputs:
    """Commands that ask for more text in every way."""
    def do_ask(self, n):
        """
        "ask" << $n = input("? "); >>
        """
        self.log.append(('ask', n))

    def do_hide(self, n):
        """
        "hide" << $n = input("pin? ", False); >>
        """
        self.log.append(('hide', n))

    async def do_pin(self):
        """
        "pin"
        """
        self.log.append(('pin', await self.input('pin? ', show_char=False)))

    async def do_key(self):
        """
        "key"
        """
        self.log.append(('key', await self.input('key? ', from_stdin=True)))

    async def do_two(self):
        """
        "two"
        """
        one = await self.input('1? ', show_prompt_for_file_lines=False)
        self.log.append(('two', one, await self.input('2? ')))

    def do_src(self, which):
        """
        "src" ( "1" << $which = "1"; >> | "2" << $which = "2"; >> )
        """
        self.log.append(('src', which))
        self.add_file_to_execute(which)


class Keyboard(FakeReadline):
    async def readline(self, prompt='', **k):
        self.seen.append(('line', prompt))
        if not self.lines:
            raise ScriptEnd()
        return self.lines.pop(0)

    async def input(self, prompt='', mask_input=False):
        self.seen.append(('hidden' if mask_input else 'text', prompt))
        if not self.lines:
            raise ScriptEnd()
        return self.lines.pop(0)


def setup_inputs():
    import nessaid_cli.cli as C
    C.NessaidAsyncReadline = Keyboard
    try:
        cmd = make_cmd(Inputs, disable_default_hooks=True, use_base_grammar=False, prompt='> ')
    finally:
        C.NessaidAsyncReadline = FakeReadline
    cmd.readline.seen = []
    return cmd


class Asked:
    """What the commands get to read, and what is shown."""

    def __init__(self, lines, texts):
        self.terminal, self.files, self.log, self.seen, self.out = list(lines), [], [], [], ''
        try:
            while True:
                l = self.read('line', '> ')
                if l == 'ask':
                    self.log.append((l, self.action('text', '? ')))
                elif l == 'hide':
                    self.log.append((l, self.action('hidden', 'pin? ')))
                elif l == 'pin':
                    self.log.append((l, self.read('hidden', 'pin? ')))
                elif l == 'key':
                    self.log.append((l, self.read('text', 'key? ', keyboard=True)))
                elif l == 'two':
                    one = self.read('text', '1? ', show_prompt=False)
                    self.log.append((l, one, self.read('text', '2? ')))
                elif l[:4] == 'src ':
                    self.log.append(('src', l[4:]))
                    if texts[l[4:]]:
                        self.files.append(list(texts[l[4:]]))
        except ScriptEnd:
            pass

    def action(self, kind, prompt):
        try:
            return self.read(kind, prompt)
        except ScriptEnd:
            return ''        # input() of an action answers nothing when reading fails

    def read(self, kind, prompt, keyboard=False, show_prompt=True):
        if self.files and not keyboard:
            l = self.files[-1].pop(0)
            if not self.files[-1]:
                self.files.pop()
            self.out += (prompt if show_prompt else '') + ('*' * len(l) if kind == 'hidden' else l) + '\n'
            return l
        self.seen.append((kind, prompt))
        if not self.terminal:
            raise ScriptEnd()
        return self.terminal.pop(0)


IMENU = ['ask', 'pin', 'key', 'two', 'hide', 'src 2']


def inputs(n, m, k, t):
    """Commands reading text, in a file, in a file started from it, and from the terminal."""
    def f(S, cmd):
        def text(label):
            return S.char(label, alphabet('uv01'))
        start = S.bool('from a file')
        one = [S.pick('command%d' % i, IMENU[:k]) for i in range(n)]
        one += [text('text%d' % i) for i in range(S.choice('texts', 3))]
        two = [text('inner text')] if S.bool('inner') else []
        if m:
            two.append(S.pick('inner command', IMENU[:3]))
        term = [text('typed%d' % i) for i in range(t)]
        lines = (['src 1'] + term) if start else one + term
        lists = {'1': one if start else [], '2': two}
        texts = {n: ''.join(l + '\n' for l in ls) for n, ls in lists.items()}
        with Files(S, cmd, texts):
            run(cmd, lines)
        w = Asked(lines, lists)
        S.observe('log', cmd.log)
        S.observe('out', cmd.out.text())
        S.check(len(cmd.log) == len(w.log) and all(len(g) == len(v) and all(x == y for x, y in zip(g, v)) for g, v in zip(cmd.log, w.log)),
                lambda: 'lines %r, files %r: ran %r, expected %r' % (lines, texts, cmd.log, w.log))
        S.check(cmd.readline.seen == w.seen, lambda: 'asked %r, expected %r' % (cmd.readline.seen, w.seen))
        S.check(cmd.out.text() == w.out, lambda: 'shown %r, expected %r' % (cmd.out.text(), w.out))
        S.reach('asked' if cmd.log else 'nothing')
    return f


def cases(tier):
    q = tier == 'quick'
    al = alphabet('a1 #\\')
    return [
        Case('terminal', setup, terminal(2, 3 if q else 4, al), 'two terminal lines of up to %d characters of "a1 #\\\\", then one more' % (3 if q else 4), ('ran',)),
        Case('three lines', setup, terminal(3, 1 if q else 2, al), 'three terminal lines of up to %d characters of "a1 #\\\\"' % (1 if q else 2), ('ran',)),
        Case('file', setup, onefile(2, 2 if q else 3, al), 'a command file of two lines of up to %d characters' % (2 if q else 3), ('ran',)),
        Case('scripts', setup, script(2, 1, 8, 3) if q else script(2, 2, 12, 6), 'files of up to two lines out of menus of %s lines, started in any way' % ('8 and 3' if q else '12 and 6'), ('ran',)),
        Case('inputs', setup_inputs, inputs(2, 0 if q else 1, 6, 2 if q else 3), 'commands asking for text, hidden or not, from the terminal or the file they are in', ('asked',)),
        Case('short scripts', setup, script(1, 1, 12, 6), 'files of up to one line out of menus of 12 and 6 lines, started in any way', ('ran',)),
    ]
