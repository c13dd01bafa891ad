N = 'nessaid_cli/'
LOOP = r'''
import time
asyncio.sleep_real = asyncio.sleep


class Hits:
    """Event loop stand-in: Ctrl-C at the given turns."""
    def __init__(self, at, running=False):
        self.at, self.turn, self.tasks, self.running = list(at), 0, [], running
    def is_running(self): return self.running
    def create_task(self, c):
        self.tasks.append(c)
        return c
    def run_until_complete(self, task):
        while task in self.tasks:
            self.turn += 1
            if self.turn > 500: sys.exit('does not end')
            if self.turn in self.at:
                self.at.remove(self.turn)
                raise KeyboardInterrupt()
            for t in list(self.tasks):
                try: t.send(None)
                except StopIteration: self.tasks.remove(t)


class Turn:
    def __await__(self): yield


async def nap(*a): await Turn()


asyncio.sleep = nap
time.sleep = lambda t: None
'''
SPECS = [
 dict(ID='p25-second-ctrl-c', PROPERTY='P25', EDITS=[(N+'cmd.py', '''                        except KeyboardInterrupt:
                            continue
                        else:
                            break
''', '''                        except KeyboardInterrupt:
                            break
                        else:
                            break
''')],
  NEEDS='run(), and Ctrl-C twice so fast that the second comes while the first is handled', BREAKS='neither is passed on and the prompt is not interrupted',
  DEMO=LOOP + r'''
from nessaid_readline.async_readline import NessaidReadlineKeyboadInterrupt
class Cmds(NessaidCmd):
    hits = 0
    def do_bye(self):
        """
        "bye"
        """
        self.exit_loop()
    async def handle_keyboard_interrupt(self):
        self.hits += 1
c = Cmds(loop=Hits([2]), stdout=io.StringIO(), stderr=io.StringIO())
class RL:
    busy, hit, lines = 1, False, ['bye']
    def handle_external_keyboard_interrupt(self):
        if self.busy:
            self.busy -= 1
            raise KeyboardInterrupt()
        self.hit = True
    async def readline(self, *a, **k):
        for i in range(4):
            await Turn()
            if self.hit:
                self.hit = False
                raise NessaidReadlineKeyboadInterrupt()
        return self.lines.pop(0)
    def __getattr__(self, n): return lambda *a, **k: None
c._readline = RL()
c.run()
expect(c.hits, 1)
'''),
 dict(ID='p25-run-flag', PROPERTY='P25', EDITS=[(N+'cmd.py', '''        self.running = True
        loop = self.loop or asyncio.get_event_loop()
''', '''        loop = self.loop or asyncio.get_event_loop()
''')],
  NEEDS='run() in an event loop that runs already, called twice before the first prompt', BREAKS='two loops read from the same terminal',
  DEMO=LOOP + r'''
class Cmds(NessaidCmd):
    def do_bye(self):
        """
        "bye"
        """
c = Cmds(loop=Hits([], True), stdout=io.StringIO(), stderr=io.StringIO())
c.run()
try:
    c.run()
except Exception as e:
    expect(type(e).__name__, 'CliAlreadyRunning')
else:
    sys.exit('started twice')
'''),
 dict(ID='p09-partial-earlier', PROPERTY='P09', EDITS=[(N+'interface.py', '''                        elif dry_run:
                            if not token_list and not last_token_complete:
                                self.append_matching_sequence(matching_sequences, p)
''', '''                        elif dry_run:
                            if not token_list:
                                self.append_matching_sequence(matching_sequences, p)
''')],
  NEEDS='a word that is only the beginning of a value of a token without completions, followed by a blank', BREAKS='words are offered after a word that no command allows',
  DEMO=r'''
class Half(CliToken):
    @property
    def completable(self):
        return False
    async def match(self, token_input, cli):
        return {'ab': MATCH_SUCCESS, 'a': MATCH_PARTIAL}.get(token_input, MATCH_FAILURE)
    async def get_value(self, match_string=None, cli=None):
        return match_string if match_string == 'ab' else NullTokenValue
    async def complete(self, token_input, cli):
        return 0, []
TOKENS.append(Half)
c = make('token H Half(); root: H "x" << call got($1); >>;', 'got')
r = loop.run_until_complete(c.match(['a'], dry_run=True, last_token_complete=True))
expect(r.result, 'failure')
'''),
 dict(ID='p04-first-word', PROPERTY='P04', EDITS=[(N+'interface.py', '''            for i in range(seq_length):
                tokens = set(seq[i] for seq in matching_sequences)
                if len(tokens) == 1:
                    continue
''', '''            for i in range(1, seq_length):
                tokens = set(seq[i] for seq in matching_sequences)
                if len(tokens) == 1:
                    continue
''')],
  NEEDS='a keyword that begins another, in the first place of commands that go on alike', BREAKS='the exact word is ambiguous',
  DEMO=r'''
c = make('root: ( "set" | "setup" ) "x" << call got($1); >>;', 'got')
expect(run(c, 'set x'), (0, [('got', 'set')]))
expect(run(c, 'setu x'), (0, [('got', 'setup')]))
'''),
 dict(ID='p22-lone-cr', PROPERTY='P22', EDITS=[(N+'lex_yacc_common.py', '''        r'(\\n|\\r\\n|\\r)+'
''', '''        r'(\\n|\\r\\n)+'
''')],
  NEEDS='grammar text with lone carriage returns', BREAKS='the text is refused',
  DEMO=r'''
c = make('root: "a"\r"b" << call got(); >>;\r', 'got')
expect(run(c, 'a b'), (0, [('got',)]))
'''),
 dict(ID='p21-comment-end', PROPERTY='P21', EDITS=[(N+'cmd.py', '''                hook_grammar += hook.__doc__.rstrip() + "\\n"
''', '''                hook_grammar += hook.__doc__.rstrip()
''')],
  NEEDS='a command method whose grammar ends in a comment', BREAKS='the rest of the generated rule is part of the comment',
  DEMO=r'''
class Cmds(NessaidCmd):
    def do_a(self):
        """
        "a"   # the only word
        """
        self.log.append('a')
c = Cmds(loop=loop, stdout=io.StringIO(), stderr=io.StringIO())
c.log = []
expect(run(c, 'a'), (0, ['a']))
'''),
 dict(ID='p07-repeat-exit', PROPERTY='P07', EDITS=[(N+'interface.py', '''                            if _c.mandatory or parent.element.repeat_count > 1:
                                break
''', '''                            if _c.mandatory:
                                break
''')],
  NEEDS='a repeated sequence with an optional part at its end', BREAKS='actions after it run at another time, or not',
  DEMO=r'''
c = make('root: ( "a" << call got(1); >> { "b" } << call got(2); >> ) * (1:3) << call got(3); >>;', 'got')
for line, want in (('a', [1, 2, 3]), ('a a', [1, 2, 1, 2, 3]), ('a b a', [1, 2, 1, 2, 3])):
    print(line, run(c, line))
'''),
 dict(ID='p08-partial-runs', PROPERTY='P08', EDITS=[(N+'interface.py', '''                    if last_token == EndOfInpuToken:
                        complete = True
''', '''                    if last_token == EndOfInpuToken or not last_token.next():
                        complete = True
''')],
  NEEDS='', BREAKS='',
  DEMO=r'''
sys.exit('not thought out')
'''),
]
SPECS = [s for s in SPECS if s['ID'] not in ('p08-partial-runs', 'p07-repeat-exit')]
