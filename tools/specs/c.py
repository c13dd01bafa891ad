N = 'nessaid_cli/'
SPECS = [
 dict(ID='p03-escaped-backslash', PROPERTY='P03', EDITS=[(N+'utils.py', '''        parts = converted_str.split("\\\\\\\\")
''', '''        parts = converted_str.split("\\\\\\\\", 2)
''')],
  NEEDS='three escaped backslashes in one word, the third before a letter of an escape', BREAKS='the third is read as the start of an escape',
  DEMO=r'''
c = make('token S StringToken(); root: "a" S << call got($2); >>;', 'got')
expect(run(c, 'a "x\\\\y\\\\z\\\\n"'), (0, [('got', 'x\\y\\z\\n')]))
'''),
 dict(ID='p05-last-reading', PROPERTY='P05', EDITS=[(N+'interface.py', '''                    if complete:
                        seq_complete = True
                        complete_sequences.append(matching_sequence)
''', '''                    seq_complete = complete
                    if complete:
                        complete_sequences.append(matching_sequence)
''')],
  NEEDS='a line that is complete in one reading and the beginning of another', BREAKS='whether it is executed depends on which reading comes last',
  DEMO=r'''
import itertools
for rule in ('"a" << call got(1); >> | "a" "b" << call got(2); >>', '"a" "b" << call got(2); >> | "a" << call got(1); >>'):
    c = make('root: %s;' % rule, 'got')
    for i in range(20):
        expect(run(c, 'a'), (0, [('got', 1)]))
'''),
 dict(ID='p06-reversed-limits', PROPERTY='P06', EDITS=[(N+'compiler.py', '''            repeater_range = (min(rmin, rmax), max(rmin, rmax))
''', '''            repeater_range = (rmin, max(rmin, rmax))
''')],
  NEEDS='limits written in the other order', BREAKS='the lower limit is lost',
  DEMO=r'''
c = make('root: "a" * (3:1) << call got(); >>;', 'got')
expect([run(c, l)[0] for l in ('a', 'a a', 'a a a', 'a a a a')], [0, 0, 0, 12])
'''),
 dict(ID='p11-rounded', PROPERTY='P11', EDITS=[(N+'tokens.py', '''            number = float(match_string)
            if number >= self._start and number <= self._end:
                return number
''', '''            number = round(float(match_string), 6)
            if number >= self._start and number <= self._end:
                return number
''')],
  NEEDS='a number with more than six decimals', BREAKS='the value is another number, or a number just outside is accepted',
  DEMO=r'''
c = make('token D RangedDecimalToken(0, 1); root: "a" D << call got($2); >>;', 'got')
expect(run(c, 'a 0.12345678'), (0, [('got', 0.12345678)]))
expect(run(c, 'a 1.00000001')[1], [])
'''),
 dict(ID='p14-reversed-limits', PROPERTY='P14', EDITS=[(N+'tokens.py', '''        self._min_len = min(int(min_len), int(max_len))
        self._max_len = max(int(min_len), int(max_len))
''', '''        self._min_len = min(int(min_len), int(max_len))
        self._max_len = max(self._min_len, int(max_len))
''')],
  NEEDS='limits given in the other order', BREAKS='only the shortest length is accepted',
  DEMO=r'''
c = make('token S RangedStringToken(4, 2); root: "a" S << call got($2); >>;', 'got')
expect([run(c, 'a ' + 'x' * n)[0] for n in range(1, 6)], [12, 0, 0, 0, 12])
'''),
 dict(ID='p17-file-last-line', PROPERTY='P17', EDITS=[(N+'cli.py', '''                lines = [l.rstrip() for l in fd.readlines()]
''', '''                lines = [l.rstrip("\\n") for l in fd.readlines() if l.strip()]
''')],
  NEEDS='a continued line of a command file that is followed by an empty line', BREAKS='the empty line does not end the continued one',
  DEMO=r'''
import tempfile, os
d = tempfile.mkdtemp()
f = os.path.join(d, 'f')
open(f, 'w').write('a \\\n\nb\n')
class Cli(NessaidCli):
    def get_token_classes(self):
        return TOKENS
    def got(self, x):
        self.log.append(x)
    async def preloop(self):
        self.log = []
    async def get_next_line(self, prompt, **k):
        if not self.file_data:
            self.exit_loop()
            return ''
        return await super().get_next_line(prompt, **k)
c = Cli(compile_grammar('root: "a" << call got(1); >> | "b" << call got(2); >>;'), loop=loop, stdout=io.StringIO(), stderr=io.StringIO(), filename=f)
try:
    loop.run_until_complete(c.cmdloop('root'))
finally:
    os.remove(f)
    os.rmdir(d)
expect(c.log, [1, 2])
'''),
 dict(ID='p20-append-list', PROPERTY='P20', EDITS=[(N+'interface.py', '''                if isinstance(r, list):
                    r += [arg]
''', '''                if isinstance(r, list):
                    r += arg if isinstance(arg, list) else [arg]
''')],
  NEEDS='a list appended to a list', BREAKS='its entries are appended instead',
  DEMO=r'''
c = make('root: << $l = list(1); >> "a" << append($l, list(2, 3)); call got($l); >>;', 'got')
expect(run(c, 'a'), (0, [('got', [1, [2, 3]])]))
'''),
 dict(ID='p21-prefix-anywhere', PROPERTY='P21', EDITS=[(N+'cmd.py', '''for f in dir(self) if f.startswith(cli_hook_prefix) and callable''', '''for f in dir(self) if cli_hook_prefix in f and callable''')],
  NEEDS='a documented method whose name contains the prefix further inside', BREAKS='it becomes a command',
  DEMO=r'''
class C(NessaidCmd):
    def undo_a(self):
        """
        "u"
        """
        self.log.append('u')
    def do_a(self):
        """
        "a"
        """
        self.log.append('a')
c = C(loop=loop, stdout=io.StringIO(), stderr=io.StringIO())
c.log = []
loop.run_until_complete(c.exec_line('a'))
loop.run_until_complete(c.exec_line('u'))
expect(c.log, ['a'])
'''),
 dict(ID='p13-plain-alternatives', PROPERTY='P13', EDITS=[(N+'tokens.py', '''        self._cli_strings = [convert_to_cli_string(s) for s in self._alternatives]
''', '''        self._cli_strings = [convert_to_cli_string(s) if " " in s else s for s in self._alternatives]
''')],
  NEEDS='an alternative with a double quote or a backslash and no blank', BREAKS='typed as it must be it is refused',
  DEMO=r'''
c = make('token A AlternativeStringsToken("x\\"y", "z"); root: "a" A << call got($2); >>;', 'got')
expect(run(c, 'a "x\\"y"'), (0, [('got', 'x"y')]))
'''),
 dict(ID='p15-infix', PROPERTY='P15', EDITS=[(N+'tokens.py', '''partial=True) for c in children if c.startswith(segment) and''', '''partial=True) for c in children if c.startswith(segment.rstrip("~")) and''')],
  NEEDS='a path part that ends with a tilde', BREAKS='names without it are taken for completions',
  DEMO=r'''
import tempfile, os
d = tempfile.mkdtemp()
old = os.getcwd()
os.chdir(d)
open('ab', 'w').close()
t = PathToken('P')
try:
    got = loop.run_until_complete(t.match('a~'))
finally:
    os.chdir(old)
    os.remove(d + '/ab')
    os.rmdir(d)
expect(got, 'failure')
'''),
 dict(ID='p29-shared-stack', PROPERTY='P29', EDITS=[(N+'interface.py', '''        self._grammar_stack = []
        self._element_stack_cache = {}

    @property
    def root_arglist''', '''        self._grammar_stack = []

    _element_stack_cache = {}

    @property
    def root_arglist''')],
  NEEDS='a line run by a command of the same rule', BREAKS='the outer line goes on with the nodes of the inner one',
  DEMO=r'''
c = make('token S StringToken(); root: "a" S << call got($2); call again($2); call got($2); >> ;', 'got')
async def again(x):
    if x == '1':
        await c.exec_line('a 2')
c.again = again
expect(run(c, 'a 1'), (0, [('got', '1'), ('got', '2'), ('got', '2'), ('got', '1')]))
'''),
 dict(ID='p19-help-key', PROPERTY='P19', EDITS=[(N+'interface.py', '''            token_value_key = (token, token_input)
''', '''            token_value_key = (token.helpstring, token_input)
''')],
  NEEDS='two tokens with one help text that read the same word differently', BREAKS='a later line gets the value an earlier one cached',
  DEMO=r'''
class Up(StringToken):
    async def get_value(self, match_string=None, cli=None):
        return match_string.upper()
TOKENS.append(Up)
c = make('token S StringToken(); token U Up(); root: "a" S << call got($2); >> | "b" U << call got($2); >>;', 'got')
expect(run(c, 'a x'), (0, [('got', 'x')]))
expect(run(c, 'b x'), (0, [('got', 'X')]))
'''),
 dict(ID='p27-wide-help', PROPERTY='P27', EDITS=[(N+'cli.py', '''            if len(comp) <= max_len:
                comp += " " * (max_len - len(comp))
            if helps[i]:
                comp += (" :    " + helps[i])
            completions.append(comp)
''', '''            if len(comp) <= max_len:
                comp += " " * (max_len - len(comp))
                if helps[i]:
                    comp += (" :    " + helps[i])
            completions.append(comp)
''')],
  NEEDS='a completion of more than 40 characters with a help text', BREAKS='its help is not shown',
  DEMO=r'''
long = 'k' * 45
c = make('root: "%s": "the help" | "b": "other";' % long)
async def go():
    m = await c.match([], dry_run=True)
    return c.process_completion_tokens(m.next_tokens)
expect(any('the help' in l for l in loop.run_until_complete(go())), True)
'''),
]
SPECS = [s for s in SPECS if s['DEMO'].strip()]
