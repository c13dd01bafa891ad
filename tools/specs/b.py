N = 'nessaid_cli/'
SPECS = [
 dict(ID='p24-raising-match', PROPERTY='P24', EDITS=[(N+'interface.py', '''                return token.match(token_input, cli=self)
        except:
            return MATCH_FAILURE
''', '''                return token.match(token_input, cli=self)
        except:
            return MATCH_PARTIAL
''')],
  NEEDS='a token class whose match raises for a word its get_value gives a value for', BREAKS='the word is accepted',
  DEMO=r'''
class T(StringToken):
    async def match(self, token_input, cli=None):
        if len(token_input) > 2:
            raise ValueError(token_input)
        return MATCH_SUCCESS
TOKENS.append(T)
c = make('token X T(); root: "a" X << call got($2); >>;', 'got')
expect(run(c, 'a bc'), (0, [('got', 'bc')]))
expect(run(c, 'a bcd')[1], [])
'''),
 dict(ID='p24-null-counted', PROPERTY='P24', EDITS=[(N+'interface.py', '''                    for t in sequence:
                        token = self.get_token(t.name)
                        value = await self.get_token_value(token, tok_list[i])
                        if value is not NullTokenValue:
                            self._matched_values.append(value)
''', '''                    for t in sequence[:-1] if len(sequence) > 2 else sequence:
                        token = self.get_token(t.name)
                        value = await self.get_token_value(token, tok_list[i])
                        if value is not NullTokenValue:
                            self._matched_values.append(value)
''')],
  NEEDS='a token class that reads get_matched_values as the fourth or later word', BREAKS='the value of the word just before is missing',
  DEMO=r'''
class Same(StringToken):
    @property
    def cacheable(self):
        return False
    async def match(self, token_input, cli=None):
        return MATCH_SUCCESS if cli.get_matched_values()[-1] == token_input else MATCH_FAILURE
TOKENS.append(Same)
c = make('token S StringToken(); token X Same(); root: "a" S S X << call got($4); >>;', 'got')
expect(run(c, 'a b c c'), (0, [('got', 'c')]))
'''),
 dict(ID='p25-exit-flag', PROPERTY='P25', EDITS=[(N+'cli.py', '''            await self.on_exit()
            self._exit_loop = False
            self.exit_grammar()
''', '''            await self.on_exit()
            self.exit_grammar()
''')],
  NEEDS='the loop of one object run a second time after exit_loop', BREAKS='the second loop ends at once',
  DEMO=r'''
class C(NessaidCmd):
    def do_a(self):
        """
        "a"
        """
        self.n = getattr(self, 'n', 0) + 1
c = C(loop=loop, stdout=io.StringIO(), stderr=io.StringIO())
lines = []
async def readline(*a, **k):
    return lines.pop(0)
c.readline.readline = readline
for i in range(2):
    lines[:] = ['a', 'exit']
    loop.run_until_complete(asyncio.wait_for(c.cmdloop(), 20))
expect((c.n, lines), (2, []))
'''),
 dict(ID='p25-hook-failure', PROPERTY='P25', EDITS=[(N+'cli.py', '''        finally:
            await self.on_exit()
            self._exit_loop = False
            self.exit_grammar()
            self._running = False
''', '''        finally:
            if self._exit_loop:
                await self.on_exit()
            self._exit_loop = False
            self.exit_grammar()
            self._running = False
''')],
  NEEDS='a loop that ends by an exception of a hook (or of the terminal) instead of exit_loop', BREAKS='on_exit is not called',
  DEMO=r'''
class C(NessaidCmd):
    left = 0
    def do_a(self):
        """
        "a"
        """
    async def postintro(self):
        raise RuntimeError('no')
    async def on_exit(self):
        self.left += 1
c = C(loop=loop, stdout=io.StringIO(), stderr=io.StringIO())
try:
    loop.run_until_complete(c.cmdloop())
except RuntimeError:
    pass
expect(c.left, 1)
'''),
 dict(ID='p26-falsy-default', PROPERTY='P26', EDITS=[(N+'elements.py', '''        if param.has_def_value:
            param_map[str(param)] = CliArgument(param.defvalue)
''', '''        if param.defvalue:
            param_map[str(param)] = CliArgument(param.defvalue)
''')],
  NEEDS='a parameter whose default is 0 or the empty text', BREAKS='it is None',
  DEMO=r'''
c = make('g[$a, $b = 0]: "x" << call got($b); >>; root: << $v = 1; >> g[$v];', 'got')
expect(run(c, 'x'), (0, [('got', 0)]))
'''),
 dict(ID='p26-last-named', PROPERTY='P26', EDITS=[(N+'elements.py', '''            for param in param_list:
                if arg.param_name == param:
                    param_map[arg.param_name] = arg
                    param_list.remove(param)
                    break
''', '''            for param in param_list:
                if arg.param_name == param:
                    param_map[arg.param_name] = arg
                    break
''')],
  NEEDS='an argument given by name', BREAKS='the default or None replaces it',
  DEMO=r'''
c = make('g[$a, $b = "d"]: "x" << call got($a, $b); >>; root: << $v = "1"; >> g[$v, $b = "2"];', 'got')
expect(run(c, 'x'), (0, [('got', '1', '2')]))
'''),
 dict(ID='p26-reference-node', PROPERTY='P26', EDITS=[(N+'interface.py', '''            for arg in arglist:
                if arg.var_id in param_mapping:
                    res = await self.resolve_argument(param_mapping[arg.var_id])
                    arg.assign(res)
                    element_node.add_named_variable(arg)
''', '''            for arg in arglist:
                if arg.var_id in param_mapping:
                    res = await self.resolve_argument(param_mapping[arg.var_id])
                    if res is not None:
                        arg.assign(res)
                        element_node.add_named_variable(arg)
''')],
  NEEDS='a parameter without a value (None or no argument), and a second assignment or read of it', BREAKS='the parameter is not a variable of the rule, reading it gives None... or a variable passed on is lost',
  DEMO=r'''
c = make('h[$q]: "y" << $q = "set"; >>; g[$p]: h[$p] << call got($p); >>; root: g[None];', 'got')
expect(run(c, 'y'), (0, [('got', 'set')]))
'''),
 dict(ID='p27-cut-completion', PROPERTY='P27', EDITS=[(N+'cli.py', '''            if len(comp) <= max_len:
                comp += " " * (max_len - len(comp))
            if helps[i]:
''', '''            comp = comp[:max_len] + " " * (max_len - len(comp))
            if helps[i]:
''')],
  NEEDS='a completion of more than 40 characters', BREAKS='it is cut in the list',
  DEMO=r'''
w = 'x' * 45
c = make('root: "%s" | "b";' % w)
expect(any(l.startswith(w) for l in c.process_completion_tokens([w, 'b'])), True)
'''),
 dict(ID='p27-help-by-name', PROPERTY='P27', EDITS=[(N+'interface.py', '''                next_tokens.add(self.get_token(c.name, c.helpstring))
''', '''                if not any(t.name == c.name for t in next_tokens):
                    next_tokens.add(self.get_token(c.name, c.helpstring))
''')],
  NEEDS='one token used with two help texts in one place', BREAKS='only one of them is listed',
  DEMO=r'''
c = make('token S StringToken(); root: "a" S: "a name" "x" | "a" S: "a place" "y";')
r = loop.run_until_complete(c.match(['a'], dry_run=True, last_token_complete=True))
expect(sorted(str(t) for t in r.next_tokens), ['a name', 'a place'])
'''),
 dict(ID='p27-newline-sorted', PROPERTY='P27', EDITS=[(N+'cli.py', '''        completions = sorted(completions)

        if add_completion_token:
            comp = 'NEWLINE'
            if len(comp) <= max_len:
                comp += " " * (max_len - len(comp))
                comp += (" :    " + "Complete command")
                completions.append(comp)

        return completions
''', '''        if add_completion_token:
            comp = 'NEWLINE'
            if len(comp) <= max_len:
                comp += " " * (max_len - len(comp))
                comp += (" :    " + "Complete command")
                completions.append(comp)

        return sorted(completions)
''')],
  NEEDS='a command that may end where other words may follow', BREAKS='the line that says so is not the last',
  DEMO=r'''
c = make('root: "a" { "b" };')
expect(c.process_completion_tokens(['b', 'NEWLINE: Complete command'])[-1][:7], 'NEWLINE')
'''),
 dict(ID='p28-profiled-arguments', PROPERTY='P28', EDITS=[(N+'cmd.py', '''                res = await super().match(tok_list, dry_run, last_token_complete, arglist)
            if self._enable_profiling and enable_profiling:
''', '''                res = await super().match(tok_list, dry_run, last_token_complete)
            if self._enable_profiling and enable_profiling:
''')],
  NEEDS='a command run while profiling is on', BREAKS='it is reported as failed after it ran',
  DEMO=r'''
import contextlib
class C(NessaidCmd):
    def do_a(self):
        """
        "a"
        """
c = C(loop=loop, stdout=io.StringIO(), stderr=io.StringIO())
with contextlib.redirect_stdout(io.StringIO()):
    expect(c.exec_args('cmd-profiling', 'on'), 0)
    rc = c.exec_args('a')
expect(rc, 0)
'''),
 dict(ID='p28-timing-once', PROPERTY='P28', EDITS=[(N+'cmd.py', '''        self._timing_command = False

        enable_profiling = self._enable_profiling

        if dry_run''', '''        enable_profiling = self._enable_profiling

        if dry_run'''), (N+'cmd.py', '''        self._timing_command = False
        self._profiling_command = False
        return res
''', '''        self._timing_command = self._profiling_command = False
        return res
'''), (N+'cmd.py', '''        self._profiling_command = True
        self._enable_profiling = enable_profiling
''', '''        self._timing_command = self._profiling_command = True
        self._enable_profiling = enable_profiling
''')],
  NEEDS='profiling switched while timing is on', BREAKS='no time is printed for that command',
  DEMO=r'''
import contextlib
class C(NessaidCmd):
    def do_a(self):
        """
        "a"
        """
out = io.StringIO()
c = C(loop=loop, stdout=out, stderr=io.StringIO())
c.exec_args('cmd-timing', 'on')
n = out.getvalue().count('Time taken')
c.exec_args('cmd-profiling', 'off')
expect(out.getvalue().count('Time taken'), n + 1)
'''),
 dict(ID='p28-system-info', PROPERTY='P28', EDITS=[(N+'cmd.py', '''            self.do__exit = None
            self.do__timing = None
            self.do__profile = None
            self.do__system_info = None
''', '''            for hook in (self.do__exit, self.do__timing, self.do__system_info):
                setattr(self, hook.__name__, None)
''')],
  NEEDS='an object with the built-in commands disabled', BREAKS='cmd-profiling still works',
  DEMO=r'''
class C(NessaidCmd):
    def do_a(self):
        """
        "a"
        """
c = C(loop=loop, disable_default_hooks=True, stdout=io.StringIO(), stderr=io.StringIO())
expect(c.exec_args('cmd-profiling', 'on') != 0, True)
'''),
 dict(ID='p29-one-exit', PROPERTY='P29', EDITS=[(N+'interface.py', '''            self._grammar_stack.pop()
        except Exception as e:''', '''            self._grammar_stack.clear()
        except Exception as e:''')],
  NEEDS='a line run from a command (or beside another one)', BREAKS='the grammar the outer line runs in is gone: its end, or the next line, fails',
  DEMO=r'''
class C(NessaidCmd):
    async def do_a(self):
        """
        "a"
        """
        log.append(await self.exec_line('b'))
    def do_b(self):
        """
        "b"
        """
        log.append('b')
log = []
c = C(loop=loop, stdout=io.StringIO(), stderr=io.StringIO())
lines = ['a', 'b', 'exit']
async def readline(*a, **k):
    if not lines:
        sys.exit('the loop does not end: %r' % log)
    return lines.pop(0)
c.readline.readline = readline
loop.run_until_complete(c.cmdloop())
expect(log, ['b', 0, 'b'])
'''),
 dict(ID='p02-cached-quotes', PROPERTY='P02', EDITS=[(N+'utils.py', '''        if not hasattr(cli_string, "quote_incomplete") or not cli_string.quote_incomplete:
            if converted_str.endswith('"'):
                converted_str = converted_str[:-1]
''', '''        if not hasattr(cli_string, "quote_incomplete") or not cli_string.quote_incomplete:
            converted_str = converted_str.rstrip('"')
''')],
  NEEDS='a text that ends with an escaped double quote', BREAKS='the quote in the text is lost, a backslash appears',
  DEMO=r'''
from nessaid_cli.utils import convert_to_cli_string, convert_to_python_string
t = 'say "'
expect(convert_to_python_string(convert_to_cli_string(t)), t)
'''),
 dict(ID='p06-copied-default', PROPERTY='P06', EDITS=[(N+'compiler.py', '''        block_2.repeat_count = max_count - min_count
''', '''        block_2.repeat_count = max(max_count - min_count, 2) if max_count > 3 else max_count - min_count
''')],
  NEEDS='limits that differ by one, with an upper limit over 3', BREAKS='one occurrence too many is accepted',
  DEMO=r'''
c = make('root: "a" * (3:4) << call got(); >>;', 'got')
expect([run(c, ' '.join(['a'] * n))[0] == 0 for n in range(2, 6)], [False, True, True, False])
'''),
 dict(ID='p07-value-or-list', PROPERTY='P07', EDITS=[(N+'interface.py', '''            elif parent.repeat_count > 1:
                position = 0
''', '''            elif parent.repeat_count > 2:
                position = 0
''')],
  NEEDS='an action after a word repeated exactly twice', BREAKS='$1 of the second occurrence is the first word (or $2)',
  DEMO=r'''
c = make('token W StringToken(); root: "k" ( W << call got($1); >> ) * 2;', 'got')
expect(run(c, 'k a b'), (0, [('got', 'a'), ('got', 'b')]))
c = make('token W StringToken(); root: "k" ( W "x" << call got($1); >> ) * 2;', 'got')
expect(run(c, 'k a x b x'), (0, [('got', 'a'), ('got', 'b')]))
c = make('token W StringToken(); root: "k" ( ( W "x" ) << call got($1); >> ) * 2;', 'got')
expect(run(c, 'k a x b x'), (0, [('got', ['a', 'x']), ('got', ['b', 'x'])]))
'''),
 dict(ID='p10-negative-range', PROPERTY='P10', EDITS=[(N+'tokens.py', """                        comp_args = [-self._end, -self._start, -number]
""", """                        comp_args = [min(-number, -self._end), -self._start, -number]
""")],
  NEEDS='a range of negative numbers only and a beginning that is above it by itself', BREAKS='a number outside the range is offered',
  DEMO=r"""
expect(sorted(loop.run_until_complete(RangedIntToken('N', -12, -10).complete('-1'))[1]), ['-10', '-11', '-12'])
"""),
 dict(ID='p12-sliced-case', PROPERTY='P12', EDITS=[(N+'tokens.py', '''            if l[0].lower() == "true":
                return True
            return False
''', '''            return l[0].lower() == "true"[:len(str_input)]
''')],
  NEEDS='a word typed in full', BREAKS='nothing unless abbreviated: an abbreviated true is false',
  DEMO=r'''
c = make('token B BooleanToken(); root: "a" B << call got($2); >>;', 'got')
expect([run(c, 'a ' + w)[1] for w in ('true', 'false', 'TR', 'f')], [[('got', True)], [('got', False)], [('got', True)], [('got', False)]])
'''),
 dict(ID='p15-star-partial', PROPERTY='P15', EDITS=[(N+'tokens.py', '''            path_objects = [p for p in path_objects if p.is_dir and not p.partial]
''', '''            path_objects = [p for p in path_objects if p.is_dir]
''')],
  NEEDS='a directory whose name is a prefix of another one, and a path below the shorter one', BREAKS='the path becomes ambiguous',
  DEMO=r'''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/log/x'); os.makedirs(d + '/logs/x')
    c = make('token P PathToken(); root: "a" P << call got($2); >>;', 'got')
    expect(run(c, 'a "%s/log/x"' % d), (0, [('got', d + '/log/x')]))
    t = PathToken('P')
    expect([str(p.path) for p in loop.run_until_complete(t.lookup(d + '/log/x'))[2]], [d + '/log/x'])
finally:
    shutil.rmtree(d)
'''),
 dict(ID='p17-empty-last-line', PROPERTY='P17', EDITS=[(N+'cli.py', '''                file_line = file_content.pop(0)
                if not file_content:
                    self._file_data.pop()
                return file_line
''', '''                file_line = file_content.pop(0)
                if not any(file_content):
                    self._file_data.pop()
                return file_line
''')],
  NEEDS='a command file that ends with empty lines, read by input()', BREAKS='the empty lines are lost: the answer comes from the terminal',
  DEMO=r'''
import tempfile
class C(NessaidCmd):
    async def do_ask(self):
        """
        "ask"
        """
        log.append(await self.input('? '))
log = []
with tempfile.NamedTemporaryFile('w') as f:
    f.write('ask\n\n'); f.flush()
    c = C(loop=loop, stdout=io.StringIO(), stderr=io.StringIO(), filename=f.name)
    lines = ['exit', 'exit']
    async def readline(*a, **k):
        return lines.pop(0)
    c.readline.readline = c.readline.input = readline
    loop.run_until_complete(c.cmdloop())
expect(log, [''])
'''),
 dict(ID='p18-grammar-kept', PROPERTY='P18', EDITS=[(N+'cli.py', '''                        except ChildCliExitException as e:
                            self.child_cli = None
                            match_output = await self.match(e.token_list, dry_run=False, last_token_complete=True, arglist=arglist)
''', '''                        except ChildCliExitException as e:
                            match_output = await self.match(e.token_list, dry_run=False, last_token_complete=True, arglist=arglist)
                            self.child_cli = None
''')],
  NEEDS='a line handed to the parent that enters another context', BREAKS='that context is never entered',
  DEMO=r'''
class Sub(NessaidCmd):
    def do_b(self):
        """
        "b"
        """
        log.append('b')
    def do_leave(self):
        """
        "leave"
        """
        self.exit_loop()
class C(NessaidCmd):
    async def do_sub(self):
        """
        "sub"
        """
        log.append('sub')
        await self.enter_context(Sub, prompt='sub> ', match_parent_grammar=True)
log = []
c = C(loop=loop, stdout=io.StringIO(), stderr=io.StringIO())
lines = ['sub', 'sub', 'b', 'leave', 'exit', 'exit']
async def readline(*a, **k):
    return lines.pop(0)
c.readline.readline = readline
loop.run_until_complete(c.cmdloop())
expect((log, lines), (['sub', 'sub', 'b'], ['exit']))
'''),
 dict(ID='p20-update-twice', PROPERTY='P20', EDITS=[(N+'interface.py', '''        if func_name == 'update':
            if len(args) > 2:
                r = args[0]
                if isinstance(r, dict):
                    r.update({args[1]: args[2]})
                return r
            return None
''', '''        if func_name == 'update':
            if len(args) > 2:
                r = args[0]
                if isinstance(r, dict):
                    r.setdefault(args[1], args[2])
                return r
            return None
''')],
  NEEDS='a key updated twice', BREAKS='the first value stays',
  DEMO=r'''
c = make('root: "a" << $d = dict(); update($d, "k", 1); update($d, "k", 2); call got($d); >>;', 'got')
expect(run(c, 'a'), (0, [('got', {'k': 2})]))
'''),
 dict(ID='p21-parent-twice', PROPERTY='P21', EDITS=[(N+'cmd.py', '''                argnames = argspec.args[1:]
''', '''                argnames = sorted(argspec.args[1:])
''')],
  NEEDS='a method whose parameters are not in alphabetical order', BREAKS='values reach the wrong parameters',
  DEMO=r'''
class C(NessaidCmd):
    "token W StringToken();"
    def do_a(self, y, x):
        """
        "a" W << $y = $2; >> W << $x = $3; >>
        """
        log.append((y, x))
log = []
c = C(loop=loop, stdout=io.StringIO(), stderr=io.StringIO())
expect((c.exec_args('a', '1', '2'), log), (0, [('1', '2')]))
'''),
 dict(ID='p13-set-order', PROPERTY='P13', EDITS=[(N+'tokens.py', '''        if token_input and token_input in options:
            return MATCH_SUCCESS
        n, completions = await CliToken.complete_from_multiple(options, token_input, cli=cli)
''', '''        n, completions = await CliToken.complete_from_multiple(options, token_input, cli=cli)
        if token_input and token_input in completions[:1]:
            return MATCH_SUCCESS
''')],
  NEEDS='an alternative that is a prefix of another one, and an unlucky order of a set', BREAKS='the exact word is refused',
  DEMO=r'''
words = ['on', 'only', 'once', 'onto', 'one', 'ons', 'onx', 'ony', 'onz', 'ona']
for w in words:
    t = AlternativeStringsToken('A', *([w] + [w + chr(97 + i) for i in range(12)]))
    expect(loop.run_until_complete(t.match(w)), MATCH_SUCCESS)
'''),
]
