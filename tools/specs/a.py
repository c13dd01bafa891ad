N = 'nessaid_cli/'
SPECS = [
 dict(ID='p01-incomplete-quote-backslash', PROPERTY='P01', EDITS=[(N+'tokenizer/tokenizer.py',
  r'''|(\\)(0|n|r|t|b|v|a|")))*(\\)?' '''.strip(' '), r'''|(\\)(0|n|r|t|b|v|a|")))*' ''' .strip(' '))],
  NEEDS='a line that ends inside an unclosed quote with a backslash', BREAKS='the line is invalid instead of an incomplete quoted word',
  DEMO=r'''
c = make('token S StringToken(); root: "a" S << call got($2); >>;', 'got')
ok, err, toks = c.tokenize('a "b\\')
expect((ok, [str(t) for t in toks], toks and toks[-1].quote_incomplete), (True, ['a', '"b\\'], True))
'''),
 dict(ID='p01-vertical-tab-escape', PROPERTY='P01', EDITS=[(N+'tokenizer/tokenizer.py',
  r'''(0|n|r|t|b|v|a|")))*(")'
''', r'''(0|n|r|t|b|a|")))*(")'
''')],
  NEEDS='a quoted word with the escape \\v', BREAKS='the word is split or the line rejected',
  DEMO=r'''
c = make('token S StringToken(); root: "a" S << call got($2); >>;', 'got')
expect([str(t) for t in c.tokenize('a "x\\vy" z')[2]], ['a', '"x\\vy"', 'z'])
'''),
 dict(ID='p02-lone-vertical-tab', PROPERTY='P02', EDITS=[(N+'utils.py', "    '\\\\v',\n    '\\\\a',\n", "    '\\\\a',\n")],
  NEEDS='a text whose only escaped character is a vertical tab', BREAKS='the escape is not converted back',
  DEMO=r'''
from nessaid_cli.utils import convert_to_cli_string, convert_to_python_string
t = 'one\vtwo'
expect(convert_to_python_string(convert_to_cli_string(t)), t)
'''),
 dict(ID='p03-strip-quotes', PROPERTY='P03', EDITS=[(N+'tokens.py', '''            if match_string.startswith('"'):
                match_string = match_string[1:]
            if match_string.endswith('"'):
                match_string = match_string[:-1]
            return match_string
        return NullTokenValue


class RangedStringToken''', '''            return match_string.strip('"')
        return NullTokenValue


class RangedStringToken''')],
  NEEDS='a quoted word whose text ends (or starts) with an escaped double quote', BREAKS='the quote in the text is lost',
  DEMO=r'''
c = make('token S StringToken(); root: "a" S << call got($2); >>;', 'got')
expect(run(c, 'a "say \\"hi\\""'), (0, [('got', 'say "hi"')]))
'''),
 dict(ID='p04-letter-case', PROPERTY='P04', EDITS=[(N+'tokens.py', '''            return MATCH_SUCCESS
        elif self._cli_string.startswith(token_input):
            return MATCH_PARTIAL
''', '''            return MATCH_SUCCESS
        elif self._cli_string.startswith(token_input) or self._cli_string.lower() == token_input:
            return MATCH_PARTIAL
'''), (N+'tokens.py', '''            return 1, [self._cli_string]
        elif self._cli_string.startswith(token_input):
            return 1, [self._cli_string]
''', '''            return 1, [self._cli_string]
        elif self._cli_string.startswith(token_input) or self._cli_string.lower() == token_input:
            return 1, [self._cli_string]
''')],
  NEEDS='a keyword with capital letters typed completely in small letters', BREAKS='a word that is no prefix of any keyword selects one',
  DEMO=r'''
c = make('root: ( "showAll" | "other" ) "x" << call got($1); >>;', 'got')
rc, calls = run(c, 'showall x')
expect((rc != 0, calls), (True, []))
'''),
 dict(ID='p05-set-mandatory', PROPERTY='P05', EDITS=[(N+'elements.py', '''        return "Set" + '{' + ", ".join([e.__repr__(verbose=False) for e in self.value]) + '}'

    def copy(self):
        val = tuple([v.copy() for v in self._value])
        cp = self.__class__(val)
        for v in val:
            v.parent = cp
        self.copy_extras(cp)
        return cp

    @property
    def mandatory(self):
        if self._mandatory is not None:
            return self._mandatory
        for elem in self._value:
            if elem.mandatory:
                self._mandatory = True
                return True
        self._mandatory = False
        return False
''', '''        return "Set" + '{' + ", ".join([e.__repr__(verbose=False) for e in self.value]) + '}'

    def copy(self):
        val = tuple([v.copy() for v in self._value])
        cp = self.__class__(val)
        for v in val:
            v.parent = cp
        self.copy_extras(cp)
        return cp

    @property
    def mandatory(self):
        if self._mandatory is None:
            self._mandatory = all(elem.mandatory for elem in self._value)
        return self._mandatory
''')],
  NEEDS='a set with an optional and a mandatory member inside a sequence', BREAKS='a line without the mandatory member is executed',
  DEMO=r'''
c = make('root: "go" ( { "fast" }, "home" ) "now" << call got(); >>;', 'got')
rc, calls = run(c, 'go now')
expect((rc != 0, calls), (True, []))
expect(run(c, 'go home fast now'), (0, [('got',)]))
'''),
 dict(ID='p05-shared-lookup-path', PROPERTY='P05', EDITS=[(N+'elements.py', '''                self._lookup_path[node.path] = previous.lookup_path[node.path].copy()
''', '''                self._lookup_path[node.path] = previous.lookup_path[node.path]
''')],
  NEEDS='a set of three or more members, or a line continuing after a set member', BREAKS='lines naming the members in some order are rejected',
  DEMO=r'''
c = make('root: "go" ( "a", "b", "c" ) << call got(); >>;', 'got')
for w in ('a b c', 'b a c', 'c b a', 'c a b'):
    expect(run(c, 'go ' + w), (0, [('got',)]))
'''),
 dict(ID='p06-copied-repeat', PROPERTY='P06', EDITS=[(N+'elements.py', '''        cp._post_match_binding = self._post_match_binding
        cp.repeat_count = self.repeat_count
''', '''        cp._post_match_binding = self._post_match_binding
''')],
  NEEDS='a repetition inside another repetition', BREAKS='the inner count of later repetitions is ignored',
  DEMO=r'''
c = make('root: "go" ( ( "x" ) * 2 "y" ) * ( 1 : 3 ) << call got(); >>;', 'got')
expect(run(c, 'go x x y'), (0, [('got',)]))
expect(run(c, 'go x x y x x y'), (0, [('got',)]))
expect(run(c, 'go x x y x y')[1], [])
'''),
 dict(ID='p07-copied-actions', PROPERTY='P07', EDITS=[(N+'elements.py', '''        cp._pre_match_binding = self._pre_match_binding
''', '''''')],
  NEEDS='an action in front of the elements of a block repeated at least twice', BREAKS='the action runs for the first occurrence only',
  DEMO=r'''
c = make('token S StringToken(); root: "go" ( << call before(); >> S << call got($1); >> ) * ( 1 : 3 );', 'got', 'before')
expect(run(c, 'go a b'), (0, [('before',), ('got', 'a'), ('before',), ('got', 'b')]))
'''),
 dict(ID='p08-ambiguous-runs', PROPERTY='P08', EDITS=[(N+'interface.py', '''                            if len(matching_sequences) == 1:
                                tok_index = 0
''', '''                            if len(matching_sequences) == 1 or len(set(tuple(t.name for t in s) for s in matching_sequences)) == 1:
                                tok_index = 0
''')],
  NEEDS='two commands described by the same words', BREAKS='an ambiguous line runs the first of two different commands',
  DEMO=r'''
c = make('root: "go" "on" << call one(); >> | "go" ( "on" ) << call two(); >> "x"  | "go" "on" << call two(); >>;', 'one', 'two')
rc, calls = run(c, 'go on')
expect((rc != 0, calls), (True, []))
'''),
 dict(ID='p09-long-lists', PROPERTY='P09', EDITS=[(N+'interface.py', '''                        elif dry_run and not token_list and not last_token_complete:
                            self.append_matching_sequence(matching_sequences, p)
                        else:
                            v = await''', '''                        else:
                            v = await''')],
  NEEDS='a partly typed word of a completable token that lists nothing because there are too many', BREAKS='the token is no longer offered',
  DEMO=r'''
c = make('token N RangedIntToken(1000, 9999); root: "go" ( N | "x" ) "y";')
r = loop.run_until_complete(c.match(['go', '1'], dry_run=True))
expect((r.result, [str(t) for t in r.next_tokens]), ('partial', ['An integer between 1000 and 9999']))
'''),
 dict(ID='p10-upper-end', PROPERTY='P10', EDITS=[(N+'tokens.py', '''        if min_num <= max_limit and num_len == max_len:
''', '''        if min_num < max_limit and num_len == max_len:
''')],
  NEEDS='a range whose end is a power of ten times the typed number, such as 1..100', BREAKS='the end of the range is missing among the completions',
  DEMO=r'''
t = RangedIntToken('N', 1, 100)
n, comps = loop.run_until_complete(t.complete('10'))
expect((n, sorted(comps)), (2, ['10', '100']))
'''),
 dict(ID='p11-negative', PROPERTY='P11', EDITS=[(N+'tokens.py', '''            if decimal > 0 and decimal > self._end:
''', '''            if abs(decimal) > self._end and decimal > self._start:
''')],
  NEEDS='a negative number in a range reaching further below zero than above', BREAKS='numbers inside the range are rejected',
  DEMO=r'''
c = make('token D RangedDecimalToken(-20.0, 5.0); root: "go" D << call got($2); >>;', 'got')
expect(run(c, 'go -10.5'), (0, [('got', -10.5)]))
'''),
 dict(ID='p12-true-letters', PROPERTY='P12', EDITS=[(N+'tokens.py', '''            if l[0].lower() == "true":
''', '''            if l[0] in ("true", "True", "TRUE"):
''')],
  NEEDS='an abbreviation of true in mixed letter case, such as tR', BREAKS='it is delivered as False',
  DEMO=r'''
c = make('token B BooleanToken(); root: "go" B << call got($2); >>;', 'got')
expect(run(c, 'go tR'), (0, [('got', True)]))
'''),
 dict(ID='p13-exact-only', PROPERTY='P13', EDITS=[(N+'tokens.py', '''        completions = set()
        for e in options:
            if token_input and e.startswith(token_input):
''', '''        if token_input in options:
            return 1, [token_input]
        completions = set()
        for e in options:
            if token_input and e.startswith(token_input):
''')],
  NEEDS='an alternative typed completely that is the beginning of another one', BREAKS='the longer alternative is not offered',
  DEMO=r'''
t = AlternativeStringsToken('A', 'in', 'inner', 'out')
n, comps = loop.run_until_complete(t.complete('in'))
expect((n, sorted(comps)), (2, ['in', 'inner']))
'''),
 dict(ID='p14-quotes-count', PROPERTY='P14', EDITS=[(N+'tokens.py', '''        val = await super().get_value(token_input, cli=cli)
        if len(val) > self._max_len:
''', '''        val = token_input
        if len(val) > self._max_len:
''')],
  NEEDS='a quoted word one or two characters shorter than the maximum', BREAKS='it is rejected',
  DEMO=r'''
c = make('token L RangedStringToken(2, 4); root: "go" L << call got($2); >>;', 'got')
expect(run(c, 'go "a b"'), (0, [('got', 'a b')]))
'''),
 dict(ID='p15-dot-dot', PROPERTY='P15', EDITS=[(N+'tokens.py', '''                    p.path_string += ".."
                    p.path = Path(p.path_string)
''', '''                    p.path_string += ".."
''')],
  NEEDS='a path with .. in the middle', BREAKS='the names after .. are looked up in the wrong directory',
  DEMO=r'''
import tempfile
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + '/sub')
    open(d + '/file', 'w').close()
    c = make('token P PathToken(); root: "go" P << call got($2); >>;', 'got')
    expect(run(c, 'go "%s/sub/../file"' % d), (0, [('got', d + '/sub/../file')]))
'''),
 dict(ID='p16-nul', PROPERTY='P16', EDITS=[(N+'utils.py', '''            part = part.replace("\\0", "\\\\0")
''', '')],
  NEEDS='an argument containing a NUL character', BREAKS='the command line is invalid',
  DEMO=r'''
class C(NessaidCmd):
    "token S StringToken();"
    def do_say(self, text):
        """
        "say" S << $text = $2; >>
        """
        self.said = text
c = C(loop=loop, disable_default_hooks=True, stdout=io.StringIO(), stderr=io.StringIO())
rc = c.exec_args('say', 'a\0b')
expect((rc, getattr(c, 'said', None)), (0, 'a\0b'))
'''),
 dict(ID='p17-file-stack', PROPERTY='P17', EDITS=[(N+'cli.py', '''                if not file_content:
                    self._file_data.pop()
                return file_line
''', '''                if not file_content:
                    self._file_data.pop(0)
                return file_line
''')],
  NEEDS='a command file started by a line of another file that has lines left', BREAKS='the remaining lines of the first file are lost',
  DEMO=r'''
c = make('root: "go";')
c._file_data.append(['a1', 'a2'])
got = [c.file_line]
c._file_data.append(['b1', 'b2'])
for i in range(3):
    got.append(c.file_line)
expect(got, ['a1', 'b1', 'b2', 'a2'])
'''),
 dict(ID='p17-backslashes', PROPERTY='P17', EDITS=[(N+'cli.py', '''                return True, line.rstrip()[:-1]
''', '''                return True, line.rstrip().rstrip("\\\\")
''')],
  NEEDS='a continued line that ends in two or more backslashes', BREAKS='more than the continuation mark is removed',
  DEMO=r'''
c = make('root: "go";')
expect(loop.run_until_complete(c.is_partial_line('a \\\\\\')), (True, 'a \\\\'))
'''),
 dict(ID='p18-completer', PROPERTY='P18', EDITS=[(N+'cli.py', '''        self._parent._exec_inited = False
        await self._parent.cli_exec_init()
''', '''        await self._parent.cli_exec_init()
''')],
  NEEDS='a nested context that has ended', BREAKS='the TAB key still belongs to the nested context',
  DEMO=r'''
class Child(NessaidCmd):
    def do_back(self):
        """
        "back"
        """
        self.exit_loop()
class C(NessaidCmd):
    async def do_in(self):
        """
        "in"
        """
        await self.enter_context(Child)
    def do_quit(self):
        """
        "quit"
        """
        self.exit_loop()
c = C(loop=loop, disable_default_hooks=True, stdout=io.StringIO(), stderr=io.StringIO())
owners = []
rl = c.readline
lines = ['in', 'back', 'quit']
completer = [None]
rl.set_completer = lambda f: completer.__setitem__(0, f)
async def readline(prompt=''):
    owners.append(type(completer[0].__self__).__name__)
    return lines.pop(0)
rl.readline = readline
loop.run_until_complete(asyncio.wait_for(c.cmdloop(), 20))
expect(owners, ['C', 'Child', 'C'])
'''),
 dict(ID='p18-parent-dry-run', PROPERTY='P18', EDITS=[(N+'cmd.py', '''                tok_list=tok_list, dry_run=True,
                last_token_complete=last_token_complete, arglist=arglist
            )
            if resp.result''', '''                tok_list=tok_list, dry_run=dry_run,
                last_token_complete=last_token_complete, arglist=arglist
            )
            if resp.result''')],
  NEEDS='parent matching and a line only the parent knows', BREAKS='the command runs twice',
  DEMO=r'''
class Child(NessaidCmd):
    def do_back(self):
        """
        "back"
        """
        self.exit_loop()
class C(NessaidCmd):
    n = 0
    async def do_in(self):
        """
        "in"
        """
        await self.enter_context(Child, match_parent_grammar=True)
    def do_count(self):
        """
        "count"
        """
        self.n += 1
    def do_quit(self):
        """
        "quit"
        """
        self.exit_loop()
c = C(loop=loop, disable_default_hooks=True, stdout=io.StringIO(), stderr=io.StringIO())
lines = ['in', 'count', 'quit']
async def readline(prompt=''):
    return lines.pop(0)
c.readline.readline = readline
loop.run_until_complete(asyncio.wait_for(c.cmdloop(), 20))
expect(c.n, 1)
'''),
 dict(ID='p19-locals-survive', PROPERTY='P19', EDITS=[(N+'elements.py', '''        self._input_sequence = []
        self._named_vars = {}
        self._numbered_vars = {}
        self._parents = []

    @property
    def child_count''', '''        self._input_sequence = []
        self._numbered_vars = {}
        self._parents = []

    @property
    def child_count'''), (N+'elements.py', '''        self._children = {}
        self.reset()
''', '''        self._children = {}
        self._named_vars = {}
        self.reset()
''')],
  NEEDS='a variable assigned only by an optional part, and two lines, the first with that part', BREAKS='the second line sees the value of the first',
  DEMO=r'''
c = make('token S StringToken(); root: "go" { "to" S << $x = $2; >> } "end" << call got($x); >>;', 'got')
a = run(c, 'go end')
run(c, 'go to A end')
expect(run(c, 'go end'), a)
'''),
 dict(ID='p20-flat-list', PROPERTY='P20', EDITS=[(N+'interface.py', '''            l = []
            if args:
                l += args
            return l
''', '''            if len(args) == 1 and isinstance(args[0], (list, set)):
                return list(args[0])
            return list(args)
''')],
  NEEDS='list called with one collection', BREAKS='the collection is flattened instead of becoming the only element',
  DEMO=r'''
c = make('token S StringToken(); root: "go" S << $l = list($2); call got(list($l)); >>;', 'got')
expect(run(c, 'go a'), (0, [('got', [['a']])]))
'''),
 dict(ID='p21-grandparent-tokens', PROPERTY='P21', EDITS=[(N+'cmd.py', '''        base_classes = self.__class__.mro()[1:]
''', '''        base_classes = list(self.__class__.__bases__)
''')],
  NEEDS='token definitions two classes up', BREAKS='they are not available',
  DEMO=r'''
class A(NessaidCmd):
    "token NUM RangedIntToken(1, 5);"
class B(A):
    pass
class C(B):
    def do_n(self, n):
        """
        "n" NUM << $n = $2; >>
        """
        self.n = n
c = C(loop=loop, disable_default_hooks=True, stdout=io.StringIO(), stderr=io.StringIO())
expect((c.exec_args('n', '3'), getattr(c, 'n', None)), (0, 3))
'''),
 dict(ID='p22-greedy-comment', PROPERTY='P22', EDITS=[(N+'lex_yacc_common.py', r'''r'(/\*(.|\n)*?\*/)|''', r'''r'(/\*(.|\n)*\*/)|''')],
  NEEDS='two block comments in one grammar', BREAKS='everything between them is dropped',
  DEMO=r'''
c = make('root: /* first */ "a" "b" /* second */ "c" << call got(); >>;', 'got')
expect(run(c, 'a b c'), (0, [('got',)]))
'''),
 dict(ID='p22-duplicate-grammar', PROPERTY='P22', EDITS=[(N+'elements.py', '''        if grammar.name in self._named_grammars:
            raise DuplicateDefinitionException(grammar.name)
        if grammar.name in self._token_defs:
            raise DuplicateDefinitionException(grammar.name)
''', '''        if grammar in self._grammars or grammar.name in self._token_defs:
            raise DuplicateDefinitionException(grammar.name)
''')],
  NEEDS='two definitions of one name', BREAKS='the first definition is silently replaced',
  DEMO=r'''
try:
    compile_grammar('x: "a"; x: "b"; root: x;')
except Exception as e:
    sys.exit(0)
sys.exit('accepted')
'''),
 dict(ID='p23-repeated-word', PROPERTY='P23', EDITS=[(N+'cli.py', '''                            if line == self._current_line:
                                idx = line.rindex(tok_input)
''', '''                            if line == self._current_line:
                                idx = line.index(tok_input)
''')],
  NEEDS='a partly typed last word that also occurs earlier in the line, and TAB pressed twice', BREAKS='a wrong tail is inserted, or none',
  DEMO=r'''
c = make('token S StringToken(); root: "set" S ( "interface" | "internal" ) "up";')
buf = ['set i i']
async def insert(t):
    buf[0] += t
c.readline.insert_text = insert
c.readline.get_line_buffer = lambda: buf[0]
c.readline.play_bell = lambda: None
for i in range(2):
    loop.run_until_complete(c.complete('i', 0))
expect(buf[0], 'set i inter')
'''),
]
