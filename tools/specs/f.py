N = 'nessaid_cli/'
SPECS = [
 dict(ID='p17-comment-piece', PROPERTY='P17', EDITS=[(N+'cli.py', '''                if await self.commented_line(self._effective_line):
''', '''                if await self.commented_line(line):
''')],
  NEEDS='a continued line the last piece of which begins with #', BREAKS='the whole line is taken for a comment and dropped',
  DEMO=r'''
c = make('root: "a" W << call got($2); >> | "exit" << call exit_loop(); >>; token W StringToken();', 'got')
lines = ['a \\', '#b', 'exit']
async def readline(*a, **k):
    return lines.pop(0)
c.readline.readline = readline
loop.run_until_complete(c.cmdloop('root'))
expect(c.log, [('got', '#b')])
'''),
 dict(ID='p24-values-pile', PROPERTY='P24', EDITS=[(N+'interface.py', '''            seq_complete = False

            assert len(seq_copy)''', '''            seq_complete = False
            self._matched_values = []

            assert len(seq_copy)'''), (N+'interface.py', '''                try:
                    self._matched_values = []
                    i = 0
                    for t in sequence:''', '''                try:
                    i = 0
                    for t in sequence:''')],
  NEEDS='two readings of the words so far, and a class that reads its first or counts them', BREAKS='the class sees the words of the other reading too',
  DEMO=r'''
class Same(CliToken):
    completable = cacheable = False
    async def match(self, token_input, cli):
        return MATCH_SUCCESS if len(cli.get_matched_values()) == 1 else MATCH_FAILURE
    async def get_value(self, match_string=None, cli=None):
        return match_string
    async def complete(self, token_input, cli):
        return 0, []
TOKENS.append(Same)
c = make('token S Same(); token W StringToken(); token N RangedIntToken(0, 9); root: W S << call one($1, $2); >> | N "k" S << call two($1); >> | N S "j" << call three($1, $2); >>;', 'one', 'two', 'three')
for i in range(20):
    expect(run(c, '5 v j'), (0, [('three', 5, 'v')]))
    expect(run(c, 'q v'), (0, [('one', 'q', 'v')]))
'''),
 dict(ID='p26-dynamic-scope', PROPERTY='P26', EDITS=[(N+'interface.py', '''            grammar_context = self._grammar_stack[-1] if self._grammar_stack else None
            if var in grammar_context.named_variables:
                return grammar_context.named_variables[var]
        elif''', '''            for grammar_context in reversed(self._grammar_stack):
                if var in grammar_context.named_variables:
                    return grammar_context.named_variables[var]
        elif''')],
  NEEDS='a rule using a variable of its own with the name of one of its caller', BREAKS='the rule reads and changes the variable of its caller',
  DEMO=r'''
c = make('token W StringToken(); sub: W << call got($x); $x = $1; >>; root: << $x = 1; >> "a" sub << call got($x); >>;', 'got')
expect(run(c, 'a b'), (0, [('got', None), ('got', 1)]))
'''),
 dict(ID='p07-number-kept', PROPERTY='P07', EDITS=[(N+'interface.py', '''        numbered_arg = TokenVariable("$" + str(position + 1))
''', '''        numbered_arg = parent_context.token_variables.get("$" + str(position + 1)) if parent_context else None
        if numbered_arg is None:
            numbered_arg = TokenVariable("$" + str(position + 1))
''')],
  NEEDS='nothing', BREAKS='nothing: a control',
  DEMO=r'''
'''),
]
SPECS = SPECS[:3]
