N = 'nessaid_cli/'
TABS = r'''
def tabs(c, line, times=1):
    """What TAB makes of the typed line."""
    buf = [line]
    class RL:
        def get_line_buffer(self): return buf[0]
        async def insert_text(self, t): buf[0] += t
        def __getattr__(self, n): return lambda *a, **k: None
    c._readline = RL()
    for i in range(times):
        loop.run_until_complete(c.complete('', 0))
    return buf[0]
'''
SPECS = [
 dict(ID='p18-bell', PROPERTY='P18', EDITS=[(N+'cli.py', '''        self._readline.enable_bell(self._enable_bell)
        self._parent._exec_inited''', '''        if self._enable_bell:
            self._readline.enable_bell(True)
        self._parent._exec_inited''')],
  NEEDS='a nested context with the bell, in a context without', BREAKS='the outer context rings after the nested one has ended',
  DEMO=r'''
class Inner(NessaidCmd):
    def do_up(self):
        """
        "up"
        """
        self.exit_loop()
class Outer(NessaidCmd):
    async def do_in(self):
        """
        "in"
        """
        await self.enter_context(Inner, prompt='inner', enable_bell=True)
    def do_out(self):
        """
        "out"
        """
        self.exit_loop()
c = Outer(loop=loop, stdout=io.StringIO(), stderr=io.StringIO())
lines, bells = ['in', 'up', 'out'], []
async def readline(*a, **k):
    bells.append(c.readline._enable_bell)
    return lines.pop(0)
c.readline.readline = readline
loop.run_until_complete(c.cmdloop())
expect(bells, [False, True, False])
'''),
 dict(ID='p23-common-beginning', PROPERTY='P23', EDITS=[(N+'interface.py', '''            str2 = l[-1]
''', '''            str2 = l[1]
''')],
  NEEDS='three keywords, the first two of which in the order of letters begin alike beyond what all three share', BREAKS='TAB makes the third impossible to reach',
  DEMO=TABS + r'''
c = make('root: "sabc" | "sabd" | "sax";')
expect(tabs(c, 's', 2), 'sa')
'''),
 dict(ID='p20-add-in-place', PROPERTY='P20', EDITS=[(N+'interface.py', '''                    r = r + arg
''', '''                    r += arg
''')],
  NEEDS='add of two lists, the first of which is used afterwards', BREAKS='the first list has changed',
  DEMO=r'''
c = make('root: W << $a = list($1); $b = add($a, list("x")); call got($a, $b); >>; token W StringToken();', 'got')
expect(run(c, 'q'), (0, [('got', ['q'], ['q', 'x'])]))
'''),
 dict(ID='p24-raising-value', PROPERTY='P24', EDITS=[(N+'interface.py', '''            return value
        except:
            return NullTokenValue
''', '''            return value
        except Exception as e:
            self.error("Exception getting token value:", type(e), e)
''')],
  NEEDS='a token class whose get_value raises for a word that match lets through', BREAKS='the command runs with None in place of the word',
  DEMO=r'''
class Odd(CliToken):
    async def match(self, token_input, cli):
        return MATCH_SUCCESS
    async def get_value(self, match_string=None, cli=None):
        return int(match_string)
    async def complete(self, token_input, cli):
        return 1, [token_input]
TOKENS.append(Odd)
c = make('token T Odd(); root: T << call got($1); >>;', 'got')
expect(run(c, '7'), (0, [('got', 7)]))
rc, calls = run(c, 'x')
expect((rc != 0, calls), (True, []))
'''),
 dict(ID='p30-comment-lines', PROPERTY='P30', EDITS=[(N+'lex_yacc_common.py', '''        r'(/\\*(.|\\n)*?\\*/)|(//.*)|(\\#.*)'
        self.update_counters(t)
''', '''        r'(/\\*(.|\\n)*?\\*/)|(//.*)|(\\#.*)'
''')],
  NEEDS='a comment of several lines before a mistake', BREAKS='the line reported is too small',
  DEMO=r'''
try:
    compile_grammar('/* one\n two */ a: "x";\n b: ) ;\n')
except Exception as e:
    expect(str(e).split(' Postion')[0], 'Line: 3')
else:
    sys.exit('accepted')
'''),
 dict(ID='p30-escaped-line-end', PROPERTY='P30', EDITS=[(N+'lex_yacc_common.py', '''        r'\\\\(\\n|\\r\\n|\\r)'
        self.update_counters(t)
''', '''        r'\\\\(\\n|\\r\\n|\\r)'
        pass
''')],
  NEEDS='an escaped line end before a mistake', BREAKS='the line reported is too small',
  DEMO=r'''
try:
    compile_grammar('a: "x" \\\n "y";\n\n b: ) ;\n')
except Exception as e:
    expect(str(e).split(' Postion')[0], 'Line: 4')
else:
    sys.exit('accepted')
'''),
 dict(ID='p22-words-as-names', PROPERTY='P22', EDITS=[(N+'compiler.py', '''        if t.value in NessaidCliLexer.KYWORD_TOKENS:
            t.type''', '''        if t.value.lower() in map(str.lower, NessaidCliLexer.KYWORD_TOKENS):
            t.value = next(k for k in NessaidCliLexer.KYWORD_TOKENS if k.lower() == t.value.lower())
            t.type''')],
  NEEDS='a name that differs from a word of the grammar language in letter case', BREAKS='true and True are one name, and the handler gets the other spelling',
  DEMO=r'''
c = make('token True; token true; root: true << call got($1); >> | True "x" << call got($1); >>;', 'got')
expect(run(c, 'true'), (0, [('got', 'true')]))
'''),
]
