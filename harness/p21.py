"""P21: command methods become commands with their documented grammar."""
from harness.common import FakeLoop, Sink, Case, run_line
from symx.api import ISet, alphabet

UP = ISet(((65, 90), (0xC0, 0xD6)))


def new(cls, **kw):
    out, err = Sink(), Sink()
    kw.setdefault('loop', FakeLoop())
    kw.setdefault('disable_default_hooks', True)
    cmd = cls(stdout=out, stderr=err, **kw)
    cmd.log = []
    cmd.out, cmd.err = out, err
    return cmd


def base(bases=(), doc=None, body=None, name='Cmds'):
    from nessaid_cli.cmd import NessaidCmd
    d = dict(body or {})
    d['__doc__'] = doc
    d['__module__'] = 'harness'
    return type(name, tuple(bases) or (NessaidCmd,), d)


def verdict(S, cmd, line, want):
    """want: the expected call, or None for a line that is no command."""
    rc, calls = run_line(cmd, line)
    S.observe('rc', rc)
    S.observe('calls', calls)
    if want is None:
        S.check(rc != 0 and calls == [], lambda: 'line %r: %r %r, expected nothing' % (line, rc, calls))
        S.reach('refused')
        return
    S.check(rc == 0 and len(calls) == 1, lambda: 'line %r: %r %r, expected %r' % (line, rc, calls, want))
    got = calls[0]
    S.check(len(got) == len(want), lambda: 'line %r: %r, expected %r' % (line, got, want))
    for g, w in zip(got, want):
        S.check(type(g) is type(w) or isinstance(g, str) and isinstance(w, str), lambda: 'line %r: %r, expected %r' % (line, got, want))
        S.check(g == w, lambda: 'line %r: %r, expected %r' % (line, got, want))
    S.reach('run')


# ---- which methods are commands
def logger(mark, doc, is_async=False):
    if is_async:
        async def f(self):
            self.log.append((mark,))
    else:
        def f(self):
            self.log.append((mark,))
    f.__doc__ = doc
    return f


KINDS = ['own', 'undocumented', 'inherited', 'hidden', 'overridden', 'not callable', 'other prefix', 'async', 'empty text']
WORDS = ['ab', 'abc', 'b']


def select(n, kinds):
    """Each candidate method of one of these kinds; the line is any word."""
    def f(S, env):
        prefix = S.pick('prefix', ['do_', 'cmd_'])
        low, high, has = {}, {}, []
        for i in range(n):
            kind = S.pick('method%d' % i, kinds)
            w = WORDS[i]
            name = prefix + w
            doc = '\n"%s"\n' % w
            # __name__ is the grammar name
            def make(name, *a):
                m = logger(*a)
                m.__name__ = name
                return m
            if kind == 'own':
                high[name] = make(name, w, doc)
            elif kind == 'async':
                high[name] = make(name, w, doc, True)
            elif kind == 'undocumented':
                high[name] = make(name, w, None)
            elif kind == 'empty text':
                high[name] = make(name, w, '')
            elif kind == 'inherited':
                low[name] = make(name, w, doc)
            elif kind == 'hidden':
                low[name] = make(name, w, doc)
                high[name] = None
            elif kind == 'overridden':
                low[name] = make(name, 'wrong', '\n"%s" "q"\n' % w)
                high[name] = make(name, w, doc)
            elif kind == 'not callable':
                high[name] = 'text'
            else:
                high['x' + name] = make('x' + name, w, doc)
            if kind in ('own', 'async', 'inherited', 'overridden'):
                has.append(w)
        S.assume(has)
        cls = base((base(body=low, name='Low'),), body=high, name='High')
        cmd = new(cls, cli_hook_prefix=prefix, use_base_grammar=False)
        word = S.str('word', 1, 3, alphabet('abc'))
        hits = [w for w in has if w == word] or [w for w in has if w.startswith(word)]
        verdict(S, cmd, word, (hits[0],) if len(hits) == 1 else None)
    return f


# ---- values of parameters
class Values:
    def do_alpha(self, first, second, third):
        """
        "alpha" { W << $first = $1; >> } { N << $third = $1; >> }
        """
        self.log.append(('alpha', first, second, third))

    async def do_beta(self, second, first):
        """
        ( "beta" << $first = $1; >> | "bravo" W << $second = $2; >> )    # two ways
        """
        self.log.append(('beta', second, first))

    def do_gamma(self):
        '''"gamma" N'''
        self.log.append(('gamma',))

    def do_delta(self, items, first='unused'):
        """
        << $items = list(); >>
        "delta" ( W << append($items, $1); >> ) * (1:2) /* one or two */
        { "x" << $first = "y"; >> } // end"""
        self.log.append(('delta', items, first))

    def do_echo(self, first):
        """
        "echo" | "eel" << $first = $1; >> | W "ego" << $first = $1; >>
        """
        self.log.append(('echo', first))

    def helper(self, first):
        """
        "helper"
        """
        self.log.append(('helper', first))


TOKENS = 'token W StringToken();\ntoken N RangedIntToken(0, 9);\n'


def values_setup(nargs):
    def f():
        cls = base(doc=TOKENS, body={k: v for k, v in vars(Values).items() if k[:2] != '__'})
        return new(cls, use_base_grammar=False, cli_nargs=nargs)
    return f


def values(S, cmd):
    w = S.str('w', 1, 2, UP)
    v = S.str('v', 1, 1, UP)
    n = S.choice('n', 10)
    which = S.pick('command', ['alpha', 'beta', 'bravo', 'gamma', 'delta', 'echo', 'eel', 'ego', 'helper', 'alph N'])
    if which == 'alpha':
        words, first, third = ['alpha'], '', ''
        if S.bool('first'):
            words.append(w)
            first = w
        if S.bool('third'):
            words.append(str(n))
            third = n
        return verdict(S, cmd, ' '.join(words), ('alpha', first, '', third))
    if which == 'beta':
        return verdict(S, cmd, 'beta', ('beta', '', 'beta'))
    if which == 'bravo':
        return verdict(S, cmd, 'bravo ' + w, ('beta', w, ''))
    if which == 'gamma':
        return verdict(S, cmd, 'gamma %d' % n, ('gamma',))
    if which == 'delta':
        words, items, first = ['delta', w], [w], ''
        if S.bool('two'):
            words.append(v)
            items.append(v)
        if S.bool('x'):
            words.append('x')
            first = 'y'
            S.assume(len(items) == 2)
        return verdict(S, cmd, ' '.join(words), ('delta', items, first))
    if which == 'echo':
        return verdict(S, cmd, 'echo', ('echo', ''))
    if which == 'eel':
        return verdict(S, cmd, 'eel', ('echo', 'eel'))
    if which == 'ego':
        return verdict(S, cmd, w + ' ego', ('echo', w))
    if which == 'helper':
        return verdict(S, cmd, 'helper', None)
    return verdict(S, cmd, 'al %d' % n, ('alpha', '', '', n))


# ---- definitions of base classes and of the parent
def use(token, mark):
    def f(self, value):
        self.log.append((mark, value))
    f.__doc__ = '\n"%s" %s << $value = $2; >>\n' % (mark, token)
    f.__name__ = 'do_' + mark
    return f


T_LOW = 'token LOW RangedIntToken(0, 4);\n'
T_MID = 'token MID RangedIntToken(5, 9);\nPAIR[$p]: MID << $p = $1; >> "z" ;\n'
T_TOP = 'token TOP RangedIntToken(10, 14);\n'
T_PAR = 'token PAR RangedIntToken(15, 19);\n'


def pair():
    def do_pair(self, value):
        """
        "pair" PAIR[$value]
        """
        self.log.append(('pair', value))
    return do_pair


def definitions(S, env):
    """Token and grammar definitions of two base classes, the class and its parent object."""
    levels = S.choice('levels', 3)
    body = {'do_top': use('TOP', 'top'), 'do_now': logger('now', '\n"now"\n')}
    body['do_now'].__name__ = 'do_now'
    low = base(doc=T_LOW if S.bool('low has text') else None, name='Low')
    mid = base((low,), doc=T_MID if S.bool('mid has text') else None, name='Mid')
    bases = [(), (low,), (mid,)][levels]
    has_low = levels >= 1 and low.__doc__
    has_mid = levels == 2 and mid.__doc__
    if has_low:
        body['do_low'] = use('LOW', 'low')
    if has_mid:
        body['do_mid'] = use('MID', 'mid')
        body['do_pair'] = pair()
    parent = None
    kw = {}
    par = S.choice('parent', 3)
    if par:
        grand = new(base(doc=T_PAR if par == 1 else None, body={'do_g': use('PAR', 'g')}, name='Grand'))
        parent = grand
        kw = {'parent': parent}
        if par == 1:
            body['do_par'] = use('PAR', 'par')
    cls = base(bases, doc=T_TOP, body=body)
    cmd = new(cls, use_base_grammar=S.bool('use_base_grammar'), use_parent_grammar=True, **kw)
    n = S.int('n', 0, 30)
    mark = S.pick('command', ['top', 'low', 'mid', 'par', 'now', 'pair'])
    if mark == 'now':
        return verdict(S, cmd, 'now', ('now',))
    have = {'top': True, 'low': has_low, 'mid': has_mid, 'par': par == 1, 'pair': has_mid}[mark]
    lo = {'top': 10, 'low': 0, 'mid': 5, 'par': 15, 'pair': 5}[mark]
    ok = have and lo <= n <= lo + 4
    verdict(S, cmd, mark + ' ' + str(n) + (' z' if mark == 'pair' else ''), (mark, n) if ok else None)


def without_parent(S, env):
    """Definitions of the parent are absent unless asked for: the name is then a plain word."""
    parent = new(base(doc=T_PAR, body={'do_g': use('PAR', 'g')}, name='Grand'))
    asked = S.bool('use_parent_grammar')
    deep = S.bool('through the parent of the parent')
    between = deep and S.bool('parent uses its parent')
    if deep:
        parent = new(base(doc='token OTHER StringToken();\n', body={'do_o': use('OTHER', 'o')}, name='Between'), parent=parent,
                     use_parent_grammar=between)
    uses = asked and (not deep or between)
    cmd = new(base(body={'do_par': use('PAR', 'par')}), parent=parent, use_parent_grammar=asked)
    word = S.str('word', 1, 3, alphabet('PAR15'))
    if uses:
        verdict(S, cmd, 'par ' + word, ('par', 15) if word == '15' else None)
    else:
        verdict(S, cmd, 'par ' + word, ('par', 'PAR') if 'PAR'.startswith(word) else None)


# ---- default commands
def defaults(n):
    def f(S, env):
        off = S.bool('disabled')
        over = S.pick('exit', ['inherited', 'undocumented', 'own'])
        body = {'do_go': logger('go', '\n"go"\n'), 'exit_loop': lambda self: self.log.append(('exit',))}
        body['do_go'].__name__ = 'do_go'
        if over == 'undocumented':
            body['do__exit'] = logger('wrong', None)
        elif over == 'own':
            body['do__leave'] = logger('leave', '\n"leave" | "quit"\n')
            body['do__leave'].__name__ = 'do__leave'
            body['do__exit'] = logger('wrong', None)
        cmd = new(base(body=body), disable_default_hooks=off)
        names = {'go': 'go'}
        if not off and over == 'inherited':
            names.update({'exit': 'exit', 'quit': 'exit'})
        if over == 'own':
            names.update({'leave': 'leave', 'quit': 'leave'})
        two = {}
        if not off:
            two = {'cmd-timing': ('on', 'off'), 'cmd-profiling': ('off',)}
        if S.bool('two words'):
            word = S.pick('first', ['cmd-timing', 'cmd-t', 'cmd-profiling', 'tracemalloc', 'go', 'cmd-', 'exit'])
            second = S.str('second', 1, 3, alphabet('ofngx'))
            hits = [w for w in two if w.startswith(word)]
            ok = len(hits) == 1 and len([o for o in ('on', 'off') if o.startswith(second)]) == 1
            S.assume(not (ok and hits[0] == 'cmd-profiling' and 'on'.startswith(second)))    # does not profile under the engine
            rc, calls = run_line(cmd, word + ' ' + second)
            S.check(calls == [] and (rc == 0) == ok, lambda: '%r: %r %r' % (word + ' ' + second, rc, calls))
            S.reach('on' if ok else 'refused')
            return
        word = S.str('word', 1, n, alphabet('exitquglavo'))
        hits = [names[w] for w in names if w == word] or [names[w] for w in names if w.startswith(word)]
        S.assume('tracemalloc' != word)
        verdict(S, cmd, word, (hits[0],) if len(hits) == 1 else None)
    return f


# ---- the way the text is laid out
LAYOUT = [
    ('"one" W << $first = $2; >> | "two" << $first = $1; >>', 'one line'),
    ('\n    "one"\n    W << $first = $2; >>\n    |\n    "two" << $first = $1; >>\n    ', 'lines'),
    ('\r\n\t"one" W << $first = $2; >>\r\n\t| "two" << $first = $1; >>\r\n', 'CRLF'),
    ('# what it does\n"one" W << $first = $2; >> | "two" << $first = $1; >> # the end', 'comments'),
    ('/* a */ "one" /* b\n */ W << $first = $2; // c\n >> | "two" // d\n << $first = $1; >> /* e */', 'more comments'),
    ('\r"one" W << $first = $2; >>\r| "two" << $first = $1; >>\r', 'CR'),
    ('\n\n  ( "one" W << $first = $2; >>\n) | ( "two" << $first = $1; >>\n\n\n )   \t\n', 'groups'),
]


def layout(S, env):
    text, what = S.pick('layout', LAYOUT)
    def do_x(self, first):
        self.log.append(('x', first))
    do_x.__doc__ = text

    def do_y(self, first):
        self.log.append(('y', first))
    do_y.__doc__ = S.pick('other', LAYOUT)[0].replace('one', 'uno').replace('two', 'due')
    cmd = new(base(doc=TOKENS, body={'do_x': do_x, 'do_y': do_y}), use_base_grammar=False)
    v = S.str('v', 1, 2, UP)
    which = S.pick('command', ['one', 'two', 'uno', 'due'])
    mark = 'x' if which in ('one', 'two') else 'y'
    S.check(run_line(cmd, 'three')[0] != 0, 'a word that is no command')
    if which in ('one', 'uno'):
        verdict(S, cmd, which + ' ' + v, (mark, v))
    else:
        verdict(S, cmd, which, (mark, which))


def cases(tier):
    q = tier == 'quick'
    none = lambda: None
    both = ('run', 'refused')
    return [
        Case('selection', none, select(2, KINDS), 'two candidate methods of 9 kinds, two prefixes, any word of up to 3 letters', both),
        Case('values', values_setup(3), values, 'any words and numbers for five methods with up to three parameters', both),
        Case('values, one generic argument', values_setup(0 if q else 1), values, 'the same with cli_nargs %d' % (0 if q else 1), both),
        Case('definitions', none, definitions, 'definitions in 2 base classes, the class and its parent; any number 0..30', both),
        Case('parent definitions', none, without_parent, 'definitions of the parent and of its parent, used or not', both),
        Case('default commands', none, defaults(3 if q else 5), 'default commands present or not; any word of up to %d letters' % (3 if q else 5), both),
        Case('layout', none, layout, 'seven layouts of the documentation text of two methods', ('run',)),
    ] + ([] if q else [
        Case('selection of three', none, select(3, KINDS), 'three candidate methods of 9 kinds'),
    ])
