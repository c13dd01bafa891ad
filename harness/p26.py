"""P26: a rule's parameters hold what its reference passes, and assignments to them reach the variable that was passed."""
from harness.common import Case, make_cli, run_line
from symx.api import ISet, alphabet

LETTER = alphabet('defghijklmq')
NAMES = ['$a', '$b', '$c']


class Cell:
    """A variable; parameters share the cell of the variable passed."""

    def __init__(self, value=None):
        self.value = value


class Refused(Exception):
    pass


def literal(S, label, k):
    """(source text, value) of a literal."""
    kind = S.choice(label + ' literal', k)
    if kind == 0:
        s = S.char(label + ' text', LETTER)
        return '"' + s + '"', s
    if kind == 1:
        n = S.int(label + ' number', 0, 9)
        return str(n), n
    return [('-2', -2), ('True', True), ('None', None), ('1.5', 1.5), ('"a b"', 'a b'), ('False', False), ('""', '')][kind - 2]


def argument(S, label, names, k, lits):
    """(source text, parameter named or None, value or name of the caller's variable)."""
    kind = S.pick(label, ['literal', '$v', '$w', 'named', 'named $v', 'unknown'][:k])
    if kind[:1] == '$':
        return kind, None, kind
    if kind == 'literal':
        t, v = literal(S, label, lits)
        return t, None, (v,)
    name = S.pick(label + ' name', names) if kind != 'unknown' else '$z'
    if kind == 'named $v':
        return name + ' = $v', name, '$v'
    t, v = literal(S, label, 2)
    return name + ' = ' + t, name, (v,)


def bind(params, args, scope):
    """Parameter name -> Cell, the way Python binds positional and keyword arguments."""
    out = {}
    named = False
    for i, (_, name, value) in enumerate(args):
        cell = scope[value] if isinstance(value, str) else Cell(value[0])
        if name is None:
            if named or i >= len(params):
                raise Refused()
            name = params[i][0]
        else:
            named = True
            if name not in [p[0] for p in params]:
                raise Refused()
        if name in out:
            raise Refused()
        out[name] = cell
    for name, default in params:
        if name not in out:
            out[name] = Cell(default[1] if default else None)
    return out


def params_of(S, n, defaults):
    out = []
    for name in NAMES[:n]:
        default = None
        if defaults:
            d = S.choice(name + ' default', defaults)
            if d == 1:
                s = S.char(name + ' default text', LETTER)
                default = ('"' + s + '"', s)
            elif d == 2:
                m = S.int(name + ' default number', 0, 9)
                default = (str(m), m)
            elif d == 3:
                default = ('-3', -3)
        out.append((name, default))
    return out


def declare(params):
    return '[' + ', '.join(n + (' = ' + d[0] if d else '') for n, d in params) + ']'


def assignments(S, label, params, k):
    """Assignments to the parameters: list of (name, source text, value or parameter name)."""
    out = []
    for name, _ in params:
        kind = S.choice(label + ' ' + name, k)
        if kind == 1:
            out.append((name, '"new%s"' % name[1:], ('new' + name[1:],)))
        elif kind == 2:
            other = params[-1][0] if name != params[-1][0] else params[0][0]
            out.append((name, other, other))
    return out


def assign(cells, todo):
    for name, _, value in todo:
        cells[name].value = cells[value].value if isinstance(value, str) else value[0]


def text(todo):
    return ' '.join('%s = %s;' % (n, t) for n, t, _ in todo)


def values(cells, params):
    return tuple(cells[p[0]].value for p in params)


def make(S, grammar):
    from nessaid_cli.tokens import StringToken
    try:
        return make_cli('token W StringToken();\n' + grammar, handlers=['f', 'after', 'h', 'k'], token_classes=[StringToken])
    except Exception as e:
        S.observe('refused', True)
        return None


def verdict(S, cli, line, want, what):
    rc, calls = run_line(cli, line)
    S.observe(what + 'calls', calls)
    S.check(rc == 0 and len(calls) == len(want) and all(same(c, w) for c, w in zip(calls, want)),
            lambda: '%s%r: %r %r, expected %r' % (what, line, rc, calls, want))


def same(c, w):
    return len(c) == len(w) and all((x is y or x == y) and isinstance(x, bool) == isinstance(y, bool) and (x is None) == (y is None)
                                    for x, y in zip(c, w))


class Rule:
    """g and one line that uses it."""

    def __init__(self, S, params, todo):
        self.params, self.todo = params, todo
        ps = ', '.join(p[0] for p in params)
        self.text = 'g%s: "x" << call f(%s); %s call after(%s); >> ;\n' % (declare(params), ps, text(todo), ps)

    def use(self, args, scope, log):
        cells = bind(self.params, args, scope)
        log.append(('f',) + values(cells, self.params))
        assign(cells, self.todo)
        log.append(('after',) + values(cells, self.params))


def refer(args):
    return 'g[' + ', '.join(a[0] for a in args) + ']'


def once(nparams, defaults, nargs, kinds, lits, assigns):
    """One reference; the line typed twice."""
    def f(S, env):
        params = params_of(S, S.choice('parameters', nparams + 1) if defaults else nparams, defaults)
        args = [argument(S, 'argument %d' % i, NAMES[:2], kinds, lits) for i in range(S.choice('arguments', nargs + 1))]
        rule = Rule(S, params, assignments(S, 'assign', params, assigns))
        grammar = rule.text + 'root: "u" << $v = "old"; $w = 9; >> %s << call h($v, $w); >> ;' % refer(args)
        cli = make(S, grammar)
        try:
            want = []
            for i in range(2):
                log = []
                scope = {'$v': Cell('old'), '$w': Cell(9)}
                rule.use(args, scope, log)
                log.append(('h', scope['$v'].value, scope['$w'].value))
                want.append(log)
        except Refused:
            S.check(cli is None, lambda: 'accepted: %r' % grammar)
            S.reach('refused')
            return
        S.check(cli is not None, lambda: 'refused: %r' % grammar)
        verdict(S, cli, 'u x', want[0], '')
        verdict(S, cli, 'u x', want[1], 'again, ')
        S.reach('bound')
    return f


def several(kinds, assigns, ways):
    """Two references to one rule: both in one line, in two lines, under repetition, in a set."""
    def f(S, env):
        params = params_of(S, 2, 0) if S.bool('no default') else [('$a', ('"p"', 'p')), ('$b', ('5', 5))]
        rule = Rule(S, params, assignments(S, 'assign', params, assigns))
        one = [argument(S, 'first %d' % i, NAMES[:2], kinds, 1) for i in range(S.choice('first', 3))]
        two = [argument(S, 'second %d' % i, NAMES[:2], kinds, 1) for i in range(S.choice('second', 3))]
        way = S.pick('way', ['sequence', 'lines', 'repeat', 'optional', 'inner rule'][:ways])
        init = '<< $v = "old"; $w = 9; >>'
        if way == 'sequence':
            root = '"u" %s %s "m" %s << call h($v, $w); >>' % (init, refer(one), refer(two))
        elif way == 'lines':
            root = '"u" %s %s << call h($v, $w); >> | "o" %s %s << call h($v, $w); >>' % (init, refer(one), init, refer(two))
        elif way == 'repeat':
            root = '"u" %s ( %s "m" %s << call h($v, $w); >> ) * (1:2)' % (init, refer(one), refer(two))
        elif way == 'optional':
            root = '"u" %s { %s "m" } %s << call h($v, $w); >>' % (init, refer(one), refer(two))
        else:
            root = '"u" %s %s "m" o[$w, $v] << call h($v, $w); >>' % (init, refer(one))
        outer = 'o[$v, $w]: %s "n" << call k($v, $w); $w = "inner"; >> ;\n' % refer(two) if way == 'inner rule' else ''
        cli = make(S, rule.text + outer + 'root: ' + root + ' ;')
        S.check(cli is not None, lambda: 'refused: %r' % root)
        log = []

        def fresh():
            return {'$v': Cell('old'), '$w': Cell(9)}

        def h(scope):
            log.append(('h', scope['$v'].value, scope['$w'].value))

        scope = fresh()
        if way == 'lines':
            order = S.pick('order', [(0, 1, 0), (1, 0, 0)])
            for n, i in enumerate(order):
                scope = fresh()
                del log[:]
                rule.use((one, two)[i], scope, log)
                h(scope)
                verdict(S, cli, ('u x', 'o x')[i], log, 'line %d, ' % n)
            S.reach('lines')
            return
        rule.use(one, scope, log)
        if way in ('sequence', 'optional'):
            rule.use(two, scope, log)
            h(scope)
            line = 'u x m x'
        elif way == 'repeat':
            rule.use(two, scope, log)
            h(scope)
            line = 'u x m x'
            if S.bool('twice'):
                rule.use(one, scope, log)
                rule.use(two, scope, log)
                h(scope)
                line += ' x m x'
        else:
            inner = {'$v': scope['$w'], '$w': scope['$v']}
            rule.use(two, inner, log)
            log.append(('k', inner['$v'].value, inner['$w'].value))
            inner['$w'].value = 'inner'
            h(scope)
            line = 'u x m x n'
        verdict(S, cli, line, log, way + ', ')
        if way == 'optional':
            scope = fresh()
            log = []
            rule.use(two, scope, log)
            h(scope)
            verdict(S, cli, 'u x', log, 'without, ')
        S.reach(way)
    return f


def typed(S, env):
    """Values typed in the line travel through parameters in both directions."""
    from nessaid_cli.tokens import StringToken
    grammar = '''token W StringToken();
    k[$p, $q]: W << call k($p, $q, $1); $p = $1; >> ;
    g[$a, $b]: W << $b = $1; >> k[$a, $b] << call f($a, $b); >> W << $a = $3; call after($a, $b, $1, $2); >> ;
    root: W << $v = $1; $w = "w"; >> g[$v, $w] << call h($v, $w, $1); >> ;'''
    cli = make_cli(grammar, handlers=['f', 'after', 'h', 'k'], token_classes=[StringToken])
    w = [S.str('word%d' % i, 1, 2, LETTER) for i in range(4)]
    want = [('k', w[0], w[1], w[2]), ('f', w[2], w[1]), ('after', w[3], w[1], w[1], w[2]), ('h', w[3], w[1], w[0])]
    verdict(S, cli, ' '.join(w), want, '')
    S.reach('typed')


def through(more):
    """Three levels of rules; values that are nothing (None, 0, False, the empty text) on the way."""
    LITS = [('None', None), ('""', ''), ('0', 0), ('False', False), ('"t"', 't')]

    def f(S, env):
        scope = {}
        it, iv = S.pick('variable', LITS if more else LITS[:2] + LITS[4:])
        scope['$v'] = Cell(iv)
        levels, refs = [], []
        outer = '$v'
        for i, name in enumerate(['$p', '$q'] + (['$r'] if more else [])):
            kind = S.pick('argument %d' % i, ['variable', 'none', 'literal'])
            if kind == 'variable':
                scope[name] = scope[outer]
                refs.append('[' + outer + ']')
            elif kind == 'none':
                scope[name] = Cell()
                refs.append('')
            else:
                t, v = S.pick('literal %d' % i, LITS[:3])
                scope[name] = Cell(v)
                refs.append('[' + t + ']')
            outer = name
        log = []
        names = list(scope)
        texts = {}
        for i in range(len(names) - 1, -1, -1):
            name = names[i]
            new = S.pick('set %d' % i, [None] + LITS[:1] + LITS[4:]) if i else None
            log.append(('f', scope[name].value))
            code = 'call f(%s);' % name
            if new:
                scope[name].value = new[1]
                code += ' %s = %s; call after(%s);' % (name, new[0], name)
                log.append(('after', new[1]))
            texts[name] = code
        grammar, inside = '', '"x"'
        for i in range(len(names) - 1, 0, -1):
            grammar += 'g%d[%s]: %s << %s >> ;\n' % (i, names[i], inside, texts[names[i]])
            inside = 'g%d%s' % (i, refs[i - 1])
        cli = make(S, grammar + 'root: "u" << $v = %s; >> %s << %s >> ;' % (it, inside, texts['$v']))
        verdict(S, cli, 'u x', log, '')
        verdict(S, cli, 'u x', log, 'again, ')
        S.reach('through')
    return f


def own(S, env):
    """A rule's variables are its own, also when a rule around it has one of the same name."""
    v, w = S.char('v', LETTER), S.char('w', LETTER)
    way = S.pick('way', ['sub sub', 'two', '( sub ) * (1:2)', '{ sub } sub'])
    param = S.bool('parameter')
    before, after = S.bool('before'), S.bool('after')
    deep = S.bool('deeper')
    ref = 'sub' + ('[$x]' if param else '')
    body = way.replace('sub', ref).replace('two', ref + ' ' + ref)
    mine = '$v' if not param else '$p'
    grammar = 'token W StringToken();\n'
    if deep:
        grammar += 'low: "z" << call low($v, $w, $p); $v = "low"; >> ;\n'
    grammar += 'sub%s: << call f($v, $w); >> W << $v = $1; %s call g($v, $w); >> %s << call g($v, $w); >> ;\n' % (
        '[$p]' if param else '', '$p = $1;' if param else '', 'low' if deep else '')
    grammar += 'root: "r" << $x = "x"; %s >> %s << call h($v, $w, $x); >> ;' % ('$v = "%s"; $w = "%s";' % (v, w) if before else '', body)
    from nessaid_cli.tokens import StringToken
    cli = make_cli(grammar, handlers=['f', 'g', 'h', 'low'], token_classes=[StringToken])
    words = [S.char('word 0', LETTER), S.char('word 1', LETTER)]
    want = []
    for t in words:
        want += [('f', None, None), ('g', t, None)] + ([('low', None, None, None)] if deep else []) + [('g', t, None)]
    want.append(('h', v if before else None, w if before else None, words[1] if param else 'x'))
    line = 'r ' + ' '.join(t + (' z' if deep else '') for t in words)
    verdict(S, cli, line, want, '%s: ' % way)
    if after:
        verdict(S, cli, line, want, '%s, again: ' % way)
    S.reach('own')


def duplicate(S, env):
    n = [S.pick('parameter %d' % i, NAMES) for i in range(3)]
    cli = make(S, 'g[%s]: "x" << call f($a); >> ;\nroot: g ;' % ', '.join(n))
    twice = len(set(n)) < 3
    S.check((cli is None) == twice, lambda: 'parameters %r' % n)
    S.reach('refused' if twice else 'fine')


def root(n, defaults, kinds, twice):
    """Values given to match for the parameters of the entered rule, and what they are afterwards."""
    def f(S, env):
        from symx.api import drive
        params = params_of(S, n, defaults)
        todo = assignments(S, 'then', params, kinds)
        deep = S.bool('through a rule')
        sub = 'sub[$p]: "x" << $p = "deep"; >>;\n' if deep else ''
        cli = make(S, sub + 'root' + declare(params) + ': << call f(' + ', '.join(p[0] for p in params) + '); >> ' +
                   ('sub[' + params[0][0] + ']' if deep else '"x"') + ' W << ' + text(todo) + ' call after(' + ', '.join(p[0] for p in params) + '); >> ;')
        for turn in range(2 if twice and S.bool('twice') else 1):
            given = [S.pick('given %d %d' % (turn, i), [S.int('number %d %d' % (turn, i), 0, 9), 'text'])
                     for i in range(S.choice('arguments %d' % turn, n + 1))]
            args = list(given)
            del cli.log[:]
            word = S.char('word %d' % turn, LETTER)
            ending = S.bool('with the end %d' % turn)
            res = drive(cli.match(['x'] + ([word] if ending else []), dry_run=False, last_token_complete=True, arglist=args))
            cells = {p[0]: Cell(given[i] if i < len(given) else p[1][1] if p[1] else None) for i, p in enumerate(params)}
            want = [('f',) + values(cells, params)]
            if deep:
                cells[params[0][0]].value = 'deep'
            assign(cells, todo)
            want.append(('after',) + values(cells, params))
            S.observe('calls %d' % turn, cli.log)
            S.observe('args %d' % turn, args)
            if ending:
                S.check(res.result == 'success' and len(cli.log) == 2 and all(same(c, w) for c, w in zip(cli.log, want)),
                        lambda: '%r: %r, expected %r' % (given, cli.log, want))
                S.check(same(args, values(cells, params)[:len(given)]), lambda: '%r became %r' % (given, args))
                S.reach('changed')
            else:
                S.check(res.result != 'success' and cli.log == [] and same(args, given), lambda: '%r became %r' % (given, args))
    return f


def cases(tier):
    q = tier == 'quick'
    none = lambda: None
    return [
        Case('binding', none, once(2, 2 if q else 4, 2 if q else 3, 6, 2, 1),
             'up to 2 parameters with or without default, up to %d arguments of any form' % (2 if q else 3), ('bound', 'refused')),
        Case('too many', none, once(2, 0, 3, 4 if q else 6, 1, 1), '2 parameters, up to 3 arguments', ('bound', 'refused')),
        Case('literals', none, once(1, 4, 1, 1, 9, 2), 'a parameter, literals of every kind', ('bound',)),
        Case('assignments', none, once(2, 0, 2, 3, 1, 3), '2 parameters, literals and variables passed, any assignments', ('bound',)),
        Case('three', none, once(3, 0, 3, 3, 1, 2 if q else 3), '3 parameters, literals and variables passed, any assignments', ('bound',)),
        Case('several', none, several(2 if q else 4, 2 if q else 3, 5), 'two references to a rule: in sequence, in lines, repeated, optional, in another rule'),
        Case('typed', none, typed, 'any four words through two levels of rules', ('typed',)),
        Case('through', none, through(False) if q else through(True), 'a variable, parameter or literal passed on through 2 (3) rules, any values and assignments', ('through',)),
        Case('root', none, root(2, 2 if q else 4, 3, not q), 'up to 2 values given to the entered rule, any assignments, one line or two (thorough)', ('changed',)),
        Case('own variables', none, own, 'a rule and rules around and in it with variables of the same names, any values', ('own',)),
        Case('duplicate', none, duplicate, 'any three parameter names', ('refused', 'fine')),
    ]
