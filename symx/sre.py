"""Regular expression matching over symbolic strings: a backtracking matcher that runs
the parse tree CPython's own re parser produces, with CPython's search order."""
import re
import re._parser as _sp
from re._constants import (LITERAL, NOT_LITERAL, ANY, IN, BRANCH, SUBPATTERN, MAX_REPEAT,
                           MIN_REPEAT, AT, GROUPREF, ASSERT, ASSERT_NOT, RANGE, NEGATE, CATEGORY,
                           MAXREPEAT, POSSESSIVE_REPEAT, ATOMIC_GROUP,
                           AT_BEGINNING, AT_END, AT_BEGINNING_STRING, AT_END_STRING,
                           AT_BOUNDARY, AT_NON_BOUNDARY,
                           CATEGORY_DIGIT, CATEGORY_NOT_DIGIT, CATEGORY_SPACE, CATEGORY_NOT_SPACE,
                           CATEGORY_WORD, CATEGORY_NOT_WORD)

from .core import ctx, EngineError
from .isets import ISet, table, MAXCP
from .values import chars, mk, ch_eq, is_sym, has_sym, str_method

FULL = ISet(((0, MAXCP),))
NOT_NL = ISet.of([10]).compl()
CATS = {}


def cat(c, ascii_only):
    k = (c, ascii_only)
    if k not in CATS:
        base = {CATEGORY_DIGIT: 'isdecimal', CATEGORY_NOT_DIGIT: 'isdecimal', CATEGORY_SPACE: 're_space',
                CATEGORY_NOT_SPACE: 're_space', CATEGORY_WORD: 'word', CATEGORY_NOT_WORD: 'word'}[c]
        s = table(base)
        if ascii_only:
            s = s.inter(ISet(((0, 127),)))
            if base == 're_space':
                s = ISet.of([9, 10, 11, 12, 13, 32])
        if c in (CATEGORY_NOT_DIGIT, CATEGORY_NOT_SPACE, CATEGORY_NOT_WORD):
            s = s.compl()
        CATS[k] = s
    return CATS[k]


def in_set(items, flags):
    neg = False
    s = ISet(())
    for op, av in items:
        if op is NEGATE:
            neg = True
        elif op is LITERAL:
            s = s.union(ISet(((av, av),)))
        elif op is RANGE:
            s = s.union(ISet((av,)))
        elif op is CATEGORY:
            s = s.union(cat(av, bool(flags & re.ASCII)))
        else:
            raise EngineError('regex set %s' % op)
    return s.compl() if neg else s


def fold(s):
    """Characters matching a member of s when case is ignored (simple one-to-one folding)."""
    from .isets import casemap
    low, up = casemap('lower')[0], casemap('upper')[0]
    extra = []
    for m in (low, up):
        for c, r in m.items():
            if c in s:
                extra.append(r)
            if r in s:
                extra.append(c)
    return s.union(ISet.of(extra))


class Prog:
    """A compiled pattern: nodes prepared once."""

    def __init__(self, pattern):
        self.flags = pattern.flags
        tree = _sp.parse(pattern.pattern, pattern.flags & ~re.DEBUG)
        self.groups = pattern.groups
        self.nodes = self.prep(tree, pattern.flags)

    def prep(self, seq, flags):
        out = []
        for op, av in seq:
            if op is LITERAL or op is NOT_LITERAL:
                s = ISet(((av, av),))
                if flags & re.IGNORECASE:
                    s = fold(s)
                out.append(('set', s if op is LITERAL else s.compl()))
            elif op is ANY:
                out.append(('set', FULL if flags & re.DOTALL else NOT_NL))
            elif op is IN:
                s = in_set(av, flags)
                if flags & re.IGNORECASE:
                    s = fold(s)
                out.append(('set', s))
            elif op is BRANCH:
                out.append(('alt', [self.prep(b, flags) for b in av[1]]))
            elif op is SUBPATTERN:
                g, add, rem, sub = av
                out.append(('grp', g, self.prep(sub, (flags | add) & ~rem)))
            elif op in (MAX_REPEAT, MIN_REPEAT):
                lo, hi, sub = av
                body = self.prep(sub, flags)
                hi = None if hi is MAXREPEAT else hi
                out.append(('rep', lo, hi, body, op is MAX_REPEAT))
            elif op is AT:
                if av is AT_BEGINNING and flags & re.MULTILINE:
                    av = 'bol'
                elif av is AT_END and flags & re.MULTILINE:
                    av = 'eol'
                out.append(('at', av))
            elif op is GROUPREF:
                out.append(('ref', av))
            elif op in (ASSERT, ASSERT_NOT):
                direction, sub = av
                if direction < 0:
                    width = sub.getwidth()
                    if width[0] != width[1]:
                        raise EngineError('look-behind width')
                    out.append(('look', op is ASSERT, width[0], self.prep(sub, flags)))
                else:
                    out.append(('look', op is ASSERT, 0, self.prep(sub, flags)))
            elif op is ATOMIC_GROUP:
                out.append(('atomic', self.prep(av, flags)))
            else:
                raise EngineError('regex op %s' % op)
        return out


_progs = {}


def prog(pattern):
    if pattern not in _progs:
        _progs[pattern] = Prog(pattern)
    return _progs[pattern]


class Run:
    def __init__(self, p, xs, endpos):
        self.p, self.xs, self.end = p, xs, endpos
        self.caps = {}
        self.last = None
        self.full = False

    def m(self, nodes, i, pos, k):
        """Match nodes[i:] at pos, then continuation k(pos); returns truthy on success."""
        if i == len(nodes):
            return k(pos)
        nd = nodes[i]
        t = nd[0]
        if t == 'set':
            # iterate over runs of single characters to keep the stack shallow
            while True:
                if pos >= self.end or not ctx.char_in(self.xs[pos], nd[1]):
                    return None
                pos += 1
                i += 1
                if i == len(nodes):
                    return k(pos)
                nd = nodes[i]
                if nd[0] != 'set':
                    return self.m(nodes, i, pos, k)
        rest = lambda q: self.m(nodes, i + 1, q, k)
        if t == 'alt':
            for b in nd[1]:
                r = self.m(b, 0, pos, rest)
                if r is not None:
                    return r
            return None
        if t == 'grp':
            g = nd[1]

            def close(q):
                old, oldlast = self.caps.get(g), self.last
                if g is not None:
                    self.caps[g] = (pos, q)
                    self.last = g
                r = rest(q)
                if r is None and g is not None:
                    if old is None:
                        self.caps.pop(g, None)
                    else:
                        self.caps[g] = old
                    self.last = oldlast
                return r
            return self.m(nd[2], 0, pos, close)
        if t == 'rep':
            lo, hi, body, greedy = nd[1:]
            if len(body) == 1 and body[0][0] == 'set':
                s = body[0][1]
                n = 0
                while n < lo:
                    if pos + n >= self.end or not ctx.char_in(self.xs[pos + n], s):
                        return None
                    n += 1
                if greedy:
                    while (hi is None or n < hi) and pos + n < self.end and ctx.char_in(self.xs[pos + n], s):
                        n += 1
                    while n >= lo:
                        r = rest(pos + n)
                        if r is not None:
                            return r
                        n -= 1
                    return None
                while True:
                    r = rest(pos + n)
                    if r is not None:
                        return r
                    if (hi is not None and n >= hi) or pos + n >= self.end or not ctx.char_in(self.xs[pos + n], s):
                        return None
                    n += 1

            def loop(n, start):
                def more():
                    if hi is not None and n >= hi:
                        return None

                    def after(q):
                        if q == start and n >= lo:
                            return None          # empty iteration: stop
                        return loop(n + 1, q)
                    return self.m(body, 0, start, after)
                if n < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else rest(start)
                r = rest(start)
                return r if r is not None else more()
            return loop(0, pos)
        if t == 'at':
            return rest(pos) if self.at(nd[1], pos) else None
        if t == 'ref':
            c = self.caps.get(nd[1])
            if c is None:
                return None
            sub = self.xs[c[0]:c[1]]
            if pos + len(sub) > self.end or not ctx.chars_equal(self.xs[pos:pos + len(sub)], sub):
                return None
            return rest(pos + len(sub))
        if t == 'look':
            st = pos - nd[2]
            ok = st >= 0 and self.m(nd[3], 0, st, lambda q: q) is not None
            return rest(pos) if ok == nd[1] else None
        if t == 'atomic':
            q = self.m(nd[1], 0, pos, lambda q: q)
            return None if q is None else rest(q)
        raise EngineError('regex node ' + t)

    def at(self, what, pos):
        xs = self.xs
        if what in (AT_BEGINNING, AT_BEGINNING_STRING):
            return pos == 0
        if what is AT_END_STRING:
            return pos == self.end
        if what is AT_END:
            return pos == self.end or (pos == self.end - 1 and ch_eq(xs[pos], 10))
        if what == 'bol':
            return pos == 0 or ch_eq(xs[pos - 1], 10)
        if what == 'eol':
            return pos == self.end or ch_eq(xs[pos], 10)
        if what in (AT_BOUNDARY, AT_NON_BOUNDARY):
            w = cat(CATEGORY_WORD, bool(self.p.flags & re.ASCII))
            a = pos > 0 and ctx.char_in(xs[pos - 1], w)
            b = pos < self.end and ctx.char_in(xs[pos], w)
            return (a != b) == (what is AT_BOUNDARY)
        raise EngineError('regex anchor')


class SMatch:
    def __init__(self, pattern, string, run, start, end, pos, endpos):
        self.re, self.string = pattern, string
        self.pos, self.endpos = pos, endpos
        self._spans = dict(run.caps)
        self._spans[0] = (start, end)
        self.lastindex = run.last
        self._xs = run.xs

    def _g(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g > self.re.groups or g < 0:
            raise IndexError('no such group')
        return g

    def group(self, *gs):
        r = [self[g] for g in (gs or (0,))]
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, g):
        s = self._spans.get(self._g(g))
        return None if s is None else mk(self._xs[s[0]:s[1]])

    def groups(self, default=None):
        return tuple(default if self[g] is None else self[g] for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: default if self[n] is None else self[n] for n in self.re.groupindex}

    def span(self, g=0):
        return self._spans.get(self._g(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastgroup(self):
        for n, g in self.re.groupindex.items():
            if g == self.lastindex:
                return n
        return None

    def expand(self, t):
        return expand(self, t)


def match_at(pattern, string, pos=0, endpos=None, full=False):
    xs = chars(string)
    n = len(xs)
    endpos = n if endpos is None or endpos > n else endpos
    p = prog(pattern)
    run = Run(p, xs, endpos)
    fin = (lambda q: q if q == endpos else None) if full else (lambda q: q)
    e = run.m(p.nodes, 0, pos, fin)
    return None if e is None else SMatch(pattern, string, run, pos, e, pos, endpos)


def search(pattern, string, pos=0, endpos=None):
    n = len(chars(string))
    for i in range(pos, n + 1):
        m = match_at(pattern, string, i, endpos)
        if m is not None:
            return m
    return None


def finditer(pattern, string, pos=0, endpos=None):
    n = len(chars(string))
    last_empty = -1
    while pos <= n:
        m = search(pattern, string, pos, endpos)
        if m is None:
            return
        s, e = m.span()
        if s == e and s == last_empty:
            # an empty match may not start where the previous match ended
            pos = s + 1
            m = search(pattern, string, pos, endpos) if pos <= n else None
            if m is None:
                return
            s, e = m.span()
        yield m
        last_empty = e
        pos = e


def expand(m, template):
    if is_sym(template):
        raise EngineError('symbolic regex template')
    if '\\' not in template:
        return template
    parsed = _sp.parse_template(template, m.re)
    out = ()
    for part in parsed:
        if isinstance(part, int):
            v = m[part]
            out += chars(v) if v is not None else ()
        else:
            out += chars(part)
    return mk(out)


def sub(pattern, repl, string, count=0, n=False):
    out, prev, k = (), 0, 0
    xs = chars(string)
    for m in finditer(pattern, string):
        if count and k >= count:
            break
        s, e = m.span()
        r = repl(m) if callable(repl) else expand(m, repl)
        out += xs[prev:s] + chars(r)
        prev = e
        k += 1
    r = mk(out + xs[prev:])
    return (r, k) if n else r


def split(pattern, string, maxsplit=0):
    xs = chars(string)
    out, prev, k = [], 0, 0
    for m in finditer(pattern, string):
        if maxsplit and k >= maxsplit:
            break
        out.append(mk(xs[prev:m.start()]))
        out.extend(m.groups())
        prev = m.end()
        k += 1
    out.append(mk(xs[prev:]))
    return out


def findall(pattern, string, *a):
    out = []
    for m in finditer(pattern, string, *a):
        if pattern.groups == 0:
            out.append(m.group())
        elif pattern.groups == 1:
            out.append(m.group(1) or '')
        else:
            out.append(m.groups(''))
    return out


def pattern_method(pattern, name, args, kw):
    if name == 'match':
        return match_at(pattern, *args, **kw)
    if name == 'fullmatch':
        return match_at(pattern, *args, **kw, full=True)
    if name == 'search':
        return search(pattern, *args, **kw)
    if name == 'finditer':
        return finditer(pattern, *args, **kw)
    if name == 'findall':
        return findall(pattern, *args, **kw)
    if name == 'sub':
        return sub(pattern, *args, **kw)
    if name == 'subn':
        return sub(pattern, *args, **kw, n=True)
    if name == 'split':
        return split(pattern, *args, **kw)
    raise EngineError('re.Pattern.' + name)


def module_function(name, args, kw):
    args = list(args)
    if name == 'escape':
        return str_method('translate', args[0], re._special_chars_map)
    if name == 'compile' or name == 'purge':
        return getattr(re, name)(*args, **kw)
    nargs = {'match': 2, 'fullmatch': 2, 'search': 2, 'finditer': 2, 'findall': 2, 'sub': 3, 'subn': 3, 'split': 2}[name]
    flags = kw.pop('flags', 0)
    limit = {'sub': 4, 'subn': 4, 'split': 3}.get(name, nargs)
    if len(args) > limit:
        flags = args.pop()
    pat = args.pop(0) if args else kw.pop('pattern')
    if isinstance(pat, str):
        if is_sym(pat):
            raise EngineError('symbolic pattern')
        pat = re.compile(pat, flags)
    return pattern_method(pat, name, args, kw)
