"""Symbolic strings, integers and decimals that stand in for str, int and float."""
import sys
from fractions import Fraction

import z3

from . import core
from .core import ctx, Ch, ChExpr, EngineError, in_expr
from .isets import ISet, table, casemap, digit_blocks, ANYCHAR

_counter = [0]


def _marker():
    _counter[0] += 1
    return '\U0010F8F0%d\U0010F8F1' % _counter[0]


class SStr(str):
    """A str whose characters may be symbolic (length is concrete on each path).
    Concrete instances only occur for subclasses defined by the code under test."""

    def __new__(cls, value='', *args, **kw):
        if not isinstance(value, str):
            from .instr import sx_str
            value = sx_str(value)
        sx = value._sx if isinstance(value, SStr) else None
        o = str.__new__(cls, _marker() if sx is not None else str.__str__(value))
        o._sx = sx
        return o

    def __init__(self, *a, **k):
        pass

    # -- natively dispatched protocol
    def __str__(self):
        if self._sx is None:
            return str.__str__(self)
        return mk(self._sx) if type(self) is not SStr else self

    def __len__(self):
        return len(self._sx) if self._sx is not None else str.__len__(self)

    def __bool__(self):
        return len(self) > 0

    __hash__ = str.__hash__

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_eq(self, o)

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return not str_eq(self, o)

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_less(self, o, False)

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_less(self, o, True)

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return not str_less(self, o, True)

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return not str_less(self, o, False)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(chars(self) + chars(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(chars(o) + chars(self))

    def __mul__(self, n):
        return mk(chars(self) * n)

    __rmul__ = __mul__

    def __mod__(self, a):
        return str_method('__mod__', self, a)

    def __rmod__(self, o):
        if isinstance(o, str):
            return str_method('__mod__', o, self)
        return NotImplemented

    def __contains__(self, o):
        return str_contains(self, o)

    def __getitem__(self, k):
        if self._sx is None:
            return str.__getitem__(self, k)
        r = self._sx[k]
        return mk(r) if isinstance(k, slice) else mk((r,))

    def __iter__(self):
        if self._sx is None:
            return str.__iter__(self)
        return iter([mk((c,)) for c in self._sx])

    def __reversed__(self):
        return iter([mk((c,)) for c in reversed(chars(self))])

    def __repr__(self):
        if self._sx is None:
            return str.__repr__(self)
        return str_repr(self)

    def __format__(self, spec):
        if self._sx is None:
            return format(str.__str__(self), spec)
        if spec == '':
            return mk(self._sx)
        raise EngineError('format spec on symbolic string')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineError('pickle of symbolic string')


def is_sym(x):
    """x itself is a symbolic value."""
    if isinstance(x, SStr):
        return x._sx is not None
    return type(x) in SYM_TYPES


def has_sym(x, depth=3):
    """x is or (shallowly) contains a symbolic value."""
    if isinstance(x, str):
        return isinstance(x, SStr) and x._sx is not None
    t = type(x)
    if t in SYM_TYPES:
        return True
    if depth:
        if t in (list, tuple, set, frozenset):
            for e in x:
                if has_sym(e, depth - 1):
                    return True
        elif t is dict:
            for k, v in x.items():
                if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                    return True
    return False


def chars(s):
    if isinstance(s, SStr) and s._sx is not None:
        return s._sx
    return tuple(map(ord, str.__str__(s)))


def mk(cs):
    """A plain str (real when every character is concrete)."""
    cs = tuple(cs)
    for c in cs:
        if type(c) is not int:
            o = str.__new__(SStr, _marker())
            o._sx = cs
            return o
    return ''.join(map(chr, cs))


def str_eq(a, b):
    sa = a._sx if isinstance(a, SStr) else None
    sb = b._sx if isinstance(b, SStr) else None
    if sa is None and sb is None:
        return str.__eq__(a, b)
    xa = sa if sa is not None else chars(a)
    xb = sb if sb is not None else chars(b)
    if xa is xb:
        return True
    if len(xa) != len(xb):
        return False
    return ctx.chars_equal(xa, xb)


def ch_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    if type(b) is int:
        return ctx.char_in(a, ISet(((0, b - 1),)) if b else ISet(()))
    if type(a) is int:
        return ctx.char_in(b, ISet(((a + 1, 0x10FFFF),)))
    return ctx.branch(a.expr() < b.expr())


def ch_eq(a, b):
    return ctx.chars_equal((a,), (b,))


def str_less(a, b, equal):
    """a < b, or a <= b."""
    xa, xb = chars(a), chars(b)
    n = min(len(xa), len(xb))
    tail = len(xa) <= len(xb) if equal else len(xa) < len(xb)
    for i in range(n):
        p, q = xa[i], xb[i]
        if i == n - 1:
            return not ch_lt(q, p) if tail else ch_lt(p, q)
        if not ch_eq(p, q):
            return ch_lt(p, q)
    return tail


def at(xs, i, sub):
    """sub occurs in xs at position i (branches)."""
    if i < 0 or i + len(sub) > len(xs):
        return False
    return ctx.chars_equal(xs[i:i + len(sub)], sub)


def str_contains(s, sub):
    if not isinstance(sub, str):
        raise TypeError("'in <string>' requires string as left operand")
    xs, ys = chars(s), chars(sub)
    if len(ys) == 1 and not any(type(c) is not int for c in ys):
        pass
    if len(ys) == 1 and all(type(c) is int for c in xs) and type(ys[0]) is not int:
        return ctx.char_in(ys[0], ISet.of(xs))
    for i in range(len(xs) - len(ys) + 1):
        if at(xs, i, ys):
            return True
    return False


def str_find(xs, ys, lo, hi, reverse=False):
    rng = range(lo, hi - len(ys) + 1)
    for i in (reversed(rng) if reverse else rng):
        if at(xs, i, ys):
            return i
    return -1


SPACE = 'isspace'


def _strip_set(a):
    if a is None:
        return None
    return chars(a)


def _in_strip(c, st):
    if st is None:
        return ctx.char_in(c, table('isspace'))
    if all(type(x) is int for x in st):
        return ctx.char_in(c, ISet.of(st))
    for x in st:
        if ch_eq(c, x):
            return True
    return False


def _bounds(n, start, end):
    s, e, _ = slice(start, end).indices(n)
    return s, e


def _m_startswith(self, prefix, start=None, end=None):
    xs = chars(self)
    s, e = _bounds(len(xs), start, end)
    for p in (prefix if isinstance(prefix, tuple) else (prefix,)):
        ys = chars(p)
        if s + len(ys) <= e and at(xs, s, ys):
            return True
    return False


def _m_endswith(self, suffix, start=None, end=None):
    xs = chars(self)
    s, e = _bounds(len(xs), start, end)
    for p in (suffix if isinstance(suffix, tuple) else (suffix,)):
        ys = chars(p)
        if e - len(ys) >= s and at(xs, e - len(ys), ys):
            return True
    return False


def _m_lstrip(self, a=None):
    xs, st = chars(self), _strip_set(a)
    i = 0
    while i < len(xs) and _in_strip(xs[i], st):
        i += 1
    return mk(xs[i:])


def _m_rstrip(self, a=None):
    xs, st = chars(self), _strip_set(a)
    j = len(xs)
    while j > 0 and _in_strip(xs[j - 1], st):
        j -= 1
    return mk(xs[:j])


def _m_strip(self, a=None):
    return str_method('lstrip', str_method('rstrip', self, a), a)


def _m_find(self, sub, start=None, end=None):
    xs = chars(self)
    s, e = _bounds(len(xs), start, end)
    return str_find(xs, chars(sub), s, e)


def _m_rfind(self, sub, start=None, end=None):
    xs = chars(self)
    s, e = _bounds(len(xs), start, end)
    return str_find(xs, chars(sub), s, e, True)


def _m_index(self, *a):
    r = _m_find(self, *a)
    if r < 0:
        raise ValueError('substring not found')
    return r


def _m_rindex(self, *a):
    r = _m_rfind(self, *a)
    if r < 0:
        raise ValueError('substring not found')
    return r


def _occurrences(xs, ys, limit=-1):
    out = []
    i = 0
    if not ys:
        raise EngineError('empty pattern')
    while i + len(ys) <= len(xs) and (limit < 0 or len(out) < limit):
        if at(xs, i, ys):
            out.append(i)
            i += len(ys)
        else:
            i += 1
    return out


def _m_count(self, sub, start=None, end=None):
    xs = chars(self)
    s, e = _bounds(len(xs), start, end)
    return len(_occurrences(xs[s:e], chars(sub)))


def _m_replace(self, old, new, count=-1):
    xs, o, n = chars(self), chars(old), chars(new)
    if not o:
        out = ()
        k = 0
        for i in range(len(xs) + 1):
            if count < 0 or k < count:
                out += n
                k += 1
            out += xs[i:i + 1]
        return mk(out)
    out, prev = (), 0
    for i in _occurrences(xs, o, count):
        out += xs[prev:i] + n
        prev = i + len(o)
    return mk(out + xs[prev:])


def _m_split(self, sep=None, maxsplit=-1):
    xs = chars(self)
    if sep is None:
        out, i, n = [], 0, len(xs)
        sp = table('isspace')
        while True:
            while i < n and ctx.char_in(xs[i], sp):
                i += 1
            if i >= n:
                return out
            if 0 <= maxsplit <= len(out):
                j = n
                while j > i and ctx.char_in(xs[j - 1], sp):
                    j -= 1
                out.append(mk(xs[i:j]))
                return out
            j = i
            while j < n and not ctx.char_in(xs[j], sp):
                j += 1
            out.append(mk(xs[i:j]))
            i = j
    ys = chars(sep)
    if not ys:
        raise ValueError('empty separator')
    out, prev = [], 0
    for i in _occurrences(xs, ys, maxsplit):
        out.append(mk(xs[prev:i]))
        prev = i + len(ys)
    out.append(mk(xs[prev:]))
    return out


def _m_rsplit(self, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return _m_split(self, sep)
    if sep is None:
        raise EngineError('rsplit(None, n)')
    xs, ys = chars(self), chars(sep)
    out, end, i = [], len(xs), len(xs) - len(ys)
    while i >= 0 and len(out) < maxsplit:
        if at(xs, i, ys):
            out.append(mk(xs[i + len(ys):end]))
            end = i
            i -= len(ys)
        else:
            i -= 1
    out.append(mk(xs[:end]))
    return out[::-1]


def _m_splitlines(self, keepends=False):
    xs = chars(self)
    brk = ISet.of([10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029])
    out, start, i = [], 0, 0
    while i < len(xs):
        if ctx.char_in(xs[i], brk):
            j = i + 1
            if j < len(xs) and ch_eq(xs[i], 13) and ch_eq(xs[j], 10):
                j += 1
            out.append(mk(xs[start:j] if keepends else xs[start:i]))
            start = i = j
        else:
            i += 1
    if start < len(xs):
        out.append(mk(xs[start:]))
    return out


def _m_partition(self, sep):
    xs, ys = chars(self), chars(sep)
    i = str_find(xs, ys, 0, len(xs))
    if i < 0:
        return (mk(xs), '', '')
    return (mk(xs[:i]), sep, mk(xs[i + len(ys):]))


def _m_rpartition(self, sep):
    xs, ys = chars(self), chars(sep)
    i = str_find(xs, ys, 0, len(xs), True)
    if i < 0:
        return ('', '', mk(xs))
    return (mk(xs[:i]), sep, mk(xs[i + len(ys):]))


def _m_removeprefix(self, p):
    return mk(chars(self)[len(p):]) if _m_startswith(self, p) else mk(chars(self))


def _m_removesuffix(self, p):
    if len(p) and _m_endswith(self, p):
        return mk(chars(self)[:-len(p)])
    return mk(chars(self))


def _m_join(self, items):
    sep = chars(self)
    out = ()
    first = True
    for it in items:
        if not isinstance(it, str):
            raise TypeError('sequence item: expected str instance, %s found' % type(it).__name__)
        if not first:
            out += sep
        out += chars(it)
        first = False
    return mk(out)


def _casemethod(name):
    def m(self):
        out = ()
        single, multi = casemap(name)
        for c in chars(self):
            if type(c) is int:
                out += tuple(map(ord, getattr(chr(c), name)()))
                continue
            if type(c) is ChExpr:
                out += (c,)       # digits have no case
                continue
            if c.map is not None:
                if c.map == name:
                    out += (c,)
                    continue
                # composed maps: decide the underlying character's ASCII case by value
                c = ctx.conc_char(c, 'composed case map')
                out += tuple(map(ord, getattr(chr(c), name)()))
                continue
            if multi and ctx.char_in(c, ISet.of(multi)):
                v = ctx.conc_char(c, 'case expansion')
                out += tuple(map(ord, getattr(chr(v), name)()))
            elif not ctx.domains[c.vid].inter(ISet.of(single)):
                out += (c,)
            else:
                out += (Ch(c.var, c.vid, c.name, name),)
        return mk(out)
    return m


def _predmethod(name):
    def m(self):
        xs = chars(self)
        if not xs:
            return getattr('', name)()
        t = table(name)
        for c in xs:
            if not ctx.char_in(c, t):
                return False
        return True
    return m


def _cased(name):
    # islower/isupper: at least one cased character, none of the other case
    def m(self):
        low, up, title = table('islower'), table('isupper'), table('istitle')
        good, bad = (low, up) if name == 'islower' else (up, low)
        bad = bad.union(title.minus(low).minus(up))
        seen = False
        for c in chars(self):
            if ctx.char_in(c, bad):
                return False
            if not seen and ctx.char_in(c, good):
                seen = True
        return seen
    return m


def _m_isidentifier(self):
    xs = chars(self)
    if not xs:
        return False
    start = table('isidentifier')
    from .isets import _tables, _build
    if 'idcont' not in _tables:
        _tables['idcont'] = _build(lambda c: ('a' + c).isidentifier())
    return ctx.char_in(xs[0], start) and all(ctx.char_in(c, _tables['idcont']) for c in xs[1:])


def _m_zfill(self, w):
    xs = chars(self)
    if len(xs) >= w:
        return mk(xs)
    pad = (48,) * (w - len(xs))
    if xs and ctx.char_in(xs[0], ISet.of([43, 45])):
        return mk(xs[:1] + pad + xs[1:])
    return mk(pad + xs)


def _m_ljust(self, w, f=' '):
    xs = chars(self)
    return mk(xs + chars(f) * max(0, w - len(xs)))


def _m_rjust(self, w, f=' '):
    xs = chars(self)
    return mk(chars(f) * max(0, w - len(xs)) + xs)


def _m_translate(self, tab):
    out = ()
    for c in chars(self):
        if type(c) is not int:
            keys = [k for k in tab if type(k) is int]
            for k in keys:
                if ctx.char_in(c, ISet(((k, k),))):
                    c = k
                    break
            else:
                out += (c,)
                continue
        r = tab.get(c, c) if hasattr(tab, 'get') else tab[c]
        if r is None:
            continue
        out += (r,) if type(r) is int else chars(r)
    return mk(out)


def _m_format(self, *args, **kw):
    if is_sym(self):
        raise EngineError('format with symbolic template')
    import string
    auto = 0
    out = ()
    from .instr import sx_format1
    for lit, field, spec, conv in string.Formatter().parse(str.__str__(self)):
        out += chars(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        import _string
        first, rest = _string.formatter_field_name_split(field)
        obj = args[first] if isinstance(first, int) else kw[first]
        for is_attr, k in rest:
            obj = getattr(obj, k) if is_attr else obj[k]
        if spec and '{' in spec:
            raise EngineError('nested format spec')
        out += chars(sx_format1(obj, conv, spec))
    return mk(out)


def _m_mod(self, a):
    import re as _re
    if is_sym(self):
        raise EngineError('% with symbolic template')
    t = str.__str__(self)
    args = list(a) if isinstance(a, tuple) else [a]
    out, pos, k = (), 0, 0
    from .instr import sx_str, sx_repr
    for m in _re.finditer(r'%(\((\w+)\))?([#0\- +]*)(\*|\d+)?(\.\d+)?([a-zA-Z%])', t):
        out += tuple(map(ord, t[pos:m.start()]))
        pos = m.end()
        if m.group(6) == '%':
            out += (37,)
            continue
        if m.group(1):
            v = a[m.group(2)]
        else:
            v = args[k]
            k += 1
        if not has_sym(v):
            out += tuple(map(ord, m.group().replace(m.group(1) or '', '', 1) % (v,)))
        elif m.group(3) or m.group(4) or m.group(5):
            raise EngineError('format spec %s' % m.group())
        elif m.group(6) in 'sd':
            out += chars(sx_str(v))
        elif m.group(6) == 'r':
            out += chars(sx_repr(v))
        else:
            raise EngineError('format spec %s' % m.group())
    return mk(out + tuple(map(ord, t[pos:])))


def str_repr(s):
    q = 39
    xs = chars(s)
    has1 = any([ch_eq(c, 39) for c in xs])
    if has1 and not any([ch_eq(c, 34) for c in xs]):
        q = 34
    out = (q,)
    pr = table('isprintable')
    for c in xs:
        if ch_eq(c, q):
            out += (92, q)
        elif ch_eq(c, 92):
            out += (92, 92)
        elif ctx.char_in(c, pr):
            out += (c,)
        else:
            v = ctx.conc_char(c, 'repr of unprintable')
            out += tuple(map(ord, repr(chr(v))[1:-1]))
    return mk(out + (q,))


IMPL = {
    'startswith': _m_startswith, 'endswith': _m_endswith, 'lstrip': _m_lstrip, 'rstrip': _m_rstrip,
    'strip': _m_strip, 'find': _m_find, 'rfind': _m_rfind, 'index': _m_index, 'rindex': _m_rindex,
    'count': _m_count, 'replace': _m_replace, 'split': _m_split, 'rsplit': _m_rsplit,
    'splitlines': _m_splitlines, 'partition': _m_partition, 'rpartition': _m_rpartition,
    'removeprefix': _m_removeprefix, 'removesuffix': _m_removesuffix, 'join': _m_join,
    'zfill': _m_zfill, 'ljust': _m_ljust, 'rjust': _m_rjust, 'translate': _m_translate,
    'format': _m_format, '__mod__': _m_mod, 'isidentifier': _m_isidentifier,
    'islower': _cased('islower'), 'isupper': _cased('isupper'),
    '__contains__': str_contains, '__eq__': lambda a, b: a == b, '__ne__': lambda a, b: a != b,
    '__lt__': lambda a, b: a < b, '__le__': lambda a, b: a <= b,
    '__gt__': lambda a, b: a > b, '__ge__': lambda a, b: a >= b,
    '__add__': lambda a, b: mk(chars(a) + chars(b)), '__len__': lambda a: len(chars(a)),
    '__getitem__': lambda a, k: mk(chars(a)[k]) if isinstance(k, slice) else mk((chars(a)[k],)),
    '__mul__': lambda a, n: mk(chars(a) * n), '__str__': lambda a: mk(chars(a)),
    '__iter__': lambda a: iter([mk((c,)) for c in chars(a)]), '__repr__': str_repr,
    '__hash__': str.__hash__,
}
for _n in ('lower', 'upper', 'casefold', 'swapcase'):
    IMPL[_n] = _casemethod(_n)
for _n in ('isnumeric', 'isdigit', 'isdecimal', 'isspace', 'isalpha', 'isalnum', 'isprintable', 'isascii'):
    IMPL[_n] = _predmethod(_n)


def str_method(name, self, *args, **kw):
    """str.<name>(self, ...) for any mix of real and symbolic strings."""
    if not is_sym(self) and not any(has_sym(a) for a in args) and not (kw and has_sym(kw)):
        return getattr(str, name)(self, *args, **kw)
    f = IMPL.get(name)
    if f is None:
        self = conc(self, 'str.' + name)
        return getattr(str, name)(self, *[conc(a, 'str.' + name) for a in args], **kw)
    return f(self, *[int(a) if type(a) is SInt else a for a in args], **kw)


def _install(name):
    def m(self, *a, **k):
        return str_method(name, self, *a, **k)
    m.__name__ = name
    setattr(SStr, name, m)


for _n in dir(str):
    if not _n.startswith('_') and _n not in ('maketrans',):
        _install(_n)


# ---------------------------------------------------------------- integers

class SInt:
    """A symbolic integer (unbounded, like Python's)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return hash(ctx.concretise(self.e, 'hash(int)'))

    def __bool__(self):
        return ctx.branch(self.e != 0)

    def __index__(self):
        return ctx.concretise(self.e, 'index')

    __int__ = __index__

    def __repr__(self):
        return int_str(self)

    __str__ = __repr__

    def __format__(self, spec):
        if spec:
            return format(int(self), spec)
        return int_str(self)

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __float__(self):
        raise EngineError('float of symbolic int')

    def bit_length(self):
        return int(self).bit_length()


def iexpr(x):
    t = type(x)
    if t is SInt:
        return x.e
    if t is int or t is bool:
        return z3.IntVal(int(x))
    return None


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def _ibin(f, swap=False):
    def m(self, o):
        if type(o) is float or type(o) is SFloat:
            a = SFloat(z3.ToReal(self.e))
            return f(o, a) if swap else f(a, o)
        e = iexpr(o)
        if e is None:
            return NotImplemented
        return mkint(f(e, self.e) if swap else f(self.e, e))
    return m


def _icmp(f):
    def m(self, o):
        if type(o) is float:
            if o != o:
                return f(1, o)
            if o in (float('inf'), float('-inf')):
                return f(0, o)
            return ctx.branch(f(z3.ToReal(self.e), fexpr(o)))
        if type(o) is SFloat:
            return ctx.branch(f(z3.ToReal(self.e), o.e))
        e = iexpr(o)
        if e is None:
            return NotImplemented
        return ctx.branch(z3.simplify(f(self.e, e)))
    return m


import operator as _op
for _n, _f in (('add', _op.add), ('sub', _op.sub), ('mul', _op.mul)):
    setattr(SInt, '__%s__' % _n, _ibin(_f))
    setattr(SInt, '__r%s__' % _n, _ibin(_f, True))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(SInt, '__%s__' % _n, _icmp(getattr(_op, _n)))


def _divmod_ok(o):
    return type(o) is int and o > 0


def _floordiv(self, o):
    if _divmod_ok(o):
        return mkint(self.e / z3.IntVal(o))
    return int(self) // o


def _mod(self, o):
    if _divmod_ok(o):
        return mkint(self.e % z3.IntVal(o))
    return int(self) % o


SInt.__floordiv__ = _floordiv
SInt.__mod__ = _mod
SInt.__divmod__ = lambda self, o: (self // o, self % o)
SInt.__rfloordiv__ = lambda self, o: o // int(self)
SInt.__rmod__ = lambda self, o: o % int(self)
SInt.__truediv__ = lambda self, o: int(self) / o
SInt.__rtruediv__ = lambda self, o: o / int(self)
SInt.__pow__ = lambda self, o, m=None: pow(int(self), o, m)
SInt.__rpow__ = lambda self, o, m=None: pow(o, int(self), m)
SInt.__lshift__ = lambda self, o: self * (1 << o)
SInt.__rshift__ = lambda self, o: self // (1 << o)
for _n, _f in (('and', _op.and_), ('or', _op.or_), ('xor', _op.xor)):
    setattr(SInt, '__%s__' % _n, lambda self, o, f=_f: f(int(self), o))
    setattr(SInt, '__r%s__' % _n, lambda self, o, f=_f: f(o, int(self)))

DIGITS = ISet(((48, 57),))


def int_str(x):
    """Decimal rendering: branches on sign and number of digits."""
    e = x.e
    neg = ctx.branch(e < 0)
    m = z3.simplify(-e) if neg else e
    n = 1
    while not ctx.branch(m < 10 ** n):
        n += 1
        if n > 18:
            raise EngineError('number too long to render')
    cs = [45] if neg else []
    if n == 1:
        cs.append(ChExpr(m + 48, DIGITS))
    else:
        for k in range(n - 1, -1, -1):
            q = m / z3.IntVal(10 ** k) if k else m
            d = q if k == n - 1 else q % z3.IntVal(10)
            cs.append(ChExpr(d + 48, DIGITS))
    out = []
    for c in cs:
        if type(c) is ChExpr:
            s = z3.simplify(c.e)
            if z3.is_int_value(s):
                c = s.as_long()
        out.append(c)
    return mk(out)


def digit_value(c):
    """Value of a character already known to be a decimal digit."""
    if type(c) is int:
        import unicodedata
        return unicodedata.decimal(chr(c))
    if ctx.char_in(c, DIGITS):
        return c.expr() - 48
    dom = ctx.domains[c.vid]
    e = None
    v = c.expr()
    for s in digit_blocks():
        if dom.inter(ISet(((s, s + 9),))):
            e = v - s if e is None else z3.If(z3.And(v >= s, v <= s + 9), v - s, e)
    return e


def _num_strip(xs):
    sp = table('intspace')
    i, j = 0, len(xs)
    while i < j and ctx.char_in(xs[i], sp):
        i += 1
    while j > i and ctx.char_in(xs[j - 1], sp):
        j -= 1
    return xs[i:j]


def _digit_run(xs, i):
    """Digits with single underscores between them from i; (digit chars, next index, ok)."""
    dec = table('isdecimal')
    ds = []
    while i < len(xs):
        if ctx.char_in(xs[i], dec):
            ds.append(xs[i])
            i += 1
        elif ds and i + 1 < len(xs) and ch_eq(xs[i], 95) and ctx.char_in(xs[i + 1], dec):
            i += 1
        else:
            break
    return ds, i


def parse_int(s, base=10):
    if base != 10:
        return int(conc(s, 'int(base)'), base)
    xs = _num_strip(chars(s))
    i, neg = 0, False
    if xs and ctx.char_in(xs[0], ISet.of([43, 45])):
        neg = ch_eq(xs[0], 45)
        i = 1
    ds, j = _digit_run(xs, i)
    if not ds or j != len(xs):
        raise ValueError('invalid literal for int() with base 10')
    v = z3.IntVal(0)
    for d in ds:
        dv = digit_value(d)
        v = v * 10 + dv
    return mkint(-v if neg else v)


# ---------------------------------------------------------------- decimals

class SFloat:
    """A finite float obtained from decimal text, kept as the exact rational it denotes.
    Decimal-to-double rounding is monotone and injective below 16 significant digits,
    so comparisons between such numbers agree with comparisons between the doubles."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = z3.simplify(e)

    @property
    def __class__(self):
        return float

    def __hash__(self):
        return 0

    def __neg__(self):
        return SFloat(-self.e)

    def __abs__(self):
        return self if self >= 0 else -self

    def __bool__(self):
        return ctx.branch(self.e != 0)

    def __round__(self, n=None):
        scale = Fraction(10) ** (n or 0)
        m = self.e * z3.RealVal(scale)
        low = z3.ToInt(m)
        part = m - z3.ToReal(low)
        if ctx.branch(z3.simplify(part == z3.RealVal('1/2'))):
            return round(conc(self, 'round'), n)      # ties depend on the binary value
        up = z3.If(part > z3.RealVal('1/2'), low + 1, low)
        return mkint(up) if n is None else SFloat(z3.ToReal(up) / z3.RealVal(scale))

    def __float__(self):
        raise EngineError('float() of symbolic decimal in C code')

    def __int__(self):
        e = z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))
        return ctx.concretise(e, 'int(float)')

    def is_integer(self):
        return ctx.branch(z3.IsInt(self.e))

    def __repr__(self):
        return repr(conc(self, 'text of a decimal'))

    __str__ = __repr__


def fexpr(x):
    t = type(x)
    if t is SFloat:
        return x.e
    if t is SInt:
        return z3.ToReal(x.e)
    if t in (int, bool):
        return z3.RealVal(int(x))
    if t is float:
        return z3.RealVal(Fraction(repr(x)))
    return None


def _fcmp(f):
    def m(self, o):
        if type(o) is float and (o != o or o in (float('inf'), float('-inf'))):
            return f(0.0, o)
        e = fexpr(o)
        if e is None:
            return NotImplemented
        return ctx.branch(z3.simplify(f(self.e, e)))
    return m


def _farith(name):
    f = getattr(_op, name)

    def m(self, o):
        return f(conc(self, 'decimal arithmetic'), conc(o, 'decimal arithmetic'))

    def r(self, o):
        return f(conc(o, 'decimal arithmetic'), conc(self, 'decimal arithmetic'))
    return m, r


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    _m, _r = _farith(_n)
    setattr(SFloat, '__%s__' % _n, _m)
    setattr(SFloat, '__r%s__' % _n, _r)

for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(SFloat, '__%s__' % _n, _fcmp(getattr(_op, _n)))


def parse_float(s):
    xs = _num_strip(chars(s))
    bad = ValueError('could not convert string to float')
    i, neg = 0, False
    if xs and ctx.char_in(xs[0], ISet.of([43, 45])):
        neg = ch_eq(xs[0], 45)
        i = 1
    word = str_method('lower', mk(xs[i:]))
    if 3 <= len(word) <= 8 and len(word) in (3, 8):
        if word == 'inf' or word == 'infinity':
            return float('-inf') if neg else float('inf')
        if word == 'nan':
            return float('nan')
    ip, i = _digit_run(xs, i)
    fp = []
    if i < len(xs) and ch_eq(xs[i], 46):
        i += 1
        fp, i = _digit_run(xs, i)
    if not ip and not fp:
        raise bad
    exp = 0
    if i < len(xs) and ctx.char_in(xs[i], ISet.of([69, 101])):
        i += 1
        eneg = False
        if i < len(xs) and ctx.char_in(xs[i], ISet.of([43, 45])):
            eneg = ch_eq(xs[i], 45)
            i += 1
        es, i = _digit_run(xs, i)
        if not es or i != len(xs):
            raise bad
        ev = z3.IntVal(0)
        for d in es:
            ev = ev * 10 + digit_value(d)
        exp = ctx.concretise(ev, 'decimal exponent')
        if eneg:
            exp = -exp
    if i != len(xs):
        raise bad
    if len(ip) + len(fp) > 15:
        raise EngineError('decimal longer than 15 digits')
    if abs(exp) > 290:
        raise EngineError('decimal exponent')
    m = z3.IntVal(0)
    for d in ip + fp:
        m = m * 10 + digit_value(d)
    if neg:
        m = -m
    r = z3.ToReal(m) * z3.RealVal(Fraction(10) ** (exp - len(fp)))
    return SFloat(r)


# ---------------------------------------------------------------- ranges

class SRange:
    """range() with symbolic limits and step 1."""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __iter__(self):
        i = self.a
        while i < self.b:
            yield i
            i = i + 1

    def __len__(self):
        return int(self.length())

    def length(self):
        n = self.b - self.a
        return n if n > 0 else 0

    def __bool__(self):
        return bool(self.a < self.b)

    def __contains__(self, x):
        return x >= self.a and x < self.b

    def __getitem__(self, k):
        return list(self)[k]


SYM_TYPES = (SInt, SFloat, SRange)


def conc(x, why):
    """Concrete counterpart of x on this path (enumerating values by forking)."""
    if isinstance(x, SStr):
        if x._sx is None:
            return str.__str__(x) if type(x) is SStr else x
        ctx.st['concretised'] += 1
        return ''.join(chr(ctx.conc_char(c, why)) for c in x._sx)
    t = type(x)
    if t is SInt:
        return int(x)
    if t is SFloat:
        n, d = ctx.concretise_real(x.e, why)
        return n / d
    if t is SRange:
        return range(int(x.a), int(x.b))
    if t in (list, tuple, set, frozenset):
        return t([conc(e, why) for e in x])
    if t is dict:
        return {conc(k, why): conc(v, why) for k, v in x.items()}
    return x


def model_value(x, mev):
    """x under a model, as a plain Python value; mev evaluates an integer/real term."""
    if isinstance(x, SStr):
        if x._sx is None:
            return str.__str__(x)
        out = []
        for c in x._sx:
            if type(c) is not int:
                if type(c) is Ch:
                    v = mev(c.var)
                    c = casemap(c.map)[0].get(v, v) if c.map else v
                else:
                    c = mev(c.e)
            out.append(chr(c))
        return ''.join(out)
    t = type(x)
    if t is SInt:
        return mev(x.e)
    if t is SFloat:
        v = ctx.model.eval(x.e, model_completion=True)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if t is SRange:
        return ['range', model_value(x.a, mev), model_value(x.b, mev)]
    return x
