"""Interval sets over code points, and the character tables of the running
Python (str predicates and case maps) expressed as interval sets."""
import json
import os
import sys
import unicodedata

MAXCP = 0x10FFFF


class ISet:
    """Immutable set of integers kept as sorted, disjoint, non-adjacent intervals."""
    __slots__ = ('iv', '_h')

    def __init__(self, iv):
        self.iv = iv
        self._h = None

    @staticmethod
    def of(points):
        out = []
        for p in sorted(set(points)):
            if out and out[-1][1] == p - 1:
                out[-1] = (out[-1][0], p)
            else:
                out.append((p, p))
        return ISet(tuple(out))

    @staticmethod
    def ranges(rs):
        out = []
        for lo, hi in sorted(rs):
            if hi < lo:
                continue
            if out and out[-1][1] >= lo - 1:
                if hi > out[-1][1]:
                    out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        return ISet(tuple(out))

    def __contains__(self, x):
        for lo, hi in self.iv:
            if x < lo:
                return False
            if x <= hi:
                return True
        return False

    def __bool__(self):
        return bool(self.iv)

    def __eq__(self, o):
        return self.iv == o.iv

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.iv)
        return self._h

    def inter(self, o):
        a, b, out = self.iv, o.iv, []
        i = j = 0
        while i < len(a) and j < len(b):
            lo = max(a[i][0], b[j][0])
            hi = min(a[i][1], b[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        return ISet(tuple(out))

    def compl(self, lo=0, hi=MAXCP):
        out = []
        cur = lo
        for a, b in self.iv:
            if b < lo:
                continue
            if a > hi:
                break
            if a > cur:
                out.append((cur, a - 1))
            cur = max(cur, b + 1)
        if cur <= hi:
            out.append((cur, hi))
        return ISet(tuple(out))

    def minus(self, o):
        return self.inter(o.compl())

    def union(self, o):
        return ISet.ranges(self.iv + o.iv)

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def __repr__(self):
        return 'ISet(%r)' % (self.iv,)


SURROGATES = ISet(((0xD800, 0xDFFF),))
ANYCHAR = SURROGATES.compl()          # every code point a well-formed text can hold

_tables = {}
TABLES_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')
KEY = sys.version + ' ' + unicodedata.unidata_version


def _load():
    """Tables of this very interpreter, made by 'python3-vt -m symx.isets'; anything missing is rebuilt."""
    try:
        with open(TABLES_FILE) as f:
            d = json.load(f)
    except (OSError, ValueError):
        return
    if d.get('key') != KEY:
        return
    for k, iv in d['tables'].items():
        _tables[k] = ISet(tuple(map(tuple, iv)))
    for k, (single, multi) in d['casemaps'].items():
        _casemaps[k] = ({int(c): r for c, r in single.items()}, {int(c): r for c, r in multi.items()})
    _digit_vals['d'] = d['digits']


def _store():
    for d in (_tables, _casemaps, _digit_vals):
        d.clear()
    for k in ('word', 're_space', 'intspace', 'isspace', 'isdecimal', 'isdigit', 'isnumeric', 'isalpha', 'isalnum', 'islower',
              'isupper', 'istitle', 'isprintable', 'isidentifier'):
        table(k)
    for k in ('lower', 'upper', 'casefold', 'swapcase', 'title', 'capitalize'):
        casemap(k)
    digit_blocks()
    with open(TABLES_FILE, 'w') as f:
        json.dump({'key': KEY, 'tables': {k: t.iv for k, t in _tables.items()}, 'casemaps': _casemaps, 'digits': _digit_vals['d']},
                  f, separators=(',', ':'))
        f.write('\n')


def _build(pred):
    out = []
    start = None
    for cp in range(MAXCP + 1):
        if pred(chr(cp)):
            if start is None:
                start = cp
        elif start is not None:
            out.append((start, cp - 1))
            start = None
    if start is not None:
        out.append((start, MAXCP))
    return ISet(tuple(out))


def table(name):
    """Interval set of the characters for which a one-character str predicate holds."""
    if name not in _tables:
        if name == 'word':
            import re
            rx = re.compile(r'\w')
            _tables[name] = _build(lambda c: rx.match(c) is not None)
        elif name == 're_space':
            import re
            rx = re.compile(r'\s')
            _tables[name] = _build(lambda c: rx.match(c) is not None)
        elif name == 'intspace':
            # what int() and float() strip
            def stripped(c):
                try:
                    return c not in '+-' and not c.isdecimal() and int(c + '1') == 1
                except ValueError:
                    return False
            _tables[name] = _build(stripped)
        else:
            _tables[name] = _build(getattr(str, name))
    return _tables[name]


_casemaps = {}


def casemap(name):
    """(single, multi): code points that str.<name> changes; to one / to several characters."""
    if name not in _casemaps:
        f = getattr(str, name)
        single, multi = {}, {}
        for cp in range(MAXCP + 1):
            if 0xD800 <= cp <= 0xDFFF:
                continue
            r = f(chr(cp))
            if len(r) != 1:
                multi[cp] = r
            elif ord(r) != cp:
                single[cp] = ord(r)
        _casemaps[name] = (single, multi)
    return _casemaps[name]


_pre = {}


def preimage(name, iset):
    """{c : map(c) in iset} for a single-character case map."""
    key = (name, iset)
    if key not in _pre:
        single, multi = casemap(name)
        changed = ISet.of(single)
        same = iset.minus(changed)
        hit = ISet.of([c for c, r in single.items() if r in iset])
        _pre[key] = same.union(hit)
    return _pre[key]


_digit_vals = {}


def digit_blocks():
    """Blocks (lo, hi) of decimal digits: value of c is c - lo (Nd code points come in runs of ten)."""
    if 'd' not in _digit_vals:
        starts = []
        for cp in range(MAXCP + 1):
            v = unicodedata.decimal(chr(cp), None)
            if v == 0:
                starts.append(cp)
        for s in starts:
            for k in range(10):
                assert unicodedata.decimal(chr(s + k), None) == k
        _digit_vals['d'] = starts
    return _digit_vals['d']


_load()
if __name__ == '__main__':
    _store()
