"""The harness interface. A harness is plain Python that runs in two modes:
 * symbolic - instrumented code, S.* inputs are solver variables, every path is explored;
 * concrete - the real, uninstrumented code, S.* inputs come from a recorded assignment.
"""
from .isets import ISet, ANYCHAR

ASCII = ISet(((0, 127),))
PRINTABLE = ISet(((32, 126),))
ANY = ANYCHAR


def alphabet(text):
    return ISet.of(map(ord, text))


class CheckFailed(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class AssumeFailed(BaseException):
    pass


class Concrete:
    """S in concrete mode."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.obs = []
        self.labels = []
        self.nchecks = 0
        self.missing = []

    def _get(self, name, default):
        if name in self.values:
            return self.values[name]
        self.missing.append(name)
        return default

    def char(self, name, alpha=ANY):
        return self._get(name, chr(alpha.iv[0][0]))

    def str(self, name, lo, hi=None, alpha=ANY):
        hi = lo if hi is None else hi
        return self._get(name, chr(alpha.iv[0][0]) * lo)

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def choice(self, name, n):
        return self._get(name, 0)

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def bool(self, name):
        return self.choice(name, 2) == 1

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg):
        self.nchecks += 1
        if not cond:
            raise CheckFailed(msg() if callable(msg) else msg)

    def observe(self, label, value):
        self.obs.append([label, norm(value)])

    def reach(self, label):
        self.labels.append(label)


def norm(v):
    """JSON form of an observed value, the same in both modes."""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, str):
        return ['s', [ord(c) for c in str.__str__(v)]]
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return ['f', repr(v + 0.0 if v else 0.0)]
    if isinstance(v, (list, tuple)):
        return ['l', [norm(x) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ['S', sorted((norm(x) for x in v), key=repr)]
    if isinstance(v, dict):
        return ['d', sorted(([norm(k), norm(x)] for k, x in v.items()), key=repr)]
    if isinstance(v, BaseException):
        return ['e', type(v).__name__]
    return ['o', type(v).__name__]


class Symbolic:
    symbolic = True

    def __init__(self):
        from . import core, values
        self.core, self.v = core, values
        self.ctx = core.ctx

    def char(self, name, alpha=ANY):
        c = self.ctx.new_char(name, alpha)
        s = self.v.mk((c,))
        self.ctx.inputs[name] = s
        return s

    def str(self, name, lo, hi=None, alpha=ANY):
        hi = lo if hi is None else hi
        n = lo if lo == hi else lo + self._choice(name + '.len', hi - lo + 1)
        s = self.v.mk(tuple(self.ctx.new_char('%s[%d]' % (name, i), alpha) for i in range(n)))
        self.ctx.inputs[name] = s
        return s

    def int(self, name, lo, hi):
        x = self.v.SInt(self.ctx.new_int(name, lo, hi))
        self.ctx.inputs[name] = x
        return x

    def _choice(self, name, n):
        if n == 1:
            return 0
        x = self.ctx.new_int(name, 0, n - 1)
        for i in range(n - 1):
            if self.ctx.branch(x == i):
                return i
        return n - 1

    def choice(self, name, n):
        r = self._choice(name, n)
        self.ctx.inputs[name] = r
        return r

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def bool(self, name):
        return self.choice(name, 2) == 1

    def assume(self, cond):
        if not cond:
            raise self.core.PathEnd('assume')

    def check(self, cond, msg):
        self.ctx.nchecks += 1
        if not cond:
            raise CheckFailed(msg)

    def observe(self, label, value):
        self.ctx.obs.append((label, self._snap(value)))

    def _snap(self, v):
        if type(v) in (list, tuple):
            return type(v)([self._snap(x) for x in v])
        if type(v) in (set, frozenset):
            return set(v)
        if type(v) is dict:
            return {k: self._snap(x) for k, x in v.items()}
        return v

    def reach(self, label):
        self.ctx.labels.append(label)

    # ---- end of path
    def settle(self, outcome, detail):
        import z3
        ctx = self.ctx

        def mev(e):
            return ctx.model.eval(e, model_completion=True).as_long()
        rec = {'kind': 'path', 'case': ctx.case, 'outcome': outcome, 'detail': detail,
               'labels': sorted(set(ctx.labels)), 'nchecks': ctx.nchecks, 'st': dict(ctx.st),
               'incomplete': list(ctx.incomplete), 'codes': sorted(ctx.codes)}
        ctx.st = dict.fromkeys(ctx.st, 0)
        if outcome != 'end':
            ins = {}
            for k, v in ctx.inputs.items():
                ins[k] = self.v.model_value(v, mev)
            rec['inputs'] = {k: enc(v) for k, v in ins.items()}
            if outcome in ('done', 'violation'):
                rec['obs'] = [[lab, self._norm(v, mev)] for lab, v in ctx.obs]
        return rec

    def _norm(self, v, mev):
        t = type(v)
        if t in (list, tuple):
            return ['l', [self._norm(x, mev) for x in v]]
        if t in (set, frozenset):
            return ['S', sorted((self._norm(x, mev) for x in v), key=repr)]
        if t is dict:
            return ['d', sorted(([self._norm(k, mev), self._norm(x, mev)] for k, x in v.items()), key=repr)]
        return norm(self.v.model_value(v, mev))


def enc(v):
    return ['s', [ord(c) for c in v]] if isinstance(v, str) else v


def dec(v):
    return ''.join(map(chr, v[1])) if isinstance(v, list) else v


def drive(coro):
    """Run a coroutine that never has to wait."""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value
