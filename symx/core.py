"""Path exploration: one OS process per path, forked at each branch both of whose
sides the solver finds satisfiable under the path condition."""
import gc
import json
import mmap
import os
import signal
import struct
import sys
import time
import traceback

import z3

from .isets import ISet, ANYCHAR, preimage
from .api import CheckFailed, AssumeFailed

CONC_LIMIT = 40          # values enumerated when a symbolic value has to be made concrete


class PathEnd(BaseException):
    """Path abandoned: assumption false, or stop requested."""


class EngineError(BaseException):
    """The engine cannot continue on this path."""


class Hang(BaseException):
    """A path used up its processor time."""


def _alarm(sig, frame):
    raise Hang()


HANG_SECONDS = 60


def arm():
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_SECONDS)


class Ch:
    """One symbolic character: a solver variable seen through an optional case map."""
    __slots__ = ('var', 'vid', 'map', 'name')

    def __init__(self, var, vid, name, map=None):
        self.var = var
        self.vid = vid
        self.name = name
        self.map = map

    def same(self, o):
        return type(o) is Ch and o.vid == self.vid and o.map == self.map

    def expr(self):
        if self.map is None:
            return self.var
        from .isets import casemap
        single, _ = casemap(self.map)
        e = self.var
        dom = ctx.domains.get(self.vid)
        for c, r in single.items():
            if dom is None or c in dom:
                e = z3.If(self.var == c, z3.IntVal(r), e)
        return e

    def __repr__(self):
        return 'Ch(%s%s)' % (self.name, '' if not self.map else ':' + self.map)


class ChExpr:
    """A character given by an arithmetic term (a digit of a symbolic number)."""
    __slots__ = ('e', 'dom')

    def __init__(self, e, dom):
        self.e = e
        self.dom = dom

    def same(self, o):
        return type(o) is ChExpr and o.e.eq(self.e)

    def expr(self):
        return self.e


def in_expr(v, iset):
    """z3 term for membership of integer term v in an interval set."""
    comp = iset.compl()
    if len(comp.iv) < len(iset.iv):
        return z3.Not(in_expr(v, comp)) if comp.iv else z3.BoolVal(True)
    if not iset.iv:
        return z3.BoolVal(False)
    parts = []
    for lo, hi in iset.iv:
        if lo == hi:
            parts.append(v == lo)
        elif lo <= 0:
            parts.append(v <= hi)
        elif hi >= 0x10FFFF:
            parts.append(v >= lo)
        else:
            parts.append(z3.And(v >= lo, v <= hi))
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


class Shared:
    """Flags shared by the processes of one exploration."""

    def __init__(self):
        self.m = mmap.mmap(-1, 4096)

    def get(self, i):
        return struct.unpack_from('q', self.m, 8 * i)[0]

    def set(self, i, v):
        struct.pack_into('q', self.m, 8 * i, v)


STOP, TIMEOUT, VIOLS = 0, 1, 2
known_labels = set()       # failures with one of these do not count towards the limit
MAX_VIOLS = 8


class Ctx:
    def __init__(self):
        self.active = False
        self.reset()

    def reset(self):
        self.solver = None
        self.model = None
        self.domains = {}
        self.decided = {}
        self.inputs = {}        # name -> symbolic input value (insertion order)
        self.obs = []
        self.labels = []
        self.nchecks = 0
        self.violations = []
        self.incomplete = []
        self.children = []
        self.own_token = False
        self.st = dict(queries=0, qtime=0.0, unsat=0, sat=0, unknown=0, propagated=0,
                       forks=0, concretised=0)
        self.fresh = 0
        self.codes = set()
        self.case = None
        self.t0 = time.time()

    # ---- solver -------------------------------------------------------
    def start(self):
        self.solver = z3.SolverFor('QF_LIA') if False else z3.Solver()
        self.solver.set('rlimit', 20000000)
        assert self.check() == z3.sat

    def check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.st['qtime'] += time.perf_counter() - t
        self.st['queries'] += 1
        if r == z3.sat:
            self.st['sat'] += 1
            self.last_model = self.solver.model()
        elif r == z3.unsat:
            self.st['unsat'] += 1
        else:
            self.st['unknown'] += 1
        return r

    def add(self, cond):
        self.solver.add(cond)

    def mval(self, expr):
        return self.model.eval(expr, model_completion=True)

    def new_char(self, name, dom=ANYCHAR):
        v = z3.Int(name)
        vid = name
        self.solver.add(v >= 0, v <= 0x10FFFF, in_expr(v, dom))
        if self.check() != z3.sat:
            raise PathEnd('empty alphabet')
        self.model = self.last_model
        self.domains[vid] = dom
        return Ch(v, vid, name)

    def new_int(self, name, lo, hi):
        v = z3.Int(name)
        self.solver.add(v >= lo, v <= hi)
        if self.check() != z3.sat:
            raise PathEnd('empty range')
        self.model = self.last_model
        return v

    # ---- branching ----------------------------------------------------
    def _split(self, cond):
        """Decide cond on this path, forking if both outcomes are possible."""
        if shared.get(STOP):
            raise PathEnd('stop')
        mv = self.mval(cond)
        if z3.is_true(mv):
            here, other, side = cond, z3.Not(cond), True
        elif z3.is_false(mv):
            here, other, side = z3.Not(cond), cond, False
        else:
            raise EngineError('model does not decide %s' % cond)
        r = self.check(other)
        if r == z3.unsat:
            return side
        if r == z3.unknown:
            self.incomplete.append('solver unknown')
            self.add(here)
            return side
        m2 = self.last_model
        self.st['forks'] += 1
        if fork():
            self.add(here)
            return side
        self.add(other)
        self.model = m2
        return not side

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.decided:
            self.st['propagated'] += 1
            return self.decided[k][1]
        r = self._split(cond)
        self.decided[k] = (cond, r)
        return r

    def char_in(self, ch, iset):
        """Branch on `character in set`; characters are ints, Ch or ChExpr."""
        if type(ch) is int:
            return ch in iset
        if type(ch) is ChExpr:
            d = ch.dom.inter(iset)
            if not d:
                return False
            if d == ch.dom:
                return True
            return self.branch(in_expr(ch.e, d))
        s = iset if ch.map is None else preimage(ch.map, iset)
        dom = self.domains[ch.vid]
        yes = dom.inter(s)
        if not yes:
            self.st['propagated'] += 1
            return False
        if yes.iv == dom.iv:
            self.st['propagated'] += 1
            return True
        no = dom.minus(s)
        # phrase the condition as compactly as the current domain allows
        if len(yes.iv) <= len(no.iv):
            cond = in_expr(ch.var, yes)
        else:
            cond = z3.Not(in_expr(ch.var, no))
        r = self._split(cond)
        self.domains[ch.vid] = yes if r else no
        return r

    def unary(self, ch, iset):
        """(decided?, value) without branching."""
        if type(ch) is int:
            return ch in iset
        if type(ch) is ChExpr:
            d = ch.dom.inter(iset)
            return False if not d else True if d == ch.dom else None
        s = iset if ch.map is None else preimage(ch.map, iset)
        dom = self.domains[ch.vid]
        yes = dom.inter(s)
        return False if not yes else True if yes.iv == dom.iv else None

    def chars_equal(self, xs, ys):
        """Branch on equality of two equally long character tuples."""
        unary, rel = [], []
        for a, b in zip(xs, ys):
            if type(a) is int and type(b) is int:
                if a != b:
                    return False
            elif type(a) is int or type(b) is int:
                if type(a) is int:
                    a, b = b, a
                s = ISet(((b, b),))
                u = self.unary(a, s)
                if u is False:
                    self.st['propagated'] += 1
                    return False
                if u is None:
                    unary.append((a, s))
            elif a.same(b):
                pass
            else:
                da, db = self._dom(a), self._dom(b)
                if da is not None and db is not None and not da.inter(db):
                    return False
                rel.append(a.expr() == b.expr())
        if not unary and not rel:
            return True
        if len(unary) == 1 and not rel:
            return self.char_in(*unary[0])
        conds = rel + [in_expr(a.expr() if type(a) is not Ch or a.map is None else a.var,
                               s if type(a) is not Ch or a.map is None else preimage(a.map, s))
                       for a, s in unary]
        r = self.branch(z3.And(*conds) if len(conds) > 1 else conds[0])
        if r:
            for a, s in unary:
                if type(a) is Ch:
                    p = s if a.map is None else preimage(a.map, s)
                    self.domains[a.vid] = self.domains[a.vid].inter(p)
        return r

    def _dom(self, a):
        if type(a) is ChExpr:
            return a.dom
        if type(a) is Ch and a.map is None:
            return self.domains[a.vid]
        return None

    def concretise(self, expr, why):
        """Make an integer term concrete: enumerate its values, each its own path."""
        e = z3.simplify(expr)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            v = self.mval(expr)
            if self.check(expr != v) == z3.unsat:
                return v.as_long()
            if n >= CONC_LIMIT:
                self.add(expr == v)
                self.incomplete.append('concretised at %s' % why)
                return v.as_long()
            n += 1
            self.st['concretised'] += 1
            if self.branch(expr == v):
                return v.as_long()

    def concretise_real(self, expr, why):
        """The same for a rational term."""
        e = z3.simplify(expr)
        n = 0
        while True:
            if not z3.is_rational_value(e):
                v = self.model.eval(expr, model_completion=True)
                if self.check(expr != v) == z3.unsat:
                    e = v
            if z3.is_rational_value(e):
                return e.numerator_as_long(), e.denominator_as_long()
            if n >= CONC_LIMIT:
                self.add(expr == v)
                self.incomplete.append('concretised at %s' % why)
                e = v
                continue
            n += 1
            self.st['concretised'] += 1
            if self.branch(expr == v):
                e = v

    def conc_char(self, ch, why):
        if type(ch) is int:
            return ch
        if type(ch) is Ch:
            v = self.concretise(ch.var, why)
            self.domains[ch.vid] = ISet(((v, v),))
            if ch.map:
                from .isets import casemap
                return casemap(ch.map)[0].get(v, v)
            return v
        return self.concretise(ch.expr(), why)

    def assume_expr(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd('assume')
            return
        self.add(cond)
        if self.check() != z3.sat:
            raise PathEnd('assume')
        self.model = self.last_model

    def name(self, base):
        self.fresh += 1
        return '%s!%d' % (base, self.fresh)


ctx = Ctx()
shared = Shared()
_tok_r = _tok_w = None
_out_fd = None
_deadline = None


def setup_explore(jobs, out_path, deadline):
    global _tok_r, _tok_w, _out_fd, _deadline
    _tok_r, _tok_w = os.pipe()
    os.set_blocking(_tok_r, False)
    os.write(_tok_w, b't' * (jobs - 1))
    _out_fd = os.open(out_path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    _deadline = deadline
    shared.set(STOP, 0)
    shared.set(TIMEOUT, 0)


def fork():
    """True in the parent, False in the child. Waits for the child when no slot is free."""
    if time.time() > _deadline:
        shared.set(TIMEOUT, 1)
        shared.set(STOP, 1)
        raise PathEnd('deadline')
    try:
        got = os.read(_tok_r, 1) == b't'
    except BlockingIOError:
        got = False
    pid = os.fork()
    if pid == 0:
        ctx.children = []
        ctx.own_token = got
        ctx.codes = set()
        for k in ctx.st:
            ctx.st[k] = 0
        arm()
        return False
    if got:
        ctx.children.append(pid)
        if len(ctx.children) > 64:
            _reap(False)
    else:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            ctx.incomplete.append('child path died (status %d)' % st)
    return True


def _reap(block):
    left = []
    for pid in ctx.children:
        p, st = os.waitpid(pid, 0 if block else os.WNOHANG)
        if p == 0:
            left.append(pid)
        elif st != 0:
            ctx.incomplete.append('child path died (status %d)' % st)
    ctx.children = left


def emit(rec):
    os.write(_out_fd, (json.dumps(rec) + '\n').encode())


def finish():
    """End of the process that ran one path: release the slot, wait for children, exit."""
    if ctx.own_token:
        os.write(_tok_w, b't')
        ctx.own_token = False
    n = len(ctx.incomplete)
    _reap(True)
    if len(ctx.incomplete) > n:
        emit({'kind': 'note', 'incomplete': ctx.incomplete[n:], 'st': {}})
    os._exit(0)


def launch(setup, body, case, settle):
    """Start the exploration of one case in a forked process (waiting for a free slot)."""
    sys.stdout.flush()
    sys.stderr.flush()
    while True:
        try:
            if os.read(_tok_r, 1) == b't':
                break
        except BlockingIOError:
            time.sleep(0.002)
        _reap(False)
    pid = os.fork()
    if pid:
        ctx.children.append(pid)
        return
    code = 3
    try:
        ctx.reset()
        ctx.own_token = True
        ctx.case = case
        ctx.start()
        ctx.model = ctx.last_model
        env = None
        try:
            if shared.get(STOP):
                raise PathEnd('stop')
            env = setup()
            gc.collect()
            gc.freeze()
            gc.disable()
            ctx.active = True
            arm()
            body(env)
            outcome, detail = 'done', None
        except Hang as e:
            outcome, detail = 'hang', 'path used more than %d s' % HANG_SECONDS
        except PathEnd as e:
            outcome, detail = 'end', str(e)
        except CheckFailed as e:
            outcome, detail = 'violation', e.msg if type(e.msg) is str else 'check failed'
        except AssumeFailed:
            outcome, detail = 'end', 'assume'
        except EngineError as e:
            outcome, detail = 'engine', ''.join(traceback.format_exception(e))[-3000:]
        except RecursionError as e:
            outcome, detail = 'hang', 'recursion limit'
        except MemoryError as e:
            outcome, detail = 'engine', repr(e)
        except z3.Z3Exception as e:
            outcome, detail = 'engine', ''.join(traceback.format_exception(e))[-3000:]
        except Exception as e:
            outcome, detail = 'exception', ''.join(traceback.format_exception(e))[-3000:]
        ctx.active = False
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        try:
            rec = settle(outcome, detail)
        except BaseException as e:
            rec = {'kind': 'path', 'case': ctx.case, 'outcome': 'engine',
                   'detail': 'settle: ' + ''.join(traceback.format_exception(e))[-3000:],
                   'st': ctx.st, 'incomplete': ctx.incomplete, 'inputs': {}, 'labels': [],
                   'nchecks': 0}
        if rec['outcome'] in ('violation', 'exception', 'hang') and not known_labels.intersection(rec['labels']):
            n = shared.get(VIOLS) + 1
            shared.set(VIOLS, n)
            if n >= MAX_VIOLS:
                shared.set(STOP, 1)
        emit(rec)
        finish()
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(code)


def wait_all():
    _reap(True)
