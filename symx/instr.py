"""AST instrumentation of the code under test and the call dispatcher it uses.
Modules are read from their current source files each time a check runs."""
import ast
import builtins
import fnmatch
import os
import functools
import importlib.abc
import importlib.machinery
import inspect
import re
import sys
import types

import z3

from . import sre
from .api import CheckFailed, AssumeFailed
from .core import ctx, EngineError, PathEnd, Hang
from .isets import ISet
from .values import (SStr, SInt, SFloat, SRange, is_sym, has_sym, chars, mk, mkint, conc, str_method,
                     parse_int, parse_float, int_str, iexpr, str_repr, str_contains)

encoded = {}             # code object -> qualified name; functions entered while symbolic values exist
_seen_codes = set()


# ------------------------------------------------------------------ transformer

NO_CALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', 'breakpoint', '__import__'}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def passexc():
    """Start of a handler that catches everything: the engine's own signals go through."""
    if isinstance(sys.exc_info()[1], (EngineError, PathEnd, Hang, CheckFailed, AssumeFailed, z3.Z3Exception)):
        raise sys.exc_info()[1]


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.tmp = 0

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in NO_CALL:
            return node
        return ast.copy_location(ast.Call(func=_name('_sx_call'), args=[f] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=_name('_sx_in'), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        fn = {ast.Mod: '_sx_mod', ast.BitOr: '_sx_or', ast.BitAnd: '_sx_and', ast.Sub: '_sx_sub'}.get(type(node.op))
        if fn:
            return ast.copy_location(ast.Call(func=_name(fn), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=_name('_sx_get'), args=[node.value, self._key(node.slice)], keywords=[]), node)
        return node

    def _key(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(func=_name('slice'), args=[none(s.lower), none(s.upper), none(s.step)], keywords=[])
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            c = ast.Call(func=_name('_sx_set'), args=[t.value, self._key(t.slice), node.value], keywords=[])
            return ast.copy_location(ast.Expr(value=c), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript):
            t = node.target
            fn = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('_a'), ast.arg('_b')], kwonlyargs=[],
                                               kw_defaults=[], defaults=[]),
                            body=ast.BinOp(left=_name('_a'), op=node.op, right=_name('_b')))
            c = ast.Call(func=_name('_sx_aug'), args=[t.value, self._key(t.slice), fn, node.value], keywords=[])
            return ast.copy_location(ast.Expr(value=c), node)
        if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.Mod)) and isinstance(node.target, ast.Name):
            fn = {ast.Mod: '_sx_mod', ast.BitOr: '_sx_ior', ast.BitAnd: '_sx_and', ast.Sub: '_sx_sub'}[type(node.op)]
            load = ast.Name(id=node.target.id, ctx=ast.Load())
            v = ast.Call(func=_name(fn), args=[load, node.value], keywords=[])
            return ast.copy_location(ast.Assign(targets=[node.target], value=v), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                c = ast.Call(func=_name('_sx_del'), args=[t.value, self._key(t.slice)], keywords=[])
                out.append(ast.copy_location(ast.Expr(value=c), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                conv = ast.Constant(chr(v.conversion) if v.conversion > 0 else None)
                parts.append(ast.Call(func=_name('_sx_fmt1'), args=[val, conv, spec], keywords=[]))
        return ast.copy_location(ast.Call(func=_name('_sx_concat'), args=parts, keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(ast.Call(func=_name('_sx_mkset'), args=[lc], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if not any(isinstance(e, ast.Starred) for e in node.elts) and all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        ls = ast.List(elts=node.elts, ctx=ast.Load())
        return ast.copy_location(ast.Call(func=_name('_sx_mkset'), args=[ls], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(ast.Call(func=_name('_sx_mkdict'), args=[lc], keywords=[]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)], ctx=ast.Load())
        return ast.copy_location(ast.Call(func=_name('_sx_mkdict'), args=[pairs], keywords=[]), node)

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        node.bases = [_name('_sx_strbase') if isinstance(b, ast.Name) and b.id == 'str' else b for b in node.bases]
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        names = [node.type] if not isinstance(node.type, ast.Tuple) else node.type.elts
        if node.type is None or any(isinstance(n, ast.Name) and n.id in ('BaseException', 'Exception') for n in names):
            c = ast.Expr(value=ast.Call(func=_name('_sx_passexc'), args=[], keywords=[]))
            node.body.insert(0, ast.copy_location(c, node))
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        return self.generic_visit(node)

    def visit_AsyncFunctionDef(self, node):
        node.returns = None
        return self.generic_visit(node)

    def visit_MatchValue(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node


def transform(source, filename):
    tree = ast.parse(source, filename)
    tree = Tr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, spec):
        self.origin = spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = self.origin.origin
        with open(path, encoding='utf-8') as f:
            src = f.read()
        module.__dict__['_sx_instr'] = True
        instrumented_files.add(path)
        exec(transform(src, path), module.__dict__)


instrumented_files = set()


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes, exact):
        self.prefixes, self.exact = prefixes, exact

    def find_spec(self, name, path=None, target=None):
        if not (name in self.exact or any(name == p or name.startswith(p + '.') for p in self.prefixes)):
            return None
        for f in sys.meta_path:
            if f is self:
                continue
            spec = f.find_spec(name, path, target) if hasattr(f, 'find_spec') else None
            if spec is not None:
                break
        else:
            return None
        if not spec.origin or not spec.origin.endswith('.py'):
            return spec
        s = importlib.machinery.ModuleSpec(name, Loader(spec), origin=spec.origin,
                                           is_package=spec.submodule_search_locations is not None)
        if spec.submodule_search_locations is not None:
            s.submodule_search_locations = spec.submodule_search_locations
        s.has_location = True
        return s


# ------------------------------------------------------------------ containers with symbolic keys

def _key_sym(k):
    return has_sym(k, 2)


def _dict_has_symkeys(d):
    for k in d:
        if isinstance(k, str):
            if isinstance(k, SStr) and k._sx is not None:
                return True
        elif type(k) is tuple:
            if has_sym(k, 2):
                return True
        elif type(k) in (SInt, SFloat):
            return True
    return False


def find_key(c, k):
    """The key of dict/set c equal to k on this path, or _MISS (branches)."""
    if not _key_sym(k) and not _dict_has_symkeys(c):
        return k if k in c else _MISS
    for e in c:
        if e is k:
            return e
    if not _key_sym(k):
        # a concrete key can match natively, or match one of the symbolic keys
        if k in c:
            return k
        cand = [e for e in c if _key_sym(e)]
    else:
        cand = list(c)
    for e in cand:
        if type(e) is tuple and type(k) is tuple:
            if len(e) == len(k) and all(_eq(p, q) for p, q in zip(e, k)):
                return e
        elif isinstance(e, tuple) or isinstance(k, tuple):
            continue
        elif _eq(e, k):
            return e
    return _MISS


def _eq(a, b):
    if a is b:
        return True
    if isinstance(a, str) != isinstance(b, str):
        return False
    return bool(a == b)


_MISS = object()


def sx_in(x, c):
    if isinstance(c, str):
        if is_sym(x) or is_sym(c):
            return str_contains(c, x)
        return x in c
    t = type(c)
    if t is dict or t is set or t is frozenset:
        return find_key(c, x) is not _MISS
    if isinstance(c, types.MethodType):
        return x in c
    return x in c


def sx_get(o, k):
    if type(o) is dict:
        e = find_key(o, k)
        if e is _MISS:
            raise KeyError(k)
        return o[e]
    if isinstance(o, dict) and (_key_sym(k) or _dict_has_symkeys(o)):
        e = find_key(o, k)
        if e is not _MISS:
            return dict.__getitem__(o, e)
        miss = getattr(type(o), '__missing__', None)
        if miss is None:
            raise KeyError(k)
        return miss(o, k)
    if type(o) is str and type(k) is SInt:
        return o[int(k)]
    return o[k]


def sx_set(o, k, v):
    if isinstance(o, dict):
        e = find_key(o, k)
        o[k if e is _MISS else e] = v
    else:
        o[k] = v


def sx_del(o, k):
    if isinstance(o, dict):
        e = find_key(o, k)
        if e is _MISS:
            raise KeyError(k)
        del o[e]
    else:
        del o[k]


def sx_aug(o, k, fn, v):
    sx_set(o, k, fn(sx_get(o, k), v))


def set_add(s, x):
    if find_key(s, x) is _MISS:
        s.add(x)


def mkset(items, t=set):
    items = list(items)
    if not any(_key_sym(i) for i in items):
        return t(items)
    s = set()
    for i in items:
        set_add(s, i)
    return s if t is set else t(s)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        sx_set(d, k, v)
    return d


def _setlike(x):
    return isinstance(x, (set, frozenset, type({}.keys())))


def set_union(a, *bs):
    out = set(a)
    for b in bs:
        for x in b:
            set_add(out, x)
    return out if not isinstance(a, frozenset) else frozenset(out)


def set_inter(a, b):
    b = list(b) if not isinstance(b, (set, frozenset, dict)) else b
    bs = b if isinstance(b, (set, frozenset, dict)) else mkset(b)
    return type(a)([x for x in a if find_key(bs, x) is not _MISS])


def set_diff(a, b):
    bs = b if isinstance(b, (set, frozenset, dict)) else mkset(b)
    return type(a)([x for x in a if find_key(bs, x) is _MISS])


def sx_or(a, b):
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (has_sym(a) or has_sym(b)):
        return set_union(a, b)
    if isinstance(a, dict) and isinstance(b, dict) and (has_sym(a) or has_sym(b)):
        d = dict(a)
        for k, v in b.items():
            sx_set(d, k, v)
        return d
    return a | b


def sx_ior(a, b):
    if isinstance(a, set) and (has_sym(a) or has_sym(b)):
        for x in b:
            set_add(a, x)
        return a
    a |= b
    return a


def sx_and(a, b):
    if isinstance(a, (set, frozenset)) and (has_sym(a) or has_sym(b)):
        return set_inter(a, b)
    return a & b


def sx_sub(a, b):
    if isinstance(a, (set, frozenset)) and (has_sym(a) or has_sym(b)):
        return set_diff(a, b)
    return a - b


def sx_mod(a, b):
    if isinstance(a, str):
        return str_method('__mod__', a, b)
    return a % b


# ------------------------------------------------------------------ text conversion

def sx_str(x):
    if isinstance(x, str):
        if type(x) is str:
            return x
        r = type(x).__str__(x)
        return r
    if type(x) is SInt:
        return int_str(x)
    if type(x) in (list, tuple, dict, set, frozenset):
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    if isinstance(x, SStr):
        if type(x).__repr__ is not SStr.__repr__:
            return x.__repr__()
        return str_repr(x) if x._sx is not None else str.__repr__(x)
    if type(x) is SInt:
        return int_str(x)
    t = type(x)
    if t in (list, tuple, set, frozenset, dict) and has_sym(x):
        if t is dict:
            parts = [_cat(sx_repr(k), ': ', sx_repr(v)) for k, v in x.items()]
        else:
            parts = [sx_repr(e) for e in x]
        body = str_method('join', ', ', parts)
        if t is list:
            return _cat('[', body, ']')
        if t is tuple:
            return _cat('(', body, ',)' if len(x) == 1 else ')')
        if t is frozenset:
            return _cat('frozenset({', body, '})')
        return _cat('{', body, '}')
    return repr(x)


def _cat(*parts):
    out = ()
    sym = False
    for p in parts:
        if isinstance(p, SStr) and p._sx is not None:
            sym = True
            break
    if not sym:
        return ''.join(str.__str__(p) for p in parts)
    for p in parts:
        out += chars(p)
    return mk(out)


def sx_format1(obj, conv, spec):
    if conv == 'r':
        obj = sx_repr(obj)
    elif conv == 's':
        obj = sx_str(obj)
    elif conv == 'a':
        obj = ascii(conc(obj, '!a'))
    if not has_sym(obj):
        return format(obj, spec)
    if spec == '' or (spec == 'd' and type(obj) is SInt):
        return sx_str(obj)
    return format(conc(obj, 'format spec'), spec)


# ------------------------------------------------------------------ call dispatch

def _h_len(x):
    if type(x) is SRange:
        return x.length()
    return len(x)


def _h_int(x=0, *a, **k):
    if isinstance(x, SStr) and x._sx is not None:
        return parse_int(x, *a, **k)
    if type(x) is SInt:
        return x
    if type(x) is SFloat:
        return int(x)
    return int(x, *a, **k)


def _h_float(x=0.0):
    if isinstance(x, SStr) and x._sx is not None:
        return parse_float(x)
    if type(x) is SFloat:
        return x
    if type(x) is SInt:
        return SFloat(z3.ToReal(x.e))
    return float(x)


def _h_str(*a, **k):
    if len(a) == 1 and not k:
        return sx_str(a[0])
    return str(*a, **k)


def _h_bool(x=False):
    return bool(x)


def _h_range(*a):
    if any(type(x) is SInt for x in a):
        if len(a) == 3 and a[2] != 1:
            return range(*[int(x) for x in a])
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        return SRange(lo, hi)
    return range(*a)


def _h_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SStr:
            return str
        if t is SInt:
            return int
        if t is SFloat:
            return float
        if t is SRange:
            return range
        return t
    return type(*a)


def _h_isinstance(x, t):
    if isinstance(x, SStr):
        return isinstance(x, _plain(t))
    return isinstance(x, _plain(t))


def _plain(t):
    return t


def _h_ord(c):
    if isinstance(c, SStr) and c._sx is not None:
        if len(c._sx) != 1:
            raise TypeError('ord() expected a character')
        return mkint(c._sx[0].expr())
    return ord(c)


def _h_chr(i):
    if type(i) is SInt:
        return chr(int(i))
    return chr(i)


def _h_sorted(it, *, key=None, reverse=False):
    xs = list(it)
    if key is not None and not isinstance(key, (types.FunctionType, types.MethodType)):
        k0 = key
        key = lambda x: sx_call(k0, x)
    return sorted(xs, key=key, reverse=reverse)


def _h_map(f, *its):
    return map(lambda *a: sx_call(f, *a), *its)


def _h_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda x: sx_call(f, x), it)


def _h_reduce(f, *a):
    return functools.reduce(lambda x, y: sx_call(f, x, y), *a)


def _h_print(*args, sep=' ', end='\n', file=None, flush=False):
    if not has_sym(list(args)):
        return print(*args, sep=sep, end=end, file=file, flush=flush)
    sep = ' ' if sep is None else sep
    end = '\n' if end is None else end
    text = _cat(str_method('join', sep, [sx_str(a) for a in args]), end)
    f = file if file is not None else sys.stdout
    if isinstance(getattr(f, 'write', None), types.MethodType):
        f.write(text)
    return None


def _h_hash(x):
    return hash(conc(x, 'hash'))


def _minmax(f, cmp):
    def h(*a, key=None, **k):
        if len(a) == 1:
            a = list(a[0])
            if not a:
                return f(a, **k)
        if k.keys() - {'default'}:
            raise TypeError()
        best = a[0]
        kb = best if key is None else sx_call(key, best)
        for x in a[1:]:
            kx = x if key is None else sx_call(key, x)
            if cmp(kx, kb):
                best, kb = x, kx
        return best
    return h


def _h_list(it=()):
    return list(it)


def _h_tuple(it=()):
    return tuple(it)


def _h_set(it=()):
    return mkset(it)


def _h_frozenset(it=()):
    return mkset(it, frozenset)


def _h_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        d = mkdict(a[0])
        d.update(k)
        return d
    return dict(*a, **k)


def _h_getattr(o, name, *d):
    return getattr(o, conc(name, 'getattr'), *d)


def _h_hasattr(o, name):
    return hasattr(o, conc(name, 'hasattr'))


def _h_setattr(o, name, v):
    return setattr(o, conc(name, 'setattr'), v)


def _h_divmod(a, b):
    return (a // b, sx_mod(a, b))


def _h_round(x, *a):
    if type(x) is SFloat:
        return x.__round__(*a)
    return round(conc(x, 'round'), *a)


HANDLERS = {
    len: _h_len, int: _h_int, float: _h_float, str: _h_str, repr: sx_repr, range: _h_range,
    type: _h_type, ord: _h_ord, chr: _h_chr, sorted: _h_sorted, map: _h_map, filter: _h_filter,
    print: _h_print, hash: _h_hash, min: _minmax(min, lambda a, b: a < b), max: _minmax(max, lambda a, b: a > b),
    set: _h_set, frozenset: _h_frozenset, dict: _h_dict, functools.reduce: _h_reduce,
    os.fspath: lambda p: p if isinstance(p, str) else os.fspath(p),
    getattr: _h_getattr, hasattr: _h_hasattr, setattr: _h_setattr, divmod: _h_divmod, round: _h_round,
}
# builtins that are right for symbolic values because they go through the object protocols
NATIVE_OK = {
    isinstance, issubclass, bool, list, tuple, enumerate, zip, iter, next, any, all, sum, reversed, abs, id,
    callable, slice, object, super, property, staticmethod, classmethod, format,
}
NATIVE_OK.discard(format)
HANDLERS[format] = lambda o, spec='': sx_format1(o, None, spec)


def container_method(f, name, o, args, kw):
    t = type(o)
    if isinstance(o, dict):
        if name == 'get':
            e = find_key(o, args[0])
            return o[e] if e is not _MISS else (args[1] if len(args) > 1 else None)
        if name == 'pop':
            e = find_key(o, args[0])
            if e is _MISS:
                if len(args) > 1:
                    return args[1]
                raise KeyError(args[0])
            return f(e)
        if name == 'setdefault':
            e = find_key(o, args[0])
            if e is not _MISS:
                return o[e]
            return f(*args)
        if name == 'update':
            for a in args:
                for k, v in (a.items() if isinstance(a, dict) else a):
                    sx_set(o, k, v)
            for k, v in kw.items():
                sx_set(o, k, v)
            return None
        if name in ('__contains__', 'has_key'):
            return find_key(o, args[0]) is not _MISS
        if name == '__getitem__':
            return sx_get(o, args[0])
        if name == '__setitem__':
            return sx_set(o, *args)
    elif isinstance(o, (set, frozenset)):
        if name == 'add':
            return set_add(o, args[0])
        if name in ('remove', 'discard'):
            e = find_key(o, args[0])
            if e is _MISS:
                if name == 'remove':
                    raise KeyError(args[0])
                return None
            return f(e)
        if name == '__contains__':
            return find_key(o, args[0]) is not _MISS
        if name == 'update':
            for a in args:
                for x in a:
                    set_add(o, x)
            return None
        if name == 'union':
            return set_union(o, *args)
        if name == 'intersection':
            for a in args:
                o = set_inter(o, a)
            return o
        if name == 'difference':
            for a in args:
                o = set_diff(o, a)
            return o
        if name == 'issubset':
            b = args[0] if isinstance(args[0], (set, frozenset, dict)) else mkset(args[0])
            return all(find_key(b, x) is not _MISS for x in o)
        if name == 'issuperset':
            return all(find_key(o, x) is not _MISS for x in args[0])
        if name in ('copy', 'pop', 'clear'):
            return f(*args)
        raise EngineError('set.%s with symbolic members' % name)
    elif isinstance(o, list) and name == 'sort':
        o[:] = _h_sorted(o, **kw)
        return None
    return f(*args, **kw)


RE_FUNCS = {getattr(re, n): n for n in ('match', 'fullmatch', 'search', 'finditer', 'findall', 'sub', 'subn',
                                        'split', 'escape')}
# un-instrumented python modules whose functions only pass values around
PASS_MODULES = ('asyncio', 'functools', 'contextlib', 'harness', 'symx', 'abc', 'collections', 'dataclasses', 'enum',
                'typing', 'copy', 'ply')


_CMETHOD = type(re.compile('').match)


# library functions modelled on symbolic text (POSIX)
def _glob(name, pat):
    """fnmatch for patterns of *, ? and plain characters."""
    if not len(pat):
        return not len(name)
    c = pat[0]
    if c == '[':
        raise EngineError('character class in a symbolic file pattern')
    if c == '*':
        return any(_glob(name[i:], pat[1:]) for i in range(len(name) + 1))
    if not len(name):
        return False
    return bool((c == '?' or name[0] == c) and _glob(name[1:], pat[1:]))


def _p_fnmatch(name, pat):
    if '*' in pat or '?' in pat or '[' in pat:
        return _glob(name, pat)
    return name == pat


def _p_join(a, *rest):
    for b in rest:
        if b.startswith('/') or not a:
            a = b
        elif a.endswith('/'):
            a = a + b
        else:
            a = a + '/' + b
    return a


def _p_basename(p):
    return p[p.rfind('/') + 1:]


def _p_dirname(p):
    h = p[:p.rfind('/') + 1]
    r = h.rstrip('/')
    return r if r else h


SHADOW = {
    fnmatch.fnmatch: _p_fnmatch, fnmatch.fnmatchcase: _p_fnmatch, os.path.join: _p_join,
    os.path.basename: _p_basename, os.path.dirname: _p_dirname, os.path.normcase: lambda p: p,
    os.path.split: lambda p: (_p_dirname(p), _p_basename(p)), os.path.isabs: lambda p: p.startswith('/'),
}


def sx_call(f, *args, **kw):
    t = type(f)
    if t is types.MethodType:
        f0 = f.__func__
        t = type(f0)
        g = f0
    else:
        g = f
    if t is types.FunctionType:
        gl = g.__globals__
        if '_sx_instr' in gl:
            return f(*args, **kw)
        if g in RE_FUNCS:
            if has_sym(args) or (kw and has_sym(kw)):
                return sre.module_function(RE_FUNCS[g], args, kw)
            return f(*args, **kw)
        if not has_sym(args) and not (kw and has_sym(kw)):
            return f(*args, **kw)
        h = SHADOW.get(g)
        if h is not None:
            return h(*args, **kw)
        m = gl.get('__name__', '')
        if m.split('.')[0] in PASS_MODULES:
            return f(*args, **kw)
        return f(*[conc(a, m) for a in args], **{k: conc(v, m) for k, v in kw.items()})
    if t is types.BuiltinFunctionType or t is _CMETHOD:
        o = f.__self__
        if o is None or type(o) is types.ModuleType:
            h = HANDLERS.get(f)
            if h is not None:
                return h(*args, **kw)
            if f in NATIVE_OK or not (has_sym(args) or (kw and has_sym(kw))):
                return f(*args, **kw)
            n = f.__name__
            return f(*[conc(a, n) for a in args], **{k: conc(v, n) for k, v in kw.items()})
        name = f.__name__
        if isinstance(o, str):
            if isinstance(o, SStr) or has_sym(args) or (name == 'join' and args and _iter_sym(args)) or (kw and has_sym(kw)):
                if name == 'join' and args and not isinstance(args[0], (list, tuple)):
                    args = (list(args[0]),)
                if name == 'format' and not has_sym(args, 4) and not has_sym(kw):
                    return f(*args, **kw)
                return str_method(name, o, *args, **kw)
            if name == 'join' and args and not isinstance(args[0], (list, tuple)):
                args = (list(args[0]),)
                return str_method('join', o, *args) if has_sym(args) else f(*args)
            if name == 'format':
                return str_method_format(o, args, kw)
            return f(*args, **kw)
        if isinstance(o, (dict, set, frozenset)):
            if name in _FREE_METHODS:
                return f(*args, **kw)
            if _dict_has_symkeys(o) or has_sym(args, 3) or (kw and has_sym(kw)):
                return container_method(f, name, o, args, kw)
            return f(*args, **kw)
        if isinstance(o, list):
            if name == 'sort' and kw:
                return container_method(f, name, o, args, kw)
            return f(*args, **kw)
        if type(o) is re.Pattern:
            if has_sym(args) or (kw and has_sym(kw)):
                return sre.pattern_method(o, name, args, kw)
            return f(*args, **kw)
        if type(o) is type and o is dict and name == 'fromkeys':
            return mkdict([(k, args[1] if len(args) > 1 else None) for k in args[0]])
        if name == '__new__' or isinstance(o, (bytes, types.GeneratorType, types.CoroutineType)):
            return f(*args, **kw)
        if has_sym(args) or (kw and has_sym(kw)):
            if type(o).__module__ in ('_io', 'posix', '_struct', '_json', '_hashlib', 'itertools'):
                return f(*[conc(a, name) for a in args], **{k: conc(v, name) for k, v in kw.items()})
        return f(*args, **kw)
    if t is type:
        h = HANDLERS.get(f)
        if h is not None:
            return h(*args, **kw)
        return f(*args, **kw)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        o = f.__objclass__
        if o is str and args:
            return str_method(f.__name__, *args, **kw)
        if o in (dict, set, frozenset) and args and has_sym(args, 3):
            return container_method(getattr(args[0], f.__name__), f.__name__, args[0], args[1:], kw)
        return f(*args, **kw)
    if isinstance(f, functools._lru_cache_wrapper) and (has_sym(args) or has_sym(kw)):
        # a memo keyed by symbolic arguments: same results as a scan for an equal key
        memo = _lru.setdefault(id(f), (f, {}))[1]
        key = (args, tuple(sorted(kw.items())))
        e = find_key(memo, args) if not kw else _MISS
        if e is not _MISS:
            return memo[e]
        r = sx_call(f.__wrapped__, *args, **kw)
        if not kw:
            memo[args] = r
        return r
    if isinstance(f, functools.partial):
        return sx_call(f.func, *(f.args + args), **{**f.keywords, **kw})
    return f(*args, **kw)


_lru = {}
_FREE_METHODS = {'items', 'keys', 'values', 'copy', 'clear', 'popitem'}


def str_method_format(o, args, kw):
    """'...'.format(...) where an argument may reach symbolic text through its __str__."""
    deep = False
    for a in list(args) + list(kw.values()):
        if not isinstance(a, (str, int, float, type(None))):
            deep = True
    if not deep:
        return o.format(*args, **kw)
    return str_method_fmt(o, *args, **kw)


def str_method_fmt(o, *args, **kw):
    from .values import _m_format
    return _m_format(o, *args, **kw)


def _iter_sym(args):
    return False


_orig_format1 = sx_format1


def sx_format1(obj, conv, spec):       # noqa: F811 - objects that render through __str__
    if conv is None and spec == '' and not isinstance(obj, (str, int, float)) and \
            type(obj).__format__ is object.__format__ and not has_sym(obj):
        return sx_str(obj)
    return _orig_format1(obj, conv, spec)


BUILTINS = {
    '_sx_call': sx_call, '_sx_in': sx_in, '_sx_get': sx_get, '_sx_set': sx_set, '_sx_del': sx_del,
    '_sx_aug': sx_aug, '_sx_mod': sx_mod, '_sx_or': sx_or, '_sx_ior': sx_ior, '_sx_and': sx_and, '_sx_sub': sx_sub,
    '_sx_fmt1': lambda o, c, s: sx_format1(o, c, s), '_sx_concat': _cat, '_sx_mkset': mkset, '_sx_mkdict': mkdict,
    '_sx_strbase': SStr, '_sx_passexc': passexc,
}


def install(prefixes, exact):
    for k, v in BUILTINS.items():
        setattr(builtins, k, v)
    sys.meta_path.insert(0, Finder(prefixes, exact))


def functions_of(files):
    """Qualified names of the functions defined in instrumented files, by code object."""
    out = {}
    for m in list(sys.modules.values()):
        f = getattr(m, '__file__', None)
        if f in files:
            _walk(m.__name__, m.__dict__, out, set())
    return out


def _walk(prefix, d, out, seen):
    for k, v in list(d.items()):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for g in (v.fget, v.fset):
                if g is not None:
                    out[g.__code__] = prefix + '.' + k
        elif isinstance(v, types.FunctionType):
            out[v.__code__] = prefix + '.' + k
        elif isinstance(v, type) and v not in seen and getattr(v, '__module__', '').startswith(prefix.split('.')[0]):
            seen.add(v)
            _walk(v.__module__ + '.' + v.__name__, vars(v), out, seen)
