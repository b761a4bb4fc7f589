"""Assumed contracts (models) of builtins and library functions."""
from __future__ import annotations
import bisect
import operator as _operator
import builtins
import calendar
import collections
import collections.abc
import copy
import datetime as _dt
import functools
import itertools
import math
import numbers
import operator
import types
import enum
import numpy as np
import z3
from dateutil.relativedelta import relativedelta
from . import sym as S
from . import seqs as Q
from .sym import (CTX, P, Sym, SInt, SReal, SBool, SDate, SDateTime, SDelta, SRelDelta, STenor, STenorNumber, Unsupported,
                  Infeasible, EngineSignal, num_z, bool_z, is_num)
from .seqs import SSeq, SList, SFilt, SOpt, unopt, as_seq
from .interp import Interp, IFunc, SIter, NestedSeq, SMap, is_repo_class

MODELS = {}


def model(*fs, note=None):
    def deco(g):
        for f in fs:
            MODELS[f] = g
            if note:
                g.pyvc_note = f'assumed contract of {getattr(f, "__module__", "")}.{getattr(f, "__name__", f)}: {note}'
        return g
    return deco


# -- dictionaries and sets with symbolic keys -------------------------------------------------------

class SDict(dict):
    """insertion-ordered dict; symbolic keys are compared with forks"""
    def __init__(self, *a, **k):
        dict.__init__(self)
        self.ks, self.vs, self.sym = [], [], False
        if a:
            src = a[0]
            for kk, v in (src.items() if hasattr(src, 'items') else src):
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def _snap(self):
        ks, vs, sym, nat = list(self.ks), list(self.vs), self.sym, dict(dict.items(self))

        def undo():
            self.ks, self.vs, self.sym = ks, vs, sym
            dict.clear(self)
            dict.update(self, nat)
        Q.journal(undo)

    def _find(self, k):
        if not self.sym and not _symkey(k):
            if dict.__contains__(self, k):
                return dict.__getitem__(self, k)
            return None
        for i, kk in enumerate(self.ks):
            if kk is k:
                return i
            if INTERP.truth(INTERP.compare(_EQ, kk, k)):
                return i
        return None

    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            if hasattr(self, 'factory') and self.factory is not None:
                v = INTERP.call(self.factory)
                self[k] = v
                return v
            raise KeyError(k if not _symkey(k) else '<sym>')
        return self.vs[i]

    def __setitem__(self, k, v):
        i = self._find(k)
        self._snap()
        if i is None:
            if _symkey(k):
                self.sym = True
            else:
                dict.__setitem__(self, k, len(self.ks))
            self.ks.append(k)
            self.vs.append(v)
        else:
            self.vs = list(self.vs)
            self.vs[i] = v

    def __delitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError(k if not _symkey(k) else '<sym>')
        self._snap()
        del self.ks[i]
        del self.vs[i]
        dict.clear(self)
        for j, kk in enumerate(self.ks):
            if not _symkey(kk):
                dict.__setitem__(self, kk, j)

    def __contains__(self, k): return self._find(k) is not None

    def get(self, k, d=None):
        i = self._find(k)
        return d if i is None else self.vs[i]

    def pop(self, k, *d):
        i = self._find(k)
        if i is None:
            if d:
                return d[0]
            raise KeyError(k if not _symkey(k) else '<sym>')
        v = self.vs[i]
        del self[k]
        return v

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i is None:
            self[k] = d
            return d
        return self.vs[i]

    def update(self, *a, **k):
        if a:
            for kk, v in (a[0].items() if hasattr(a[0], 'items') else a[0]):
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def keys(self): return list(self.ks)
    def values(self): return list(self.vs)
    def items(self): return list(zip(self.ks, self.vs))
    def __iter__(self): return iter(list(self.ks))
    def __len__(self): return len(self.ks)
    def __bool__(self): return len(self.ks) > 0

    def copy(self):
        r = SDict()
        for k, v in self.items():
            r[k] = v
        return r

    def clear(self):
        self._snap()
        self.ks, self.vs, self.sym = [], [], False
        dict.clear(self)

    def __eq__(self, o):
        raise Unsupported('dict comparison')
    __hash__ = None


class SDefaultDict(SDict):
    factory = None


def _symkey(k):
    if isinstance(k, Sym):
        return True
    return isinstance(k, tuple) and any(_symkey(x) for x in k)


import ast as _ast
_EQ = _ast.Eq()


def user_hash(x):
    return isinstance(getattr(type(x), '__hash__', None), types.FunctionType) and not isinstance(x, (Sym, enum.Enum))


@model(hash, note='equal values have equal hashes and different ones different hashes')
def _hash(it, x):
    if user_hash(x):
        return it.call(type(x).__hash__, (x,))
    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'hash':
        return x
    return ('hash', x)      # compared like any tuple


def same_member(interp, x, y):
    """whether a set takes x and y for the same element"""
    z = bool_z(interp.compare(_EQ, x, y))
    if user_hash(x) and user_hash(y) and not z3.is_false(z):
        h, k = _hash(interp, x), _hash(interp, y)
        z = z3.And(z, bool_z(interp.compare(_EQ, h, k)))
    return Q._simp_bool(z)


class SSet(Sym):
    """set of the values of a list (possibly of symbolic length), or of a union or a nested comprehension"""
    def __init__(self, items):
        if not isinstance(items, SList) and isinstance(items, (list, tuple)):
            items = SList(items)
            INTERP.note_new(items)
        self.list = items

    def plain(self):
        """the elements added so far, when their number is known"""
        if isinstance(self.list, SList) and self.list.sym is None and self.list.rec is None:
            return self.list.items()
        return None

    def pyvc_contains(self, interp, x):
        items = self.plain()
        if items is not None:
            z = z3.BoolVal(False)
            for y in items:
                z = z3.Or(z, bool_z(same_member(interp, x, y)))
            return Q._simp_bool(z)
        return contains_any(interp, self.list, x)

    def pyvc_iter(self, interp):
        if self.plain() is not None:
            return self.distinct(interp)
        raise Unsupported('iteration order of a symbolic set')

    def add(self, x):
        if not isinstance(self.list, SList):
            raise Unsupported('add to a symbolic set')
        INTERP.note_list(self.list)
        self.list.append(x)

    def distinct(self, interp):
        out = []
        for x in self.plain():
            if not any(interp.truth(same_member(interp, x, y)) for y in out):
                out.append(x)
        return out

    def __len__(self):
        if self.plain() is not None:
            return len(self.distinct(INTERP))
        raise Unsupported('size of a symbolic set')

    def __bool__(self):
        if self.plain() is not None:
            return bool(self.plain())
        return bool(as_seq(self.list))

    def union(self, *others):
        out = SSet(self.plain() if self.plain() is not None else self.list)
        for o in others:
            a, b = out.plain(), o
            if isinstance(b, SSet):
                b = b.list if b.plain() is None else b.plain()
            elif isinstance(b, SList):
                b = b.items() if b.sym is None and b.rec is None else b
            elif isinstance(b, (set, frozenset, list, tuple)):
                b = list(b)
            if a is not None and isinstance(b, list) and not isinstance(b, SList):
                out = SSet(a + b)
            else:
                out = SSet(UnionSeq([a if a is not None else out.list, b]))
        return out

    __or__ = union

    def __ror__(self, o):
        return SSet(list(o)).union(self)

    def update(self, *others):
        r = self.union(*others)
        n, items = self.plain(), r.plain()
        if n is not None and items is not None:
            for x in items[len(n):]:
                self.add(x)
            return
        INTERP.only_created(self)
        old = self.list
        Q.journal(lambda: setattr(self, 'list', old))
        self.list = r.list

    def __ior__(self, o):
        self.update(o)
        return self

    def copy(self):
        return SSet(self.plain() if self.plain() is not None else self.list)


class UnionSeq:
    def __init__(self, parts):
        self.parts = parts


def contains_any(interp, c, x):
    if isinstance(c, UnionSeq):
        z = z3.BoolVal(False)
        for p in c.parts:
            z = z3.Or(z, bool_z(contains_any(interp, p, x)))
        return Q._simp_bool(z)
    if isinstance(c, NestedSeq):
        return nested_fold(interp, c, lambda r: contains_any(interp, r, x), 'any')
    if isinstance(c, SFilt):
        def f(k):
            if not P().fork(c.keep(k)):
                return False
            return interp.compare(_EQ, c.get(k), x)
        return Q.any_def(c.n, f)
    if isinstance(c, SSet):
        return contains_any(interp, c.list, x)
    return interp.contains(c if not isinstance(c, (SIter,)) else SList.of(as_seq(c.rest())) if not isinstance(c.rest(), list) else c.rest(), x)


def nested_fold(interp, c, fold, how):
    r = c.outer(fold)
    if how == 'any':
        return Q.any_def(r.n, lambda k: r.get(k))
    if how == 'sum':
        return Q.seq_sum(r)
    raise Unsupported('nested comprehension')


# -- types ------------------------------------------------------------------------------------------

def rep_type(v):
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SInt):
        return int
    if isinstance(v, SReal):
        return float
    if isinstance(v, SDateTime):
        return _dt.datetime
    if isinstance(v, SDate):
        return _dt.date
    if isinstance(v, SDelta):
        return _dt.timedelta
    if isinstance(v, SRelDelta):
        return relativedelta
    if isinstance(v, (SSeq, SFilt, NestedSeq)):
        return list
    if isinstance(v, STenor):
        return str
    if isinstance(v, SSet):
        return set
    if isinstance(v, SIter):
        return types.GeneratorType
    if isinstance(v, IFunc):
        return types.FunctionType
    if isinstance(v, SDefaultDict):
        return collections.defaultdict
    if isinstance(v, SDict):
        return dict
    if isinstance(v, SList):
        return list
    return type(v)


@model(isinstance)
def _isinstance(it, v, t):
    v = unopt(v)
    r = rep_type(v)
    if isinstance(t, tuple):
        return any(_isinstance(it, v, x) for x in t)
    if isinstance(t, types.UnionType):
        return any(_isinstance(it, v, x) for x in t.__args__)
    if r is type(v):
        return isinstance(v, t)
    try:
        return issubclass(r, t)
    except TypeError:
        return isinstance(v, t)


@model(type)
def _type(it, v, *a):
    if a:
        raise Unsupported('type creation')
    return rep_type(unopt(v))


@model(hasattr)
def _hasattr(it, o, n):
    try:
        it.getattr(o, n)
        return True
    except AttributeError:
        return False


@model(getattr)
def _getattr(it, o, n, *d):
    try:
        return it.getattr(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(setattr)
def _setattr(it, o, n, v):
    it.setattr(o, n, v)


@model(callable)
def _callable(it, f):
    return callable(f)


@model(str)
def _str(it, v=''):
    v = unopt(v)
    return '<sym>' if isinstance(v, Sym) and not isinstance(v, STenor) else (v if isinstance(v, STenor) else str(v))


@model(repr)
def _repr(it, v):
    return '<sym>' if isinstance(v, Sym) else repr(v)


@model(print)
def _print(it, *a, **k):
    return None


@model(float)
def _float(it, v=0.0):
    v = unopt(v)
    if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1:
        v = v.flat[0]
    if isinstance(v, (SInt, SReal, SBool)):
        return SReal(S.to_real(num_z(v)))
    return float(v)


def trunc(z):
    return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))


@model(int)
def _int(it, v=0, *a):
    v = unopt(v)
    if isinstance(v, STenorNumber):
        return v.n
    if isinstance(v, SReal):
        return SInt(z3.simplify(trunc(v.z)))
    if isinstance(v, (SInt,)):
        return v
    if isinstance(v, SBool):
        return SInt(num_z(v))
    return int(v, *a)


@model(bool)
def _bool(it, v=False):
    return it.truth(v)


@model(abs)
def _abs(it, v):
    return abs(unopt(v))


@model(round)
def _round(it, v, *a):
    if isinstance(v, Sym):
        raise Unsupported('round')
    return round(v, *a)


@model(math.floor)
def _floor(it, v):
    if isinstance(v, SReal):
        return SInt(z3.simplify(z3.ToInt(v.z)))
    return v if isinstance(v, SInt) else math.floor(v)


@model(math.ceil)
def _ceil(it, v):
    if isinstance(v, SReal):
        return SInt(z3.simplify(-z3.ToInt(-v.z)))
    return v if isinstance(v, SInt) else math.ceil(v)


@model(pow)
def _pow(it, a, b):
    return S.s_pow(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else pow(a, b)


@model(math.pow)
def _mpow(it, a, b):
    return S.s_pow(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else math.pow(a, b)


def _unary(f, s):
    def g(it, v, *a):
        v = unopt(v)
        if getattr(f, '__module__', None) == 'math' and isinstance(v, np.ndarray):
            if v.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            v = v.flat[0]
        if isinstance(v, SArr):
            return SArr(v.seq.map(lambda x: s(unopt(x))))
        if isinstance(v, SMat):
            return SMat([r.map(lambda x: s(unopt(x))) for r in v.whole()])
        if isinstance(v, Sym):
            return s(v)
        if isinstance(v, (list,)) and it.has_sym(v):
            v = nparray(it, v)
        if isinstance(v, np.ndarray) and v.dtype == object:
            out = np.empty(v.shape, dtype=object)
            for i in np.ndindex(*v.shape):
                out[i] = s(v[i]) if isinstance(v[i], Sym) else f(v[i])
            return out
        return f(v, *a)
    return g


for _f, _s in ((math.exp, S.s_exp), (np.exp, S.s_exp), (math.log, S.s_log), (np.log, S.s_log), (math.sqrt, S.s_sqrt),
               (np.sqrt, S.s_sqrt)):
    MODELS[_f] = _unary(_f, _s)


@model(math.isnan, np.isnan)
def _isnan(it, v):
    return False if isinstance(v, Sym) else math.isnan(v)


for _o, _n in ((operator.add, _ast.Add), (operator.sub, _ast.Sub), (operator.mul, _ast.Mult), (operator.truediv, _ast.Div)):
    MODELS[_o] = (lambda n: lambda it, a, b: it.binop(n, a, b))(_n)
for _o, _n in ((operator.lt, _ast.Lt()), (operator.le, _ast.LtE()), (operator.gt, _ast.Gt()), (operator.ge, _ast.GtE()),
               (operator.eq, _ast.Eq()), (operator.ne, _ast.NotEq())):
    MODELS[_o] = (lambda n: lambda it, a, b: it.compare(n, a, b))(_n)
MODELS[operator.getitem] = lambda it, a, b: it.getitem(a, b)


# -- sequences --------------------------------------------------------------------------------------

@model(len)
def _len(it, v):
    v = unopt(v)
    f = it.find_dunder(v, '__len__')
    if f is not None:
        return it.call(f, (v,))
    if isinstance(v, SList):
        if v.rec is not None:
            return SInt(z3.simplify(num_z(v.reclen()) + len(v.rec)))
        if v.sym is not None:
            return SInt(v.sym.n)
    if isinstance(v, (Stored, SColumns)):
        v = v.shape[0]
        return v if not isinstance(v, SInt) else SInt(z3.simplify(v.z))
    if isinstance(v, SSeq):
        z = z3.simplify(v.n)
        return z.as_long() if z3.is_int_value(z) else SInt(z)
    if isinstance(v, SFilt):
        r = Q.filt_sum(SFilt(v.n, v.keep, lambda i: 1))
        i = Q.fresh('len', z3.IntSort())
        P().fact(z3.And(z3.ToReal(i) == S.to_real(num_z(r)), i >= 0))
        return SInt(i)
    return len(v)


@model(range)
def _range(it, *a):
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    zs = [z3.simplify(num_z(x)) for x in (start, stop, step)]
    if not z3.is_int_value(zs[2]):
        raise Unsupported('range with a symbolic step')
    st = zs[2].as_long()
    n = (zs[1] - zs[0] + (st - 1)) / st if st > 0 else (zs[0] - zs[1] + (-st - 1)) / (-st)
    n = z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))
    if P().known(n > 0) or P().known(zs[1] >= zs[0]) and st == 1:
        n = z3.simplify((zs[1] - zs[0])) if st == 1 else n
    return SSeq(n, lambda i: SInt(z3.simplify(zs[0] + i * st)))


def seqlike(it, v, partly=False):
    """concrete list, SSeq, SFilt or NestedSeq; partly: it may be left before its end"""
    v = unopt(v)
    if isinstance(v, NestedSeq):
        return v
    if isinstance(v, SSet):
        if v.plain() is not None:
            return v.distinct(it)
        raise Unsupported('iteration over a symbolic set')
    r = it.iterate(v, lazy=partly)
    if r.__class__.__name__ == 'Lazy':
        raise Unsupported('part of a user-defined iterator')
    return r


@model(enumerate)
def _enumerate(it, v, start=0):
    s = seqlike(it, v, True)
    if isinstance(s, list):
        return [(i + start, x) for i, x in enumerate(s)]
    if isinstance(s, SSeq):
        return SSeq(s.n, lambda i: (SInt(z3.simplify(i + num_z(start))), s.get(i)))
    raise Unsupported('enumerate')


@model(zip)
def _zip(it, *vs, strict=False):
    ss = [seqlike(it, v, True) for v in vs]
    if all(isinstance(s, list) for s in ss):
        return list(zip(*ss))
    if any(isinstance(s, (SFilt, NestedSeq)) for s in ss):
        raise Unsupported('zip of a filtered sequence')
    ss = [as_seq(s) for s in ss]
    n = ss[0].n
    for s in ss[1:]:
        if n.eq(s.n):
            continue
        if P().known(n <= s.n):
            continue
        if P().known(s.n <= n):
            n = s.n
            continue
        n = z3.If(n <= s.n, n, s.n)
    return SSeq(n, lambda i: tuple(s.get(i) for s in ss))


@model(itertools.pairwise)
def _pairwise(it, v):
    s = seqlike(it, v)
    if isinstance(s, list):
        return list(zip(s, s[1:]))
    s = as_seq(s)
    n = s.n - 1 if P().known(s.n >= 1) else z3.If(s.n >= 1, s.n - 1, z3.IntVal(0))
    return SSeq(n, lambda i: (s.get(i), s.get(z3.simplify(i + 1))))


@model(itertools.chain)
def _chain(it, *vs):
    ss = [seqlike(it, v) for v in vs]
    if all(isinstance(s, list) for s in ss):
        return [x for s in ss for x in s]
    r = as_seq(ss[0])
    for s in ss[1:]:
        r = Q.concat(r, as_seq(s))
    return r


@model(itertools.chain.from_iterable)
def _chainfi(it, v):
    s = seqlike(it, v)
    if isinstance(s, list):
        return _chain(it, *s) if s else []
    raise Unsupported('chain of a symbolic sequence')


@model(itertools.accumulate)
def _accumulate(it, v, func=None, *, initial=None):
    s = seqlike(it, v)
    if isinstance(s, list):
        out = []
        acc = initial
        if initial is not None:
            out.append(acc)
        for x in s:
            acc = x if acc is None and not out else (it.call(func, (acc, x)) if func else it.binop(_ast.Add, acc, x))
            out.append(acc)
        return out
    raise Unsupported('accumulate')


@model(itertools.islice)
def _islice(it, v, *a):
    s = seqlike(it, v)
    if isinstance(s, list) and not any(isinstance(x, Sym) for x in a):
        return list(itertools.islice(s, *a))
    if isinstance(s, SSeq) and len(a) == 2 and a[1] is None:
        return s.slice(slice(a[0], None))
    raise Unsupported('islice')


@model(list)
def _list(it, v=()):
    s = seqlike(it, v)
    r = SList.of(s) if isinstance(s, SSeq) else SList(s) if isinstance(s, list) else s
    it.note_new(r)
    return r


@model(tuple)
def _tuple(it, v=()):
    s = seqlike(it, v)
    return tuple(s) if isinstance(s, list) else s


@model(sorted, note='a stable ordered permutation')
def _sorted(it, v, key=None, reverse=False):
    if isinstance(v, SSet) and v.plain() is None:
        raise Unsupported('sorted symbolic set')
    s = seqlike(it, v)
    if isinstance(s, list):
        return SList(Q.sorted_concrete(s, (lambda x: it.call(key, (x,))) if key is not None else None, it.truth(reverse))
                     if not all_native(s) or key is not None else sorted(s, reverse=reverse))
    if isinstance(s, SSeq):
        return Q.sorted_seq(s, (lambda x: it.call(key, (x,))) if key is not None else None, it.truth(reverse))
    raise Unsupported('sorted')


def all_native(xs):
    return not any(isinstance(x, Sym) or is_repo_class(type(x)) for x in xs)


@model(reversed)
def _reversed(it, v):
    s = seqlike(it, v)
    if isinstance(s, list):
        return list(reversed(s))
    return as_seq(s).slice(slice(None, None, -1))


@model(map)
def _map(it, f, *vs):
    if len(vs) == 1:
        s = seqlike(it, vs[0])
        if isinstance(s, list):
            return SIter([it.call(f, (x,)) for x in s])
        if isinstance(s, SFilt):
            return SIter(SFilt(s.n, s.keep, lambda i: it.call(f, (s.get(i),))))
        return SIter(it.map_seq(s, lambda x: it.call(f, (x,))))
    z = _zip(it, *vs)
    if isinstance(z, list):
        return SIter([it.call(f, x) for x in z])
    return SIter(it.map_seq(z, lambda x: it.call(f, x)))


@model(filter)
def _filter(it, f, v):
    import ast
    s = seqlike(it, v)
    g = (lambda x: it.call(f, (x,))) if f is not None else (lambda x: x)
    if isinstance(s, list):
        return SIter([x for x in s if it.truth(g(x))])
    fn = lambda x: g(x)
    node = ast.parse('[x for x in S if F(x)]', mode='eval').body
    from .interp import Env
    env = Env({'S': s, 'F': fn}, None, {})
    return SIter(it.comp(node.elt, node.generators, env))


@model(sum)
def _sum(it, v, start=0):
    s = seqlike(it, v)
    if isinstance(s, list):
        acc = start
        for x in s:
            acc = it.binop(_ast.Add, acc, x)
        return acc
    if isinstance(s, SFilt):
        return Q.filt_sum(s, start)
    if isinstance(s, NestedSeq):
        return nested_fold(it, s, lambda r: _sum(it, r), 'sum') + start
    return Q.seq_sum(s, start)


@model(math.prod, np.prod)
def _prod(it, v, *, start=1):
    s = seqlike(it, v)
    if isinstance(s, list):
        acc = start
        for x in s:
            acc = it.binop(_ast.Mult, acc, x)
        return acc
    if isinstance(s, SSeq):
        tmpl, outs = Q.generic_map(s.n, s.get, unopt)
        outs = Q.raise_check(tmpl, outs)
        z = num_z(Q.merge_values(outs, lambda o: o.value))
        return SReal(Q.prod_def(tmpl.k, z, s.n, tmpl)) * start
    raise Unsupported('prod')


@model(functools.reduce)
def _reduce(it, f, v, *init):
    s = seqlike(it, v)
    if isinstance(s, list):
        s = list(s)
        acc = init[0] if init else s.pop(0)
        for x in s:
            acc = it.call(f, (acc, x))
        return acc
    raise Unsupported('reduce')


def _cond_fold(it, v, neg):
    s = seqlike(it, v)
    if isinstance(s, list):
        z = z3.BoolVal(False)
        for x in s:
            x = unopt(x)
            t = bool_z(x) if isinstance(x, (bool, SBool, np.bool_)) else z3.BoolVal(it.truth(x))
            z = z3.Or(z, z3.Not(t) if neg else t)
        z = z3.simplify(z)
        return Q._simp_bool(z3.Not(z) if neg else z)
    if isinstance(s, SFilt):
        def f(k):
            if not P().fork(s.keep(k)):
                return False
            return not it.truth(s.get(k)) if neg else it.truth(s.get(k))
        r = Q.any_def(s.n, f)
    elif isinstance(s, NestedSeq):
        r = nested_fold(it, s, lambda q: Q._neg(_cond_fold(it, q, neg)) if neg else _cond_fold(it, q, neg), 'any')
    else:
        r = Q.any_def(s.n, lambda k: Q._neg(unopt(s.get(k))) if neg else unopt(s.get(k)))
    return SBool(z3.Not(r.z)) if neg else r


@model(any)
def _any(it, v): return _cond_fold(it, v, False)


@model(all)
def _all(it, v): return _cond_fold(it, v, True)


def _minmax(it, name, better, args, key, default):
    if len(args) > 1:
        items = list(args)
    else:
        items = seqlike(it, args[0])
    if isinstance(items, list):
        if not items:
            if default is not _dt:
                return default
            raise ValueError(f'{name}() arg is an empty sequence')
        best = items[0]
        kb = it.call(key, (best,)) if key else best
        for x in items[1:]:
            kx = it.call(key, (x,)) if key else x
            c = it.compare(better, kx, kb)
            if isinstance(c, SBool):
                try:
                    best, kb = Q.ite(c.z, x, best), Q.ite(c.z, kx, kb)
                except Unsupported:
                    if bool(c):
                        best, kb = x, kx
            elif c:
                best, kb = x, kx
        return best
    s = items
    if isinstance(s, SFilt) or isinstance(s, NestedSeq):
        raise Unsupported(name)
    if not P().fork(s.n > 0):
        if default is not _dt:
            return default
        raise ValueError(f'{name}() arg is an empty sequence')
    tmpl, outs = Q.generic_map(s.n, s.get, (lambda x: it.call(key, (x,))) if key else unopt)
    outs = Q.raise_check(tmpl, outs)
    kv = Q.merge_values(outs, lambda o: o.value)
    kz = Q.leaf1(kv)
    p = P()
    ck = (name, Q.canon(kz, tmpl.k).get_id(), s.n.get_id(), tuple(c.get_id() for c in CTX.params))
    w = p.root.defkey.get(ck)
    if w is None:
        w = Q.fresh(name, z3.IntSort())
        p.root.defkey[ck] = w
        p.root.keep.append((Q.canon(kz, tmpl.k), s.n))
    tmpl.assume_at(w)
    kw = z3.substitute(kz, (tmpl.k, w))
    p.fact(z3.And(w >= 0, w < s.n))
    if not CTX.params:
        p.root.qfacts.append((tmpl.k, s.n, kw <= kz if name == 'min' else kw >= kz, tmpl))
    for e in (z3.IntVal(0), z3.simplify(s.n - 1)):
        tmpl.assume_at(e)
        ke = z3.substitute(kz, (tmpl.k, e))
        p.fact(kw <= ke if name == 'min' else kw >= ke)
    return s.get(w)


@model(min)
def _min(it, *args, key=None, default=_dt): return _minmax(it, 'min', _ast.Lt(), args, key, default)


@model(max)
def _max(it, *args, key=None, default=_dt): return _minmax(it, 'max', _ast.Gt(), args, key, default)


@model(iter)
def _iter(it, v):
    f = it.find_dunder(v, '__iter__')
    if f is not None:
        return it.call(f, (v,))
    if isinstance(v, SIter):
        return v
    return SIter(seqlike(it, v))


@model(next)
def _next(it, v, *d):
    f = it.find_dunder(v, '__next__')
    try:
        if f is not None:
            return it.call(f, (v,))
        return unopt(next(v))
    except StopIteration:
        if d:
            return d[0]
        raise


@model(set, frozenset)
def _set(it, v=()):
    if isinstance(v, NestedSeq):
        return SSet(v)
    if isinstance(v, SSet):
        it.note_new(r := v.copy())
        return r
    s = it.iterate(v)
    if isinstance(s, list):
        if not s or any(isinstance(x, Sym) or user_hash(x) for x in s):
            it.note_new(r := SSet(list(s)))
            return r
        try:
            return set(s)
        except TypeError:
            return SSet(list(s))
    if isinstance(s, SFilt):
        return SSet(s)
    return SSet(SList.of(s))


@model(dict)
def _dict(it, *a, **k):
    r = SDict()
    it.note_new(r)
    if a:
        src = a[0]
        if isinstance(src, dict):
            for kk, v in src.items():
                r[kk] = v
        else:
            s = seqlike(it, src)
            if not isinstance(s, list):
                return SMap(it, s)
            for kk, v in s:
                r[kk] = v
    for kk, v in k.items():
        r[kk] = v
    return r


@model(collections.OrderedDict)
def _odict(it, *a, **k): return _dict(it, *a, **k)


@model(collections.defaultdict)
def _ddict(it, factory=None, *a):
    r = SDefaultDict()
    r.factory = factory
    it.note_new(r)
    return r


@model(bisect.bisect_left, note='the position p with a[p-1] < x <= a[p]')
def _bl(it, a, x, lo=0, hi=None, *, key=None): return _bisect(it, a, x, True, key, lo, hi)


@model(bisect.bisect_right, bisect.bisect, note='the position p with a[p-1] <= x < a[p]')
def _br(it, a, x, lo=0, hi=None, *, key=None): return _bisect(it, a, x, False, key, lo, hi)




def _bisect(it, a, x, left, key, lo=0, hi=None):
    f = it.find_dunder(a, '__getitem__')
    if f is not None:
        n = it.call(len, (a,))
        items = [it.call(f, (a, i)) for i in range(n if not isinstance(n, Sym) else _noint())]
        s = items
    else:
        s = seqlike(it, a)
    k = (lambda v: it.call(key, (v,))) if key is not None else (lambda v: v)
    if isinstance(s, list):
        l, h = lo, len(s) if hi is None else hi
        while l < h:
            m = (l + h) // 2
            v = k(s[m])
            go = it.truth(it.compare(_ast.Lt(), v, x)) if left else not it.truth(it.compare(_ast.Lt(), x, v))
            if go:
                l = m + 1
            else:
                h = m
        return l
    if lo != 0 or hi is not None:
        raise Unsupported('bisect with bounds')
    p = P()
    n = s.n
    pos = Q.fresh('bis', z3.IntSort())
    p.fact(z3.And(pos >= 0, pos <= n))

    def lt(u, v):
        return bool_z(it.compare(_ast.Lt(), u, v))
    # monotone split: every index below pos is < x (<= x), every index from pos on is >= x (> x); needs a sorted a
    kk = z3.FreshInt('i')
    tmpl, outs = Q.generic_map(n, s.get, lambda v: SBool(lt(k(v), x)) if left else SBool(z3.Not(lt(x, k(v)))))
    outs = Q.raise_check(tmpl, outs)
    bz = z3.Or(*[z3.And(o.cond, bool_z(o.value)) for o in outs])
    for e, want in ((z3.simplify(pos - 1), True), (pos, False)):
        tmpl.assume_at(e)
        Q.note_index(e)
        b = z3.substitute(bz, (tmpl.k, e))
        p.fact(z3.Implies(z3.And(e >= 0, e < n), b if want else z3.Not(b)))
    p.root.abstract.append('bisect on a sequence of symbolic length')
    return SInt(pos)


def _noint():
    raise Unsupported('symbolic length')


@model(bisect.insort_right, bisect.insort, note='insertion at the position p with a[p-1] <= x < a[p]')
def _ir(it, a, x, lo=0, hi=None, *, key=None):
    kx = it.call(key, (x,)) if key is not None else x
    p = _bisect(it, a, kx, False, key)
    _insert(it, a, p, x)


@model(bisect.insort_left, note='insertion at the position p with a[p-1] < x <= a[p]')
def _il(it, a, x, lo=0, hi=None, *, key=None):
    kx = it.call(key, (x,)) if key is not None else x
    _insert(it, a, _bisect(it, a, kx, True, key), x)


def _insert(it, a, p, x):
    f = it.find_dunder(a, 'insert')
    if f is not None:
        it.call(f, (a, p, x))
    elif isinstance(a, SList):
        a.insert(p, x)
    else:
        old = list(a)
        Q.journal(lambda: a.__setitem__(slice(None), old))
        a.insert(p, x)


@model(_operator.index)
def _index(it, v):
    v = unopt(v)
    return v if isinstance(v, SInt) else _operator.index(v)


@model(copy.deepcopy)
def _deepcopy(it, v, memo=None):
    if isinstance(v, np.ndarray) and v.dtype == object:
        return v.copy()
    if isinstance(v, Stored):
        r = v.copy()
        it.note_new(r)
        return r
    r = copy.deepcopy(v)
    return r


@model(copy.copy)
def _copy(it, v):
    if isinstance(v, SList):
        return v.copy()
    if isinstance(v, Stored):
        return _deepcopy(it, v)
    if isinstance(v, np.ndarray) and v.dtype == object:
        return v.copy()
    return copy.copy(v)


@model(id)
def _id(it, v):
    if Q.is_record(v):
        raise Unsupported('identity of elements of a sequence')
    return id(v)


# -- dates ------------------------------------------------------------------------------------------

@model(_dt.date)
def _date(it, year, month=None, day=None):
    return S.make_date(year, month, day)


@model(_dt.datetime)
def _datetime(it, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, **k):
    vs = (year, month, day, hour, minute, second, microsecond)
    if not any(isinstance(v, Sym) for v in vs):
        return _dt.datetime(*vs, **k)
    d = S.lift_date(S.make_date(year, month, day))
    us = ((num_z(hour) * 60 + num_z(minute)) * 60 + num_z(second)) * 1_000_000 + num_z(microsecond)
    us = z3.simplify(us)
    return SDateTime(d.o * S.US_DAY + us, d.o, us)


@model(_dt.timedelta)
def _timedelta(it, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    vs = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    if not any(isinstance(v, Sym) for v in vs):
        return _dt.timedelta(*vs)
    if any(isinstance(v, (float, SReal)) for v in vs):
        raise Unsupported('fractional timedelta')
    us = (num_z(days) + 7 * num_z(weeks)) * S.US_DAY + num_z(hours) * 3_600_000_000 + num_z(minutes) * 60_000_000 \
        + num_z(seconds) * 1_000_000 + num_z(milliseconds) * 1000 + num_z(microseconds)
    return SDelta(us)


@model(relativedelta, note='adding it shifts by calendar months clipping to the month end, then adds its days')
def _rd(it, dt1=None, dt2=None, **k):
    if dt1 is not None or dt2 is not None:
        if isinstance(dt1, Sym) or isinstance(dt2, Sym):
            raise Unsupported('relativedelta between symbolic dates')
        return relativedelta(dt1, dt2)
    if not any(isinstance(v, Sym) for v in k.values()):
        return relativedelta(**k)
    if set(k) - {'years', 'months', 'days', 'weeks', 'day', 'hours', 'minutes', 'seconds', 'microseconds'}:
        raise Unsupported('relativedelta fields')
    if any(isinstance(v, SReal) for v in k.values()):
        raise ValueError('Non-integer years and months are ambiguous and not currently supported.')
    months = k.get('years', 0) * 12 + k.get('months', 0)
    days = k.get('days', 0) + 7 * k.get('weeks', 0)
    us = k.get('hours', 0) * 3_600_000_000 + k.get('minutes', 0) * 60_000_000 + k.get('seconds', 0) * 1_000_000 \
        + k.get('microseconds', 0)
    day = k.get('day')
    return SRelDelta(S.RD(months, day, days, us))




def combine_model(it, d, t, **k):
    if isinstance(d, (SDate, SDateTime)):
        us = ((t.hour * 60 + t.minute) * 60 + t.second) * 1_000_000 + t.microsecond
        o = d.o if isinstance(d, SDate) else d.split()[0]
        return SDateTime(o * S.US_DAY + us, o, z3.IntVal(us))
    return _dt.datetime.combine(d, t)


class _BuiltinByName:
    pass


def _builtin_cls(interp_cls):
    orig = interp_cls.call_bound_builtin

    def call_bound_builtin(self, f, args, kwargs):
        s = f.__self__
        if s in (_dt.datetime, _dt.date) if isinstance(s, type) else False:
            if f.__name__ == 'combine':
                return combine_model(self, *args, **kwargs)
            if f.__name__ == 'fromordinal' and args and isinstance(args[0], Sym):
                if s is _dt.date:
                    return SDate(num_z(args[0]))
            if f.__name__ in ('today', 'now'):
                raise Unsupported('reading the clock')
            if any(isinstance(a, Sym) for a in args):
                raise Unsupported(f'{s.__name__}.{f.__name__}')
        if isinstance(s, (_dt.date, _dt.datetime)) and (kwargs or args) and self.has_sym(list(args) + list(kwargs.values())):
            o = S.lift_dt(s) if isinstance(s, _dt.datetime) else S.lift_date(s)
            return getattr(o, f.__name__)(*args, **kwargs)
        if isinstance(s, np.ndarray) and f.__name__ in ('sort',):
            raise Unsupported('array sort')
        if isinstance(s, np.ndarray) and f.__name__ == 'dot' and len(args) == 1 and isinstance(args[0], (Stored, SColumns)):
            return product(s, args[0])
        if isinstance(s, np.random.RandomState):
            m = MODELS.get(('rng', f.__name__))
            if m is not None:
                return m(self, *args, **kwargs)
        return orig(self, f, args, kwargs)
    interp_cls.call_bound_builtin = call_bound_builtin


_builtin_cls(Interp)


@model(calendar.monthrange, note='weekday of the first day and length of the month')
def _monthrange(it, y, m):
    if not isinstance(y, Sym) and not isinstance(m, Sym):
        return calendar.monthrange(y, m)
    zy, zm = num_z(y), num_z(m)
    first = S.make_date(y, m, 1)
    return (first.weekday(), SInt(z3.simplify(S.dim_z(zy, zm))))


@model(calendar.isleap)
def _isleap(it, y):
    if not isinstance(y, Sym):
        return calendar.isleap(y)
    return SBool(z3.simplify(S.leap_z(num_z(y))))


# -- numpy ------------------------------------------------------------------------------------------

def tolist(it, v):
    if isinstance(v, SList):
        v._conc('array')
        return [tolist(it, x) for x in v.items()]
    if isinstance(v, (list, tuple)):
        return [tolist(it, x) for x in v]
    if isinstance(v, SIter):
        r = v.rest()
        if isinstance(r, list):
            return [tolist(it, x) for x in r]
        raise Unsupported('array of a symbolic sequence')
    return v


@model(np.array, np.asarray)
def nparray(it, v, dtype=None, **k):
    if isinstance(v, Stored):
        return _deepcopy(it, v)
    if isinstance(v, np.ndarray):
        return v.copy() if v.dtype == object or dtype is None else np.array(v, dtype=dtype)
    if isinstance(v, SSeq) or (isinstance(v, SList) and v.sym is not None):
        return SArr(as_seq(v))
    if isinstance(v, SIter) and isinstance(v.src, SSeq):
        return SArr(v.rest())
    l = tolist(it, v)
    if it.has_sym(l) or _has_obj_arr(l):
        return _objarr(l)
    return np.array(l, dtype=dtype, **k) if dtype is not None else np.array(l, **k)


def _has_obj_arr(l):
    if isinstance(l, np.ndarray):
        return l.dtype == object
    if isinstance(l, list):
        return any(_has_obj_arr(x) for x in l)
    return False


def _objarr(l):
    def shape(x):
        if isinstance(x, np.ndarray):
            return x.shape
        if isinstance(x, list):
            return (len(x),) + (shape(x[0]) if x else ())
        return ()
    sh = shape(l)
    out = np.empty(sh, dtype=object)

    def at(x, ix):
        for i in ix:
            x = x[i]
        return x
    for ix in np.ndindex(*sh):
        out[ix] = at(l, ix)
    return out if sh else l


class Stored(Sym):
    """numpy array with a symbolic last axis; changed in place only by stores (interp.setitem), a loop's stores are summarised
    by loops.py"""
    __array_ufunc__ = None
    opened = None       # inside a symbolic loop that stores one column per iteration: {'k', 'off', 'rec', 'last'}
    viewed = False      # part of another array, or another array is part of it

    def rows_(self): raise NotImplementedError

    def set_rows(self, rows): raise NotImplementedError

    @property
    def n(self): return self.rows_()[0].n

    def whole(self):
        if self.opened is not None:
            raise Unsupported('an array read while a loop stores into it')
        return self.rows_()

    def index_of(self, i):
        i = unopt(i)
        return self.rows_()[0].index_z(i if isinstance(i, Sym) else int(i))

    def column(self, i):
        """values at index i of the last axis"""
        rows = self.rows_()
        z = self.index_of(i)
        o = self.opened
        if o is not None:
            r = z3.simplify(z - o['k'])
            if not z3.is_int_value(r):
                raise Unsupported('an array read while a loop stores into it')
            r = r.as_long() - o['off']
            if r == 0 and o['rec']:
                return list(o['rec'][-1])
            if r == -1:
                if o['last'] is None:
                    raise NeedLast(self)
                return list(o['last'])
            if r < 0:
                raise Unsupported('an array read while a loop stores into it')
        return [row.get(z) for row in rows]

    def last_init(self):
        """the column before the first one a loop stores: what it was before the loop"""
        off = self.loop_offset
        if not isinstance(off, int) or off < 1:
            raise Unsupported('column before the first')
        return tuple(row.get(z3.IntVal(off - 1)) for row in self.rows_())

    def store_column(self, it, i, vals):
        z = self.index_of(i)
        vals = list(vals)
        if self.viewed:
            raise Unsupported('change of an array that shares its elements')
        outer = [w for w in it.writes if id(self) not in w['created']]
        if outer:
            if len(outer) != 1:
                raise Unsupported('array update in nested symbolic loops')
            if not any(x is self for x in outer[0]['arrays']):
                outer[0]['arrays'].append(self)
            if self.opened is not None:
                r = z3.simplify(z - self.opened['k'])
                if not (z3.is_int_value(r) and r.as_long() == self.opened['off']):
                    raise Unsupported('array update at several places of a symbolic loop')
                self.opened['rec'].append(vals)
            else:
                self.stored_at = z
            return
        self.put([(lambda j, r=r, v=v: choose(j == z, lambda: v, lambda: r.get(j))) for r, v in zip(self.rows_(), vals)])

    def put(self, gets):
        old = self.rows_()
        Q.journal(lambda: self.set_rows(old))
        n = old[0].n
        self.set_rows([SSeq(n, g) for g in gets])


from .loops import NeedLast


class SArr(Stored):
    """one-dimensional numeric array of symbolic length"""
    def __init__(self, seq):
        self._seq = seq

    @property
    def seq(self): return self.whole()[0]

    def rows_(self): return [self._seq]

    def set_rows(self, rows): self._seq = rows[0]

    @property
    def shape(self): return (SInt(self.n),)

    ndim = 1

    @property
    def size(self): return SInt(self.n)

    @property
    def T(self): return self

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, slice):
            self.viewed = True
            r = SArr(self.seq.slice(i))
            r.viewed = True
            return r
        return self.column(i)[0]

    def copy(self): return SArr(self.seq)

    def flatten(self): return SArr(self.seq)

    def store(self, it, i, v):
        if isinstance(i, slice):
            store_slice(self, it, i, v)
        else:
            self.store_column(it, i, [unopt(v)])

    def _bin(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim == 1 or isinstance(o, (SList, SSeq, list)):
            raise Unsupported('array of symbolic length with another sequence')
        if isinstance(o, SMat):
            return SMat([self._bin(SArr(r), f).seq for r in o.whole()])
        if isinstance(o, np.ndarray):
            if o.ndim == 2 and o.shape[1] == 1:
                return SMat([self._bin(o[i, 0], f).seq for i in range(o.shape[0])])
            if o.size != 1:
                raise Unsupported('array of symbolic length with another array')
            o = o.flat[0]
        if isinstance(o, SArr):
            n = self.seq.n
            same_length(n, o.seq.n)
            a, b = self.seq, o.seq
            return SArr(SSeq(n, lambda i: f(a.get(i), b.get(i))))
        a = self.seq
        return SArr(SSeq(a.n, lambda i: f(a.get(i), o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return SArr(self.seq.map(lambda x: -x))
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)

    def __matmul__(self, o):
        if isinstance(o, SArr):
            return Q.seq_sum((self * o).seq)
        raise Unsupported('product of arrays of symbolic length')

    def dot(self, o): return product(self, o)

    def sum(self, axis=None): return Q.seq_sum(self.seq)

    def cumsum(self, axis=None): return SArr(running(self.seq))

    def pyvc_iter(self, it): return self.seq
    def pyvc_subst(self, pairs): return SArr(self.seq.pyvc_subst(pairs))


def same_length(n, m):
    if not z3.simplify(n).eq(z3.simplify(m)) and not P().known(n == m):
        raise Unsupported('arrays whose lengths are not known to be equal')


def running(seq):
    """the sums of the first elements"""
    return SSeq(seq.n, lambda i: Q.seq_sum(seq, upto=z3.simplify(i + 1)))


def choose(c, yes, no):
    """yes() where c holds, else no(); only what is possible is looked at"""
    c = z3.simplify(c)
    if z3.is_true(c) or P().known(c):
        return yes()
    if z3.is_false(c) or P().known(z3.Not(c)):
        return no()
    return Q.ite(c, yes(), no())


def store_slice(a, it, i, v):
    """a[..., lo:] = v for a constant lo"""
    if i.step is not None or any(id(a) not in w['created'] for w in it.writes) or a.viewed or a.opened is not None:
        raise Unsupported('store into a slice')
    lo, hi = unopt(i.start) or 0, unopt(i.stop)
    lz = a.rows_()[0].index_z(lo) if not (isinstance(lo, int) and lo == 0) else z3.IntVal(0)
    n = a.n
    hz = n if hi is None else a.rows_()[0].index_z(hi) if not (isinstance(hi, int) and hi < 0) else z3.simplify(n + hi)
    old = a.rows_()
    if isinstance(v, Stored):
        new = v.whole()
        same_length(new[0].n, hz - lz)
        if len(new) == 1 and len(old) > 1:
            new = new * len(old)
        if len(new) != len(old):
            raise Unsupported('store into a slice')
        at = [lambda j, r=r: r.get(z3.simplify(j - lz)) for r in new]
    elif S.is_num(v):
        at = [lambda j: v] * len(old)
    else:
        raise Unsupported('store into a slice')
    a.put([(lambda j, r=r, f=f: choose(z3.And(j >= lz, j < hz), lambda: f(j), lambda: r.get(j))) for r, f in zip(old, at)])


class SMat(Stored):
    """two-dimensional numeric array: a concrete number of rows, columns of symbolic number"""
    def __init__(self, rows):
        self._rows = list(rows)

    def rows_(self): return self._rows

    def set_rows(self, rows): self._rows = list(rows)

    @property
    def shape(self): return (len(self._rows), SInt(self.n))

    ndim = 2

    @property
    def T(self): return SColumns(self)

    def transpose(self): return SColumns(self)

    def copy(self): return SMat(self.whole())

    def vector(self, vals):
        out = np.empty((len(vals),), dtype=object)
        for i, v in enumerate(vals):
            out[i] = v
        out.flags.writeable = False        # a view of this array: changes through it are not followed
        return out

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix, slice(None))
        r, c = (unopt(x) for x in ix)
        if isinstance(r, SInt):
            r = z3.simplify(r.z)
            if not z3.is_int_value(r):
                raise Unsupported('symbolic row of an array')
            r = r.as_long()
        if isinstance(c, slice):
            if isinstance(r, slice):
                self.viewed = True
                m = SMat([x.slice(c) if c != slice(None) else x for x in self.whole()[r]])
                m.viewed = True
                return m
            self.viewed = True
            x = self.whole()[r]
            a = SArr(x.slice(c) if c != slice(None) else x)
            a.viewed = True
            return a
        col = self.column(c)
        return self.vector(col[r]) if isinstance(r, slice) else col[r]

    def store(self, it, ix, v):
        if not isinstance(ix, tuple) or len(ix) != 2:
            raise Unsupported('store into rows of an array')
        r, c = (unopt(x) for x in ix)
        if r != slice(None) and not (isinstance(r, int) and len(self._rows) == 1 and r in (0, -1)):
            raise Unsupported('store into some rows of an array')
        if isinstance(c, slice):
            return store_slice(self, it, c, v)
        d = len(self._rows)
        if isinstance(v, np.ndarray):
            vals = [v.flat[0]] * d if v.size == 1 else list(v.flat) if v.shape == (d,) else None
        elif S.is_num(v):
            vals = [v] * d
        else:
            vals = None
        if vals is None:
            raise ValueError('could not broadcast input array')
        self.store_column(it, c, vals)

    def _bin(self, o, f):
        if isinstance(o, SMat):
            if len(o._rows) != len(self._rows):
                raise Unsupported('arrays of different shapes')
            return SMat([SArr(a)._bin(SArr(b), f).seq for a, b in zip(self.whole(), o.whole())])
        if isinstance(o, np.ndarray) and o.ndim == 2 and o.shape == (len(self._rows), 1):
            return SMat([SArr(a)._bin(o[i, 0], f).seq for i, a in enumerate(self.whole())])
        return SMat([SArr(a)._bin(o, f).seq for a in self.whole()])

    __add__, __radd__, __sub__, __rsub__ = SArr.__add__, SArr.__radd__, SArr.__sub__, SArr.__rsub__
    __mul__, __rmul__, __truediv__, __rtruediv__ = SArr.__mul__, SArr.__mul__, SArr.__truediv__, SArr.__rtruediv__
    __pow__ = SArr.__pow__
    def __neg__(self): return SMat([r.map(lambda x: -x) for r in self.whole()])

    def __rmatmul__(self, a):
        if not isinstance(a, np.ndarray) or a.shape[-1] != len(self._rows):
            raise Unsupported('product of arrays of symbolic length')
        rows = self.whole()

        def comb(cs):
            return SSeq(rows[0].n, lambda i: sum((c * r.get(i) for c, r in zip(cs[1:], rows[1:])), cs[0] * rows[0].get(i)))
        a = a.astype(object)
        return SArr(comb(list(a))) if a.ndim == 1 else SMat([comb(list(x)) for x in a])

    def __matmul__(self, o): raise Unsupported('product of arrays of symbolic length')

    def dot(self, o): return product(self, o)

    def cumsum(self, axis=None):
        if axis in (1, -1):
            return SMat([running(r) for r in self.whole()])
        raise Unsupported('cumsum over rows')

    def pyvc_iter(self, it):
        self.viewed = True
        out = [SArr(r) for r in self.whole()]
        for a in out:
            a.viewed = True
        return out

    def pyvc_subst(self, pairs): return SMat([r.pyvc_subst(pairs) for r in self.whole()])


class SColumns(Sym):
    """transpose of an SMat: a sequence of its columns"""
    __array_ufunc__ = None

    def __init__(self, mat):
        self.mat = mat

    @property
    def T(self): return self.mat

    @property
    def shape(self): return self.mat.shape[::-1]

    def seq_(self):
        rows = self.mat.whole()
        return SSeq(rows[0].n, lambda i: self.mat.vector([r.get(i) for r in rows]))

    def __getitem__(self, ix):
        if isinstance(ix, tuple):
            return self.mat[ix[1], ix[0]]
        if isinstance(ix, slice):
            return self.mat[:, ix].T
        return self.mat[:, ix]

    def dot(self, o): return product(self, o)

    def __matmul__(self, a):
        return (a.T @ self.mat).T if isinstance(a, np.ndarray) and a.ndim == 2 else a @ self.mat

    def pyvc_iter(self, it): return self.seq_()


@model(np.sum)
def _npsum(it, v, axis=None):
    if isinstance(v, SArr):
        return Q.seq_sum(v.seq)
    if isinstance(v, np.ndarray):
        return v.sum(axis=axis)
    if axis is None:
        return _sum(it, v)
    return np.sum(v, axis=axis)


def product(a, b):
    """the matrix product, where a number of columns may be symbolic"""
    if not isinstance(a, Stored) and isinstance(b, SMat):
        return b.__rmatmul__(a)
    if isinstance(a, (Stored, SColumns)) and not S.is_num(b):
        return a @ b
    raise Unsupported('product of arrays of symbolic length')


def joined(parts):
    """one sequence after another: constant lists of values and sequences of symbolic length"""
    ends, at = [], z3.IntVal(0)
    for p in parts:
        n = p.n if isinstance(p, SSeq) else z3.IntVal(len(p))
        ends.append((at, p))
        at = z3.simplify(at + n)

    def item(p, j):
        if isinstance(p, SSeq):
            return p.get(z3.simplify(j))
        j = z3.simplify(j)
        if len(p) == 1:
            return p[0]
        if z3.is_int_value(j):
            return p[j.as_long()]
        return Q.ite(j == 0, p[0], item(p[1:], j - 1))

    def get(i, ends=ends):
        (lo, p), rest = ends[-1], ends[:-1]
        if not rest:
            return item(p, i - lo)
        return choose(i >= lo, lambda: item(p, i - lo), lambda: get(i, rest))
    ends = [e for e in ends if isinstance(e[1], SSeq) or len(e[1])]
    return SSeq(at, lambda i: get(i, ends))


def side_by_side(xs):
    """arrays of the same number of rows, each after the last"""
    depth = [len(x.rows_()) if isinstance(x, Stored) else x.shape[0] if x.ndim == 2 else 1 for x in xs]
    flat = [x.ndim == 1 for x in xs]
    if len(set(flat)) > 1 or len(set(depth)) > 1:
        raise ValueError('all the input array dimensions must match')
    rows = [joined([x.whole()[r] if isinstance(x, Stored) else list(x if flat[0] else x[r]) for x in xs]) for r in range(depth[0])]
    return SArr(rows[0]) if flat[0] else SMat(rows)


def one_above_another(xs):
    rows = []
    for x in xs:
        if not isinstance(x, Stored):
            raise Unsupported('rows of an array of symbolic length')
        rows += x.whole()
    for r in rows[1:]:
        same_length(rows[0].n, r.n)
    return SMat(rows)


@model(np.hstack, note='arrays one after another')
def _nphstack(it, xs):
    xs = [nparray(it, x) if isinstance(x, (list, tuple)) else x for x in it.iterate(xs)]
    if any(isinstance(x, Stored) for x in xs):
        xs = [x if isinstance(x, Stored) else np.atleast_1d(x) for x in xs]
        r = side_by_side(xs)
        it.note_new(r)
        return r
    return np.hstack([x.astype(object) if any(getattr(y, 'dtype', None) == object for y in xs) else x for x in xs])


@model(np.vstack, note='arrays one above another')
def _npvstack(it, xs):
    xs = [nparray(it, x) if isinstance(x, (list, tuple)) else x for x in it.iterate(xs)]
    if any(isinstance(x, Stored) for x in xs):
        r = one_above_another(xs)
        it.note_new(r)
        return r
    return np.vstack([x.astype(object) if any(getattr(y, 'dtype', None) == object for y in xs) else x for x in xs])


def _ufunc(f, op):
    @model(f)
    def g(it, a, b):
        a, b = (nparray(it, x) if isinstance(x, (list, tuple)) else unopt(x) for x in (a, b))
        return it.binop(op, a, b) if it.has_sym([a, b]) or any(isinstance(x, np.ndarray) and x.dtype == object for x in (a, b)) else f(a, b)


for _f, _op in ((np.add, _ast.Add), (np.subtract, _ast.Sub), (np.multiply, _ast.Mult), (np.divide, _ast.Div)):
    _ufunc(_f, _op)


@model(np.negative)
def _npneg(it, a):
    a = nparray(it, a) if isinstance(a, (list, tuple)) else unopt(a)
    return it.binop(_ast.Mult, -1, a)


@model(np.square)
def _npsquare(it, a):
    a = nparray(it, a) if isinstance(a, (list, tuple)) else unopt(a)
    return it.binop(_ast.Mult, a, a)


@model(np.dot, np.matmul, note='exact sums of products')
def _npdot(it, a, b):
    a, b = (nparray(it, x) if isinstance(x, (list, tuple)) else x for x in (a, b))
    if isinstance(a, SArr) and isinstance(b, SArr):
        return Q.seq_sum((a * b).seq)
    if isinstance(a, (Stored, SColumns)) or isinstance(b, (Stored, SColumns)):
        return product(a, b)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and object in (a.dtype, b.dtype):
        return np.dot(a.astype(object), b.astype(object))
    return np.dot(a, b)


@model(np.diag)
def _npdiag(it, a, k=0):
    if isinstance(a, (list, tuple)):
        a = nparray(it, a)
    return np.diag(a, k)


@model(np.diff)
def _npdiff(it, a):
    a = nparray(it, a) if isinstance(a, (list, tuple)) else a
    if isinstance(a, SArr):
        s = a.seq
        return SArr(SSeq(s.n - 1, lambda i: s.get(i + 1) - s.get(i)))
    return a[1:] - a[:-1]


@model(np.cumsum)
def _npcumsum(it, a, axis=None):
    a = nparray(it, a) if isinstance(a, (list, tuple)) else a
    if isinstance(a, Stored):
        return a.cumsum(axis=axis)
    return np.cumsum(a, axis=axis)


@model(np.concatenate)
def _npconc(it, xs, axis=0):
    xs = [nparray(it, x) if isinstance(x, (list, tuple)) else x for x in it.iterate(xs)]
    if any(isinstance(x, Stored) for x in xs):
        flat = all(x.ndim == 1 for x in xs)
        if axis not in ((0, -1) if flat else (0, 1, -1, -2)):
            raise Unsupported('arrays of symbolic length joined along an axis')
        r = side_by_side(xs) if flat or axis in (1, -1) else one_above_another(xs)
        it.note_new(r)
        return r
    return np.concatenate([x.astype(object) if any(y.dtype == object for y in xs) else x for x in xs], axis=axis)


def _obj_fill(name, f):
    @model(getattr(np, name))
    def g(it, *a, **k):
        shape = unopt(k.get('shape', a[0] if a else None))
        if name in ('zeros', 'ones', 'empty', 'full'):
            sh = tuple(unopt(x) for x in it.iterate(shape)) if isinstance(shape, (tuple, list)) else (shape,)
            sh = tuple(z3.simplify(x.z).as_long() if isinstance(x, SInt) and z3.is_int_value(z3.simplify(x.z)) else x for x in sh)
            if any(isinstance(x, Sym) for x in sh):
                return symbolic_array(it, name, sh, a[1:], k)
            shape = sh
            a, k = a[1:], {kk: v for kk, v in k.items() if kk != 'shape'}
            a = (shape,) + tuple(a)
        elif isinstance(shape, Stored):
            r = symbolic_array(it, name[:-5], shape.shape, a[1:], k)
            return r
        r = f(*[x if not isinstance(x, SList) else x.items() for x in a], **{kk: v for kk, v in k.items()})
        r = r.astype(object) if r.dtype.kind in 'fiu' and SYMBOLIC_ARRAYS[0] else r
        it.note_new(r)
        return r


def symbolic_array(it, name, sh, rest, k):
    n = sh[-1]
    if not isinstance(n, SInt) or len(sh) > 2 or not all(isinstance(x, (int, np.integer)) for x in sh[:-1]) \
            or any(x < 1 for x in sh[:-1]):
        raise Unsupported('shape of a symbolic array')
    if not P().known(n.z >= 0):
        if P().fork(n.z < 0):
            raise ValueError('negative dimensions are not allowed')
    if name == 'empty':
        def row(r):
            F = z3.Function(P().fresh_name('unset'), z3.IntSort(), z3.RealSort())
            return SSeq(n.z, lambda i: SReal(F(i)))
    else:
        c = {'zeros': 0, 'ones': 1}[name] if name != 'full' else unopt(k.get('fill_value', rest[0] if rest else None))
        c = SReal(S.to_real(S.num_z(c)))
        def row(r): return SSeq(n.z, lambda i: c)
    out = SArr(row(0)) if len(sh) == 1 else SMat([row(i) for i in range(sh[0])])
    it.note_new(out)
    return out


# draws of numpy's global generator: a stream determined by the seed, read in order
STREAM = z3.Function('standard_normal_stream', z3.IntSort(), z3.IntSort(), z3.RealSort())


@model(np.random.seed)
def _npseed(it, seed=None):
    if it.writes:
        raise Unsupported('seeding in a symbolic loop')
    seed = unopt(seed)
    r = P().root
    old = r.__dict__.get('rng')
    Q.journal(lambda: r.__dict__.__setitem__('rng', old))
    if seed is None:
        z = Q.fresh('entropy', z3.IntSort())
    else:
        z = S.num_z(seed)
        if z is None or z.sort() != z3.IntSort():
            raise Unsupported('seed')
        if not z3.is_int_value(z) and P().fork(z3.Or(z < 0, z >= 2 ** 32)):
            raise ValueError('Seed must be between 0 and 2**32 - 1')
    r.rng = (z, z3.IntVal(0))


@model(np.random.standard_normal, note='a stream of numbers determined by the seed, read in order')
def _npnormal(it, size=None):
    if it.writes:
        raise Unsupported('draws in a symbolic loop')
    r = P().root
    old = r.__dict__.get('rng')
    Q.journal(lambda: r.__dict__.__setitem__('rng', old))
    z, at = old if old is not None else (Q.fresh('entropy', z3.IntSort()), z3.IntVal(0))
    size = unopt(size)
    sh = () if size is None else tuple(unopt(x) for x in it.iterate(size)) if isinstance(size, (tuple, list)) else (size,)
    dims = [S.num_z(x) for x in sh]
    total = z3.IntVal(1)
    for d in dims:
        total = z3.simplify(total * d)
    r.rng = (z, z3.simplify(at + total))
    if not any(isinstance(x, Sym) for x in sh):
        out = np.empty(sh, dtype=object)
        for j, ix in enumerate(np.ndindex(*sh)):
            out[ix] = SReal(STREAM(z, z3.simplify(at + j)))
        it.note_new(out)
        return out if sh else out[()]
    n = dims[-1]
    if len(sh) == 1:
        res = SArr(SSeq(n, lambda i: SReal(STREAM(z, z3.simplify(at + i)))))
    elif len(sh) == 2 and not isinstance(sh[0], Sym):
        res = SMat([SSeq(n, lambda i, r=r: SReal(STREAM(z, z3.simplify(at + r * n + i)))) for r in range(sh[0])])
    else:
        raise Unsupported('shape of draws')
    it.note_new(res)
    return res


SYMBOLIC_ARRAYS = [True]
for _n in ('zeros', 'ones', 'empty', 'eye', 'identity', 'full', 'zeros_like', 'ones_like'):
    _obj_fill(_n, getattr(np, _n))


def eigen_known(k, lam, v, w):
    P().root.__dict__.setdefault('eigen', []).append((k, lam, v, w))


def _same_array(a, b):
    return a.shape == b.shape and all(
        x is y or (num_z(x) is not None and num_z(y) is not None and S.norm(S.to_real(num_z(x))).eq(S.norm(S.to_real(num_z(y)))))
        for x, y in zip(a.flat, b.flat))


@model(np.linalg.eig, note='eigenvalues and eigenvectors: the decomposition the goal names for this matrix, otherwise unsupported')
def _npeig(it, a):
    a = nparray(it, a) if isinstance(a, (list, tuple)) else a
    if a.dtype != object:
        return np.linalg.eig(a)
    for k, lam, v, w in P().root.__dict__.get('eigen', []):
        if _same_array(a, k):
            return lam.copy(), v.copy()
    raise Unsupported('eigenvalues of a symbolic matrix')


@model(np.linalg.inv, note='exact inverse of 1x1 and 2x2 matrices, LinAlgError when singular')
def _npinv(it, a):
    a = nparray(it, a) if isinstance(a, (list, tuple)) else a
    if a.dtype != object:
        return np.linalg.inv(a)
    for k, lam, v, w in P().root.__dict__.get('eigen', []):
        if _same_array(a, v):
            return w.copy()
    if a.shape == (1, 1):
        return _objarr([[1 / a[0, 0]]])
    if a.shape == (2, 2):
        det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        det = det if isinstance(det, Sym) else SReal(S.real_val(det))
        if not S.known_nonzero(det.z) and P().fork(det.z == 0):
            raise np.linalg.LinAlgError('Singular matrix')
        return _objarr([[a[1, 1] / det, -a[0, 1] / det], [-a[1, 0] / det, a[0, 0] / det]])
    raise Unsupported('inverse of a larger matrix')


@model(np.linalg.solve, note='exact solution of 1x1 and 2x2 systems, LinAlgError when singular')
def _npsolve(it, a, b):
    a = nparray(it, a) if isinstance(a, (list, tuple)) else a
    b = nparray(it, b) if isinstance(b, (list, tuple)) else b
    if a.dtype != object and b.dtype != object:
        return np.linalg.solve(a, b)
    return np.dot(_npinv(it, a.astype(object)), b.astype(object))




@model(np.linalg.cholesky, note='exact lower Cholesky factor, LinAlgError when not positive definite')
def _npchol(it, a):
    a = nparray(it, a) if isinstance(a, (list, tuple)) else a
    if a.dtype != object or not it.has_sym(list(a.flat)) or not any(isinstance(x, Sym) for x in a.flat):
        return np.linalg.cholesky(a.astype(float)).astype(object)
    n = a.shape[0]
    L = np.zeros((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j] - sum((L[i, k] * L[j, k] for k in range(j)), 0)
            if i == j:
                z = S.to_real(num_z(s))
                if not P().known(z > 0) and not P().fork(z > 0):
                    raise np.linalg.LinAlgError('Matrix is not positive definite')
                L[i, j] = S.s_sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return L


import scipy.optimize


@model(scipy.optimize.root, note='the x it returns is a zero of the function (success is assumed)')
def _root(it, fun, x0, args=(), **k):
    x0 = nparray(it, x0)
    x = np.empty(x0.shape if x0.shape else (1,), dtype=object)
    for i in range(x.size):
        x.flat[i] = SReal(z3.FreshReal('root'))
    r = it.call(fun, (x,) + tuple(args))
    if isinstance(r, SArr):
        raise Unsupported('root of a vector of symbolic length')
    r = nparray(it, r)
    P().root.abstract.append('scipy.optimize.root')
    for v in (r.flat if isinstance(r, np.ndarray) else [r]):
        P().fact(S.to_real(num_z(unopt(v))) == 0)
    return {'x': x, 'success': True, 'fun': r}


def _minimum_constraints(it, constraints, bounds, x):
    """the constraints at x, as formulas"""
    out = []
    cs = [constraints] if isinstance(constraints, dict) else list(it.iterate(constraints)) if constraints is not None else []
    for c in cs:
        if not isinstance(c, dict) or c.get('type') not in ('eq', 'ineq'):
            raise Unsupported('form of a constraint')
        r = it.call(c['fun'], (x,) + tuple(c.get('args', ())))
        for v in (r.flat if isinstance(r, np.ndarray) else [r]):
            z = S.to_real(num_z(unopt(v)))
            out.append(z == 0 if c['type'] == 'eq' else z >= 0)
    bs = list(it.iterate(bounds)) if bounds is not None else [(None, None)] * x.size
    if len(bs) != x.size:
        raise ValueError('The number of bounds is not compatible with the length of `x0`.')
    for v, (lo, hi) in zip(x.flat, bs):
        for b, f in ((lo, lambda a, c: a >= c), (hi, lambda a, c: a <= c)):
            if b is not None and (isinstance(b, Sym) or not math.isinf(b)):
                out.append(f(S.to_real(num_z(v)), S.to_real(num_z(b))))
    return out


def _gradient(it, fun, x, args):
    from contracts.duals import Dual
    out = []
    for i in range(x.size):
        at = np.empty((x.size,), dtype=object)
        for j in range(x.size):
            at[j] = Dual(x[j], int(i == j))
        r = it.call(fun, (at,) + args)
        r = r.flat[0] if isinstance(r, np.ndarray) else r
        out.append(r.d if isinstance(r, Dual) else 0)
    return out


@model(scipy.optimize.minimize, note='provided that jac is the gradient of fun (shown by exact differentiation), the x it returns meets the '
                                     'constraints and bounds, and fun is no smaller where they are met (success is assumed)')
def _minimize(it, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), **k):
    from .prove import rational_identity
    x0 = nparray(it, x0)
    if not isinstance(x0, np.ndarray) or x0.ndim != 1:
        raise Unsupported('minimisation from other than a vector')
    args = tuple(args)
    x = np.empty(x0.shape, dtype=object)
    for i in range(x.size):
        x[i] = SReal(z3.FreshReal('minimum'))
    P().root.abstract.append('scipy.optimize.minimize')
    right = True
    if jac is not None:
        if not callable(jac) and not hasattr(jac, 'node'):
            raise Unsupported('gradient by differences or from fun')
        given = it.call(jac, (x,) + args)
        given = list(given.flat) if isinstance(given, np.ndarray) else [given]
        want = _gradient(it, fun, x, args)
        right = len(given) == len(want) and all(rational_identity(S.to_real(num_z(unopt(a))), S.to_real(num_z(unopt(b))))
                                                for a, b in zip(given, want))
    r = {'x': x, 'success': True}
    if right:
        for f in _minimum_constraints(it, constraints, bounds, x):
            P().fact(f)
        value = it.call(fun, (x,) + args)
        r['fun'] = value
        P().root.__dict__.setdefault('minimised', []).append((fun, args, constraints, bounds, x, value))
    return Answer(r)


class Answer(dict):
    """a result whose fields are items and attributes"""
    def __getattr__(self, name):
        try:
            return self[name]
        except KeyError:
            raise AttributeError(name) from None


def at_minimum(it, y):
    """what the minimisations so far say about y"""
    for fun, args, constraints, bounds, x, value in P().root.__dict__.get('minimised', []):
        if y.size == x.size:
            c = _minimum_constraints(it, constraints, bounds, y)
            v = it.call(fun, (y,) + args)
            P().fact(z3.Implies(z3.And(*c), S.to_real(num_z(value)) <= S.to_real(num_z(v))))


import pandas as pd


PANDAS = (_dt.date(1677, 9, 22).toordinal(), _dt.date(2262, 4, 11).toordinal())


class SDays:
    """a daily date index"""
    def __init__(self, seq):
        self.seq = seq

    @property
    def date(self):
        return SArr(self.seq)


@model(pd.date_range, note='every day from the start to the end, both included')
def _date_range(it, start=None, end=None, periods=None, freq=None, **k):
    start, end = unopt(start), unopt(end)
    if not isinstance(start, Sym) and not isinstance(end, Sym):
        return pd.date_range(start=start, end=end, periods=periods, freq=freq, **k)
    if periods is not None or freq not in (None, 'D') or k or isinstance(start, S.SDateTime) or isinstance(end, S.SDateTime):
        raise Unsupported('date_range with other options')
    a, b = S.lift_date(start).o, S.lift_date(end).o
    for d in (a, b):
        inside = z3.And(d >= PANDAS[0], d <= PANDAS[1])
        if not P().known(inside) and P().fork(z3.Not(inside)):
            raise pd.errors.OutOfBoundsDatetime('out of bounds nanosecond timestamp')
    return SDays(SSeq(z3.If(b >= a, b - a + 1, z3.IntVal(0)), lambda i: S.SDate(a + i)))


import scipy.interpolate


class SInterp(Sym):
    """interp1d over knots of symbolic number; kinds other than linear and previous are only known at the knots"""
    def __init__(self, x, y, kind, n):
        self.x, self.y, self.kind, self.n = x, y, kind, n
        self.f = z3.Function(P().fresh_name('spline'), z3.RealSort(), z3.RealSort())

    @property
    def z(self):
        raise Unsupported('interpolator used as a number')

    def xz(self, i):
        r = S.to_real(num_z(unopt(self.x.get(i))))
        Q.touch_inputs([r])
        return r

    def yz(self, i):
        return S.to_real(num_z(unopt(self.y.get(i))))

    def places(self):
        """indices at which the knots have been looked at"""
        p, out = P(), []
        for i in [i for i in p.root.__dict__.get('indices', {}).values() if not Q.retired(i)][-16:]:
            if any(i.eq(o) for o in out):
                continue
            if p.known(z3.And(i >= 0, i < self.n)):
                out.append(i)
        return out

    def __call__(self, v):
        if isinstance(v, (SArr, SList, list, SSeq)):
            s = seqlike(INTERP, v)
            return SArr(Q.as_seq(s).map(self.at)) if not isinstance(s, list) else _objarr([self.at(u) for u in s])
        if isinstance(v, np.ndarray):
            return _objarr([self.at(u) for u in v.flat]).reshape(v.shape)
        return self.at(v)

    def at(self, v):
        p, n = P(), self.n
        vz = S.to_real(num_z(unopt(v)))
        Q.touch_inputs([vz])
        for c in self.places():
            if p.known(vz == self.xz(c)):
                return unopt(self.y.get(c))
        if not p.known(vz >= self.xz(z3.IntVal(0))) and p.fork(vz < self.xz(z3.IntVal(0))):
            raise ValueError('A value in x_new is below the interpolation range.')
        last = z3.simplify(n - 1)
        if not p.known(vz <= self.xz(last)) and p.fork(vz > self.xz(last)):
            raise ValueError('A value in x_new is above the interpolation range.')
        if self.kind not in ('linear', 'previous'):
            return SReal(self.f(vz))
        k = Q.fresh('seg', z3.IntSort())
        nxt = z3.simplify(k + 1)
        p.fact(z3.And(k >= 0, k < n, self.xz(k) <= vz, z3.Implies(k < n - 1, vz < self.xz(nxt))))
        p.fact(z3.Implies(k == n - 1, vz == self.xz(last)))
        for c in self.places():
            if not c.eq(k) and p.known(c == k):
                k, nxt = c, z3.simplify(c + 1)
                break
        if self.kind == 'previous' or p.fork(vz == self.xz(k)):
            return unopt(self.y.get(k))
        p.fact(k < n - 1)
        y0, x0, y1, x1 = self.yz(k), self.xz(k), self.yz(nxt), self.xz(nxt)
        return SReal(y0 + (y1 - y0) * ((vz - x0) / (x1 - x0)))


@model(scipy.interpolate.interp1d,
       note='through the knots; linear between them, or the knot before; ValueError outside (positions strictly increasing)')
def _interp1d(it, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
    if not assume_sorted or bounds_error is False or fill_value is not None:
        raise Unsupported('interp1d with other options')
    x, y = [Q.as_seq(seqlike(it, v)) for v in (x, y)]
    p = P()
    n = x.n
    if not p.known(y.n == n) and p.fork(y.n != n):
        raise ValueError('x and y arrays must be equal in length along interpolation axis.')
    least = {'linear': 1, 'previous': 1, 'quadratic': 3, 'cubic': 4}.get(kind)
    if least is None:
        raise Unsupported('this kind of interpolation')
    if not p.known(n >= least) and p.fork(n < least):
        raise ValueError('too few knots')
    r = SInterp(x, y, kind, n)
    j = z3.FreshInt('j')
    was = getattr(p, 'nofork', False)
    p.nofork = True
    try:
        a, b = r.xz(j), r.xz(z3.simplify(j + 1))
        Q.touch_inputs([a, b])
        ok = p.known(z3.Implies(z3.And(j >= 0, j < n - 1), a < b))
    finally:
        p.nofork = was
        Q.retire(j)
    if not ok:
        raise Unsupported('interpolation between positions that are not known to increase')
    return r


INTERP = None


class _Keys(dict):
    pass


def make_interp(contracts=None):
    global INTERP
    it = Interp(MODELS, contracts or {})
    it.SDict = SDict
    INTERP = it
    return it
