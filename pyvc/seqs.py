"""Symbolic sequences, definitions (sums, products, trajectories, counts, permutations) and generic scopes."""
from __future__ import annotations
import datetime as _dt
import dataclasses
import enum
import numbers
import z3
import numpy as np
from . import sym as S
from .sym import (CTX, P, Path, Sym, SInt, SReal, SBool, SDate, SDateTime, SDelta, Unsupported, Infeasible, EngineSignal,
                  num_z, to_real, bool_z, alternatives, is_num, lift_date, lift_dt, wrap)


# ---------------------------------------------------------------------------------------------
# undo journal

UNDO = []


def journal(f):
    UNDO.append(f)


def rollback(mark):
    while len(UNDO) > mark:
        UNDO.pop()()


# ---------------------------------------------------------------------------------------------
# flattening of values into z3 leaves

class SOpt(Sym):
    """None when flag holds, otherwise val"""
    def __init__(self, flag, val):
        self.flag, self.val = flag, val

    def resolve(self):
        return None if P().fork(self.flag) else self.val

    def __repr__(self):
        return f'<opt {self.flag} {self.val!r}>'


def unopt(v):
    while isinstance(v, SOpt):
        v = v.resolve()
    return v


def flatten(v, leaves):
    """skeleton of v; z3 leaves are appended to `leaves`."""
    if isinstance(v, (bool, SBool, np.bool_)):
        leaves.append(bool_z(v)); return 'bool'
    if isinstance(v, (SInt, SReal)) or (isinstance(v, numbers.Number) and not isinstance(v, complex)):
        z = num_z(v)
        leaves.append(z)
        return 'int' if z.sort() == z3.IntSort() else 'real'
    if isinstance(v, (SDateTime, _dt.datetime)):
        leaves.append(lift_dt(v).t); return 'datetime'
    if isinstance(v, (SDate, _dt.date)):
        leaves.append(lift_date(v).o); return 'date'
    if isinstance(v, SDelta):
        leaves.append(v.us); return 'delta'
    if isinstance(v, _dt.timedelta):
        leaves.append(z3.IntVal(S.td_us(v))); return 'delta'
    if v is None:
        return None
    if isinstance(v, SOpt):
        leaves.append(v.flag)
        return ('opt', flatten(v.val, leaves))
    if isinstance(v, tuple):
        return ('tuple', type(v), tuple(flatten(x, leaves) for x in v))
    if isinstance(v, SSeq) or (isinstance(v, SList) and v.sym is not None):
        return ('seq', v)
    if isinstance(v, list):
        return ('list', tuple(flatten(x, leaves) for x in v))
    if isinstance(v, np.ndarray):
        return ('array', v.shape, tuple(flatten(x, leaves) for x in v.flat))
    if isinstance(v, enum.Enum) or isinstance(v, (str, type)):
        return ('const', v)
    if isinstance(v, S.STenor):
        leaves.append(num_z(v.n)); return ('tenor', v.unit)
    if isinstance(v, S.SRelDelta):
        rd = v.rd
        leaves.extend([num_z(rd.months), num_z(rd.days), num_z(rd.us)])
        return ('rd', rd.day)
    if is_record(v):
        for n, x in enumerate(reversed(FLATTENING)):
            if x is v:
                return ('back', n)
        FLATTENING.append(v)
        try:
            return ('rec', _Id(record_shell(v)), tuple((n, flatten(x, leaves)) for n, x in record_parts(v)), _Any(v))
        finally:
            FLATTENING.pop()
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return ('dc', type(v), tuple((f.name, flatten(getattr(v, f.name), leaves)) for f in dataclasses.fields(v)))
    return ('obj', _Id(v))


# Objects created for a generic element (in a comprehension or loop over a sequence of symbolic length) are kept as records:
# their attributes at the end of that element's execution, copied and substituted whenever an element is looked at. Such copies
# must not be changed or compared by identity afterwards (raw_setattr and compare refuse to).

import functools
import types

FLATTENING, BUILDING, SUBSTITUTING = [], [], []     # records being worked on: they may refer to themselves
CREATED = []        # objects created by the interpreted program, in order


def is_record(v):
    r = CTX.path
    return r is not None and id(v) in r.root.__dict__.setdefault('records', {})


def make_record(v):
    P().root.__dict__.setdefault('records', {})[id(v)] = v
    return v


def record_shell(v):
    """what two records must share to be merged"""
    if isinstance(v, (types.MethodType,)):
        return v.__func__
    if isinstance(v, functools.partial):
        return v.func
    if hasattr(v, 'record_shell'):
        return v.record_shell()
    return type(v)


def record_parts(v):
    if isinstance(v, types.MethodType):
        return [('self', v.__self__)]
    if isinstance(v, functools.partial):
        return [(i, x) for i, x in enumerate(v.args)] + list(v.keywords.items())
    if hasattr(v, 'record_parts'):
        return v.record_parts()
    if isinstance(v, dict):
        return list(v.items())
    return list(v.__dict__.items())


def record_new(v):
    """a plain object to be filled in later, so that its parts can refer to it"""
    plain = not (isinstance(v, (types.MethodType, functools.partial, dict)) or hasattr(v, 'record_build'))
    return make_record(object.__new__(type(v))) if plain else None


def record_build(v, parts, r=None):
    """another record of the same kind"""
    if isinstance(v, types.MethodType):
        r = types.MethodType(v.__func__, parts[0][1])
    elif isinstance(v, functools.partial):
        r = functools.partial(v.func, *[x for k, x in parts if isinstance(k, int)], **{k: x for k, x in parts if isinstance(k, str)})
    elif hasattr(v, 'record_build'):
        r = v.record_build(parts)
    elif isinstance(v, dict):
        r = type(v)(parts)
    else:
        r = object.__new__(type(v)) if r is None else r
        for n, x in parts:
            r.__dict__[n] = x
    for _, x in parts:
        if isinstance(x, SList):
            x.frozen = True
    return make_record(r)


def snapshot(v, created, memo=None):
    """a value with the objects created in this scope replaced by records"""
    memo = {} if memo is None else memo
    if isinstance(v, S.EngineSignal) or isinstance(v, (type, enum.Enum, numbers.Number, str)) or v is None:
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, tuple):
        vals = [snapshot(x, created, memo) for x in v]
        if all(x is y for x, y in zip(vals, v)):
            return v
        return type(v)(*vals) if hasattr(v, '_fields') else tuple(vals)
    if type(v) is list or (type(v) is dict and id(v) not in created):
        if type(v) is list:
            return [snapshot(x, created, memo) for x in v]
        return {k: snapshot(x, created, memo) for k, x in v.items()}
    if isinstance(v, SList) and v.sym is None and v.rec is None and id(v) in created:
        r = SList([snapshot(x, created, memo) for x in v.items()])
        memo[id(v)] = (v, r)
        return r
    if isinstance(v, SOpt):
        return v
    if dataclasses.is_dataclass(v) and not is_record(v) and id(v) in created:
        r = object.__new__(type(v))
        for n, x in v.__dict__.items():
            object.__setattr__(r, n, snapshot(x, created, memo))
        memo[id(v)] = (v, r)
        return r
    ours = id(v) in created and not isinstance(v, (list, Sym)) and (hasattr(v, '__dict__') or isinstance(v, dict))
    if hasattr(v, 'record_scoped'):
        ours = v.record_scoped(created)
    elif isinstance(v, types.MethodType):
        ours = snapshot(v.__self__, created, memo) is not v.__self__
    elif isinstance(v, functools.partial):
        ours = any(snapshot(x, created, memo) is not x for _, x in record_parts(v))
    if not ours or is_record(v):
        return v
    for x, r in memo.setdefault('active', []):
        if x is v:
            if r is None:
                raise Unsupported('a function created for an element of a sequence that refers to itself')
            return r
    r = record_new(v)
    memo['active'].append((v, r))
    try:
        r = record_build(v, [(n, snapshot(x, created, memo)) for n, x in record_parts(v)], r)
    finally:
        memo['active'].pop()
    memo[id(v)] = (v, r)
    return r


class _Any:
    """carried along, equal to any other"""
    def __init__(self, o):
        self.o = o

    def __eq__(self, other):
        return isinstance(other, _Any)

    def __hash__(self):
        return 0


class _Id:
    def __init__(self, o):
        self.o = o

    def __eq__(self, other):
        return isinstance(other, _Id) and other.o is self.o

    def __hash__(self):
        return id(self.o)


def unflatten(sk, it):
    if sk == 'bool':
        return _simp_bool(next(it))
    if sk == 'int':
        return SInt(next(it))
    if sk == 'real':
        return SReal(next(it))
    if sk == 'datetime':
        return SDateTime(next(it))
    if sk == 'date':
        return SDate(next(it))
    if sk == 'delta':
        return SDelta(next(it))
    if sk is None:
        return None
    k = sk[0]
    if k == 'opt':
        f = z3.simplify(next(it))
        v = unflatten(sk[1], it)
        if z3.is_false(f):
            return v
        if z3.is_true(f):
            return None
        return SOpt(f, v)
    if k == 'tuple':
        vals = [unflatten(s, it) for s in sk[2]]
        t = sk[1]
        return t(*vals) if hasattr(t, '_fields') else tuple(vals)
    if k == 'seq':
        return sk[1]
    if k == 'list':
        return SList([unflatten(s, it) for s in sk[1]])
    if k == 'array':
        out = np.empty(len(sk[2]), dtype=object)
        for i, s in enumerate(sk[2]):
            out[i] = unflatten(s, it)
        return out.reshape(sk[1])
    if k == 'const':
        return sk[1]
    if k == 'tenor':
        return S.STenor(SInt(next(it)), sk[1])
    if k == 'rd':
        return S.SRelDelta(S.RD(SInt(next(it)), sk[1], SInt(next(it)), SInt(next(it))))
    if k == 'dc':
        o = object.__new__(sk[1])
        for n, s in sk[2]:
            object.__setattr__(o, n, unflatten(s, it))
        return o
    if k == 'obj':
        return sk[1].o
    if k == 'rec':
        r = record_new(sk[3].o)
        BUILDING.append(r)
        try:
            return record_build(sk[3].o, [(n, unflatten(x, it)) for n, x in sk[2]], r)
        finally:
            BUILDING.pop()
    if k == 'back':
        if BUILDING[-1 - sk[1]] is None:
            raise Unsupported('a function created for an element of a sequence that refers to itself')
        return BUILDING[-1 - sk[1]]
    raise Unsupported(f'unflatten {sk}')


def _simp_bool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def unify(sa, la, sb, lb):
    """common skeleton of two values with the leaf lists rewritten, or raise Unsupported"""
    ia, ib = iter(la), iter(lb)
    oa, ob = [], []

    def count(sk):
        n = []
        _count(sk, n)
        return len(n)

    def go(x, y):
        if x in ('int', 'real', 'bool') and y in ('int', 'real', 'bool') and x != y:
            a, b = next(ia), next(ib)
            if x == 'bool':
                a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if y == 'bool':
                b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            if 'real' in (x, y):
                oa.append(to_real(a)); ob.append(to_real(b)); return 'real'
            oa.append(a); ob.append(b); return 'int'
        if isinstance(x, str) or isinstance(y, str):
            if x == y:
                oa.append(next(ia)); ob.append(next(ib)); return x
        if x is None and y is None:
            return None
        ox = isinstance(x, tuple) and x[0] == 'opt'
        oy = isinstance(y, tuple) and y[0] == 'opt'
        if ox or oy or x is None or y is None:
            fa = next(ia) if ox else z3.BoolVal(x is None)
            fb = next(ib) if oy else z3.BoolVal(y is None)
            oa.append(fa); ob.append(fb)
            xi = x[1] if ox else x
            yi = y[1] if oy else y
            if xi is None and yi is None:
                return ('opt', None)
            if xi is None:
                n = count(yi)
                vals = [next(ib) for _ in range(n)]
                ob.extend(vals); oa.extend(vals)
                return ('opt', yi)
            if yi is None:
                n = count(xi)
                vals = [next(ia) for _ in range(n)]
                oa.extend(vals); ob.extend(vals)
                return ('opt', xi)
            return ('opt', go(xi, yi))
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
            k = x[0]
            if k == 'tuple' and x[1] == y[1] and len(x[2]) == len(y[2]):
                return ('tuple', x[1], tuple(go(a, b) for a, b in zip(x[2], y[2])))
            if k == 'list' and len(x[1]) == len(y[1]):
                return ('list', tuple(go(a, b) for a, b in zip(x[1], y[1])))
            if k == 'array' and x[1] == y[1]:
                return ('array', x[1], tuple(go(a, b) for a, b in zip(x[2], y[2])))
            if k == 'dc' and x[1] == y[1]:
                return ('dc', x[1], tuple((n, go(a, b)) for (n, a), (_, b) in zip(x[2], y[2])))
            if k == 'rec' and x[1] == y[1] and [n for n, _ in x[2]] == [n for n, _ in y[2]]:
                return ('rec', x[1], tuple((n, go(a, b)) for (n, a), (_, b) in zip(x[2], y[2])), x[3])
            if k in ('const', 'obj', 'tenor', 'rd', 'seq', 'back') and x == y:
                for _ in range(count(x)):
                    oa.append(next(ia)); ob.append(next(ib))
                return x
        raise Unsupported(f'cannot merge {x} with {y}')
    sk = go(sa, sb)
    return sk, oa, ob


def _count(sk, n):
    if sk in ('bool', 'int', 'real', 'date', 'datetime', 'delta'):
        n.append(1)
    elif isinstance(sk, tuple):
        k = sk[0]
        if k == 'opt':
            n.append(1); _count(sk[1], n)
        elif k in ('tuple', 'array'):
            for s in sk[2]:
                _count(s, n)
        elif k == 'list':
            for s in sk[1]:
                _count(s, n)
        elif k in ('dc', 'rec'):
            for _, s in sk[2]:
                _count(s, n)
        elif k == 'tenor':
            n.append(1)
        elif k == 'rd':
            n.extend([1, 1, 1])


def ite(c, a, b):
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    la, lb = [], []
    sa, sb = flatten(a, la), flatten(b, lb)
    if sa == sb and all(x.eq(y) for x, y in zip(la, lb)) and len(la) == len(lb):
        return a
    seq = (SSeq,)
    if (isinstance(a, seq) or isinstance(a, list)) and (isinstance(b, seq) or isinstance(b, list)) and sa != sb:
        try:
            sk, la, lb = unify(sa, la, sb, lb)
        except Unsupported:
            A, B = as_seq(a), as_seq(b)
            r = SSeq(z3.simplify(z3.If(c, A.n, B.n)), lambda i: ite(c, A.get(i), B.get(i)))
            return SList.of(r)
    else:
        sk, la, lb = unify(sa, la, sb, lb)
    out = [z3.simplify(z3.If(c, x, y)) if not x.eq(y) else x for x, y in zip(la, lb)]
    return unflatten(sk, iter(out))


S.ite = ite


def subst(v, pairs):
    """substitute z3 constants inside a value"""
    if isinstance(v, (SSeq, SList)) or hasattr(v, 'pyvc_subst'):
        if isinstance(v, SList) and v.sym is None:
            return SList([subst(x, pairs) for x in list.__iter__(v)])
        if isinstance(v, SList):
            return SList.of(v.sym.pyvc_subst(pairs))
        return v.pyvc_subst(pairs)
    if isinstance(v, tuple):
        vals = [subst(x, pairs) for x in v]
        return type(v)(*vals) if hasattr(v, '_fields') else tuple(vals)
    if is_record(v):
        for x, r in SUBSTITUTING:
            if x is v:
                if r is None:
                    raise Unsupported('a function created for an element of a sequence that refers to itself')
                return r
        r = record_new(v)
        SUBSTITUTING.append((v, r))
        try:
            return record_build(v, [(n, subst(x, pairs)) for n, x in record_parts(v)], r)
        finally:
            SUBSTITUTING.pop()
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        o = object.__new__(type(v))
        for n, x in v.__dict__.items():
            object.__setattr__(o, n, subst(x, pairs))
        return o
    leaves = []
    sk = flatten(v, leaves)
    if not leaves:
        return v
    out = [z3.substitute(x, *pairs) for x in leaves]
    return unflatten(sk, iter(out))


# ---------------------------------------------------------------------------------------------
# sequences

class SSeq(Sym):
    """symbolic-length immutable sequence: n (z3 Int), get(z3 Int) -> value"""
    def __init__(self, n, get, meta=None):
        self.n = z3.simplify(n) if not isinstance(n, int) else z3.IntVal(n)
        self._get = get
        self.meta = meta or {}
        self._cache = {}

    def get(self, i):
        i = z3.simplify(i) if not isinstance(i, int) else z3.IntVal(i)
        path = CTX.path
        note_index(i)
        return self._get(i)

    @property
    def z(self):
        raise Unsupported('symbolic sequence used as a scalar')

    def __len__(self):
        n = z3.simplify(self.n)
        if z3.is_int_value(n):
            return n.as_long()
        raise Unsupported('native len of a symbolic sequence')

    def __iter__(self):
        n = z3.simplify(self.n)
        if z3.is_int_value(n) and n.as_long() <= 64:
            return iter([self.get(z3.IntVal(i)) for i in range(n.as_long())])
        raise Unsupported('native iteration over a symbolic sequence')

    def __bool__(self):
        return P().fork(self.n > 0)

    def __repr__(self):
        return f'<seq n={self.n}>'

    def index_z(self, i):
        """z3 index of a Python index (negative counts from the end); forks to IndexError"""
        zi = num_z(i)
        if zi is None or zi.sort() != z3.IntSort():
            raise Unsupported('sequence index')
        zi = z3.simplify(zi)
        p = P()
        if z3.is_int_value(zi):
            if zi.as_long() < 0:
                zi = z3.simplify(self.n + zi)
                if not p.known(zi >= 0) and not p.fork(zi >= 0):
                    raise IndexError('list index out of range')
                return zi
        elif not p.known(zi >= 0):
            if p.fork(zi < 0):
                zi = z3.simplify(self.n + zi)
                if not p.known(zi >= 0) and not p.fork(zi >= 0):
                    raise IndexError('list index out of range')
                return zi
        if not p.known(zi < self.n) and not p.fork(zi < self.n):
            raise IndexError('list index out of range')
        return zi

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        return self.get(self.index_z(i))

    def slice(self, s):
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                return SSeq(self.n, lambda i: self.get(self.n - 1 - i), {'rev': self})
            raise Unsupported('slice with a step')

        def bound(b, default):
            if b is None:
                return default
            zb = num_z(b)
            p = P()
            zb = z3.simplify(zb)
            if z3.is_int_value(zb) and zb.as_long() < 0 or (not z3.is_int_value(zb) and not p.known(zb >= 0)
                                                           and p.fork(zb < 0)):
                zb = self.n + zb
                return z3.simplify(z3.If(zb < 0, z3.IntVal(0), zb))
            return z3.simplify(z3.If(zb > self.n, self.n, zb))
        lo, hi = bound(s.start, z3.IntVal(0)), bound(s.stop, self.n)
        n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        return SSeq(n, lambda i: self.get(lo + i))

    def map(self, f):
        return SSeq(self.n, lambda i: f(self.get(i)))

    def pyvc_subst(self, pairs):
        return SSeq(z3.substitute(self.n, *pairs), lambda i: self._subst_get(i, pairs))

    def _subst_get(self, i, pairs):
        # evaluate at a fresh index, substitute, then put the index in (the index may mention the same constants)
        k = z3.FreshInt('ix')
        v = subst(self._get(k), pairs)
        return subst(v, [(k, i)])

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('comparison of symbolic sequences')

    def __hash__(self):
        return id(self)


def note_index(i):
    p = CTX.path
    if p is None:
        return
    r = p.root
    ix = r.__dict__.setdefault('indices', {})
    if i.get_id() not in ix:
        ix[i.get_id()] = i


class Poison(Sym):
    def _no(self, *a, **k):
        raise Unsupported('native use of a symbolic list')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __iter__ = __len__ = __getitem__ = _no
    __getattr__ = None

    def __getattribute__(self, n):
        if n.startswith('__') and n in ('__class__', '__dict__'):
            return object.__getattribute__(self, n)
        raise Unsupported('native use of a symbolic list')
    __hash__ = None


POISON = Poison()


class SList(list):
    """list object of the interpreted program; `sym` holds a symbolic sequence when the length is symbolic"""
    def __init__(self, items=()):
        list.__init__(self, items)
        self.sym = None
        self.rec = None          # recording mode inside a generic iteration

    @staticmethod
    def of(seq):
        if isinstance(seq, SSeq) and z3.is_int_value(z3.simplify(seq.n)) and z3.simplify(seq.n).as_long() <= 32:
            return SList([seq.get(z3.IntVal(i)) for i in range(z3.simplify(seq.n).as_long())])
        r = SList()
        if isinstance(seq, SSeq):
            r.sym = seq
            list.append(r, POISON)
        else:
            list.extend(r, seq)
        return r

    frozen = False

    def _set(self, sym, items):
        if self.frozen:
            raise Unsupported('change of a list that belongs to an element of a sequence')
        old = (self.sym, list(list.__iter__(self)), self.rec)

        def undo():
            self.sym, self.rec = old[0], old[2]
            list.__setitem__(self, slice(None), old[1])
        journal(undo)
        self.sym = sym
        list.__setitem__(self, slice(None), [POISON] if sym is not None else items)

    def items(self):
        return list(list.__iter__(self))

    def append(self, x):
        if self.rec is not None:
            self.rec.append(x)
            return
        if self.sym is not None:
            s = self.sym
            self._set(SSeq(s.n + 1, lambda i: _app_get(s, i, x)), None)
        else:
            if self.frozen:
                raise Unsupported('change of a list that belongs to an element of a sequence')
            journal(lambda: list.pop(self))
            list.append(self, x)

    def _conc(self, what):
        if self.sym is not None or self.rec is not None:
            raise Unsupported(f'{what} on a symbolic list')

    def _save(self):
        self._set(None, self.items())

    def extend(self, it):
        if isinstance(it, (SSeq, SList)) and (self.sym is not None or (as_seq(it).n, 0) and _is_sym(it)):
            self._set(concat(as_seq(self), as_seq(it)), None)
            return
        self._conc('extend')
        self._save()
        list.extend(self, it)

    def insert(self, i, x):
        if self.sym is not None:
            s = self.sym
            zi = num_z(i)
            zi = z3.simplify(z3.If(zi < 0, z3.If(s.n + zi < 0, z3.IntVal(0), s.n + zi), z3.If(zi > s.n, s.n, zi)))
            self._set(SSeq(s.n + 1, lambda j: ite(j < zi, s.get(j), ite(j == zi, x, s.get(j - 1)))), None)
            return
        self._conc('insert')
        if isinstance(i, Sym):
            z = z3.simplify(num_z(i))
            if not z3.is_int_value(z):
                n = len(self)
                for c in range(-n, n + 1):
                    if P().fork(z == c):
                        i = c
                        break
                else:
                    i = n if P().fork(z > n) else -n
            else:
                i = z.as_long()
        self._save()
        list.insert(self, i, x)

    def pop(self, i=-1):
        if self.sym is not None:
            s = self.sym
            v = s[i]
            zi = s.index_z(i)
            if isinstance(i, int) and i == -1:
                self._set(SSeq(s.n - 1, s._get), None)
            else:
                self._set(SSeq(s.n - 1, lambda j: ite(j < zi, s.get(j), s.get(j + 1))), None)
            return v
        self._conc('pop')
        self._save()
        return list.pop(self, i)

    def reverse(self):
        if self.sym is not None:
            self._set(self.sym.slice(slice(None, None, -1)), None)
            return
        self._conc('reverse')
        self._save()
        list.reverse(self)

    def remove(self, x):
        self._conc('remove')
        self._save()
        list.remove(self, x)

    def clear(self):
        if self.rec is not None:
            raise Unsupported('clear')
        self._set(None, [])

    def index(self, x, *a):
        self._conc('index')
        return list.index(self, x, *a)

    def count(self, x):
        self._conc('count')
        return list.count(self, x)

    def copy(self):
        if self.sym is not None:
            return SList.of(self.sym)
        self._conc('copy')
        return SList(list.__iter__(self))

    def sort(self, key=None, reverse=False):
        if self.sym is not None:
            self._set(as_seq(sorted_seq(self.sym, key, reverse)), None)
            return
        self._conc('sort')
        self._set(None, sorted_concrete(self.items(), key, reverse))

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym)
        self._conc('iteration')
        return list.__iter__(self)

    def __reversed__(self):
        self._conc('reversed')
        return list.__reversed__(self)

    def __len__(self):
        if self.sym is not None:
            return len(self.sym)
        self._conc('len')
        return list.__len__(self)

    def __bool__(self):
        if self.sym is not None:
            return bool(self.sym)
        if self.rec is not None:
            return bool(self._lenval() > 0)
        return list.__len__(self) > 0

    def _lenval(self):
        """length inside a generic iteration"""
        return self.reclen() + len(self.rec)

    def __getitem__(self, i):
        if self.rec is not None:
            if isinstance(i, int) and i == -1:
                return self.rec[-1] if self.rec else self.reclast()
            raise Unsupported('reading a list while it is being built')
        if self.sym is not None:
            r = self.sym[i]
            return SList.of(r) if isinstance(i, slice) else r
        if isinstance(i, slice):
            return SList(list.__getitem__(self, i))
        if isinstance(i, Sym):
            z = z3.simplify(num_z(i))
            if not z3.is_int_value(z):
                return as_seq(self)[i]
            i = z.as_long()
        return list.__getitem__(self, i)

    def __setitem__(self, i, v):
        if self.rec is not None:
            raise Unsupported('list item assignment in a symbolic loop')
        if self.sym is not None:
            s = self.sym
            if isinstance(i, slice):
                raise Unsupported('slice assignment')
            zi = s.index_z(i)
            self._set(SSeq(s.n, lambda j: ite(j == zi, v, s.get(j))), None)
            return
        if isinstance(i, Sym):
            z = z3.simplify(num_z(i))
            if not z3.is_int_value(z):
                n = len(self)
                for c in range(-n, n):
                    if P().fork(z == c):
                        i = c
                        break
                else:
                    raise IndexError('list assignment index out of range')
            else:
                i = z.as_long()
        self._save()
        list.__setitem__(self, i, v)

    def __delitem__(self, i):
        self._conc('del')
        self._save()
        list.__delitem__(self, i)

    def __add__(self, o):
        if _is_sym(self) or _is_sym(o):
            return SList.of(concat(as_seq(self), as_seq(o)))
        return SList(self.items() + list(o))

    def __radd__(self, o):
        if _is_sym(self) or _is_sym(o):
            return SList.of(concat(as_seq(o), as_seq(self)))
        return SList(list(o) + self.items())

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        self._conc('repeat')
        if isinstance(k, Sym):
            if list.__len__(self) == 1:
                x = list.__getitem__(self, 0)
                return SList.of(SSeq(z3.If(num_z(k) > 0, num_z(k), z3.IntVal(0)), lambda i: x))
            raise Unsupported('list repetition')
        return SList(self.items() * k)

    __rmul__ = __mul__

    def __contains__(self, x):
        self._conc('contains')
        return list.__contains__(self, x)

    def __eq__(self, o):
        if _is_sym(self) or _is_sym(o):
            raise Unsupported('comparison of symbolic lists')
        return list.__eq__(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


def _app_get(s, i, x):
    p = P()
    if p.known(i == s.n):
        return x
    if p.known(i < s.n):
        return s.get(i)
    return ite(i == s.n, x, s.get(i))


def _is_sym(x):
    return isinstance(x, SSeq) or (isinstance(x, SList) and x.sym is not None)


def as_seq(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, SList):
        if x.sym is not None:
            return x.sym
        x._conc('sequence view')
        x = x.items()
    if isinstance(x, np.ndarray) and x.ndim >= 1:
        x = list(x)
    if isinstance(x, (list, tuple)):
        items = list(x)

        def get(i):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return items[i.as_long()]
            p = P()
            cands = [j for j in range(len(items))]
            if not cands:
                raise Unsupported('element of an empty list')
            r = items[cands[-1]]
            for j in reversed(cands[:-1]):
                r = ite(i == j, items[j], r)
            return r
        return SSeq(z3.IntVal(len(items)), get)
    raise Unsupported(f'not a sequence: {type(x).__name__}')


def concat(a, b):
    def get(i):
        p = P()
        za = z3.simplify(a.n)
        if z3.is_int_value(za) and za.as_long() == 0:
            return b.get(i)
        zb = z3.simplify(b.n)
        if z3.is_int_value(zb) and zb.as_long() == 0:
            return a.get(i)
        if p.known(i < a.n):
            return a.get(i)
        if p.known(i >= a.n):
            return b.get(z3.simplify(i - a.n))
        return ite(i < a.n, a.get(i), b.get(z3.simplify(i - a.n)))
    return SSeq(a.n + b.n, get)


class SFilt(Sym):
    """elements of seq for which keep holds, mapped: keep(i) -> z3 Bool, get(i) -> value"""
    def __init__(self, n, keep, get):
        self.n, self.keep, self.get = n, keep, get
        self._list = None

    def __iter__(self):
        raise Unsupported('iteration over a filtered symbolic sequence')

    def __bool__(self):
        return bool(any_def(self.n, lambda i: self.keep(i)))

    def pyvc_subst(self, pairs):
        raise Unsupported('substitution in a filtered sequence')


# ---------------------------------------------------------------------------------------------
# generic scopes

class Outcome:
    __slots__ = ('cond', 'facts', 'kind', 'value', 'extra')

    def __init__(self, cond, facts, kind, value, extra=None):
        self.cond, self.facts, self.kind, self.value, self.extra = cond, facts, kind, value, extra


def explore_local(run, facts=(), generic=None, max_paths=96):
    """Execute run() along every feasible path in a child scope; returns Outcomes. State changes are rolled back.
    `generic` is the list of z3 constants that are generic (universally quantified) in this scope."""
    outs = []
    stack = [[]]
    parent = P()
    npaths = 0
    old_params = CTX.params
    while stack:
        prefix = stack.pop()
        npaths += 1
        if npaths > max_paths:
            raise Unsupported('too many paths in a loop body')
        parent.solver.push()
        child = Path(prefix, parent=parent)
        child.generic = list(generic or [])
        mark = len(UNDO)
        ncreated = len(CREATED)
        CTX.path = child
        if generic:
            CTX.params = old_params + list(generic)
        res = None
        try:
            for f in facts:
                child.fact(f)
            nf = child.nbase = len(child.facts)
            try:
                v = run()
                created = {id(x) for x in CREATED[ncreated:]}
                res = ('ok', snapshot(v, created) if created else v)
            except Infeasible:
                res = None
            except EngineSignal:
                raise
            except Exception as e:
                res = ('raise', e)
        finally:
            CTX.path = parent
            CTX.params = old_params
            parent.solver.pop()
            rollback(mark)
        if res is not None:
            c = z3.And(*child.conds) if child.conds else z3.BoolVal(True)
            outs.append(Outcome(c, child.facts[nf:], res[0], res[1]))
        stack.extend(alternatives(child.taken, len(prefix)))
    if not outs:
        if facts and generic and parent.check(z3.BoolVal(True)) != z3.unsat:
            # an empty range: nothing is executed, and what its elements are does not matter
            return explore_local(run, (), generic, max_paths)
        raise Infeasible()
    return outs


def merge_values(outs, value):
    v = value(outs[-1])
    for o in reversed(outs[:-1]):
        v = ite(o.cond, value(o), v)
    return v


def scope_guard():
    """conditions and range facts of the generic scopes we are in"""
    gs = []
    p = CTX.path
    while p is not None and p.parent is not None:
        gs = p.facts[:getattr(p, 'nbase', len(p.facts))] + p.conds + gs
        p = p.parent
    return gs


def consts_in(z, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [z]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[t.get_id()] = t
        if z3.is_app(t):
            stack.extend(t.children())
    return acc


OTHER = {}


def mentions(z, c):
    """whether the constant c occurs in z (substitution is much faster than walking the term here)"""
    if z.eq(c):
        return True
    o = OTHER.get(c.sort().get_id())
    if o is None:
        o = OTHER[c.sort().get_id()] = z3.FreshConst(c.sort(), 'other')
    return not z3.substitute(z, (c, o)).eq(z)


class Template:
    """facts and a value at a generic index k in [0, n)"""
    def __init__(self, k, n, facts):
        self.k, self.n, self.facts = k, n, facts
        self.params = list(CTX.params)
        self.guard = scope_guard()

    def inst(self, t, pairs):
        """facts at index t with the outer generic constants replaced"""
        n = z3.substitute(self.n, *pairs) if pairs else self.n
        g = z3.And(t >= 0, t < n, *[z3.substitute(x, *pairs) if pairs else x for x in self.guard])
        # the index may mention the generic constants, so replace them first
        return [z3.Implies(g, z3.substitute(z3.substitute(f, *pairs) if pairs else f, (self.k, t))) for f in self.facts]

    def assume_at(self, t):
        """assume the body's facts at index t (in the current path)"""
        p = P()
        key = ('tmpl', id(self), t.get_id())
        p.root.keep.append((self, t))

        def fs():
            rng = z3.And(t >= 0, t < self.n)
            return [z3.Implies(rng, z3.substitute(f, (self.k, t))) for f in self.facts]
        p.axiom(key, fs)


def fresh(name, sort):
    """a fresh unknown; inside a generic scope it is a function of the generic indices"""
    p = P()
    nm = p.fresh_name(name)
    if not CTX.params:
        return z3.Const(nm, sort)
    return z3.Function(nm, *([z3.IntSort()] * len(CTX.params)), sort)(*CTX.params)


def generic_map(n, elem_at, body, name='i'):
    """values of body(elem_at(k)) for a generic k: returns (template, outcomes)"""
    k = z3.FreshInt(name)
    outs = explore_local(lambda: body(elem_at(k)), facts=[k >= 0, k < n], generic=[k])
    facts = []
    for o in outs:
        for f in o.facts:
            facts.append(z3.Implies(o.cond, f) if not z3.is_true(o.cond) else f)
    return Template(k, n, facts), outs


def raise_check(tmpl, outs):
    """outcomes that raise: fork on whether some index raises; returns the non-raising outcomes"""
    bad = [o for o in outs if o.kind == 'raise']
    if not bad:
        return outs
    good = [o for o in outs if o.kind != 'raise']
    p = P()
    k, n = tmpl.k, tmpl.n
    cond_bad = z3.Or(*[o.cond for o in bad])
    # first raising index
    M = fresh('exc', z3.IntSort())
    exists = z3.And(M >= 0, M < n, z3.substitute(cond_bad, (k, M)))
    flag = fresh('raises', z3.BoolSort())
    tmpl.facts.append(z3.Implies(z3.Not(flag), z3.Not(cond_bad)))
    if not CTX.params:
        p.root.qfacts.append((k, n, z3.Implies(z3.Not(flag), z3.Not(cond_bad)), tmpl))
    if p.fork(flag):
        p.fact(exists)
        tmpl.assume_at(M)
        if len(bad) == 1:
            raise bad[0].value
        for o in bad[:-1]:
            if p.fork(z3.substitute(o.cond, (k, M))):
                raise o.value
        raise bad[-1].value
    if not good:
        p.fact(n <= 0)
        if p.check(z3.BoolVal(True)) == z3.unsat:
            raise Infeasible()
    return good


# ---------------------------------------------------------------------------------------------
# definitions

class Def:
    def __init__(self, kind, fn, params, **kw):
        self.kind, self.fn, self.params = kind, fn, params
        self.__dict__.update(kw)

    def pairs(self, args):
        return list(zip(self.params, args))


def free_params(*zs):
    return [c for c in CTX.params if any(mentions(z, c) for z in zs)]


def canon(z, k):
    return z3.substitute(z, (k, z3.Int('%k')))


def _factor(z, k):
    """split z = c * rest with c free of k (syntactic)"""
    z = S.norm(z)
    if z3.is_mul(z):
        cs = [a for a in z.children() if not mentions(a, k)]
        rs = [a for a in z.children() if mentions(a, k)]
        if cs and rs:
            c = cs[0]
            for a in cs[1:]:
                c = c * a
            r = rs[0]
            for a in rs[1:]:
                r = r * a
            return c, r
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_UMINUS:
        c, r = _factor(z.arg(0), k)
        return (-c if c is not None else z3.RealVal(-1)), r
    if _is_ite(z) and _leading_minus(z):
        return z3.RealVal(-1), _negated(z)
    return None, z


def _cut(z, k):
    """a symbolic index c at which z changes: a condition c <= k of an if-then-else"""
    seen, todo = set(), [z]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if _is_ite(t):
            x = t.arg(0)
            c = x.arg(0) if z3.is_le(x) and x.arg(1).eq(k) else x.arg(1) if z3.is_ge(x) and x.arg(0).eq(k) else None
            if c is not None and not z3.is_int_value(c) and not mentions(c, k):
                return c
        todo.extend(t.children())
    return None


def _is_ite(z):
    return z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE


def _leading_minus(z):
    while _is_ite(z):
        z = z.arg(1)
    if z3.is_add(z):
        z = z.arg(0)
    return z3.is_mul(z) and z3.is_rational_value(z.arg(0)) and z.arg(0).numerator_as_long() < 0


def _negated(z):
    if _is_ite(z):
        return z3.If(z.arg(0), _negated(z.arg(1)), _negated(z.arg(2)))
    return S.norm(-z)


def sum_def(k, body, n, tmpl, existing=False):
    """Sum_{k<n} body as a z3 term (None if only existing sums are asked for and there is none of this body)"""
    p = P()
    body = S.norm(to_real(body))
    if not mentions(body, k):
        return S.norm(z3.ToReal(n) * body) if not z3.is_int_value(n) else S.norm(z3.RealVal(n.as_long()) * body)
    cut = _cut(body, k)
    if cut is not None and not existing and p.known(z3.And(cut >= 0, cut <= n)):
        # over two sequences, one after the other
        yes, no = z3.BoolVal(True), z3.BoolVal(False)
        part = lambda v: z3.simplify(z3.substitute(body, (cut <= k, v), (k >= cut, v)))
        shift = lambda z: z3.simplify(z3.substitute(z, (k, k + cut)))
        a = sum_def(k, part(no), cut, Template(k, cut, [z3.substitute(f, (cut <= k, no), (k >= cut, no)) for f in tmpl.facts]))
        b = sum_def(k, shift(part(yes)), z3.simplify(n - cut), Template(k, z3.simplify(n - cut), [shift(f) for f in tmpl.facts]))
        return a + b
    c, body = _factor(body, k)
    body, k, tmpl = unpermuted(k, body, n, tmpl)
    cb = canon(body, k)
    params = free_params(body)
    key = ('sum', cb.get_id())
    d = p.root.defkey.get(key)
    if d is None and existing:
        return None
    if d is None:
        fn = z3.Function(p.fresh_name('SUM'), *([z3.IntSort()] * (len(params) + 1)), z3.RealSort())
        d = Def('sum', fn, params, k=k, body=body, tmpl=tmpl, guard=None)
        p.root.defkey[key] = d
        p.root.defs[fn.name()] = d
        p.root.keep.append((cb, body))
    else:
        params = d.params
    t = d.fn(*d.params, n)
    p.axiom(('sum0', t.get_id()), lambda: [z3.Implies(n <= 0, t == 0)])
    p.root.keep.append(t)
    return c * t if c is not None else t


def unpermuted(k, body, n, tmpl):
    """a sum of f(perm(k)) over the whole range of a permutation is the sum of f(k)"""
    for d in P().root.defs.values():
        if d.kind != 'perm' or not d.n.eq(n):
            continue
        t = d.fn(*d.params, k)
        j = z3.FreshInt('j')
        b = z3.substitute(body, (t, j))
        if b.eq(body) or mentions(b, k):
            continue
        facts = [z3.substitute(f, (t, j)) for f in tmpl.facts]
        return b, j, Template(j, n, [f for f in facts if not mentions(f, k)])
    return body, k, tmpl


def prod_def(k, body, n, tmpl):
    p = P()
    body = S.norm(to_real(body))
    cb = canon(body, k)
    params = free_params(body)
    key = ('prod', cb.get_id())
    d = p.root.defkey.get(key)
    if d is None:
        fn = z3.Function(p.fresh_name('PROD'), *([z3.IntSort()] * (len(params) + 1)), z3.RealSort())
        d = Def('prod', fn, params, k=k, body=body, tmpl=tmpl, guard=None)
        p.root.defkey[key] = d
        p.root.defs[fn.name()] = d
        p.root.keep.append((cb, body))
    t = d.fn(*d.params, n)
    p.axiom(('prod0', t.get_id()), lambda: [z3.Implies(n <= 0, t == 1)])
    p.root.keep.append(t)
    return t


def seq_sum(seq, start=0, upto=None):
    """builtin sum over a symbolic sequence of numbers, or over its first `upto`"""
    tmpl, outs = generic_map(seq.n, seq.get, lambda x: unopt(x))
    outs = raise_check(tmpl, outs)
    v = merge_values(outs, lambda o: o.value)
    z = num_z(v)
    if z is None:
        raise Unsupported('sum of non-numbers')
    r = SReal(sum_def(tmpl.k, z, seq.n if upto is None else upto, tmpl))
    if z.sort() == z3.IntSort():
        # integer-valued sum
        i = fresh('isum', z3.IntSort())
        P().fact(z3.ToReal(i) == r.z)
        r = SInt(i)
    return r + start if not (is_num(start) and start == 0) else r


def filt_sum(f, start=0):
    k = z3.FreshInt('i')
    def run():
        keep = f.keep(k)
        if P().fork(keep):
            return unopt(f.get(k))
        return 0
    outs = explore_local(run, facts=[k >= 0, k < f.n], generic=[k])
    facts = [z3.Implies(o.cond, g) for o in outs for g in o.facts]
    tmpl = Template(k, f.n, facts)
    outs = raise_check(tmpl, outs)
    v = merge_values(outs, lambda o: o.value)
    z = num_z(v)
    r = SReal(sum_def(k, to_real(z), f.n, tmpl))
    return r + start if not (is_num(start) and start == 0) else r


def any_def(n, cond_at):
    """exists k < n with cond_at(k); cond_at runs in a generic scope and returns a truth value"""
    k = z3.FreshInt('i')
    outs = explore_local(lambda: cond_at(k), facts=[k >= 0, k < n], generic=[k])
    facts = [z3.Implies(o.cond, g) for o in outs for g in o.facts]
    tmpl = Template(k, n, facts)
    outs = raise_check(tmpl, outs)
    z = z3.BoolVal(False)
    for o in outs:
        z = z3.Or(z, z3.And(o.cond, bool_z(o.value)))
    z = z3.simplify(z)
    return exists_z(k, n, z, tmpl)


def exists_z(k, n, z, tmpl):
    p = P()
    cb = canon(z, k)
    params = free_params(z, n)
    key = ('any', cb.get_id(), n.get_id())
    d = p.root.defkey.get(key)
    if d is None:
        fn = z3.Function(p.fresh_name('ANY'), *([z3.IntSort()] * len(params)), z3.BoolSort())
        wit = z3.Function(p.fresh_name('WIT'), *([z3.IntSort()] * len(params)), z3.IntSort())
        d = Def('any', fn, params, k=k, body=z, tmpl=tmpl, n=n, wit=wit)
        p.root.defkey[key] = d
        p.root.defs[fn.name()] = d
        p.root.keep.append((cb, n))
    t = d.fn(*d.params)
    w = d.wit(*d.params)

    def ax():
        tmpl.assume_at(w)
        return [z3.Implies(t, z3.And(w >= 0, w < n, z3.substitute(z, (k, w)))),
                z3.Implies(n <= 0, z3.Not(t))]
    p.axiom(('any', t.get_id()), ax)
    note_index(w)
    if not d.params:
        if ('anyq', d.fn.name()) not in p.root.defkey:
            p.root.defkey[('anyq', d.fn.name())] = True
            p.root.qfacts.append((k, n, z3.Implies(z3.Not(t), z3.Not(z)), tmpl))
    return SBool(t)


def all_def(n, cond_at):
    r = any_def(n, lambda k: _neg(cond_at(k)))
    return SBool(z3.simplify(z3.Not(r.z)))


def _neg(v):
    if isinstance(v, Sym):
        return SBool(z3.Not(bool_z(v)))
    return not v


# -- sorting -------------------------------------------------------------------------------------

def sorted_concrete(items, key=None, reverse=False):
    """stable insertion sort that forks on symbolic comparisons"""
    out = []
    for x in items:
        kx = key(x) if key is not None else x
        pos = len(out)
        while pos > 0:
            ky = out[pos - 1][0]
            less = (ky < kx) if reverse else (kx < ky)
            if bool(less):
                pos -= 1
            else:
                break
        out.insert(pos, (kx, x))
    return [x for _, x in out]


def leaf1(v):
    leaves = []
    flatten(v, leaves)
    if len(leaves) != 1:
        raise Unsupported('sort key is not a scalar')
    return leaves[0]


def sorted_seq(seq, key=None, reverse=False):
    """assumed contract of sorted: a stable, ordered permutation"""
    seq = as_seq(seq)
    n = z3.simplify(seq.n)
    if z3.is_int_value(n) and n.as_long() <= 16:
        return SList(sorted_concrete([seq.get(z3.IntVal(i)) for i in range(n.as_long())], key, reverse))
    p = P()
    if not reverse and already_sorted(seq, n, key):
        return SList.of(seq)
    if not reverse and already_sorted(seq, n, key, falling=True):
        return SList.of(SSeq(n, lambda i: seq.get(z3.simplify(n - 1 - i))))
    tmpl, outs = generic_map(n, seq.get, lambda x: key(x) if key is not None else x)
    outs = raise_check(tmpl, outs)
    kv = merge_values(outs, lambda o: o.value)
    kz = leaf1(kv)
    if reverse:
        raise Unsupported('reverse sort of a symbolic sequence')
    k = tmpl.k
    params = free_params(kz, n)
    ck = ('perm', canon(kz, k).get_id(), n.get_id())
    d = p.root.defkey.get(ck)
    if d is None:
        name = p.fresh_name('PERM')
        fn = z3.Function(name, *([z3.IntSort()] * (len(params) + 1)), z3.IntSort())
        inv = z3.Function(name + '_inv', *([z3.IntSort()] * (len(params) + 1)), z3.IntSort())
        d = Def('perm', fn, params, k=k, body=kz, tmpl=tmpl, n=n, inv=inv)
        p.root.defkey[ck] = d
        p.root.defs[fn.name()] = d
        p.root.keep.append((canon(kz, k), n))

    def get(i):
        return seq.get(perm_at(d, i))
    return SList.of(SSeq(n, get, {'perm': d, 'base': seq}))


def touch_inputs(zs):
    """state the assumed order and range of the input sequences at the elements mentioned"""
    ins, defs = P().root.input_fns, P().root.defs
    seen, st = set(), list(zs)
    while st:
        t = st.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.num_args() > 0 and t.decl().name() in ins:
            ins[t.decl().name()](t)
        elif t.num_args() > 0 and t.decl().name() in defs:
            d = defs[t.decl().name()]
            if d.kind == 'perm' and d.fn.eq(t.decl()) and all(a.eq(b) for a, b in zip(t.children(), d.params)):
                perm_at(d, t.arg(t.num_args() - 1))
        st.extend(t.children())


S.CTX.touch = touch_inputs


def already_sorted(seq, n, key, falling=False):
    """neighbours are in order, so the stable sort is the identity (or strictly falling, so it is the reversal)"""
    p = P()
    j = z3.FreshInt('j')
    was = getattr(p, 'nofork', False)
    p.nofork = True
    try:
        ka, kb = [leaf1(key(x) if key is not None else x) for x in (seq.get(j), seq.get(z3.simplify(j + 1)))]
        touch_inputs([ka, kb])
        return ka.sort() != z3.BoolSort() and p.known(z3.Implies(z3.And(j >= 0, j + 1 < n), ka > kb if falling else ka <= kb))
    except (S.WouldFork, Unsupported):
        return False
    finally:
        p.nofork = was
        retire(j)


def retire(j):
    """an index used only for one question: later axioms need not relate to it"""
    P().root.__dict__.setdefault('retired', {})[j.get_id()] = j


def retired(z):
    r = P().root.__dict__.get('retired')
    return bool(r) and any(c in r for c in consts_in(z))


def perm_at(d, i):
    p = P()
    t = d.fn(*d.params, i)

    def ax():
        p.root.keep.append(t)
        d.tmpl.assume_at(t)
        key_t = z3.substitute(d.body, (d.k, t))
        rng = z3.And(i >= 0, i < d.n)
        fs = [z3.Implies(rng, z3.And(t >= 0, t < d.n, d.inv(*d.params, t) == i))]
        seen = p.root.__dict__.setdefault('perm_seen', {}).setdefault((d.fn.name()), [])
        for (j, tj, kj) in seen[-8:]:
            if not j.eq(i):
                rj = z3.And(rng, j >= 0, j < d.n)
                fs.append(z3.Implies(z3.And(rj, i < j), z3.And(key_t <= kj, z3.Implies(key_t == kj, t < tj))))
                fs.append(z3.Implies(z3.And(rj, j < i), z3.And(kj <= key_t, z3.Implies(key_t == kj, tj < t))))
        seen.append((i, t, key_t))
        return fs
    p.axiom(('perm', t.get_id()), ax)
    return t


def perm_inv_at(d, j):
    """position in the sorted sequence of element j"""
    p = P()
    t = d.inv(*d.params, j)
    p.axiom(('perminv', t.get_id()), lambda: [z3.Implies(z3.And(j >= 0, j < d.n),
                                                         z3.And(t >= 0, t < d.n, d.fn(*d.params, t) == j))])
    perm_at(d, t)
    p.root.keep.append(t)
    return t
