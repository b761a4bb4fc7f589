"""AST interpreter that executes the repository's own functions on symbolic values."""
from __future__ import annotations
import ast
import builtins
import functools
import inspect
import operator
import types
import datetime as _dt
import numpy as np
import z3
from . import sym as S
from . import seqs as Q
from . import loops as LP
from .sym import CTX, P, Sym, SInt, SReal, SBool, SDate, SDateTime, SDelta, Unsupported, Infeasible, EngineSignal, num_z
from .seqs import SSeq, SList, SFilt, SOpt, unopt, as_seq

import os as _os
ROOTS = ('/repo/', _os.environ.get('PYVC_REPO', '/repo').rstrip('/') + '/',
         _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), 'contracts') + '/')


class _Ast:
    cache = {}

    @classmethod
    def module(cls, filename):
        if filename not in cls.cache:
            with open(filename) as f:
                tree = ast.parse(f.read(), filename)
            idx = {}

            def walk(node, classes):
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, ast.ClassDef):
                        walk(ch, classes + [ch.name])
                    else:
                        if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                            ch._cls = classes[-1] if classes else None
                            line = ch.lineno
                            if not isinstance(ch, ast.Lambda) and ch.decorator_list:
                                line = min(d.lineno for d in ch.decorator_list)
                            idx.setdefault(line, []).append(ch)
                        walk(ch, classes)
            walk(tree, [])
            cls.cache[filename] = idx
        return cls.cache[filename]

    @classmethod
    def find(cls, code):
        idx = cls.module(code.co_filename)
        cands = idx.get(code.co_firstlineno, [])
        if code.co_name == '<lambda>':
            cands = [c for c in cands if isinstance(c, ast.Lambda)]
            if len(cands) > 1:
                pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None and p[3] and p[3] > 0]
                best = None
                for c in cands:
                    b = c.body
                    if any(p[0] == b.lineno and p[2] == b.col_offset for p in pos) and \
                            all((p[0], p[2]) >= (c.lineno, c.col_offset) or p[2] == 0 for p in pos):
                        if best is None or (c.end_col_offset - c.col_offset) < (best.end_col_offset - best.col_offset):
                            best = c
                cands = [best] if best is not None else cands
        else:
            cands = [c for c in cands if not isinstance(c, ast.Lambda) and c.name == code.co_name]
        if len(cands) != 1:
            raise Unsupported(f'no unique source for {code.co_name} at {code.co_filename}:{code.co_firstlineno}')
        return cands[0]


def is_ours(fn):
    code = getattr(fn, '__code__', None)
    return code is not None and code.co_filename.startswith(ROOTS)


def is_repo_class(c):
    return isinstance(c, type) and getattr(c, '__module__', '').startswith(('fixedIncome', 'contracts'))


class Env:
    __slots__ = ('vars', 'parent', 'glob', 'nonlocals', 'globals_', 'fn')

    def __init__(self, vars, parent, glob, fn=None):
        self.vars, self.parent, self.glob, self.fn = vars, parent, glob, fn
        Q.CREATED.append(self)
        self.nonlocals = set()
        self.globals_ = set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if e.parent is None:
                break
            e = e.parent
        if name in self.glob:
            return self.glob[name]
        try:
            return getattr(builtins, name)
        except AttributeError:
            raise NameError(f"name '{name}' is not defined")

    def store(self, name, v):
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    old = e.vars[name]
                    Q.journal(lambda e=e, old=old: e.vars.__setitem__(name, old))
                    e.vars[name] = v
                    return
                e = e.parent
        if name in self.globals_:
            raise Unsupported('global assignment')
        self.vars[name] = v

    def has_local(self, n): return n in self.vars
    def get_local(self, n): return self.vars[n]
    def set_local(self, n, v): self.vars[n] = v
    def del_local(self, n): del self.vars[n]


class IFunc:
    """a function or lambda created by interpreted code"""
    def __init__(self, interp, node, env, defaults, kwdefaults, name, cls, selfcls):
        self.interp, self.node, self.env = interp, node, env
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = self.__qualname__ = name
        self.__doc__ = None
        self.__module__ = 'interpreted'
        self.cls, self.selfcls = cls, selfcls

    def __call__(self, *a, **k):
        return self.interp.call_ifunc(self, a, k)

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)

    # as part of an element of a sequence: the variables it captured in that element's scope
    def record_scoped(self, created):
        if Q.is_record(self):
            return False
        self.scope = [e for e in self._envs() if id(e) in created]
        return bool(self.scope)

    def _envs(self):
        e = self.env
        while e is not None:
            yield e
            e = e.parent

    def record_shell(self):
        return self.node

    def record_parts(self):
        if Q.is_record(self):
            return list(self.env.vars.items()) + [('<default>', self.defaults), ('<kwdefaults>', tuple(self.kwdefaults.items()))]
        used = {x.id for x in ast.walk(self.node) if isinstance(x, ast.Name)}
        if any(isinstance(x, ast.Nonlocal) for x in ast.walk(self.node)):
            raise Unsupported('a function created for an element of a sequence that assigns to outer variables')
        vars = {}
        for e in self.scope:
            for n, v in e.vars.items():
                if n in used and n not in vars:
                    vars[n] = v
        return list(vars.items()) + [('<default>', self.defaults), ('<kwdefaults>', tuple(self.kwdefaults.items()))]

    def record_build(self, parts):
        outer = self.env
        if Q.is_record(self):
            outer = self.env.parent
        else:
            for e in self._envs():
                if not any(e is x for x in self.scope):
                    outer = e
                    break
            else:
                outer = None
        d = dict(parts)
        dflt, kwd = d.pop('<default>'), dict(d.pop('<kwdefaults>'))
        env = Env(d, outer, self.env.glob, self.env.fn)
        return IFunc(self.interp, self.node, env, dflt, kwd, self.__name__, self.cls, self.selfcls)


class BoundContract:
    pass


_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
        ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
        ast.RShift: operator.rshift}
_DUN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
        ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor'}
_CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq,
        ast.NotEq: operator.ne}
_CMPD = {ast.Lt: ('__lt__', '__gt__'), ast.LtE: ('__le__', '__ge__'), ast.Gt: ('__gt__', '__lt__'),
         ast.GtE: ('__ge__', '__le__'), ast.Eq: ('__eq__', '__eq__'), ast.NotEq: ('__ne__', '__ne__')}


def lift_native(x):
    if isinstance(x, _dt.datetime):
        return S.lift_dt(x)
    if isinstance(x, _dt.date):
        return S.lift_date(x)
    if isinstance(x, _dt.timedelta):
        return S.SDelta(S.td_us(x))
    return x


class Lazy:
    """the items of a user-defined iterator, taken one at a time"""
    def __init__(self, gen):
        self.gen = gen

    def __iter__(self):
        return self.gen


NATIVE_CHANGES = ('add', 'discard', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'difference_update',
                  'intersection_update', 'symmetric_difference_update')


class Interp:
    def __init__(self, models, contracts=None):
        self.models = models            # callable object -> model(interp, *args, **kwargs)
        self.contracts = contracts or {}
        self.used_contracts = {}
        self.inlined = {}
        self.writes = []
        self.depth = 0
        self.steps = 0
        self.max_steps = 2_000_000
        self.created = set()
        self.no_contract = set()

    # -- writes ----------------------------------------------------------------------------------
    def begin_writes(self):
        w = {'attrs': [], 'lists': [], 'arrays': [], 'created': set(), 'keep': []}
        self.writes.append(w)
        return w

    def end_writes(self, w):
        assert self.writes[-1] is w
        self.writes.pop()

    def raw_setattr(self, obj, name, v):
        if Q.is_record(obj):
            raise Unsupported('change of an object that belongs to an element of a sequence')
        d = object.__getattribute__(obj, '__dict__') if hasattr(obj, '__dict__') else None
        if d is not None:
            had = name in d
            old = d.get(name)

            def undo():
                if had:
                    d[name] = old
                else:
                    d.pop(name, None)
            Q.journal(undo)
            try:
                object.__setattr__(obj, name, v)
            except AttributeError:
                setattr(obj, name, v)
        else:
            setattr(obj, name, v)

    def note_attr(self, obj, name):
        for w in self.writes:
            if id(obj) not in w['created'] and not any(x[1] is obj and x[2] == name for x in w['attrs']):
                w['attrs'].append(('attr', obj, name))

    def note_new(self, obj):
        Q.CREATED.append(obj)
        for w in self.writes:
            w['created'].add(id(obj))
            w['keep'].append(obj)

    def note_list(self, lst):
        if lst.rec is None and self.writes:
            raise_later = False
            for w in self.writes:
                if id(lst) not in w['created']:
                    if not any(x is lst for x in w['lists']):
                        w['lists'].append(lst)

    def only_created(self, obj):
        """a change that a loop of symbolic length cannot record"""
        if any(id(obj) not in w['created'] for w in self.writes):
            raise Unsupported('update of a set in a symbolic loop')

    # -- calls -----------------------------------------------------------------------------------
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.steps += 1
        if self.steps > self.max_steps:
            raise S.Budget('step budget')
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, (f.__self__,) + tuple(args), kwargs)
        if isinstance(f, (staticmethod, classmethod)):
            return self.call(f.__func__, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, tuple(f.args) + tuple(args), {**f.keywords, **kwargs})
        if self.contracts and isinstance(f, types.FunctionType):
            name = f'{f.__module__}.{f.__qualname__}'
            c = self.contracts.get(name)
            if c is not None:
                r = c(self, *args, **kwargs)
                if r is not NotImplemented:
                    name = f'callee contract of {name}: ' + ' '.join((c.__doc__ or '').split())
                    self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
                    return r
        if isinstance(f, IFunc):
            return self.call_ifunc(f, args, kwargs)
        try:
            m = self.models.get(f)
        except (TypeError, EngineSignal):
            m = None
        if m is not None:
            note = getattr(m, 'pyvc_note', None)
            if note:
                self.used_contracts[note] = self.used_contracts.get(note, 0) + 1
            return m(self, *args, **kwargs)
        if isinstance(f, types.FunctionType) and is_ours(f):
            return self.call_function(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType)) and getattr(f, '__self__', None) is not None:
            return self.call_bound_builtin(f, args, kwargs)
        cl = type(f)
        if is_repo_class(cl):
            meth = getattr(cl, '__call__', None)
            if meth is not None:
                return self.call(types.MethodType(meth, f), args, kwargs)
        return f(*args, **kwargs)

    def call_bound_builtin(self, f, args, kwargs):
        s = f.__self__
        if isinstance(s, list) and not isinstance(s, SList) and f.__name__ in ('append', 'extend', 'insert', 'sort', 'pop'):
            old = list(s)
            Q.journal(lambda: s.__setitem__(slice(None), old))
            if f.__name__ == 'sort':
                r = Q.sorted_concrete(old, self.as_native_key(kwargs.get('key')), kwargs.get('reverse', False))
                s[:] = r
                return None
        if isinstance(s, str) and f.__name__ == 'join':
            return '<joined>' if any(isinstance(x, Sym) for x in Q.SList(args[0]).items()) else f(*args)
        if isinstance(s, dict) and not isinstance(s, self.SDict):
            if any(isinstance(a, Sym) for a in args):
                return getattr(self.lift_dict(s), f.__name__)(*args, **kwargs)
            old = dict(s)
            if f.__name__ in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
                def undo():
                    dict.clear(s)
                    dict.update(s, old)
                Q.journal(undo)
        r = f(*args, **kwargs)
        if self.writes and isinstance(s, np.ndarray) and isinstance(r, np.ndarray) and r.base is None and r is not s:
            self.note_new(r)
        return r

    def as_native_key(self, key):
        if key is None:
            return None
        return lambda x: self.call(key, (x,))

    def lift_dict(self, d):
        r = self.SDict()
        for k, v in d.items():
            r[k] = v
        return r

    def instantiate(self, cls, args, kwargs):
        if not is_repo_class(cls) and cls.__module__ != 'interpreted':
            return cls(*args, **kwargs)
        import enum
        if issubclass(cls, (enum.Enum, BaseException)) or issubclass(cls, tuple):
            return cls(*args, **kwargs)
        init = getattr(cls, '__init__', None)
        if getattr(cls, '__abstractmethods__', None):
            raise TypeError(f"Can't instantiate abstract class {cls.__name__}")
        new = cls.__new__
        if new is not object.__new__:
            if is_ours(new):
                obj = self.call(new, (cls,) + tuple(args), kwargs)
            else:
                obj = cls.__new__(cls)
        else:
            obj = object.__new__(cls)
        self.note_new(obj)
        if init is object.__init__:
            return obj
        if isinstance(init, types.FunctionType) and is_ours(init):
            self.call(init, (obj,) + tuple(args), kwargs)
        else:
            init(obj, *args, **kwargs)
        return obj

    def call_function(self, f, args, kwargs):
        node = _Ast.find(f.__code__)
        q = f'{f.__module__}.{f.__qualname__}'
        self.inlined[q] = self.inlined.get(q, 0) + 1
        closure = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    closure[n] = c.cell_contents
                except ValueError:
                    pass
        parent = Env(closure, None, f.__globals__) if closure else None
        return self.run_function(node, parent, f.__globals__, f.__defaults__ or (), f.__kwdefaults__ or {}, args, kwargs,
                                 f.__name__, closure.get('__class__'))

    def call_ifunc(self, f, args, kwargs):
        return self.run_function(f.node, f.env, f.env.glob, f.defaults, f.kwdefaults, args, kwargs, f.__name__, f.selfcls)

    def run_function(self, node, parent, glob, defaults, kwdefaults, args, kwargs, name, selfcls):
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('recursion too deep')
        try:
            a = node.args
            vars = {}
            pos = [x.arg for x in a.posonlyargs + a.args]
            args = list(args)
            kwargs = dict(kwargs)
            if len(args) > len(pos) and a.vararg is None:
                raise TypeError(f'{name}() takes {len(pos)} positional arguments but {len(args)} were given')
            for n, v in zip(pos, args):
                vars[n] = v
            if a.vararg is not None:
                vars[a.vararg.arg] = tuple(args[len(pos):])
            nd = len(defaults)
            for i, n in enumerate(pos):
                if n in vars:
                    if n in kwargs:
                        raise TypeError(f"{name}() got multiple values for argument '{n}'")
                    continue
                if n in kwargs:
                    vars[n] = kwargs.pop(n)
                elif i >= len(pos) - nd:
                    vars[n] = defaults[i - (len(pos) - nd)]
                else:
                    raise TypeError(f"{name}() missing required argument: '{n}'")
            for x in a.kwonlyargs:
                n = x.arg
                if n in kwargs:
                    vars[n] = kwargs.pop(n)
                elif n in kwdefaults:
                    vars[n] = kwdefaults[n]
                else:
                    raise TypeError(f"{name}() missing keyword argument '{n}'")
            if a.kwarg is not None:
                vars[a.kwarg.arg] = kwargs
            elif kwargs:
                raise TypeError(f"{name}() got an unexpected keyword argument '{next(iter(kwargs))}'")
            env = Env(vars, parent, glob)
            env.fn = {'cls': getattr(node, '_cls', None), 'selfcls': selfcls, 'first': vars.get(pos[0]) if pos else None,
                      'node': node}
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            r = self.block(node.body, env)
            if r is not None and r[0] == 'return':
                return r[1]
            return None
        finally:
            self.depth -= 1

    # -- attributes ------------------------------------------------------------------------------
    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__'):
            e = env
            while e is not None:
                if e.fn and e.fn.get('cls'):
                    return f"_{e.fn['cls'].lstrip('_')}{name}"
                e = e.parent
        return name

    def getattr(self, obj, name):
        if isinstance(obj, SOpt):
            obj = obj.resolve()
        cl = type(obj)
        if is_repo_class(cl):
            for c in cl.__mro__:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, property):
                        if d.fget is not None and is_ours(d.fget):
                            return unopt(self.call(d.fget, (obj,)))
                    if isinstance(d, functools.cached_property) and is_ours(d.func):
                        if name not in obj.__dict__:
                            self.raw_setattr(obj, name, self.call(d.func, (obj,)))
                        return obj.__dict__[name]
                    break
        if isinstance(obj, np.ndarray) and obj.dtype == object and name in ('real',):
            return obj
        m = self.attr_models.get((cl, name)) if self.attr_models else None
        if m is not None:
            return m(self, obj)
        return unopt(getattr(obj, name))

    attr_models = {}

    def setattr(self, obj, name, v):
        cl = type(obj)
        if is_repo_class(cl):
            for c in cl.__mro__:
                if name in c.__dict__ and isinstance(c.__dict__[name], property):
                    d = c.__dict__[name]
                    if d.fset is None:
                        raise AttributeError(f"property '{name}' of '{cl.__name__}' object has no setter")
                    self.call(d.fset, (obj, v))
                    return
        if isinstance(obj, type) or isinstance(obj, types.ModuleType):
            raise Unsupported('assignment to a class or module attribute')
        self.note_attr(obj, name)
        if isinstance(obj, tuple):
            setattr(obj, name, v)     # raises as Python does
            return
        import dataclasses
        if dataclasses.is_dataclass(obj) and type(obj).__dataclass_params__.frozen:
            setattr(obj, name, v)
        self.raw_setattr(obj, name, v)

    # -- operators -------------------------------------------------------------------------------
    def find_dunder(self, obj, name):
        cl = type(obj)
        if not is_repo_class(cl):
            return None
        f = getattr(cl, name, None)
        if isinstance(f, types.FunctionType) and is_ours(f):
            return f
        return None

    def binop(self, op, a, b, inplace=False):
        a, b = unopt(a), unopt(b)
        d = _DUN.get(op)
        if d:
            if inplace:
                f = self.find_dunder(a, f'__i{d}__')
                if f is not None:
                    r = self.call(f, (a, b))
                    if r is not NotImplemented:
                        return r
                elif isinstance(a, SList) and op is ast.Add:
                    self.note_list(a)
                    a.extend(b if isinstance(b, (SList, SSeq)) else list(b))
                    return a
                elif isinstance(a, np.ndarray):
                    return self.np_inplace(op, a, b)
                elif hasattr(a, 'store_column'):
                    if a.viewed or any(id(a) not in w['created'] for w in self.writes):
                        raise Unsupported('in-place update of an array of symbolic length')
                    r = _BIN[op](a, b)
                    a.put([x.get for x in r.whole()])
                    return a
            f = self.find_dunder(a, f'__{d}__')
            if f is not None:
                r = self.call(f, (a, b))
                if r is not NotImplemented:
                    return r
            f = self.find_dunder(b, f'__r{d}__')
            if f is not None:
                r = self.call(f, (b, a))
                if r is not NotImplemented:
                    return r
        if op is ast.Mod and isinstance(a, str):
            return '<formatted>'
        if op is ast.Add and isinstance(a, str) and isinstance(b, Sym):
            return a + '<sym>'
        if isinstance(a, np.ndarray) and a.dtype != object and self.has_sym(b):
            a = a.astype(object)
        if isinstance(b, np.ndarray) and b.dtype != object and self.has_sym(a):
            b = b.astype(object)
        if op is ast.Pow and (isinstance(a, Sym) or isinstance(b, Sym)) and not hasattr(a, 'rows_') and not hasattr(b, 'rows_'):
            return S.s_pow(a, b)
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a = lift_native(a)
        elif isinstance(a, Sym) and not isinstance(b, Sym):
            b = lift_native(b)
        r = _BIN[op](a, b)
        if self.writes and isinstance(r, np.ndarray):
            self.note_new(r)
        return r

    def np_inplace(self, op, a, b):
        if a.dtype != object and self.has_sym(b):
            raise Unsupported('in-place symbolic update of a native array')
        self.note_array(a)
        old = a.copy()
        Q.journal(lambda: a.__setitem__(Ellipsis, old))
        a[...] = _BIN[op](a, b)
        return a

    def note_array(self, a):
        if not a.flags.writeable:
            raise Unsupported('change through a view of an array')
        for w in self.writes:
            if id(a) not in w['created'] and not any(x is a for x in w['arrays']):
                w['arrays'].append(a)

    def has_sym(self, x):
        if isinstance(x, Sym):
            return True
        if isinstance(x, np.ndarray):
            return x.dtype == object
        if isinstance(x, (list, tuple)):
            if isinstance(x, SList):
                return x.sym is not None or any(self.has_sym(y) for y in list.__iter__(x))
            return any(self.has_sym(y) for y in x)
        return False

    def compare(self, op, a, b):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            if b is None or a is None:
                o = a if b is None else b
                if isinstance(o, SOpt):
                    o = o.resolve()
                r = o is None
            elif isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) and (isinstance(a, SBool) or isinstance(b, SBool)):
                r = bool(a == b)
            else:
                r = self.same_object(unopt(a), unopt(b))
            return r if t is ast.Is else not r
        a, b = unopt(a), unopt(b)
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if t is ast.In:
                return r
            return SBool(z3.Not(r.z)) if isinstance(r, SBool) else not r
        d, rd = _CMPD[t]
        f = self.find_dunder(a, d)
        if f is None and t is ast.NotEq:
            g = self.find_dunder(a, '__eq__')
            if g is not None:
                r = self.call(g, (a, b))
                if r is not NotImplemented:
                    return SBool(z3.Not(r.z)) if isinstance(r, SBool) else not r
        if f is not None:
            r = self.call(f, (a, b))
            if r is not NotImplemented:
                return r
        f = self.find_dunder(b, rd)
        if f is not None:
            r = self.call(f, (b, a))
            if r is not NotImplemented:
                return r
        if isinstance(a, tuple) and isinstance(b, tuple) and t in (ast.Eq, ast.NotEq) and self.has_sym((a, b)):
            r = self.tuple_eq(a, b)
            return r if t is ast.Eq else Q._neg(r)
        if isinstance(a, SList) and isinstance(b, (SList, list)) and t in (ast.Eq, ast.NotEq):
            r = self.seq_eq(a, b)
            return r if t is ast.Eq else Q._neg(r)
        if t in (ast.Eq, ast.NotEq) and type(a).__eq__ is object.__eq__:
            r = self.same_object(a, b)
            return r if t is ast.Eq else not r
        return _CMP[t](a, b)

    def same_object(self, a, b):
        if a is b:
            return True
        if type(a) is type(b) and (Q.is_record(a) or Q.is_record(b)):
            raise Unsupported('identity of elements of a sequence')
        return False

    def tuple_eq(self, a, b):
        if len(a) != len(b):
            return False
        z = z3.BoolVal(True)
        for x, y in zip(a, b):
            r = self.compare(ast.Eq(), x, y)
            z = z3.And(z, S.bool_z(r))
        return Q._simp_bool(z)

    def seq_eq(self, a, b):
        A, B = as_seq(a), as_seq(b)
        if not P().fork(A.n == B.n):
            return False
        return Q.all_def(A.n, lambda k: self.compare(ast.Eq(), A.get(k), B.get(k)))

    def contains(self, c, x):
        f = self.find_dunder(c, '__contains__')
        if f is not None:
            return self.call(f, (c, x))
        if isinstance(c, SSeq) or (isinstance(c, SList) and c.sym is not None):
            s = as_seq(c)
            return Q.any_def(s.n, lambda k: self.compare(ast.Eq(), s.get(k), x))
        if hasattr(c, 'pyvc_contains'):
            return c.pyvc_contains(self, x)
        if isinstance(c, (list, tuple, set, frozenset)) and not isinstance(c, SList):
            items = list(c)
        elif isinstance(c, SList):
            if c.rec is not None:
                raise Unsupported('membership in a list while it is being built')
            items = c.items()
        elif isinstance(c, dict) and not isinstance(c, self.SDict):
            if not isinstance(x, Sym):
                return x in c
            items = list(c.keys())
        elif isinstance(c, str):
            if isinstance(x, Sym):
                raise Unsupported('symbolic substring')
            return x in c
        elif is_repo_class(type(c)) and self.find_dunder(c, '__iter__'):
            items = list(self.iterate(c))
        else:
            return x in c
        z = z3.BoolVal(False)
        for y in items:
            if x is y:
                return True
            z = z3.Or(z, S.bool_z(self.compare(ast.Eq(), x, y)))
        return Q._simp_bool(z)

    def truth(self, v):
        v = unopt(v)
        if isinstance(v, bool):
            return v
        f = self.find_dunder(v, '__bool__')
        if f is not None:
            return self.truth(self.call(f, (v,)))
        if is_repo_class(type(v)):
            f = self.find_dunder(v, '__len__')
            if f is not None:
                r = self.call(f, (v,))
                return bool(r != 0) if isinstance(r, Sym) else r != 0
        return bool(v)

    def one_by_one(self, r):
        nx = self.find_dunder(r, '__next__')
        for _ in range(200):
            try:
                x = self.call(nx, (r,))
            except StopIteration:
                return
            yield x
        raise Unsupported('long native iterator')

    def iterate(self, it, lazy=False):
        """concrete list of items, or an SSeq / SFilt"""
        it = unopt(it)
        if isinstance(it, (SSeq, SFilt)):
            if isinstance(it, SSeq):
                n = z3.simplify(it.n)
                if z3.is_int_value(n) and n.as_long() <= 64:
                    return [it.get(z3.IntVal(i)) for i in range(n.as_long())]
            return it
        if isinstance(it, SList):
            if it.sym is not None:
                return self.iterate(it.sym)
            return it.items()
        if isinstance(it, SIter):
            return it.rest()
        f = self.find_dunder(it, '__iter__')
        if f is not None:
            r = self.call(f, (it,))
            if r is it or self.find_dunder(r, '__next__'):
                return Lazy(self.one_by_one(r)) if lazy else list(self.one_by_one(r))
            return self.iterate(r)
        if hasattr(it, 'pyvc_iter'):
            return self.iterate(it.pyvc_iter(self))
        return list(it)

    # -- statements ------------------------------------------------------------------------------
    def block(self, stmts, env):
        for s in stmts:
            r = self.stmt(s, env)
            if r is not None:
                return r
        return None

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise S.Budget('step budget')
        return getattr(self, 's_' + type(s).__name__)(s, env)

    def s_Expr(self, s, env):
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        return ('return', self.eval(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        return 'break'

    def s_Continue(self, s, env):
        return 'continue'

    def s_Import(self, s, env):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                import importlib
                env.store(a.asname, importlib.import_module(a.name))
            else:
                env.store(a.name.split('.')[0], m)

    def s_ImportFrom(self, s, env):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            env.store(a.asname or a.name, getattr(m, a.name))

    def s_Global(self, s, env):
        env.globals_ |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise AssertionError(self.eval(s.msg, env) if s.msg is not None else '')

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            env.store(t.id, self.binop(type(s.op), env.lookup(t.id), self.eval(s.value, env), True))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            n = self.mangle(t.attr, env)
            self.setattr(o, n, self.binop(type(s.op), self.getattr(o, n), self.eval(s.value, env), True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            old = self.getitem(o, i)
            self.setitem(o, i, self.binop(type(s.op), old, self.eval(s.value, env),
                                          not (isinstance(o, np.ndarray) or hasattr(o, 'store_column'))))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            if isinstance(items, SSeq):
                items = [items[i] for i in range(len(t.elts))]
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, SList(items[k:len(items) - after]), env)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                raise ValueError('wrong number of values to unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        else:
            raise Unsupported('assignment target')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.del_local(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                i = self.eval(t.slice, env)
                f = self.find_dunder(o, '__delitem__')
                if f is not None:
                    self.call(f, (o, i))
                else:
                    if isinstance(o, dict) and not isinstance(o, self.SDict):
                        old = dict(o)
                        Q.journal(lambda: (dict.clear(o), dict.update(o, old)))
                    del o[i]
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                n = self.mangle(t.attr, env)
                old = o.__dict__.get(n)
                Q.journal(lambda: o.__dict__.__setitem__(n, old))
                delattr(o, n)

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            return self.block(s.body, env)
        return self.block(s.orelse, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Unsupported('bare raise')
        e = self.eval(s.exc, env)
        if isinstance(e, type):
            e = e()
        try:
            e._pyvc_raised = True
        except AttributeError:
            pass
        raise e

    def s_Try(self, s, env):
        def run():
            try:
                r = self.block(s.body, env)
            except EngineSignal:
                raise
            except Exception as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, env)
                        ok = isinstance(e, t)
                    if ok:
                        if h.name:
                            env.store(h.name, e)
                        if len(h.body) == 1 and isinstance(h.body[0], ast.Raise) and h.body[0].exc is None:
                            raise
                        return self.block(h.body, env)
                raise
            if r is None and s.orelse:
                return self.block(s.orelse, env)
            return r
        if not s.finalbody:
            return run()
        try:
            r = run()
        except EngineSignal:
            raise
        except Exception:
            f = self.block(s.finalbody, env)
            if f is not None:
                return f
            raise
        f = self.block(s.finalbody, env)
        return f if f is not None else r

    def s_With(self, s, env):
        raise Unsupported('with statement')

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, env), (f,))
        env.store(s.name, f)

    def make_func(self, node, env, name):
        a = node.args
        defaults = tuple(self.eval(d, env) for d in a.defaults)
        kwd = {x.arg: self.eval(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        e = env
        selfcls = None
        while e is not None:
            if e.fn and e.fn.get('selfcls'):
                selfcls = e.fn['selfcls']
                break
            e = e.parent
        return IFunc(self, node, env, defaults, kwd, name, getattr(node, '_cls', None), selfcls)

    def s_Match(self, s, env):
        v = unopt(self.eval(s.subject, env))
        for c in s.cases:
            if self.pattern(c.pattern, v, env):
                if c.guard is None or self.truth(self.eval(c.guard, env)):
                    return self.block(c.body, env)
        return None

    def pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name is not None:
                env.store(p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, list)) or len(v) != len(p.patterns):
                return False
            return all(self.pattern(q, x, env) for q, x in zip(p.patterns, v))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.call(isinstance, (v, self.eval(p.cls, env)))
        raise Unsupported('match pattern')

    # -- loops -----------------------------------------------------------------------------------
    def s_For(self, s, env):
        it = self.iterate(self.eval(s.iter, env), lazy=True)
        if isinstance(it, (list, Lazy)):
            for x in it:
                self.assign(s.target, x, env)
                r = self.block(s.body, env)
                if r == 'break':
                    return None
                if r is not None and r != 'continue':
                    return r
            return self.block(s.orelse, env) if s.orelse else None
        if isinstance(it, SFilt):
            names = stored_names(s.body) | stored_names([s.target])
            tn = stored_names([s.target])

            def run_body():
                if not P().fork(it.keep(cur[0])):
                    return None
                self.assign(s.target, it.get(cur[0]), env)
                return self.block(s.body, env)
            cur = [None]
            st = LP.summarise(self, env, sorted(names), run_body, it.n, lambda k: k,
                              {'names': tn, 'bind': lambda k: cur.__setitem__(0, k)}, None)
        else:
            seq = it
            tn = stored_names([s.target])
            names = stored_names(s.body) | tn
            st = self.with_peel(lambda q: LP.summarise(self, env, sorted(names), lambda: self.block(s.body, env), q.n, q.get,
                                         {'names': tn, 'bind': lambda x: self.assign(s.target, x, env)}, None),
                                seq, s, env)
        if st[0] == 'return':
            return st
        if st[1] in ('break',):
            return None
        if s.orelse:
            return self.block(s.orelse, env)
        return None

    def with_peel(self, run, seq, s, env):
        """summarise; when the first iteration behaves differently in kind, execute it separately"""
        mark = len(Q.UNDO)
        snap = dict(env.vars)
        taken = len(P().taken)
        try:
            return run(seq)
        except Unsupported as e:
            if 'merge' not in str(e) and 'stabilise' not in str(e) and 'unbound' not in str(e) and 'empty' not in str(e):
                raise
            if len(P().taken) != taken:
                raise
        except NameError:
            if len(P().taken) != taken:
                raise
        Q.rollback(mark)
        env.vars.clear()
        env.vars.update(snap)
        if not P().fork(seq.n > 0):
            return ('done', None)
        self.assign(s.target, seq.get(z3.IntVal(0)), env)
        r = self.block(s.body, env)
        if r == 'break':
            return ('done', 'break')
        if r is not None and r != 'continue':
            return r
        return run(SSeq(seq.n - 1, lambda i: seq.get(z3.simplify(i + 1))))

    def s_While(self, s, env):
        n = 0
        names = sorted(stored_names(s.body) | stored_names([s.test]))
        while True:
            path = P() if CTX.path is not None else None
            try:
                if path is not None:
                    path.nofork = True
                c = unopt(self.eval(s.test, env))
            except S.WouldFork:
                break
            finally:
                if path is not None:
                    path.nofork = False
            decided = not isinstance(c, Sym)
            if isinstance(c, SBool):
                z = z3.simplify(c.z)
                if z3.is_true(z) or z3.is_false(z):
                    decided = True
                elif P().known(z):
                    decided, c = True, True
                elif P().known(z3.Not(z)):
                    decided, c = True, False
            if not decided or n > 60:
                break
            if not self.truth(c):
                return self.block(s.orelse, env) if s.orelse else None
            n += 1
            if n > 3 and self.writes is not None and CTX.path is not None and self.loop_is_symbolic(s, env):
                break
            r = self.block(s.body, env)
            if r == 'break':
                return None
            if r is not None and r != 'continue':
                return r
        st = LP.summarise(self, env, names, lambda: self.block(s.body, env), None, None, None,
                          lambda: self.truth(self.eval(s.test, env)))
        if st[0] == 'return':
            return st
        if st[1] == 'break':
            return None
        if s.orelse:
            return self.block(s.orelse, env)
        return None

    def loop_is_symbolic(self, s, env):
        return isinstance(s.test, ast.Constant)

    # -- expressions -----------------------------------------------------------------------------
    def eval(self, e, env):
        self.steps += 1
        return getattr(self, 'e_' + type(e).__name__)(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return env.lookup(e.id)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), self.mangle(e.attr, env))

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        t = env
        while t.parent is not None and t.fn is None:
            t = t.parent
        t.store(e.target.id, v)
        return v

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = unopt(self.eval(x, env))
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return False if isinstance(v, SBool) else v
            if not is_and and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_UnaryOp(self, e, env):
        v = unopt(self.eval(e.operand, env))
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.simplify(z3.Not(v.z)))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            f = self.find_dunder(v, '__neg__')
            return self.call(f, (v,)) if f else -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BinOp(self, e, env):
        return self.binop(type(e.op), self.eval(e.left, env), self.eval(e.right, env))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            v = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                if res is None:
                    return v
                return v
            if not self.truth(v):
                return False
            left = right
            res = v
        return res

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        r = SList(self.elts(e.elts, env))
        self.note_new(r)
        return r

    def e_Set(self, e, env):
        return self.models_set(self.elts(e.elts, env))

    def models_set(self, items):
        if any(isinstance(x, Sym) for x in items):
            return self.models[set](self, SList(items))
        return set(items)

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, env))
                if not isinstance(it, list):
                    raise Unsupported('unpacking a symbolic sequence')
                out.extend(it)
            else:
                out.append(self.eval(x, env))
        return out

    SDict = dict

    def e_Dict(self, e, env):
        d = self.SDict()
        self.note_new(d)
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.eval(v, env).items():
                    d[kk] = vv
            else:
                kk = self.eval(k, env)
                d[kk] = self.eval(v, env)
        return d

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, env)
                if isinstance(x, Sym) or isinstance(x, (SList, SSeq)) or is_repo_class(type(x)):
                    out.append('<sym>')
                else:
                    try:
                        spec = self.eval(v.format_spec, env) if v.format_spec is not None else ''
                        out.append(format(x, spec))
                    except EngineSignal:
                        out.append('<sym>')
        return ''.join(out)

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval(e.slice, env))

    def e_Slice(self, e, env):
        return slice(*(self.eval(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)))

    def getitem(self, o, i):
        o = unopt(o)
        i = unopt(i)
        f = self.find_dunder(o, '__getitem__')
        if f is not None:
            return unopt(self.call(f, (o, i)))
        if isinstance(o, dict) and not isinstance(o, self.SDict) and isinstance(i, Sym):
            return unopt(self.lift_dict(o)[i])
        if isinstance(o, (list, tuple)) and not isinstance(o, SList) and isinstance(i, (SInt,)):
            z = z3.simplify(i.z)
            if not z3.is_int_value(z):
                return as_seq(o)[i]
            return o[z.as_long()]
        if isinstance(o, np.ndarray) and isinstance(i, Sym):
            z = z3.simplify(i.z)
            if z3.is_int_value(z):
                return o[z.as_long()]
            return as_seq(list(o))[i]
        return unopt(o[i])

    def setitem(self, o, i, v):
        f = self.find_dunder(o, '__setitem__')
        if f is not None:
            self.call(f, (o, i, v))
            return
        if hasattr(o, 'store_column'):
            o.store(self, i, v)
            return
        if isinstance(o, np.ndarray):
            if o.dtype != object and self.has_sym(v):
                raise Unsupported('symbolic store into a native array')
            self.note_array(o)
            old = o[i].copy() if isinstance(o[i], np.ndarray) else o[i]
            Q.journal(lambda: o.__setitem__(i, old))
            if isinstance(v, np.ndarray) and not isinstance(old, np.ndarray) and o.dtype == object:
                if v.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                v = v.flat[0]
            o[i] = v
            return
        if isinstance(o, dict) and not isinstance(o, self.SDict):
            if isinstance(i, Sym):
                raise Unsupported('symbolic key in a native dict')
            old = dict(o)
            Q.journal(lambda: (dict.clear(o), dict.update(o, old)))
        if self.writes and not all(id(o) in w['created'] for w in self.writes):
            raise Unsupported('container update in a symbolic loop')
        if isinstance(o, list) and not isinstance(o, SList):
            old2 = list(o)
            Q.journal(lambda: o.__setitem__(slice(None), old2))
        o[i] = v

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = env
            while f is not None and not (f.fn and f.fn.get('selfcls')):
                f = f.parent
            if f is None:
                raise Unsupported('super()')
            return super(f.fn['selfcls'], f.fn['first'])
        fn = self.eval(e.func, env)
        if (fn is any or fn is all) and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            args = [SIter(self.comp(e.args[0].elt, e.args[0].generators, env, True))]
        else:
            args = self.elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                for kk in d.keys():
                    kwargs[kk] = d[kk]
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        if isinstance(fn, types.MethodType) or isinstance(fn, types.BuiltinMethodType):
            s = getattr(fn, '__self__', None)
            if isinstance(s, SList) and fn.__name__ in ('append', 'extend', 'insert', 'pop', 'sort', 'remove', 'clear', 'reverse'):
                if fn.__name__ == 'append':
                    self.note_list(s)
                elif self.writes and any(id(s) not in w['created'] for w in self.writes):
                    raise Unsupported('list update in a symbolic loop')
                if fn.__name__ == 'sort':
                    return s.sort(self.as_native_key(kwargs.get('key')), kwargs.get('reverse', False))
                if fn.__name__ == 'extend':
                    it = self.iterate(args[0])
                    return s.extend(it if not isinstance(it, list) else SList(it))
                return fn(*[unopt(a) if fn.__name__ != 'append' else a for a in args], **kwargs)
            if isinstance(s, (set, dict)) and not isinstance(s, Sym) and fn.__name__ in NATIVE_CHANGES \
                    and isinstance(fn, types.BuiltinMethodType):
                if self.writes:
                    raise Unsupported('update of a set or dict in a symbolic loop')
                Q.journal(lambda s=s, old=s.copy(): (s.clear(), s.update(old)))
        if fn is locals_builtin:
            raise Unsupported('locals()')
        return self.call(fn, args, kwargs)

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')

    # comprehensions
    def e_ListComp(self, e, env):
        r = self.comp(e.elt, e.generators, env)
        if isinstance(r, SSeq):
            r = SList.of(r)
        elif isinstance(r, list) and not isinstance(r, SList):
            r = SList(r)
        if isinstance(r, SList):
            self.note_new(r)
        return r

    def e_GeneratorExp(self, e, env):
        return SIter(self.comp(e.elt, e.generators, env))

    def e_SetComp(self, e, env):
        r = self.comp(e.elt, e.generators, env, True)
        return self.models[set](self, SList.of(r) if isinstance(r, SSeq) else (SList(r) if isinstance(r, list) else r))

    def e_DictComp(self, e, env):
        r = self.comp(ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e.generators, env)
        if isinstance(r, (SSeq, SFilt)):
            return SMap(self, r)
        d = self.SDict()
        self.note_new(d)
        for k, v in r:
            d[k] = v
        return d

    def comp(self, elt, gens, env, unordered=False):
        g = gens[0]
        src = self.eval(g.iter, env)
        if unordered and type(src).__name__ == 'SSet' and isinstance(src.list, SList):
            src = src.list          # the members of a set, in any order and number of times
        it = self.iterate(src, lazy=True)
        cenv = Env({}, env, env.glob)
        if isinstance(it, (list, Lazy)):
            out = []
            nested = None
            for x in it:
                self.assign(g.target, x, cenv)
                if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
                    if len(gens) == 1:
                        out.append(self.eval(elt, cenv))
                    else:
                        r = self.comp(elt, gens[1:], cenv, unordered)
                        if isinstance(r, SFilt):
                            raise Unsupported('nested filtered comprehension')
                        if isinstance(r, SSeq):
                            if nested is None:
                                nested = SList(out)
                            nested = SList.of(Q.concat(as_seq(nested), r))
                        elif nested is not None:
                            nested = SList.of(Q.concat(as_seq(nested), as_seq(list(r))))
                        else:
                            out.extend(r)
            if nested is not None:
                return as_seq(nested)
            return out
        if len(gens) != 1:
            return NestedSeq(self, elt, gens, env, it)
        if isinstance(it, SFilt):
            base_n, base_keep, base_get = it.n, it.keep, it.get
        else:
            base_n, base_keep, base_get = it.n, None, it.get
        if not g.ifs and base_keep is None:
            return self.map_seq(it, lambda x: self._comp_elem(g, elt, x, env))
        # filtered
        def run_keep(k):
            if base_keep is not None and not P().fork(base_keep(k)):
                return False
            ce = Env({}, env, env.glob)
            self.assign(g.target, base_get(k), ce)
            for c in g.ifs:
                if not self.truth(self.eval(c, ce)):
                    return False
            return True
        kk = z3.FreshInt('i')
        outs = Q.explore_local(lambda: run_keep(kk), facts=[kk >= 0, kk < base_n], generic=[kk])
        tmpl = Q.Template(kk, base_n, [z3.Implies(o.cond, f) for o in outs for f in o.facts])
        outs = Q.raise_check(tmpl, outs)
        keep_z = z3.simplify(z3.Or(*[o.cond for o in outs if o.value is True])) if any(o.value is True for o in outs) \
            else z3.BoolVal(False)
        if z3.is_true(keep_z):
            return self.map_seq(SSeq(base_n, base_get), lambda x: self._comp_elem(g, elt, x, env))

        def keep(i):
            tmpl.assume_at(i)
            return z3.substitute(keep_z, (kk, i))

        # elements under the filter
        ek = z3.FreshInt('i')

        def run_el():
            P().fact(keep(ek))
            return self._comp_elem(g, elt, base_get(ek), env)
        try:
            eouts = Q.explore_local(run_el, facts=[ek >= 0, ek < base_n], generic=[ek])
        except Infeasible:
            return []
        if any(o.kind == 'raise' for o in eouts):
            raise Unsupported('filtered comprehension element may raise')
        el = Q.merge_values(eouts, lambda o: o.value)
        efacts = [z3.Implies(z3.And(o.cond, z3.substitute(keep_z, (kk, ek))), f) for o in eouts for f in o.facts]
        et = Q.Template(ek, base_n, efacts)

        def get(i):
            et.assume_at(i)
            return Q.subst(el, [(ek, i)])
        return SFilt(base_n, keep, get)

    def _comp_elem(self, g, elt, x, env):
        ce = Env({}, env, env.glob)
        self.assign(g.target, x, ce)
        return self.eval(elt, ce)

    def map_seq(self, seq, f):
        """lazy map with the body explored once at a generic index"""
        self_writes = self.begin_writes()
        try:
            tmpl, outs = Q.generic_map(seq.n, seq.get, f)
        finally:
            self.end_writes(self_writes)
        if self_writes['attrs'] or self_writes['lists']:
            raise Unsupported('side effects in a comprehension over a symbolic sequence')
        outs = Q.raise_check(tmpl, outs)
        try:
            v = Q.merge_values(outs, lambda o: o.value)

            def get(i):
                tmpl.assume_at(i)
                return Q.subst(v, [(tmpl.k, i)])
        except Unsupported:
            def get(i):
                tmpl.assume_at(i)
                for o in outs[:-1]:
                    if P().fork(z3.substitute(o.cond, (tmpl.k, i))):
                        return Q.subst(o.value, [(tmpl.k, i)])
                return Q.subst(outs[-1].value, [(tmpl.k, i)])
        return SSeq(seq.n, get)


class NestedSeq(Sym):
    """[elt for x in sym for y in ...]: supports sum, any, all"""
    def __init__(self, interp, elt, gens, env, it):
        self.interp, self.elt, self.gens, self.env, self.it = interp, elt, gens, env, it

    def outer(self, fold):
        if isinstance(self.it, SFilt) or self.gens[0].ifs:
            raise Unsupported('nested filtered comprehension')

        def f(x):
            ce = Env({}, self.env, self.env.glob)
            self.interp.assign(self.gens[0].target, x, ce)
            return fold(self.interp.comp(self.elt, self.gens[1:], ce))
        return self.interp.map_seq(self.it, f)


class SIter(Sym):
    """iterator / generator over a concrete list or a symbolic sequence"""
    def __init__(self, src):
        if isinstance(src, SList):
            src = src.sym if src.sym is not None else src.items()
        self.src = src
        self.pos = 0

    def rest(self):
        if isinstance(self.src, list):
            r = self.src[self.pos:]
            old = self.pos
            Q.journal(lambda: setattr(self, 'pos', old))
            self.pos = len(self.src)
            return r
        if isinstance(self.src, SSeq) and self.pos:
            k = self.pos
            s = self.src
            r = SSeq(z3.If(s.n > k, s.n - k, z3.IntVal(0)), lambda i: s.get(z3.simplify(i + k)))
            self.src = SSeq(z3.IntVal(0), s.get)
            self.pos = 0
            return r
        return self.src

    def __iter__(self):
        r = self.rest()
        if isinstance(r, list):
            return iter(r)
        raise Unsupported('native iteration over a symbolic sequence')

    def __next__(self):
        if isinstance(self.src, list):
            if self.pos >= len(self.src):
                raise StopIteration
            self._adv()
            return self.src[self.pos - 1]
        if isinstance(self.src, SSeq):
            if not P().fork(self.src.n > self.pos):
                raise StopIteration
            self._adv()
            return self.src.get(z3.IntVal(self.pos - 1))
        if isinstance(self.src, SFilt):
            f = self.src
            if self.pos:
                raise Unsupported('next on a filtered sequence')
            self._adv()
            # first kept index
            W = Q.fresh('first', z3.IntSort())
            ex = Q.any_def(f.n, lambda k: SBool(f.keep(k)))
            if not P().fork(ex.z):
                raise StopIteration
            p = P()
            p.fact(z3.And(W >= 0, W < f.n))
            p.fact(f.keep(W))
            k = z3.FreshInt('q')
            outs = Q.explore_local(lambda: f.keep(k), facts=[k >= 0, k < W, k < f.n], generic=[k])
            for o in outs if not CTX.params else []:
                p.root.qfacts.append((k, W, z3.Implies(o.cond, z3.Not(o.value)), None))
            return f.get(W)
        raise Unsupported('next')

    def _adv(self):
        old = self.pos
        Q.journal(lambda: setattr(self, 'pos', old))
        self.pos += 1


class SMap(Sym):
    """dict built from a symbolic sequence of pairs: only membership-free uses"""
    def __init__(self, interp, pairs):
        self.pairs = pairs
        self.interp = interp

    def values(self):
        return self.pairs.map(lambda kv: kv[1])

    def keys(self):
        return self.pairs.map(lambda kv: kv[0])

    def items(self):
        return self.pairs

    def __getitem__(self, key):
        raise Unsupported('lookup in a symbolic dict')


locals_builtin = locals


def stored_names(nodes):
    out = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            for ch in ast.walk(n):
                if isinstance(ch, ast.NamedExpr):
                    out.add(ch.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.MatchAs,)) and n.name:
            out.add(n.name)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for ch in ast.iter_child_nodes(n):
            go(ch)
    for n in nodes:
        go(n)
    return out
