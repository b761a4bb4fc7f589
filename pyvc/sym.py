"""Symbolic values (wrappers over z3 terms) and the path context.

Floats are mathematical reals (a float literal stands for its decimal reading), integers are
mathematical integers, dates are proleptic-Gregorian ordinals, timestamps are microseconds since
0001-01-01 minus one day (ordinal * 86_400_000_000 + time of day).
"""
from __future__ import annotations
import datetime as _dt
from fractions import Fraction
import enum
import numbers
import math
import time
import z3

US_DAY = 86_400_000_000


class EngineSignal(BaseException):
    """Control-flow exceptions of the engine: never caught by `except Exception` in verified code."""


class WouldFork(EngineSignal):
    """a decision which the path does not settle, where none may be taken"""


class Infeasible(EngineSignal):
    pass


class Unsupported(EngineSignal):
    pass


class Budget(EngineSignal):
    pass


# --------------------------------------------------------------------------------------------
# path context

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0


STATS = Stats()


_NONLINEAR = {}


def nonlinear(z):
    """does the term multiply or divide by something that is not a number?"""
    stack, seen = [z], []
    while stack:
        t = stack.pop()
        k = t.get_id()
        got = _NONLINEAR.get(k)
        if got is not None:
            if got[1]:
                return True
            continue
        if not z3.is_app(t):
            _NONLINEAR[k] = (t, True)
            return True
        o = t.decl().kind()
        if o == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in t.children()) > 1 or \
                o in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and \
                not (z3.is_rational_value(t.arg(1)) or z3.is_int_value(t.arg(1))):
            _NONLINEAR[k] = (t, True)
            return True
        seen.append(t)
        stack.extend(t.children())
    for t in seen:
        _NONLINEAR[t.get_id()] = (t, False)
    return False


class Solvers:
    """all facts of a path, and beside them the linear ones alone, which are asked first"""

    def __init__(self, timeout_ms):
        self.full, self.light = z3.Solver(), z3.Solver()
        self.full.set('timeout', timeout_ms)
        self.light.set('timeout', timeout_ms)
        self.dropped = [0]
        self.timeout_ms = timeout_ms

    def add(self, f):
        self.full.add(f)
        if nonlinear(f):
            self.dropped[-1] += 1
        else:
            self.light.add(f)

    def push(self):
        self.full.push()
        self.light.push()
        self.dropped.append(self.dropped[-1])

    def pop(self):
        self.full.pop()
        self.light.pop()
        self.dropped.pop()

    def check(self, *c):
        if not self.dropped[-1] or any(map(nonlinear, c)):
            return self.full.check(*c)
        r = self.light.check(*c)
        if r == z3.unsat:
            return r
        self.full.set('timeout', 300 if r == z3.sat else self.timeout_ms)
        r = self.full.check(*c)
        self.full.set('timeout', self.timeout_ms)
        return r

    def __getattr__(self, name):
        return getattr(self.full, name)


class Path:
    """One symbolic execution path; decisions are replayed from a prefix, then extended."""

    def __init__(self, prefix=(), parent=None, timeout_ms=1500):
        self.prefix = list(prefix)
        self.parent = parent
        self.taken = []           # (value, alternative_possible)
        self.conds = []           # branch conditions (this level only)
        self.facts = []           # assumed facts (this level only)
        if parent is None:
            self.solver = Solvers(timeout_ms)
            self.root = self
            self.counter = {}
            self.axiom_seen = set()
            self.defs = {}
            self.input_fns = {}
            self.defkey = {}
            self.loops = []
            self.index_consts = {}
            self.undo = []
            self.dates = []
            self.exps = []
            self.qfacts = []
            self.inputs = []
            self.abstract = []     # reasons why a counter-model may be spurious
            self.keep = []
            self.opaque = {}
        else:
            self.solver = parent.solver
            self.root = parent.root

    # -- facts
    def fact(self, f):
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.solver.add(f)

    def axiom(self, key, fs):
        """Add definitional facts once per scope chain."""
        p = self
        while p is not None:
            if key in p._seen():
                return
            p = p.parent
        self._seen().add(key)
        for f in (fs() if callable(fs) else fs):
            self.fact(f)

    def _seen(self):
        s = getattr(self, '_seenset', None)
        if s is None:
            s = self._seenset = set()
        return s

    def all_facts(self):
        out = []
        p = self
        while p is not None:
            out = p.facts + p.conds + out
            p = p.parent
        return out

    def check(self, c):
        t = time.time()
        if CTX.deadline and t > CTX.deadline:
            raise Budget('time budget of the goal')
        STATS.queries += 1
        r = self.solver.check(c)
        STATS.solver_s += time.time() - t
        return r

    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if getattr(self, 'nofork', False):
            if self.known(cond):
                return True
            if self.known(z3.Not(cond)):
                return False
            raise WouldFork()
        i = len(self.taken)
        if i < len(self.prefix):
            v, alt = self.prefix[i]
            if self.root.input_fns:
                CTX.touch([cond])
        else:
            if i > 400:
                raise Unsupported('too many decisions on one path')
            t = self.check(cond)
            f = self.check(z3.Not(cond))
            if t != z3.unsat and f != z3.unsat and self.root.input_fns:
                before = len(self.facts)
                CTX.touch([cond])       # the assumed order and ranges of the elements it speaks of
                if len(self.facts) > before:
                    t = self.check(cond)
                    f = self.check(z3.Not(cond))
            if t != z3.unsat and f != z3.unsat and self.parent is not None and self.root.qfacts and CTX.instantiate(cond):
                t = self.check(cond)
                f = self.check(z3.Not(cond))
            if t == z3.unsat and f == z3.unsat:
                raise Infeasible()
            v = t != z3.unsat
            alt = True if v and f != z3.unsat else None      # None: the path implies the outcome
        self.taken.append((v, alt))
        c = cond if v else z3.Not(cond)
        if alt is None and self.parent is not None:
            self.facts.append(c)
        else:
            self.conds.append(c)
        self.solver.add(c)
        return v

    def choose(self, n):
        """n-ary concrete choice (all alternatives explored)."""
        if getattr(self, 'nofork', False) and n > 1:
            raise WouldFork()
        i = len(self.taken)
        if i < len(self.prefix):
            v, alt = self.prefix[i]
        else:
            v, alt = 0, n - 1
        self.taken.append((v, alt))
        return v

    def known(self, cond):
        """True when the path implies cond (decided by the solver); no forking."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(z3.Not(cond)) == z3.unsat

    def fresh_name(self, base):
        c = self.root.counter
        c[base] = c.get(base, 0) + 1
        return f'{base}!{c[base]}'


class Ctx:
    path: Path = None
    params: list = []          # generic loop indices in scope
    reveal: set = set()
    deadline = None
    touch = None
    instantiate = None         # set by prove: universally quantified facts at the terms of a condition
    date_lo = _dt.date(10, 1, 1).toordinal()
    date_hi = _dt.date(9990, 12, 31).toordinal()


CTX = Ctx()


def P() -> Path:
    if CTX.path is None:
        raise Unsupported('symbolic value used outside a path')
    return CTX.path


def alternatives(taken, start):
    """Prefixes that flip one decision at or after `start`."""
    out = []
    for i in range(start, len(taken)):
        v, alt = taken[i]
        if isinstance(v, bool):
            if alt:
                out.append([(a, b if b is None else False) for a, b in taken[:i]] + [(not v, False)])
        elif isinstance(alt, int) and not isinstance(alt, bool):
            for w in range(v + 1, alt + 1):
                out.append([(a, (b if isinstance(b, int) and not isinstance(b, bool) else False)) for a, b in taken[:i]]
                           + [(w, alt)])
    return out


# --------------------------------------------------------------------------------------------
# numbers

def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported('nan or infinity in a symbolic expression')
    return Fraction(repr(x))


def real_val(x):
    f = frac(x)
    return z3.RealVal(f)


def is_num(x):
    return isinstance(x, numbers.Number) and not isinstance(x, complex)


class Sym:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        raise Unsupported(f'hash of a symbolic {type(self).__name__}')

    def __index__(self):
        z = z3.simplify(self.z)
        if z3.is_int_value(z):
            return z.as_long()
        raise Unsupported('symbolic value used as a native index')


def to_real(z):
    if z.sort() == z3.RealSort():
        return z
    return z3.ToReal(z)


def num_z(x):
    """z3 term of a number or symbolic number, or None."""
    if isinstance(x, (SInt, SReal)):
        return x.z
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if is_num(x):
        return real_val(x)
    return None


def wrap(z):
    s = z.sort()
    if s == z3.BoolSort():
        return SBool(z)
    if s == z3.IntSort():
        return SInt(z)
    if s == z3.RealSort():
        return SReal(z)
    raise Unsupported(f'sort {s}')


def _arr_guard(self, o, f):
    import numpy as np
    if isinstance(o, np.ndarray):
        out = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            out[i] = f(self, o[i])
        return out if o.shape else out[()]
    return None


def _bin(self, o, op, rev=False):
    import numpy as np
    if isinstance(o, np.ndarray):
        f = (lambda a, b: _num_op(b, a, op)) if rev else (lambda a, b: _num_op(a, b, op))
        return _arr_guard(self, o, f)
    if num_z(o) is None:
        return NotImplemented
    return _num_op(o, self, op) if rev else _num_op(self, o, op)


def _num_op(a, b, op):
    za, zb = num_z(a), num_z(b)
    if za is None or zb is None:
        raise Unsupported(f'arithmetic on {type(a).__name__} and {type(b).__name__}')
    both_int = za.sort() == z3.IntSort() and zb.sort() == z3.IntSort()
    if op in '+-*':
        if not both_int:
            za, zb = to_real(za), to_real(zb)
        z = za + zb if op == '+' else za - zb if op == '-' else za * zb
        return wrap(z3.simplify(z))
    if op == '/':
        za, zb = to_real(za), to_real(zb)
        if not known_nonzero(zb):
            if P().fork(zb == 0):
                raise ZeroDivisionError('division by zero')
        if both_int:
            v = small_domain(num_z(b))
            if v is not None:
                zb = z3.RealVal(v)
        return SReal(z3.simplify(za / zb))
    if op in ('//', '%'):
        if not both_int:
            raise Unsupported('floor division or modulo of reals')
        zb = z3.simplify(zb)
        if not z3.is_int_value(zb):
            raise Unsupported('floor division by a symbolic integer')
        d = zb.as_long()
        if d == 0:
            raise ZeroDivisionError()
        if op == '%' and d in (4, 100, 400):
            reveal_leap()
        if d < 0:
            za, d = -za, -d
            if op == '%':
                return SInt(z3.simplify(-(za % d)))
        return SInt(z3.simplify(za / d if op == '//' else za % d))
    raise Unsupported(op)


def small_domain(z):
    """an integer known to take at most two values is split into cases (keeps divisions linear)"""
    if z3.is_int_value(z):
        return None
    p = P()
    s = p.solver
    vals = []
    s.push()
    try:
        for _ in range(3):
            STATS.queries += 1
            if s.check() != z3.sat:
                break
            v = s.model().eval(z, model_completion=True)
            if not z3.is_int_value(v):
                return None
            vals.append(v.as_long())
            if len(vals) == 3:
                return None
            s.add(z != v)
    finally:
        s.pop()
    vals.sort()
    for v in vals[:-1]:
        if p.fork(z == v):
            return v
    if vals and p.known(z == vals[-1]):
        return vals[-1]
    return None


def known_nonzero(z):
    z = z3.simplify(z)
    if z3.is_rational_value(z) or z3.is_int_value(z):
        return not (z.numerator_as_long() == 0 if z3.is_rational_value(z) else z.as_long() == 0)
    return P().known(z != 0)


class SNum(Sym):
    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f'<{z3.simplify(self.z)}>'

    def __add__(self, o): return _bin(self, o, '+')
    def __radd__(self, o): return _bin(self, o, '+', True)
    def __sub__(self, o): return _bin(self, o, '-')
    def __rsub__(self, o): return _bin(self, o, '-', True)

    def __mul__(self, o):
        if isinstance(o, SDelta):
            return o * self
        return _bin(self, o, '*')

    def __rmul__(self, o): return _bin(self, o, '*', True)
    def __truediv__(self, o): return _bin(self, o, '/')
    def __rtruediv__(self, o): return _bin(self, o, '/', True)
    def __floordiv__(self, o): return _bin(self, o, '//')
    def __mod__(self, o): return _bin(self, o, '%')
    def __rfloordiv__(self, o): return _bin(self, o, '//', True)
    def __rmod__(self, o): return _bin(self, o, '%', True)
    def __neg__(self): return wrap(z3.simplify(-self.z))
    def __pos__(self): return self
    def __abs__(self): return wrap(z3.If(self.z >= 0, self.z, -self.z))
    def __pow__(self, o): return s_pow(self, o)
    def __rpow__(self, o): return s_pow(o, self)

    def _cmp(self, o, f):
        import numpy as np
        if isinstance(o, np.ndarray):
            return NotImplemented
        zo = num_z(o)
        if zo is None:
            return NotImplemented
        za = self.z
        if za.sort() != zo.sort():
            za, zo = to_real(za), to_real(zo)
        return SBool(z3.simplify(f(za, zo)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if num_z(o) is None:
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if num_z(o) is None:
            return True
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return P().fork(self.z != 0)

    # numpy object-array methods
    def exp(self): return s_exp(self)
    def log(self): return s_log(self)
    def sqrt(self): return s_sqrt(self)
    def conjugate(self): return self

    @property
    def real(self): return self

    def item(self): return self
    def flatten(self): raise AttributeError('flatten')


class SInt(SNum):
    def __init__(self, z):
        self.z = z


class SReal(SNum):
    def __init__(self, z):
        self.z = to_real(z)

    def is_integer(self):
        return SBool(z3.IsInt(self.z))


class SBool(Sym):
    def __init__(self, z):
        self.z = z3.BoolVal(z) if isinstance(z, bool) else z

    def __repr__(self):
        return f'<{z3.simplify(self.z)}>'

    def __bool__(self):
        return P().fork(self.z)

    def __and__(self, o): return SBool(z3.And(self.z, bool_z(o)))
    def __or__(self, o): return SBool(z3.Or(self.z, bool_z(o)))
    def __invert__(self): return SBool(z3.Not(self.z))
    __rand__ = __and__
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.z == bool_z(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.z != bool_z(o))
        return True

    def __add__(self, o): return _bin(SInt(num_z(self)), o, '+')
    def __radd__(self, o): return _bin(SInt(num_z(self)), o, '+', True)
    __hash__ = Sym.__hash__


def bool_z(x):
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    import numpy as np
    if isinstance(x, np.bool_):
        return z3.BoolVal(bool(x))
    if isinstance(x, (SInt, SReal)):
        return x.z != 0
    return z3.BoolVal(bool(x))


# --------------------------------------------------------------------------------------------
# transcendental functions (uninterpreted, with instantiated axioms)

EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())
LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())


def norm(z):
    return z3.simplify(z, som=True, mul_to_power=False, sort_sums=True)


def s_exp(x):
    if is_num(x) and not isinstance(x, Sym):
        if x == 0:
            return 1.0
        x = SReal(real_val(x))
    z = norm(to_real(num_z(x)))
    if z3.is_rational_value(z) and z.numerator_as_long() == 0:
        return 1.0
    if z3.is_app(z) and z.decl().eq(LOG):
        return SReal(z.arg(0))
    t = EXP(z)
    p = P()

    def ax():
        fs = [t > 0, z3.Implies(z == 0, t == 1), z3.Implies(z < 0, t < 1), z3.Implies(z > 0, t > 1)]
        # exp(x) >= 1 + x
        fs.append(t >= 1 + z)
        return fs
    p.axiom(('exp', z.get_id()), ax)
    p.root.keep.append(z)
    return SReal(t)


def s_log(x):
    if is_num(x) and not isinstance(x, Sym):
        if x == 1:
            return 0.0
        x = SReal(real_val(x))
    z = to_real(num_z(x))
    if P().fork(z <= 0):
        raise ValueError('math domain error')
    z = z3.simplify(z)
    if z3.is_app(z) and z.decl().eq(EXP):
        return SReal(z.arg(0))
    t = LOG(z)
    P().axiom(('log', z.get_id()), lambda: [EXP(t) == z, z3.Implies(z == 1, t == 0), z3.Implies(z > 1, t > 0),
                                            z3.Implies(z < 1, t < 0)])
    P().root.keep.append(z)
    return SReal(t)


def s_sqrt(x):
    if is_num(x) and not isinstance(x, Sym):
        r = math.isqrt(int(x)) if float(x).is_integer() and x >= 0 else None
        if r is not None and r * r == x:
            return float(r)
        x = SReal(real_val(x))
    z = to_real(num_z(x))
    if P().fork(z < 0):
        raise ValueError('math domain error')
    z = norm(z)
    t = SQRT(z)
    P().axiom(('sqrt', z.get_id()), lambda: [t >= 0, t * t == z])
    P().root.keep.append(z)
    return SReal(t)


def s_pow(a, b):
    if isinstance(b, Sym):
        zb = z3.simplify(num_z(b))
        if z3.is_int_value(zb):
            b = zb.as_long()
        elif z3.is_rational_value(zb) and zb.denominator_as_long() == 1:
            b = zb.numerator_as_long()
    if not isinstance(b, Sym):
        if float(b).is_integer() and abs(b) <= 8:
            n = int(b)
            r = 1
            for _ in range(abs(n)):
                r = r * a
            return r if n >= 0 else 1 / r
        if float(b) == 0.5:
            return s_sqrt(a)
    za, zb = norm(to_real(num_z(a))), norm(to_real(num_z(b)))
    if not P().known(za > 0):
        if P().fork(za <= 0):
            raise Unsupported('power of a non-positive base')
    t = POW(za, zb)
    P().axiom(('pow', t.get_id()), lambda: [t > 0, z3.Implies(zb == 0, t == 1), z3.Implies(za == 1, t == 1),
                                            z3.Implies(zb == 1, t == za)])
    P().root.keep.append(t)
    return SReal(t)


# --------------------------------------------------------------------------------------------
# dates

YEAR = z3.Function('year', z3.IntSort(), z3.IntSort())
MONTH = z3.Function('month', z3.IntSort(), z3.IntSort())
DAY = z3.Function('day', z3.IntSort(), z3.IntSort())


LEAP = z3.Function('leap_year', z3.IntSort(), z3.BoolSort())
DBY = z3.Function('days_before_year', z3.IntSort(), z3.IntSort())


def _is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def leap_def(y):
    return LEAP(y) == z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def dby_def(y):
    q = y - 1
    return DBY(y) == 365 * q + q / 4 - q / 100 + q / 400


def _ylen(y):
    return z3.IntVal(366 if _is_leap(y.as_long()) else 365) if z3.is_int_value(y) else z3.If(LEAP(y), z3.IntVal(366), z3.IntVal(365))


def _dby(y):
    if z3.is_int_value(y):
        q = y.as_long() - 1
        return z3.IntVal(365 * q + q // 4 - q // 100 + q // 400)
    return DBY(y)


def note_year(y):
    """the facts about the length and the start of a year, and their order relative to the other years in use"""
    y = z3.simplify(y)
    p = P()
    root = p.root
    ys = root.__dict__.setdefault('years', [])

    def ax():
        fs = []
        if not z3.is_int_value(y):
            fs.append(_dby(z3.simplify(y + 1)) == _dby(y) + _ylen(y))
            fs.append(z3.And(400 * DBY(y) >= 146097 * (y - 1) - 800, 400 * DBY(y) <= 146097 * (y - 1) + 800))
            if 'leap' in CTX.reveal or root.__dict__.get('leap_mod'):
                P().axiom(('leapdef', y.get_id()), lambda: [leap_def(y)])
        for x in ys[-14:]:
            if x.eq(y) or (z3.is_int_value(x) and z3.is_int_value(y)):
                continue
            for a, b in ((x, y), (y, x)):
                fs.append(z3.Implies(a < b, _dby(b) >= _dby(a) + _ylen(a) + 365 * (b - a - 1)))
                fs.append(z3.Implies(a < b, _dby(b) <= _dby(a) + _ylen(a) + 366 * (b - a - 1)))
            fs.append(z3.Implies(x == y, z3.And(_dby(x) == _dby(y))))
        if not any(x.eq(y) for x in ys):
            ys.append(y)
        root.keep.append(y)
        return fs
    p.axiom(('year', y.get_id()), ax)
    return y


def reveal_leap():
    """the modular definition of leap years becomes available (the code itself computes year % 4)"""
    root = P().root
    root.leap_mod = True
    for y in root.__dict__.get('years', []):
        if not z3.is_int_value(y):
            P().axiom(('leapdef', y.get_id()), lambda y=y: [leap_def(y)])


def calendar_defs():
    """full definitions of the calendar functions for the years in use"""
    out = []
    for y in P().root.__dict__.get('years', []):
        if not z3.is_int_value(y):
            out += [leap_def(y), dby_def(y), dby_def(y + 1)]
    return out


def leap_z(y):
    y = note_year(y)
    if z3.is_int_value(y):
        return z3.BoolVal(_is_leap(y.as_long()))
    return LEAP(y)


def dby_z(y):
    """days before 1 January of year y"""
    return _dby(note_year(y))


_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def dim_z(y, m):
    e = z3.IntVal(31)
    for mm in (4, 6, 9, 11):
        e = z3.If(m == mm, z3.IntVal(30), e)
    return z3.If(m == 2, z3.If(leap_z(y), z3.IntVal(29), z3.IntVal(28)), e)


def dbm_z(y, m):
    e = z3.IntVal(0)
    for mm in range(12, 1, -1):
        pass
    for mm in range(2, 13):
        e = z3.If(m == mm, z3.IntVal(_CUM[mm - 1]), e)
    return e + z3.If(z3.And(m > 2, leap_z(y)), z3.IntVal(1), z3.IntVal(0))


def ymd_axioms(o, y, m, d):
    return [m >= 1, m <= 12, d >= 1, d <= dim_z(y, m), o == dby_z(y) + dbm_z(y, m) + d]


def lex_le(a, b):
    (y1, m1, d1), (y2, m2, d2) = a, b
    return z3.Or(y1 < y2, z3.And(y1 == y2, z3.Or(m1 < m2, z3.And(m1 == m2, d1 <= d2))))


class SDate(Sym):
    def __init__(self, o, ymd=None):
        self.o = z3.simplify(o)
        self._ymd = ymd

    @property
    def z(self):
        return self.o

    def __repr__(self):
        return f'<date {self.o}>'

    def ymd(self):
        if self._ymd is not None:
            return self._ymd
        o = self.o
        if z3.is_int_value(o):
            d = _dt.date.fromordinal(o.as_long())
            self._ymd = (z3.IntVal(d.year), z3.IntVal(d.month), z3.IntVal(d.day))
            return self._ymd
        y, m, d = YEAR(o), MONTH(o), DAY(o)
        p = P()

        def ax():
            fs = ymd_axioms(o, y, m, d)
            for (o2, t2) in p.root.dates[-10:]:
                if not o2.eq(o):
                    fs += [(o <= o2) == lex_le((y, m, d), t2), (o2 <= o) == lex_le(t2, (y, m, d))]
            p.root.dates.append((o, (y, m, d)))
            p.root.keep.append(o)
            return fs
        p.axiom(('ymd', o.get_id()), ax)
        return (y, m, d)

    @property
    def year(self): return SInt(self.ymd()[0])

    @property
    def month(self): return SInt(self.ymd()[1])

    @property
    def day(self): return SInt(self.ymd()[2])

    def weekday(self): return SInt(z3.simplify((self.o + 6) % 7))
    def isoweekday(self): return SInt(z3.simplify((self.o + 6) % 7 + 1))
    def toordinal(self): return SInt(self.o)

    def replace(self, year=None, month=None, day=None):
        y, m, d = self.ymd()
        return make_date(SInt(y) if year is None else year, SInt(m) if month is None else month,
                         SInt(d) if day is None else day)

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return SDate(self.o + o.days)
        if isinstance(o, SDelta):
            return SDate(self.o + floor_div(o.us, US_DAY))
        rd = as_rd(o)
        if rd is not None:
            return rd_add(self, rd)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return SDate(self.o - o.days)
        if isinstance(o, SDelta):
            return SDate(self.o - floor_div(o.us, US_DAY))
        if isinstance(o, SDateTime) or isinstance(o, _dt.datetime):
            raise TypeError("unsupported operand type(s) for -: 'datetime.date' and 'datetime.datetime'")
        if isinstance(o, (SDate, _dt.date)):
            return SDelta((self.o - lift_date(o).o) * US_DAY)
        rd = as_rd(o)
        if rd is not None:
            return rd_add(self, rd.neg())
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            raise TypeError('datetime - date')
        if isinstance(o, _dt.date):
            return SDelta((lift_date(o).o - self.o) * US_DAY)
        return NotImplemented

    def _c(self, o, f):
        if isinstance(o, (SDateTime, _dt.datetime)):
            raise TypeError("can't compare datetime.datetime to datetime.date")
        if isinstance(o, (SDate, _dt.date)):
            return SBool(z3.simplify(f(self.o, lift_date(o).o)))
        return NotImplemented

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (SDate, _dt.date)) and not isinstance(o, _dt.datetime):
            return SBool(z3.simplify(self.o == lift_date(o).o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is False else SBool(z3.simplify(z3.Not(r.z)))

    __hash__ = Sym.__hash__


def lift_date(d):
    if isinstance(d, SDate):
        return d
    return SDate(z3.IntVal(d.toordinal()), (z3.IntVal(d.year), z3.IntVal(d.month), z3.IntVal(d.day)))


def us_of(dt: _dt.datetime):
    return dt.toordinal() * US_DAY + ((dt.hour * 60 + dt.minute) * 60 + dt.second) * 1_000_000 + dt.microsecond


def td_us(td: _dt.timedelta):
    return (td.days * 86400 + td.seconds) * 1_000_000 + td.microseconds


DT_DAY = z3.Function('dt_day', z3.IntSort(), z3.IntSort())
DT_US = z3.Function('dt_us', z3.IntSort(), z3.IntSort())


class SDateTime(Sym):
    def __init__(self, t, o=None, us=None):
        self.t = z3.simplify(t)
        self._o, self._us = o, us

    @property
    def z(self):
        return self.t

    def __repr__(self):
        return f'<datetime {self.t}>'

    def split(self):
        if self._o is not None:
            return self._o, self._us
        t = self.t
        if z3.is_int_value(t):
            v = t.as_long()
            self._o, self._us = z3.IntVal(v // US_DAY), z3.IntVal(v % US_DAY)
            return self._o, self._us
        p = P()
        o, us = DT_DAY(t), DT_US(t)
        p.axiom(('dt', t.get_id()), lambda: [t == o * US_DAY + us, us >= 0, us < US_DAY])
        p.root.keep.append(t)
        return o, us

    def date(self): return SDate(self.split()[0])

    @property
    def year(self): return self.date().year

    @property
    def month(self): return self.date().month

    @property
    def day(self): return self.date().day

    @property
    def hour(self): return SInt(self.split()[1] / 3_600_000_000)

    @property
    def minute(self): return SInt((self.split()[1] / 60_000_000) % 60)

    @property
    def second(self): return SInt((self.split()[1] / 1_000_000) % 60)

    @property
    def microsecond(self): return SInt(self.split()[1] % 1_000_000)

    def weekday(self): return self.date().weekday()
    def toordinal(self): return SInt(self.split()[0])

    def replace(self, **kw):
        if set(kw) <= {'hour', 'minute', 'second', 'microsecond'} and all(v == 0 for v in kw.values()) and len(kw) == 4:
            return SDateTime(self.split()[0] * US_DAY, self.split()[0], z3.IntVal(0))
        raise Unsupported('datetime.replace')

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return SDateTime(self.t + td_us(o))
        if isinstance(o, SDelta):
            return SDateTime(self.t + o.us)
        rd = as_rd(o)
        if rd is not None:
            if rd.is_pure_duration():
                return SDateTime(self.t + rd.duration_us())
            o_, us = self.split()
            d = rd_add(SDate(o_), rd.date_part())
            return SDateTime(d.o * US_DAY + us + rd.duration_us())
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return SDateTime(self.t - td_us(o))
        if isinstance(o, SDelta):
            return SDateTime(self.t - o.us)
        if isinstance(o, SDateTime):
            return SDelta(self.t - o.t)
        if isinstance(o, _dt.datetime):
            return SDelta(self.t - us_of(o))
        if isinstance(o, (_dt.date, SDate)):
            raise TypeError('datetime - date')
        rd = as_rd(o)
        if rd is not None:
            return self + rd.neg()
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return SDelta(us_of(o) - self.t)
        return NotImplemented

    def _c(self, o, f):
        if isinstance(o, SDateTime):
            return SBool(z3.simplify(f(self.t, o.t)))
        if isinstance(o, _dt.datetime):
            return SBool(z3.simplify(f(self.t, z3.IntVal(us_of(o)))))
        if isinstance(o, (SDate, _dt.date)):
            raise TypeError("can't compare datetime.datetime to datetime.date")
        return NotImplemented

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (SDateTime, _dt.datetime)):
            return self._c(o, lambda a, b: a == b)
        return False

    def __ne__(self, o):
        if isinstance(o, (SDateTime, _dt.datetime)):
            return self._c(o, lambda a, b: a != b)
        return True

    __hash__ = Sym.__hash__


def lift_dt(x):
    if isinstance(x, SDateTime):
        return x
    return SDateTime(z3.IntVal(us_of(x)))


def floor_div(z, k):
    """z // k, exactly where z is evidently a sum of multiples of k"""
    z = z3.simplify(z)

    def part(t):
        if z3.is_int_value(t):
            v = t.as_long()
            return z3.IntVal(v // k) if v % k == 0 else None
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % k == 0:
            rest = t.children()[1:]
            q = z3.IntVal(t.arg(0).as_long() // k)
            for r in rest:
                q = q * r
            return q
        return None
    parts = [part(t) for t in (z.children() if z3.is_add(z) else [z])]
    whole = [q for q in parts if q is not None]
    left = [t for t, q in zip(z.children() if z3.is_add(z) else [z], parts) if q is None]
    out = z3.Sum(whole) if whole else z3.IntVal(0)
    if left:
        out = out + z3.Sum(left) / k
    return z3.simplify(out)


class SDelta(Sym):
    def __init__(self, us):
        self.us = z3.simplify(us) if not isinstance(us, int) else z3.IntVal(us)

    @property
    def z(self):
        return self.us

    @property
    def days(self): return SInt(floor_div(self.us, US_DAY))

    @property
    def seconds(self): return SInt(z3.simplify((self.us % US_DAY) / 1_000_000))

    @property
    def microseconds(self): return SInt(z3.simplify(self.us % 1_000_000))

    def total_seconds(self): return SReal(z3.simplify(z3.ToReal(self.us) / 1_000_000))

    def _l(self, o):
        if isinstance(o, SDelta):
            return o.us
        if isinstance(o, _dt.timedelta):
            return z3.IntVal(td_us(o))
        return None

    def __add__(self, o):
        l = self._l(o)
        if l is None:
            if isinstance(o, _dt.datetime):
                return SDateTime(us_of(o) + self.us)
            if isinstance(o, _dt.date):
                return lift_date(o) + self
            return NotImplemented
        return SDelta(self.us + l)

    __radd__ = __add__

    def __sub__(self, o):
        l = self._l(o)
        return NotImplemented if l is None else SDelta(self.us - l)

    def __rsub__(self, o):
        l = self._l(o)
        if l is None:
            if isinstance(o, _dt.datetime):
                return SDateTime(us_of(o) - self.us)
            if isinstance(o, _dt.date):
                return lift_date(o) - self
            return NotImplemented
        return SDelta(l - self.us)

    def __neg__(self): return SDelta(-self.us)

    def __mul__(self, o):
        if isinstance(o, (int, SInt)):
            return SDelta(self.us * num_z(o))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        l = self._l(o)
        if l is not None:
            return SReal(z3.ToReal(self.us)) / SReal(z3.ToReal(l))
        return NotImplemented

    def __floordiv__(self, o):
        l = self._l(o)
        if l is not None:
            l = z3.simplify(l)
            if z3.is_int_value(l) and l.as_long() > 0:
                return SInt(z3.simplify(self.us / l))
        raise Unsupported('timedelta // x')

    def _c(self, o, f):
        l = self._l(o)
        return NotImplemented if l is None else SBool(z3.simplify(f(self.us, l)))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return False if self._l(o) is None else self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return True if self._l(o) is None else self._c(o, lambda a, b: a != b)
    __hash__ = Sym.__hash__

    def __bool__(self): return P().fork(self.us != 0)


def make_date(y, m, d):
    """model of datetime.date(y, m, d)"""
    if not any(isinstance(v, Sym) for v in (y, m, d)):
        return _dt.date(y, m, d)
    zy, zm, zd = (z3.simplify(num_z(v)) for v in (y, m, d))
    ok = z3.And(zy >= 1, zy <= 9999, zm >= 1, zm <= 12, zd >= 1, zd <= dim_z(zy, zm))
    if not P().known(ok):
        if not P().fork(ok):
            raise ValueError('day is out of range for month')
    o = z3.simplify(dby_z(zy) + dbm_z(zy, zm) + zd)
    # year/month/day of the new ordinal are the given ones (uniqueness of the calendar triple)
    P().axiom(('mk', o.get_id()), lambda: [YEAR(o) == zy, MONTH(o) == zm, DAY(o) == zd])
    P().root.keep.append(o)
    r = SDate(o, (zy, zm, zd))
    return r


# --------------------------------------------------------------------------------------------
# relativedelta

class RD:
    """months (years folded in), absolute day-of-month override, and a fixed duration."""

    def __init__(self, months=0, day=None, days=0, us=0):
        self.months, self.day, self.days, self.us = months, day, days, us

    def neg(self):
        return RD(-self.months, self.day, -self.days, -self.us)

    def is_pure_duration(self):
        return self.day is None and not isinstance(self.months, Sym) and self.months == 0

    def date_part(self):
        return RD(self.months, self.day, 0, 0)

    def duration_us(self):
        return num_z(self.days) * US_DAY + num_z(self.us)


class SRelDelta(Sym):
    """relativedelta with symbolic years or months"""
    def __init__(self, rd):
        self.rd = rd

    def __neg__(self):
        return SRelDelta(self.rd.neg())

    def __add__(self, o):
        r = as_rd(o)
        if r is not None:
            return SRelDelta(RD(self.rd.months + r.months, r.day if r.day is not None else self.rd.day,
                                self.rd.days + r.days, self.rd.us + r.us))
        if isinstance(o, _dt.datetime):
            return lift_dt(o) + self
        if isinstance(o, _dt.date):
            return lift_date(o) + self
        if isinstance(o, (SDate, SDateTime)):
            return o + self
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, _dt.datetime):
            return lift_dt(o) + self
        if isinstance(o, _dt.date):
            return lift_date(o) + self
        r = as_rd(o)
        if r is not None:
            return SRelDelta(r) + self
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return lift_dt(o) - self
        if isinstance(o, _dt.date):
            return lift_date(o) - self
        return NotImplemented


def as_rd(o):
    from dateutil.relativedelta import relativedelta
    if isinstance(o, SRelDelta):
        return o.rd
    if isinstance(o, RD):
        return o
    if isinstance(o, relativedelta):
        if any(getattr(o, f) is not None for f in ('year', 'month', 'weekday', 'hour', 'minute', 'second',
                                                    'microsecond')) or o.leapdays:
            raise Unsupported('relativedelta with absolute fields')
        us = ((o.hours * 60 + o.minutes) * 60 + o.seconds) * 1_000_000 + o.microseconds
        return RD(o.years * 12 + o.months, o.day, o.days, us)
    return None


def _fn(name, n, rng=None):
    return z3.Function(name, *([z3.IntSort()] * n), rng or z3.IntSort())


ADDM = _fn('addmonths', 2)
ADDMD = _fn('addmonths_day', 3)


def rd_add(d: SDate, rd: RD) -> SDate:
    """date + relativedelta: shift by months keeping the day (clipped to the month), then override the
    day (clipped), then add the duration's whole days."""
    zm = z3.simplify(num_z(rd.months))
    trivial = z3.is_int_value(zm) and zm.as_long() == 0 and rd.day is None
    o = d.o
    if not trivial:
        p = P()
        if rd.day is None:
            t = ADDM(o, zm)
        else:
            t = ADDMD(o, zm, num_z(rd.day))
        reveal = 'months' in CTX.reveal
        key = ('addm', t.get_id())
        p.root.keep.append(t)

        def ax():
            if reveal:
                y, m, dd = SDate(o, d._ymd).ymd()
                tot = y * 12 + (m - 1) + zm
                ny, nm = tot / 12, tot % 12 + 1
                day = dd if rd.day is None else num_z(rd.day)
                dim = dim_z(ny, nm)
                nd = z3.If(day <= dim, day, dim)
                ty, tm, td = YEAR(t), MONTH(t), DAY(t)
                fs = [ty == ny, tm == nm, td == nd] + ymd_axioms(t, ty, tm, td)
                return fs
            if rd.day is None:
                return [z3.Implies(zm > 0, z3.And(t >= o + 28, t >= o + 28 * zm, t <= o + 31 * zm)),
                        z3.Implies(zm < 0, z3.And(t <= o - 28, t <= o + 28 * zm, t >= o + 31 * zm - 3)),
                        z3.Implies(zm == 0, t == o)]
            if z3.is_int_value(num_z(rd.day)) and rd.day == 31:
                return [z3.Implies(zm > 0, t >= o + 28), z3.Implies(zm == 0, z3.And(t >= o, t <= o + 30)),
                        z3.Implies(zm < 0, t < o), DAY(t + 1) == 1]
            return []
        p.axiom(key, ax)
        if reveal:
            r = SDate(t, (YEAR(t), MONTH(t), DAY(t)))
            p.root.dates.append((t, r._ymd))
            o = t
            if not (z3.is_int_value(z3.simplify(num_z(rd.days))) and z3.simplify(num_z(rd.days)).as_long() == 0):
                return SDate(o + num_z(rd.days))
            return r
        o = t
    return SDate(o + num_z(rd.days) + (num_z(rd.us) / US_DAY if not (isinstance(rd.us, int) and rd.us == 0) else 0))


# --------------------------------------------------------------------------------------------
# strings of the form "<int><unit>" (tenors)

class STenor(Sym):
    def __init__(self, n, unit):
        self.n, self.unit = n, unit

    def __getitem__(self, key):
        if isinstance(key, slice) and key == slice(None, -1):
            return STenorNumber(self.n)
        if key == -1:
            return self.unit
        raise Unsupported('tenor string operation')

    def endswith(self, s): return s == self.unit
    def upper(self): return self
    def strip(self): return self
    def __repr__(self): return f'<tenor {self.n}{self.unit}>'
    def __str__(self): return f'<tenor {self.n}{self.unit}>'

    def __eq__(self, o):
        if isinstance(o, str):
            if o[-1:] != self.unit:
                return False
            try:
                return self.n == int(o[:-1])
            except ValueError:
                return False
        return NotImplemented

    __hash__ = Sym.__hash__


class STenorNumber(Sym):
    def __init__(self, n):
        self.n = n


# --------------------------------------------------------------------------------------------
# generic helpers on values

def ite(c, a, b):
    """If-then-else on values; raises Unsupported when the shapes differ."""
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    if num_z(a) is not None and num_z(b) is not None and not (isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool))):
        if not isinstance(a, Sym) and not isinstance(b, Sym) and type(a) == type(b) and a == b:
            return a
        za, zb = num_z(a), num_z(b)
        if za.sort() != zb.sort():
            za, zb = to_real(za), to_real(zb)
        if za.eq(zb):
            return a
        return wrap(z3.simplify(z3.If(c, za, zb)))
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool(z3.simplify(z3.If(c, bool_z(a), bool_z(b))))
    if isinstance(a, (SDateTime, _dt.datetime)) and isinstance(b, (SDateTime, _dt.datetime)):
        return SDateTime(z3.If(c, lift_dt(a).t, lift_dt(b).t))
    if isinstance(a, (SDate, _dt.date)) and isinstance(b, (SDate, _dt.date)) and not any(
            isinstance(x, (SDateTime, _dt.datetime)) for x in (a, b)):
        return SDate(z3.If(c, lift_date(a).o, lift_date(b).o))
    if isinstance(a, SDelta) or isinstance(b, SDelta):
        return SDelta(z3.If(c, a._l(a) if isinstance(a, SDelta) else b._l(a), b._l(b) if isinstance(b, SDelta) else a._l(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) == type(b):
        vals = [ite(c, x, y) for x, y in zip(a, b)]
        return type(a)(*vals) if hasattr(a, '_fields') else tuple(vals)
    import numpy as np
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = ite(c, a[i], b[i])
        return out
    if a is None and b is None:
        return None
    if isinstance(a, enum.Enum) and a is b:
        return a
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    import dataclasses
    if dataclasses.is_dataclass(a) and type(a) == type(b):
        import copy
        r = copy.copy(a)
        for f in dataclasses.fields(a):
            setattr(r, f.name, ite(c, getattr(a, f.name), getattr(b, f.name)))
        return r
    raise Unsupported(f'cannot merge {type(a).__name__} with {type(b).__name__}')


def subst(v, pairs):
    """Substitute z3 constants inside a value."""
    import numpy as np
    import dataclasses
    if isinstance(v, (SInt, SReal)):
        return wrap(z3.substitute(v.z, *pairs)) if isinstance(v, SInt) else SReal(z3.substitute(v.z, *pairs))
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.z, *pairs))
    if isinstance(v, SDate):
        return SDate(z3.substitute(v.o, *pairs))
    if isinstance(v, SDateTime):
        return SDateTime(z3.substitute(v.t, *pairs))
    if isinstance(v, SDelta):
        return SDelta(z3.substitute(v.us, *pairs))
    if isinstance(v, tuple):
        vals = [subst(x, pairs) for x in v]
        return type(v)(*vals) if hasattr(v, '_fields') else tuple(vals)
    if isinstance(v, list) and type(v) is list:
        return [subst(x, pairs) for x in v]
    if isinstance(v, np.ndarray) and v.dtype == object:
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = subst(v[i], pairs)
        return out
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        import copy
        r = copy.copy(v)
        for f in dataclasses.fields(v):
            setattr(r, f.name, subst(getattr(v, f.name), pairs))
        return r
    if hasattr(v, 'pyvc_subst'):
        return v.pyvc_subst(pairs)
    return v


def eq_z(a, b):
    """z3 (or bool) equality of two values as the property means it: numbers numerically, sequences
    element-wise is left to the prover."""
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = a == b
        if r is NotImplemented:
            return z3.BoolVal(False)
        return bool_z(r)
    return z3.BoolVal(bool(a == b))
