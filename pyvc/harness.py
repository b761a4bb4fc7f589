"""Goals: Python functions over a harness `h`, run symbolically (interpreted; every check becomes an obligation that is
discharged for all inputs) and concretely (replay of counter-models and bounded conformance runs)."""
from __future__ import annotations
import re
import datetime as _dt
import enum
import math
import random
import time
import traceback
from fractions import Fraction
import numpy as np
import z3
from . import sym as S
from . import seqs as Q
from . import models as MD
from . import prove as PR
from .sym import (CTX, P, Path, Sym, SInt, SReal, SBool, SDate, SDateTime, SDelta, Unsupported, Infeasible, EngineSignal,
                  num_z, bool_z, alternatives)
from .seqs import SSeq, SList, SOpt, as_seq, unopt


class Goal:
    def __init__(self, fn, cases, uses, reveal, n, name, symbolic, timeout_s, tol, weight, bounded, concrete, setup):
        self.fn, self.cases, self.uses, self.reveal, self.n = fn, cases, uses, reveal, n
        self.name, self.symbolic, self.timeout_s, self.tol = name, symbolic, timeout_s, tol
        self.weight, self.bounded, self.concrete, self.setup = weight, bounded, concrete, setup


def goal(cases=(None,), uses=(), reveal=(), n=60, name=None, symbolic=True, timeout_s=60, tol=1e-9, weight=1,
         bounded=None, concrete=True, setup=None):
    def deco(f):
        f.pyvc_goal = Goal(f, list(cases), tuple(uses), set(reveal), n, name or f.__name__, symbolic, timeout_s, tol,
                           weight, bounded, concrete, setup)
        return f
    return deco


class CheckFailed(Exception):
    pass


class Skip(Exception):
    pass


class Obligation:
    def __init__(self, name, ok, backend, t, detail='', model=None, sat=False, abstract=()):
        self.name, self.ok, self.backend, self.time, self.detail, self.model = name, ok, backend, t, detail, model
        self.sat, self.abstract = sat, list(abstract)


# ------------------------------------------------------------------------------------------------
# symbolic harness

class SymH:
    symbolic = True

    def __init__(self, interp, prover, case):
        self.it, self.prover, self.case = interp, prover, case
        self.obls = []
        self.inputs = []

    # inputs -----------------------------------------------------------------------------------
    def _reg(self, name, kind, term):
        self.inputs.append((name, kind, term))
        return term

    def date(self, name, lo=None, hi=None):
        o = z3.Int(name)
        lo = CTX.date_lo if lo is None else lo.toordinal()
        hi = CTX.date_hi if hi is None else hi.toordinal()
        P().fact(z3.And(o >= lo, o <= hi))
        self._reg(name, 'date', o)
        return SDate(o)

    def datetime(self, name, lo=None, hi=None):
        o, us = z3.Int(name + '_d'), z3.Int(name + '_us')
        lo = CTX.date_lo if lo is None else lo.toordinal()
        hi = CTX.date_hi if hi is None else hi.toordinal()
        P().fact(z3.And(o >= lo, o <= hi, us >= 0, us < S.US_DAY))
        self._reg(name, 'datetime', (o, us))
        return SDateTime(o * S.US_DAY + us, o, us)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        z = z3.Real(name)
        if lo is not None:
            P().fact(z >= S.real_val(lo))
        if hi is not None:
            P().fact(z <= S.real_val(hi))
        if pos:
            P().fact(z > 0)
        if nonneg:
            P().fact(z >= 0)
        self._reg(name, 'real', z)
        return SReal(z)

    def int(self, name, lo=None, hi=None):
        z = z3.Int(name)
        if lo is not None:
            P().fact(z >= lo)
        if hi is not None:
            P().fact(z <= hi)
        self._reg(name, 'int', z)
        return SInt(z)

    def bool(self, name):
        z = z3.Bool(name)
        self._reg(name, 'bool', z)
        return P().fork(z)

    def tenor(self, name, units='YM', lo=1, hi=None):
        """a string such as '10Y' with an arbitrary number"""
        n = self.int(name, lo, hi)
        return S.STenor(n, self.choice(name + '_unit', list(units)))

    def choice(self, name, options):
        options = list(options)
        i = P().choose(len(options))
        self._reg(name, 'choice', i)
        return options[i]

    def fn(self, name, args=('date',), ret='real', pos=False, lo=None, hi=None):
        """an arbitrary function of the arguments (dates, timestamps, numbers)"""
        sorts = [z3.IntSort() if a in ('date', 'datetime', 'int') else z3.RealSort() for a in args]
        F = z3.Function('in_' + name, *sorts, {'real': z3.RealSort(), 'int': z3.IntSort(), 'bool': z3.BoolSort(),
                                               'date': z3.IntSort()}[ret])
        self._reg(name, ('fn', args, ret, pos, lo, hi), F)

        def facts(t):
            if pos or lo is not None or hi is not None:
                P().axiom(('fnrng', t.get_id()), lambda: ([t > 0] if pos else []) +
                          ([t >= S.real_val(lo)] if lo is not None else []) +
                          ([t <= S.real_val(hi)] if hi is not None else []))
                P().root.keep.append(t)
        if pos or lo is not None or hi is not None:
            P().root.input_fns[F.name()] = facts

        def f(*xs):
            zs = []
            for a, x in zip(args, xs):
                x = unopt(x)
                if a == 'date':
                    if isinstance(x, (SDateTime, _dt.datetime)):
                        raise Unsupported('timestamp given to a function of dates')
                    zs.append(S.lift_date(x).o)
                elif a == 'datetime':
                    zs.append(S.lift_dt(x).t)
                elif a == 'int':
                    zs.append(num_z(x))
                else:
                    zs.append(S.to_real(num_z(x)))
            t = z3.simplify(F(*zs))
            facts(t)
            if ret == 'date':
                return SDate(t)
            return S.wrap(t)
        return f

    def seq(self, name, kind='real', min_len=0, sorted_strict=False, sorted_weak=False, lo=None, hi=None, pos=False,
            key=None, fixed=None, distinct=False, gap=1):
        """list of arbitrary length; kind is a scalar kind or a tuple of kinds ('opt:real' may be None)"""
        n = z3.Int(name + '_len') if fixed is None else z3.IntVal(fixed)
        P().fact(n >= min_len)
        kinds = kind if isinstance(kind, tuple) else (kind,)
        fs = []
        for j, kd in enumerate(kinds):
            base = kd.split(':')[-1]
            F = z3.Function(f'in_{name}_{j}', z3.IntSort(), z3.RealSort() if base == 'real' else
                            z3.BoolSort() if base == 'bool' else z3.IntSort())
            G = z3.Function(f'in_{name}_{j}_none', z3.IntSort(), z3.BoolSort()) if kd.startswith('opt:') else None
            fs.append((kd, base, F, G))
        self._reg(name, ('seq', kind), (n, fs))
        sort_ix = 0
        seen = []

        def get(i):
            out = []
            p = P()
            for kd, base, F, G in fs:
                t = F(i)
                if base == 'date':
                    p.axiom(('sd', t.get_id()), lambda t=t: [t >= (CTX.date_lo if lo is None else lo.toordinal()),
                                                            t <= (CTX.date_hi if hi is None else hi.toordinal())])
                    v = SDate(t)
                elif base == 'datetime':
                    p.axiom(('sd', t.get_id()), lambda t=t: [t >= CTX.date_lo * S.US_DAY, t <= CTX.date_hi * S.US_DAY])
                    v = SDateTime(t)
                elif base == 'bool':
                    v = SBool(t)
                else:
                    if pos and base == 'real':
                        p.axiom(('sp', t.get_id()), lambda t=t: [t > 0])
                    v = S.wrap(t)
                p.root.keep.append(t)
                if G is not None:
                    v = SOpt(G(i), v)
                out.append(v)
            if sorted_strict or sorted_weak or distinct:
                F = fs[sort_ix][2]

                def ax():
                    r = []
                    live, ids = [], set()
                    for j in seen:
                        if j.get_id() not in ids and not j.eq(i) and not Q.retired(j):
                            ids.add(j.get_id())
                            live.append(j)
                    for j in live[:3] + live[3:][-14:]:
                        rng = z3.And(i >= 0, i < n, j >= 0, j < n)
                        if distinct:
                            r.append(z3.Implies(z3.And(rng, i != j), z3.Or(F(i) >= F(j) + gap, F(j) >= F(i) + gap)))
                        elif sorted_strict:
                            r.append(z3.Implies(rng, z3.And((i < j) == (F(i) < F(j)), (i == j) == (F(i) == F(j)),
                                                            z3.Implies(i < j, F(j) - F(i) >= gap * (j - i)),
                                                            z3.Implies(j < i, F(i) - F(j) >= gap * (i - j)))))
                        else:
                            r.append(z3.Implies(z3.And(rng, i <= j), F(i) <= F(j)))
                            r.append(z3.Implies(z3.And(rng, j <= i), F(j) <= F(i)))
                    seen.append(i)
                    return r
                p.axiom(('srt', name, i.get_id()), ax)
                p.root.keep.append(i)
            return out[0] if not isinstance(kind, tuple) else tuple(out)
        P().root.input_fns[fs[sort_ix][2].name()] = lambda t: get(t.arg(0))
        if fixed is not None:
            return SList([get(z3.IntVal(i)) for i in range(fixed)])
        return SList.of(SSeq(n, get))

    def opaque(self, name, **attrs):
        return Opaque(name, attrs)

    def const(self, name, value):
        return value

    # statements -------------------------------------------------------------------------------
    def assume(self, c):
        c = unopt(c)
        z = z3.simplify(bool_z(c))
        if z3.is_false(z):
            raise Infeasible()
        P().fact(z)
        if P().check(z3.BoolVal(True)) == z3.unsat:
            raise Infeasible()

    def call(self, f, *a, **k):
        return self.it.call(f, a, k)

    def _prove(self, name, z):
        p = P()
        r = self.prover.prove(z)
        self.obls.append(Obligation(self._nm(name), r.ok, r.backend, r.time, r.detail, self._model(r.model), r.sat,
                                    p.root.abstract))
        if r.ok:
            p.fact(z)
        else:
            raise GoalFailed()

    def _nm(self, name):
        return name

    def _model(self, m):
        if m is None:
            return None
        return {name: model_value(m, kind, term) for name, kind, term in self.inputs}

    def check(self, name, c):
        c = unopt(c)
        if not isinstance(c, Sym) and not isinstance(c, (bool, np.bool_)) and c is not None:
            c = bool(c)
        if isinstance(c, SBool) or isinstance(c, z3.BoolRef):
            z = bool_z(c)
        else:
            z = z3.BoolVal(bool(c))
        self._prove(name, z)

    def eq(self, name, a, b, tol=None):
        z = self.eqz(name, a, b)
        if z is not None:
            self._prove(name, z)

    def eqz(self, name, a, b):
        a, b = self._norm(a), self._norm(b)
        if isinstance(a, (SSeq,)) or isinstance(b, SSeq):
            A, B = as_seq(a), as_seq(b)
            self._prove(name + '.length', A.n == B.n)
            i = z3.FreshInt('e')
            with PR.scope([i >= 0, i < A.n], [i]):
                self.eq(name + '.element', A.get(i), B.get(i))
            return None
        la, lb = [], []
        sa, sb = Q.flatten(a, la), Q.flatten(b, lb)
        if sa != sb:
            try:
                sk, la, lb = Q.unify(sa, la, sb, lb)
            except Unsupported:
                return z3.BoolVal(False)
            if 'opt' in repr(sk):
                return self._opt_eq(a, b)
        zs = []
        for x, y in zip(la, lb):
            if x.sort() != y.sort():
                x, y = S.to_real(x), S.to_real(y)
            zs.append(x == y)
        return z3.And(*zs) if len(zs) != 1 else zs[0]

    def _opt_eq(self, a, b):
        a, b = unopt(a), unopt(b)
        if a is None or b is None:
            return z3.BoolVal(a is None and b is None)
        return self.eqz('', a, b)

    def _norm(self, v):
        if isinstance(v, SList):
            return v.sym if v.sym is not None else [self._norm(x) for x in v.items()]
        if isinstance(v, list) and type(v) is list:
            return [self._norm(x) for x in v]
        if isinstance(v, MD.SArr):
            return v.seq
        return v

    def close(self, name, a, b, tol=1e-6):
        self.eq(name, a, b)

    def raises(self, name, exc, f):
        try:
            self.it.call(f, ())
        except EngineSignal:
            raise
        except exc as e:
            if engine_error(e):
                raise Unsupported(f'{type(e).__name__}: {e}') from e
            self.obls.append(Obligation(self._nm(name), True, 'path', 0.0))
            return
        except Exception as e:
            if engine_error(e):
                raise Unsupported(f'{type(e).__name__}: {e}') from e
            self.obls.append(Obligation(self._nm(name), *self._feasible(), detail=f'raised {e!r} instead of the expected error'))
            raise GoalFailed()
        self._prove(name, z3.BoolVal(False))

    def _feasible(self):
        r = self.prover.prove(z3.BoolVal(False))
        return r.ok, r.backend, r.time

    def forall(self, name, n, body):
        """body(i) for every 0 <= i < n"""
        n = num_z(n)
        i = z3.FreshInt('q')
        stack = [[]]
        parent = P()
        while stack:
            prefix = stack.pop()
            parent.solver.push()
            child = Path(prefix, parent=parent)
            CTX.path = child
            mark = len(Q.UNDO)
            try:
                child.fact(z3.And(i >= 0, i < n))
                child.nbase = len(child.facts)
                if child.check(z3.BoolVal(True)) != z3.unsat:
                    Q.note_index(i)
                    self.it.call(body, (SInt(i),))
                else:
                    self.obls.append(Obligation(self._nm(name + '.empty'), True, 'path', 0.0))
            except Infeasible:
                pass
            finally:
                CTX.path = parent
                parent.solver.pop()
                Q.rollback(mark)
            stack.extend(alternatives(child.taken, len(prefix)))

    def rival(self, y):
        """a vector the results of the minimisations so far are compared with"""
        MD.at_minimum(self.it, MD.nparray(self.it, y))

    def diagonal(self, v, lam, w, k):
        """the matrix k = v diag(lam) w with w the inverse of v, whose eigenvalues and eigenvectors (as numpy gives them) are lam and
        v: shown here to be a decomposition of k"""
        n = len(lam)
        for i in range(n):
            for j in range(n):
                for got, want in ((sum(v[i][r] * w[r][j] for r in range(n)), int(i == j)),
                                  (sum(v[i][r] * lam[r] * w[r][j] for r in range(n)), k[i][j])):
                    a, b = (S.to_real(num_z(x)) for x in (got, want))
                    if not PR.rational_identity(a, b):
                        raise Unsupported('not a decomposition of the matrix')
        MD.eigen_known(MD._objarr(k), MD._objarr(list(lam)), MD._objarr(v), MD._objarr(w))
        return MD._objarr(k)

    def note(self, *a):
        pass

    def mark(self, reason):
        """a counter-model from here on may be spurious"""
        P().root.abstract.append(reason)

    def size(self, n):
        """bounded structure size (symbolic runs use it as it is)"""
        return n


class GoalFailed(EngineSignal):
    """the path ends at the first failed obligation"""


class Opaque:
    def __init__(self, name, attrs):
        self.name = name
        self.__dict__.update(attrs)


def model_value(m, kind, term):
    try:
        if kind in ('date', 'int'):
            v = m.eval(term, model_completion=True)
            return v.as_long()
        if kind == 'datetime':
            return tuple(m.eval(t, model_completion=True).as_long() for t in term)
        if kind == 'real':
            v = m.eval(term, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            return [v.numerator_as_long(), v.denominator_as_long()]
        if kind == 'bool':
            return z3.is_true(m.eval(term, model_completion=True))
        if kind == 'choice':
            return term
        if isinstance(kind, tuple) and kind[0] == 'seq':
            n, fs = term
            k = min(m.eval(n, model_completion=True).as_long(), 12)
            rows = []
            for i in range(max(k, 0)):
                row = []
                for kd, base, F, G in fs:
                    if G is not None and z3.is_true(m.eval(G(z3.IntVal(i)), model_completion=True)):
                        row.append(None)
                        continue
                    v = m.eval(F(z3.IntVal(i)), model_completion=True)
                    if base == 'real':
                        if z3.is_algebraic_value(v):
                            v = v.approx(20)
                        row.append([v.numerator_as_long(), v.denominator_as_long()])
                    elif base == 'bool':
                        row.append(z3.is_true(v))
                    else:
                        row.append(v.as_long())
                rows.append(row)
            return rows
        if isinstance(kind, tuple) and kind[0] == 'fn':
            return None
    except Exception:
        return None
    return None


# ------------------------------------------------------------------------------------------------
# concrete harness

BASE = _dt.date(2023, 6, 15)


class ConcH:
    symbolic = False

    def __init__(self, rng, case, model=None, tol=1e-9):
        self.rng, self.case, self.model, self.tol = rng, case, model or {}, tol
        self.log = []
        self.checks = 0
        self.anchor = None

    def _given(self, name):
        return self.model.get(name)

    def _log(self, name, v):
        self.log.append((name, v))
        return v

    def date(self, name, lo=None, hi=None):
        g = self._given(name)
        if g is not None and 1 <= g <= 3652059:
            return self._log(name, _dt.date.fromordinal(g))
        return self._log(name, self._rand_date(lo, hi))

    def _rand_date(self, lo=None, hi=None):
        r = self.rng
        for _ in range(100):
            u = r.random()
            if self.anchor is not None and u < 0.45:
                d = self.anchor + _dt.timedelta(days=r.choice([0, 1, -1, 2, -2, 3, 7, 28, 29, 30, 31, 59, 60, 61, 89, 90, 91, 92, 180,
                                                              181, 182, 183, 184, 364, 365, 366, 730, 731, 1095,
                                                              1096, 1461, 1826, 3652, r.randint(0, 40), r.randint(-400, 2000)]))
            elif u < 0.75:
                y = r.randint(2015, 2032)
                m = r.choice([1, 2, 2, 2, 3, 4, 6, 7, 9, 11, 12, 12, r.randint(1, 12)])
                dim = S._DIM[m - 1] + (1 if m == 2 and (y % 4 == 0 and (y % 100 or y % 400 == 0)) else 0)
                d = _dt.date(y, m, min(dim, r.choice([1, 2, 14, 15, 27, 28, 29, 30, 31, dim, dim - 1, r.randint(1, dim)])))
            elif u < 0.97:
                d = _dt.date.fromordinal(r.randint(_dt.date(1995, 1, 1).toordinal(), _dt.date(2050, 12, 31).toordinal()))
            else:
                d = _dt.date.fromordinal(r.randint(_dt.date(1890, 1, 1).toordinal(), _dt.date(2110, 12, 31).toordinal()))
            if (lo is None or d >= lo) and (hi is None or d <= hi):
                self.anchor = d
                return d
        lo = lo or _dt.date(1990, 1, 1)
        hi = hi or _dt.date(2060, 1, 1)
        return _dt.date.fromordinal(r.randint(lo.toordinal(), hi.toordinal()))

    def _rand_us(self):
        r = self.rng
        u = r.random()
        if u < 0.3:
            return 0
        if u < 0.5:
            return r.choice([1, S.US_DAY - 1, S.US_DAY // 2, 3_600_000_000, 999_999, 60_000_000])
        if u < 0.8:
            return r.randint(0, 86399) * 1_000_000
        return r.randint(0, S.US_DAY - 1)

    def datetime(self, name, lo=None, hi=None):
        g = self._given(name)
        if g is not None and 1 <= g[0] <= 3652059:
            d, us = _dt.date.fromordinal(g[0]), g[1]
        else:
            d, us = self._rand_date(lo, hi), self._rand_us()
        return self._log(name, _dt.datetime.combine(d, _dt.time()) + _dt.timedelta(microseconds=us))

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        g = self._given(name)
        if g is not None:
            return self._log(name, g[0] / g[1])
        return self._log(name, self._rand_real(lo, hi, pos, nonneg))

    def _rand_real(self, lo=None, hi=None, pos=False, nonneg=False):
        r = self.rng
        if lo is not None and hi is not None:
            u = r.random()
            return float(r.uniform(lo, hi) if u < 0.9 else (lo if u < 0.95 else hi))
        a = abs(r.choice([r.gauss(0, 1), r.gauss(0, 100), r.uniform(0, 0.1), float(r.randint(0, 10))]))
        if pos and a == 0:
            a = 1.0
        if pos or nonneg or lo is not None or hi is not None:
            v = a
            if lo is not None:
                v = lo + a
            if hi is not None:
                v = hi - a
            return float(v)
        return float(a if r.random() < 0.5 else -a)

    def int(self, name, lo=None, hi=None):
        g = self._given(name)
        if g is not None and abs(g) < 10 ** 6:
            return self._log(name, g)
        l = lo if lo is not None else (hi - 30 if hi is not None else -30)
        h = hi if hi is not None else l + 60
        u = self.rng.random()
        if u < 0.4:
            h = min(h, l + 4) if lo is not None else h
        return self._log(name, self.rng.randint(l, h))

    def bool(self, name):
        g = self._given(name)
        return self._log(name, g if g is not None else self.rng.random() < 0.5)

    def tenor(self, name, units='YM', lo=1, hi=None):
        n = self.int(name, lo, hi)
        return f"{n}{self.choice(name + '_unit', list(units))}"

    def choice(self, name, options):
        options = list(options)
        g = self._given(name)
        i = g if g is not None and g < len(options) else self.rng.randrange(len(options))
        self.log.append((name, repr(options[i])[:80]))
        return options[i]

    def fn(self, name, args=('date',), ret='real', pos=False, lo=None, hi=None):
        a, b, c = self.rng.uniform(0.2, 1.5), self.rng.uniform(-1, 1), self.rng.uniform(0.5, 40)
        salt = self.rng.randrange(10 ** 9)
        self.log.append((name, f'function(seed {salt})'))

        def num(x):
            if isinstance(x, _dt.datetime):
                return S.us_of(x) / S.US_DAY - 738000
            if isinstance(x, _dt.date):
                return x.toordinal() - 738000
            return float(x)

        def f(*xs):
            v = a + 0.5 * math.sin(b + sum(num(x) * (k + 1) for k, x in enumerate(xs)) / c) \
                + 0.2 * math.cos(1.7 * sum(num(x) for x in xs) / (c + 3) + salt % 97)
            if pos:
                v = abs(v) + 0.01
            else:
                v = v - 0.8
            if lo is not None and hi is not None:
                v = lo + (hi - lo) * (0.5 + 0.5 * math.sin(7 * v))
            elif lo is not None:
                v = lo + abs(v)
            if ret == 'bool':
                return v > 0
            if ret == 'int':
                if lo is not None and hi is not None:
                    return lo + int(abs(v) * 997) % (hi - lo + 1)
                return int(round(3 * v))
            return v
        return f

    def seq(self, name, kind='real', min_len=0, sorted_strict=False, sorted_weak=False, lo=None, hi=None, pos=False,
            key=None, fixed=None, distinct=False, gap=1):
        r = self.rng
        g = self._given(name)
        kinds = kind if isinstance(kind, tuple) else (kind,)
        rows = []
        if g is not None and len(g) >= min_len:
            for row in g:
                out = []
                for kd, v in zip(kinds, row):
                    base = kd.split(':')[-1]
                    if v is None:
                        out.append(None)
                    elif base == 'date':
                        out.append(_dt.date.fromordinal(min(max(v, 1), 3652059)))
                    elif base == 'datetime':
                        out.append(_dt.datetime(1, 1, 1) + _dt.timedelta(microseconds=v - S.US_DAY))
                    elif base == 'real':
                        out.append(v[0] / v[1])
                    else:
                        out.append(v)
                rows.append(tuple(out))
            if sorted_strict or sorted_weak:
                rows.sort(key=lambda t: t[0])
            if sorted_strict or distinct:
                rows = [r for i, r in enumerate(rows) if not any(near(r[0], q[0], gap) for q in rows[:i])]
            if len(rows) < min_len:
                raise Skip()
        else:
            n = fixed if fixed is not None else max(min_len, r.choice([0, 1, 2, 3, 4, 5, 7, 10]))
            for _ in range(n):
                out = []
                for kd in kinds:
                    base = kd.split(':')[-1]
                    if kd.startswith('opt:') and r.random() < 0.25:
                        out.append(None)
                    elif base == 'date':
                        out.append(self._rand_date(lo, hi))
                    elif base == 'datetime':
                        out.append(_dt.datetime.combine(self._rand_date(lo, hi), _dt.time()) +
                                   _dt.timedelta(microseconds=self._rand_us()))
                    elif base == 'int':
                        out.append(r.randint(-5, 10))
                    elif base == 'bool':
                        out.append(r.random() < 0.5)
                    else:
                        out.append(self._rand_real(pos=pos))
                rows.append(tuple(out))
            if rows and r.random() < 0.3 and not sorted_strict and not distinct:
                i = r.randrange(len(rows))
                j = r.randrange(len(rows))
                rows[i] = (rows[j][0],) + rows[i][1:]
            if sorted_strict or sorted_weak or distinct:
                rows.sort(key=lambda t: t[0])
            if sorted_strict or distinct:
                out = []
                for row in rows:
                    if not out or not near(row[0], out[-1][0], gap):
                        out.append(row)
                rows = out
                while len(rows) < min_len:
                    last = rows[-1]
                    step = _dt.timedelta(days=r.randint(gap, 400)) if not isinstance(last[0], (int, float)) else 1
                    rows.append((last[0] + step,) + tuple(last[1:]))
            if distinct:
                r.shuffle(rows)
        res = [row if isinstance(kind, tuple) else row[0] for row in rows]
        self.log.append((name, [str(x) for x in res][:12]))
        return res

    def opaque(self, name, **attrs):
        return Opaque(name, attrs)

    def assume(self, c):
        if not c:
            raise Skip()

    def call(self, f, *a, **k):
        return f(*a, **k)

    def check(self, name, c):
        self.checks += 1
        if not bool(np.all(c)):
            raise CheckFailed(f'{name} is false')

    def eq(self, name, a, b, tol=None):
        self.checks += 1
        if not same(a, b, tol if tol is not None else self.tol):
            raise CheckFailed(f'{name}: got {short(a)}, expected {short(b)}')

    def close(self, name, a, b, tol=1e-6):
        self.eq(name, a, b, tol)

    def raises(self, name, exc, f):
        self.checks += 1
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            raise CheckFailed(f'{name}: raised {e!r} instead of the expected error')
        raise CheckFailed(f'{name}: returned {short(r)} instead of raising')

    def forall(self, name, n, body):
        for i in range(int(n)):
            body(i)

    def rival(self, y):
        pass

    def diagonal(self, v, lam, w, k):
        return np.array(k, dtype=float)

    def note(self, *a):
        pass

    def mark(self, reason):
        pass

    def size(self, n):
        return n


def near(a, b, gap):
    d = abs(a - b) if isinstance(a, (int, float)) else abs((a - b) / _dt.timedelta(days=1))
    return d < gap if gap > 1 else d == 0


def short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def same(a, b, tol):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, (int, float, np.number, Fraction)) and isinstance(b, (int, float, np.number, Fraction)):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if a == b:
            return True
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (_dt.date, str, enum.Enum)):
        return a == b and isinstance(a, _dt.datetime) == isinstance(b, _dt.datetime)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and all(same(x, y, tol) for x, y in zip(a.flat, b.flat))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    import dataclasses
    if dataclasses.is_dataclass(a) and type(a) == type(b):
        return all(same(getattr(a, f.name), getattr(b, f.name), tol) for f in dataclasses.fields(a))
    return bool(a == b)


# ------------------------------------------------------------------------------------------------
# running a goal

def engine_error(e):
    """an exception which may come from the interpreter's own limits rather than from the code it runs"""
    return not getattr(e, '_pyvc_raised', False) and not isinstance(e, (KeyError, IndexError, ZeroDivisionError,
                                                                        ValueError, OverflowError))


def run_symbolic(g: Goal, case, contracts, budget_s, prover_ms=8000, max_paths=400):
    """explore every path of the goal; returns a report dict"""
    t0 = time.time()
    it = MD.make_interp(contracts)
    pr = PR.Prover(prover_ms)
    stack = [[]]
    obls, notes = [], []
    paths = dead = 0
    status = 'ok'
    used = {}
    CTX.reveal = set(g.reveal)
    CTX.deadline = t0 + budget_s * 1.2
    while stack:
        prefix = stack.pop()
        if time.time() - t0 > budget_s or paths > max_paths:
            status = 'budget'
            notes.append(f'stopped after {paths} paths, {time.time() - t0:.0f} s')
            break
        path = Path(prefix)
        CTX.path, CTX.params = path, []
        Q.UNDO.clear()
        Q.CREATED.clear()
        it.depth = it.steps = 0
        it.writes = []
        h = SymH(it, pr, case)
        ended = None
        try:
            it.call(g.fn, (h,))
        except Infeasible:
            dead += 1
            ended = 'infeasible'
        except GoalFailed:
            ended = 'failed'
        except (Unsupported, S.Budget) as e:
            status = 'unsupported' if status != 'budget' else status
            import traceback as tb
            fr = tb.extract_tb(e.__traceback__)
            notes.append(f'{type(e).__name__}: {e} @ {fr[-1].filename.split("/")[-1]}:{fr[-1].lineno}')
            ended = 'unsupported'
            if len(notes) > 5:
                obls.extend(h.obls)
                break
        except z3.Z3Exception as e:
            status = 'unsupported'
            notes.append(f'z3: {e}')
            ended = 'unsupported'
        except EngineSignal as e:
            status = 'unsupported'
            notes.append(f'{type(e).__name__}')
            ended = 'unsupported'
        except RecursionError:
            status = 'unsupported'
            notes.append('recursion')
        except Exception as e:
            # an exception no check asked for: it is an obligation that this cannot happen
            tbs = traceback.extract_tb(e.__traceback__)
            if engine_error(e):
                status = 'unsupported'
                notes.append(f'{type(e).__name__}: {e} @ ' + '; '.join(
                    f'{f.filename.split("/")[-1]}:{f.lineno}' for f in tbs[-3:]))
                obls.extend(h.obls)
                paths += 1
                stack.extend(alternatives(path.taken, len(prefix)))
                continue
            try:
                r = pr.prove(z3.BoolVal(False))
                h.obls.append(Obligation('no-unexpected-exception', r.ok, r.backend, r.time,
                                         f'{type(e).__name__}: {e}', h._model(r.model), r.sat, path.abstract))
                if not r.ok:
                    h.obls[-1].detail += ' ' + tbs[-1].filename.split('/')[-1] + ':' + str(tbs[-1].lineno)
            except EngineSignal as e2:
                status = 'unsupported'
                notes.append(str(e2))
        paths += 1
        obls.extend(h.obls)
        stack.extend(alternatives(path.taken, len(prefix)))
        if sum(not o.ok for o in obls) >= 5:
            notes.append('stopped after five refused obligations')
            break
    CTX.path = None
    return {'status': status, 'obls': obls, 'notes': notes, 'paths': paths, 'dead': dead, 'time': time.time() - t0,
            'solver_s': pr.solver_s + S.STATS.solver_s, 'queries': pr.queries + S.STATS.queries,
            'contracts': dict(it.used_contracts), 'functions': dict(it.inlined)}


def run_concrete(g: Goal, case, seed, model=None):
    """one run against the real code; returns (outcome, message, log)"""
    rng = random.Random(seed)
    h = ConcH(rng, case, model, g.tol)
    try:
        g.fn(h)
        return ('ok' if h.checks else 'vacuous'), '', h.log
    except Skip:
        return 'skip', '', h.log
    except CheckFailed as e:
        return 'fail', str(e), h.log
    except (OverflowError,) as e:
        return 'skip', repr(e), h.log
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if model is not None and isinstance(e, ValueError) and re.search(r'^year -?\d+ is out of range', str(e)):
            return 'skip', repr(e), h.log       # a counter-model outside the calendar, which the symbolic run leaves out
        if isinstance(e, AttributeError) and '/contracts/' in tb[-1].filename:
            return 'absent', str(e), h.log      # a name this goal addresses directly is not there any more
        where = '; '.join(f'{f.filename}:{f.lineno}' for f in tb[-3:])
        return 'fail', f'unexpected {type(e).__name__}: {e} ({where})', h.log
