"""Callee contracts shared by the goals, and the trusted base."""

TRUSTED_BASE = [
    'pyvc, the verification-condition generator in /verif/pyvc: it reads the source of /repo as it stands on every run and '
    'interprets it symbolically (Python semantics of the statements and built-ins it knows)',
    'z3 5.3, cvc5 1.4 and a normaliser of rational functions and exponentials (pyvc/laurent.py)',
    'CPython 3.12 and numpy 1.26 for the bounded conformance runs and replays',
]
ASSUMPTIONS = [
    'floating-point numbers are treated as real numbers (rounding is not modelled)',
    'date arithmetic does not leave the years 1..9999',
    'no other thread changes the objects while a function runs',
]


def table(uses):
    out = {}
    for u in uses:
        out.update(CONTRACTS[u]())
    return out


import enum
from datetime import date, datetime, timedelta
import z3
from pyvc import seqs as Q, sym as S
from pyvc.sym import P, SReal, SDate, Sym
from pyvc.seqs import unopt, SList, SSeq, touch_inputs

DCC = 'fixedIncome.src.scheduling_tools.day_count_calculator.DayCountCalculator.'
G_ACT = z3.Function('act_act_coordinate', z3.IntSort(), z3.RealSort())
T_360 = z3.Function('thirty_360', z3.IntSort(), z3.IntSort(), z3.RealSort())


def two_dates(args, kwargs):
    d = dict(zip(('start_date', 'end_date'), args))
    d.update(kwargs)
    a, b = unopt(d['start_date']), unopt(d['end_date'])
    if isinstance(a, S.SDateTime) or isinstance(b, S.SDateTime):
        return None
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return None
    return S.lift_date(a).o, S.lift_date(b).o


def remembered(name, key, limit=14):
    """earlier arguments of a contract on this path"""
    xs = P().root.__dict__.setdefault('seen_' + name, [])
    out = [x for x in xs if not all(p.eq(q) for p, q in zip(x, key))]
    out = out[:3] + out[3:][-limit:]
    if not any(all(p.eq(q) for p, q in zip(x, key)) for x in xs):
        xs.append(key)
    P().root.keep.append(key)
    return out


def act_act(interp, *args, **kwargs):
    """the difference of a coordinate that grows by between 1/366 and 1/365 a day (proved in C02: act_act_is_a_coordinate)"""
    ab = two_dates(args, kwargs)
    if ab is None:
        return NotImplemented
    P().root.input_fns['act_act_coordinate'] = act_act_facts
    for o in ab:
        act_act_facts(G_ACT(o))
    return SReal(z3.simplify(G_ACT(ab[1]) - G_ACT(ab[0])))


def act_act_facts(t):
    o = t.arg(0)

    def ax():
        fs = []
        for (x,) in remembered('act_act', (o,)):
            for lo, hi in ((x, o), (o, x)):
                fs.append(z3.Implies(lo <= hi, z3.And(G_ACT(hi) - G_ACT(lo) >= z3.ToReal(hi - lo) / 366,
                                                      G_ACT(hi) - G_ACT(lo) <= z3.ToReal(hi - lo) / 365)))
        return fs
    P().axiom(('act_act', o.get_id()), ax)


def thirty_360(interp, *args, **kwargs):
    """zero for equal dates, non-decreasing in the end date and larger for an end two or more days later (proved in C02:
    thirty_360_of_dates, thirty_360_grows_every_two_days)"""
    ab = two_dates(args, kwargs)
    if ab is None:
        return NotImplemented
    t = T_360(*ab)
    P().root.input_fns['thirty_360'] = thirty_360_facts
    thirty_360_facts(t)
    return SReal(t)


def thirty_360_facts(t):
    a, b = t.arg(0), t.arg(1)
    P().root.keep.append(t)

    def ax():
        fs = [z3.Implies(a == b, t == 0), z3.Implies(a <= b, t >= 0), z3.Implies(a < b, t <= z3.ToReal(b - a + 3) / 360)]
        for x, y in remembered('thirty_360', (a, b)):
            u = T_360(x, y)
            fs.append(z3.Implies(z3.And(x == a, a <= b, b <= y), t <= u))
            fs.append(z3.Implies(z3.And(x == a, a <= y, y <= b), u <= t))
            fs.append(z3.Implies(z3.And(x == a, a <= b, b + 2 <= y), t < u))
            fs.append(z3.Implies(z3.And(x == a, a <= y, y + 2 <= b), u < t))
        return fs
    P().axiom(('t360', t.get_id()), ax)


SCH = 'fixedIncome.src.scheduling_tools.scheduler.Scheduler.'


def bind(names, args, kwargs):
    d = dict(zip(names, args))
    d.update(kwargs)
    return [unopt(d[n]) for n in names]


def of_calendar(base, cal, *sorts):
    """an uninterpreted function of dates, one per calendar object"""
    reg = P().root.__dict__.setdefault('calendars', [])
    for k, c in enumerate(reg):
        if c is cal:
            break
    else:
        reg.append(cal)
        k = len(reg) - 1
    return z3.Function(f'{base}_{k}', *sorts)


def day_of(d):
    if isinstance(d, S.SDateTime):
        return None
    return S.lift_date(d).o if d is not None else None


I = z3.IntSort()


def is_business_day(interp, *args, **kwargs):
    """an arbitrary predicate of the date for each calendar, false on weekends (proved in C04: business_day_predicate)"""
    d, cal = bind(('date_obj', 'holiday_calendar'), args, kwargs)
    o = day_of(d)
    if o is None:
        return NotImplemented
    t = of_calendar('business_day', cal, I, z3.BoolSort())(o)
    P().axiom(('bd', t.get_id()), lambda: [z3.Implies(t, (o + 6) % 7 < 5)])
    seen = P().root.__dict__.setdefault('business_days_' + t.decl().name(), [])
    if not any(o.eq(x) for x in seen):
        seen.append(o)
    P().root.keep.append(t)
    return S.SBool(t)


def step_contract(base, sign):
    def f(interp, *args, **kwargs):
        d, cal = bind(('date_obj', 'holiday_calendar'), args, kwargs)
        o = day_of(d)
        if o is None:
            return NotImplemented
        if base == 'next':
            if not interp.truth(is_business_day(interp, SDate(o), cal)):
                e = ValueError('not a business day')
                e._pyvc_raised = True
                raise e
        t = of_calendar(base + '_business_day', cal, I, I)(o)
        r = SDate(t)
        bd = S.bool_z(is_business_day(interp, r, cal))
        P().axiom(('step', t.get_id()), lambda: [bd, t > o] if base == 'next' else [bd])
        P().root.keep.append(t)
        return r
    f.__doc__ = {'next': 'the first business day after a business day (proved in C04: next_business_day)',
                 'previous': 'the last business day before a business day (proved in C04: previous_business_day)'}[base]
    return f


def add_business_days(interp, *args, **kwargs):
    """a date determined by the date, the number of days and the calendar: not earlier for n >= 0, later for n > 0
    (proved in C04: adding_business_days)"""
    d, n, cal = bind(('date_obj', 'business_days', 'holiday_calendar'), args, kwargs)
    o = day_of(d)
    if o is None:
        return NotImplemented
    n = S.num_z(n)
    t = of_calendar('add_business_days', cal, I, I, I)(o, n)
    bd = S.bool_z(is_business_day(interp, SDate(t), cal))
    P().axiom(('abd', t.get_id()), lambda: [bd, z3.Implies(n >= 0, t >= o + n)])
    P().root.keep.append(t)
    return SDate(t)


STEPPED_COUNT = z3.Function('stepped_count', I, I, I, I, I)
STEPPED_DATE = z3.Function('stepped_date', I, I, I, I, I, I)


def stepped_facts(t):
    a, b, m, cap, i = (t.arg(k) for k in range(5))
    n = STEPPED_COUNT(a, b, m, cap)
    P().root.keep.append(t)

    def ax():
        fs = [z3.Implies(i == 0, t == a)]
        rng = z3.And(i >= 0, i < n)
        fs.append(z3.Implies(z3.And(rng, m > 0), z3.And(t <= b, t >= a + 28 * i)))
        fs.append(z3.Implies(z3.And(rng, m < 0), z3.And(t >= b, t <= a - 28 * i)))
        for (j, x) in remembered_of('stepped', n, (i, t)):
            both = z3.And(rng, j >= 0, j < n)
            fs.append(z3.Implies(z3.And(both, i == j), t == x))
            for lo, hi, u, v in ((i, j, t, x), (j, i, x, t)):
                fs.append(z3.Implies(z3.And(both, m > 0, lo < hi), v - u >= 28 * (hi - lo)))
                fs.append(z3.Implies(z3.And(both, m < 0, lo < hi), u - v >= 28 * (hi - lo)))
        return fs
    P().axiom(('stepd', t.get_id()), ax)


def stepped_dates(interp, *args, **kwargs):
    """a list determined by the arguments: at most the maximum number, starting at the start date, strictly moving in the
    direction of the increment and not beyond the end date (proved in C05: stepped_schedule)"""
    d = dict(zip(('start_date', 'end_date', 'increment', 'max_dates'), args))
    d.update(kwargs)
    a, b = unopt(d['start_date']), unopt(d['end_date'])
    rd = S.as_rd(unopt(d['increment'])) if not isinstance(d['increment'], (timedelta, S.SDelta)) else None
    if isinstance(a, (S.SDateTime, datetime)) or isinstance(b, (S.SDateTime, datetime)) or rd is None or rd.day is not None:
        return NotImplemented
    if not (isinstance(rd.days, int) and isinstance(rd.us, int) and rd.days == 0 and rd.us == 0):
        return NotImplemented
    a, b, m = S.lift_date(a).o, S.lift_date(b).o, S.num_z(rd.months)
    cap = S.num_z(unopt(d.get('max_dates', 1000)))
    D = STEPPED_DATE
    n = STEPPED_COUNT(a, b, m, cap)
    p = P()
    p.root.keep.append(n)
    p.axiom(('stepn', n.get_id()), lambda: [n >= 0, z3.Implies(n > 0, n <= cap), z3.Implies(z3.And(m > 0, a > b), n == 0),
                                            z3.Implies(z3.And(m < 0, a < b), n == 0),
                                            z3.Implies(z3.And(m > 0, a <= b, cap > 0), n > 0),
                                            z3.Implies(z3.And(m < 0, a >= b, cap > 0), n > 0)])

    p.root.input_fns['stepped_date'] = stepped_facts

    def get(i):
        t = D(a, b, m, cap, i)
        stepped_facts(t)
        return SDate(t)
    return SList.of(SSeq(n, get))


STAMP_COUNT = z3.Function('stepped_stamps', I, I, I, I, I, I, I)
STAMP = z3.Function('stepped_stamp', I, I, I, I, I, I, I, I)


def stamp_facts(t):
    a, b = t.arg(0), t.arg(1)
    i = t.arg(6)
    n = STAMP_COUNT(*[t.arg(k) for k in range(6)])
    P().root.keep.append(t)

    def ax():
        rng = z3.And(i >= 0, i < n)
        fs = [z3.Implies(i == 0, t == a), z3.Implies(rng, z3.And(t >= a, t <= b))]
        for (j, x) in remembered_of('stamps', n, (i, t)):
            both = z3.And(rng, j >= 0, j < n)
            fs.append(z3.Implies(both, z3.And((i == j) == (t == x), (i < j) == (t < x))))
        return fs
    P().axiom(('stampd', t.get_id()), ax)


def stepped_stamps(interp, *args, **kwargs):
    """timestamps determined by the arguments: at least one and at most the maximum number, starting at the start, rising and
    not beyond the end, for a start before the end and an increment that moves it forward (proved in C05: stepped_schedule,
    and C19: grid)"""
    start, end, inc, cap = bind(('start_date', 'end_date', 'increment', 'max_dates'), args, {'max_dates': 1000, **kwargs})
    start, end, inc, cap = unopt(start), unopt(end), unopt(inc), unopt(cap)
    if not isinstance(start, (S.SDateTime, datetime)) or not isinstance(end, (S.SDateTime, datetime)):
        return NotImplemented
    if isinstance(inc, timedelta):
        parts = [0, 0, S.td_us(inc)]
    elif isinstance(inc, S.SDelta):
        parts = [0, 0, inc.us]
    else:
        rd = S.as_rd(inc)
        if rd is None or rd.day is not None:
            return NotImplemented
        parts = [rd.months, rd.days, rd.us]
    parts = [S.num_z(x) if not isinstance(x, z3.ExprRef) else x for x in parts]
    p = P()
    a, b, c = S.lift_dt(start).t, S.lift_dt(end).t, S.num_z(cap)
    signs = [p.known(x >= 0) for x in parts]
    if not all(signs) or not p.known(z3.Or(*[x > 0 for x in parts])) or not p.known(z3.And(a <= b, c > 0)):
        return NotImplemented
    key = [z3.simplify(x) for x in [a, b, *parts, c]]
    n = STAMP_COUNT(*key)
    p.root.keep.append(n)
    p.axiom(('stampn', n.get_id()), lambda: [n >= 1, n <= c])
    p.root.input_fns['stepped_stamp'] = stamp_facts

    def get(i):
        t = STAMP(*key, i)
        stamp_facts(t)
        return S.SDateTime(t)
    return SList.of(SSeq(n, get))


def remembered_of(name, owner, key, limit=14):
    xs = P().root.__dict__.setdefault('seen_' + name, {}).setdefault(owner.get_id(), [])
    out = [x for x in xs if not x[0].eq(key[0]) and not Q.retired(x[0])]
    if not any(x[0].eq(key[0]) for x in xs):
        xs.append(key)
    P().root.keep.append(key)
    P().root.keep.append(owner)
    return out[:3] + out[3:][-limit:]


def date_adjustment(base, within=None):
    def f(interp, *args, **kwargs):
        d, cal = bind(('date_obj', 'holiday_calendar'), args, kwargs)
        o = day_of(d)
        if o is None:
            return NotImplemented
        F, BD = of_calendar(base, cal, I, I), of_calendar('business_day', cal, I, z3.BoolSort())
        seen = P().root.__dict__.setdefault('business_days_' + BD.name(), [])

        def facts(t):
            x = t.arg(0)
            P().root.keep.append(t)

            def ax():
                fs = [BD(t), (t + 6) % 7 < 5, z3.Implies(BD(x), t == x)]
                if base == 'following':
                    fs.append(t >= x)
                if within:
                    fs += [t <= x + within, t >= x - within]
                return fs + [z3.Implies(z3.And(BD(b), b <= x), t >= b) for b in seen[-8:]]
            P().axiom((base, t.get_id(), len(seen)), ax)
        P().root.input_fns[F.name()] = facts
        t = F(o)
        facts(t)
        return SDate(t)
    f.__doc__ = ('a business day determined by the date and the calendar, the date itself if it is one, never earlier than a business '
                 'day on or before it (proved in C04: first_business_day, modified_following, adjustments_skip_nothing)')
    return f


def settlement(interp, *args, **kwargs):
    """a date determined by the purchase date, the convention and the calendar (proved in C04: settlement_shift, settlement_minus_zero)"""
    d, conv, cal = bind(('purchase_date', 'settlement_convention', 'holiday_calendar'), args, kwargs)
    o = day_of(d)
    if o is None or not isinstance(conv, enum.Enum):
        return NotImplemented
    t = of_calendar('settlement_' + conv.name, cal, I, I)(o)
    P().root.keep.append(t)
    if 'PLUS' in conv.name:
        bd = S.bool_z(is_business_day(interp, SDate(t), cal))
        P().axiom(('settle', t.get_id()), lambda: [t >= o, bd])
    return SDate(t)


def accrued(interp, self, *args, **kwargs):
    """some number (its value is proved in C08)"""
    d = bind(('reference_date',), args, kwargs) if args or kwargs else [None]
    memo = P().root.__dict__.setdefault('accrued', {})
    key = (id(self), d[0].o.get_id() if isinstance(d[0], SDate) else repr(d[0]))
    if key not in memo:
        memo[key] = SReal(z3.FreshReal('accrued'))
        P().root.keep.append((self, d))
    return memo[key]


def accrual(interp, *args, **kwargs):
    """a number determined by the two dates and the convention, defined for dates in order, zero for equal dates and not negative
    (proved in C01, C02)"""
    d = dict(zip(('start_date', 'end_date', 'dcc'), args))
    d.update(kwargs)
    a, b, dcc = (unopt(d[k]) for k in ('start_date', 'end_date', 'dcc'))
    if not isinstance(dcc, enum.Enum):
        return NotImplemented
    if isinstance(a, (S.SDateTime, datetime)) or isinstance(b, (S.SDateTime, datetime)):
        ta, tb = S.lift_dt(a).t, S.lift_dt(b).t
        base = 'accrual_t_'
    else:
        ta, tb = S.lift_date(a).o, S.lift_date(b).o
        base = 'accrual_'
    touch_inputs([ta, tb])
    if interp.truth(S.SBool(ta > tb)):
        e = ValueError('dates out of order')
        e._pyvc_raised = True
        raise e
    t = z3.Function(base + dcc.name, I, I, z3.RealSort())(ta, tb)
    P().root.keep.append(t)
    if getattr(interp, 'rising', False):
        P().root.input_fns[base + dcc.name] = grow_with_the_end
        grow_with_the_end(t)
    strict = 'ACTUAL' in dcc.name
    P().axiom(('accrual', t.get_id()), lambda: [z3.Implies(ta == tb, t == 0), z3.Implies(ta <= tb, t >= 0)] +
              ([z3.Implies(ta < tb, t > 0)] if strict else []))
    return SReal(t)


def grow_with_the_end(t):
    """zero for equal dates, and a later end is a longer accrual in the actual-day conventions (C02: additive, positive between
    different dates)"""
    a, b, F = t.arg(0), t.arg(1), t.decl()
    P().root.keep.append(t)
    if 'ACTUAL' not in F.name():
        return

    def ax():
        fs = [z3.Implies(a == b, t == 0), z3.Implies(a < b, t > 0)]
        for x, y in remembered('rising_' + F.name(), (a, b)):
            u = F(x, y)
            fs.append(z3.Implies(z3.And(x == a, a <= b, b < y), t < u))
            fs.append(z3.Implies(z3.And(x == a, a <= y, y < b), u < t))
        return fs
    P().axiom(('rising', t.get_id()), ax)


def rising_accrual(interp, *args, **kwargs):
    interp.rising = True
    try:
        return accrual(interp, *args, **kwargs)
    finally:
        interp.rising = False


BONDS = ('fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments.UsTreasuryBond.',
         'fixedIncome.src.assets.credit.corporate_bond.FixedRateBond.')
def fixed_rate_value(interp, self, *args, **kwargs):
    """a number determined by the rate and the reference date, the bond's purchase date by default (proved in C09: discounting)"""
    d = dict(zip(('fixed_rate', 'reference_date'), args))
    d.update(kwargs)
    y, ref = unopt(d['fixed_rate']), unopt(d.get('reference_date'))
    import numpy as np
    if isinstance(y, np.ndarray) and y.size == 1:
        y = y.flat[0]
    if ref is None:
        ref = self.purchase_date
    reg = P().root.__dict__.setdefault('fixed_rate_bonds', [])
    if not any(b is self for b in reg):
        reg.append(self)
    k = [b is self for b in reg].index(True)
    F = z3.Function(f'value_at_rate_{k}', z3.RealSort(), I, z3.RealSort())
    return SReal(F(z3.simplify(S.to_real(S.num_z(y))), S.lift_date(ref).o))


def yield_contract(interp, self, *args, **kwargs):
    """a rate determined by the reference date, the bond's purchase date by default (proved in C09: yield_to_maturity)"""
    ref = unopt(args[0] if args else kwargs.get('reference_date'))
    if ref is None:
        ref = self.purchase_date
    reg = P().root.__dict__.setdefault('yield_bonds', [])
    if not any(b is self for b in reg):
        reg.append(self)
    k = [b is self for b in reg].index(True)
    return SReal(z3.Function(f'yield_to_maturity_{k}', I, z3.RealSort())(S.lift_date(ref).o))


def curve_value(interp, self, *args, **kwargs):
    """a number determined by the curve's knots and the date, a knot's own value at its date, the nearest end's value beyond a
    constant end and ValueError beyond another, plus the adjustment at the date (proved in C10)"""
    from fixedIncome.src.curves.base_curve import DiscountCurve
    from fixedIncome.src.curves.curve_enumerations import EndBehavior
    if isinstance(self, DiscountCurve):
        return NotImplemented
    d = dict(zip(('date_obj', 'adjustment'), args))
    d.update(kwargs)
    x, adjustment = unopt(d['date_obj']), unopt(d.get('adjustment'))
    if isinstance(x, (S.SDateTime, datetime)):
        return NotImplemented
    reg = P().root.__dict__.setdefault('interpolated_curves', [])
    it = self.interpolator
    if not any(c is it for c in reg):
        reg.append(it)
    k = [c is it for c in reg].index(True)
    o = S.lift_date(x).o
    knots = self._interpolation_values
    first, last = interp.getitem(knots, 0), interp.getitem(knots, -1)
    d0, d1 = S.lift_date(unopt(first[0])).o, S.lift_date(unopt(last[0])).o
    CONST = EndBehavior.CONSTANT
    if (self.left_end_behavior != CONST and interp.truth(S.SBool(o < d0))) or (
            self.right_end_behavior != CONST and interp.truth(S.SBool(o > d1))):
        e = ValueError('beyond the knots')
        e._pyvc_raised = True
        raise e
    if knots.sym is None:         # a function of the knots, not of the curve object
        flat = [S.lift_date(self.reference_date).o, o]
        for knot, value in knots:
            flat += [S.lift_date(unopt(knot)).o, S.to_real(S.num_z(unopt(value)))]
        name = f'curve_value_of_{len(knots)}_{self.interpolation_method.name}_{self.interpolation_day_count_convention.name}'
        t = z3.Function(name, *[f.sort() for f in flat], z3.RealSort())(*flat)
    else:
        t = z3.Function(f'curve_value_{k}', I, z3.RealSort())(o)
    P().root.keep.append(t)
    v0, v1 = (S.to_real(S.num_z(unopt(e[1]))) for e in (first, last))
    P().axiom(('curve_value', t.get_id()), lambda: [z3.Implies(o <= d0, t == v0), z3.Implies(o >= d1, t == v1)])
    r = SReal(t)
    return r if adjustment is None else interp.binop(__import__('ast').Add, r, interp.call(adjustment, (x,)))


def repriced(interp, self, *args, **kwargs):
    """the value of an instrument paying no later than its maturity, the date of one of the knots, is determined by the knots up to
    that one (proved in C11: values_are_on_the_discount_curve, conversions_remember_nothing, later_knots_do_not_matter)"""
    d = dict(zip(('instrument', 'adjustment_fxcn'), args))
    d.update(kwargs)
    asset, adjustment = unopt(d['instrument']), unopt(d.get('adjustment_fxcn'))
    knots = self._interpolation_values
    if adjustment is not None or knots.sym is not None or self.interpolation_method.value not in ('linear', 'previous'):
        return NotImplemented
    m = S.lift_date(asset.maturity_date).o
    days = [S.lift_date(unopt(k[0])).o for k in knots]
    if not P().known(z3.And([a < b for a, b in zip(days, days[1:])] + [z3.Or([a == m for a in days]), days[0] > S.lift_date(self.reference_date).o])):
        return NotImplemented
    reg = P().root.__dict__.setdefault('repriced', [])
    if not any(a is asset for a in reg):
        reg.append(asset)
    k = [a is asset for a in reg].index(True)
    flat = [S.lift_date(self.reference_date).o]
    for day, (_, v) in zip(days, knots):
        flat += [z3.simplify(z3.If(day <= m, day, z3.IntVal(0))), z3.simplify(z3.If(day <= m, S.to_real(S.num_z(unopt(v))), z3.RealVal(0)))]
    name = f'value_of_{k}_{self.interpolation_method.name}_{self.interpolation_day_count_convention.name}_{self.interpolation_space.name}'
    return SReal(z3.Function(name, *[f.sort() for f in flat], z3.RealSort())(*flat))


def bumped_value(interp, self, *args, **kwargs):
    """a number determined by the curve, the instrument and the key rate's date, neighbours, convention and bump (proved in C11:
    values_are_on_the_discount_curve; in C12: the adjustment of a key rate)"""
    from fixedIncome.src.risk.key_rate import KeyRate
    d = dict(zip(('instrument', 'adjustment_fxcn'), args))
    d.update(kwargs)
    asset, k = unopt(d['instrument']), unopt(d.get('adjustment_fxcn'))
    if k is not None and not isinstance(k, KeyRate):
        return NotImplemented
    reg = P().root.__dict__.setdefault('valued', [])
    knots = self._interpolation_values
    key = (self, asset, knots)
    if not any(all(a is b for a, b in zip(key, o)) for o in reg):
        reg.append(key)
    name = f"value_{[all(a is b for a, b in zip(key, o)) for o in reg].index(True)}"
    if k is None:
        return SReal(z3.Const(name, z3.RealSort()))
    get = interp.getattr
    flat = [S.to_real(S.num_z(unopt(get(k, 'bump_val'))))]
    for field in ('prior_date', 'key_rate_date', 'next_date'):
        v = get(k, field)
        v = unopt(v)
        name += '_none' if v is None else '_some'
        if v is not None:
            flat.append(S.lift_date(v).o)
    name += '_' + get(k, 'day_count_convention').name
    return SReal(z3.Function(name, *[f.sort() for f in flat], z3.RealSort())(*flat))


def key_rate_value(interp, self, date_obj):
    """a number determined by the key rate's date, neighbours, convention and bump, and the date asked about (proved in C12)"""
    get = interp.getattr
    flat, name = [S.to_real(S.num_z(unopt(get(self, 'bump_val')))), S.lift_date(unopt(date_obj)).o], 'key_rate'
    for field in ('prior_date', 'key_rate_date', 'next_date'):
        v = unopt(get(self, field))
        name += '_none' if v is None else '_some'
        if v is not None:
            flat.append(S.lift_date(v).o)
    name += '_' + get(self, 'day_count_convention').name
    t = z3.Function(name, *[f.sort() for f in flat], z3.RealSort())(*flat)
    P().root.keep.append(t)
    own = S.lift_date(unopt(get(self, 'key_rate_date'))).o
    P().axiom(('key_rate', t.get_id()), lambda: [z3.Implies(flat[1] == own, t == flat[0])])
    return SReal(t)


def business_day_list(interp, *args, **kwargs):
    """a list determined by the two dates and the calendar: of business days in the range, each later than the one before (proved in
    C05: business_day_schedule)"""
    a, b, cal = bind(('start_date', 'end_date', 'holiday_calendar'), args, kwargs)
    a, b = day_of(a), day_of(b)
    if a is None or b is None:
        return NotImplemented
    n = of_calendar('business_days_between', cal, I, I, I)(a, b)
    D = of_calendar('business_day_between', cal, I, I, I, I)
    p = P()
    p.root.keep.append(n)
    p.axiom(('bdl', n.get_id()), lambda: [n >= 0, n <= z3.If(b >= a, b - a + 1, 0)])

    def facts(t):
        x, y, i = t.arg(0), t.arg(1), t.arg(2)
        P().root.keep.append(t)

        def ax():
            rng = z3.And(i >= 0, i < n)
            fs = [z3.Implies(rng, z3.And(t >= x + i, t <= y))]
            for j, u in remembered_of('business_day_list', n, (i, t)):
                both = z3.And(rng, j >= 0, j < n)
                fs += [z3.Implies(z3.And(both, i < j), t < u), z3.Implies(z3.And(both, j < i), u < t), z3.Implies(i == j, t == u)]
            return fs
        P().axiom(('bdli', t.get_id()), ax)
    p.root.input_fns[D.name()] = facts

    def get(i):
        t = D(a, b, i)
        facts(t)
        return SDate(t)
    return SList.of(SSeq(n, get))


def annualised_rate(interp, self, interest_rate, start_date, end_date):
    """a number determined by the rate function and the two dates (proved in C15: overnight_rate)"""
    reg = P().root.__dict__.setdefault('annualised', [])
    key = (self, interest_rate)
    if not any(all(a is b for a, b in zip(key, o)) for o in reg):
        reg.append(key)
    k = [all(a is b for a, b in zip(key, o)) for o in reg].index(True)
    t = z3.Function(f'annualised_rate_{k}', I, I, z3.RealSort())(S.lift_date(unopt(start_date)).o, S.lift_date(unopt(end_date)).o)
    P().root.keep.append(t)
    return SReal(t)


def swap_terms(interp, swap, leg):
    """the terms a leg's accrual schedule depends on: a name and the two dates"""
    get = interp.getattr
    cal = get(swap, 'holiday_calendar')
    reg = P().root.__dict__.setdefault('swap_calendars', [])
    if not any(c is cal for c in reg):
        reg.append(cal)
    freq, days = get(swap, leg + '_leg_payment_frequency'), get(swap, leg + '_leg_day_count_convention')
    adj = get(swap, 'business_day_adjustment')
    if freq.name not in ('ANNUAL', 'SEMI_ANNUAL', 'QUARTERLY'):
        return None
    name = f'{freq.name}_{days.name}_{adj.name}_{[c is cal for c in reg].index(True)}'
    return name, S.lift_date(unopt(get(swap, 'start_accrual_date'))).o, S.lift_date(unopt(get(swap, 'end_accrual_date'))).o


def indexed(name, n, args, sort):
    F = z3.Function(name, *[a.sort() for a in args], I, sort)

    def at(i):
        t = F(*args, i)
        P().root.keep.append(t)
        return t
    return at


def accrual_schedule(leg):
    def f(interp, self):
        """a list determined by the dates, frequency, convention, adjustment and calendar (proved in C15: accrual_schedule)"""
        terms = swap_terms(interp, self, leg)
        if terms is None:
            return NotImplemented
        name, a, b = terms
        n = z3.Function('periods_' + name, I, I, I)(a, b)
        P().root.keep.append(n)
        P().axiom(('periods', n.get_id()), lambda: [n >= 0])
        parts = [indexed(p + name, n, (a, b), s) for p, s in (('period_start_', I), ('period_end_', I), ('period_length_', z3.RealSort()))]
        rows = SList.of(SSeq(n, lambda i: (SDate(parts[0](i)), SDate(parts[1](i)), SReal(parts[2](i)))))
        return interp.call(swap_accruals, (rows,))
    return f


def swap_accruals(rows):
    from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import SwapAccrual
    return [SwapAccrual(start_accrual=a, end_accrual=b, accrual_factor=x) for a, b, x in rows]


def payments_of(rows):
    from fixedIncome.src.assets.base_cashflow import Cashflow, Payment
    return Cashflow([Payment(payment_date=d, payment=x) for d, x in rows])


def floating_leg(interp, self, *args, **kwargs):
    """payments in date order determined by the swap's terms and the rate function, the stored floating leg if asked (proved in C15)"""
    from fixedIncome.src.assets.base_cashflow import CashflowKeys
    d = dict(zip(('interest_rate', 'set_cashflow'), args))
    d.update(kwargs)
    get = interp.getattr
    rate, keep = d['interest_rate'], d.get('set_cashflow', True)
    terms = swap_terms(interp, self, 'floating')
    if terms is None:
        return NotImplemented
    reg = P().root.__dict__.setdefault('floating_rates', [])
    if not any(r is rate for r in reg):
        reg.append(rate)
    name, a, b = terms
    name += f"_{type(self).__name__}_{[r is rate for r in reg].index(True)}_{get(self, 'payment_delay').name}" \
            f"_{get(self, 'fixing_date_for_accrual_period').name}"
    notional = S.to_real(S.num_z(unopt(get(self, 'notional'))))
    n = z3.Function('floating_payments_' + name, I, I, z3.RealSort(), I)(a, b, notional)
    P().root.keep.append(n)
    P().axiom(('floating', n.get_id()), lambda: [n >= 0])
    D, X = (indexed(p + name, n, (a, b, notional), s) for p, s in (('floating_date_', I), ('floating_amount_', z3.RealSort())))

    def date_at(i):
        t = D(i)

        def ax():
            fs = []
            for j, u in remembered_of('floating_date_' + name, n, (i, t)):
                both = z3.And(i >= 0, i < n, j >= 0, j < n)
                fs += [z3.Implies(z3.And(both, i <= j), t <= u), z3.Implies(z3.And(both, j <= i), u <= t)]
            return fs
        P().axiom(('floating_date', t.get_id()), ax)
        return t
    flow = interp.call(payments_of, (SList.of(SSeq(n, lambda i: (SDate(date_at(i)), SReal(X(i))))),))
    if interp.truth(keep):
        interp.setitem(self, CashflowKeys.FLOATING_LEG, flow)
    return flow


def value_of_payments(interp, self, *args, **kwargs):
    """the sum of the payments by exp(-(yield + adjustment) * accrual) (proved in C11: values_are_on_the_discount_curve)"""
    from .c11 import Asset
    d = dict(zip(('instrument', 'adjustment_fxcn'), args))
    d.update(kwargs)
    asset, adjustment = unopt(d['instrument']), unopt(d.get('adjustment_fxcn'))
    if not isinstance(asset, Asset):
        return NotImplemented
    import ast
    import numpy as np
    from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
    total = 0
    for amount, day in asset.flows:
        y = interp.call(self, (day, adjustment))
        t = interp.call(DayCountCalculator.compute_accrual_length, (self.reference_date, day, self.interpolation_day_count_convention))
        total = total + amount * interp.call(np.exp, (-(y * t),))
    return total


def pv01_risk(interp, self, *args, **kwargs):
    """the key rate's date, the values with the two bumps and the curve's index; the key rate is left as it was (proved in C14:
    sensitivity, one_key_rate)"""
    from fixedIncome.src.curves.curve_enumerations import CurveIndex
    from fixedIncome.src.risk.key_rate import KeyRate
    from fixedIncome.src.risk.risk_metrics import Risk
    d = dict(zip(('assets', 'key_rate'), args))
    d.update(kwargs)
    k = unopt(d['key_rate'])
    if not isinstance(k, KeyRate):
        return NotImplemented

    vs = []
    for b in (1, -1):
        moved = KeyRate.__new__(KeyRate)
        moved.__dict__.update(k.__dict__)
        moved.__dict__['_KeyRate__bump_val'] = SReal(z3.RealVal(b) / 20000)
        vs.append(bumped_value(interp, self, d['assets'], moved).z)
    return interp.call(Risk, (interp.getattr(k, 'key_rate_date'), SReal(vs[0] - vs[1]), CurveIndex.US_TREASURY))


def loan_payments(rows):
    from fixedIncome.src.assets.credit.loan import LoanPayment
    return [LoanPayment(payment_date=d, payment=x, principal_payment=p, interest_payment=i) for d, x, p, i in rows]


def loan_schedule(interp, self, *args, **kwargs):
    """a list in date order determined by the loan's terms and the payment amount (proved in C17: payment_dates, amortization)"""
    d = dict(zip(('payment_amount', 'extra_payments'), args))
    d.update(kwargs)
    get = interp.getattr
    time, freq, days = (get(self, x) for x in ('_payment_time', '_payment_frequency', '_day_count_convention'))
    term = S.as_rd(unopt(get(self, '_term_length')))
    if unopt(d.get('extra_payments')) is not None or term is None or time is None or freq.name == 'ZERO_COUPON':
        return NotImplemented
    R = z3.RealSort()
    real = lambda x: S.to_real(S.num_z(unopt(x)))
    name = f'{time.name}_{freq.name}_{days.name}'
    args = (S.lift_date(unopt(get(self, '_origination_date'))).o, z3.simplify(S.num_z(term.months)), real(get(self, 'principal')),
            real(get(self, '_interest_rate')), real(d['payment_amount']))
    n = z3.Function('loan_payments_' + name, *[a.sort() for a in args], I)(*args)
    P().root.keep.append(n)
    P().axiom(('loan', n.get_id()), lambda: [n >= 0])
    D, X, A, B = (indexed(p + name, n, args, s) for p, s in (('loan_date_', I), ('loan_payment_', R), ('loan_principal_', R),
                                                            ('loan_interest_', R)))
    rows = SList.of(SSeq(n, lambda i: (SDate(D(i)), SReal(X(i)), SReal(A(i)), SReal(B(i)))))
    return interp.call(loan_payments, (rows,))


SWAP = 'fixedIncome.src.assets.rates.linear_rates.interest_rate_swap.'
CONTRACTS = {
    'loan schedules': lambda: {'fixedIncome.src.assets.credit.loan.Loan.generate_payment_schedule': loan_schedule},
    'business day lists': lambda: {SCH + 'generate_business_days': business_day_list},
    'annualised rates': lambda: {'fixedIncome.src.assets.rates.linear_rates.interest_rate_swap.OvernightIndexSwap.'
                                 'calculate_annualized_rate': annualised_rate},
    'swap schedules': lambda: {SWAP + 'FixedToFloatInterestRateSwap.generate_floating_leg_accrual_schedule': accrual_schedule('floating'),
                               SWAP + 'FixedToFloatInterestRateSwap.generate_fixed_leg_accrual_schedule': accrual_schedule('fixed')},
    'floating legs': lambda: {SWAP + c + '.generate_floating_leg_cashflow': floating_leg
                              for c in ('TermInterestRateSwap', 'OvernightIndexSwap')},
    'bumped values': lambda: {'fixedIncome.src.curves.yield_curves.yield_curve.YieldCurve.present_value': bumped_value},
    'key rate values': lambda: {'fixedIncome.src.risk.key_rate.KeyRate.__call__': key_rate_value},
    'values of payments': lambda: {'fixedIncome.src.curves.yield_curves.yield_curve.YieldCurve.present_value': value_of_payments},
    'pv01 risks': lambda: {'fixedIncome.src.curves.yield_curves.yield_curve.YieldCurve.calculate_pv01_risk': pv01_risk},
    'yield curve values': lambda: {'fixedIncome.src.curves.yield_curves.yield_curve.YieldCurve.present_value': repriced},
    'curve values': lambda: {'fixedIncome.src.curves.base_curve.Curve.interpolate': curve_value},
    'values at fixed rates': lambda: {b + 'discount_cashflows_by_fixed_rate': fixed_rate_value for b in BONDS},
    'yields': lambda: {b + 'yield_to_maturity': yield_contract for b in BONDS},
    'accrued interest': lambda: {b + 'calculate_accrued_interest': accrued for b in BONDS},
    'stepped dates': lambda: {SCH + 'generate_dates_by_increments': stepped_dates},
    'stepped timestamps': lambda: {SCH + 'generate_dates_by_increments': stepped_stamps},
    'date adjustments': lambda: {SCH + 'following_date_adjustment': date_adjustment('following'),
                                 SCH + 'modified_following_date_adjustment': date_adjustment('modified_following')},
    'date adjustments of less than a fortnight': lambda: {
        SCH + 'following_date_adjustment': date_adjustment('following', 13),
        SCH + 'modified_following_date_adjustment': date_adjustment('modified_following', 13)},
    'accruals': lambda: {DCC + 'compute_accrual_length': accrual},
    'rising accruals': lambda: {DCC + 'compute_accrual_length': rising_accrual},
    'settlement dates': lambda: {SCH + 'calculate_settlement_date': settlement},
    'business days': lambda: {SCH + 'is_business_day': is_business_day},
    'business day steps': lambda: {SCH + 'add_single_business_day': step_contract('next', 1),
                                   SCH + 'subtract_single_business_day': step_contract('previous', -1)},
    'adding business days': lambda: {SCH + 'add_business_days': add_business_days},
    'day counts of dates': lambda: {DCC + '_dcc_act_over_act': act_act, DCC + '_dcc_30_over_360': thirty_360},
}
