"""C11: yield curves convert to the discount curve and reprice their instruments."""
import math
from datetime import date, timedelta
import numpy as np
from pyvc.harness import goal
from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair
from fixedIncome.src.curves.curve_enumerations import (CurveIndex, EndBehavior, InterpolationMethod as M,
                                                       InterpolationSpace as Space)
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurve, YieldCurveFactory
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as D
from .c10 import some_knots, a_knot, pairs, some_adjustment, plus

accrual = DayCountCalculator.compute_accrual_length
ENDS = (EndBehavior.CONSTANT, EndBehavior.CONSTANT)


class Instrument:
    """anything with a knot"""
    def __init__(self, knot, value):
        self.knot = knot
        self.value = value

    def to_knot_value_pair(self):
        return KnotValuePair(self.knot, self.value)


def yield_curve(h, rows, method, convention, space, ref, ends=ENDS):
    return YieldCurve([Instrument(d, v) for d, v in rows], None, method, convention, space, ref, *ends)


def a_reference(h, rows):
    ref = h.date('reference')
    if not h.symbolic:
        ref = rows[0][0] - timedelta(days=ref.day - 1)
    h.assume(ref <= rows[0][0])
    h.assume((ref >= FIRST) & (rows[len(rows) - 1][0] <= LAST))
    return ref


CONVENTIONS = [D.ACTUAL_OVER_ACTUAL, D.ACTUAL_OVER_360]
FIRST, LAST = date(1678, 1, 1), date(2262, 4, 1)        # the days pandas can hold
LO, HI = date(2022, 1, 1), date(2023, 6, 1)


def short_knots(h, name, method, convention):
    """concrete trials stay within a year and a half: a discount curve has a knot for every day"""
    rows = h.seq(name, ('date', 'real'), min_len=2, sorted_strict=True, **({} if h.symbolic else {'lo': LO, 'hi': HI}))
    return rows if h.symbolic else rows[:6]


class Asset(Instrument):
    """pays amounts on dates up to its maturity, and has a price"""
    def __init__(self, flows, knot=None, value=0.0, price=None):
        super().__init__(knot, value)
        self.maturity_date = knot
        self.flows = flows
        self.price = price

    def present_value(self, curve):
        total = 0.0
        for amount, day in self.flows:
            curve.interpolation_values[(day - curve.reference_date).days]
            total = total + amount * curve(day)
        return total


def factor(h, y, ref, t, convention):
    return (np.exp if h.symbolic else math.exp)(-y * accrual(ref, t, convention))


@goal(cases=[(m, c) for m in (M.LINEAR, M.PREVIOUS) for c in CONVENTIONS], uses=('rising accruals', 'curve values'), n=12, timeout_s=100)
def every_day_is_discounted(h):
    """exp(-(yield + adjustment) * accrual) at every calendar day up to the last knot"""
    method, convention = h.case
    rows = short_knots(h, 'knots', method, convention)
    ref = a_reference(h, rows)
    curve = yield_curve(h, rows, method, convention, Space.CONTINUOUSLY_COMPOUNDED_YIELD, ref)
    adjustment = some_adjustment(h)
    last = rows[len(rows) - 1][0]
    disc = curve.to_discount_curve(adjustment)
    n = (last - ref).days + 1

    def day(i):
        t = ref + timedelta(days=i)
        y = curve(t) + plus(adjustment, t)
        h.eq('factor', disc(t), factor(h, y, ref, t, convention))
    h.forall('days', n, day)
    h.eq('reference date', disc.reference_date, ref)
    h.eq('index', disc.index, CurveIndex.US_TREASURY)
    h.raises('after the last knot', ValueError, lambda: disc(last + timedelta(days=1)))


@goal(cases=[(m, c) for m in (M.LINEAR, M.PREVIOUS) for c in CONVENTIONS], uses=('rising accruals', 'curve values'), n=8, timeout_s=120)
def conversions_remember_nothing(h):
    """the factors of a conversion are those of its own adjustment and the curve's present knots, whatever was converted before"""
    method, convention = h.case
    rows = short_knots(h, 'knots', method, convention)
    ref = a_reference(h, rows)
    curve = yield_curve(h, rows, method, convention, Space.CONTINUOUSLY_COMPOUNDED_YIELD, ref)
    curve.to_discount_curve(some_adjustment(h))
    if h.bool('reset'):
        rows = short_knots(h, 'others', method, convention)
        h.assume(ref <= rows[0][0])
        h.assume(rows[len(rows) - 1][0] <= LAST)
        curve.reset_interpolation_values(pairs(rows))
    adjustment = h.fn('second') if h.bool('adjusted_again') else None
    disc = curve.to_discount_curve(adjustment)

    def day(i):
        t = ref + timedelta(days=i)
        h.eq('factor', disc(t), factor(h, curve(t) + plus(adjustment, t), ref, t, convention))
    h.forall('days', (rows[len(rows) - 1][0] - ref).days + 1, day)


@goal(cases=[(m, c) for m in (M.LINEAR, M.PREVIOUS) for c in CONVENTIONS], uses=('rising accruals',), n=40)
def knots_may_be_discount_factors(h):
    """in this space the knots are the discount factors, and the adjustment moves them"""
    method, convention = h.case
    rows = some_knots(h, 'knots', method, convention)
    ref = a_reference(h, rows)
    curve = yield_curve(h, rows, method, convention, Space.DISCOUNT_FACTOR, ref)
    if h.bool('converted_before'):
        curve.to_discount_curve(h.fn('earlier'))
    adjustment = some_adjustment(h)
    disc = curve.to_discount_curve(adjustment)
    j = a_knot(h, rows)
    h.eq('at a knot', disc(rows[j][0]), rows[j][1] + plus(adjustment, rows[j][0]))
    h.eq('index', disc.index, CurveIndex.US_TREASURY)
    h.eq('reference date', disc.reference_date, ref)
    h.raises('after the last knot', ValueError, lambda: disc(rows[len(rows) - 1][0] + timedelta(days=1)))


@goal(cases=CONVENTIONS, uses=('rising accruals', 'curve values'), n=10, timeout_s=100)
def values_are_on_the_discount_curve(h):
    convention = h.case
    rows = short_knots(h, 'knots', M.LINEAR, convention)
    ref = a_reference(h, rows)
    curve = yield_curve(h, rows, M.LINEAR, convention, Space.CONTINUOUSLY_COMPOUNDED_YIELD, ref)
    adjustment = some_adjustment(h)
    last = rows[len(rows) - 1][0]
    flows, want = [], 0
    for k in range(2):
        amount, day = h.real(f'amount{k}'), h.date(f'day{k}')
        if not h.symbolic:
            day = ref + timedelta(days=day.toordinal() % ((last - ref).days + 1))
        h.assume((ref <= day) & (day <= last))
        flows.append((amount, day))
        want = want + amount * factor(h, curve(day) + plus(adjustment, day), ref, day, convention)
    h.eq('value', curve.present_value(Asset(flows), adjustment), want)


@goal(cases=[(m, c) for m in (M.LINEAR, M.PREVIOUS) for c in CONVENTIONS], uses=('rising accruals',), n=40)
def later_knots_do_not_matter(h):
    """the yield up to a knot is determined by the knots up to it"""
    method, convention = h.case
    rows = some_knots(h, 'knots', method, convention)
    n = len(rows)
    ref = a_reference(h, rows)
    before = yield_curve(h, rows, method, convention, Space.CONTINUOUSLY_COMPOUNDED_YIELD, ref)
    after = yield_curve(h, rows, method, convention, Space.CONTINUOUSLY_COMPOUNDED_YIELD, ref)
    i = a_knot(h, rows, 'changed')
    after.reset_interpolation_value(KnotValuePair(rows[i][0], h.real('value')), i)
    j = h.int('earlier', 0, None)
    if not h.symbolic:
        j = j % max(1, i)
    h.assume(j < i)
    h.eq('at an earlier knot', after(rows[j][0]), before(rows[j][0]))
    x = h.date('x') if h.symbolic else rows[j][0] + timedelta(days=h.int('into', 0, 900))
    h.assume(j + 1 < i)
    h.assume((rows[j][0] <= x) & (x < rows[j + 1][0]))
    h.eq('before it', after(x), before(x))


@goal(cases=[(m, c) for m in (M.LINEAR, M.PREVIOUS) for c in CONVENTIONS], uses=('rising accruals',), n=20)
def before_the_first_knot(h):
    method, convention = h.case
    rows = some_knots(h, 'knots', method, convention)
    ref = a_reference(h, rows)
    curve = yield_curve(h, rows, method, convention, Space.CONTINUOUSLY_COMPOUNDED_YIELD, ref)
    x = h.date('x') if h.symbolic else rows[0][0] - timedelta(days=h.int('back', 1, 900))
    h.assume(x < rows[0][0])
    h.eq('first', curve(x), rows[0][1])


def instruments(h, n):
    """n instruments, in any order of maturity, each paying on two dates up to its maturity"""
    ref = h.date('reference') if h.symbolic else date(2022, 1, 3) + timedelta(days=h.int('start', 0, 700))
    h.assume(ref >= FIRST)
    made = []
    maturities = []
    for k in range(n):
        m = h.date(f'maturity{k}') if h.symbolic else ref + timedelta(days=h.int(f'term{k}', 20, 500))
        h.assume((m > ref) & (m <= LAST))
        for other in maturities:
            h.assume(m != other)
        maturities.append(m)
        early = h.date(f'early{k}') if h.symbolic else ref + timedelta(days=(m - ref).days * h.int(f'part{k}', 1, 9) // 10)
        h.assume((ref <= early) & (early <= m))
        if h.symbolic:
            coupon, final, price = h.real(f'coupon{k}'), h.real(f'final{k}'), h.real(f'price{k}')
        else:
            coupon, final, price = h.int(f'whole_coupon{k}', 0, 5), 100.0, h.int(f'whole_price{k}', 96, 104)
        made.append(Asset([(coupon, early), (final, m)], m, h.real(f'quote{k}') if h.symbolic else 0.01, price))
    return ref, made


@goal(cases=[(1, M.LINEAR), (2, M.LINEAR), (2, M.PREVIOUS), (3, M.LINEAR), (3, M.PREVIOUS), (4, M.LINEAR)], uses=('rising accruals', 'yield curve values'), n=10, tol=1e-7, timeout_s=200,
      bounded='at most four instruments')
def calibration_reprices(h):
    """the calibrated curve gives each instrument its price"""
    n, method = h.case
    ref, made = instruments(h, n)
    given = iter(made) if h.bool('iterator') else made
    curve = YieldCurveFactory().construct_yield_curve(given, method, ref)
    h.check('reference date', curve.reference_date == ref)
    for k, a in enumerate(made):
        h.eq(f'price {k}', curve.present_value(a), a.price)
        if not h.symbolic:
            h.eq(f'again {k}', curve.to_discount_curve().present_value(a), a.price)


@goal(cases=[(1, M.LINEAR), (2, M.LINEAR), (2, M.PREVIOUS), (3, M.LINEAR), (3, M.PREVIOUS), (4, M.LINEAR)], uses=('rising accruals', 'yield curve values'), n=10, tol=1e-7, timeout_s=200,
      bounded='at most four instruments')
def bootstrapping_reprices(h):
    n, method = h.case
    ref, made = instruments(h, n)
    curve = YieldCurveFactory().bootstrap_yield_curve(iter(made) if h.bool('iterator') else made, method, ref)
    for k, a in enumerate(made):
        h.eq(f'price {k}', curve.present_value(a), a.price)
