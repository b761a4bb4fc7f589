"""C09: fixed-rate discounting, yield, duration and convexity of bonds."""
from datetime import date, timedelta
from pyvc.harness import goal
from contracts.bonds import some_terms, dated, coupon_dates_of, coupon_of, adjusted, expected_coupons, COUPON_CASES, CLASSES, PER_YEAR, F
from contracts.c07 import received_from
from contracts.c08 import t_bond, own_settlement
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention, PaymentFrequency
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator

USES = ('business days', 'adding business days', 'date adjustments', 'settlement dates', 'stepped dates', 'accrued interest')
accrual = DayCountCalculator.compute_accrual_length
BP = 0.0001


TWO = (DayCountConvention.ACTUAL_OVER_360, DayCountConvention.THIRTY_OVER_THREESIXTY)


def terms(h):
    # the accrual is only seen as some function of the convention, and tenors are dealt with in C07
    return some_terms(h, TWO if h.symbolic else None, units='M')


def valid(h, t):
    if not h.symbolic:
        h.assume(dated(t) <= own_settlement(t) <= t.maturity)


def some_reference(h, t):
    d = h.date('reference')
    if not h.symbolic:
        d = t.maturity - timedelta(days=h.int('before_maturity', -9, None) * 97 % 3000)
        if h.bool('next_to_a_coupon'):
            d = h.choice('which', coupon_dates_of(t)) + timedelta(days=h.int('off', -5, 5))
    return d


def value_at(h, t, y, ref, first, weight=None):
    """the sum over payments received of amount / (1 + y/f)^(f * t)"""
    f = PER_YEAR[t.frequency]
    total = 0
    for paid, x in expected_coupons(t):
        if x >= first:
            a = accrual(ref, paid, t.convention)
            total = total + coupon_of(t) / (1 + y / f) ** (f * a) * (a if weight else 1)
    if t.maturity >= first:
        a = accrual(ref, adjusted(t, t.maturity), t.convention)
        total = total + t.principal / (1 + y / f) ** (f * a) * (a if weight else 1)
    return total


@goal(cases=COUPON_CASES, uses=USES + ('accruals',), n=60, timeout_s=120)
def discounting(h):
    t = terms(h)
    valid(h, t)
    bond = t_bond(t)
    ref, y = some_reference(h, t), h.real('y')
    if not h.symbolic:
        y = y % 0.3 - 0.05
    h.assume(y > -PER_YEAR[t.frequency])
    h.eq('discounted payments', bond.discount_cashflows_by_fixed_rate(y, ref), value_at(h, t, y, ref, received_from(t, ref)))


@goal(cases=COUPON_CASES, uses=USES + ('accruals',), n=60, timeout_s=120)
def discounting_from_the_purchase_date(h):
    t = terms(h)
    valid(h, t)
    bond = t_bond(t)
    y = h.real('y')
    if not h.symbolic:
        y = y % 0.3 - 0.05
    h.assume(y > -PER_YEAR[t.frequency])
    h.eq('by default', bond.discount_cashflows_by_fixed_rate(y), value_at(h, t, y, t.purchase, received_from(t, t.purchase)))


def marketable(h, t):
    """concrete runs keep to bonds whose yield the solver can be expected to find"""
    if h.symbolic:
        return
    t.price = 80 + t.price % 40
    start = dated(t)
    h.assume((t.maturity - start).days > 500)
    t.purchase = start + timedelta(days=h.int('bought_after', 0, None) * 37 % ((t.maturity - start).days - 400))
    if h.bool('bought_at_the_start'):
        t.purchase = start
    valid(h, t)


def full_value(t, bond):
    return (t.price + 100 * bond.accrued_interest / t.principal) * t.principal / 100


@goal(cases=COUPON_CASES, uses=USES + ('values at fixed rates',), n=30, timeout_s=100)
def yield_to_maturity(h):
    t = terms(h)
    marketable(h, t)
    bond = t_bond(t)
    default = h.bool('default_date')
    ref = t.purchase if default else h.date('reference')
    if not h.symbolic and not default:
        ref = t.purchase + timedelta(days=h.int('later', 0, 200) * 7 % max((t.maturity - t.purchase).days - 400, 1))
    y = bond.yield_to_maturity() if default else bond.yield_to_maturity(ref)
    target = full_value(t, bond)
    h.eq('reprices', bond.discount_cashflows_by_fixed_rate(y, ref), target, tol=1e-6)


@goal(cases=COUPON_CASES, uses=USES + ('values at fixed rates', 'yields'), n=30, timeout_s=100)
def duration_and_convexity(h):
    t = terms(h)
    marketable(h, t)
    bond = t_bond(t)
    y = bond.yield_to_maturity()
    full = full_value(t, bond)
    h.assume(full != 0)
    up, down = (bond.discount_cashflows_by_fixed_rate(y + s * BP / 2) for s in (1, -1))
    h.eq('duration', bond.duration(), -(up - down) / BP / full, tol=1e-6)
    up, mid, down = (bond.discount_cashflows_by_fixed_rate(y + s * BP) for s in (1, 0, -1))
    h.eq('convexity', bond.convexity(), (up - 2 * mid + down) / (BP * BP) / full, tol=1e-3)
    h.eq('duration again', bond.duration(), bond.duration())


@goal(cases=[c for c in COUPON_CASES if c.startswith('corporate')], uses=USES + ('accruals',), n=60, timeout_s=120)
def macaulay_duration(h):
    t = terms(h)
    marketable(h, t)
    bond = t_bond(t)
    own = own_settlement(t)
    y = h.real('y')
    if not h.symbolic:
        y = y % 0.3 - 0.05
    h.assume(y > -PER_YEAR[t.frequency])
    default = h.bool('default_date')
    ref = t.purchase if default else h.date('reference')
    if not h.symbolic and not default:
        ref = own - timedelta(days=h.int('earlier', 0, 300))
    h.assume(ref <= own)
    full = full_value(t, bond)
    h.assume(full != 0)
    got = bond.macaulay_duration(y) if default else bond.macaulay_duration(y, ref)
    h.eq('weighted time', got, value_at(h, t, y, ref, own, weight=True) / full)
