"""C08: accrued interest and full price of bonds."""
from datetime import date, timedelta
from pyvc.harness import goal
from contracts.bonds import some_terms, build, dated, coupon_dates_of, coupon_of, BOND_CASES, COUPON_CASES, CLASSES, PER_YEAR, F
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from dateutil.relativedelta import relativedelta

USES = ('business days', 'adding business days', 'date adjustments of less than a fortnight', 'settlement dates', 'stepped dates')
accrual = DayCountCalculator.compute_accrual_length


def own_settlement(t, d=None):
    return Scheduler.calculate_settlement_date(d or t.purchase, t.settlement_convention, t.calendar)


def around(h, t, s):
    """consecutive unadjusted coupon dates with previous < s <= next (the dated date before the first coupon)"""
    if not h.symbolic:
        days = coupon_dates_of(t)
        later = [x for x in days if x >= s]
        earlier = [x for x in days if x < s]
        return (max(earlier) if earlier else dated(t)), min(later)
    days = Scheduler.generate_dates_by_increments(t.maturity, dated(t) + timedelta(days=1),
                                                  relativedelta(months=-12 // PER_YEAR[t.frequency]))
    i, n = h.int('coupon_index', 0, None), len(days)
    h.assume(i < n)
    h.assume(days[i] >= s)
    if i == n - 1:
        return dated(t), days[i]
    h.assume(days[i + 1] < s)
    return days[i + 1], days[i]


def expected(h, t, s):
    previous, following = around(h, t, s)
    whole = accrual(previous, following, t.convention)
    if t.convention == DayCountConvention.THIRTY_OVER_THREESIXTY:
        h.assume(whole > 0)
    return coupon_of(t) * (accrual(previous, s, t.convention) / whole)


@goal(cases=COUPON_CASES, uses=USES + ('accruals',), n=80, timeout_s=120)
def accrued_at_own_settlement(h):
    t = some_terms(h)
    s = own_settlement(t)
    if s < dated(t):
        h.raises('settlement before the dated date', ValueError, lambda: t_bond(t))
    else:
        h.assume(s <= t.maturity)
        want = expected(h, t, s)
        h.eq('share of the coupon', t_bond(t).accrued_interest, want)


def t_bond(t):
    return t.cls(price=t.price, coupon_rate=t.rate, principal=t.principal, tenor=t.tenor, purchase_date=t.purchase,
                 maturity_date=t.maturity, settlement_convention=t.settlement_convention, payment_frequency=t.frequency,
                 day_count_convention=t.convention, business_day_adjustment=t.adjustment, holiday_calendar=t.calendar)


def silent(cls):
    """the same class, whose constructor does not work out the accrued interest of the bond's own settlement date"""
    class Silent(cls):
        def calculate_accrued_interest(self, reference_date=None):
            return 0.0
    return Silent


SILENT = {c: silent(c) for c in CLASSES.values()}


def quiet_bond(h, t):
    if not h.symbolic:
        return t_bond(t)
    real = t.cls
    t.cls = SILENT[real]
    b = t_bond(t)
    t.cls = real
    return b


@goal(cases=COUPON_CASES, uses=USES + ('accruals',), n=80, timeout_s=120)
def accrued_as_of_a_trade_date(h):
    t = some_terms(h)
    if not h.symbolic:
        h.assume(dated(t) <= own_settlement(t) <= t.maturity)
    bond = quiet_bond(h, t)
    trade = h.date('trade')
    if not h.symbolic:
        trade = t.purchase + timedelta(days=h.int('later', -9, 9) * 17)
        if h.bool('near_a_coupon'):
            trade = h.choice('coupon', coupon_dates_of(t)) + timedelta(days=h.int('days', -4, 3))
    s = own_settlement(t, trade)
    accrued = t.cls.calculate_accrued_interest
    if s < dated(t):
        h.raises('settlement before the dated date', ValueError, lambda: accrued(bond, trade))
    else:
        h.assume(s <= t.maturity)
        want = expected(h, t, s)
        h.eq('share of the coupon', accrued(bond, trade), want)


@goal(cases=[c + ' ZERO_COUPON' for c in CLASSES], uses=USES + ('accruals',), n=40)
def zero_coupon_bonds_accrue_nothing(h):
    t = some_terms(h)
    bond = t_bond(t)
    h.eq('at own settlement', bond.accrued_interest, 0)
    h.eq('as of a date', bond.calculate_accrued_interest(h.date('trade')), 0)
    h.eq('coupon', bond.coupon_payment, 0)


ACTUAL = [c for c in DayCountConvention if c != DayCountConvention.THIRTY_OVER_THREESIXTY]


@goal(cases=COUPON_CASES, uses=USES + ('day counts of dates',), n=80, timeout_s=150)
def accrued_is_between_zero_and_one_coupon(h):
    t = some_terms(h, ACTUAL)
    s = own_settlement(t)
    h.assume(dated(t) <= s)
    h.assume(s <= t.maturity)
    previous, following = around(h, t, s)
    a = t_bond(t).accrued_interest
    h.check('not negative', a >= 0)
    h.check('at most a coupon', a <= coupon_of(t) + (0 if h.symbolic else 1e-9))


@goal(cases=BOND_CASES, uses=USES + ('accrued interest',), n=60)
def full_price(h):
    t = some_terms(h)
    if not h.symbolic:
        h.assume(dated(t) <= own_settlement(t) <= t.maturity)
    bond = t_bond(t)
    want = t.price + 100 * bond.accrued_interest / t.principal
    h.eq('clean price plus accrued interest', bond.full_price, want)
    h.eq('asked for', bond.get_full_price(), want)
    h.eq('asked again', bond.get_full_price(), want)
    h.eq('price is kept', bond.price, t.price)
