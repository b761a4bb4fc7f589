"""C01: day-count year fractions (DayCountCalculator)."""
from datetime import date
from calendar import isleap
from pyvc.harness import goal
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as D

accrual = DayCountCalculator.compute_accrual_length


def ordered(h):
    a = h.date('start')
    b = h.date('end')
    h.assume(a <= b)
    return a, b


@goal(cases=[(D.ACTUAL_OVER_360, 360), (D.ACTUAL_OVER_365, 365), (D.ACTUAL_OVER_365_POINT_25, 365.25)], n=150)
def actual_over_fixed(h):
    conv, denom = h.case
    a, b = ordered(h)
    h.eq('actual days over the denominator', accrual(a, b, conv), (b - a).days / denom)


leap = isleap


def february_end(d):
    return d.month == 2 and (d.day == 29 or (d.day == 28 and not leap(d.year)))


@goal(cases=[D.THIRTY_OVER_THREESIXTY], n=500)
def thirty_over_360(h):
    a, b = ordered(h)
    d1 = a.day
    d2 = b.day
    if february_end(a):
        if february_end(b):
            d2 = 30
        d1 = 30
    if d2 == 31 and d1 >= 30:
        d2 = 30
    if d1 == 31:
        d1 = 30
    expected = (360 * (b.year - a.year) + 30 * (b.month - a.month) + (d2 - d1)) / 360
    h.eq('30/360 US rules', accrual(a, b, D.THIRTY_OVER_THREESIXTY), expected)


def days_of_year(a, b, y):
    """days between a and b which lie in the year y (a day belongs to the year in which it ends)"""
    lo = max(a, date(y - 1, 12, 31))
    hi = min(b, date(y, 12, 31))
    return (hi - lo).days


def year_share(a, b, y):
    return days_of_year(a, b, y) / (366 if leap(y) else 365)


@goal(n=300)
def actual_over_actual(h):
    a, b = ordered(h)
    got = accrual(a, b, D.ACTUAL_OVER_ACTUAL)
    if a.year == b.year:
        h.eq('within one year', got, year_share(a, b, a.year))
    else:
        # every year strictly between contributes exactly one, so the sum over the years touched is the sum below
        h.forall('whole years', b.year - a.year - 1, lambda k: h.eq('one', year_share(a, b, a.year + 1 + k), 1))
        h.eq('sum over the years touched', got,
             year_share(a, b, a.year) + (b.year - a.year - 1) + year_share(a, b, b.year))
    if not h.symbolic:
        h.eq('sum over the years', got, sum(year_share(a, b, y) for y in range(a.year, b.year + 1)))


@goal(n=100)
def unknown_convention_rejected(h):
    a, b = ordered(h)
    h.raises('invalid convention', TypeError, lambda: accrual(a, b, 'ACTUAL'))
