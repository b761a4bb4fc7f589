"""C03: holiday dates are exactly the observed dates of the templates."""
from datetime import date, timedelta
from pyvc.harness import goal
from fixedIncome.src.scheduling_tools.holidays import (Holiday, US_FEDERAL_HOLIDAYS, us_federal_holiday_adjustment,
                                                       get_next_weekday, generate_holiday_dates, generate_all_holidays)
from fixedIncome.src.scheduling_tools.schedule_enumerations import Months, Weekdays


@goal(n=300)
def federal_observance(h):
    d = h.date('d')
    w = d.weekday()
    expected = d - timedelta(days=1) if w == 5 else (d + timedelta(days=1) if w == 6 else d)
    got = us_federal_holiday_adjustment(d)
    h.eq('observed date', got, expected)
    h.check('never on a weekend', got.weekday() < 5)


@goal(cases=list(Weekdays), n=100)
def next_weekday(h):
    d = h.date('d')
    got = get_next_weekday(d, h.case)
    h.check('is the requested weekday', got.weekday() == h.case.value)
    h.check('on or after the date', got >= d)
    h.check('the first one', (got - d).days < 7)


def templates(h):
    """an arbitrary month, day and observance rule"""
    first = h.int('month', 1, 12)
    day = h.int('day', 1, 28)
    rule = h.fn('rule', ('date',), 'int', lo=-6, hi=6)
    return first, day, lambda d: d + timedelta(days=rule(d))


@goal(n=80)
def one_holiday(h):
    month, day, rule = templates(h)
    lo = h.int('from_year', 1800, 2500)
    hi = h.int('to_year', 1800, 2500)
    if not h.symbolic:
        hi = lo + hi % 9 - 1
    x = h.date('x')
    if not h.symbolic and hi >= lo and h.bool('observed'):
        x = rule(date(lo + x.day % (hi - lo + 1), month, day))
    calendar = {'Other': Holiday(1, 1, lambda d: d), 'Name': Holiday(month, day, rule)}
    got = generate_holiday_dates('Name', lo, hi, calendar)
    h.eq('observed dates of the years', x in got, any(x == rule(date(y, month, day)) for y in range(lo, hi + 1)))


@goal(n=60)
def one_holiday_by_month_enumeration(h):
    _, day, rule = templates(h)
    month = h.choice('month_name', list(Months))
    y = h.int('year', 1800, 2500)
    calendar = {'Name': Holiday(month, day, rule)}
    got = generate_holiday_dates('Name', y, y, calendar)
    x = h.date('x')
    h.eq('observed date', x in got, x == rule(date(y, month.value, day)))
    h.check('present', rule(date(y, month.value, day)) in got)


@goal(n=60)
def all_holidays(h):
    """a calendar of three arbitrary templates"""
    rows = []
    for k in range(3):
        m = h.int(f'month{k}', 1, 12)
        d = h.int(f'day{k}', 1, 28)
        f = h.fn(f'rule{k}', ('date',), 'int', lo=-6, hi=6)
        rows.append((m, d, lambda x, f=f: x + timedelta(days=f(x))))
    calendar = {'A': Holiday(*rows[0]), 'B': Holiday(*rows[1]), 'C': Holiday(*rows[2])}
    lo = h.int('from_year', 1800, 2500)
    hi = h.int('to_year', 1800, 2500)
    if not h.symbolic:
        hi = lo + hi % 9 - 1
    x = h.date('x')
    if not h.symbolic and hi >= lo and h.bool('observed'):
        m, d, f = h.choice('which', rows)
        x = f(date(lo + x.day % (hi - lo + 1), m, d))
    got = generate_all_holidays(lo, hi, calendar)
    expected = False
    for m, d, f in rows:
        expected = expected | any(x == f(date(y, m, d)) for y in range(lo, hi + 1))
    h.eq('observed dates of every template', x in got, expected)


@goal(cases=list(US_FEDERAL_HOLIDAYS), n=40)
def federal_calendar_holiday(h):
    t = US_FEDERAL_HOLIDAYS[h.case]
    y = h.int('year', 1800, 2500)
    month = t.Month.value if isinstance(t.Month, Months) else t.Month
    observed = t.Adjustment_Function(date(y, month, t.Day))
    h.check('not on a weekend', observed.weekday() < 5)
    x = h.date('x')
    if not h.symbolic and h.bool('observed'):
        x = observed
    got = generate_holiday_dates(h.case, y, y, US_FEDERAL_HOLIDAYS)
    h.eq('the year has exactly the observed date', x in got, x == observed)
    h.check('listed among all holidays', observed in generate_all_holidays(y, y, US_FEDERAL_HOLIDAYS))


@goal(n=30, timeout_s=90)
def federal_calendar(h):
    lo = h.int('from_year', 1900, 2200)
    hi = h.int('to_year', 1900, 2200)
    if not h.symbolic:
        hi = lo + hi % 7
    x = h.date('x')
    got = generate_all_holidays(lo, hi, US_FEDERAL_HOLIDAYS)
    if not h.symbolic:
        expected = {t.Adjustment_Function(date(y, t.Month.value if isinstance(t.Month, Months) else t.Month, t.Day))
                    for t in US_FEDERAL_HOLIDAYS.values() for y in range(lo, hi + 1)}
        h.check('exactly the observed dates', got == expected)
        h.check('no weekends', all(d.weekday() < 5 for d in got))
    expected = False
    for name in US_FEDERAL_HOLIDAYS:
        expected = expected | (x in generate_holiday_dates(name, lo, hi, US_FEDERAL_HOLIDAYS))
    h.eq('the observed dates of all eleven holidays', x in got, expected)


@goal(cases=list(US_FEDERAL_HOLIDAYS), n=20)
def federal_holiday_never_on_a_weekend(h):
    lo = h.int('from_year', 1900, 2200)
    hi = h.int('to_year', 1900, 2200)
    x = h.date('x')
    if not h.symbolic:
        hi = lo + hi % 7
        x = next(iter(generate_holiday_dates(h.case, lo, hi, US_FEDERAL_HOLIDAYS)))
    got = generate_holiday_dates(h.case, lo, hi, US_FEDERAL_HOLIDAYS)
    h.check('weekdays only', (not (x in got)) or x.weekday() < 5)


@goal(n=40)
def unknown_name_rejected(h):
    lo = h.int('from_year', 1900, 2200)
    hi = h.int('to_year', 1900, 2200)
    h.raises('unknown holiday', KeyError, lambda: generate_holiday_dates('No such day', lo, hi, US_FEDERAL_HOLIDAYS))
