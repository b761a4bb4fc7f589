"""C02: accruals are non-negative, additive and proportional to the time of day."""
from datetime import date, datetime, time, timedelta
from pyvc.harness import goal
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as D

accrual = DayCountCalculator.compute_accrual_length
ACTUAL = [D.ACTUAL_OVER_360, D.ACTUAL_OVER_365, D.ACTUAL_OVER_365_POINT_25, D.ACTUAL_OVER_ACTUAL]
ALL = ACTUAL + [D.THIRTY_OVER_THREESIXTY]
STAMPS = ['timestamps', 'mixed']
BY_DATES = ('day counts of dates',)


def moments(h, kind, names):
    out = []
    for i, nm in enumerate(names):
        stamp = kind == 'timestamps' or (kind == 'mixed' and i % 2 == 1)
        out.append(h.datetime(nm) if stamp else h.date(nm))
    return out


def key(x):
    return x if isinstance(x, datetime) else datetime.combine(x, time(0))


@goal(n=200)
def act_act_is_a_coordinate(h):
    """contract of the actual/actual day count on dates, used below"""
    def coordinate(d):
        return d.year + (d - date(d.year - 1, 12, 31)).days / (date(d.year, 12, 31) - date(d.year - 1, 12, 31)).days
    a = h.date('a')
    b = h.date('b')
    h.assume(a <= b)
    got = accrual(a, b, D.ACTUAL_OVER_ACTUAL)
    h.eq('difference of the coordinates', got, coordinate(b) - coordinate(a))
    eps = 0 if h.symbolic else 1e-12
    h.check('at least days/366', got >= (b - a).days / 366 - eps)
    h.check('at most days/365', got <= (b - a).days / 365 + eps)


@goal(n=300)
def thirty_360_of_dates(h):
    """contract of the 30/360 day count on dates, used below"""
    a = h.date('a')
    b = h.date('b')
    c = h.date('c')
    h.assume(a <= b)
    h.assume(b <= c)
    eps = 0 if h.symbolic else 1e-12
    h.eq('zero for equal dates', accrual(a, a, D.THIRTY_OVER_THREESIXTY), 0)
    x = accrual(a, b, D.THIRTY_OVER_THREESIXTY)
    h.check('non-negative', x >= -eps)
    h.check('bounded', (a == b) or (x <= ((b - a).days + 3) / 360 + eps))
    h.check('non-decreasing', x <= accrual(a, c, D.THIRTY_OVER_THREESIXTY) + eps)


def zero_goal(h, kind):
    a, = moments(h, kind, ['a'])
    h.eq('accrual to itself', accrual(a, a, h.case[0]), 0)


def never_negative_goal(h, kind):
    a, b = moments(h, kind, ['a', 'b'])
    h.assume(key(a) <= key(b))
    h.check('accrual >= 0', accrual(a, b, h.case[0]) >= (0 if h.symbolic else -1e-12))


def longer_goal(h, kind):
    a, b, c = moments(h, kind, ['a', 'b', 'c'])
    h.assume(key(a) <= key(b))
    h.assume(key(b) <= key(c))
    conv = h.case[0]
    h.check('accrual(a, b) <= accrual(a, c)', accrual(a, b, conv) <= accrual(a, c, conv) + (0 if h.symbolic else 1e-12))


def additive_goal(h, kind):
    a, b, c = moments(h, kind, ['a', 'b', 'c'])
    h.assume(key(a) <= key(b))
    h.assume(key(b) <= key(c))
    conv = h.case[0]
    h.eq('accrual(a, c)', accrual(a, c, conv), accrual(a, b, conv) + accrual(b, c, conv))


@goal(cases=[(c,) for c in ALL], n=80)
def zero_to_itself_dates(h):
    zero_goal(h, 'dates')


@goal(cases=[(c,) for c in ALL], n=80)
def zero_to_itself_timestamps(h):
    zero_goal(h, 'timestamps')


@goal(cases=[(c,) for c in ALL], n=120)
def never_negative_dates(h):
    never_negative_goal(h, 'dates')


@goal(cases=[(c, k) for c in ALL for k in STAMPS], n=120, uses=BY_DATES)
def never_negative_timestamps(h):
    never_negative_goal(h, h.case[1])


@goal(cases=[(c,) for c in ALL], n=120)
def longer_period_accrues_no_less_dates(h):
    longer_goal(h, 'dates')


@goal(cases=[(c, k) for c in ALL for k in STAMPS], n=120, uses=BY_DATES)
def longer_period_accrues_no_less_timestamps(h):
    longer_goal(h, h.case[1])


@goal(cases=[(c,) for c in ACTUAL], n=120)
def additive_dates(h):
    additive_goal(h, 'dates')


@goal(cases=[(c, k) for c in ACTUAL for k in STAMPS], n=120, uses=BY_DATES)
def additive_timestamps(h):
    additive_goal(h, h.case[1])


@goal(cases=[(c, k) for c in ALL for k in ['dates'] + STAMPS], n=60)
def reversed_dates_rejected(h):
    conv, kind = h.case
    a, b = moments(h, kind, ['a', 'b'])
    h.assume(key(a) > key(b))
    h.raises('start after the end', ValueError, lambda: accrual(a, b, conv))


@goal(cases=[(c, side) for c in ALL for side in ('start', 'end', 'both')], n=80)
def midnight_is_the_date(h):
    conv, side = h.case
    a = h.date('a')
    b = h.date('b')
    h.assume(a <= b)
    x = datetime.combine(a, time(0)) if side != 'end' else a
    y = datetime.combine(b, time(0)) if side != 'start' else b
    h.eq('midnight timestamp', accrual(x, y, conv), accrual(a, b, conv))


@goal(cases=[(c, side) for c in ALL for side in ('start', 'end')], n=120)
def elapsed_fraction_of_the_day(h):
    """a timestamp moves the accrual by the elapsed fraction of the accrual of its own calendar day"""
    conv, side = h.case
    t = h.datetime('t')
    a = t.date() if side == 'start' else h.date('a')
    b = t.date() if side == 'end' else h.date('b')
    h.assume(a <= b)
    fraction = (t - datetime.combine(t.date(), time(0))).total_seconds() / 86400
    if side == 'end':
        day = accrual(a, b + timedelta(days=1), conv) - accrual(a, b, conv)
        h.eq('end timestamp', accrual(a, t, conv), accrual(a, b, conv) + fraction * day)
    else:
        h.assume(key(t) <= key(b))
        day = accrual(a, a + timedelta(days=1), conv)
        h.eq('start timestamp', accrual(t, b, conv), accrual(a, b, conv) - fraction * day)


@goal(n=200)
def thirty_360_grows_every_two_days(h):
    """the callee contract other checks use for knots two or more days apart"""
    a, b, c = h.date('a'), h.date('b'), h.date('c')
    h.assume(a <= b)
    h.assume(b + timedelta(days=2) <= c)
    conv = D.THIRTY_OVER_THREESIXTY
    h.check('accrual(a, b) < accrual(a, c)', accrual(a, b, conv) < accrual(a, c, conv))
