"""C04: business-day arithmetic, adjustment and settlement."""
from datetime import date, timedelta
from pyvc.harness import goal
from contracts.calendars import some_calendar, three_templates, calendar_of
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import US_FEDERAL_HOLIDAYS, generate_all_holidays
from fixedIncome.src.scheduling_tools.schedule_enumerations import SettlementConvention as SC

DAY = timedelta(days=1)
BD = ('business days',)
STEPS = ('business days', 'business day steps')
ADD = ('business days', 'adding business days')
is_bd = Scheduler.is_business_day


@goal(n=150, timeout_s=150, weight=3)
def business_day_predicate(h):
    """any calendar of three templates observed within six days of their date"""
    rows = three_templates(h)
    x = h.date('x')
    if not h.symbolic and h.bool('at_a_holiday'):
        m, d, f = h.choice('which', rows)
        x = f(date(x.year, m, d))
    holiday = False
    for m, d, f in rows:
        holiday = holiday | (x == f(date(x.year - 1, m, d))) | (x == f(date(x.year, m, d))) | (x == f(date(x.year + 1, m, d)))
    h.eq('business day', Scheduler.is_business_day(x, calendar_of(rows)), x.weekday() < 5 and not holiday)


@goal(n=200, timeout_s=150, weight=3, symbolic=False)
def federal_business_days(h):
    """bounded: the built-in calendar over sampled dates, each holiday being observed in the years around it"""
    x = h.date('x')
    if h.bool('near_new_year'):
        x = date(x.year, 12, 31) + DAY * (x.day % 4 - 1)
    observed = generate_all_holidays(x.year - 1, x.year + 1, US_FEDERAL_HOLIDAYS)
    h.eq('business day', Scheduler.is_business_day(x, US_FEDERAL_HOLIDAYS), x.weekday() < 5 and x not in observed)


def none_between(h, name, lo, hi, cal):
    """no business day in lo <= x < hi"""
    h.forall(name, (hi - lo).days, lambda k: h.check(name, not is_bd(lo + DAY * k, cal)))


@goal(cases=['add zero', 'following'], uses=BD, n=100)
def first_business_day(h):
    cal = some_calendar(h)
    d = h.date('d')
    if h.case == 'following':
        r = Scheduler.following_date_adjustment(d, cal)
    else:
        r = Scheduler.add_business_days(d, 0, cal)
    h.check('a business day', is_bd(r, cal))
    h.check('on or after the date', r >= d)
    none_between(h, 'none skipped', d, r, cal)


@goal(uses=BD, n=100)
def next_business_day(h):
    cal = some_calendar(h)
    d = h.date('d')
    if is_bd(d, cal):
        r = Scheduler.add_single_business_day(d, cal)
        h.check('a business day', is_bd(r, cal))
        h.check('after the date', r > d)
        none_between(h, 'none skipped', d + DAY, r, cal)
    else:
        h.raises('not a business day', ValueError, lambda: Scheduler.add_single_business_day(d, cal))


@goal(uses=BD, n=100)
def previous_business_day(h):
    cal = some_calendar(h)
    d = h.date('d')
    h.assume(is_bd(d, cal))
    r = Scheduler.subtract_single_business_day(d, cal)
    h.check('a business day', is_bd(r, cal))
    h.check('before the date', r < d)
    none_between(h, 'none skipped', r + DAY, d, cal)


@goal(cases=['forward', 'backward'], uses=STEPS, n=120)
def adding_business_days(h):
    """n steps of exactly one business day from the first business day on or after the date"""
    cal = some_calendar(h)
    d = h.date('d')
    n = h.int('n', 0, None)
    if not h.symbolic:
        n = n % 12
    start = Scheduler.add_business_days(d, 0, cal)
    x = start
    for _ in range(n):
        x = Scheduler.add_single_business_day(x, cal) if h.case == 'forward' else \
            Scheduler.subtract_single_business_day(x, cal)
    h.eq('n business days away', Scheduler.add_business_days(d, n if h.case == 'forward' else -n, cal), x)
    if not h.symbolic:
        r = Scheduler.add_business_days(d, n if h.case == 'forward' else -n, cal)
        lo, hi = (start, r) if h.case == 'forward' else (r, start)
        h.eq('business days counted', sum(1 for k in range((hi - lo).days) if is_bd(lo + DAY * k, cal)), n)


@goal(uses=BD, n=150)
def modified_following(h):
    cal = some_calendar(h)
    d = h.date('d')
    following = Scheduler.add_business_days(d, 0, cal)
    got = Scheduler.modified_following_date_adjustment(d, cal)
    if (following.year, following.month) == (d.year, d.month):
        h.eq('the following business day', got, following)
    else:
        h.assume((following - d).days < 28)
        h.check('a business day', is_bd(got, cal))
        h.check('before the date', got < d)
        none_between(h, 'immediately preceding', got + DAY, d, cal)


@goal(cases=['following', 'modified following'], uses=BD, n=100)
def adjustments_skip_nothing(h):
    """a business day is its own adjustment, and no adjustment goes back beyond a business day"""
    cal = some_calendar(h)
    d, b = h.date('d'), h.date('b')
    if not h.symbolic:
        b = d - DAY * h.int('before', 0, 20)
    h.assume(b <= d)
    h.assume(is_bd(b, cal))
    if h.case == 'following':
        got = Scheduler.following_date_adjustment(d, cal)
    else:
        got = Scheduler.modified_following_date_adjustment(d, cal)
    h.check('not before it', got >= b)
    h.check('a business day', is_bd(got, cal))
    if is_bd(d, cal):
        h.eq('itself', got, d)


SHIFTS = [(SC.T_MINUS_TWO_BUSINESS, -2), (SC.T_MINUS_ONE_BUSINESS, -1), (SC.T_PLUS_ZERO_BUSINESS, 0),
          (SC.T_PLUS_ONE_BUSINESS, 1), (SC.T_PLUS_TWO_BUSINESS, 2), (SC.T_PLUS_THREE_BUSINESS, 3)]


@goal(cases=SHIFTS, uses=ADD, n=60)
def settlement_shift(h):
    conv, n = h.case
    cal = some_calendar(h)
    d = h.date('purchase')
    h.eq('settlement', Scheduler.calculate_settlement_date(d, conv, cal), Scheduler.add_business_days(d, n, cal))


@goal(uses=BD, n=100)
def settlement_minus_zero(h):
    cal = some_calendar(h)
    d = h.date('purchase')
    got = Scheduler.calculate_settlement_date(d, SC.T_MINUS_ZERO_BUSINESS, cal)
    h.check('a business day', is_bd(got, cal))
    h.check('on or before the purchase date', got <= d)
    none_between(h, 'the latest', got + DAY, d + DAY, cal)


@goal(cases=['T+1', None, 1, SC.T_PLUS_ZERO_CALENDAR, SC.T_PLUS_ONE_CALENDAR, SC.T_PLUS_TWO_CALENDAR,
             SC.T_PLUS_THREE_CALENDAR], uses=ADD, n=20)
def unsupported_settlement_rejected(h):
    cal = some_calendar(h)
    d = h.date('purchase')
    h.raises('unsupported', ValueError, lambda: Scheduler.calculate_settlement_date(d, h.case, cal))
