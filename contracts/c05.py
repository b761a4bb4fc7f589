"""C05: generated date schedules."""
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from pyvc.harness import goal
from contracts.calendars import some_calendar
from fixedIncome.src.scheduling_tools.scheduler import Scheduler

BD = ('business days',)
is_bd = Scheduler.is_business_day


def increment_of(h):
    kind = h.case.split(' ')[1]
    if kind == 'months':
        m = h.int('months', -60, 60)
        return relativedelta(months=m)
    if kind == 'years':
        y = h.int('years', -5, 5)
        return relativedelta(years=y)
    if kind == 'relative-days':
        d = h.int('days', -400, 400)
        return relativedelta(days=d)
    if kind == 'mixed':
        m, d = h.int('months', -14, 14), h.int('days', -20, 20)
        return relativedelta(months=m, days=d)
    if kind == 'duration':
        d, s = h.int('days', -400, 400), h.int('seconds', -90000, 90000)
        if h.case.startswith('dates'):
            s = 0
        return timedelta(days=d, seconds=s)


@goal(cases=[a + ' ' + b for a in ('dates', 'timestamps') for b in ('months', 'years', 'relative-days', 'mixed', 'duration')],
      n=150, timeout_s=120)
def stepped_schedule(h):
    if h.case.startswith('dates'):
        start, end = h.date('start'), h.date('end')
    else:
        start, end = h.datetime('start'), h.datetime('end')
    inc = increment_of(h)
    default = h.bool('default_cap')
    cap = 1000 if default else h.int('cap', None, None)
    if not h.symbolic and not default:
        cap = cap % 40
    forward = start + inc >= start
    if default:
        dates = Scheduler.generate_dates_by_increments(start, end, inc)
    else:
        dates = Scheduler.generate_dates_by_increments(start, end, inc, cap)
    n = len(dates)

    def beyond(x):
        return x > end if forward else x < end
    h.check('at most the maximum number of dates', (n <= cap) | (n == 0))
    if n == 0:
        h.check('empty only if the start is beyond the end', beyond(start) | (cap <= 0))
    else:
        h.eq('starts at the start date', dates[0], start)
        h.forall('stepped', n - 1, lambda i: h.eq('predecessor plus increment', dates[i + 1], dates[i] + inc))
        h.forall('range', n, lambda i: h.check('within the end date', not beyond(dates[i])))
        h.check('stops only at the end or the maximum', beyond(dates[n - 1] + inc) | (n == cap))


@goal(cases=[3, None, 1.5, '1M'], n=10)
def other_increments_rejected(h):
    a, b = h.date('start'), h.date('end')
    h.raises('increment type', TypeError, lambda: Scheduler.generate_dates_by_increments(a, b, h.case))


@goal(uses=('business days', 'business day steps'), n=80, timeout_s=120)
def business_day_schedule(h):
    """consecutive business days: the next business day of the calendar is what is proved of it in C04"""
    cal = some_calendar(h)
    a, b = h.date('start'), h.date('end')
    if not h.symbolic and (b - a).days > 500:
        b = a + timedelta(days=(b - a).days % 60)
    first = Scheduler.add_business_days(a, 0, cal)
    days = Scheduler.generate_business_days(a, b, cal)
    n = len(days)
    if n == 0:
        h.check('empty only if the first business day is past the end', first > b)
    else:
        h.eq('first business day', days[0], first)
        h.forall('members', n, lambda i: h.check('a business day in the range', is_bd(days[i], cal) & (days[i] <= b)))
        h.forall('order', n - 1, lambda i: h.eq('next business day', days[i + 1], Scheduler.add_single_business_day(days[i], cal)))
        h.check('stops at the end', Scheduler.add_single_business_day(days[n - 1], cal) > b)
    if not h.symbolic:
        h.eq('every business day', days, [x for x in (a + timedelta(days=k) for k in range((b - a).days + 1)) if is_bd(x, cal)])
