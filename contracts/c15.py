"""C15: accrual schedules and legs of interest-rate swaps."""
from datetime import date, timedelta
from dateutil.relativedelta import relativedelta
from pyvc.harness import goal
from contracts.swaps import (some_terms, build, starts, ends, adjusted, boundaries, stepped_back, paid, CLASSES, MONTHS, F, DCC)
from contracts.calendars import some_calendar
from fixedIncome.src.assets.base_cashflow import CashflowKeys
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.scheduler import Scheduler

USES = ('business days', 'date adjustments of less than a fortnight', 'settlement dates', 'stepped dates', 'rising accruals')
FREQS = [f.name for f in MONTHS]
accrual = DayCountCalculator.compute_accrual_length


@goal(cases=list(CLASSES), uses=USES, n=60)
def life(h):
    t = some_terms(h, h.case)
    swap = build(t)
    h.eq('starts on settlement', swap.start_accrual_date, starts(t))
    h.eq('ends a tenor later', swap.end_accrual_date, ends(t))


@goal(cases=list(CLASSES), uses=USES, n=10)
def other_tenors_rejected(h):
    t = some_terms(h, h.case)
    t.tenor = h.choice('bad', ['10D', '3W', '5'])
    h.raises('tenor', ValueError, lambda: build(t))


def with_leg(h, case):
    cls, leg, freq = case.split(' ')
    return leg, some_terms(h, cls, **{leg: F[freq]})


def schedule_of(swap, leg):
    return swap.generate_fixed_leg_accrual_schedule() if leg == 'fixed' else swap.generate_floating_leg_accrual_schedule()


@goal(cases=[f'{c} {leg} {f}' for c in CLASSES for leg in ('fixed', 'floating') for f in FREQS], uses=USES, n=40)
def accrual_schedule(h):
    leg, t = with_leg(h, h.case)
    rows = schedule_of(build(t), leg)
    bounds = boundaries(t, leg)
    n = len(bounds)
    convention = t.fixed_days if leg == 'fixed' else t.floating_days
    h.eq('periods', len(rows), n - 1)

    def row(i):
        r = rows[i]
        h.eq('starts on a boundary', r.start_accrual, adjusted(t, bounds[n - 1 - i]))
        h.eq('ends on the next', r.end_accrual, adjusted(t, bounds[n - 2 - i]))
        h.eq('accrual', r.accrual_factor, accrual(r.start_accrual, r.end_accrual, convention))
        h.check('in date order', r.start_accrual < r.end_accrual)
    h.forall('rows', n - 1, row)
    h.forall('contiguous', n - 2, lambda i: h.eq('next starts where it ends', rows[i + 1].start_accrual, rows[i].end_accrual))
    if n > 1:
        h.eq('last end', rows[n - 2].end_accrual, adjusted(t, ends(t)))
    if not h.symbolic:
        days = sorted(adjusted(t, x) for x in stepped_back(t, leg))
        h.eq('the periods', [(r.start_accrual, r.end_accrual) for r in rows], list(zip(days, days[1:])))
        h.check('the whole life', not days or days[0] < starts(t) + relativedelta(months=15))


@goal(cases=[f'{c} {leg}' for c in CLASSES for leg in ('fixed', 'floating')], uses=USES, n=5)
def other_frequencies_rejected(h):
    cls, leg = h.case.split(' ')
    t = some_terms(h, cls, **{leg: h.choice('frequency', [F.MONTHLY, F.ZERO_COUPON])})
    swap = build(t)
    h.raises('frequency', ValueError, lambda: schedule_of(swap, leg))


def payments_are(h, flow, want):
    want = sorted(want, key=lambda r: r[0])
    n = len(want)
    h.eq('payments', len(flow), n)

    def row(i):
        p = flow[i]
        h.eq('payment date', p.payment_date, want[i][0])
        h.eq('amount', p.payment, want[i][1])
    h.forall('rows', n, row)


def stored(h, swap, key, flow, keep):
    other = CashflowKeys.FLOATING_LEG if key == CashflowKeys.FIXED_LEG else CashflowKeys.FIXED_LEG
    h.check('stored if asked', swap[key] is (flow if keep else None))
    h.check('other leg untouched', swap[other] is None)


@goal(cases=[f'{c} fixed {f}' for c in CLASSES for f in FREQS], uses=USES, n=40)
def fixed_leg(h):
    leg, t = with_leg(h, h.case)
    swap = build(t)
    keep = h.bool('keep')
    flow = swap.generate_fixed_leg_cashflow(set_cashflow=keep)
    rows = schedule_of(swap, leg)
    payments_are(h, flow, [(paid(t, r.end_accrual), r.accrual_factor * t.notional * t.rate) for r in rows])
    stored(h, swap, CashflowKeys.FIXED_LEG, flow, keep)


@goal(cases=['term floating ' + f for f in FREQS], uses=USES, n=40)
def term_floating_leg(h):
    leg, t = with_leg(h, h.case)
    swap = build(t)
    rate = h.fn('rate')
    keep = h.bool('keep')
    flow = swap.generate_floating_leg_cashflow(rate, set_cashflow=keep)
    rows = schedule_of(swap, leg)

    def fixing(r):
        return Scheduler.calculate_settlement_date(r.start_accrual, t.fixing, t.calendar)
    payments_are(h, flow, [(paid(t, r.end_accrual), r.accrual_factor * t.notional * rate(fixing(r))) for r in rows])
    stored(h, swap, CashflowKeys.FLOATING_LEG, flow, keep)


@goal(uses=USES + ('business day lists',), n=60)
def overnight_rate(h):
    """the compounded rate of a period"""
    t = some_terms(h, 'overnight')
    swap = build(t)
    rate = h.fn('rate')
    a, b = h.date('start'), h.date('end')
    if not h.symbolic:
        b = a + timedelta(days=4 + (b - a).days % 100)
    days = Scheduler.generate_business_days(a, b, t.calendar)
    n = len(days)
    h.assume(n > 1)
    growth, total = 1, 0
    for i in range(n - 1):
        x = accrual(days[i], days[i + 1], DCC.ACTUAL_OVER_360)
        growth = growth * (1 + rate(days[i]) * x)
        total = total + x
    h.eq('annualised', swap.calculate_annualized_rate(rate, a, b) * total, growth - 1)


@goal(cases=['overnight floating ' + f for f in FREQS], uses=USES + ('annualised rates',), n=20)
def overnight_floating_leg(h):
    leg, t = with_leg(h, h.case)
    swap = build(t)
    rate = h.fn('rate')
    keep = h.bool('keep')
    flow = swap.generate_floating_leg_cashflow(rate, set_cashflow=keep)
    rows = schedule_of(swap, leg)
    payments_are(h, flow, [(paid(t, r.end_accrual), r.accrual_factor * t.notional *
                            swap.calculate_annualized_rate(rate, r.start_accrual, r.end_accrual)) for r in rows])
    stored(h, swap, CashflowKeys.FLOATING_LEG, flow, keep)
    if not h.symbolic:
        amounts = []
        for r in rows:
            days = [r.start_accrual + timedelta(days=k) for k in range((r.end_accrual - r.start_accrual).days + 1)]
            days = [x for x in days if Scheduler.is_business_day(x, t.calendar)]
            growth = 1
            for x, y in zip(days, days[1:]):
                growth = growth * (1 + rate(x) * (y - x).days / 360)
            amounts.append(r.accrual_factor * t.notional * (growth - 1) * 360 / (days[-1] - days[0]).days)
        h.eq('compounded', sorted(p.payment for p in flow), sorted(amounts))
