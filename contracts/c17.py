"""C17: loans."""
from datetime import date, timedelta
from dateutil.relativedelta import relativedelta
from pyvc.harness import goal
from contracts.c06 import Curve, some_curve
from fixedIncome.src.assets.base_cashflow import Cashflow
from fixedIncome.src.assets.credit.loan import Loan
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency, PaymentTime, DayCountConvention

F, PT = PaymentFrequency, PaymentTime
MONTHS = {F.MONTHLY: 1, F.QUARTERLY: 3, F.SEMI_ANNUAL: 6, F.ANNUAL: 12}
TIMES = [PT.END_OF_MONTH, PT.START_OF_MONTH]
CASES = [f'{t.name} {f.name}' for t in TIMES for f in MONTHS]
USES = ('rising accruals',)
accrual = DayCountCalculator.compute_accrual_length


class Terms:
    """the terms of a loan"""


def some_terms(h, case=None):
    t = Terms()
    time, freq = (case or h.case).split(' ')
    t.time, t.frequency = PaymentTime[time], PaymentFrequency[freq]
    t.principal, t.rate = h.real('principal', pos=True), h.real('rate', pos=True)
    t.origination = h.date('origination')
    t.months = h.int('term_months', 1, 600)
    t.convention = DayCountConvention.ACTUAL_OVER_360
    if not h.symbolic:
        t.convention = h.choice('convention', list(DayCountConvention))
        t.rate = 0.0005 + t.rate % 0.3
        t.months = 1 + t.months % 80
        t.principal = 10 + t.principal
    t.term = relativedelta(months=t.months)
    return t


def build(t):
    return Loan(principal=t.principal, interest_rate=t.rate, origination_date=t.origination, term_length=t.term,
                day_count_convention=t.convention, payment_frequency=t.frequency, payment_time=t.time)


def first_accrual(t):
    """where the first period starts"""
    if t.time == PT.END_OF_MONTH:
        return t.origination + relativedelta(day=31)
    return date(t.origination.year + t.origination.month // 12, t.origination.month % 12 + 1, 1)


def month_end(x):
    return (x + timedelta(days=1)).day == 1


def level(h):
    p = h.real('payment', nonneg=True)
    return p if h.symbolic else p % 60


@goal(cases=CASES, uses=USES, n=60)
def payment_dates(h):
    """ends of consecutive payment periods, up to the term"""
    t = some_terms(h)
    rows = build(t).generate_payment_schedule(level(h))
    start, step = first_accrual(t), relativedelta(months=MONTHS[t.frequency])
    if t.time == PT.END_OF_MONTH:
        step = relativedelta(months=MONTHS[t.frequency], day=31)
    n = len(rows)
    last = start + t.term
    if t.time == PT.END_OF_MONTH:
        last = last + relativedelta(day=31)
    if n == 0:
        h.check('none only if the first period is longer than the term', start + step > last)
    else:
        h.eq('first', rows[0].payment_date, start + step)
        h.forall('periods', n - 1, lambda i: h.eq('a period later', rows[i + 1].payment_date, rows[i].payment_date + step))
        h.forall('within the term', n, lambda i: h.check('not after the term', rows[i].payment_date <= last))
        h.check('up to the term', rows[n - 1].payment_date + step > last)

    def row(i):
        x = rows[i].payment_date
        h.check('day of the month', month_end(x))
    if t.time == PT.END_OF_MONTH:
        h.forall('days', n, row)
    if not h.symbolic:
        want, k = [], 1
        while start + relativedelta(months=k * MONTHS[t.frequency]) <= start + relativedelta(months=t.months):
            x = start + relativedelta(months=k * MONTHS[t.frequency])
            want.append(x + relativedelta(day=31) if t.time == PT.END_OF_MONTH else x)
            k += 1
        h.eq('the dates', [r.payment_date for r in rows], want)


def extras(h, kind):
    """the argument, and the extra payment of the i-th period"""
    if kind == 'none':
        return None, lambda i: 0
    if kind == 'same':
        x = h.real('extra', nonneg=True)
        return x, lambda i: x
    xs = [x for x in h.seq('extras', 'real')]
    n = len(xs)
    h.assume(all(x >= 0 for x in xs))
    return xs, lambda i: xs[i] if i < n else 0


def balances(rows, principal):
    out, left = [], principal
    for r in rows:
        out.append(left)
        left = left - r.principal_payment
    return out, left


@goal(cases=[c + ' ' + k for c in CASES for k in ('none', 'same', 'listed')], uses=USES, n=40)
def amortization(h):
    time, freq, kind = h.case.split(' ')
    t = some_terms(h, f'{time} {freq}')
    pay = level(h)
    given, extra = extras(h, kind)
    rows = build(t).generate_payment_schedule(pay, given)
    before, left = balances(rows, t.principal)
    h.check('never more than the principal', left >= -1e-9 * t.principal)

    def row(i):
        r = rows[i]
        start = first_accrual(t) if i == 0 else rows[i - 1].payment_date
        interest = before[i] * t.rate * accrual(start, r.payment_date, t.convention)
        due = pay - interest + extra(i)
        h.eq('interest', r.interest_payment, interest)
        if before[i] <= 0:
            h.eq('nothing after the last payment', (r.payment, r.principal_payment), (0, 0))
        elif before[i] <= due:
            h.eq('last payment', (r.payment, r.principal_payment), (before[i] + interest, before[i]))
        else:
            h.eq('regular payment', (r.payment, r.principal_payment), (pay, due))
    h.forall('rows', len(rows), row)


@goal(cases=[c + ' ' + k for c in CASES for k in ('same', 'listed')], uses=USES, n=40)
def as_many_payments(h):
    """with extra payments as without"""
    time, freq, kind = h.case.split(' ')
    t = some_terms(h, f'{time} {freq}')
    pay = level(h)
    given, extra = extras(h, kind)
    h.eq('payments', len(build(t).generate_payment_schedule(pay, given)), len(build(t).generate_payment_schedule(pay)))


@goal(cases=[None, 'ZERO_COUPON', 'FIXED_DATE'], n=10)
def other_schedules_rejected(h):
    t = some_terms(h, 'END_OF_MONTH MONTHLY')
    if h.case is None:
        t.time = None
    elif h.case == 'FIXED_DATE':
        t.time = PT.FIXED_DATE
    else:
        t.frequency = F.ZERO_COUPON
    loan = build(t)
    h.raises('schedule', ValueError, lambda: loan.generate_payment_schedule(1.0))


@goal(uses=USES, n=60)
def interest(h):
    """interest of a period: the given rate and balance, the loan's own by default"""
    t = some_terms(h, 'END_OF_MONTH MONTHLY')
    loan = build(t)
    a, b = h.date('start'), h.date('end')
    h.assume(a <= b)
    r, p = h.real('other_rate'), h.real('balance')
    x = accrual(a, b, t.convention)
    h.eq('given', loan._calculate_interest_payment(a, b, interest_rate=r, principal=p), x * r * p)
    h.eq('own', loan._calculate_interest_payment(a, b), x * t.rate * t.principal)


def rate_and_growth(h, t):
    """the rate of one payment period, and what 1 grows to over the term"""
    r, years = t.rate / t.frequency.value, accrual(t.origination, t.origination + t.term, t.convention)
    growth = (1 + r) ** (years * t.frequency.value)
    h.assume(growth != 1)
    return r, growth


@goal(cases=CASES, uses=USES, n=60)
def level_payment(h):
    t = some_terms(h)
    loan = build(t)
    r, growth = rate_and_growth(h, t)
    p = loan.calculate_fixed_payment_amount()
    h.eq('pays off the principal', p * (1 - 1 / growth) / r, t.principal)
    if not h.symbolic:
        h.eq('annuity', p * (1 - (1 + r) ** (-accrual(t.origination, t.origination + t.term, t.convention) * t.frequency.value)) / r, t.principal)
        if t.convention == DayCountConvention.THIRTY_OVER_THREESIXTY and t.origination.day == 1 and t.months % MONTHS[t.frequency] == 0:
            h.eq('sum of discounted payments', sum(p / (1 + r) ** k for k in range(1, t.months // MONTHS[t.frequency] + 1)), t.principal)


@goal(cases=CASES, uses=USES + ('loan schedules',), n=40)
def present_value(h):
    t = some_terms(h)
    loan = build(t)
    curve = some_discount(h)
    if not h.symbolic:
        curve.reference_date = t.origination + timedelta(days=h.int('after', -100, 1000))
    rate_and_growth(h, t)
    rows = loan.generate_payment_schedule(loan.calculate_fixed_payment_amount())
    total = 0
    for r in rows:
        if r.payment_date >= curve.reference_date:
            total = total + curve(r.payment_date) * r.payment
    h.eq('discounted payments', loan.present_value(curve), total)


def some_discount(h):
    from contracts.c16 import Discount
    return Discount(h.fn('discount', pos=True), h.date('reference'))
