"""C07: cashflow schedules, received payments, value and knot of bonds."""
from datetime import date, timedelta
from pyvc.harness import goal
from contracts.bonds import (some_terms, build, dated, coupon_dates_of, adjusted, expected_coupons, coupon_of, BOND_CASES, CLASSES,
                             COUPON_CASES, PER_YEAR, F)
from contracts.c06 import Curve, some_curve
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency, BusinessDayAdjustment
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.assets.base_cashflow import CashflowKeys, Cashflow
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import BondPayment
from fixedIncome.src.curves.base_curve import KnotValuePair

USES = ('business days', 'adding business days', 'date adjustments', 'settlement dates', 'stepped dates', 'accrued interest')


def coupons(bond):
    return bond[CashflowKeys.COUPON_PAYMENTS]


def principal(bond):
    return bond[CashflowKeys.SINGLE_PAYMENT]


@goal(cases=BOND_CASES, uses=USES, n=60)
def coupon_schedule(h):
    t = some_terms(h)
    bond = build(h, t)
    want = expected_coupons(t)
    flow = coupons(bond)
    h.eq('dated date', bond.dated_date, dated(t))
    h.eq('number of coupons', len(flow), len(want))

    def row(i):
        p = flow[i]
        h.eq('payment date', p.payment_date, want[i][0])
        h.eq('unadjusted date', p.unadjusted_payment_date, want[i][1])
        h.eq('coupon', p.payment, coupon_of(t))
    h.forall('coupons', len(want), row)
    h.eq('principal', [(p.payment_date, p.unadjusted_payment_date, p.payment) for p in principal(bond)],
         [(adjusted(t, t.maturity), t.maturity, t.principal)])
    if not h.symbolic and t.frequency != F.ZERO_COUPON:
        days = coupon_dates_of(t)
        h.eq('coupon dates', sorted(p.unadjusted_payment_date for p in flow), sorted(days))
        h.eq('paid when adjusted', sorted((p.payment_date, p.unadjusted_payment_date) for p in flow),
             sorted((adjusted(t, x), x) for x in days))


@goal(cases=list(CLASSES), n=5)
def monthly_coupons_rejected(h):
    t = some_terms(h, case=h.case + ' ZERO_COUPON')
    t.frequency = F.MONTHLY
    h.raises('unsupported frequency', ValueError, lambda: build(h, t))


def received_from(t, reference):
    """the date on or after which a payment must fall to go to a buyer on the reference date"""
    return Scheduler.add_business_days(reference, 1, t.calendar)


@goal(cases=BOND_CASES, uses=USES, n=60)
def received_payments(h):
    t = some_terms(h)
    bond = build(h, t)
    reference, unadjusted, paid = h.date('reference'), h.date('unadjusted'), h.date('paid')
    if not h.symbolic and h.bool('near'):
        unadjusted = received_from(t, reference) + timedelta(days=h.int('off', -1, 1))
    p = BondPayment(unadjusted_payment_date=unadjusted, payment_date=paid, payment=1.0)
    h.eq('on or after settlement', bond.is_payment_received(p, reference), unadjusted >= received_from(t, reference))
    own = Scheduler.calculate_settlement_date(t.purchase, t.settlement_convention, t.calendar)
    h.eq('own settlement', bond.is_payment_received(p), unadjusted >= own)


@goal(cases=BOND_CASES, uses=USES, n=60)
def present_value(h):
    t = some_terms(h)
    bond = build(h, t)
    curve = some_curve(h)
    if not h.symbolic:
        curve.reference_date = t.maturity - timedelta(days=h.int('before_maturity', -9, None) * 97 % 3000)
        if h.bool('next_to_a_coupon'):
            curve.reference_date = h.choice('which', coupon_dates_of(t) if t.frequency != F.ZERO_COUPON else [t.maturity]) + \
                timedelta(days=h.int('off', -5, 5))
    first = received_from(t, curve.reference_date)
    want = 0
    for paid, x in expected_coupons(t):
        if x >= first:
            want = want + curve(paid) * coupon_of(t)
    if t.maturity >= first:
        want = want + curve(adjusted(t, t.maturity)) * t.principal
    h.eq('discounted received payments', bond.present_value(curve), want)
    if not h.symbolic:
        # the same bond at another date, so that nothing is remembered between the two
        curve.reference_date = curve.reference_date + timedelta(days=200)
        first = received_from(t, curve.reference_date)
        days = coupon_dates_of(t) if t.frequency != F.ZERO_COUPON else []
        flows = [(x, coupon_of(t)) for x in days] + [(t.maturity, t.principal)]
        h.eq('later', bond.present_value(curve), sum(curve(adjusted(t, x)) * a for x, a in flows if x >= first))


@goal(cases=BOND_CASES, uses=USES, n=60)
def knot(h):
    t = some_terms(h)
    bond = build(h, t)
    k = bond.to_knot_value_pair()
    flow, last = coupons(bond), adjusted(t, t.maturity)
    n = len(flow)
    h.eq('clean price', k.value, t.price)
    h.check('not before the principal', k.knot >= last)
    h.forall('coupons', n, lambda i: h.check('not before a coupon', k.knot >= flow[i].payment_date))
    if n > 0:
        h.check('a payment date', (k.knot == last) | (k.knot == flow[n - 1].payment_date))
    else:
        h.eq('the principal date', k.knot, last)
    if not h.symbolic:
        h.check('a knot', isinstance(k, KnotValuePair))
        days = coupon_dates_of(t) if t.frequency != F.ZERO_COUPON else []
        h.eq('latest', k.knot, max(adjusted(t, x) for x in days + [t.maturity]))
