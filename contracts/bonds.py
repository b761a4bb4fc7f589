"""bonds shared by the goals of C07, C08 and C09"""
from datetime import date, timedelta
from dateutil.relativedelta import relativedelta
from contracts.calendars import some_calendar
from fixedIncome.src.scheduling_tools.schedule_enumerations import (PaymentFrequency, BusinessDayAdjustment, DayCountConvention,
                                                                    SettlementConvention)
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.assets.base_cashflow import CashflowKeys
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond, BondPayment
from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond

CLASSES = {'treasury': UsTreasuryBond, 'corporate': FixedRateBond}
F = PaymentFrequency
PER_YEAR = {F.ZERO_COUPON: 0, F.ANNUAL: 1, F.SEMI_ANNUAL: 2, F.QUARTERLY: 4}
COUPON = (F.ANNUAL, F.SEMI_ANNUAL, F.QUARTERLY)
BOND_CASES = [c + ' ' + f.name for c in CLASSES for f in PER_YEAR]
COUPON_CASES = [c + ' ' + f.name for c in CLASSES for f in COUPON]


class Terms:
    """the terms a bond is built from"""


def some_terms(h, conventions=None, case=None, units='YM'):
    cls, freq = (case or h.case).split(' ')
    t = Terms()
    t.cls, t.frequency = CLASSES[cls], PaymentFrequency[freq]
    t.price = h.real('price', pos=True)
    t.rate = h.real('coupon_rate', nonneg=True)
    t.principal = h.real('principal', pos=True)
    t.calendar = some_calendar(h)
    t.adjustment = h.choice('adjustment', list(BusinessDayAdjustment))
    t.convention = h.choice('day_count', list(conventions or DayCountConvention))
    t.settlement_convention = SettlementConvention.T_PLUS_ONE_BUSINESS
    t.maturity = h.date('maturity')
    t.tenor = h.tenor('tenor', units if h.symbolic else 'YM')
    t.purchase = h.date('purchase')
    if not h.symbolic:
        t.settlement_convention = h.choice('settlement', [c for c in SettlementConvention if c.name.endswith('_BUSINESS')])
        n = int(t.tenor[:-1]) % (40 if t.tenor[-1] == 'M' else 12) + 1
        t.tenor = f'{n}{t.tenor[-1]}'
        t.price, t.rate, t.principal = 60 + t.price % 80, t.rate % 9, 100.0 + t.principal
        start = dated(t)
        life = (t.maturity - start).days
        t.purchase = start + timedelta(days=h.int('purchase_after', 0, None) * 37 % max(life - 8, 1))
        if h.bool('purchase_near_a_coupon') and t.frequency in COUPON:
            x = h.choice('coupon', coupon_dates_of(t))
            t.purchase = max(start, min(x + timedelta(days=h.int('near', -4, 4)), t.maturity - timedelta(days=8)))
    return t


def build(h, t):
    if not h.symbolic:
        s = Scheduler.calculate_settlement_date(t.purchase, t.settlement_convention, t.calendar)
        h.assume(dated(t) <= s <= t.maturity)
    return t.cls(price=t.price, coupon_rate=t.rate, principal=t.principal, tenor=t.tenor, purchase_date=t.purchase,
                 maturity_date=t.maturity, settlement_convention=t.settlement_convention, payment_frequency=t.frequency,
                 day_count_convention=t.convention, business_day_adjustment=t.adjustment, holiday_calendar=t.calendar)


def dated(t):
    n = int(t.tenor[:-1])
    return t.maturity - relativedelta(months=12 * n if t.tenor[-1] == 'Y' else n)


def coupon_dates_of(t):
    """maturity, and backwards one coupon period at a time while strictly after the dated date"""
    out, x, first = [], t.maturity, dated(t)
    while x > first:
        out.append(x)
        x = x - relativedelta(months=12 // PER_YEAR[t.frequency])
    return out


def adjusted(t, x):
    if t.adjustment == BusinessDayAdjustment.FOLLOWING:
        return Scheduler.following_date_adjustment(x, t.calendar)
    return Scheduler.modified_following_date_adjustment(x, t.calendar)


def expected_coupons(t):
    """(payment date, unadjusted date) in payment order"""
    if t.frequency == F.ZERO_COUPON:
        return []
    days = Scheduler.generate_dates_by_increments(t.maturity, dated(t) + timedelta(days=1),
                                                  relativedelta(months=-12 // PER_YEAR[t.frequency]))
    return sorted([(adjusted(t, x), x) for x in days], key=lambda r: r[0])


def coupon_of(t):
    return 0 if t.frequency == F.ZERO_COUPON else t.principal * t.rate / (100 * PER_YEAR[t.frequency])
