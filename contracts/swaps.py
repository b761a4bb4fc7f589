"""swaps shared by the goals of C15 and C16"""
from datetime import timedelta
from dateutil.relativedelta import relativedelta
from contracts.calendars import some_calendar
from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import (TermInterestRateSwap, OvernightIndexSwap,
                                                                          InterestRateSwapDirection)
from fixedIncome.src.curves.curve_enumerations import CurveIndex
from fixedIncome.src.scheduling_tools.schedule_enumerations import (PaymentFrequency, BusinessDayAdjustment, DayCountConvention,
                                                                    SettlementConvention)
from fixedIncome.src.scheduling_tools.scheduler import Scheduler

CLASSES = {'term': TermInterestRateSwap, 'overnight': OvernightIndexSwap}
F = PaymentFrequency
SC = SettlementConvention
D = InterestRateSwapDirection
MONTHS = {F.ANNUAL: 12, F.SEMI_ANNUAL: 6, F.QUARTERLY: 3}
BUSINESS = [c for c in SC if c.name.endswith('_BUSINESS')]
DCC = DayCountConvention


class Terms:
    """the terms a swap is built from"""


def some_terms(h, cls, fixed=None, floating=None, direction=None):
    t = Terms()
    t.cls = CLASSES[cls]
    t.fixed, t.floating = fixed, floating
    t.direction = direction or D.PAYER_FIXED
    t.rate, t.notional = h.real('fixed_rate'), h.real('notional', pos=True)
    t.purchase = h.date('purchase')
    t.calendar = some_calendar(h)
    t.tenor = h.tenor('tenor', 'YM')
    t.adjustment = h.choice('adjustment', list(BusinessDayAdjustment))
    t.fixed_days, t.floating_days = DCC.THIRTY_OVER_THREESIXTY, DCC.ACTUAL_OVER_365
    t.settlement, t.fixing, t.delay = SC.T_PLUS_ONE_BUSINESS, SC.T_MINUS_TWO_BUSINESS, SC.T_PLUS_TWO_BUSINESS
    if not h.symbolic:
        t.fixed, t.floating = (x or h.choice(k, list(MONTHS)) for k, x in (('fixed frequency', fixed), ('floating frequency', floating)))
        t.direction = direction or h.choice('direction', list(D))
        t.fixed_days, t.floating_days = h.choice('fixed days', list(DCC)), h.choice('floating days', list(DCC))
        t.settlement, t.fixing, t.delay = (h.choice(k, BUSINESS) for k in ('settlement', 'fixing', 'delay'))
        t.tenor = f'{int(t.tenor[:-1]) % (40 if t.tenor[-1] == "M" else 12) + 1}{t.tenor[-1]}'
        t.rate, t.notional = t.rate / 100, 100 + t.notional
        t.index = h.choice('index', list(CurveIndex))
    else:
        t.fixed, t.floating, t.index = fixed or F.SEMI_ANNUAL, floating or F.QUARTERLY, CurveIndex.SOFR
    return t


def build(t):
    return t.cls(float_index=t.index, direction=t.direction, fixed_rate=t.rate, notional=t.notional, purchase_date=t.purchase,
                 settlement_convention=t.settlement, tenor=t.tenor, floating_leg_payment_frequency=t.floating,
                 fixed_leg_payment_frequency=t.fixed, floating_leg_day_count_convention=t.floating_days,
                 fixed_leg_day_count_convention=t.fixed_days, holiday_calendar=t.calendar,
                 fixing_date_for_accrual_period=t.fixing, payment_delay=t.delay, business_day_adjustment=t.adjustment)


def starts(t):
    return Scheduler.calculate_settlement_date(t.purchase, t.settlement, t.calendar)


def ends(t):
    n = int(t.tenor[:-1])
    return starts(t) + (relativedelta(years=n) if t.tenor[-1] == 'Y' else relativedelta(months=n))


def adjusted(t, x):
    if t.adjustment == BusinessDayAdjustment.FOLLOWING:
        return Scheduler.following_date_adjustment(x, t.calendar)
    return Scheduler.modified_following_date_adjustment(x, t.calendar)


def boundaries(t, leg):
    """the unadjusted period boundaries, latest first"""
    months = MONTHS[t.fixed if leg == 'fixed' else t.floating]
    return Scheduler.generate_dates_by_increments(ends(t), starts(t), relativedelta(months=-months))


def stepped_back(t, leg):
    """the same, computed here (concrete values)"""
    months = MONTHS[t.fixed if leg == 'fixed' else t.floating]
    out, x = [], ends(t)
    while x >= starts(t):
        out.append(x)
        x = x - relativedelta(months=months)
    return out


def paid(t, x):
    return Scheduler.calculate_settlement_date(x, t.delay, t.calendar)
