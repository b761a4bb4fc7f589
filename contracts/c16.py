"""C16: values and par rates of interest-rate swaps."""
from datetime import date, timedelta
from pyvc.harness import goal
from contracts.swaps import some_terms, build, ends, paid, CLASSES, MONTHS, F, D
from fixedIncome.src.assets.base_cashflow import Cashflow, CashflowKeys, Payment
from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import InterestRateSwapDirection
from fixedIncome.src.curves.base_curve import DiscountCurve, KnotValuePair
from fixedIncome.src.scheduling_tools.scheduler import Scheduler

USES = ('business days', 'date adjustments of less than a fortnight', 'settlement dates', 'stepped dates', 'rising accruals',
        'annualised rates')
ABSTRACT = USES + ('swap schedules', 'floating legs')
K = CashflowKeys


class Discount(DiscountCurve):
    """any discount function with a reference date"""
    def __init__(self, f, reference_date):
        self.f = f
        self.reference_date = reference_date

    def __call__(self, x, adjustment=None):
        return self.f(x)


def some_discount(h):
    return Discount(h.fn('discount', pos=True), h.date('reference'))


def worth(curve, flow):
    """the payments on or after the reference date, discounted"""
    total = 0
    for p in flow:
        if p.payment_date >= curve.reference_date:
            total = total + curve(p.payment_date) * p.payment
    return total


def leg(h, name):
    return Cashflow([Payment(d, a) for d, a in h.seq(name, ('date', 'real'), sorted_weak=True)])


CASES = [f'{c} {d.name}' for c in CLASSES for d in D]


def swap_of(h):
    cls, direction = h.case.split(' ')
    t = some_terms(h, cls, direction=D[direction])
    return t, build(t)


@goal(cases=CASES, uses=USES, n=60)
def value(h):
    """with any legs"""
    t, swap = swap_of(h)
    curve = some_discount(h)
    fixed, floating = leg(h, 'fixed leg'), leg(h, 'floating leg')
    swap[K.FIXED_LEG] = fixed
    swap[K.FLOATING_LEG] = floating
    receiver = worth(curve, fixed) - worth(curve, floating)
    h.eq('value', swap.present_value(curve), receiver if t.direction == D.RECEIVER_FIXED else -receiver)
    h.eq('again', swap.present_value(curve), receiver if t.direction == D.RECEIVER_FIXED else -receiver)
    h.check('legs untouched', swap.fixed_leg is fixed and swap.floating_leg is floating)


@goal(cases=[c + s for c in CASES for s in (' neither', ' fixed', ' floating')], uses=USES, n=5)
def error_before_both_legs(h):
    cls, direction, have = h.case.split(' ')
    swap = build(some_terms(h, cls, direction=D[direction]))
    curve = some_discount(h)
    if have != 'neither':
        swap[K.FIXED_LEG if have == 'fixed' else K.FLOATING_LEG] = leg(h, 'leg')
    h.raises('no value', ValueError, lambda: swap.present_value(curve))


@goal(cases=CASES, uses=USES, n=30)
def calibration_point(h):
    t, swap = swap_of(h)
    k = swap.to_knot_value_pair()
    h.eq('accrual end', k.knot, ends(t))
    h.eq('fixed rate', k.value, t.rate)
    if not h.symbolic:
        h.check('a knot', isinstance(k, KnotValuePair))


@goal(cases=[f'{c} {f}' for c in CLASSES for f in ('ANNUAL', 'QUARTERLY')], uses=ABSTRACT, n=30)
def par_rate(h):
    """the rate by the discounted notional accruals is the floating leg's value"""
    cls, f = h.case.split(' ')
    t = some_terms(h, cls, fixed=F[f])
    swap = build(t)
    curve, rate = some_discount(h), h.fn('rate')
    keep = h.bool('keep')
    floating = swap.generate_floating_leg_cashflow(rate, set_cashflow=False)
    annuity = 0
    rows = swap.generate_fixed_leg_accrual_schedule()
    for r in rows:
        annuity = annuity + curve(paid(t, r.end_accrual)) * r.accrual_factor * t.notional
    h.assume(annuity != 0)
    par = swap.implied_rate(curve, rate, set_cashflow=keep)
    h.eq('par rate', par * annuity, worth(curve, floating))
    if keep:
        h.eq('floating leg', len(swap.floating_leg), len(floating))
        h.check('fixed leg untouched', swap.fixed_leg is None)
    else:
        h.check('legs untouched', swap.fixed_leg is None and swap.floating_leg is None)


@goal(cases=CASES, uses=ABSTRACT, n=30)
def zero_at_the_par_rate(h):
    """no payment before the reference date: a swap at its par rate is worth nothing"""
    t, swap = swap_of(h)
    curve, rate = some_discount(h), h.fn('rate')
    if not h.symbolic:
        curve.reference_date = t.purchase - timedelta(days=h.int('before', 0, 400))
    rows = swap.generate_fixed_leg_accrual_schedule()
    h.assume(all(paid(t, r.end_accrual) >= curve.reference_date for r in rows))
    annuity = 0
    for r in rows:
        annuity = annuity + curve(paid(t, r.end_accrual)) * r.accrual_factor * t.notional
    h.assume(annuity != 0)
    t.rate = swap.implied_rate(curve, rate)
    par = build(t)
    fixed = par.generate_fixed_leg_cashflow()
    par.generate_floating_leg_cashflow(rate)
    h.close('fixed leg', worth(curve, fixed), t.rate * annuity, tol=1e-6)
    h.close('worth nothing', par.present_value(curve), 0, tol=1e-6)


@goal(cases=CASES, uses=ABSTRACT, n=30)
def par_rate_of_a_swap_with_legs(h):
    """computing the par rate leaves the stored legs unless asked to replace the floating one"""
    t, swap = swap_of(h)
    curve, rate = some_discount(h), h.fn('rate')
    rows = h.seq('fixed leg', ('date', 'real'), sorted_weak=True)
    fixed, floating = Cashflow([Payment(d, a) for d, a in rows]), leg(h, 'floating leg')
    swap[K.FIXED_LEG] = fixed
    swap[K.FLOATING_LEG] = floating
    annuity = 0
    for r in swap.generate_fixed_leg_accrual_schedule():
        annuity = annuity + curve(paid(t, r.end_accrual)) * r.accrual_factor * t.notional
    h.assume(annuity != 0)
    new = swap.generate_floating_leg_cashflow(rate, set_cashflow=False)
    keep = h.bool('keep')
    par = swap.implied_rate(curve, rate, set_cashflow=True) if keep else swap.implied_rate(curve, rate)
    h.eq('par rate', par * annuity, worth(curve, new))
    h.check('fixed leg untouched', swap.fixed_leg is fixed)
    h.eq('as many fixed payments', len(fixed), len(rows))
    h.forall('fixed payments', len(rows), lambda i: h.eq('payment', (fixed[i].payment_date, fixed[i].payment), rows[i]))
    if keep:
        h.eq('floating leg', len(swap.floating_leg), len(new))
        h.forall('floating payments', len(new), lambda i: h.eq('payment', swap.floating_leg[i].payment, new[i].payment))
    else:
        h.check('floating leg untouched', swap.floating_leg is floating)
