"""C21: the one-factor Vasicek model."""
import math
from dateutil.relativedelta import relativedelta
from datetime import timedelta
import numpy as np
from pyvc.harness import goal
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as D
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import (
    VasicekModel, CalibrationParamterType)
from contracts.c19 import span
from contracts.c20 import States
from contracts.duals import Dual, exp, derivative

accrual = DayCountCalculator.compute_accrual_length
USES = ('accruals',)
ACTUAL = [d for d in D if 'ACTUAL' in d.name]
CASES = [(d, p) for d in ACTUAL for p in ('default', 'positional', 'keyword')]


def number(x):
    """the model returns its rates as arrays of one element"""
    return x.flat[0] if isinstance(x, np.ndarray) else x


class Parameters:
    def __init__(self, mean, speed, vol):
        self.mean, self.speed, self.vol = mean, speed, vol

    def b(self, t):
        """coefficient of the short rate in the log price"""
        return -(1 - exp(-self.speed * t)) / self.speed

    def a(self, t):
        """intercept of the log price"""
        b = self.b(t)
        return -(self.mean - self.vol ** 2 / (2 * self.speed ** 2)) * (b + t) - self.vol ** 2 / (4 * self.speed) * b ** 2

    def expected(self, t, r):
        return exp(-self.speed * t) * r + (1 - exp(-self.speed * t)) * self.mean

    def variance(self, t):
        return self.vol ** 2 * (1 - exp(-2 * self.speed * t)) / (2 * self.speed)


def some_parameters(h, name=''):
    speed = h.real(name + 'speed', 0.01, 5)
    h.assume(speed > 0)
    vol = h.real(name + 'vol', 0, 0.5)
    h.assume(vol >= 0)
    return Parameters(h.real(name + 'mean', -0.1, 0.2), speed, vol)


def some_model(h, dcc, path=True):
    """a model on an arbitrary path of short rates"""
    start, end = span(h)
    p = some_parameters(h)
    bm = BrownianMotion(start, end, day_count_convention=dcc)
    model = VasicekModel(p.mean, p.speed, p.vol, bm, relativedelta(months=1))
    rates = h.fn('rate', ('datetime',))
    model.state_variables_diffusion_process = States(h, bm, relativedelta(months=1), [[rates]])
    if path:
        model.generate_path(0.0)
    return model, p, rates


def some_dates(h, model, how, name='maturity', later=True, before=True):
    """a purchase date, a maturity, and how to pass the purchase date"""
    lo, hi = model.start_date_time, model.end_date_time
    if h.symbolic:
        purchase, maturity = h.datetime('purchase'), h.datetime(name)
        h.assume(lo <= purchase)
        h.assume(purchase <= hi)
    else:
        purchase = lo + (hi - lo) * (h.int('purchase', 0, 100) / 100)
        maturity = lo + (hi - lo) * (h.int(name, 0, 300) / 100)
    if how == 'default':
        purchase = lo
    if later:
        h.assume(purchase < maturity)
    else:
        h.assume(purchase <= maturity)
    if before and h.bool('used before'):
        used(h, model, purchase, maturity)
    return purchase, maturity


def used(h, model, purchase, maturity):
    """a price and a yield were asked of the model, maybe for one of the two dates"""
    lo, hi = model.start_date_time, model.end_date_time
    if h.symbolic:
        other_purchase, other_maturity = h.datetime('other_purchase'), h.datetime('other_maturity')
        h.assume(lo <= other_purchase)
        h.assume(other_purchase <= hi)
    else:
        other_purchase = purchase if h.bool('same purchase') else lo + (hi - lo) * (h.int('other_purchase', 0, 100) / 100)
        other_maturity = maturity if h.bool('same maturity') else lo + (hi - lo) * (h.int('other_maturity', 0, 300) / 100)
    h.assume(other_purchase < other_maturity)
    h.assume(accrual(other_purchase, other_maturity, model.day_count_convention) > 0)
    model.zero_coupon_bond_price(other_maturity, other_purchase)
    if isinstance(model, VasicekModel):
        model.zero_coupon_yield(other_maturity, other_purchase)
    else:
        model.zero_coupon_bond_yield(other_maturity, other_purchase)


def at(f, how, maturity, purchase):
    if how == 'default':
        return f(maturity)
    if how == 'positional':
        return f(maturity, purchase)
    return f(purchase_date=purchase, maturity_date=maturity)


@goal(cases=CASES, n=50, uses=USES)
def price(h):
    dcc, how = h.case
    model, p, rates = some_model(h, dcc)
    purchase, maturity = some_dates(h, model, how, later=False)
    t = accrual(purchase, maturity, dcc)
    value = at(model.zero_coupon_bond_price, how, maturity, purchase)
    h.close('price', number(value), math.exp(p.a(t) + p.b(t) * rates(purchase)))
    coefficients = model.price_state_variable_coeffs
    h.close('coefficient', number(coefficients['coefficient']), p.b(t))
    h.close('intercept', number(coefficients['intercept']), p.a(t))


@goal(cases=CASES, n=50, uses=USES)
def price_at_maturity(h):
    dcc, how = h.case
    model, p, rates = some_model(h, dcc)
    purchase, _ = some_dates(h, model, how)
    h.close('one', number(at(model.zero_coupon_bond_price, how, purchase, purchase)), 1)


@goal(cases=CASES, n=50, uses=USES)
def yields(h):
    """yield = -log(price)/T"""
    dcc, how = h.case
    model, p, rates = some_model(h, dcc)
    purchase, maturity = some_dates(h, model, how)
    t = accrual(purchase, maturity, dcc)
    h.assume(t > 0)
    y = number(at(model.zero_coupon_yield, how, maturity, purchase))
    h.close('yield times time is minus the log of the price', y * t, -(p.a(t) + p.b(t) * rates(purchase)))
    h.close('price', math.exp(-y * t), number(at(model.zero_coupon_bond_price, how, maturity, purchase)))


@goal(cases=CASES, n=50, uses=USES)
def forwards(h):
    """the forward rate is minus the derivative of the log price, the coefficients and rate being those of the price"""
    dcc, how = h.case
    model, p, rates = some_model(h, dcc)
    purchase, maturity = some_dates(h, model, how, later=False)
    t = accrual(purchase, maturity, dcc)
    r = rates(purchase)
    forward = number(at(model.instantaneous_forward_rate, how, maturity, purchase))
    h.close('minus the derivative of the log price', forward, -derivative(lambda s: p.a(s) + p.b(s) * r, t))
    vol = at(model.instantaneous_forward_rate_volatility, how, maturity, purchase)
    h.close('volatility', number(vol), p.vol * math.exp(-p.speed * t))
    h.close('volatility is the diffusion times the sensitivity to the short rate', number(vol),
            -p.vol * derivative(p.b, t))


@goal(cases=CASES, n=50, uses=USES)
def moments(h):
    dcc, how = h.case
    model, p, rates = some_model(h, dcc)
    purchase, maturity = some_dates(h, model, how, later=False)
    t = accrual(purchase, maturity, dcc)
    r = rates(purchase)
    h.close('expected rate', number(at(model.expected_short_rate, how, maturity, purchase)), p.expected(t, r))
    h.close('variance', number(at(model.short_rate_variance, how, maturity, purchase)), p.variance(t))


@goal(cases=CASES, n=50, uses=USES)
def average(h):
    """the average of the expected rate: times T, its derivative is the expected rate and it starts at zero"""
    dcc, how = h.case
    model, p, rates = some_model(h, dcc)
    purchase, maturity = some_dates(h, model, how)
    t = accrual(purchase, maturity, dcc)
    h.assume(t > 0)
    r = rates(purchase)
    value = number(at(model.average_expected_short_rate, how, maturity, purchase))
    h.close('average', value * t, integral(p, t, r))


def integral(p, t, r):
    return p.mean * t - (r - p.mean) * p.b(t)


@goal(cases=CASES, n=40, uses=USES)
def yield_moments(h):
    """a yield's volatility is its sensitivity to the short rate times the diffusion; its convexity is what it exceeds the average by"""
    dcc, how = h.case
    model, p, rates = some_model(h, dcc)
    purchase, maturity = some_dates(h, model, how)
    t = accrual(purchase, maturity, dcc)
    h.assume(t > 0)
    h.close('volatility', number(at(model.yield_volatility, how, maturity, purchase)) * t, -p.b(t) * p.vol)
    if how == 'default':
        h.close('convexity', number(model.yield_convexity(maturity)) * t,
                -(p.a(t) + p.b(t) * rates(purchase)) - integral(p, t, rates(purchase)))


@goal(cases=['default', 'positional'], n=40, uses=USES)
def price_convexities(h):
    """minus half the price times the variance of yield times accrual"""
    dcc = D.ACTUAL_OVER_365
    model, p, rates = some_model(h, dcc)
    purchase, first = some_dates(h, model, h.case)
    second = h.datetime('second') if h.symbolic else purchase + timedelta(days=h.int('second', 1, 9000))
    h.assume(purchase < second)
    dates = [first, second]
    for m in dates:
        h.assume(accrual(purchase, m, dcc) > 0)
    values = model.price_convexities(iter(dates)) if h.case == 'default' else model.price_convexities(dates, purchase)
    for m, value in zip(dates, values):
        t = accrual(purchase, m, dcc)
        h.close('convexity', number(value), -math.exp(p.a(t) + p.b(t) * rates(purchase)) * (p.b(t) * p.vol) ** 2 / 2)
    h.raises('not after the purchase', ValueError, lambda: model.price_convexities([first, purchase], purchase))


@goal(n=100)
def identities(h):
    """of the closed forms: they are the moments of the model's dynamics and the discounted price"""
    p = some_parameters(h)
    t, r = h.real('t', 0, 40), h.real('r', -0.1, 0.3)
    h.assume(t >= 0)
    h.close('average is of the expected rate', derivative(lambda s: integral(p, s, r), t), p.expected(t, r))
    h.close('average starts at zero', integral(p, 0, r), 0)
    h.close('expected rate follows the drift', derivative(lambda s: p.expected(s, r), t), p.speed * (p.mean - p.expected(t, r)))
    h.close('expected rate starts at the rate', p.expected(0, r), r)
    h.close('variance follows', derivative(p.variance, t), p.vol ** 2 - 2 * p.speed * p.variance(t))
    h.close('variance starts at zero', p.variance(0), 0)
    # the log price a + b r solves the pricing equation of dr = speed (mean - r) dt + vol dW: A' = speed mean B + vol^2 B^2 / 2, B' = -1 - speed B
    h.close('coefficient', derivative(p.b, t), -1 - p.speed * p.b(t))
    h.close('intercept', derivative(p.a, t), p.speed * p.mean * p.b(t) + p.vol ** 2 * p.b(t) ** 2 / 2)
    h.close('coefficient starts at zero', p.b(0), 0)
    h.close('intercept starts at zero', p.a(0), 0)


@goal(n=30, uses=USES)
def dynamics(h):
    """the simulated process has drift speed * (mean - r) and diffusion vol"""
    start, end = span(h)
    p = some_parameters(h)
    model = VasicekModel(p.mean, p.speed, p.vol, BrownianMotion(start, end), relativedelta(months=1)) if h.bool('positional') else \
        VasicekModel(reversion_level=p.mean, reversion_speed=p.speed, volatility=p.vol, brownian_motion=BrownianMotion(start, end),
                     dt=relativedelta(months=1))
    follows(h, model, p)


def follows(h, model, p):
    r, t = h.real('r', -0.1, 0.3), h.real('t', 0, 40)
    process = model.state_variables_diffusion_process
    h.eq('one state', len(process.drift_diffusion_collection), 1)
    for pair in process.drift_diffusion_collection.values():
        h.close('drift of a number', number(pair.drift(t, r)), p.speed * (p.mean - r))
        h.close('drift', number(pair.drift(t, np.array([r]))), p.speed * (p.mean - r))
        h.close('diffusion', number(pair.diffusion(t, np.array([r]))), p.vol)


@goal(n=30, uses=USES)
def no_path(h):
    model, p, rates = some_model(h, D.ACTUAL_OVER_365, path=False)
    purchase, maturity = some_dates(h, model, 'positional', before=False)
    h.raises('forward', ValueError, lambda: model.instantaneous_forward_rate(maturity, purchase))
    h.raises('price', ValueError, lambda: model.zero_coupon_bond_price(maturity, purchase))
    h.raises('expected rate', ValueError, lambda: model.expected_short_rate(maturity, purchase))


@goal(cases=['volatility', 'shape', 'both'], n=50, uses=USES)
def changed_parameters(h):
    """parameters set from the calibration dictionary take effect together"""
    which = h.case
    model, p, rates = some_model(h, D.ACTUAL_OVER_365)
    q = some_parameters(h, 'new_')
    follows_states = model.state_variables_diffusion_process
    purchase, maturity = some_dates(h, model, 'positional')
    if which in ('volatility', 'both'):
        model.parameter_calibration_dict[CalibrationParamterType.VOLATILITY] = [q.vol, q.speed]
        model.set_volatiltiy_parameters_from_dict()
    if which in ('shape', 'both'):
        model.parameter_calibration_dict[CalibrationParamterType.SHAPE] = [q.mean]
        model.set_shape_parameters_from_dict()
    new = Parameters(q.mean if which in ('shape', 'both') else p.mean, q.speed if which in ('volatility', 'both') else p.speed,
                     q.vol if which in ('volatility', 'both') else p.vol)
    h.close('mean', model.long_term_mean, new.mean)
    h.close('speed', model.reversion_speed, new.speed)
    h.close('volatility', model.volatility, new.vol)
    t, r = accrual(purchase, maturity, D.ACTUAL_OVER_365), rates(purchase)
    h.assume(t > 0)
    h.close('price', number(model.zero_coupon_bond_price(maturity, purchase)), math.exp(new.a(t) + new.b(t) * r))
    h.close('yield', number(model.zero_coupon_yield(maturity, purchase)) * t, -(new.a(t) + new.b(t) * r))
    h.close('forward', number(model.instantaneous_forward_rate(maturity, purchase)), -derivative(lambda s: new.a(s) + new.b(s) * r, t))
    h.close('expected rate', number(model.expected_short_rate(maturity, purchase)), new.expected(t, r))
    h.close('variance', number(model.short_rate_variance(maturity, purchase)), new.variance(t))
    for pair in model.drift_diffusion_collection.values():
        h.close('drift', number(pair.drift(0.0, np.array([r]))), new.speed * (new.mean - r))
        h.close('diffusion', number(pair.diffusion(0.0, np.array([r]))), new.vol)


@goal(n=40, symbolic=False)
def on_its_own_path(h):
    """from the start of a simulated path, whose first rate is the one given"""
    start, end = span(h)
    p = some_parameters(h)
    bm = BrownianMotion(start, end)
    model = VasicekModel(p.mean, p.speed, p.vol, bm, relativedelta(months=h.int('step', 1, 100)))
    r = h.real('r', -0.1, 0.3)
    model.generate_path(np.array([r]) if h.bool('array') else r, seed=h.int('seed', 0, 2 ** 32 - 1))
    maturity = start + (end - start) * (h.int('maturity', 1, 300) / 100)
    h.assume(start < maturity)
    t = accrual(start, maturity, bm.day_count_convention)
    h.assume(t > 0)
    h.close('first rate', model.path[0], r)
    h.close('price', number(model.zero_coupon_bond_price(maturity)), math.exp(p.a(t) + p.b(t) * r))
    h.close('yield', number(model.zero_coupon_yield(maturity)) * t, -(p.a(t) + p.b(t) * r))
    h.close('expected rate', number(model.expected_short_rate(maturity)), p.expected(t, r))


@goal(symbolic=False, n=40)
def small_differences(h):
    """forwards against differences of log prices, and everything on a simulated path"""
    start, end = span(h)
    p = some_parameters(h)
    bm = BrownianMotion(start, end, day_count_convention=D.ACTUAL_OVER_365)
    model = VasicekModel(p.mean, p.speed, p.vol, bm, timedelta(days=h.int('step', 1, 300), hours=5))
    model.generate_path(np.array([h.real('r', -0.1, 0.3)]), seed=h.int('seed', 0, 10 ** 6))
    purchase = start + (end - start) * (h.int('purchase', 0, 100) / 100)
    maturity = purchase + timedelta(days=h.int('days', 1, 9000))
    r = number(model(purchase))
    step = timedelta(hours=1)
    t = accrual(purchase, maturity, D.ACTUAL_OVER_365)
    h.close('price', model.zero_coupon_bond_price(maturity, purchase), math.exp(p.a(t) + p.b(t) * r))
    before, after = model.zero_coupon_bond_price(maturity - step, purchase), model.zero_coupon_bond_price(maturity + step, purchase)
    width = accrual(maturity - step, maturity + step, D.ACTUAL_OVER_365)
    h.assume(width > 0)
    difference = -(math.log(after) - math.log(before)) / width
    h.check('forward', abs(difference - number(model.instantaneous_forward_rate(maturity, purchase))) < 1e-5)
