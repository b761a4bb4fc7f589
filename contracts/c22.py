"""C22: the multi-factor Vasicek models."""
import math
from dateutil.relativedelta import relativedelta
from datetime import timedelta
import numpy as np
from pyvc.harness import goal
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as D
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import (
    CalibrationParamterType as Kind, MultivariateVasicekModel)
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import (
    DoublyMeanRevertingVasicek)
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.trebly_mean_reverting_vasicek import (
    TreblyMeanRevertingVasicek)
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.stochastic_market_price_of_risk import (
    StochasticMarketPriceOfRisk)
from contracts.c19 import span
from contracts.c20 import States
from contracts.c21 import ACTUAL, CASES, at, number, some_dates
from contracts.duals import exp, derivative

accrual = DayCountCalculator.compute_accrual_length
USES = ('accruals',)


def times(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def turned(a):
    return [[a[j][i] for j in range(len(a))] for i in range(len(a[0]))]


def on(a, x):
    return [dot(row, x) for row in a]


def dot(x, y):
    return sum(x[i] * y[i] for i in range(len(x)))


class Parameters:
    """dX = K (theta - X) dt + S dW, rate = mu + g.X, in the coordinates in which K = V diag(lam) W is diagonal"""

    def __init__(self, v, w, lam, mu, g, theta, s):
        self.v, self.w, self.lam, self.mu, self.g, self.theta, self.s = v, w, lam, mu, g, theta, s
        self.n = len(lam)
        self.k = times(v, times([[lam[i] if i == j else 0 for j in range(self.n)] for i in range(self.n)], w))
        self.c = times(s, turned(s))
        self.eta, self.gamma = on(w, theta), on(turned(v), g)
        self.h = times(w, times(self.c, turned(w)))

    def decay(self, t):
        """exp(-K t)"""
        e = [exp(-l * t) for l in self.lam]
        return times(self.v, [[e[i] * self.w[i][j] for j in range(self.n)] for i in range(self.n)])

    def mean(self, t, x):
        d = self.decay(t)
        return [dot(d[i], x) + self.theta[i] - dot(d[i], self.theta) for i in range(self.n)]

    def covariance(self, t):
        lam = self.lam
        m = [[self.h[i][j] * (1 - exp(-(lam[i] + lam[j]) * t)) / (lam[i] + lam[j]) for j in range(self.n)] for i in range(self.n)]
        return times(self.v, times(m, turned(self.v)))

    def beta(self, t):
        return [-self.gamma[i] * (1 - exp(-self.lam[i] * t)) / self.lam[i] for i in range(self.n)]

    def b(self, t):
        return on(turned(self.w), self.beta(t))

    def a(self, t):
        lam, gamma, eta = self.lam, self.gamma, self.eta
        one = [(1 - exp(-l * t)) / l for l in lam]
        r = -self.mu * t
        for i in range(self.n):
            r = r - gamma[i] * (t - one[i]) * eta[i]
            for j in range(self.n):
                both = t - one[i] - one[j] + (1 - exp(-(lam[i] + lam[j]) * t)) / (lam[i] + lam[j])
                r = r + self.h[i][j] * gamma[i] * gamma[j] / (lam[i] * lam[j]) * both / 2
        return r

    def average(self, t, x):
        """times t"""
        xi, eta = on(self.w, x), self.eta
        r = self.mu * t
        for i in range(self.n):
            r = r + self.gamma[i] * (eta[i] * t + (xi[i] - eta[i]) * (1 - exp(-self.lam[i] * t)) / self.lam[i])
        return r


def some_parameters(h, shape='lower'):
    """an arbitrary invertible matrix of eigenvectors is a row order times unit upper times unit lower triangular times scales"""
    b, c = h.real('b', -2, 2), h.real('c', -2, 2)
    s1, s2 = h.real('s1', 0.5, 2), h.real('s2', 0.5, 2)
    lam = [h.real('lam' + str(i), 0.05, 3) for i in range(2)]
    for x in (s1, s2, lam[0], lam[1], lam[0] + lam[1]):
        h.assume(x != 0)
    v = [[(1 + b * c) * s1, b * s2], [c * s1, s2]]
    w = [[1 / s1, -b / s1], [-c / s2, (1 + b * c) / s2]]
    if shape == 'swapped':
        v, w = [v[1], v[0]], [[w[0][1], w[0][0]], [w[1][1], w[1][0]]]
    g = [h.real('g' + str(i), -1, 1) for i in range(2)]
    theta = [h.real('theta' + str(i), -0.1, 0.2) for i in range(2)]
    s = [[h.real('vol' + str(i) + str(j), -0.2, 0.2) for j in range(2)] for i in range(2)]
    return Parameters(v, w, lam, h.real('mu', -0.05, 0.1), g, theta, s)


def some_model(h, dcc, shape='lower', path=True):
    start, end = span(h)
    p = some_parameters(h, shape)
    bm = BrownianMotion(start, end, 2, day_count_convention=dcc)
    k = h.diagonal(p.v, p.lam, p.w, p.k)
    model = MultivariateVasicekModel(p.mu, np.array(p.g), np.array(p.theta), k, np.array(p.s), bm, relativedelta(months=1))
    states = [h.fn('state' + str(i), ('datetime',)) for i in range(2)]
    model.state_variables_diffusion_process = States(h, bm, relativedelta(months=1), [states])
    if path:
        model.generate_path(np.array([0.0, 0.0]))
    return model, p, lambda t: [f(t) for f in states]


SHAPES = ['lower', 'swapped']
SHORT = [(d, p, 'lower') for d in ACTUAL for p in ('default', 'positional', 'keyword')] + [(D.ACTUAL_OVER_ACTUAL, 'positional', 'swapped')]


@goal(cases=SHORT, n=25, uses=USES)
def means(h):
    dcc, how, shape = h.case
    model, p, states = some_model(h, dcc, shape)
    purchase, maturity = some_dates(h, model, how, later=False)
    t, x = accrual(purchase, maturity, dcc), states(purchase)
    want = p.mean(t, x)
    got = at(model.expected_state_variable_mean, how, maturity, purchase)
    for i in range(2):
        h.close('expected state', got[i], want[i])
    h.close('expected rate', number(at(model.expected_short_rate, how, maturity, purchase)), p.mu + dot(p.g, want))
    h.close('rate', number(model(purchase)), p.mu + dot(p.g, x))


@goal(cases=SHORT, n=25, uses=USES)
def covariances(h):
    dcc, how, shape = h.case
    model, p, states = some_model(h, dcc, shape)
    purchase, maturity = some_dates(h, model, how, later=False)
    want = p.covariance(accrual(purchase, maturity, dcc))
    got = at(model.state_variable_covariance, how, maturity, purchase)
    for i in range(2):
        for j in range(2):
            h.close('covariance', got[i, j], want[i][j])
    h.close('variance of the rate', number(at(model.short_rate_variance, how, maturity, purchase)), dot(p.g, on(want, p.g)))


@goal(cases=SHORT, n=25, uses=USES)
def prices(h):
    dcc, how, shape = h.case
    model, p, states = some_model(h, dcc, shape)
    purchase, maturity = some_dates(h, model, how, later=False)
    t, x = accrual(purchase, maturity, dcc), states(purchase)
    value = number(at(model.zero_coupon_bond_price, how, maturity, purchase))
    a, b = model.price_state_variable_coeffs['intercept'], model.price_state_variable_coeffs['coefficients']
    h.close('intercept', a, p.a(t))
    for i in range(2):
        h.close('coefficient', b[i], p.b(t)[i])
    h.close('price', value, math.exp(a + b[0] * x[0] + b[1] * x[1]))


@goal(n=100, cases=SHAPES)
def identities(h):
    """of the closed forms"""
    p = some_parameters(h, h.case)
    t = h.real('t', 0, 40)
    h.assume(t >= 0)
    x = [h.real('x' + str(i), -0.1, 0.3) for i in range(2)]
    m = p.mean(t, x)
    for i in range(2):
        h.close('expected state starts at the state', p.mean(0, x)[i], x[i])
        h.close('expected state follows the drift', derivative(lambda s: p.mean(s, x)[i], t),
                dot(p.k[i], [p.theta[j] - m[j] for j in range(2)]))
    s = p.covariance(t)
    ks = times(p.k, s)
    h.close('symmetric', s[0][1], s[1][0])
    for i in range(2):
        for j in range(2):
            h.close('covariance starts at zero', p.covariance(0)[i][j], 0)
            h.close('covariance follows', derivative(lambda u: p.covariance(u)[i][j], t), p.c[i][j] - ks[i][j] - ks[j][i])
    b = p.b(t)
    for i in range(2):
        h.close('coefficient starts at zero', p.b(0)[i], 0)
        h.close('coefficient follows', derivative(lambda u: p.b(u)[i], t), -p.g[i] - dot(turned(p.k)[i], b))
    h.close('intercept starts at zero', p.a(0), 0)
    h.close('intercept follows', derivative(p.a, t), -p.mu + dot(b, on(p.k, p.theta)) + dot(b, on(p.c, b)) / 2)
    h.close('average starts at zero', p.average(0, x), 0)
    h.close('average is of the expected rate', derivative(lambda u: p.average(u, x), t), p.mu + dot(p.g, m))


@goal(cases=SHORT, n=25, uses=USES)
def yields_and_forwards(h):
    dcc, how, shape = h.case
    model, p, states = some_model(h, dcc, shape)
    purchase, maturity = some_dates(h, model, how)
    t, x = accrual(purchase, maturity, dcc), states(purchase)
    h.assume(t > 0)
    y = number(at(model.zero_coupon_bond_yield, how, maturity, purchase))
    h.close('yield times time is minus the log of the price', y * t, -(p.a(t) + dot(p.b(t), x)))
    forward = number(at(model.instantaneous_forward_rate, how, maturity, purchase))
    h.close('minus the derivative of the log price', forward, -derivative(lambda s: p.a(s) + dot(p.b(s), x), t))
    value = number(at(model.zero_coupon_bond_price, how, maturity, purchase))
    slope = number(at(model.zero_coupon_price_deriv_wrt_maturity, how, maturity, purchase))
    h.close('slope of the price', slope, -value * forward)


@goal(cases=SHORT, n=25, uses=USES)
def averages(h):
    dcc, how, shape = h.case
    model, p, states = some_model(h, dcc, shape)
    purchase, maturity = some_dates(h, model, how)
    t, x = accrual(purchase, maturity, dcc), states(purchase)
    h.assume(t > 0)
    h.close('average', number(at(model.average_expected_short_rate, how, maturity, purchase)) * t, p.average(t, x))
    h.close('convexity', number(at(model.yield_convexity, how, maturity, purchase)) * t,
            -(p.a(t) + dot(p.b(t), x)) - p.average(t, x))


@goal(cases=SHAPES, n=40, uses=USES)
def sensitivities(h):
    """covariances of yields and forward rates are the quadratic forms of their sensitivities to the states in S S'"""
    model, p, states = some_model(h, D.ACTUAL_OVER_365, h.case)
    purchase, first = some_dates(h, model, 'positional', before=not h.symbolic)
    second = h.datetime('second') if h.symbolic else purchase + timedelta(days=h.int('second', 1, 9000))
    h.assume(purchase < second)
    dates = [first, second]
    x = states(purchase)
    ts = [accrual(purchase, m, D.ACTUAL_OVER_365) for m in dates]
    for t in ts:
        h.assume(t > 0)
    by_yield = [[-b / t for b in p.b(t)] for t in ts]
    by_forward = [[-derivative(lambda u: p.b(u)[i], t) for i in range(2)] for t in ts]
    of_yields = model.yield_covariance_matrix(dates, purchase)
    of_forwards = model.instantaneous_forward_rate_covariance(dates, purchase)
    for i in range(2):
        for j in range(2):
            h.close('yields', of_yields[i, j], dot(by_yield[i], on(p.c, by_yield[j])))
            h.close('forwards', of_forwards[i, j], dot(by_forward[i], on(p.c, by_forward[j])))
    if h.bool('iterator'):
        of_yields, of_forwards = model.yield_covariance_matrix(iter(dates), purchase), model.instantaneous_forward_rate_covariance(iter(dates), purchase)
        for i in range(2):
            h.close('yields of an iterator', of_yields[i, i], dot(by_yield[i], on(p.c, by_yield[i])))
            h.close('forwards of an iterator', of_forwards[i, i], dot(by_forward[i], on(p.c, by_forward[i])))
    value = number(model.zero_coupon_bond_price(first, purchase))
    convexities = model.price_convexities(dates, purchase)
    h.close('price convexity', number(convexities[0]), -value * ts[0] ** 2 * dot(by_yield[0], on(p.c, by_yield[0])) / 2)
    slope = model.zero_coupon_bond_price_deriv_wrt_state_variables(first, purchase)
    for i in range(2):
        h.close('price', slope[i], value * p.b(ts[0])[i])


@goal(cases=SHAPES, n=40, uses=USES)
def volatilities(h):
    model, p, states = some_model(h, D.ACTUAL_OVER_365, h.case)
    purchase, maturity = some_dates(h, model, 'positional', before=not h.symbolic)
    t = accrual(purchase, maturity, D.ACTUAL_OVER_365)
    h.assume(t > 0)
    of_yields, of_forwards = [f([maturity], purchase)[0, 0] for f in (
        model.yield_covariance_matrix, model.instantaneous_forward_rate_covariance)]
    h.assume(of_yields >= 0)            # always: the squares of the lengths of S' times the sensitivities
    h.assume(of_forwards >= 0)
    h.close('yield', model.yield_volatility(maturity, purchase), math.sqrt(of_yields))
    h.close('forward', model.instantaneous_forward_rate_volatility(maturity, purchase), math.sqrt(of_forwards))


@goal(n=30, uses=USES)
def dynamics(h):
    """the simulated states have drift K (theta - X) and diffusion S"""
    start, end = span(h)
    p = some_parameters(h)
    model = MultivariateVasicekModel(p.mu, np.array(p.g), np.array(p.theta), h.diagonal(p.v, p.lam, p.w, p.k), np.array(p.s),
                  BrownianMotion(start, end, 2), relativedelta(months=1))
    follows(h, model, p.k, p.theta, p.s)


def follows(h, model, k, theta, s):
    x, t = [h.real('x' + str(i), -0.1, 0.3) for i in range(2)], h.real('t', 0, 40)
    pairs = list(model.state_variables_diffusion_process.drift_diffusion_collection.values())
    h.eq('two states', len(pairs), 2)
    for i in range(2):
        h.close('drift', number(pairs[i].drift(t, np.array(x))), dot(k[i], [theta[j] - x[j] for j in range(2)]))
        for j in range(2):
            h.close('diffusion', number(pairs[i].diffusion(t, np.array(x))[j]), s[i][j])


def doubly(h, fast, slow, v, w, keywords=True):
    """the rate reverts to a level that reverts itself: eigenvalues slow (of the level) and fast (of the rate)"""
    start, end = span(h)
    mean = h.real('mean', -0.1, 0.2)
    vol, level_vol, corr = h.real('vol', 0.001, 0.3), h.real('level_vol', 0.001, 0.3), h.real('corr', -0.99, 0.99)
    h.assume(vol > 0)
    h.assume(level_vol > 0)
    h.assume(-1 < corr)
    h.assume(corr < 1)
    k = [[slow, 0.0], [-fast, fast]]
    h.diagonal(v, [slow, fast], w, k)
    dt = relativedelta(months=1)
    if keywords:
        model = DoublyMeanRevertingVasicek(short_rate_reversion_speed=fast, short_rate_volatility=vol, long_term_mean=mean,
                                           long_term_reversion_speed=slow, long_term_volatility=level_vol,
                                           short_rate_long_term_correlation=corr, start_datetime=start, end_datetime=end, dt=dt)
    else:
        model = DoublyMeanRevertingVasicek(fast, vol, mean, slow, level_vol, corr, start, end, dt)
    c = [[level_vol * level_vol, corr * vol * level_vol], [corr * vol * level_vol, vol * vol]]
    return model, k, mean, c


@goal(cases=[True, False], n=40, uses=USES)
def doubly_mean_reverting(h):
    """its states are the level and the rate: drifts slow (mean - level) and fast (level - rate), covariance of the shocks as given"""
    fast, slow = h.real('fast', 0.3, 3), h.real('slow', 0.01, 0.25)
    s1, s2 = h.real('s1', 0.5, 2), h.real('s2', 0.5, 2)
    for z in (s1, s2, fast, slow, fast - slow):
        h.assume(z != 0)
    v = [[s1 * (fast - slow), 0.0], [s1 * fast, s2]]
    w = [[1 / (s1 * (fast - slow)), 0.0], [-fast / (s2 * (fast - slow)), 1 / s2]]
    model, k, mean, c = doubly(h, fast, slow, v, w, h.case)
    x, t = [h.real('x' + str(i), -0.1, 0.3) for i in range(2)], h.real('t', 0, 40)
    pairs = list(model.state_variables_diffusion_process.drift_diffusion_collection.values())
    h.eq('two states', len(pairs), 2)
    h.close('drift of the level', number(pairs[0].drift(t, np.array(x))), slow * (mean - x[0]))
    h.close('drift of the rate', number(pairs[1].drift(t, np.array(x))), fast * (x[0] - x[1]))
    s = [pairs[i].diffusion(t, np.array(x)) for i in range(2)]
    for i in range(2):
        for j in range(2):
            h.close('covariance of the shocks', s[i][0] * s[j][0] + s[i][1] * s[j][1], c[i][j])
            h.close('covariance kept', model.C_mat[i, j], c[i][j])
            h.close('reversion kept', model.reversion_matrix[i, j], k[i][j])
        h.close('level kept', model.reversion_level[i], mean)
    h.close('the rate is the second state', number(model.short_rate_transformation(np.array(x))), x[1])


@goal(n=30, uses=USES)
def refused(h):
    model, p, states = some_model(h, D.ACTUAL_OVER_365)
    purchase, maturity = some_dates(h, model, 'positional', later=False)
    h.raises('yield', ValueError, lambda: model.zero_coupon_bond_yield(purchase, maturity))
    h.raises('average', ValueError, lambda: model.average_expected_short_rate(purchase, maturity))
    h.raises('convexity', ValueError, lambda: model.yield_convexity(purchase, maturity))
    h.raises('forwards', ValueError, lambda: model.instantaneous_forward_rate_covariance([purchase], maturity))
    h.raises('yield', ValueError, lambda: model.zero_coupon_bond_yield(purchase, purchase))
    h.raises('volatility', ValueError, lambda: model.yield_volatility(purchase, maturity))
    h.raises('price convexities', ValueError, lambda: model.price_convexities([maturity, purchase], maturity))


@goal(n=30, uses=USES)
def no_path(h):
    model, p, states = some_model(h, D.ACTUAL_OVER_365, path=False)
    purchase, maturity = some_dates(h, model, 'positional', before=False)
    h.raises('price', ValueError, lambda: model.zero_coupon_bond_price(maturity, purchase))
    h.raises('forward', ValueError, lambda: model.instantaneous_forward_rate(maturity, purchase))
    h.raises('expected state', ValueError, lambda: model.expected_state_variable_mean(maturity, purchase))


@goal(symbolic=False, n=40)
def riskless(h):
    """weights of three bonds sum to one and have no sensitivity to the states; their convexity is half the trace of S' D S"""
    model, p, states = some_model(h, D.ACTUAL_OVER_365)
    lo, hi = model.start_date_time, model.end_date_time
    purchase = lo + (hi - lo) * (h.int('purchase', 0, 100) / 100)
    dates = [purchase + timedelta(days=d) for d in (h.int('d1', 100, 900), h.int('d2', 1200, 2400), h.int('d3', 3000, 6000))]
    h.assume(abs(p.lam[0] - p.lam[1]) > 0.2)
    h.assume(min(abs(x) for x in p.gamma) > 0.05)
    x = states(purchase)
    weights = model.weights_for_riskless_portfolio(dates, purchase)
    h.eq('one weight per bond', len(weights), 3)
    h.close('sum', sum(weights), 1)
    ts = [accrual(purchase, d, D.ACTUAL_OVER_365) for d in dates]
    values = [math.exp(p.a(t) + dot(p.b(t), x)) for t in ts]
    h.assume(max(values) < 1000 * min(values))
    for i in range(2):
        parts = [w * v * p.b(t)[i] for w, v, t in zip(weights, values, ts)]
        h.close('no sensitivity', sum(parts) / sum(abs(x) for x in parts), 0)
    d = [[sum(w * v * p.b(t)[i] * p.b(t)[j] for w, v, t in zip(weights, values, ts)) for j in range(2)] for i in range(2)]
    convexity = sum(dot([p.s[0][r], p.s[1][r]], on(d, [p.s[0][r], p.s[1][r]])) for r in range(2)) / 2
    h.assume(max(values) < 1000 * min(values))
    size = sum(abs(w * v) for w, v in zip(weights, values))
    h.close('convexity', number(model.riskless_portfolio_convexity(dates, purchase)) / size, convexity / size)


@goal(symbolic=False, n=25)
def simulated(h):
    """a doubly mean-reverting model on its own simulated path"""
    fast, slow = h.real('fast', 0.3, 3), h.real('slow', 0.01, 0.25)
    v = [[fast - slow, 0.0], [fast, 1.0]]
    w = [[1 / (fast - slow), 0.0], [-fast / (fast - slow), 1.0]]
    model, k, mean, c = doubly(h, fast, slow, v, w)
    model.set_dt(timedelta(days=h.int('step', 1, 300), hours=5))
    p = Parameters(v, w, [slow, fast], 0.0, [0.0, 1.0], [mean, mean], np.linalg.cholesky(np.array(c)).tolist())
    first = np.array([h.real('x0', -0.1, 0.3), h.real('x1', -0.1, 0.3)])
    seed = h.int('seed', 0, 10 ** 6)
    path = model.generate_path(first, seed=seed)
    if h.bool('from a dictionary'):
        shape = {Kind.VOLATILITY: [slow, model.long_term_volatility, fast, model.short_rate_volatility,
                                   model.short_rate_long_term_correlation], Kind.SHAPE: [mean], Kind.STATE_VARIABLES: first.tolist()}
        other = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(
            shape, model.start_date_time, model.end_date_time, model.dt, seed)
        h.close('same path', other.path, path)
        model = other
    h.close('starts at the rate', path[0], first[1])
    lo, hi = model.start_date_time, model.end_date_time
    purchase = lo + (hi - lo) * (h.int('purchase', 0, 100) / 100)
    maturity = purchase + timedelta(days=h.int('days', 1, 9000))
    dcc = model.day_count_convention
    t, x = accrual(purchase, maturity, dcc), model.state_variables_diffusion_process(purchase)
    h.close('rate', number(model(purchase)), x[1])
    h.close('price', model.zero_coupon_bond_price(maturity, purchase), math.exp(p.a(t) + dot(p.b(t), x)))
    h.close('yield', model.zero_coupon_bond_yield(maturity, purchase) * t, -(p.a(t) + dot(p.b(t), x)))
    h.close('expected rate', model.expected_short_rate(maturity, purchase), p.mean(t, x)[1])
    h.close('variance', model.short_rate_variance(maturity, purchase), p.covariance(t)[1][1])


def chain(top, link, middle, last):
    """decomposition of the matrix of a state reverting at speed top, another reverting to it, and a third reverting to that one"""
    k = [[top, 0.0, 0.0], [-link, middle, 0.0], [0.0, -last, last]]
    a, c = link / (middle - top), last / (last - middle)
    b = last * a / (last - top)
    return k, [[1.0, 0.0, 0.0], [a, 1.0, 0.0], [b, c, 1.0]], [top, middle, last], [[1.0, 0.0, 0.0], [-a, 1.0, 0.0], [a * c - b, -c, 1.0]]


def three_factors(h, kind):
    """a model of three factors, its matrices by the documentation of its class, and the drifts it documents"""
    start, end = span(h)
    top, middle, last = h.real('top', 0.01, 0.25), h.real('middle', 0.3, 0.7), h.real('last', 0.8, 3)
    for z in (top, middle, last, middle - top, last - top, last - middle):
        h.assume(z != 0)
    vols = [h.real('vol' + str(i), 0.001, 0.3) for i in range(3)]
    corr = {(0, 1): h.real('corr01', -0.5, 0.5), (0, 2): h.real('corr02', -0.5, 0.5), (1, 2): h.real('corr12', -0.4, 0.4)}
    for v in vols:
        h.assume(v > 0)
    c = [[vols[i] * vols[j] * (1 if i == j else corr[min(i, j), max(i, j)]) for j in range(3)] for i in range(3)]
    h.assume(c[0][0] * c[1][1] - c[0][1] * c[0][1] > 0)
    h.assume(c[0][0] * (c[1][1] * c[2][2] - c[1][2] * c[1][2]) - c[0][1] * (c[0][1] * c[2][2] - c[1][2] * c[0][2])
             + c[0][2] * (c[0][1] * c[1][2] - c[1][1] * c[0][2]) > 0)
    mean, other = h.real('mean', -0.1, 0.2), h.real('other', -0.1, 0.2)
    link = vols[1] if kind == 'risk' else middle
    k, v, lam, w = chain(top, link, middle, last)
    h.diagonal(v, lam, w, k)
    dt = relativedelta(months=1)
    if kind == 'risk':
        model = StochasticMarketPriceOfRisk(
            short_rate_reversion_speed=last, short_rate_vol=vols[2], medium_rate_reversion_speed=middle, medium_rate_vol=vols[1],
            medium_rate_mean=mean, market_price_of_risk_reversion_speed=top, market_price_of_risk_vol=vols[0],
            market_price_of_risk_mean=other, short_rate_medium_rate_correlation=corr[1, 2],
            short_rate_market_price_of_risk_correlation=corr[0, 2], medium_rate_market_price_of_risk_correlation=corr[0, 1],
            start_datetime=start, end_datetime=end, dt=dt)
        level = [other, mean + vols[1] * other / middle, mean + vols[1] * other / middle]
        drifts = [lambda x: top * (other - x[0]), lambda x: middle * (mean - x[1]) + vols[1] * x[0], lambda x: last * (x[1] - x[2])]
    else:
        model = TreblyMeanRevertingVasicek(
            short_rate_reversion_speed=last, short_rate_volatility=vols[2], medium_rate_reversion_speed=middle,
            medium_rate_volatility=vols[1], long_term_mean=mean, long_term_reversion_speed=top, long_term_volatility=vols[0],
            short_rate_medium_rate_correlation=corr[1, 2], short_rate_long_term_correlation=corr[0, 2],
            medium_rate_long_term_correlation_correlation=corr[0, 1], start_datetime=start, end_datetime=end, dt=dt)
        level = [mean, mean, mean]
        drifts = [lambda x: top * (mean - x[0]), lambda x: middle * (x[0] - x[1]), lambda x: last * (x[1] - x[2])]
    return model, Parameters(v, w, lam, 0.0, [0.0, 0.0, 1.0], level, [[0.0]] * 3), c, drifts


@goal(cases=['trebly', 'risk'], n=40, uses=USES)
def three_factor_dynamics(h):
    """drifts and covariances of the shocks as documented; the rate is the last state"""
    model, p, c, drifts = three_factors(h, h.case)
    x, t = [h.real('x' + str(i), -0.1, 0.3) for i in range(3)], h.real('t', 0, 40)
    pairs = list(model.state_variables_diffusion_process.drift_diffusion_collection.values())
    h.eq('three states', len(pairs), 3)
    s = [pairs[i].diffusion(t, np.array(x)) for i in range(3)]
    for i in range(3):
        h.close('drift', number(pairs[i].drift(t, np.array(x))), drifts[i](x))
        h.close('level', model.reversion_level[i], p.theta[i])
        for j in range(3):
            h.close('covariance of the shocks', dot(s[i], s[j]), c[i][j])
            h.close('covariance kept', model.C_mat[i, j], c[i][j])
            h.close('reversion kept', model.reversion_matrix[i, j], p.k[i][j])
    h.close('rate', number(model.short_rate_transformation(np.array(x))), x[2])


@goal(cases=['trebly', 'risk'], n=25, symbolic=False)
def three_factor_prices(h):
    """closed forms of three factors on a simulated path"""
    model, p, c, drifts = three_factors(h, h.case)
    p = Parameters(p.v, p.w, p.lam, 0.0, p.g, p.theta, np.linalg.cholesky(np.array(c)).tolist())
    model.generate_path(np.array([h.real('x' + str(i), -0.1, 0.3) for i in range(3)]), seed=h.int('seed', 0, 10 ** 6))
    lo, hi = model.start_date_time, model.end_date_time
    purchase = lo + (hi - lo) * (h.int('purchase', 0, 100) / 100)
    maturity = purchase + timedelta(days=h.int('days', 1, 9000))
    t, x = accrual(purchase, maturity, model.day_count_convention), model.state_variables_diffusion_process(purchase)
    h.close('rate', number(model(purchase)), x[2])
    h.close('price', model.zero_coupon_bond_price(maturity, purchase), math.exp(p.a(t) + dot(p.b(t), x)))
    h.close('yield', model.zero_coupon_bond_yield(maturity, purchase) * t, -(p.a(t) + dot(p.b(t), x)))
    h.close('forward', model.instantaneous_forward_rate(maturity, purchase), -derivative(lambda u: p.a(u) + dot(p.b(u), x), t))
    h.close('average', model.average_expected_short_rate(maturity, purchase) * t, p.average(t, x))
    expected, covariance = model.expected_state_variable_mean(maturity, purchase), model.state_variable_covariance(maturity, purchase)
    for i in range(3):
        h.close('expected state', expected[i], p.mean(t, x)[i])
        for j in range(3):
            h.close('covariance', covariance[i, j], p.covariance(t)[i][j])
