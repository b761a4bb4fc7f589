"""C23: portfolio optimisation."""
import math
import numpy as np
from pyvc.harness import goal
from fixedIncome.src.portfolio.portfolio_optimization import PortfolioOptimizer

SIZES = [1, 2, 3]
BOUND = 'at most three assets'


def dot(x, y):
    return sum(x[i] * y[i] for i in range(len(x)))


def on(a, x):
    return [dot(row, x) for row in a]


def variance(c, x):
    return dot(x, on(c, x))


def some_optimiser(h, n):
    """the covariance is L L' of a lower triangular L with a positive diagonal"""
    mean = [h.real('mean' + str(i), -0.2, 0.5) for i in range(n)]
    low = [[h.real('l' + str(i) + str(j), 0.05, 0.5) if i == j else h.real('l' + str(i) + str(j), -0.3, 0.3) if j < i else 0.0
            for j in range(n)] for i in range(n)]
    for i in range(n):
        h.assume(low[i][i] > 0)
    cov = [[dot(low[i], low[j]) for j in range(n)] for i in range(n)]
    return PortfolioOptimizer(np.array(mean), np.array(cov)), mean, cov


def some_weights(h, n, short, name='w'):
    """any weights that sum to one"""
    if h.symbolic:
        w = [h.real(name + str(i)) for i in range(n - 1)]
    else:
        w = [h.real(name + str(i), -1.5, 1.5) if short else h.real(name + str(i), 0, 1) / n for i in range(n - 1)]
    w = w + [1 - sum(w)]
    if not short:
        for x in w:
            h.assume(x >= 0)
    return w


def close_to_target(h, w, mean, target):
    h.close('weights sum to one', sum(w), 1)
    h.close('return', dot(w, mean), target)


@goal(cases=[(n, s) for n in SIZES for s in (None, False, True)], n=40, tol=1e-5, bounded=BOUND)
def minimum_variance(h):
    n, short = h.case
    model, mean, cov = some_optimiser(h, n)
    rival = some_weights(h, n, bool(short))
    target = dot(rival, mean)           # attainable
    w = model.find_minimum_variance_portfolio(target) if short is None else \
        model.find_minimum_variance_portfolio(target, short) if h.bool('positional') else \
        model.find_minimum_variance_portfolio(target_return=target, allow_short_positions=short)
    h.eq('one weight per asset', len(w), n)
    close_to_target(h, w, mean, target)
    if not short:
        for x in w:
            h.check('no short position', x >= -(0 if h.symbolic else 1e-7))
    h.rival(rival)
    h.check('no larger variance', variance(cov, w) <= variance(cov, rival) + (0 if h.symbolic else 1e-5))


@goal(cases=[(n, s) for n in SIZES for s in (None, False, True)], n=40, tol=1e-5, bounded=BOUND)
def maximum_utility(h):
    n, short = h.case
    model, mean, cov = some_optimiser(h, n)
    rival = some_weights(h, n, bool(short))
    wealth, param = h.real('wealth', 0.5, 3), h.real('param', 0.5, 5)
    h.assume(wealth > 0)
    h.assume(param > 0)
    w = model.find_maximum_utility_portfolio(wealth, param) if short is None else \
        model.find_maximum_utility_portfolio(wealth, param, short) if h.bool('positional') else \
        model.find_maximum_utility_portfolio(initial_wealth=wealth, param=param, allow_short_positions=short)
    h.eq('one weight per asset', len(w), n)
    h.close('weights sum to one', sum(w), 1)
    if not short:
        for x in w:
            h.check('no short position', x >= -(0 if h.symbolic else 1e-7))

    def utility(x):
        return dot(x, mean) - param * wealth * variance(cov, x) / 2
    h.rival(rival)
    h.check('no smaller utility', utility(w) >= utility(rival) - (0 if h.symbolic else 1e-5))


@goal(symbolic=False, n=60, tol=1e-5)
def larger(h):
    """up to eight assets against other attainable weights, and without constraints on sign against the closed form"""
    n = h.int('assets', 2, 8)
    model, mean, cov = some_optimiser(h, n)
    short = h.bool('short')
    rival = some_weights(h, n, short)
    target = dot(rival, mean)
    w = model.find_minimum_variance_portfolio(target, short)
    close_to_target(h, w, mean, target)
    h.check('no larger variance', variance(cov, w) <= variance(cov, rival) + 1e-5)
    if short:
        e = np.array([np.ones(n), mean])
        inv = np.linalg.inv(np.array(cov))
        best = inv @ e.T @ np.linalg.solve(e @ inv @ e.T, np.array([1.0, target]))
        h.check('variance of the closed form', variance(cov, w) <= variance(cov, best) + 1e-5)
    else:
        h.check('no short position', min(w) >= -1e-7)


@goal(symbolic=False, n=30, tol=1e-5)
def frontier(h):
    n = h.int('assets', 2, 5)
    model, mean, cov = some_optimiser(h, n)
    h.assume(max(mean) - min(mean) > 0.05)
    short = h.bool('short')
    how = h.choice('how', ['default', 'increment', 'range'])
    step = 0.001 if how == 'default' else h.real('step', 0.004, 0.02)
    if how == 'range':
        low, up = min(mean) + h.real('low', 0, 0.3) * (max(mean) - min(mean)), max(mean) - h.real('up', 0.1, 0.3) * (max(mean) - min(mean))
        h.assume(up + step < max(mean))
        returns, vols, weights = model.calculate_efficient_frontier(low, up, step, short) if h.bool('positional') else \
            model.calculate_efficient_frontier(lower_return=low, upper_return=up, return_increment=step, allow_short_positions=short)
    else:
        low, up = min(mean) + step, max(mean) - step
        if short or h.bool('named'):
            returns, vols, weights = model.calculate_efficient_frontier(return_increment=step, allow_short_positions=short)
        elif how == 'default':
            returns, vols, weights = model.calculate_efficient_frontier()
        else:
            returns, vols, weights = model.calculate_efficient_frontier(return_increment=step)
    h.check('one row per return', len(returns) == len(vols) == len(weights) > 0)
    h.close('from the lowest', returns[0], low)
    h.check('to the highest', returns[-1] > up - step - 1e-9)
    for i in range(len(returns)):
        if i:
            h.close('spacing', returns[i] - returns[i - 1], step)
        w = weights[i]
        if returns[i] < max(mean) - 1e-4:
            close_to_target(h, w, mean, returns[i])
            if not short:
                h.check('no short position', min(w) >= -1e-7)
            best = model.find_minimum_variance_portfolio(returns[i], short)
            h.check('of minimum variance', abs(variance(cov, w) - variance(cov, best)) <= 1e-5)
        h.close('volatility', vols[i] ** 2, variance(cov, w))
        h.check('volatility is not negative', vols[i] >= 0)


@goal(n=60)
def sharpe(h):
    model, mean, cov = some_optimiser(h, 2)
    r, vol, free = [h.real('r' + str(i)) for i in range(3)], [h.real('vol' + str(i), 0.01, 1) for i in range(3)], h.real('free', -0.1, 0.1)
    for v in vol:
        h.assume(v > 0)
    got = model.sharpe_ratio(np.array(r), np.array(vol), free) if h.bool('positional') else \
        model.sharpe_ratio(returns=np.array(r), volatilities=np.array(vol), risk_free_rate=free)
    h.eq('length', len(got), 3)
    for i in range(3):
        h.close('excess return over volatility', got[i], (r[i] - free) / vol[i])
