"""C20: short-rate accrual and discounting integrate the current path."""
import math
from datetime import datetime, timedelta
from dateutil.relativedelta import relativedelta
import numpy as np
from pyvc.harness import goal
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as D
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.short_rate_models.base_short_rate_model import ShortRateModel
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import VasicekModel
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import (
    DoublyMeanRevertingVasicek)
from contracts.c19 import span

accrual = DayCountCalculator.compute_accrual_length
USES = ('rising accruals', 'stepped timestamps')
ACTUAL = [d for d in D if 'ACTUAL' in d.name]


class States:
    """a process of one or two state variables: arbitrary functions of time, other functions for every generated path"""

    def __init__(self, h, motion, dt, paths):
        self.brownian_motion = motion
        self.drift_diffusion_collection = {'only': DriftDiffusionPair(None, None)}
        self.dt = dt
        self.paths = paths
        self.generated = 0
        self.current = None

    def __call__(self, t):
        if self.current is None:
            raise ValueError('no path')
        return np.array([f(t) for f in self.paths[self.current]])

    def generate_path(self, starting_value, set_path=True, seed=None):
        if set_path:
            self.current = self.generated
        self.generated += 1
        return np.array([[1.0, 2.0] for _ in self.paths[0]])

    def set_dt(self, new_dt):
        self.current = None
        self.dt = new_dt


def rate_of(h, d=1):
    """the short rate: an arbitrary function of the state variables"""
    f = h.fn('rate', ('real',) * d)
    return lambda x: f(*[x[i] for i in range(d)])


def some_model(h, d=1, dcc=None, paths=3):
    start, end = span(h)
    bm = BrownianMotion(start, end, day_count_convention=dcc or D.ACTUAL_OVER_ACTUAL)
    dt = relativedelta(months=h.int('step', 1, 100))
    values = [[h.fn('state' + str(p) + str(r), ('datetime',)) for r in range(d)] for p in range(paths)]
    states = States(h, bm, dt, values)
    rate = rate_of(h, d)
    return ShortRateModel(rate, states), states, lambda p, t: rate([f(t) for f in values[p]])


def some_times(h, model, name='times', least=2):
    """increasing times within the process's range"""
    lo, hi = model.start_date_time, model.end_date_time
    if h.symbolic:
        times = h.seq(name, 'datetime', min_len=least, sorted_strict=True)
        h.assume(lo <= times[0])
        h.assume(times[len(times) - 1] <= hi)
        return times
    parts = sorted(set(h.int(name + str(i), 0, 1000) for i in range(h.int(name + '_len', least, 9))))
    if len(parts) < least:
        parts = list(range(least))
    return [lo + (hi - lo) * (p / 1000) for p in parts]


def integrates(h, path, times, rate, dcc):
    n = len(times)
    h.eq('one value per time', len(path), n)
    h.eq('starts at zero', path[0], 0)
    h.forall('growth', n - 1, lambda i: h.close('average of the end rates over the interval', path[i + 1], path[i] +
        (rate(times[i]) + rate(times[i + 1])) / 2 * accrual(times[i], times[i + 1], dcc)))


@goal(cases=[(c, d) for c in ACTUAL for d in (1, 2)], n=60, uses=USES)
def integral(h):
    dcc, d = h.case
    model, states, rate = some_model(h, d, dcc)
    times = some_times(h, model, least=1)
    model.generate_path(0.0)
    path = model.generate_integrated_path(times) if h.bool('positional') else model.generate_integrated_path(datetimes=times)
    integrates(h, path, times, lambda t: rate(0, t), dcc)
    h.forall('kept', len(times), lambda i: h.eq('kept', model.integrated_path[i], path[i]))
    h.forall('model', len(times), lambda i: h.close('short rate', model(times[i]), rate(0, times[i])))


@goal(cases=ACTUAL, n=40, uses=USES)
def curves(h):
    """the curves at the requested times"""
    dcc = h.case
    model, states, rate = some_model(h, 1, dcc)
    times = some_times(h, model)
    model.generate_path(0.0)
    path = model.generate_integrated_path(times)
    discount = model.create_discount_curve(times)
    accruals = model.accrual_curve(times)
    h.check('kept', model.discount_curve is discount)
    h.close('one at the first time', discount(times[0]), 1)
    h.close('one at the first time', accruals(times[0]), 1)
    h.forall('at', len(times), lambda i: h.close('discount factor', discount(times[i]), math.exp(-path[i])))
    h.forall('at', len(times), lambda i: h.close('accrual', accruals(times[i]), math.exp(path[i])))


@goal(cases=['integral', 'discount', 'accrual'], n=40, uses=USES)
def default_times(h):
    """without times: every step from the start to the end"""
    which = h.case
    model, states, rate = some_model(h)
    model.generate_path(0.0)
    times = Scheduler.generate_dates_by_increments(start_date=model.start_date_time, end_date=model.end_date_time,
                                                   increment=model.dt, max_dates=1_000_000)
    if which == 'integral':
        integrates(h, model.generate_integrated_path(), times, lambda t: rate(0, t), D.ACTUAL_OVER_ACTUAL)
        return
    path = model.generate_integrated_path(times)
    h.assume(len(times) > 1)
    if which == 'discount':
        curve = model.create_discount_curve()
        h.forall('at', len(times), lambda i: h.close('discount factor', curve(times[i]), math.exp(-path[i])))
    else:
        curve = model.accrual_curve()
        h.forall('at', len(times), lambda i: h.close('accrual', curve(times[i]), math.exp(path[i])))


@goal(cases=[(a, b) for a in ('none', 'integral', 'discount', 'accrual') for b in ('new path', 'other times', 'unstored', 'both')], n=25, uses=USES)
def regeneration(h):
    """what is built after a new path, or for other times, reflects them and nothing earlier"""
    before, event = h.case
    model, states, rate = some_model(h)
    times = some_times(h, model)
    model.generate_path(0.0)
    if before == 'integral':
        model.generate_integrated_path(times)
    elif before == 'discount':
        model.create_discount_curve(times)
    elif before == 'accrual':
        model.accrual_curve(times)
    path = 0
    if event in ('new path', 'both'):
        model.generate_path(1.0)
        path = 1
        h.check('the integral of the previous path is gone', model.integrated_path is None)
        h.check('the curve of the previous path is gone', model.discount_curve is None)
    elif event == 'unstored':
        kept, curve = model.integrated_path, model.discount_curve
        model.generate_path(1.0, set_path=False)
        h.check('the integral stays', model.integrated_path is kept)
        h.check('the curve stays', model.discount_curve is curve)
    if event in ('other times', 'both'):
        times = some_times(h, model, 'others')
    # a model that has only ever had this path
    fresh_states = States(h, model.brownian_motion, model.dt, [states.paths[path]])
    fresh = ShortRateModel(model.short_rate_transformation, fresh_states)
    fresh.generate_path(0.0)
    expected = fresh.generate_integrated_path(times)
    curve, accruals = model.create_discount_curve(times), model.accrual_curve(times)
    again = model.generate_integrated_path(times)
    n = len(times)
    h.eq('length', len(again), n)
    h.forall('integral', n, lambda i: h.close('of this path', again[i], expected[i]))
    h.forall('discount', n, lambda i: h.close('of this path', curve(times[i]), math.exp(-expected[i])))
    h.forall('accrual', n, lambda i: h.close('of this path', accruals(times[i]), math.exp(expected[i])))


@goal(n=30, uses=USES)
def no_path(h):
    model, states, rate = some_model(h)
    times = some_times(h, model)

    def refused(when):
        h.raises(when + ': integral', ValueError, lambda: model.generate_integrated_path(times))
        h.raises(when + ': default times', ValueError, lambda: model.generate_integrated_path())
        h.raises(when + ': discount curve', ValueError, lambda: model.create_discount_curve(times))
        h.raises(when + ': accrual curve', ValueError, lambda: model.accrual_curve(times))
        h.raises(when + ': rate', ValueError, lambda: model(times[0]))
    refused('before a path')
    model.generate_path(0.0, set_path=False)
    refused('without a stored path')
    model.generate_path(0.0)
    model.create_discount_curve(times)
    other = relativedelta(months=h.int('other', 1, 100))
    model.set_dt(other)
    h.eq('step', model.dt, other)
    h.eq('step of the states', states.dt, other)
    h.check('no integral', model.integrated_path is None)
    h.check('no curve', model.discount_curve is None)
    refused('after another step')


@goal(cases=[1, 2], n=25, timeout_s=100, uses=('accruals', 'stepped timestamps'))
def rate_path(h):
    """the stored path is the transformation of the states' path, column by column"""
    d = h.case
    start, end = span(h)
    bm = BrownianMotion(start, end, d)
    a, b = [h.real('a' + str(r)) for r in range(d)], [h.real('b' + str(r)) for r in range(d)]
    pairs = {}
    for r in range(d):
        pairs['c' + str(r)] = DriftDiffusionPair(drift=lambda t, x, r=r: a[r],
                                                 diffusion=lambda t, x, r=r: np.array([b[r] if c == r else 0.0 for c in range(d)]))
    states = DiffusionProcess(pairs, bm, relativedelta(months=h.int('step', 1, 100)))
    rate = rate_of(h, d)
    model = ShortRateModel(rate, states)
    first = np.array([h.real('x' + str(r)) for r in range(d)])
    seed = h.int('seed', 0, 2 ** 32 - 1)
    keep = h.bool('keep')
    path = model.generate_path(first, keep, seed) if h.bool('positional') else model.generate_path(first, set_path=keep, seed=seed)
    expected = DiffusionProcess(pairs, bm, states.dt).generate_path(first, seed=seed)
    n = expected.shape[1]
    h.eq('one rate per time', len(path), n)
    h.forall('rate', n, lambda i: h.close('of the states', path[i], rate([expected[r, i] for r in range(d)])))
    if keep:
        h.forall('kept', n, lambda i: h.close('stored', model.path[i], path[i]))
        h.close('at the start', model(start), path[0])
        h.close('at the end', model(end), path[n - 1])
    else:
        h.check('not stored', model.path is None)


@goal(symbolic=False, n=40)
def with_a_real_process(h):
    """integral and curves over a simulated diffusion, through regenerations and changes of step"""
    start, end = span(h)
    bm = BrownianMotion(start, end)
    a, b = h.real('a', -3, 3), h.real('b', 0, 2)
    process = DiffusionProcess({'only': DriftDiffusionPair(drift=lambda t, x: a * (0.02 - x), diffusion=lambda t, x: np.array([b]))},
                               bm, timedelta(days=h.int('step', 1, 300), hours=5))
    model = ShortRateModel(lambda x: float(x[0]), process)
    for k in range(4):
        seed = h.int('seed' + str(k), 0, 10 ** 6)
        what = h.choice('what' + str(k), ['path', 'step', 'unstored', 'times'])
        if what == 'step':
            model.set_dt(timedelta(days=h.int('step' + str(k), 1, 300), hours=1))
        if what in ('path', 'step') or model.path is None:
            model.generate_path(np.array([h.real('x' + str(k), -1, 1)]), seed=seed)
        elif what == 'unstored':
            model.generate_path(np.array([0.5]), set_path=False, seed=seed)
        times = some_times(h, model, 'times' + str(k))
        path = model.generate_integrated_path(times)
        integrates(h, path, times, lambda t: process(t)[0], D.ACTUAL_OVER_ACTUAL)
        discount, accruals = model.create_discount_curve(times), model.accrual_curve(times)
        for t, v in zip(times, path):
            h.close('discount', discount(t), math.exp(-v))
            h.close('accrual', accruals(t), math.exp(v))


@goal(cases=ACTUAL, n=25, uses=USES)
def one_factor_vasicek(h):
    """the one-factor model's rate is its only state"""
    start, end = span(h)
    bm = BrownianMotion(start, end, day_count_convention=h.case)
    dt = relativedelta(months=1)
    model = VasicekModel(h.real('mean', -0.1, 0.2), 0.5, 0.25, bm, dt)
    rate = h.fn('rate', ('datetime',))
    model.state_variables_diffusion_process = States(h, bm, dt, [[rate]])
    times = some_times(h, model)
    model.generate_path(0.0)
    path = model.generate_integrated_path(times)
    integrates(h, path, times, rate, h.case)
    discount, accruals = model.create_discount_curve(times), model.accrual_curve(times)
    h.forall('at', len(times), lambda i: h.close('discount factor', discount(times[i]), math.exp(-path[i])))
    h.forall('at', len(times), lambda i: h.close('accrual', accruals(times[i]), math.exp(path[i])))


@goal(symbolic=False, cases=['one', 'two'], n=30)
def with_a_vasicek_model(h):
    """on the models' own paths"""
    start, end = span(h)
    dt = relativedelta(months=h.int('step', 1, 30))
    if h.case == 'one':
        model = VasicekModel(h.real('mean', -0.1, 0.2), h.real('speed', 0.05, 2), h.real('vol', 0, 0.3), BrownianMotion(start, end), dt)
        first, rate = np.array([h.real('x', -0.1, 0.1)]), lambda t: model.state_variables_diffusion_process(t)[0]
    else:
        model = DoublyMeanRevertingVasicek(h.real('fast', 0.3, 3), h.real('vol', 0.001, 0.3), h.real('mean', -0.1, 0.2),
                                           h.real('slow', 0.01, 0.25), h.real('level_vol', 0.001, 0.3), h.real('corr', -0.9, 0.9), start, end, dt)
        first, rate = np.array([h.real('x', -0.1, 0.1), h.real('y', -0.1, 0.1)]), lambda t: model.state_variables_diffusion_process(t)[1]
    dcc = model.day_count_convention
    for k in range(2):
        model.generate_path(first, seed=h.int('seed' + str(k), 0, 10 ** 6))
        times = some_times(h, model, 'times' + str(k))
        path = model.generate_integrated_path(times)
        integrates(h, path, times, rate, dcc)
        discount, accruals = model.create_discount_curve(times), model.accrual_curve(times)
        for t, v in zip(times, path):
            h.close('discount', discount(t), math.exp(-v))
            h.close('accrual', accruals(t), math.exp(v))
