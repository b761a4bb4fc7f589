"""C19: simulated paths."""
from datetime import datetime, timedelta
from dateutil.relativedelta import relativedelta
import numpy as np
from pyvc.harness import goal
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.geometric_brownian_motion import GeometricBrownianMotion

ACTUAL = [d for d in DayCountConvention if 'ACTUAL' in d.name]
accrual = DayCountCalculator.compute_accrual_length
STEPS = ['duration', 'hours', 'days', 'months']


def step(h, kind, name='step'):
    """a positive increment"""
    if kind == 'duration':
        return timedelta(seconds=h.int(name, 3600, 10 ** 8))
    if kind == 'hours':
        return relativedelta(hours=h.int(name, 1, 20000))
    if kind == 'days':
        return relativedelta(days=h.int(name, 1, 2000))
    return relativedelta(months=h.int(name, 1, 100))


def span(h):
    start, end = h.datetime('start'), h.datetime('end')
    h.assume(start < end)
    if not h.symbolic:
        days = 1 + (end - start).days % 700
        end = start + (end - start) / (1 + (end - start).days // days)
    return start, end


def some_motion(h, dimension, dcc=None, correlated=True):
    """a Brownian motion of one, two or three correlated components, its correlation's lower factor, and its increment"""
    start, end = span(h)
    if dimension == 1:
        corr, low = None, [[1]]
    elif dimension == 2 and correlated:
        a = h.real('a', -0.999, 0.999)
        b = h.real('b', 0.001, 10)
        corr, low = np.array([[1, a], [a, a * a + b * b]]), [[1], [a, b]]
    else:
        corr, low = None, [[1], [0, 1], [0, 0, 1]][:dimension]
    kw = {} if dcc is None else {'day_count_convention': dcc}
    return BrownianMotion(start, end, dimension, corr, **kw), low


def on_time(h, bm, path_grid, dt, dcc):
    grid = path_grid
    n = len(grid)
    h.eq('starts at the start', grid[0], bm.start_date_time)
    h.eq('ends at the end', grid[n - 1], bm.end_date_time)
    h.check('at least two times', n >= 2)
    h.forall('steps', n - 2, lambda i: h.eq('previous plus increment', grid[i + 1], grid[i] + dt))
    h.forall('order', n - 1, lambda i: h.check('later', grid[i] < grid[i + 1]))
    h.check('last step is no longer than the others', (grid[n - 1] <= grid[n - 2] + dt) | (n > 1_000_000))


@goal(cases=[(k, d) for k in STEPS for d in (None, DayCountConvention.ACTUAL_OVER_360)], n=80, timeout_s=100, uses=('accruals',))
def grid(h):
    kind, dcc = h.case
    bm, _ = some_motion(h, 1, dcc)
    dt = step(h, kind)
    inc, times = bm.generate_increments(dt, seed=h.int('seed', 0, 2 ** 32 - 1))
    on_time(h, bm, bm.datetimes, dt, dcc)
    g = bm.datetimes
    h.eq('one increment per step', (inc.shape[0], inc.shape[1]), (1, len(g) - 1))
    h.forall('accruals', len(g) - 1, lambda i: h.close('length of the step', times[i], accrual(
        g[i], g[i + 1], dcc or DayCountConvention.ACTUAL_OVER_ACTUAL)))
    h.forall('kept', len(g) - 1, lambda i: h.close('kept', bm.dt_increments[i], times[i]))


DIMS = [1, 2, 3]
SOME = [(k, d) for k in ('duration', 'months') for d in DIMS]


def small(h, bm, kind):
    """an increment that leaves a moderate number of steps in concrete runs"""
    dt = step(h, kind)
    if not h.symbolic and kind in ('duration', 'hours') and (bm.end_date_time - bm.start_date_time) / timedelta(hours=1) > 2000:
        dt = timedelta(days=3, seconds=11)
    return dt


@goal(cases=SOME, n=60, timeout_s=100, uses=('accruals', 'stepped timestamps'))
def shocks(h):
    """the standard normals drawn with the seed, scaled by the square root of the step and correlated"""
    kind, d = h.case
    bm, low = some_motion(h, d)
    dt = small(h, bm, kind)
    seed = h.int('seed', 0, 2 ** 32 - 1)
    inc, times = bm.generate_increments(dt, seed=seed)
    n = len(bm.datetimes) - 1
    np.random.seed(seed)
    z = np.random.standard_normal((d, n))
    root = np.sqrt(times)
    for r in range(d):
        h.forall('shock', n, lambda i: h.close('correlated and scaled', inc[r, i],
                                               sum([low[r][c] * z[c, i] * root[i] for c in range(len(low[r]))])))


@goal(cases=SOME, n=60, timeout_s=100, uses=('accruals', 'stepped timestamps'))
def brownian_path(h):
    kind, d = h.case
    bm, low = some_motion(h, d)
    dt = small(h, bm, kind)
    seed = h.int('seed', 0, 2 ** 32 - 1)
    keep = h.bool('keep')
    path = bm.generate_path(dt, set_path=keep, seed=seed) if h.bool('explicit') else bm.generate_path(dt, keep, seed)
    g = bm.datetimes
    n = len(g) - 1
    h.eq('one column per time', (path.shape[0], path.shape[1]), (d, n + 1))
    inc, times = bm.generate_increments(dt, seed=seed)
    h.eq('same grid', len(bm.datetimes), n + 1)
    for r in range(d):
        h.eq('starts at zero', path[r, 0], 0)
        h.forall('sum', n, lambda i: h.close('accumulates the shocks', path[r, i + 1], path[r, i] + inc[r, i]))
    if keep:
        for r in range(d):
            h.forall('kept', n + 1, lambda i: h.close('stored', bm.path[r, i], path[r, i]))
    else:
        h.check('not stored', bm.path is None)


@goal(cases=SOME, n=40, timeout_s=100, uses=('accruals', 'stepped timestamps'))
def equal_seeds(h):
    kind, d = h.case
    bm, low = some_motion(h, d)
    dt = small(h, bm, kind)
    seed = h.int('seed', 0, 2 ** 32 - 1)
    path = bm.generate_path(dt, seed=seed)
    other = BrownianMotion(bm.start_date_time, bm.end_date_time, d, bm.correlation_matrix)
    other.generate_path(relativedelta(months=5), seed=h.int('another_seed', 0, 2 ** 32 - 1))
    again = other.generate_path(dt, seed=seed)
    for r in range(d):
        h.forall('seed', len(bm.datetimes), lambda i: h.close('same path', path[r, i], again[r, i]))


def arguments(x, d):
    return [x[i] for i in range(d)]


def some_dynamics(h, d):
    """drift and diffusion of each component: arbitrary functions of the time and of all components"""
    drift = [h.fn('drift' + str(r), ('real',) * (d + 1)) for r in range(d)]
    diff = [[h.fn('diffusion' + str(r) + str(c), ('real',) * (d + 1)) for c in range(d)] for r in range(d)]
    pairs = {}
    for r in range(d):
        pairs['component ' + str(r)] = DriftDiffusionPair(
            drift=lambda t, x, r=r: drift[r](t, *arguments(x, d)),
            diffusion=lambda t, x, r=r: np.array([f(t, *arguments(x, d)) for f in diff[r]]))
    return drift, diff, pairs


def elapsed(times, n):
    return sum([times[i] for i in range(n)])


@goal(cases=[('duration', 1), ('months', 1), ('duration', 2), ('months', 2)], n=50, timeout_s=100, uses=('accruals', 'stepped timestamps'))
def diffusion_path(h):
    kind, d = h.case
    bm, low = some_motion(h, d, correlated=not h.symbolic)
    dt = small(h, bm, kind)
    drift, diff, pairs = some_dynamics(h, d)
    seed = h.int('seed', 0, 2 ** 32 - 1)
    first = [h.real('x' + str(r)) for r in range(d)]
    x = np.array(first)
    keep = h.bool('keep')
    process = DiffusionProcess(pairs, bm, dt)
    path = process.generate_path(x, set_path=keep, seed=seed)
    for r in range(d):
        h.eq("the caller's starting value", x[r], first[r])
    inc, times = bm.generate_increments(dt, seed=seed)
    n = len(bm.datetimes) - 1
    h.eq('one column per time', (path.shape[0], path.shape[1]), (d, n + 1))
    clock = np.concatenate(([0.0], np.cumsum(times))) if not h.symbolic else Clock(times)
    for r in range(d):
        h.eq('starts at the given value', path[r, 0], first[r])
        h.forall('scheme', n, lambda i: h.close('value, drift and shock', path[r, i + 1], path[r, i] +
            drift[r](clock[i], *arguments(path[:, i], d)) * times[i] +
            sum([diff[r][c](clock[i], *arguments(path[:, i], d)) * inc[c, i] for c in range(d)])))
    if keep:
        for r in range(d):
            h.forall('kept', n + 1, lambda i: h.close('stored', process.path[r, i], path[r, i]))
    else:
        h.check('not stored', process.path is None)


class Clock:
    """the sum of the first i lengths"""
    def __init__(self, times):
        self.times = times

    def __getitem__(self, i):
        return np.sum(self.times[:i])


@goal(cases=[('duration', 1), ('months', 1), ('duration', 2), ('months', 2)], n=50, timeout_s=100, uses=('accruals', 'stepped timestamps'))
def geometric_path(h):
    kind, d = h.case
    start, end = span(h)
    mu, sigma = h.real('drift'), h.real('volatility')
    a, b = (0.5, 1.0) if d == 1 or h.symbolic else (h.real('a', -0.999, 0.999), h.real('b', 0.001, 10))
    corr = None if d == 1 or h.symbolic and kind == 'duration' else np.array([[1, a], [a, a * a + b * b]])
    dt = step(h, kind)
    if not h.symbolic and kind == 'duration':
        dt = timedelta(days=3, seconds=11)
    process = GeometricBrownianMotion(mu, sigma, start, end, d, corr, dt)
    first = [h.real('x' + str(r)) for r in range(d)]
    x = np.array(first)
    seed = h.int('seed', 0, 2 ** 32 - 1)
    keep = h.bool('keep')
    path = process.generate_path(x, set_path=keep, seed=seed)
    for r in range(d):
        h.eq("the caller's starting value", x[r], first[r])
    motion = BrownianMotion(start, end, d, corr)
    inc, times = motion.generate_increments(dt, seed=seed)
    n = len(motion.datetimes) - 1
    h.eq('one column per time', (path.shape[0], path.shape[1]), (d, n + 1))
    for r in range(d):
        h.eq('starts at the given value', path[r, 0], first[r])
        h.forall('scheme', n, lambda i: h.close('value, drift and shock', path[r, i + 1],
                                                path[r, i] + mu * path[r, i] * times[i] + sigma * path[r, i] * inc[r, i]))
    if keep:
        for r in range(d):
            h.forall('kept', n + 1, lambda i: h.close('stored', process.path[r, i], path[r, i]))
    else:
        h.check('not stored', process.path is None)


def moment(h, grid, name='moment'):
    """an index and a time on or after its grid time, up to the next grid time"""
    i = h.int(name + '_index', 0, 10 ** 6)
    if h.symbolic:
        t = h.datetime(name)
        h.assume(i + 1 < len(grid))
        h.assume(grid[i] <= t)
        h.assume(t <= grid[i + 1])
    else:
        i = i % (len(grid) - 1)
        t = grid[i] + (grid[i + 1] - grid[i]) * h.choice(name + '_part', [0.0, 1.0, 0.25, 0.5, 0.999])
    return i, t


def between(h, grid, path, i, t, r, dcc):
    """the linear interpolation of row r at t between grid times i and i + 1"""
    before, after = accrual(grid[i], t, dcc), accrual(t, grid[i + 1], dcc)
    h.assume(before + after > 0)
    return path[r, i] + (path[r, i + 1] - path[r, i]) * before / (before + after)


EVENTS = ['none', 'increments', 'unstored', 'regenerated']


@goal(cases=[(k, d, e) for k in ('duration', 'months') for d in (1, 2) for e in EVENTS if d == 1 or k == 'months'], n=25, timeout_s=100,
      uses=('accruals', 'stepped timestamps'))
def evaluation(h):
    """a stored path is read on its own grid, whatever is generated without storing"""
    kind, d, event = h.case
    bm, low = some_motion(h, d)
    dt = small(h, bm, kind)
    seed = h.int('seed', 0, 2 ** 32 - 1)
    path = bm.generate_path(dt, seed=seed)
    grid = [g for g in bm.datetimes]
    other = relativedelta(months=h.int('other', 1, 50))
    if event == 'increments':
        bm.generate_increments(other, seed=5)
    elif event == 'unstored':
        bm.generate_path(other, set_path=False, seed=6)
    elif event == 'regenerated':
        bm.generate_path(other, seed=7)
        path = bm.generate_path(dt, seed=seed)
    i, t = moment(h, grid)
    value = bm(t)
    for r in range(d):
        h.close('between its neighbours', value[r], between(h, grid, path, i, t, r, DayCountConvention.ACTUAL_OVER_ACTUAL))
    at = bm(grid[i])
    for r in range(d):
        h.close('on the grid', at[r], path[r, i])
    last = bm(bm.end_date_time)
    for r in range(d):
        h.close('at the end', last[r], path[r, len(grid) - 1])


@goal(cases=[('duration', 1), ('months', 1)], n=25, timeout_s=100, uses=('accruals', 'stepped timestamps'))
def outside(h):
    kind, d = h.case
    bm, low = some_motion(h, d)
    dt = small(h, bm, kind)
    t = h.datetime('moment')
    h.raises('no path yet', ValueError, lambda: bm(t))
    bm.generate_path(dt, set_path=False, seed=3)
    h.raises('no stored path', ValueError, lambda: bm(t))
    bm.generate_path(dt, seed=3)
    h.assume((t < bm.start_date_time) | (t > bm.end_date_time))
    h.raises('outside the range', ValueError, lambda: bm(t))


@goal(cases=EVENTS + ['step'], n=25, timeout_s=100,
      uses=('accruals', 'stepped timestamps'))
def process_evaluation(h):
    """a stored path of a process is read on its own grid, and a new step discards it"""
    event = h.case
    bm, low = some_motion(h, 1)
    dt = small(h, bm, 'months')
    a, b = h.real('a'), h.real('b')
    process = DiffusionProcess({'only': DriftDiffusionPair(drift=lambda t, x: a, diffusion=lambda t, x: np.array([b]))}, bm, dt)
    first = np.array([h.real('x')])
    seed = h.int('seed', 0, 2 ** 32 - 1)
    h.raises('no path yet', ValueError, lambda: process(bm.start_date_time))
    path = process.generate_path(first, seed=seed)
    grid = [g for g in bm.datetimes]
    if event == 'increments':
        bm.generate_increments(relativedelta(months=h.int('other', 1, 50)), seed=5)
    elif event == 'unstored':
        process.generate_path(np.array([h.real('y')]), set_path=False, seed=6)
    elif event == 'regenerated':
        process.generate_path(np.array([h.real('y')]), seed=7)
        path = process.generate_path(first, seed=seed)
    elif event == 'step':
        other = relativedelta(months=h.int('other', 1, 50))
        process.set_dt(other)
        h.eq('new step', process.dt, other)
        h.raises('the path of the old step', ValueError, lambda: process(bm.start_date_time))
        path = process.generate_path(first, seed=seed)
        grid = [g for g in bm.datetimes]
        again = DiffusionProcess(process.drift_diffusion_collection, bm, other)
        expected = again.generate_path(first, seed=seed)
        h.eq('same length', path.shape[1], expected.shape[1])
        h.forall('as a process with that step', path.shape[1], lambda i: h.close('same value', path[0, i], expected[0, i]))
        return
    i, t = moment(h, grid)
    h.close('between its neighbours', process(t)[0], between(h, grid, path, i, t, 0, DayCountConvention.ACTUAL_OVER_ACTUAL))
    h.close('on the grid', process(grid[i])[0], path[0, i])
    h.close('at the end', process(bm.end_date_time)[0], path[0, len(grid) - 1])
    outside = h.datetime('outside')
    h.assume((outside < bm.start_date_time) | (outside > bm.end_date_time))
    h.raises('outside the range', ValueError, lambda: process(outside))


@goal(cases=[('diffusion', 1), ('diffusion', 2), ('geometric', 1), ('geometric', 2)], n=20, symbolic=False)
def whole_number_starts(h):
    """a path that starts at whole numbers follows the same scheme as one that starts at the same reals"""
    which, d = h.case
    bm, low = some_motion(h, d)
    dt = relativedelta(months=h.int('step', 1, 30))
    seed = h.int('seed', 0, 2 ** 32 - 1)
    whole = np.array([h.int('x' + str(r), -9, 9) for r in range(d)])
    if which == 'diffusion':
        pairs = {}
        for r in range(d):
            pairs['c' + str(r)] = DriftDiffusionPair(drift=lambda t, x, r=r: 0.3 * (r - x[r]) + t,
                                                     diffusion=lambda t, x, r=r: np.array([0.1 + r + c for c in range(d)]))
        process = DiffusionProcess(pairs, bm, dt)
    else:
        process = GeometricBrownianMotion(0.3, 0.2, bm.start_date_time, bm.end_date_time, d, bm.correlation_matrix, dt)
    a = process.generate_path(whole, seed=seed)
    b = process.generate_path(whole.astype(float), seed=seed)
    for r in range(d):
        h.forall('same', a.shape[1], lambda i: h.close('same value', a[r, i], b[r, i]))
    if d == 1:
        x = h.int('single', -9, 9)
        for one in (x, float(x)):
            if which == 'geometric':
                c = process.generate_path(one, seed=seed)
                e = process.generate_path(np.array([float(x)]), seed=seed)
                h.forall('number', a.shape[1], lambda i: h.close('a number is a one-component start', c[0, i], e[0, i]))
