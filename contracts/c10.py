"""C10: curves reproduce their knots, end behaviour and adjustments."""
from datetime import date, datetime, timedelta
from pyvc.harness import goal
from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair
from fixedIncome.src.curves.curve_enumerations import CurveIndex, EndBehavior, InterpolationMethod as M
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as D

accrual = DayCountCalculator.compute_accrual_length
BY_DATES = ('day counts of dates',)
CURVES = [(m, c) for m in (M.LINEAR, M.PREVIOUS) for c in D]
SPLINES = [(m, D.ACTUAL_OVER_ACTUAL) for m in (M.QUADRATIC_SPLINE, M.CUBIC_SPLINE)]
LEAST = {M.LINEAR: 1, M.PREVIOUS: 1, M.QUADRATIC_SPLINE: 3, M.CUBIC_SPLINE: 4}


def some_knots(h, name, method, convention, order='sorted'):
    """knots at distinct positions; 30/360 has none between a 30th and the day after it"""
    gap = 2 if convention == D.THIRTY_OVER_THREESIXTY else 1
    kw = {'sorted_strict': True} if order == 'sorted' else {'distinct': True}
    return h.seq(name, ('date', 'real'), min_len=LEAST[method], gap=gap, **kw)


def pairs(rows):
    return [KnotValuePair(d, v) for d, v in rows]


def reference(h, rows, convention):
    """no reference date, or one on or before the first knot"""
    if h.bool('own_reference'):
        return None
    ref = h.date('reference')
    first = rows[0][0]
    if not h.symbolic:
        first = min(d for d, _ in rows)
        ref = first - timedelta(days=abs((ref - first).days) % h.choice('before', [1, 2, 40, 3000]))
    h.assume(ref <= first)
    return ref


def some_adjustment(h):
    return h.fn('adjustment') if h.bool('adjusted') else None


def plus(adjustment, x):
    return adjustment(x) if adjustment is not None else 0


def a_segment(h, rows, name='segment'):
    """an index with a knot after it, and a date in that half-open interval"""
    n = len(rows)
    if h.symbolic:
        j = h.int(name, 0, None)
        h.assume(j + 1 < n)
        x = h.date('x')
    else:
        if n < 2:
            h.assume(False)
        j = h.int(name, 0, None) % (n - 1)
        x = rows[j][0] + timedelta(days=h.int('into', 0, 4000) % (rows[j + 1][0] - rows[j][0]).days)
    h.assume(rows[j][0] <= x)
    h.assume(x < rows[j + 1][0])
    return j, x


def a_knot(h, rows, name='knot'):
    n = len(rows)
    j = h.int(name, 0, None)
    if not h.symbolic:
        j = j % n
    h.assume(j < n)
    return j


def between(x, a, b, ref, convention):
    """the average of the two knots weighted by accrual on the curve's axis"""
    (d0, v0), (d1, v1) = a, b
    t, t0, t1 = [accrual(ref, d, convention) for d in (x, d0, d1)]
    return v0 * ((t1 - t) / (t1 - t0)) + v1 * ((t - t0) / (t1 - t0))


def value(method, x, a, b, ref, convention):
    if method == M.PREVIOUS:
        return a[1]
    if x == a[0]:
        return a[1]
    return between(x, a, b, ref, convention)


@goal(cases=CURVES + SPLINES, uses=BY_DATES, n=60)
def knots_are_reproduced(h):
    method, convention = h.case
    rows = some_knots(h, 'knots', method, convention)
    ref = reference(h, rows, convention)
    curve = Curve(pairs(rows), method, convention, reference_date=ref)
    adjustment = some_adjustment(h)
    j = a_knot(h, rows)
    h.eq('value', curve(rows[j][0], adjustment), rows[j][1] + plus(adjustment, rows[j][0]))
    h.eq('interpolate', curve.interpolate(rows[j][0]), rows[j][1])


@goal(cases=CURVES, uses=BY_DATES, n=60)
def between_the_knots(h):
    method, convention = h.case
    rows = some_knots(h, 'knots', method, convention)
    ref = reference(h, rows, convention)
    curve = Curve(pairs(rows), method, convention, reference_date=ref)
    adjustment = some_adjustment(h)
    j, x = a_segment(h, rows)
    origin = rows[0][0] if ref is None else ref
    if convention == D.THIRTY_OVER_THREESIXTY:      # the 30th and the 31st of a month are one position in this convention
        h.assume(accrual(origin, x, convention) < accrual(origin, rows[j + 1][0], convention))
    want = value(method, x, rows[j], rows[j + 1], origin, convention)
    h.eq('value', curve(x, adjustment), want + plus(adjustment, x))


@goal(cases=[(m, c) for m, c in CURVES if c in (D.ACTUAL_OVER_360, D.ACTUAL_OVER_ACTUAL)], uses=BY_DATES, n=80)
def knots_in_any_order(h):
    method, convention = h.case
    rows = some_knots(h, 'knots', method, convention, 'any')
    curve = Curve(pairs(rows), method, convention)
    order = sorted(rows, key=lambda r: r[0])
    j = a_knot(h, rows)
    h.eq('knot', curve(order[j][0]), order[j][1])
    h.eq('first', curve.reference_date, order[0][0])
    if not h.symbolic:
        for d, v in rows:
            h.eq('given knot', curve(d), v)
    j, x = a_segment(h, order)
    h.eq('between', curve(x), value(method, x, order[j], order[j + 1], order[0][0], convention))


@goal(cases=[(m, l, r) for m in (M.LINEAR, M.PREVIOUS) for l in EndBehavior for r in EndBehavior], uses=BY_DATES, n=80)
def beyond_the_ends(h):
    method, left, right = h.case
    convention = D.ACTUAL_OVER_365
    rows = some_knots(h, 'knots', method, convention)
    ref = reference(h, rows, convention)
    curve = Curve(pairs(rows), method, convention, ref, left, right)
    adjustment = some_adjustment(h)
    first, last = rows[0], rows[len(rows) - 1]
    x, y = h.date('before_the_first'), h.date('after_the_last')
    if not h.symbolic:
        x, y = first[0] - timedelta(days=1 + x.day), last[0] + timedelta(days=1 + y.day)
    h.assume(x < first[0])
    h.assume(last[0] < y)
    for name, at, side, end in (('left', x, left, first), ('right', y, right, last)):
        if side == EndBehavior.CONSTANT:
            h.eq(name, curve(at, adjustment), end[1] + plus(adjustment, at))
        else:
            h.raises(name, ValueError, lambda: curve(at, adjustment))


@goal(cases=[(m, c) for m, c in CURVES if c in (D.ACTUAL_OVER_360, D.ACTUAL_OVER_ACTUAL)], uses=BY_DATES, n=80)
def all_knots_replaced(h):
    method, convention = h.case
    rows = some_knots(h, 'knots', method, convention)
    new = some_knots(h, 'new', method, convention, 'any')
    order = sorted(new, key=lambda r: r[0])
    ref = h.date('reference')
    if not h.symbolic:
        ref = min(rows[0][0], order[0][0]) - timedelta(days=ref.day)
    h.assume(ref <= rows[0][0])
    h.assume(ref <= order[0][0])
    curve = Curve(pairs(rows), method, convention, ref, EndBehavior.CONSTANT, EndBehavior.CONSTANT)
    k = a_knot(h, rows, 'asked_before')
    curve(rows[k][0])
    curve.reset_interpolation_values(pairs(new))
    j = a_knot(h, new)
    h.eq('knot', curve(order[j][0]), order[j][1])
    j, x = a_segment(h, order)
    h.eq('between', curve(x), value(method, x, order[j], order[j + 1], ref, convention))
    z = h.date('beyond')
    h.assume(order[len(new) - 1][0] < z)
    h.eq('end', curve(z), order[len(new) - 1][1])


@goal(cases=[(m, c) for m, c in CURVES if c in (D.ACTUAL_OVER_360, D.ACTUAL_OVER_ACTUAL)], uses=BY_DATES, n=80)
def one_knot_replaced(h):
    """a knot replaced by one that stays between its neighbours"""
    method, convention = h.case
    rows = some_knots(h, 'knots', method, convention)
    n = len(rows)
    ref = reference(h, rows, convention)
    i = a_knot(h, rows, 'place')
    d, v = h.date('date'), h.real('value')
    if not h.symbolic:
        lo = rows[i - 1][0] if i > 0 else (ref or rows[0][0]) - timedelta(days=1)
        hi = rows[i + 1][0] if i + 1 < n else rows[i][0] + timedelta(days=900)
        d = lo + timedelta(days=1 + d.toordinal() % max(1, (hi - lo).days - 1))
    if ref is not None:
        h.assume(ref <= d)
    else:
        h.assume(rows[0][0] <= d)
    if i > 0:
        h.assume(rows[i - 1][0] < d)
    if i + 1 < n:
        h.assume(d < rows[i + 1][0])
    curve = Curve(pairs(rows), method, convention, ref)
    curve.reset_interpolation_value(KnotValuePair(d, v), i)
    h.eq('new knot', curve(d), v)
    j = a_knot(h, rows)
    if j != i:
        h.eq('other knot', curve(rows[j][0]), rows[j][1])


STAMPED = [(m, c) for m in (M.LINEAR, M.PREVIOUS) for c in D if c != D.THIRTY_OVER_THREESIXTY]


@goal(cases=STAMPED, symbolic=False, n=120)
def timestamps(h):
    """knots and queries with times of day"""
    method, convention = h.case
    rows = h.seq('knots', ('datetime', 'real'), min_len=1, distinct=True)
    ref = min(d for d, _ in rows) - timedelta(hours=h.int('hours', 0, 50)) if h.bool('reference') else None
    ends = [h.choice('left', list(EndBehavior)), h.choice('right', list(EndBehavior))]
    curve = Curve(pairs(rows), method, convention, ref, *ends)
    adjustment = h.fn('adjustment', args=('datetime',)) if h.bool('adjusted') else None
    order = sorted(rows, key=lambda r: r[0])
    ref = order[0][0] if ref is None else ref
    for d, v in rows:
        h.eq('knot', curve(d, adjustment), v + plus(adjustment, d))
    for a, b in zip(order, order[1:]):
        x = a[0] + (b[0] - a[0]) * (h.int('part', 0, 1000) / 1001)
        if accrual(ref, x, convention) < accrual(ref, b[0], convention):
            h.eq('between', curve(x, adjustment), value(method, x, a, b, ref, convention) + plus(adjustment, x))
    for side, end, x in ((ends[0], order[0], order[0][0] - timedelta(microseconds=1)),
                         (ends[1], order[-1], order[-1][0] + timedelta(microseconds=1))):
        if side == EndBehavior.CONSTANT:
            h.eq('end', curve(x, adjustment), end[1] + plus(adjustment, x))
        else:
            h.raises('end', ValueError, lambda: curve(x, adjustment))


@goal(n=60, uses=BY_DATES)
def discount_curves(h):
    """a discount curve is a curve with an index, pricing a cashflow is the cashflow's present value on it"""
    rows = some_knots(h, 'knots', M.LINEAR, D.ACTUAL_OVER_360)
    ref = reference(h, rows, D.ACTUAL_OVER_360)
    left, right = h.choice('left', list(EndBehavior)), h.choice('right', list(EndBehavior))
    curve = DiscountCurve(pairs(rows), M.LINEAR, CurveIndex.SOFR, D.ACTUAL_OVER_360, ref, left, right)
    h.eq('index', curve.index, CurveIndex.SOFR)
    h.eq('reference date', curve.reference_date, rows[0][0] if ref is None else ref)
    h.eq('ends', (curve.left_end_behavior, curve.right_end_behavior), (left, right))
    j = a_knot(h, rows)
    h.eq('value', curve(rows[j][0]), rows[j][1])
    worth = h.real('worth')
    asked = []

    def present_value(c):
        asked.append(c)
        return worth
    h.eq('present value', curve.present_value(h.opaque('asset', present_value=present_value)), worth)
    h.check('on this curve', len(asked) == 1 and asked[0] is curve)


@goal(symbolic=False, n=150)
def histories(h):
    """any sequence of replacements, evaluated in between"""
    convention = D.ACTUAL_OVER_365
    method = h.choice('method', [M.LINEAR, M.PREVIOUS])
    rows = h.seq('knots', ('date', 'real'), min_len=2, distinct=True)
    ref = min(d for d, _ in rows)
    given = pairs(rows)
    curve = Curve(given, method, convention, ref, EndBehavior.CONSTANT, EndBehavior.CONSTANT)
    rows = sorted(rows, key=lambda r: r[0])
    for step in range(6):
        what = h.choice('what', ['all', 'one', 'value'])
        if what == 'all':
            rows = [r for r in h.seq(f'knots{step}', ('date', 'real'), min_len=2, distinct=True) if r[0] >= ref] or rows
            given = pairs(rows)
            curve.reset_interpolation_values(given)
            rows = sorted(rows, key=lambda r: r[0])
        else:
            i = h.int('place', 0, 50) % len(rows)
            d = rows[i][0]
            if what == 'one':
                d = h.date('date')
                h.assume(d >= ref and d not in [r[0] for r in rows])
            rows[i] = (d, h.real('value'))
            curve.reset_interpolation_value(KnotValuePair(*rows[i]), i)
            rows.sort(key=lambda r: r[0])
        h.eq('knots', [tuple(kv) for kv in curve.interpolation_values], rows)
        for d, v in rows:
            h.eq('knot', curve(d), v)
        for a, b in zip(rows, rows[1:]):
            x = a[0] + (b[0] - a[0]) // 2
            h.eq('between', curve(x), value(method, x, a, b, ref, convention))
        h.eq('right', curve(rows[-1][0] + timedelta(days=3)), rows[-1][1])
