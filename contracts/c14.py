"""C14: risk ladders report the price change per basis point of every key rate."""
import math
from datetime import date, timedelta
import numpy as np
from pyvc.harness import goal
from fixedIncome.src.curves.curve_enumerations import CurveIndex, InterpolationMethod as M, InterpolationSpace as Space
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.risk.risk_metrics import Risk, RiskLadder
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as D
from .c11 import Asset, yield_curve, short_knots, a_reference, factor
from .c12 import hat
from .c13 import rising

US = CurveIndex.US_TREASURY
HALF = 0.0001 / 2


def a_curve(h, convention=D.ACTUAL_OVER_360):
    rows = short_knots(h, 'knots', M.LINEAR, convention)
    ref = a_reference(h, rows)
    return rows, ref, yield_curve(h, rows, M.LINEAR, convention, Space.CONTINUOUSLY_COMPOUNDED_YIELD, ref)


def an_asset(h, rows, ref):
    """two payments up to the last knot"""
    last = rows[len(rows) - 1][0]
    flows = []
    for k in range(2):
        amount, day = h.real(f'amount{k}'), h.date(f'day{k}')
        if not h.symbolic:
            day = ref + timedelta(days=day.toordinal() % ((last - ref).days + 1))
        h.assume((ref <= day) & (day <= last))
        flows.append((amount, day))
    return Asset(flows)


def some_key_rate(h, dcc, near=None):
    """any key rate, with any bump"""
    before, d, after = rising(h, ['prior', 'date', 'next'])
    if not h.symbolic and near is not None:
        before, d, after = (near + (x - d) for x in (before, d, after)) if abs((before - d).days) < 200 else (
            near - timedelta(days=100), near, near + timedelta(days=90))
    k = KeyRate(dcc, d, before if h.bool('has_prior') else None, after if h.bool('has_next') else None)
    if h.bool('own_bump'):
        k.set_bump_val(h.real('bump'))
    return k


def bumped(h, curve, asset, k, bump, ref, convention):
    """the asset's value with the yields moved by the key rate's hat"""
    total = 0
    twin = KeyRate(k.day_count_convention, k.key_rate_date, k.prior_date, k.next_date)
    twin.set_bump_val(bump)
    for amount, day in asset.flows:
        moved = twin(day) if h.symbolic else hat(day, k.prior_date, k.key_rate_date, k.next_date, bump, k.day_count_convention)
        y = curve(day) + moved
        total = total + amount * factor(h, y, ref, day, convention)
    return total


@goal(cases=[D.ACTUAL_OVER_360, D.ACTUAL_OVER_ACTUAL], uses=('rising accruals', 'curve values', 'key rate values', 'values of payments'), n=12, tol=1e-6, timeout_s=150)
def one_key_rate(h):
    """on the curve itself: both bumps, the difference, the date and the index, and the key rate left as it was"""
    convention = h.case
    rows, ref, curve = a_curve(h, convention)
    asset = an_asset(h, rows, ref)
    k = some_key_rate(h, D.ACTUAL_OVER_360, asset.flows[0][1])
    was = (k.key_rate_date, k.prior_date, k.next_date, k.bump_val, k.day_count_convention)
    up, down = [bumped(h, curve, asset, k, b, ref, convention) for b in (HALF, -HALF)]
    risk = curve.calculate_pv01_risk(asset, k)
    h.eq('pv01', risk.pv01, up - down)
    h.eq('date', risk.key_rate_date, k.key_rate_date)
    h.eq('index', risk.index, US)
    for name, a, b in zip(('date', 'prior', 'next', 'bump', 'convention'),
                          (k.key_rate_date, k.prior_date, k.next_date, k.bump_val, k.day_count_convention), was):
        h.eq(f'{name} left alone', a, b)
    h.eq('the bump is in the function', k(k.key_rate_date), was[3])


@goal(uses=('bumped values',), symbolic=True, n=12, tol=1e-6)
def sensitivity(h):
    """the derivative is the difference of the values with the two bumps over one basis point, and repeats"""
    rows, ref, curve = a_curve(h)
    asset = an_asset(h, rows, ref)
    k = some_key_rate(h, D.ACTUAL_OVER_360, asset.flows[0][1])
    bump = k.bump_val
    first = curve.calculate_key_rate_deriv(asset, k)
    h.eq('bump left alone', k.bump_val, bump)
    k.set_bump_val(HALF)
    up = curve.present_value(asset, k)
    k.set_bump_val(-HALF)
    down = curve.present_value(asset, k)
    h.eq('derivative', first * 0.0001, up - down)
    h.eq('again', curve.calculate_key_rate_deriv(asset, k), first)
    h.eq('the pv01', curve.calculate_pv01_risk(asset, k).pv01, up - down)


class Given:
    """anything that iterates over key rates"""
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def made(h, dcc, row):
    d, bump = row
    k = KeyRate(dcc, d, d - timedelta(days=30), d + timedelta(days=40))
    k.set_bump_val(bump)
    return k


@goal(uses=('bumped values', 'pv01 risks'), n=6, tol=1e-6)
def any_number_of_key_rates(h):
    """one risk per key rate, in order"""
    dcc = D.ACTUAL_OVER_360
    rows, ref, curve = a_curve(h)
    asset = an_asset(h, rows, ref)
    points = h.seq('key_rates', ('date', 'real'), min_len=0)
    if not h.symbolic:
        points = points[:4]
    rates = [made(h, dcc, row) for row in points]
    ladder = curve.calculate_pv01_risk_ladder(asset, Given(rates))
    h.eq('size', len(ladder), len(points))
    dates, amounts, indices = ladder.get_key_rate_dates(), ladder.get_pv01s(), ladder.get_indices()

    def each(i):
        alone = curve.calculate_pv01_risk(asset, rates[i])
        h.eq('date', dates[i], points[i][0])
        h.eq('amount', amounts[i], alone.pv01)
        h.eq('index', indices[i], US)
        h.eq('bump', rates[i].bump_val, points[i][1])
    h.forall('rungs', len(points), each)


@goal(cases=[1, 2, 3], uses=('bumped values',), n=8, tol=1e-6, bounded='at most three key rates')
def collections(h):
    """on linked collections: differences of the bumped values, everything left as it was, the same ladder again"""
    rows, ref, curve = a_curve(h)
    asset = an_asset(h, rows, ref)
    days = rising(h, [f'd{i}' for i in range(h.case)])
    if not h.symbolic:
        days = [ref + timedelta(days=20 + 90 * i) for i in range(h.case)]
    rates = KeyRateCollection([KeyRate(D.ACTUAL_OVER_360, d) for d in days])
    bumps = [h.real(f'bump{i}') for i in range(h.case)]
    for k, b in zip(rates, bumps):
        k.set_bump_val(b)
    first = curve.calculate_pv01_risk_ladder(asset, rates)
    again = curve.calculate_pv01_risk_ladder(asset, rates)
    h.eq('size', len(first), h.case)
    h.eq('dates', first.get_key_rate_dates(), days)
    h.eq('indices', again.get_indices(), [US] * h.case)
    for i, k in enumerate(rates):
        h.eq('bump left alone', k.bump_val, bumps[i])
        h.eq('prior left alone', k.prior_date, days[i - 1] if i else None)
        h.eq('next left alone', k.next_date, days[i + 1] if i + 1 < h.case else None)
        k.set_bump_val(HALF)
        up = curve.present_value(asset, k)
        k.set_bump_val(-HALF)
        down = curve.present_value(asset, k)
        k.set_bump_val(bumps[i])
        h.eq('amount', first.get_pv01s()[i], up - down)
        h.eq('again', again.get_pv01s()[i], up - down)


INDICES = [CurveIndex.US_TREASURY, CurveIndex.SOFR_1M] if hasattr(CurveIndex, 'SOFR_1M') else list(CurveIndex)[:2]


@goal(cases=['list', 'generator'], n=60)
def ladders(h):
    """a ladder holds exactly the risks it was built from, in order"""
    rows = h.seq('risks', ('date', 'real'), min_len=0)
    index = h.choice('index', INDICES)
    risks = [Risk(d, v, index) for d, v in rows]
    ladder = RiskLadder(risks if h.case == 'list' else (r for r in risks))
    h.eq('size', len(ladder), len(rows))
    for turn in ('first', 'second'):
        seen = list(ladder)
        h.eq(f'{turn} length', len(seen), len(rows))

        def each(i):
            h.eq(f'{turn} date', seen[i].key_rate_date, rows[i][0])
            h.eq(f'{turn} amount', seen[i].pv01, rows[i][1])
            h.eq(f'{turn} index', seen[i].index, index)
        h.forall('members', len(rows), each)
    dates, amounts, indices = ladder.get_key_rate_dates(), ladder.get_pv01s(), ladder.get_indices()

    def listed(i):
        h.eq('date', dates[i], rows[i][0])
        h.eq('amount', amounts[i], rows[i][1])
        h.eq('its index', indices[i], index)
        if not h.symbolic:
            h.check('member', risks[i] in ladder)
    h.forall('lists', len(rows), listed)


@goal(cases=[0, 1, 2], n=40, bounded="at most two risks")
def membership(h):
    """a risk is in the ladder when an equal one was given; stepping through returns them in order"""
    given = [Risk(h.date(f'd{i}'), h.real(f'v{i}'), h.choice(f'index{i}', INDICES)) for i in range(h.case)]
    ladder = RiskLadder(iter(given))
    other = Risk(h.date('d'), h.real('v'), h.choice('index', INDICES))
    want = False
    for r in given:
        h.check('in', r in ladder)
        if (r.key_rate_date == other.key_rate_date) & (r.pv01 == other.pv01) & (r.index == other.index):
            want = True
    h.eq('other', other in ladder, want)
    for turn in range(2):
        for r in given:
            h.check('next', next(ladder) is r)
        h.raises('exhausted', StopIteration, lambda: next(ladder))


@goal(symbolic=False, n=12, tol=1e-7)
def ladders_of_bonds(h):
    """key rates that add up to a parallel shift: the amounts add up to the parallel change, to first order"""
    rows, ref, curve = a_curve(h)
    asset = an_asset(h, rows, ref)
    n = h.choice('n', [1, 2, 5, 9])
    rates = KeyRateCollection([KeyRate(D.ACTUAL_OVER_360, ref + timedelta(days=25 * i)) for i in range(n)])
    ladder = curve.calculate_pv01_risk_ladder(asset, rates)
    for i, (k, risk) in enumerate(zip(rates, ladder)):
        up, down = [bumped(h, curve, asset, k, b, ref, D.ACTUAL_OVER_360) for b in (HALF, -HALF)]
        h.eq('amount', risk.pv01, up - down)
        h.eq('date', risk.key_rate_date, ref + timedelta(days=25 * i))
    parallel = sum(a * (math.exp(-(curve(d) + HALF) * (d - ref).days / 360) - math.exp(-(curve(d) - HALF) * (d - ref).days / 360))
                   for a, d in asset.flows)
    scale = sum(abs(a) for a, _ in asset.flows) + 1
    if scale < 1e4 and all(abs(curve(d)) < 1 for _, d in asset.flows):
        h.check('parallel', abs(sum(r.pv01 for r in ladder) - parallel) <= 1e-6 * scale)
