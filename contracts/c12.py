"""C12: a key-rate bump is a hat function of its three dates."""
from datetime import date, timedelta
from pyvc.harness import goal
from fixedIncome.src.risk.key_rate import KeyRate
from fixedIncome.src.risk.risk_metrics import ONE_BASIS_POINT
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as D

accrual = DayCountCalculator.compute_accrual_length
SIDES = ['alone', 'prior', 'next', 'both']


def three_dates(h, side=None):
    """the dates of a key rate and its neighbours, a missing neighbour being None"""
    side = side or h.case
    mid = h.date('mid')
    prior = h.date('prior') if side in ('prior', 'both') else None
    following = h.date('following') if side in ('next', 'both') else None
    if not h.symbolic:
        if h.bool('close'):     # short intervals around a month end, where conventions differ most
            mid = h.choice('month_end', [date(2023, 1, 31), date(2024, 2, 29), date(2023, 2, 28), date(2023, 12, 31), date(2024, 1, 1),
                                         date(2023, 3, 1), date(2023, 7, 30), mid])
        if prior is not None:
            prior = mid - timedelta(days=1 + abs((mid - prior).days) % h.choice('back', [1, 3, 40, 800]))
        if following is not None:
            following = mid + timedelta(days=1 + abs((mid - following).days) % h.choice('ahead', [1, 3, 40, 800]))
    if prior is not None:
        h.assume(prior < mid)
    if following is not None:
        h.assume(mid < following)
    return prior, mid, following


def a_date_near(h, name, prior, mid, following):
    x = h.date(name)
    if not h.symbolic:
        ends = [d for d in (prior, mid, following) if d is not None]
        pick = h.choice(name + '_at', ends + ['inside', 'far'])
        if pick == 'inside':
            lo, hi = min(ends), max(ends)
            x = lo + timedelta(days=(x - date(1, 1, 1)).days % ((hi - lo).days + 3) - 1)
        elif pick != 'far':
            x = pick + timedelta(days=h.int(name + '_off', -1, 1))
    return x


def hat(x, prior, mid, following, bump, dcc):
    if x == mid:
        return bump
    if x < mid:
        if prior is None:
            return bump
        if x <= prior:
            return 0
        return bump * accrual(prior, x, dcc) / accrual(prior, mid, dcc)
    if following is None:
        return bump
    if x >= following:
        return 0
    return bump * accrual(x, following, dcc) / accrual(mid, following, dcc)


def usable(h, prior, mid, following, dcc):
    """30/360 counts no time at all from the 30th to the 31st; nothing lies strictly between those"""
    if h.symbolic and dcc == D.THIRTY_OVER_THREESIXTY:
        if prior is not None:
            h.assume((accrual(prior, mid, dcc) > 0) | (mid == prior + timedelta(days=1)))
        if following is not None:
            h.assume((accrual(mid, following, dcc) > 0) | (following == mid + timedelta(days=1)))


def spec(h, side):
    dcc = h.choice('convention', list(D))
    prior, mid, following = three_dates(h, side)
    usable(h, prior, mid, following, dcc)
    x = a_date_near(h, 'x', prior, mid, following)
    return dcc, prior, mid, following, x


@goal(cases=SIDES, uses=('accruals',), n=150)
def one_basis_point_by_default(h):
    dcc, prior, mid, following, x = spec(h, h.case)
    k = KeyRate(dcc, mid, prior, following)
    h.eq('dates', (k.prior_date, k.key_rate_date, k.next_date), (prior, mid, following))
    h.eq('hat', k(x), hat(x, prior, mid, following, ONE_BASIS_POINT, dcc))
    h.eq('one basis point', ONE_BASIS_POINT, 0.0001)


@goal(cases=SIDES, uses=('accruals',), n=150)
def hat_of_any_bump(h):
    dcc, prior, mid, following, x = spec(h, h.case)
    k = KeyRate(dcc, mid, prior, following)
    b, c = h.real('b'), h.real('c')
    k.set_bump_val(b)
    h.eq('bump', k.bump_val, b)
    h.eq('hat', k(x), hat(x, prior, mid, following, b, dcc))
    h.eq('own date', k(mid), b)
    if prior is not None:
        h.eq('prior date', k(prior), 0)
    if following is not None:
        h.eq('next date', k(following), 0)
    k.set_bump_val(c)
    h.eq('bumped again', k(x), hat(x, prior, mid, following, c, dcc))


@goal(cases=[(a, b) for a in SIDES for b in SIDES], uses=('accruals',), n=60)
def neighbours_changed(h):
    """any two settings of the neighbours after one another, with evaluations in between"""
    before, after = h.case
    dcc, prior, mid, following, x = spec(h, before)
    k = KeyRate(dcc, mid, prior, following)
    b = h.real('b')
    k.set_bump_val(b)
    h.eq('before', k(x), hat(x, prior, mid, following, b, dcc))
    new_prior = h.date('new_prior') if after in ('prior', 'both') else None
    new_following = h.date('new_following') if after in ('next', 'both') else None
    if new_prior is not None:
        if not h.symbolic:
            new_prior = mid - timedelta(days=1 + abs((mid - new_prior).days) % 50)
        h.assume(new_prior < mid)
    if new_following is not None:
        if not h.symbolic:
            new_following = mid + timedelta(days=1 + abs((mid - new_following).days) % 50)
        h.assume(mid < new_following)
    usable(h, new_prior, mid, new_following, dcc)
    k.set_prior_date(new_prior)
    h.eq('new prior', k(x), hat(x, new_prior, mid, following, b, dcc))
    k.set_next_date(new_following)
    h.eq('dates', (k.prior_date, k.key_rate_date, k.next_date), (new_prior, mid, new_following))
    h.eq('new next', k(x), hat(x, new_prior, mid, new_following, b, dcc))
    h.eq('bump kept', k.bump_val, b)


@goal(cases=SIDES, uses=('accruals',), n=100)
def wrong_neighbours_rejected(h):
    dcc, prior, mid, following, x = spec(h, h.case)
    k = KeyRate(dcc, mid, prior, following)
    b = h.real('b')
    k.set_bump_val(b)
    bad = h.date('bad')
    if not h.symbolic:
        bad = mid + timedelta(days=h.int('by', -2, 2))
    if bad >= mid:
        h.raises('prior', ValueError, lambda: k.set_prior_date(bad))
        h.raises('built with the prior', ValueError, lambda: KeyRate(dcc, mid, bad, following))
    if bad <= mid:
        h.raises('next', ValueError, lambda: k.set_next_date(bad))
        h.raises('built with the next', ValueError, lambda: KeyRate(dcc, mid, prior, bad))
    h.eq('dates', (k.prior_date, k.key_rate_date, k.next_date), (prior, mid, following))
    h.eq('hat', k(x), hat(x, prior, mid, following, b, dcc))


def bounds(h):
    """with the real accruals: between zero and the bump, and rising towards the key rate's date"""
    dcc = h.case
    prior, mid, following = three_dates(h, 'both')
    x, y = a_date_near(h, 'x', prior, mid, following), a_date_near(h, 'y', prior, mid, following)
    k = KeyRate(dcc, mid, prior, following)
    k.set_bump_val(1.0)
    eps = 0 if h.symbolic else 1e-12
    u = k(x)
    h.check('at least zero', u >= -eps)
    h.check('at most the bump', u <= 1 + eps)
    if dcc != D.THIRTY_OVER_THREESIXTY:
        h.check('rising', ((x <= y) & (y <= mid)) <= (u <= k(y) + eps) if not h.symbolic else ~((x <= y) & (y <= mid)) | (u <= k(y)))


@goal(cases=[D.ACTUAL_OVER_360, D.ACTUAL_OVER_365, D.ACTUAL_OVER_365_POINT_25, D.ACTUAL_OVER_ACTUAL], uses=('day counts of dates',), n=60)
def hat_between_zero_and_bump(h):
    bounds(h)


@goal(cases=[D.THIRTY_OVER_THREESIXTY], n=60)
def hat_between_zero_and_bump_30_360(h):
    bounds(h)
