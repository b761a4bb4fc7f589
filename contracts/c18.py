"""C18: portfolios."""
from datetime import date, timedelta
from pyvc.harness import goal
from contracts.c13 import ACTUAL, rising, valid
from fixedIncome.src.curves.base_curve import DiscountCurve, KnotValuePair
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry


class Asset:
    """an asset worth `amount` times the curve's factor on its day"""
    def __init__(self, amount, day):
        self.amount, self.day = amount, day

    def present_value(self, curve):
        return self.amount * curve(self.day)

    def to_knot_value_pair(self):
        return KnotValuePair(self.day, self.amount)


class Curve(DiscountCurve):
    def __init__(self, f):
        self.f = f

    def __call__(self, x, adjustment=None):
        return self.f(x)


def positions(h, name):
    return [PortfolioEntry(q, Asset(a, d)) for q, a, d in h.seq(name, ('real', 'real', 'date'))]


def worth(entries, curve):
    total = 0
    for e in entries:
        total = total + e.quantity * (e.asset.amount * curve(e.asset.day))
    return total


@goal(n=150)
def value(h):
    entries, curve, cash = positions(h, 'positions'), Curve(h.fn('discount')), h.real('cash')
    p = Portfolio(entries, cash)
    h.eq('positions and cash', p.present_value(curve), worth(entries, curve) + cash)
    h.eq('again', p.present_value(curve), worth(entries, curve) + cash)
    other = Curve(h.fn('other'))
    h.eq('on another curve', p.present_value(other), worth(entries, other) + cash)
    p.cash_amount = h.real('more')
    h.eq('other cash', p.present_value(curve), worth(entries, curve) + p.cash_amount)
    h.eq('no cash', Portfolio(entries).present_value(curve), worth(entries, curve))


@goal(n=100)
def combined(h):
    a, b, curve = positions(h, 'first'), positions(h, 'second'), Curve(h.fn('discount'))
    x, y = h.real('cash'), h.real('other_cash')
    p, q = Portfolio(a, x), Portfolio(b, y)
    both = Portfolio(p.assets + q.assets, p.cash_amount + q.cash_amount)
    h.eq('sum of the parts', both.present_value(curve), p.present_value(curve) + q.present_value(curve))
    h.eq('the parts are as they were', (len(p.assets), len(q.assets)), (len(a), len(b)))


@goal(n=5)
def no_positions(h):
    x = h.real('cash')
    h.eq('cash', Portfolio([], x).present_value(Curve(h.fn('discount'))), x)
    h.eq('nothing', Portfolio([]).present_value(Curve(h.fn('discount'))), 0)


@goal(cases=['list', 'iterator', 'tuple'], n=100)
def iteration(h):
    entries = positions(h, 'positions')
    given = entries if h.case == 'list' else iter(entries) if h.case == 'iterator' else tuple(entries)
    p = Portfolio(given, h.real('cash'))
    for turn in ('first', 'second'):
        seen = [e for e in p]
        h.eq(turn + ': number', len(seen), len(entries))
        h.forall(turn + ': position', len(entries), lambda i: h.eq('entry', same(seen[i]), same(entries[i])))


def same(e):
    return (e.quantity, e.asset.amount, e.asset.day)


@goal(cases=[0, 1, 2, 3], bounded='portfolios of at most 3 positions', n=50)
def one_by_one(h):
    """next() goes through the positions, and starts again after the last"""
    entries = [PortfolioEntry(h.real(f'q{i}'), Asset(h.real(f'a{i}'), h.date(f'd{i}'))) for i in range(h.case)]
    p = Portfolio(entries)
    for turn in range(2):
        for e in entries:
            h.check('in order', next(p) is e)
        h.raises('the end', StopIteration, lambda: next(p))
        h.check('whole, meanwhile', [x is e for x, e in zip(p, entries)] == [True] * h.case)


@goal(n=60)
def held_twice(h):
    """the same position listed twice counts twice"""
    a, curve, x = positions(h, 'positions'), Curve(h.fn('discount')), h.real('cash')
    p = Portfolio(a + a, x)
    h.eq('value', p.present_value(curve), 2 * worth(a, curve) + x)
    h.eq('positions', len([e for e in p]), 2 * len(a))


@goal(cases=[1, 2, 3], bounded='portfolios of at most 3 positions', n=50)
def iterated_while_iterating(h):
    """every iteration starts at the first position, wherever another one is"""
    entries = [PortfolioEntry(h.real(f'q{i}'), Asset(h.real(f'a{i}'), h.date(f'd{i}'))) for i in range(h.case)]
    p = Portfolio(entries)
    place = h.choice('left at', list(range(h.case)))
    for e in p:
        if e is entries[place]:
            break
    pairs = [(a, b) for a in p for b in p]
    h.eq('number', len(pairs), h.case * h.case)
    for n, (a, b) in enumerate(pairs):
        h.check('pairs', a is entries[n // h.case] and b is entries[n % h.case])


@goal(cases=[(1,), (1, 1), (1, 2), (2, 1), (1, 2, 3), (3, 1, 2), (2, 1, 2), (1, 1, 2), (1, 1, 1)], uses=('day counts of dates',),
      bounded='portfolios of at most 3 positions, in the given orders of their dates', n=60)
def key_rates(h):
    """the i-th position is on the n_i-th date"""
    dcc = h.choice('convention', ACTUAL)
    days = rising(h, [f'd{i}' for i in range(max(h.case))])
    p = Portfolio([PortfolioEntry(h.real(f'q{n}'), Asset(h.real(f'a{n}'), days[i - 1])) for n, i in enumerate(h.case)])
    c = p.to_key_rate_collection(dcc)
    valid(h, 'key rates', c, days, [0.0001] * len(days), dcc)
    for k in c:
        h.check('convention', k.day_count_convention == dcc)
