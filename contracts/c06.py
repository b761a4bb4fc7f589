"""C06: cashflows and collections of cashflows."""
from datetime import date, timedelta
from pyvc.harness import goal
from fixedIncome.src.assets.base_cashflow import Payment, Cashflow, CashflowCollection, CashflowKeys, ZeroCoupon
from fixedIncome.src.curves.base_curve import KnotValuePair


class Curve:
    """any discount function with a reference date"""
    def __init__(self, f, reference_date):
        self.f = f
        self.reference_date = reference_date

    def __call__(self, x):
        return self.f(x)


def some_curve(h):
    return Curve(h.fn('discount'), h.date('reference'))


def payments(h, **kw):
    return h.seq('payments', ('date', 'opt:real'), **kw)


def concrete_only(h):
    return not h.symbolic


def made(rows):
    return [Payment(d, a) for d, a in rows]


def same_payment(h, name, p, row):
    h.eq(name + ' date', p.payment_date, row[0])
    h.eq(name + ' amount', p.payment, row[1])


@goal(n=150)
def construction_sorts_stably(h):
    rows = payments(h)
    given = made(rows)
    cf = Cashflow(given)
    want = sorted(rows, key=lambda r: r[0])
    n = len(rows)
    h.eq('as many payments', len(cf), n)
    h.forall('payments', n, lambda i: same_payment(h, 'payment', cf[i], want[i]))
    h.forall('order', n - 1, lambda i: h.check('ordered', cf.schedule[i].payment_date <= cf.schedule[i + 1].payment_date))
    if not h.symbolic:
        h.check('the given payments', sorted(id(p) for p in cf) == sorted(id(p) for p in given))
        for x, y in zip(cf.schedule, cf.schedule[1:]):
            h.check('ties in the given order', x.payment_date < y.payment_date or given.index(x) <= given.index(y) or x == y)


@goal(n=150, timeout_s=100)
def added_payment(h):
    """extending an ordered cashflow by one payment"""
    rows = payments(h, sorted_weak=True)
    cf = Cashflow(made(rows))
    d = h.date('date')
    a = h.real('amount')
    if not h.symbolic and rows and h.bool('tie'):
        d = h.choice('tied', [r[0] for r in rows])
    n = len(rows)
    new = Payment(d, a)
    if h.symbolic:
        k = h.int('place', 0, None)
        h.assume(k <= n)
        if k < n:
            h.assume(rows[k][0] > d)
        if k > 0:
            h.assume(rows[k - 1][0] <= d)
    else:
        k = sum(1 for r in rows if r[0] <= d)
    cf.add_payment(new)
    h.eq('one payment more', len(cf.schedule), n + 1)
    same_payment(h, 'new', cf.schedule[k], (d, a))
    h.forall('before', k, lambda i: same_payment(h, 'earlier', cf.schedule[i], rows[i]))
    h.forall('after', n - k, lambda i: same_payment(h, 'later', cf.schedule[k + i + 1], rows[k + i]))


@goal(n=200)
def slices(h):
    rows = payments(h, sorted_weak=True)
    cf = Cashflow(made(rows))
    lo, hi = h.int('lo', 0, None), h.int('hi', 0, None)
    if not h.symbolic:
        lo, hi = lo % 12, hi % 12
    part = cf[lo:hi]
    want = rows[lo:hi]
    h.check('a cashflow', isinstance(part, Cashflow))
    h.eq('length', len(part), len(want))
    h.forall('payments', len(want), lambda i: same_payment(h, 'payment', part[i], want[i]))
    if not h.symbolic:
        same = [p for p in cf[::-1]]
        h.check('reversed slice is ordered', all(x.payment_date <= y.payment_date for x, y in zip(same, same[1:])))
        h.eq('strided', [(p.payment_date, p.payment) for p in cf[lo::2]], rows[lo::2])
        if rows:
            same_payment(h, 'last', cf[-1], rows[-1])


@goal(n=100)
def listings(h):
    rows = payments(h, sorted_weak=True)
    cf = Cashflow(made(rows))
    n = len(rows)
    amounts, dates = cf.get_payment_amounts(), cf.get_payment_dates()
    h.eq('amounts', len(amounts), n)
    h.eq('dates', len(dates), n)
    h.forall('entries', n, lambda i: (h.eq('amount', amounts[i], rows[i][1]), h.eq('date', dates[i], rows[i][0])))
    if not h.symbolic:
        h.eq('iteration', [(p.payment_date, p.payment) for p in cf], rows)
        s, f = cf.to_series(), cf.to_dataframe()
        h.eq('series index', list(s.index), [r[0] for r in rows])
        h.eq('frame dates', list(f['Payment Dates']), [r[0] for r in rows])
        for x, y, r in zip(list(s), list(f['Payments']), rows):
            h.check('missing amounts', (x is None or x != x) == (r[1] is None) == (y is None or y != y))
            if r[1] is not None:
                h.eq('series amount', x, r[1])
                h.eq('frame amount', y, r[1])


@goal(n=150)
def from_two_lists(h):
    dates = h.seq('dates', 'date')
    amounts = h.seq('amounts', 'opt:real')
    if len(dates) == len(amounts):
        cf = Cashflow.create_from_date_and_float_iterables(dates, amounts)
        want = sorted(zip(dates, amounts), key=lambda r: r[0])
        h.eq('length', len(cf), len(dates))
        h.forall('payments', len(dates), lambda i: same_payment(h, 'payment', cf[i], want[i]))
    else:
        h.raises('different lengths', ValueError, lambda: Cashflow.create_from_date_and_float_iterables(dates, amounts))


def value(curve, rows):
    total = 0
    for d, a in rows:
        if a is not None and d >= curve.reference_date:
            total = total + curve(d) * a
    return total


@goal(n=150)
def present_value(h):
    rows = payments(h, sorted_weak=True)
    curve = some_curve(h)
    if not h.symbolic and rows and h.bool('reference_is_a_payment_date'):
        curve.reference_date = h.choice('which', [r[0] for r in rows])
    h.eq('discounted future payments', Cashflow(made(rows)).present_value(curve), value(curve, rows))


@goal(n=100, symbolic=False)
def present_value_of_unordered_payments(h):
    """bounded: the sum does not depend on the order the payments are given in; the collection is unchanged by valuing it"""
    rows = payments(h)
    curve = some_curve(h)
    cf = Cashflow(made(rows))
    h.eq('value', cf.present_value(curve), value(curve, rows))
    h.eq('payments', [(p.payment_date, p.payment) for p in cf], sorted(rows, key=lambda r: r[0]))
    h.eq('again', cf.present_value(curve), value(curve, rows))


@goal(n=100)
def value_is_linear_in_the_amounts(h):
    rows = h.seq('payments', ('date', 'real', 'real'), sorted_weak=True)
    s, t = h.real('s'), h.real('t')
    curve = some_curve(h)
    combined = Cashflow([Payment(d, s * a + t * b) for d, a, b in rows]).present_value(curve)
    first = Cashflow([Payment(d, a) for d, a, b in rows]).present_value(curve)
    second = Cashflow([Payment(d, b) for d, a, b in rows]).present_value(curve)
    h.eq('linear', combined, s * first + t * second)


@goal(n=60)
def value_ignores_past_payments_and_missing_amounts(h):
    rows = h.seq('payments', ('date', 'real', 'bool'), sorted_weak=True)
    curve = some_curve(h)
    kept = Cashflow([Payment(d, a if keep else None) for d, a, keep in rows]).present_value(curve)
    changed = Cashflow([Payment(d, None if not keep else (a if d >= curve.reference_date else a + 1))
                        for d, a, keep in rows]).present_value(curve)
    h.eq('only future amounts count', kept, changed)


KEYS = list(CashflowKeys)


class Collection(CashflowCollection):
    def to_knot_value_pair(self):
        return None

    def present_value(self, discount_curve):
        return 0.0


def some_collection(h):
    """any collection: an arbitrary set of keys, each with its own cashflow"""
    present = [k for k in KEYS if h.bool(k.name)]
    flows = [Cashflow([]) for _ in present]
    return Collection(flows, present), dict(zip(present, flows))


def agrees(h, name, coll, want):
    h.eq(name + ' length', len(coll), len(want))
    for k in KEYS:
        h.eq(name + ' membership', k in coll, k in want)
        if k in want:
            h.check(name + ' stored under the key', coll[k] is want[k])
    items = dict(iter(coll))
    h.eq(name + ' keys iterated', len(items), len(want))
    for k in want:
        h.check(name + ' items iterated', items[k] is want[k])


@goal(n=60)
def collection_holds_what_it_was_given(h):
    coll, want = some_collection(h)
    agrees(h, 'built', coll, want)


@goal(cases=KEYS, n=40, timeout_s=100)
def collection_assignment(h):
    """one assignment to any collection; a history of assignments is covered step by step"""
    coll, want = some_collection(h)
    new = Cashflow([])
    coll[h.case] = new
    want[h.case] = new
    agrees(h, 'after assignment', coll, want)


@goal(symbolic=False, n=100)
def collection_histories(h):
    """bounded: longer histories of assignments"""
    coll, want = some_collection(h)
    for j in range(h.int('operations', 0, 12)):
        k, new = h.choice(f'key{j}', KEYS), Cashflow([])
        coll[k] = new
        want[k] = new
        agrees(h, 'history', coll, want)
    if len(want) >= 2:
        k0 = list(want)[0]
        again = Collection([Cashflow([]), want[k0]], [k0, k0])
        h.check('the last cashflow given for a key', again[k0] is want[k0] and len(again) == 1)


@goal(n=60)
def zero_coupon(h):
    d, price = h.date('payment'), h.real('price')
    z = ZeroCoupon(d, price)
    curve = some_curve(h)
    h.eq('one payment of one', [(p.payment_date, p.payment) for p in z[CashflowKeys.SINGLE_PAYMENT]], [(d, 1.0)])
    h.eq('knot', z.to_knot_value_pair(), KnotValuePair(d, price))
    h.eq('value', z.present_value(curve), curve(d) if d >= curve.reference_date else 0)
