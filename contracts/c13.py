"""C13: key-rate collections stay ordered, linked and shift in parallel."""
from datetime import date, timedelta
from pyvc.harness import goal
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as D
from contracts.c12 import hat, accrual

ACTUAL = [D.ACTUAL_OVER_360, D.ACTUAL_OVER_365, D.ACTUAL_OVER_365_POINT_25, D.ACTUAL_OVER_ACTUAL]
USES = ('day counts of dates',)


def rising(h, names, gap=1):
    """dates in order"""
    days = [h.date(n) for n in names]
    if not h.symbolic:
        start, out = days[0], []
        for d in days:
            out.append(start)
            start = start + timedelta(days=1 + (d - date(1, 1, 1)).days % h.choice('gap', [1, 2, 40, 700]))
        days = out
    for a, b in zip(days, days[1:]):
        h.assume(a < b)
    return days


def valid(h, name, c, days, bumps, dcc):
    """the collection holds key rates on these dates with these bumps, ordered and linked, and adds up their hats"""
    h.eq(name + ': size', len(c), len(days))
    if len(c) != len(days):
        return
    for i, k in enumerate(c):
        h.eq(name + ': date', k.key_rate_date, days[i])
        h.eq(name + ': prior', k.prior_date, days[i - 1] if i else None)
        h.eq(name + ': next', k.next_date, days[i + 1] if i + 1 < len(days) else None)
        h.eq(name + ': bump', k.bump_val, bumps[i])
        h.check(name + ': indexed', c[i] is k)
    x = h.date('x')
    if not h.symbolic:
        x = days[0] + timedelta(days=(x - date(1, 1, 1)).days % ((days[-1] - days[0]).days + 10) - 5)
    n = len(days)
    at = [days[0] - timedelta(days=1)] + days + [days[-1] + timedelta(days=1), x] if not h.symbolic else [x]
    for x in at:
        total = 0
        for i in range(n):
            total = total + hat(x, days[i - 1] if i else None, days[i], days[i + 1] if i + 1 < n else None, bumps[i], dcc)
        h.eq(name + ': sum of the hats', c(x), total)


def key_rate(h, d, dcc, bump):
    k = KeyRate(dcc, d)
    k.set_bump_val(bump)
    return k


def bumps_for(h, n, tag='b'):
    return [h.real(f'{tag}{i}') for i in range(n)]


def collection(h, days, bumps, dcc):
    """a collection of key rates given in some order"""
    given = [key_rate(h, d, dcc, b) for d, b in zip(days, bumps)]
    order = h.choice('order', ['rising', 'falling', 'rotated'])
    if order == 'falling':
        given = given[::-1]
    if order == 'rotated':
        given = given[1:] + given[:1]
    return KeyRateCollection(given)


def convention(h):
    return h.choice('convention', ACTUAL[2:] if h.symbolic else ACTUAL)


@goal(n=200)
def comparisons(h):
    """key rates compare by their dates; equal ones have the same date and convention, whatever their neighbours and bumps"""
    c, d = h.choice('convention', list(D)), h.choice('other convention', list(D))
    x = h.date('x')
    y = h.date('y') if h.symbolic else x + timedelta(days=h.choice('later', [-400, -1, 0, 0, 1, 31]))
    a, b = key_rate(h, x, c, h.real('p')), key_rate(h, y, d, h.real('q'))
    if h.bool('linked'):
        a.set_next_date(x + timedelta(days=5))
    for name, got, want in (('before', a < b, x < y), ('not after', a <= b, x <= y), ('after', a > b, x > y), ('not before', a >= b, x >= y),
                            ('equal', a == b, x == y and c == d), ('not equal', a != b, x != y or c != d)):
        h.eq(name, bool(got), bool(want))
    if x == y and c == d:
        h.eq('hash', hash(a), hash(b))


SIZES = [1, 2, 3]
SIZE_BOUND = "all dates, bumps and histories, collections of at most 4 key rates (5 for the parallel shift)"


@goal(cases=SIZES + [4], uses=USES, bounded=SIZE_BOUND, n=100)
def construction(h):
    dcc = convention(h)
    days = rising(h, [f'd{i}' for i in range(h.case)])
    bumps = bumps_for(h, h.case)
    valid(h, 'built', collection(h, days, bumps, dcc), days, bumps, dcc)


@goal(cases=SIZES + [4, 5], uses=USES, bounded=SIZE_BOUND, n=100)
def parallel_shift(h):
    dcc = convention(h)
    days = rising(h, [f'd{i}' for i in range(h.case)])
    b = h.real('b')
    c = KeyRateCollection([KeyRate(dcc, d) for d in days])
    x = h.date('x')
    if not h.symbolic:
        x = days[0] + timedelta(days=(x - date(1, 1, 1)).days % ((days[-1] - days[0]).days + 10) - 5)
    h.eq('one basis point', c(x), 0.0001)
    c.set_bump_val(b)
    h.eq('new bump', c(x), b)


def first_members(x, left, right, b, dcc):
    """the sum at x of the first members of a collection, the last of them on `left` and the next member on `right`"""
    if right is None or x <= left:
        return b
    if x >= right:
        return 0
    return b * accrual(x, right, dcc) / accrual(left, right, dcc)


@goal(cases=ACTUAL, uses=USES, n=100)
def parallel_shift_by_induction(h):
    """over the members of a collection of any size, whose values are added up (bounded goals above): the first member starts the sum
    and each further member extends it, the last one to the bump everywhere"""
    dcc, b = h.case, h.real('b')
    left, mid, right = rising(h, ['left', 'mid', 'right'])
    last = h.bool('last')
    x = h.date('x')
    if not h.symbolic:
        x = left + timedelta(days=(x - date(1, 1, 1)).days % ((right - left).days + 10) - 5)
    after = None if last else right
    first, further = KeyRate(dcc, mid, None, after), KeyRate(dcc, mid, left, after)
    first.set_bump_val(b)
    further.set_bump_val(b)
    h.eq('first', first(x), first_members(x, mid, after, b, dcc))
    h.eq('further', first_members(x, left, mid, b, dcc) + further(x), first_members(x, mid, after, b, dcc))


@goal(cases=SIZES + [4], uses=USES, bounded=SIZE_BOUND, n=100)
def bump_change(h):
    """of the whole collection and of one member"""
    dcc = convention(h)
    days = rising(h, [f'd{i}' for i in range(h.case)])
    bumps = bumps_for(h, h.case)
    c = collection(h, days, bumps, dcc)
    b = h.real('new')
    if h.bool('all'):
        c.set_bump_val(b)
        valid(h, 'all bumped', c, days, [b] * h.case, dcc)
    else:
        i = h.choice('which', list(range(h.case)))
        c[i].set_bump_val(b)
        valid(h, 'one bumped', c, days, bumps[:i] + [b] + bumps[i + 1:], dcc)


HOWS = ['+=', 'insert', '+= list', '+= collection', '+']


@goal(cases=[(n, how) for n in SIZES for how in HOWS], uses=USES, bounded=SIZE_BOUND, n=60)
def addition(h):
    """of one key rate, before, between or after the others, or equal to one of them"""
    size, how = h.case
    dcc = convention(h)
    days = rising(h, [f'd{i}' for i in range(size + 1)])
    bumps = bumps_for(h, size + 1)
    j = h.choice('place', list(range(size + 1)))
    rest, rest_b = days[:j] + days[j + 1:], bumps[:j] + bumps[j + 1:]
    c = KeyRateCollection([key_rate(h, d, dcc, b) for d, b in zip(rest, rest_b)])
    again = h.bool('again')     # a key rate on the date of a member is not added
    if again:
        i = h.choice('member', list(range(size)))
        new = key_rate(h, rest[i], dcc, rest_b[i])
        days, bumps = rest, rest_b
    else:
        new = key_rate(h, days[j], dcc, bumps[j])
    before = c
    if how == '+=':
        c += new
    elif how == 'insert':
        c.insert(new)
    elif how == '+= list':
        c += [new]
    elif how == '+= collection':
        c += KeyRateCollection([new])
    else:
        c = c + KeyRateCollection([new])
    h.eq('in place', c is before, how != '+')
    valid(h, 'added', c, days, bumps, dcc)


@goal(cases=[(i, j) for i in (1, 2) for j in (1, 2)], uses=USES, bounded=SIZE_BOUND, n=60)
def union(h):
    size, extra = h.case
    dcc = convention(h)
    days = rising(h, [f'd{i}' for i in range(size + extra)])
    bumps = bumps_for(h, size + extra)
    first = h.choice('members', [m for m in combos(size + extra, size)])
    common = h.bool('common')
    left = [i for i in range(size + extra) if i in first]
    right = [i for i in range(size + extra) if i not in first or (common and i == left[0])]
    a, b = (KeyRateCollection([key_rate(h, days[i], dcc, bumps[i]) for i in side]) for side in (left, right))
    if h.bool('in place'):
        a += b
        valid(h, 'union in place', a, days, bumps, dcc)
    else:
        valid(h, 'union', a + b, days, bumps, dcc)


def combos(n, k):
    import itertools
    return [set(c) for c in itertools.combinations(range(n), k)]


@goal(cases=SIZES, uses=USES, bounded=SIZE_BOUND, n=100)
def replacement(h):
    """a replacement within its neighbours takes effect and any other is rejected and changes nothing"""
    dcc = convention(h)
    n = h.case
    days = rising(h, [f'd{i}' for i in range(n)])
    bumps = bumps_for(h, n)
    c = collection(h, days, bumps, dcc)
    i = h.choice('place', list(range(-n, n)))
    d, b = h.date('new'), h.real('new_bump')
    if not h.symbolic:
        d = days[i] + timedelta(days=h.int('off', -3, 3))
        if h.bool('at a member'):
            d = h.choice('member', days)
    new = key_rate(h, d, dcc, b)
    i = i % n
    fits = True
    if i > 0 and d <= days[i - 1]:
        fits = False
    if i + 1 < n and d >= days[i + 1]:
        fits = False
    if fits:
        c[i] = new
        valid(h, 'replaced', c, days[:i] + [d] + days[i + 1:], bumps[:i] + [b] + bumps[i + 1:], dcc)
    else:
        def put():
            c[i] = new
        h.raises('rejected', ValueError, put)
        valid(h, 'unchanged', c, days, bumps, dcc)


@goal(cases=[2, 3, 4], uses=USES, bounded=SIZE_BOUND, n=100)
def deletion(h):
    dcc = convention(h)
    n = h.case
    days = rising(h, [f'd{i}' for i in range(n)])
    bumps = bumps_for(h, n)
    c = collection(h, days, bumps, dcc)
    i = h.choice('place', list(range(-n, n)))
    del c[i]
    i = i % n
    valid(h, 'deleted', c, days[:i] + days[i + 1:], bumps[:i] + bumps[i + 1:], dcc)


@goal(symbolic=False, n=400)
def histories(h):
    """any sequence of operations on larger collections"""
    dcc = h.choice('convention', list(D))
    pool = rising(h, [f'd{i}' for i in range(9)])
    if dcc == D.THIRTY_OVER_THREESIXTY:
        pool = [pool[0].replace(day=1) + timedelta(days=40 * i) for i in range(9)]
    start = [d for d in pool if h.bool('in')] or pool[:1]
    model = {d: 0.0001 for d in start}
    c = KeyRateCollection([KeyRate(dcc, d) for d in reversed(start)])
    for _ in range(12):
        op = h.choice('op', ['+=', 'insert', '+', 'set', 'del', 'bump', 'bump one', 'pop', 'remove', 'reset'])
        ordered = sorted(model)
        d = h.choice('d', pool)
        if op in ('+=', 'insert', '+'):
            new = key_rate(h, d, dcc, 0.5)
            if op == '+=':
                c += new
            elif op == 'insert':
                c.insert(new)
            else:
                c = c + KeyRateCollection([new])
            model.setdefault(d, 0.5)
        elif op == 'set':
            i = h.choice('i', list(range(len(ordered))))
            new = key_rate(h, d, dcc, 0.25)
            fits = (i == 0 or d > ordered[i - 1]) and (i + 1 == len(ordered) or d < ordered[i + 1])
            if fits:
                c[i] = new
                del model[ordered[i]]
                model[d] = 0.25
            else:
                def put():
                    c[i] = new
                h.raises('rejected', ValueError, put)
        elif op in ('del', 'pop', 'remove') and len(model) > 1:
            i = h.choice('i', list(range(len(ordered))))
            if op == 'del':
                del c[i]
            elif op == 'pop':
                c.pop(i)
            else:
                c.remove(KeyRate(dcc, ordered[i]))
            del model[ordered[i]]
        elif op == 'bump':
            b = h.real('b')
            c.set_bump_val(b)
            model = {k: b for k in model}
        elif op == 'bump one':
            i = h.choice('i', list(range(len(ordered))))
            c[i].set_bump_val(0.75)
            model[ordered[i]] = 0.75
        elif op == 'reset':
            c = KeyRateCollection(list(c))
        ordered = sorted(model)
        valid(h, 'after ' + op, c, ordered, [model[k] for k in ordered], dcc)


@goal(cases=['sum', 'slice'], symbolic=False, n=20)
def operands_keep_their_links(h):
    """a collection that was added to another, or sliced, is left as it was"""
    dcc = convention(h)
    days = rising(h, [f'd{i}' for i in range(5)])
    b = [1.0] * 5
    if h.case == 'sum':
        left, right = (KeyRateCollection([key_rate(h, d, dcc, 1.0) for d in days[s::2]]) for s in (0, 1))
        valid(h, 'the union', left + right, days, b, dcc)
        valid(h, 'the left operand', left, days[0::2], b[0::2], dcc)
    else:
        c = KeyRateCollection([key_rate(h, d, dcc, 1.0) for d in days])
        valid(h, 'the slice', c[1:3], days[1:3], b[1:3], dcc)
        valid(h, 'the sliced collection', c, days, b, dcc)
