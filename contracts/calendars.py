"""holiday calendars shared by the goals"""
from datetime import date, timedelta
from fixedIncome.src.scheduling_tools.holidays import Holiday, US_FEDERAL_HOLIDAYS


def observed_rule(h, k):
    shift = h.fn(f'shift{k}', ('date',), 'int', lo=-6, hi=6)
    return lambda x: x + timedelta(days=shift(x))


def three_templates(h):
    rows = []
    for k in range(3):
        m = h.int(f'month{k}', 1, 12)
        d = h.int(f'day{k}', 1, 28)
        rows.append((m, d, observed_rule(h, k)))
    return rows


def calendar_of(rows):
    return {name: Holiday(*row) for name, row in zip('ABC', rows)}


def some_calendar(h):
    """concretely one of several calendars, symbolically an arbitrary one (only seen through its business days)"""
    if h.symbolic:
        return {'any': Holiday(1, 1, None)}
    kind = h.choice('calendar', ['federal', 'none', 'custom', 'federal'])
    if kind == 'federal':
        return US_FEDERAL_HOLIDAYS
    if kind == 'none':
        return {}
    return calendar_of(three_templates(h))
