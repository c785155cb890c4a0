"""Reference of offset rules: plain calendar arithmetic, no pandas."""

import calendar
import datetime as dt

MONTHS = ("JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC")
DAYS = ("MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN")
TICKS = {"D": 86400, "H": 3600, "T": 60, "min": 60, "S": 1}


class OutOfRange(Exception):
    """A date before year 1 or after year 9999."""


def parse(rule):
    """(multiple, name, anchor)"""
    i = 0
    while i < len(rule) and rule[i].isdigit():
        i += 1
    n = int(rule[:i] or 1)
    name, _, anchor = rule[i:].partition("-")
    name = {"Y": "A", "YS": "AS"}.get(name, name)
    return n, name, anchor


def last_day(year, month):
    return calendar.monthrange(year, month)[1]


def on_offset(name, anchor, d):
    """Whether the date is one of the rule."""
    if name == "AS":
        return d.day == 1 and d.month == MONTHS.index(anchor or "JAN") + 1
    if name == "A":
        return d.month == MONTHS.index(anchor or "DEC") + 1 and d.day == last_day(d.year, d.month)
    if name == "QS":
        return d.day == 1 and (d.month - 1 - MONTHS.index(anchor or "JAN")) % 3 == 0
    if name == "Q":
        return (d.month - 1 - MONTHS.index(anchor or "DEC")) % 3 == 0 and d.day == last_day(d.year, d.month)
    if name == "MS":
        return d.day == 1
    if name == "M":
        return d.day == last_day(d.year, d.month)
    if name == "SMS":
        return d.day in (1, int(anchor or 15))
    if name == "SM":
        return d.day in (last_day(d.year, d.month), int(anchor or 15))
    if name == "W":
        return d.weekday() == DAYS.index(anchor or "SUN")
    if name == "WOM":
        return d.weekday() == DAYS.index(anchor[1:]) and (d.day - 1) // 7 == int(anchor[0]) - 1
    raise KeyError(name)


_DATES = {}


def dates(name, anchor, around, until=None):
    """
    Ordinals of all dates of the rule from five years before to fifteen after a year (or
    more, if until is a later year).
    """
    around -= around % 3
    last = max(around + 18, until + 6 if until and until > around + 12 else 0)
    if last > around + 18:
        last = (last // 100 + 1) * 100
    if (name, anchor, around, last) not in _DATES:
        res = []
        for year in range(max(1, around - 5), min(last, 10000)):
            for month in range(1, 13):
                for day in range(1, last_day(year, month) + 1):
                    d = dt.date(year, month, day)
                    if on_offset(name, anchor, d):
                        res.append(d.toordinal())
        _DATES[name, anchor, around, last] = res
    return _DATES[name, anchor, around, last]


def reference_range(rule, start, end):
    """
    All dates (with the time of day of the start) from the last one not after the start
    to the first one not before the end.
    """
    import bisect

    n, name, anchor = parse(rule)
    if name in TICKS:
        step = dt.timedelta(seconds=n * TICKS[name])
        res = [start]
        while res[-1] < end:
            try:
                res.append(res[-1] + step)
            except OverflowError:
                raise OutOfRange
        return res
    # 100 steps of years can go beyond any table of dates: start with what the end needs
    all_dates = dates(name, anchor, start.year, end.year + n if n > 8 else end.year)
    i = bisect.bisect_right(all_dates, start.toordinal()) - 1
    if i < 0:
        raise OutOfRange
    res = []
    while True:
        if i >= len(all_dates):
            if end.year < 9980:
                raise ValueError("span too long")
            raise OutOfRange
        res.append(dt.datetime.combine(dt.date.fromordinal(all_dates[i]), start.time()))
        if res[-1] >= end:
            return res
        i += n
