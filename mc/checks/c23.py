"""C23: offset ranges are complete and cover the requested span."""

import bisect
import datetime as dt

from openscm.scmdataframe.offsets import generate_range, to_offset

from ..engine import Violation
from ..offsets_ref import DAYS, MONTHS, TICKS, OutOfRange, dates, parse, reference_range
from ..util import attempt

PROP = "C23"
ASSUMPTIONS = [
    "start is not after end; naive datetimes; on-offset dates carry the time of day of the start",
    "several steps at once (e.g. 3M) start at the last date of the rule (not of every third month)",
    "retail calendar (RE, REQ) and nanosecond rules are not covered",
]
BOUNDS = {
    "quick": "all calendar rules (AS/A/QS/Q x 12 months, MS, M, SMS/SM x all days, W x 7, WOM x 28, D, H, T, S), multiples 1, 2, 3, 7, in 8 eras of years 1 to 9999 (incl. pandas' limits; multiples of SM-n/SMS-n/WOM in 2 eras): starts on 8 days of 15 months, with 3 times of day, x 10 spans; 18 rules x multiples 1 to 100 over spans of hundreds to thousands of dates; all business rules",
    "thorough": "12 eras, every day of two years as start, 16 spans",
}


def rules():
    for name in ("AS", "A", "QS", "Q"):
        yield name
        for m in MONTHS:
            yield name + "-" + m
    for name in ("Y", "YS", "MS", "M", "SMS", "SM", "W", "D", "H", "T", "min", "S"):
        yield name
    for d in DAYS:
        yield "W-" + d
    for i in range(1, 28):
        yield "SM-{}".format(i)
        if i > 1:
            yield "SMS-{}".format(i)
    for i in range(1, 5):
        for d in DAYS:
            yield "WOM-{}{}".format(i, d)


BUSINESS = ("B", "C", "BM", "BMS", "CBM", "CBMS", "BQ", "BQS", "BA", "BAS", "BH", "CBH", "BY", "BYS")

ERAS = (1, 1582, 1677, 1899, 1999, 2262, 4711, 9998)
MORE_ERAS = (3, 99, 1969, 2399)

#: rule: spans in days, of hundreds or thousands of dates
LONG = {
    "AS": (36525, 100000, 300000),
    "A": (36525, 300000),
    "A-JUN": (100000,),
    "AS-OCT": (100000,),
    "QS": (36525, 100000),
    "Q": (36525, 100000),
    "QS-FEB": (36525,),
    "MS": (20000, 150000),
    "M": (20000, 150000),
    "SMS": (15000,),
    "SM": (15000,),
    "W": (20000,),
    "W-WED": (20000,),
    "WOM-2TUE": (20000,),
    "D": (400, 5000),
    "H": (100, 400),
    "T": (3,),
    "S": (0.1,),
}


def cases(tier):
    thorough = tier == "thorough"
    for era in ERAS + (MORE_ERAS if thorough else ()):
        for rule in rules():
            for n in (1, 2, 3, 7):
                if rule.startswith(("SM-", "SMS-", "WOM")) and not thorough and n > 1 and era not in (1677, 2262):
                    continue
                yield (rule if n == 1 else "{}{}".format(n, rule), era)
    for rule, spans in LONG.items():
        for n in (1, 4, 10, 12, 24, 30, 100):
            for k in range(len(spans)):
                yield ("long", rule, n, k)
    yield ("business",)
    for rule in ("AS", "M", "W-WED", "D", "2MS"):
        yield ("reuse", rule)


TODS = ((0, 0, 0), (5, 6, 7), (23, 59, 59))
SPANS = (
    dict(seconds=0),
    dict(seconds=1),
    dict(hours=18),
    dict(days=1),
    dict(days=30, hours=-3),
    dict(days=31),
    dict(days=91),
    dict(days=365),
    dict(days=366, hours=6),
    dict(days=800),
)
MORE_SPANS = (dict(days=7), dict(days=14), dict(days=28), dict(days=59), dict(days=1461), dict(days=3000, hours=12))
SHORT = {
    "D": (0, 1, 86399, 86400, 86401, 86400 * 40),
    "H": (0, 1, 3599, 3600, 3601, 3600 * 30),
    "T": (0, 1, 59, 60, 61, 60 * 70),
    "min": (0, 1, 59, 60, 61, 60 * 70),
    "S": (0, 1, 2, 3, 5, 7, 65),
}


def starts(era, thorough):
    for i in range(2):
        year = era + i
        if year > 9999:
            continue
        for month in range(1, 13):
            for day in range(1, 32) if thorough else (1, 2, 8, 15, 28, 29, 30, 31):
                if not thorough and i and (month > 3 or day in (2, 15)):
                    continue
                try:
                    yield year, month, day
                except ValueError:
                    pass


def run(case, ctx):
    if case[0] == "business":
        return run_business(ctx)
    if case[0] == "reuse":
        return run_reuse(case, ctx)
    if case[0] == "long":
        return run_long(case, ctx)
    rule, era = case
    n, name, anchor = parse(rule)
    offset = to_offset(rule)
    count = 0
    for y, m, d in starts(era, ctx.thorough):
        try:
            date = dt.date(y, m, d)
        except ValueError:
            continue
        tod = dt.time(*TODS[count % 3])
        count += 1
        start = dt.datetime.combine(date, tod)
        if name in TICKS:
            spans = [dt.timedelta(seconds=s) for s in SHORT[name]]
        else:
            spans = [dt.timedelta(**s) for s in SPANS + (MORE_SPANS if ctx.thorough else ())]
            check_roll(rule, offset, name, anchor, start, ctx)
        for span in spans:
            try:
                end = start + span
                expected = reference_range(rule, start, end)
            except (OverflowError, OutOfRange):
                continue
            got = list(generate_range(start, end, offset))
            ctx.step(len(got))
            ctx.trace()
            if got != expected or not all(isinstance(g, dt.datetime) for g in got):
                raise Violation(
                    "{} from {} to {}: {}, expected {}".format(
                        rule, start, end, [str(g) for g in got[:3] + got[-3:]], [str(g) for g in expected[:3] + expected[-3:]]
                    )
                )
            ctx.state(rule, start, end)
    ctx.outcome((name, n))


def run_long(case, ctx):
    _, rule, n, k = case
    rule_n = rule if n == 1 else "{}{}".format(n, rule)
    days = LONG[rule][k]
    for year in (1, 1601, 1850) :
        start = dt.datetime(year, 3, 5, 6, 7, 8)
        end = start + dt.timedelta(days=days)
        ctx.state(case, year)
        try:
            expected = reference_range(rule_n, start, end)
        except OutOfRange:
            continue
        got = list(generate_range(start, end, to_offset(rule_n)))
        ctx.step(len(got))
        ctx.trace()
        if got != expected:
            raise Violation(
                "{} from {} to {}: {} dates {}, expected {}: {}".format(
                    rule_n, start, end, len(got), [str(g) for g in got[:2] + got[-2:]], len(expected), [str(g) for g in expected[:2] + expected[-2:]]
                )
            )
    ctx.outcome(("long", rule))


def check_roll(rule, offset, name, anchor, start, ctx):
    all_dates = dates(name, anchor, start.year)
    o = start.toordinal()
    for fun, i in (
        (offset.rollback, bisect.bisect_right(all_dates, o) - 1),
        (offset.rollforward, bisect.bisect_left(all_dates, o)),
    ):
        if not 0 <= i < len(all_dates):
            continue
        expected = dt.datetime.combine(dt.date.fromordinal(all_dates[i]), start.time())
        got = fun(start)
        ctx.step()
        if got != expected:
            raise Violation("{} {} of {}: {}, expected {}".format(rule, fun, start, got, expected))


def run_business(ctx):
    for rule in BUSINESS:
        for n in ("", "2", "10"):
            for anchor in ("", "-JAN", "-MAR", "-DEC") if rule[-1] in "ASQY" and rule not in ("B", "C", "BMS", "CBMS") else ("",):
                res = attempt(to_offset, n + rule + anchor)
                ctx.step()
                ctx.state(n, rule, anchor)
                if res != ("err", "ValueError"):
                    raise Violation("{} gives {} instead of ValueError".format(n + rule + anchor, res))
                ctx.trace()
    for rule in ("", "foo", "AS-FOO", "W-1", "5", "QS-13"):
        res = attempt(to_offset, rule)
        ctx.step()
        if res[0] != "err" and res[1] is not None:
            raise Violation("{!r} gives {}".format(rule, res))
    ctx.outcome("refused")


def run_reuse(case, ctx):
    """One offset used for several ranges at the same time, in all interleavings of their steps."""
    rule = case[1]
    spans = [
        (dt.datetime(1500, 2, 3, 4), dt.datetime(1500, 5, 1)),
        (dt.datetime(2400, 2, 28), dt.datetime(2401, 3, 1)),
    ]
    offset = to_offset(rule)
    expected = [reference_range(rule, *s)[:5] for s in spans]
    import itertools

    a, b = (len(e) for e in expected)
    for chosen in itertools.combinations(range(a + b), a):
        gens = [generate_range(s, e, offset) for s, e in spans]
        got = ([], [])
        for i in range(a + b):
            k = 0 if i in chosen else 1
            got[k].append(next(gens[k]))
            ctx.step()
        ctx.state(rule, chosen)
        if list(got) != expected:
            raise Violation("{} interleaved as {}: {}, expected {}".format(rule, chosen, got, expected))
        if list(generate_range(*spans[0], to_offset(rule)))[:5] != expected[0]:
            raise Violation("{} differs afterwards".format(rule))
        ctx.trace()
    ctx.outcome("reuse")
