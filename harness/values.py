"""Drives ticks (P01) and timeframe boundaries (P20), recording what they report."""
import datetime as dt
import decimal
import fractions
import random
import zoneinfo

from core import (BADNUM, EPOCH, UTC, call, from_inst, guard, inst, narrow_table, tz_table, wall)
from frames import QUANTITIES, UNITS, ZONES, shape_datetime


def cents(x):
    """A number as a count of cents (it must be one)."""
    try:
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            return BADNUM
        c = int(round(x * 100))
        if abs(x * 100 - c) > 1e-4 or abs(c) > 900000000:
            return BADNUM
        return c
    except Exception:
        return BADNUM


class Odd:
    """Not a datetime, though it has a timezone."""
    tzinfo = UTC


BAD_NUMBERS = ["1", "10.5", None, decimal.Decimal("1.5"), fractions.Fraction(3, 2), [1], (), {},
               1j, b"1", object()]
BAD_TIMES = [None, "2020-01-01T00:00:00+00:00", 1577836800, 1577836800.0,
             dt.date(2020, 1, 1), dt.datetime(2020, 1, 1), dt.datetime(2020, 3, 29, 2, 30),
             dt.time(1, 2, 3), dt.time(1, 2, 3, tzinfo=UTC), [], Odd(),
             dt.timedelta(1), zoneinfo.ZoneInfo("UTC")]


def text(x):
    try:
        return wall(dt.datetime.strptime(x, "%Y-%m-%d %H:%M:%S"))
    except Exception:
        return [BADNUM, 0, 0]


def entries(d):
    """A mapping as the sorted list of its entries."""
    if not isinstance(d, dict):
        return [["?", -1]]
    return sorted([k if isinstance(k, str) else "?", v if isinstance(v, int) else -1]
                  for k, v in d.items())


def quote(num, unit, bid, ask, aware, when, args, meta=()):
    """One tick built from args = (datetime, bid, ask), and from meta if it is not ()."""
    from estrade import Tick
    from estrade.exceptions import EstradeException

    built = []
    given = dict(meta) if meta else meta
    kw = {} if given == () else {"meta": given}
    ok, t = call(lambda: built.append(Tick(*args, **kw)) or built[0])
    ev = {"k": "quote", "num": num, "unit": unit, "bid": bid, "ask": ask, "aware": aware,
          "inst": inst(when), "ok": ok, "err": ok.startswith("estrade:"),
          "same": False, "sp": BADNUM, "v": BADNUM, "at": [], "dict": False,
          "w": wall(args[0]), "ws": [], "tx": [],
          "given": entries(dict(meta or ())), "meta": []}
    if ok == "ok":
        d = guard(t.asdict)
        g = lambda n: guard(lambda: getattr(t, n))  # noqa
        ev.update(
            same=(g("bid") == args[1] and g("ask") == args[2]), sp=cents(g("spread")),
            v=cents(g("value")),
            at=[inst(g("datetime")), inst(g("datetime_utc")),
                inst(d.get("datetime") if isinstance(d, dict) else None)],
            dict=isinstance(d, dict) and d.get("bid") == g("bid") and d.get("ask") == g("ask")
            and d.get("spread") == g("spread") and d.get("value") == g("value"),
            ws=[wall(g("datetime")), wall(d.get("datetime") if isinstance(d, dict) else None)],
            tx=[text(guard(lambda: t.asdict(datetime_to_str=True)["datetime"]))],
            meta=entries(g("meta")))
        guard(lambda: t.meta.update(note=inst(when)[1]))   # must not reach any other tick
    return ev


def number(rnd, n, unit):
    """n cents (unit 1) or n units of 0.0001 as an int or a float."""
    div = 100 if unit == 1 else 10000
    if n % div == 0 and rnd.random() < 0.5:
        return n // div
    return n / div


def quotes(rnd, pairs=None):
    evs = []
    zone = rnd.choice(ZONES)
    tab = tz_table(zone)[1:]
    for k in range(40 if pairs is None else len(pairs)):
        d = EPOCH + dt.timedelta(days=rnd.randint(0, 24000), seconds=rnd.randint(0, 86399),
                                 microseconds=rnd.choice([0, 1, 999999, rnd.randint(0, 999999)]))
        if tab and rnd.random() < 0.4:   # around a clock change
            e = rnd.choice(tab)
            d = from_inst([e[0], e[1], 0]) + dt.timedelta(
                seconds=rnd.choice([-3600, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7200]))
        form = rnd.randint(0, 7)
        z = zone
        if d.year > 2030:
            d = d.replace(year=2016, day=min(d.day, 28))
        when = shape_datetime(d, form, z)
        r = rnd.random()
        unit = 1
        if pairs is not None:
            bid, ask = pairs[k]
            r = 1
        elif r < 0.25:
            unit = 100
            top = rnd.choice([3, 30, 300, 100000, 10000000, 200000000])
            bid = rnd.randint(-top, top)
            ask = bid + rnd.choice([0, 1, 2, 49, 50, 51, 99, 100, 101, rnd.randint(0, 10000)])
        else:
            top = rnd.choice([2, 20, 200, 20000, 2000000, 390000000])
            bid = rnd.randint(-top, top)
            ask = bid + rnd.choice([0, 1, 2, 3, rnd.randint(0, 100), rnd.randint(0, 20000)])
        if r < 0.9 and rnd.random() < 0.2:
            bid, ask = ask, bid
        args = [when, number(rnd, bid, unit), number(rnd, ask, unit)]
        num = aware = True
        if pairs is None and rnd.random() < 0.3:
            if rnd.random() < 0.5:
                args[0] = rnd.choice(BAD_TIMES + [d.replace(tzinfo=None)])
                aware = False
            else:
                args[rnd.choice([1, 2])] = rnd.choice(BAD_NUMBERS)
                num = False
        meta = rnd.choice([(), (), None, {}, {"a": k}, {"a": 1, "b": k}])
        evs.append(quote(num, unit, bid, ask, aware, d, args, meta))
    return {"ev": evs, "tz": []}


def boundary(d):
    return {"w": wall(d), "i": inst(d)}


def grid(unit, q, when, d):
    from estrade.enums import Unit
    from estrade.graph import FrameSet

    def run():
        fs = FrameSet(Unit[unit], q)
        s = fs.get_frame_start(when)
        return s, fs.get_frame_end(s)

    ok, r = call(run)
    bad = {"w": [BADNUM, 0, 0], "i": [BADNUM, 0, 0]}
    return {"k": "grid", "unit": UNITS.index(unit), "q": q, "inst": inst(d), "ok": ok,
            "s": boundary(r[0]) if r else bad, "e": boundary(r[1]) if r else bad}


def new(unit, q):
    from estrade.enums import Unit
    from estrade.graph import FrameSet

    ok, _ = call(FrameSet, Unit[unit], q)
    return {"k": "new", "unit": UNITS.index(unit), "q": q, "ok": ok}


def quantities(rnd):
    """Every quantity around the valid ones, for one unit each."""
    evs = []
    for u in UNITS:
        for q in list(range(-3, 66)) + [rnd.randint(66, 500) for _ in range(3)]:
            evs.append(new(u, q))
    return {"ev": evs, "tz": [[-4000000, 0, 0]], "exact": False}


def grids(rnd):
    import arrow

    zone = rnd.choice(ZONES) if rnd.random() < 0.85 else "UTC"
    z = zoneinfo.ZoneInfo(zone)
    year = rnd.randint(1980, 2034)
    tab = [e for e in tz_table(zone)[1:] if abs(e[0] - (year - 1970) * 365.25) < 400]
    evs, seen = [], []
    for _ in range(40):
        base = dt.datetime(year, rnd.randint(1, 12), rnd.randint(1, 28), tzinfo=z)
        r = rnd.random()
        if r < 0.2:
            loc = dt.datetime(year, *rnd.choice([(2, 28), (3, 1), (12, 31), (1, 1), (6, 30), (4, 30),
                                                 (1, 31), (2, 28)]), tzinfo=z)
            if year % 4 == 0 and rnd.random() < 0.4:
                loc = dt.datetime(year, 2, 29, tzinfo=z)
            base = loc
        h = rnd.choice([0, 0, 23, rnd.randint(0, 23)])
        m, s = rnd.choice([0, 59, rnd.randint(0, 59)]), rnd.choice([0, 59, rnd.randint(0, 59)])
        d = base.replace(hour=h, minute=m, second=s,
                         microsecond=rnd.choice([0, 0, 1, 999999])).astimezone(UTC)
        if tab and r > 0.7:
            e = rnd.choice(tab)
            d = from_inst([e[0], e[1], 0]) + dt.timedelta(
                seconds=rnd.choice([-86400, -3600, -1, 0, 1, 1800, 3599, 3600, 5400, 7200, 86400,
                                    rnd.randint(-9000, 9000)]))
        unit = rnd.choice(UNITS)
        q = rnd.choice(QUANTITIES[unit])
        if unit == "YEAR" and rnd.random() < 0.4:
            q = rnd.choice([3, 4, 7, 20, 25, 100, 400])
        when = arrow.get(d).to(zone)
        seen.append(d)
        evs.append(grid(unit, q, when, d))
    reach = 500 + 366 * max([e["q"] for e in evs if e["unit"] == 7] or [0])
    return {"ev": evs, "tz": narrow_table(tz_table(zone), min(seen), max(seen), reach),
            "exact": all(e["unit"] != 7 or e["q"] == 1 for e in evs), "zone": zone}


def every_day(k):
    """One local day after the other, all units and quantities on each."""
    import arrow

    evs = []
    first = dt.datetime(2019, 12, 25, tzinfo=UTC) + dt.timedelta(days=4 * k)
    for n in range(4):
        for sec in (0, 1, 43199, 61261, 86399):
            d = first + dt.timedelta(days=n, seconds=sec, microseconds=0 if sec % 2 else 999999)
            for u in UNITS:
                for q in QUANTITIES[u]:
                    evs.append(grid(u, q, arrow.get(d), d))
    return {"ev": evs, "tz": [[-4000000, 0, 0]], "exact": True, "zone": "UTC"}


def pairs_history(k, top=14):
    """All quotes of at most top cents, one bid each."""
    bid = k - top
    ps = [(bid, ask) for ask in range(-top, top + 1)]
    return quotes(random.Random("pairs/%d" % k), ps)


def history(pid, seed, k):
    rnd = random.Random("%s/%s/%s" % (pid, seed, k))
    if pid == "P01":
        return quotes(rnd)
    return quantities(rnd) if k == 0 else grids(rnd)
