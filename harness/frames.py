"""Drives real frame sets and indicators and records every public observable."""
import datetime as dt
import random
import zoneinfo

import core
from core import (BADNUM, EPOCH, UTC, Looks, ambiguous, call, enc, from_inst, guard, hollow,
                  inst, nat, narrow_table, opt, tz_table, wall)

ZONES = ["UTC", "Europe/Paris", "America/New_York", "Asia/Tokyo", "Asia/Kolkata",
         "Australia/Sydney", "America/Sao_Paulo", "Asia/Kathmandu", "Australia/Lord_Howe",
         "Pacific/Auckland", "America/St_Johns", "Europe/London", "Pacific/Honolulu",
         "Africa/Cairo", "Asia/Shanghai"]
UNITS = ["TICK", "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "YEAR"]
QUANTITIES = {
    "TICK": [1, 2, 3, 4, 5, 7],
    "SECOND": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60],
    "MINUTE": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60],
    "HOUR": [1, 2, 3, 4, 6, 12],
    "DAY": [1, 7],
    "WEEK": [1],
    "MONTH": [1, 2, 3, 4, 6, 12],
    "YEAR": [1, 2, 5, 10],
}
SECONDS = {"TICK": 3600, "SECOND": 1, "MINUTE": 60, "HOUR": 3600, "DAY": 86400,
           "WEEK": 7 * 86400, "MONTH": 30 * 86400, "YEAR": 365 * 86400}
BASE, CANDLE, HEIKIN, SMA, RSI, PIVOT, OLHC = range(7)


def build_indicator(kind, gated, p, ref, bare=False):
    from estrade.enums import CandleType, PivotType
    from estrade.graph import CandleSet, Pivot, RSI as Rsi, SimpleMovingAverage
    from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue

    kw = {"ref": ref}
    if gated:
        kw["market_open_only"] = True
    if kind == BASE:
        return BaseIndicator(value_class=hollow(BaseIndicatorValue, bare), **kw)
    if kind == CANDLE:
        return CandleSet(**kw)
    if kind == HEIKIN:
        return CandleSet(candle_type=CandleType.HEIKIN_ASHI, **kw)
    if kind == SMA:
        return SimpleMovingAverage(max_periods=p, **kw)
    if kind == RSI:
        return Rsi(periods=p, **kw)
    if kind == PIVOT:
        return Pivot(**kw)
    return Pivot(pivot_type=PivotType.OLHC, **kw)


def outputs(kind, p, v):
    def g(name):
        return guard(lambda: getattr(v, name))

    def o(name):
        x = g(name)
        return opt(x)

    if kind in (CANDLE, HEIKIN):
        col = g("color")
        return {
            "o": enc(g("open")), "h": enc(g("high")), "l": enc(g("low")), "a": enc(g("last")),
            "c": o("close"),
            "col": 9 if col is None else {"GREEN": 1, "BLACK": 0, "RED": -1}.get(
                getattr(col, "name", ""), 8),
            "hgt": enc(g("height")), "body": o("body"), "head": o("head"), "tail": o("tail"),
        }
    if kind == SMA:
        return {"v": [opt(guard(v.get_value, k)) for k in range(1, p + 3)]}
    if kind == RSI:
        return {"v": o("value")}
    if kind in (PIVOT, OLHC):
        return {"v": [o(n) for n in ("pivot", "support1", "support2", "support3",
                                     "resistance1", "resistance2", "resistance3")]}
    return {"v": []}


class Recorder:
    """One epic, its frame sets, and the trace of what they show."""

    def __init__(self, world, looks=None):
        from estrade import Epic
        from estrade.enums import Unit
        from estrade.graph import FrameSet

        self.w = world
        self.looks = Looks(looks)
        o, c = world["open"], world["close"]
        bare = bool(world.get("hollow"))
        self.epic = hollow(Epic, bare)(
            timezone=world["tz"], open_time=to_time(o), close_time=to_time(c),
            trade_days=world["days"] or None,
            holidays=[dt.date(*h) for h in world["hol"]],
            ref="E",
        )
        self.ticks = {}
        self.keep = []
        self.fs, self.inds, self.last = [], [], []
        for n, f in enumerate(world["fs"]):
            kw = {}
            if f["max"] != 100 or world.get("explicit_max"):
                kw["max_frames_in_memory"] = f["max"]
            fs = hollow(FrameSet, bare)(Unit[f["unit"]], f["q"], ref="F%d" % n, **kw)
            self.inds.append([])
            for x in f["inds"]:
                self._attach(n, fs, x)
            if not world.get("alone"):
                self.epic.add_frame_set(fs)
            self.fs.append(fs)
            self.last.append([])
        self.ev = []
        self.first = self.latest = None
        self.depth = world.get("depth")

    def _attach(self, n, fs, x):
        # frame sets may use the same references for their indicators
        ref = "I%d" if self.w.get("twins") else "I%%d_%d" % n
        ind = build_indicator(x[0], x[1], x[2], ref % len(self.inds[n]), bool(self.w.get("hollow")))
        r, _ = call(fs.add_indicator, ind)
        if r == "ok":
            self.inds[n].append((x, ind))
        return r

    def attach(self, n, x):
        r = self._attach(n, self.fs[n], x)
        self.look({"k": "attach", "at": n + 1, "ind": list(x), "ok": r})
        return r

    def look(self, ev):
        ev["o"] = self.looks.now()
        ev["fs"] = self.snapshots() if ev["o"] else []
        self.ev.append(ev)

    def tick(self, d, bid, ask, form=0):
        from estrade import Tick

        t = Tick(datetime=shape_datetime(d, form, self.w["tz"]), bid=bid, ask=ask)
        self.first = self.first or d
        self.latest = d
        self.keep.append(t)
        self.ticks[id(t)] = len(self.keep)
        return self.give(t, d)

    def tick_again(self):
        """The same tick object given once more"""
        return self.give(self.keep[-1], self.latest)

    def give(self, t, d):
        if self.w.get("alone"):     # frame sets without an epic, given their ticks themselves
            r = "ok"
            for fs in self.fs:
                r = call(fs.on_new_tick, t)[0] if r == "ok" else r
        else:
            r, _ = call(self.epic.on_new_tick, t)
        self.look({"k": "tick", "id": len(self.keep), "inst": inst(d),
                   "v": enc(guard(lambda: t.value)), "ok": r})
        return r

    def tid(self, t):
        return self.ticks.get(id(t), -1)

    def snapshots(self):
        return [self.snapshot(n) for n in range(len(self.fs))]

    def snapshot(self, n):
        fs = self.fs[n]
        frames = list(fs.frames)
        pos = {id(f): k for k, f in enumerate(frames)}
        full = [self.frame(n, frames, pos, k) for k in range(len(frames))]
        old = self.last[n]
        # each record as a short reference when it shows exactly what it showed before
        index = {}
        for k, (fid, rec) in enumerate(old):
            index[fid] = k
        out = []
        for k, rec in enumerate(full):
            j = index.get(id(frames[k]))
            if j is not None and old[j][1] == rec:
                out.append({"k": j + 1})
            else:
                out.append(rec)
        self.last[n] = [(id(frames[k]), full[k]) for k in range(len(frames))]
        self.keep_frames = getattr(self, "keep_frames", {})
        self.keep_frames[n] = frames  # identities stay valid between snapshots
        cur = guard(lambda: fs.current)
        snap = {"fr": out, "cur": 0 if cur is None else pos.get(id(cur), -2) + 1,
                "gf": [], "gi": []}
        if self.w.get("queries"):
            ref = "F%d" % n
            top = len(frames) + 2 if self.looks.often < 0.2 else min(len(frames) + 2, 9)
            for off in range(top):
                f = guard(self.epic.get_frame, ref, off) if off % 2 else guard(
                    self.epic.get_frame, frame_set_ref=ref, offset=off)
                snap["gf"].append(0 if f is None else pos.get(id(f), -2) + 1)
            for (x, ind) in self.inds[n]:
                row = []
                for off in range(top):
                    v = guard(self.epic.get_indicator_value, ref, ind.ref, off)
                    if v is None:
                        row.append(0)
                    else:
                        k = [k for k, f in enumerate(frames)
                             if guard(lambda: f[ind.ref]) is v]
                        row.append(k[0] + 1 if len(k) == 1 else -1)
                snap["gi"].append(row)
        return snap

    def frame(self, n, frames, pos, k):
        f = frames[k]

        def link(other, want):
            if other is None:
                return 0
            return 1 if pos.get(id(other)) == want else -1

        g = lambda name: guard(lambda: getattr(f, name))  # noqa
        rec = {
            "k": 0,
            "s": inst(g("period_start")),
            "e": [] if g("period_end") is None else [inst(g("period_end"))],
            "w": [wall(x) for x in (g("period_start"), g("period_end")) if x is not None],
            "n": nat(g("nb_ticks")),
            "f": self.tid(g("first_tick")), "a": self.tid(g("last_tick")),
            "h": self.tid(g("high_tick")), "l": self.tid(g("low_tick")),
            "hv": enc(guard(lambda: f.high_tick.value)),
            "lv": enc(guard(lambda: f.low_tick.value)),
            "p": link(g("previous_frame"), k - 1), "x": link(g("next_frame"), k + 1),
            "c": g("closed") is True,
            "iv": [],
        }
        for (x, ind) in self.inds[n]:
            v = guard(lambda: f.indicators.get(ind.ref))
            if v is None or v is BADNUM:
                rec["iv"].append([])
                continue
            h = lambda name: guard(lambda: getattr(v, name))  # noqa
            prev, nxt = h("previous"), h("next")
            rec["iv"].append([{
                "f": self.tid(h("first_tick")), "a": self.tid(h("last_tick")),
                "h": self.tid(h("high_tick")), "l": self.tid(h("low_tick")),
                "hv": enc(guard(lambda: v.high_tick.value)),
                "lv": enc(guard(lambda: v.low_tick.value)),
                "p": self.dist(frames, k, ind, prev, -1),
                "x": self.dist(frames, k, ind, nxt, +1),
                "n": nat(h("nb_ticks")), "c": h("closed") is True,
                "own": h("frame") is f and h("indicator") is ind,
                "o": outputs(x[0], x[2], v),
            }])
        return rec

    def dist(self, frames, k, ind, other, step):
        if other is None:
            return 0
        j = k + step
        while 0 <= j < len(frames):
            if guard(lambda: frames[j].indicators.get(ind.ref)) is other:
                return abs(j - k)
            j += step
        return -1

    def trace(self):
        if not self.looks.fresh:
            self.ev.append({"k": "look", "o": 1, "fs": self.snapshots()})
        w = self.w
        return {
            "tz": narrow_table(tz_table(w["tz"]), self.first or EPOCH, self.latest or EPOCH,
                               400 + 366 * max([f["q"] for f in w["fs"] if f["unit"] == "YEAR"] or [0])),
            "zone": w["tz"], "open": w["open"], "close": w["close"], "days": w["days"],
            "hol": [list(h) for h in w["hol"]], "alone": bool(w.get("alone")),
            "fs": [{"unit": UNITS.index(f["unit"]), "q": f["q"], "max": f["max"],
                    "inds": [list(x) for x in f["inds"]]} for f in w["fs"]],
            "ev": self.ev,
        }


def to_time(x):
    s, us = x
    return dt.time(s // 3600, s // 60 % 60, s % 60, us)


def shape_datetime(d, form, tz):
    """The same instant as arrow/python datetimes in various zones."""
    import arrow
    import pytz
    from dateutil import tz as dtz

    if form == 0:
        return arrow.get(d)
    if form == 1:
        return arrow.get(d).to(tz)
    if form == 2:
        return d
    if form == 3:
        return d.astimezone(zoneinfo.ZoneInfo(tz))
    if form == 4:
        return d.astimezone(pytz.timezone("America/New_York"))
    if form == 5:
        return d.astimezone(dt.timezone(dt.timedelta(hours=5, minutes=45)))
    if form == 6:
        return d.astimezone(dtz.gettz("Asia/Tokyo"))
    if form == 7:
        return arrow.get(d).to("US/Pacific")
    return arrow.get(d)


# --------------------------------------------------------------------------
# generators
# --------------------------------------------------------------------------
PROFILES = {
    "P19": dict(units=["SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "YEAR"], nfs=(1, 3),
                inds=[], n=(8, 26), gapmax=40),
    "P21": dict(units=["TICK"], nfs=(1, 3), inds=[], n=(10, 40), gapmax=0),
    "P22": dict(units=UNITS, nfs=(1, 2), inds=[], n=(10, 40), gapmax=6, dense=True),
    "P23": dict(units=UNITS, nfs=(1, 2), inds=[BASE, CANDLE], n=(8, 30), gapmax=12,
                gated=0.3, queries=True, small=True),
    "P24": dict(units=UNITS, nfs=(1, 2), inds=[BASE, BASE, CANDLE, SMA, PIVOT], n=(10, 30),
                gapmax=8, gated=0.6, late=0.5, session=True),
    "P25": dict(units=UNITS, nfs=(1, 1), inds=[CANDLE], n=(10, 30), gapmax=5, gated=0.25,
                must=[CANDLE], dense=True),
    "P26": dict(units=UNITS, nfs=(1, 1), inds=[HEIKIN], n=(10, 30), gapmax=5, gated=0.25,
                must=[HEIKIN]),
    "P27": dict(units=UNITS, nfs=(1, 1), inds=[SMA], n=(12, 40), gapmax=6, gated=0.25,
                must=[SMA], many=True, deep=True),
    "P28": dict(units=UNITS, nfs=(1, 1), inds=[RSI], n=(12, 40), gapmax=6, gated=0.2,
                must=[RSI], many=True),
    "P29": dict(units=UNITS, nfs=(1, 1), inds=[PIVOT, OLHC], n=(10, 30), gapmax=5, gated=0.25,
                must=[PIVOT, OLHC]),
}


def random_world(rnd, prof):
    tz = rnd.choice(ZONES) if rnd.random() < 0.75 else "UTC"
    if rnd.random() < 0.5:
        o, c = [9 * 3600 + 1800, 0], [17 * 3600 + 1800, 0]
    else:
        a, b = sorted(rnd.sample(range(0, 86400, 60), 2))
        o = [a, 0]
        c = [b, rnd.choice([0, 0, 1, 999999])]
    if rnd.random() < 0.2:
        o, c = [0, 0], [86399, 999999]
    days = rnd.choice([[], [0, 1, 2, 3, 4], [0, 1, 2, 3, 4, 5, 6], [5, 6], [1, 3],
                       sorted(rnd.sample(range(7), rnd.randint(1, 6)))])
    fss = []
    crowd = rnd.random() < 0.03
    for _ in range(rnd.randint(4, 6) if crowd else rnd.randint(*prof["nfs"])):
        unit = rnd.choice(prof["units"])
        q = rnd.choice(QUANTITIES[unit])
        if prof.get("many") and rnd.random() < 0.6:
            q = min(QUANTITIES[unit], key=lambda x: (x > 2, rnd.random()))
        mx = rnd.choice([1, 2, 3, 4, 5, 6, 8] if prof.get("small") else
                        [2, 3, 4, 5, 6, 8, 12, 20, 100])
        if prof.get("many"):
            mx = rnd.choice([3, 5, 8, 12, 16, 20, 30, 100])
        inds = []
        if prof["inds"]:
            for _ in range(rnd.randint(1, 3)):
                inds.append(random_ind(rnd, prof, q, mx))
        fss.append({"unit": unit, "q": q, "max": mx, "inds": inds})
    year = rnd.choice([1999, 2000, 2004, 2011, 2016, 2019, 2020, 2020, 2023, 2024])
    start = dt.datetime(year, rnd.randint(1, 12), rnd.randint(1, 28), rnd.randint(0, 23),
                        rnd.randint(0, 59), rnd.randint(0, 59),
                        rnd.choice([0, 0, 1, 500000, 999999]), tzinfo=UTC)
    r = rnd.random()
    if r < 0.35 and tz != "UTC":  # start close to an offset change
        tab = [e for e in tz_table(tz)[1:] if 10000 < e[0] < 20500]
        if tab:
            e = rnd.choice(tab)
            start = from_inst([e[0], e[1], 0]) - dt.timedelta(
                seconds=rnd.choice([0, 1, 60, 3600, 5400, 7200, 10800, 86400, 200000]))
    elif r < 0.5:
        start = dt.datetime(year, rnd.choice([2, 12, 12, 3, 1]), 28, 23, 50, 0, tzinfo=UTC)
    hol = []
    if rnd.random() < 0.4:
        for _ in range(rnd.randint(1, 3)):
            d = start + dt.timedelta(days=rnd.randint(0, 12))
            hol.append([d.year + rnd.choice([0] * 8 + [-1, 1]), d.month, min(d.day, 28)])
    return {"tz": tz, "open": o, "close": c, "days": days, "hol": hol, "fs": fss,
            "start": start, "queries": prof.get("queries", False),
            "twins": rnd.random() < 0.5, "hollow": rnd.random() < core.HOLLOW}


def random_ind(rnd, prof, q, mx):
    kind = rnd.choice(prof["inds"])
    gated = 1 if rnd.random() < prof.get("gated", 0) else 0
    p = 0
    if kind == SMA:
        p = rnd.choice([1, 1, 2, 3, 4, 5, 8, 8, 14, 30] if prof.get("deep") else [1, 2, 3, 5])
    if kind == RSI:
        if mx < 2:
            kind = BASE
        else:
            top = max(1, mx // q)
            p = min(rnd.choice([1, 1, 2, 3, 4, 5, 7, 14]), top)
            if p * q > mx:
                kind, p = SMA, 3
    return [kind, gated, p]


def step(rnd, prof, world, d):
    """The next instant, biased to grid boundaries of one of the frame sets."""
    f = rnd.choice(world["fs"])
    size = SECONDS[f["unit"]] * f["q"] if f["unit"] != "TICK" else 900
    z = zoneinfo.ZoneInfo(world["tz"])
    r = rnd.random()
    if prof.get("session") and r < 0.25:  # next opening or closing time, or close to it
        loc = d.astimezone(z)
        s, us = rnd.choice([world["open"], world["close"]])
        n = loc.replace(hour=s // 3600, minute=s // 60 % 60, second=s % 60, microsecond=us,
                        fold=0).astimezone(UTC)
        n += dt.timedelta(microseconds=rnd.choice([-1, 0, 0, 1, 1000000]))
        while n <= d:   # twice after a day of 25 hours
            n += dt.timedelta(days=1)
        return n
    if r < 0.08:
        return d
    if r < 0.15:
        return d + dt.timedelta(microseconds=rnd.choice([1, 2, 999999]))
    if prof.get("dense") and r < 0.6:
        return d + dt.timedelta(seconds=rnd.uniform(0, size / 6))
    if r < 0.35:
        return d + dt.timedelta(seconds=rnd.uniform(0, size / 2))
    if r < 0.50:
        return d + dt.timedelta(seconds=rnd.uniform(0, 1.5 * size))
    if r < 0.75:  # land on, or one microsecond around, a local boundary
        loc = d.astimezone(z).replace(microsecond=0)
        u = f["unit"]
        if u in ("TICK", "DAY", "WEEK"):
            loc = (loc + dt.timedelta(days=rnd.choice([1, 1, 2, 7]))).replace(
                hour=0, minute=0, second=0)
        elif u == "SECOND":
            loc = loc.replace(second=loc.second - loc.second % f["q"]) + dt.timedelta(
                seconds=f["q"] * rnd.choice([1, 1, 2]))
        elif u == "MINUTE":
            loc = loc.replace(second=0, minute=loc.minute - loc.minute % f["q"]) + dt.timedelta(
                minutes=f["q"] * rnd.choice([1, 1, 2]))
        elif u == "HOUR":
            loc = loc.replace(second=0, minute=0, hour=loc.hour - loc.hour % f["q"]) + dt.timedelta(
                hours=f["q"] * rnd.choice([1, 1, 2]))
        elif u == "MONTH":
            k = loc.year * 12 + loc.month - 1 + rnd.choice([1, 1, f["q"]])
            loc = loc.replace(year=k // 12, month=k % 12 + 1, day=1, hour=0, minute=0, second=0)
        else:
            loc = loc.replace(year=loc.year + rnd.choice([1, f["q"]]), month=1, day=1, hour=0,
                              minute=0, second=0)
        n = loc.astimezone(UTC) + dt.timedelta(microseconds=rnd.choice([-1, 0, 0, 0, 1]))
        return n if n >= d else d
    if r < 0.9 and prof["gapmax"]:
        return d + dt.timedelta(seconds=size * rnd.uniform(1, prof["gapmax"]))
    return d + dt.timedelta(seconds=rnd.choice([1, 59, 3599, 3600, 86399, 86400])
                            if size <= 86400 and prof["gapmax"] and size > 3600 or f["unit"] == "TICK"
                            else rnd.uniform(0, 3 * size))


def start_after(f, loc):
    """Is the grid point before loc skipped, and moved out of the gap to a moment after loc?
    (a known finding: only a gap shorter than an hour and a quantity not dividing it do this)"""
    if f["unit"] == "MINUTE":
        s = loc.replace(minute=loc.minute - loc.minute % f["q"], second=0, microsecond=0, fold=0)
    else:
        s = loc.replace(second=loc.second - loc.second % f["q"], microsecond=0, fold=0)
    return s.astimezone(UTC) > loc.astimezone(UTC)


def recrossed(loc):
    """Is loc in the second pass of a local hour that has a full hour inside it, and before it?
    (a known finding, America/St_Johns until 2011: 00:01 was set back to 23:01)"""
    if not loc.fold or not ambiguous(loc):
        return False
    end = loc
    while ambiguous(end):           # the first minute after the repeated hour
        end = (end.astimezone(UTC) + dt.timedelta(minutes=1)).astimezone(loc.tzinfo)
    return end.minute > 0 and loc.replace(fold=0) < end.replace(minute=0, second=0, microsecond=0)


def usable(world, d, prev, reach=60):
    """Ticks the frame-set property can be decided on (see DESIGN.md, repeated hours),
    and gaps small enough to be filled in reasonable time."""
    if d.year > 2034:
        return False
    for f in world["fs"]:
        if f["unit"] == "YEAR" and d.year + f["q"] > 2036:
            return False  # dateutil knows no clock changes after 2037
        if f["unit"] in ("SECOND", "MINUTE"):
            if ambiguous(d.astimezone(zoneinfo.ZoneInfo(world["tz"]))):
                return False
            if start_after(f, d.astimezone(zoneinfo.ZoneInfo(world["tz"]))):
                return False
        if f["unit"] != "TICK":
            if recrossed(d.astimezone(zoneinfo.ZoneInfo(world["tz"]))):
                return False
            size = SECONDS[f["unit"]] * f["q"]
            if prev is not None and (d - prev).total_seconds() > reach * size:
                return False
    return True


def random_price(rnd, v, mode):
    """A mid price walk in cents; returns (cents, bid, ask)."""
    if mode == "flat":
        stepv = rnd.choice([0, 0, 0, 1, -1])
    elif mode == "up":
        stepv = rnd.randint(0, 30)
    elif mode == "down":
        stepv = -rnd.randint(0, 30)
    elif mode == "jump":
        stepv = rnd.randint(-400, 400)
    elif mode == "zero":
        v, stepv = 0, rnd.choice([0, 0, 0, 1, -1, 2, -2])
    else:
        stepv = rnd.randint(-9, 9)
    v += stepv
    spread = rnd.choice([0, 2, 2, 4, 10, 1, 3])
    bid = v - spread // 2
    ask = bid + spread
    if rnd.random() < 0.3 and bid % 100 == 0 and ask % 100 == 0:
        return v, bid // 100, ask // 100
    return v, bid / 100, ask / 100


def random_history(rnd, pid, looks=None):
    prof = PROFILES[pid]
    world = random_world(rnd, prof)
    long = rnd.random() < core.LONG
    if long and prof.get("small"):
        for f in world["fs"]:
            f["max"] = rnd.choice([30, 60, 100, 150])
    if not prof.get("queries") and rnd.random() < 0.06:
        world["alone"] = all(f["unit"] != "TICK" for f in world["fs"])
    reach = 60
    if prof["gapmax"] and pid != "P28" and not long and rnd.random() < 0.05:
        prof = dict(prof, gapmax=700)
        reach = 600
    rec = Recorder(world, looks)
    n = rnd.randint(*prof["n"])
    if reach > 60:
        n = min(n, 12)
    if long:
        n = 5 * n + 50
        rec.looks.seldom()
    d = world["start"]
    mode = rnd.choice(["walk", "walk", "walk", "up", "down", "jump", "flat", "zero"])
    v = rnd.choice([0, 1234, 10000, -300, 150000, 5])
    prev = None
    for k in range(n):
        for _ in range(60):
            if usable(world, d, prev, reach):
                break
            base = prev if prev is not None else world["start"]
            d = step(rnd, prof, world, base)
            if prev is None:
                d += dt.timedelta(hours=rnd.randint(1, 5))
        else:
            break
        if rnd.random() < 0.05:
            mode = rnd.choice(["walk", "up", "down", "jump", "flat", "zero"])
        v, bid, ask = random_price(rnd, v, mode)
        r = rec.tick(d, bid, ask, rnd.choice([1, 3]) if world.get("alone") else
                     rnd.randint(0, 7) if rnd.random() < 0.4 else 0)
        if r == "hang":
            break
        prev = d
        if rnd.random() < prof.get("late", 0.0) * 0.15:
            j = rnd.randrange(len(world["fs"]))
            rec.attach(j, random_ind(rnd, prof, world["fs"][j]["q"], world["fs"][j]["max"]))
        if rnd.random() < 0.03:
            rec.tick_again()
        if pid == "P28" and rnd.random() < 0.06:
            j = rnd.randrange(len(world["fs"]))
            f = world["fs"][j]
            rec.attach(j, [RSI, 0, max(1, f["max"] // f["q"]) + rnd.randint(0, 1)]
                       if f["max"] >= 2 else [SMA, 0, 2])
        d = step(rnd, prof, world, d)
    return rec.trace()


def history(pid, seed, k):
    key = "%s/%s/%s" % (pid, seed, k)
    return random_history(random.Random(key), pid, key)
