"""Drives real epics, strategies, trades and providers and records every public observable.

`Session` executes one operation at a time on the code under test and appends an event with
the operation, its outcome and whatever became observably different.  Which operations are
executed is decided by the generators at the end (random) or by behaviours of the
specification (module replay).
"""
import csv
import datetime as dt
import gc
import os
import random
import re
import shutil
import tempfile
import threading
import time
import zlib
import zoneinfo

import core
from core import (BADNUM, EPOCH, UTC, Looks, blocked, call, call_here, enc, from_inst, guard, hollow,
                  inst, live_threads, nat, narrow_table, opt, scratch, settle, tz_table, wall)
from frames import (UNITS, ZONES, build_indicator, shape_datetime, to_time)

BUY, SELL = 1, -1
OPENEV, CLOSEEV, MKT, EVERY = 1, 2, 3, 4
EMPTY = {"ep": [], "st": [], "pv": [], "t": []}


def money(u):
    """Units of 0.0001 -> the number handed to the code under test."""
    if u % 10000 == 0 and (u // 10000) % 2 == 0:
        return u // 10000
    return u / 10000


class Boom(Exception):
    """Raised by a strategy."""


def failure(rnd):
    """Some exception a strategy might raise"""
    import builtins

    from estrade import exceptions

    if rnd.random() < 0.4:
        return Boom("strategy failure")
    kinds = []
    for module in (builtins, exceptions):
        for name, x in sorted(vars(module).items()):
            if isinstance(x, type) and issubclass(x, Exception):
                kinds.append(x)
    while True:
        try:
            return rnd.choice(kinds)("strategy failure")
        except TypeError:      # built from something else
            pass


def long_name(n):
    """The reference number n: some are long, and differ at their end only"""
    return "R%d" % n if n % 3 else "R-broker-order-of-the-fifth-of-november-2019-%d" % n


def label(ref=0, meta=0, st=0):
    """Reference, metadata and status given to a trade or a close (0: not given)."""
    from estrade.enums import TransactionStatus

    kw = {}
    if ref:
        kw["ref"] = long_name(ref)
    if meta:
        kw["meta"] = {"n": meta}
    if st:
        kw["status"] = TransactionStatus(st)
    return kw


NO_DIRECTION = (None, 0, 2, "long", "", -2, (), 0.5)
NO_MOMENT = (dt.datetime(2020, 1, 6, 10), None, "2020-01-06T10:00:00Z", dt.date(2020, 1, 6), 0,
             1578304800, dt.datetime(1970, 1, 1), "")


class Gate:
    """Holds provider requests until they are told to finish, well or not."""

    def __init__(self):
        self.lock = threading.Lock()
        self.held = {}       # id(what) -> (event, thread); what is being requested
        self.result = {}     # id(what) -> finish with an exception?
        self.open = False
        self.first = len(live_threads())

    def hold(self, what):
        e = threading.Event()
        with self.lock:
            if self.open:
                return
            self.held.setdefault(id(what), []).append(e)
        e.wait(120)
        if self.result.get(id(what)):
            raise RuntimeError("provider failure")

    def release(self, what, fail):
        self.result[id(what)] = fail
        with self.lock:
            events = self.held.pop(id(what), [])
        for e in events:
            e.set()

    def release_all(self):
        with self.lock:
            self.open = True
            events = [e for es in self.held.values() for e in es]
            self.held.clear()
        for e in events:
            e.set()

    def waiting(self):
        with self.lock:
            return sum(len(es) for es in self.held.values())

    def quiesce(self, limit=5.0):
        """Until every running thread is held (or nothing has moved for a while)."""
        end = still = time.time()
        end += limit
        shape = None
        while time.time() < end:
            now = (len(live_threads()) - self.first, self.waiting())
            if now[0] == now[1]:
                return
            if now != shape:
                shape, still = now, time.time()
            elif time.time() - still > 1.0:
                return
            time.sleep(0.0005)


def build_classes(gate=None):
    from estrade import BaseStrategy, BaseTradeProvider, Trade
    from estrade.enums import TransactionStatus
    from estrade.trade_provider import TradeProviderBacktests

    class Recording:
        def count(self, what):
            self.requests[id(what)] = self.requests.get(id(what), 0) + 1
            self.kept.append(what)

    class Backtest(Recording, TradeProviderBacktests):
        def open_trade_request(self, trade):
            self.count(trade)
            if gate:
                gate.hold(trade)
            return TradeProviderBacktests.open_trade_request(self, trade)

        def close_trade_request(self, trade_close):
            self.count(trade_close)
            if gate:
                gate.hold(trade_close)
            return TradeProviderBacktests.close_trade_request(self, trade_close)

    class Live(Recording, BaseTradeProvider):
        fail = 0

        def request(self, what):
            self.count(what)
            if gate:
                gate.hold(what)
            if self.fail == 1 or self.fail == 2 and isinstance(what, Trade):
                raise RuntimeError("provider failure")
            what.status = TransactionStatus.PENDING
            return what

        def open_trade_request(self, trade):
            return self.request(trade)

        def close_trade_request(self, trade_close):
            return self.request(trade_close)

    class Strategy(BaseStrategy):
        session = None
        number = 0

        def on_market_open(self, epic):
            self.session.callback(self, OPENEV, epic)

        def on_market_close(self, epic):
            self.session.callback(self, CLOSEEV, epic)

        def on_every_tick_market_open(self, epic):
            self.session.callback(self, MKT, epic)

        def on_every_tick(self, epic):
            self.session.callback(self, EVERY, epic)

    return Backtest, Live, Strategy


def watch(p, gate):
    """Record the requests of a provider the epic made for itself."""
    def watched(name):
        real = getattr(p, name)

        def request(*a, **k):
            what = list(a + tuple(k.values()))[0]
            p.requests[id(what)] = p.requests.get(id(what), 0) + 1
            p.kept.append(what)
            if gate:
                gate.hold(what)
            return real(*a, **k)

        return request

    if not hasattr(p, "requests"):
        p.requests, p.kept = {}, []
        p.open_trade_request = watched("open_trade_request")
        p.close_trade_request = watched("close_trade_request")


class Dead(Exception):
    """The session ended (a hang, or an operation that left nothing to work with)."""


class Session:
    def __init__(self, world, looks=None):
        from estrade import Epic

        self.looks = Looks(looks)
        self.gate = Gate() if world.get("gated") else None
        bare = bool(world.get("hollow"))
        Backtest, Live, Strategy = [hollow(c, bare) for c in build_classes(self.gate)]
        Epic = hollow(Epic, bare)
        self.w = world
        self.nested = None          # called inside every callback: nested(session, strategy, name)
        self.ev = []
        self.ticks, self.keep, self.given = {}, [], {}
        self.trades, self.tnum = [], {}
        self.closes, self.cnum = [], {}
        self.last = {"ep": {}, "st": {}, "pv": {}, "t": {}}
        self.depth = 0
        self.ticking = []           # epics being ticked, innermost last
        self.expected = None        # exception a callback is raising
        self.lo = self.hi = None
        self.providers = []
        own = {c["pv"] for c in world["ep"] if c.get("own")}
        for n, bt in enumerate(world["pv"]):
            if n + 1 in own:
                self.providers.append(None)
                continue
            p = (Backtest if bt else Live)(ref="P%d" % n)
            p.requests, p.kept = {}, []
            if not bt:
                p.fail = world.get("fail", 0)
            self.providers.append(p)
        self.strategies = []
        quoted = world.get("quoted")
        for n in range(world["nst"]):
            s = Strategy(ref=('s, "%d"; é' if quoted else "S%d") % n)
            s.session, s.number = self, n + 1
            self.strategies.append(s)
        self.epics, self.fsets = [], []
        for n, c in enumerate(world["ep"]):
            kw = {} if c.get("own") else {"trade_provider": self.providers[c["pv"] - 1]}
            if c["hol"] or not c.get("own"):
                kw["holidays"] = [dt.date(*h) for h in c["hol"]]
            e = Epic(timezone=c["tz"], open_time=to_time(c["open"]), close_time=to_time(c["close"]),
                     trade_days=list(c["days"]) or None, ref="E" if world.get("twins") else
                     ('"E", %d' if quoted else "E%d") % n, **kw)
            if c.get("own"):
                self.providers[c["pv"] - 1] = e.trade_provider
                watch(e.trade_provider, self.gate)
            sets = []
            for f in c["fs"]:
                sets.append(self.new_frame_set(e, len(sets), f))
            self.fsets.append(sets)
            self.epics.append(e)
            for s in c["regs"]:
                e.add_strategy(self.strategies[s - 1])
        self.see({"k": "start", "ok": "ok"})

    def new_frame_set(self, epic, m, f):
        from estrade.enums import Unit
        from estrade.graph import FrameSet

        fs = hollow(FrameSet, bool(self.w.get("hollow")))(
            Unit[f["unit"]], f["q"], ref="F%d" % m, max_frames_in_memory=f["max"])
        inds = []
        for x in f["inds"]:
            ref = "I%d" % len(inds) if self.w.get("twins") else "I%d_%d" % (m, len(inds))
            ind = build_indicator(x[0], x[1], x[2], ref, bool(self.w.get("hollow")))
            fs.add_indicator(ind)
            inds.append(ind)
        epic.add_frame_set(fs)
        return fs, inds

    # ---------------------------------------------------------------- numbers
    def tid(self, t):
        return self.ticks.get(id(t), 0)

    def know_tick(self, t):
        self.keep.append(t)
        self.ticks[id(t)] = len(self.keep)
        return len(self.keep)

    def know_trade(self, t):
        if id(t) not in self.tnum:
            self.trades.append(t)
            self.tnum[id(t)] = len(self.trades)
        return self.tnum[id(t)]

    def know_close(self, c):
        if id(c) not in self.cnum:
            self.closes.append(c)
            self.cnum[id(c)] = len(self.closes)
        return self.cnum[id(c)]

    def number(self, group, x):
        for n, y in enumerate(group):
            if y is x:
                return n + 1
        return 0

    # ---------------------------------------------------------------- observation
    def see_epic(self, n):
        e = self.epics[n]
        t = guard(lambda: e.last_tick)
        parts = []
        for fs, inds in self.fsets[n]:
            for f in list(fs.frames):
                g = lambda name: self.tid(guard(lambda: getattr(f, name)))  # noqa
                parts.append([g("first_tick"), g("last_tick"), g("high_tick"), g("low_tick"),
                              nat(guard(lambda: f.nb_ticks)), inst(guard(lambda: f.period_start))])
                for ind in inds:
                    v = guard(lambda: f.indicators.get(ind.ref))
                    parts.append(0 if v is None else [
                        self.tid(guard(lambda: getattr(v, a)))
                        for a in ("first_tick", "last_tick", "high_tick", "low_tick")])
        return {
            "last": self.tid(t), "inst": inst(guard(lambda: t.datetime)),
            "w": wall(guard(lambda: t.datetime)), "flag": guard(lambda: e.market_open) is True,
            "imo": guard(e.is_market_open) is True,
            "dig": "%08x" % zlib.crc32(repr(parts).encode()),
        }

    def see_strategy(self, n):
        s = self.strategies[n]
        p = guard(lambda: s.paused_until)
        return {"stop": bool(guard(lambda: s.stopped)), "pause": [] if p is None else [inst(p)],
                "tr": [self.tnum.get(id(t), 0) for t in guard(lambda: s.trades)]}

    def see_provider(self, n):
        p = self.providers[n]
        op = guard(lambda: p.opened_trades)
        return {"tr": [self.tnum.get(id(t), 0) for t in guard(lambda: p.trades)],
                "op": [self.tnum.get(id(t), 0) for t in op] if op != BADNUM else [0],
                "alive": bool(guard(lambda: p.is_alive))}

    def status(self, x):
        v = guard(lambda: x.status.value)
        return v if isinstance(v, int) else BADNUM

    def dirnum(self, d):
        v = guard(lambda: d.value)
        return v if isinstance(v, int) else 0

    def see_label(self, x):
        """[given reference or 0, metadata], fingerprint of the reference"""
        ref, meta = guard(lambda: x.ref), guard(lambda: x.meta)
        n = BADNUM
        if isinstance(ref, str) and ref:
            m = re.match(r"R\D*(\d+)$", ref.replace("2019-", ""))
            n = int(m.group(1)) if m and long_name(int(m.group(1))) == ref else 0
        if meta == {}:
            v = 0
        else:
            v = meta["n"] if isinstance(meta, dict) and list(meta) == ["n"] else BADNUM
        return [n, v], zlib.crc32(repr(ref).encode()) % 10**9

    def see_trade(self, t):
        g = lambda name: guard(lambda: getattr(t, name))  # noqa
        req = {}
        for p in self.providers:
            req.update(p.requests)
        closes = []
        for c in g("closes"):
            lab, rh = self.see_label(c)
            closes.append({
                "lab": lab, "rh": rh, "of": self.tnum.get(id(guard(lambda: c.trade)), 0),
                "id": self.know_close(c), "q": nat(guard(lambda: c.quantity)),
                "v": enc(guard(lambda: c.close_value)), "at": inst(guard(lambda: c.datetime)),
                "w": wall(guard(lambda: c.datetime)),
                "res": enc(guard(lambda: c.result)), "avg": enc(guard(lambda: c.result_avg)),
                "st": self.status(c), "rq": req.get(id(c), 0)})
        a = guard(t.asdict)
        if not isinstance(a, dict):
            a = {}
        lab, rh = self.see_label(t)
        return {
            "lab": lab, "rh": rh,
            "own": (a.get("ref") == guard(lambda: t.ref)
                    and a.get("epic") == guard(lambda: t.epic.ref)
                    and a.get("strategy") == guard(lambda: "undefined" if t.strategy is None else t.strategy.ref)),
            "e": self.number(self.epics, g("epic")), "s": self.number(self.strategies, g("strategy")),
            "dir": self.dirnum(g("direction")), "oq": nat(g("open_quantity")),
            "at": inst(g("datetime")), "w": wall(g("datetime")), "ov": enc(g("open_value")), "cv": enc(g("current_close_value")),
            "mx": enc(g("max_result")), "mn": enc(g("min_result")),
            "opq": nat(g("opened_quantities")), "clq": nat(g("closed_quantities")),
            "closed": g("closed") is True, "res": enc(g("result")), "ravg": enc(g("result_avg")),
            "ores": enc(g("opened_result")), "oavg": enc(g("opened_result_avg")),
            "cres": enc(g("closed_result")), "cavg": enc(g("closed_result_avg")),
            "st": self.status(t), "rq": req.get(id(t), 0), "cl": closes,
            "asd": [nat(a.get("open_quantity")), enc(a.get("open_value")),
                    nat(a.get("closed_quantities")), enc(a.get("result")),
                    self.dirnum(a.get("direction")),
                    guard(lambda: a["status"].value)],
        }

    def delta(self):
        if self.gate:
            self.gate.quiesce()
        else:
            settle()
        d = {"ep": [], "st": [], "pv": [], "t": []}
        for key, count, see in (
            ("t", len(self.trades), lambda n: self.see_trade(self.trades[n])),
            ("ep", len(self.epics), self.see_epic), ("st", len(self.strategies), self.see_strategy),
            ("pv", len(self.providers), self.see_provider),
        ):
            for n in range(count):
                o = see(n)
                if self.last[key].get(n) != o:
                    self.last[key][n] = o
                    d[key].append({"i": n + 1, "o": o})
        return d

    def look(self, ev, e=0):
        """What there is to see after (or, in a callback of epic e, during) an operation"""
        ev["o"] = self.looks.now()
        if ev["o"]:
            return self.see(ev, e)
        if self.gate:
            self.gate.quiesce()
        else:
            settle()
        ev["d"] = EMPTY
        self.ev.append(ev)

    def see(self, ev, e=0):
        ev.setdefault("o", 2)
        if e:
            ev["fr"] = self.frame_views(e - 1)
        ev["d"] = self.delta()
        self.ev.append(ev)

    def emit(self, ev, e=0):
        self.look(ev, e)
        if ev.get("ok") == "hang":
            raise Dead()

    def frame_views(self, n):
        out = []
        for fs, inds in self.fsets[n]:
            f = guard(lambda: fs.current)
            if f is None or f is BADNUM:
                out.append({"m": 0, "n": 0, "f": 0, "a": 0, "s": [0, 0, 0], "iv": []})
                continue
            iv = []
            for ind in inds:
                v = guard(lambda: f.indicators.get(ind.ref))
                iv.append([0, 0] if v is None or v is BADNUM else
                          [self.tid(guard(lambda: v.first_tick)), self.tid(guard(lambda: v.last_tick))])
            out.append({"m": len(fs.frames), "n": nat(guard(lambda: f.nb_ticks)),
                        "f": self.tid(guard(lambda: f.first_tick)),
                        "a": self.tid(guard(lambda: f.last_tick)),
                        "s": inst(guard(lambda: f.period_start)), "iv": iv})
        return out

    # ---------------------------------------------------------------- operations
    def seen_time(self, d):
        self.lo = d if self.lo is None else min(self.lo, d)
        self.hi = d if self.hi is None else max(self.hi, d)

    def make_tick(self, e, d, bid, ask, form=0):
        from estrade import Tick

        self.seen_time(d)
        return Tick(datetime=shape_datetime(d, form, self.w["ep"][e - 1]["tz"]),
                    bid=money(bid), ask=money(ask))

    def tick(self, e, d, bid, ask, form=0):
        """A new tick on epic e at the instant d with prices in units."""
        t = self.make_tick(e, d, bid, ask, form)
        return self.give(self.know_tick(t), e, d, bid, ask, t)

    def tick_again(self, e):
        """The tick object given to epic e last, given to it again."""
        return self.give(*self.given[e])

    def give(self, n, e, d, bid, ask, t):
        self.given[e] = (n, e, d, bid, ask, t)
        self.ev.append({"k": "tb", "e": e, "id": n, "inst": inst(d), "bid": bid, "ask": ask,
                        "v": enc(guard(lambda: t.value)), "d": EMPTY})
        self.depth += 1
        self.ticking.append(e)
        got = []

        def run():
            try:
                self.epics[e - 1].on_new_tick(t)
            except Exception as x:
                got.append(x)
                raise

        ok, _ = call(run)
        self.ticking.pop()
        self.depth -= 1
        same = not got or self.expected is None or got[0] is self.expected
        self.expected = None
        self.emit({"k": "te", "ok": ok, "same": same, "fr": []}, e)
        self.caught = got[0] if got else None
        return ok

    def fail(self, strategy, e, x):
        """The callback being executed raises x."""
        self.ev.append({"k": "raise", "e": e, "s": strategy.number, "d": EMPTY})
        self.expected = x
        raise x

    def callback(self, strategy, name, epic):
        e = self.number(self.epics, epic)
        self.look({"k": "cb", "e": e, "s": strategy.number, "n": name, "fr": []}, e)
        if self.nested:
            self.nested(self, strategy, name, e)

    def open(self, how, e, s, direction, q, reg=True, via=0, **a):
        from estrade import Trade
        from estrade.enums import TradeDirection

        epic = self.epics[e - 1]
        strategy = self.strategies[s - 1] if s else None
        kw = {"direction": TradeDirection(direction), "quantity": q}
        if strategy is not None:
            kw["strategy"] = strategy
        lab = a.get("lab") or (0, 0, 0)
        kw.update(label(*lab))
        ev = {"k": "open", "how": how, "e": e, "s": s, "dir": direction, "q": q, "reg": reg,
              "lab": list(lab)}

        def run():
            if how == "epic":
                if reg and via == 0 and strategy is not None:
                    del kw["strategy"]
                    return strategy.open_trade(epic=epic, **kw)
                if reg and via <= 1:
                    return epic.open_trade(**kw)
                t = Trade.open_from_epic(epic=epic, **kw)
            elif how == "tick":
                t = Trade.open_from_tick(tick=tick, epic=epic, **kw)
            else:
                t = Trade(open_value=money(a["ov"]), open_datetime=a["d"], epic=epic,
                          current_close_value=None if a.get("cv") is None else money(a["cv"]), **kw)
            if reg:
                epic.trade_provider.open_trade(t)
            return t

        if how == "tick":
            tick = self.make_tick(e, a["d"], a["bid"], a["ask"])
            ev.update(bid=a["bid"], ask=a["ask"], inst=inst(a["d"]))
        elif how == "ctor":
            self.seen_time(a["d"])
            ev.update(ov=a["ov"], cv=[] if a.get("cv") is None else [a["cv"]], inst=inst(a["d"]))
        ok, t = self.guarded(run)
        ev["ok"] = ok
        ev["t"] = self.know_trade(t) if t is not None else 0
        self.emit(ev)
        if t is None:
            raise Dead()
        return ev["t"]

    def close(self, how, t, q=None, req=True, via=0, **a):
        trade = self.trades[t - 1]
        kw = {} if q is None else {"quantity": q}
        lab = a.get("lab") or (0, 0, 0)
        kw.update(label(*lab))
        ev = {"k": "close", "how": how, "t": t, "q": [] if q is None else [q],
              "req": bool(req) and how == "market", "lab": list(lab)}

        def run():
            if how == "market":
                if not req:
                    return trade.close_from_epic(**kw)
                if via == 0 and trade.strategy is not None:
                    return trade.strategy.close_trade(trade=trade, **kw)
                return trade.epic.close_trade(trade, **kw)
            if how == "tick":
                return trade.close_from_tick(tick, **kw)
            return trade.close(close_value=money(a["v"]), datetime=a["d"], **kw)

        if how == "tick":
            e = self.number(self.epics, trade.epic)
            tick = self.make_tick(e, a["d"], a["bid"], a["ask"])
            ev.update(bid=a["bid"], ask=a["ask"], inst=inst(a["d"]))
        elif how == "value":
            self.seen_time(a["d"])
            ev.update(v=a["v"], inst=inst(a["d"]))
        ok, c = self.guarded(run)
        ev["ok"] = ok
        ev["c"] = self.know_close(c) if c is not None else 0
        self.emit(ev)

    def closeall(self, s, q=None):
        kw = {} if q is None else {"quantity": q}
        ok, _ = self.guarded(lambda: self.strategies[s - 1].close_opened_trades(**kw))
        self.emit({"k": "closeall", "s": s, "q": [] if q is None else [q], "ok": ok})

    def asked(self):
        return sum(sum(p.requests.values()) for p in self.providers)

    def refuse(self, what, e=1, s=0, t=0, c=0, bad=0, via=0, q=None, v=0, watch=False):
        """An order that cannot be taken: a direction that is none, a moment that is none.

        With watch, what there is to see is looked at just before and just after."""
        from estrade import Trade
        from estrade.enums import TradeDirection

        epic = self.epics[e - 1]
        trade = self.trades[t - 1] if t else None
        if what == "direction":
            kw = {"direction": NO_DIRECTION[bad % len(NO_DIRECTION)], "quantity": q}
        else:
            moment = NO_MOMENT[bad % len(NO_MOMENT)]
            kw = {} if q is None else {"quantity": q}

        def run():
            if what == "direction":
                if s and via == 0:
                    return self.strategies[s - 1].open_trade(epic=epic, **kw)
                if s:
                    kw["strategy"] = self.strategies[s - 1]
                if via <= 1:
                    return epic.open_trade(**kw)
                if via == 2:
                    return epic.trade_provider.open_trade(Trade.open_from_epic(epic=epic, **kw))
                return epic.trade_provider.open_trade(
                    Trade.open_from_tick(tick=epic.last_tick, epic=epic, **kw))
            if what == "opened":
                return epic.trade_provider.open_trade(Trade(
                    direction=TradeDirection.BUY if via % 2 else TradeDirection.SELL,
                    open_value=money(v), open_datetime=moment, epic=epic,
                    strategy=self.strategies[s - 1] if s else None, **kw))
            if what == "closed":
                close = trade.close(close_value=money(v), datetime=moment, **kw)
                return trade.epic.trade_provider.close_trade(close)
            (trade.closes[c - 1] if c else trade).datetime = moment

        if watch:
            o = 2 if self.looks.fresh else 1
            self.looks.fresh = True
            self.see({"k": "look", "o": o})
        before = self.asked()
        ok, _ = self.guarded(run)
        if self.gate:
            self.gate.quiesce()
        else:
            settle()
        ev = {"k": "refuse", "what": what, "ok": ok, "ref": ok.startswith("estrade:"),
              "rq": self.asked() - before}
        if watch and ok != "hang":
            self.see(dict(ev, o=2))
        else:
            self.emit(ev)

    def note(self, t, c, v):
        """Metadata of a trade (or of its close c) changed in place."""
        def run():
            x = self.trades[t - 1]
            (x.closes[c - 1] if c else x).meta["n"] = v

        ok, _ = call(run)
        self.emit({"k": "note", "t": t, "c": c, "v": v, "ok": ok})

    def update(self, how, t, **a):
        trade = self.trades[t - 1]
        ev = {"k": "update", "how": how, "t": t}
        if how == "value":
            ev["v"] = a["v"]
            ok, _ = call(trade.update, money(a["v"]))
        elif how == "tick":
            e = self.number(self.epics, trade.epic)
            tick = self.make_tick(e, a["d"], a["bid"], a["ask"])
            ev.update(bid=a["bid"], ask=a["ask"])
            ok, _ = call(trade.update_from_tick, tick)
        else:
            ok, _ = call(trade.update_from_epic)
        ev["ok"] = ok
        self.emit(ev)

    def pause(self, s, until, form=0, zone="UTC"):
        if until is not None:
            self.seen_time(until)

        def run():
            self.strategies[s - 1].paused_until = (
                None if until is None else shape_datetime(until, form, zone))

        ok, _ = call(run)
        self.emit({"k": "pause", "s": s, "until": [] if until is None else [inst(until)], "ok": ok})

    def stop(self, s, on=True):
        def run():
            self.strategies[s - 1].stopped = on

        ok, _ = call(run)
        self.emit({"k": "stop", "s": s, "on": on, "ok": ok})

    def register(self, e, s):
        ok, _ = call(self.epics[e - 1].add_strategy, self.strategies[s - 1])
        self.emit({"k": "reg", "e": e, "s": s, "ok": ok})

    def add_frame_set(self, e, f):
        def run():
            self.fsets[e - 1].append(self.new_frame_set(self.epics[e - 1], len(self.fsets[e - 1]), f))

        ok, _ = call(run)
        self.emit({"k": "addfs", "e": e, "ok": ok,
                   "fs": {"unit": UNITS.index(f["unit"]), "q": f["q"], "max": f["max"],
                          "inds": [list(x) for x in f["inds"]]}})

    def configure(self, e, c, inplace=False, zone=None):
        """Change hours, days, holidays (possibly by editing the lists) and the timezone."""
        epic = self.epics[e - 1]
        hol = [dt.date(*h) for h in c["hol"]]

        def run():
            epic.open_time, epic.close_time = to_time(c["open"]), to_time(c["close"])
            if inplace:
                epic.trade_days[:] = c["days"]
                epic.holidays[:] = hol
            else:
                epic.trade_days, epic.holidays = list(c["days"]), hol
            if zone:
                epic.timezone = zone

        ok, _ = call(run)
        self.emit({"k": "cfg", "e": e, "open": c["open"], "close": c["close"], "days": c["days"],
                   "hol": [list(h) for h in c["hol"]], "tz": [zone] if zone else [], "ok": ok})

    def ask_active(self, s, d, form=0, zone="UTC"):
        self.seen_time(d)
        ok, out = call(self.strategies[s - 1].is_active, shape_datetime(d, form, zone))
        self.emit({"k": "active", "s": s, "inst": inst(d), "out": out is True, "ok": ok})

    def ask_trades(self, s, eps=None, oo=False, after=None, form=0, zone="UTC", defaults=True):
        kw = {}
        if eps is not None or not defaults:
            kw["epics"] = None if eps is None else [self.epics[e - 1] for e in eps]
        if oo or not defaults:
            kw["open_only"] = oo
        if after is not None or not defaults:
            kw["only_after"] = None if after is None else shape_datetime(after, form, zone)
        if after is not None:
            self.seen_time(after)
        ok, out = call(lambda: list(self.strategies[s - 1].get_trades(**kw)))
        self.emit({"k": "trades", "s": s, "eps": [] if eps is None else [eps], "oo": oo,
                   "after": [] if after is None else [inst(after)], "ok": ok,
                   "out": [self.tnum.get(id(t), 0) for t in out or []]})

    def ask_figures(self, s, ids=None, form="list"):
        strategy = self.strategies[s - 1]

        def given():
            if ids is None:
                return {}
            ts = [self.trades[k - 1] for k in ids]
            if form == "generator":
                return {"trades": (t for t in ts)}
            if form == "tuple":
                return {"trades": tuple(ts)}
            return {"trades": ts}

        ok, out = call(lambda: (strategy.result(**given()), strategy.profit_factor(**given())))
        self.emit({"k": "figures", "s": s, "ids": [] if ids is None else [list(ids)],
                   "res": enc(out[0]) if out else BADNUM, "pf": enc(out[1]) if out else BADNUM,
                   "ok": ok})

    # ---------------------------------------------------------------- held requests
    def guarded(self, f):
        """Run f, giving up when it waits for a held request."""
        if not self.gate:
            return call(f)
        done = []
        self.gate.first += 1
        held = self.gate.waiting()

        def run():
            since = blocked()
            r = call_here(f)
            # it slept although nothing but held requests can have made it wait
            done.append(("hang", None) if held and blocked() - since > 0.4 else r)

        t = threading.Thread(target=run, daemon=True)
        t.start()
        t.join(20)
        self.gate.first -= 1
        if not done:
            self.gate.release_all()
            t.join(20)
            return "hang", None
        return done[0]

    def running(self):
        """[(provider, trade, close number or 0), ...] held at the moment"""
        out = []
        with self.gate.lock:
            held = set(self.gate.held)
        for k, t in enumerate(self.trades):
            p = self.number(self.providers, t.epic.trade_provider)
            if id(t) in held:
                out.append((p, k + 1, 0))
            for j, c in enumerate(t.closes):
                if id(c) in held:
                    out.append((p, k + 1, j + 1))
        return out

    def finish(self, p, t, c, fail=False):
        trade = self.trades[t - 1]
        before = self.gate.waiting()
        self.gate.release(trade.closes[c - 1] if c else trade, fail)
        self.gate.quiesce()
        others = before - 1 - self.gate.waiting()
        self.emit({"k": "finish", "p": p, "t": t, "c": c, "fail": fail, "others": others,
                   "ok": "ok"})

    # ---------------------------------------------------------------- reports
    HEAD = ["ref", "nb_trades", "result", "profit_factor"]
    THEAD = ["ref", "status", "epic", "strategy", "open_date", "direction", "open_quantity",
             "open_value", "closed_quantities", "result"]

    def report(self, folder, sts, details, when):
        import freezegun
        from estrade.reporting.csv import ReportingCSV

        before = read_folder(folder)

        def run():
            rep = ReportingCSV(target_folder=folder)
            with freezegun.freeze_time(when):
                rep.report([self.strategies[s - 1] for s in sts], **(
                    {} if details else {"trade_details": False}))

        settle()
        ok, _ = call(run)
        after = read_folder(folder)
        changed = {n for n in after if before.get(n) != after[n]}
        lost = {n for n in before if n not in after}
        # a report made within a second of another one goes to the same files
        stamp = when.strftime("%Y-%m-%d_%H:%M:%S")
        main = "%s_strategies.csv" % stamp
        names = ["%s_%s_trades.csv" % (stamp, self.strategies[s - 1].ref) for s in sts]
        expected = {main} | (set(names) if details else set())
        ev = {"k": "report", "sts": sts, "details": details, "ok": ok,
              "extra": len(changed - expected),
              "missing": len(lost) + len(expected - set(after)),
              "main": self.parse(before.get(main), after.get(main), self.HEAD, self.main_row),
              "files": [self.parse(before.get(n), after.get(n), self.THEAD, self.trade_row)
                        if details else NOFILE for n in names]}
        self.emit(ev)

    def parse(self, old, new, head, row):
        if new is None:
            return NOFILE
        old = old or b""
        kept = new.startswith(old)
        lines = list(csv.reader(new.decode("utf-8", "replace").splitlines()))
        tail = list(csv.reader(new[len(old):].decode("utf-8", "replace").splitlines()))
        if not old:
            head_ok = bool(tail) and sorted(tail[0]) == sorted(head)
            columns, tail = (tail[0] if head_ok else head), tail[1:]
        else:
            columns = lines[0] if lines else head
            head_ok = True
        headers = sum(1 for x in lines if sorted(x) == sorted(head))
        return {"kept": kept, "headers": headers if head_ok else 0,
                "rows": [row(dict(zip(columns, x)) if len(x) == len(columns) else {})
                         for x in tail]}

    def field_ref(self, group, value):
        for n, x in enumerate(group):
            if guard(lambda: x.ref) == value:
                return n + 1
        return 0

    def bearers(self, group, value):
        """Everything that bears a reference (several may)"""
        return [n + 1 for n, x in enumerate(group) if guard(lambda: x.ref) == value]

    def main_row(self, r):
        return {"ref": self.field_ref(self.strategies, r.get("ref")), "n": num(r.get("nb_trades"), nat),
                "res": num(r.get("result"), enc), "pf": num(r.get("profit_factor"), enc)}

    def trade_row(self, r):
        from estrade.enums import TradeDirection, TransactionStatus

        def name(x, kind):
            for v in kind:
                if str(v) == x:
                    return v.value
            return 99

        try:
            d = wall(dt.datetime.strptime(r["open_date"], "%Y-%m-%d %H:%M:%S"))
        except Exception:
            d = [BADNUM, 0, 0]
        return {"t": self.bearers(self.trades, r.get("ref")),
                "e": self.bearers(self.epics, r.get("epic")),
                "s": self.field_ref(self.strategies, r.get("strategy")),
                "dir": name(r.get("direction"), TradeDirection),
                "st": name(r.get("status"), TransactionStatus), "date": d,
                "oq": num(r.get("open_quantity"), nat), "ov": num(r.get("open_value"), enc),
                "clq": num(r.get("closed_quantities"), nat), "res": num(r.get("result"), enc)}

    # ---------------------------------------------------------------- trace
    def trace(self):
        if not self.looks.fresh and self.ev[-1].get("ok") != "hang":
            self.see({"k": "look", "o": 1})
        w = self.w
        lo, hi = self.lo or EPOCH, self.hi or EPOCH
        for v in self.ev:
            if v["k"] == "cfg" and v["tz"]:
                v["tz"] = [narrow_table(tz_table(v["tz"][0]), lo, hi)]
        years = max([f["q"] for c in w["ep"] for f in c["fs"] if f["unit"] == "YEAR"] or [0])
        return {
            "ep": [{"tz": narrow_table(tz_table(c["tz"]), lo, hi, 400 + 366 * years),
                    "zone": c["tz"], "open": c["open"], "close": c["close"], "days": c["days"],
                    "hol": [list(h) for h in c["hol"]], "pv": c["pv"], "regs": c["regs"],
                    "fs": [{"unit": UNITS.index(f["unit"]), "q": f["q"], "max": f["max"],
                            "inds": [list(x) for x in f["inds"]]} for f in c["fs"]]}
                   for c in w["ep"]],
            "nst": w["nst"], "pv": w["pv"], "gated": self.gate is not None,
            "fail": w.get("fail", 0), "ev": self.ev,
        }


NOFILE = {"kept": False, "headers": 0, "rows": []}


def num(x, f):
    try:
        return f(float(x))
    except Exception:
        return BADNUM


def read_folder(folder):
    out = {}
    if os.path.isdir(folder):
        for n in os.listdir(folder):
            with open(os.path.join(folder, n), "rb") as f:
                out[n] = f.read()
    return out


# --------------------------------------------------------------------------
# random sessions
# --------------------------------------------------------------------------
BASEW = {"tick": 8, "bad": 0, "open": 4, "close": 2, "closeall": 0, "update": 0, "pause": 0,
         "stop": 0, "reg": 0, "active": 0, "trades": 0, "figures": 0, "report": 0, "addfs": 0,
         "cfg": 0, "note": 0, "refuse": 0}


CROWD = 0.04    # of the worlds have many epics and strategies


def prof(ops, nested=None, **k):
    d = dict(nep=(1, 2), nst=(1, 3), n=(14, 34), nestp=0.0, bt=0.6, share=0.6, fs=(0, 0),
             tzs=0.5, subcent=0.0, float=0.0, ways=True, jump=False, own=0.0, labels=0.15,
             twins=0.2, again=0.06, quoted=0.0, overnight=0.04, rezone=0.0)
    d.update(k)
    d["w"] = dict(BASEW, **ops)
    d["nw"] = nested or {}
    return d


NEST = {"open": 4, "close": 3, "update": 1, "pause": 1, "stop": 0.4, "reg": 0.7, "tick": 1.5}
PROFILES = {
    "P02": prof({"tick": 8, "bad": 5, "open": 1}, NEST, nestp=0.15, nep=(1, 2), fs=(0, 2),
                tzs=0.9, jump=True),
    "P03": prof({"tick": 12, "bad": 2, "open": 0, "cfg": 1.5}, nep=(1, 2), nst=(0, 2), tzs=0.9,
                jump=True, n=(16, 40), own=0.3, rezone=0.3),
    "P04": prof({"tick": 10, "bad": 2, "open": 1, "reg": 1, "pause": 1, "stop": 0.5}, NEST,
                nestp=0.15, nst=(1, 4), nep=(1, 3), jump=True),
    "P05": prof({"tick": 12, "bad": 1.5, "open": 0.5, "pause": 1, "stop": 0.5, "reg": 0.7,
                 "cfg": 0.5}, NEST, nestp=0.08, nst=(1, 3), nep=(1, 2), jump=True, n=(16, 40)),
    "P06": prof({"tick": 10, "bad": 0.7, "open": 0.4, "pause": 4, "stop": 1.2, "active": 1.5, "reg": 0.4},
                {"pause": 4, "stop": 1.5, "open": 1, "tick": 1.5, "reg": 0.5}, nestp=0.2, nst=(1, 4), nep=(1, 3), tzs=0.9,
                jump=True),
    "P07": prof({"tick": 10, "bad": 1, "open": 3, "close": 1, "update": 1, "addfs": 0.6},
                {"open": 5, "close": 4, "update": 1, "tick": 2, "addfs": 0.3}, nestp=0.35, nst=(1, 3), nep=(1, 2),
                fs=(1, 2), jump=True, n=(12, 26)),
    "P08": prof({"tick": 8, "bad": 1, "open": 6, "close": 2, "closeall": 0.5, "update": 0.7},
                {"open": 4, "close": 2, "tick": 2}, nestp=0.15, nep=(2, 3), nst=(0, 3), share=0.85,
                fs=(0, 1), own=0.15),
    "P09": prof({"tick": 4, "open": 5, "close": 8, "closeall": 1}, nst=(0, 2), float=0.2),
    "P10": prof({"tick": 6, "open": 5, "close": 5, "update": 2}, nst=(0, 2), float=0.2,
                subcent=0.35),
    "P11": prof({"tick": 7, "open": 4, "close": 6, "update": 4, "closeall": 0.7}, nst=(0, 2),
                float=0.15),
    "P12": prof({"tick": 9, "open": 4, "close": 4, "update": 3}, {"update": 2, "close": 1},
                nestp=0.1, nst=(0, 2), float=0.15, subcent=0.1),
    "P13": prof({"tick": 4, "open": 12, "close": 3, "closeall": 0.3}, {"open": 3}, nestp=0.1,
                bt=0.95, nep=(1, 3), nst=(0, 3), share=0.75, n=(14, 40), own=0.15),
    "P14": prof({"tick": 4, "open": 8, "close": 4, "closeall": 0.7}, {"open": 3}, nestp=0.1,
                bt=0.5, nep=(1, 3), nst=(0, 3), own=0.3),
    "P15": prof({"tick": 3, "open": 7, "close": 5, "closeall": 1}, {"open": 2, "close": 2},
                nestp=0.1, bt=0.5, nep=(1, 2), nst=(0, 3), float=0.2, own=0.2),
    "P15g": prof({"tick": 1, "open": 6, "close": 5, "closeall": 0.6, "finish": 6}, bt=0.5,
                 nep=(1, 2), nst=(0, 2), gated=True, ways=False, n=(10, 30)),
    "P16": prof({"tick": 6, "open": 7, "close": 2, "closeall": 1.2, "trades": 7},
                {"trades": 1, "closeall": 0.5, "open": 2}, nestp=0.1, bt=0.4, nep=(1, 3),
                nst=(1, 3), ways=False, n=(20, 44)),
    "P17": prof({"tick": 6, "open": 6, "close": 4, "figures": 6, "update": 1}, bt=0.5, nep=(1, 2),
                nst=(1, 3), n=(16, 36)),
    "P18": prof({"tick": 6, "open": 6, "close": 3, "report": 2.5}, bt=0.5, nep=(1, 2), nst=(1, 3),
                ways=False, n=(14, 30), quoted=0.4, again=0.3, labels=0.5),
    "P31": prof({"tick": 4, "open": 8, "close": 6, "closeall": 0.5, "note": 4, "update": 0.5},
                {"open": 2, "close": 2, "note": 1}, nestp=0.1, bt=0.6, nep=(1, 2), nst=(0, 2),
                float=0.15, own=0.15, labels=0.5),
    "P31g": prof({"tick": 1, "open": 6, "close": 5, "closeall": 0.4, "finish": 6, "note": 2}, bt=0.5,
                 nep=(1, 2), nst=(0, 2), gated=True, ways=False, n=(10, 26), labels=0.5),
    "P32": prof({"tick": 12, "bad": 1, "open": 2, "close": 1, "pause": 0.7, "stop": 0.3, "reg": 0.4},
                dict(NEST, **{"raise": 4, "tick": 3, "bad": 1}), nestp=0.25, nst=(1, 4), nep=(1, 3),
                fs=(0, 2), jump=True, n=(12, 30)),
    "P33": prof({"tick": 5, "open": 6, "close": 4, "closeall": 0.4, "update": 1, "refuse": 6},
                {"refuse": 4, "open": 2, "close": 1, "tick": 1}, nestp=0.15, bt=0.6, nep=(1, 3),
                nst=(0, 3), float=0.15, own=0.2, labels=0.3, fs=(0, 1)),
    "P33g": prof({"tick": 1, "open": 6, "close": 5, "closeall": 0.4, "finish": 6, "refuse": 4},
                 bt=0.5, nep=(1, 2), nst=(0, 2), gated=True, ways=False, n=(10, 26)),
}


def weighted(rnd, w):
    keys = [k for k in w if w[k] > 0]
    return rnd.choices(keys, [w[k] for k in keys])[0]


class Random:
    def __init__(self, rnd, pid, folder=None, looks=None):
        self.rnd, self.pid, self.p = rnd, pid, PROFILES[pid]
        self.looks = looks
        self.folder = folder
        self.world = self.make_world()
        self.now = self.start
        self.price = {}
        self.base = rnd.choice([0, 1234, 10000, -300, 150000, 5])
        self.big = self.base > 20000
        self.left_nested = 12
        self.long = False
        self.reports = 0
        self.mode = rnd.choice(["walk", "walk", "jump", "up", "down", "flat"])
        self.forms = rnd.random() < 0.5
        self.zones, self.conf = {}, {}

    def make_world(self):
        rnd, p = self.rnd, self.p
        nep = rnd.randint(*p["nep"])
        nst = rnd.randint(*p["nst"])
        if rnd.random() < CROWD:
            nep, nst = (rnd.randint(2, 6) if nep > 1 else nep), (rnd.randint(4, 9) if nst else 0)
        npv = 1 if rnd.random() < p["share"] else nep
        pv = [rnd.random() < p["bt"] for _ in range(npv)]
        owning = rnd.random() < 2 * p["own"]
        year = rnd.choice([2000, 2011, 2016, 2019, 2020, 2020, 2023, 2024])
        start = dt.datetime(year, rnd.randint(1, 12), rnd.randint(1, 28), rnd.randint(0, 23),
                            rnd.randint(0, 59), rnd.choice([0, 0, 30]), tzinfo=UTC)
        eps = []
        for n in range(nep):
            tz = rnd.choice(ZONES) if rnd.random() < p["tzs"] else "UTC"
            r = rnd.random()
            if r < 0.45:
                o, c = [9 * 3600 + 1800, 0], [17 * 3600 + 1800, 0]
            elif r < 0.6:
                o, c = [0, 0], [86399, 999999]
            elif r < 0.65:
                o, c = [0, 0], [43200, 0]
            else:
                a, b = sorted(rnd.sample(range(0, 86400, 60), 2))
                o, c = [a, rnd.choice([0, 0, 1])], [b, rnd.choice([0, 0, 500000])]
            if rnd.random() < 0.03:
                c = list(o)
            if rnd.random() < p["overnight"]:
                o, c = c, o         # closes before it opens: never within its hours
            days = rnd.choice([[], [], [0, 1, 2, 3, 4, 5, 6], [5, 6], [6],
                               sorted(rnd.sample(range(7), rnd.randint(1, 6)))])
            hol = []
            if rnd.random() < 0.4:
                for _ in range(rnd.randint(1, 3)):
                    d = start + dt.timedelta(days=rnd.randint(0, 6))
                    # some in another year or month
                    hol.append([d.year + rnd.choice([0] * 6 + [-1, 1]),
                                d.month if rnd.random() < 0.9 else rnd.randint(1, 12),
                                min(d.day, 28)])
            fss = []
            for m in range(rnd.randint(*p["fs"])):
                fss.append(self.make_frame_set())
            if tz == "America/St_Johns" and (fss or p["w"].get("addfs")):
                tz = "America/New_York"     # a known finding, see frames.recrossed
            regs = [s + 1 for s in range(nst) if rnd.random() < 0.75]
            rnd.shuffle(regs)
            eps.append({"tz": tz, "open": o, "close": c, "days": days, "hol": hol, "fs": fss,
                        "regs": regs, "pv": rnd.randint(1, npv) if npv > 1 and rnd.random() < 0.4
                        else min(n + 1, npv)})
            if owning and rnd.random() < 0.7:
                pv.append(True)
                eps[-1].update(own=True, pv=len(pv))
        if rnd.random() < 0.3:  # close to an offset change
            tab = [e for e in tz_table(eps[0]["tz"])[1:] if 10000 < e[0] < 20500]
            if tab:
                e = rnd.choice(tab)
                start = from_inst([e[0], e[1], 0]) - dt.timedelta(
                    seconds=rnd.choice([0, 60, 3600, 7200, 86400]))
        self.start = start
        return {"ep": eps, "nst": nst, "pv": pv, "gated": p.get("gated", False),
                "quoted": rnd.random() < p["quoted"],
                "hollow": rnd.random() < core.HOLLOW,
                "twins": nep > 1 and rnd.random() < p["twins"],
                "fail": 0 if p.get("gated") else rnd.choice([0, 0, 1, 2])}

    def make_frame_set(self):
        rnd = self.rnd
        unit, q = rnd.choice([("TICK", 1), ("TICK", 2), ("TICK", 3), ("HOUR", 1),
                              ("HOUR", 4), ("DAY", 1), ("WEEK", 1), ("MONTH", 1)])
        inds = [[rnd.choice([0, 1, 3, 5]), int(rnd.random() < 0.5), 2]
                for _ in range(rnd.randint(0, 2))]
        return {"unit": unit, "q": q, "max": rnd.choice([1, 2, 3, 5]), "inds": inds}

    def label(self):
        rnd = self.rnd
        if rnd.random() >= self.p["labels"]:
            return None
        few = rnd.choice([1, 2, 2, 99])
        return (rnd.choice([0, 0, rnd.randint(1, few)]), rnd.choice([0, 0, rnd.randint(1, few)]),
                rnd.choice([0, 0, 1, 2, 3, 4, 5]))

    # ------------------------------------------------------------ inputs
    def form(self):
        return self.rnd.randint(0, 7) if self.forms else 0

    def zone(self):
        return self.rnd.choice(ZONES)

    def later(self, e):
        """An instant at or after the last one, biased to market hours and clock changes."""
        rnd, c = self.rnd, self.world["ep"][e - 1]
        d = self.now
        r = rnd.random()
        timed = [f for f in c["fs"] if f["unit"] not in ("TICK",)]
        far = 30 if any(f["unit"] == "HOUR" for f in timed) else 3
        if r < 0.1:
            return d
        if r < 0.2:
            return d + dt.timedelta(microseconds=rnd.choice([1, 1, 999999]))
        if r < 0.45 or self.p["jump"] and r < 0.6:
            z = zoneinfo.ZoneInfo(self.zones.get(e) or c["tz"])
            c = self.conf.get(e, c)
            s, us = rnd.choice([c["open"], c["close"]])
            n = d.astimezone(z).replace(hour=s // 3600, minute=s // 60 % 60, second=s % 60,
                                        microsecond=us, fold=0).astimezone(UTC)
            n += dt.timedelta(microseconds=rnd.choice([-1, 0, 0, 1, 1000000]))
            if n < d:
                n += dt.timedelta(days=1)
            return n
        if r < 0.65:
            return d + dt.timedelta(seconds=rnd.choice([1, 60, 300, 1800, 3600]))
        if r < 0.8:
            return d + dt.timedelta(seconds=rnd.uniform(0, 6 * 3600))
        if r < 0.9:
            z = zoneinfo.ZoneInfo(c["tz"])
            n = (d.astimezone(z).replace(hour=0, minute=0, second=0, microsecond=0)
                 + dt.timedelta(days=1)).astimezone(UTC)
            return max(d, n)
        return d + dt.timedelta(hours=rnd.uniform(0, 24 * min(far, 3)))

    def quote(self, e):
        """bid and ask in units of 0.0001"""
        rnd = self.rnd
        v = self.price.get(e)
        if v is None:
            v = self.base * 100
        if rnd.random() < 0.05:
            self.mode = rnd.choice(["walk", "jump", "up", "down", "flat"])
        if self.mode == "walk":
            v += 100 * rnd.randint(-9, 9)
        elif self.mode == "jump":
            v += 100 * rnd.randint(-300, 300)
        elif self.mode == "up":
            v += 100 * rnd.randint(0, 40)
        elif self.mode == "down":
            v -= 100 * rnd.randint(0, 40)
        if self.long:       # figures stay within what the encoding holds
            v = max(min(v, 100 * self.base + 100000), 100 * self.base - 100000)
        self.price[e] = v
        spread = 100 * rnd.choice([0, 2, 2, 4, 1, 10, 100])
        return self.fine(v), self.fine(v + spread, v)

    def fine(self, v, least=None):
        if self.p["subcent"] and self.rnd.random() < self.p["subcent"]:
            # no two of them are half a cent apart
            v += self.rnd.choice([0, 10, 30, 70, 90])
            if least is not None and v < least + 90:
                v += 100
        elif least is not None and self.p["subcent"]:
            v += 100
        return v

    def value(self, k=None):
        base = self.price.get(self.rnd.randint(1, len(self.world["ep"])), self.base * 100)
        return self.fine(base + 100 * self.rnd.randint(-50, 50))

    def zero(self):
        return self.value() if self.big else 0

    def quantity(self):
        q = self.rnd.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 10, 13, 100])
        return min(q, 20) if self.long else q

    # ------------------------------------------------------------ operations
    def run(self):
        rnd = self.rnd
        self.s = s = self.session = Session(self.world, self.looks)
        s.nested = self.nested
        n = rnd.randint(*self.p["n"])
        if rnd.random() < core.LONG:
            n = 5 * n
            self.left_nested *= 3
            self.long = True
            s.looks.seldom()
        lagging = rnd.random() < 0.15
        clocks = {}
        try:
            for e in range(1, len(self.world["ep"]) + 1):
                if rnd.random() < 0.85 or self.big:
                    self.op_tick(e)
            for _ in range(n):
                if lagging:
                    e = rnd.randint(1, len(self.world["ep"]))
                    clocks.setdefault(e, self.now)
                    self.now = clocks[e]
                    self.do(weighted(rnd, self.p["w"]), e)
                    clocks[e] = self.now
                else:
                    self.do(weighted(rnd, self.p["w"]))
            while s.gate and s.running():
                self.op_finish(1, 0)
        except Dead:
            pass
        if s.gate:
            s.gate.release_all()
        return s.trace()

    def op_finish(self, e, s):
        r = self.s.running()
        if r:
            self.s.finish(*self.rnd.choice(r), fail=self.rnd.random() < 0.3)

    def nested(self, session, strategy, name, e):
        rnd = self.rnd
        if self.p["nestp"] and self.left_nested and rnd.random() < self.p["nestp"]:
            self.left_nested -= 1
            op = weighted(rnd, self.p["nw"])
            if op == "raise":
                session.fail(strategy, e, failure(rnd))
            if op in ("tick", "bad"):
                # other epics only, and not those whose tick is still being processed
                free = [n for n in range(1, len(self.world["ep"]) + 1) if n not in session.ticking]
                if not free:
                    return
                self.do(op, rnd.choice(free))
                if session.caught is not None and rnd.random() < 0.5 and self.pid == "P32":
                    session.fail(strategy, e, session.caught)
                return
            self.do(op, e if rnd.random() < 0.7 else None,
                    strategy.number if rnd.random() < 0.7 else None)

    def do(self, op, e=None, s=None):
        rnd, w = self.rnd, self.world
        if e is None:
            e = rnd.randint(1, len(w["ep"]))
        if s is None:
            s = rnd.randint(1, w["nst"]) if w["nst"] else 0
        if op in ("closeall", "pause", "stop", "reg", "active", "trades", "figures") and not s:
            return
        getattr(self, "op_" + op)(*((e,) if op in ("tick", "bad", "addfs", "cfg") else (e, s)))

    def op_tick(self, e):
        if e in self.s.given and self.rnd.random() < 0.03:
            return self.s.tick_again(e)
        if self.s.ev and self.s.ev[-1]["k"] != "start":
            self.now = self.later(e)
        bid, ask = self.quote(e)
        self.s.tick(e, self.now, bid, ask, self.form())

    def op_bad(self, e):
        """Mostly before the epic's last tick; the specification decides."""
        ticks = [v["inst"] for v in self.s.ev if v["k"] == "tb" and v["e"] == e]
        d = from_inst(max(ticks)) if ticks else self.now
        d -= dt.timedelta(seconds=self.rnd.choice([0.000001, 0.000001, 1, 3600, 5400, 7200, 86400]))
        bid, ask = self.quote(e)
        self.s.tick(e, d, bid, ask, self.form())

    def op_open(self, e, s):
        rnd = self.rnd
        again = 2 if rnd.random() < self.p["again"] else 1      # the very same order
        if rnd.random() < 0.15:
            s = 0
        q, d = self.quantity(), rnd.choice([BUY, SELL])
        if self.big and e not in self.price:
            # bought at nothing, sold at a high price: figures beyond what the encoding holds
            e = rnd.choice(sorted(self.price)) if self.price else e
        r = rnd.random()
        reg = rnd.random() >= self.p["float"]
        lab = self.label()
        if not self.p["ways"] or r < 0.75:
            for _ in range(again):
                self.s.open("epic", e, s, d, q, reg=reg if self.p["ways"] else True,
                        via=rnd.randint(0, 2), lab=lab)
        elif r < 0.88:
            bid, ask = self.quote(e)
            for _ in range(again):
                self.s.open("tick", e, s, d, q, reg=reg, d=self.now, bid=bid, ask=ask, lab=lab)
        else:
            ov = self.value()
            cv = None if rnd.random() < 0.4 else rnd.choice([self.zero(), ov, self.value()])
            for _ in range(again):
                self.s.open("ctor", e, s, d, q, reg=reg, d=self.now, ov=ov, cv=cv, lab=lab)

    def some_trade(self, opened=0.75):
        rnd = self.rnd
        ts = [k + 1 for k in range(len(self.s.trades))]
        if not ts:
            return None
        op = [k for k in ts if not self.shown(k)["closed"]]
        if op and rnd.random() < opened:
            return rnd.choice(op)
        return rnd.choice(ts)

    def shown(self, t):
        """What a trade showed the last time it was looked at"""
        return self.s.last["t"].get(t - 1) or {"closed": False, "opq": 3, "cl": []}

    def op_close(self, e, s):
        rnd = self.rnd
        t = self.some_trade()
        if t is None:
            return
        left = self.shown(t)["opq"]
        q = rnd.choice([None, None, 0, 1, 1, 2, 3, max(0, left), max(0, left - 1), left + 1, 500])
        r = rnd.random()
        lab = self.label()
        if not self.p["ways"] or r < 0.65:
            self.s.close("market", t, q, req=True, via=rnd.randint(0, 1), lab=lab)
        elif r < 0.8:
            self.s.close("market", t, q, req=False, lab=lab)
        elif r < 0.9:
            bid, ask = self.quote(e)
            self.s.close("tick", t, q, d=self.now, bid=bid, ask=ask, lab=lab)
        else:
            self.s.close("value", t, q, d=self.now, lab=lab,
                         v=rnd.choice([self.zero(), self.value(), self.value()]))

    def op_refuse(self, e, s):
        rnd = self.rnd
        if rnd.random() < 0.3:
            s = 0
        what, t, c = rnd.choice(["direction", "direction", "opened", "closed", "closed", "moment"]), 0, 0
        if what in ("closed", "moment"):
            t = self.some_trade(0.7)
            if t is None:
                return
            if what == "moment":
                c = rnd.randint(0, len(self.shown(t)["cl"]))
        q = self.quantity() if what in ("direction", "opened") else rnd.choice([None, None, 0, 1, 2, 500])
        self.s.refuse(what, e, s, t, c, rnd.randrange(8), rnd.randrange(4), q, self.value(),
                      watch=rnd.random() < 0.5)

    def op_closeall(self, e, s):
        self.s.closeall(s, self.rnd.choice([1, 2, 500]) if self.rnd.random() < 0.2 else None)

    def op_note(self, e, s):
        t = self.some_trade(0.5)
        if t is not None:
            n = len(self.shown(t)["cl"])
            self.s.note(t, self.rnd.randint(0, n), self.rnd.randint(1, 99))

    def op_addfs(self, e):
        self.s.add_frame_set(e, self.make_frame_set())

    def op_cfg(self, e):
        """Other hours, days or holidays, near the latest instant; sometimes another zone."""
        rnd = self.rnd
        z = zoneinfo.ZoneInfo(self.zones.get(e) or self.world["ep"][e - 1]["tz"])
        w = self.now.astimezone(z)
        a, b = sorted([rnd.choice([w.hour * 3600 + w.minute * 60, rnd.randrange(0, 86400, 60)]),
                       rnd.randrange(0, 86400, 60)])
        if rnd.random() < 0.1:
            a, b = b, a
        days = rnd.choice([[w.weekday()], [(w.weekday() + 1) % 7], [0, 1, 2, 3, 4, 5, 6], [],
                           sorted(rnd.sample(range(7), rnd.randint(1, 6)))])
        hol = []
        for _ in range(rnd.choice([0, 0, 1, 2])):
            d = w.date() + dt.timedelta(days=rnd.randint(0, 2))
            hol.append([d.year + rnd.choice([0] * 5 + [-1, 1]), d.month,
                        d.day if d.month != 2 else min(d.day, 28)])
        zone = None
        if rnd.random() < self.p["rezone"]:
            zone = self.zones[e] = rnd.choice(ZONES)
        self.conf[e] = {"open": [a, 0], "close": [b, rnd.choice([0, 0, 999999])], "days": days,
                        "hol": hol}
        self.s.configure(e, self.conf[e], rnd.random() < 0.5, zone)

    def op_update(self, e, s):
        rnd = self.rnd
        t = self.some_trade(0.6)
        if t is None:
            return
        r = rnd.random()
        if r < 0.5:
            self.s.update("value", t, v=rnd.choice([self.zero(), self.value(), self.value()]))
        elif r < 0.75:
            bid, ask = self.quote(e)
            self.s.update("tick", t, d=self.now, bid=bid, ask=ask)
        else:
            self.s.update("epic", t)

    def op_pause(self, e, s):
        rnd = self.rnd
        if rnd.random() < 0.12:
            return self.s.pause(s, None)
        d = self.now
        r = rnd.random()
        if r < 0.5:
            d = self.later(e)
        elif r < 0.9:
            d += dt.timedelta(seconds=rnd.choice([0, 0.000001, -0.000001, 1, 60, 1800, 3600, 5400,
                                                  7200, 86400, -3600, 10**7]))
        else:
            d += dt.timedelta(days=365)
        self.s.pause(s, d, rnd.choice([0, 1, 7]), self.zone())

    def op_stop(self, e, s):
        self.s.stop(s, self.rnd.random() < 0.6)

    def op_reg(self, e, s):
        if s in [x for x in self.regs(e)]:
            return
        self.s.register(e, s)

    def regs(self, e):
        return self.world["ep"][e - 1]["regs"] + [
            v["s"] for v in self.s.ev if v["k"] == "reg" and v["e"] == e]

    def op_active(self, e, s):
        """Instants that do not end a pause (asking with a later one is not covered)."""
        rnd = self.rnd
        p = [v["until"] for v in self.s.ev if v["k"] == "pause" and v["s"] == s][-1:]
        p = p[0] if p else []
        d = self.now + dt.timedelta(seconds=rnd.choice([0, -1, 1, 3600, -3600, 7200]))
        if p:
            d = from_inst(p[0]) - dt.timedelta(seconds=rnd.choice([0.000001, 1, 1800, 3600, 86400]))
        self.s.ask_active(s, d, rnd.choice([0, 1, 7]), self.zone())

    def op_trades(self, e, s):
        rnd = self.rnd
        n = len(self.world["ep"])
        eps = None if rnd.random() < 0.5 else sorted(
            rnd.sample(range(1, n + 1), rnd.randint(0, n)))
        after = None
        if rnd.random() < 0.5:
            ats = [v["at"] for v in self.s.last["t"].values() if v["at"][0] > 3000]
            after = from_inst(rnd.choice(ats)) if ats and rnd.random() < 0.8 else self.now
            after += dt.timedelta(seconds=rnd.choice([0, 0, 0, 0.000001, -0.000001, 3600, -3600,
                                                      7200, -7200]))
        self.s.ask_trades(s, eps, rnd.random() < 0.5, after, rnd.choice([0, 1, 7]), self.zone(),
                          rnd.random() < 0.7)

    def op_figures(self, e, s):
        rnd = self.rnd
        n = len(self.s.trades)
        ids = None
        if rnd.random() < 0.6:
            ids = rnd.sample(range(1, n + 1), rnd.randint(0, min(n, 6))) if n else []
        self.s.ask_figures(s, ids, rnd.choice(["list", "generator", "tuple"]))

    def op_report(self, e, s):
        rnd, n = self.rnd, self.world["nst"]
        if n == 0:
            return
        sts = rnd.sample(range(1, n + 1), rnd.randint(1, n))
        details = rnd.random() < 0.75
        when = dt.datetime(2021, 3, 4, 5, 6, rnd.choice([7, 7, 8]))
        if details and any(not self.s.last["st"][x - 1]["tr"] for x in sts):
            # the file of a strategy without trades has no header to rely on: not reused
            self.reports += 1
            when = dt.datetime(2021, 3, 4, 6, self.reports, 0)
        self.s.report(os.path.join(self.folder, rnd.choice(["a", "b/c"])), sts, details, when)


def history(pid, seed, k):
    rnd = random.Random("%s/%s/%s" % (pid, seed, k))
    folder = tempfile.mkdtemp(prefix="rep-", dir=scratch())
    try:
        return Random(rnd, pid, folder, "%s/%s/%s" % (pid, seed, k)).run()
    finally:
        shutil.rmtree(folder, ignore_errors=True)
        gc.freeze()
