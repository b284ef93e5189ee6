"""Drives registrations of frame sets, strategies, epics and tick providers (P30)."""
import datetime as dt
import random

from core import BADNUM, UTC, call, guard, hollow

LONG = "a-reference-as-long-as-those-of-a-broker-"
REFS = ["a", "b", "a ", "A", "0", "EURUSD", LONG + "1", LONG + "2"]
GOOD = ["UTC", "Europe/Paris", "America/New_York", "Asia/Tokyo", "US/Pacific", "Etc/GMT+5",
        "Australia/Lord_Howe", "GMT", "America/Argentina/Buenos_Aires"]
BAD = ["", "Paris", "europe/paris ", "UTC+1", "Europe/Nowhere", None, 7, "+01:00", "local"]


class Recorder:
    def __init__(self, bare=False):
        self.bare = bare        # falsy objects
        self.ev = []
        self.ep, self.fs, self.st, self.pr, self.ind = [], [], [], [], []

    def number(self, group, x):
        for n, y in enumerate(group):
            if y is x:
                return n + 1
        return 0

    def pairs(self, d, group):
        if not isinstance(d, dict):
            return [["?", -1]]
        return [[k if isinstance(k, str) else "?", self.number(group, v)] for k, v in d.items()]

    def observe(self):
        g = lambda o, n: guard(lambda: getattr(o, n))  # noqa
        text = lambda x: x if isinstance(x, str) else "?"  # noqa
        return {
            "ep": [{"ref": text(g(e, "ref")), "tz": text(g(e, "timezone")),
                    "fs": self.pairs(g(e, "frame_sets"), self.fs),
                    "st": self.pairs(g(e, "strategies"), self.st)} for e in self.ep],
            "fs": [{"ref": text(g(f, "ref")), "e": self.link(g(f, "epic")),
                    "in": self.pairs(g(f, "indicators"), self.ind)} for f in self.fs],
            "ind": [{"ref": text(g(x, "ref")), "f": self.link(g(x, "frame_set"), self.fs),
                     "e": self.link(g(x, "epic"))} for x in self.ind],
            "st": [{"ref": text(g(s, "ref")), "es": self.pairs(g(s, "epics"), self.ep)}
                   for s in self.st],
        }

    def link(self, e, group=None):
        return 0 if e is None else self.number(self.ep if group is None else group, e) or -1

    def emit(self, ev):
        ev["o"] = self.observe()
        self.ev.append(ev)

    def placed(self):
        """Frame sets added to an epic so far."""
        return {v["x"] for v in self.ev if v["k"] == "addfs" and v["ok"] == "ok"}

    def attached(self):
        """Indicators put on a frame set so far."""
        return {v["x"] for v in self.ev if v["k"] == "addind" and v["ok"] == "ok"}

    def name_free(self, f, x):
        """No indicator of the frame set has the reference."""
        return all(self.ind[v["x"] - 1].ref != self.ind[x - 1].ref for v in self.ev
                   if v["k"] == "addind" and v["f"] == f)

    # ------------------------------------------------------------------ operations
    def epic(self, ref, tz, known):
        from estrade import Epic

        ok, e = call(hollow(Epic, self.bare), timezone=tz, ref=ref)
        if ok == "ok":
            self.ep.append(e)
        self.emit({"k": "epic", "ref": ref, "tz": tz if isinstance(tz, str) else "?",
                   "known": known, "ok": ok})

    def newfs(self, ref):
        from estrade.enums import Unit
        from estrade.graph import FrameSet

        ok, f = call(hollow(FrameSet, self.bare), Unit.MINUTE, 5, ref=ref)
        if ok == "ok":
            self.fs.append(f)
        self.emit({"k": "newfs", "ref": ref, "ok": ok})

    def newst(self, ref):
        from estrade import BaseStrategy

        ok, s = call(hollow(BaseStrategy, self.bare), ref=ref)
        if ok == "ok":
            self.st.append(s)
        self.emit({"k": "newst", "ref": ref, "ok": ok})

    def newind(self, ref, kind):
        ok, f = call(indicator, kind, ref)
        if ok == "ok":
            self.ind.append(f)
        self.emit({"k": "newind", "ref": ref, "ok": ok})

    def addind(self, f, x):
        ok, _ = call(self.fs[f - 1].add_indicator, self.ind[x - 1])
        self.emit({"k": "addind", "f": f, "x": x, "ok": ok})

    def addfs(self, e, x):
        ok, _ = call(self.ep[e - 1].add_frame_set, self.fs[x - 1])
        self.emit({"k": "addfs", "e": e, "x": x, "ok": ok})

    def addst(self, e, x):
        ok, _ = call(self.ep[e - 1].add_strategy, self.st[x - 1])
        self.emit({"k": "addst", "e": e, "x": x, "ok": ok})

    def settz(self, e, tz, known):
        def run():
            self.ep[e - 1].timezone = tz

        ok, _ = call(run)
        self.emit({"k": "settz", "e": e, "tz": tz if isinstance(tz, str) else "?", "known": known,
                   "ok": ok})

    def provider(self, eps):
        from estrade.tick_provider import BaseTickProvider

        ok, p = call(BaseTickProvider, [self.ep[e - 1] for e in eps])
        if ok == "ok":
            self.pr.append(p)
        self.emit({"k": "provider", "eps": eps, "ok": ok})

    def find(self, p, ref):
        ok, e = call(self.pr[p - 1].get_epic_by_ref, ref)
        self.emit({"k": "find", "p": p, "ref": ref, "ok": ok, "out": self.link(e)})

    def default(self, kind, ref):
        ok, r = call(default_ref, kind, ref)
        self.emit({"k": "default", "kind": kind, "ok": ok,
                   "good": isinstance(r, str) and r != ""})

    def trace(self):
        return {"ev": self.ev}


def indicator(kind, ref):
    from estrade.enums import CandleType, PivotType
    from estrade.graph import RSI, CandleSet, Pivot, SimpleMovingAverage
    from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue

    return [lambda: CandleSet(ref=ref), lambda: SimpleMovingAverage(max_periods=3, ref=ref),
            lambda: RSI(periods=3, ref=ref), lambda: Pivot(ref=ref),
            lambda: CandleSet(candle_type=CandleType.HEIKIN_ASHI, ref=ref),
            lambda: Pivot(pivot_type=PivotType.OLHC, ref=ref),
            lambda: BaseIndicator(value_class=BaseIndicatorValue, ref=ref)][kind]()


def default_ref(kind, ref):
    """The reference of a new object built without one."""
    from estrade import BaseStrategy, BaseTradeProvider, Epic, Tick, Trade
    from estrade.enums import CandleType, PivotType, TradeDirection, Unit
    from estrade.graph import RSI, CandleSet, FrameSet, Pivot, SimpleMovingAverage
    from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
    from estrade.trade_provider import TradeProviderBacktests

    kw = {} if ref is BADNUM else {"ref": ref}
    if kind < 9:
        o = [lambda: Epic(**kw), lambda: BaseStrategy(**kw), lambda: FrameSet(Unit.DAY, 1, **kw),
             lambda: CandleSet(**kw), lambda: SimpleMovingAverage(max_periods=3, **kw),
             lambda: RSI(periods=3, **kw), lambda: Pivot(**kw),
             lambda: TradeProviderBacktests(**kw), lambda: BaseTradeProvider(**kw)][kind]()
        return o.ref
    if kind == 9:
        return BaseIndicator(value_class=BaseIndicatorValue, **kw).ref
    if kind == 10:
        return CandleSet(candle_type=CandleType.HEIKIN_ASHI, **kw).ref
    if kind == 11:
        return Pivot(pivot_type=PivotType.OLHC, **kw).ref
    e = Epic()
    e.on_new_tick(Tick(datetime=dt.datetime(2020, 1, 1, tzinfo=UTC), bid=1, ask=1))
    t = Trade.open_from_epic(epic=e, direction=TradeDirection.BUY, quantity=1, **kw)
    return t.ref if kind == 12 else t.close_from_epic().ref


def history(pid, seed, k):
    rnd = random.Random("%s/%s/%s" % (pid, seed, k))
    rec = Recorder(rnd.random() < 0.15)
    if k == 0:
        for kind in range(14):
            for ref in (BADNUM, None, ""):
                rec.default(kind, ref)
        return rec.trace()
    refs = rnd.sample(REFS, rnd.randint(1, 4))
    names = ["E%d" % n if rnd.random() < 0.8 else LONG + "%d" % n for n in range(9)]
    rnd.shuffle(names)
    for _ in range(rnd.randint(1, 4)):
        rec.epic(names.pop(), rnd.choice(GOOD), True)
    for _ in range(rnd.randint(1, 6)):
        rec.newfs(rnd.choice(refs))
    for _ in range(rnd.randint(1, 6)):
        rec.newst(rnd.choice(refs))
    for _ in range(rnd.randint(0, 5)):
        rec.newind(rnd.choice(refs), rnd.randrange(7))
    for _ in range(rnd.randint(8, 26)):
        if not rec.ep:
            break
        e = rnd.randint(1, len(rec.ep))
        op = rnd.choices(["fs", "st", "tz", "epic", "provider", "find", "newfs", "newst",
                          "ind"], [6, 6, 3, 0.7, 1, 3, 1, 1, 4])[0]
        if op == "fs":
            free = [n + 1 for n, f in enumerate(rec.fs) if n + 1 not in rec.placed()]
            if free and rnd.random() < 0.8:
                rec.addfs(e, rnd.choice(free))
            elif rec.fs:
                rec.addfs(e, rnd.randint(1, len(rec.fs)))
        elif op == "st" and rec.st:
            rec.addst(e, rnd.randint(1, len(rec.st)))
        elif op == "tz":
            known = rnd.random() < 0.5
            rec.settz(e, rnd.choice(GOOD if known else BAD), known)
        elif op == "epic" and names:
            known = rnd.random() < 0.6
            rec.epic(names.pop(), rnd.choice(GOOD if known else BAD), known)
        elif op == "provider":
            n = len(rec.ep)
            rec.provider(rnd.sample(range(1, n + 1), rnd.randint(0, n)))
        elif op == "find" and rec.pr:
            rec.find(rnd.randint(1, len(rec.pr)), rnd.choice(
                [o["ref"] for o in rec.ev[-1]["o"]["ep"]] + ["E", "", "nothing"]))
        elif op == "ind" and rec.fs:
            f = rnd.randint(1, len(rec.fs))
            free = [x + 1 for x in range(len(rec.ind))
                    if x + 1 not in rec.attached() and rec.name_free(f, x + 1)]
            if free:
                rec.addind(f, rnd.choice(free))
            else:
                rec.newind(rnd.choice(refs), rnd.randrange(7))
        elif op == "newfs":
            rec.newfs(rnd.choice(refs))
        elif op == "newst":
            rec.newst(rnd.choice(refs))
    return rec.trace()
