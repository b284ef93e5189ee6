"""Which models and which conformance campaigns decide which property."""
import gc

import frames
import registry
import replay
import system
import values

FRAMES = ("P19", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P29")
SYSTEM = tuple("P%02d" % n for n in range(2, 19))


class Model:
    def __init__(self, module, cfg, timeout=600, extra=(), note=""):
        self.module, self.cfg, self.timeout, self.extra = module, cfg, timeout, extra
        self.note = note


class Campaign:
    """Seeded random histories of one profile."""
    endless = True

    def __init__(self, name, module, fn, quick, deep):
        self.name, self.module, self.fn = name, module, fn
        self.quick, self.deep = quick, deep

    def tasks(self, seed, rnd, thorough, check):
        n = self.deep if thorough else self.quick
        s = "%s" % seed if rnd == 0 else "%s.%d" % (seed, rnd)
        return [(self.name, s, k, None) for k in range(n)]

    def trace(self, seed, k, item):
        t = self.fn(seed, k)
        gc.freeze()
        return t


class Behaviours(Campaign):
    """Behaviours of a model, exported by TLC while it checks the model.

    First every behaviour of the small depth is explored (a sample of them is executed); further
    rounds take random, longer behaviours."""

    def __init__(self, model, fn, module, template, depth, deep, quick=500, many=4000,
                 sim=300, **values):
        self.name, self.module, self.fn = "replay-" + model, module, fn
        self.model, self.template, self.depth, self.deep = model, template, depth, deep
        self.quick, self.many, self.sim, self.values = quick, many, sim, values

    def tasks(self, seed, rnd, thorough, check):
        n = self.many if thorough else self.quick
        extra = ()
        if rnd == 0:
            depth, emit = self.depth + (1 if thorough else 0), 1
        else:
            depth, emit, n = self.deep, 2, n // 2 if thorough else self.sim
            extra = ("-simulate", "num=%d" % max(1, n // 6), "-depth", "200",
                     "-seed", str(seed * 1000 + rnd))
        cfg = replay.config(self.template, Depth=depth, Emit=emit, **self.values)
        head, hist = replay.parse(check.model(Model(self.model, cfg, 800, extra,
                                                    "%s, Depth=%d" % (self.template, depth))))
        chosen = replay.choose(hist, n, "%s.%s" % (seed, rnd))
        return [(self.name, "%s.%s" % (seed, rnd), k,
                 {"world": head["WORLD"], "final": head.get("FINAL"), "ops": ops})
                for k, ops in enumerate(chosen)]

    def trace(self, seed, k, item):
        t = self.fn(item)
        gc.freeze()
        return t


def sessions(model, depth, deep, nested=0, trades=4, **k):
    return Behaviours(model, lambda item: replay.Replay(item).run(), "TraceSystem", "Model.cfg",
                      depth, deep, MaxNested=nested, MaxTrades=trades, **k)


def framesets(model, depth, deep, **k):
    return Behaviours(model, replay.frames_trace, "TraceFrames", "Frame.cfg", depth, deep,
                      sim=72, **k)


class Enumeration(Campaign):
    """A fixed list of histories."""
    endless = False

    def tasks(self, seed, rnd, thorough, check):
        return [(self.name, 0, k, None) for k in range(self.deep if thorough else self.quick)]

    def trace(self, seed, k, item):
        return self.fn(k)


def frames_campaign(pid):
    return Campaign("frames-" + pid, "TraceFrames",
                    lambda seed, k: frames.history(pid, seed, k), 600, 4000)


def system_campaign(profile, quick=1000, deep=4000):
    return Campaign("system-" + profile, "TraceSystem",
                    lambda seed, k: system.history(profile, seed, k), quick, deep)


CAMPAIGNS = {}
for _p in FRAMES:
    CAMPAIGNS[_p] = [frames_campaign(_p)]
for _p in SYSTEM:
    CAMPAIGNS[_p] = [system_campaign(_p)]
for _p in ("P31", "P32", "P33"):
    CAMPAIGNS[_p] = [system_campaign(_p)]
CAMPAIGNS["P31"].append(system_campaign("P31g", 250, 1000))
CAMPAIGNS["P15"].append(system_campaign("P15g", 250, 1000))
CAMPAIGNS["P33"].append(system_campaign("P33g", 150, 800))

CAMPAIGNS["P01"] = [
    Campaign("values-P01", "TraceValues", lambda s, k: values.history("P01", s, k), 600, 4000),
    Enumeration("values-pairs", "TraceValues", lambda k: values.pairs_history(k), 29, 29)]
CAMPAIGNS["P20"] = [
    Campaign("values-P20", "TraceValues", lambda s, k: values.history("P20", s, k), 400, 3000),
    Enumeration("values-days", "TraceValues", lambda k: values.every_day(k), 20, 370)]
CAMPAIGNS["P30"] = [
    Campaign("registry-P30", "TraceReg", lambda s, k: registry.history("P30", s, k), 1500, 6000)]

CAMPAIGNS["P01"].append(Behaviours("MV_Quote", replay.quotes_trace, "TraceValues", "Quote.cfg", 2, 10,
                                   sim=60))
CAMPAIGNS["P20"].append(Behaviours("MV_Calendar", replay.calendar_trace, "TraceValues", "Calendar.cfg",
                                   2, 5, quick=150, many=600, sim=30))
CAMPAIGNS["P30"].append(Behaviours("MV_Registry", replay.registry_trace, "TraceReg", "Registry.cfg",
                                   4, 12))
TRADING = sessions("MC_Trading", 4, 9, trades=3)
NETTING = sessions("MC_Netting", 4, 8)
PROVIDERS = sessions("MC_Providers", 4, 8)
REQUESTS = sessions("MC_Requests", 4, 8, trades=3)
DISPATCH = sessions("MC_Dispatch", 3, 8, nested=2, trades=1)
NESTED = sessions("MC_Nested", 3, 7, nested=2)
CLOCK = sessions("MC_Clock", 4, 10, trades=1)
QUERIES = sessions("MC_Queries", 4, 7, quick=300, many=2000)
LABELS = sessions("MC_Labels", 4, 9, trades=3)
FAILING = sessions("MC_Failing", 3, 8, nested=2, trades=2)
REFUSALS = sessions("MC_Refusals", 4, 8, nested=1, trades=3)
FTICKS = framesets("MF_Ticks", 4, 12)
FSECONDS = framesets("MF_Seconds", 4, 10)
FDAYS = framesets("MF_Days", 3, 8)
for _p, _bs in {
        "P02": [CLOCK, DISPATCH], "P03": [CLOCK], "P04": [DISPATCH], "P05": [CLOCK, DISPATCH],
        "P06": [DISPATCH, CLOCK], "P07": [NESTED], "P08": [NESTED, PROVIDERS], "P09": [TRADING],
        "P10": [TRADING], "P11": [TRADING], "P12": [TRADING], "P13": [NETTING],
        "P14": [PROVIDERS, NETTING], "P15": [REQUESTS, PROVIDERS, LABELS], "P16": [QUERIES],
        "P17": [QUERIES], "P18": [QUERIES], "P19": [FSECONDS, FDAYS], "P21": [FTICKS],
        "P22": [FTICKS, FSECONDS], "P23": [FTICKS, FSECONDS], "P24": [FSECONDS, FDAYS],
        "P25": [FTICKS], "P26": [FTICKS, FSECONDS], "P27": [FTICKS, FSECONDS],
        "P28": [FTICKS, FSECONDS], "P29": [FTICKS, FDAYS],
        "P31": [LABELS, REQUESTS], "P32": [FAILING], "P33": [REFUSALS]}.items():
    CAMPAIGNS[_p] += _bs

BY_NAME = {c.name: c for cs in CAMPAIGNS.values() for c in cs}


def of(pid):
    return CAMPAIGNS[pid]


def models(pid, thorough):
    if pid == "P20":
        return [Model("MV_Dates", "Dates.cfg")]
    return []


COMMON_ASSUMPTIONS = [
    "histories are bounded and sampled (seeded); the specification decides every recorded step",
    "timezone tables come from python's zoneinfo, independently of the code under test",
]
ASSUMPTIONS = {}
