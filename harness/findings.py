"""Known findings: the fixed histories of known_findings.txt, on which the code under test is
known to break a property.  A history listed there is executed on every run: when it fails at
the listed step and clauses a KNOWN-FINDING line is printed, when it fails otherwise that is a
violation, and when it conforms nothing is printed."""
import datetime as dt
import json
import os

import core
import frames


def listed(pid):
    out = []
    with open(os.path.join(core.VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=%s " % pid):
                _, _, name, what = line.strip().split(" ", 3)
                out.append((name.split("=")[1], what))
    return out


def load(name):
    with open(os.path.join(core.VERIF, "findings", name + ".json")) as f:
        return json.load(f)


def frames_history(h):
    w = h["world"]
    rec = frames.Recorder(w)
    for (i, bid, ask) in h["ticks"]:
        rec.tick(core.from_inst(i), bid, ask)
    return rec.trace()


def deep_heikin(h):
    """Outcome of reading the open of the last of many Heikin-Ashi candles."""
    from estrade import Epic, Tick
    from estrade.enums import CandleType, Unit
    from estrade.graph import CandleSet, FrameSet

    n = h["frames"]
    epic = Epic(ref="E")
    fs = FrameSet(Unit.TICK, 1, ref="F", max_frames_in_memory=n)
    fs.add_indicator(CandleSet(candle_type=CandleType.HEIKIN_ASHI, ref="I"))
    epic.add_frame_set(fs)
    d = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)
    for k in range(n):
        epic.on_new_tick(Tick(datetime=d + dt.timedelta(seconds=k), bid=10, ask=10))
    ok, v = core.call(lambda: fs.current["I"].open)
    return "ok" if ok == "ok" and v == 10 else ok if ok != "ok" else "wrong value"


def report(pid, check):
    """The KNOWN-FINDING lines of a property; anything unexpected goes to check.violation."""
    lines = []
    for (name, what) in listed(pid):
        h = load(name)
        if h["kind"] == "deep_heikin":
            got = deep_heikin(h)
            failing = [] if got == "ok" else [got]
        else:
            trace = frames_history(h)
            text = json.dumps(trace)
            fails, st, tr = core.validate_text("TraceFrames", [text], [len(trace["ev"])], pid)
            check.states += st
            check.transitions += tr
            failing = [[e, sorted(c for c in cl if c.startswith(pid + "."))] for (_, e, cl) in fails]
            failing = [x for x in failing if x[1]]
        if not failing:
            continue
        if failing == h["fails"]:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
        else:
            check.violation(("finding " + name, 0, 0, None), None, None,
                            ["%s.finding_differs" % pid],
                            "%s fails as %s, listed as %s" % (name, failing, h["fails"]))
    return lines
