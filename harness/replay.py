"""Replays behaviours of the specification (Estrade with the MC_ models) on the code under test.

TLC explores a model and prints the operations of its behaviours; here they are executed, the
nested ones from inside the callback in which the specification performs them, and everything
observable is recorded for validation.
"""
import datetime as dt
import json
import os
import random
import re
import shutil
import tempfile

import core
import frames
import registry
import values
from core import from_inst, scratch
from frames import UNITS, Recorder
from system import Dead, Session, failure

LINE = re.compile(r'^<<\s*"(WORLD|FINAL|HIST)",\s*"(.*)"\s*>>$', re.M)


def parse(out):
    """({"WORLD": ..., "FINAL": ...}, [history texts]) printed by TLC"""
    head, hist, lines = {}, set(), 0
    for m in LINE.finditer(out):
        lines += 1
        if m.group(1) == "HIST":
            hist.add(m.group(2))
        else:
            head[m.group(1)] = json.loads(json.loads('"%s"' % m.group(2)))
    if lines != len(re.findall('^<<\\s*"(?:WORLD|FINAL|HIST)"', out, re.M)):
        raise core.TlcError("unreadable behaviours\n%s" % out[-6000:])
    return head, hist


def maximal(hist):
    """Without the histories that are the beginning of another one."""
    texts = sorted(h[:-1] for h in hist)   # without the closing bracket
    return [a + "]" for a, b in zip(texts, texts[1:] + [""])
            if not (b.startswith(a) and b[len(a):len(a) + 1] == ",")]


def choose(hist, n, seed):
    hist = maximal(hist)
    rnd = random.Random("replay/%s" % seed)
    if len(hist) > n:
        hist = rnd.sample(hist, n)
    return [json.loads(json.loads('"%s"' % h)) for h in hist]


def session_world(w):
    """The world printed by a model as the harness builds it."""
    eps = []
    for c in w["ep"]:
        eps.append({"tz": c["zone"], "open": c["open"], "close": c["close"], "days": c["days"],
                    "hol": c["hol"], "pv": c["pv"], "regs": c["regs"],
                    "fs": [{"unit": UNITS[f["unit"]], "q": f["q"], "max": f["max"],
                            "inds": f["inds"]} for f in c["fs"]]})
    return {"ep": eps, "nst": w["nst"], "pv": w["pv"], "gated": w["gated"], "fail": 0}


def given(op):
    """Reference, metadata and status an operation gives (0: none)"""
    lab = op.get("lab") or {"ref": 0, "meta": 0, "st": 0}
    return lab["ref"], lab["meta"], lab["st"]


class Replay:
    def __init__(self, item):
        self.ops, self.final = item["ops"], item.get("final") or []
        self.s = Session(session_world(item["world"]), json.dumps(self.ops))
        self.s.nested = self.nested
        self.rnd = random.Random(json.dumps(self.ops))
        self.pos = 0
        self.ends = []       # where the operations of the ticks being processed end, innermost last
        self.folder = None
        self.reports = 0

    def nested(self, session, strategy, name, e):
        ops, end = self.ops, self.ends[-1]
        if self.pos < end and ops[self.pos]["k"] == "cb":
            self.pos += 1
        while self.pos < end and ops[self.pos]["k"] not in ("cb", "te"):
            op = ops[self.pos]
            self.pos += 1
            if op["k"] == "raise":
                self.pos = end
                session.fail(strategy, e, failure(self.rnd))
            self.do(op)

    def tick(self, op):
        """The operations up to the matching end are performed inside (none if it is refused)."""
        end = self.pos
        if op["ok"]:
            depth = 1
            while depth:
                k = self.ops[end]["k"]
                depth += (k == "tick" and self.ops[end]["ok"]) - (k == "te")
                end += 1
        self.ends.append(end)
        self.s.tick(op["e"], from_inst(op["inst"]), op["bid"], op["ask"])
        self.ends.pop()
        self.pos = end

    def do(self, op):
        s, k = self.s, op["k"]
        if "t" in op and op["t"] > len(s.trades):
            return
        if k == "tick":
            self.tick(op)
        elif k in ("open", "float"):
            s.open("epic", op["e"], op["s"], op["dir"], op["q"], reg=k == "open", via=self.pos % 3,
                   lab=given(op))
        elif k == "close":
            s.close("market", op["t"], op["q"][0] if op["q"] else None, req=op["req"],
                    via=self.pos % 2, lab=given(op))
        elif k == "closeall":
            s.closeall(op["s"], op["q"][0] if op.get("q") else None)
        elif k == "refuse":
            s.refuse(op["what"], op["e"], op["s"], op["t"], 0, self.pos + len(self.ops), self.pos % 4,
                     op["q"][0] if op["q"] else None, 100 * (self.pos % 7), watch=self.pos % 2 == 0)
        elif k == "note":
            if op["c"] <= len(s.trades[op["t"] - 1].closes):
                s.note(op["t"], op["c"], op["v"])
        elif k == "cfg":
            s.configure(op["e"], {c: op[c] for c in ("open", "close", "days", "hol")},
                        inplace=self.pos % 2 == 0)
        elif k == "addfs":
            f = op["fs"]
            s.add_frame_set(op["e"], {"unit": UNITS[f["unit"]], "q": f["q"], "max": f["max"],
                                      "inds": f["inds"]})
        elif k == "update":
            s.update("value", op["t"], v=op["v"])
        elif k == "pause":
            s.pause(op["s"], from_inst(op["until"]))
        elif k == "unpause":
            s.pause(op["s"], None)
        elif k == "stop":
            s.stop(op["s"], op["on"])
        elif k == "reg":
            s.register(op["e"], op["s"])
        elif k == "finish":
            if (op["p"], op["t"], op["c"]) in s.running():
                s.finish(op["p"], op["t"], op["c"], fail=op["fail"])
        elif k == "trades":
            s.ask_trades(op["s"], op["eps"][0] if op["eps"] else None, op["oo"],
                         from_inst(op["after"][0]) if op["after"] else None)
        elif k == "figures":
            ids = op["ids"][0] if op["ids"] else None
            if ids is None or all(t <= len(s.trades) for t in ids):
                s.ask_figures(op["s"], ids, op["form"])
        elif k == "report":
            self.report(op)

    def report(self, op):
        if self.folder is None:
            self.folder = tempfile.mkdtemp(prefix="rep-", dir=scratch())
        when = dt.datetime(2021, 3, 4, 5, 6, 7)
        if op["details"] and any(not self.s.last["st"][x - 1]["tr"] for x in op["sts"]):
            self.reports += 1
            when = dt.datetime(2021, 3, 4, 6, self.reports, 0)
        self.s.report(os.path.join(self.folder, "r"), op["sts"], op["details"], when)

    def run(self):
        s = self.s
        try:
            while self.pos < len(self.ops):
                op = self.ops[self.pos]
                self.pos += 1
                self.do(op)
            for op in self.final:
                self.do(op)
            while s.gate and s.running():
                s.finish(*s.running()[0])
        except Dead:
            pass
        finally:
            if s.gate:
                s.gate.release_all()
            if self.folder:
                shutil.rmtree(self.folder, ignore_errors=True)
        return s.trace()


def frames_trace(item):
    """A behaviour of FrameModel on real frame sets."""
    w = item["world"]
    rec = Recorder({"tz": w["zone"], "open": w["open"], "close": w["close"], "days": w["days"],
                    "hol": w["hol"], "queries": True, "explicit_max": True,
                    "fs": [{"unit": UNITS[f["unit"]], "q": f["q"], "max": f["max"],
                            "inds": f["inds"]} for f in w["fs"]]}, json.dumps(item["ops"]))
    for op in item["ops"]:
        if op["k"] == "tick":
            rec.tick(from_inst(op["inst"]), op["v"] / 100, op["v"] / 100)
        else:
            rec.attach(op["at"] - 1, op["ind"])
    return rec.trace()


def calendar_trace(item):
    """The boundaries of every timeframe around each moment of a behaviour of MV_Calendar."""
    import arrow

    zone, evs, seen = item["ops"][0]["zone"], [], []
    for op in item["ops"]:
        d = from_inst(op["at"])
        seen.append(d)
        for unit, qs in values.QUANTITIES.items():
            for q in qs:
                evs.append(values.grid(unit, q, arrow.get(d).to(zone), d))
    return {"ev": evs, "tz": core.narrow_table(core.tz_table(zone), min(seen), max(seen), 4100),
            "exact": True, "zone": zone}


def quotes_trace(item):
    import datetime as dt

    evs = []
    for n, x in enumerate(item["ops"]):
        d = dt.datetime(2020, 10, 24, 23, 59, 59, 999999, tzinfo=core.UTC) + dt.timedelta(hours=n)
        when = frames.shape_datetime(d, (n + x["bid"]) % 8, "Europe/Paris")
        if not x["aware"]:
            when = d.replace(tzinfo=None)
        bid, ask = x["bid"], x["bid"] + x["by"]
        div = 100 if x["unit"] == 1 else 10000
        args = [when, bid / div if bid % div else bid // div, ask / div]
        if not x["num"]:
            args[1 + n % 2] = values.BAD_NUMBERS[(n + bid) % len(values.BAD_NUMBERS)]
        evs.append(values.quote(x["num"], x["unit"], bid, ask, x["aware"], d, args))
    return {"ev": evs, "tz": []}


def registry_trace(item):
    w = item["world"]
    rec = registry.Recorder()
    for r in w["ep"]:
        rec.epic(r, "UTC", True)
    for r in w["fs"]:
        rec.newfs(r)
    for r in w["st"]:
        rec.newst(r)
    for n, r in enumerate(w["ind"]):
        rec.newind(r, (len(item["ops"]) + n) % 7)
    for op in item["ops"]:
        a = {k: v for k, v in op.items() if k != "k"}
        getattr(rec, op["k"])(**a)
    return rec.trace()


def config(template, **values):
    """The path of a TLC configuration made from a template (@Name replaced)"""
    text = open(os.path.join(core.SPEC, template)).read()
    for a, b in values.items():
        text = text.replace("@" + a, str(b))
    fd, path = tempfile.mkstemp(suffix=".cfg", dir=scratch())
    with os.fdopen(fd, "w") as f:
        f.write(text)
    return path
