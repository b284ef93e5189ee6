"""Shared machinery of the conformance harness.

 - encoding of observables (money in units of 0.0001, instants as [day, sec, us]),
 - timezone tables handed to the specification,
 - guarded execution of calls into the code under test,
 - running TLC on trace files and on bounded models.

Only the public API of estrade is used; nothing here looks at how the code is written.
"""
import datetime as dt
import glob
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import zoneinfo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESTRADE_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1, tzinfo=UTC)

BADNUM = -98765432  # a number no driver can produce (and small enough for 32-bit arithmetic)


class Hang(BaseException):
    """Raised in the main thread by the watchdog."""


# --------------------------------------------------------------------------
# encoding
# --------------------------------------------------------------------------
def enc(x):
    """A number as an integer count of 0.0001."""
    try:
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            return BADNUM
        u = int(round(x * 10000))
        if abs(u) > 250000000:
            return BADNUM
        return u
    except Exception:
        return BADNUM


def opt(x):
    """An optional number as [] or [n]."""
    return [] if x is None else [enc(x)]


def nat(x):
    """An integer-valued quantity."""
    try:
        if isinstance(x, bool) or int(x) != x or abs(int(x)) > 900000:
            return BADNUM
        return int(x)
    except Exception:
        return BADNUM


def inst(d):
    """An aware datetime (python or arrow) as [day, sec, us] of the UTC clock."""
    try:
        d = getattr(d, "datetime", d)  # arrow -> python
        delta = d.astimezone(UTC) - EPOCH
        return [delta.days, delta.seconds, delta.microseconds]
    except Exception:
        return [BADNUM, 0, 0]


def wall(d):
    """The wall clock fields shown by an aware datetime as [day, sec, us]."""
    try:
        days = dt.date(d.year, d.month, d.day).toordinal() - dt.date(1970, 1, 1).toordinal()
        return [days, d.hour * 3600 + d.minute * 60 + d.second, d.microsecond]
    except Exception:
        return [BADNUM, 0, 0]


def from_inst(i):
    return EPOCH + dt.timedelta(days=i[0], seconds=i[1], microseconds=i[2])


def guard(f, *a, **k):
    """Value of a property, or BADNUM if reading it fails."""
    try:
        return f(*a, **k)
    except Hang:
        raise
    except Exception:
        return BADNUM


# --------------------------------------------------------------------------
# timezones: tables computed with zoneinfo (the code under test uses dateutil)
# --------------------------------------------------------------------------
_tz_cache = {}


def tz_table(name, first_year=1975, last_year=2037):
    """[[day, sec, offset], ...]: offsets and the UTC moments they start at."""
    if (name, first_year, last_year) in _tz_cache:
        return _tz_cache[(name, first_year, last_year)]
    z = zoneinfo.ZoneInfo(name)

    def off(ts):
        return int(dt.datetime.fromtimestamp(ts, z).utcoffset().total_seconds())

    lo = int(dt.datetime(first_year, 1, 1, tzinfo=UTC).timestamp())
    hi = int(dt.datetime(last_year, 1, 1, tzinfo=UTC).timestamp())
    table = [[-4000000, 0, off(lo)]]
    t, o = lo, off(lo)
    while t < hi:
        n = t + 86400 * 5
        on = off(n)
        if on == o:
            t = n
            continue
        a, b = t, n
        while b - a > 1:
            m = (a + b) // 2
            if off(m) == o:
                a = m
            else:
                b = m
        o = off(b)
        table.append([b // 86400, b % 86400, o])
        t = b
    _tz_cache[(name, first_year, last_year)] = table
    return table


def narrow_table(table, lo, hi, slack=400):
    """Only the entries relevant between two datetimes (with slack)."""
    lo, hi = inst(lo)[0] - slack, inst(hi)[0] + slack
    before = [e for e in table if e[0] < lo]
    return [[-4000000, 0, before[-1][2] if before else table[0][2]]] + [
        e for e in table if lo <= e[0] <= hi
    ]


def ambiguous(d):
    """Is the wall time of this aware zoneinfo datetime shown twice?"""
    return d.replace(fold=0).utcoffset() != d.replace(fold=1).utcoffset()


# --------------------------------------------------------------------------
# guarded calls
# --------------------------------------------------------------------------
HANG_LIMIT = 30


def _on_alarm(signum, frame):
    raise Hang()


def call_here(f, *a, **k):
    """As call, without the watchdog (any thread)."""
    try:
        return "ok", f(*a, **k)
    except Hang:
        raise
    except Exception as e:  # noqa
        from estrade.exceptions import EstradeException

        if isinstance(e, EstradeException):
            return "estrade:" + type(e).__name__, None
        return "exc:" + type(e).__name__, None


_calls = 0


def call(f, *a, **k):
    """Run a call into the code under test: ("ok"|"estrade:Type"|"exc:Type"|"hang", value)."""
    global _calls
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_LIMIT)
    _calls += 1
    try:
        try:
            return call_here(f, *a, **k)
        except Hang:
            return "hang", None
    finally:
        _calls -= 1
        signal.setitimer(signal.ITIMER_REAL, HANG_LIMIT if _calls else 0)
        signal.signal(signal.SIGALRM, old)


def blocked():
    """Seconds this thread has spent neither running nor waiting for a processor"""
    try:
        with open("/proc/thread-self/schedstat") as f:
            ran, waited = [int(x) for x in f.read().split()[:2]]
    except (OSError, ValueError):
        return 0.0
    return time.monotonic() - (ran + waited) / 1e9


_idle = []


# Every thread started in this process. threading.enumerate() forgets a thread a moment before
# is_alive() turns false, and the alive() of a provider is about the latter.
_threads = []
_threads_lock = threading.Lock()
_start = threading.Thread.start


def _starting(self):
    _start(self)
    with _threads_lock:
        _threads.append(self)


threading.Thread.start = _starting


def live_threads():
    """Threads started in this process that are still alive"""
    with _threads_lock:
        _threads[:] = [t for t in _threads if t.is_alive()]
        return list(_threads)


def settle(limit=5.0):
    """Wait until no thread other than the main one runs (nor ever comes to an end)."""
    end = time.time() + limit
    me = threading.current_thread()
    for t in live_threads():
        if t is not me and t not in _idle:
            t.join(max(0.0, end - time.time()))
            if t.is_alive():
                _idle.append(t)


HOLLOW = 0.06    # of the worlds have objects that are falsy (classes defining __len__)


def hollow(cls, on=True):
    """The class, or one of its name whose objects are falsy"""
    return type(cls.__name__, (cls,), {"__len__": lambda self: 0}) if on else cls


LONG = 0.05      # share of histories that are much longer (and looked at rarely)


class Looks:
    """When a recorder looks at what the code under test shows: after every operation, now and
    then, or only at the end (what is shown must not depend on having been read before)."""

    def __init__(self, key=None):
        self.rnd = random.Random("looks/%s" % key)
        self.often = 1 if key is None else self.rnd.choice([1, 1, 0.3, 0])
        self.fresh = True

    def seldom(self):
        self.often = min(self.often, self.rnd.choice([0.1, 0.03, 0]))

    def now(self):
        """0: not now; 1: now, for the first time after other operations; 2: now, as before"""
        if self.often < 1 and self.rnd.random() >= self.often:
            self.fresh = False
            return 0
        was, self.fresh = self.fresh, True
        return 2 if was else 1


def quiet_logging():
    import logging

    logging.disable(logging.CRITICAL)
    threading.excepthook = lambda args: None


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar"


def _classpath():
    jars = [JAVA_CP] + sorted(
        j for j in glob.glob("/opt/veriftools/tla/*.jar") if j != JAVA_CP
    )
    return ":".join(jars)


class TlcError(Exception):
    pass


def run_tlc(module, cfg, env=None, extra=(), workers=8, heap="6g", timeout=840, dump=None):
    """Run TLC in a scratch metadir; returns (exit status, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    try:
        cmd = [
            "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
            "-cp", _classpath(), "tlc2.TLC",
            "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
            "-config", cfg, "-deadlock",
        ] + list(extra) + [module]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        p = subprocess.run(
            cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=timeout,
        )
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="estrade-verif-")
        import atexit

        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
# (TLC breaks a long value over several lines)
BADLINE = re.compile(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)


def validate_text(module, texts, lengths, focus, workers=6, timeout=840):
    """Validate recorded traces (JSON texts of {"ev": [...], ...}) with TLC.

    Returns (failures, states, transitions); a failure is (trace, event, {clauses}).
    """
    path = tempfile.mktemp(suffix=".json", dir=scratch())
    with open(path, "w") as f:
        f.write('{"traces":[')
        for k, t in enumerate(texts):
            f.write("," if k else "")
            f.write(t)
        f.write("]}")
    code, out = run_tlc(
        module + ".tla", os.path.join(SPEC, module + ".cfg"),
        env={"TRACE_FILE": path, "TRACE_FOCUS": focus}, workers=workers, timeout=timeout,
    )
    os.unlink(path)
    m = None
    for m in STATES.finditer(out):
        pass
    expected = sum(n + 1 for n in lengths)
    if code != 0 or m is None or int(m.group(2)) != expected:
        raise TlcError(
            "TLC on %s: exit %s, distinct states %s, expected %s\n%s"
            % (module, code, m and m.group(2), expected, out[-6000:])
        )
    fails = []
    for b in BADLINE.finditer(out):
        clauses = set(re.findall(r'"([^"]+)"', b.group(3)))
        if focus == "P32":  # looks at what other properties look at, after failures
            clauses = {c if c.startswith("P32.") else "P32." + c for c in clauses}
        fails.append((int(b.group(1)), int(b.group(2)), clauses))
    if len(fails) != out.count('"BAD"'):
        raise TlcError("TLC on %s: unreadable report\n%s" % (module, out[-6000:]))
    fails.sort(key=lambda x: (x[0], x[1]))
    return fails, int(m.group(2)), int(m.group(1)) - len(texts)


def validate(module, data, focus, **k):
    ts = data["traces"]
    return validate_text(module, [json.dumps(t) for t in ts], [len(t["ev"]) for t in ts], focus, **k)


SIMULATED = re.compile(r"The number of states generated: (\d+)")


def model_check(module, cfg, workers=6, timeout=840, extra=()):
    """Check a bounded model; returns (ok, states generated, distinct states, output)."""
    code, out = run_tlc(module + ".tla", os.path.join(SPEC, cfg), workers=workers,
                        timeout=timeout, extra=extra)
    m = None
    for m in (SIMULATED if "-simulate" in extra else STATES).finditer(out):
        pass
    if m is None or code not in (0, 12, 13):
        raise TlcError("TLC on %s/%s: exit %s\n%s" % (module, cfg, code, out[-6000:]))
    return code == 0, int(m.group(1)), int(m.group(m.re.groups)), out
