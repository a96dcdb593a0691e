"""C22 number formatting and status display"""
import copy
import curses
import json
import re
import signal
import sys
from collections import Counter
from fractions import Fraction

import zmq
from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import schedsim as S
from .c17 import Run

from scaled.entry_points import top
from scaled.protocol.python.message import SchedulerState
from scaled.utility import formatter as F

TECHNIQUE = "property-based testing (Hypothesis) of formatting against exact arithmetic and of the display on a modelled screen, and of the monitor program in simulated histories (screen compared with the latest report)"
LEVEL_NOTE = "Exploration of generated numbers and status reports; trusts the harness' reading of the unit suffixes and its model of a curses screen."
ASSUMPTIONS = ["curses screens are modelled (addstr wraps at the right edge and fails past the last row)",
               "status reports have the layout the scheduler publishes (C17 feeds real ones)"]

EDGE = [0, 1, 5, 50, 59, 60, 61, 94, 95, 99, 100, 499, 500, 949, 950, 999, 1000, 1001, 1023, 1024, 1025, 1049, 1051, 9999,
        10**4, 10**5, 10**6 - 1, 10**6, 10**6 + 1, 10**9 - 1, 10**9, 10**9 + 1, 2**20 - 1, 2**20, 2**20 + 1, 2**30 - 1, 2**30,
        2**30 + 1, 2**40 - 1, 2**40, 2**40 + 1, 2**50 - 1, 2**50, 2**50 + 1, 2**60, 2**63 - 1, 2**64 - 1]
number = st.one_of(st.sampled_from(EDGE), st.integers(0, 3000), st.integers(0, 2**64 - 1),
                   st.tuples(st.sampled_from(EDGE), st.integers(-3, 3)).map(lambda t: max(0, t[0] + t[1])),
                   st.tuples(st.integers(0, 63), st.integers(0, 2**12)).map(lambda t: (2 ** t[0]) + t[1]))
UNITS = {"b": 1, "k": 1024, "m": 1024**2, "g": 1024**3, "t": 1024**4, "p": 1024**5, "e": 1024**6}
TIMES = {"us": Fraction(1), "ms": Fraction(1000), "s": Fraction(10**6)}


def text(fn, n):
    try:
        t = fn(n)
    except Exception as e:
        raise Violation(f"{fn.__name__}({n!r}) fails: {e!r}")
    require(isinstance(t, str) and t != "", f"{fn.__name__}({n!r}) is {t!r}")
    return t


def parse(t, units, what):
    """(value in base unit, displayed precision in base unit, has '+')"""
    m = re.match(r"(\d+)(?:\.(\d+))?(\+?)([a-z]+)\Z", t)
    require(m is not None and m.group(4) in units, f"{what} renders as {t!r}")
    unit = units[m.group(4)]
    frac = m.group(2) or ""
    return Fraction(int(m.group(1) + frac), 10 ** len(frac)) * unit, Fraction(1, 10 ** len(frac)) * unit, m.group(3) == "+"


def p_bytes(n):
    t = text(F.format_bytes, n)
    v, prec, plus = parse(t, UNITS, f"{n} bytes")
    require(not plus, f"{n} bytes renders as {t!r}")
    # truncated or rounded to the displayed precision (plus what a double can resolve)
    require(abs(v - n) <= prec * Fraction(1001, 1000), f"{n} bytes renders as {t!r}")
    return v


def p_us(n):
    t = text(F.format_microseconds, n)
    v, prec, plus = parse(t, TIMES, f"{n} us")
    require(abs(v - Fraction(n)) <= prec * Fraction(1001, 1000), f"{n} us renders as {t!r}")
    return v


def p_seconds(n):
    t = text(F.format_seconds, n)
    m = re.match(r"(\d+)(\+?)s\Z", t)
    require(m is not None, f"{n} s renders as {t!r}")
    v, plus = int(m.group(1)), m.group(2) == "+"
    require(v == n if not plus else v < n, f"{n} s renders as {t!r}")
    return v


def p_int(n):
    t = text(F.format_integer, n)
    require(re.match(r"\d{1,3}(,\d{3})*\Z", t) is not None and int(t.replace(",", "")) == n, f"{n} renders as {t!r}")
    return n


def p_pct(n):
    x = n / 1000  # fractions the scheduler reports
    t = text(F.format_percentage, x)
    m = re.match(r"(\d+)\.(\d)%\Z", t)
    require(m is not None, f"{x} renders as {t!r}")
    v = Fraction(int(m.group(1) + m.group(2)), 10)
    require(abs(v - Fraction(x) * 100) <= Fraction(1, 10), f"{x} renders as {t!r}")
    return v


KINDS = {"bytes": p_bytes, "us": p_us, "s": p_seconds, "int": p_int, "pct": p_pct}


def execute_numbers(plan):
    kind, a, b = plan
    lo, hi = min(a, b), max(a, b)
    if kind == "pct":
        lo, hi = lo % 10**9, hi % 10**9
        lo, hi = min(lo, hi), max(lo, hi)
    f = KINDS[kind]
    vl, vh = f(lo), f(hi)
    require(vl <= vh, f"{kind}: {lo} renders as more than {hi}")
    if kind in ("us", "bytes") and lo < 2**50:
        f(lo + 0.25)  # latencies and sums may be fractional
    return Case(lo != hi, [kind])


def numbers():
    return st.tuples(st.sampled_from(sorted(KINDS)), number, number).map(list)


# ------------------------------------------------------------------ display
KEYS = {"n": "worker", "C": "agt_cpu", "M": "agt_rss", "c": "cpu", "m": "rss", "f": "free", "w": "sent", "d": "queued", "l": "lag"}
small = st.one_of(st.integers(0, 5), st.integers(0, 70), number)
name = st.text("abcdefghij0123456789|._-", min_size=1, max_size=40)
table_name = st.one_of(name, st.sampled_from(["<lambda>", "<anonymous func>", "partial"]), st.text("ab\\x0f\u4e2d\u00e9", max_size=8))


def worker():
    return st.fixed_dictionaries({
        "worker": name, "agt_cpu": st.integers(0, 10**6), "agt_rss": number, "cpu": st.integers(0, 10**6), "rss": number,
        "free": st.integers(-5, 1000), "sent": small, "queued": small, "lag": number, "last": small,
        "ITL": st.sampled_from(["000", "100", "110", "111", "101"])})


def plans():
    return st.fixed_dictionaries({
        "wk": st.lists(worker(), max_size=8, unique_by=lambda w: w["worker"][:20]),
        "cpu": st.integers(0, 10**6), "rss": number,
        "tm": st.lists(small, min_size=6, max_size=6),
        "sent": st.dictionaries(st.sampled_from(["Task", "TaskEcho", "Heartbeat", "FunctionRequest", "X" * 30]), small, max_size=5),
        "recv": st.dictionaries(st.sampled_from(["Task", "TaskCancel", "Heartbeat", "BalanceResponse"]), small, max_size=4),
        "cm": st.dictionaries(table_name, small, max_size=5),
        "fm": st.dictionaries(table_name, small, max_size=5),
        "keys": st.lists(st.sampled_from(sorted(KEYS) + ["-", "-", "q", "\n"]), min_size=1, max_size=3),
        "size": st.one_of(st.just([400, 1000]), st.just([400, 1000]),
                          st.tuples(st.integers(1, 40), st.integers(1, 160)).map(list)),
        "gm": st.booleans(),
    })


class Screen:
    """enough of a curses window"""

    def __init__(self, rows, cols, key):
        self.rows, self.cols = rows, cols
        self.key = key
        self.cells = {}
        self.refreshed = 0

    def getch(self):
        return self.key

    def nodelay(self, *a):
        pass

    def getmaxyx(self):
        return self.rows, self.cols

    def clear(self):
        self.cells = {}

    erase = clear

    def addstr(self, y, x, s, *attr):
        if not isinstance(s, str):
            raise TypeError("addstr expects a string")
        if y < 0 or x < 0 or y >= self.rows or x >= self.cols:
            raise curses.error("wmove() returned ERR")
        for c in s:
            if y >= self.rows:
                raise curses.error("addwstr() returned ERR")
            self.cells[(y, x)] = c
            x += 1
            if x >= self.cols:
                x, y = 0, y + 1
        if y >= self.rows:
            raise curses.error("addwstr() returned ERR")

    def refresh(self):
        self.refreshed += 1

    def lines(self):
        n = max((y for y, _ in self.cells), default=-1) + 1
        out = []
        for y in range(n):
            xs = [x for yy, x in self.cells if yy == y]
            out.append("".join(self.cells.get((y, x), " ") for x in range(max(xs, default=-1) + 1)))
        return out


def report(plan):
    ws = []
    for w in plan["wk"]:
        d = {k: w[k] for k in ("worker", "agt_cpu", "agt_rss", "cpu", "rss", "free", "sent", "queued", "lag", "last", "ITL")}
        d["agt_cpu"] /= 1000
        d["cpu"] /= 1000
        ws.append(d)
    tm = dict(zip(["unassigned", "running", "success", "failed", "canceled", "not_found"], plan["tm"]))
    data = {"scheduler": {"cpu": plan["cpu"] / 1000, "rss": plan["rss"]}, "task_manager": tm,
            "binder": {"sent": plan["sent"], "received": plan["recv"]}, "client_manager": plan["cm"],
            "function_manager": plan["fm"], "worker_manager": ws}
    if plan["gm"]:
        data["graph_manager"] = {"unassigned": 3}
    return data


def show(data, rows, cols, key, config):
    s = Screen(rows, cols, key)
    try:
        top.show_status(SchedulerState(json.dumps(data).encode()), screen=s, config=config)
    except Exception as e:
        raise Violation(f"display fails on a {rows}x{cols} screen with {json.dumps(data)[:1500]}: {e!r}", "display")
    require(s.refreshed >= 1, "screen is not refreshed")
    return s


def find_value(lines, title, label, value, what):
    for ln in lines:
        if re.search(re.escape(label) + r"\s+" + re.escape(value) + r"(\s|\||$)", ln):
            return
    raise Violation(f"{what}: no line shows {label!r} with {value!r}:\n" + "\n".join(lines)[:3000], "display")


def check_display(data, lines, sort_key):
    ws = data["worker_manager"]
    require(any(re.search(rf"(?<!\d){len(ws)} worker", ln) for ln in lines), f"total of {len(ws)} workers is not shown")
    for k, v in data["task_manager"].items():
        find_value(lines, "task_manager", k, F.format_integer(v), "task_manager")
    for t in ("sent", "received"):
        for k, v in data["binder"][t].items():
            find_value(lines, t, k, F.format_integer(v), f"messages {t}")
    find_value(lines, "scheduler", "cpu", F.format_percentage(data["scheduler"]["cpu"]), "scheduler")
    find_value(lines, "scheduler", "rss", F.format_bytes(data["scheduler"]["rss"]), "scheduler")
    for t in ("client_manager", "function_manager"):
        for k, v in data[t].items():
            find_value(lines, t, k[:10], str(v), t) if len(k) <= 10 else None
    if not ws:
        return 0
    head = next((i for i, ln in enumerate(lines) if "agt_cpu" in ln and "agt_rss" in ln and "Shortcuts" not in ln), None)
    require(head is not None, "no worker table")
    cols = lines[head].split("|")[0].split() if "|" in lines[head] else lines[head].split()
    require(f"[{sort_key}]" in cols, f"sort column {sort_key} is not marked: {cols}")
    cols = [c.strip("[]") for c in cols]
    rows = []
    byname = {w["worker"][:20]: w for w in ws}
    for ln in lines[head + 1:]:
        toks = ln.split()
        if not toks or toks[0][:20] not in byname:
            continue
        joined = []
        for t in toks:
            if joined and joined[-1].startswith("(") and joined[-1].endswith(")"):
                joined[-1] += " " + t
            else:
                joined.append(t)
        if len(joined) < len(cols):
            continue
        w = byname[toks[0][:20]]
        got = dict(zip(cols, joined))
        want = {"agt_cpu": F.format_percentage(w["agt_cpu"]), "agt_rss": F.format_bytes(w["agt_rss"]),
                "cpu": F.format_percentage(w["cpu"]), "rss": F.format_bytes(w["rss"]), "free": str(w["free"]),
                "sent": str(w["sent"]), "queued": str(w["queued"]), "ITL": w["ITL"]}
        for k, v in want.items():
            require(got.get(k, "").replace(",", "") == v.replace(",", ""),
                    f"worker {w['worker']}: {k} is shown as {got.get(k)!r}, reported {w[k]!r}", "display")
        require(got["lag"].endswith(F.format_microseconds(w["lag"])), f"worker {w['worker']}: lag shown as {got['lag']!r}")
        if w["last"] > 5:
            require(got["lag"].startswith(f"({F.format_seconds(w['last'])})"),
                    f"worker {w['worker']} silent for {w['last']} s is shown as {got['lag']!r}")
        else:
            require("(" not in got["lag"], f"worker {w['worker']} silent for {w['last']} s is shown as {got['lag']!r}")
        rows.append(w)
    require(len(rows) == len(ws) and len({w["worker"] for w in rows}) == len(ws),
            f"workers shown: {[w['worker'] for w in rows]}, reported: {[w['worker'] for w in ws]}\n" + "\n".join(lines)[:3000])
    vals = [w[sort_key] for w in rows]
    require(vals == sorted(vals, reverse=True), f"workers are not in order of {sort_key}: {vals}")
    return len(ws)


def safe_names(plan):
    # names are compared by whole tokens: keep '|' and blanks out of worker names
    for w in plan["wk"]:
        w["worker"] = w["worker"].replace("|", "_")
    seen = set()
    plan["wk"] = [w for w in plan["wk"] if not (w["worker"][:20] in seen or seen.add(w["worker"][:20]))]


def execute(plan):
    plan = copy.deepcopy(plan)
    safe_names(plan)
    config = {"sort_by": "cpu"}
    rows, cols = plan["size"]
    sort_key = "cpu"
    n = 0
    for key in plan["keys"]:
        sort_key = KEYS.get(key, sort_key)
        data = report(plan)
        s = show(copy.deepcopy(data), rows, cols, -1 if key == "-" else ord(key), config)
        if (rows, cols) == (400, 1000):
            n = check_display(data, s.lines(), sort_key)
    return Case(bool(plan["wk"]), [f"workers={min(n, 3)}", "large" if (rows, cols) == (400, 1000) else "small"])


# ------------------------------------------------------------------ the monitoring program
MONITOR = "ipc:///tmp/127.0.0.1_2345_monitor"


def programs():
    ops = [S.op_submit(4), S.op_submit(4), S.op_result(("Success", "Success", "Failed", "Inactive")), S.op_result(), S.op_worker(),
           S.op_disconnect(), S.op_cancel(), S.op_graph(4), S.op_chains(), S.op_finish(), S.gap(), S.gap(), S.gap(),
           st.tuples(st.just("pause"), st.sampled_from([0.5, 1.0, 2.0, 4.0])).map(list)]
    return st.tuples(
        S.plan(ops, qs=(1000, 2), mt=(-1, 3), lb=(1,), lbt=(2,), wt=(60, 3), size=16, fr=(20, 3)),
        st.fixed_dictionaries({
            "to": st.sampled_from([None, None, None, 2, 3, 7, 1]), "delay": st.sampled_from([0.0, 0.3, 1.5, 3.0]),
            "late": st.sampled_from([0.0, 0.0, 0.4, 4.0, 8.0]),
            "keys": st.lists(st.sampled_from(sorted(KEYS) + ["-", "-", "-", "q"]), max_size=8),
            "size": st.sampled_from([[400, 1000], [400, 1000], [400, 1000], [30, 90], [4, 20]]),
            "end": st.sampled_from(["int", "stall", "kill", "int"])})).map(lambda t: {**t[0], **t[1]})


class Terminal(Screen):
    """what the user sees changes at refresh() only; each key is pressed once"""

    def __init__(self, rows, cols):
        super().__init__(rows, cols, -1)
        self.shown = None

    def getch(self):
        key, self.key = self.key, -1
        return key

    def refresh(self):
        self.refreshed += 1
        self.shown = dict(self.cells)


class Monitored(Run):
    def __init__(self, plan, **kw):
        super().__init__(plan, **kw)
        self.screen = Terminal(*plan["size"])
        self.result = None  # (time, exception or None)
        self.started = self.heard = None
        self.latest = None
        self.sort_key = "cpu"
        self.reports = 0
        self.messages = Counter()
        self.wrong = None
        self.longest = 0.0
        self.k.taps.append(self.tap)
        if plan["late"]:
            self.sched.stalled_until = plan["late"]
        self.top = self.world.program(self.watch, name="top", delay=plan["delay"])

    def watch(self):
        to = self.plan["to"]
        self.started = self.heard = self.k.now
        sys.argv = ["scaled_top", *(["--timeout", str(to)] if to is not None else []), MONITOR]
        curses.wrapper = lambda fn, *args: fn(self.screen, *args)
        try:
            top.main()
        except Exception as e:
            self.result = (self.k.now, e)
        else:
            self.result = (self.k.now, None)

    def tap(self, kind, sock, frames):
        if sock.type != zmq.SUB or kind not in ("recv", "pop"):
            return
        if kind == "recv":
            if self.result is None:
                self.longest = max(self.longest, self.k.now - self.heard)
                self.heard = self.k.now
            return
        self.look()
        msg = S.W.decode(frames)
        self.messages[type(msg).__name__] += 1
        if isinstance(msg, SchedulerState):
            self.latest = json.loads(msg.data)
            keys = self.plan["keys"]
            key = keys[self.reports] if self.reports < len(keys) else "-"
            self.screen.key = -1 if key == "-" else ord(key)
            self.sort_key = KEYS.get(key, self.sort_key)
            self.reports += 1

    def look(self):
        """the screen shows the latest report, and nothing but that"""
        if self.latest is None or self.wrong is not None:
            return
        try:
            seen = self.screen.shown
            require(seen is not None, f"nothing is displayed after {self.reports} reports", "program")
            rows, cols = self.plan["size"]
            fresh = Terminal(rows, cols)
            top.show_status(SchedulerState(json.dumps(self.latest).encode()), screen=fresh, config={"sort_by": self.sort_key})
            visible = {p: c for p, c in seen.items() if c != " "}
            want = {p: c for p, c in fresh.shown.items() if c != " "}
            s = Screen(rows, cols, -1)
            s.cells = seen
            require(visible == want, f"the screen does not show the latest report (alone), sorted by {self.sort_key}:\n"
                    + "\n".join(s.lines())[:1500] + f"\n{json.dumps(self.latest)[:1500]}", "program")
            if (rows, cols) == (400, 1000):
                check_display(self.latest, s.lines(), self.sort_key)
        except Violation as e:
            self.wrong = e

    def other(self, op):
        assert op[0] == "pause"
        self.sched.stalled_until = self.k.now + op[1]

    def run(self, t):
        super().run(t)
        if self.wrong is not None:
            raise self.wrong


def execute_program(plan):
    with Monitored(plan) as s:
        to = plan["to"] or 5
        s.run(max(plan["delay"], plan["late"]) + 0.5)
        s.execute()
        s.run(2.3)
        end = plan["end"] if s.result is None else "over"
        if end == "int":
            s.k.send_signal(s.top.pid, signal.SIGINT)
            s.run(0.5)
            require(s.result is not None, "the monitor does not end when it is interrupted", "interrupt")
            require(s.result[1] is None, f"an interrupted monitor ends with {s.result[1]!r}", "interrupt")
        elif end == "stall":
            s.sched.stalled_until = s.k.now + to + 1.5
            s.run(to + 3)
        elif end == "kill":
            s.k.kill_proc(s.sched, -9)
            s.world.run(None, to + 3)
            if s.wrong is not None:
                raise s.wrong
        s.look()
        if s.wrong is not None:
            raise s.wrong
        over = s.k.now if s.result is None else s.result[0]
        due = sum(max(s.started, plan["late"]) + 1.0 <= t < over - 1.0 and isinstance(S.W.decode(f), SchedulerState) for t, f in s.k.pub_log)
        require(s.reports >= due, f"the monitor saw {s.reports} reports of the {due} published while it was connected", "program")
        if end != "int":
            if s.result is None:
                quiet = max(s.longest, s.k.now - s.heard)
                require(quiet < to + 0.1, f"the monitor is still running though nothing arrived for {quiet:.2f} s (timeout {to} s)", "timeout")
            else:
                t, e = s.result
                require(isinstance(e, TimeoutError), f"the monitor ended at t={t:.2f} with {e!r}", "program")
                quiet = t - s.heard
                require(abs(quiet - to) < 0.1, f"the monitor gave up after {quiet:.2f} s of silence, its timeout is {to} s", "timeout")
                require(s.longest < to + 0.1, f"the monitor survived {s.longest:.2f} s of silence (timeout {to} s)", "timeout")
        return Case(s.reports >= 2 and s.messages["TaskState"] > 0,
                    [f"end={end}", f"result={type(s.result[1]).__name__ if s.result else None}", f"reports={min(s.reports, 10) // 3 * 3}",
                     "large" if plan["size"][0] == 400 else "small"])


CHECKS = [
    Check("numbers", numbers, execute_numbers, 16000, 800000,
          "ordered pairs of numbers of each kind around unit boundaries up to 2^64; non-trivial: the two differ"),
    Check("display", plans, execute, 3000, 120000,
          "random status reports with sort keys on large and small screens; non-trivial: has workers"),
    Check("program", programs, execute_program, 1500, 60000,
          "the real monitor attached to the real scheduler in a simulated history with keys pressed, a stalling, late or killed scheduler "
          "and interrupts; non-trivial: two reports and task messages between them"),
]
