"""The bundled number-partitioning applications, run as they are on generated files (C29)."""
import ast
import datetime
import glob
import importlib
import logging
import os
import re
import shutil
import sys
import tempfile

from common import REPO, HarnessError

logging.disable(logging.ERROR)
SAMPLES = os.path.join(REPO, "sample", "algorithm")
# application: (window size, window period, rule)
APPS = {
    "npp_window": (30, 5, "window"),
    "npp_attenuation": (20, 5, "window"),
    "npp_delta": (10, 10, "window"),
    "npp_incremental": (10, 10, "incremental"),
    "npp_partial": (10, 10, "partial"),
}
EPOCH = datetime.datetime(1970, 1, 1)


def app(name):
    if SAMPLES not in sys.path:
        sys.path.insert(0, SAMPLES)
    return getattr(importlib.import_module(name), name)


def c29(case):
    rng = case.rng
    name = rng.choice(list(APPS))
    size, period, rule = APPS[name]
    n = rng.choice([1, 2, 5, 9, 10, 11, rng.randint(12, 45), rng.randint(20, 70)])
    top = rng.choice([9, 99, 99, 120, 10**6])
    numbers, lines = [], []
    for _ in range(n):
        if rng.random() < 0.1:
            lines.append(rng.choice(["abc", "-5", "3.5", "1 2", "#", "0x1f", "+7"]))
        v = numbers[-1] if numbers and rng.random() < 0.15 else rng.randint(1, top)
        numbers.append(v)
        lines.append(str(v))
    case.ev(name, "lines", lines)
    case.sign(name, tuple(lines))
    tmp = tempfile.mkdtemp(prefix="c29-")
    try:
        path = os.path.join(tmp, "input.txt")
        with open(path, "w") as f:
            f.write("\n".join(lines) + ("\n" if rng.random() < 0.7 else ""))
        app(name)(input_path=path, output_path=os.path.join(tmp, "out"))
        text = ""
        for p in sorted(glob.glob(os.path.join(tmp, "out-*"))):
            with open(p) as f:
                text += f.read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check_records(case, name, size, period, rule, numbers, text)
    case.count("applications_run")
    case.count("runs_of_" + name)


def check_records(case, name, size, period, rule, numbers, text):
    records = {}
    parts = text.split("\n>>>\n")
    case.check(parts[-1].strip() == "", "text after the last record", parts[-1][:80])
    for part in parts[:-1]:
        m = re.match(r"\s*<<<\n\[(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(?:\.\d+)?)(?:\+00:00)?\] (.*)\Z", part, re.S)
        case.check(m is not None, "a record lacks its prefix or time", part[:120])
        stamp = m.group(1)
        t = datetime.datetime.strptime(stamp, "%Y-%m-%d %H:%M:%S.%f" if "." in stamp else "%Y-%m-%d %H:%M:%S")
        end = round((t - EPOCH).total_seconds() + 1e-6)
        case.check(end not in records, "two records for one window", end)
        records[end] = m.group(2)
    last = len(numbers) - 1
    ends = []
    e = period
    while e - size <= last:
        ends.append(e)
        e += period
    case.check(sorted(records) == ends, "there is not exactly one record per window", sorted(records), ends)
    prev = []
    for e in ends:
        rec = records[e]
        if rec.startswith("The received event is outdated"):
            case.check(any(o > e and not records[o].startswith("The received event is outdated") for o in ends), "a window counts as outdated although no later one was processed", e)
            case.count("outdated")
            continue
        window = [i for i in range(max(0, e - size), e) if i <= last]
        if rule == "incremental":
            window = sorted(set(window) | set(prev))
        elif rule == "partial":
            window = sorted(set(window) | {i for i in prev if numbers[i] > 90})
        prev = window
        have = [numbers[i] for i in window]
        if len(window) < 2:
            case.check(rec.startswith("Failed to solve"), "a window of one number, which has no model, was not reported as failed", rec[:200])
            case.count("failed_windows")
            continue
        m = re.match(
            r"\nINPUT -->\n  (\[.*?\])\n  \(length: (\d+)\)\nSOLUTION ==>\n  Set\(\+\) : sum=(\d+), elements=(\[.*?\])\n  Set\(-\) : sum=(\d+), elements=(\[.*?\])\n  diff   : (\d+)\Z", rec, re.S
        )
        case.check(m is not None, "a window was not solved", e, rec[-400:])
        given, length, sp, p, sn, q, diff = (ast.literal_eval(g) for g in m.groups())
        case.check(given == have and length == len(have), "the numbers of a window", e, given, have)
        case.check(sorted(p + q) == sorted(have), "the two sets are not a partition of the window's numbers", e, p, q, have)
        case.check(sp == sum(p) and sn == sum(q) and diff == abs(sp - sn), "sums of a partition", e, p, q, sp, sn, diff)
        case.count("partitions_checked")
