"""Histories of log channels, for kharness log."""
import random
import run

VALS = {"str": ["", "a", "mängd", "End", "0"], "f32": ["0.5", "-2.25", "0", "3"], "f64": ["0.1", "-1.5", "123456789.25", "inf", "NaN"],
        "u8": ["0", "255"], "u16": ["65535", "7"], "u32": ["4294967295", "1"], "u64": ["18446744073709551615", "0"], "usize": ["9", "18446744073709551615"],
        "i8": ["-128", "127"], "i16": ["-32768", "5"], "i32": ["-2147483648", "0"], "i64": ["-9223372036854775808", "9223372036854775807"],
        "secs": ["0:0", "1:282239999", "4294967295:3"]}


def part(r):
    k = r.choice(list(VALS))
    return [k, r.choice(VALS[k])]


def message(r, most):
    return [part(r) for _ in range(r.randint(0, most))]


def script(r, raw, n=30):
    caps = [r.choice([1, 2, 3, 4, 5, 8, 16]) for _ in range(r.randint(0, 3))]
    s = [{"ev": "reset", "caps": caps}]
    k = len(caps)
    for _ in range(n):
        x = r.random()
        if (x < .06 or k == 0) and k < 4:
            s.append({"ev": "add", "cap": r.randint(1, 6)})
            k += 1
        elif x < .3:
            s.append({"ev": "recv"})
        elif raw and x < .55:
            s.append({"ev": "send", "s": r.randrange(k), "part": part(r) if r.random() < .6 else ["end"]})
        elif k:
            s.append({"ev": "log", "s": r.randrange(k), "parts": message(r, 5)})
    return s + [{"ev": "recv"}, {"ev": "recv"}]


def probes(r):
    """LogProbes, next to other senders"""
    s, k, p = [{"ev": "reset", "caps": []}], 0, []
    for _ in range(r.randint(1, 3)):
        if r.random() < .75:
            p.append((k, r.choice([1, 2, 4, 5])))
            s.append({"ev": "probe", "cap": r.choice([2, 3, 4, 8, 16, 16, 30]), "name": r.choice(["", "a", "in"]), "sr": r.choice([0, 1, 2, 3, 4, 7, 12]), "bs": p[-1][1]})
        else:
            s.append({"ev": "add", "cap": r.randint(1, 6)})
        k += 1
    for _ in range(20):
        x = r.random()
        if x < .3:
            s.append({"ev": "recv"})
        elif p and x < .9:
            j, n = r.choice(p)
            s.append({"ev": "blk", "s": j, "vals": [r.choice(["0", "1", "-2", "0.5", "NaN"]) for _ in range(r.choice([n, n, n, r.randint(0, n)]))]})
        else:
            j = r.randrange(k)
            if j not in [a for a, b in p]:
                s.append({"ev": "log", "s": j, "parts": message(r, 3)})
    return s + [{"ev": "recv"}]


def conc(r):
    n = r.randint(5, 40)
    sent = [[["u32", str(i)]] + message(r, 3) for i in range(n)]
    total = sum(len(m) + 1 for m in sent)
    fits = r.random() < .3
    cap = total if fits else r.choice([2, 3, 5, 8, 16])
    return [{"ev": "reset", "caps": []}, {"ev": "conc", "cap": cap, "fits": int(cap >= total), "sent": sent}]


def finish(s):
    """what comes after a transition of the model: does every channel still work?"""
    if any(e["ev"] == "probe" for e in s):
        return s + [{"ev": "blk", "s": 0, "vals": ["4", "5"]}, {"ev": "recv"}, {"ev": "blk", "s": 0, "vals": ["6", "7"]}, {"ev": "recv"}]
    m = [{"ev": "log", "s": k, "parts": x} for k in range(4) for x in ([], [["u8", "1"]])]
    return s + m + [{"ev": "recv"}] + m + [{"ev": "recv"}, {"ev": "recv"}]


def check(c):
    c.explore("KLogMC", "log", [("one", 5, 7), ("raw", 4, 6), ("two", 4, 5), ("add", 4, 5), ("probe", 5, 7)], finish)
    n = 1 if c.tier == "quick" else 10
    r = random.Random(f"{c.seed}/log")
    c.trace([script(r, False) for _ in range(400 * n)], "driver of messages", module="KLogTrace", cmd="log")
    c.trace([script(r, True) for _ in range(200 * n)], "driver of messages and single parts", module="KLogTrace", cmd="log")
    c.trace([probes(r) for _ in range(300 * n)], "driver of probes", module="KLogTrace", cmd="log")
    c.trace([conc(r) for _ in range(60 * n)], "driver of two threads", module="KLogTrace", cmd="log")
