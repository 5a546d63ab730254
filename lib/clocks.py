"""Long histories of clocks and timed changes, for kharness clock."""
import random
import run

RATES = [44100, 48000, 22050, 96000, 192000]


def start(r, u=None):
    u = u or r.choice([1, 1, 2, 4093, 4095, 4099, 1021])
    bs = r.choice([b for b in (1, 2, 3, 5, 7, 15, 60, 64, 1000, 32768, 65535) if 1000 <= b * u <= 65535])
    return {"ev": "reset", "u": u, "bs": bs, "sr": r.choice(RATES), "cap": r.choice([4, 16]), "prec": r.choice([0, 1]), "sub": r.choice([0, 0, 1])}


def script(r, far, n=26):
    """far: whether the clock goes beyond 2^32 frames, or, counting single frames, close to 2^31"""
    x = start(r, r.choice([4093, 4095, 1]) if far else None)
    if far:
        # as many frames in a block as possible
        x["bs"] = 65535 // x["u"] - (r.randint(0, 3) if x["u"] == 1 else 0)
    bs, clk, s, big = x["bs"], 0, [x], 0
    end = (1 << 31) - 1 if x["u"] == 1 else (1 << 32) // x["u"]
    for k in range(n):
        y = r.random()
        if far and k in (6, 16):
            # close to a place where a narrower number would overflow
            to = r.choice([1 << 31, 1 << 32]) // x["u"] if x["u"] > 1 else r.choice([1 << 24, (1 << 31) - 40 * bs])
            m = (to - clk) // bs - r.randint(0, 2)
            if m > 0:
                s.append({"ev": "blk", "n": m})
                clk += m * bs
                big = to
            continue
        if y < .5:
            m = r.choice([0, 1, 1, 1, 2, 3, r.randint(4, 40)])
            if x["u"] == 1 and clk + m * bs > end - 20 * bs:
                m = 1
            if x["u"] == 1 and clk + 4 * bs > end:
                break
            s.append({"ev": "blk", "n": m})
            clk += m * bs
        elif y < .55:
            s.append({"ev": "act", "tok": r.randint(1, 2)})
        else:
            tm = r.choice(["none", "at", "at", "after", "after"])
            t = {"none": 0, "at": clk + r.randint(-bs, 4 * bs), "after": r.choice([r.randint(0, 4 * bs), r.randint(0, 50 * bs)])}[tm]
            if far and tm == "at" and r.random() < .4:
                t = r.choice([(1 << 31) // x["u"] + 3, (1 << 32) // x["u"] + r.randint(-bs, bs)]) if x["u"] > 1 else r.choice([(1 << 24) + 1, (1 << 31) - 30 * bs])
            s.append({"ev": "set", "p": r.randint(0, 1), "v": k + 1, "tm": tm, "tt": max(0, t), "tok": r.choice([0, 0, 0, 0, 0, 1, 2])})
    for e in s:
        if e["ev"] == "blk":
            e["via"] = r.randint(0, 2)
    return s + [{"ev": "blk", "n": 3 if x["u"] == 1 else 60}]


def finish(s):
    """what comes after a transition of the model"""
    return s + [{"ev": "set", "p": 0, "v": 99, "tm": "none", "tt": 0, "tok": 0}, {"ev": "blk", "n": 1}, {"ev": "blk", "n": 800}, {"ev": "act", "tok": 1}, {"ev": "blk", "n": 1}]


def check(c):
    c.explore("KClockMC", "clock", [("whole", 4, 5), ("prec", 4, 5), ("sub", 3, 5), ("tok", 4, 6)], finish)
    n = 1 if c.tier == "quick" else 10
    r = random.Random(f"{c.seed}/clock")
    c.trace([script(r, False) for _ in range(300 * n)], "driver of clocks", module="KClockTrace", cmd="clock")
    c.trace([script(r, True) for _ in range(16 * n)], "driver of far clocks", module="KClockTrace", cmd="clock")
