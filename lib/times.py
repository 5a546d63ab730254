"""Calculations with times, for kharness time."""
import random

S, SB, LIM = 282240000, 1476034560, 2 ** 32
RATES = [1, 7, 8000, 11025, 22050, 24000, 44100, 44101, 48000, 88200, 96000, 192000, 384000]
FRACS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 24, 32, 64, 128, 256, 512, 1920]


def digits(n):
    d = []
    while n > 0:
        d.append(n % 10000)
        n //= 10000
    return d


def whole(r, most=LIM):
    x = r.random()
    if x < .25:
        return 0
    if x < .5:
        return r.randint(1, 5)
    if x < .8:
        return r.randint(0, min(most - 1, 10 ** r.randint(1, 9)))
    return r.choice([most - 1, most - 2, most // 2, r.randrange(most)])


def tes(r, u):
    x = r.random()
    if x < .15:
        return 0
    if x < .3:
        return r.choice([1, u - 1, u // 2])
    if x < .5:
        return u // r.choice([3, 4, 5, 7, 8, 9, 44100, 48000])
    return r.randrange(u)


def time(r, u, most=LIM):
    return [digits(whole(r, most)), digits(tes(r, u))]


def fl(r, hi=32, f32=False):
    """m * 2^e, at most about 2^hi"""
    bits = r.choice([1, 2, 3, 8, 24]) if f32 else r.choice([1, 2, 3, 8, 24, 53])
    m = r.randrange(2 ** bits)
    if m == 0:
        return [[], 0]
    while m % 2 == 0:
        m //= 2
    e = r.randint(-40, 4)
    while m.bit_length() + e > hi:
        e -= 1
    return [digits(m), e]


def script(r, n=14):
    k = r.choice(["s", "s", "b"])
    u = S if k == "s" else SB
    s = [{"ev": "reset", "k": k, "v": time(r, u)}]
    ev = lambda **x: s.append(x)
    for _ in range(n):
        ops = ["add", "add", "csub", "csub", "ssub", "cmp", "cmp", "mul", "mulf", "mulf", "fromf", "tof", "set"]
        ops += ["fromsamples", "fromsamples", "tosamples", "tosamples", "tosamplesf", "fromu64", "tou64", "fromdur"] if k == "s" else ["sum", "muln", "fromfrac", "fromfrac"]
        o = r.choice(ops)
        if o in ("add", "csub", "ssub", "set"):
            ev(ev=o, how=r.choice(["op", "assign"]) if o != "set" else r.choice(["op", "op", "whole"]) if k == "b" else "op", w=time(r, u, r.choice([3, LIM])))
            if s[-1]["how"] == "whole":
                s[-1]["w"][1] = []
        elif o == "cmp":
            ev(ev=o, w=time(r, u, r.choice([2, LIM])))
        elif o == "mul":
            ev(ev=o, how=r.choice(["op", "assign"]), w=time(r, u, 5))
        elif o == "mulf":
            h = r.choice(["f64", "f64l", "f64a", "f32", "f32l", "f32a"])
            ev(ev=o, how=h, x=fl(r, 4, h[:3] == "f32"))
        elif o == "muln":
            h = r.choice(["u8", "u16", "u32", "u64"])
            ev(ev=o, how=h, n=digits(r.choice([0, 1, 2, 3, 255, r.randrange(256)])))
        elif o == "fromf":
            h = r.choice(["f64", "loss"]) if k == "s" else r.choice(["f64", "f64l", "f32", "f32l"])
            ev(ev=o, how=h, x=fl(r, 32 if k == "s" else 30, h[:3] == "f32"))
        elif o == "tof":
            ev(ev=o, how=r.choice(["f64", "f32"]) if k == "b" else "f64")
        elif o == "fromsamples":
            rate = r.choice(RATES)
            ev(ev=o, n=digits(r.choice([r.randrange(rate * 4), r.randrange(rate * (LIM - 1)), rate, rate - 1])), rate=digits(rate))
        elif o in ("tosamples", "tosamplesf"):
            ev(ev=o, rate=digits(r.choice(RATES)))
        elif o == "fromu64":
            ev(ev=o, n=digits(r.choice([r.randrange(S * 3), r.randrange(S * LIM), S - 1, S])))
        elif o == "tou64":
            ev(ev=o)
        elif o == "fromdur":
            ev(ev=o, n=digits(whole(r)), nanos=digits(r.choice([0, 1, 999999999, 500000000, r.randrange(10 ** 9)])))
        elif o == "sum":
            ev(ev=o, ws=[time(r, u, 1000) for _ in range(r.randint(0, 4))])
        elif o == "fromfrac":
            f = r.choice(FRACS)
            ev(ev=o, f=digits(f), n=digits(whole(r)), fr=digits(r.randrange(f)))
    return s


def check(c):
    c.explore("KTimeMC", "time", [("secs", 2, 2), ("beats", 2, 2), ("samples", 1, 2), ("fractions", 1, 1)], lambda s: s)
    r = random.Random(f"{c.seed}/time")
    for _ in range(1 if c.tier == "quick" else 20):
        c.trace([script(r) for _ in range(700)], "driver of calculations", module="KTimeTrace", cmd="time")
