"""Accesses to blocks, for kharness block."""
import random

KINDS = ["vec", "static", "rawc", "agg", "aggread"]


def row(r, n):
    return [r.randint(-9, 99) for _ in range(n)]


def script(r, n=24):
    k, ch, bs = r.choice(KINDS), r.randint(1, 3), r.randint(2, 4)
    if k != "static" and r.random() < .6:
        ch, bs = r.randint(1, 5), r.choice([1, 2, 3, 5, 8, 16])
    s = [{"ev": "reset", "kind": k, "ch": ch, "bs": bs, "rows": [row(r, bs) for _ in range(ch)]}]
    views = []
    for _ in range(n):
        size = views[-1][0] if views else bs
        w = k != "aggread" and all(v[1] for v in views)
        c = r.randrange(ch)
        x = r.random()
        if x < .15 and len(views) < 3:
            o = r.randint(0, size)
            v = (r.randint(0, size - o), int(w and r.random() < .75))
            views.append(v)
            s.append({"ev": "window", "off": o, "len": v[0], "w": v[1]})
        elif x < .24 and views:
            views.pop()
            s.append({"ev": "back"})
        elif x < .3 and not views and k in ("rawc", "agg", "aggread"):
            op = r.choice(["read", "slice"] + ["write"] * (k != "aggread"))
            beyond = r.choice(["c", "f"]) if op != "slice" else "c"
            s.append({"ev": "beyond", "op": op, "c": ch + r.randint(0, 2) if beyond == "c" else c, "f": bs + r.randint(0, 2) if beyond == "f" else r.randrange(bs)})
        elif x < .4:
            s.append({"ev": "slice", "c": c})
        elif x < .5 and size:
            s.append({"ev": "read", "c": c, "f": r.randrange(size)})
        elif x < .55:
            s.append({"ev": "all"})
        elif w and x < .8 and size:
            s.append({"ev": "write", "c": c, "f": r.randrange(size), "v": r.randint(-9, 99)})
        elif w and x < .9:
            s.append({"ev": "fill", "c": c, "vs": row(r, size)})
        elif w:
            s.append({"ev": "iter", "rows": [row(r, size) for _ in range(ch)]})
    return s + [{"ev": "all"}] + [{"ev": "back"}, {"ev": "all"}] * len(views)


def finish(s):
    depth = sum({"window": 1, "back": -1}.get(e["ev"], 0) for e in s)
    return s + [{"ev": "all"}] + [{"ev": "back"}, {"ev": "all"}] * depth


def check(c):
    c.explore("KBlockMC", "block", [(k, 2, 3) for k in KINDS], finish)
    r = random.Random(f"{c.seed}/block")
    for _ in range(1 if c.tier == "quick" else 20):
        c.trace([script(r) for _ in range(1000)], "driver of accesses", module="KBlockTrace", cmd="block")
