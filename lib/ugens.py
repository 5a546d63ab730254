"""Random drivers for UGens and stacks of wrappers (KUGen). As in drivers.py, they only know what is
worth trying; what the answer has to be is decided by the specification."""
import random

PARS = {"tw": 3, "const": 1, "dot": 1, "pan": 1, "sdelay": 1, "adelay": 1, "phasor": 1, "olpf": 1, "ohpf": 1, "ssd": 1, "fdelay": 2,
        "sinwt": 3, "sinnum": 3, "blep": 3, "are": 3, "asr": 4, "env": 4, "svf": 5, "buf1": 6, "buf2": 6}
INS = {"tw": 2, "add": 2, "sub": 2, "mul": 2, "div": 2, "pow": 2, "clo2": 2, "add2": 4, "sub2": 4, "div2": 4, "add3": 6, "mul3": 6, "sub4": 8, "lim": 1, "pan": 1, "ceil": 1, "floor": 1,
       "trunc": 1, "fract": 1, "sqrt": 1, "exp": 1, "olpf": 1, "ohpf": 1, "svf": 1, "sdelay": 1, "adelay": 1, "fdelay": 1, "ssd": 1, "clo1": 1}


def layers(u):
    out = [u]
    while "in" in u:
        u = u["in"]
        out.append(u)
    return out


def npar(u):
    l = layers(u)
    return PARS.get(l[-1]["t"], 0) + sum(1 for x in l[:-1] if x["t"] == "mul")


def nin(u):
    return INS.get(layers(u)[-1]["t"], 0)


def split(r, bs, p=0.5):
    if r.random() > p:
        return []
    out, left = [], bs
    while left:
        n = r.randint(1, left)
        out.append([n, r.choice("bbf")])
        left -= n
    return out


def tw(r):
    return {"t": "tw", "b": r.randint(-5, 5) * 4, "tk": r.choice([0, 1, 3])}


ARITH = ["mul", "mul", "add", "sub", "vsub", "clo"]


def arith(r, u):
    t = r.choice(ARITH)
    return {"t": t, "v": r.choice([-3, -2, 2, 3, 5]) if t == "mul" else r.randint(-9, 9), "in": u}


def stack(r, special, most=3):
    """arithmetic wrappers with the special ones in between, in an order in which they can be used"""
    u = tw(r)
    todo = list(special)
    while True:
        n = len(todo)
        if n and r.random() < 0.6:
            u = {"t": todo.pop(), "in": u}
        elif most > 0 and r.random() < 0.6:
            u = arith(r, u)
            most -= 1
        elif not n:
            return u


def params(r, u, ev):
    """an event for one of the parameters"""
    return dict(ev, i=r.randrange(npar(u)))


def wrap_script(r, p):
    bs, sr = r.choice([1, 2, 4, 4, 5, 8]), 64
    special = r.choice(p["special"])
    u = stack(r, special)
    prec = "prec" in special
    smooth = "smooth" in special
    ar = "ar" in special
    if p.get("exact") and not smooth and r.random() < 0.3:
        # division and powers: they need numbers that fit
        t = r.choice(["div", "vdiv", "powf", "powi"])
        u = {"t": t, "v": {"div": 2, "vdiv": 240, "powf": 2, "powi": r.choice([0, 1, 2, 3])}[t], "in": u}
    ref = r.random() < 0.4
    plain = r.random() < 0.5
    n = npar(u)
    connected = set()
    live = set()
    evs = [{"ev": "reset", "sr": sr, "bs": bs, "u": u, "ref": 0}]
    rate = "sa"
    if smooth:
        if not prec and not ar and not ref:
            rate = r.choice(["sa", "sb"])
        elif r.random() < 0.0:
            pass
    evs[0]["ref"] = 1 if ref and rate != "sb" else 0
    dl = prec and not evs[0]["ref"]
    step = 1024 if smooth else 1
    for _ in range(p.get("events", 14)):
        x = r.random()
        i = r.randrange(n)
        d = r.randrange(bs) if dl and r.random() < 0.6 else 0
        if x < 0.35:
            evs.append({"ev": "p", "i": i, "k": "f", "v": r.randint(-9, 9) * step, "d": d})
        elif x < 0.42:
            k = r.choice(["t", "t", "i", "b"])
            evs.append({"ev": "p", "i": r.choice([i, 2]) if k == "t" else i, "k": k, "v": r.randint(0, 2), "d": d})
        elif x < 0.55 and smooth:
            fr = r.choice([0, 1, 2, 4, 8, 16])
            if r.random() < 0.1:
                evs.append({"ev": "p", "i": i, "k": "sn", "v": 0, "d": 0})
            else:
                evs.append({"ev": "p", "i": i, "k": rate, "v": fr, "q": 64, "d": 0})
        elif x < 0.65 and ar:
            on = r.random() < 0.65
            evs.append({"ev": "ar", "i": i, "on": int(on)})
            connected.add(i)
        else:
            e = {"ev": "blk", "in": [[r.randint(-20, 20) for _ in range(bs)] for _ in range(2)]}
            if connected:
                e["ar"] = [[k, [r.randint(-50, 50) for _ in range(bs)]] for k in sorted(connected)]
            if not dl and not evs[0]["ref"] and rate != "sb":
                e["split"] = split(r, bs)
            elif rate == "sb":
                e["split"] = [[a, "b"] for a, _ in split(r, bs)]
            evs.append(e)
    evs.append({"ev": "blk", "in": [[1] * bs, [2] * bs], **({"ar": [[k, [7] * bs] for k in sorted(connected)]} if connected else {})})
    return evs


# ---- single UGens of the library: (the UGen, scales), an input sample, a parameter change
def q8(r):
    return r.choice([1, 2, 4, 8, 8, 12, 16])


EIGHTHS = ("ceil", "floor", "trunc", "fract", "lim")


def g_math(r):
    t = r.choice(["add", "sub", "mul", "div", "pow", "add2", "sub2", "add3", "mul3", "sub4", "div2", "ceil", "floor", "trunc", "fract", "sqrt", "exp", "clo2", "clo1", "lim", "const", "dot"])
    if t in ("div", "div2", "sqrt", "exp") and r.random() < 0.6:
        return {"t": t, "fx": 1}, (1000, 1 if t in ("div", "div2") else 4)
    return {"t": t, "a": r.randint(-9, 9)}, (8, 8) if t in EIGHTHS else (1, 1)


def x_any(r, u, c):
    t = u["t"]
    if t == "div2":
        t, c = "div", c // 2
    if "fx" in u:
        return (r.choice([-9, -7, -4, -2, -1, 1, 2, 3, 7]) if c else r.randint(-60, 60)) if t == "div" else r.randint(0, 390) if t == "sqrt" else r.randint(-50, 17)
    if t == "div":
        return r.choice([-4, -2, -1, 1, 2, 4]) if c else r.randint(-9, 9) * 8
    if t == "pow":
        return r.randint(0, 5) if c else r.randint(-6, 6)
    if t == "sqrt":
        return r.choice([0, 1, 4, 9, 16, 144, 400])
    if t == "exp":
        return 0
    if t == "lim":
        return r.choice([0, 4, 8, 9, -8, -9, 1000, -1000, 3, 1000000007, 1000000009, -1000000009])
    if t in ("adelay", "fdelay"):
        return r.choice([0, r.randint(-5, 5), r.randint(-5, 5)])
    if t in ("olpf", "ohpf", "svf", "pan"):
        return r.choice([0, 0, 1, 2, -1, -2])
    return r.randint(-40, 40)


def p_math(r, u):
    if u["t"] == "const":
        return {"i": 0, "k": "f", "v": r.randint(0, 9)}
    if u["t"] == "dot":
        return {"i": 0, "k": "t", "v": 1}


def g_env(r):
    n = r.randint(1, 4)
    segs = [[r.choice([2, 2, 4, 8, 2, 4, 8, 0]), r.choice([0, 16, 32, 64, 128, -64])] for _ in range(n)]
    return {"t": "env", "a": r.choice([0, 0, 64]), "b": r.choice([64, 64, 64, 32, 128]), "q": 64, "segs": segs, "loop": int(r.random() < 0.3)}, (1024, 1)


def p_env(r, u):
    x = r.random()
    if x < 0.2:
        return {"i": 0, "k": "f", "v": r.choice([1, 2, 4]), "q": 2}
    if x < 0.45:
        return {"i": 1, "k": "i", "v": r.randrange(len(u["segs"]) + 1)}
    return {"i": 2 if x < 0.85 else 3, "k": "t", "v": 0}


def g_asr(r):
    return {"t": r.choice(["asr", "asr", "are"]), "a": r.choice([0, 1, 2, 4, 8]), "b": r.choice([0, 1, 2, 4, 8]), "q": 64}, (4096, 1)


def p_asr(r, u):
    x = r.random()
    if x < 0.25:
        return {"i": r.randrange(2), "k": "f", "v": r.choice([0, 1, 2, 4, 8]), "q": 64}
    if u["t"] == "are":
        return {"i": 2, "k": "t", "v": 0}
    return {"i": 3 if x < 0.65 else 2, "k": "t", "v": 0}


def g_buf(r):
    ch = r.choice([1, 2])
    st = r.choice([0, 0, 0, 1])
    n = r.choice([1, 2, 3, 5, 8]) if not st else r.choice([12, 20])
    return {"t": "buf%d" % ch, "a": r.choice([8, 8, 8, 4, 16, 3, 12, 24]), "q": 8, "bsr": r.choice([64, 64, 32, 128]),
            "data": [r.randint(-9, 9) for _ in range(n * ch)], "loop": int(r.random() < 0.4), "st": st}, (8, 1)


def p_buf(r, u):
    n = len(u["data"]) // (1 if u["t"] == "buf1" else 2)
    x = r.random()
    at = r.randint(0, n)
    if x < 0.2:
        return {"i": 0, "k": "f", "v": r.choice([8, 4, 16, 3, 12, 0]), "q": 8}
    if x < 0.3:
        return {"i": 1, "k": "b", "v": r.randint(0, 1)}
    if x < 0.45:
        return {"i": 2, "k": "f", "v": at, "q": u["bsr"]}
    if x < 0.6:
        return {"i": 3, "k": "f", "v": r.choice([at, -1, 1]), "q": u["bsr"]}
    if x < 0.7:
        return {"i": 4, "k": "f", "v": at, "q": u["bsr"]}
    return {"i": 5, "k": "t", "v": 0}


def g_osc(r):
    t = r.choice(["phasor", "sinwt", "sinnum"])
    return {"t": t, "a": r.choice([0, 8, 16, 24, 1, 3] if t == "phasor" else [0, 8, 16, 24, r.randint(0, 31), r.randint(0, 31)])}, (1024 if t == "phasor" else 1000, 1)


def p_osc(r, u):
    if u["t"] == "phasor":
        return {"i": 0, "k": "f", "v": r.choice([0, 1, 2, 8, 16, 40, 63])}
    i = r.randrange(3)
    return [{"i": 0, "k": "f", "v": r.choice([0, 8, 16, 24, r.randint(0, 31)])}, {"i": 1, "k": "f", "v": r.randrange(8), "q": r.choice([8, 8, 10])}, {"i": 2, "k": "t", "v": 0}][i]


def g_delay(r):
    t = r.choice(["sdelay", "sdelay", "adelay", "fdelay", "ssd"])
    n = r.choice([1, 2, 3, 5, 8])
    if t == "ssd":
        return {"t": t, "n": n}, (1, 1)
    return {"t": t, "a": n, "q": 64}, (1 if t == "sdelay" else 1000, 1)


def p_delay(r, u):
    if u["t"] == "ssd":
        return {"i": 0, "k": "i", "v": r.randint(0, u["n"] + 1)}
    if u["t"] == "fdelay" and r.random() < 0.4:
        return r.choice([{"i": 1, "k": "f", "v": r.choice([0, 1, -1])}, {"i": 1, "k": "f", "v": r.choice([1, -1, 3]), "q": 4}])
    if u["t"] != "sdelay" and r.random() < 0.5:
        return {"i": 0, "k": "f", "v": r.randint(-2, 4 * u["a"] + 6), "q": 256}
    return {"i": 0, "k": "f", "v": r.randint(-1, u["a"] + 1), "q": 64}


def g_opaque(r):
    t = r.choice(["pan", "olpf", "ohpf", "svf", "blep", "clo0"])
    return {"t": t, "a": {"pan": r.randint(-8, 8), "olpf": 40, "ohpf": 0, "svf": r.randint(20, 200), "blep": r.randint(0, 25), "clo0": 0}[t],
            "b": r.choice([4, 6, 8, 16, 32]), "k": r.randrange(14), "g": r.choice([0, 0, -12, 6, 12]), "q": {"blep": 1, "olpf": r.choice([2, 4, 8, 40])}.get(t, 8)}, (10000, 1)


def p_opaque(r, u):
    t = u["t"]
    if t == "pan":
        return {"i": 0, "k": "f", "v": r.randint(-8, 8), "q": 8}
    if t in ("olpf", "ohpf"):
        return {"i": 0, "k": "f", "v": r.randint(0, 25)}
    if t == "svf":
        return r.choice([{"i": 0, "k": "f", "v": r.randint(1, 25)}, {"i": 1, "k": "f", "v": r.randint(4, 40), "q": 8},
                         {"i": 2, "k": "f", "v": r.randint(-12, 12)}, {"i": 3, "k": "i", "v": r.randrange(10)}, {"i": 4, "k": "t", "v": 0}])
    if t == "blep":
        return r.choice([{"i": 0, "k": "f", "v": r.randint(0, 20)}, {"i": 2, "k": "i", "v": r.randrange(15)}, {"i": 2, "k": "i", "v": r.randrange(14)}, {"i": 1, "k": "f", "v": r.randint(1, 7), "q": 8}])


LIB = {"math": (g_math, p_math), "env": (g_env, p_env), "asr": (g_asr, p_asr), "buf": (g_buf, p_buf), "osc": (g_osc, p_osc),
       "delay": (g_delay, p_delay), "opaque": (g_opaque, p_opaque)}
# shapes that the harness can wrap
WRAP = ("const", "phasor", "sinwt", "sinnum", "asr", "are", "env", "buf1", "buf2", "sdelay", "adelay", "fdelay", "ssd", "floor", "lim", "add", "clo2")


def lib_script(r, p):
    make, change = LIB[p["lib"]]
    bs = r.choice([1, 2, 4, 4, 5, 8])
    u, (sc, isc) = make(r)
    base = u
    if r.random() < p.get("f32", 0.25):
        u["f32"] = 1
    prec = False
    if u["t"] in WRAP and r.random() < p.get("wrap", 0.3):
        if r.random() < 0.5:
            u = {"t": "mul", "v": r.choice([-1, 2, 1]), "in": u} if r.random() < 0.5 else {"t": "add", "v": r.randint(-2, 2), "in": u}
        if r.random() < 0.6 and npar(u) > 0:
            prec = True
            u = {"t": "prec", "in": u}
    ref = not prec and r.random() < p.get("ref", 0.5)
    evs = [{"ev": "reset", "sr": 64 if base["t"] == "blep" else r.choice(p.get("sr", [64])), "bs": bs, "u": u, "sc": sc, "isc": isc, "ref": int(ref)}]
    for _ in range(p.get("events", 16)):
        if r.random() < p.get("p", 0.4):
            for _ in range(r.choice([1, 1, 2])):
                c = change(r, base)
                if c:
                    evs.append(dict({"ev": "p", "d": r.randrange(bs) if prec and r.random() < 0.6 else 0}, **c))
        else:
            e = {"ev": "blk", "in": [[x_any(r, base, c) for _ in range(bs)] for c in range(nin(u))]}
            if not prec:
                e["split"] = split(r, bs)
            evs.append(e)
    return evs


# names of parameters, wherever they belong
NAMES = ["a", "b", "t", "wr_mul", "wr_mul", "value", "t_done", "pan", "delay_time", "feedback", "freq", "cutoff_freq", "phase_offset", "reset_phase",
         "pulse_width", "waveform", "attack_time", "release_time", "t_release", "t_restart", "time_scale", "jump_to_segment", "t_stop", "q", "gain",
         "filter", "t_calculate_coefficients", "rate", "looping", "start_s", "duration_s", "end_s", "", "A", "freq ", "done_action"]
TYPED = ["const", "dot", "pan", "sdelay", "adelay", "fdelay", "phasor", "olpf", "ohpf", "sinwt", "sinnum", "blep", "are", "asr", "env", "svf", "buf1",
         "buf2", "lim", "add", "floor"]


def set_script(r, p):
    """checked changes of parameters, by index and by name, also such that don't exist or are of another type"""
    bs = r.choice([1, 2, 4, 5])
    sc = isc = 1
    if r.random() < 0.5:
        u = tw(r)
        special = r.choice([[], [], ["prec"], ["smooth"], ["ar"], ["prec", "smooth"]])
        ws = ([r.choice(ARITH)] if len(special) < 2 and r.random() < 0.8 else []) + special[::-1]
        if len(ws) < 2 and r.random() < 0.5:
            ws = [r.choice(ARITH)] + ws
        if "prec" not in ws:
            r.shuffle(ws)
        for t in ws:
            u = {"t": t, "in": u} if t in ("prec", "smooth", "ar") else {"t": t, "v": r.randint(2, 9), "in": u}
        names = ["a", "b", "t", "wr_mul"]
    else:
        for _ in range(99):
            make = LIB[r.choice(list(LIB))][0]
            u, (sc, isc) = make(r)
            if u["t"] in TYPED:
                break
        names = []
    n = npar(u)
    ref = int(r.random() < 0.4)
    evs = [{"ev": "reset", "sr": 64, "bs": bs, "u": u, "sc": sc, "isc": isc, "ref": ref, "typed": 1}, {"ev": "desc"}]
    b = layers(u)[-1]
    for _ in range(p.get("events", 20)):
        if r.random() < 0.3:
            e = {"ev": "blk", "in": [[x_any(r, b, c) for _ in range(bs)] for c in range(nin(u))]}
            evs.append(e)
            continue
        k = r.choice("ffftib" if b["t"] != "tw" else "fffftib")
        e = {"ev": "set", "k": k, "v": r.randint(0, 3), "q": r.choice([1, 64]) if k == "f" and b["t"] != "tw" else 1}
        if any(x["t"] == "smooth" for x in layers(u)):
            e["v"] *= 1024 if k == "f" else 1
            if r.random() < 0.15:
                e.update(k=r.choice(["sn", "sa"]), v=r.choice([0, 2, 4]), q=64)
        if r.random() < 0.5:
            e["i"] = r.choice([r.randrange(n + 1), r.randrange(n + 1), n + r.randint(0, 3)])
        else:
            e["n"] = r.choice(names or NAMES) if r.random() < 0.8 else r.choice(NAMES)
        evs.append(e)
    # each name once, with each type
    if n and not names:
        evs.append({"ev": "blk", "in": [[x_any(r, b, c) for _ in range(bs)] for c in range(nin(u))]})
    return evs


def scripts(prof, seed, n):
    out = []
    for k in range(n):
        r = random.Random(f"{seed}/{k}")
        out.append(KINDS[prof["gen"]](r, prof))
    return out


KINDS = {"set": set_script, "wrap": wrap_script, "lib": lib_script}
