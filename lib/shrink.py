"""Makes a failing script smaller: removes events and operations while it still fails the same way."""
import copy, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run

OBS = ("ty", "rs", "r", "drops", "inits", "obs", "outs", "al", "fr", "runs", "calls", "ap", "bad", "mids", "unmid", "clk",
       "logs", "bufs", "vals", "lg", "o", "o2", "done", "done2", "rem", "got", "nch", "y", "shape")


def script_of(hist):
    """The script behind a recorded history"""
    out = []
    for l in hist:
        e = json.loads(l) if isinstance(l, str) else copy.deepcopy(l)
        if e["ev"] == "panic":
            e = e["of"]
        e = copy.deepcopy(e)
        for k in OBS:
            e.pop(k, None)
        for m in e.get("mid", []):
            for k in OBS + ("at", "after"):
                m["ev"].pop(k, None) if k not in ("at",) else None
        out.append(e)
    return out


def candidates(s):
    n = len(s)
    for size in (8, 4, 2, 1):
        if size >= n:
            continue
        for k in range(1, n, size):
            yield s[:k] + s[k + size:]
    for k, e in enumerate(s):
        for key in ("ops", "mid"):
            for j in range(len(e.get(key, []))):
                c = copy.deepcopy(s)
                del c[k][key][j]
                yield c
        for j, o in enumerate(e.get("ops", [])):
            for q in range(len(o.get("ops", []))):
                c = copy.deepcopy(s)
                del c[k]["ops"][j]["ops"][q]
                yield c


def kind(msg):
    # the event and the first word of the reason
    p = msg.split("<<", 1)
    return p[0].split(" ")[2] + p[1].split(",")[0]


def shrink(script, workdir, want, rounds=40, show=False, module="KGraphTrace", cmd="run", off=(), limit=None):
    for _ in range(rounds):
        if limit and time.time() > limit:
            return script
        cs = list(candidates(script))
        ok = None
        for a in range(0, len(cs), 200):
            part = cs[a:a + 200]
            tr = run.harness(part, os.path.join(workdir, "shrink"), cmd=cmd)
            _, _, _, bad = run.validate(tr, workdir, module=module, off=off)
            keys = {}
            for h, i, m in bad:
                if kind(m) == want:
                    keys[json.dumps(script_of(h[:i + 1])[:i + 1])] = script_of(h[:i + 1])
            # the candidates may have been cut at the failure
            if keys:
                best = min(keys.values(), key=lambda x: len(json.dumps(x)))
                if len(json.dumps(best)) < len(json.dumps(script)):
                    ok = best
                    break
        if ok is None:
            return script
        script = ok
        if show:
            print(len(json.dumps(script)), flush=True)
    return script


if __name__ == "__main__":
    bad = json.load(open("/verif/work/bad.json"))
    k = int(sys.argv[1]) if len(sys.argv) > 1 else 0
    h, i, m = sorted(bad, key=lambda b: b[1])[k]
    s = shrink(script_of(h[:i + 1]), "/verif/work", kind(m))
    for e in s:
        print(json.dumps(e))
    tr = run.harness([s], "/verif/work/shrink")
    for l in open(tr):
        e = json.loads(l)
        if e["ev"] == "blk":
            print({q: e[q] for q in ("runs", "outs", "ap")})
        if "rs" in e:
            print(e["rs"])
    for b in run.validate(tr, "/verif/work")[3]:
        print(b[2])
