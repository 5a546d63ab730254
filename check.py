#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property on /repo's working tree.
check.py --replay FILE: runs the history of a replay file again."""
import importlib, json, os, shutil, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import drivers, props, run, shrink, ugens

JOBS = 8


def blk(nin, v=(3, 5)):
    return {"ev": "blk", "in": [list(v) for _ in range(nin)], "raw": 0, "mid": []}


def replayable(s):
    """a script of the model, followed by a few blocks and the end"""
    s = [dict(e) for e in s]
    bs, nin = s[0]["bs"], s[0]["nin"]
    v = [3 + 2 * f for f in range(bs)]
    return s + [blk(nin, v), {"ev": "edit", "g": 0, "ops": []}, blk(nin, v), {"ev": "end", "order": "graph"}]


def ug_replayable(s):
    """a script of the model, followed by two blocks"""
    s = [dict(e) for e in s]
    last = [e for e in s if e["ev"] == "blk"]
    bs, u = s[0]["bs"], s[0]["u"]
    e = {"ev": "blk", "in": [[2 + c + f for f in range(bs)] for c in range(ugens.nin(u))]}
    if any(x["t"] == "ar" for x in ugens.layers(u)):
        e["ar"] = [[0, [5 + f for f in range(bs)]], [1, [9] * bs]]
    return s + [e, e]


class Check:
    def __init__(self, p, tier, seed):
        self.p, self.tier, self.seed = p, tier, seed
        self.work = os.path.join(VERIF, "work", f"{p['id']}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.traces = self.events = 0
        self.found = []   # (hist, index, message, source)
        self.models = []
        self.drivers = []
        self.sample = None
        self.assumptions = []
        self.t0 = time.time()

    def enough(self):
        """something was found, and looking for more takes long"""
        return bool(self.found) and time.time() - self.t0 > (240 if self.tier == "quick" else 1800)

    def trace(self, scripts, what, off=None, module="KGraphTrace", cmd="run"):
        if not scripts:
            return 0
        tr = run.harness(scripts, os.path.join(self.work, "h"), cmd=cmd)
        timeout = 700 if self.tier == "quick" else 3600
        ev, hists, states, bad = run.validate(tr, self.work, jobs=JOBS, off=self.p["off"] if off is None else off, module=module, timeout=timeout)
        self.events += ev
        self.traces += hists
        if self.sample is None and scripts:
            self.sample = scripts[len(scripts) // 2]
        for h, i, m in bad:
            self.found.append((h, i, m, what, module, cmd))
        os.remove(tr)
        return ev

    def explore(self, module, cmd, modes, finish):
        """the models of a module: every transition is replayed"""
        quick = self.tier == "quick"
        jobs = [(mode, dq if quick else dt, run.explore(module, module + ".cfg", {"MODE": mode, "DEPTH": str(dq if quick else dt), "EMIT": "1"}, self.work,
                                                        timeout=500 if quick else 7200, heap="4g" if quick else "10g")) for mode, dq, dt in modes]
        for mode, d, j in jobs:
            st, trn, scripts, err = run.explored(j)
            self.states += st
            self.transitions += trn
            if err:
                # the model itself: a defect of the specification, nothing about the code
                raise run.ToolError(f"{module} {mode}: " + err)
            cap = 20000 if quick else 150000
            scripts = scripts[:cap]
            for a in range(0, len(scripts), 20000):
                if self.enough():
                    break
                self.trace([finish(s) for s in scripts[a:a + 20000]], f"model {mode} depth {d}", module=module[:-2] + "Trace", cmd=cmd)
            self.models.append({"model": module, "mode": mode, "depth": d, "distinct_states": st, "transitions": trn, "transitions_replayed": len(scripts)})

    def drive(self, gen, profiles, module, cmd):
        """random histories"""
        for k, (prof, nq, nt) in enumerate(profiles):
            n = nq if self.tier == "quick" else nt
            ev = 0
            for a in range(0, n, 1500):
                if self.enough():
                    break
                ev += self.trace(gen.scripts(prof, f"{self.seed}/{self.p['id']}/{k}/{a}", min(1500, n - a)), f"driver {k}", module=module, cmd=cmd)
            self.drivers.append({"profile": k, "of": module, "histories": n, "events": ev})

    def graph(self):
        self.explore("KGraphMC", "run", self.p["modes"], replayable)
        self.drive(drivers, self.p["profiles"], "KGraphTrace", "run")

    def ugens(self):
        self.explore("KUGenMC", "ug", self.p["umodes"], ug_replayable)
        self.drive(ugens, self.p["uprofiles"], "KUGenTrace", "ug")

    def report(self, wall):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "models": self.models, "drivers": self.drivers,
               "samples": [self.sample] if self.sample is not None else []}
        ev = {"property": self.p["id"], "tier": self.tier, "seed": self.seed, "level": self.p["level"], "coverage": cov,
              "wall_s": round(wall, 2), "violations": len(self.found), "assumptions": ASSUME + self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.p["id"] + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def replays(self):
        """the first few violations, made small, as replay files"""
        d = os.path.join(VERIF, "work", "replay")
        os.makedirs(d, exist_ok=True)
        out = []
        kinds = {}
        for x in sorted(self.found, key=lambda x: x[1]):
            kinds.setdefault(shrink.kind(x[2]), x)
        for n, (kind, (h, i, m, what, module, cmd)) in enumerate(list(kinds.items())[:3]):
            s = shrink.script_of(h[:i + 1])
            if n == 0:
                try:
                    s = shrink.shrink(s, self.work, kind, module=module, cmd=cmd, off=self.p["off"], limit=time.time() + (90 if self.tier == "quick" else 300))
                except Exception as e:
                    print("shrinking failed:", str(e)[:300])
            path = os.path.join(d, f"{self.p['id']}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": self.p["id"], "module": module, "cmd": cmd, "off": self.p["off"], "found_by": what, "message": m, "script": s}, f, indent=1)
            out.append((path, m, what))
        return out


ASSUME = ["integer valued test UGens stand for arbitrary UGens: a graph treats all nodes alike",
          "control side and audio side are interleaved deterministically at block boundaries, at the processing of a node; log channels also run on real threads"]


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        run.build()
        work = os.path.join(VERIF, "work")
        os.makedirs(work, exist_ok=True)
        tr = run.harness([r["script"]], os.path.join(work, "replay"), cmd=r.get("cmd", "run"))
        print(open(tr).read())
        bad = run.validate(tr, work, jobs=1, off=r["off"], module=r["module"])[3]
        for h, i, m in bad:
            print(m)
        if bad:
            print(f"VIOLATION property={r['property']} replay={sys.argv[2]}")
        return 1 if bad else 0
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = next(p for p in props.P if p["id"] == pid)
    t0 = time.time()
    run.build()
    c = Check(p, tier, seed)
    try:
        try:
            c.graph()
            c.ugens()
            for x in p["extra"]:
                mod, fn = x.split(".")
                getattr(importlib.import_module(mod), fn)(c)
        except run.ToolError as e:
            # what has been found so far counts all the same
            if not c.found:
                raise
            print("stopped early:", str(e)[:2000])
        known = [l for l in open(os.path.join(VERIF, "KNOWN_FINDINGS")).read().split("\n") if l.startswith("finding: ")]
        fresh = []
        shown = set()
        for f in c.found:
            k = next((l for l in known if f"property={pid} " in l and f"[{l.split('[', 1)[1].split(']', 1)[0]}]" in f[2]), None) if known else None
            if k is None:
                fresh.append(f)
            elif k not in shown:
                shown.add(k)
                print("KNOWN-FINDING: " + k[len("finding: "):])
        c.found = fresh
        c.report(time.time() - t0)
        print(f"{pid}: {c.states} states, {c.transitions} transitions of models; {c.traces} histories, {c.events} events of the implementation checked, "
              f"{len(c.found)} refused, {time.time() - t0:.0f} s")
        if c.found:
            for path, m, what in c.replays():
                print(f"{what}: {m[:1500]}")
                print(f"VIOLATION property={pid} replay={path}")
            return 1
        return 0
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except run.ToolError as e:
        print("check failed:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
