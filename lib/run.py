"""Running the harness and TLC."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(TARGET, "debug", "kharness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--target-dir", TARGET], cwd=os.path.join(VERIF, "harness"),
                       env=env, capture_output=True, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stderr[-6000:])


def harness(scripts, path, timeout=120, cmd="run", hangs=3):
    """Runs scripts; returns the trace file. A crash of the process (abort, signal) or a hang is
    recorded as an event of its own, and the remaining scripts are run in a new process."""
    trace = path + ".trace"
    parts = []
    rest = list(scripts)
    n = 0
    while rest:
        sp, tp = f"{path}.s{n}", f"{path}.t{n}"
        with open(sp, "w") as f:
            for s in rest:
                f.write(json.dumps(s) + "\n")
        status = None
        try:
            r = subprocess.run([HARNESS, cmd, sp, tp], capture_output=True, text=True, timeout=timeout)
            if r.returncode == 3:
                raise ToolError("harness: " + r.stderr[-2000:])
            if r.returncode != 0:
                status = f"exit status {r.returncode}"
        except subprocess.TimeoutExpired:
            status = "no answer"
            hangs -= 1
        lines = open(tp).read().split("\n") if os.path.exists(tp) else []
        if lines and lines[-1] != "":
            lines[-1] = ""  # half a line
        lines = [x for x in lines if x]
        if status is None:
            parts += lines
            break
        started = sum(1 for x in lines if '"ev":"reset"' in x)
        done = max(started, 1)
        parts += lines
        if started == 0:
            parts.append(json.dumps(rest[0][0]))
        k = sum(1 for _ in _tail_after_reset(lines))
        of = rest[done - 1][k] if k < len(rest[done - 1]) else {"ev": "?"}
        parts.append(json.dumps({"ev": "panic", "msg": "the process ended: " + status, "of": of}))
        rest = rest[done:]
        n += 1
        if n > 40 or hangs <= 0:
            break
    with open(trace, "w") as f:
        f.write("\n".join(parts) + "\n")
    for i in range(n + 1):
        for x in (f"{path}.s{i}", f"{path}.t{i}"):
            if os.path.exists(x):
                os.remove(x)
    return trace


def _tail_after_reset(lines):
    k = max([i for i, x in enumerate(lines) if '"ev":"reset"' in x], default=0)
    return lines[k:]


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, workdir, env=None, args=(), timeout=600, heap="3g", workers="1", props=()):
    meta = os.path.join(workdir, f"meta-{module}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", f"-Djava.io.tmpdir={meta}", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", *props, "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", workers, "-config", cfg, *args, module + ".tla"]
    with open(os.path.join(meta, "output"), "w") as o:
        p = subprocess.Popen(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=o, stderr=subprocess.STDOUT)
    return p, meta, time.time() + timeout


def finish(job):
    """(exit status, output).  After an error in an evaluation TLC evaluates it once more to find
    the call stack, without what it has memorised: that can take forever, and isn't of interest."""
    p, meta, deadline = job
    path = os.path.join(meta, "output")
    quiet, size = time.time(), 0
    try:
        while True:
            try:
                p.wait(0.2)
                return p.returncode, open(path).read()
            except subprocess.TimeoutExpired:
                pass
            n = os.path.getsize(path)
            if n != size:
                quiet, size = time.time(), n
            elif time.time() - quiet > 3:
                with open(path, "rb") as f:
                    if b"The behavior up to this point is" in f.read():
                        p.kill()
                        p.wait()
                        return 75, open(path).read()
                quiet = time.time()
            if time.time() > deadline:
                p.kill()
                p.wait()
                raise ToolError("TLC ran out of time\n" + open(path).read()[-3000:])
    finally:
        subprocess.run(["rm", "-r", "-f", os.path.abspath(meta)])


def split(trace, parts):
    """Splits a trace into files of whole histories."""
    hist = []
    for line in open(trace):
        if not line.strip():
            continue
        if '"ev":"reset"' in line or '"ev": "reset"' in line:
            hist.append([])
        hist[-1].append(line)
    files = []
    parts = max(1, min(parts, len(hist)))
    for k in range(parts):
        hs = hist[k::parts]
        f = f"{trace}.{k}"
        with open(f, "w") as o:
            for h in hs:
                o.writelines(h)
        files.append((f, hs))
    return files


LINE = re.compile(r"^/?\\? ?l = (\d+)$", re.M)


def validate(trace, workdir, jobs=6, module="KGraphTrace", timeout=600, heap="3g", off=()):
    """Returns (events, histories, states, mismatches: list of (history lines, index, message)).
    A history which the specification cannot even evaluate (the implementation did something
    that makes no sense) is a mismatch, too."""
    env0 = {"OFF_" + c: "1" for c in off}
    todo = split(trace, jobs)
    bad, events, hists, states = [], 0, 0, 0
    rounds = 0
    while todo:
        running = [(f, hs, tlc(module, module + ".cfg", workdir, env=dict(env0, TRACE=f), timeout=timeout, heap=heap)) for f, hs in todo]
        todo = []
        for f, hs, job in running:
            rc, out = finish(job)
            flat = [(h, i) for h in hs for i in range(len(h))]
            m = STATS.findall(out)
            upto = len(flat)
            if rc != 0 or not m or int(m[-1][1]) != len(flat) + 1:
                ls = [int(x) for x in LINE.findall(out)]
                if bad and (not ls or rounds > 12 or "OutOfMemory" in out):
                    # enough is known
                    os.remove(f)
                    continue
                if not ls or "OutOfMemory" in out:
                    raise ToolError(f"TLC failed on {f} ({rc}):\n" + out[-5000:])
                n = ls[-1]
                h, i = flat[n - 1]
                msg = [x for x in out.split("\n") if x.startswith("Error:")]
                bad.append((h, i, f"MISMATCH {n} {json.loads(h[i]).get('ev')} <<\"cannot be explained\", {' '.join(msg)[:400]}>>"))
                k = next(j for j, x in enumerate(hs) if x is h)
                rest = hs[k + 1:]
                upto = sum(len(x) for x in hs[:k + 1])
                if rest:
                    f2 = f + "+"
                    with open(f2, "w") as o:
                        for x in rest:
                            o.writelines(x)
                    todo.append((f2, rest))
                states += n
                hists += k + 1
            else:
                states += int(m[-1][1])
                hists += len(hs)
            events += upto
            # a message may be wrapped over several lines only if it contains newlines; it does not
            for line in out.split("\n"):
                if line.startswith('"MISMATCH '):
                    n = int(line.split(" ")[1])
                    h, i = flat[n - 1]
                    bad.append((h, i, line.strip('"')))
            os.remove(f)
        rounds += 1
    return events, hists, states, bad


def explore(module, cfg, env, workdir, timeout=600, heap="3g", args=()):
    """Starts TLC on a model"""
    return tlc(module, cfg, workdir, env=env, timeout=timeout, heap=heap, args=args)


def explored(job):
    """(distinct states, transitions, scripts, error text or None)"""
    rc, out = finish(job)
    m = STATS.findall(out)
    scripts = [json.loads(json.loads(l)) for l in out.split("\n") if l.startswith('"[')]
    if rc in (12, 13) or "is violated" in out:
        k = out.find("Error:")
        return int(m[-1][1]) if m else 0, int(m[-1][0]) if m else 0, scripts, out[k:k + 6000]
    if rc != 0 or not m:
        raise ToolError("TLC failed:\n" + re.sub(r'^"\[.*$', "", out, flags=re.M)[-5000:])
    return int(m[-1][1]), int(m[-1][0]), scripts, None
