"""Random drivers: make scripts (lists of events) for the harness.

They know only as much about the system as is needed to aim (which nodes exist, roughly what would
be refused); what a correct answer is, is decided by the specification alone.
"""
import random

BS = 4
DONES = ("done", "donear", "doneprec", "doneprecar")
ARS = ("ar", "precar", "donear", "doneprecar")
SUBIO = [(0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (0, 2)]
TOPIO = [(0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]

DEFAULT = dict(
    events=14, nodes=6, bs=[BS] * 8 + [1, 2, 5, 8], smooth=0.15, many=0.1, focus=0.25, inblk=0.12, caps=[16], topio=TOPIO,
    # weights of events
    edit=6, direct=3, set=4, blk=8, act=0, insp=0, drop=0, ends=0, wait=0, ns=[1, 1, 1, 2, 2, 0], ps=[0, 1],
    # weights of operations within an edit
    push=6, zip=5, outs=4, math=0, mathc=0, free=2, disin=1, disout=1, name=0, look=0, has=0,
    eset=1, sub=0, linkpush=1, link=0, invalid=0.12, arith=0,
    # how often static handles are used, and how often an edit is about the nodes it has pushed
    sy=0.25, fresh=0.0,
    # direct operations
    dpush=2, con=6, conp=3, ddisin=1, ddisout=1, mort=0, dlook=0, dhas=0,
    modes=["to"] * 6 + ["rep"] * 2, fb=0.0,
    kinds=["plain"] * 6 + ["ar"], dones=[0], times=["none"] * 6, tok=0.0, mids=0.0, raw=[0],
    invokes=["graph", "graph", "param", "handle"], subdepth=1, order=["graph", "proc", "mixed"],
    maxdelay=6 * BS, trig=0.25, donep=0.0, tick=[0, 0, 1, 3], final=2, opsmax=4, oldids=0.1,
)


class World:
    def __init__(self, rng, prof):
        self.r = rng
        self.p = dict(DEFAULT, **prof)
        self.next = 1
        # mostly four frames per block and eight blocks per second
        self.bs = rng.choice(self.p["bs"])
        self.sr = rng.choice([8 * self.bs] * 6 + [48000, 44100])
        self.nodes = {}   # id -> dict
        self.graphs = {}  # id -> dict
        self.blocks = 0
        self.tokens = 0
        self.acted = set()
        self.delayed = 0
        self.last = []
        self.fresh = []

    # ---- picking
    def nid(self):
        self.next += 1
        return self.next - 1

    def alive(self, g):
        return [i for i, n in self.nodes.items() if n["g"] == g and not n["freed"] and not n.get("math")]

    def pick(self, g, need=None):
        """mostly a usable node of graph g, sometimes one that is not"""
        r = self.r
        if r.random() < self.p["invalid"]:
            other = [i for i, n in self.nodes.items() if (n["g"] != g or n["freed"]) and not n.get("math")]
            if other:
                return r.choice(other)
        l = [i for i in self.alive(g) if need is None or need(self.nodes[i])]
        if not l:
            l = self.alive(g)
        if not l:
            return None
        new = [i for i in self.fresh if i in l]
        if new and r.random() < self.p["fresh"]:
            return r.choice(new)
        # operations which meet at the same node are more interesting than ones that are far apart
        old = [i for i in self.last if i in l]
        if old and r.random() < self.p["focus"]:
            return r.choice(old)
        x = r.choice(l)
        self.last = (self.last + [x])[-3:]
        return x

    def label(self):
        """a name for a node: some are the beginning of others"""
        return self.r.choice(["same", "same", "sam", "n", f"n{self.r.randint(1, 12)}", "none"])

    def sure(self, g, need):
        """a node which certainly is part of g"""
        if self.p["dones"] != [0] and g != 0:
            return None
        l = [i for i in self.alive(g) if need(self.nodes[i]) and not (self.nodes[i]["kd"] in DONES + ("sub",) and self.p["dones"] != [0])]
        return self.r.choice(l) if l else None

    def chan(self, n):
        r = self.r
        if r.random() < self.p["invalid"] * 0.5:
            return n + r.randint(0, 1)
        return r.randrange(n) if n > 0 else 0

    def source(self, g, inputs=True):
        gr = self.graphs[g]
        r = self.r
        if inputs and (gr["nin"] > 0 or r.random() < self.p["invalid"] * 0.3) and r.random() < 0.25:
            return (0, self.chan(gr["nin"]))
        s = self.pick(g, lambda n: n["n"] > 0)
        if s is None:
            return None
        return (s, self.chan(self.nodes[s]["n"]))

    def hsource(self, g):
        """source usable in handle arithmetic: channel must exist"""
        s = self.source(g)
        if s is None:
            return None
        if s[0] == 0:
            return s
        n = self.nodes[s[0]]["n"]
        if n == 0:
            return None
        return (s[0], self.r.randrange(n))

    # ---- operations
    def push(self, g, kinds=None, i=None, n=None):
        r = self.r
        kd = r.choice(kinds or self.p["kinds"])
        i = r.choice([0, 1, 1, 2, 2, 3]) if i is None else i
        n = r.choice(self.p["ns"]) if n is None else n
        id = self.nid()
        self.nodes[id] = dict(g=g, i=i, n=n, kd=kd, freed=False, born=self.blocks, via="graph")
        op = dict(o="push", id=id, i=i, n=n, b=r.randint(1, 900), tk=r.choice(self.p["tick"]), kd=kd,
                  da=r.choice(self.p["dones"]) if kd.startswith("done") else 0)
        return op

    def mode(self):
        if self.r.random() < self.p["fb"]:
            return self.r.choice(["fb", "fb", "fbr"])
        return self.r.choice(self.p["modes"])

    def paramval(self, id):
        r = self.r
        kd = self.nodes[id]["kd"]
        x = r.random()
        if kd == "sub":
            p, k, v = r.choice([0, 1]), "f", 3
        elif x < self.p["donep"]:
            p, k, v = 3, "i", r.choice([r.randint(0, self.bs)] * 4 + [100, 200 + r.randint(0, self.bs)])
            if kd in DONES and r.random() < 0.2:
                p, v = 4, r.choice([0, 1, 1, 2])
        elif x < self.p["donep"] + self.p["trig"]:
            p, k, v = 2, "t", 0
        else:
            p, k, v = r.choice([0, 1]), "f", r.randint(-40, 60)
        if r.random() < self.p["invalid"] * 0.5:
            p = r.choice([4, 5, 7]) if kd not in DONES else r.choice([5, 7])
        names = ["a", "b", "t", "d", "done_action"]
        nosuch = lambda: r.choice(["nosuch", "nosuch", "A", "aa", "ab", "done", "done_actio", " a"])
        pn = ""
        if r.random() < 0.4:
            pn = names[p] if p < 4 or (kd in DONES and p == 4) else nosuch()
            if kd == "sub":
                pn = names[p] if p < 5 else nosuch()
            p = 0 if pn == "" else p
        return p, pn, k, v

    def time(self):
        r = self.r
        tm = r.choice(self.p["times"])
        tt = 0
        if tm in ("at", "after"):
            tt = r.randint(0, self.p["maxdelay"] * self.bs // BS)
            if tm == "at":
                tt = max(0, self.blocks * self.bs + tt - self.bs)
        return tm, tt

    def op(self, g, kind, depth):
        o = self.op_(g, kind, depth)
        if isinstance(o, dict) and o["o"] in ("zip", "outs", "math", "mathc", "disin", "disout", "name", "set", "linkpush") and self.r.random() < self.p["sy"]:
            o["sy"] = self.r.choice([1, 1, 2, 3])
            # static handles insist on graph outputs that exist
            nout = self.graphs[g]["nout"]
            if o["o"] == "outs" and (len(o["l"]) > nout or (o["ch"] and len(o["ch"]) != len(o["l"])) or any(c >= nout for c in o["ch"])):
                del o["sy"]
        return o

    def op_(self, g, kind, depth):
        r, p = self.r, self.p
        gr = self.graphs[g]
        if kind == "push":
            if len(self.alive(g)) >= p["nodes"]:
                return None
            return self.push(g)
        if kind == "zip":
            ks = [self.pick(g, lambda n: n["i"] > 0) for _ in range(r.choice([1, 1, 1, 2]))]
            if None in ks:
                return None
            n = r.choice([1, 1, 1, 2, 3])
            if r.random() < p["fresh"]:
                n = sum(self.nodes[k]["i"] for k in ks)
            l = [self.source(g) for _ in range(n)]
            if n == 2 and l[0] and r.random() < p["fresh"]:
                l = [(l[0][0], c) for c in r.choice([(0, 1), (0, 1), (1, 0), (0, 0)])]
            if not l or None in l:
                return None
            # channels of a source handle must exist
            l = [(s, c) if s == 0 or c < self.nodes[s]["n"] else None for s, c in l]
            if None in l:
                return None
            m = self.mode()
            via = r.choice(["dh", "shr", "try", "stack"]) if m == "to" else r.choice(["dh", "stack"])
            return dict(o="zip", l=l, sinks=ks, m=m, via=via)
        if kind == "outs":
            n = r.choice([1, 1, 2, 3])
            l = [self.hsource(g) for _ in range(n)]
            if None in l:
                return None
            ch = []
            if r.random() < 0.6:
                ch = [self.chan(gr["nout"]) for _ in range(r.choice([n, n, max(1, n - 1)]))][:4]
            return dict(o="outs", l=l, ch=ch, m=r.choice(["to", "to", "rep"]))
        if kind in ("math", "mathc"):
            n = r.choice([1, 1, 2])
            l = [self.hsource(g) for _ in range(n)]
            rr = [self.hsource(g) for _ in range(n)]
            if None in l + rr:
                return None
            ids = [self.nid() for _ in range(n)]
            for x in ids:
                self.nodes[x] = dict(g=g, i=2, n=1, kd="math", freed=False, math=True)
            # products of products would leave the range of exact numbers
            small = all(s != 0 and self.nodes[s]["kd"] != "sub" or s == 0 and g == 0 for s, c in l + (rr if kind == "math" else []))
            mul = ["mul"] if small else []
            if kind == "math":
                return dict(o="math", ids=ids, op=r.choice(["add", "sub", "add"] + mul), l=l, r=rr)
            return dict(o="mathc", ids=ids, op=r.choice(["add", "sub", "sub"] + mul), l=l, k=r.randint(-3, 9) if r.random() < .5 else r.randint(0, 9),
                        rev=r.choice([0, 1]), ty=r.choice(["f32", "f64", "i32"]))
        if kind == "arith":
            # quotients without a remainder and small powers
            l, r2 = self.hsource(g), self.hsource(g)
            if l is None or r2 is None or l[0] == 0 or g != 0 or self.nodes[l[0]]["kd"] == "sub":
                return None
            ids = [self.nid() for _ in range(4)]
            for x in ids:
                self.nodes[x] = dict(g=g, i=2, n=1, kd="math", freed=False, math=True)
            ty = lambda: r.choice(["f32", "f64", "i32"])
            c = lambda id, op, l, k, rev=0: dict(o="mathc", ids=[id], op=op, l=[l], k=k, rev=rev, ty=ty())
            x = r.random()
            if x < .35:
                q = [c(ids[0], "mul", l, 6), c(ids[1], "div", (ids[0], 0), r.choice([2, 3, 6, -2, 1]))]
            elif x < .7:
                q = [c(ids[0], "mul", l, 6), c(ids[2], "mul", r2, 0), c(ids[3], "add", (ids[2], 0), r.choice([2, 3, -6]), r.choice([0, 1])),
                     dict(o="math", ids=[ids[1]], op="div", l=[(ids[0], 0)], r=[(ids[3], 0)])]
            elif x < .8:
                q = [c(ids[2], "mul", r2, 0), c(ids[3], "add", (ids[2], 0), r.choice([2, 3])), c(ids[1], "div", (ids[3], 0), 6, 1)]
            else:
                q = [c(ids[2], "mul", r2, 0), c(ids[3], "add", (ids[2], 0), r.choice([1, 2])),
                     dict(o="math", ids=[ids[1]], op="pow", l=[l], r=[(ids[3], 0)])]
            for o in q:
                if r.random() < p["sy"]:
                    o["sy"] = r.choice([1, 1, 2, 3])
            self.last_arith = ids[1]
            return q
        if kind == "free":
            x = self.pick(g)
            if x is None:
                return None
            n = self.nodes[x]
            if n["g"] == g and n.get("mort", True):
                n["freed"] = True
            return dict(o="free", id=x)
        if kind == "disin":
            # handles insist on what exists: they panic otherwise
            x = self.sure(g, lambda n: n["i"] > 0)
            if x is None:
                return None
            return dict(o="disin", k=x, kc=r.randrange(self.nodes[x]["i"]))
        if kind == "disout":
            x = self.sure(g, lambda n: n["n"] > 0)
            if x is None:
                return None
            return dict(o="disout", s=x, sc=r.randrange(self.nodes[x]["n"]))
        if kind == "name":
            x = self.pick(g)
            if x is None:
                return None
            return dict(o="name", id=x, nm=self.label())
        if kind == "look":
            return dict(o="look", nm=self.label())
        if kind == "has":
            x = self.pick(g)
            return None if x is None else dict(o="has", id=x)
        if kind == "eset":
            x = self.pick(g)
            if x is None:
                return None
            pp, pn, k, v = self.paramval(x)
            if self.nodes[x]["freed"]:
                self.delayed += 1
            return dict(o="set", id=x, p=pp, pn=pn, k=k, v=v, tm="none", tt=0)
        if kind == "linkpush":
            x = self.pick(g, lambda n: n["kd"] in ARS)
            if x is None or len(self.alive(g)) >= p["nodes"]:
                return None
            id = self.nid()
            self.nodes[id] = dict(g=g, i=0, n=1, kd="plain", freed=False, born=self.blocks, via="graph")
            pp = r.choice([0, 1])
            return dict(o="linkpush", id=id, b=r.randint(1, 300), tk=r.choice(self.p["tick"]), k=x, p=pp,
                        pn=r.choice(["", "ab"[pp]]))
        if kind == "sub":
            if depth >= p["subdepth"] or len(self.alive(g)) >= p["nodes"]:
                return None
            id = self.nid()
            i, n = r.choice(SUBIO)
            cap = r.choice(p["caps"])
            self.nodes[id] = dict(g=g, i=i, n=n, kd="sub", freed=False, born=self.blocks, via="graph")
            self.graphs[id] = dict(nin=i, nout=n, par=g, cap=cap, depth=depth + 1)
            ops = self.ops(id, r.randint(1, 4), depth + 1, seed=True)
            return dict(o="sub", id=id, i=i, n=n, cap=cap, ops=ops)
        return None

    def weighted(self, names):
        ws = [self.p[n] for n in names]
        if sum(ws) == 0:
            return None
        return self.r.choices(names, ws)[0]

    OPS = ["push", "zip", "outs", "math", "mathc", "arith", "free", "disin", "disout", "name", "look", "has", "eset",
           "sub", "linkpush"]
    DOPS = ["dpush", "con", "conp", "ddisin", "ddisout", "mort", "dlook", "dhas"]

    def ops(self, g, n, depth, seed=False):
        out = []
        outer, self.fresh = self.fresh, []
        for _ in range(self.r.randint(1, 3) if self.p["fresh"] > 0 else 1):
            if seed or not self.alive(g) or (self.p["fresh"] > 0 and len(self.alive(g)) < self.p["nodes"]):
                out.append(self.push(g))
                self.fresh.append(out[-1]["id"])
        for _ in range(n):
            k = self.weighted(self.OPS)
            if k is None:
                break
            o = self.op(g, k, depth)
            if isinstance(o, list):
                out += o
                o = dict(o="math", ids=[self.last_arith])
            elif o:
                out.append(o)
            if o:
                if o["o"] == "push":
                    self.fresh.append(o["id"])
                # results of arithmetic are used at once, in the same edit
                if o["o"] in ("math", "mathc"):
                    l = [(x, 0) for x in o["ids"]]
                    if self.r.random() < 0.5:
                        out.append(dict(o="outs", l=l, ch=[], m="to"))
                    else:
                        ks = [self.pick(g, lambda n: n["i"] > 0)]
                        if ks[0] is not None:
                            out.append(dict(o="zip", l=l, sinks=ks, m="to", via="dh"))
                    if len(l) <= self.graphs[g]["nout"] and self.r.random() < self.p["sy"]:
                        out[-1]["sy"] = self.r.choice([1, 2, 3])
        self.fresh = outer
        return out

    def dop(self, g, kind):
        r = self.r
        gr = self.graphs[g]
        if kind == "dpush":
            if len(self.alive(g)) >= self.p["nodes"]:
                return None
            o = self.push(g, [k for k in self.p["kinds"] if k not in DONES] or ["plain"])
            self.nodes[o["id"]]["via"] = "handle"
            return o
        if kind == "con":
            s = self.source(g)
            if s is None:
                return None
            if r.random() < 0.35:
                k, kc = 0, self.chan(gr["nout"])
            else:
                k = self.pick(g, lambda n: n["i"] > 0)
                if k is None:
                    return None
                kc = self.chan(self.nodes[k]["i"])
            m = self.mode()
            return dict(o="con", s=s[0], sc=s[1], k=k, kc=kc, m=m)
        if kind == "conp":
            s = self.source(g, inputs=False)
            k = self.pick(g, lambda n: n["kd"] in ARS)
            if s is None or k is None:
                return None
            p = r.choice(self.p["ps"])
            pn = r.choice(["", "ab"[p]])
            if r.random() < self.p["invalid"] * 0.5:
                p, pn = 9, r.choice(["", "nosuch"])
            return dict(o="conp", s=s[0], sc=s[1], k=k, p=p, pn=pn, m=r.choice(["to", "rep"]))
        if kind == "ddisin":
            if r.random() < 0.3:
                return dict(o="disin", k=0, kc=self.chan(gr["nout"]))
            k = self.pick(g, lambda n: n["i"] > 0)
            return None if k is None else dict(o="disin", k=k, kc=self.chan(self.nodes[k]["i"]))
        if kind == "ddisout":
            if r.random() < 0.25:
                return dict(o="disout", s=0, sc=self.chan(gr["nin"]))
            s = self.pick(g, lambda n: n["n"] > 0)
            return None if s is None else dict(o="disout", s=s, sc=self.chan(self.nodes[s]["n"]))
        if kind == "mort":
            x = self.pick(g)
            if x is None:
                return None
            b = r.choice([0, 0, 1])
            if self.nodes[x]["g"] == g and not self.nodes[x]["freed"]:
                self.nodes[x]["mort"] = b == 1
            return dict(o="mort", id=x, b=b)
        if kind == "dlook":
            return dict(o="look", nm=self.label())
        if kind == "dhas":
            x = self.pick(g)
            return None if x is None else dict(o="has", id=x)

    # ---- events
    def edit(self, g, blocks=False):
        ops = self.ops(g, self.r.randint(0, self.p["opsmax"]), self.graphs[g]["depth"])
        if blocks and self.r.random() < self.p["inblk"]:
            for _ in range(self.r.choice([1, 1, 2])):
                b = self.blk(mids=False)
                b["o"] = "blk"
                ops.insert(self.r.randint(0, len(ops)), b)
        return dict(ev="edit", g=g, ops=ops)

    def direct(self, g):
        ops = []
        for _ in range(self.r.randint(1, 3)):
            k = self.weighted(self.DOPS)
            o = self.dop(g, k) if k else None
            if o:
                ops.append(o)
        return dict(ev="dir", g=g, ops=ops)

    def set(self, g):
        r = self.r
        x = self.pick(g)
        if x is None:
            return None
        n = self.nodes[x]
        via = r.choice(self.p["invokes"])
        if via == "param" and (n["via"] != "graph" or n["kd"] == "sub" or n["g"] != g):
            via = "graph"
        if via == "handle" and (n["via"] != "handle" or n["g"] != g):
            via = "graph"
        p, pn, k, v = self.paramval(x)
        if via == "param":
            pn = ""
        tm, tt = self.time()
        tok = 0
        if via == "handle":
            tm, tt = "none", 0
            if r.random() < self.p["tok"]:
                tok = r.randint(1, 3)
                self.tokens = max(self.tokens, tok)
        if tm in ("at", "after") or tok or n["freed"] or n["born"] == self.blocks:
            self.delayed += 1
        e = dict(ev="set", g=g, id=x, p=p, pn=pn, k=k, v=v, tm=tm, tt=tt, tok=tok, via=via)
        if via in ("param", "handle") and r.random() < self.p["smooth"]:
            e["sm"] = r.choice([0, 1, 2, 5])
            if via == "param":
                e["k"], e["v"] = "", 0
        return e

    def many(self, g):
        """set_many, for nodes which certainly exist"""
        ch = []
        for _ in range(self.r.randint(1, 4)):
            x = self.sure(g, lambda n: n["kd"] != "sub")
            if x is None:
                return None
            p, pn, k, v = self.paramval(x)
            ch.append(dict(id=x, p=p, pn=pn, k=k, v=v))
        tm, tt = self.time()
        if tm in ("at", "after"):
            self.delayed += len(ch)
        return dict(ev="many", g=g, ch=ch, tm=tm, tt=tt)

    def blk(self, mids=True):
        r, p = self.r, self.p
        nin = self.graphs[0]["nin"]
        e = dict(ev="blk", **{"in": [[r.randint(-20, 50) for _ in range(self.bs)] for _ in range(nin)]})
        e["raw"] = r.choice(p["raw"])
        may, mids = mids, []
        if may and r.random() < p["mids"]:
            at = [i for i in self.alive(0) if self.nodes[i]["kd"] == "plain" and self.nodes[i]["born"] < self.blocks and not self.nodes[i].get("unsure")]
            if at:
                for _ in range(r.randint(1, 2)):
                    a = r.choice(at)
                    k = r.choice(["edit", "set", "dir", "act"])
                    ev = self.control(k, 0)
                    if ev:
                        mids.append(dict(at=a, ev=ev))
        e["mid"] = mids
        self.blocks += 1
        return e

    def ends(self, g):
        """several nodes of a graph come to their end in the same block"""
        r = self.r
        out = []
        for x in r.sample(self.alive(g), min(len(self.alive(g)), r.choice([2, 2, 3]))):
            if self.nodes[x]["kd"] != "sub":
                v = r.choice([r.randint(0, self.bs)] * 3 + [100, 200 + r.randint(0, self.bs)])
                out.append(dict(ev="set", g=g, id=x, p=3, pn="", k="i", v=v, tm="none", tt=0, tok=0, via="graph"))
        return out + [self.blk()]

    def control(self, k, g, blocks=False):
        if k == "edit":
            return self.edit(g, blocks)
        if k == "direct" or k == "dir":
            return self.direct(g)
        if k == "set":
            return self.many(g) if self.r.random() < self.p["many"] else self.set(g)
        if k == "act":
            t = [x for x in range(1, self.tokens + 1) if x not in self.acted]
            if not t:
                return None
            x = self.r.choice(t)
            self.acted.add(x)
            return dict(ev="act", tok=x)
        if k == "insp":
            return dict(ev="insp", g=g)

    def script(self):
        r, p = self.r, self.p
        nin, nout = r.choice(p["topio"])
        cap = r.choice(p["caps"])
        evs = [dict(ev="reset", bs=self.bs, sr=self.sr, nin=nin, nout=nout, cap=cap)]
        self.graphs[0] = dict(nin=nin, nout=nout, par=None, cap=cap, depth=0)
        evs.append(dict(ev="edit", g=0, ops=self.ops(0, p["opsmax"] + 2, 0, seed=True)))
        kinds = ["edit", "direct", "set", "blk", "act", "insp", "ends", "wait"]
        for _ in range(p["events"]):
            k = self.weighted(kinds)
            if k == "blk":
                evs.append(self.blk())
                continue
            gs = [g for g in self.graphs if g == 0 or not self.dead(g)]
            g = r.choice(gs) if r.random() < 0.5 else 0
            if k == "wait":
                # about as long as a change is kept that can't be applied
                keep = self.sr // self.bs
                if keep <= 8:
                    evs += [self.blk() for _ in range(r.choice([1, keep - 1, keep, keep, keep + 1]))]
                continue
            if k == "ends":
                evs += self.ends(g)
                continue
            ev = self.control(k, g, True)
            if ev:
                evs.append(ev)
        for _ in range(p["final"]):
            evs.append(self.blk())
        evs.append(dict(ev="edit", g=0, ops=[]))
        evs.append(self.blk())
        evs.append(dict(ev="end", order=r.choice(p["order"])))
        return evs

    def dead(self, g):
        while g != 0 and g is not None:
            if self.nodes[g]["freed"]:
                return True
            g = self.graphs[g]["par"]
        return False


def scripts(prof, seed, n):
    out = []
    for k in range(n):
        out.append(World(random.Random(f"{seed}/{k}"), prof).script())
    return out
