------------------------------- MODULE KGraph -------------------------------
(* The semantics of a knaster graph: control side (Graph/GraphEdit), audio side (GraphGen), and    *)
(* what travels between them.  One event of a history is one call on the control thread (an edit   *)
(* with its commit, a direct operation, a parameter change...) or one block on the audio thread.   *)
(*                                                                                                 *)
(* The specification is functional: every event E takes a state S to Step(S, E), a record          *)
(*    [ok |-> BOOLEAN, S |-> next state, why |-> what did not fit]                                 *)
(* where E carries what the implementation was observed to do.  KGraphTrace checks recorded        *)
(* histories with it; KGraphMC and KGraphGen make histories of their own from it.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC, IOUtils

\* Observations of a class can be left out of the judgement (environment variable OFF_<class>), so
\* that a check only reports what its property is about.  None of them influences the state.
Off(class) == ("OFF_" \o class) \in DOMAIN IOEnv

MODULUS == 1009
Put(f, k, v) == (k :> v) @@ f
Has(r, fld) == fld \in DOMAIN r
Get(r, fld, dflt) == IF fld \in DOMAIN r THEN r[fld] ELSE dflt
RangeOf(s) == {s[i] : i \in 1..Len(s)}
\* Bags as sorted comparison is expensive: count every element
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in RangeOf(s) : Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(t) : t[i] = x})
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
FirstFail(l) == \* l: sequence of <<condition, message>>
  LET bad == {i \in 1..Len(l) : ~l[i][1]} IN IF bad = {} THEN <<>> ELSE l[Min(bad)][2]

---------------------------------------------------------------------------------------------------
(* State *)

EmptySnap(nout) == [ids |-> {}, ein |-> <<>>, ep |-> <<>>, eo |-> [c \in 1..nout |-> <<>>], v |-> 0]
NewGraph(nin, nout, par, cap) ==
  [nin |-> nin, nout |-> nout, par |-> par, cap |-> cap,
   nodes |-> {},                             \* alive: pushed and not freed
   pend |-> {},                              \* freed, waiting for the audio thread to let go: <<id, version>>
   ein |-> <<>>, ep |-> <<>>, eo |-> [c \in 1..nout |-> <<>>],
   dirty |-> FALSE, ver |-> 1,               \* version of the next snapshot
   q |-> <<>>, cur |-> EmptySnap(nout),      \* snapshots sent; snapshot the audio thread uses
   ring |-> <<>>, wait |-> <<>>,             \* parameter changes sent; changes waiting for their time
   freed |-> FALSE,                          \* asked to be removed by one of its own nodes
   dead |-> FALSE,                           \* its audio side has been dropped
   handle |-> TRUE]                          \* its control side is still there
Init0(e) ==
  [bs |-> e.bs, sr |-> e.sr, keep |-> e.sr \div e.bs, clk |-> 0,
   G |-> (0 :> NewGraph(e.nin, e.nout, -1, e.cap)),
   N |-> <<>>, FB |-> <<>>, nfb |-> 1, tok |-> {}, dropped |-> {}, proc |-> TRUE]

PNames == <<"a", "b", "t", "d">>
\* wrappers of the test UGens
DoneKinds == {"done", "donear", "doneprec", "doneprecar"}
PrecKinds == {"prec", "precar", "doneprec", "doneprecar"}
ArKinds == {"ar", "precar", "donear", "doneprecar"}
NumParams(n) == CASE n.kd \in {"sub", "math", "mathc"} -> 0 [] n.kd \in DoneKinds -> 5 [] OTHER -> 4
ParamNames(n) == IF n.kd \in DoneKinds THEN Append(PNames, "done_action") ELSE SubSeq(PNames, 1, NumParams(n))
\* index of the parameter an operation refers to, or -1
ParamIx(n, op) ==
  IF Get(op, "pn", "") # "" THEN
     LET m == {i \in 1..Len(ParamNames(n)) : ParamNames(n)[i] = op.pn} IN IF m = {} THEN -1 ELSE Min(m) - 1
  ELSE IF op.p >= 0 /\ op.p < NumParams(n) THEN op.p ELSE -1
ParamErr(op) == IF Get(op, "pn", "") # "" THEN {"ParameterDescriptionNotFound", "DescriptionNotFound"}
                ELSE {"ParameterIndexOutOfBounds"}

IsTU(n) == n.kd \notin {"sub", "math", "mathc"}
Foreign(S, g, id) == IF id \in DOMAIN S.N THEN S.N[id].g # g ELSE TRUE
Alive(S, g, id) == id \in S.G[g].nodes
Pending(S, g, id) == \E p \in S.G[g].pend : p[1] = id

---------------------------------------------------------------------------------------------------
(* Control side: nodes and edges.  A source is <<node, channel, feedback id>>; node 0 is a graph   *)
(* input; feedback id 0 is a direct edge.                                                          *)

DirectSources(G, id) ==
  {s \in UNION {RangeOf(G.ein[id][c]) : c \in DOMAIN G.ein[id]} : s[3] = 0 /\ s[1] # 0}
    \cup UNION {RangeOf(G.ep[id][p]) : p \in DOMAIN G.ep[id]}
RECURSIVE Ancestors(_, _)
Ancestors(G, X) ==
  LET Y == X \cup {s[1] : s \in UNION {DirectSources(G, x) : x \in X}}
  IN IF Y = X THEN X ELSE Ancestors(G, Y)
\* is there a direct path from node a to node b
HasPath(G, a, b) == a \in Ancestors(G, {b})

AddNode(S, g, id, rec) ==
  [S EXCEPT !.N = Put(S.N, id, rec),
            !.G[g].nodes = @ \cup {id},
            !.G[g].ein = Put(@, id, [c \in 1..rec.i |-> <<>>]),
            !.G[g].ep = Put(@, id, [p \in 0..(NumParams(rec) - 1) |-> <<>>]),
            !.G[g].dirty = TRUE]
NodeRec(g, i, n, kd) ==
  [g |-> g, i |-> i, n |-> n, b |-> 0, tk |-> 0, kd |-> kd, da |-> 0, mort |-> TRUE, nm |-> "",
   cnt |-> 0, pa |-> 0, pb |-> 0, pt |-> 0, rm |-> FALSE, op |-> "", k |-> 0, rev |-> 0, inner |-> -1]
PushTU(S, g, op) ==
  AddNode(S, g, op.id, [NodeRec(g, op.i, op.n, op.kd) EXCEPT !.b = op.b, !.tk = op.tk, !.da = Get(op, "da", 0)])

DropSrc(seq, bad(_)) == SelectSeq(seq, LAMBDA s : ~bad(s))
DropSources(S, g, bad(_)) ==
  [S EXCEPT !.G[g].ein = [id \in DOMAIN @ |-> [c \in DOMAIN @[id] |-> DropSrc(@[id][c], bad)]],
            !.G[g].ep = [id \in DOMAIN @ |-> [p \in DOMAIN @[id] |-> DropSrc(@[id][p], bad)]],
            !.G[g].eo = [c \in DOMAIN @ |-> DropSrc(@[c], bad)]]
FreeNode(S, g, id) ==
  LET S1 == DropSources(S, g, LAMBDA s : s[1] = id)
  IN [S1 EXCEPT !.G[g].nodes = @ \ {id},
                !.G[g].ein = [x \in DOMAIN @ \ {id} |-> @[x]],
                !.G[g].ep = [x \in DOMAIN @ \ {id} |-> @[x]],
                !.G[g].pend = @ \cup {<<id, S.G[g].ver>>},
                !.G[g].dirty = TRUE]

\* errors that apply to making the connection s.sc -> k.kc in graph g
ConErrs(S, g, s, sc, k, kc, fb) ==
  LET G == S.G[g]
      sA == s # 0 /\ ~Foreign(S, g, s) /\ Alive(S, g, s)
      kA == k # 0 /\ ~Foreign(S, g, k) /\ Alive(S, g, k)
  IN (IF s # 0 /\ Foreign(S, g, s) THEN {"WrongSourceNodeGraph"} ELSE {})
     \cup (IF k # 0 /\ Foreign(S, g, k) THEN {"WrongSinkNodeGraph"} ELSE {})
     \cup (IF s # 0 /\ ~Foreign(S, g, s) /\ ~Alive(S, g, s) THEN {"NodeNotFound"} ELSE {})
     \cup (IF k # 0 /\ ~Foreign(S, g, k) /\ ~Alive(S, g, k) THEN {"NodeNotFound"} ELSE {})
     \cup (IF sA /\ sc >= S.N[s].n THEN {"OutputOutOfBounds"} ELSE {})
     \cup (IF s = 0 /\ sc >= G.nin THEN {"GraphInputOutOfBounds"} ELSE {})
     \cup (IF kA /\ kc >= S.N[k].i THEN IF s = 0 THEN {"InputOutOfBounds", "OutputOutOfBounds"} ELSE {"InputOutOfBounds"} ELSE {})
     \cup (IF k = 0 /\ kc >= G.nout THEN {"GraphOutputOutOfBounds"} ELSE {})
     \cup (IF sA /\ kA /\ ~fb /\ HasPath(G, k, s) THEN {"CircularConnection"} ELSE {})
\* the connection itself; only called when ConErrs is empty
Connect(S, g, s, sc, k, kc, m) ==
  LET fb == m \in {"fb", "fbr"} /\ s # 0 /\ k # 0
      src == <<s, sc, IF fb THEN S.nfb ELSE 0>>
      S1 == IF fb THEN [S EXCEPT !.nfb = @ + 1, !.FB = Put(@, S.nfb, [f \in 1..S.bs |-> 0])] ELSE S
      add(old) == IF m \in {"rep", "fbr"} THEN <<src>> ELSE Append(old, src)
  IN IF k = 0 THEN [S1 EXCEPT !.G[g].eo[kc + 1] = add(@), !.G[g].dirty = TRUE]
     ELSE [S1 EXCEPT !.G[g].ein[k][kc + 1] = add(@), !.G[g].dirty = TRUE]
IsFb(m, s, k) == m \in {"fb", "fbr"}
TryConnect(S, g, s, sc, k, kc, m) ==
  IF ConErrs(S, g, s, sc, k, kc, IsFb(m, s, k)) = {} THEN Connect(S, g, s, sc, k, kc, m) ELSE S

ConpErrs(S, g, op) ==
  LET sA == ~Foreign(S, g, op.s) /\ Alive(S, g, op.s)
      kA == ~Foreign(S, g, op.k) /\ Alive(S, g, op.k)
  IN (IF Foreign(S, g, op.s) THEN {"WrongSourceNodeGraph"} ELSE {})
     \cup (IF Foreign(S, g, op.k) THEN {"WrongSinkNodeGraph"} ELSE {})
     \cup (IF (~Foreign(S, g, op.s) /\ ~sA) \/ (~Foreign(S, g, op.k) /\ ~kA) THEN {"NodeNotFound"} ELSE {})
     \cup (IF sA /\ op.sc >= S.N[op.s].n THEN {"OutputOutOfBounds"} ELSE {})
     \cup (IF kA /\ ParamIx(S.N[op.k], op) < 0 THEN ParamErr(op) ELSE {})
     \cup (IF sA /\ kA /\ HasPath(S.G[g], op.k, op.s) THEN {"CircularConnection"} ELSE {})
ConnectParam(S, g, op, m) ==
  LET p == ParamIx(S.N[op.k], op)
  IN [S EXCEPT !.G[g].ep[op.k][p] = IF m = "rep" THEN <<<<op.s, op.sc, 0>>>> ELSE Append(@, <<op.s, op.sc, 0>>),
               !.G[g].dirty = TRUE]

DisinErrs(S, g, op) ==
  IF op.k = 0 THEN IF op.kc >= S.G[g].nout THEN {"GraphOutputOutOfBounds"} ELSE {}
  ELSE IF Foreign(S, g, op.k) THEN {"WrongSinkNodeGraph"}
  ELSE IF ~Alive(S, g, op.k) THEN {"NodeNotFound"}
  ELSE IF op.kc >= S.N[op.k].i THEN {"InputOutOfBounds"} ELSE {}
Disin(S, g, op) ==
  IF op.k = 0 THEN [S EXCEPT !.G[g].eo[op.kc + 1] = <<>>, !.G[g].dirty = TRUE]
  ELSE [S EXCEPT !.G[g].ein[op.k][op.kc + 1] = <<>>, !.G[g].dirty = TRUE]
DisoutErrs(S, g, op) ==
  IF op.s = 0 THEN IF op.sc >= S.G[g].nin THEN {"GraphInputOutOfBounds"} ELSE {}
  ELSE IF Foreign(S, g, op.s) THEN {"WrongSinkNodeGraph", "WrongSourceNodeGraph"}
  ELSE IF ~Alive(S, g, op.s) THEN {"NodeNotFound"}
  ELSE IF op.sc >= S.N[op.s].n THEN {"OutputOutOfBounds"} ELSE {}
Disout(S, g, op) ==
  [DropSources(S, g, LAMBDA x : x[1] = op.s /\ x[2] = op.sc) EXCEPT !.G[g].dirty = TRUE]

\* parameter changes
SetErrs(S, g, op) ==
  (IF Foreign(S, g, op.id) THEN {"WrongSinkNodeGraph"} ELSE
     IF ~Alive(S, g, op.id) THEN
        {"NodeNotFound"} \cup (IF Pending(S, g, op.id) /\ ParamIx(S.N[op.id], op) < 0 THEN ParamErr(op) ELSE {}) ELSE
       IF ParamIx(S.N[op.id], op) < 0 THEN ParamErr(op) ELSE {})
SendErrs(S, g) ==
  (IF S.G[g].dead THEN {"GraphWasFreed"} ELSE {})
  \cup (IF Len(S.G[g].ring) >= S.G[g].cap THEN {"PushChangeError"} ELSE {})
Event(S, op) ==
  [id |-> op.id, p |-> ParamIx(S.N[op.id], op), k |-> op.k, v |-> op.v, sm |-> Get(op, "sm", -1),
   tm |-> Get(op, "tm", "none"), due |-> Get(op, "tt", 0), tok |-> Get(op, "tok", 0), age |-> 0]
Send(S, g, ev) == [S EXCEPT !.G[g].ring = Append(@, ev)]

---------------------------------------------------------------------------------------------------
(* Operations of an edit.  Op returns [ok, S, why]; r is the observed result.                      *)

Okay(S) == [ok |-> TRUE, S |-> S, why |-> <<>>]
Wrong(S, why) == [ok |-> FALSE, S |-> S, why |-> why]
\* an operation which either fails with one of `errs` without effect, or succeeds with S1
Either(S, r, errs, S1, what) ==
  IF errs = {} THEN IF r = "ok" THEN Okay(S1) ELSE Wrong(S, <<"refused, but nothing is wrong with it", what, r>>)
  ELSE IF r \in errs THEN Okay(S) ELSE Wrong(S, <<"should fail with", errs, what, r>>)

\* nodes a handle operation mentions
Gone(S, g, id) == id # 0 /\ (Foreign(S, g, id) \/ ~Alive(S, g, id))
HandleErrs(S, g, srcs, nodes) ==
  (IF \E i \in 1..Len(srcs) : srcs[i][1] = 0 /\ srcs[i][2] >= S.G[g].nin THEN {"GraphInputOutOfBounds"} ELSE {})
  \cup (IF \E id \in {srcs[i][1] : i \in 1..Len(srcs)} \cup nodes : Gone(S, g, id) THEN {"nohandle"} ELSE {})
HandleMust(S, g, srcs, nodes) ==
  \/ \E i \in 1..Len(srcs) : srcs[i][1] = 0 /\ srcs[i][2] >= S.G[g].nin
  \/ \E id \in {srcs[i][1] : i \in 1..Len(srcs)} \cup nodes : Gone(S, g, id)

RECURSIVE SinkInputs(_, _)
SinkInputs(S, ks) ==
  IF ks = <<>> THEN <<>>
  ELSE [c \in 1..S.N[Head(ks)].i |-> <<Head(ks), c - 1>>] \o SinkInputs(S, Tail(ks))
RECURSIVE ZipPairs(_, _, _, _, _, _)
\* connects pairs one by one; stops at the first error if `stop`
ZipPairs(S, g, l, r, m, stop) ==
  IF l = <<>> \/ r = <<>> THEN [S |-> S, errs |-> {}]
  ELSE LET errs == ConErrs(S, g, l[1][1], l[1][2], r[1][1], r[1][2], IsFb(m, 0, 0))
       IN IF errs # {} /\ stop THEN [S |-> S, errs |-> errs]
          ELSE ZipPairs(IF errs = {} THEN Connect(S, g, l[1][1], l[1][2], r[1][1], r[1][2], m) ELSE S,
                        g, Tail(l), Tail(r), m, stop)
AddMath(S, g, id, op, l, r) ==
  LET S1 == AddNode(S, g, id, [NodeRec(g, 2, 1, "math") EXCEPT !.op = op])
  IN TryConnect(TryConnect(S1, g, l[1], l[2], id, 0, "to"), g, r[1], r[2], id, 1, "to")
AddMathC(S, g, id, o, l) ==
  LET S1 == AddNode(S, g, id, [NodeRec(g, 1, 1, "mathc") EXCEPT !.op = o.op, !.k = o.k, !.rev = o.rev])
  IN TryConnect(S1, g, l[1], l[2], id, 0, "to")

RECURSIVE Op(_, _, _, _), Ops(_, _, _, _)
Ops(S, g, ops, rs) ==
  IF ops = <<>> THEN IF rs = <<>> THEN Okay(S) ELSE Wrong(S, <<"more results than operations">>)
  ELSE IF rs = <<>> THEN Wrong(S, <<"missing result">>)
  ELSE LET x == TLCEval(Op(S, g, Head(ops), Head(rs))) IN IF x.ok THEN Ops(x.S, g, Tail(ops), Tail(rs)) ELSE x
\* Handle operations give up with "nohandle" when a node is gone
WithHandles(S, g, srcs, nodes, r, then) ==
  IF HandleMust(S, g, srcs, nodes) \/ r \in {"nohandle", "GraphInputOutOfBounds"} THEN
     IF r \in HandleErrs(S, g, srcs, nodes) THEN Okay(S) ELSE Wrong(S, <<"handle", r, srcs, nodes>>)
  ELSE then

NamedIn(S, g, nm) == {id \in S.G[g].nodes : S.N[id].nm = nm}
Commit(S, g) == \* returns [S, gone]: reclaimed ids
  LET G0 == S.G[g]
      flagged == {id \in G0.nodes : S.N[id].mort /\ (S.N[id].rm \/ (S.N[id].kd = "sub" /\ S.G[id].freed))}
      S1 == FoldLeft(LAMBDA s, id : TLCEval(FreeNode(s, g, id)), S, SetToSeq(flagged))
      gone == {p[1] : p \in {p \in S1.G[g].pend : p[2] <= S1.G[g].cur.v}}
      G1 == S1.G[g]
      send == G1.dirty /\ Len(G1.q) < G1.cap
      snap == [ids |-> G1.nodes, ein |-> G1.ein, ep |-> G1.ep, eo |-> G1.eo, v |-> G1.ver]
      S2 == [S1 EXCEPT !.G[g].pend = {p \in @ : p[2] > S1.G[g].cur.v},
                       !.G[g].q = IF send THEN Append(@, snap) ELSE @,
                       !.G[g].ver = IF send THEN @ + 1 ELSE @,
                       !.G[g].dirty = IF send THEN FALSE ELSE @]
  IN [S |-> S2, gone |-> gone]

Op(S, g, op, r) ==
  CASE op.o = "push" -> IF r = "ok" THEN Okay(PushTU(S, g, op)) ELSE Wrong(S, <<"push", r>>)
    [] op.o = "con" ->
         LET errs == ConErrs(S, g, op.s, op.sc, op.k, op.kc, IsFb(op.m, op.s, op.k))
         IN Either(S, r, errs, IF errs = {} THEN Connect(S, g, op.s, op.sc, op.k, op.kc, op.m) ELSE S, op)
    [] op.o = "conp" ->
         LET errs == ConpErrs(S, g, op)
         IN Either(S, r, errs, IF errs = {} THEN ConnectParam(S, g, op, op.m) ELSE S, op)
    [] op.o = "zip" ->
         WithHandles(S, g, op.l, RangeOf(op.sinks), r,
           LET z == ZipPairs(S, g, op.l, SinkInputs(S, op.sinks), op.m, op.via = "try" /\ op.m = "to")
           IN IF op.via = "try" /\ op.m = "to" /\ z.errs # {}
              THEN IF r \in z.errs THEN Okay(z.S) ELSE Wrong(S, <<"try_to", r, z.errs>>)
              ELSE IF r = "ok" THEN Okay(z.S) ELSE Wrong(S, <<"zip", r, op>>))
    [] op.o = "outs" ->
         WithHandles(S, g, op.l, {}, r,
           LET sinks == IF op.ch = <<>> THEN [i \in 1..Len(op.l) |-> <<0, i - 1>>] ELSE [i \in 1..Len(op.ch) |-> <<0, op.ch[i]>>]
               z == ZipPairs(S, g, op.l, sinks, op.m, FALSE)
           IN IF r = "ok" THEN Okay(z.S) ELSE Wrong(S, <<"outs", r, op>>))
    [] op.o = "math" ->
         WithHandles(S, g, op.l \o op.r, {}, r,
           IF r # "ok" THEN Wrong(S, <<"math", r>>)
           ELSE Okay(FoldLeft(LAMBDA s, i : TLCEval(AddMath(s, g, op.ids[i], op.op, op.l[i], op.r[i])), S, [i \in 1..Len(op.ids) |-> i])))
    [] op.o = "mathc" ->
         WithHandles(S, g, op.l, {}, r,
           IF r # "ok" THEN Wrong(S, <<"mathc", r>>)
           ELSE Okay(FoldLeft(LAMBDA s, i : TLCEval(AddMathC(s, g, op.ids[i], op, op.l[i])), S, [i \in 1..Len(op.ids) |-> i])))
    [] op.o = "link" -> \* graph inputs can't be linked to parameters
         WithHandles(S, g, <<op.s>>, {op.k}, r, IF r = "ok" THEN Okay(S) ELSE Wrong(S, <<"link", r>>))
    [] op.o = "linkpush" ->
         WithHandles(S, g, <<>>, {op.k}, r,
           LET S1 == PushTU(S, g, [id |-> op.id, i |-> 0, n |-> 1, b |-> op.b, tk |-> op.tk, kd |-> "plain"])
               o2 == [s |-> op.id, sc |-> 0, k |-> op.k, p |-> op.p, pn |-> op.pn]
               errs == ConpErrs(S1, g, o2)
           IN IF r # "ok" THEN Wrong(S, <<"linkpush", r>>) ELSE Okay(IF errs = {} THEN ConnectParam(S1, g, o2, "rep") ELSE S1))
    [] op.o = "disin" ->
         LET errs == DisinErrs(S, g, op)
             e2 == IF errs \cap {"WrongSinkNodeGraph", "NodeNotFound"} # {} THEN errs \cup {"nohandle"} ELSE errs
         IN Either(S, r, e2, IF errs = {} THEN Disin(S, g, op) ELSE S, op)
    [] op.o = "disout" ->
         LET errs == DisoutErrs(S, g, op)
             e2 == IF errs \cap {"WrongSinkNodeGraph", "NodeNotFound"} # {} THEN errs \cup {"nohandle"} ELSE errs
         IN Either(S, r, e2, IF errs = {} THEN Disout(S, g, op) ELSE S, op)
    [] op.o = "free" ->
         IF Foreign(S, g, op.id) THEN Either(S, r, {"WrongSinkNodeGraph", "WrongSourceNodeGraph"}, S, op)
         ELSE IF Alive(S, g, op.id) THEN
            IF S.N[op.id].mort THEN Either(S, r, {}, FreeNode(S, g, op.id), op) ELSE Either(S, r, {"ImmortalNode"}, S, op)
         ELSE IF Pending(S, g, op.id) THEN IF r \in {"ok", "NodeNotFound"} THEN Okay(S) ELSE Wrong(S, <<"free", r>>)
         ELSE Either(S, r, {"NodeNotFound"}, S, op)
    [] op.o = "mort" ->
         IF Foreign(S, g, op.id) THEN Either(S, r, {"WrongSinkNodeGraph", "WrongSourceNodeGraph", "NodeNotFound"}, S, op)
         ELSE IF Alive(S, g, op.id) THEN Either(S, r, {}, [S EXCEPT !.N[op.id].mort = (op.b = 1)], op)
         ELSE IF Pending(S, g, op.id) THEN IF r \in {"ok", "NodeNotFound"} THEN Okay(S) ELSE Wrong(S, <<"mort", r>>)
         ELSE Either(S, r, {"NodeNotFound"}, S, op)
    [] op.o = "name" ->
         WithHandles(S, g, <<>>, {op.id}, r,
            IF r = "ok" THEN Okay([S EXCEPT !.N[op.id].nm = op.nm]) ELSE Wrong(S, <<"name", r>>))
    [] op.o = "look" ->
         LET is == NamedIn(S, g, op.nm)
         IN IF Off("name") \/ (r = "none" /\ is = {}) \/ r \in {ToString(id) : id \in is} THEN Okay(S)
            ELSE Wrong(S, <<"look", r, is>>)
    [] op.o = "has" ->
         IF Off("name") \/ (r = "yes" /\ ~Foreign(S, g, op.id) /\ Alive(S, g, op.id))
            \/ (r = "no" /\ (Foreign(S, g, op.id) \/ ~Alive(S, g, op.id))) THEN Okay(S) ELSE Wrong(S, <<"has", r, op>>)
    [] op.o = "set" ->
         LET errs == SetErrs(S, g, op)
         IN IF errs = {} THEN Either(S, r, SendErrs(S, g), Send(S, g, Event(S, op)), op)
            ELSE IF r \in errs \cup (IF Pending(S, g, op.id) THEN SendErrs(S, g) ELSE {}) THEN Okay(S)
            ELSE IF r = "ok" /\ errs = {"NodeNotFound"} /\ Pending(S, g, op.id) /\ SendErrs(S, g) = {} /\ ParamIx(S.N[op.id], op) >= 0
                 THEN Okay(Send(S, g, Event(S, op)))
            ELSE Wrong(S, <<"set", r, errs>>)
    [] op.o = "sub" ->
         LET S1 == [AddNode(S, g, op.id, [NodeRec(g, op.i, op.n, "sub") EXCEPT !.inner = op.id])
                      EXCEPT !.G = Put(@, op.id, NewGraph(op.i, op.n, g, Get(op, "cap", 16)))]
             x == Ops(S1, op.id, op.ops, r)
         IN IF x.ok THEN Okay(Commit(x.S, op.id).S) ELSE x

---------------------------------------------------------------------------------------------------
(* Audio side *)

\* Draining a graph at the start of its block: newest snapshot, then the waiting and the new
\* parameter changes in order.  Applies: sequence of [id, p, k, v, at], at = frame within the block.
DueIn(S, ev) == CASE ev.tm = "at" -> IF ev.due > S.clk THEN ev.due - S.clk ELSE 0
                  [] ev.tm = "after" -> ev.due
                  [] OTHER -> 0
Later(S, ev) == IF ev.tm = "after" THEN [ev EXCEPT !.due = IF @ > S.bs THEN @ - S.bs ELSE 0] ELSE ev
Ready(S, cur, ev) == /\ ev.tok = 0 \/ ev.tok \in S.tok
                     /\ DueIn(S, ev) < S.bs
                     /\ ev.id \in cur.ids
\* what a change consists of: a smoothing setting, then a value
Parts(S, ev) ==
  LET part(k, v) == [id |-> ev.id, p |-> ev.p, k |-> k, v |-> v, at |-> DueIn(S, ev)]
  IN (IF ev.sm >= 0 THEN <<part("s", ev.sm)>> ELSE <<>>) \o (IF ev.k # "" THEN <<part(ev.k, ev.v)>> ELSE <<>>)
Drain(S, g) ==
  LET G == S.G[g]
      cur == IF G.q = <<>> THEN G.cur ELSE G.q[Len(G.q)]
      old == [i \in 1..Len(G.wait) |-> G.wait[i]]
      step(acc, ev, fresh) ==
        IF ~fresh /\ ev.age > S.keep THEN acc
        ELSE IF Ready(S, cur, ev) THEN [acc EXCEPT !.ap = @ \o Parts(S, ev)]
        \* changes that have to wait are kept in a queue as long as the channel
        ELSE IF fresh /\ Len(acc.wait) >= G.cap THEN acc
        ELSE [acc EXCEPT !.wait = Append(@, IF fresh THEN Later(S, ev) ELSE [Later(S, ev) EXCEPT !.age = IF DueIn(S, ev) < S.bs THEN @ + 1 ELSE @])]
      a1 == FoldLeft(LAMBDA acc, ev : TLCEval(step(acc, ev, FALSE)), [ap |-> <<>>, wait |-> <<>>], old)
      a2 == FoldLeft(LAMBDA acc, ev : TLCEval(step(acc, ev, TRUE)), a1, G.ring)
  IN [cur |-> cur, ap |-> a2.ap, wait |-> a2.wait]

\* graphs whose audio side runs in this block: the top level graph, and the subgraphs which are
\* nodes of the current snapshot of a running graph
RECURSIVE DrainAll(_, _)
\* gs: sequence of graphs still to visit.  Returns [S, run: set of graphs, ap: graph -> applies]
DrainAll(acc, gs) ==
  IF gs = <<>> THEN acc
  ELSE LET g == Head(gs)
           S == acc.S
       IN IF S.G[g].freed THEN DrainAll(acc, Tail(gs))
          ELSE LET d == TLCEval(Drain(S, g))
                   S1 == [S EXCEPT !.G[g].cur = d.cur, !.G[g].q = <<>>, !.G[g].wait = d.wait, !.G[g].ring = <<>>]
                   subs == {id \in d.cur.ids : S.N[id].kd = "sub"}
               IN DrainAll([S |-> TLCEval(S1), run |-> acc.run \cup {g}, ap |-> Put(acc.ap, g, d.ap)], Tail(gs) \o SetToSeq(subs))

\* direct parameter changes to a node, before the block.  Returns the node record.
ApplyTU(n, a) ==
  CASE n.kd \in DoneKinds /\ a.p = 4 /\ a.k = "i" -> [n EXCEPT !.da = a.v]
    [] a.p = 0 /\ a.k = "f" -> [n EXCEPT !.pa = a.v]
    [] a.p = 1 /\ a.k = "f" -> [n EXCEPT !.pb = a.v]
    [] a.p = 2 /\ a.k = "t" -> [n EXCEPT !.pt = @ + 1]
    [] OTHER -> n
\* The changes of one block for one node, as they reach the test UGen: sequence of [p, k, v, at],
\* `at` being the frame from which it holds.
Linked(cur, id, p) == id \in DOMAIN cur.ep /\ p \in DOMAIN cur.ep[id] /\ cur.ep[id][p] # <<>>
InsertByTime(l, x) == \* stable
  LET before == SelectSeq(l, LAMBDA y : y.at <= x.at)
      after == SelectSeq(l, LAMBDA y : y.at > x.at)
  IN Append(before, x) \o after
PRECISE == 4 \* WrPreciseTiming<4>
Changes(n, cur, id, ap) ==
  LET all == SelectSeq(ap, LAMBDA a : a.id = id)
      \* the done action isn't bound to a frame
      mine == [i \in 1..Len(all) |-> IF all[i].p = 4 THEN [all[i] EXCEPT !.at = 0] ELSE all[i]]
  IN IF n.kd \in PrecKinds THEN
       FoldLeft(LAMBDA l, a : IF a.at > 0 /\ Cardinality({i \in 1..Len(l) : l[i].at > 0}) >= PRECISE THEN l ELSE TLCEval(InsertByTime(l, a)), <<>>, mine)
     ELSE [i \in 1..Len(mine) |-> [mine[i] EXCEPT !.at = 0]]
\* those that actually reach the UGen (a parameter driven at audio rate ignores other changes)
Heard(n, cur, id, chg) ==
  IF n.kd \in ArKinds THEN SelectSeq(chg, LAMBDA a : ~Linked(cur, id, a.p)) ELSE chg

Vec(S, F(_)) == [f \in 1..S.bs |-> F(f)]
\* MathUGen on integers; a result that isn't an integer is observed as -1
MathOp(op, x, y) ==
  CASE op = "add" -> x + y
    [] op = "sub" -> x - y
    [] op = "mul" -> x * y
    [] op = "div" -> IF y # 0 /\ (IF x < 0 THEN -x ELSE x) % (IF y < 0 THEN -y ELSE y) = 0
                     THEN (IF (x < 0) = (y < 0) THEN 1 ELSE -1) * ((IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y)) ELSE -1
    [] op = "pow" -> x ^ y
    [] OTHER -> -1
RECURSIVE SrcVal(_, _, _, _), SumSrc(_, _, _, _)
\* value of a source over the block.  acc.out: test UGen outputs so far, acc.in: graph inputs
SrcVal(S, acc, g, s) ==
  IF s[3] # 0 THEN S.FB[s[3]]
  ELSE IF s[1] = 0 THEN
     IF g = 0 THEN acc.in[s[2] + 1]
     ELSE SumSrc(S, acc, S.G[g].par, S.G[S.G[g].par].cur.ein[g][s[2] + 1])
  ELSE LET n == S.N[s[1]]
       IN CASE n.kd = "math" ->
                 LET x == SumSrc(S, acc, g, S.G[g].cur.ein[s[1]][1])
                     y == SumSrc(S, acc, g, S.G[g].cur.ein[s[1]][2])
                 IN [f \in 1..S.bs |-> MathOp(n.op, x[f], y[f])]
            [] n.kd = "mathc" ->
                 LET x == SumSrc(S, acc, g, S.G[g].cur.ein[s[1]][1])
                 IN [f \in 1..S.bs |-> IF n.rev = 1 THEN MathOp(n.op, n.k, x[f]) ELSE MathOp(n.op, x[f], n.k)]
            [] n.kd = "sub" ->
                 IF s[1] \notin acc.run THEN [f \in 1..S.bs |-> 0]
                 ELSE LET x == SumSrc(S, acc, s[1], S.G[s[1]].cur.eo[s[2] + 1])
                          z == Get(acc.zero, s[1], S.bs)
                      IN [f \in 1..S.bs |-> IF f > z THEN 0 ELSE x[f]]
            [] OTHER -> acc.out[s[1]][s[2] + 1]
SumSrc(S, acc, g, srcs) ==
  IF srcs = <<>> THEN [f \in 1..S.bs |-> 0]
  ELSE LET x == TLCEval(SrcVal(S, acc, g, Head(srcs)))
       IN IF Len(srcs) = 1 THEN x
          ELSE LET y == TLCEval(SumSrc(S, acc, g, Tail(srcs))) IN [f \in 1..S.bs |-> x[f] + y[f]]

\* Which test UGens must have run before a source has its value
RECURSIVE Needs(_, _, _, _), AllTUs(_, _, _)
AllTUs(S, acc, g) == \* every test UGen that runs inside of graph g
  IF g \notin acc.run THEN {}
  ELSE UNION {IF S.N[id].kd = "sub" THEN AllTUs(S, acc, id) ELSE IF IsTU(S.N[id]) THEN {id} ELSE {} : id \in S.G[g].cur.ids}
Needs(S, acc, g, s) ==
  IF s[3] # 0 THEN {}
  ELSE IF s[1] = 0 THEN {} \* those of a subgraph's inputs are in Before
  ELSE CASE S.N[s[1]].kd \in {"math", "mathc"} -> UNION {UNION {Needs(S, acc, g, x) : x \in RangeOf(S.G[g].cur.ein[s[1]][c])} : c \in DOMAIN S.G[g].cur.ein[s[1]]}
         [] S.N[s[1]].kd = "sub" -> AllTUs(S, acc, s[1])
         [] OTHER -> {s[1]}
NodeNeeds(S, acc, g, id) ==
  LET cur == S.G[g].cur
  IN UNION {UNION {Needs(S, acc, g, x) : x \in RangeOf(cur.ein[id][c])} : c \in DOMAIN cur.ein[id]}
     \cup UNION {UNION {Needs(S, acc, g, x) : x \in RangeOf(cur.ep[id][p])} : p \in DOMAIN cur.ep[id]}
RECURSIVE Before(_, _, _, _)
Before(S, acc, g, id) ==
  NodeNeeds(S, acc, g, id) \cup (IF S.G[g].par >= 0 THEN Before(S, acc, S.G[g].par, g) ELSE {})

\* One test UGen processes a block.  Returns [n: node record after, v: weighted input, out: outputs]
RunTU(S, acc, id) ==
  LET n0 == S.N[id]
      g == n0.g
      cur == S.G[g].cur
      chg == Heard(n0, cur, id, Changes(n0, cur, id, acc.ap[g]))
      ins == [c \in 1..n0.i |-> TLCEval(SumSrc(S, acc, g, cur.ein[id][c]))]
      v == [f \in 1..S.bs |-> SumSeq([c \in 1..n0.i |-> c * ins[c][f]])]
      arp == IF n0.kd \in ArKinds THEN {p \in 0..1 : Linked(cur, id, p)} ELSE {}
      arv == [p \in arp |-> TLCEval(SumSrc(S, acc, g, cur.ep[id][p]))]
      \* node record while processing frame f
      at(f) == LET n1 == FoldLeft(LAMBDA n, a : IF a.at <= f - 1 THEN ApplyTU(n, a) ELSE n, n0, chg)
                   n2 == IF 0 \in arp THEN [n1 EXCEPT !.pa = arv[0][f]] ELSE n1
               IN IF 1 \in arp THEN [n2 EXCEPT !.pb = arv[1][f]] ELSE n2
      ns == [f \in 1..S.bs |-> TLCEval(at(f))]
      last == ns[S.bs]
      \* parameter d: the last change before each piece of the block
      ds == SelectSeq(chg, LAMBDA a : a.p = 3 /\ a.k = "i")
      fins == SelectSeq([i \in 1..Len(ds) |-> IF \E j \in i + 1 .. Len(ds) : ds[j].at = ds[i].at THEN -1 ELSE ds[i].v], LAMBDA d : d >= 0)
      y(c, f) == (n0.b + 10 * (c - 1) + ns[f].pa + 2 * ns[f].pb + 5 * ns[f].pt + n0.tk * (n0.cnt + f - 1) + v[f]) % MODULUS
  IN [n |-> [last EXCEPT !.cnt = @ + S.bs],
      v |-> v,
      fins |-> fins,
      out |-> [c \in 1..n0.n |-> [f \in 1..S.bs |-> y(c, f)]]]

\* running one node within a block: acc = [S, in, out, run, ap, zero, vs, why]
RunNode(acc, id) ==
  LET S == acc.S
  IN IF acc.why # <<>> THEN acc
     ELSE IF id \notin DOMAIN S.N THEN [acc EXCEPT !.why = <<"unknown node ran", id>>]
     ELSE IF ~(S.N[id].g \in acc.run /\ id \in S.G[S.N[id].g].cur.ids) THEN [acc EXCEPT !.why = <<"a node ran that is not part of the graph", id>>]
     ELSE IF id \in DOMAIN acc.out THEN [acc EXCEPT !.why = <<"node ran twice", id>>]
     ELSE LET missing == Before(S, acc, S.N[id].g, id) \ DOMAIN acc.out
          IN IF missing # {} THEN [acc EXCEPT !.why = <<"node ran before its inputs", id, missing>>]
             ELSE LET x == TLCEval(RunTU(S, acc, id))
                      g == S.N[id].g
                      \* 0 .. 99: done in this frame, 100: frees itself, 200 .. : frees its graph from a frame on
                      dones == SelectSeq(x.fins, LAMBDA d : d < 100)
                      isd == x.n.kd \in DoneKinds
                      act == IF isd /\ dones # <<>> THEN x.n.da ELSE 0
                      n1 == [x.n EXCEPT !.rm = @ \/ act = 1 \/ (isd /\ 100 \in RangeOf(x.fins))]
                      from == {d - 200 : d \in {d \in RangeOf(x.fins) : d >= 200}} \cup (IF act = 2 THEN {dones[Len(dones)]} ELSE {})
                  IN [acc EXCEPT !.S = TLCEval([S EXCEPT !.N[id] = n1]),
                                 !.out = Put(@, id, x.out),
                                 !.vs = Append(@, <<id, x.v>>),
                                 !.zero = IF from # {} THEN Put(@, g, Min(from \cup (IF g \in DOMAIN @ THEN {@[g]} ELSE {}))) ELSE @]

\* Finishing a block: feedback edges take their values, graphs that were freed stop, time passes
FbEdges(cur) == {s \in UNION {UNION {RangeOf(cur.ein[id][c]) : c \in DOMAIN cur.ein[id]} : id \in DOMAIN cur.ein} : s[3] # 0}
Finish(acc) ==
  LET S == acc.S
      fbs == UNION {{<<g, s>> : s \in FbEdges(S.G[g].cur)} : g \in acc.run}
      FB1 == [i \in DOMAIN S.FB |-> LET m == {x \in fbs : x[2][3] = i}
                                    IN IF m = {} THEN S.FB[i]
                                       ELSE LET x == CHOOSE x \in m : TRUE IN TLCEval(SrcVal(S, acc, x[1], <<x[2][1], x[2][2], 0>>))]
      freed == DOMAIN acc.zero
  IN [S EXCEPT !.FB = FB1, !.clk = @ + S.bs,
               !.G = [g \in DOMAIN @ |-> IF g \in freed THEN [@[g] EXCEPT !.freed = TRUE] ELSE @[g]]]
Outs(acc) ==
  LET S == acc.S
  IN IF 0 \notin acc.run THEN [c \in 1..S.G[0].nout |-> [f \in 1..S.bs |-> 0]]
     ELSE LET z == Get(acc.zero, 0, S.bs)
          IN [c \in 1..S.G[0].nout |-> LET x == TLCEval(SumSrc(S, acc, 0, S.G[0].cur.eo[c])) IN [f \in 1..S.bs |-> IF f > z THEN 0 ELSE x[f]]]
StartBlock(S, ins) ==
  LET d == DrainAll([S |-> S, run |-> {}, ap |-> <<>>], <<0>>)
  IN [S |-> d.S, in |-> ins, out |-> <<>>, run |-> d.run, ap |-> d.ap, zero |-> <<>>, vs |-> <<>>, why |-> <<>>]

=============================================================================
