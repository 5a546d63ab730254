------------------------------ MODULE KGraphMC ------------------------------
(* KGraph within small bounds: TLC visits every state reachable with at most Depth events and      *)
(* checks the invariants below on each.  With EMIT = "1" it also prints one script (the events from*)
(* the start) for every transition it takes; these are replayed into the implementation.  The      *)
(* constant Mode chooses what the events are about.                                                *)
EXTENDS KGraph, Json, IOUtils

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"
VARIABLES S, h, sent, done
vars == <<S, h, sent, done>>

---------------------------------------------------------------------------------------------------
(* Events *)
TU(id, i, n, kd) == [o |-> "push", id |-> id, i |-> i, n |-> n, b |-> 7 * id * id + 3 * id, tk |-> IF id = 1 THEN 1 ELSE 0, kd |-> kd, da |-> 0]
Con(s, sc, k, kc, m) == [o |-> "con", s |-> s, sc |-> sc, k |-> k, kc |-> kc, m |-> m]
Conp(s, sc, k, p, m) == [o |-> "conp", s |-> s, sc |-> sc, k |-> k, p |-> p, pn |-> "", m |-> m]
Edit(g, ops) == [ev |-> "edit", g |-> g, ops |-> ops]
Dir(g, ops) == [ev |-> "dir", g |-> g, ops |-> ops]
Set(id, p, k, v, tm, tt, tok, via) ==
  [ev |-> "set", g |-> 0, id |-> id, p |-> p, pn |-> "", k |-> k, v |-> v, tm |-> tm, tt |-> tt, tok |-> tok, via |-> via]
Blk(st) == [ev |-> "blk", in |-> [c \in 1..st.G[0].nin |-> [f \in 1..st.bs |-> (st.clk * 3 + f * c) % 50]], raw |-> 0, mid |-> <<>>]
Act(t) == [ev |-> "act", tok |-> t]
Insp == [ev |-> "insp", g |-> 0]
Reset(nin, nout, cap) == [ev |-> "reset", bs |-> 2, sr |-> 6, nin |-> nin, nout |-> nout, cap |-> cap]
Free(id) == [o |-> "free", id |-> id]
Sub(id, i, n, ops) == [o |-> "sub", id |-> id, i |-> i, n |-> n, cap |-> 2, ops |-> ops]
ZipOp(s, sc, k, m) == IF k = 0 THEN [o |-> "outs", l |-> <<<<s, sc>>>>, ch |-> <<0>>, m |-> m]
                   ELSE [o |-> "zip", l |-> <<<<s, sc>>>>, sinks |-> <<k>>, m |-> m, via |-> "dh"]
OutsOp(id) == [o |-> "outs", l |-> <<<<id, 0>>>>, ch |-> <<>>, m |-> "to"]
NextId(st) == 1 + Cardinality(DOMAIN st.N)

\* the history every other one starts with
Start ==
  CASE Mode = "topo" -> <<Reset(1, 2, 8), Edit(0, <<TU(1, 0, 2, "plain"), TU(2, 2, 1, "plain"), TU(3, 1, 1, "plain")>>)>>
    [] Mode = "feed" -> <<Reset(1, 1, 8), Edit(0, <<TU(1, 1, 2, "plain"), TU(2, 1, 1, "plain")>>)>>
    [] Mode = "hand" -> <<Reset(1, 1, 1), Edit(0, <<TU(1, 1, 1, "plain")>>)>>
    [] Mode = "hand2" -> <<Reset(1, 1, 2), Edit(0, <<TU(1, 1, 1, "plain")>>)>>
    [] Mode = "sched" -> <<Reset(1, 1, 3), Dir(0, <<TU(1, 1, 1, "plain"), TU(2, 0, 1, "prec")>>), Edit(0, <<>>), Edit(0, <<OutsOp(1), OutsOp(2)>>)>>
    [] Mode = "tight" -> <<Reset(1, 1, 1), Dir(0, <<TU(1, 1, 1, "plain")>>), Edit(0, <<OutsOp(1)>>)>>
    [] Mode = "ar" -> <<Reset(1, 1, 8), Edit(0, <<TU(1, 0, 2, "plain"), TU(2, 0, 1, "plain"), TU(3, 1, 1, "ar")>>), Dir(0, <<Con(3, 0, 0, 0, "to")>>)>>
    [] Mode = "done" -> <<Reset(0, 1, 4), Edit(0, <<[TU(1, 0, 1, "done") EXCEPT !.da = 1], Sub(2, 1, 1, <<[TU(3, 1, 1, "done") EXCEPT !.da = 2]>>)>>),
                          Edit(2, <<OutsOp(3)>>), Edit(0, <<OutsOp(1), OutsOp(2)>>)>>
    [] Mode = "sub" -> <<Reset(1, 1, 4), Edit(0, <<TU(1, 1, 1, "plain"), Sub(2, 1, 1, <<TU(3, 1, 1, "plain")>>)>>)>>
    [] Mode = "name" -> <<Reset(0, 1, 4), Edit(0, <<TU(1, 0, 1, "plain"), TU(2, 0, 1, "plain")>>)>>

\* events possible in a state
Modes == {"to", "rep"}
Events(st) ==
  LET G == st.G[0]
      n == NextId(st)
      plain == {[o |-> "disin", k |-> k, kc |-> 0] : k \in {0, 1, 2, 3}} \cup {[o |-> "disout", s |-> s, sc |-> 0] : s \in {0, 1, 2, 3}}
  IN CASE Mode = "topo" ->
            {Edit(0, <<Free(id)>>) : id \in {1, 3}} \cup {Blk(st)}
            \cup {Dir(0, <<x>>) : x \in plain \cup {[o |-> "disin", k |-> 2, kc |-> 1], [o |-> "disout", s |-> 1, sc |-> 1]}}
            \cup {Dir(0, <<Con(s[1], s[2], k[1], k[2], m)>>) : s \in {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<3, 0>>}, k \in {<<0, 0>>, <<2, 0>>, <<2, 1>>, <<3, 0>>}, m \in Modes}
            \cup {Edit(0, <<>>)}
       [] Mode = "feed" ->
            {Edit(0, <<Free(2)>>), Blk(st), Edit(0, <<>>)}
            \cup {Dir(0, <<Con(s[1], s[2], k, 0, m)>>) : s \in {<<1, 0>>, <<1, 1>>, <<2, 0>>}, k \in {1, 2}, m \in {"to", "fb", "fbr"}}
            \cup {Dir(0, <<[o |-> "disin", k |-> k, kc |-> 0]>>) : k \in {1, 2}}
            \cup {Dir(0, <<Con(s, 0, 0, 0, "rep")>>) : s \in {1, 2}}
       [] Mode \in {"hand", "hand2"} ->
            {Blk(st), Edit(0, <<>>), Edit(0, <<ZipOp(0, 0, 1, "rep")>>)}
            \cup {Edit(0, <<Free(id)>>) : id \in G.nodes}
            \cup (IF n <= 4 THEN {Edit(0, <<TU(n, 0, 1, "plain"), OutsOp(n)>>)} ELSE {})
            \cup {Set(id, 0, "f", 5 + Len(h), "none", 0, 0, "graph") : id \in G.nodes}
       [] Mode = "sched" ->
            {Blk(st), Act(1), Act(2)} \cup {Set(x, 0, "f", 10 + Len(h), tm[1], IF tm[1] = "at" THEN st.clk + tm[2] ELSE tm[2], 0, "graph") :
                         x \in {1, 2}, tm \in {<<"none", 0>>, <<"at", 3>>, <<"at", 20>>, <<"after", 1>>, <<"after", 4>>}}
            \cup {Set(2, 1, "f", 20 + Len(h), "after", 1, 0, "graph")}
            \cup {Set(x, 0, "f", 30 + Len(h), "none", 0, t, "handle") : x \in {1, 2}, t \in {1, 2}}
       [] Mode = "tight" ->
            {Blk(st), Act(1), Set(1, 0, "f", 10 + Len(h), "none", 0, 0, "graph"), Set(1, 2, "t", 0, "after", 5, 0, "graph"),
             Set(1, 1, "f", 10 + Len(h), "none", 0, 1, "handle"), Set(1, 4, "f", 1, "none", 0, 0, "graph"),
             Edit(0, <<>>)} \cup (IF n <= 3 THEN {Edit(0, <<TU(n, 0, 1, "plain"), OutsOp(n)>>)} ELSE {})
            \cup {Set(id, 0, "f", 50 + Len(h), "none", 0, 0, "graph") : id \in G.nodes \ {1}}
       [] Mode = "ar" ->
            {Blk(st), Edit(0, <<>>)} \cup {Dir(0, <<Conp(s[1], s[2], 3, p, m)>>) : s \in {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<3, 0>>}, p \in {0, 1}, m \in Modes}
            \cup {Dir(0, <<Con(3, 0, 1, 0, "to")>>), Dir(0, <<Con(1, 0, 3, 0, "rep")>>)}
            \cup {Edit(0, <<Free(id)>>) : id \in {1, 2, 3}}
            \cup {Dir(0, <<[o |-> "disout", s |-> 1, sc |-> 1]>>), Dir(0, <<[o |-> "disout", s |-> 2, sc |-> 0]>>)}
            \cup {Set(3, p, "f", 10 + Len(h), "none", 0, 0, "graph") : p \in {0, 1}}
       [] Mode = "done" ->
            {Blk(st), Edit(0, <<>>), Edit(2, <<>>), Edit(0, <<Free(2)>>), Dir(0, <<[o |-> "mort", id |-> 1, b |-> 0]>>), Dir(0, <<[o |-> "mort", id |-> 1, b |-> 1]>>)}
            \cup {Set(1, 3, "i", v, "none", 0, 0, "graph") : v \in {0, 2}}
            \cup {[Set(3, 3, "i", v, "none", 0, 0, "graph") EXCEPT !.g = 2] : v \in {0, 1}}
            \cup {Set(1, 4, "i", v, "none", 0, 0, "graph") : v \in {0}}
            \cup (IF n <= 4 THEN {Edit(0, <<TU(n, 0, 1, "plain"), OutsOp(n)>>)} ELSE {})
       [] Mode = "sub" ->
            {Blk(st), Edit(0, <<Free(2)>>), Edit(0, <<Free(1)>>), Edit(2, <<Free(3)>>), Edit(2, <<>>)}
            \cup {Edit(0, <<ZipOp(s, 0, k, m)>>) : s \in {0, 1, 2}, k \in {0, 1, 2}, m \in {"rep"}}
            \cup {Dir(2, <<Con(s, 0, k, 0, m)>>) : s \in {0, 3}, k \in {0, 3}, m \in {"to"}}
            \cup {[Set(3, 0, "f", 10 + Len(h), "none", 0, 0, "graph") EXCEPT !.g = 2], Set(1, 0, "f", 3, "none", 0, 0, "graph")}
            \cup {Dir(0, <<Con(3, 0, 0, 0, "to")>>), Dir(2, <<Con(1, 0, 0, 0, "to")>>)}
       [] Mode = "name" ->
            {Blk(st), Edit(0, <<>>), Insp} \cup {Edit(0, <<[o |-> "name", id |-> id, nm |-> nm]>>) : id \in {1, 2}, nm \in {"x", "y"}}
            \cup {Dir(0, <<[o |-> "look", nm |-> nm]>>) : nm \in {"x"}} \cup {Dir(0, <<[o |-> "has", id |-> id]>>) : id \in {1}}
            \cup {Dir(0, <<[o |-> "mort", id |-> id, b |-> b]>>) : id \in {1, 2}, b \in {0, 1}}
            \cup {Edit(0, <<Free(id)>>) : id \in {1, 2}}

---------------------------------------------------------------------------------------------------
(* What an event does: the result of every operation follows from the state *)
Results == {"ok", "NodeNotFound", "ImmortalNode", "CircularConnection", "OutputOutOfBounds", "InputOutOfBounds", "GraphInputOutOfBounds",
            "GraphOutputOutOfBounds", "WrongSourceNodeGraph", "WrongSinkNodeGraph", "ParameterIndexOutOfBounds", "PushChangeError", "GraphWasFreed",
            "nohandle", "none", "yes", "no"}
RECURSIVE ResultOf(_, _, _), ResultsOf(_, _, _)
ResultOf(st, g, op) ==
  IF op.o = "sub" THEN
     LET S1 == [AddNode(st, g, op.id, [NodeRec(g, op.i, op.n, "sub") EXCEPT !.inner = op.id]) EXCEPT !.G = Put(@, op.id, NewGraph(op.i, op.n, g, Get(op, "cap", 16)))]
     IN ResultsOf(S1, op.id, op.ops)
  ELSE CHOOSE r \in Results \cup {ToString(id) : id \in 1..4} : Op(st, g, op, r).ok
ResultsOf(st, g, ops) ==
  IF ops = <<>> THEN <<>>
  ELSE LET r == TLCEval(ResultOf(st, g, Head(ops)))
       IN <<r>> \o ResultsOf(Op(st, g, Head(ops), r).S, g, Tail(ops))
RECURSIVE RunOrder(_)
RunOrder(acc) ==
  LET left == AllTUs(acc.S, acc, 0) \ DOMAIN acc.out
      can == {id \in left : Before(acc.S, acc, acc.S.N[id].g, id) \subseteq DOMAIN acc.out}
  IN IF left = {} THEN acc
     ELSE IF can = {} THEN [acc EXCEPT !.why = <<"no order">>]
     ELSE RunOrder(TLCEval(RunNode(acc, Min(can))))
Do(st, e) == \* [S, ok, sent: accepted changes, ap: applied changes]
  CASE e.ev \in {"edit", "dir"} ->
         LET x == Ops(st, e.g, e.ops, ResultsOf(st, e.g, e.ops))
         IN IF ~x.ok THEN [S |-> st, ok |-> FALSE, sent |-> 0, ap |-> 0]
            ELSE IF e.ev = "dir" THEN [S |-> x.S, ok |-> TRUE, sent |-> 0, ap |-> 0]
            ELSE LET c == Commit(x.S, e.g)
                     subs == {id \in c.gone : c.S.N[id].kd = "sub"}
                     must == {id \in c.gone : IsTU(c.S.N[id])}
                 IN [S |-> [c.S EXCEPT !.G = [g \in DOMAIN @ |-> IF g \in subs THEN [@[g] EXCEPT !.dead = TRUE] ELSE @[g]],
                                       !.dropped = @ \cup must], ok |-> TRUE, sent |-> 0, ap |-> 0]
    [] e.ev = "set" ->
         LET o == ResultOf(st, e.g, [o |-> "set"] @@ e)
             x == Op(st, e.g, [o |-> "set"] @@ e, o)
         IN [S |-> x.S, ok |-> x.ok, sent |-> IF o = "ok" THEN 1 ELSE 0, ap |-> 0]
    [] e.ev = "act" -> [S |-> [st EXCEPT !.tok = @ \cup {e.tok}], ok |-> TRUE, sent |-> 0, ap |-> 0]
    [] e.ev = "insp" -> [S |-> st, ok |-> TRUE, sent |-> 0, ap |-> 0]
    [] e.ev = "blk" ->
         LET acc0 == StartBlock(st, e.in)
             acc == RunOrder(acc0)
         IN [S |-> Finish(acc), ok |-> acc.why = <<>>, sent |-> 0, ap |-> SumSeq([i \in 1..Cardinality(DOMAIN acc0.ap) |-> Len(acc0.ap[SetToSeq(DOMAIN acc0.ap)[i]])])]

RECURSIVE Play(_, _)
Play(st, es) == IF es = <<>> THEN st
                ELSE IF Head(es).ev = "reset" THEN Play(Init0(Head(es)), Tail(es)) ELSE Play(TLCEval(Do(st, Head(es)).S), Tail(es))
\* what does not matter for what can happen next is left out of the comparison of states
Blur(st) ==
  IF Mode = "sched" THEN [st EXCEPT !.N = [id \in DOMAIN @ |-> [@[id] EXCEPT !.cnt = 0]]]
  ELSE [st EXCEPT !.clk = 0, !.N = [id \in DOMAIN @ |-> [@[id] EXCEPT !.cnt = 0, !.pa = 0, !.pb = 0]]]
View == <<Blur(S), IF Mode \in {"sched", "tight"} THEN Len(h) ELSE 0>>

Init == h = Start /\ S = Play(<<>>, Start) /\ sent = 0 /\ done = 0
Next ==
  /\ Len(h) < Len(Start) + Depth
  /\ \E e \in Events(S) :
       LET x == TLCEval(Do(S, e))
       IN /\ Assert(x.ok, <<"no result or no order", e>>)
          /\ S' = x.S
          /\ h' = Append(h, e)
          /\ sent' = sent + x.sent /\ done' = done + x.ap
          /\ ~Emit \/ PrintT(ToJson(h'))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------------------------------
(* Invariants, for every graph g *)
\* P-acyclic: without its feedback connections a graph has no cycles
Acyclic == \A g \in DOMAIN S.G : \A id \in S.G[g].nodes : id \notin Ancestors(S.G[g], {s[1] : s \in DirectSources(S.G[g], id)})
\* P-valid: connections only between what exists
EdgesExist ==
  \A g \in DOMAIN S.G : LET G == S.G[g] IN
    /\ DOMAIN G.ein = G.nodes /\ DOMAIN G.ep = G.nodes
    /\ \A s \in UNION {UNION {RangeOf(G.ein[id][c]) : c \in DOMAIN G.ein[id]} : id \in G.nodes} \cup UNION {RangeOf(G.eo[c]) : c \in DOMAIN G.eo}
                \cup UNION {UNION {RangeOf(G.ep[id][p]) : p \in DOMAIN G.ep[id]} : id \in G.nodes} :
         IF s[1] = 0 THEN s[2] < G.nin ELSE s[1] \in G.nodes /\ s[2] < S.N[s[1]].n
\* P-lifetime: what the audio thread uses, or is about to use, has not been reclaimed
NoUseAfterFree ==
  \A g \in DOMAIN S.G : LET G == S.G[g] IN
    ~G.dead => /\ G.cur.ids \cap S.dropped = {}
               /\ \A i \in 1..Len(G.q) : G.q[i].ids \cap S.dropped = {}
               /\ G.nodes \cap S.dropped = {}
\* P-lifetime: nodes are alive, on their way out, or reclaimed
Accounted ==
  \A id \in DOMAIN S.N : LET G == S.G[S.N[id].g] IN
    Cardinality({x \in {"alive", "pending", "gone"} :
       CASE x = "alive" -> id \in G.nodes
         [] x = "pending" -> \E p \in G.pend : p[1] = id
         [] x = "gone" -> id \notin G.nodes /\ ~\E p \in G.pend : p[1] = id}) = 1
\* P-handoff: at most as many edits under way as the channel holds; the audio thread's version is
\* never newer than what was sent, and what waits in the channel is newer than what it uses
Versions ==
  \A g \in DOMAIN S.G : LET G == S.G[g] IN
    /\ Len(G.q) <= G.cap
    /\ \A i \in 1..Len(G.q) : G.q[i].v = G.ver - (Len(G.q) - i) - 1
    /\ (G.q # <<>> => G.cur.v < G.q[1].v)
    /\ G.cur.v < G.ver
    \* everything that isn't under way is what the control side shows
    /\ (~G.dirty => LET last == IF G.q = <<>> THEN G.cur ELSE G.q[Len(G.q)]
                    IN G.ver = 1 \/ (last.ids = G.nodes /\ last.ein = G.ein /\ last.ep = G.ep /\ last.eo = G.eo))
\* P-sched: no change is lost or applied twice while there is room
Waiting == SumSeq([i \in 1..Cardinality(DOMAIN S.G) |-> LET g == SetToSeq(DOMAIN S.G)[i] IN Len(S.G[g].ring) + Len(S.G[g].wait)])
Conserved == Mode \notin {"sched", "tight", "hand", "hand2", "sub", "done"} => sent = done + Waiting
NeverTwice == done + Waiting <= sent
RingBound == \A g \in DOMAIN S.G : Len(S.G[g].ring) <= S.G[g].cap /\ Len(S.G[g].wait) <= S.G[g].cap
\* P-feedback: feedback connections come from what exists
Safe == Acyclic /\ EdgesExist /\ NoUseAfterFree /\ Accounted /\ Versions /\ Conserved /\ NeverTwice /\ RingBound
=============================================================================
