---------------------------- MODULE KGraphTrace ----------------------------
(* Checks histories recorded from the implementation (one JSON object per line, see harness/)      *)
(* against KGraph.  Every line is one step; a line which KGraph does not allow is printed, and the *)
(* rest of that history (up to the next reset) is skipped.                                         *)
EXTENDS KGraph, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, bad, nbad
vars == <<l, S, bad, nbad>>

NoDup(s) == Cardinality(RangeOf(s)) = Len(s)
Judge(st, checks) == LET w == FirstFail(checks) IN IF w = <<>> THEN Okay(st) ELSE Wrong(st, w)

\* test UGens whose initialisation an operation triggers, in order
RECURSIVE Pushes(_, _)
Pushes(ops, rs) ==
  IF ops = <<>> THEN <<>>
  ELSE LET op == Head(ops)
           r == Head(rs)
           here == CASE op.o = "push" -> <<op.id>>
                     [] op.o = "linkpush" /\ r = "ok" -> <<op.id>>
                     [] op.o = "sub" -> Pushes(op.ops, r)
                     [] OTHER -> <<>>
       IN here \o Pushes(Tail(ops), Tail(rs))

\* A graph is dead when its node has been reclaimed, or lies within a dead graph.
\* Test UGens inside of a dead graph, or of one whose control side is gone, can go at any time.
RECURSIVE InDead(_, _)
InDead(st, g) == st.G[g].dead \/ ~st.G[g].handle \/ (st.G[g].par >= 0 /\ InDead(st, st.G[g].par))
Loose(st) == {id \in DOMAIN st.N : IsTU(st.N[id]) /\ InDead(st, st.N[id].g)}

\* Effects of a commit on graph g, and what was observed of it
CommitStep(st, e, pushes) ==
  LET c == Commit(st, e.g)
      subs == {id \in c.gone : c.S.N[id].kd = "sub"}
      S1 == [c.S EXCEPT !.G = [g \in DOMAIN @ |-> IF g \in subs THEN [@[g] EXCEPT !.dead = TRUE] ELSE @[g]]]
      must == {id \in c.gone : IsTU(c.S.N[id])} \ st.dropped
      d == RangeOf(e.drops)
  IN Judge([S1 EXCEPT !.dropped = @ \cup d],
      <<<<Off("life") \/ (NoDup(e.drops) /\ d \cap st.dropped = {}), <<"dropped twice", e.drops>>>>,
        <<Off("life") \/ must \subseteq d, <<"not reclaimed", must \ d>>>>,
        <<Off("life") \/ d \subseteq must \cup Loose(S1), <<"dropped too early", d \ must>>>>,
        <<Off("init") \/ e.inits = [i \in 1..Len(pushes) |-> <<pushes[i], st.sr, st.bs>>], <<"initialised", e.inits, pushes>>>> >>)
Quiet(st, e) ==
  LET d == RangeOf(e.drops)
  IN Judge([st EXCEPT !.dropped = @ \cup d],
      <<<<Off("life") \/ (NoDup(e.drops) /\ d \cap st.dropped = {}), <<"dropped twice", e.drops>>>>,
        <<Off("life") \/ d \subseteq Loose(st), <<"dropped too early", e.drops>>>> >>)

DirStep(st, e) ==
  LET x == Ops(st, e.g, e.ops, e.rs)
      pushes == Pushes(e.ops, e.rs)
  IN IF ~x.ok THEN x
     ELSE IF ~Off("init") /\ e.inits # [i \in 1..Len(pushes) |-> <<pushes[i], st.sr, st.bs>>] THEN Wrong(st, <<"initialised", e.inits, pushes>>)
     ELSE Quiet(x.S, e)

SetStep(st, e) ==
  LET op == e
      via == Get(e, "via", "graph")
      errs == IF via = "graph" THEN SetErrs(st, e.g, op)
              ELSE IF op.id \notin DOMAIN st.N THEN {"nonode"}
              ELSE IF ParamIx(st.N[op.id], op) < 0 THEN ParamErr(op) \cup {"noparam"} ELSE {}
      x == IF errs # {} THEN
              IF e.r \in errs \cup (IF Pending(st, e.g, op.id) THEN SendErrs(st, e.g) ELSE {}) THEN Okay(st)
              ELSE IF e.r = "ok" /\ errs = {"NodeNotFound"} /\ Pending(st, e.g, op.id) /\ SendErrs(st, e.g) = {} /\ ParamIx(st.N[op.id], op) >= 0
                   THEN Okay(Send(st, e.g, Event(st, op)))
                   ELSE Wrong(st, <<"set", e.r, errs>>)
           ELSE Either(st, e.r, SendErrs(st, e.g), Send(st, e.g, Event(st, op)), op)
  IN IF x.ok THEN Quiet(x.S, e) ELSE x

\* several changes at once: those that are refused have no effect
RECURSIVE SetMany(_, _, _, _)
SetMany(st, g, ch, e) ==
  IF ch = <<>> THEN st
  ELSE LET op == [tm |-> e.tm, tt |-> e.tt] @@ Head(ch)
           r == IF SetErrs(st, g, op) = {} /\ SendErrs(st, g) = {} THEN Send(st, g, Event(st, op)) ELSE st
       IN SetMany(TLCEval(r), g, Tail(ch), e)

\* Inspection: edges with automatically added sum and feedback nodes folded away
RECURSIVE Flat(_, _)
Flat(obs, s) ==
  IF s[1] >= 0 THEN <<<<s[1], s[2]>>>>
  ELSE LET ns == {n \in RangeOf(obs.nodes) : n.id = s[1]}
       IN IF ns = {} THEN <<<<-3, 0>>>>
          ELSE LET n == CHOOSE n \in ns : TRUE
               IN IF n.i = 2 /\ n.n = 1 THEN FlattenSeq([j \in 1..Len(n.e) |-> Flat(obs, n.e[j])])
                  ELSE IF n.i = 0 THEN <<<<-1, 0>>>> ELSE <<<<-2, 0>>>>
EdgesTo(obs, e, c) == FlattenSeq([j \in 1..Len(SelectSeq(e, LAMBDA x : x[3] = c)) |-> Flat(obs, SelectSeq(e, LAMBDA x : x[3] = c)[j])])
\* The same for the sources of the specification, whose nodes of arithmetic on handles carry no name either
RECURSIVE Fold(_, _, _)
Fold(st, G, srcs) ==
  FlattenSeq([j \in 1..Len(srcs) |->
    LET s == srcs[j] IN
    IF s[3] # 0 THEN <<<<-1, 0>>>>
    ELSE IF s[1] = 0 THEN <<<<s[1], s[2]>>>>
    ELSE CASE st.N[s[1]].kd = "math" -> Fold(st, G, G.ein[s[1]][1]) \o Fold(st, G, G.ein[s[1]][2])
           [] st.N[s[1]].kd = "mathc" -> Fold(st, G, G.ein[s[1]][1]) \o <<<<-1, 0>>>>
           [] OTHER -> <<<<s[1], s[2]>>>>])
Position(obs, id) == CHOOSE i \in 1..Len(obs.nodes) : obs.nodes[i].id = id
InspStep(st, e) ==
  LET G == st.G[e.g]
      obs == e.obs
      ids == {obs.nodes[i].id : i \in 1..Len(obs.nodes)}
      node(id) == obs.nodes[Position(obs, id)]
      reach == Ancestors(G, {s[1] : s \in {s \in UNION {RangeOf(G.eo[c]) : c \in DOMAIN G.eo} : s[1] # 0}})
      fbs == FbEdges(G) # {}
      nodes == {id \in G.nodes : st.N[id].kd \notin {"math", "mathc"}}
  IN IF G.dirty \/ Off("insp") THEN Okay(st)
     ELSE LET x == Judge(st,
      <<<<obs.i = G.nin /\ obs.n = G.nout, <<"inspection: channels">>>>,
        <<Cardinality(ids) = Len(obs.nodes), <<"inspection: a node twice">>>>,
        <<{id \in ids : id >= 0} = nodes, <<"inspection: nodes", ids, nodes>>>> >>)
          IN IF ~x.ok THEN x
             ELSE Judge(st,
      <<<<\A id \in nodes : node(id).i = st.N[id].i /\ node(id).n = st.N[id].n, <<"inspection: channels of nodes">>>>,
        <<\A id \in nodes : \A c \in 1..st.N[id].i : SameBag(EdgesTo(obs, node(id).e, c - 1), Fold(st, G, G.ein[id][c])), <<"inspection: edges", G.ein>>>>,
        <<\A c \in 1..G.nout : SameBag(EdgesTo(obs, obs.oe, c - 1), Fold(st, G, G.eo[c])), <<"inspection: output edges", obs.oe, G.eo>>>>,
        <<\A id \in nodes : node(id).pd = ParamNames(st.N[id]) /\ node(id).nh = NumParams(st.N[id]), <<"inspection: parameters">>>>,
        <<\A id \in nodes : st.N[id].nm = "" \/ node(id).nm = st.N[id].nm, <<"inspection: names">>>>,
        \* what was added for feedback and sums is gone with the connections that needed it
        <<fbs \/ {id \in ids : id < 0 /\ node(id).n = 0} = {}, <<"inspection: feedback left behind">>>>,
        <<(\E id \in G.nodes : st.N[id].kd \in {"math", "mathc"}) \/ (\E id \in DOMAIN G.ep : \E p \in DOMAIN G.ep[id] : G.ep[id][p] # <<>>)
          \/ \A id \in {id \in ids : id < 0 /\ node(id).n = 1} :
               (\E m \in ids : \E j \in 1..Len(node(m).e) : node(m).e[j][1] = id) \/ (\E j \in 1..Len(obs.oe) : obs.oe[j][1] = id),
         <<"inspection: a sum or feedback that leads nowhere">>>>,
        <<(\E id \in G.nodes : st.N[id].kd \in {"math", "mathc"}) \/ \A id \in {id \in ids : id < 0 /\ node(id).i = 2} : Len(node(id).e) = 2,
         <<"inspection: a sum of less than two">>>>,
        <<fbs \/ \A id \in nodes : (node(id).un = 1) = (id \notin reach), <<"inspection: unconnected">>>>,
        <<\A id \in nodes : \A s \in {s \in DirectSources(G, id) : s[1] \in nodes} : Position(obs, s[1]) < Position(obs, id), <<"inspection: order">>>> >>)

RECURSIVE Control(_, _), EditStep(_, _), EditOps(_, _, _, _), BlockStep(_, _), RunAll(_, _, _, _)
\* An edit: its operations, then what the commit sends.  Blocks which are produced while it is made
\* (operation "blk", whose result is the block) see nothing of it, apart from changes of parameters.
EditOps(st, g, ops, rs) ==
  LET bl == {i \in 1..Len(ops) : ops[i].o = "blk"}
  IN IF bl = {} \/ Len(rs) # Len(ops) THEN Ops(st, g, ops, rs)
     ELSE LET i == Min(bl)
              x == Ops(st, g, SubSeq(ops, 1, i - 1), SubSeq(rs, 1, i - 1))
              y == IF x.ok THEN TLCEval(BlockStep(x.S, rs[i])) ELSE x
          IN IF y.ok THEN EditOps(y.S, g, SubSeq(ops, i + 1, Len(ops)), SubSeq(rs, i + 1, Len(rs))) ELSE y
EditStep(st, e) ==
  LET x == EditOps(st, e.g, e.ops, e.rs)
  IN IF x.ok THEN CommitStep(x.S, e, Pushes(e.ops, e.rs)) ELSE x
Control(st, e) ==
  CASE e.ev = "edit" -> EditStep(st, e)
    [] e.ev = "dir" -> DirStep(st, e)
    [] e.ev = "set" -> SetStep(st, e)
    [] e.ev = "many" -> Quiet(SetMany(st, e.g, e.ch, e), e)
    [] e.ev = "act" -> Quiet([st EXCEPT !.tok = @ \cup {e.tok}], e)
    [] e.ev = "insp" -> LET x == InspStep(st, e) IN IF x.ok THEN Quiet(x.S, e) ELSE x
    [] e.ev = "dropg" -> Quiet([st EXCEPT !.G[e.g].handle = FALSE], e)
    [] e.ev = "alive" -> IF e.r = (IF st.G[st.N[e.id].g].dead THEN "no" ELSE "yes") THEN Quiet(st, e) ELSE Wrong(st, <<"alive", e>>)

\* A block on the audio thread
RunAll(acc, runs, mids, i) ==
  IF acc.why # <<>> THEN acc
  ELSE IF mids # <<>> /\ Head(mids).after = i - 1 /\ i > 1 THEN
     LET x == Control(acc.S, Head(mids))
     IN RunAll(IF x.ok THEN [acc EXCEPT !.S = x.S] ELSE [acc EXCEPT !.why = x.why], runs, Tail(mids), i)
  ELSE IF i > Len(runs) THEN acc
  \* the operations inside of a node's processing come before what its completion causes
  ELSE RunAll(TLCEval(RunNode(acc, runs[i].id)), runs, mids, i + 1)
\* Operations that happen while node `runs[i]` processes are recorded with after = i: the node has
\* been recorded, but its completion has not taken effect.  Completion with a done action and an
\* operation inside of the same node do not occur together in the scripts.
Called(st, e) ==
  \A id \in {e.calls[i][1] : i \in 1..Len(e.calls)} :
    LET cs == SelectSeq(e.calls, LAMBDA c : c[1] = id)
    IN /\ \A i \in 1..Len(cs) : cs[i][2] = st.clk + cs[i][3] /\ cs[i][4] > 0
                                /\ cs[i][3] = (IF i = 1 THEN 0 ELSE cs[i - 1][3] + cs[i - 1][4])
       /\ cs[Len(cs)][3] + cs[Len(cs)][4] = st.bs
       /\ (st.N[id].kd \notin PrecKinds => Len(cs) = 1)
\* parameter changes as they reached the test UGens; those driven at audio rate are applied for
\* every frame, which is judged by the values that come out
ApOf(st, acc, id) ==
  LET n == st.N[id]
      cur == acc.S.G[n.g].cur
  IN SelectSeq(Heard(n, cur, id, Changes(n, cur, id, acc.ap[n.g])), LAMBDA a : a.p < 4)
Applied(st, acc, e) ==
  LET ids == {e.ap[i][1] : i \in 1..Len(e.ap)} \cup UNION {{acc.ap[g][i].id : i \in 1..Len(acc.ap[g])} : g \in DOMAIN acc.ap}
  IN \A id \in {id \in ids : st.N[id].kd \notin ArKinds \cup {"sub"}} :
       LET seen == SelectSeq(e.ap, LAMBDA a : a[1] = id)
           want == ApOf(st, acc, id)
       IN seen = [i \in 1..Len(want) |-> <<id, want[i].p, want[i].k, IF want[i].k = "t" THEN 0 ELSE want[i].v>>]
BlockStep(st, e) ==
  LET acc0 == StartBlock(st, e.in)
      acc == RunAll(acc0, e.runs, e.mids, 1)
  IN IF acc.why # <<>> THEN Wrong(st, acc.why)
     ELSE LET all == AllTUs(acc.S, acc0, 0)
              x == Judge(acc.S,
      <<<<all = DOMAIN acc.out, <<"did not run", all \ DOMAIN acc.out>>>>,
        <<\A i \in 1..Len(e.runs) : e.runs[i].v = acc.vs[i][2], <<"inputs of nodes", e.runs, "expected", acc.vs>>>>,
        <<e.outs = Outs(acc), <<"output", e.outs, "expected", Outs(acc)>>>>,
        <<Applied(acc0.S, acc, e), <<"parameter changes", e.ap, "expected", acc.ap>>>>,
        <<Off("shape") \/ Called(acc0.S, e), <<"calls", e.calls, st.clk>>>>,
        <<Off("alloc") \/ (e.al = 0 /\ e.fr = 0), <<"allocations, deallocations on the audio thread", e.al, e.fr>>>>,
        <<Off("alloc") \/ e.drops = <<>>, <<"dropped on the audio thread", e.drops>>>>,
        <<Off("shape") \/ e.bad = <<>>, <<"block shape", e.bad>>>>,

        <<Off("clock") \/ e.clk = -1 \/ e.clk = st.clk + st.bs, <<"clock", e.clk>>>> >>)
          IN IF x.ok THEN Okay(Finish([acc EXCEPT !.S = x.S])) ELSE x

EndStep(st, e) ==
  LET d == RangeOf(e.drops)
      all == {id \in DOMAIN st.N : IsTU(st.N[id])}
  IN Judge([st EXCEPT !.dropped = all],
      <<<<Off("life") \/ (NoDup(e.drops) /\ d \cap st.dropped = {}), <<"dropped twice", e.drops>>>>,
        <<Off("life") \/ d \cup st.dropped = all, <<"leaked", (all \ st.dropped) \ d>>>> >>)

Step(st, e) ==
  CASE e.ev = "blk" -> BlockStep(st, e)
    [] e.ev = "end" -> EndStep(st, e)
    [] e.ev = "panic" -> Wrong(st, <<"panic", e.msg, e.of>>)
    [] OTHER -> Control(st, e)

Init == l = 1 /\ S = <<>> /\ bad = FALSE /\ nbad = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN IF e.ev = "reset" THEN S' = Init0(e) /\ bad' = FALSE /\ UNCHANGED nbad
        ELSE IF bad THEN UNCHANGED <<S, bad, nbad>>
        ELSE LET x == TLCEval(Step(S, e))
             IN IF x.ok THEN S' = x.S /\ UNCHANGED <<bad, nbad>>
                ELSE /\ PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(e.ev) \o " " \o ToString(x.why))
                     /\ S' = S /\ bad' = TRUE /\ nbad' = nbad + 1
Spec == Init /\ [][Next]_vars
\* every line was consumed and none was refused
Accepted == nbad = 0
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
