-------------------------------- MODULE KClock --------------------------------
(***************************************************************************)
(* The clock of a graph and changes bound to times, over long times.       *)
(* Times are counted in units of many frames (the implementation is run    *)
(* with blocks of bs * u frames), so that the clock goes beyond 2^32       *)
(* frames; thousands of blocks in which nothing happens are one step.      *)
(* The same rules as in KGraph (Drain), for one node.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Init0(e) == [bs |-> e.bs, keep |-> e.sr \div (e.bs * e.u), cap |-> e.cap, prec |-> e.prec,
             clk |-> 0, tok |-> {}, ring |-> <<>>, wait |-> <<>>]

\* a change: [p, v, tm: "none" | "at" | "after", due, tok, age]
Full(S) == Len(S.ring) >= S.cap
Sent(S, e) == IF Full(S) THEN S
              ELSE [S EXCEPT !.ring = Append(@, [p |-> e.p, v |-> e.v, tm |-> IF e.tok > 0 THEN "none" ELSE e.tm, due |-> e.tt, tok |-> e.tok, age |-> 0])]
Activated(S, t) == [S EXCEPT !.tok = @ \cup {t}]

DueIn(S, c) == CASE c.tm = "at" -> IF c.due > S.clk THEN c.due - S.clk ELSE 0
                 [] c.tm = "after" -> c.due
                 [] OTHER -> 0
Later(S, c, k) == IF c.tm = "after" THEN [c EXCEPT !.due = IF @ > k * S.bs THEN @ - k * S.bs ELSE 0] ELSE c
Open(S, c) == c.tok = 0 \/ c.tok \in S.tok
Applied(S, c) == [at |-> S.clk + DueIn(S, c), p |-> c.p, v |-> c.v]

\* WrPreciseTiming<4>: changes within the block, in the order of their frames; a change that
\* doesn't find a place is lost. Without the wrapper, all hold from the start of the block.
InsertByTime(l, x) == SelectSeq(l, LAMBDA y : y.at <= x.at) \o <<x>> \o SelectSeq(l, LAMBDA y : y.at > x.at)
Heard(S, l) ==
  IF S.prec = 1 THEN FoldLeft(LAMBDA a, x : IF x.at > S.clk /\ Cardinality({i \in 1 .. Len(a) : a[i].at > S.clk}) >= 4 THEN a ELSE InsertByTime(a, x), <<>>, l)
  ELSE [i \in 1 .. Len(l) |-> [l[i] EXCEPT !.at = S.clk]]

\* one block: [S, ap]
Block(S) ==
  LET step(acc, c, fresh) ==
        IF ~fresh /\ c.age > S.keep THEN acc
        ELSE IF Open(S, c) /\ DueIn(S, c) < S.bs THEN [acc EXCEPT !.ap = Append(@, Applied(S, c))]
        ELSE IF fresh /\ Len(acc.wait) >= S.cap THEN acc
        ELSE [acc EXCEPT !.wait = Append(@, [Later(S, c, 1) EXCEPT !.age = IF ~fresh /\ DueIn(S, c) < S.bs THEN @ + 1 ELSE @])]
      a1 == FoldLeft(LAMBDA acc, c : TLCEval(step(acc, c, FALSE)), [ap |-> <<>>, wait |-> <<>>], S.wait)
      a2 == FoldLeft(LAMBDA acc, c : TLCEval(step(acc, c, TRUE)), a1, S.ring)
  IN [S |-> [S EXCEPT !.ring = <<>>, !.wait = a2.wait, !.clk = @ + S.bs], ap |-> Heard(S, a2.ap)]

\* the number of blocks in which nothing happens but the passing of time, up to n
Idle(S, n) == IF S.ring # <<>> THEN 0
              ELSE LET m == {DueIn(S, S.wait[i]) \div S.bs : i \in 1 .. Len(S.wait)} \cup {n}
                   IN CHOOSE x \in m : \A y \in m : x <= y
Passed(S, k) == [S EXCEPT !.clk = @ + k * S.bs, !.wait = [i \in 1 .. Len(@) |-> Later(S, @[i], k)]]
RECURSIVE Blocks(_, _)
\* n blocks: [S, ap]
Blocks(S, n) ==
  IF n = 0 THEN [S |-> S, ap |-> <<>>]
  ELSE LET k == Idle(S, n)
       IN IF k > 0 THEN TLCEval(Blocks(TLCEval(Passed(S, k)), n - k))
          ELSE LET b == TLCEval(Block(S))
                   r == TLCEval(Blocks(b.S, n - 1))
               IN [S |-> r.S, ap |-> b.ap \o r.ap]
=============================================================================
