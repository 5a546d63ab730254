----------------------------- MODULE KClockTrace -----------------------------
(* Checks histories recorded from long runs (kharness clock) against KClock *)
EXTENDS KClock, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, bad, nbad
vars == <<l, S, bad, nbad>>

Okay(st) == [ok |-> TRUE, S |-> st, why |-> <<>>]
Wrong(st, why) == [ok |-> FALSE, S |-> st, why |-> why]
FirstFail(c) == LET b == {i \in 1 .. Len(c) : ~c[i][1]} IN IF b = {} THEN <<>> ELSE c[CHOOSE i \in b : \A j \in b : i <= j][2]
Judge(st, checks) == LET w == FirstFail(checks) IN IF w = <<>> THEN Okay(st) ELSE Wrong(st, w)

BlkStep(st, e) ==
  LET b == Blocks(st, e.n)
      ap == [i \in 1 .. Len(b.ap) |-> <<b.ap[i].at, b.ap[i].p, b.ap[i].v>>]
  IN Judge(b.S, << <<e.spans = IF e.n = 0 THEN <<>> ELSE <<<<st.clk, b.S.clk>>>>, <<"frames processed", e.spans, "specified", st.clk, b.S.clk>>>>,
                   <<e.ap = ap, <<"changes", e.ap, "specified", ap>>>>,
                   <<e.left = 0, <<"changes without a frame", e.left>>>>,
                   <<e.n = 0 \/ e.clk = b.S.clk, <<"shared clock", e.clk, "specified", b.S.clk>>>>,
                   <<e.n = 0 \/ e.hnd = b.S.clk, <<"clock of the handle", e.hnd, "specified", b.S.clk>>>> >>)

Step(st, e) ==
  CASE e.ev = "set" -> Judge(Sent(st, e), <<<<e.r = IF Full(st) THEN "err" ELSE "ok", <<"set", e.r>>>>>>)
    [] e.ev = "act" -> Okay(Activated(st, e.tok))
    [] e.ev = "blk" -> BlkStep(st, e)
    [] e.ev = "panic" -> Wrong(st, <<"panic", e.msg, e.of>>)

Init == l = 1 /\ S = [clk |-> 0] /\ bad = FALSE /\ nbad = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN IF e.ev = "reset" THEN S' = Init0(e) /\ bad' = FALSE /\ UNCHANGED nbad
        ELSE IF bad THEN UNCHANGED <<S, bad, nbad>>
        ELSE LET x == TLCEval(Step(S, e))
             IN IF x.ok THEN S' = x.S /\ UNCHANGED <<bad, nbad>>
                ELSE /\ PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(e.ev) \o " " \o ToString(x.why))
                     /\ S' = S /\ bad' = TRUE /\ nbad' = nbad + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
