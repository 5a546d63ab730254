------------------------------- MODULE KClockMC -------------------------------
(* KClock within small bounds; see KUGenMC for Mode, Depth and Emit *)
EXTENDS KClock, Json, IOUtils

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"
VARIABLES S, h, made, got
vars == <<S, h, made, got>>

\* keep = 44100 \div (3 * 4099) = 3 blocks
Reset(p, s) == [ev |-> "reset", u |-> 4099, bs |-> 3, sr |-> 44100, cap |-> 8, prec |-> p, sub |-> s]
Starts == CASE Mode = "whole" -> {Reset(0, 0)}
            [] Mode = "prec" -> {Reset(1, 0)}
            [] Mode = "sub" -> {Reset(1, 1)}
            [] Mode = "tok" -> {Reset(0, 0)}
Long == 701
\* every change has its own value
Sets == LET v == Len(made) + 1
            s(tm, tt, tok) == [ev |-> "set", p |-> v % 2, v |-> v, tm |-> tm, tt |-> tt, tok |-> tok]
        IN IF Mode = "tok" THEN {s("none", 0, 1), s("none", 0, 0), s("after", 2 * Long, 0)}
           ELSE {s("none", 0, 0)} \cup {s("at", t, 0) : t \in {1, 5, 3 * Long, 3 * Long + 7}} \cup {s("after", t, 0) : t \in {2, 3 * Long + 1}}
Events(st) == {[ev |-> "blk", n |-> n] : n \in {1, 2, Long}} \cup (IF Len(made) < 3 THEN Sets ELSE {})
              \cup (IF Mode = "tok" THEN {[ev |-> "act", tok |-> 1]} ELSE {})
Do(st, e) == CASE e.ev = "set" -> Sent(st, e)
               [] e.ev = "act" -> Activated(st, e.tok)
               [] e.ev = "blk" -> Blocks(st, e.n).S

Init == h \in {<<r>> : r \in Starts} /\ S = Init0(h[1]) /\ made = <<>> /\ got = <<>>
Next ==
  /\ Len(h) <= Depth
  /\ \E e \in Events(S) :
       /\ S' = TLCEval(Do(S, e))
       /\ h' = Append(h, e)
       /\ made' = IF e.ev = "set" THEN Append(made, [tok |-> e.tok, T |-> IF e.tm = "after" THEN S.clk + e.tt ELSE IF e.tt > S.clk THEN e.tt ELSE S.clk]) ELSE made
       /\ got' = IF e.ev = "blk" THEN got \o Blocks(S, e.n).ap ELSE got
       /\ ~Emit \/ PrintT(ToJson(h'))
Spec == Init /\ [][Next]_vars
View == <<S, made, got>>

\* changes are applied at their time: in their exact frame with precise timing, or else from the
\* start of the block which contains it; and none is forgotten, or applied twice
InTime == \A i \in 1 .. Len(got) : LET m == made[got[i].v]
                                   IN IF m.tok > 0 THEN got[i].at >= m.T ELSE got[i].at = IF S.prec = 1 THEN m.T ELSE (m.T \div S.bs) * S.bs
Once == \A i, j \in 1 .. Len(got) : got[i].v = got[j].v => i = j
All == \A k \in 1 .. Len(made) : (made[k].tok = 0 /\ made[k].T < S.clk) => \E i \in 1 .. Len(got) : got[i].v = k
Order == \A i, j \in 1 .. Len(got) : i < j => got[i].at <= got[j].at
\* a change whose token isn't activated is forgotten in the end
Forgotten == \A i \in 1 .. Len(S.wait) : S.wait[i].age <= S.keep + 1
=============================================================================
