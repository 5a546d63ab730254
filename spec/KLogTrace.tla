---------------------------- MODULE KLogTrace ----------------------------
(* Checks histories recorded from log channels (kharness log) against KLog *)
EXTENDS KLog, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, bad, nbad
vars == <<l, S, bad, nbad>>

Okay(st) == [ok |-> TRUE, S |-> st, why |-> <<>>]
Wrong(st, why) == [ok |-> FALSE, S |-> st, why |-> why]
FirstFail(c) == LET b == {i \in 1 .. Len(c) : ~c[i][1]} IN IF b = {} THEN <<>> ELSE c[CHOOSE i \in b : \A j \in b : i <= j][2]
Judge(st, checks) == LET w == FirstFail(checks) IN IF w = <<>> THEN Okay(st) ELSE Wrong(st, w)

\* a slice holds nothing after an End
OneMessage(s) == \A i \in 1 .. Len(s) - 1 : ~IsEnd(s[i])
\* how a part is displayed: its value; times as seconds
Shown(p) == p[1] = "Timestamp" \/ p[3] = p[2]
Plain(s) == [i \in 1 .. Len(s) |-> <<s[i][1], s[i][2]>>]
RECURSIVE Subseq(_, _)
Subseq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                ELSE IF Head(a) = Head(b) THEN Subseq(Tail(a), Tail(b)) ELSE Subseq(a, Tail(b))

RecvStep(st, e) ==
  LET r == RecvFrom(st)
      got == Concat(e.got)
  IN Judge(r.S, << <<Plain(got) = r.got, <<"received", Plain(got), "specified", r.got>>>>,
                   <<\A i \in 1 .. Len(e.got) : OneMessage(e.got[i]), <<"several messages in one call", e.got>>>>,
                   <<\A i \in 1 .. Len(got) : Shown(got[i]), <<"display", got>>>> >>)

\* a sender and a receiver on two threads: what arrives are whole messages, in order
ConcStep(st, e) ==
  LET sent == [i \in 1 .. Len(e.sent) |-> Parts(e.sent[i])]
      got == Messages(Plain(Concat(e.got)))
      all == Plain(Concat(e.got))
  IN Judge(st, << <<all = <<>> \/ IsEnd(all[Len(all)]), <<"received half a message", all>>>>,
                  <<Subseq(got, sent), <<"received, on another thread", got>>>>,
                  <<\A i \in 1 .. Len(e.got) : OneMessage(e.got[i]), <<"several messages in one call", e.got>>>>,
                  <<sent = <<>> \/ Len(sent[1]) + 1 > e.cap \/ (got # <<>> /\ got[1] = sent[1]), <<"the first message is lost", got>>>>,
                  <<e.fits = 0 \/ got = sent, <<"messages are lost", got>>>> >>)

Step(st, e) ==
  CASE e.ev = "log" -> Judge(LogTo(st, e.s + 1, e.parts), <<<<e.nch = Len(st), <<"channels", e.nch>>>>>>)
    [] e.ev = "send" -> Okay(SendTo(st, e.s + 1, e.part))
    [] e.ev = "recv" -> RecvStep(st, e)
    [] e.ev = "add" -> Judge(AddSender(st, e.cap), <<<<e.nch = Len(st) + 1, <<"channels", e.nch>>>>>>)
    [] e.ev = "probe" -> Okay(AddProbe(st, e.cap, e.name, e.sr))
    [] e.ev = "blk" -> Okay(ProbeFrames(st, e.s + 1, e.vals))
    [] e.ev = "conc" -> ConcStep(st, e)
    [] e.ev = "panic" -> Wrong(st, <<"panic", e.msg, e.of>>)

Init == l = 1 /\ S = <<>> /\ bad = FALSE /\ nbad = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN IF e.ev = "reset" THEN S' = Init0(e.caps) /\ bad' = FALSE /\ UNCHANGED nbad
        ELSE IF bad THEN UNCHANGED <<S, bad, nbad>>
        ELSE LET x == TLCEval(Step(S, e))
             IN IF x.ok THEN S' = x.S /\ UNCHANGED <<bad, nbad>>
                ELSE /\ PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(e.ev) \o " " \o ToString(x.why))
                     /\ S' = S /\ bad' = TRUE /\ nbad' = nbad + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
