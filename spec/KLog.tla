--------------------------------- MODULE KLog ---------------------------------
(* The log channel from the audio thread (knaster_core/src/log.rs): one ring buffer of parts per   *)
(* sender.  A message is a chain of parts which ends with an End.  A message for which there is no *)
(* room is lost as a whole; what the receiver gets are whole messages, each channel's in order.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

End == <<"end">>
IsEnd(p) == p[1] = "End" \/ p[1] = "end"

\* what a value of a type becomes
Variant(k) == CASE k \in {"str"} -> "Str"
                [] k \in {"f32", "f64"} -> "Float"
                [] k \in {"u8", "u16", "u32", "u64", "usize"} -> "Unsigned"
                [] k \in {"i8", "i16", "i32", "i64"} -> "Signed"
                [] k = "secs" -> "Timestamp"
                [] k = "end" -> "End"
Part(p) == IF p[1] = "end" THEN <<"End", "End">> ELSE <<Variant(p[1]), p[2]>>
Parts(ps) == [i \in 1 .. Len(ps) |-> Part(ps[i])]

\* channels: the capacity and what is on its way
Channel(cap) == [cap |-> cap, ring |-> <<>>, name |-> "", every |-> 0, cnt |-> 0]
Init0(caps) == [i \in 1 .. Len(caps) |-> Channel(caps[i])]

\* the receiver hands out a sender for one more channel
AddSender(S, cap) == Append(S, Channel(cap))
Room(c) == c.cap - Len(c.ring)

\* a whole message, with its End
LogTo(S, s, ps) ==
  LET m == Append(Parts(ps), Part(End))
  IN IF Len(m) <= Room(S[s]) THEN [S EXCEPT ![s].ring = @ \o m] ELSE S
\* a single part
SendTo(S, s, p) == IF Room(S[s]) > 0 THEN [S EXCEPT ![s].ring = Append(@, Part(p))] ELSE S

\* A LogProbe logs its name and its input every so many frames (a second), beginning with the first
AddProbe(S, cap, name, every) == Append(S, [Channel(cap) EXCEPT !.name = name, !.every = IF every = 0 THEN 1 ELSE every])
RECURSIVE ProbeFrames(_, _, _)
ProbeFrames(S, s, vals) ==
  IF vals = <<>> THEN S
  ELSE LET c == S[s]
           S1 == IF c.cnt = 0 THEN LogTo(S, s, <<<<"str", "Probe">>, <<"str", c.name>>, <<"f64", Head(vals)>>>>) ELSE S
       IN ProbeFrames([S1 EXCEPT ![s].cnt = (@ + 1) % c.every], s, Tail(vals))

\* up to and including the last End
Ends(r) == {i \in 1 .. Len(r) : IsEnd(r[i])}
Max(X) == CHOOSE x \in X : \A y \in X : y <= x
Upto(r) == IF Ends(r) = {} THEN 0 ELSE Max(Ends(r))
Complete(r) == SubSeq(r, 1, Upto(r))
Rest(r) == SubSeq(r, Upto(r) + 1, Len(r))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RecvFrom(S) == [got |-> Concat([i \in 1 .. Len(S) |-> Complete(S[i].ring)]),
                S |-> [i \in 1 .. Len(S) |-> [S[i] EXCEPT !.ring = Rest(@)]]]

\* a sequence of parts as messages (without their Ends); it must end with an End
RECURSIVE Messages(_)
Messages(r) == IF Ends(r) = {} THEN <<>>
               ELSE LET k == CHOOSE i \in Ends(r) : \A j \in Ends(r) : i <= j
                    IN <<SubSeq(r, 1, k - 1)>> \o Messages(SubSeq(r, k + 1, Len(r)))
=============================================================================
