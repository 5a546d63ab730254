------------------------------- MODULE KLogMC -------------------------------
(* KLog within small bounds; see KUGenMC for Mode, Depth and Emit *)
EXTENDS KLog, Json, IOUtils

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"
VARIABLES S, h, sent, gotten
vars == <<S, h, sent, gotten>>

Reset(caps) == [ev |-> "reset", caps |-> caps]
Starts == CASE Mode = "one" -> {Reset(<<c>>) : c \in 1 .. 4}
            [] Mode = "raw" -> {Reset(<<c>>) : c \in 1 .. 3}
            [] Mode = "two" -> {Reset(<<2, 3>>), Reset(<<4, 1>>)}
            [] Mode = "probe" -> {Reset(<<>>)}
            [] Mode = "add" -> {Reset(<<>>), Reset(<<2>>)}
A == <<"u8", "7">>
B == <<"str", "b">>
Msgs == {<<>>, <<A>>, <<A, B>>}
Log(s, m) == [ev |-> "log", s |-> s, parts |-> m]
Send(s, p) == [ev |-> "send", s |-> s, part |-> p]
Recv == [ev |-> "recv"]
Add(c) == [ev |-> "add", cap |-> c]
Probe(c, sr) == [ev |-> "probe", cap |-> c, name |-> "p", sr |-> sr, bs |-> 2]
Blk(s, vals) == [ev |-> "blk", s |-> s, vals |-> vals]
Events(st) ==
  IF Mode = "probe" THEN
     IF st = <<>> THEN {Probe(c, sr) : c \in {3, 4, 8, 12}, sr \in 1 .. 3}
     ELSE {Recv} \cup {Blk(0, vals) : vals \in {<<"1">>, <<"2", "3">>, <<>>}}
  ELSE
  {Recv} \cup {Log(s, m) : s \in 0 .. Len(st) - 1, m \in Msgs}
  \cup (IF Mode = "raw" THEN {Send(0, p) : p \in {A, End}} ELSE {})
  \cup (IF Mode = "add" /\ Len(st) < 3 THEN {Add(2)} ELSE {})

Do(st, e) == CASE e.ev = "log" -> LogTo(st, e.s + 1, e.parts)
               [] e.ev = "send" -> SendTo(st, e.s + 1, e.part)
               [] e.ev = "recv" -> RecvFrom(st).S
               [] e.ev = "add" -> AddSender(st, e.cap)
               [] e.ev = "probe" -> AddProbe(st, e.cap, e.name, e.sr)
               [] e.ev = "blk" -> ProbeFrames(st, e.s + 1, e.vals)

Init == h \in {<<r>> : r \in Starts} /\ S = Init0(h[1].caps) /\ sent = [k \in 1 .. 3 |-> <<>>] /\ gotten = <<>>
Next ==
  /\ Len(h) < 1 + Depth
  /\ \E e \in Events(S) :
       /\ S' = TLCEval(Do(S, e))
       /\ h' = Append(h, e)
       /\ sent' = IF e.ev = "log" /\ Len(e.parts) < Room(S[e.s + 1]) THEN [sent EXCEPT ![e.s + 1] = Append(@, Parts(e.parts))] ELSE sent
       /\ gotten' = IF e.ev = "recv" THEN gotten \o Messages(RecvFrom(S).got) ELSE gotten
       /\ ~Emit \/ PrintT(ToJson(h'))
Spec == Init /\ [][Next]_vars
View == <<S, sent, gotten>>

\* never more than fits; the receiver leaves no whole message behind
Fits == \A i \in 1 .. Len(S) : Len(S[i].ring) <= S[i].cap
Left == (Len(h) > 1 /\ h[Len(h)].ev = "recv") => \A i \in 1 .. Len(S) : Ends(S[i].ring) = {}
\* what was accepted is what was received and what is on its way, in order (by sender)
Range(s) == {s[i] : i \in 1 .. Len(s)}
OnTheWay == Concat([i \in 1 .. Len(S) |-> Messages(S[i].ring)])
Nothing == Mode \notin {"raw", "probe"} =>
             /\ Len(gotten) + Len(OnTheWay) = Len(sent[1]) + Len(sent[2]) + Len(sent[3])
             /\ Mode = "one" => gotten \o OnTheWay = sent[1]
             /\ \A i \in 1 .. Len(S) : Rest(S[i].ring) = <<>>
\* a probe with a channel which is emptied in time logs the first frame of every second
Frames == Concat([i \in 1 .. Len(h) |-> IF h[i].ev = "blk" THEN h[i].vals ELSE <<>>])
Probed == (Mode = "probe" /\ S # <<>> /\ S[1].cap = 12 /\ Len(Frames) <= 3 * S[1].every) =>
            gotten \o OnTheWay = [k \in 1 .. (Len(Frames) + S[1].every - 1) \div S[1].every |-> Parts(<<<<"str", "Probe">>, <<"str", "p">>, <<"f64", Frames[(k - 1) * S[1].every + 1]>>>>)]
\* with whole messages only, the channel can always be emptied: it never gets stuck
NeverStuck == Mode # "raw" => \A i \in 1 .. Len(S) : Len(RecvFrom(S).S[i].ring) = 0
=============================================================================
