------------------------------- MODULE KBlockMC -------------------------------
(* KBlock within small bounds; see KUGenMC for Mode, Depth and Emit *)
EXTENDS KBlock, Json, IOUtils

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"
VARIABLES S, h
vars == <<S, h>>

Rows(chans, size) == [c \in 1 .. chans |-> [f \in 1 .. size |-> 10 * c + f]]
Starts == {[ev |-> "reset", kind |-> Mode, ch |-> c, bs |-> n, rows |-> Rows(c, n)] : c \in {1, 2}, n \in {2, 3}}
Stored(e) == IF e.kind \in {"vec", "static"} THEN Zero(e.ch, e.bs) ELSE e.rows
Chans(s) == 0 .. s.ch - 1
Frames(s) == 0 .. Size(s) - 1
Events(s) ==
  {[ev |-> "slice", c |-> c] : c \in Chans(s)}
  \cup {[ev |-> "read", c |-> s.ch - 1, f |-> f] : f \in Frames(s)}
  \cup (IF Len(s.views) < 3 THEN {[ev |-> "window", off |-> o, len |-> n, w |-> w] : o \in 0 .. Size(s), n \in 0 .. Size(s), w \in (IF Writable(s) THEN {0, 1} ELSE {0})} ELSE {})
  \cup (IF s.views # <<>> THEN {[ev |-> "back"]} ELSE {})
  \cup (IF ~Writable(s) THEN {}
        ELSE {[ev |-> "write", c |-> c, f |-> f, v |-> 5] : c \in Chans(s), f \in Frames(s)}
             \cup {[ev |-> "fill", c |-> c, vs |-> [f \in 1 .. Size(s) |-> 7]] : c \in Chans(s)}
             \cup {[ev |-> "iter", rows |-> [c \in 1 .. s.ch |-> [f \in 1 .. Size(s) |-> 8 + c]]]})
Valid(s, e) == IF e.ev = "window" THEN e.off + e.len <= Size(s) ELSE TRUE
Do(s, e) == CASE e.ev = "write" -> Write(s, e.c, e.f, e.v)
              [] e.ev = "fill" -> Fill(s, e.c, e.vs)
              [] e.ev = "iter" -> FillAll(s, e.rows)
              [] e.ev = "window" -> Window(s, e.off, e.len, e.w # 0)
              [] e.ev = "back" -> Back(s)
              [] OTHER -> s
\* frames outside of the window
Outside(s, g) == g <= Off(s.views) \/ g > Off(s.views) + Size(s)
Sound(s, e, t) ==
  /\ \A c \in 1 .. s.ch : Len(t.data[c]) = s.bs
  /\ e.ev \in {"write", "fill", "iter"} => \A c \in 1 .. s.ch : \A g \in 1 .. s.bs : Outside(s, g) => t.data[c][g] = s.data[c][g]
  /\ CASE e.ev = "write" -> /\ Read(t, e.c, e.f) = e.v
                            /\ \A c \in Chans(s) : \A f \in Frames(s) : <<c, f>> # <<e.c, e.f>> => Read(t, c, f) = Read(s, c, f)
       [] e.ev = "fill" -> Slice(t, e.c) = e.vs /\ \A c \in Chans(s) \ {e.c} : Slice(t, c) = Slice(s, c)
       [] e.ev = "iter" -> All(t) = e.rows
       [] e.ev = "window" -> \A c \in Chans(s) : Slice(t, c) = SubSeq(Slice(s, c), e.off + 1, e.off + e.len)
       [] OTHER -> TRUE

Init == h \in {<<r>> : r \in Starts} /\ S = Init0(h[1].kind, h[1].ch, h[1].bs, Stored(h[1]))
Next ==
  /\ Len(h) < 1 + Depth
  /\ \E e \in Events(S) :
       /\ Valid(S, e)
       /\ LET t == TLCEval(Do(S, e)) IN (IF Sound(S, e, t) THEN TRUE ELSE Assert(FALSE, <<"unsound", e, t>>)) /\ S' = t
       /\ h' = Append(h, e)
       /\ ~Emit \/ PrintT(ToJson(h'))
Spec == Init /\ [][Next]_vars
View == S
Within == Off(S.views) + Size(S) <= S.bs
=============================================================================
