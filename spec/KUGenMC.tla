------------------------------- MODULE KUGenMC -------------------------------
(* KUGen within small bounds: TLC visits every state reachable with at most Depth events from each *)
(* of the starting configurations of a Mode and checks the invariants below. With EMIT = "1" it    *)
(* prints one script (the events from the start) for every transition, to be replayed into the     *)
(* implementation.                                                                                 *)
EXTENDS KUGen, Json, IOUtils

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"
VARIABLES S, h
vars == <<S, h>>

---------------------------------------------------------------------------------------------------
(* Starting configurations *)
Reset(u, bs, sc, isc, ref) == [ev |-> "reset", sr |-> 64, bs |-> bs, u |-> u, sc |-> sc, isc |-> isc, ref |-> ref]
TW == [t |-> "tw", b |-> 8, tk |-> 1]
W(t, in) == [t |-> t, in |-> in]
WV(t, v, in) == [t |-> t, v |-> v, in |-> in]
Env(segs, loop) == [t |-> "env", a |-> 0, b |-> 64, q |-> 64, segs |-> segs, loop |-> loop]
Buf(t, a, data, loop) == [t |-> t, a |-> a, q |-> 8, bsr |-> 64, data |-> data, loop |-> loop, st |-> 0]
Starts ==
  CASE Mode = "wrap" -> {Reset(W("prec", WV("mul", 2, WV("add", 3, TW))), 2, 1, 1, 0),
                         Reset(WV("add", 3, W("prec", TW)), 2, 1, 1, 0),
                         Reset(WV("vsub", 5, WV("mul", 3, TW)), 2, 1, 1, 0),
                         Reset(WV("mul", 2, WV("clo", 1, WV("mul", -1, TW))), 2, 1, 1, 1)}
    [] Mode = "smooth" -> {Reset(W("smooth", TW), 2, 1, 1, 0), Reset(WV("add", 1, W("smooth", WV("mul", 2, TW))), 2, 1, 1, 1),
                           Reset(W("prec", W("smooth", TW)), 2, 1, 1, 0)}
    [] Mode = "ar" -> {Reset(W("ar", TW), 2, 1, 1, 0), Reset(W("ar", W("smooth", TW)), 2, 1, 1, 0), Reset(W("smooth", W("ar", TW)), 2, 1, 1, 0),
                       Reset(W("ar", WV("mul", 2, TW)), 2, 1, 1, 1), Reset(W("prec", W("ar", TW)), 2, 1, 1, 0)}
    [] Mode = "set" -> {Reset(u, 2, 1, 1, 0) @@ [typed |-> 1] : u \in {TW, WV("mul", 2, TW), W("prec", WV("mul", 2, TW)), WV("add", 3, WV("mul", 2, TW)), W("ar", TW),
                                                                     WV("mul", 2, W("smooth", TW)), W("smooth", WV("mul", 2, TW))}}
                       \cup {Reset(u, 2, 64, 64, 1) @@ [typed |-> 1] : u \in {[t |-> "const", a |-> 1], [t |-> "asr", a |-> 2, b |-> 2, q |-> 64], Env(<<<<2, 64>>>>, 0),
                                                                     [t |-> "fdelay", a |-> 3, q |-> 64], [t |-> "add"],
                                                                     [t |-> "blep", a |-> 8, k |-> 1], [t |-> "svf", a |-> 20, b |-> 8, k |-> 1, q |-> 8]}}
                       \cup {Reset(Buf("buf1", 8, <<1, 2, 3>>, 0), 2, 8, 1, 1) @@ [typed |-> 1], Reset([t |-> "sinwt", a |-> 8], 2, 1000, 1, 1) @@ [typed |-> 1]}
    [] Mode = "asr" -> {Reset([t |-> t, a |-> a, b |-> b, q |-> 64], 2, 4096, 1, 1) : t \in {"asr", "are"}, a \in {0, 2, 4}, b \in {2, 4}}
    [] Mode = "env" -> {Reset(Env(<<<<2, 64>>>>, 0), 2, 1024, 1, 1), Reset(Env(<<<<2, 64>>, <<4, 32>>>>, 0), 2, 1024, 1, 1),
                        Reset(Env(<<<<2, 64>>, <<2, 0>>>>, 1), 2, 1024, 1, 1)}
    [] Mode = "buf" -> {Reset(Buf("buf1", a, d, l), 2, 8, 1, 1) : a \in {8, 4, 16}, d \in {<<5>>, <<1, 2, 3>>}, l \in {0, 1}}
                       \cup {Reset(Buf("buf2", 8, <<1, 2, 3, 4, 5, 6>>, 0), 2, 8, 1, 1)}
    [] Mode = "delay" -> {Reset([t |-> t, a |-> n, q |-> 64], 2, IF t = "sdelay" THEN 1 ELSE 1000, 1, 1) : t \in {"sdelay", "adelay", "fdelay"}, n \in {1, 3}}
                         \cup {Reset([t |-> "ssd", n |-> n], 2, 1, 1, 1) : n \in {1, 2, 3}}
    [] Mode = "math" -> {Reset([t |-> t, a |-> 3], 2, 1, 1, 1) : t \in {"add", "sub", "mul", "div", "pow", "add2", "sub2", "add3", "mul3", "sub4", "div2", "clo1", "clo2", "const", "exp", "sqrt"}}
                        \cup {Reset([t |-> t, a |-> 0], 2, 8, 8, 1) : t \in {"ceil", "floor", "trunc", "fract", "lim"}}
    [] Mode = "osc" -> {Reset([t |-> "phasor", a |-> a], 2, 1024, 1, 1) : a \in {0, 8, 3}}
                       \cup {Reset([t |-> t, a |-> a], 2, 1000, 1, 1) : t \in {"sinwt", "sinnum"}, a \in {0, 5, 8, 24}}
    [] Mode = "filter" -> {Reset([t |-> "svf", a |-> a, b |-> 6, q |-> 8, k |-> k, g |-> g], 2, 10000, 1, 1) : k \in 0 .. 8, a \in {30, 100}, g \in {6}}
                          \cup {Reset([t |-> "olpf", a |-> a, q |-> 1], 2, 10000, 1, 1) : a \in {0, 3, 20}}
                          \cup {Reset([t |-> t, a |-> 0, q |-> 1], 2, 10000, 1, 1) : t \in {"ohpf", "pan", "clo0"}}
    [] Mode = "wave" -> {Reset([t |-> "blep", a |-> a, k |-> k], 4, 10000, 1, 1) : k \in 0 .. 13, a \in {5, 16}}

---------------------------------------------------------------------------------------------------
(* Events *)
Has(st, t) == \E k \in 1 .. Len(st.lay) : st.lay[k].t = t
P(i, k, v, q, d) == [ev |-> "p", i |-> i, k |-> k, v |-> v, q |-> q, d |-> d]
\* a checked change by index or by name
SetI(i, k) == [ev |-> "set", i |-> i, k |-> k, v |-> 1, q |-> IF k = "f" THEN 64 ELSE 1]
SetN(n, k) == [ev |-> "set", n |-> n, k |-> k, v |-> 1, q |-> IF k = "f" THEN 64 ELSE 1]
Ar(i, on) == [ev |-> "ar", i |-> i, on |-> on]
Last(st) == st.lay[Len(st.lay)]
Splits(st) == IF Has(st, "prec") THEN {<<>>}
              ELSE IF st.bs = 2 THEN {<<>>, <<<<1, "b">>, <<1, "b">>>>, <<<<2, "f">>>>, <<<<1, "f">>, <<1, "b">>>>} ELSE {<<>>}
Wraps == {"wrap", "smooth", "ar"}
Values(t) == CASE t \in {"div", "div2", "pow"} -> {1, 2, 4} [] t = "sqrt" -> {0, 4, 9} [] t = "exp" -> {0}
               [] t \in {"ceil", "floor", "trunc", "fract", "lim"} -> {-17, -8, 0, 4, 8, 19} [] OTHER -> {-2, 1, 5}
\* every combination of values in the first frame, another one in the second
MathInputs(t) == IF Ins(t) > 4 THEN {[c \in 1 .. Ins(t) |-> <<3 * c - 7, c>>], [c \in 1 .. Ins(t) |-> <<((c * c) % 11) - 5, 0 - c>>]} ELSE LET V == Values(t) IN {[c \in 1 .. Ins(t) |-> <<w[c], w[(c % Ins(t)) + 1]>>] : w \in [1 .. Ins(t) -> V]}
Inputs(st) == CASE Mode = "math" -> MathInputs(Last(st).t)
                [] Mode \in Wraps -> {<<<<1, 2>>, <<3, 0>>>>}
                [] Mode = "delay" -> {<<<<5, 7>>>>, <<<<0, -3>>>>}
                [] Mode = "filter" -> IF Ins(Last(st).t) = 0 THEN {<<>>} ELSE {<<<<1, 1>>>>, <<<<-2, 0>>>>}
                [] Mode = "set" -> {[c \in 1 .. Ins(Last(st).t) |-> <<1, 2>>]}
                [] OTHER -> {<<>>}
Blks(st) ==
  LET withsplit == IF Mode \in Wraps /\ st.ref THEN {<<>>} ELSE Splits(st)
      blk == {[ev |-> "blk", in |-> x, split |-> s] : x \in Inputs(st), s \in withsplit}
  IN IF ~Has(st, "ar") THEN blk
     ELSE {b @@ [ar |-> <<<<0, <<4, 6>>>>, <<1, <<-2, 2>>>>>>] : b \in blk}
Delays(st) == IF Has(st, "prec") /\ ~st.ref THEN {0, 1} ELSE {0}
Frs(i, ns) == {P(i, "f", n, 64, 0) : n \in ns}
Events(st) ==
  LET t == Last(st).t
  IN Blks(st) \cup
     CASE Mode = "wrap" -> {P(i, "f", v, 1, d) : i \in {0, NPar(st.lay, 1) - 1}, v \in {0, 7}, d \in Delays(st)}
                           \cup {P(2, "t", 0, 1, d) : d \in Delays(st)}
                           \cup {P(i, "i", 3, 1, 0) : i \in {0, NPar(st.lay, 1) - 1}}
       [] Mode = "smooth" -> {P(i, "f", v, 1, d) : i \in {0}, v \in {0, 1024}, d \in Delays(st)} \cup {P(1, "f", -512, 1, 0)}
                             \cup {P(0, "sa", n, 64, 0) : n \in {0, 1, 4}} \cup {P(0, "sn", 0, 1, 0)} \cup {P(1, "sa", 2, 64, 0)}
       [] Mode = "ar" -> {P(i, "f", v, 1, 0) : i \in {0, 1}, v \in {1024}} \cup {Ar(i, on) : i \in {0, 1}, on \in {0, 1}}
                         \cup (IF Has(st, "smooth") THEN {P(0, "sa", n, 64, 0) : n \in {0, 2}} ELSE {})
       [] Mode = "set" -> LET ps == Pars(st.lay, 1) IN
                          UNION {{SetI(i, k) : i \in 0 .. Len(ps) + 1} \cup {SetN(ps[i][1], k) : i \in 1 .. Len(ps)} \cup {SetN("wr_mu", k)} : k \in {"f", "t", "i", "b"}}
                          \cup (IF Has(st, "smooth") THEN {SetI(0, "sn"), SetI(2, "sn"), SetN("b", "sa")} ELSE {})
       [] Mode = "asr" -> (IF t = "asr" THEN {P(2, "t", 0, 1, 0), P(3, "t", 0, 1, 0)} ELSE {P(2, "t", 0, 1, 0)})
                          \cup Frs(0, {1}) \cup Frs(1, {2})
       [] Mode = "env" -> {P(0, "f", 2, 1, 0), P(0, "f", 1, 2, 0), P(1, "i", 0, 1, 0), P(1, "i", 1, 1, 0), P(2, "t", 0, 1, 0), P(3, "t", 0, 1, 0)}
       [] Mode = "buf" -> {P(0, "f", 4, 8, 0), P(1, "b", 1, 1, 0), P(1, "b", 0, 1, 0), P(2, "f", 1, 64, 0), P(3, "f", 2, 64, 0), P(3, "f", -1, 64, 0), P(4, "f", 2, 64, 0), P(5, "t", 0, 1, 0)}
       [] Mode = "delay" -> IF t = "ssd" THEN {P(0, "i", n, 1, 0) : n \in 0 .. st.lay[1].n + 1}
                            ELSE Frs(0, 0 .. Last(st).a + 1) \cup (IF t # "sdelay" THEN {P(0, "f", 2 * Last(st).a + 1, 128, 0), P(0, "f", 3, 256, 0), P(0, "f", 5, 256, 0)} ELSE {}) \cup {P(0, "f", -1, 64, 0)} \cup (IF t = "fdelay" THEN {P(1, "f", 1, 1, 0)} ELSE {})
       [] Mode = "math" -> IF t = "const" THEN {P(0, "f", 7, 1, 0)} ELSE {}
       [] Mode = "osc" -> IF t = "phasor" THEN {P(0, "f", n, 1, 0) : n \in {8, 0, 40}}
                          ELSE {P(0, "f", 8, 1, 0), P(0, "f", 0, 1, 0), P(1, "f", 3, 8, 0), P(2, "t", 0, 1, 0)}
       [] Mode = "filter" -> CASE t = "svf" -> {P(0, "f", 10, 1, 0), P(1, "f", 2, 1, 0), P(2, "f", -12, 1, 0), P(3, "i", 1, 1, 0), P(3, "i", 9, 1, 0), P(4, "t", 0, 1, 0)}
                               [] t = "pan" -> {P(0, "f", v, 4, 0) : v \in {-4, -1, 2, 4}}
                               [] t = "clo0" -> {}
                               [] OTHER -> {P(0, "f", v, 1, 0) : v \in {0, 2, 12}}
       [] Mode = "wave" -> {P(0, "f", v, 1, 0) : v \in {0, 3}} \cup {P(1, "f", v, 8, 0) : v \in {2, 7}} \cup {P(2, "i", v, 1, 0) : v \in {0, 7, 14}}

---------------------------------------------------------------------------------------------------
(* What holds of every step *)
Base(st) == st.st[Len(st.lay)]
\* delays of which the specification leaves the first frames open
Open(st) == Mode = "set" \/ (Mode = "delay" /\ Last(st).t = "ssd")
Blend(st) == Mode = "asr" \* cubes which are no multiples of 1/8
Sound(st, e, r) ==
  LET t == Last(st).t
      B == Base(r.S)
      frames == 1 .. st.bs
      chans == 1 .. Len(r.o[1])
  IN
  \* the specification says what comes out
  /\ \A f \in frames : Len(r.o[f]) = Outs(t)
  /\ Open(st) \/ Blend(st) \/ t \in {"div", "div2"} \/ \A f \in frames : \A c \in chans : r.o[f][c] # NUL
  /\ r.done \subseteq 0 .. st.bs
  \* how a block is divided makes no difference, unless smoothing depends on it
  /\ e.split = <<>> \/ LET r2 == Process(st, [e EXCEPT !.split = <<>>]) IN r2.o = r.o /\ r2.done = r.done /\ r2.S = r.S
  /\ CASE Mode = "asr" ->
            /\ \A f \in frames : r.o[f][1] = NUL \/ r.o[f][1] \in 0 .. st.sc
            /\ (r.known /\ r.done # {}) => Base(st).s \in {"att", "rel"}
            /\ B.s \in {"stop", "att", "sus", "rel", "lost"}
            /\ (r.known /\ B.s = "stop" /\ Base(st).s # "stop") => r.done # {}
            \* it never jumps: from one frame to the next by no more than its rate
            /\ \A f \in frames \ {1} : (r.o[f][1] # NUL /\ r.o[f - 1][1] # NUL /\ B.ar # NUL)
                                         => r.o[f][1] - r.o[f - 1][1] <= B.ar
       [] Mode = "env" -> /\ (~B.run /\ Base(st).run) <=> r.done # {}
                          /\ \A f \in frames : r.o[f][1] \in 0 .. st.sc
       [] Mode = "buf" -> /\ (~Base(st).fin /\ B.fin) <=> r.done # {}
                          /\ (Base(st).fin => \A f \in frames : \A c \in chans : r.o[f][c] = 0)
       [] Mode = "delay" -> /\ r.done = {}
                            /\ Len(B.hist) <= B.max + 1
                            /\ CASE t \in {"adelay", "fdelay"} -> B.n \in 1 .. B.max [] OTHER -> B.d = NUL \/ B.d \in 0 .. B.max
       [] Mode = "osc" -> IF t = "phasor" THEN B.ph \in 0 .. st.sc - 1 /\ r.o[1][1] = Base(st).ph ELSE B.ph \in 0 .. One - 1
       [] Mode = "filter" ->
            \A f \in frames :
              LET x == IF e.in = <<>> THEN 0 ELSE e.in[1][f] * st.sc
                  y(c) == r.o[f][c]
                  before == IF f = 1 THEN Base(st).y ELSE IF t = "ohpf" THEN 0 ELSE r.o[f - 1][1] * 100
              IN CASE t = "olpf" -> y(1) >= Min2(x, before \div 100) - 1 /\ y(1) <= Max2(x, before \div 100) + 1
                   [] t = "pan" -> Abs(FMul(100 * y(1), 100 * y(1)) + FMul(100 * y(2), 100 * y(2)) - FMul(100 * x, 100 * x)) <= 400
                   \* low + high + k band is the input
                   [] t = "svf" -> LET d == Base(st).d
                                       s0 == Base(st).s
                                       out(ty) == SvfStep(SvfOf(ty, d.f, d.q, d.db, st.sr), s0, 100 * x).y
                                   IN Abs(out(0) + out(1) + FDiv(out(2), d.q) - 100 * x) <= 20 /\ Abs(out(0) + out(1) - out(3)) <= 20 /\ Abs(out(1) - out(0) - out(4)) <= 20
                   [] OTHER -> TRUE
       [] Mode = "wave" -> \A f \in frames : Abs(r.o[f][1]) <= 22000
       [] Mode = "math" -> \A f \in frames : LET x == [c \in 1 .. Ins(t) |-> e.in[c][f]] IN r.o[f] = BaseFrame(Last(st), Base(st), x, st).o
       [] OTHER -> TRUE

Do(st, e) == CASE e.ev = "p" -> ParamTo(st, 1, e.i, e.k, e.v, e.q, e.d)
               [] e.ev = "set" -> LET r == SetTo(st, e) IN IF r.r = "ok" \/ r.S = st THEN r.S ELSE Assert(FALSE, <<"a refused change", e>>)
               [] e.ev = "ar" -> ArTo(st, 1, e.i, e.on # 0)
               [] e.ev = "blk" -> LET r == TLCEval(Process(st, e)) IN IF Sound(st, e, r) THEN r.S ELSE Assert(FALSE, <<"unsound", e, r.o, r.done>>)

Init == h \in {<<r>> : r \in Starts} /\ S = Init0(h[1])
Next ==
  /\ Len(h) < 1 + Depth
  /\ \E e \in Events(S) :
       /\ S' = TLCEval(Do(S, e))
       /\ h' = Append(h, e)
       /\ ~Emit \/ PrintT(ToJson(h'))
Spec == Init /\ [][Next]_vars
\* the counter of the test UGen and the signals only depend on the number of blocks
View == [S EXCEPT !.arb = <<>>]

\* smoothing stays between where it started and where it is going
Between == \A k \in 1 .. Len(S.lay) :
  /\ S.lay[k].t = "smooth" =>
       \A i \in DOMAIN S.st[k].p : LET s == S.st[k].p[i] IN
         /\ s.mode = "l" => Interp(s) = NUL \/ (Interp(s) >= Min2(s.start, s.end) /\ Interp(s) <= Max2(s.start, s.end))
         /\ s.mode = "l" => s.el <= s.dur
  \* changes that wait for their frame don't outlive the block they were made for
  /\ S.lay[k].t = "prec" => Len(S.st[k].wait) <= 3 /\ \A w \in 1 .. Len(S.st[k].wait) : S.st[k].wait[w][1] \in 1 .. S.bs - 1
=============================================================================
