------------------------------- MODULE KTimeMC -------------------------------
(* KTime over the values at the limits of its numbers and what they lead to; see KUGenMC for Mode,  *)
(* Depth and Emit *)
EXTENDS KTime, Json, IOUtils

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"
VARIABLES S, h
vars == <<S, h>>

K == IF Mode \in {"beats", "fractions"} THEN "b" ELSE "s"
U == Unit(K)
Top == Sub(Limit, One)
Pairs == {<<<<>>, <<>>>>, <<<<>>, One>>, <<<<>>, Sub(U, One)>>, <<One, <<>>>>, <<<<7>>, Div(U, <<3>>)>>, <<Top, Sub(U, One)>>}
Small == {<<<<>>, One>>, <<<<>>, Sub(U, One)>>, <<One, <<>>>>, <<<<2>>, Div(U, <<2>>)>>}
Rates == {Num(r) : r \in {1, 44100, 48000, 88200, 96000, 192000, 24000, 22050}}
Others == {Num(r) : r \in {7, 44101, 11}}
Fractions == {Num(f) : f \in {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 24, 32, 64, 128, 256, 512, 1920}}
X == {<<<<>>, 0>>, <<One, 0>>, <<One, -1>>, <<<<3>>, -2>>, <<<<3>>, 0>>}

Starts == {[ev |-> "reset", k |-> K, v |-> p] : p \in (IF Mode = "fractions" THEN {<<One, One>>} ELSE Pairs)}
E(op, w) == [ev |-> op, w |-> w, how |-> "op"]
Events(s) ==
  CASE Mode = "secs" -> {E(op, w) : op \in {"add", "csub", "ssub", "cmp"}, w \in Pairs} \cup {E("mul", w) : w \in Small}
                        \cup {[ev |-> "tou64"], [ev |-> "tof", how |-> "f64"]} \cup {[ev |-> "mulf", how |-> "f64", x |-> x] : x \in X}
    [] Mode = "beats" -> {E(op, w) : op \in {"add", "csub", "ssub", "cmp"}, w \in Pairs}
                         \cup {[ev |-> "mulf", how |-> "f64", x |-> x] : x \in X} \cup {[ev |-> "tof", how |-> "f64"]}
    [] Mode = "samples" -> {[ev |-> "fromsamples", n |-> n, rate |-> r] : n \in {<<>>, One, Num(44099), Num(2147483647), Mul(Num(2147483647), Num(48))}, r \in Rates \cup Others}
                           \cup {[ev |-> op, rate |-> r] : op \in {"tosamples", "tosamplesf"}, r \in Rates \cup Others}
    [] Mode = "fractions" -> UNION {{[ev |-> "fromfrac", n |-> n, f |-> f, fr |-> x] : n \in {<<>>, <<3>>, Top}, x \in {<<>>, One, <<2>>, Sub(f, One)}} : f \in Fractions}

\* s is a time which fits
Do(s, e) ==
  CASE e.ev = "add" -> Plus(s, Value(K, e.w))
    [] e.ev \in {"csub", "ssub"} -> Minus(s, Value(K, e.w))
    [] e.ev = "mul" -> Times(K, s, Value(K, e.w))
    [] e.ev = "mulf" -> Div(Mul(s, NumOf(e.x)), DenOf(e.x))
    [] e.ev = "fromsamples" -> FromSamples(e.n, e.rate)
    [] e.ev = "fromfrac" -> FromFraction(e.n, e.fr, e.f)
    [] OTHER -> s
Valid(e) == IF e.ev = "fromfrac" THEN Less(e.fr, e.f) ELSE TRUE

\* what holds of every step
Sound(s, e, t) ==
  CASE e.ev = "add" -> /\ Minus(t, Value(K, e.w)) = s /\ t = Plus(Value(K, e.w), s) /\ Leq(s, t)
    [] e.ev \in {"csub", "ssub"} -> IF Less(s, Value(K, e.w)) THEN t = <<>> ELSE Plus(t, Value(K, e.w)) = s
    [] e.ev = "mul" -> /\ t = Times(K, Value(K, e.w), s)
                       /\ e.w = <<One, <<>>>> => t = s
                       /\ Leq(Mul(t, U), Mul(s, Value(K, e.w))) /\ Less(Mul(s, Value(K, e.w)), Mul(Add(t, One), U))
    \* without loss at all the rates that divide a second, at the same rate and at others
    [] e.ev = "fromsamples" -> e.rate \in Rates => /\ ToSamples(t, e.rate) = e.n
                                                   /\ \A r \in Rates : Leq(Dist(ToSamples(t, r), Div(Mul(e.n, r), e.rate)), <<>>)
    [] e.ev = "tosamples" -> LET n == ToSamples(s, e.rate) IN Leq(FromSamples(n, e.rate), s) /\ Less(s, Add(FromSamples(Add(n, One), e.rate), One))
    \* these are the fractions of which there is a whole number of tesimals
    [] e.ev = "fromfrac" -> Mul(t, e.f) = Mul(Add(Mul(e.n, e.f), e.fr), U)
    [] OTHER -> TRUE

Init == h \in {<<r>> : r \in Starts} /\ S = Value(K, h[1].v)
Next ==
  /\ Len(h) < 1 + Depth
  /\ \E e \in Events(S) :
       /\ Valid(e)
       /\ LET t == TLCEval(Do(S, e)) IN
          /\ IF Sound(S, e, t) THEN TRUE ELSE Assert(FALSE, <<"unsound", e, t>>)
          /\ Fits(K, t)
          /\ S' = t
       /\ h' = Append(h, e)
       /\ ~Emit \/ PrintT(ToJson(h'))
Spec == Init /\ [][Next]_vars
View == S
\* two parts describe a time
TwoParts == Value(K, AsPair(K, S)) = S /\ Normal(K, AsPair(K, S))
=============================================================================
