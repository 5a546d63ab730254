---------------------------- MODULE KTimeTrace ----------------------------
(* Checks calculations with times recorded from the implementation (kharness time) against KTime.  *)
(* The state is the present time; a result which doesn't fit into it leaves it open.                *)
EXTENDS KTime, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, K, S, bad, nbad
vars == <<l, K, S, bad, nbad>>
Lost == <<-1>>

\* the result is exactly v
Exact(e, v) == IF ~Fits(K, v) THEN [ok |-> TRUE, S |-> Lost, why |-> <<>>]
               ELSE [ok |-> e.r # <<>> /\ Normal(K, e.r) /\ Value(K, e.r) = v, S |-> v, why |-> <<e.r, "specified", AsPair(K, v)>>]
\* the result is num / den, rounded
Round(e, num, den, tol, bits) ==
  IF ~Less(Div(num, den), Mul(Unit(K), Limit)) \/ ~Less(Add(Div(num, den), Div(Div(num, den), Pow2(20))), Mul(Unit(K), Limit)) THEN [ok |-> TRUE, S |-> Lost, why |-> <<>>]
  ELSE [ok |-> e.r # <<>> /\ Normal(K, e.r) /\ Near(Value(K, e.r), num, den, tol, bits), S |-> Value(K, e.r), why |-> <<e.r, "specified, about", AsPair(K, Div(num, den))>>]
Query(ok, why) == [ok |-> ok, S |-> S, why |-> why]

W(e) == Value(K, e.w)
RECURSIVE Total(_)
Total(ws) == IF ws = <<>> THEN <<>> ELSE Add(Value(K, Head(ws)), Total(Tail(ws)))
Sign(a, b) == IF Less(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 1
Tol(e) == IF e.how \in {"f32", "f32l", "f32a"} /\ K = "b" THEN 400 ELSE 2
Bits(e) == IF e.how \in {"f32", "f32l", "f32a"} /\ K = "b" THEN 20 ELSE 48

Op(e) ==
  CASE e.ev = "add" -> Exact(e, Plus(S, W(e)))
    [] e.ev = "csub" -> IF Less(S, W(e)) THEN Query(e.r = <<>>, <<e.r, "specified", "None">>) ELSE Exact(e, Minus(S, W(e)))
    [] e.ev = "ssub" -> Exact(e, Minus(S, W(e)))
    [] e.ev = "sum" -> Exact(e, Total(e.ws))
    [] e.ev = "mul" -> IF K = "s" THEN Exact(e, Times(K, S, W(e))) ELSE Round(e, Mul(S, W(e)), Unit(K), 2, 48)
    [] e.ev = "mulf" -> Round(e, Mul(S, NumOf(e.x)), DenOf(e.x), Tol(e), Bits(e))
    [] e.ev = "muln" -> Round(e, Mul(S, e.n), One, 2, 48)
    [] e.ev = "set" -> Exact(e, W(e))
    [] e.ev = "fromsamples" -> Exact(e, FromSamples(e.n, e.rate))
    [] e.ev = "fromu64" -> Exact(e, e.n)
    [] e.ev = "fromf" -> Round(e, Mul(NumOf(e.x), Unit(K)), DenOf(e.x), Tol(e), Bits(e))
    [] e.ev = "fromdur" -> Round(e, Mul(Add(Mul(e.n, Num(1000000000)), e.nanos), Unit(K)), Num(1000000000), 1, 52)
    [] e.ev = "fromfrac" -> Exact(e, FromFraction(e.n, e.fr, e.f))
    [] e.ev = "tosamples" -> Query(e.y = ToSamples(S, e.rate), <<e.y, "specified", ToSamples(S, e.rate)>>)
    [] e.ev = "tosamplesf" -> Query(NearF(e.y, Mul(S, e.rate), Unit(K), 48), <<e.y, "specified, about", ToSamples(S, e.rate)>>)
    [] e.ev = "tou64" -> Query(e.y = S, <<e.y, "specified", S>>)
    [] e.ev = "tof" -> Query(NearF(e.y, S, Unit(K), IF e.how = "f32" THEN 20 ELSE 48), <<e.y, "specified, of", AsPair(K, S)>>)
    [] e.ev = "cmp" -> LET c == Sign(S, W(e)) IN Query(e.y = <<c, c, IF c < 0 THEN 1 ELSE 0, IF c <= 0 THEN 1 ELSE 0, IF c = 0 THEN 1 ELSE 0>>, <<e.y, "specified", c>>)

\* a panic is an answer only if the result doesn't fit
May(e) == CASE e.ev = "add" -> ~Fits(K, Plus(S, W(e)))
            [] e.ev = "sum" -> ~Fits(K, Total(e.ws))
            [] e.ev = "mul" -> ~Fits(K, Times(K, S, W(e)))
            [] OTHER -> FALSE
Step(e) == IF S = Lost THEN [ok |-> TRUE, S |-> S, why |-> <<>>]
           ELSE IF e.ev = "panic" THEN [ok |-> May(e.of), S |-> Lost, why |-> <<"panic", e.msg, e.of>>]
           ELSE Op(e)

Init == l = 1 /\ K = "s" /\ S = <<>> /\ bad = FALSE /\ nbad = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN IF e.ev = "reset" THEN K' = e.k /\ S' = Value(e.k, e.v) /\ bad' = FALSE /\ UNCHANGED nbad
        ELSE IF bad THEN UNCHANGED <<K, S, bad, nbad>>
        ELSE LET x == TLCEval(Step(e))
             IN IF x.ok THEN S' = x.S /\ UNCHANGED <<K, bad, nbad>>
                ELSE /\ PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(e.ev) \o " " \o ToString(x.why) \o " of " \o ToString(AsPair(K, S)))
                     /\ S' = S /\ bad' = TRUE /\ nbad' = nbad + 1 /\ K' = K
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
