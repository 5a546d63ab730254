---------------------------- MODULE KBlockTrace ----------------------------
(* Checks accesses to blocks recorded from the implementation (kharness block) against KBlock *)
EXTENDS KBlock, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, bad, nbad
vars == <<l, S, bad, nbad>>

Okay(st) == [ok |-> TRUE, S |-> st, why |-> <<>>]
Wrong(st, why) == [ok |-> FALSE, S |-> st, why |-> why]
Is(st, x, y) == IF x = y THEN Okay(st) ELSE Wrong(st, <<x, "specified", y>>)

\* what every answer also tells: the shape of the present block
Shape(st) == <<st.ch, Size(st)>>
Raw(st) == st.kind \in {"rawc", "agg", "aggread"} /\ st.views = <<>>
Op(st, e) ==
  CASE e.ev = "write" -> Okay(Write(st, e.c, e.f, e.v))
    [] e.ev = "read" -> Is(st, e.y, Read(st, e.c, e.f))
    [] e.ev = "slice" -> Is(st, e.y, Slice(st, e.c))
    [] e.ev = "fill" -> Okay(Fill(st, e.c, e.vs))
    [] e.ev = "iter" -> Is(FillAll(st, e.rows), e.y, All(st))
    [] e.ev = "window" -> Okay(Window(st, e.off, e.len, e.w # 0))
    [] e.ev = "back" -> Okay(Back(st))
    \* beyond the limits of the block: an access to raw memory is refused
    [] e.ev = "beyond" -> Is(st, e.y, "panic")
    [] e.ev = "guards" -> Is(st, e.y, 1)
    [] e.ev = "all" -> Is(st, e.y, All(st))

Step(st, e) ==
  IF e.ev = "panic" THEN Wrong(st, <<"panic", e.msg, e.of>>)
  ELSE LET x == Op(st, e)
       IN IF ~x.ok THEN x
          ELSE IF "shape" \in DOMAIN e /\ e.shape # Shape(x.S) THEN Wrong(x.S, <<"shape", e.shape, "specified", Shape(x.S)>>)
          ELSE x

Rows(e) == IF e.kind \in {"vec", "static"} THEN Zero(e.ch, e.bs) ELSE e.rows
Init == l = 1 /\ S = <<>> /\ bad = FALSE /\ nbad = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN IF e.ev = "reset" THEN S' = Init0(e.kind, e.ch, e.bs, Rows(e)) /\ bad' = FALSE /\ UNCHANGED nbad
        ELSE IF bad THEN UNCHANGED <<S, bad, nbad>>
        ELSE LET x == TLCEval(Step(S, e))
             IN IF x.ok THEN S' = x.S /\ UNCHANGED <<bad, nbad>>
                ELSE /\ PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(e.ev) \o " " \o ToString(x.why))
                     /\ S' = S /\ bad' = TRUE /\ nbad' = nbad + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
