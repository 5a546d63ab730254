---------------------------- MODULE KUGenTrace ----------------------------
(* Checks histories recorded from single UGens and stacks of wrappers (kharness ug) against KUGen *)
EXTENDS KUGen, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, bad, nbad
vars == <<l, S, bad, nbad>>

Okay(st) == [ok |-> TRUE, S |-> st, why |-> <<>>]
Wrong(st, why) == [ok |-> FALSE, S |-> st, why |-> why]
FirstFail(c) == LET b == {i \in 1 .. Len(c) : ~c[i][1]} IN IF b = {} THEN <<>> ELSE c[CHOOSE i \in b : \A j \in b : i <= j][2]
Judge(st, checks) == LET w == FirstFail(checks) IN IF w = <<>> THEN Okay(st) ELSE Wrong(st, w)
RangeOf(s) == {s[i] : i \in 1 .. Len(s)}

Base(st) == st.lay[Len(st.lay)].t
\* rounding, in units of 1/sc
Tol(st) == CASE Base(st) \in {"sinwt", "sinnum"} -> 3 [] Base(st) \in {"asr", "are"} -> 2
             [] Base(st) \in {"olpf", "ohpf", "svf", "blep"} -> 1 + st.sc \div 500 [] Base(st) = "pan" -> 1 + st.sc \div 100
             [] Base(st) \in {"adelay", "fdelay"} /\ st.sc = 1000 -> 2
             [] Base(st) \in {"div", "div2", "sqrt", "exp"} /\ st.sc = 1000 -> 2 [] OTHER -> 0
Close(x, y, t) == x = y \/ (Abs(x) < Big /\ Abs(y) < Big /\ Abs(x - y) <= t)
\* between two runs of the same UGen which only differ in how it is called
Alike(x, y) == Close(x, y, 1 + Min2(Abs(x), Abs(y)) \div 100000)

Differ(st, e, r) == {<<c, f>> \in (1 .. Len(e.o)) \X (1 .. st.bs) : r.o[f][c] # NUL /\ ~Close(r.o[f][c], e.o[c][f], Tol(st))}

O2(e) == Get(e, "o2", <<>>)
D2(e) == Get(e, "done2", <<>>)

BlkStep(st, e) ==
  LET r == TLCEval(Process(st, e))
      d == Differ(st, e, r)
      d2 == {<<c, f>> \in (1 .. Len(e.o)) \X (1 .. st.bs) : ~Alike(e.o[c][f], O2(e)[c][f])}
      known == r.known
  IN Judge(r.S,
      << <<e.bad = <<>>, <<"misuse", e.bad>>>>,
         <<\A f \in 1 .. st.bs : Len(r.o[f]) = Len(e.o), <<"channels", Len(e.o)>>>>,
         <<d = {}, <<"output", e.o, "specified, by frame", r.o>>>>,
         <<~known \/ (RangeOf(e.done) \subseteq r.done /\ (r.done = {} <=> e.done = <<>>)), <<"done", e.done, "specified", r.done>>>>,
         <<e.rem = -1, <<"remove_graph">>>>,
         <<"o2" \notin DOMAIN e \/ d2 = {}, <<"the same frame by frame", e.o, O2(e)>>>>,
         <<"o2" \notin DOMAIN e \/ ~known \/ (RangeOf(D2(e)) = r.done /\ Len(D2(e)) = Cardinality(r.done)), <<"done frame by frame", D2(e), "specified", r.done>>>>,
         <<"o2" \notin DOMAIN e \/ known \/ (RangeOf(e.done) \subseteq RangeOf(D2(e)) /\ (e.done = <<>> <=> D2(e) = <<>>)), <<"done by block", e.done, "frame by frame", D2(e)>>>>
      >>)

Step(st, e) ==
  CASE e.ev = "blk" -> BlkStep(st, e)
    [] e.ev = "p" -> Judge(ParamTo(st, 1, e.i, e.k, Get(e, "v", 0), Get(e, "q", 1), Get(e, "d", 0)), <<<<e.bad = <<>>, <<"misuse", e.bad>>>>>>)
    [] e.ev = "set" ->
         LET r == SetTo(st, e)
         IN Judge(r.S, << <<e.bad = <<>>, <<"misuse", e.bad>>>>, <<e.r = r.r, <<"answer", e.r, "specified", r.r>>>>,
                          <<Get(e, "r2", r.r) = r.r, <<"answer", Get(e, "r2", ""), "specified", r.r>>>> >>)
    [] e.ev = "desc" ->
         LET ps == Pars(st.lay, 1)
         IN Judge(st, << <<e.r = [j \in 1 .. Len(ps) |-> ps[j][1]] /\ e.ty = [j \in 1 .. Len(ps) |-> ps[j][2]], <<"parameters", e.r, e.ty, "specified", ps>>>> >>)
    [] e.ev = "ar" -> Judge(ArTo(st, 1, e.i, e.on # 0), <<<<e.bad = <<>>, <<"misuse", e.bad>>>>>>)
    [] e.ev = "panic" -> Wrong(st, <<"panic", e.msg, e.of>>)

Init == l = 1 /\ S = <<>> /\ bad = FALSE /\ nbad = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN IF e.ev = "reset" THEN S' = Init0(e) /\ bad' = FALSE /\ UNCHANGED nbad
        ELSE IF bad THEN UNCHANGED <<S, bad, nbad>>
        ELSE LET x == TLCEval(Step(S, e))
             IN IF x.ok THEN S' = x.S /\ UNCHANGED <<bad, nbad>>
                ELSE /\ PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(e.ev) \o " " \o ToString(x.why))
                     /\ S' = S /\ bad' = TRUE /\ nbad' = nbad + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
