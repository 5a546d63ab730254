------------------------------- MODULE KUGen -------------------------------
(* UGens and their wrappers as frame by frame machines.                      *)
(*                                                                           *)
(* A UGen is a machine with parameters that, for every frame, maps its input *)
(* and state to output. How the frames are split into blocks is no part of   *)
(* the machine (except for smoothing at block rate, which is defined by it): *)
(* an implementation that processes blocks has to produce what the machine   *)
(* produces frame by frame.                                                  *)
(*                                                                           *)
(* A stack of wrappers is a sequence of layers, the outermost first, the     *)
(* UGen itself last. Samples are integers, in units of 1/sc; NUL stands for  *)
(* a value that the specification doesn't determine or can't represent.      *)
EXTENDS KDsp, FiniteSets, TLC

NUL == 2000000000
NAN == 1000000007
Big == 1000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Cut(x) == IF Abs(x) >= Big THEN NUL ELSE x
Plus(x, y) == IF x = NUL \/ y = NUL THEN NUL ELSE Cut(x + y)
Neg(x) == IF x = NUL THEN NUL ELSE -x
Minus(x, y) == Plus(x, Neg(y))
Times(x, y) == IF x = NUL \/ y = NUL THEN NUL
               ELSE IF x = 0 \/ y = 0 THEN 0
               ELSE IF Abs(x) >= Big \div Abs(y) THEN NUL ELSE x * y
\* exact division
Over(x, y) == IF x = NUL \/ y = NUL \/ y = 0 THEN NUL
              ELSE IF Abs(x) % Abs(y) /= 0 THEN NUL
              ELSE LET r == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN r ELSE -r
RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN 1 ELSE Times(x, PowI(x, n - 1))

Get(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
\* the number r[k] / r.q in units of 1/m
Num(r, k, m) == Over(Times(Get(r, k, 0), m), Get(r, "q", 1))

------------------------------------------------------------------------------
(* The configuration of a stack: nested records as a sequence of layers      *)
RECURSIVE Flat(_)
Flat(u) == IF "in" \in DOMAIN u THEN <<u>> \o Flat(u.in) ELSE <<u>>

\* name and type of every parameter: f float, t trigger, i integer, b boolean
BasePars(t) ==
  CASE t = "tw" -> <<<<"a", "f">>, <<"b", "f">>, <<"t", "t">>>>
    [] t = "const" -> <<<<"value", "f">>>>
    [] t = "dot" -> <<<<"t_done", "t">>>>
    [] t = "pan" -> <<<<"pan", "f">>>>
    [] t \in {"sdelay", "adelay"} -> <<<<"delay_time", "f">>>>
    [] t = "fdelay" -> <<<<"delay_time", "f">>, <<"feedback", "f">>>>
    [] t = "ssd" -> <<<<"", "i">>>>
    [] t = "phasor" -> <<<<"freq", "f">>>>
    [] t \in {"olpf", "ohpf"} -> <<<<"cutoff_freq", "f">>>>
    [] t \in {"sinwt", "sinnum"} -> <<<<"freq", "f">>, <<"phase_offset", "f">>, <<"reset_phase", "t">>>>
    [] t = "blep" -> <<<<"freq", "f">>, <<"pulse_width", "f">>, <<"waveform", "i">>>>
    [] t = "are" -> <<<<"attack_time", "f">>, <<"release_time", "f">>, <<"t_restart", "t">>>>
    [] t = "asr" -> <<<<"attack_time", "f">>, <<"release_time", "f">>, <<"t_release", "t">>, <<"t_restart", "t">>>>
    [] t = "env" -> <<<<"time_scale", "f">>, <<"jump_to_segment", "i">>, <<"t_restart", "t">>, <<"t_stop", "t">>>>
    [] t = "svf" -> <<<<"cutoff_freq", "f">>, <<"q", "f">>, <<"gain", "f">>, <<"filter", "i">>, <<"t_calculate_coefficients", "t">>>>
    [] t \in {"buf1", "buf2"} -> <<<<"rate", "f">>, <<"looping", "b">>, <<"start_s", "f">>, <<"duration_s", "f">>, <<"end_s", "f">>, <<"t_restart", "t">>>>
    [] OTHER -> <<>>
BaseParams(t) == Len(BasePars(t))
\* MathUGens: the operation and the number of channels
MathUs == [add |-> <<"add", 1>>, sub |-> <<"sub", 1>>, mul |-> <<"mul", 1>>, div |-> <<"div", 1>>, pow |-> <<"pow", 1>>,
           add2 |-> <<"add", 2>>, sub2 |-> <<"sub", 2>>, div2 |-> <<"div", 2>>, add3 |-> <<"add", 3>>, mul3 |-> <<"mul", 3>>, sub4 |-> <<"sub", 4>>]
Outs(t) == IF t \in DOMAIN MathUs THEN MathUs[t][2] ELSE IF t \in {"tw", "buf2", "pan", "clo1"} THEN 2 ELSE IF t = "dot" THEN 0 ELSE 1
Ins(t) == CASE t \in DOMAIN MathUs -> 2 * MathUs[t][2]
            [] t \in {"tw", "clo2"} -> 2
            [] t \in {"lim", "pan", "ceil", "floor", "trunc", "fract", "sqrt", "exp", "olpf", "ohpf", "svf", "sdelay", "adelay", "fdelay", "ssd", "clo1"} -> 1
            [] OTHER -> 0
\* samples as numbers of KFix, and back
ToF(x, S) == IF x = NUL \/ Abs(x) >= 1000 * S.isc \/ Abs(x) >= 2000 THEN FNUL ELSE FNum(x, S.isc)
OutF(v, S) == IF v = FNUL \/ One % S.sc # 0 THEN NUL ELSE LET u == One \div S.sc IN (v + u \div 2) \div u
\* in units too big for fractions
OutE(v, S) == IF S.sc < 1000 /\ v % One # 0 THEN NUL ELSE OutF(v, S)
ParF(v, q) == IF Abs(v) >= 2000 THEN FNUL ELSE FNum(v, q)
\* turns per frame; NUL unless exact
Turns(f, sr) == IF f = FNUL \/ f % sr # 0 THEN NUL ELSE f \div sr

\* the parameters of the stack from layer k on: wrappers leave those of what they wrap as they are, and add their own at the end
RECURSIVE Pars(_, _)
Pars(lay, k) == IF k = Len(lay) THEN BasePars(lay[k].t)
                ELSE Pars(lay, k + 1) \o (IF lay[k].t = "mul" THEN <<<<"wr_mul", "f">>>> ELSE <<>>)
\* the type of a value; smoothing is a setting of float parameters
KindType(k) == IF k \in {"sn", "sb", "sa"} THEN "f" ELSE k
\* number of parameters of the stack from layer k on
RECURSIVE NPar(_, _)
NPar(lay, k) == IF k = Len(lay) THEN BaseParams(lay[k].t)
                ELSE NPar(lay, k + 1) + (IF lay[k].t = "mul" THEN 1 ELSE 0)

------------------------------------------------------------------------------
(* Base UGens: initial state, parameters, one frame                          *)

NoSmooth == [mode |-> "n", start |-> 0, end |-> 0, dur |-> 0, el |-> 0, done |-> TRUE, rate |-> "b", conn |-> FALSE]

\* seconds v/q as frames times m
\* whole frames of a time
MaxFrames(v, q, S) == (v * S.sr) \div q
Frames(v, q, m, S) == Over(Times(Times(v, S.sr), m), q)

\* Rates of envelopes: the step per frame for a duration, 1 is S.sc
Rate(v, q, S) == IF v = 0 THEN S.sc ELSE Over(Times(S.sc, q), Times(v, S.sr))

BufLen(c) == Len(c.data) \div (IF c.t = "buf1" THEN 1 ELSE 2)
PQ == 8       \* the position in a buffer is counted in eighths of a frame
BufDur(c, S) == Times(BufLen(c), PQ)

BaseInit(c, S) ==
  LET q == Get(c, "q", 1)
      a == Get(c, "a", 0)
      b == Get(c, "b", 0)
  IN
  CASE c.t = "tw" -> [cnt |-> 0, a |-> 0, b |-> 0, tr |-> 0, done |-> FALSE]
    [] c.t = "const" -> [a |-> Over(Times(a, S.sc), q)]
    [] c.t = "dot" -> [done |-> FALSE]
    [] c.t = "phasor" -> [ph |-> 0, step |-> Over(Times(a, S.sc), Times(q, S.sr))]
    [] c.t \in {"sinwt", "sinnum"} -> [ph |-> 0, off |-> 0, step |-> FDiv(ParF(a, q), S.sr * One)]
    [] c.t = "pan" -> [pan |-> ParF(a, q)]
    [] c.t = "olpf" -> [y |-> 0, b |-> PoleOf(ParF(a, q), S.sr)]
    [] c.t = "ohpf" -> [y |-> 0, b |-> PoleOf(0, S.sr)]
    [] c.t = "svf" -> LET d == [ty |-> c.k % 9, f |-> ParF(a, q), q |-> ParF(b, q), db |-> Get(c, "g", 0) * One]
                      IN [d |-> d, s |-> <<0, 0>>, co |-> SvfOf(d.ty, d.f, d.q, d.db, S.sr)]
    [] c.t = "blep" -> [ph |-> 0, dt |-> Turns(ParF(a, q), S.sr), pw |-> 500000, w |-> IF c.k < 14 THEN c.k ELSE 0]
    [] c.t = "clo0" -> [cnt |-> 0]
    [] c.t = "sdelay" -> [hist |-> <<>>, d |-> 0, max |-> MaxFrames(a, q, S)]
    \* a delay of n frames, followed by an allpass of the first order with coefficient c, which was put in x1 and has put out y1
    [] c.t \in {"adelay", "fdelay"} -> LET m == Max2(1, MaxFrames(a, q, S)) IN [hist |-> <<>>, n |-> m, max |-> m, c |-> One, x1 |-> 0, y1 |-> 0, g |-> 0]
    [] c.t = "ssd" -> [hist |-> <<>>, d |-> c.n, max |-> c.n, fresh |-> FALSE, left |-> 0]
    [] c.t \in {"asr", "are"} -> [s |-> "stop", t |-> 0, ar |-> Rate(a, q, S), rr |-> Rate(b, q, S), rs |-> S.sc]
    [] c.t = "env" -> [run |-> FALSE, seg |-> 1, t |-> 0, from |-> Over(Times(a, S.sc), q), ts |-> Over(Times(b, 2), q)]
    [] c.t \in {"buf1", "buf2"} ->
         LET st == Over(Times(Times(Get(c, "st", 0), c.bsr), PQ), q) IN
         [ptr |-> st, rate |-> <<a, q>>, fin |-> FALSE, loop |-> Get(c, "loop", 0) /= 0, start |-> st, dur |-> BufDur(c, S), end |-> Plus(st, BufDur(c, S))]
    [] OTHER -> [none |-> 0]

Cube(t, S) == Over(Times(t, 8), S.sc)    \* t in eighths; NUL unless it is exact
\* t^3 * rs
Released(t, rs, S) == LET k == Cube(t, S) IN IF k = NUL \/ rs = NUL THEN NUL ELSE (k * k * k * rs) \div 512

BaseApply(c, st, i, k, v, q, S) ==
  LET val(m) == Over(Times(v, m), q)
      float == k = "f"
      trig == k = "t"
      frames == Frames(v, q, 1, S)
  IN
  CASE c.t = "tw" ->
         IF i = 0 /\ float THEN [st EXCEPT !.a = val(S.sc)]
         ELSE IF i = 1 /\ float THEN [st EXCEPT !.b = val(S.sc)]
         ELSE IF i = 2 /\ trig THEN [st EXCEPT !.tr = @ + 1, !.done = TRUE]
         ELSE st
    [] c.t = "const" -> IF float THEN [st EXCEPT !.a = val(S.sc)] ELSE st
    [] c.t = "dot" -> IF trig THEN [st EXCEPT !.done = TRUE] ELSE st
    [] c.t = "phasor" -> IF float THEN [st EXCEPT !.step = Over(Times(v, S.sc), Times(q, S.sr))] ELSE st
    [] c.t \in {"sinwt", "sinnum"} ->
         IF i = 0 /\ float THEN [st EXCEPT !.step = FDiv(ParF(v, q), S.sr * One)]
         ELSE IF i = 1 /\ float THEN [st EXCEPT !.off = ParF(v, q)]
         ELSE IF i = 2 /\ trig THEN [st EXCEPT !.ph = 0]
         ELSE st
    [] c.t = "pan" -> IF float THEN [st EXCEPT !.pan = ParF(v, q)] ELSE st
    [] c.t \in {"olpf", "ohpf"} -> IF float THEN [st EXCEPT !.b = PoleOf(ParF(v, q), S.sr)] ELSE st
    [] c.t = "svf" ->
         LET d == IF i = 0 /\ float THEN [st.d EXCEPT !.f = ParF(v, q)]
                  ELSE IF i = 1 /\ float THEN [st.d EXCEPT !.q = ParF(v, q)]
                  ELSE IF i = 2 /\ float THEN [st.d EXCEPT !.db = ParF(v, q)]
                  ELSE IF i = 3 /\ k = "i" THEN [st.d EXCEPT !.ty = IF v < 9 THEN v ELSE 0]
                  ELSE st.d
         IN [st EXCEPT !.d = d, !.co = SvfOf(d.ty, d.f, d.q, d.db, S.sr)]
    [] c.t = "blep" ->
         IF i = 0 /\ float THEN [st EXCEPT !.dt = Turns(ParF(v, q), S.sr)]
         ELSE IF i = 1 /\ float THEN [st EXCEPT !.pw = ParF(v, q)]
         ELSE IF i = 2 /\ k = "i" THEN [st EXCEPT !.w = IF v < 14 THEN v ELSE 0]
         ELSE st
    [] c.t = "sdelay" -> IF float THEN [st EXCEPT !.d = IF frames = NUL THEN NUL ELSE Max2(0, Min2(frames, st.max))] ELSE st
    [] c.t \in {"adelay", "fdelay"} ->
         IF i = 0 /\ float THEN LET vv == v * S.sr
                                    fr == IF Abs(vv \div q) >= 2000 \/ q > 2000 THEN FNUL ELSE (vv \div q) * One + ((vv % q) * One) \div q
                                    n == fr \div One
                                    d == fr % One
                                    \* at least one frame; the allpass delays by a half to one and a half frames, if there are that many
                                    ap(x) == FDiv(One - x, One + x)
                                IN IF fr = FNUL THEN [st EXCEPT !.n = NUL]
                                   ELSE IF n > st.max THEN st
                                   ELSE IF n < 1 THEN [st EXCEPT !.n = 1, !.c = One]
                                   ELSE IF n > 1 /\ d < 500000 THEN [st EXCEPT !.n = n - 1, !.c = ap(d + One)]
                                   ELSE [st EXCEPT !.n = n, !.c = ap(d)]
         ELSE IF i = 1 /\ float THEN [st EXCEPT !.g = ParF(v, q)]
         ELSE st
    [] c.t = "ssd" -> IF k = "i" THEN LET d == Max2(1, Min2(v, st.max)) IN [st EXCEPT !.d = d, !.left = IF d = st.d THEN @ ELSE 2 * st.max]
                      ELSE st
    [] c.t \in {"asr", "are"} ->
         IF i = 0 /\ float THEN [st EXCEPT !.ar = Rate(v, q, S)]
         ELSE IF i = 1 /\ float THEN [st EXCEPT !.rr = Rate(v, q, S)]
         ELSE IF c.t = "asr" /\ i = 2 /\ trig THEN
                (IF st.s = "att" THEN [st EXCEPT !.rs = st.t, !.s = "rel", !.t = S.sc]
                 ELSE IF st.s = "sus" THEN [st EXCEPT !.rs = S.sc, !.s = "rel", !.t = S.sc]
                 ELSE st)
         ELSE IF i = (IF c.t = "asr" THEN 3 ELSE 2) /\ trig THEN
                \* it goes on from the current value
                [st EXCEPT !.s = "att", !.t = IF st.s = "rel" THEN Released(st.t, st.rs, S) ELSE @]
         ELSE st
    [] c.t = "env" ->
         LET n == Len(c.segs)
             D(j) == Over(Times(Times(c.segs[j][1], 2), S.sr), Get(c, "q", 1))
             T(j) == Over(Times(c.segs[j][2], S.sc), Get(c, "q", 1))
             now == IF st.run THEN IF st.t # NUL /\ D(st.seg) # NUL /\ st.t >= D(st.seg) THEN T(st.seg) ELSE Plus(st.from, Over(Times(Minus(T(st.seg), st.from), st.t), D(st.seg))) ELSE st.from
         IN
         IF i = 0 /\ float THEN [st EXCEPT !.ts = val(2)]
         ELSE IF i = 1 /\ k = "i" THEN [st EXCEPT !.run = TRUE, !.seg = Min2(v, n - 1) + 1, !.t = 0]
         ELSE IF i = 2 /\ trig THEN [st EXCEPT !.run = TRUE, !.seg = 1, !.t = 0, !.from = Over(Times(Get(c, "a", 0), S.sc), Get(c, "q", 1))]
         ELSE IF i = 3 /\ trig THEN [st EXCEPT !.run = FALSE, !.from = now]
         ELSE st
    [] c.t \in {"buf1", "buf2"} ->
         LET x == Over(Times(Times(v, c.bsr), PQ), q) IN
         IF i = 0 /\ float THEN [st EXCEPT !.rate = <<v, q>>]
         ELSE IF i = 1 /\ k = "b" THEN [st EXCEPT !.loop = v /= 0]
         ELSE IF i = 2 /\ float THEN [st EXCEPT !.start = x, !.end = Plus(x, st.dur)]
         ELSE IF i = 3 /\ float THEN LET d == IF v < 0 THEN BufDur(c, S) ELSE x IN [st EXCEPT !.dur = d, !.end = Plus(st.start, d)]
         ELSE IF i = 4 /\ float THEN [st EXCEPT !.end = x]
         ELSE IF i = 5 /\ trig THEN [st EXCEPT !.ptr = st.start, !.fin = FALSE]
         ELSE st
    [] OTHER -> st

Past(hist, d, x) == IF d = 0 THEN x ELSE IF d = NUL THEN NUL ELSE IF d > Len(hist) THEN 0 ELSE hist[Len(hist) + 1 - d]
Push(hist, x, max) == IF max = NUL THEN hist ELSE IF Len(hist) <= max THEN Append(hist, x) ELSE Append(Tail(hist), x)

RECURSIVE Root(_, _)
Root(x, r) == IF r * r = x THEN r ELSE IF r * r > x THEN NUL ELSE Root(x, r + 1)
Fix(x, S, mode) ==
  IF x = NUL THEN NUL
  ELSE LET fl == (x \div S.sc) * S.sc
           ce == -(((-x) \div S.sc) * S.sc)
       IN CASE mode = "floor" -> fl
            [] mode = "ceil" -> ce
            [] mode = "trunc" -> IF x < 0 THEN ce ELSE fl
            [] mode = "fract" -> x - (IF x < 0 THEN ce ELSE fl)

\* Result: output, new state, done: 0 no, 1 in this frame, 2 after this frame, 3 can't tell
Fr(o, st, done) == [o |-> o, st |-> st, done |-> done]
Op2(op, a, b, S) ==
  CASE op = "add" -> Plus(a, b)
    [] op = "sub" -> Minus(a, b)
    [] op = "mul" -> Over(Times(a, b), S.sc)
    [] op = "div" -> IF S.sc = 1000 THEN OutF(FDiv(ToF(a, S), ToF(b, S)), S) ELSE Over(Times(a, S.sc), b)
    [] op = "pow" -> IF S.sc /= 1 \/ b = NUL \/ b < 0 \/ b > 8 THEN NUL ELSE PowI(a, b)
BaseFrame(c, st, x, S) ==
  CASE c.t = "tw" ->
         LET tick == Times(Get(c, "tk", 0), st.cnt)
             v == Plus(Plus(Plus(Plus(Plus(Get(c, "b", 0), st.a), Times(2, st.b)), 5 * st.tr), tick), Plus(x[1], Times(2, x[2])))
         IN Fr(<<v, Plus(v, 10)>>, [st EXCEPT !.cnt = @ + 1, !.done = FALSE], IF st.done THEN 1 ELSE 0)
    [] c.t = "const" -> Fr(<<st.a>>, st, 0)
    [] c.t = "dot" -> Fr(<<>>, [st EXCEPT !.done = FALSE], IF st.done THEN 1 ELSE 0)
    [] c.t \in DOMAIN MathUs ->
         LET n == MathUs[c.t][2]
         IN Fr([k \in 1 .. n |-> Op2(MathUs[c.t][1], x[k], x[n + k], S)], st, 0)
    [] c.t = "clo2" -> Fr(<<Plus(x[1], Times(3, x[2]))>>, st, 0)
    [] c.t = "clo1" -> Fr(<<Plus(x[1], S.sc), Times(2, x[1])>>, st, 0)
    [] c.t \in {"floor", "ceil", "trunc", "fract"} -> Fr(<<Fix(x[1], S, c.t)>>, st, 0)
    [] c.t = "sqrt" -> Fr(<<IF S.sc = 1000 THEN OutF(FSqrt(ToF(x[1], S)), S) ELSE IF x[1] = NUL \/ x[1] < 0 \/ x[1] > 10000 THEN NUL ELSE Root(x[1] * S.sc, 0)>>, st, 0)
    [] c.t = "exp" -> Fr(<<IF S.sc = 1000 THEN OutF(FExp(ToF(x[1], S)), S) ELSE IF x[1] = 0 THEN S.sc ELSE NUL>>, st, 0)
    [] c.t = "lim" -> Fr(<<IF x[1] = NAN THEN 0 ELSE IF x[1] = NUL THEN NUL ELSE Max2(-S.sc, Min2(S.sc, x[1]))>>, st, 0)
    [] c.t = "phasor" ->
         LET p == Plus(st.ph, st.step) IN
         Fr(<<st.ph>>, [st EXCEPT !.ph = IF p = NUL THEN NUL ELSE p % S.sc], 0)
    [] c.t \in {"sinwt", "sinnum"} ->
         Fr(<<OutF(FSin(FAdd(st.ph, st.off)), S)>>,
            [st EXCEPT !.ph = IF FAdd(@, st.step) = FNUL THEN FNUL ELSE Turn(@ + st.step)], 0)
    [] c.t = "pan" -> LET g == IF st.pan = FNUL THEN <<FNUL, FNUL>> ELSE PanOf(st.pan)
                      IN Fr(<<OutF(FMul(ToF(x[1], S), g[1]), S), OutF(FMul(ToF(x[1], S), g[2]), S)>>, st, 0)
    [] c.t \in {"olpf", "ohpf"} ->
         LET v == ToF(x[1], S)
             y == PoleStep(st.y, v, st.b)
         IN Fr(<<OutF(IF c.t = "olpf" THEN y ELSE FSub(v, y), S)>>, [st EXCEPT !.y = y], 0)
    [] c.t = "svf" -> LET r == SvfStep(st.co, st.s, ToF(x[1], S)) IN Fr(<<OutF(r.y, S)>>, [st EXCEPT !.s = r.s], 0)
    [] c.t = "blep" -> IF st.ph = NUL \/ st.dt = NUL THEN Fr(<<NUL>>, [st EXCEPT !.ph = NUL], 0)
                       ELSE Fr(<<IF st.pw <= 0 \/ st.pw >= One THEN NUL ELSE OutF(Wave(st.w, st.pw, st.ph, st.dt), S)>>, [st EXCEPT !.ph = Turn(@ + st.dt)], 0)
    [] c.t = "clo0" -> Fr(<<Times(st.cnt + 1, S.sc)>>, [st EXCEPT !.cnt = @ + 1], 0)
    [] c.t = "sdelay" -> Fr(<<Past(st.hist, st.d, x[1])>>, [st EXCEPT !.hist = Push(@, x[1], st.max)], 0)
    [] c.t = "ssd" -> Fr(<<IF st.left > 0 THEN NUL ELSE Past(st.hist, st.d, x[1])>>,
                         [st EXCEPT !.hist = Push(@, x[1], st.max), !.left = Max2(0, @ - 1)], 0)
    [] c.t \in {"adelay", "fdelay"} ->
         LET v == IF st.n = NUL THEN FNUL ELSE Past(st.hist, st.n, 0)
             d == IF st.c = One THEN v ELSE FAdd(FMul(st.c, FSub(v, st.y1)), st.x1)
             w == FAdd(ToF(x[1], S), IF c.t = "adelay" THEN 0 ELSE FMul(d, st.g))
             o == IF c.t = "adelay" THEN d ELSE FSub(d, FMul(w, st.g))
         IN Fr(<<OutE(o, S)>>, [st EXCEPT !.hist = Push(@, w, st.max), !.x1 = v, !.y1 = d], 0)
    [] c.t \in {"asr", "are"} ->
         CASE st.s = "stop" -> Fr(<<0>>, st, 0)
           [] st.s = "sus" -> Fr(<<S.sc>>, st, 0)
           [] st.s = "att" ->
                LET t2 == Plus(st.t, st.ar) IN
                Fr(<<st.t>>, IF t2 = NUL THEN [st EXCEPT !.t = NUL, !.s = "lost"]
                             ELSE IF t2 >= S.sc THEN [st EXCEPT !.t = S.sc, !.rs = S.sc, !.s = IF c.t = "asr" THEN "sus" ELSE "rel"]
                             ELSE [st EXCEPT !.t = t2], 0)
           [] st.s = "rel" ->
                LET t2 == Minus(st.t, st.rr) IN
                Fr(<<Released(st.t, st.rs, S)>>,
                   IF t2 = NUL THEN [st EXCEPT !.t = NUL, !.s = "lost"]
                   ELSE IF t2 <= 0 THEN [st EXCEPT !.t = 0, !.s = "stop"]
                   ELSE [st EXCEPT !.t = t2], IF t2 /= NUL /\ t2 <= 0 THEN 1 ELSE 0)
           [] OTHER -> Fr(<<NUL>>, st, 3)
    [] c.t = "env" ->
         IF ~st.run THEN Fr(<<st.from>>, st, 0)
         ELSE LET D == Over(Times(Times(c.segs[st.seg][1], 2), S.sr), Get(c, "q", 1))
                  T == Over(Times(c.segs[st.seg][2], S.sc), Get(c, "q", 1))
              IN IF D = NUL \/ T = NUL \/ st.t = NUL \/ st.ts = NUL THEN Fr(<<NUL>>, [st EXCEPT !.t = NUL, !.from = NUL], 3)
                 ELSE IF st.t < D THEN Fr(<<Plus(st.from, Over(Times(Minus(T, st.from), st.t), D))>>, [st EXCEPT !.t = @ + st.ts], 0)
                 ELSE IF st.seg < Len(c.segs) THEN Fr(<<T>>, [st EXCEPT !.from = T, !.seg = @ + 1, !.t = @ - D + st.ts], 0)
                 ELSE IF Get(c, "loop", 0) /= 0 THEN Fr(<<T>>, [st EXCEPT !.from = T, !.seg = 1, !.t = 0], 0)
                 ELSE Fr(<<T>>, [st EXCEPT !.from = T, !.run = FALSE], 1)
    [] c.t \in {"buf1", "buf2"} ->
         LET n == IF c.t = "buf1" THEN 1 ELSE 2
             N == BufLen(c)
             step == Over(Times(Times(Times(st.rate[1], c.bsr), PQ), 1), Times(st.rate[2], S.sr))
             k == st.ptr \div PQ
             m == st.ptr % PQ
             at(f, ch) == c.data[f * n + ch]
             o == [ch \in 1 .. n |-> IF st.ptr = NUL THEN NUL
                                     ELSE IF k >= N THEN 0
                                     ELSE at(k, ch) * (PQ - m) + at(IF k + 1 = N THEN 0 ELSE k + 1, ch) * m]
             p == Plus(st.ptr, step)
             end == IF st.end = NUL THEN NUL ELSE Min2(st.end, N * PQ)
         IN IF st.fin THEN Fr([ch \in 1 .. n |-> 0], st, 0)
            ELSE IF p = NUL \/ end = NUL THEN Fr(o, [st EXCEPT !.ptr = NUL], 3)
            ELSE IF p < end THEN Fr(o, [st EXCEPT !.ptr = p], 0)
            ELSE IF st.loop THEN Fr(o, [st EXCEPT !.ptr = st.start], 0)
            ELSE Fr(o, [st EXCEPT !.ptr = p, !.fin = TRUE], 2)
    [] OTHER -> Fr([ch \in 1 .. Outs(c.t) |-> NUL], st, 0)

------------------------------------------------------------------------------
(* Layers                                                                    *)
LayerInit(lay, k, S) ==
  LET c == lay[k] IN
  IF k = Len(lay) THEN BaseInit(c, S)
  ELSE CASE c.t = "mul" -> [v |-> <<Get(c, "v", 0), Get(c, "q", 1)>>]
         [] c.t = "prec" -> [wait |-> <<>>]
         [] c.t = "ar" -> [conn |-> {}]
         [] c.t = "smooth" -> [p |-> [i \in 0 .. NPar(lay, k) - 1 |-> NoSmooth]]
         [] OTHER -> [none |-> 0]

Init0(e) ==
  LET S0 == [sc |-> Get(e, "sc", 1), isc |-> Get(e, "isc", 1), sr |-> e.sr, bs |-> e.bs, u |-> e.u, ref |-> Get(e, "ref", 0) /= 0]
      lay == Flat(e.u)
  IN S0 @@ [lay |-> lay, st |-> [k \in 1 .. Len(lay) |-> LayerInit(lay, k, S0)],
            arb |-> [i \in 0 .. 7 |-> [f \in 1 .. e.bs |-> 0]]]

Interp(s) == IF s.el >= s.dur THEN s.end
             ELSE Plus(s.start, Over(Times(Minus(s.end, s.start), s.el), s.dur))

\* a change of parameter i of the stack from layer k on; delay within the block: d
RECURSIVE ParamTo(_, _, _, _, _, _, _)
ParamTo(S, k, i, kd, v, q, d) ==
  LET c == S.lay[k]
      st == S.st[k]
      down == ParamTo(S, k + 1, i, kd, v, q, d)
  IN
  IF k = Len(S.lay) THEN [S EXCEPT !.st[k] = BaseApply(c, st, i, kd, v, q, S)]
  ELSE CASE c.t = "mul" /\ i = NPar(S.lay, k + 1) -> IF kd = "f" THEN [S EXCEPT !.st[k].v = <<v, q>>] ELSE S
         [] c.t = "prec" ->
              IF d = 0 THEN ParamTo(S, k + 1, i, kd, v, q, 0)
              ELSE IF Len(st.wait) < 3 THEN [S EXCEPT !.st[k].wait = Append(@, <<d, i, kd, v, q>>)]
              ELSE S
         [] c.t = "ar" -> IF i \in st.conn THEN S ELSE down
         [] c.t = "smooth" ->
              LET s == st.p[i] IN
              CASE kd = "f" ->
                     IF s.conn THEN S
                     ELSE IF s.mode = "n" THEN [ParamTo(S, k + 1, i, kd, v, q, d) EXCEPT !.st[k].p[i].end = Over(Times(v, S.sc), q)]
                     ELSE [S EXCEPT !.st[k].p[i] = [@ EXCEPT !.start = Interp(s), !.end = Over(Times(v, S.sc), q), !.el = 0, !.done = FALSE]]
                [] kd = "sn" -> [S EXCEPT !.st[k].p[i] = [@ EXCEPT !.mode = "n", !.end = Interp(s), !.done = TRUE]]
                [] kd \in {"sb", "sa"} ->
                     LET dur == Frames(v, q, 1, S)
                         r == IF kd = "sb" THEN "b" ELSE "a"
                     IN IF s.mode = "n" THEN [S EXCEPT !.st[k].p[i] = [@ EXCEPT !.mode = "l", !.start = s.end, !.dur = dur, !.el = 0, !.done = TRUE, !.rate = r]]
                        ELSE [S EXCEPT !.st[k].p[i] = [@ EXCEPT !.start = Interp(s), !.dur = dur, !.el = 0, !.rate = r]]
                [] OTHER -> down
         [] OTHER -> down

\* a checked change, by index (i) or by name (n): what it answers, and the state
SetTo(S, e) ==
  LET ps == Pars(S.lay, 1)
      named == {j \in 1 .. Len(ps) : ps[j][1] = Get(e, "n", "")}
      j == IF "i" \in DOMAIN e THEN e.i + 1 ELSE IF named = {} THEN 0 ELSE CHOOSE x \in named : \A y \in named : x <= y
  IN IF "i" \in DOMAIN e /\ e.i >= Len(ps) THEN [r |-> "index", S |-> S]
     ELSE IF j = 0 THEN [r |-> "name " \o e.n, S |-> S]
     ELSE IF ps[j][2] # KindType(e.k) THEN [r |-> "type", S |-> S]
     ELSE [r |-> "ok", S |-> ParamTo(S, 1, j - 1, e.k, Get(e, "v", 0), Get(e, "q", 1), 0)]

\* a signal is connected to / disconnected from parameter i
RECURSIVE ArTo(_, _, _, _)
ArTo(S, k, i, on) ==
  LET c == S.lay[k] IN
  IF k = Len(S.lay) THEN S
  ELSE CASE c.t = "mul" /\ i = NPar(S.lay, k + 1) -> S
         [] c.t = "ar" -> [S EXCEPT !.st[k].conn = IF on THEN @ \cup {i} ELSE @ \ {i}]
         [] c.t = "smooth" -> ArTo([S EXCEPT !.st[k].p[i].conn = on], k + 1, i, on)
         [] OTHER -> ArTo(S, k + 1, i, on)

RECURSIVE SetAll(_, _, _)
SetAll(S, k, cs) == IF cs = <<>> THEN S
                    ELSE SetAll(ParamTo(S, k, cs[1][1], cs[1][2], cs[1][3], cs[1][4], 0), k, Tail(cs))
RECURSIVE SortedSeq(_)
SortedSeq(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o SortedSeq(s \ {m})

\* before frame f (from 0): what layer k sends to the layers below it.
\* piece: the number of frames of the piece of the block that starts with this frame, 0 if none does
RECURSIVE Before(_, _, _, _)
Before(S, k, f, piece) ==
  IF k = Len(S.lay) THEN S
  ELSE
  LET c == S.lay[k]
      st == S.st[k]
      T == CASE c.t = "prec" ->
                  LET due == SelectSeq(st.wait, LAMBDA w : w[1] <= f)
                      R == [S EXCEPT !.st[k].wait = SelectSeq(@, LAMBDA w : w[1] > f)]
                  IN SetAll(R, k + 1, [j \in 1 .. Len(due) |-> <<due[j][2], due[j][3], due[j][4], due[j][5]>>])
             [] c.t = "ar" ->
                  LET is == SortedSeq(st.conn)
                  IN SetAll(S, k + 1, [j \in 1 .. Len(is) |-> <<is[j], "f", S.arb[is[j]][f + 1], 1>>])
             [] c.t = "smooth" ->
                  LET n == NPar(S.lay, k)
                      emits(i) == LET s == st.p[i] IN s.mode = "l" /\ ~s.done /\ (s.rate = "a" \/ piece > 0)
                      is == SortedSeq({i \in 0 .. n - 1 : emits(i)})
                      R == [S EXCEPT !.st[k].p = [i \in 0 .. n - 1 |->
                              LET s == st.p[i] IN
                              IF ~emits(i) THEN s
                              ELSE IF s.el >= s.dur THEN [s EXCEPT !.done = TRUE]
                              ELSE [s EXCEPT !.el = Min2(s.dur, @ + (IF s.rate = "a" THEN 1 ELSE piece))]]]
                      val(i) == Interp(st.p[i])
                  IN SetAll(R, k + 1, [j \in 1 .. Len(is) |-> <<is[j], "f", val(is[j]), S.sc>>])
             [] OTHER -> S
  IN Before(T, k + 1, f, piece)

\* layer k's change of a sample
Post(S, k, y) ==
  LET c == S.lay[k]
      v == Over(Times(Get(c, "v", 0), S.sc), Get(c, "q", 1))
  IN CASE c.t = "mul" -> Over(Times(y, S.st[k].v[1]), S.st[k].v[2])
       [] c.t = "add" -> Plus(y, v)
       [] c.t = "sub" -> Minus(y, v)
       [] c.t = "vsub" -> Minus(v, y)
       [] c.t = "div" -> Over(y, Get(c, "v", 0))
       [] c.t = "vdiv" -> IF S.sc /= 1 THEN NUL ELSE Over(v, y)
       [] c.t \in {"powf", "powi"} -> IF S.sc /= 1 \/ c.v < 0 \/ c.v > 4 THEN NUL ELSE PowI(y, c.v)
       [] c.t = "clo" -> Plus(Times(2, y), v)
       [] OTHER -> y
RECURSIVE PostAll(_, _, _)
PostAll(S, k, o) == IF k = 0 THEN o ELSE PostAll(S, k - 1, [ch \in 1 .. Len(o) |-> Post(S, k, o[ch])])

\* one frame of the whole stack: [o, S, done]
Frame(S, f, x, piece) ==
  LET S1 == Before(S, 1, f, piece)
      n == Len(S1.lay)
      r == BaseFrame(S1.lay[n], S1.st[n], x, S1)
  IN [o |-> PostAll(S1, n - 1, r.o), S |-> [S1 EXCEPT !.st[n] = r.st], done |-> r.done]

\* the pieces of a block: for every frame the number of frames of the piece that starts there, or 0
PieceAt(split, bs) ==
  LET RECURSIVE go(_, _)
      go(at, sp) == IF sp = <<>> THEN {}
                    ELSE (IF sp[1][2] = "f" THEN {<<at + j, 1>> : j \in 0 .. sp[1][1] - 1} ELSE {<<at, sp[1][1]>>}) \cup go(at + sp[1][1], Tail(sp))
      ps == go(0, IF split = <<>> THEN <<<<bs, "b">>>> ELSE split)
  IN [f \in 0 .. bs - 1 |-> IF \E p \in ps : p[1] = f THEN (CHOOSE p \in ps : p[1] = f)[2] ELSE 0]

RECURSIVE Block(_, _, _, _, _, _)
Block(S, in, pieces, f, os, ds) ==
  IF f = S.bs THEN [S |-> S, o |-> os, done |-> ds \ {-1}, known |-> -1 \notin ds]
  ELSE LET x == [c \in 1 .. Len(in) |-> in[c][f + 1]]
           r == TLCEval(Frame(S, f, x, pieces[f]))
       IN Block(r.S, in, pieces, f + 1, Append(os, r.o), CASE r.done = 0 -> ds [] r.done = 3 -> ds \cup {-1} [] OTHER -> ds \cup {f + r.done - 1})

\* the signals that are connected, from now on
RECURSIVE Signals(_, _)
Signals(arb, ar) == IF ar = <<>> THEN arb ELSE Signals([arb EXCEPT ![ar[1][1]] = ar[1][2]], Tail(ar))

\* [o: frames of samples, done: set of frames, S]
Process(S, e) == Block([S EXCEPT !.arb = Signals(@, Get(e, "ar", <<>>))], e.in, PieceAt(Get(e, "split", <<>>), S.bs), 0, <<>>, {})
=============================================================================
