-------------------------------- MODULE KDsp --------------------------------
(* Filters and waveforms, in the numbers of KFix. Times are in turns of the   *)
(* phase, frequencies in Hz.                                                  *)
EXTENDS KFix

------------------------------------------------------------------------------
(* One pole filters: y' = (1 - b) x + b y *)
PoleOf(f, sr) == IF f = FNUL THEN FNUL ELSE FExp(0 - FMul(FDiv(f, sr * One), Tau))
PoleStep(y, x, b) == FAdd(x, FMul(b, FSub(y, x)))

------------------------------------------------------------------------------
(* State variable filters: an integrator pair with damping k and gain g per   *)
(* frame; the output is m0 x + m1 band + m2 low                               *)
SvfOf(ty, f, q, db, sr) ==
  LET w == FTan(FDiv(f, 2 * sr * One))
      amp == FPow10(FDiv(db, 40 * One))
      r == FSqrt(amp)
      g == CASE ty \in {6, 7} -> FDiv(w, r) [] ty = 8 -> FMul(w, r) [] OTHER -> w
      k == IF ty = 6 THEN FDiv(One, FMul(q, amp)) ELSE FDiv(One, q)
      a1 == FDiv(One, FAdd(One, FMul(g, FAdd(g, k))))
      a2 == FMul(g, a1)
      amp2 == FMul(amp, amp)
  IN [a1 |-> a1, a2 |-> a2, a3 |-> FMul(g, a2),
      m |-> CASE ty = 0 -> <<0, 0, One>>                                      \* low
              [] ty = 1 -> <<One, FSub(0, k), -One>>                          \* high: what is left
              [] ty = 2 -> <<0, One, 0>>                                      \* band
              [] ty = 3 -> <<One, FSub(0, k), 0>>                             \* notch: low + high
              [] ty = 4 -> <<One, FSub(0, k), -2 * One>>                      \* peak: high - low
              [] ty = 5 -> <<One, FSub(0, FMul(2 * One, k)), 0>>              \* all
              [] ty = 6 -> <<One, FMul(k, FSub(amp2, One)), 0>>               \* bell
              [] ty = 7 -> <<One, FMul(k, FSub(amp, One)), FSub(amp2, One)>>  \* low shelf
              [] OTHER -> <<amp2, FMul(FMul(k, FSub(One, amp)), amp), FSub(One, amp2)>>]
SvfStep(co, s, x) ==
  LET v3 == FSub(x, s[2])
      v1 == FAdd(FMul(co.a1, s[1]), FMul(co.a2, v3))
      v2 == FAdd(s[2], FAdd(FMul(co.a2, s[1]), FMul(co.a3, v3)))
  IN [y |-> FAdd(FMul(co.m[1], x), FAdd(FMul(co.m[2], v1), FMul(co.m[3], v2))),
      s |-> <<FSub(FMul(2 * One, v1), s[1]), FSub(FMul(2 * One, v2), s[2])>>]

------------------------------------------------------------------------------
(* Waveforms without aliasing: the plain waveform, with its jumps (by how     *)
(* much) and bends (by which slope per turn) rounded off over a frame on both *)
(* sides                                                                      *)
Turn(t) == t % One
Triangle(t) == IF t <= 250000 THEN 4 * t ELSE IF t < 750000 THEN 2 * One - 4 * t ELSE 4 * t - 4 * One
Square(t) == IF t < 500000 THEN One ELSE -One
Clip(x) == IF x > One THEN One ELSE IF x < -One THEN -One ELSE x
TwoOverPi == 636620
Shape(w, p, t) ==
  LET k == FDiv(2 * One, FMul(p, One - p))     \* modified triangle
      s == FDiv(One, One - p)                  \* trapezoid
      q == p \div 4
      u == Turn(t + 750000 + p \div 2)         \* triangular pulse
      o == One + 250000 - p \div 2             \* ... starts here
  IN CASE w = 1 -> [y |-> FSin(t), jumps |-> <<>>, bends |-> <<>>]
       [] w = 2 -> [y |-> FCos(t), jumps |-> <<>>, bends |-> <<>>]
       [] w = 3 -> [y |-> Triangle(t), jumps |-> <<>>, bends |-> <<<<250000, -8 * One>>, <<750000, 8 * One>>>>]
       [] w = 4 -> [y |-> Square(t), jumps |-> <<<<0, 2>>, <<500000, -2>>>>, bends |-> <<>>]
       [] w = 5 -> [y |-> (IF t < p THEN 2 * One ELSE 0) - 2 * p, jumps |-> <<<<0, 2>>, <<p, -2>>>>, bends |-> <<>>]
       [] w = 6 -> [y |-> One - 2 * t, jumps |-> <<<<0, 2>>>>, bends |-> <<>>]
       [] w = 7 -> [y |-> IF 2 * t < p THEN FDiv(2 * t, p) ELSE IF 2 * t < 2 * One - p THEN One - FDiv(2 * t - p, One - p) ELSE FDiv(2 * t - 2 * One, p),
                    jumps |-> <<>>, bends |-> <<<<p \div 2, -k>>, <<One - p \div 2, k>>>>]
       [] w = 8 -> [y |-> (Square(Turn(t - 250000 + q)) + Square(Turn(t - 750000 - q))) \div 2,
                    jumps |-> <<<<250000 - q, 1>>, <<750000 - q, -1>>, <<750000 + q, 1>>, <<250000 + q, -1>>>>, bends |-> <<>>]
       [] w = 9 -> [y |-> (IF t < 500000 THEN 2 * FSin(t) ELSE 0) - TwoOverPi, jumps |-> <<>>, bends |-> <<<<0, 2 * Tau>>, <<500000, 2 * Tau>>>>]
       [] w = 10 -> [y |-> 2 * FSin(Turn(t + 250000) \div 2) - 2 * TwoOverPi, jumps |-> <<>>, bends |-> <<<<750000, 2 * Tau>>>>]
       [] w = 11 -> [y |-> (IF u >= p THEN 0 ELSE IF 2 * u >= p THEN 4 * One - FDiv(4 * u, p) ELSE FDiv(4 * u, p)) - p,
                     jumps |-> <<>>, bends |-> <<<<o, FDiv(4 * One, p)>>, <<o + p \div 2, -2 * FDiv(4 * One, p)>>, <<o + p, FDiv(4 * One, p)>>>>]
       [] w = 12 -> [y |-> Clip(2 * Triangle(t)), jumps |-> <<>>,
                     bends |-> <<<<125000, -8 * One>>, <<375000, -8 * One>>, <<625000, 8 * One>>, <<875000, 8 * One>>>>]
       [] w = 13 -> [y |-> Clip(FMul(s, Triangle(t))), jumps |-> <<>>,
                     bends |-> <<<<250000 - q, -4 * s>>, <<250000 + q, -4 * s>>, <<750000 - q, 4 * s>>, <<750000 + q, 4 * s>>>>]
       [] OTHER -> [y |-> 2 * Turn(t + 500000) - One, jumps |-> <<<<500000, -2>>>>, bends |-> <<>>]
\* after and before a jump from -1/2 to 1/2 at 0, in frames of dt turns
Jump(t, dt) == IF t < dt THEN LET x == FDiv(t, dt) - One IN -FMul(x, x)
               ELSE IF t > One - dt THEN LET x == FDiv(t - One, dt) + One IN FMul(x, x)
               ELSE 0
Bend(t, dt) == IF t < dt THEN LET x == FDiv(t, dt) - One IN -FMul(FMul(x, x), x) \div 3
               ELSE IF t > One - dt THEN LET x == FDiv(t - One, dt) + One IN FMul(FMul(x, x), x) \div 3
               ELSE 0
RECURSIVE Jumps(_, _, _)
Jumps(js, t, dt) == IF js = <<>> THEN 0 ELSE (Head(js)[2] * Jump(Turn(t - Head(js)[1]), dt)) \div 2 + Jumps(Tail(js), t, dt)
RECURSIVE Bends(_, _, _)
Bends(bs, t, dt) == IF bs = <<>> THEN 0 ELSE FMul(FMul(Head(bs)[2], dt), Bend(Turn(t - Head(bs)[1]), dt)) \div 2 + Bends(Tail(bs), t, dt)
\* from a quarter of the sampling rate on, it is a sine
Wave(w, p, t, dt) == IF 4 * dt >= One THEN FSin(t)
                     ELSE LET s == Shape(w, p, t) IN s.y + Jumps(s.jumps, t, dt) + Bends(s.bends, t, dt)

\* a position between left (-1) and right (1): same power for every position
PanOf(x) == LET h == (x + One) \div 8 IN <<FCos(h), FSin(h)>>
=============================================================================
