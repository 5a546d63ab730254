--------------------------------- MODULE KTime ---------------------------------
(* Times in seconds and beats (knaster_primitives/src/time.rs): whole seconds (beats) and tesimals  *)
(* of them.  A time is the natural number of its tesimals; sums, differences, products and the       *)
(* conversions from and to samples are exact (rounded down); conversions from and to floating point *)
(* numbers are exact up to the precision of those.                                                   *)
(*                                                                                                   *)
(* These numbers are beyond TLC's integers, so natural numbers are sequences of digits to the base   *)
(* 10^4, the least significant first, without leading zeros.                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

B == 10000
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE Nat2(_)
Num(n) == Nat2(n)
Nat2(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Nat2(n \div B)
Hd(a) == IF a = <<>> THEN 0 ELSE Head(a)
Tl(a) == IF a = <<>> THEN <<>> ELSE Tail(a)
RECURSIVE AddC(_, _, _)
AddC(a, b, c) == IF a = <<>> /\ b = <<>> THEN Num(c)
                 ELSE LET x == Hd(a) + Hd(b) + c IN <<x % B>> \o AddC(Tl(a), Tl(b), x \div B)
Add(a, b) == AddC(a, b, 0)
RECURSIVE SubC(_, _, _)
SubC(a, b, c) == IF a = <<>> THEN <<>>
                 ELSE LET x == Head(a) - Hd(b) - c IN <<(x + B) % B>> \o SubC(Tail(a), Tl(b), IF x < 0 THEN 1 ELSE 0)
Sub(a, b) == Trim(SubC(a, b, 0)) \* a >= b
RECURSIVE MulS(_, _, _)
MulS(a, n, c) == IF a = <<>> THEN Num(c) ELSE LET x == Head(a) * n + c IN <<x % B>> \o MulS(Tail(a), n, x \div B)
RECURSIVE MulC(_, _)
MulC(a, b) == IF b = <<>> THEN <<>> ELSE Add(MulS(a, Head(b), 0), <<0>> \o MulC(a, Tail(b)))
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MulC(a, b))
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
              ELSE \E i \in 1 .. Len(a) : a[i] < b[i] /\ \A j \in i + 1 .. Len(a) : a[j] = b[j]
Leq(a, b) == ~Less(b, a)
\* |a - b|
Dist(a, b) == IF Less(a, b) THEN Sub(b, a) ELSE Sub(a, b)
\* the greatest q in lo .. hi with q * b <= a
RECURSIVE Digit(_, _, _, _)
Digit(a, b, lo, hi) == IF lo = hi THEN lo
                       ELSE LET m == (lo + hi + 1) \div 2 IN IF Leq(Trim(MulS(b, m, 0)), a) THEN Digit(a, b, m, hi) ELSE Digit(a, b, lo, m - 1)
RECURSIVE DivC(_, _, _, _)
\* from the digit i down, with what is left of the digits above it; the quotient, most significant first
DivC(a, b, i, left) == IF i = 0 THEN [q |-> <<>>, r |-> left]
                       ELSE LET x == TLCEval(Trim(<<a[i]>> \o left))
                                d == TLCEval(Digit(x, b, 0, B - 1))
                                y == DivC(a, b, i - 1, Sub(x, Trim(MulS(b, d, 0))))
                            IN [q |-> Append(y.q, d), r |-> y.r]
DivMod(a, b) == LET x == TLCEval(DivC(a, b, Len(a), <<>>)) IN [q |-> Trim(x.q), r |-> x.r]
Div(a, b) == DivMod(a, b).q
RECURSIVE Pow2(_)
Pow2(k) == IF k >= 13 THEN Mul(Pow2(k - 13), <<8192>>) ELSE Num(2 ^ k)

---------------------------------------------------------------------------------------------------
One == <<1>>
\* tesimals of a second and of a beat
Unit(k) == IF k = "s" THEN Num(282240000) ELSE Num(1476034560)
Limit == Mul(Num(65536), Num(65536))
\* a pair of whole seconds and tesimals
Value(k, p) == Add(Mul(p[1], Unit(k)), p[2])
Normal(k, p) == Less(p[2], Unit(k))
Fits(k, v) == Less(Div(v, Unit(k)), Limit)
AsPair(k, v) == LET x == DivMod(v, Unit(k)) IN <<x.q, x.r>>

Plus(a, b) == Add(a, b)
Minus(a, b) == IF Less(a, b) THEN <<>> ELSE Sub(a, b)
Times(k, a, b) == Div(Mul(a, b), Unit(k))
FromSamples(n, r) == Div(Mul(n, Unit("s")), r)
ToSamples(v, r) == Div(Mul(v, r), Unit("s"))
FromDuration(s, n) == Div(Mul(Add(Mul(s, Num(1000000000)), n), Unit("s")), Num(1000000000))
FromFraction(b, n, f) == Add(Mul(b, Unit("b")), Mul(Div(Unit("b"), f), n))

\* a floating point number <<m, e>> is m * 2^e: numerator and denominator
NumOf(x) == IF x[2] > 0 THEN Mul(x[1], Pow2(x[2])) ELSE x[1]
DenOf(x) == IF x[2] < 0 THEN Pow2(-x[2]) ELSE One
\* v is num / den, but for less than `tol' and the precision of `bits'
Near(v, num, den, tol, bits) == Leq(Mul(Dist(Mul(v, den), num), Pow2(bits)), Add(Mul(Mul(Num(tol), den), Pow2(bits)), num))
\* x is num / den up to the precision
NearF(x, num, den, bits) == LET a == Mul(NumOf(x), den)
                                b == Mul(num, DenOf(x))
                            IN Leq(Mul(Dist(a, b), Pow2(bits)), b)
=============================================================================
