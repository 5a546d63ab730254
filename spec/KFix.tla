-------------------------------- MODULE KFix --------------------------------
(* Real numbers as multiples of a millionth, below a thousand (TLC's integers *)
(* have 32 bits). FNUL stands for a number that doesn't fit.                  *)
EXTENDS Integers, Sequences

One == 1000000
FBig == 1000000000
FNUL == 2000000000
FAbs(x) == IF x < 0 THEN -x ELSE x
FCut(x) == IF FAbs(x) >= FBig THEN FNUL ELSE x
FAdd(x, y) == IF x = FNUL \/ y = FNUL THEN FNUL ELSE FCut(x + y)
FSub(x, y) == IF x = FNUL \/ y = FNUL THEN FNUL ELSE FCut(x - y)
FMul(x, y) ==
  IF x = FNUL \/ y = FNUL THEN FNUL
  ELSE LET a == FAbs(x)
           b == FAbs(y)
           ah == a \div 1000
           al == a % 1000
           bh == b \div 1000
           bl == b % 1000
       IN IF bh > 0 /\ ah >= FBig \div bh THEN FNUL
          ELSE LET r == ah * bh + (ah * bl + al * bh + (al * bl + 500) \div 1000 + 500) \div 1000
               IN FCut(IF (x < 0) = (y < 0) THEN r ELSE -r)
RECURSIVE Digits(_, _, _)
Digits(rem, b, n) == IF n = 0 THEN 0 ELSE LET d == (rem * 10) \div b IN d * <<1, 10, 100, 1000, 10000, 100000>>[n] + Digits((rem * 10) % b, b, n - 1)
\* x / y, for y below 200
FDiv(x, y) ==
  IF x = FNUL \/ y = FNUL \/ y = 0 \/ FAbs(y) >= 200 * One THEN FNUL
  ELSE LET a == FAbs(x)
           b == FAbs(y)
       IN IF a \div b >= 1000 THEN FNUL
          ELSE LET r == (a \div b) * One + Digits(a % b, b, 6) IN IF (x < 0) = (y < 0) THEN r ELSE -r
\* the number v / q
FNum(v, q) == FDiv(v * One, q * One)

Tau == 6283185
RECURSIVE FPoly(_, _, _)
\* 1 + s x (1/c1) (1 + s x (1/c2) (...)), for cs = <<c1, c2, ...>>
FPoly(x, cs, s) == IF cs = <<>> THEN One ELSE One + s * (FMul(x, FPoly(x, Tail(cs), s)) \div Head(cs))
\* sine of t turns
FSin(t) ==
  IF t = FNUL THEN FNUL
  ELSE LET u == t % One
           v == u % 500000
           w == IF v > 250000 THEN 500000 - v ELSE v
           x == FMul(w, Tau)
           r == FMul(x, FPoly(FMul(x, x), <<6, 20, 42, 72, 110>>, -1))
       IN IF u > 500000 THEN -r ELSE r
FCos(t) == IF t = FNUL THEN FNUL ELSE FSin(t + 250000)
FTan(t) == FDiv(FSin(t), FCos(t))
RECURSIVE FExp(_)
RECURSIVE FExp2(_)
FExp(x) == IF x = FNUL \/ x > 6 * One THEN FNUL
           ELSE IF x < -14 * One THEN 0
           ELSE IF x < 0 THEN FDiv(One, FExp2(-x))
           ELSE FExp2(x)
FExp2(x) == IF x > 500000 THEN LET e == FExp(x \div 2) IN FMul(FMul(e, e), One + (x % 2)) ELSE FPoly(x, <<1, 2, 3, 4, 5, 6, 7>>, 1)
RECURSIVE FNewton(_, _, _)
FNewton(x, r, n) == IF n = 0 THEN r ELSE FNewton(x, (r + FDiv(x, r)) \div 2, n - 1)
FSqrt(x) == IF x = FNUL \/ x < 0 \/ x >= 100 * One THEN FNUL ELSE IF x = 0 THEN 0 ELSE FNewton(x, 10 * One, 14)
\* 10 ^ x
FPow10(x) == FExp(FMul(x, 2302585))

Near(x, y, e) == FAbs(x - y) <= e
ASSUME /\ Near(FMul(2500000, -1500000), -3750000, 0) /\ FMul(999 * One, 999 * One) = FNUL /\ Near(FMul(31622776, 31622776), 999999962, 2)
       /\ Near(FDiv(One, 3 * One), 333333, 1) /\ Near(FDiv(-22 * One, 7 * One), -3142857, 1)
       /\ Near(FSin(250000), One, 2) /\ Near(FSin(0 - 125000), -707107, 3) /\ FSin(0) = 0 /\ Near(FCos(333333), -499998, 5) /\ Near(FTan(125000), One, 8)
       /\ Near(FExp(One), 2718282, 8) /\ Near(FExp(-2 * One), 135335, 4) /\ Near(FExp(5 * One), 148413159, 300) /\ FExp(0) = One
       /\ Near(FSqrt(2 * One), 1414214, 2) /\ Near(FSqrt(30000), 173205, 4) /\ Near(FPow10(300000), 1995262, 12)
=============================================================================
