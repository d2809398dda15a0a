-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic inside TLC's 32-bit integers.                 *)
(*                                                                         *)
(* A number is a reduced pair <<n, d>>, d > 0, with |n|, d <= LIM; the     *)
(* infinities are <<1,0>> and <<-1,0>>; NaN = <<0,0>> stands for "too big  *)
(* or undetermined" and is absorbing, so that an overflow can only ever    *)
(* turn a verdict into "not checked", never into a wrong one.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LIM  == 30000
NaN  == <<0, 0>>
PInf == <<1, 0>>
NInf == <<-1, 0>>
Zero == <<0, 1>>
One  == <<1, 1>>

IsNaN(a) == a = NaN
IsInf(a) == a[2] = 0 /\ a[1] # 0
IsFin(a) == a[2] # 0
AbsI(n)  == IF n < 0 THEN -n ELSE n
SgnI(n)  == IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

MkR(n, d) ==          \* d # 0
  LET g  == GCD(AbsI(n), AbsI(d))
      nn == (SgnI(d) * n) \div g
      dd == AbsI(d) \div g
  IN  IF AbsI(nn) > LIM \/ dd > LIM THEN NaN ELSE <<nn, dd>>

Rat(n) == <<n, 1>>

LtR(a, b) == IF a[2] = 0 /\ b[2] = 0 THEN a[1] < b[1]
             ELSE a[1] * b[2] < b[1] * a[2]
LeR(a, b) == a = b \/ LtR(a, b)
MinR(a, b) == IF LtR(b, a) THEN b ELSE a
MaxR(a, b) == IF LtR(a, b) THEN b ELSE a

NegR(a) == <<-a[1], a[2]>>
AddR(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsInf(a) THEN (IF IsInf(b) /\ a # b THEN NaN ELSE a)
  ELSE IF IsInf(b) THEN b
  ELSE IF a[2] = b[2] THEN MkR(a[1] + b[1], a[2])
  ELSE MkR(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
SubR(a, b) == AddR(a, NegR(b))
MulR(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsInf(a) \/ IsInf(b)
       THEN LET s == SgnI(a[1]) * SgnI(b[1]) IN IF s = 0 THEN NaN ELSE <<s, 0>>
  ELSE MkR(a[1] * b[1], a[2] * b[2])
InvR(a) ==
  IF IsNaN(a) \/ a[1] = 0 THEN NaN
  ELSE IF IsInf(a) THEN Zero
  ELSE IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
DivR(a, b) == MulR(a, InvR(b))
RECURSIVE PowR(_, _)
PowR(a, n) == IF n = 0 THEN One ELSE MulR(a, PowR(a, n - 1))
AbsR(a) == <<AbsI(a[1]), a[2]>>
SgnR(a) == SgnI(a[1])

(* Integer products guarded against overflow: -1 means "too big". *)
MAXI == 2147483647
MulI(a, b) == IF a = 0 \/ b = 0 THEN 0
              ELSE IF a < 0 \/ b < 0 THEN -1
              ELSE IF a > MAXI \div b THEN -1 ELSE a * b
AddI(a, b) == IF a < 0 \/ b < 0 THEN -1
              ELSE IF a > MAXI - b THEN -1 ELSE a + b
LcmI(a, b) == MulI(a \div GCD(a, b), b)

SumR(s) == FoldLeft(AddR, Zero, s)
=============================================================================
