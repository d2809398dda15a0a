-------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Transforms: what a symbolic expression DENOTES at a value, and its image *)
(* on a gap of the line; and the truth of Boolean events.                  *)
(*                                                                         *)
(* A TERM is a record with field k:                                        *)
(*   var(v)                 a random variable                              *)
(*   addc(a,q) mulc(a,q) divc(a,q) rsubc(q,a) subc(a,q) neg(a)             *)
(*   add(a,a2) sub(a,a2) mul(a,a2)     over a common subexpression         *)
(*   powi(a,n) n > 0;  poly(a,c)  c[1] + c[2] x + c[3] x^2 ...             *)
(*   recip(a)  abs(a)  root(a,n)  exp(a,b)  log(a,b)   (b = <<0,1>>: e)    *)
(*   pw(p)                  pieces, a sequence of <<term, event>> records  *)
(* An EVENT is a record with field k:                                      *)
(*   lit(t,s)  and(xs)  or(xs)  not(x)  xor(x,x2)  tru                     *)
(***************************************************************************)
EXTENDS Line

E0 == <<0, 1>>      \* marks the natural base

(*--------------------------- polynomials --------------------------------*)
PolyAt(c, x) == FoldRight(LAMBDA ci, acc : AddR(MulR(acc, x), ci), c, Zero)
RECURSIVE Strip(_)
Strip(c) == IF Len(c) > 0 /\ c[Len(c)] = Zero THEN Strip(SubSeq(c, 1, Len(c) - 1)) ELSE c
PolyNaN(c) == \E i \in 1..Len(c) : IsNaN(c[i])
CoefAt(c, i) == IF i <= Len(c) THEN c[i] ELSE Zero
MaxI(a, b) == IF a < b THEN b ELSE a
PolyAdd(c, d) == [i \in 1..MaxI(Len(c), Len(d)) |-> AddR(CoefAt(c, i), CoefAt(d, i))]
PolyScale(c, q) == [i \in 1..Len(c) |-> MulR(c[i], q)]
PolyMul(c, d) ==
  [i \in 1..(Len(c) + Len(d) - 1) |->
     FoldLeft(LAMBDA acc, j : IF i + 1 - j \in 1..Len(d)
                              THEN AddR(acc, MulR(c[j], d[i + 1 - j])) ELSE acc,
              Zero, [j \in 1..Len(c) |-> j])]
PolyDeriv(c) == [i \in 1..(Len(c) - 1) |-> MulR(c[i + 1], Rat(i))]
PolyAtInf(c, s) ==   \* limit at s*infinity
  LET d == Strip(c)  m == Len(d) - 1 IN
  IF m <= 0 THEN CoefAt(c, 1)
  ELSE LET sg == SgnR(d[m + 1]) * (IF m % 2 = 0 THEN 1 ELSE s) IN <<sg, 0>>
PolyLim(c, x) == IF PolyNaN(c) THEN NaN ELSE IF IsInf(x) THEN PolyAtInf(c, x[1]) ELSE PolyAt(c, x)
Inside(r, lo, hi) == LtR(lo, r) /\ LtR(r, hi)

(* Is the sign of polynomial q constant on the open interval (lo, hi)?     *)
(* Sound: TRUE only when it is (zeros of even order excepted).             *)
SignConst(q0, lo, hi) ==
  LET q == Strip(q0)  m == Len(q) - 1 IN
  IF PolyNaN(q) THEN FALSE
  ELSE IF m <= 0 THEN TRUE
  ELSE IF m = 1 THEN LET r == NegR(DivR(q[1], q[2])) IN ~IsNaN(r) /\ ~Inside(r, lo, hi)
  ELSE IF m = 2 THEN
    LET disc == SubR(MulR(q[2], q[2]), MulR(Rat(4), MulR(q[1], q[3])))
        v    == NegR(DivR(q[2], MulR(Rat(2), q[3])))
        vl   == PolyLim(q, lo)  vh == PolyLim(q, hi)  vv == PolyLim(q, v)
    IN  IF IsNaN(disc) \/ IsNaN(v) \/ IsNaN(vl) \/ IsNaN(vh) \/ IsNaN(vv) THEN FALSE
        ELSE IF SgnR(disc) <= 0 THEN TRUE
        ELSE IF Inside(v, lo, hi) THEN SgnR(vv) * SgnR(vl) >= 0 /\ SgnR(vv) * SgnR(vh) >= 0
        ELSE SgnR(vl) * SgnR(vh) >= 0
  ELSE
    LET odd(i)  == i % 2 = 0       \* index of an odd power
        top     == q[m + 1]
        mono    == \A i \in 1..m : q[i] = Zero
        pos     == LeR(Zero, lo)   neg == LeR(hi, Zero)
        same    == \A i \in 1..(m + 1) : SgnR(q[i]) * SgnR(top) >= 0
        alt     == \A i \in 1..(m + 1) :
                      SgnR(q[i]) * SgnR(top) * (IF (m + 1 - i) % 2 = 0 THEN 1 ELSE -1) >= 0
        evn     == \A i \in 1..(m + 1) : odd(i) => q[i] = Zero
    IN \/ mono /\ (pos \/ neg \/ m % 2 = 0)
       \/ same /\ (pos \/ evn)
       \/ alt /\ neg

(*------------------- irrational values: rational brackets ----------------*)
PowIG[a \in 0..100000, n \in 0..20] == IF n = 0 THEN 1 ELSE MulI(a, PowIG[a, n - 1])
\* exact n-th root of a natural number, or -1
RECURSIVE RootFrom(_, _, _)
RootFrom(a, n, r) ==
  LET p == PowIG[r, n] IN
  IF p = a THEN r ELSE IF p < 0 \/ p > a THEN -1 ELSE RootFrom(a, n, r + 1)
IRoot(a, n) == RootFrom(a, n, 0)
RootPt(x, n) ==      \* x >= 0 finite
  LET r == IRoot(x[1], n)  s == IRoot(x[2], n) IN
  IF r >= 0 /\ s >= 0 THEN Pt(MkR(r, s))
  ELSE \* bracket in sixteenths (a coarser one when that would overflow)
    LET K   == IF n <= 2 THEN 16 ELSE IF n = 3 THEN 8 ELSE 2
        rhs == MulI(x[1], PowIG[K, n])
        lhs(i) == MulI(PowIG[i, n], x[2])
    IN IF rhs < 0 \/ n > 6 THEN Unknown
       ELSE LET up == CHOOSE i \in 1..2000 :
                        i = 2000 \/ lhs(i) < 0 \/ lhs(i) > rhs
            IN IF up = 2000 \/ lhs(up - 1) < 0 THEN Unknown
               ELSE Gap(MkR(up - 1, K), MkR(up, K))

\* brackets of e^k, k = -4..6
ExpETab == [k \in -4..6 |->
  CASE k = -4 -> <<183, 10000, 184, 10000>> [] k = -3 -> <<497, 10000, 498, 10000>>
    [] k = -2 -> <<1353, 10000, 1354, 10000>> [] k = -1 -> <<3678, 10000, 3679, 10000>>
    [] k = 0 -> <<1, 1>> [] k = 1 -> <<2718, 1000, 2719, 1000>>
    [] k = 2 -> <<7389, 1000, 7390, 1000>> [] k = 3 -> <<20085, 1000, 20086, 1000>>
    [] k = 4 -> <<5459, 100, 5460, 100>> [] k = 5 -> <<14841, 100, 14842, 100>>
    [] k = 6 -> <<40342, 100, 40343, 100>>]
Red(c) == IF IsGap(c) THEN Gap(MkR(c[1], c[2]), MkR(c[3], c[4])) ELSE c
\* brackets of ln n, n = 1..10 in thousandths (floor)
LnTab == <<0, 693, 1098, 1386, 1609, 1791, 1945, 2079, 2197, 2302>>
LnPt(x) ==           \* x > 0 finite
  IF x = One THEN Zero
  ELSE IF x[2] = 1 /\ x[1] <= 10 THEN Gap(MkR(LnTab[x[1]], 1000), MkR(LnTab[x[1]] + 1, 1000))
  ELSE IF x[1] = 1 /\ x[2] <= 10 THEN Gap(MkR(-LnTab[x[2]] - 1, 1000), MkR(-LnTab[x[2]], 1000))
  ELSE LET ks == {k \in -4..5 : /\ LtR(CHi(Red(ExpETab[k])), x)
                                /\ LtR(x, CLo(Red(ExpETab[k + 1])))}
       IN IF ks = {} THEN Unknown ELSE LET k == CHOOSE k \in ks : TRUE IN Gap(Rat(k), Rat(k + 1))
FloorR(x) == x[1] \div x[2]
PowZ(b, k) == IF k >= 0 THEN PowR(b, k) ELSE InvR(PowR(b, -k))
ExpPt(x, b) ==       \* x finite, b > 0 rational or e
  IF b = E0 THEN
    IF FloorR(x) \notin -4..5 THEN (IF x = Rat(6) THEN Red(ExpETab[6]) ELSE Unknown)
    ELSE IF x[2] = 1 THEN Red(ExpETab[x[1]])
    ELSE Gap(CLo(Red(ExpETab[FloorR(x)])), CHi(Red(ExpETab[FloorR(x) + 1])))
  ELSE IF b = One THEN Pt(One)
  ELSE IF AbsI(FloorR(x)) > 14 THEN Unknown
  ELSE IF x[2] = 1 THEN Pt(PowZ(b, x[1]))
  ELSE IF x[2] = 2 /\ LtR(Zero, x) THEN LET p == PowR(b, x[1]) IN IF IsNaN(p) THEN Unknown ELSE RootPt(p, 2)
  ELSE LET u == PowZ(b, FloorR(x))  v == PowZ(b, FloorR(x) + 1) IN
       IF IsNaN(u) \/ IsNaN(v) THEN Unknown ELSE Gap(MinR(u, v), MaxR(u, v))
LogPt(x, b) ==       \* x > 0 finite, b > 1 rational or e
  IF b = E0 THEN LnPt(x)
  ELSE LET ks == {k \in -14..14 : PowZ(b, k) = x} IN
       IF ks # {} THEN Rat(CHOOSE k \in ks : TRUE)
       ELSE LET js == {k \in -14..13 : /\ ~IsNaN(PowZ(b, k)) /\ ~IsNaN(PowZ(b, k + 1))
                                       /\ LtR(PowZ(b, k), x) /\ LtR(x, PowZ(b, k + 1))}
            IN IF js = {} THEN Unknown
               ELSE LET k == CHOOSE k \in js : TRUE IN Gap(Rat(k), Rat(k + 1))

(*----------------------- primitive maps on cells -------------------------*)
(* A primitive is a record [f, c, n, b].                                    *)
PPoly(c) == [f |-> "poly", c |-> c, n |-> 0, b |-> Zero]
PFn(f, n, b) == [f |-> f, c |-> <<>>, n |-> n, b |-> b]

PtApp(p, x) ==       \* x a number, possibly infinite
  CASE p.f = "poly"  -> Pt(PolyLim(p.c, x))
    [] p.f = "abs"   -> Pt(AbsR(x))
    [] p.f = "recip" -> IF x = Zero THEN Undef ELSE Pt(InvR(x))
    [] p.f = "root"  -> IF LtR(x, Zero) THEN Undef ELSE IF IsInf(x) THEN PInf ELSE RootPt(x, p.n)
    [] p.f = "exp"   -> IF IsInf(x) THEN
                          (IF p.b = One THEN One
                           ELSE IF (p.b = E0 \/ LtR(One, p.b)) = (x = PInf) THEN PInf ELSE Zero)
                        ELSE ExpPt(x, p.b)
    [] p.f = "log"   -> IF LtR(x, Zero) THEN Undef
                        ELSE IF x = Zero THEN Undef
                        ELSE IF IsInf(x) THEN PInf ELSE LogPt(x, p.b)
\* one-sided limit at an end of an open interval
LimApp(p, x, side) ==
  IF p.f = "recip" /\ x = Zero THEN <<side, 0>>
  ELSE IF p.f = "log" /\ x = Zero THEN NInf ELSE PtApp(p, x)
MonoOn(p, lo, hi) ==
  CASE p.f = "poly"  -> SignConst(PolyDeriv(p.c), lo, hi)
    [] p.f = "abs"   -> LeR(Zero, lo) \/ LeR(hi, Zero)
    [] p.f = "recip" -> LeR(Zero, lo) \/ LeR(hi, Zero)
    [] p.f = "root"  -> LeR(Zero, lo)
    [] p.f = "log"   -> LeR(Zero, lo)
    [] p.f = "exp"   -> TRUE
App(p, c) ==
  CASE IsUndef(c) \/ IsNom(c) -> Undef
    [] IsUnknown(c) -> Unknown
    [] IsPt(c)      -> PtApp(p, c)
    [] IsGap(c)     ->
       LET lo == CLo(c)  hi == CHi(c) IN
       IF p.f \in {"root", "log"} /\ LeR(hi, Zero) THEN Undef
       ELSE IF ~MonoOn(p, lo, hi) THEN Unknown
       ELSE LET A == LimApp(p, lo, 1)  B == LimApp(p, hi, -1) IN
            IF IsUnknown(A) \/ IsUnknown(B) \/ IsUndef(A) \/ IsUndef(B) THEN Unknown
            ELSE LET L == MinR(CLo(A), CLo(B))  H == MaxR(CHi(A), CHi(B)) IN
                 IF L = H THEN Pt(L) ELSE Gap(L, H)

(*--------------- polynomial normal form of arithmetic nodes --------------*)
Arith == {"addc", "subc", "mulc", "divc", "rsubc", "neg", "add", "sub", "mul"}
RECURSIVE NF(_)
NF(t) ==
  CASE t.k \notin (Arith \cup {"powi", "poly"}) -> [sub |-> t, c |-> <<Zero, One>>]
    [] t.k = "poly"  -> [sub |-> t.a, c |-> t.c]
    [] t.k = "powi"  -> [sub |-> t.a, c |-> [i \in 1..(t.n + 1) |-> IF i = t.n + 1 THEN One ELSE Zero]]
    [] t.k \in {"add", "sub", "mul"} ->
         LET u == NF(t.a)  w == NF(t.a2) IN
         IF u.sub # w.sub THEN [sub |-> [k |-> "bad"], c |-> <<Zero, One>>]
         ELSE [sub |-> u.sub,
               c |-> CASE t.k = "add" -> PolyAdd(u.c, w.c)
                       [] t.k = "sub" -> PolyAdd(u.c, PolyScale(w.c, Rat(-1)))
                       [] t.k = "mul" -> PolyMul(u.c, w.c)]
    [] OTHER -> LET u == NF(t.a) IN
         [sub |-> u.sub,
          c |-> CASE t.k = "addc"  -> PolyAdd(u.c, <<t.q>>)
                  [] t.k = "subc"  -> PolyAdd(u.c, <<NegR(t.q)>>)
                  [] t.k = "rsubc" -> PolyAdd(<<t.q>>, PolyScale(u.c, Rat(-1)))
                  [] t.k = "mulc"  -> PolyScale(u.c, t.q)
                  [] t.k = "divc"  -> PolyScale(u.c, InvR(t.q))
                  [] t.k = "neg"   -> PolyScale(u.c, Rat(-1))]

(*--------------------- denotation of terms and events --------------------*)
(* v : variable name -> cell.  Truth(e, v, pol): is e (pol = TRUE) or its   *)
(* negation (pol = FALSE) satisfied?  Negation is pushed to the literals,   *)
(* where it is the typed complement; an undefined value satisfies neither. *)
RECURSIVE Im(_, _)
RECURSIVE Truth(_, _, _)
Im(t, v) ==
  CASE t.k = "var"  -> v[t.v]
    [] t.k = "bad"  -> Unknown
    [] t.k \in (Arith \cup {"powi", "poly"}) ->
         LET n == NF(t) IN App(PPoly(n.c), Im(n.sub, v))
    [] t.k = "recip" -> App(PFn("recip", 0, Zero), Im(t.a, v))
    [] t.k = "abs"   -> App(PFn("abs", 0, Zero), Im(t.a, v))
    [] t.k = "root"  -> App(PFn("root", t.n, Zero), Im(t.a, v))
    [] t.k = "exp"   -> App(PFn("exp", 0, t.b), Im(t.a, v))
    [] t.k = "log"   -> App(PFn("log", 0, t.b), Im(t.a, v))
    [] t.k = "pw"    ->
         LET tr == [i \in 1..Len(t.p) |-> Truth(t.p[i].e, v, TRUE)] IN
         IF \E i \in 1..Len(tr) : tr[i] = "T"
         THEN Im(t.p[CHOOSE i \in 1..Len(tr) : tr[i] = "T"].t, v)
         ELSE IF \E i \in 1..Len(tr) : tr[i] = "M" THEN Unknown ELSE Undef
Truth(e, v, pol) ==
  CASE e.k = "lit" -> IF pol THEN In3(Im(e.t, v), e.s) ELSE NotIn3(Im(e.t, v), e.s)
    [] e.k = "tab" -> IF pol THEN e.p[v[e.x]] ELSE e.n[v[e.x]]     \* tabulated literal
    [] e.k = "not" -> Truth(e.x, v, ~pol)
    [] e.k = "xor" -> LET a == Truth(e.x, v, TRUE)  na == Truth(e.x, v, FALSE)
                          b == Truth(e.x2, v, TRUE) nb == Truth(e.x2, v, FALSE)
                      IN IF pol THEN Or3(And3(a, nb), And3(na, b))
                         ELSE And3(Or3(na, b), Or3(a, nb))
    [] e.k = "tru" -> Bool3(pol)
    [] (e.k = "and" /\ pol) \/ (e.k = "or" /\ ~pol) ->
         IF \E i \in 1..Len(e.xs) : Truth(e.xs[i], v, pol) = "F" THEN "F"
         ELSE IF \A i \in 1..Len(e.xs) : Truth(e.xs[i], v, pol) = "T" THEN "T" ELSE "M"
    [] (e.k = "or" /\ pol) \/ (e.k = "and" /\ ~pol) ->
         IF \E i \in 1..Len(e.xs) : Truth(e.xs[i], v, pol) = "T" THEN "T"
         ELSE IF \A i \in 1..Len(e.xs) : Truth(e.xs[i], v, pol) = "F" THEN "F" ELSE "M"

RECURSIVE TermVars(_)
RECURSIVE EventVars(_)
TermVars(t) ==
  CASE t.k = "var" -> {t.v}
    [] t.k = "pw"  -> UNION {TermVars(t.p[i].t) \cup EventVars(t.p[i].e) : i \in 1..Len(t.p)}
    [] t.k \in {"add", "sub", "mul"} -> TermVars(t.a) \cup TermVars(t.a2)
    [] OTHER -> TermVars(t.a)
EventVars(e) ==
  CASE e.k = "lit" -> TermVars(e.t)
    [] e.k = "not" -> EventVars(e.x)
    [] e.k = "xor" -> EventVars(e.x) \cup EventVars(e.x2)
    [] e.k = "tru" -> {}
    [] OTHER -> UNION {EventVars(e.xs[i]) : i \in 1..Len(e.xs)}
=============================================================================
