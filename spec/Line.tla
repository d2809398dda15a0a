-------------------------------- MODULE Line --------------------------------
(***************************************************************************)
(* Values, cells and outcome sets.                                         *)
(*                                                                         *)
(* A CELL is one of                                                        *)
(*   <<"s">>            the nominal outcome "s"                            *)
(*   <<n, d>>           the number n/d (possibly infinite)                 *)
(*   <<an, ad, bn, bd>> some numbers of the open interval (an/ad, bn/bd),  *)
(*                      all of it when the cell is a gap between grid      *)
(*                      points; a superset of the values when it is the    *)
(*                      image of a gap under an irrational-valued map      *)
(*   <<>>               undefined (outside the domain of a transform)      *)
(*   <<0, 0, 0>>        unknown (overflow / not monotone on this gap)      *)
(*                                                                         *)
(* A SET descriptor is a record with field k:                              *)
(*   [k |-> "empty"]                                                       *)
(*   [k |-> "nom", v |-> seq of strings, b |-> complemented?]              *)
(*   [k |-> "fin", v |-> seq of numbers]                                   *)
(*   [k |-> "int", a, b |-> endpoints, lo, ro |-> open on the left/right]  *)
(*   [k |-> "uni", s |-> seq of set descriptors]                           *)
(***************************************************************************)
EXTENDS Rat, TLC

Undef   == <<>>
Unknown == <<0, 0, 0>>
IsUndef(c)   == Len(c) = 0
IsNom(c)     == Len(c) = 1
IsPt(c)      == Len(c) = 2
IsUnknown(c) == Len(c) = 3
IsGap(c)     == Len(c) = 4
CLo(c) == IF IsGap(c) THEN <<c[1], c[2]>> ELSE c
CHi(c) == IF IsGap(c) THEN <<c[3], c[4]>> ELSE c
Gap(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN Unknown ELSE a \o b
Pt(a) == IF IsNaN(a) THEN Unknown ELSE a

(* Three-valued verdicts: "T", "F", and "M" (mixed or unknown). *)
Not3(x) == IF x = "T" THEN "F" ELSE IF x = "F" THEN "T" ELSE "M"
And3(x, y) == IF x = "F" \/ y = "F" THEN "F" ELSE IF x = "T" /\ y = "T" THEN "T" ELSE "M"
Or3(x, y)  == IF x = "T" \/ y = "T" THEN "T" ELSE IF x = "F" /\ y = "F" THEN "F" ELSE "M"
Bool3(b) == IF b THEN "T" ELSE "F"

RECURSIVE In3(_, _)
In3(c, S) ==
  CASE S.k = "empty" -> "F"
    [] S.k = "uni"   -> FoldLeft(LAMBDA acc, s : Or3(acc, In3(c, s)), "F", S.s)
    [] IsUndef(c)    -> "F"
    [] IsUnknown(c)  -> "M"
    [] S.k = "nom"   -> IF IsNom(c)
                        THEN Bool3((\E i \in 1..Len(S.v) : S.v[i] = c[1]) # S.b)
                        ELSE "F"
    [] IsNom(c)      -> "F"
    [] S.k = "fin"   -> IF IsPt(c)
                        THEN Bool3(\E i \in 1..Len(S.v) : S.v[i] = c)
                        ELSE IF \E i \in 1..Len(S.v) :
                                   LtR(CLo(c), S.v[i]) /\ LtR(S.v[i], CHi(c))
                             THEN "M" ELSE "F"
    [] S.k = "int"   -> IF IsPt(c)
                        THEN IF IsInf(c) THEN Bool3(
                                  \/ (c = S.a /\ ~S.lo) \/ (c = S.b /\ ~S.ro))
                             ELSE Bool3(
                               /\ (LtR(S.a, c) \/ (S.a = c /\ ~S.lo))
                               /\ (LtR(c, S.b) \/ (S.b = c /\ ~S.ro)))
                        ELSE IF LeR(S.a, CLo(c)) /\ LeR(CHi(c), S.b) THEN "T"
                             ELSE IF LeR(CHi(c), S.a) \/ LeR(S.b, CLo(c)) THEN "F"
                             ELSE "M"

(* The typed complement: numeric sets are complemented inside the reals,   *)
(* nominal sets inside the strings; the empty set, by convention, to the   *)
(* reals.  NotIn3 is membership in that complement.                        *)
RECURSIVE NotIn3(_, _)
NotIn3(c, S) ==
  CASE S.k = "uni"   -> FoldLeft(LAMBDA acc, s : And3(acc, NotIn3(c, s)), "T", S.s)
    [] IsUndef(c)    -> "F"
    [] IsUnknown(c)  -> "M"
    [] S.k = "empty" -> Bool3(~IsNom(c) /\ ~(IsPt(c) /\ IsInf(c)))
    [] S.k = "nom"   -> IF IsNom(c) THEN Not3(In3(c, S)) ELSE "F"
    [] OTHER         -> IF IsNom(c) \/ (IsPt(c) /\ IsInf(c)) THEN "F"
                        ELSE Not3(In3(c, S))

(* The cells of the line cut at a sorted sequence of finite points. *)
CutCells(g) ==
  LET n == Len(g) IN
  IF n = 0 THEN << Gap(NInf, PInf) >>
  ELSE [i \in 1..(2*n + 1) |->
          IF i % 2 = 0 THEN g[i \div 2]
          ELSE Gap(IF i = 1 THEN NInf ELSE g[(i - 1) \div 2],
                   IF i = 2*n + 1 THEN PInf ELSE g[(i + 1) \div 2])]
=============================================================================
