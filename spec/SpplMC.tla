------------------------------- MODULE SpplMC -------------------------------
(***************************************************************************)
(* The store machine of Sppl over a small universe: a uniform variable X, a *)
(* nominal N and an integer Z, their products and mixtures, one derived     *)
(* variable D, conditioning, constraining, branching and the two ways of    *)
(* copying.  hist is the history of calls.  The invariants are the laws of   *)
(* probability, stated between the measures of the store; they justify the  *)
(* definitions of Measure and Program, against which the library is judged.  *)
(* Random behaviours (GenSpec) are run by the library: driver/prof_spe.py.  *)
(***************************************************************************)
EXTENDS Sppl, Json
CONSTANTS Depth, Lean       \* Lean: fewer arguments for each call
VARIABLE hist
vars == <<store, hist>>

(*------------------------------- universe --------------------------------*)
Half == <<1, 2>>
V0(x) == [k |-> "var", v |-> x]
Lit(t, s) == [k |-> "lit", t |-> t, s |-> s]
Upto(q, ro) == [k |-> "int", a |-> NInf, b |-> q, lo |-> TRUE, ro |-> ro]
FinS(v) == [k |-> "fin", v |-> v]
NomS(v) == [k |-> "nom", v |-> v, b |-> FALSE]
Or2(a, b) == [k |-> "or", xs |-> <<a, b>>]
And2(a, b) == [k |-> "and", xs |-> <<a, b>>]
Xor2(a, b) == [k |-> "xor", x |-> a, x2 |-> b]
Tru == [k |-> "tru"]

\* conditions cut X at 0, 1, 2; densities are asked at 1/2 and 3/2
GX == <<Zero, Half, One, <<3, 2>>, Rat(2)>>
GZ == <<Zero, One, Rat(2)>>
Choice(p) == [k |-> "choice", s |-> <<"a", "b">>, q |-> <<p, SubR(One, p)>>]
Leaves ==
  << [x |-> "X", g |-> GX, d |-> [k |-> "uniform", p |-> <<Zero, Rat(2)>>, loc |-> 0]],
     [x |-> "X", g |-> GX, d |-> [k |-> "uniform", p |-> <<Zero, One>>, loc |-> 0]],
     [x |-> "X", g |-> GX, d |-> [k |-> "atomic", p |-> <<One>>, loc |-> 0]],
     [x |-> "N", g |-> <<>>, d |-> Choice(Half)],
     [x |-> "N", g |-> <<>>, d |-> Choice(<<1, 4>>)],
     [x |-> "Z", g |-> GZ, d |-> [k |-> "bernoulli", p |-> <<Half>>, loc |-> 0]],
     [x |-> "Z", g |-> GZ, d |-> [k |-> "randint", p |-> <<One, Rat(3)>>, loc |-> 0]] >>
Terms0(x) == << [k |-> "addc", a |-> V0(x), q |-> One],
                [k |-> "rsubc", a |-> V0(x), q |-> One],
                [k |-> "abs", a |-> [k |-> "subc", a |-> V0(x), q |-> One]] >>
LitsOf(m, x) ==
  CASE x = "X" -> <<Lit(V0(x), Upto(One, FALSE)), Lit(V0(x), FinS(<<One>>))>>
    [] x = "N" -> <<Lit(V0(x), NomS(<<"a">>))>>
    [] x = "Z" -> <<Lit(V0(x), FinS(<<One>>)), Lit(V0(x), FinS(<<Zero, Rat(2)>>))>>
    [] OTHER   -> <<Lit(V0(x), Upto(Zero, FALSE)), Lit(V0(x), Upto(One, TRUE))>>
Order == <<"D", "N", "X", "Z">>
Lits(m) == FoldLeft(LAMBDA acc, x : IF x \in m.syms THEN acc \o LitsOf(m, x) ELSE acc, <<>>, Order)
LitSetOf(m) == LET L == Lits(m) IN {L[i] : i \in 1..Len(L)}
Evs(m) ==
  LET L == Lits(m)  I == 1..Len(L) IN
  {L[i] : i \in I} \cup {NotE(L[i]) : i \in I}
  \cup {And2(L[i], L[j]) : i, j \in {k \in I : ~Lean}}
  \cup {Or2(L[ij[1]], NotE(L[ij[2]])) : ij \in {p \in I \X I : p[1] < p[2]}}
AsgOf(x) == CASE x = "X" -> {<<x, Half>>, <<x, One>>} [] x = "N" -> {<<x, <<"b">>>>} [] OTHER -> {<<x, One>>}
Asgs(m) == UNION {{<<a>> : a \in AsgOf(x)} : x \in m.base}
           \cup {<<a, b>> : a \in UNION {AsgOf(x) : x \in m.base \cap {"X"}},
                            b \in UNION {AsgOf(x) : x \in m.base \cap {"N", "Z"}}}
Qs == {<<Half, Half>>, <<<<1, 4>>, <<3, 4>>>>}
\* a branch on e that draws Z one way or another, or leaves everything as it is
BranchOn(e, m) ==
  [k |-> "ifelse", bs |-> IF "Z" \in m.syms THEN <<[e |-> e, c |-> [k |-> "skip"]], [e |-> Tru, c |-> [k |-> "skip"]]>>
     ELSE <<[e |-> e, c |-> [k |-> "sample", x |-> "Z", d |-> Leaves[6].d, g |-> GZ, dens |-> TRUE]],
            [e |-> Tru, c |-> [k |-> "sample", x |-> "Z", d |-> Leaves[7].d, g |-> GZ, dens |-> TRUE]]>>]

(*-------------------------------- actions --------------------------------*)
Busy == Len(hist) < Depth
H == DOMAIN store
New == "h" \o ToString(Len(hist) + 1)
Done(a, r) == hist' = Append(hist, [h |-> New, ok |-> r.ok] @@ a)
\* the sets of arguments depend on the state, so that TLC's simulator takes
\* every action equally often
Pick(S) == {x \in S : Busy}
AddLeaf == \E i \in Pick(DOMAIN Leaves) :
   LET L == Leaves[i]  r == RLeaf(L.x, L.d, L.g, TRUE) IN
   MkLeaf(New, L.x, L.d, L.g, TRUE) /\ Done([a |-> "leaf", x |-> L.x, d |-> L.d, g |-> L.g], r)
AddProduct == \E g, h \in Pick(H) :
   LET r == RProduct(<<g, h>>) IN MkProduct(New, <<g, h>>) /\ Done([a |-> "prod", hs |-> <<g, h>>], r)
AddMixture == \E g, h \in Pick(H), qs \in Qs :
   LET r == RMixture(<<g, h>>, qs) IN
   MkMixture(New, <<g, h>>, qs) /\ Done([a |-> "mix", hs |-> <<g, h>>, qs |-> qs], r)
AddDerived == \E h \in Pick(H) : \E x \in store[h].syms \cap {"X", "Z", "N"}, i \in 1..3 :
   LET t == Terms0(x)[i]  r == RTransform(h, "D", t) IN
   DeriveVar(New, h, "D", t) /\ Done([a |-> "tr", src |-> h, x |-> "D", t |-> t], r)
AddCondition == \E h \in Pick(H) : \E e \in Evs(store[h]) :
   LET r == RCondition(h, e) IN Condition(New, h, e) /\ Done([a |-> "cond", src |-> h, e |-> e], r)
AddConstrained == \E h \in Pick(H) : \E asg \in Asgs(store[h]) :
   LET r == RConstrain(h, asg) IN ConstrainTo(New, h, asg) /\ Done([a |-> "constr", src |-> h, asg |-> asg], r)
AddBranch == \E h \in Pick(H) : \E e \in LitSetOf(store[h]) :
   LET c == BranchOn(e, store[h])  r == RProgram(h, c) IN
   RunProgram(New, h, c) /\ Done([a |-> "run", src |-> h, c |-> c], r)
AddCopy == \E h \in Pick(H), f \in {"json", "python", "dedup"} :
   CopyOf(New, h) /\ Done([a |-> "copy", src |-> h, f |-> f], Yes(store[h]))
\* requests leave the store alone
Ask == \E h \in Pick(H) : \E e \in Evs(store[h]) :
   hist' = Append(hist, [a |-> "prob", h |-> h, e |-> e, ok |-> "yes"]) /\ UNCHANGED store
AskDensity == \E h \in Pick(H) : \E asg \in Asgs(store[h]) :
   hist' = Append(hist, [a |-> "dens", h |-> h, asg |-> asg, ok |-> "yes"]) /\ UNCHANGED store
Draws == \E h \in Pick(H) :
   hist' = Append(hist, [a |-> "samp", h |-> h, ok |-> "yes"]) /\ UNCHANGED store

Make == \/ AddLeaf \/ AddProduct \/ AddMixture \/ AddDerived \/ AddCondition \/ AddConstrained \/ AddBranch
Tell == /\ Len(hist) = Depth /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
        /\ hist' = Append(hist, [a |-> "end", ok |-> "yes"]) /\ UNCHANGED store
Init == store = <<>> /\ hist = <<>>
\* behaviours begin with three leaves over different variables
Start == \E i \in Pick(DOMAIN Leaves) :
   /\ \A j \in 1..Len(hist) : hist[j].x # Leaves[i].x
   /\ LET L == Leaves[i] IN MkLeaf(New, L.x, L.d, L.g, TRUE)
                            /\ Done([a |-> "leaf", x |-> L.x, d |-> L.d, g |-> L.g], RLeaf(L.x, L.d, L.g, TRUE))
GenNext == IF Len(hist) < 3 THEN Start
           ELSE \/ AddLeaf \/ AddProduct \/ AddMixture \/ AddDerived \/ AddCondition \/ AddConstrained \/ AddBranch
                \/ AddCopy \/ Ask \/ AskDensity \/ Draws \/ Tell
Spec == Init /\ [][Make]_vars
GenSpec == Init /\ [][GenNext]_vars

(*--------------------------------- laws ----------------------------------*)
Q(p) == MkR(p[1], p[2])
PE(m, e) == Q(Prob(m, e))
Decided(m) == ~IsPoison(m)
MassPart(m) == [m EXCEPT !.A = SelectSeq(@, LAMBDA a : a.o = {})]
SameMass(m1, m2) == SameDist(MassPart(m1), MassPart(m2))     \* densities on null sets may differ
WellFormed(m) ==
  /\ m.D > 0 /\ Mass(m.A) = m.D /\ m.base \subseteq m.syms
  /\ \A i \in 1..Len(m.A) : /\ DOMAIN m.A[i].v = m.syms /\ m.A[i].w > 0 /\ m.A[i].o \subseteq m.base
Additive(m) ==
  LET L == LitSetOf(m) IN
  /\ \A A \in L : AddR(PE(m, A), PE(m, NotE(A))) = One
  /\ \A A, B \in L :
       LET a == PE(m, A)  b == PE(m, B)  ab == PE(m, And2(A, B))  oab == PE(m, Or2(A, B)) IN
       /\ AddR(oab, ab) = AddR(a, b)
       /\ LeR(ab, a) /\ LeR(a, oab)
       /\ PE(m, Xor2(A, B)) = SubR(oab, ab)
       /\ PE(m, NotE(Or2(A, B))) = PE(m, And2(NotE(A), NotE(B)))
Bayes(m) ==
  LET L == LitSetOf(m) IN
  \A A \in L :
    LET c == Cond(m, A) IN
    /\ c.ok = IF PE(m, A) = Zero THEN "no" ELSE "yes"
    /\ c.ok = "yes" =>
         /\ WellFormed(c.m) /\ PE(c.m, A) = One
         /\ \A B \in L :
              /\ MulR(PE(m, A), PE(c.m, B)) = PE(m, And2(A, B))
              /\ LET c1 == Cond(c.m, B)  c2 == Cond(m, And2(A, B)) IN
                 c1.ok = c2.ok /\ (c1.ok = "yes" => SameMass(c1.m, c2.m))
\* constraining a variable without density is conditioning; in general the
\* density of a pair is that of one part times that of the other given it
Chain(m) ==
  \A asg \in Asgs(m) :
    LET c == Constrain(m, asg)  L == LexDensity(m, asg) IN
    /\ c.ok = L.ok
    /\ c.ok = "yes" =>
         /\ WellFormed(c.m)
         /\ \A i \in 1..Len(asg) : LET x == asg[i][1] IN
              \A j \in 1..Len(c.m.A) : c.m.A[j].o = {} => c.m.A[j].v[x] = asg[i][2]
         /\ AsgVars(asg) \cap {"X"} = {} =>
              LET e == AndE([i \in 1..Len(asg) |->
                         Lit(V0(asg[i][1]), IF asg[i][1] = "N" THEN NomS(asg[i][2]) ELSE FinS(<<asg[i][2]>>))]) IN
              L.ord = 0 => SameMass(c.m, Cond(m, e).m) /\ MkR(L.n, m.D) = PE(m, e)
         /\ Len(asg) = 2 =>
              LET a1 == <<asg[1]>>  a2 == <<asg[2]>>  c1 == Constrain(m, a1)
                  d1 == LexDensity(m, a1)  d2 == LexDensity(c1.m, a2) IN
              (d1.ord = L.ord /\ d2.ok = "yes") => MkR(L.n, m.D) = MulR(MkR(d1.n, m.D), MkR(d2.n, c1.m.D))
\* branching without effect loses nothing
TotalProbability(m) ==
  \A A \in LitSetOf(m) :
    LET r == Interp(m, [k |-> "ifelse", bs |-> <<[e |-> A, c |-> [k |-> "skip"]], [e |-> Tru, c |-> [k |-> "skip"]]>>])
    IN r.ok = "yes" /\ SameMass(r.m, m)

Newest == hist[Len(hist)]
Made == Len(hist) > 0 /\ "h" \in DOMAIN Newest /\ Newest.h \in H
M0 == store[Newest.h]
Laws == Made => (Decided(M0) => /\ WellFormed(M0) /\ Additive(M0) /\ Bayes(M0) /\ Chain(M0) /\ TotalProbability(M0))
\* how the newest distribution comes from its parts
ByParts == (Made /\ Decided(M0)) =>
  CASE Newest.a = "prod" ->
         LET m1 == store[Newest.hs[1]]  m2 == store[Newest.hs[2]] IN
         \A A \in LitSetOf(m1), B \in LitSetOf(m2) : PE(M0, And2(A, B)) = MulR(PE(m1, A), PE(m2, B))
    [] Newest.a = "mix" ->
         LET m1 == store[Newest.hs[1]]  m2 == store[Newest.hs[2]] IN
         \A A \in Evs(m1) : PE(M0, A) = AddR(MulR(Newest.qs[1], PE(m1, A)), MulR(Newest.qs[2], PE(m2, A)))
    [] Newest.a = "tr" ->
         LET m1 == store[Newest.src]  L == LitsOf(M0, "D") IN
         /\ \A A \in LitSetOf(m1) : PE(M0, A) = PE(m1, A)
         /\ \A i \in 1..Len(L) : /\ PE(M0, L[i]) = PE(m1, [L[i] EXCEPT !.t = Newest.t])
                                 /\ \A A \in LitSetOf(m1) :
                                      PE(M0, And2(A, L[i])) = PE(m1, And2(A, [L[i] EXCEPT !.t = Newest.t]))
    [] Newest.a = "run" ->
         LET m1 == store[Newest.src]  A == Newest.c.bs[1].e IN
         /\ \A B \in LitSetOf(m1) : PE(M0, B) = PE(m1, B)
         /\ ("Z" \notin m1.syms) =>
              LET z == Lit(V0("Z"), FinS(<<Zero>>)) IN      \* only the first branch can draw 0
              /\ PE(M0, And2(z, A)) = MulR(Half, PE(m1, A)) /\ PE(M0, And2(z, NotE(A))) = Zero
    [] OTHER -> TRUE
\* a call is refused exactly when it has no meaning
Refusals == Len(hist) > 0 =>
  CASE Newest.a = "prod" -> (Newest.ok = "no") <=> (store[Newest.hs[1]].syms \cap store[Newest.hs[2]].syms # {})
    [] Newest.a = "mix"  -> (Newest.ok = "no") <=> (store[Newest.hs[1]].syms # store[Newest.hs[2]].syms)
    [] Newest.a = "cond" -> (Newest.ok = "no") <=> (PE(store[Newest.src], Newest.e) = Zero)
    [] OTHER -> TRUE
\* what is in the store stays as it is
Immutable == [][\A h \in DOMAIN store : h \in DOMAIN store' /\ store'[h] = store[h]]_vars
=============================================================================
