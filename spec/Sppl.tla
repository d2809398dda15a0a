-------------------------------- MODULE Sppl --------------------------------
(***************************************************************************)
(* SPPL as a state machine.  The state is a store of named distributions   *)
(* (the sum-product expressions a client holds).  Construction and          *)
(* inference calls are actions that add to the store and never change what *)
(* is already there; queries read it.                                      *)
(***************************************************************************)
EXTENDS Program

VARIABLE store          \* handle -> measure

Has(h) == h \in DOMAIN store
Put(h, m) == store' = (h :> m) @@ store

(* Results of constructors: [ok, m] as in Program. *)
RLeaf(x, d, g, dens)   ==
  IF d.k = "law" /\ LawTotal(d) = Zero THEN No(NoDist)     \* restricted to impossible points
  ELSE DoSample(NoDist, [k |-> "sample", x |-> x, d |-> d, g |-> g, dens |-> dens])
RProduct(hs) ==
  LET ms == TLCEval([i \in 1..Len(hs) |-> store[hs[i]]]) IN
  IF \E i, j \in 1..Len(ms) : i # j /\ ms[i].syms \cap ms[j].syms # {} THEN No(ms[1])
  ELSE Yes(Product(ms))
RMixture(hs, qs) ==
  LET ms == TLCEval([i \in 1..Len(hs) |-> store[hs[i]]]) IN
  IF \E i \in 1..Len(ms) : ms[i].syms # ms[1].syms THEN No(ms[1])
  ELSE IF SumR(qs) # One \/ \E i \in 1..Len(qs) : LtR(qs[i], Zero) THEN No(ms[1])
  ELSE Yes(Mixture(ms, qs))
RTransform(h, x, t)    == DoTransform(store[h], x, t)
RCondition(h, e)       == DoCondition(store[h], e)
RConstrain(h, asg)     == DoConstrain(store[h], asg)
RProgram(h, c)         == Interp(IF h = "" THEN NoDist ELSE store[h], c)

(* An action takes effect exactly when the call is accepted. *)
Call(h, r) == IF r.ok = "yes" THEN Put(h, r.m) ELSE UNCHANGED store

MkLeaf(h, x, d, g, dens) == Call(h, RLeaf(x, d, g, dens))
MkProduct(h, hs)         == Call(h, RProduct(hs))
MkMixture(h, hs, qs)     == Call(h, RMixture(hs, qs))
DeriveVar(h, src, x, t)  == Call(h, RTransform(src, x, t))
Condition(h, src, e)     == Call(h, RCondition(src, e))
ConstrainTo(h, src, asg) == Call(h, RConstrain(src, asg))
RunProgram(h, src, c)    == Call(h, RProgram(src, c))
CopyOf(h, src)           == Put(h, store[src])   \* serialize+load, render+recompile, dedup

(*-------------------------------- queries --------------------------------*)
QProb(h, e)  == Prob(store[h], e)
QDensity(h, asg) ==
  LET m == store[h] IN
  IF IsPoison(m) THEN Unchecked
  ELSE LET L == LexDensity(m, asg) IN
       IF L.ok = "no" THEN <<0, 1>> ELSE IF L.n < 0 THEN Unchecked ELSE FracI(L.n, m.D)
QSupports(h, s) == InSupport(store[h], s)
=============================================================================
