------------------------------- MODULE Program ------------------------------
(***************************************************************************)
(* Denotation of SPPL commands.  Interp(m, c) runs command c on the         *)
(* distribution m (NoDist before anything is sampled) and returns           *)
(*   [ok |-> "yes", m]   the resulting distribution                        *)
(*   [ok |-> "no",  m]   the command must be rejected with an error        *)
(*   [ok |-> "?",   m]   the specification does not decide (m is poison)   *)
(*                                                                         *)
(* Commands, records with field k:                                         *)
(*   skip; sample(x,d,g,dens); mixsample(x,ds,qs,g,dens), a mixture of the *)
(*   distributions ds; transform(x,t); condition(e);                       *)
(*   constrain(asg); seq(cs); ifelse(bs) with bs a sequence of [e, c] and  *)
(*   the event "tru" for the final else; for(n0,n1,bs) with bs a sequence  *)
(*   of [i, c] listing the body at each index; switch(x,vals,cs).          *)
(***************************************************************************)
EXTENDS Measure

NoDist == [D |-> -1, A |-> <<>>, base |-> {}, syms |-> {}]
IsNone(m) == m.D = -1
Yes(m) == [ok |-> "yes", m |-> m]
No(m)  == [ok |-> "no", m |-> m]
Maybe(m) == [ok |-> "?", m |-> [Poison EXCEPT !.base = m.base, !.syms = m.syms]]

HasNominal(m, xs) == \E i \in 1..Len(m.A) : \E x \in xs : IsNom(m.A[i].v[x])
LitSet(x, S) == [k |-> "lit", t |-> [k |-> "var", v |-> x], s |-> S]
AndE(xs) == [k |-> "and", xs |-> xs]
NotE(e)  == [k |-> "not", x |-> e]

(* The event that guard i is the first of the guards es to hold. *)
FirstOf(es, i) ==
  IF es[i].k = "tru"
  THEN NotE([k |-> "or", xs |-> SubSeq(es, 1, i - 1)])
  ELSE AndE(<<es[i]>> \o [j \in 1..(i - 1) |-> NotE(es[j])])

Sampled(c) == IF c.k = "mixsample"
              THEN Mixture(TLCEval([i \in 1..Len(c.ds) |-> Leaf(c.x, c.ds[i], c.g, c.dens)]), c.qs)
              ELSE Leaf(c.x, c.d, c.g, c.dens)
DoSample(m, c) ==
  LET L == Sampled(c)
      L1 == IF IsPoison(L) THEN [L EXCEPT !.base = {c.x}, !.syms = {c.x}] ELSE L IN
  IF IsNone(m) THEN Yes(L1)
  ELSE IF c.x \in m.syms THEN No(m)
  ELSE Yes(Product2(m, L1))

DoTransform(m, x, t) ==
  IF IsNone(m) THEN No(m)
  ELSE IF x \in m.syms \/ ~(TermVars(t) \subseteq m.syms) THEN No(m)
  ELSE IF ~IsPoison(m) /\ HasNominal(m, TermVars(t)) THEN No(m)
  ELSE LET r == Extend(m, x, t) IN
       \* a variable that is undefined on possible outcomes has no distribution
       IF \E i \in 1..Len(r.A) : r.A[i].o = {} /\ IsUndef(r.A[i].v[x]) THEN Maybe(r)
       ELSE Yes(r)

DoCondition(m, e) ==
  IF IsNone(m) THEN No(m)
  ELSE IF ~(EventVars(e) \subseteq m.syms) THEN No(m)
  ELSE Cond(m, e)

DoConstrain(m, asg) ==
  IF IsNone(m) THEN No(m)
  ELSE IF ~(AsgVars(asg) \subseteq m.base) THEN No(m)
  ELSE Constrain(m, asg)

(* Branching on mutually exclusive events: every branch of positive         *)
(* probability runs on the distribution conditioned on its event, and the   *)
(* results are mixed with the probabilities of the events.  The events have *)
(* to cover everything and the branches to define the same variables.       *)
RECURSIVE Defs(_), Interp(_, _)
\* the variables a command defines, where the distribution is not tracked
Defs(c) ==
  CASE c.k \in {"sample", "mixsample", "transform"} -> {c.x}
    [] c.k = "seq"    -> UNION {Defs(c.cs[i]) : i \in 1..Len(c.cs)}
    [] c.k = "ifelse" -> Defs(c.bs[1].c)
    [] c.k = "for"    -> UNION {Defs(c.bs[i].c) : i \in 1..Len(c.bs)}
    [] c.k = "switch" -> IF Len(c.cs) = 0 THEN {} ELSE Defs(c.cs[1])
    [] OTHER -> {}
Branches(m, es, cs) ==
  IF \E i \in 1..Len(es) : ~(EventVars(es[i]) \subseteq m.syms) THEN No(m)
  ELSE IF IsPoison(m) THEN Maybe([m EXCEPT !.syms = @ \cup Defs(cs[1])])
  ELSE
  LET unknown == Maybe([m EXCEPT !.syms = @ \cup Defs(cs[1])])
      ps  == TLCEval([i \in 1..Len(es) |-> Prob(m, es[i])])
      idx == SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : ps[i][1] # 0)
      tot == SumR([j \in 1..Len(idx) |-> MkR(ps[idx[j]][1], ps[idx[j]][2])])
  IN IF \E i \in 1..Len(es) : ps[i] = Unchecked THEN unknown
     ELSE IF \E j \in 1..Len(idx) : IsNaN(MkR(ps[idx[j]][1], ps[idx[j]][2])) THEN unknown
     ELSE IF IsNaN(tot) THEN unknown
     ELSE IF tot # One THEN No(m)
     ELSE LET rs == TLCEval([j \in 1..Len(idx) |-> Interp(Cond(m, es[idx[j]]).m, cs[idx[j]])]) IN
          IF \E j \in 1..Len(rs) : rs[j].ok = "no" THEN No(m)
          ELSE IF \E j \in 1..Len(rs) : rs[j].m.syms # rs[1].m.syms THEN No(m)
          ELSE IF \E j \in 1..Len(rs) : rs[j].ok = "?" \/ IsPoison(rs[j].m) THEN Maybe(rs[1].m)
          ELSE IF Len(rs) = 1 THEN rs[1]
          ELSE Yes(Mixture(TLCEval([j \in 1..Len(rs) |-> rs[j].m]),
                           TLCEval([j \in 1..Len(idx) |-> ps[idx[j]]])))

Interp(m, c) ==
  CASE c.k = "skip"      -> Yes(m)
    [] c.k = "sample"    -> DoSample(m, c)
    [] c.k = "mixsample" -> IF SumR(c.qs) # One THEN No(m) ELSE DoSample(m, c)
    [] c.k = "transform" -> DoTransform(m, c.x, c.t)
    [] c.k = "condition" -> DoCondition(m, c.e)
    [] c.k = "constrain" -> DoConstrain(m, c.asg)
    [] c.k = "seq"       -> FoldLeft(LAMBDA r, d :
                                IF r.ok = "no" THEN r
                                ELSE LET r2 == Interp(r.m, d) IN
                                     IF r.ok = "?" /\ r2.ok = "yes" THEN [r2 EXCEPT !.ok = "?"] ELSE r2,
                              Yes(m), c.cs)
    [] c.k = "for"       ->
         LET body(i) == c.bs[CHOOSE j \in 1..Len(c.bs) : c.bs[j].i = i].c
             n == IF c.n1 < c.n0 THEN 0 ELSE c.n1 - c.n0
         IN Interp(m, [k |-> "seq", cs |-> TLCEval([j \in 1..n |-> body(c.n0 + j - 1)])])
    [] c.k = "ifelse"    ->
         IF IsNone(m) THEN No(m)
         ELSE LET es == TLCEval([i \in 1..Len(c.bs) |-> c.bs[i].e]) IN
              Branches(m, TLCEval([i \in 1..Len(es) |-> FirstOf(es, i)]),
                          TLCEval([i \in 1..Len(es) |-> c.bs[i].c]))
    [] c.k = "switch"    ->
         IF IsNone(m) THEN No(m)
         ELSE LET es == TLCEval([i \in 1..Len(c.vals) |-> LitSet(c.x, c.vals[i])]) IN
              Branches(m, TLCEval([i \in 1..Len(es) |-> FirstOf(es, i)]), c.cs)
=============================================================================
