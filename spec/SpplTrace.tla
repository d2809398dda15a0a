------------------------------ MODULE SpplTrace -----------------------------
(***************************************************************************)
(* Trace validation: every recorded call of the real library is replayed    *)
(* as an action of Sppl (or of the set/event algebra), with the recorded    *)
(* arguments, and the recorded result is compared with what the             *)
(* specification computes.  The input is one JSON object per line:          *)
(*   {"id": ..., "ev": [event, ...]}                                       *)
(* For every trace the checker prints exactly one line                      *)
(*   <<"DONE", tid, checked, unchecked, bad>>                              *)
(* preceded by <<"BAD", tid, l, clause>> for every rejected event.          *)
(***************************************************************************)
EXTENDS Sppl, Scope, Drawing, Session, LnTable, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
NT == Len(Traces)

VARIABLES tid, l, checked, unchecked, bad
tvars == <<store, tid, l, checked, unchecked, bad>>

Ev == Traces[tid].ev
OKV(put)  == [v |-> "ok",  put |-> put]
UNKV(put) == [v |-> "unk", put |-> put]
BADV(c, put) == [v |-> c,  put |-> put]
NoPut == <<>>
IsBad(r) == r.v # "ok" /\ r.v # "unk"
BoolV(b, clause) == IF b THEN OKV(NoPut) ELSE BADV(clause, NoPut)

(*------------------------- constructors and actions ----------------------*)
Accepted(e) == e.res = "ok"
BuildV(e, r) ==
  IF r.ok = "?" THEN UNKV(IF Accepted(e) THEN <<r.m>> ELSE NoPut)
  ELSE IF r.ok = "yes" THEN (IF Accepted(e) THEN OKV(<<r.m>>)
                             ELSE BADV(e.op \o ":valid call rejected with " \o e.res, <<r.m>>))
  ELSE (IF Accepted(e) THEN BADV(e.op \o ":invalid call accepted", NoPut) ELSE OKV(NoPut))

\* program text: the scope rules come first, then the commands it stands for
TextV(e) ==
  IF ~ScopeOK(e.p) THEN BoolV(~Accepted(e), "text:accepted against the scope rules")
  ELSE BuildV(e, RProgram("", e.c))

AllHas(hs) == \A i \in 1..Len(hs) : Has(hs[i])

(*------------------------------- queries ---------------------------------*)
Small(q) == q[2] <= 30000 /\ AbsI(q[1]) <= 60000
NumV(e, q, clause) ==     \* compare a recorded fraction with the expected one
  IF q = Unchecked \/ ~Small(q) THEN UNKV(NoPut)
  ELSE IF e.r = q THEN OKV(NoPut)
  ELSE BADV(clause \o ", the specification says " \o ToString(q[1]) \o "/" \o ToString(q[2]), NoPut)

ProbV(e) ==
  LET m == store[e.h] IN
  IF ~(EventVars(e.e) \subseteq m.syms) THEN BoolV(e.r = <<-2, 1>>, "prob:unknown variable accepted")
  ELSE NumV(e, QProb(e.h, e.e),
            IF e.r = <<-2, 1>> THEN "prob:valid event rejected" ELSE "prob:wrong value")

DensV(e) ==
  LET m == store[e.h] IN
  IF ~(AsgVars(e.asg) \subseteq m.base) THEN BoolV(e.r = <<-2, 1>>, "density:non-base variable accepted")
  ELSE NumV(e, QDensity(e.h, e.asg),
            IF e.r = <<-2, 1>> THEN "density:valid assignment rejected" ELSE "density:wrong value")

SampV(e) ==
  LET m == store[e.h] IN
  IF e.res # "ok" THEN
    \* a derived variable may be undefined on outcomes that the grid does not separate
    (IF IsPoison(m) \/ \E i \in 1..Len(m.A) : \E x \in m.syms : IsUnknown(m.A[i].v[x]) THEN UNKV(NoPut)
     ELSE BADV("sample:raised " \o e.res, NoPut))
  ELSE IF \E i \in 1..Len(e.s) : DOMAIN e.s[i] # {e.xs[j] : j \in 1..Len(e.xs)}
       THEN BADV("sample:wrong variables", NoPut)
  ELSE IF Len(e.s) # e.n THEN BADV("sample:wrong number", NoPut)
  ELSE IF IsPoison(m) THEN UNKV(NoPut)
  ELSE BoolV(\A i \in 1..Len(e.s) : InSupport(m, e.s[i]), "sample:outside the support")

\* k of n draws satisfied e: within six standard deviations of n * p
FreqV(e) ==
  LET q == QProb(e.h, e.e) IN
  IF q = Unchecked \/ ~Small(q) THEN UNKV(NoPut)
  ELSE BoolV(AbsI(e.k * q[2] - e.n * q[1]) <= 3 * e.sq * q[2] + 2 * q[2]
             /\ (q[1] = 0 => e.k = 0) /\ (q[1] = q[2] => e.k = e.n), "sample:wrong frequency")

\* mutual information of two events, in 10^-5 nats
Ln(q) == LnT[q[1]] - LnT[q[2]]
LnOK(q) == q # Unchecked /\ q[1] \in 1..600 /\ q[2] \in 1..600
MITerm(p, a, b) == IF p[1] = 0 THEN 0
                   ELSE (p[1] * (Ln(p) - Ln(a) - Ln(b))) \div p[2]
MIV(e) ==
  LET m   == store[e.h]
      A   == e.e   B == e.e2
      pa  == Prob(m, A)  pb == Prob(m, B)
      na  == Prob(m, NotE(A))  nb == Prob(m, NotE(B))
      p11 == Prob(m, AndE(<<A, B>>))  p10 == Prob(m, AndE(<<A, NotE(B)>>))
      p01 == Prob(m, AndE(<<NotE(A), B>>))  p00 == Prob(m, AndE(<<NotE(A), NotE(B)>>))
      ok(p, a, b) == p[1] = 0 \/ (LnOK(p) /\ LnOK(a) /\ LnOK(b))
      tot == AddR(AddR(MkR(p11[1], p11[2]), MkR(p10[1], p10[2])),
                  AddR(MkR(p01[1], p01[2]), MkR(p00[1], p00[2])))
      v   == MITerm(p11, pa, pb) + MITerm(p10, pa, nb) + MITerm(p01, na, pb) + MITerm(p00, na, nb)
  IN IF \E p \in {pa, pb, na, nb, p11, p10, p01, p00} : p = Unchecked \/ ~Small(p) THEN UNKV(NoPut)
     ELSE IF tot # One THEN UNKV(NoPut)      \* events that are not total on the support
     ELSE IF ~(ok(p11, pa, pb) /\ ok(p10, pa, nb) /\ ok(p01, na, pb) /\ ok(p00, na, nb)) THEN UNKV(NoPut)
     ELSE IF e.err # "" THEN BADV("mi:raised " \o e.err, NoPut)
     ELSE BoolV(AbsI(e.r - v) <= 25 /\ e.neg = FALSE, "mi:wrong value")

(*----------------------- structure of the expression ---------------------*)
(* A tree node: sum(w, cs), prod(cs), leaf(x, syms, parts).  The structure   *)
(* is well formed, and denotes the same distribution over the sampled       *)
(* variables as the abstract measure.                                      *)
RECURSIVE TreeBad(_)
Syms(n) == {n.syms[i] : i \in 1..Len(n.syms)}
TreeBad(n) ==
  CASE n.k = "leaf" -> IF n.x \notin Syms(n) THEN "leaf without its own variable" ELSE ""
    [] n.k = "sum"  ->
         IF Len(n.cs) = 0 \/ Len(n.w) # Len(n.cs) THEN "sum: weights and children differ in number"
         ELSE IF \E i \in 1..Len(n.w) : n.w[i][1] < 0 THEN "sum: bad weight"
         ELSE IF ~n.unit \/ (SumR(n.w) # NaN /\ SumR(n.w) # One) THEN "sum: weights do not sum to one"
         ELSE IF \E i \in 1..Len(n.cs) : Syms(n.cs[i]) # Syms(n) THEN "sum: children over different variables"
         ELSE FoldLeft(LAMBDA b, c : IF b # "" THEN b ELSE TreeBad(c), "", n.cs)
    [] n.k = "prod" ->
         IF \E i, j \in 1..Len(n.cs) : i # j /\ Syms(n.cs[i]) \cap Syms(n.cs[j]) # {}
         THEN "product: children share variables"
         ELSE IF Syms(n) # UNION {Syms(n.cs[i]) : i \in 1..Len(n.cs)} THEN "product: wrong scope"
         ELSE FoldLeft(LAMBDA b, c : IF b # "" THEN b ELSE TreeBad(c), "", n.cs)
RECURSIVE TreeM(_)
TreeM(n) ==
  CASE n.k = "leaf" -> FromParts(n.x, [i \in 1..Len(n.parts) |->
                                         [c |-> n.parts[i][1], o |-> {}, q |-> n.parts[i][2]]])
    [] n.k = "sum"  -> IF Len(n.cs) = 1 THEN TreeM(n.cs[1])
                       ELSE Mixture(TLCEval([i \in 1..Len(n.cs) |-> TreeM(n.cs[i])]), n.w)
    [] n.k = "prod" -> Product(TLCEval([i \in 1..Len(n.cs) |-> TreeM(n.cs[i])]))
BaseOnly(m) == LET B == SelectSeq(m.A, LAMBDA a : a.o = {}) IN
  [m EXCEPT !.syms = m.base,
            !.A = TLCEval([i \in 1..Len(B) |-> [B[i] EXCEPT !.v = TLCEval([x \in m.base |-> @[x]])]])]
BigD(m) == m.D > 40000
TreeV(e) ==
  LET m == store[e.h]  b == TreeBad(e.r) IN
  IF b # "" THEN BADV("tree:" \o b, NoPut)
  ELSE IF Syms(e.r) # m.syms THEN BADV("tree:wrong variables", NoPut)
  ELSE IF IsPoison(m) THEN UNKV(NoPut)
  ELSE LET t == TreeM(e.r) IN
       IF IsPoison(t) \/ BigD(t) \/ BigD(m) THEN UNKV(NoPut)
       ELSE BoolV(SameDist([t EXCEPT !.base = m.base], BaseOnly(m)), "tree:denotes another distribution")

(*--------------------------- sets and events -----------------------------*)
\* expected truth tv against observed membership ov on one cell
CellOK(tv, ov) == tv = "M" \/ tv = ov
VarFn(x, c) == x :> c
CellsOf(g, skip) == SelectSeq(CutCells(g), LAMBDA c : ~(\E i \in 1..Len(skip) : SameCell(skip[i], c)))
AllCells(e) == CellsOf(e.g, e.skip) \o [i \in 1..Len(e.ns) |-> <<e.ns[i]>>]
\* pointwise comparison of a three-valued expectation with an observed set
PointwiseV(e, Exp3(_), Obs3(_), clause) ==
  LET cs == AllCells(e) IN
  IF \E i \in 1..Len(cs) : ~CellOK(Exp3(cs[i]), Obs3(cs[i])) THEN BADV(clause, NoPut)
  ELSE IF \A i \in 1..Len(cs) : Exp3(cs[i]) = "M" THEN UNKV(NoPut) ELSE OKV(NoPut)

SolveV(e) ==
  IF e.res # "ok" THEN BADV("solve:raised " \o e.res, NoPut)
  ELSE PointwiseV(e, LAMBDA c : Truth(e.e, VarFn(e.x, c), TRUE), LAMBDA c : In3(c, e.r),
                 "solve:not the preimage")
\* complement, intersection, union, of the operand sets as observed
SetOpV(e) ==
  IF e.res # "ok" THEN BADV("set " \o e.f \o ":raised " \o e.res, NoPut)
  ELSE PointwiseV(e,
         LAMBDA c : CASE e.f = "and" -> And3(In3(c, e.a), In3(c, e.b))
                      [] e.f = "or"  -> Or3(In3(c, e.a), In3(c, e.b))
                      [] e.f = "not" -> NotIn3(c, e.a),
         LAMBDA c : In3(c, e.r), "set " \o e.f \o ":wrong members")
SetInV(e) == LET t == In3(e.x, e.a) IN
  IF e.res # "ok" THEN BADV("set in:raised " \o e.res, NoPut)
  ELSE IF t = "M" THEN UNKV(NoPut) ELSE BoolV((t = "T") = e.r, "set in:wrong answer")
\* equality and hashing agree with denotation
SetEqV(e) ==
  LET cs == AllCells(e)
      same == \A i \in 1..Len(cs) : In3(cs[i], e.a) = In3(cs[i], e.b)
  IN IF e.res # "ok" THEN BADV("set eq:raised " \o e.res, NoPut)
     ELSE IF e.r /\ ~same THEN BADV("set eq:different sets compare equal", NoPut)
     ELSE IF e.r /\ ~e.hash THEN BADV("set eq:equal sets hash differently", NoPut)
     ELSE IF e.canon /\ same /\ ~e.r THEN BADV("set eq:identical construction compares unequal", NoPut)
     ELSE OKV(NoPut)

\* all joint cells of the grids [x, cells]
RECURSIVE Joint(_)
Joint(gs) == IF Len(gs) = 0 THEN << <<>> >>
             ELSE LET r == Joint(Tail(gs))  cs == gs[1].cs  n == Len(cs)  k == Len(r) IN
                  [i \in 1..(n * k) |->
                     (gs[1].x :> cs[((i - 1) \div k) + 1]) @@ r[((i - 1) % k) + 1]]
GCells(gs) == [i \in 1..Len(gs) |-> [x |-> gs[i].x,
                 cs |-> (IF Len(gs[i].g) = 0 /\ Len(gs[i].ns) > 0 THEN <<>> ELSE CutCells(gs[i].g)) \o [j \in 1..Len(gs[i].ns) |-> <<gs[i].ns[j]>>]]]
\* Equivalence of two events (r = an event the library derived from e).
EquivV(e) ==
  IF e.res # "ok" THEN BADV(e.f \o ":raised " \o e.res, NoPut)
  ELSE LET J == Joint(GCells(e.gs))
           B == {i \in 1..Len(J) : LET t == Truth(e.e, J[i], TRUE) u == Truth(e.r, J[i], TRUE) IN
                                    t # "M" /\ u # "M" /\ t # u}
       IN BoolV(B = {}, e.f \o ":not equivalent")
IsLit(x) == x.k = "lit"
IsConj(x) == IsLit(x) \/ (x.k = "and" /\ \A i \in 1..Len(x.xs) : IsLit(x.xs[i]))
IsDnf(x) == IsConj(x) \/ (x.k = "or" /\ \A i \in 1..Len(x.xs) : IsConj(x.xs[i]))
DnfV(e) == IF e.res = "ok" /\ ~IsDnf(e.r) THEN BADV(e.f \o ":not in disjunctive normal form", NoPut)
           ELSE EquivV(e)
\* the clauses are mutually exclusive as well
DisjV(e) ==
  LET v == DnfV(e) IN
  IF IsBad(v) \/ e.res # "ok" THEN v
  ELSE IF e.r.k # "or" THEN v
  ELSE LET J == Joint(GCells(e.gs))  xs == e.r.xs
           tr == [i \in 1..Len(J) |-> Cardinality({k \in 1..Len(xs) : Truth(xs[k], J[i], TRUE) = "T"})]
       IN IF \E i \in 1..Len(J) : tr[i] > 1 THEN BADV(e.f \o ":clauses overlap", NoPut) ELSE v

EvalV(e) ==      \* event truth at a point
  IF Truth(e.e, e.at, TRUE) = "F" /\ Truth(e.e, e.at, FALSE) = "F" THEN UNKV(NoPut)   \* undefined there
  ELSE IF e.res # "ok" THEN (IF e.undef THEN UNKV(NoPut) ELSE BADV("evaluate:raised " \o e.res, NoPut))
  ELSE LET t == Truth(e.e, e.at, TRUE) IN
       IF t = "M" THEN UNKV(NoPut) ELSE BoolV((t = "T") = e.r, "evaluate:wrong truth value")
TermV(e) ==      \* term value at a point: r is a cell (exact number or bracket)
  LET c == Im(e.t, e.at) IN
  IF IsUnknown(c) THEN UNKV(NoPut)
  ELSE IF IsUndef(c) THEN UNKV(NoPut)
  ELSE IF e.res # "ok" THEN BADV("evaluate:raised " \o e.res, NoPut)
  ELSE BoolV(CellCovers(c, e.r), "evaluate:wrong value")
DrawV(e) ==      \* e.e: the expression itself, e.r: its drawing
  IF e.res # "ok" THEN BADV("drawing " \o e.f \o ":raised " \o e.res, NoPut)
  ELSE IF Syms(e.e) # store[e.h].syms THEN BADV("drawing:the expression has other variables", NoPut)
  ELSE LET b == DrawBad(e.f, e.e, e.r) IN
       IF b = "" THEN OKV(NoPut) ELSE BADV("drawing " \o e.f \o ":" \o b, NoPut)
(*---------------------------- notebook sessions --------------------------*)
\* The table of models and the notebook variables live in one store: the
\* model m under "%m", the variable x under x.
Prog(m) == "%" \o m
GONE == [v |-> "ok", put |-> NoPut, gone |-> TRUE]
CellV(e) ==
  IF e.m = "" THEN OKV(NoPut)                    \* nothing may change
  ELSE LET r == IF e.broken \/ ~ScopeOK(e.p) THEN No(NoDist) ELSE RProgram("", e.c)
           P == AfterCell(store, Prog(e.m), Accepted(e), r.m) IN
       IF r.ok = "?" THEN [v |-> "unk", put |-> IF Known(P, Prog(e.m)) THEN <<r.m>> ELSE NoPut,
                           gone |-> ~Known(P, Prog(e.m))]
       ELSE IF r.ok = "yes" THEN
              IF Accepted(e) THEN OKV(<<P[Prog(e.m)]>>)
              ELSE BADV("cell:valid cell rejected with " \o e.res, <<r.m>>)
       ELSE IF Accepted(e) THEN [v |-> "cell:invalid cell accepted", put |-> NoPut, gone |-> TRUE]
       ELSE GONE
LookV(e) ==      \* e.f: spe, python, namespace, graph
  LET P == Prog(e.m)
      has == IF e.f = "graph" THEN Drawable([h \in DOMAIN store \cap {P} |-> store[h]], store, P)
                                   \/ Drawable(<<>>, store, e.m)
             ELSE Known(store, P)
      d == IF P \in DOMAIN store THEN store[P] ELSE store[e.m]
  IN IF has THEN (IF Accepted(e) THEN OKV(<<d>>) ELSE BADV(e.f \o ":raised " \o e.res \o " for a known model", <<d>>))
     ELSE BoolV(~Accepted(e), e.f \o ":unknown model accepted")
FlagV(e) == BoolV(e.r, e.f)      \* a fact the driver observed directly

V(e) ==
  CASE e.op = "leaf"  -> BuildV(e, RLeaf(e.x, e.d, e.g, e.dens))
    [] e.op = "prod"  -> IF AllHas(e.hs) THEN BuildV(e, RProduct(e.hs)) ELSE UNKV(NoPut)
    [] e.op = "mix"   -> IF AllHas(e.hs) THEN BuildV(e, RMixture(e.hs, e.qs)) ELSE UNKV(NoPut)
    [] e.op = "tr"    -> IF Has(e.src) THEN BuildV(e, RTransform(e.src, e.x, e.t)) ELSE UNKV(NoPut)
    [] e.op = "cond"  -> IF Has(e.src) THEN BuildV(e, RCondition(e.src, e.e)) ELSE UNKV(NoPut)
    [] e.op = "constr" -> IF Has(e.src) THEN BuildV(e, RConstrain(e.src, e.asg)) ELSE UNKV(NoPut)
    [] e.op = "run"   -> IF e.src = "" \/ Has(e.src) THEN BuildV(e, RProgram(e.src, e.c)) ELSE UNKV(NoPut)
    [] e.op = "text"  -> TextV(e)
    [] e.op = "copy"  -> IF ~Has(e.src) THEN UNKV(NoPut)
                         ELSE IF Accepted(e) THEN OKV(<<store[e.src]>>)
                         ELSE BADV(e.f \o ":raised " \o e.res, NoPut)
    [] e.op = "prob"  -> IF Has(e.h) THEN ProbV(e) ELSE UNKV(NoPut)
    [] e.op = "dens"  -> IF Has(e.h) THEN DensV(e) ELSE UNKV(NoPut)
    [] e.op = "samp"  -> IF Has(e.h) THEN SampV(e) ELSE UNKV(NoPut)
    [] e.op = "freq"  -> IF Has(e.h) THEN FreqV(e) ELSE UNKV(NoPut)
    [] e.op = "mi"    -> IF Has(e.h) THEN MIV(e) ELSE UNKV(NoPut)
    [] e.op = "tree"  -> IF Has(e.h) THEN TreeV(e) ELSE UNKV(NoPut)
    [] e.op = "solve" -> SolveV(e)
    [] e.op = "setop" -> SetOpV(e)
    [] e.op = "setin" -> SetInV(e)
    [] e.op = "seteq" -> SetEqV(e)
    [] e.op = "equiv" -> EquivV(e)
    [] e.op = "dnf"   -> DnfV(e)
    [] e.op = "disj"  -> DisjV(e)
    [] e.op = "eval"  -> EvalV(e)
    [] e.op = "term"  -> TermV(e)
    [] e.op = "draw"  -> IF Has(e.h) THEN DrawV(e) ELSE UNKV(NoPut)
    [] e.op = "cell"  -> CellV(e)
    [] e.op = "look"  -> LookV(e)
    [] e.op = "flag"  -> FlagV(e)

TraceInit == /\ tid \in 1..NT /\ l = 1 /\ store = <<>>
             /\ checked = 0 /\ unchecked = 0 /\ bad = 0
Target(e) == IF "h" \in DOMAIN e THEN e.h ELSE ""
Step ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l]  r == V(e) IN
     /\ l' = l + 1
     /\ store' = IF "gone" \in DOMAIN r /\ r.gone THEN Without(store, Target(e))
                 ELSE IF r.put = NoPut THEN store ELSE (Target(e) :> r.put[1]) @@ store
     /\ IF r.v = "ok" THEN checked' = checked + 1 /\ UNCHANGED <<unchecked, bad>>
        ELSE IF r.v = "unk" THEN unchecked' = unchecked + 1 /\ UNCHANGED <<checked, bad>>
        ELSE /\ bad' = bad + 1 /\ checked' = checked + 1 /\ UNCHANGED unchecked
             /\ PrintT(<<"BAD", tid, l, r.v>>)
  /\ UNCHANGED tid
Finish ==
  /\ l = Len(Ev) + 1
  /\ l' = l + 1
  /\ PrintT(<<"DONE", tid, checked, unchecked, bad>>)
  /\ UNCHANGED <<store, tid, checked, unchecked, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_tvars
TraceView == <<tid, l>>

\* Always true of the specification itself, evaluated at every step of every trace.
Normalized == \A h \in DOMAIN store :
                IsPoison(store[h]) \/ Mass(store[h].A) = store[h].D
=============================================================================
