------------------------------- MODULE Measure ------------------------------
(***************************************************************************)
(* The abstract value of a sum-product expression: a joint distribution.   *)
(*                                                                         *)
(* A measure is [D, A, base, dens]:                                        *)
(*   A     a sequence of ATOMS [v, o, w]: v maps every variable to a cell, *)
(*         o is the set of variables sitting at a single point of a        *)
(*         continuous distribution (the atom then carries density, not     *)
(*         mass), w is an integer weight                                   *)
(*   D     the denominator: an atom with o = {} has probability w/D, one   *)
(*         with o # {} has density w/D of order Cardinality(o)             *)
(*   base  the variables that were sampled (as opposed to derived)         *)
(* D = 0 marks a POISONED measure: some quantity was too large, or the     *)
(* grid was too coarse, to represent it; nothing is checked about it.      *)
(***************************************************************************)
EXTENDS Terms

Poison == [D |-> 0, A |-> <<>>, base |-> {}, syms |-> {}]
IsPoison(m) == m.D = 0

GcdSeq(A, d) == FoldLeft(LAMBDA g, a : GCD(g, a.w), d, A)
Reduce(m) == LET g == GcdSeq(m.A, m.D) IN
             IF g <= 1 THEN m
             ELSE [m EXCEPT !.D = @ \div g, !.A = TLCEval([i \in 1..Len(@) |-> [@[i] EXCEPT !.w = @ \div g]])]
Mass(A) == FoldLeft(LAMBDA s, a : IF a.o = {} THEN AddI(s, a.w) ELSE s, 0, A)

(*----------------------------- leaves ------------------------------------*)
RECURSIVE FactI(_)
FactI(n) == IF n <= 1 THEN 1 ELSE n * FactI(n - 1)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE FactI(n) \div (FactI(k) * FactI(n - k))
QSum(f(_), lo, hi) == FoldLeft(LAMBDA acc, i : AddR(acc, f(i)), Zero,
                               [j \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |-> lo + j - 1])
Std(x, loc, scale) == DivR(SubR(x, loc), scale)
Clamp(z) == IF LtR(z, Zero) THEN Zero ELSE IF LtR(One, z) THEN One ELSE z
OneMinus(z) == SubR(One, z)
\* quarter points of the Cauchy distribution; third points of the arcsine
Table(z, tab) == LET is == {i \in 1..Len(tab) : tab[i][1] = z}
                 IN IF is = {} THEN NaN ELSE tab[CHOOSE i \in is : TRUE][2]

(* Cumulative distribution function of a continuous distribution [k, p].   *)
Cdf(d, x) ==
  IF x = NInf THEN Zero ELSE IF x = PInf THEN One ELSE
  CASE d.k = "uniform"  -> Clamp(Std(x, d.p[1], d.p[2]))
    [] d.k = "powerlaw" -> PowR(Clamp(Std(x, d.p[2], d.p[3])), d.p[1][1])
    [] d.k = "beta"     -> LET z == Clamp(Std(x, d.p[3], d.p[4]))
                               a == d.p[1][1]  n == a + d.p[2][1] - 1
                           IN QSum(LAMBDA j : MulR(Rat(Choose(n, j)),
                                    MulR(PowR(z, j), PowR(OneMinus(z), n - j))), a, n)
    [] d.k = "triang"   -> LET z == Clamp(Std(x, d.p[2], d.p[3]))  c == d.p[1] IN
                           IF LeR(z, c) THEN DivR(MulR(z, z), c)
                           ELSE OneMinus(DivR(PowR(OneMinus(z), 2), OneMinus(c)))
    [] d.k = "pareto"   -> LET z == Std(x, d.p[2], d.p[3]) IN      \* shape, loc, scale
                           IF LeR(z, One) THEN Zero ELSE OneMinus(PowR(InvR(z), d.p[1][1]))
    [] d.k = "lomax"    -> LET z == Std(x, d.p[2], d.p[3]) IN
                           IF LeR(z, Zero) THEN Zero
                           ELSE OneMinus(PowR(InvR(AddR(One, z)), d.p[1][1]))
    [] d.k = "fisk"     -> LET z == Std(x, d.p[1], d.p[2]) IN
                           IF LeR(z, Zero) THEN Zero ELSE DivR(z, AddR(One, z))
    [] d.k = "cauchy"   -> Table(Std(x, d.p[1], d.p[2]),
                            << <<Rat(-1), <<1,4>> >>, <<Zero, <<1,2>> >>, <<One, <<3,4>> >> >>)
    [] d.k = "arcsine"  -> LET z == Clamp(Std(x, d.p[1], d.p[2])) IN
                           Table(z, << <<Zero, Zero>>, << <<1,4>>, <<1,3>> >>, << <<1,2>>, <<1,2>> >>,
                                       << <<3,4>>, <<2,3>> >>, <<One, One>> >>)
    [] d.k = "sym"      -> IF x = d.p[1] THEN <<1, 2>> ELSE NaN     \* symmetric about p[1]
    [] d.k = "quant"    -> IF LeR(x, Zero) THEN Zero                \* quantile scale: p[1] equal steps
                           ELSE Clamp(DivR(x, d.p[1]))

(* Density at a finite point. *)
Density(d, x) ==
  CASE d.k = "uniform"  -> LET z == Std(x, d.p[1], d.p[2]) IN
                           IF LtR(z, Zero) \/ LtR(One, z) THEN Zero ELSE InvR(d.p[2])
    [] d.k = "powerlaw" -> LET z == Std(x, d.p[2], d.p[3]) IN
                           IF LtR(z, Zero) \/ LtR(One, z) THEN Zero
                           ELSE DivR(MulR(d.p[1], PowR(z, d.p[1][1] - 1)), d.p[3])
    [] d.k = "beta"     -> LET z == Std(x, d.p[3], d.p[4])  a == d.p[1][1]  b == d.p[2][1] IN
                           IF LtR(z, Zero) \/ LtR(One, z) THEN Zero
                           ELSE DivR(MulR(Rat(a * Choose(a + b - 1, a)),
                                          MulR(PowR(z, a - 1), PowR(OneMinus(z), b - 1))), d.p[4])
    [] d.k = "triang"   -> LET z == Std(x, d.p[2], d.p[3])  c == d.p[1] IN
                           IF LtR(z, Zero) \/ LtR(One, z) THEN Zero
                           ELSE DivR(IF LeR(z, c) THEN DivR(MulR(Rat(2), z), c)
                                     ELSE DivR(MulR(Rat(2), OneMinus(z)), OneMinus(c)), d.p[3])
    [] d.k = "pareto"   -> LET z == Std(x, d.p[2], d.p[3]) IN
                           IF LtR(z, One) THEN Zero
                           ELSE DivR(MulR(d.p[1], PowR(InvR(z), d.p[1][1] + 1)), d.p[3])
    [] d.k = "lomax"    -> LET z == Std(x, d.p[2], d.p[3]) IN
                           IF LtR(z, Zero) THEN Zero
                           ELSE DivR(MulR(d.p[1], PowR(InvR(AddR(One, z)), d.p[1][1] + 1)), d.p[3])
    [] d.k = "quant"    -> IF LtR(x, Zero) \/ LtR(d.p[1], x) THEN Zero ELSE One   \* relative to the law
    [] d.k = "fisk"     -> LET z == Std(x, d.p[1], d.p[2]) IN
                           IF LtR(z, Zero) THEN Zero
                           ELSE DivR(PowR(InvR(AddR(One, z)), 2), d.p[2])
    [] OTHER -> NaN

Continuous == {"uniform", "powerlaw", "beta", "triang", "pareto", "lomax", "fisk",
               "cauchy", "arcsine", "sym", "quant"}
Integral   == {"randint", "bernoulli", "binom", "geom", "hypergeom", "nbinom", "boltz",
               "logser2", "atomic", "table"}

(* Probability mass function at an integer (loc already removed). *)
Pmf0(d, k) ==
  CASE d.k = "randint"   -> IF d.p[1][1] <= k /\ k < d.p[2][1] THEN MkR(1, d.p[2][1] - d.p[1][1]) ELSE Zero
    [] d.k = "bernoulli" -> IF k = 1 THEN d.p[1] ELSE IF k = 0 THEN OneMinus(d.p[1]) ELSE Zero
    [] d.k = "binom"     -> LET n == d.p[1][1] IN
                            IF k < 0 \/ k > n THEN Zero
                            ELSE MulR(Rat(Choose(n, k)), MulR(PowR(d.p[2], k), PowR(OneMinus(d.p[2]), n - k)))
    [] d.k = "geom"      -> IF k < 1 THEN Zero ELSE MulR(d.p[1], PowR(OneMinus(d.p[1]), k - 1))
    [] d.k = "nbinom"    -> LET n == d.p[1][1] IN IF k < 0 THEN Zero
                            ELSE MulR(Rat(Choose(k + n - 1, k)), MulR(PowR(d.p[2], n), PowR(OneMinus(d.p[2]), k)))
    [] d.k = "hypergeom" -> LET M == d.p[1][1]  n == d.p[2][1]  N == d.p[3][1] IN
                            IF k < 0 \/ k > n \/ k > N \/ N - k > M - n THEN Zero
                            ELSE MkR(Choose(n, k) * Choose(M - n, N - k), Choose(M, N))
(* Laws known up to a constant: the weight of the integer k.  [k = "law",   *)
(* law, p, top, xs] is such a law restricted to the points xs.              *)
LawWeight(d, k) ==
  CASE d.law = "poisson"   -> IF k < 0 THEN Zero ELSE MulR(PowR(d.p[1], k), MkR(1, FactI(k)))
    [] d.law = "logser"    -> IF k < 1 THEN Zero ELSE MulR(PowR(d.p[1], k), MkR(1, k))
    [] d.law = "zipf"      -> IF k < 1 THEN Zero ELSE InvR(PowR(Rat(k), d.p[1][1]))
    [] d.law = "yulesimon" -> IF k < 1 THEN Zero ELSE MkR(FactI(k - 1), FactI(k + d.p[1][1]))
    [] d.law = "geo"       -> IF k < 0 \/ (d.top[1] > 0 /\ k >= d.top[1]) THEN Zero ELSE InvR(PowR(d.p[1], k))
    [] d.law = "dgeo"      -> InvR(PowR(d.p[1], AbsI(k)))
    [] d.law = "skellam"   -> IF k < 0 THEN One ELSE PowR(DivR(d.p[1], d.p[2]), k)      \* points -k and k
    [] d.law = "betabinom" -> LET n == d.p[1][1] IN
                              IF k < 0 \/ k > n THEN Zero
                              ELSE Rat(Choose(n, k) * FactI(k + d.p[2][1] - 1) * FactI(n - k + d.p[3][1] - 1))
    [] OTHER               -> Pmf0([k |-> d.law, p |-> d.p], k)
LawTotal(d) == SumR([i \in 1..Len(d.xs) |-> LawWeight(d, d.xs[i][1])])
LocOf(d) == d.loc
\* mass of the integers lo..hi
MassII(d, lo, hi) == QSum(LAMBDA k : Pmf0(d, k - LocOf(d)), lo, hi)
CeilR(x) == -((-x[1]) \div x[2])

\* [cell, o, q] triples of a leaf: weights as rationals
LeafParts(x, d, g, dens) ==
  LET cells == CutCells(g)  n == Len(cells)
      all(f(_)) == TLCEval([i \in 1..n |-> f(cells[i])])
  IN
  CASE d.k = "choice" ->
         [i \in 1..Len(d.s) |-> [c |-> <<d.s[i]>>, o |-> {}, q |-> d.q[i]]]
    [] d.k = "atomic" -> << [c |-> d.p[1], o |-> {}, q |-> One] >>
    [] d.k = "table" ->
         [i \in 1..Len(d.p) |-> [c |-> d.p[i], o |-> {}, q |-> d.q[i]]]
    [] d.k = "law" ->
         LET t == LawTotal(d) IN
         [i \in 1..Len(d.xs) |-> [c |-> AddR(d.xs[i], Rat(d.loc)), o |-> {}, q |-> DivR(LawWeight(d, d.xs[i][1]), t)]]
    [] d.k \in Continuous ->
         all(LAMBDA c : IF IsPt(c)
                        THEN [c |-> c, o |-> {x}, q |-> IF dens THEN Density(d, c) ELSE Zero]
                        ELSE [c |-> c, o |-> {}, q |-> SubR(Cdf(d, CHi(c)), Cdf(d, CLo(c)))])
    [] OTHER ->    \* integer valued: the gaps below and above the grid take the rest
         LET inner == all(LAMBDA c :
               IF IsPt(c) THEN [c |-> c, o |-> {}, q |-> IF c[2] = 1 THEN MassII(d, c[1], c[1]) ELSE Zero]
               ELSE IF IsInf(CLo(c)) \/ IsInf(CHi(c)) THEN [c |-> c, o |-> {}, q |-> Zero]
               ELSE [c |-> c, o |-> {}, q |-> MassII(d, FloorR(CLo(c)) + 1, CeilR(CHi(c)) - 1)])
             lo0 == LocOf(d) + (CASE d.k = "randint" -> d.p[1][1] [] OTHER -> 0)
             left == IF Len(g) = 0 THEN Zero ELSE MassII(d, lo0, CeilR(g[1]) - 1)
             tot  == FoldLeft(LAMBDA s, p : AddR(s, p.q), left, inner)
         IN [i \in 1..n |-> IF i = n THEN [inner[i] EXCEPT !.q = OneMinus(tot)]
                            ELSE IF i = 1 THEN [inner[i] EXCEPT !.q = left] ELSE inner[i]]

FromParts(x, parts) ==
  LET D == FoldLeft(LAMBDA acc, p : IF acc < 0 \/ IsNaN(p.q) THEN -1 ELSE LcmI(acc, p.q[2]), 1, parts)
      keep == SelectSeq(parts, LAMBDA p : p.q[1] # 0)
  IN IF D < 0 \/ D > 1000000 THEN Poison
     ELSE [D |-> D, base |-> {x}, syms |-> {x},
           A |-> TLCEval([i \in 1..Len(keep) |->
                    [v |-> (x :> keep[i].c), o |-> keep[i].o,
                     w |-> keep[i].q[1] * (D \div keep[i].q[2])]])]
Leaf(x, d, g, dens) == FromParts(x, TLCEval(LeafParts(x, d, g, dens)))

(*------------------------------ combining --------------------------------*)
Rescale(m, D) ==   \* m with denominator D, a multiple of m.D
  LET f == D \div m.D IN
  [m EXCEPT !.D = D, !.A = TLCEval([i \in 1..Len(@) |-> [@[i] EXCEPT !.w = MulI(@, f)]])]
HasNeg(A) == \E i \in 1..Len(A) : A[i].w < 0

Product2(m1, m2) ==
  IF IsPoison(m1) \/ IsPoison(m2) THEN [Poison EXCEPT !.base = m1.base \cup m2.base, !.syms = m1.syms \cup m2.syms]
  ELSE
  LET D  == MulI(m1.D, m2.D)  n1 == Len(m1.A)  n2 == Len(m2.A)
      A  == TLCEval([k \in 1..(n1 * n2) |->
               LET a == m1.A[((k - 1) \div n2) + 1]  b == m2.A[((k - 1) % n2) + 1]
               IN [v |-> a.v @@ b.v, o |-> a.o \cup b.o, w |-> MulI(a.w, b.w)]])
  IN IF D < 0 \/ n1 * n2 > 5000 THEN [Poison EXCEPT !.base = m1.base \cup m2.base, !.syms = m1.syms \cup m2.syms]
     ELSE IF HasNeg(A) THEN [Poison EXCEPT !.base = m1.base \cup m2.base, !.syms = m1.syms \cup m2.syms]
     ELSE Reduce([D |-> D, A |-> A, base |-> m1.base \cup m2.base, syms |-> m1.syms \cup m2.syms])
Product(ms) == FoldLeft(Product2, ms[1], Tail(ms))

(* Mixture of ms[i] with rational weights qs[i] (summing to one). *)
Mixture(ms, qs) ==
  LET n == Len(ms)
      P == [Poison EXCEPT !.base = ms[1].base, !.syms = ms[1].syms]
      L == FoldLeft(LAMBDA acc, i : IF acc < 0 \/ IsPoison(ms[i]) \/ IsNaN(qs[i]) THEN -1
                                    ELSE LET d == MulI(ms[i].D, qs[i][2]) IN
                                         IF d < 0 THEN -1 ELSE LcmI(acc, d),
                    1, [i \in 1..n |-> i])
      F(i) == LET f == (L \div (ms[i].D * qs[i][2])) IN
              TLCEval([j \in 1..Len(ms[i].A) |-> [ms[i].A[j] EXCEPT !.w = MulI(MulI(@, qs[i][1]), f)]])
      A == FoldLeft(LAMBDA acc, i : acc \o F(i), <<>>, [i \in 1..n |-> i])
  IN IF L < 0 THEN P ELSE IF HasNeg(A) THEN P
     ELSE Reduce([D |-> L, A |-> A, base |-> ms[1].base, syms |-> ms[1].syms])

(* Terms and literals over one variable are evaluated once per cell of that *)
(* variable instead of once per atom.                                      *)
CellsAt(m, x) == {m.A[i].v[x] : i \in 1..Len(m.A)}
TermOn(m, t) ==          \* valuation of an atom -> value of t
  LET vs == TermVars(t)  V == {m.A[i].v : i \in 1..Len(m.A)} IN
  IF Cardinality(vs) = 1
  THEN LET x == CHOOSE x \in vs : TRUE
           I == TLCEval([c \in CellsAt(m, x) |-> Im(t, x :> c)])
       IN TLCEval([f \in V |-> I[f[x]]])
  ELSE TLCEval([f \in V |-> Im(t, f)])
RECURSIVE Tab(_, _)
Tab(m, e) ==
  CASE e.k = "lit" ->
         LET vs == TermVars(e.t) IN
         IF Cardinality(vs) # 1 THEN e
         ELSE LET x == CHOOSE x \in vs : TRUE
                  C == CellsAt(m, x)
                  I == TLCEval([c \in C |-> Im(e.t, x :> c)])
              IN [k |-> "tab", x |-> x, p |-> TLCEval([c \in C |-> In3(I[c], e.s)]),
                  n |-> TLCEval([c \in C |-> NotIn3(I[c], e.s)])]
    [] e.k \in {"and", "or"} -> [e EXCEPT !.xs = TLCEval([i \in 1..Len(@) |-> Tab(m, @[i])])]
    [] e.k = "not" -> [e EXCEPT !.x = Tab(m, @)]
    [] e.k = "xor" -> [e EXCEPT !.x = Tab(m, @), !.x2 = Tab(m, @)]
    [] OTHER -> e

Extend(m, y, t) ==       \* derived variable y = t
  IF IsPoison(m) THEN [m EXCEPT !.syms = @ \cup {y}]
  ELSE LET im == TermOn(m, t) IN
       [m EXCEPT !.syms = @ \cup {y},
                 !.A = TLCEval([i \in 1..Len(@) |-> [@[i] EXCEPT !.v = @ @@ (y :> im[@])]])]

(*------------------------------ observing --------------------------------*)
Unchecked == <<0, -1>>   \* a quantity the specification declines to decide
\* probability of an event: a reduced <<n, d>>, or Unchecked
FracI(n, d) == LET g == GCD(n, d) IN <<n \div g, d \div g>>
Prob(m, e) ==
  IF IsPoison(m) THEN Unchecked
  ELSE LET te == TLCEval(Tab(m, e))
           s == FoldLeft(LAMBDA acc, a :
                   IF acc < 0 \/ a.o # {} THEN acc
                   ELSE LET t == Truth(te, a.v, TRUE) IN
                        IF t = "M" THEN -1 ELSE IF t = "T" THEN acc + a.w ELSE acc, 0, m.A)
       IN IF s < 0 THEN Unchecked ELSE FracI(s, m.D)

(* Conditioning on an event: [ok, m]; ok = "yes", "no" (null), "?". *)
RestrictTo(m, e) ==
  LET te  == TLCEval(Tab(m, e))
      tr  == TLCEval([i \in 1..Len(m.A) |-> Truth(te, m.A[i].v, TRUE)])
      idx == SelectSeq([i \in 1..Len(m.A) |-> i], LAMBDA i : tr[i] = "T")
      A   == TLCEval([j \in 1..Len(idx) |-> m.A[idx[j]]])
  IN [mixed |-> \E i \in 1..Len(m.A) : tr[i] = "M", A |-> A]
Cond(m, e) ==
  IF IsPoison(m) THEN [ok |-> "?", m |-> m]
  ELSE LET r == RestrictTo(m, e)  s == Mass(r.A) IN
       IF r.mixed THEN [ok |-> "?", m |-> [Poison EXCEPT !.base = m.base, !.syms = m.syms]]
       ELSE IF s = 0 THEN [ok |-> "no", m |-> m]
       ELSE [ok |-> "yes", m |-> Reduce([m EXCEPT !.D = s, !.A = r.A])]

(* Lexicographic density of an assignment (sequence of <<var, cell>>):      *)
(* [ord, n, d] with the least order that has positive weight.              *)
MatchAsg(a, asg) == \A i \in 1..Len(asg) : a.v[asg[i][1]] = asg[i][2]
AsgVars(asg) == {asg[i][1] : i \in 1..Len(asg)}
Density0 == [ok |-> "no", ord |-> 0, n |-> 0, A |-> <<>>]
\* a recorded value may be of either kind; compare only same-length cells
SameCell(c, x) == Len(c) = Len(x) /\ c = x
AtAsg(m, asg) ==
  SelectSeq(m.A, LAMBDA a : /\ \A i \in 1..Len(asg) : SameCell(a.v[asg[i][1]], asg[i][2])
                            /\ a.o \subseteq AsgVars(asg))
LexDensity(m, asg) ==
  LET B == AtAsg(m, asg) IN
  IF Len(B) = 0 THEN Density0
  ELSE LET ord == FoldLeft(LAMBDA acc, a : IF Cardinality(a.o) < acc THEN Cardinality(a.o) ELSE acc,
                           100, B)
           C   == SelectSeq(B, LAMBDA a : Cardinality(a.o) = ord)
       IN [ok |-> "yes", ord |-> ord,
           n |-> FoldLeft(LAMBDA s, a : AddI(s, a.w), 0, C), A |-> C]

(* Constraining to the assignment: the conditional distribution given that *)
(* the assigned variables equal the assigned values.                       *)
Constrain(m, asg) ==
  IF IsPoison(m) THEN [ok |-> "?", m |-> m]
  ELSE LET L == LexDensity(m, asg) IN
       IF L.ok = "no" THEN [ok |-> "no", m |-> m]
       ELSE IF L.n < 0 THEN [ok |-> "?", m |-> [Poison EXCEPT !.base = m.base, !.syms = m.syms]]
       ELSE
       \* every atom (of any further order) consistent with the assignment at that order
       LET vs == AsgVars(asg)
           K  == SelectSeq(m.A, LAMBDA a :
                    /\ \A i \in 1..Len(asg) : SameCell(a.v[asg[i][1]], asg[i][2])
                    /\ Cardinality(a.o \cap vs) = L.ord)
       IN [ok |-> "yes",
           m  |-> Reduce([m EXCEPT !.D = L.n,
                          !.A = TLCEval([i \in 1..Len(K) |-> [K[i] EXCEPT !.o = @ \ vs]])])]

(* Support: can the joint outcome s (var -> cell) occur?  An atom contains  *)
(* it when every component does.                                           *)
CellCovers(c, x) ==
  \/ IsUnknown(c)
  \/ Len(c) = Len(x) /\ c = x
  \/ IsGap(c) /\ IsPt(x) /\ LeR(CLo(c), x) /\ LeR(x, CHi(c))
  \/ IsGap(c) /\ IsGap(x) /\ LtR(CLo(x), CHi(c)) /\ LtR(CLo(c), CHi(x))
  \/ IsPt(c) /\ IsGap(x) /\ LtR(CLo(x), c) /\ LtR(c, CHi(x))
InSupport(m, s) ==
  \E i \in 1..Len(m.A) :
     /\ m.A[i].o = {}
     /\ \A x \in DOMAIN s : CellCovers(m.A[i].v[x], s[x])

(* Projections used by simplification, deduplication, serialization: two   *)
(* measures are the same distribution when they agree on every joint cell. *)
CellMass(m) ==           \* valuation -> mass (repeated atoms added up)
  FoldLeft(LAMBDA g, a : IF a.v \in DOMAIN g THEN [g EXCEPT ![a.v] = AddI(@, a.w)] ELSE (a.v :> a.w) @@ g,
           <<>>, m.A)
SameDist(m1, m2) ==
  /\ m1.syms = m2.syms
  /\ LET g1 == TLCEval(CellMass(m1))  g2 == TLCEval(CellMass(m2)) IN
     /\ DOMAIN g1 = DOMAIN g2
     /\ \A f \in DOMAIN g1 : LET a == FracI(g1[f], m1.D)  b == FracI(g2[f], m2.D) IN a = b
=============================================================================
