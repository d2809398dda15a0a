------------------------------ MODULE Drawing -------------------------------
(***************************************************************************)
(* Drawings of an expression.                                              *)
(*                                                                         *)
(* An expression is a tree of nodes                                        *)
(*   [k: "sum" | "prod" | "leaf", cls, x, syms, w, wt, env, info, cs]      *)
(* with the class name, the variables below the node, the weights of a     *)
(* mixture (w in millionths, wt as text with three decimals), for a leaf   *)
(* its variable x, its environment (pairs of texts: the variable and what  *)
(* it stands for) and further facts, and the children in order.            *)
(*                                                                         *)
(* Full lists repeat all of it; concise lists keep shape and environment;  *)
(* graphs have one node for each node of the tree and one for every        *)
(* derived variable of a leaf.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

LOCAL Range1(s) == {s[i] : i \in 1..Len(s)}
LOCAL SameBag(s, t) == /\ Len(s) = Len(t)
                       /\ \A x \in Range1(s) \cup Range1(t) :
                            Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(t) : t[i] = x})
LOCAL Near(a, b) == a - b \in -2..2
\* the first complaint about paired children
LOCAL FirstBad(a, b, Bad(_, _)) ==
  FoldLeft(LAMBDA acc, i : IF acc # "" THEN acc ELSE Bad(a[i], b[i]), "", [i \in 1..Len(a) |-> i])

(*------------------------------- full lists ------------------------------*)
RECURSIVE FullBad(_, _)
FullBad(e, r) ==
  IF r.k # e.k \/ r.cls # e.cls THEN "wrong kind of node"
  ELSE IF e.k = "leaf" THEN
         IF r.x # e.x THEN "wrong variable"
         ELSE IF ~SameBag(r.env, e.env) THEN "wrong environment"
         ELSE IF ~SameBag(r.info, e.info) THEN "wrong description of a leaf"
         ELSE ""
  ELSE IF ~SameBag(r.syms, e.syms) THEN "wrong variables"
  ELSE IF r.n # Len(e.cs) \/ Len(r.cs) # Len(e.cs) THEN "wrong number of children"
  ELSE IF Len(r.w) # Len(e.w) \/ \E i \in 1..Len(e.w) : ~Near(r.w[i], e.w[i]) THEN "wrong weights"
  ELSE FirstBad(e.cs, r.cs, FullBad)

(*----------------------------- concise lists -----------------------------*)
RECURSIVE ConciseBad(_, _)
ConciseBad(e, r) ==
  IF r.k # e.k THEN "wrong kind of node"
  ELSE IF e.k = "leaf" THEN (IF SameBag(r.env, e.env) THEN "" ELSE "wrong environment")
  ELSE IF r.n # Len(e.cs) \/ Len(r.cs) # Len(e.cs) THEN "wrong number of children"
  ELSE FirstBad(e.cs, r.cs, ConciseBad)

(*--------------------------------- graphs --------------------------------*)
\* a graph is [nodes: seq of [id, lab, filled], edges: seq of [s, d, lab, dashed]],
\* node labels as sequences of lines
BagOf(s) == TLCEval([x \in Range1(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})])
Tree(lab, kids) == TLCEval([lab |-> lab, kids |-> BagOf(kids)])
Kid(w, dashed, sub) == [w |-> w, dashed |-> dashed, sub |-> sub]
Derived(e) == SelectSeq(e.env, LAMBDA p : p[1] # e.x)
RECURSIVE CanonE(_)
CanonE(e) ==
  CASE e.k = "leaf" -> LET D == Derived(e) IN
         Tree(<<e.x, e.name>>, [i \in 1..Len(D) |-> Kid(D[i][1], TRUE, Tree(<<D[i][2]>>, <<>>))])
    [] e.k = "sum"  -> Tree(<<"plus">>,  TLCEval([i \in 1..Len(e.cs) |-> Kid(e.wt[i], FALSE, CanonE(e.cs[i]))]))
    [] e.k = "prod" -> Tree(<<"times">>, TLCEval([i \in 1..Len(e.cs) |-> Kid("", FALSE, CanonE(e.cs[i]))]))
RECURSIVE Size(_)
Size(e) == IF e.k = "leaf" THEN Len(e.env)       \* the leaf and its derived variables
           ELSE FoldLeft(LAMBDA a, c : a + Size(c), 1, e.cs)

\* out[i]: the edges that leave node i
RECURSIVE CanonG(_, _, _)
CanonG(g, out, i) ==
  Tree(SubSeq(g.nodes[i].lab, 1, IF Len(g.nodes[i].lab) > 2 THEN 2 ELSE Len(g.nodes[i].lab)),
       TLCEval([j \in 1..Len(out[i]) |-> Kid(out[i][j].lab, out[i][j].dashed, CanonG(g, out, out[i][j].to))]))
GraphBad(e, g) ==
  LET N   == Len(g.nodes)
      ids == {g.nodes[i].id : i \in 1..N}
      into(i) == Cardinality({j \in 1..Len(g.edges) : g.edges[j].d = g.nodes[i].id})
      IN0 == TLCEval([i \in 1..N |-> into(i)])
      roots == {i \in 1..N : IN0[i] = 0}
      at  == TLCEval([x \in ids |-> CHOOSE i \in 1..N : g.nodes[i].id = x])
      out == TLCEval([i \in 1..N |->
               LET es == SelectSeq(g.edges, LAMBDA x : x.s = g.nodes[i].id) IN
               TLCEval([j \in 1..Len(es) |-> [lab |-> es[j].lab, dashed |-> es[j].dashed, to |-> at[es[j].d]]])])
  IN IF Cardinality(ids) # N THEN "two nodes with one name"
     ELSE IF \E j \in 1..Len(g.edges) : ~(g.edges[j].s \in ids /\ g.edges[j].d \in ids) THEN "an edge to nowhere"
     ELSE IF N # Size(e) THEN "wrong number of nodes"
     ELSE IF Cardinality(roots) # 1 THEN "not one root"
     ELSE IF \E i \in 1..N : IN0[i] > 1 THEN "a node with two parents"
     ELSE IF CanonG(g, out, CHOOSE i \in roots : TRUE) # CanonE(e) THEN "another expression"
     ELSE ""

\* the graph that draws e, with the nodes numbered from n (for model checking)
RECURSIVE Draw(_, _)
Draw(e, n) ==
  IF e.k = "leaf" THEN
    LET D == Derived(e) IN
    [nodes |-> <<[id |-> n, lab |-> <<e.x, e.name>>]>> \o [i \in 1..Len(D) |-> [id |-> n + i, lab |-> <<D[i][2]>>]],
     edges |-> [i \in 1..Len(D) |-> [s |-> n, d |-> n + i, lab |-> D[i][1], dashed |-> TRUE]]]
  ELSE FoldLeft(LAMBDA g, i : LET m == n + Len(g.nodes)  c == Draw(e.cs[i], m) IN
                  [nodes |-> g.nodes \o c.nodes,
                   edges |-> Append(g.edges \o c.edges,
                               [s |-> n, d |-> m, lab |-> IF e.k = "sum" THEN e.wt[i] ELSE "", dashed |-> FALSE])],
                [nodes |-> <<[id |-> n, lab |-> <<IF e.k = "sum" THEN "plus" ELSE "times">>]>>, edges |-> <<>>],
                [i \in 1..Len(e.cs) |-> i])

DrawBad(f, e, r) ==
  CASE f = "full"    -> FullBad(e, r)
    [] f = "concise" -> ConciseBad(e, r)
    [] f = "graph"   -> GraphBad(e, r)
=============================================================================
