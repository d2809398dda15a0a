-------------------------------- MODULE Scope -------------------------------
(***************************************************************************)
(* The scope rules of program text.  A program is a sequence of statements  *)
(*   const          a Python constant                                      *)
(*   array(x)       declaration of an array                                *)
(*   def(x,sub,dist) definition of a variable, or of an element of array x  *)
(*                  (sub); dist: by a distribution                         *)
(*   if(bs)         branches, each a sequence of statements                *)
(*   for(b), switch(b)                                                     *)
(*   use            condition, constrain                                   *)
(* The rules are a fold over the text, in the order in which it is written. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Scope0 == [v |-> {}, a |-> {}, d |-> FALSE, ok |-> TRUE]
Global == [glob |-> TRUE, loop |-> FALSE, later |-> FALSE]
Fail(st) == [st EXCEPT !.ok = FALSE]
Check(st, b, st1) == IF b THEN st1 ELSE Fail(st)

RECURSIVE Stmt(_, _, _)
Stmts(st, ctx, ss) == FoldLeft(LAMBDA s, x : IF s.ok THEN Stmt(s, ctx, x) ELSE s, st, ss)
Stmt(st, ctx, s) ==
  CASE s.k = "const" -> Check(st, ctx.glob /\ ~st.d, st)
    [] s.k = "array" -> Check(st, ctx.glob /\ s.x \notin st.v \cup st.a, [st EXCEPT !.a = @ \cup {s.x}])
    [] s.k = "def"   ->
         LET st1 == [st EXCEPT !.d = @ \/ s.dist] IN
         IF s.sub THEN Check(st, s.x \in st.a, st1)
         ELSE IF ctx.loop THEN Fail(st)
         \* a later branch redefines what the first branch defines, and nothing else
         ELSE IF ctx.later THEN Check(st, s.x \in st.v, st1)
         ELSE Check(st, s.x \notin st.v \cup st.a, [st1 EXCEPT !.v = @ \cup {s.x}])
    [] s.k = "if"    ->
         IF Len(s.bs) < 2 THEN Fail(st)
         ELSE FoldLeft(LAMBDA r, i : Stmts(r, [ctx EXCEPT !.glob = FALSE, !.later = @ \/ i > 1], s.bs[i]),
                       st, [i \in 1..Len(s.bs) |-> i])
    [] s.k = "for"    -> Stmts(st, [ctx EXCEPT !.glob = FALSE, !.loop = TRUE], s.b)
    [] s.k = "switch" -> Stmts(st, [ctx EXCEPT !.glob = FALSE], s.b)
    [] s.k = "use"    -> st

ScopeEnd(p) == Stmts(Scope0, Global, p)
ScopeOK(p) == ScopeEnd(p).ok
=============================================================================
