------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* A notebook session.  progs maps a model name to the distribution of the *)
(* latest cell run under that name; a name is absent when there was no     *)
(* such cell or the latest one was rejected.  held maps notebook variables *)
(* to distributions already obtained; cells never touch it.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* the effect of a cell for name m; "%%sppl" without a name does nothing
AfterCell(progs, m, valid, dist) ==
  IF m = "" THEN progs
  ELSE IF valid THEN (m :> dist) @@ progs
  ELSE Without(progs, m)

Known(progs, m) == m \in DOMAIN progs

\* what a request for a graph of x shows: models come before variables
Drawable(progs, held, x) == x \in DOMAIN progs \/ x \in DOMAIN held
Shown(progs, held, x) == IF x \in DOMAIN progs THEN progs[x] ELSE held[x]
=============================================================================
