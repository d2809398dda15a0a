------------------------------ MODULE SessionMC -----------------------------
(***************************************************************************)
(* Notebook sessions over a few names and texts.  A text that starts with  *)
(* "g" compiles, its distribution is the text itself; the others do not.   *)
(* hist is the history of commands, from which the invariants recompute    *)
(* what every name and every notebook variable must stand for.             *)
(***************************************************************************)
EXTENDS Session, FiniteSets, Json
CONSTANTS Names, Good, Bad, Requests, Depth
VARIABLES progs, held, hist
vars == <<progs, held, hist>>

Texts == Good \cup Bad
Done(a) == hist' = Append(hist, a)
Busy == Len(hist) < Depth

Init == progs = <<>> /\ held = <<>> /\ hist = <<>>
Cell(m, t) ==
  /\ Busy
  /\ progs' = AfterCell(progs, m, t \in Good, t)
  /\ Done([a |-> "cell", m |-> m, t |-> t])
  /\ UNCHANGED held
Look(f, m) ==
  /\ Busy
  /\ held' = IF Known(progs, m) THEN Append(held, <<Len(hist), m, progs[m]>>) ELSE held
  /\ Done([a |-> f, m |-> m, t |-> ""])
  /\ UNCHANGED progs
Recheck == /\ Busy /\ held # <<>> /\ hist[Len(hist)].a = "cell"
           /\ Done([a |-> "recheck", m |-> "", t |-> ""])
           /\ UNCHANGED <<progs, held>>
Tell == /\ Len(hist) = Depth /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
        /\ hist' = Append(hist, [a |-> "end", m |-> "", t |-> ""]) /\ UNCHANGED <<progs, held>>
Act == \/ \E m \in Names \cup {""}, t \in Texts : Cell(m, t)
       \/ \E f \in Requests, m \in Names : Look(f, m)
       \/ Recheck
Next == Act \/ Tell
Spec == Init /\ [][Act]_vars
GenSpec == Init /\ [][Next]_vars

(*------------------------------- invariants ------------------------------*)
CellsOf(m, n) == {i \in 1..n : hist[i].a = "cell" /\ hist[i].m = m}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* what m stands for after n commands: "" when unknown
Meaning(m, n) == LET C == CellsOf(m, n) IN
                 IF C = {} THEN "" ELSE LET t == hist[MaxOf(C)].t IN IF t \in Good THEN t ELSE ""
Latest == \A m \in Names : LET d == Meaning(m, Len(hist)) IN
            IF d = "" THEN ~Known(progs, m) ELSE Known(progs, m) /\ progs[m] = d
Held == \A i \in 1..Len(held) : held[i][3] = Meaning(held[i][2], held[i][1])
NoEmptyName == ~Known(progs, "")
\* one command touches one name, and never what is held
Isolated == [][/\ SubSeq(held', 1, Len(held)) = held
               /\ LET a == hist'[Len(hist')] IN
                  \A m \in Names : (a.a # "cell" \/ a.m # m) => /\ Known(progs, m) <=> Known(progs', m)
                                                                /\ Known(progs, m) => progs'[m] = progs[m]]_vars
=============================================================================
