------------------------------- MODULE Edits -------------------------------
(***************************************************************************)
(* Editing, seen from outside and without sound: the code being played and *)
(* which running node plays which component of it.                         *)
(*                                                                         *)
(* Submitting code is answered as Live says.  Refused code changes         *)
(* nothing.  Accepted code replaces the old one; components taken over     *)
(* from the old code keep their running nodes, all others get nodes that   *)
(* were not there before.                                                  *)
(***************************************************************************)
EXTENDS Live

CONSTANTS Programs, Loaded

VARIABLES prog, ident, ans
evars == << prog, ident, ans >>

None == [v |-> "none", name |-> ""]
Ids(id) == UNION {ToSet(id[nm]) : nm \in DOMAIN id}
Size(id) == SumOver(LAMBDA nm : Len(id[nm]), DOMAIN id)

EInit == prog = << >> /\ ident = << >> /\ ans = None

TakenOver(old, oldid, new, newid) ==
    /\ DOMAIN newid = DOMAIN new
    /\ Cardinality(Ids(newid)) = Size(newid)
    /\ \A nm \in DOMAIN new :
        LET m == MatchChain(old, nm, new[nm])
        IN /\ Len(newid[nm]) = Len(new[nm])
           /\ \A i \in 1..Len(new[nm]) :
                IF m[i] # 0 THEN newid[nm][i] = oldid[nm][m[i]] ELSE newid[nm][i] \notin Ids(oldid)

Submit(p) ==
    /\ ans' \in Verdicts([prog |-> prog, smp |-> [s \in Loaded |-> 0]], p)
    /\ IF ans'.v = "ok"
       THEN prog' = p /\ TakenOver(prog, ident, p, ident')
       ELSE UNCHANGED << prog, ident >>
Forget == prog' = << >> /\ ident' = << >> /\ ans' = None

ENext == Forget \/ \E p \in Programs : Submit(p)
ESpec == EInit /\ [][ENext]_evars
=============================================================================
