------------------------------- MODULE Queue -------------------------------
(***************************************************************************)
(* The command queue between the page and the audio thread: a bounded      *)
(* first-in-first-out queue of bytes with one producer and one consumer.   *)
(* An operation of a side is called, takes effect in one or two moments    *)
(* and returns; the other side may act between these.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Byte, MaxLen

VARIABLES cap, q, P, C

Smaller(a, b) == IF a < b THEN a ELSE b
Prefix(s, n) == SubSeq(s, 1, n)
Rest(s, n) == SubSeq(s, n + 1, Len(s))

\* a side: st is "idle", "called", "checked" (pushes and pops know how much), "done"; r and b are the results
Idle == [st |-> "idle"]
Moving == {"push", "pop"}
Room == cap - Len(q)

Calls(op) == [st |-> "called", op |-> op]

\* the value an observation gives at this moment
Observed(k) ==
    CASE k = "empty" -> IF q = << >> THEN 1 ELSE 0
      [] k = "full" -> IF Room = 0 THEN 1 ELSE 0
      [] k = "space" -> Room
      [] k = "count" -> Len(q)

\* the moments of a side that has been called, as next values << side, queue >>
Moment(s) ==
    CASE s.st = "called" /\ s.op.k = "push" ->
            << [s EXCEPT !.st = "checked"] @@ [r |-> Smaller(Len(s.op.b), Room)], q >>
      [] s.st = "called" /\ s.op.k = "pop" ->
            << [s EXCEPT !.st = "checked"] @@ [r |-> Smaller(s.op.n, Len(q))], q >>
      [] s.st = "called" /\ s.op.k \notin Moving ->
            << [s EXCEPT !.st = "done"] @@ [r |-> Observed(s.op.k)], q >>
      [] s.st = "checked" /\ s.op.k = "push" ->
            << [s EXCEPT !.st = "done"], q \o Prefix(s.op.b, s.r) >>
      [] s.st = "checked" /\ s.op.k = "pop" ->
            << [s EXCEPT !.st = "done"] @@ [b |-> Prefix(q, s.r)], Rest(q, s.r) >>

Busy(s) == s.st \in {"called", "checked"}
=============================================================================
