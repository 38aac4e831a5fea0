----------------------------- MODULE RingImpl -----------------------------
(***************************************************************************)
(* The ring buffer as it is laid out in shared memory: two indices and one *)
(* slot more than the capacity, every access of a shared word a step of    *)
(* its own.  TLC checks that it implements Queue for all interleavings.    *)
(* PublishFirst and OffByOne are wrong variants, used to see that the      *)
(* check can fail.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Caps, Byte, MaxLen, PublishFirst, OffByOne

VARIABLES cap, mem, wr, rd, P, C
vars == << cap, mem, wr, rd, P, C >>

Size == cap + 1
Smaller(a, b) == IF a < b THEN a ELSE b
SeqsUpTo(n) == UNION {[1..k -> Byte] : k \in 0..n}

AvailRead(r, w) == IF w >= r THEN w - r ELSE w + Size - r
AvailWrite(r, w) == IF w >= r THEN r - w - 1 + Size ELSE r - w - 1

Init == /\ cap \in Caps
        /\ wr = 0 /\ rd = 0
        /\ mem = [i \in 0..cap |-> CHOOSE b \in Byte : TRUE]
        /\ P = [pc |-> "idle"] /\ C = [pc |-> "idle"]

(* the producer *)
PCall == /\ P.pc = "idle"
         /\ \E b \in SeqsUpTo(MaxLen) : P' = [pc |-> "rd", b |-> b]
         /\ UNCHANGED << cap, mem, wr, rd, C >>
PLoadRd == /\ P.pc = "rd"
           /\ P' = [pc |-> "wr", b |-> P.b, rd |-> rd]
           /\ UNCHANGED << cap, mem, wr, rd, C >>
PLoadWr == /\ P.pc = "wr"
           /\ LET free == AvailWrite(P.rd, wr) + (IF OffByOne THEN 1 ELSE 0)
                  n == Smaller(free, Len(P.b))
              IN P' = [pc |-> IF n = 0 THEN "ret" ELSE IF PublishFirst THEN "pub" ELSE "copy",
                       b |-> P.b, n |-> n, i |-> 0, wr |-> wr]
           /\ UNCHANGED << cap, mem, wr, rd, C >>
PCopy == /\ P.pc = "copy"
         /\ mem' = [mem EXCEPT ![(P.wr + P.i) % Size] = P.b[P.i + 1]]
         /\ P' = [P EXCEPT !.i = P.i + 1,
                           !.pc = IF P.i + 1 < P.n THEN "copy" ELSE IF PublishFirst THEN "ret" ELSE "pub"]
         /\ UNCHANGED << cap, wr, rd, C >>
PPublish == /\ P.pc = "pub"
            /\ wr' = (P.wr + P.n) % Size
            /\ P' = [P EXCEPT !.pc = IF PublishFirst THEN "copy" ELSE "ret"]
            /\ UNCHANGED << cap, mem, rd, C >>
PRet == /\ P.pc = "ret"
        /\ P' = [pc |-> "idle"]
        /\ UNCHANGED << cap, mem, wr, rd, C >>

(* the consumer *)
CCall == /\ C.pc = "idle"
         /\ \E n \in 0..MaxLen : C' = [pc |-> "rd", n |-> n]
         /\ UNCHANGED << cap, mem, wr, rd, P >>
CLoadRd == /\ C.pc = "rd"
           /\ C' = [pc |-> "wr", n |-> C.n, rd |-> rd]
           /\ UNCHANGED << cap, mem, wr, rd, P >>
CLoadWr == /\ C.pc = "wr"
           /\ LET m == Smaller(AvailRead(C.rd, wr), C.n)
              IN C' = [pc |-> IF m = 0 THEN "ret" ELSE "copy", n |-> C.n, m |-> m, rd |-> C.rd, b |-> << >>]
           /\ UNCHANGED << cap, mem, wr, rd, P >>
CCopy == /\ C.pc = "copy"
         /\ C' = [C EXCEPT !.b = Append(C.b, mem[(C.rd + Len(C.b)) % Size]),
                           !.pc = IF Len(C.b) + 1 < C.m THEN "copy" ELSE "pub"]
         /\ UNCHANGED << cap, mem, wr, rd, P >>
CPublish == /\ C.pc = "pub"
            /\ rd' = (C.rd + C.m) % Size
            /\ C' = [C EXCEPT !.pc = "ret"]
            /\ UNCHANGED << cap, mem, wr, P >>
CRet == /\ C.pc = "ret"
        /\ C' = [pc |-> "idle"]
        /\ UNCHANGED << cap, mem, wr, rd, P >>

Next == \/ PCall \/ PLoadRd \/ PLoadWr \/ PCopy \/ PPublish \/ PRet
        \/ CCall \/ CLoadRd \/ CLoadWr \/ CCopy \/ CPublish \/ CRet
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* the queue that is implemented *)
Contents == [i \in 1..AvailRead(rd, wr) |-> mem[(rd + i - 1) % Size]]
AsPush == [k |-> "push", b |-> P.b]
AsPop == [k |-> "pop", n |-> C.n]

\* how much fits is decided when the other side's index is read; an empty push or pop is over then
AbsP == CASE P.pc = "idle" -> [st |-> "idle"]
          [] P.pc = "rd" -> [st |-> "called", op |-> AsPush]
          [] P.pc = "wr" -> [st |-> "checked", op |-> AsPush, r |-> Smaller(AvailWrite(P.rd, wr), Len(P.b))]
          [] P.pc \in {"copy", "pub"} -> [st |-> "checked", op |-> AsPush, r |-> P.n]
          [] P.pc = "ret" -> [st |-> "done", op |-> AsPush, r |-> P.n]
AbsC == CASE C.pc = "idle" -> [st |-> "idle"]
          [] C.pc \in {"rd", "wr"} -> [st |-> "called", op |-> AsPop]
          [] C.pc \in {"copy", "pub"} -> [st |-> "checked", op |-> AsPop, r |-> C.m]
          [] C.pc = "ret" -> [st |-> "done", op |-> AsPop, r |-> C.m, b |-> C.b]

Q == INSTANCE Queue WITH q <- Contents, P <- AbsP, C <- AbsC

QNext == \/ \E b \in SeqsUpTo(MaxLen) : AbsP.st = "idle" /\ AbsP' = Q!Calls([k |-> "push", b |-> b])
                                        /\ AbsC' = AbsC /\ Contents' = Contents
         \/ \E n \in 0..MaxLen : AbsC.st = "idle" /\ AbsC' = Q!Calls([k |-> "pop", n |-> n])
                                 /\ AbsP' = AbsP /\ Contents' = Contents
         \/ Q!Busy(AbsP) /\ << AbsP', Contents' >> = Q!Moment(AbsP) /\ AbsC' = AbsC
         \/ Q!Busy(AbsC) /\ << AbsC', Contents' >> = Q!Moment(AbsC) /\ AbsP' = AbsP
         \* nothing to move: checked and done in one step
         \/ Q!Busy(AbsC) /\ AbsP' = AbsP /\ Contents' = Contents
            /\ AbsC'.st = "done" /\ AbsC'.r = 0 /\ AbsC'.b = << >> /\ AbsC'.op = AbsC.op
            /\ (Contents = << >> \/ AbsC.op.n = 0)
         \/ AbsP.st = "checked" /\ AbsP.r = 0 /\ AbsP' = [AbsP EXCEPT !.st = "done"]
            /\ AbsC' = AbsC /\ Contents' = Contents
         \/ AbsP.st = "done" /\ AbsP'.st = "idle" /\ AbsC' = AbsC /\ Contents' = Contents
         \/ AbsC.st = "done" /\ AbsC'.st = "idle" /\ AbsP' = AbsP /\ Contents' = Contents

Implements == [][QNext]_<< Contents, AbsP, AbsC >>
Bounded == AvailRead(rd, wr) <= cap
=============================================================================
