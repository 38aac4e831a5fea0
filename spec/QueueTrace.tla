---------------------------- MODULE QueueTrace ----------------------------
(***************************************************************************)
(* Runs of the real queue under chosen schedules: calls and returns of     *)
(* both sides in the order in which they happened.  A run conforms when    *)
(* the moments can be placed between them so that every returned value is  *)
(* that of Queue.  Runs that conform print their verdict.                  *)
(***************************************************************************)
EXTENDS Queue, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
Has(r, f) == f \in DOMAIN r

VARIABLES tid, pc
vars == << cap, q, P, C, tid, pc >>

Ev == Hist[tid].ev

Init == /\ tid \in 1..Len(Hist)
        /\ pc = 1
        /\ cap = Hist[tid].cap
        /\ q = Hist[tid].fill
        /\ P = Idle
        /\ C = Idle

Fits(s, e) == /\ s.st = "done"
              /\ s.r = e.r
              /\ Has(e, "b") => s.b = e.b

After(s, e) == IF e.e = "call" THEN Calls(e.op) ELSE Idle
Can(s, e) == IF e.e = "call" THEN s.st = "idle" ELSE Fits(s, e)

Event == /\ pc <= Len(Ev)
         /\ LET e == Ev[pc] IN
            IF e.s = "p" THEN Can(P, e) /\ P' = After(P, e) /\ UNCHANGED C
                         ELSE Can(C, e) /\ C' = After(C, e) /\ UNCHANGED P
         /\ pc' = pc + 1
         /\ UNCHANGED << q, cap, tid >>

Inner == /\ pc <= Len(Ev)
         /\ \/ Busy(P) /\ P' = Moment(P)[1] /\ q' = Moment(P)[2] /\ UNCHANGED C
            \/ Busy(C) /\ C' = Moment(C)[1] /\ q' = Moment(C)[2] /\ UNCHANGED P
         /\ UNCHANGED << cap, tid, pc >>

Finish == /\ pc = Len(Ev) + 1
          /\ pc' = pc + 1
          /\ UNCHANGED << cap, q, P, C, tid >>
          /\ PrintT("CONFORMS " \o Hist[tid].id)

Next == Event \/ Inner \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
