------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: every recorded history of the real engine is replayed on   *)
(* Live; the recorded answers and blocks have to be those of the model.    *)
(* One behaviour per history; the verdict is printed at its end.           *)
(***************************************************************************)
EXTENDS Live, Json, IOUtils

CONSTANTS Tol

File == IOEnv.TRACE_FILE
Data == ndJsonDeserialize(File)
Streams == Data[1].noise         \* first line: the random streams
Hist == Tail(Data)

VARIABLES tid, pc, E, res
vars == << tid, pc, E, res >>

Ev == Hist[tid].ev
N == Hist[tid].n

\* the program of an update event as a function
ProgOf(chains) ==
    [nm \in {chains[i].name : i \in 1..Len(chains)} |->
        chains[CHOOSE i \in 1..Len(chains) : chains[i].name = nm].nodes]

\* histories with resonant filters say how exact the model's arithmetic is for them; a filter keeps the error
\* of a loud sample while it rings, so their room depends on the loudest sample of the history
Room(a) == IF ~Has(Hist[tid], "tol") THEN Tol + Abs(a) \div 1024
           ELSE Hist[tid].tol + (IF Has(Hist[tid], "peak") THEN Larger(Abs(a), Hist[tid].peak) ELSE Abs(a))
                                \div (IF Hist[tid].tol > 400 THEN 128 ELSE 256)
Near(a, b) == Abs(a - b) <= Room(a)
DiffAt(out, ev) ==
    {<< ch, i >> \in {1, 2} \X (1..Len(ev.l)) : ~Near(out[ch][i], IF ch = 1 THEN ev.l[i] ELSE ev.r[i])}

\* what plays after arbitrary input is not described by the model; the next reset makes it known again
Unknown(e) == [prog |-> << >>, sr |-> e.sr, n |-> e.n]
Known(e) == Has(e, "ovf")

Crashed(ev) == Has(ev, "panic")

\* result of one event: [E, bad], bad = "" when it conforms
Step(e, ev) ==
    CASE ev.op = "update" ->
            LET p == ProgOf(ev.prog)
                vs == Verdicts(e, p)
                got == [v |-> ev.v, name |-> ev.vn]
            IN IF Crashed(ev) THEN [E |-> e, bad |-> "crash in update"]
               ELSE IF ~Known(e) THEN [E |-> e, bad |-> ""]
               ELSE IF got \notin vs
                    THEN [E |-> e, bad |-> "answer " \o ToString(got) \o " expected " \o ToString(vs)]
               ELSE [E |-> IF ev.v = "ok" THEN Update(e, p) ELSE e, bad |-> ""]
      [] ev.op = "block" ->
            LET b == BlockOf(e, IF Has(ev, "in") THEN ev.in ELSE << >>)
            IN IF Crashed(ev) THEN [E |-> e, bad |-> "crash in block"]
               ELSE IF ~Known(e) THEN [E |-> e, bad |-> ""]
               ELSE IF Has(ev, "mute") THEN [E |-> e, bad |-> ""]
               ELSE IF b.E.ovf THEN [E |-> b.E, bad |-> "skip"]
               ELSE LET d == DiffAt(b.out, ev)
                    IN IF d = {} THEN [E |-> b.E, bad |-> ""]
                       ELSE LET w == CHOOSE x \in d : TRUE
                            IN [E |-> b.E, bad |-> "sound at " \o ToString(w) \o " expected "
                                   \o ToString(b.out[w[1]][w[2]]) \o " got "
                                   \o ToString(IF w[1] = 1 THEN ev.l[w[2]] ELSE ev.r[w[2]])]
      [] ev.op = "bad" ->     \* text that is not in the language
            IF Crashed(ev) THEN [E |-> e, bad |-> "crash in update"]
            ELSE [E |-> e, bad |-> IF ev.v = "parse" THEN "" ELSE "answer " \o ev.v \o " expected parse"]
      [] ev.op = "any" ->     \* arbitrary text: rejected code changes nothing, accepted code is unknown to the model
            IF Crashed(ev) THEN [E |-> e, bad |-> "crash in update"]
            ELSE IF ev.v \notin {"ok", "parse", "ref", "sample"} THEN [E |-> e, bad |-> "answer " \o ev.v]
            ELSE [E |-> IF ev.v = "ok" THEN Unknown(e) ELSE e, bad |-> ""]
      [] ev.op = "hang" -> [E |-> e, bad |-> "does not return"]
      [] OTHER ->
            LET e2 == CASE ev.op = "anymsg" -> Unknown(e)
                        [] ev.op = "anybpm" -> Unknown(e)
                        [] ev.op = "msg" /\ Has(ev, "sym") -> TextMessage(e, ev.chain, ev.node, ev.pos, ev.sym)
                        [] ev.op = "msg" -> Message(e, ev.chain, ev.node, ev.pos, ev.val)
                        [] ev.op = "nop" -> e
                        \* whole periods of everything that plays
                        [] ev.op = "skip" -> e
                        [] ev.op = "again" -> Unknown(e)
                        [] ev.op = "reset" -> IF Known(e) THEN Reset(e) ELSE Fresh(e.n, e.sr)
                        [] ev.op = "bpm" -> SetBpm(e, ev.v)
                        [] ev.op = "sr" -> [e EXCEPT !.sr = ev.v]
                        [] ev.op = "seed" -> [e EXCEPT !.seed = ev.v]
                        [] ev.op = "sample" -> IF ~Known(e) \/ Has(ev, "mute") THEN e ELSE AddSample(e, ev.name, ev.data, ev.sr)
            IN IF Crashed(ev) THEN [E |-> e, bad |-> "crash in " \o ev.op] ELSE [E |-> e2, bad |-> ""]

\* the resources held after an event: those of an engine that has seen only the current program
\* (fn and fe were recorded from such an engine)
Slack == 512
Residue(ev) ==
    IF Has(ev, "gn") /\ (ev.gn # ev.fn \/ ev.ge # ev.fe)
    THEN "graph has " \o ToString(<< ev.gn, ev.ge >>) \o " nodes and connections, expected "
         \o ToString(<< ev.fn, ev.fe >>)
    \* what is done again and again needs no more memory than before
    ELSE IF Has(ev, "late") /\ ev.late > ev.early + Slack
    THEN "memory grows from " \o ToString(ev.early) \o " to " \o ToString(ev.late) \o " bytes"
    ELSE ""

Init == /\ tid \in 1..Len(Hist)
        /\ pc = 1
        /\ E = Fresh(Hist[tid].n, Hist[tid].sr)
        /\ res = "run"

Next == /\ res = "run"
        /\ IF pc > Len(Ev)
           THEN /\ res' = "ok"
                /\ UNCHANGED << tid, pc, E >>
                /\ PrintT("VERDICT " \o Hist[tid].id \o " OK")
           ELSE LET r == Step(E, Ev[pc])
                    bad == IF r.bad # "" THEN r.bad ELSE Residue(Ev[pc])
                IN IF bad = ""
                   THEN /\ pc' = pc + 1
                        /\ E' = r.E
                        /\ UNCHANGED << tid, res >>
                   ELSE /\ res' = "bad"
                        /\ UNCHANGED << tid, pc, E >>
                        /\ PrintT("VERDICT " \o Hist[tid].id \o (IF bad = "skip" THEN " SKIP" ELSE " BAD")
                                  \o " event " \o ToString(pc) \o ": " \o bad)

Spec == Init /\ [][Next]_vars
=============================================================================
