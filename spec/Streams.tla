------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* Block size: the same history is recorded from engines of several block  *)
(* sizes, with the operations at the same sample positions.  All answers   *)
(* and all samples of the concatenated blocks have to be the same, and     *)
(* those of the model run with one of the sizes.                           *)
(***************************************************************************)
EXTENDS Live, Json, IOUtils

CONSTANTS Tol

File == IOEnv.TRACE_FILE
Data == ndJsonDeserialize(File)
Noise == Data[1].noise
Hist == Tail(Data)

VARIABLES tid, pc, E, res
vars == << tid, pc, E, res >>

Ev == Hist[tid].ev
ProgOf(chains) ==
    [nm \in {chains[i].name : i \in 1..Len(chains)} |->
        chains[CHOOSE i \in 1..Len(chains) : chains[i].name = nm].nodes]

Allowed == IF Has(Hist[tid], "tol") THEN Hist[tid].tol ELSE Tol
\* histories with resonant filters say that they need more room
Near(a, b) == Abs(a - b) <= Allowed + Abs(a) \div (IF Has(Hist[tid], "tol") THEN 256 ELSE 1024)
\* the recorded streams differ by rounding at most
Same(a, b) == Abs(a - b) <= 16 + Abs(a) \div 4096

\* the model over one unit: [E, l, r]
Play(e, input, unit) ==
    FoldLeft(LAMBDA acc, k :
        LET part(s) == SubSeq(s, (k - 1) * e.n + 1, k * e.n)
            b == BlockOf(acc.E, IF input = << >> THEN << >> ELSE [c \in 1..Len(input) |-> part(input[c])])
        IN [E |-> b.E, l |-> acc.l \o b.out[1], r |-> acc.r \o b.out[2]],
        [E |-> e, l |-> << >>, r |-> << >>], Idx(unit \div e.n))

Step(e, ev) ==
    LET runs == ev.runs
        crashed == \E i \in 1..Len(runs) : Has(runs[i], "panic")
    IN IF crashed THEN [E |-> e, bad |-> "crash"]
       ELSE CASE ev.op = "play" ->
            LET m == Play(e, IF Has(ev, "in") THEN ev.in ELSE << >>, Hist[tid].unit)
                u == 1..Hist[tid].unit
                differ == {i \in 2..Len(runs) : \E t \in u : ~Same(runs[1].l[t], runs[i].l[t]) \/ ~Same(runs[1].r[t], runs[i].r[t])}
                off == {t \in u : ~Near(m.l[t], runs[1].l[t]) \/ ~Near(m.r[t], runs[1].r[t])}
            IN IF m.E.ovf THEN [E |-> m.E, bad |-> "skip"]
               ELSE IF differ # {} THEN [E |-> m.E, bad |-> "block sizes differ, runs " \o ToString(differ)]
               ELSE IF off # {} THEN [E |-> m.E, bad |-> "sound differs from the model at " \o ToString(off)]
               ELSE [E |-> m.E, bad |-> ""]
         [] ev.op = "update" ->
            LET p == ProgOf(ev.prog)
                vs == Verdicts(e, p)
                got == {[v |-> runs[i].v, name |-> runs[i].vn] : i \in 1..Len(runs)}
            IN IF ~(got \subseteq vs) THEN [E |-> e, bad |-> "answers " \o ToString(got) \o " expected " \o ToString(vs)]
               ELSE [E |-> IF runs[1].v = "ok" THEN Update(e, p) ELSE e, bad |-> ""]
         [] ev.op = "msg" /\ Has(ev, "sym") -> [E |-> TextMessage(e, ev.chain, ev.node, ev.pos, ev.sym), bad |-> ""]
         [] ev.op = "msg" -> [E |-> Message(e, ev.chain, ev.node, ev.pos, ev.val), bad |-> ""]
         [] ev.op = "bpm" -> [E |-> SetBpm(e, ev.v), bad |-> ""]
         [] ev.op = "sample" -> [E |-> AddSample(e, ev.name, ev.data, ev.sr), bad |-> ""]
         [] ev.op = "reset" -> [E |-> Reset(e), bad |-> ""]

Init == /\ tid \in 1..Len(Hist)
        /\ pc = 1
        /\ E = Fresh(Hist[tid].n, Hist[tid].sr)
        /\ res = "run"

Next == /\ res = "run"
        /\ IF pc > Len(Ev)
           THEN /\ res' = "ok"
                /\ UNCHANGED << tid, pc, E >>
                /\ PrintT("VERDICT " \o Hist[tid].id \o " OK")
           ELSE LET r == Step(E, Ev[pc])
                IN IF r.bad = ""
                   THEN /\ pc' = pc + 1
                        /\ E' = r.E
                        /\ UNCHANGED << tid, res >>
                   ELSE /\ res' = "bad"
                        /\ UNCHANGED << tid, pc, E >>
                        /\ PrintT("VERDICT " \o Hist[tid].id \o (IF r.bad = "skip" THEN " SKIP" ELSE " BAD")
                                  \o " event " \o ToString(pc) \o ": " \o r.bad)

Spec == Init /\ [][Next]_vars
=============================================================================
