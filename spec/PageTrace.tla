----------------------------- MODULE PageTrace -----------------------------
(***************************************************************************)
(* Recorded histories of the two web pages against Page: after every event *)
(* the calls that reached the engine, the sound that reached the speakers, *)
(* and what the user was told.                                             *)
(***************************************************************************)
EXTENDS Page, Json, IOUtils

Hist == Tail(ndJsonDeserialize(IOEnv.TRACE_FILE))
Has(r, f) == f \in DOMAIN r

VARIABLES tid, pc, P, res
vars == << tid, pc, P, res >>
Ev == Hist[tid].ev

White(t) == \A i \in 1..Len(t) : t[i] \in {32, 10, 13, 9}
\* a text of the model, which may have one Blank in it, and a recorded one
SameText(m, t) ==
    LET bs == {i \in 1..Len(m) : m[i] = Blank}
    IN IF bs = {} THEN m = t
       ELSE LET b == CHOOSE i \in bs : TRUE
                tail == Len(m) - b
            IN /\ Len(t) >= Len(m) - 1
               /\ SubSeq(t, 1, b - 1) = SubSeq(m, 1, b - 1)
               /\ SubSeq(t, Len(t) - tail + 1, Len(t)) = SubSeq(m, b + 1, Len(m))
               /\ White(SubSeq(t, b, Len(t) - tail))
SameCall(m, c) == /\ m.c = c.c
                  /\ CASE m.c \in {"update", "msg"} -> SameText(m.text, c.text)
                       [] m.c \in {"bpm", "amp", "live"} -> m.v = c.v
                       [] m.c = "sample" -> m.name = c.name /\ m.data = c.data /\ m.ch = c.ch /\ m.sr = c.sr
                       [] m.c = "process" -> m.in = c.in
Same(ms, cs) == Len(ms) = Len(cs) /\ \A i \in 1..Len(ms) : SameCall(ms[i], cs[i])

Within(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
Told(logs, t) == \E i \in 1..Len(logs) : Within(logs[i], t)

\* line k of a text, and its parts before and from column c on
LineOf(text, k) ==
    LET cut == SelectSeq([i \in 1..Len(text) |-> i], LAMBDA i : text[i] = 10)
        from == IF k = 1 THEN 1 ELSE cut[k - 1] + 1
        to == IF k <= Len(cut) THEN cut[k] - 1 ELSE Len(text)
    IN SubSeq(text, from, to)

\* is everything in front of a script's result and after it
Meaning(ev) == IF Has(ev, "pieces") THEN FoldLeft(LAMBDA a, x : a \o x.v, << >>, ev.pieces) ELSE ev.text

\* the user is told what was refused; for bad syntax also where
ToldOf(p, a, ev) ==
    IF a.n # 1 THEN Told(ev.logs, a.text)
    ELSE /\ Told(ev.logs, ev.at.where)
         /\ LET l == LineOf(p.shown, ev.at.line)
            IN /\ Told(ev.logs, SubSeq(l, 1, ev.at.col - 1))
               /\ Told(ev.logs, SubSeq(l, ev.at.col, Len(l)))

SampleOf(x) == [c |-> "sample", name |-> x.name, data |-> x.data, ch |-> x.ch, sr |-> x.sr]
\* a start: the sample rate of the sound card and every sample known to the page
Started(p, ev) ==
    /\ \E i \in 1..Len(ev.calls) : ev.calls[i].c = "sr" /\ ev.calls[i].v = Hist[tid].sr
    /\ \E i \in 1..Len(ev.calls) : ev.calls[i].c = "seed"
    /\ {SampleOf(ev.calls[i]) : i \in {j \in 1..Len(ev.calls) : ev.calls[j].c = "sample"}} = p.samples
    /\ \A i \in 1..Len(ev.calls) : ev.calls[i].c \in {"sr", "seed", "sample", "live"}
    /\ \A i \in 1..Len(ev.calls) : ev.calls[i].c = "live" => ev.calls[i].v = Hist[tid].live

Initial == [Fresh(Hist[tid].page) EXCEPT !.samples = {Hist[tid].known[i] : i \in 1..Len(Hist[tid].known)}]

\* the state after an event, and the calls it makes
RECURSIVE DeliverAll(_, _, _)
DeliverAll(p, k, calls) == IF k = 0 \/ p.port = << >> THEN [p |-> p, calls |-> calls]
                           ELSE DeliverAll(Deliver(p), k - 1, Append(calls, Head(p.port)))
After(p, ev) ==
    CASE ev.op = "run" -> [p |-> RunCode(p, Meaning(ev)), calls |-> << >>]
      [] ev.op = "empty" -> [p |-> RunCode(p, << Blank >>), calls |-> << >>]
      [] ev.op = "msg" -> [p |-> SendMsg(p, ev.text), calls |-> << >>]
      [] ev.op \in {"bpm", "live"} -> [p |-> Post(p, [c |-> ev.op, v |-> ev.v]), calls |-> << >>]
      [] ev.op = "amp" -> [p |-> IF ev.v > 1 THEN p ELSE Post(p, [c |-> "amp", v |-> ev.v]), calls |-> << >>]
      [] ev.op = "sample" -> [p |-> AddSample(p, [SampleOf(ev) EXCEPT !.name = << 92 >> \o ev.name]), calls |-> << >>]
      [] ev.op = "pick" -> [p |-> AddFiles(p, ev.files), calls |-> << >>]
      [] ev.op = "folder" -> [p |-> AddFolders(p, ev.files), calls |-> << >>]
      [] ev.op = "deliver" -> DeliverAll(p, ev.k, << >>)
      [] ev.op = "tick" ->
            LET in == IF Has(ev, "in") THEN ev.in ELSE << >>
            IN [p |-> Tick(p, in), calls |-> BlockCalls(p, InputOf(p, in))]
      [] ev.op = "back" -> [p |-> [p EXCEPT !.back = SubSeq(@, Smaller(ev.k, Len(@)) + 1, Len(@))], calls |-> << >>]
      [] OTHER -> [p |-> p, calls |-> << >>]

Bad(p, ev) ==
    IF Has(ev, "panic") THEN "crashed: " \o ev.panic
    ELSE IF ev.op = "load" THEN (IF Started(p, ev) THEN "" ELSE "start: " \o ToString(ev.calls))
    ELSE IF ev.op = "restart" THEN (IF Started(p, ev) THEN "" ELSE "restart: " \o ToString(ev.calls))
    ELSE LET r == After(p, ev)
         IN IF ~Same(r.calls, ev.calls) THEN ev.op \o ": the engine was given other calls than " \o ToString(r.calls)
            ELSE IF ev.op = "tick"
                 THEN LET k == r.p.blocks * 1000
                      IN IF ev.l = [i \in 1..BlockSize |-> k + i - 1] /\ ev.r = [i \in 1..BlockSize |-> -(k + i - 1)]
                         THEN "" ELSE "the speakers get something else than the engine's sound"
            ELSE IF ev.op = "back"
                 THEN IF \A i \in 1..Smaller(ev.k, Len(p.back)) : ToldOf(p, p.back[i], ev)
                      THEN "" ELSE "the user is not told " \o ToString(p.back)
            ELSE ""

Init == /\ tid \in 1..Len(Hist)
        /\ pc = 1
        /\ P = Initial
        /\ res = "run"
Next == /\ res = "run"
        /\ IF pc > Len(Ev)
           THEN /\ res' = "ok"
                /\ UNCHANGED << tid, pc, P >>
                /\ PrintT("VERDICT " \o Hist[tid].id \o " OK")
           ELSE LET b == Bad(P, Ev[pc])
                IN IF b = ""
                   THEN /\ pc' = pc + 1
                        /\ P' = IF Ev[pc].op = "restart" THEN Restarted(P) ELSE After(P, Ev[pc]).p
                        /\ UNCHANGED << tid, res >>
                   ELSE /\ res' = "bad"
                        /\ UNCHANGED << tid, pc, P >>
                        /\ PrintT("VERDICT " \o Hist[tid].id \o " BAD event " \o ToString(pc) \o ": " \o b)
Spec == Init /\ [][Next]_vars
=============================================================================
