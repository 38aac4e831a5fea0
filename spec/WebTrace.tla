----------------------------- MODULE WebTrace -----------------------------
(***************************************************************************)
(* Histories through the browser entry points: the status block and the    *)
(* interleaved audio are those of the engine behind them.                  *)
(***************************************************************************)
EXTENDS Trace

StatusSize == 256
Codes == [ok |-> 0, parse |-> 1, sample |-> 2, ref |-> 3]
Kinds == << "ok", "parse", "sample", "ref" >>

Cut(s) == IF Len(s) > StatusSize - 2 THEN SubSeq(s, 1, StatusSize - 2) ELSE s

\* the message that goes with a decision; own is the decision of an engine used directly
Text(v, own) ==
    CASE v.v = "ok" -> ""
      [] v.v = "sample" -> "There is no sample named " \o v.name
      [] v.v = "ref" -> "There is no reference named " \o v.name
      [] v.v = "parse" -> "pos[" \o ToString(own.pos) \o "], line[" \o ToString(own.line) \o "], col["
                           \o ToString(own.col) \o "], positives" \o own.yes \o ", negatives" \o own.no

Says(ev, v) == /\ ev.code = Codes[v.v]
               /\ \/ v.v = "parse" /\ ev.own.v # "parse"      \* two reasons to reject: the other engine gave the other one
                  \/ ev.message = Cut(Text(v, ev.own))

\* a recorded status block or block of audio as an event of the engine; a field "wrong" when it is none
Decode(e, ev) ==
    CASE ev.op \in {"update", "bad"} /\ ~Crashed(ev) ->
            LET vs == IF ev.op = "bad" THEN {[v |-> "parse", name |-> ""]} ELSE Verdicts(e, ProgOf(ev.prog))
                fit == {v \in vs : Says(ev, v)}
            IN IF ev.size # StatusSize \/ ev.gap # 0 THEN [wrong |-> "status block of size " \o ToString(ev.size)]
               ELSE IF fit = {} THEN [wrong |-> "status " \o ToString(ev.code) \o " '" \o ev.message
                                                \o "' expected one of " \o ToString(vs)]
               ELSE LET v == CHOOSE v \in fit : TRUE IN [v |-> v.v, vn |-> v.name] @@ ev
      [] ev.op = "block" /\ ~Crashed(ev) ->
            LET h == ev.size \div 2
            IN IF Len(ev.out) # ev.size THEN [wrong |-> "block of " \o ToString(Len(ev.out)) \o " samples"]
               ELSE [op |-> "block", l |-> SubSeq(ev.out, 1, h), r |-> SubSeq(ev.out, h + 1, 2 * h)]
      [] ev.op \in {"amp", "live"} -> [ev EXCEPT !.op = "nop"]
      [] OTHER -> ev

WebStep(e, ev) ==
    LET d == Decode(e, ev)
    IN IF Has(d, "wrong") THEN [E |-> e, bad |-> d.wrong] ELSE Step(e, d)

WebNext == /\ res = "run"
           /\ IF pc > Len(Ev)
              THEN /\ res' = "ok"
                   /\ UNCHANGED << tid, pc, E >>
                   /\ PrintT("VERDICT " \o Hist[tid].id \o " OK")
              ELSE LET r == WebStep(E, Ev[pc])
                   IN IF r.bad = ""
                      THEN /\ pc' = pc + 1
                           /\ E' = r.E
                           /\ UNCHANGED << tid, res >>
                      ELSE /\ res' = "bad"
                           /\ UNCHANGED << tid, pc, E >>
                           /\ PrintT("VERDICT " \o Hist[tid].id \o (IF r.bad = "skip" THEN " SKIP" ELSE " BAD")
                                     \o " event " \o ToString(pc) \o ": " \o r.bad)

WebSpec == Init /\ [][WebNext]_vars
=============================================================================
