---------------------------- MODULE GraphTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the synthesis library, replayed on Graph.         *)
(***************************************************************************)
EXTENDS Graph, Json, IOUtils

Hist == Tail(ndJsonDeserialize(IOEnv.TRACE_FILE))
Has(r, f) == f \in DOMAIN r

VARIABLES tid, pc, G, res
vars == << tid, pc, G, res >>

Ev == Hist[tid].ev
Ok(g) == [G |-> g, bad |-> ""]
Wrong(g, t) == [G |-> g, bad |-> t]

SeqSet(s) == {s[i] : i \in 1..Len(s)}

\* new indices are unused ones
Fresh(g, is) == /\ SeqSet(is) \cap DOMAIN g.nodes = {}
                /\ Cardinality(SeqSet(is)) = Len(is)

RECURSIVE AddAll(_, _, _)
AddAll(g, is, ns) == IF is = << >> THEN g
                     ELSE AddAll(Add(g, Head(is), Head(ns).kind, Head(ns).ch, Head(ns).v), Tail(is), Tail(ns))

\* connections were made as asked and announced to the right nodes
Linked(g, ev, l) ==
    IF ev.ends # ev.pairs THEN Wrong(g, "connections " \o ToString(ev.ends) \o " expected " \o ToString(ev.pairs))
    ELSE IF ev.got # l.msgs THEN Wrong(g, "messages " \o ToString(ev.got) \o " expected " \o ToString(l.msgs))
    ELSE Ok(l.G)

Numbers(g, is, ev) == {[idx |-> i, k |-> "number", a |-> ev.v, b |-> ev.pos] : i \in {x \in is : Probe(g, x)}}

Step(g, ev) ==
    IF Has(ev, "panic") THEN Wrong(g, "crash in " \o ev.op)
    ELSE CASE ev.op = "add" ->
                 IF ~Fresh(g, << ev.idx >>) THEN Wrong(g, "index in use")
                 ELSE IF ev.buf # Silent(ev.ch) THEN Wrong(g, "new node with channels " \o ToString(ev.buf))
                 ELSE IF ev.got # << >> THEN Wrong(g, "unexpected messages")
                 ELSE Ok(Add(g, ev.idx, ev.kind, ev.ch, ev.v))
           [] ev.op \in {"connect", "chain"} -> Linked(g, ev, Connect(g, ev.pairs))
           [] ev.op = "order" -> Linked(g, ev, ConnectAt(g, ev.pairs[1], ev.pos))
           [] ev.op \in {"chainboxed", "nodechain"} ->
                 IF ~Fresh(g, ev.idxs) \/ Len(ev.idxs) # Len(ev.nodes) THEN Wrong(g, "indices " \o ToString(ev.idxs))
                 ELSE LET g2 == AddAll(g, ev.idxs, ev.nodes)
                      IN Linked(g2, ev, Connect(g2, PairsOf(ev.idxs)))
           [] ev.op = "remove" -> IF ev.there # (ev.idx \in DOMAIN g.nodes) THEN Wrong(g, "removal")
                                  ELSE Ok(Remove(g, ev.idx))
           [] ev.op = "clear" -> Ok([g EXCEPT !.edges = {}])
           [] ev.op \in {"msg", "all"} ->
                 LET want == Numbers(g, IF ev.op = "msg" THEN {ev.idx} ELSE DOMAIN g.nodes, ev)
                 IN IF SeqSet(ev.got) # want \/ Len(ev.got) # Cardinality(want)
                    THEN Wrong(g, "messages " \o ToString(ev.got) \o " expected " \o ToString(want))
                    ELSE Ok(Deliver(g, ev.got))
           [] ev.op = "forget" ->
                 LET want == ToProbes(g, << [idx |-> ev.idx, k |-> "reset", a |-> 0, b |-> 0] >>)
                 IN IF ev.got # want THEN Wrong(g, "messages " \o ToString(ev.got)) ELSE Ok(Deliver(g, want))
           [] ev.op = "setin" ->
                 Ok([g EXCEPT !.nodes[g.input].buf =
                        [c \in 1..g.ch |-> << ev.v + 100 * (c - 1), ev.v + 100 * (c - 1) + 3 >>]])
           [] ev.op = "reset" -> Ok(Empty(g.ch, ev.dest, ev.input))
           [] ev.op = "block" ->
                 LET new == [i \in {ev.bufs[k].idx : k \in 1..Len(ev.bufs)} |->
                                ev.bufs[CHOOSE k \in 1..Len(ev.bufs) : ev.bufs[k].idx = i].buf]
                     err == BlockError(g, new, ev.ran)
                 IN IF err # "" THEN Wrong(g, err)
                    ELSE IF ev.out # new[g.dest] THEN Wrong(g, "the block is not that of the destination")
                    ELSE Ok(Played(g, new))

Init == /\ tid \in 1..Len(Hist)
        /\ pc = 1
        /\ G = Empty(Hist[tid].ch, Hist[tid].dest, Hist[tid].input)
        /\ res = "run"

Next == /\ res = "run"
        /\ IF pc > Len(Ev)
           THEN /\ res' = "ok"
                /\ UNCHANGED << tid, pc, G >>
                /\ PrintT("VERDICT " \o Hist[tid].id \o " OK")
           ELSE LET r == IF Ev[pc].op = "hang" THEN Wrong(G, "does not return") ELSE Step(G, Ev[pc])
                IN IF r.bad = ""
                   THEN /\ pc' = pc + 1
                        /\ G' = r.G
                        /\ UNCHANGED << tid, res >>
                   ELSE /\ res' = "bad"
                        /\ UNCHANGED << tid, pc, G >>
                        /\ PrintT("VERDICT " \o Hist[tid].id \o " BAD event " \o ToString(pc) \o ": " \o r.bad)

Spec == Init /\ [][Next]_vars
=============================================================================
