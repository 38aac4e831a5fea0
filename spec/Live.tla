-------------------------------- MODULE Live --------------------------------
(***************************************************************************)
(* The engine as its user sees it.  The state is a record                  *)
(*   prog   the code being played: chain name -> sequence of components    *)
(*   nodes  chain name -> sequence of running nodes (see Dsp)              *)
(*   inb    the two channels of the external input                         *)
(*   smp    the registered samples                                         *)
(*   bpm, sr, seed   settings used for new nodes                           *)
(*   ovf    the behaviour has left the range of the arithmetic             *)
(* and every operation of the engine is a function from states to states   *)
(* (with an answer).                                                       *)
(***************************************************************************)
EXTENDS Dsp

InputChain == "~input"

Fresh(n, sr) ==
    [prog |-> << >>, nodes |-> << >>, inb |-> << Zeros(n), Zeros(n) >>, smp |-> << >>,
     bpm |-> 120, sr |-> sr, seed |-> 42, n |-> n, ovf |-> FALSE]

Audible(name) == SubSeq(name, 1, 1) # "~"

IsLoose(r) == Len(r) >= 2 /\ SubSeq(r, Len(r) - 1, Len(r)) = ".."
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Names(prog) == DOMAIN prog \cup {InputChain}
\* the chains a reference stands for
Targets(prog, r) ==
    IF IsLoose(r) THEN {nm \in Names(prog) : StartsWith(nm, SubSeq(r, 1, Len(r) - 2))}
    ELSE {r} \cap Names(prog)

Comps(prog) == UNION {{prog[nm][i] : i \in 1..Len(prog[nm])} : nm \in DOMAIN prog}

MissingRefs(prog) ==
    {r \in UNION {ToSet(Refs(c)) : c \in Comps(prog)} : Targets(prog, r) = {}}

(***************************************************************************)
(* Which running node serves for which position of an edited chain: every  *)
(* component takes over the first equal one of the old chain that has not  *)
(* been taken yet, 0 means a new node.                                     *)
(***************************************************************************)
Match(old, new) ==
    FoldLeft(LAMBDA acc, c :
        LET free == SelectSeq(Idx(Len(old)), LAMBDA j : old[j] = c /\ \A k \in 1..Len(acc) : acc[k] # j)
        IN Append(acc, IF free = << >> THEN 0 ELSE free[1]),
        << >>, new)
MatchChain(prog, nm, new) == IF nm \in DOMAIN prog THEN Match(prog[nm], new) ELSE [i \in 1..Len(new) |-> 0]

\* components of the new code that need a new node
NewComps(prog, p) ==
    UNION {{p[nm][i] : i \in {i \in 1..Len(p[nm]) : MatchChain(prog, nm, p[nm])[i] = 0}} : nm \in DOMAIN p}

(***************************************************************************)
(* The possible answers to new code: exactly the mistakes that are in it.  *)
(***************************************************************************)
Verdicts(E, p) ==
    LET new == NewComps(E.prog, p)
        unsup == {c \in new : c.k \in Unsupported}
        smp == UNION {SampleNames(c) : c \in new} \ DOMAIN E.smp
        refs == MissingRefs(p)
        \* the audio input cannot be defined
        early == (IF unsup = {} /\ "~input" \notin DOMAIN p THEN {} ELSE {[v |-> "parse", name |-> ""]})
                 \cup {[v |-> "sample", name |-> s] : s \in smp}
    IN IF early # {} THEN early
       ELSE IF refs # {} THEN {[v |-> "ref", name |-> r] : r \in refs}
       ELSE {[v |-> "ok", name |-> ""]}

(***************************************************************************)
(* Connections of the code p.  The sources of a node, in order: the node   *)
(* in front of it, then the last nodes of the chains it refers to.         *)
(***************************************************************************)
LastOf(p, nm) == << nm, IF nm = InputChain /\ nm \notin DOMAIN p THEN 1 ELSE Len(p[nm]) >>
RefSources(p, c) ==
    FlattenSeq([j \in 1..Len(Refs(c)) |->
        LET t == SetToSeq(Targets(p, Refs(c)[j])) IN [k \in 1..Len(t) |-> LastOf(p, t[k])]])
Sources(p, k) ==
    IF k[1] = InputChain THEN << >>
    ELSE (IF k[2] > 1 THEN << << k[1], k[2] - 1 >> >> ELSE << >>) \o RefSources(p, p[k[1]][k[2]])

Outputs(p) == {LastOf(p, nm) : nm \in {nm \in DOMAIN p : Audible(nm)}}

\* number of connections, counting repetitions, and of nodes (output, input and ~input included)
EdgeCount(p) ==
    Cardinality(Outputs(p))
    + SumOver(LAMBDA nm : FoldLeft(LAMBDA a, i : a + Len(Sources(p, << nm, i >>)), 0, Idx(Len(p[nm]))),
              DOMAIN p)
NodeCount(p) == 3 + SumOver(LAMBDA nm : Len(p[nm]), DOMAIN p)

(***************************************************************************)
(* Accepted code: unchanged nodes go on as they are, all others start      *)
(* fresh.  A node without any source starts from silence.                  *)
(***************************************************************************)
Env(E) == [sr |-> E.sr, bpm |-> E.bpm, seed |-> E.seed, smp |-> E.smp]
Update(E, p) ==
    LET node(nm, m, i) ==
            IF m[i] = 0 THEN NewNode(p[nm][i], Env(E), E.n)
            ELSE LET nd == E.nodes[nm][m[i]]
                 IN IF Sources(p, << nm, i >>) = << >> THEN [nd EXCEPT !.out = Silence(nd.c, E.n)] ELSE nd
        chain(nm) == LET m == MatchChain(E.prog, nm, p[nm])
                     IN FoldLeft(LAMBDA acc, i : Append(acc, node(nm, m, i)), << >>, Idx(Len(p[nm])))
    IN [E EXCEPT !.prog = p, !.nodes = TLCEval([nm \in DOMAIN p |-> chain(nm)])]

(***************************************************************************)
(* Control message: chain, position of the node in it, parameter, value.   *)
(* A message that addresses nothing does nothing.                          *)
(***************************************************************************)
Message(E, chain, node, pos, v) ==
    IF chain \in DOMAIN E.nodes /\ node + 1 \in 1..Len(E.nodes[chain])
    THEN LET nd == E.nodes[chain][node + 1]
         IN [E EXCEPT !.nodes[chain][node + 1].st = NodeMsg(nd.c, nd.st, pos, v)]
    ELSE E

\* the same with a text instead of a number
TextMessage(E, chain, node, pos, x) ==
    IF chain \in DOMAIN E.nodes /\ node + 1 \in 1..Len(E.nodes[chain])
    THEN LET nd == E.nodes[chain][node + 1]
         IN [E EXCEPT !.nodes[chain][node + 1].st = NodeText(nd.c, nd.st, pos, x)]
    ELSE E

SetBpm(E, bpm) ==
    [E EXCEPT !.bpm = bpm,
              !.nodes = TLCEval([nm \in DOMAIN E.nodes |->
                  [i \in 1..Len(E.nodes[nm]) |-> [E.nodes[nm][i] EXCEPT !.st = NodeBpm(@, bpm)]]])]

\* everything but the sample rate goes back to the beginning
Reset(E) == [Fresh(E.n, E.sr) EXCEPT !.ovf = E.ovf]

AddSample(E, name, data, sr) == [E EXCEPT !.smp = (name :> [d |-> data, sr |-> sr]) @@ E.smp]

(***************************************************************************)
(* One block of sound.  Every node the output depends on is computed once, *)
(* after its sources; the others stand still.  Where sources form a cycle, *)
(* the node through which the output enters the cycle is computed last and *)
(* those that refer to it hear its previous block.                         *)
(***************************************************************************)
RECURSIVE Visit(_, _, _)
Visit(src, k, acc) ==
    IF k \in acc.seen THEN acc
    ELSE LET a == FoldLeft(LAMBDA b, s : Visit(src, s, b),
                           [acc EXCEPT !.seen = @ \cup {k}], src[k])
         IN [a EXCEPT !.ord = Append(@, k)]
Keys(p) == UNION {{<< nm, i >> : i \in 1..Len(p[nm])} : nm \in DOMAIN p} \cup {<< InputChain, 1 >>}
\* a set of pairs <<name, position>> as a sequence
KeySeq(ks) == SetToSeq(ks)
Schedule(p) ==
    LET src == TLCEval([k \in Keys(p) |-> Sources(p, k)])
    IN FoldLeft(LAMBDA acc, k : Visit(src, k, acc), [seen |-> {}, ord |-> << >>], KeySeq(Outputs(p))).ord

TooBig(out) == \E ch \in 1..Len(out) : \E i \in 1..Len(out[ch]) : Abs(out[ch][i]) > Cap
ClipOut(out) == [ch \in 1..Len(out) |-> [i \in 1..Len(out[ch]) |-> Clip(out[ch][i], -Cap, Cap)]]

BlockOf(E, input) ==
    LET inb == [ch \in 1..2 |-> IF ch <= Len(input) THEN input[ch] ELSE E.inb[ch]]
        p == E.prog
        step(acc, k) ==
            IF k[1] = InputChain THEN acc
            ELSE LET nd == acc.nodes[k[1]][k[2]]
                     ord == Sources(p, k)
                     from == ToSet(ord) \ {k}
                     out(s) == IF s[1] = InputChain THEN inb ELSE acc.nodes[s[1]][s[2]].out
                     ins == TLCEval([s \in from |-> out(s)])
                     r == NodeBlock(nd, ord, ins, E.n)
                     big == TooBig(r.out) \/ (Has(r.st, "unsure") /\ r.st.unsure)
                     res == [c |-> nd.c, st |-> r.st, out |-> IF big THEN ClipOut(r.out) ELSE r.out]
                 IN [nodes |-> [acc.nodes EXCEPT ![k[1]][k[2]] = TLCEval(res)], ovf |-> acc.ovf \/ big]
        a == FoldLeft(step, [nodes |-> E.nodes, ovf |-> E.ovf], Schedule(p))
        sum(ch, i) == SumOver(LAMBDA k : Ch(a.nodes[k[1]][k[2]].out, ch)[i], Outputs(p))
        out == TLCEval(<< [i \in 1..E.n |-> sum(1, i)], [i \in 1..E.n |-> sum(2, i)] >>)
    IN [E |-> [E EXCEPT !.nodes = a.nodes, !.inb = inb, !.ovf = a.ovf], out |-> out]
=============================================================================
