------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The synthesis library used directly: a context with nodes, connections  *)
(* and a destination.  State: the nodes by index (kind, value, the order   *)
(* of their inputs as they were told, last block), the connections.        *)
(* A block computes every node that reaches the destination once, after    *)
(* its inputs; inputs that depend on the node itself give their last block *)
(* when they come later.                                                   *)
(* Nodes: "probe" mixes its inputs with weights by order; "sum", "sum2",   *)
(* "pass" are nodes of the library.  A block of a channel is represented   *)
(* by its first and last sample.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Silent(ch) == [c \in 1..ch |-> << 0, 0 >>]
NewNode(kind, ch, v) == [kind |-> kind, ch |-> ch, v |-> v, ord |-> << >>, buf |-> Silent(ch)]

Empty(ch, dest, input) ==
    [nodes |-> (dest :> NewNode("sum2", ch, 0)) @@ (input :> NewNode("pass", ch, 0)),
     edges |-> {}, dest |-> dest, input |-> input, ch |-> ch]

Probe(G, i) == G.nodes[i].kind = "probe"

---------------------------------------------------------------------------
(* changes of the graph *)
Add(G, i, kind, ch, v) == [G EXCEPT !.nodes = Put(G.nodes, i, NewNode(kind, ch, v))]

InsertAt(s, p, x) == LET k == IF p > Len(s) THEN Len(s) ELSE p
                     IN SubSeq(s, 1, k) \o << x >> \o SubSeq(s, k + 1, Len(s))

\* a message as a probe takes it
Take(nd, m) ==
    CASE m.k = "index" -> [nd EXCEPT !.ord = Append(nd.ord, m.a)]
      [] m.k = "order" -> [nd EXCEPT !.ord = InsertAt(nd.ord, m.b, m.a)]
      [] m.k = "reset" -> [nd EXCEPT !.ord = << >>]
      [] m.k = "number" -> [nd EXCEPT !.v = m.a]

RECURSIVE Deliver(_, _)
Deliver(G, ms) ==
    IF ms = << >> THEN G
    ELSE LET m == Head(ms) IN Deliver([G EXCEPT !.nodes[m.idx] = Take(G.nodes[m.idx], m)], Tail(ms))

ToProbes(G, ms) == SelectSeq(ms, LAMBDA m : Probe(G, m.idx))

IndexMsg(p) == [idx |-> p[2], k |-> "index", a |-> p[1], b |-> 0]
PairsOf(s) == [i \in 1..(Len(s) - 1) |-> << s[i], s[i + 1] >>]

\* connections with the messages that announce them
Link(G, pairs, ms) ==
    [G |-> Deliver([G EXCEPT !.edges = G.edges \cup {<< p[1], p[2] >> : p \in {pairs[i] : i \in 1..Len(pairs)}}],
                   ToProbes(G, ms)),
     msgs |-> ToProbes(G, ms)]
Connect(G, pairs) == Link(G, pairs, [i \in 1..Len(pairs) |-> IndexMsg(pairs[i])])
ConnectAt(G, pair, pos) == Link(G, << pair >>, << [idx |-> pair[2], k |-> "order", a |-> pair[1], b |-> pos] >>)

Remove(G, i) == [G EXCEPT !.nodes = [x \in DOMAIN G.nodes \ {i} |-> G.nodes[x]],
                          !.edges = {e \in G.edges : i \notin {e[1], e[2]}}]

---------------------------------------------------------------------------
(* a block *)
InputsOf(G, b) == {a \in DOMAIN G.nodes : a # b /\ << a, b >> \in G.edges}

RECURSIVE Grow(_, _)
Grow(G, s) == LET t == s \cup {a \in DOMAIN G.nodes : \E b \in s : << a, b >> \in G.edges}
              IN IF t = s THEN s ELSE Grow(G, t)
\* everything a node depends on, itself included
Needs(G, i) == Grow(G, {i})

ChanOf(buf, c) == IF c <= Len(buf) THEN buf[c] ELSE buf[1]

RECURSIVE SumSet(_, _)
SumSet(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + SumSet(f, s \ {x})

\* outputs of the kinds for given input blocks `in`
ProbeOut(nd, in) ==
    [c \in 1..nd.ch |-> [s \in 1..2 |->
        (nd.v + 100 * (c - 1) + (IF s = 1 THEN 0 ELSE 3)
         + SumSet([k \in 1..Len(nd.ord) |-> IF nd.ord[k] \in DOMAIN in THEN k * ChanOf(in[nd.ord[k]], c)[s] ELSE 0],
                  1..Len(nd.ord))) % 1000]]
SumOut(nd, in) ==
    [c \in 1..nd.ch |-> [s \in 1..2 |->
        SumSet([a \in DOMAIN in |-> IF c <= Len(in[a]) THEN in[a][c][s] ELSE 0], DOMAIN in)]]
Sum2Out(nd, in) ==
    [c \in 1..nd.ch |-> [s \in 1..2 |-> SumSet([a \in DOMAIN in |-> ChanOf(in[a], c)[s]], DOMAIN in)]]
PassOut(nd, x) == [c \in 1..nd.ch |-> IF c <= Len(x) THEN x[c] ELSE IF Len(x) = 1 /\ nd.ch = 2 THEN x[1] ELSE nd.buf[c]]

IsOut(nd, in, out) ==
    CASE nd.kind = "probe" -> out = ProbeOut(nd, in)
      [] nd.kind = "sum" -> out = SumOut(nd, in)
      [] nd.kind = "sum2" -> out = Sum2Out(nd, in)
      [] nd.kind = "pass" -> IF DOMAIN in = {} THEN out = nd.buf ELSE \E a \in DOMAIN in : out = PassOut(nd, in[a])

\* the position of a node in the sequence of computed probes
Pos(ran, i) == CHOOSE k \in 1..Len(ran) : ran[k].idx = i

\* new: the blocks of all nodes afterwards; ran: the probes in the order in which they were computed with what they saw.
\* Result: "" or what is wrong
BlockError(G, new, ran) ==
    LET deps == [i \in DOMAIN G.nodes |-> Needs(G, i)]
        need == deps[G.dest]
        probes == {i \in need : Probe(G, i)}
        old == [i \in DOMAIN G.nodes |-> G.nodes[i].buf]
        Fixed(a, b) == b \notin deps[a]
        \* the blocks an input may have shown
        Shown(a, b) == IF Fixed(a, b) THEN {new[a]}
                       ELSE IF Probe(G, a) /\ Probe(G, b)
                            THEN {IF Pos(ran, a) < Pos(ran, b) THEN new[a] ELSE old[a]}
                       ELSE {old[a], new[a]}
        SeenOf(b) == ran[Pos(ran, b)].seen
        SawRight(b) ==
            LET s == SeenOf(b) IN
            /\ {s[i].key : i \in 1..Len(s)} = InputsOf(G, b)
            /\ Len(s) = Cardinality(InputsOf(G, b))
            /\ \A i \in 1..Len(s) : s[i].id = s[i].key /\ s[i].buf \in Shown(s[i].key, b)
        InOf(b) == LET s == SeenOf(b) IN [a \in InputsOf(G, b) |-> s[CHOOSE i \in 1..Len(s) : s[i].key = a].buf]
        Choices(b) == {[a \in InputsOf(G, b) |-> IF Fixed(a, b) \/ a \in later THEN new[a] ELSE old[a]] :
                           later \in SUBSET {a \in InputsOf(G, b) : ~Fixed(a, b)}}
    IN IF DOMAIN new # DOMAIN G.nodes THEN "nodes are " \o ToString(DOMAIN new) \o " expected " \o ToString(DOMAIN G.nodes)
       ELSE IF Len(ran) # Cardinality(probes) \/ {ran[k].idx : k \in 1..Len(ran)} # probes
            THEN "computed " \o ToString([k \in 1..Len(ran) |-> ran[k].idx]) \o " expected " \o ToString(probes)
       ELSE IF \E b \in probes : ~SawRight(b)
            THEN "wrong inputs of " \o ToString(CHOOSE b \in probes : ~SawRight(b))
       ELSE IF \E b \in probes : ~IsOut(G.nodes[b], InOf(b), new[b])
            THEN "wrong order of inputs of " \o ToString(CHOOSE b \in probes : ~IsOut(G.nodes[b], InOf(b), new[b]))
       ELSE IF \E b \in need \ probes : \A f \in Choices(b) : ~IsOut(G.nodes[b], f, new[b])
            THEN "wrong block of " \o ToString(CHOOSE b \in need \ probes : \A f \in Choices(b) : ~IsOut(G.nodes[b], f, new[b]))
       ELSE IF \E i \in DOMAIN new \ need : new[i] # old[i]
            THEN "block of a node that is not heard changed"
       ELSE ""
Played(G, new) == [G EXCEPT !.nodes = [i \in DOMAIN G.nodes |-> [G.nodes[i] EXCEPT !.buf = new[i]]]]
=============================================================================
