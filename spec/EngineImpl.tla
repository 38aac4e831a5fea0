----------------------------- MODULE EngineImpl -----------------------------
(***************************************************************************)
(* The update algorithm of the engine as it is programmed: code is         *)
(* compared chain by chain with the code before, nodes are added to one    *)
(* graph, the references are checked only then, and the work is either     *)
(* finished (old nodes removed, all connections made anew) or taken back   *)
(* with the help of a second table of the chains.                          *)
(*                                                                         *)
(* TLC checks that this implements Edits, that the connections and the     *)
(* order in which every node knows its sources are always those of the     *)
(* code being played (Live), and that nothing is left over.                *)
(* Wrong selects a wrong variant, used to see that the check can fail.     *)
(***************************************************************************)
EXTENDS Live, Json, IOUtils

CONSTANTS Scope, Wrong

(***************************************************************************)
(* The programs: chains over a source, components with memory and without, *)
(* plain and loose references, and a component that needs a sample which   *)
(* is not there.                                                           *)
(***************************************************************************)
Osc == [k |-> "saw", p |-> [n |-> 131072]]
Osc2 == [k |-> "tri", p |-> [n |-> 65536]]
Dly == [k |-> "delayn", p |-> [n |-> 3]]
Half == [k |-> "mul", p |-> [n |-> 32768]]
AddA == [k |-> "add", p |-> [r |-> "~a"]]
AddB == [k |-> "add", p |-> [r |-> "~ab"]]
All == [k |-> "mix", refs |-> << "~a..", "~a" >>]
Smp == [k |-> "sp", name |-> "\\zz"]

Tails == UNION {[1..k -> {Dly, AddA, Half}] : k \in 0..(IF Scope = 1 THEN 1 ELSE 2)}
Heads == IF Scope = 1 THEN {Osc, Dly, AddA} ELSE {Osc, Dly, AddA, All}
ForO == {<< h >> \o t : h \in Heads, t \in Tails} \cup {<< All, Dly >>}
ForA == {<< Osc >>, << Osc, Dly >>, << AddB, Dly >>, << Dly, Smp >>}
        \cup (IF Scope = 1 THEN {} ELSE {<< Osc, Dly, Dly >>, << Osc2, AddB >>, << Dly, Osc2 >>})
ForB == {<< Osc2 >>}

With(names) == UNION {
    IF names = {"o"} THEN {("o" :> o) : o \in ForO}
    ELSE IF names = {"~a"} THEN {("~a" :> a) : a \in ForA}
    ELSE IF names = {"o", "~a"} THEN {("o" :> o) @@ ("~a" :> a) : o \in ForO, a \in ForA}
    ELSE IF names = {"o", "~ab"} THEN {("o" :> o) @@ ("~ab" :> b) : o \in ForO, b \in ForB}
    ELSE {("o" :> o) @@ ("~a" :> a) @@ ("~ab" :> b) : o \in ForO, a \in ForA, b \in ForB}}
Programs == {<< >>} \cup With({"o"}) \cup With({"~a"}) \cup With({"o", "~a"}) \cup With({"o", "~ab"})
            \cup With({"o", "~a", "~ab"}) \cup {("~input" :> << Osc >>) @@ ("o" :> << Osc >>)}
Loaded == {}

\* for the histories that are replayed on the engine
AsChains(p) == LET names == SetToSeq(DOMAIN p)
               IN [ok |-> Verdicts([prog |-> << >>, smp |-> << >>], p) = {[v |-> "ok", name |-> ""]},
                   prog |-> [i \in 1..Len(names) |-> [name |-> names[i], nodes |-> p[names[i]]]]]
ASSUME "PROGRAMS" \in DOMAIN IOEnv =>
    JsonSerialize(IOEnv.PROGRAMS, LET s == SetToSeq(Programs) IN [i \in 1..Len(s) |-> AsChains(s[i])])

(***************************************************************************)
(* The state of the engine: the code, the graph (nodes are numbers, 0 is   *)
(* the audio input, -1 the output; connections are counted), what every    *)
(* node knows about its sources, the table of the chains and its copy.     *)
(***************************************************************************)
VARIABLES ast, graph, edges, order, info, backup, ans
vars == << ast, graph, edges, order, info, backup, ans >>

EmptyInfo == (InputChain :> << 0 >>)
NoAnswer == [v |-> "none", name |-> ""]
Init == /\ ast = << >> /\ graph = (0 :> [k |-> "in"]) /\ edges = << >> /\ order = (0 :> << >>)
        /\ info = EmptyInfo /\ backup = EmptyInfo /\ ans = NoAnswer

Now == [ast |-> ast, graph |-> graph, edges |-> edges, order |-> order, info |-> info, backup |-> backup, temp |-> << >>,
        ans |-> NoAnswer]
Become(s) == /\ ast' = s.ast /\ graph' = s.graph /\ edges' = s.edges /\ order' = s.order
             /\ info' = s.info /\ backup' = s.backup /\ ans' = s.ans

Only(f, keys) == [x \in DOMAIN f \cap keys |-> f[x]]
Without(f, keys) == Only(f, DOMAIN f \ keys)

\* one chain: positions taken over from the old chain (in the new order), what has to be added, its references
DiffChain(old, new, nm) ==
    FoldLeft(LAMBDA acc, i :
        LET found == {j \in 1..Len(old) : ~acc.taken[j] /\ old[j] = new[i]}
            j == CHOOSE x \in found : \A y \in found : IF Wrong = "last" THEN x >= y ELSE x <= y
        IN IF found = {} THEN [acc EXCEPT !.added = Append(@, << nm, i, new[i] >>)]
           ELSE [acc EXCEPT !.taken[j] = TRUE, !.kept = Append(@, j),
                            !.refs = IF Refs(new[i]) = << >> THEN @ ELSE Append(@, << Refs(new[i]), nm, i >>)],
        [taken |-> [j \in 1..Len(old) |-> FALSE], kept |-> << >>, added |-> << >>, refs |-> << >>], Idx(Len(new)))

\* the chains in some order, one after the other; the first component that cannot be made ends the update
Diff(p, chains) ==
    FoldLeft(LAMBDA acc, nm :
        IF acc.bad # "" THEN acc
        ELSE LET d == DiffChain(IF nm \in DOMAIN ast THEN ast[nm] ELSE << >>, p[nm], nm)
                 missing == UNION {SampleNames(d.added[i][3]) : i \in 1..Len(d.added)} \ Loaded
             IN IF missing # {} THEN [acc EXCEPT !.bad = CHOOSE s \in missing : TRUE]
                ELSE [acc EXCEPT !.kept = (nm :> d.kept) @@ @, !.added = @ \o d.added,
                                 !.refs = @ \o d.refs \o
                                    FlattenSeq([i \in 1..Len(d.added) |->
                                        IF Refs(d.added[i][3]) = << >> THEN << >>
                                        ELSE << << Refs(d.added[i][3]), nm, d.added[i][2] >> >>])],
        [bad |-> "", kept |-> << >>, added |-> << >>, refs |-> << >>], chains)

\* chains that are gone leave the table, the others shrink to what they keep
Shrink(s, p, kept) ==
    LET gone == DOMAIN ast \ DOMAIN p
        keep(nm) == IF nm \in DOMAIN kept /\ nm \in DOMAIN s.info
                    THEN [i \in 1..Len(kept[nm]) |-> s.info[nm][kept[nm][i]]] ELSE s.info[nm]
        left == [nm \in DOMAIN s.info \ gone |-> keep(nm)]
        nodes(t) == UNION {ToSet(t[nm]) : nm \in DOMAIN t}
    IN [s |-> [s EXCEPT !.info = left],
        remove |-> IF Wrong = "leak" THEN nodes(Only(s.info, gone)) ELSE nodes(s.info) \ nodes(left)]

FreeId(g) == CHOOSE x \in 1..(Cardinality(DOMAIN g) + 1) : x \notin DOMAIN g /\ \A y \in 1..(x - 1) : y \in DOMAIN g
AddOne(s, a) ==
    LET id == FreeId(s.graph)
    IN [s EXCEPT !.graph = (id :> a[3]) @@ @, !.order = (id :> << >>) @@ @, !.temp = Append(@, id),
                 !.info = IF a[1] \in DOMAIN @ THEN [@ EXCEPT ![a[1]] = InsertAt(@, a[2], id)]
                          ELSE (a[1] :> << id >>) @@ @]

Missing(s, p, r) ==
    IF IsLoose(r) THEN {nm \in DOMAIN s.info : StartsWith(nm, SubSeq(r, 1, Len(r) - 2))} = {}
    ELSE r \notin DOMAIN p /\ r \notin DOMAIN s.info
FirstMissing(s, p, refs) ==
    FoldLeft(LAMBDA bad, x : IF bad # "" THEN bad
                             ELSE FoldLeft(LAMBDA b, r : IF b # "" THEN b ELSE IF Missing(s, p, r) THEN r ELSE "", "", x[1]),
             "", refs)

TakeBack(s) ==
    LET t == ToSet(s.temp)
    IN [s EXCEPT !.graph = IF Wrong = "residue" THEN @ ELSE Without(@, t), !.order = IF Wrong = "residue" THEN @ ELSE Without(@, t),
                 !.info = IF Wrong = "norollback" THEN @ ELSE s.backup]

Connect(s, from, to, front) ==
    [s EXCEPT !.edges = (<< from, to >> :> (IF << from, to >> \in DOMAIN @ THEN @[<< from, to >>] ELSE 0) + 1) @@ @,
              !.order = IF to = -1 THEN @ ELSE [@ EXCEPT ![to] = IF front THEN << from >> \o @ ELSE Append(@, from)]]
LastId(s, nm) == s.info[nm][Len(s.info[nm])]
ConnectRefs(s, x) ==
    LET to == s.info[x[2]][x[3]]
        one(t, r) == IF IsLoose(r)
                     THEN LET from == SetToSeq({LastId(t, nm) : nm \in {n \in DOMAIN t.info : StartsWith(n, SubSeq(r, 1, Len(r) - 2))}} \ {to})
                          IN FoldLeft(LAMBDA u, f : Connect(u, f, to, FALSE), t, from)
                     ELSE Connect(t, LastId(t, r), to, FALSE)
    IN FoldLeft(one, [s EXCEPT !.order[to] = IF Wrong = "noreset" THEN @ ELSE << >>], x[1])
ConnectChain(s, nm) ==
    LET c == s.info[nm]
        inner == FoldLeft(LAMBDA t, i : Connect(t, c[i], c[i + 1], TRUE), s, Idx(Len(c) - 1))
    IN IF Audible(nm) THEN Connect(inner, c[Len(c)], -1, TRUE) ELSE inner

Finish(s, p, remove, refs) ==
    LET cut == [s EXCEPT !.graph = Without(@, remove), !.order = Without(@, remove), !.edges = << >>]
        r == FoldLeft(ConnectRefs, cut, refs)
        c == FoldLeft(ConnectChain, r, SetToSeq(DOMAIN r.info))
    IN [c EXCEPT !.ast = p, !.backup = IF Wrong = "nobackup" THEN @ ELSE c.info, !.ans = [v |-> "ok", name |-> ""]]

UpdateWith(p, chains) ==
    IF InputChain \in DOMAIN p THEN [Now EXCEPT !.ans = [v |-> "parse", name |-> ""]]
    ELSE LET d == Diff(p, chains)
         IN IF d.bad # "" THEN [Now EXCEPT !.ans = [v |-> "sample", name |-> d.bad]]
            ELSE LET h == Shrink(Now, p, d.kept)
                     a == FoldLeft(AddOne, h.s, d.added)
                     bad == FirstMissing(a, p, d.refs)
                 IN IF bad # "" THEN [TakeBack(a) EXCEPT !.ans = [v |-> "ref", name |-> bad]]
                    ELSE Finish(a, p, h.remove, d.refs)

\* the chains come out of a hash table, in any order
Orders(names) == IF Scope = 1 THEN {SetToSeq(names)} \cup {Reverse(SetToSeq(names))} ELSE SetToSeqs(names)
Update_(p) == \E o \in Orders(DOMAIN p) : Become(UpdateWith(p, o))
Reset_ == /\ ast' = << >> /\ graph' = (0 :> [k |-> "in"]) /\ edges' = << >> /\ order' = (0 :> << >>)
          /\ info' = EmptyInfo /\ backup' = EmptyInfo /\ ans' = NoAnswer
Next == Reset_ \/ \E p \in Programs : Update_(p)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What has to hold between updates.                                       *)
(***************************************************************************)
IdAt(k) == IF k[1] = InputChain THEN 0 ELSE info[k[1]][k[2]]
Known(k) == k[1] = InputChain \/ (k[1] \in DOMAIN info /\ k[2] <= Len(info[k[1]]))
WantedSources(nm, i) == [j \in 1..Len(Sources(ast, << nm, i >>)) |-> IdAt(Sources(ast, << nm, i >>)[j])]
Positions == UNION {{<< nm, i >> : i \in 1..Len(ast[nm])} : nm \in DOMAIN ast}
NotSelf(q, id) == SelectSeq(q, LAMBDA x : x # id)
HowOften(q, x) == Len(SelectSeq(q, LAMBDA y : y = x))

TableRight == /\ DOMAIN info = DOMAIN ast \cup {InputChain}
              /\ \A k \in Positions : Known(k) /\ IdAt(k) \in DOMAIN graph /\ graph[IdAt(k)] = ast[k[1]][k[2]]
              /\ \A nm \in DOMAIN ast : Len(info[nm]) = Len(ast[nm])
NothingLeft == DOMAIN graph = {0} \cup {IdAt(k) : k \in Positions}
ConnectionsRight ==
    \A k \in Positions : \A from \in DOMAIN graph \ {IdAt(k)} :
        HowOften(WantedSources(k[1], k[2]), from) = (IF << from, IdAt(k) >> \in DOMAIN edges THEN edges[<< from, IdAt(k) >>] ELSE 0)
OutputRight == {e[1] : e \in {e \in DOMAIN edges : e[2] = -1}} = {IdAt(k) : k \in Outputs(ast)}
OrderRight ==
    \A k \in Positions :
        LET id == IdAt(k)
            want == NotSelf(WantedSources(k[1], k[2]), id)
            have == NotSelf(order[id], id)
            refs == Refs(ast[k[1]][k[2]])
        IN IF refs = << >> THEN want = << >> \/ (have # << >> /\ have[1] = want[1])
           ELSE IF \E r \in ToSet(refs) : IsLoose(r)
                THEN /\ Len(have) = Len(want) /\ \A x \in ToSet(want) : HowOften(have, x) = HowOften(want, x)
                     /\ (k[2] > 1 => have[1] = want[1])
           ELSE have = want
BackupRight == backup = info
Right == TableRight /\ NothingLeft /\ ConnectionsRight /\ OutputRight /\ OrderRight /\ BackupRight

Abstract == INSTANCE Edits WITH prog <- ast, ident <- Without(info, {InputChain})
Implements == Abstract!ESpec

\* the numbers of the nodes do not matter
Place(id) == IF id = 0 \/ id = -1 THEN << "", id >>
             ELSE LET k == {x \in UNION {{<< nm, i >> : i \in 1..Len(info[nm])} : nm \in DOMAIN info} : info[x[1]][x[2]] = id}
                  IN IF k = {} THEN << "?", 0 >> ELSE CHOOSE x \in k : TRUE
View == << ast, {<< Place(e[1]), Place(e[2]), edges[e] >> : e \in DOMAIN edges},
           {<< Place(id), IF order[id] = << >> THEN << >> ELSE Place(order[id][1]) >> : id \in DOMAIN order},
           Cardinality(DOMAIN graph), [nm \in DOMAIN backup |-> [i \in 1..Len(backup[nm]) |-> Place(backup[nm][i])]] >>
=============================================================================
