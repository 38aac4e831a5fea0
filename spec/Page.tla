------------------------------- MODULE Page -------------------------------
(***************************************************************************)
(* A web page and its audio thread.  The page asks for things; they travel *)
(* through a message port, in order, or, for code and control messages     *)
(* where memory can be shared, through two byte queues that the audio      *)
(* thread empties before each block.  The engine behind the audio thread   *)
(* answers every new code with a status; a refusal travels back to the     *)
(* page, which tells the user.                                             *)
(*                                                                         *)
(* Texts are sequences of bytes.  Blank stands for text without any        *)
(* letters: what a page runs in order to stop everything.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

QueueSize == 2048
BlockSize == 128
MessageSize == 254
Blank == -1

Smaller(a, b) == IF a < b THEN a ELSE b
Upto(s, n) == SubSeq(s, 1, Smaller(n, Len(s)))

Fresh(kind) == [kind |-> kind, code |-> << >>, ctl |-> << >>, port |-> << >>, back |-> << >>,
                input |-> << >>, blocks |-> 0, status |-> [n |-> 0, text |-> << >>], shown |-> << >>, samples |-> {}]

Queued(p) == p.kind = "npm-sab"

\* the answer of the engine to a text (the stand-in for it refuses texts that start with E1, E2, E3, after any empty lines)
RECURSIVE Answer(_)
Answer(text) ==
    IF text # << >> /\ text[1] = 10 THEN Answer(Tail(text))
    ELSE IF Len(text) >= 3 /\ text[1] = 69 /\ text[2] \in 49..51 /\ text[3] = 32
    THEN LET rest == SubSeq(text, 4, Len(text))
             ends == {i \in 1..Len(rest) : rest[i] = 10}
             line == IF ends = {} THEN rest ELSE SubSeq(rest, 1, (CHOOSE i \in ends : \A j \in ends : i <= j) - 1)
         IN [n |-> text[2] - 48, text |-> Upto(line, MessageSize)]
    ELSE [n |-> 0, text |-> << >>]

\* --- what the page does
Put(q, text) == q \o Upto(text, QueueSize - Len(q))
Post(p, m) == [p EXCEPT !.port = Append(@, m)]
RunCode(p, text) == LET s == [p EXCEPT !.shown = text]
                    IN IF Queued(p) THEN [s EXCEPT !.code = Put(@, text)] ELSE Post(s, [c |-> "update", text |-> text])
SendMsg(p, text) ==
    LET t == IF Len(text) > 0 /\ text[Len(text)] = 59 THEN text ELSE Append(text, 59)
    IN IF Queued(p) THEN [p EXCEPT !.ctl = Put(@, t)] ELSE Post(p, [c |-> "msg", text |-> t])
AddSample(p, s) == [Post(p, s) EXCEPT !.samples = @ \cup {s}]

\* the name of a sample that comes from a file or a folder: small letters, and marks that a name cannot have replaced
Sharp == << 95, 115, 104, 97, 114, 112, 95 >>
Clean(name) ==
    FoldLeft(LAMBDA a, c : a \o (CASE c \in 65..90 -> << c + 32 >>
                                  [] c \in {32, 45} -> << 95 >>
                                  [] c = 35 -> Sharp
                                  [] OTHER -> << c >>), << >>, name)
Sounds(f, name) == [c |-> "sample", name |-> << 92 >> \o name, data |-> f.data, ch |-> f.ch, sr |-> f.sr]
AddFiles(p, fs) == FoldLeft(LAMBDA q, f : AddSample(q, Sounds(f, Clean(f.name))), p, fs)
\* the sounds of a folder are numbered
AddFolders(p, fs) ==
    FoldLeft(LAMBDA a, f :
                IF f.audio = 0 THEN a
                ELSE LET n == Clean(f.name)
                         k == Cardinality({i \in 1..Len(a.seen) : a.seen[i] = n})
                     IN [p |-> AddSample(a.p, Sounds(f, n \o << 95 >> \o
                                  (IF k < 10 THEN << 48 + k >> ELSE << 48 + k \div 10, 48 + (k % 10) >>))), seen |-> Append(a.seen, n)],
             [p |-> p, seen |-> << >>], fs).p

\* --- what the audio thread does with one message: the call to the engine, and where a status goes
Refuse(p, a) == IF a.n = 0 THEN p ELSE [p EXCEPT !.back = Append(@, a)]
Deliver(p) ==
    LET m == Head(p.port)
        q == [p EXCEPT !.port = Tail(@)]
    IN IF m.c = "update"
       THEN IF p.kind = "src" THEN Refuse(q, Answer(m.text)) ELSE [q EXCEPT !.status = Answer(m.text)]
       ELSE q

\* --- one block: first new code, then control messages, then sound
BlockCalls(p, x) ==
    (IF p.code = << >> THEN << >> ELSE << [c |-> "update", text |-> p.code] >>)
    \o (IF p.ctl = << >> THEN << >> ELSE << [c |-> "msg", text |-> p.ctl] >>)
    \o << [c |-> "process", in |-> x] >>
InputOf(p, in) == IF p.kind = "src" THEN << >> ELSE IF in # << >> THEN in ELSE p.input
Tick(p, in) ==
    LET st == IF p.code = << >> THEN p.status ELSE Answer(p.code)
        q == [p EXCEPT !.code = << >>, !.ctl = << >>, !.input = InputOf(p, in), !.blocks = @ + 1]
    IN IF p.kind = "src" THEN q ELSE [Refuse(q, st) EXCEPT !.status = [n |-> 0, text |-> << >>]]

\* a new audio thread that knows the samples of the page
Restarted(p) == [Fresh(p.kind) EXCEPT !.samples = p.samples, !.shown = p.shown]
=============================================================================
