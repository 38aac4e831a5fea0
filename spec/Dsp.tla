-------------------------------- MODULE Dsp --------------------------------
(***************************************************************************)
(* What every kind of node computes, block by block.                       *)
(*                                                                         *)
(* A component c is a record [k |-> kind, ...parameters...] as written in  *)
(* the code.  A running node is [c, st, out]: its component, its memory,   *)
(* and the block it produced last, a sequence of one or two channels of n  *)
(* samples.  A node that is not given the inputs it needs leaves its last  *)
(* block as it is.                                                         *)
(*                                                                         *)
(* Inputs are given as ins, a function from the sources to their blocks,   *)
(* and ord, the sequence of sources: the node in front of it first, then   *)
(* the references in the order they are written.                           *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC

CONSTANT NoiseData     \* seed (as a string) -> the random stream of that seed

Idx(n) == [i \in 1..n |-> i]
Has(r, f) == f \in DOMAIN r
IsRef(p) == Has(p, "r")
SumOver(f(_), set) == FoldLeft(LAMBDA acc, k : acc + f(k), 0, SetToSeq(set))
Zeros(n) == [i \in 1..n |-> 0]

Stereo == {"mul", "add", "get", "mix", "pan", "balance", "delayn", "delayms", "adsr",
           "arrange", "sp", "psampler", "plate", "bd", "sn", "hh", "sawsynth", "squsynth", "trisynth"}
Channels(c) == IF c.k \in Stereo THEN 2 ELSE 1
Silence(c, n) == [i \in 1..Channels(c) |-> Zeros(n)]

\* channel i of a block; a mono block serves for all the channels
Ch(o, i) == IF i <= Len(o) THEN o[i] ELSE o[1]

\* names referenced by a component, in order
SeqRefs(steps) ==
    LET flat == FlattenSeq(steps)
        names == SelectSeq(flat, LAMBDA x : Has(x, "r"))
    IN FoldLeft(LAMBDA acc, x : IF \E j \in 1..Len(acc) : acc[j] = x.r THEN acc ELSE Append(acc, x.r),
                << >>, names)
Refs(c) ==
    CASE c.k \in {"get"} -> << c.p.r >>
      [] c.k \in {"mix"} -> c.refs
      [] c.k \in {"balance"} -> << c.l, c.r >>
      [] c.k = "seq" -> SeqRefs(c.steps)
      [] c.k = "arrange" -> [i \in 1..Len(c.secs) |-> c.secs[i].r]
      [] Has(c, "p") /\ IsRef(c.p) -> << c.p.r >>
      [] OTHER -> << >>

\* names of the samples a component needs
SampleNames(c) ==
    CASE c.k = "sp" -> {c.name}
      [] c.k = "psampler" -> {c.pat[i].name : i \in 1..Len(c.pat)}
      [] OTHER -> {}

\* parts of the language the engine does not offer
Unsupported == {"reverb", "expr", "adc", "lpfevent", "psamplerevent", "badpsynth"}

Num(p, dflt) == IF IsRef(p) THEN dflt ELSE p.n

\* samples in a cycle (four beats); the models only use tempi that divide evenly
Bar(st) == (240 * st.sr) \div st.bpm

(***************************************************************************)
(* Fresh memory of a node created while the engine has sample rate env.sr, *)
(* tempo env.bpm and random seed env.seed.                                 *)
(***************************************************************************)
ImpPeriod(sr, f) ==
    IF f = 0 THEN 2 ^ 30 ELSE IF f < 0 THEN 1 ELSE Larger(1, (sr * S) \div f)

DelayBuf(n) == [i \in 1..n |-> 0]

\* where the steps of a pattern fall: <<numerator, denominator>> of a cycle
StepTimes(steps) ==
    FlattenSeq([i \in 1..Len(steps) |->
        [j \in 1..Len(steps[i]) |->
            [num |-> (i - 1) * Len(steps[i]) + (j - 1), den |-> Len(steps) * Len(steps[i]),
             v |-> steps[i][j]]]])

\* position of a point in samples: a part of the cycle plus a time
PointPos(pt, c, sr, bpm) ==
    LET bar == (240 * sr) \div bpm
        inbar == (FMul(pt.b, c.span) \div 256) * bar          \* in 1/256 samples
        extra == CASE pt.u = "ms" -> (pt.d * sr) \div 256000
                   [] pt.u = "s" -> (pt.d * sr) \div 256
                   [] OTHER -> 0
    IN (inbar + extra) \div 256
PointList(c, sr, bpm) ==
    LET pts == [i \in 1..Len(c.pts) |-> [t |-> PointPos(c.pts[i], c, sr, bpm), v |-> c.pts[i].v]]
    IN IF Len(pts) > 0 /\ pts[1].t # 0 THEN << [t |-> 0, v |-> 0] >> \o pts ELSE pts

(***************************************************************************)
(* Instruments are fixed patches of other nodes.  What is inside of them   *)
(* always runs at 44100 samples per second.                                *)
(***************************************************************************)
Inner == 44100
Instruments == {"bd", "sn", "hh", "sawsynth", "squsynth", "trisynth"}
InnerEnv(a, d) == [a |-> a, d |-> d, t |-> 0, s |-> S, sr |-> Inner]
\* attack and pitch envelopes in seconds, fixed point (0.003, 0.001, 0.01, 0.1 s)
InstrumentInit(c) ==
    CASE c.k = "bd" -> [env |-> InnerEnv(197, c.p.n), pit |-> InnerEnv(656, 6554), ph |-> 0]
      [] c.k = "sn" -> [env |-> InnerEnv(66, c.p.n), pit |-> InnerEnv(66, 6554), ph |-> 0, t |-> 0]
      [] c.k = "hh" -> [env |-> InnerEnv(197, c.p.n), t |-> 0,
                        flt |-> [fc |-> 0, q |-> S, x1 |-> 0, x2 |-> 0, y1 |-> 0, y2 |-> 0, sr |-> Inner]]
      [] OTHER -> [env |-> InnerEnv(c.a, c.d), ph |-> 0, inc |-> 0, unsure |-> FALSE]

\* variables a script starts with
MetaVars == {"x", "y", "z", "x0", "x1", "x2", "x3", "y0", "a", "b", "c", "phase", "freq", "t"}

(***************************************************************************)
(* The plate reverb: delay lines, all-pass filters and one-pole filters in *)
(* a loop.  All lines are longer than a block, so that a block goes        *)
(* through every one of them at once.                                      *)
(***************************************************************************)
PlateDelays == [pre |-> 2205, aa |-> 394, ab |-> 2800, ac |-> 1204, ba |-> 2000, ca |-> 179, cb |-> 2679,
                cc |-> 3500, da |-> 522, db |-> 2400, dc |-> 2400, fa |-> 1578, fb |-> 2378, fc |-> 2500]
\* length and gain
PlateAps == [w3 |-> << 210, 49152 >>, w4 |-> << 158, 49152 >>, w5 |-> << 560, 40960 >>, w6 |-> << 410, 40960 >>,
             w8 |-> << 4410, 45875 >>, ba |-> << 334, 32768 >>, bb |-> << 1577, 32768 >>, bc |-> << 4410, 32768 >>,
             da |-> << 1323, 45875 >>, ea |-> << 273, 45875 >>, eb |-> << 1539, 45875 >>, fa |-> << 899, 45875 >>]
PlateInit(c) ==
    [mix |-> c.p.n, ph |-> [m |-> 0, q |-> 42], aa |-> << >>,
     d |-> [k \in DOMAIN PlateDelays |-> DelayBuf(PlateDelays[k])],
     x |-> [k \in DOMAIN PlateAps |-> DelayBuf(PlateAps[k][1])],
     y |-> [k \in DOMAIN PlateAps |-> DelayBuf(PlateAps[k][1])],
     p |-> [w1 |-> 0, ba |-> 0, ea |-> 0]]

NodeInit(c, env) ==
    CASE c.k \in {"saw", "squ", "tri", "sin"} ->
            [f |-> Num(c.p, 0), inc |-> 0, ph |-> 0, sr |-> env.sr]
      [] c.k \in {"sig", "speed"} -> [v |-> c.p.n]
      [] c.k = "imp" -> [per |-> ImpPeriod(env.sr, c.p.n), t |-> 0, sr |-> env.sr]
      [] c.k = "noise" -> [seed |-> c.seed, t |-> 0]
      [] c.k = "choose" -> [seed |-> env.seed, t |-> 0, unsure |-> FALSE]
      [] c.k \in {"mul", "add"} -> [v |-> Num(c.p, 0)]
      [] c.k \in {"get", "mix", "balance"} -> [x |-> 0]
      [] c.k = "pan" -> [v |-> Clip(Num(c.p, 0), -S, S)]
      [] c.k = "delayn" -> [d |-> c.p.n,
                            b |-> LET z == DelayBuf(Larger(1, c.p.n)) IN << z, z >>]
      [] c.k = "delayms" ->
            LET n == Larger(1, MsToN(Num(c.p, 2000 * S), env.sr))
            IN [b |-> << DelayBuf(n), DelayBuf(n) >>, sr |-> env.sr]
      [] c.k = "apfmsgain" ->
            LET n == IF IsRef(c.p) \/ c.p.n = 0 THEN 3 * env.sr ELSE Larger(1, MsToN(c.p.n, env.sr))
            IN [x |-> DelayBuf(n), y |-> DelayBuf(n), g |-> c.g, sr |-> env.sr]
      [] c.k = "onepole" -> [b |-> ExpNeg2Pi(Num(c.p, 0)), y |-> 0]
      [] c.k \in {"lpf", "rhpf"} ->
            [fc |-> IF Has(c, "pat") THEN 20 * S ELSE Num(c.p, IF c.k = "lpf" THEN 20 * S ELSE 100 * S),
             q |-> c.q, x1 |-> 0, x2 |-> 0, y1 |-> 0, y2 |-> 0, t |-> 0, sr |-> env.sr, bpm |-> env.bpm]
      [] c.k = "envperc" -> [a |-> c.a, d |-> c.d, t |-> 0, s |-> S, sr |-> env.sr]
      [] c.k = "adsr" -> [a |-> c.a, d |-> c.d, s |-> c.s, r |-> c.rel, ph |-> 0, t |-> 0,
                          x |-> 0, y |-> 0, y0 |-> 0, sr |-> env.sr]
      [] c.k = "seq" -> [t |-> 0, sr |-> env.sr, bpm |-> env.bpm]
      [] c.k = "arrange" -> [len |-> [i \in 1..Len(c.secs) |-> c.secs[i].n], t |-> 0,
                             sr |-> env.sr, bpm |-> env.bpm]
      [] c.k = "points" -> [pts |-> PointList(c, env.sr, env.bpm), t |-> 0, span |-> c.span,
                            sr |-> env.sr, bpm |-> env.bpm]
      [] c.k = "sp" -> [t |-> 0, pl |-> << >>, smp |-> env.smp[c.name], sr |-> env.sr, unsure |-> FALSE]
      [] c.k = "psampler" -> [t |-> 0, pl |-> << >>, sr |-> env.sr, bpm |-> env.bpm,
                              smp |-> [nm \in SampleNames(c) |-> env.smp[nm]]]
      [] c.k = "psynth" -> [t |-> 0, pl |-> << >>, sr |-> env.sr, bpm |-> env.bpm]
      [] c.k = "msgsynth" -> [t |-> 0, pl |-> << >>, ev |-> << >>, a |-> c.a, d |-> c.d, sr |-> env.sr]
      [] c.k = "eval" ->
            [t |-> 0, code |-> c.code, unsure |-> FALSE,
             vars |-> ("x" :> 0) @@ ("y" :> 0) @@ ("z" :> 0) @@ ("sr" :> env.sr * S)]
      [] c.k = "meta" ->
            [code |-> c.code, unsure |-> FALSE,
             vars |-> [v \in MetaVars |-> 0] @@ ("sr" :> env.sr * S)]
      [] c.k \in Instruments -> InstrumentInit(c)
      [] c.k = "plate" -> PlateInit(c)

NewNode(c, env, n) == [c |-> c, st |-> NodeInit(c, env), out |-> Silence(c, n)]

(***************************************************************************)
(* Control messages: parameter number pos of the node is set to v.         *)
(***************************************************************************)
NodeMsg(c, st, pos, v) ==
    CASE c.k \in {"saw", "squ", "tri", "sin"} /\ pos = 0 -> [st EXCEPT !.f = v]
      [] c.k \in {"sig", "speed", "mul", "add"} /\ pos = 0 -> [st EXCEPT !.v = v]
      [] c.k = "pan" /\ pos = 0 -> [st EXCEPT !.v = Clip(v, -S, S)]
      [] c.k = "imp" /\ pos = 0 -> [st EXCEPT !.per = ImpPeriod(st.sr, v)]
      [] c.k = "noise" /\ pos = 0 -> [st EXCEPT !.seed = v \div S, !.t = 0]
      [] c.k = "delayn" /\ pos = 0 ->
            LET n == Larger(0, v \div S) IN [d |-> n, b |-> << DelayBuf(Larger(1, n)), DelayBuf(Larger(1, n)) >>]
      [] c.k = "delayms" /\ pos = 0 ->
            LET n == Larger(1, IF v < 0 THEN 0 ELSE MsToN(v, st.sr))
            IN [st EXCEPT !.b = << DelayBuf(n), DelayBuf(n) >>]
      [] c.k = "apfmsgain" /\ pos = 0 ->
            LET n == Larger(1, IF v < 0 THEN 0 ELSE MsToN(v, st.sr))
            IN [st EXCEPT !.x = DelayBuf(n), !.y = DelayBuf(n)]
      [] c.k = "apfmsgain" /\ pos = 1 -> [st EXCEPT !.g = v]
      [] c.k = "onepole" /\ pos = 0 -> [st EXCEPT !.b = ExpNeg2Pi(v)]
      [] c.k \in {"lpf", "rhpf"} /\ pos = 0 -> [st EXCEPT !.fc = v]
      [] c.k \in {"lpf", "rhpf"} /\ pos = 1 -> [st EXCEPT !.q = v]
      [] c.k = "envperc" /\ pos = 0 -> [st EXCEPT !.a = v]
      [] c.k = "envperc" /\ pos = 1 -> [st EXCEPT !.d = v]
      [] c.k = "adsr" /\ pos = 0 -> [st EXCEPT !.a = v]
      [] c.k = "adsr" /\ pos = 1 -> [st EXCEPT !.d = v]
      [] c.k = "adsr" /\ pos = 2 -> [st EXCEPT !.s = v]
      [] c.k = "adsr" /\ pos = 3 -> [st EXCEPT !.r = v]
      [] c.k = "arrange" /\ pos % 2 = 1 /\ (pos + 1) \div 2 <= Len(st.len) ->
            [st EXCEPT !.len[(pos + 1) \div 2] = v, !.t = 0]
      [] c.k = "points" /\ pos = 1 -> [st EXCEPT !.span = v, !.t = 0]
      [] c.k \in {"bd", "sn", "hh"} /\ pos = 0 -> [st EXCEPT !.env.d = v]
      [] c.k \in {"sawsynth", "squsynth", "trisynth"} /\ pos = 0 -> [st EXCEPT !.env.a = v]
      [] c.k \in {"sawsynth", "squsynth", "trisynth"} /\ pos = 1 -> [st EXCEPT !.env.d = v]
      [] c.k = "msgsynth" /\ pos = 1 -> [st EXCEPT !.a = v]
      [] c.k = "msgsynth" /\ pos = 2 -> [st EXCEPT !.d = v]
      [] c.k = "plate" /\ pos = 0 -> [st EXCEPT !.mix = v]
      [] OTHER -> st

\* messages with a text: a note for the message synth, an expression for a computed node
NodeText(c, st, pos, x) ==
    CASE c.k = "msgsynth" /\ pos = 3 /\ Has(x, "note") ->
            [st EXCEPT !.ev = Append(@, [n |-> Scale(x.at, st.sr), m |-> x.note])]
      [] c.k = "eval" /\ pos = 0 -> [st EXCEPT !.code = IF Has(x, "code") THEN x.code ELSE << >>]
      [] c.k = "meta" /\ pos = 0 /\ Has(x, "script") -> [st EXCEPT !.code = x.script]
      [] OTHER -> st

\* a tempo change reaches every running node
NodeBpm(st, bpm) == IF Has(st, "bpm") THEN [st EXCEPT !.bpm = bpm] ELSE st

(***************************************************************************)
(* One block of n samples.                                                 *)
(***************************************************************************)
\* fold over the samples of a block: Step(st, i) gives [st, y]; result [st, out]
Run1(st0, n, Step(_, _)) ==
    FoldLeft(LAMBDA acc, i :
                LET r == Step(acc.st, i) IN [st |-> r.st, out |-> Append(acc.out, r.y)],
             [st |-> st0, out |-> << >>], Idx(n))
\* the same with two channels: Step gives [st, l, r]
Run2(st0, n, Step(_, _)) ==
    FoldLeft(LAMBDA acc, i :
                LET r == Step(acc.st, i)
                IN [st |-> r.st, l |-> Append(acc.l, r.l), r |-> Append(acc.r, r.r)],
             [st |-> st0, l |-> << >>, r |-> << >>], Idx(n))

Mono(r) == [st |-> r.st, out |-> << r.out >>]
Dual(r) == [st |-> r.st, out |-> << r.l, r.r >>]

\* oscillators: phase in units of 1/(S*sr)
OscWave(k, ph, sr) ==
    LET p2 == (ph \div sr) * 2 + ((ph % sr) * 2) \div sr     \* twice the phase
    IN CASE k = "saw" -> p2 - S
         [] k = "squ" -> IF ph <= (S * sr) \div 2 THEN S ELSE -S
         [] k = "tri" -> 2 * (Abs(p2 - S) - S \div 2)
         [] k = "sin" -> FSin(ph \div sr)
OscAdvance(ph, f, sr) == LET p == ph + f IN IF p > S * sr \/ p < 0 THEN p % (S * sr) ELSE p

OscBlock(c, st, src, n) ==
    Mono(Run1(st, n, LAMBDA s, i :
        LET m == IF src = << >> THEN s.f ELSE src[i]
            f == IF src = << >> \/ c.k = "sin" \/ m # 0 THEN m ELSE s.inc
        IN [st |-> [s EXCEPT !.ph = OscAdvance(s.ph, f, s.sr),
                             !.inc = IF src = << >> THEN @ ELSE f],
            y |-> OscWave(c.k, s.ph, s.sr)]))

Op(k, a, b) == IF k = "mul" THEN FMul(a, b) ELSE a + b

Push(b, x) == Append(Tail(b), x)

\* value at position p (fixed point, 0 = oldest) of a buffer, interpolated
At(b, p) ==
    LET i == p \div S
        f == p % S
        w == (i + 1) % Len(b)
    IN FMul(b[(i % Len(b)) + 1], S - f) + FMul(b[w + 1], f)

Biquad(k, s, fc, x) ==
    LET th == (fc + s.sr \div 2) \div s.sr         \* cutoff / sample rate
        sn == FSin(th)
        ds == (FDiv(sn, s.q) + 1) \div 2
        be == (FDiv(S - ds, S + ds) + 1) \div 2
        ga == FMul(S \div 2 + be, FCos(th))
        c0 == IF k = "lpf" THEN S \div 2 + be - ga ELSE S \div 2 + be + ga
        side == IF k = "lpf" THEN 2 * FMul(s.x1, c0) ELSE -2 * FMul(s.x1, c0)
        y == Sat((FMul(x, c0) + side + FMul(s.x2, c0) + 4 * FMul(s.y1, ga) - 4 * FMul(s.y2, be) + 1) \div 2)
    IN [st |-> [s EXCEPT !.x2 = s.x1, !.x1 = x, !.y2 = s.y1, !.y1 = y, !.fc = fc], y |-> y]

\* a/b as a fixed-point number, for small integers
Ratio(a, b) == FDiv(a, b)

EnvStep(s, x) ==
    LET A == Scale(s.a, s.sr)
        D == Scale(s.d, s.sr)
        t == IF x > 0 THEN 0 ELSE s.t
        sc == IF x > 0 THEN x ELSE s.s
        v == IF t <= A THEN (IF A = 0 THEN 0 ELSE Ratio(t, A))
             ELSE IF t <= A + D THEN Ratio(A + D - t, D)
             ELSE 0
    IN [st |-> [s EXCEPT !.t = t + 1, !.s = sc], y |-> FMul(v, sc)]

AdsrStep(s, x) ==
    LET A == Scale(s.a, s.sr)
        D == Scale(s.d, s.sr)
        R == Scale(s.r, s.sr)
        up == x > 0 /\ s.x = 0
        down == x = 0 /\ s.x > 0
        ph == IF up THEN 1 ELSE IF down THEN 2 ELSE s.ph
        t == IF up \/ down THEN 0 ELSE s.t
        y0 == IF up \/ down THEN s.y ELSE s.y0
        v == CASE ph = 1 ->
                    IF t <= A THEN (IF A = 0 THEN 0 ELSE FMul(Ratio(t, A), S - y0) + y0)
                    ELSE IF t <= A + D THEN FMul(Ratio(A + D - t, D), S - s.s) + s.s
                    ELSE s.s
               [] ph = 2 -> IF t >= R THEN 0 ELSE FMul(Ratio(R - t, R), y0)
               [] OTHER -> 0
    IN [st |-> [s EXCEPT !.ph = ph, !.t = t + 1, !.x = x, !.y = v, !.y0 = y0], l |-> v, r |-> v]

\* the pitch ratio of a note; 0 is silence.  Referenced notes are whole numbers in the models.
NoteValue(m) == IF m = 0 THEN 0 ELSE MidiRatio(m)
NoteOf(v) == NoteValue((v + S \div 2) \div S)

\* st.speed-scaled cycle in quarter samples
SeqBlock(c, st, up, refval(_, _), n) ==
    LET speed == IF up # << >> /\ up[1] > 0 /\ (Len(up) = 1 \/ up[2] = 0) THEN up[1] ELSE S
        barQ == IF speed = S THEN Bar(st) * 4 ELSE FDiv(Bar(st) * 4, speed)
        bar == Larger(1, barQ \div 4)
        evs == SelectSeq(StepTimes(c.steps), LAMBDA e : ~Has(e.v, "x"))
        at == [j \in 1..Len(evs) |-> (barQ * evs[j].num) \div (4 * evs[j].den)]
    IN Mono(Run1(st, n, LAMBDA s, i :
        LET due == SelectSeq(Idx(Len(evs)), LAMBDA j : at[j] = s.t % bar)
            e == evs[due[Len(due)]].v
            y == IF due = << >> THEN 0
                 ELSE IF Has(e, "m") THEN NoteValue(e.m)
                 ELSE NoteOf(refval(e.r, i))
        IN [st |-> [s EXCEPT !.t = s.t + 1], y |-> y]))

\* sections of an arrangement: the number of the section at time t, 0 past the end
RECURSIVE SectionAt(_, _, _, _)
SectionAt(lens, bar, t, j) ==
    IF j > Len(lens) THEN 0
    ELSE LET end == FoldLeft(LAMBDA acc, i : acc + lens[i], 0, Idx(j))     \* in cycles, fixed point
         IN IF t * (S \div 16) < (end \div 16) * bar THEN j ELSE SectionAt(lens, bar, t, j + 1)

ArrangeBlock(c, st, src(_, _, _), n) ==
    Dual(Run2(st, n, LAMBDA s, i :
        LET j0 == SectionAt(s.len, Bar(s), s.t, 1)
            j == IF j0 = 0 THEN 1 ELSE j0
            t == IF j0 = 0 THEN 0 ELSE s.t
        IN [st |-> [s EXCEPT !.t = t + 1], l |-> src(j, 1, i), r |-> src(j, 2, i)]))

PointsBlock(c, st, n) ==
    LET pts == st.pts
        bar == Larger(1, Scale(st.span, Bar(st)))
    IN Mono(Run1(st, n, LAMBDA s, i :
        LET pos == IF c.loop = 1 THEN s.t % bar ELSE s.t
            before == SelectSeq(Idx(Len(pts)), LAMBDA j : pts[j].t <= pos)
            j == before[Len(before)]
            last == j = Len(pts)
            nx == IF last THEN 1 ELSE j + 1
            gap == IF last THEN bar - pts[j].t + pts[1].t ELSE pts[nx].t - pts[j].t
            y == IF last /\ (c.loop = 0 \/ gap <= 0) THEN pts[j].v
                 ELSE pts[j].v + FMul(pts[nx].v - pts[j].v, Ratio(pos - pts[j].t, gap))
        IN [st |-> [s EXCEPT !.t = s.t + 1], y |-> y]))

(***************************************************************************)
(* Sample playback.  A sample is [d |-> channels, sr].  A voice started at *)
(* time b with pitch ratio v sounds for dur = frames/v/(sample rate ratio) *)
(* samples, end included, and reads its frames by interpolation.           *)
(***************************************************************************)
Frames(smp) == Len(smp.d[1])
\* A voice has played the part  age * rate / total  of its sample.  Both are kept in 1/256 units, so
\* that every pitch ratio and length of the models is exact and the last sample of a voice is certain.
Voice(smp, v, t, sr) == [b |-> t, rate |-> (v \div 256) * smp.sr, total |-> Frames(smp) * sr * 256]
\* a/b of a fraction at most 1, in 1/2^20
Part(a, b) ==
    LET r1 == (a * 256) % b
        r2 == (r1 * 256) % b
    IN ((a * 256) \div b) * 4096 + ((r1 * 256) \div b) * 16 + (r2 * 16) \div b
VoiceAt(smp, ch, age, v) ==
    LET fx == ((Frames(smp) - 1) * Part(age * v.rate, v.total)) \div 16
        i == fx \div S
        f == fx % S
        d == smp.d[ch]
        hi == IF f = 0 THEN i + 1 ELSE i + 2
    IN FMul(d[i + 1], S - f) + FMul(d[Smaller(hi, Frames(smp))], f)

Sounding(v, t) == (t - v.b) * v.rate <= v.total
VoiceSum(pl, t, smpOf(_), ch) ==
    FoldLeft(LAMBDA acc, v :
        LET smp == smpOf(v)
        IN IF ~Sounding(v, t) THEN acc
           ELSE acc + VoiceAt(smp, IF ch <= Len(smp.d) THEN ch ELSE 1, t - v.b, v),
        0, pl)
Alive(pl, t) == SelectSeq(pl, LAMBDA v : Sounding(v, t))

SamplerStep(s, x) ==
    LET pl == IF x > 0 THEN Append(s.pl, Voice(s.smp, x, s.t, s.sr)) ELSE s.pl
        live == Alive(pl, s.t)
    IN [st |-> [s EXCEPT !.t = s.t + 1, !.pl = live, !.unsure = s.unsure \/ x % 256 # 0],
        l |-> VoiceSum(live, s.t, LAMBDA v : s.smp, 1),
        r |-> VoiceSum(live, s.t, LAMBDA v : s.smp, 2)]

PSamplerBlock(c, st, n) ==
    LET bar == Larger(1, Scale(c.span, Bar(st)))
        at == [j \in 1..Len(c.pat) |-> Scale(c.pat[j].t, Bar(st))]
    IN Dual(Run2(st, n, LAMBDA s, i :
        LET due == SelectSeq(Idx(Len(at)), LAMBDA j : at[j] = s.t % bar)
            new == [j \in 1..Len(due) |->
                        LET nm == c.pat[due[j]].name
                        IN Voice(s.smp[nm], S, s.t, s.sr) @@ [nm |-> nm]]
            live == Alive(s.pl \o new, s.t)
        IN [st |-> [s EXCEPT !.t = s.t + 1, !.pl = live],
            l |-> VoiceSum(live, s.t, LAMBDA v : s.smp[v.nm], 1),
            r |-> VoiceSum(live, s.t, LAMBDA v : s.smp[v.nm], 2)]))

\* note list synth: a saw of the note's frequency under a short envelope
PSynthAtt(sr) == Scale(66, sr)          \* 0.001 s
PSynthBlock(c, st, n) ==
    LET bar == Larger(1, Scale(c.span, Bar(st)))
        at == [j \in 1..Len(c.notes) |-> Scale(c.notes[j].t, Bar(st))]
        A == 66 * st.sr            \* 0.001 s in 1/S samples
        D == 6554 * st.sr          \* 0.1 s in 1/S samples
        total == (A + D) \div S
        attN == A \div S
    IN Mono(Run1(st, n, LAMBDA s, i :
        LET due == SelectSeq(Idx(Len(at)), LAMBDA j : at[j] = s.t % bar)
            new == [j \in 1..Len(due) |->
                        [b |-> s.t, ph |-> 0, f |-> 440 * MidiRatio(c.notes[due[j]].m - 9)]]
            live == SelectSeq(s.pl \o new, LAMBDA v : s.t - v.b <= total)
            amp(v) == LET p == s.t - v.b
                      IN IF p <= attN THEN (IF attN = 0 THEN 0 ELSE FDiv(p * 1000, st.sr))
                         ELSE FDiv((total - p) * 10, st.sr)
            y == FoldLeft(LAMBDA acc, v :
                    acc + FMul(FMul(amp(v), OscWave("saw", v.ph, s.sr)), 6554), 0, live)
        IN [st |-> [s EXCEPT !.t = s.t + 1,
                             !.pl = [j \in 1..Len(live) |->
                                        [live[j] EXCEPT !.ph = OscAdvance(live[j].ph, live[j].f, s.sr)]]],
            y |-> y]))

\* message synth: notes at given times, counted from the creation of the node
MsgSynthBlock(c, st, n) ==
    LET A == st.a * st.sr          \* in 1/S samples
        D == st.d * st.sr
        attN == A \div S
        total == (A + D) \div S
    IN Mono(Run1(st, n, LAMBDA s, i :
        LET due == SelectSeq(s.ev, LAMBDA e : e.n = s.t)
            new == [j \in 1..Len(due) |-> [b |-> s.t, ph |-> 0, f |-> 440 * MidiRatio(due[j].m - 9)]]
            live == SelectSeq(s.pl \o new, LAMBDA v : s.t - v.b <= total)
            amp(v) == LET p == s.t - v.b
                      IN IF p <= attN THEN (IF attN = 0 THEN 0 ELSE FDiv(p * 256, A \div 256))
                         ELSE IF D < S THEN 0 ELSE FDiv((total - p) * 256, D \div 256)
            y == FoldLeft(LAMBDA acc, v :
                    acc + FMul(FMul(amp(v), OscWave("saw", v.ph, s.sr)), 6554), 0, live)
        IN [st |-> [s EXCEPT !.t = s.t + 1,
                             !.pl = [j \in 1..Len(live) |->
                                        [live[j] EXCEPT !.ph = OscAdvance(live[j].ph, live[j].f, s.sr)]]],
            y |-> y]))

\* random sources: the reference streams are given to the model as data
NoiseAt(seed, t) == NoiseData[ToString(seed)][t + 1]

(***************************************************************************)
(* Instruments.  The phase of what is inside of them is counted in         *)
(* 1/(16384*44100) of a turn; where the model cannot tell on which side of *)
(* a jump the code is, the state says that it is unsure.                   *)
(***************************************************************************)
InnerTurn == 16384 * Inner
InnerPhase(ph) == ph \div 11025             \* fixed point
InnerAdvance(ph, d) == IF ph + d > InnerTurn \/ ph + d < 0 THEN (ph + d) % InnerTurn ELSE ph + d
DrumStep(c, s, x) ==
    LET e == EnvStep(s.env, x)
        p == EnvStep(s.pit, x)
        f == (IF c.k = "bd" THEN 50 ELSE 55) * p.y + 60 * S
        tone == FSin(InnerPhase(s.ph))
    IN CASE c.k = "bd" ->
                [st |-> [s EXCEPT !.env = e.st, !.pit = p.st, !.ph = InnerAdvance(s.ph, f \div 4)],
                 y |-> FMul(tone, e.y)]
         [] c.k = "sn" ->
                [st |-> [s EXCEPT !.env = e.st, !.pit = p.st, !.ph = InnerAdvance(s.ph, f \div 4), !.t = s.t + 1],
                 y |-> FMul(tone + FMul(NoiseAt(42, s.t), 19661), e.y)]
         [] c.k = "hh" ->
                LET h == Biquad("rhpf", s.flt, 15000 * S, NoiseAt(42, s.t))
                IN [st |-> [s EXCEPT !.env = e.st, !.flt = h.st, !.t = s.t + 1], y |-> FMul(h.y, e.y)]

SynthWave == [sawsynth |-> "saw", squsynth |-> "squ", trisynth |-> "tri"]
SynthStep(c, s, x) ==
    LET e == EnvStep(s.env, x)
        inc == IF x # 0 THEN FMul(x, 4286546) ELSE s.inc          \* 261.63 Hz times x
        next == s.ph + inc
        close(a) == Abs(next - a) <= 2 * Inner
        unsure == c.k # "trisynth" /\ inc # 0 /\ (close(InnerTurn) \/ (c.k = "squsynth" /\ close(InnerTurn \div 2)))
    IN [st |-> [s EXCEPT !.env = e.st, !.inc = inc, !.ph = InnerAdvance(s.ph, inc), !.unsure = s.unsure \/ unsure],
        y |-> FMul(OscWave(SynthWave[c.k], InnerPhase(s.ph), 1), e.y)]

\* both channels carry the same
Twice(r) == [st |-> r.st, out |-> << r.out, r.out >>]

(***************************************************************************)
(* Expressions of computed nodes: numbers [n], variables [v] and           *)
(* operations [op, a, b].  Value is [ok, v]; an unknown name is an error.  *)
(***************************************************************************)
Expressible(v) == Abs(v) <= 96 * S
RECURSIVE Value(_, _)
Value(e, vars) ==
    IF Has(e, "n") THEN [ok |-> TRUE, v |-> e.n, far |-> FALSE]
    ELSE IF Has(e, "v") THEN
        (IF e.v \in DOMAIN vars THEN [ok |-> TRUE, v |-> vars[e.v], far |-> FALSE]
         ELSE [ok |-> FALSE, v |-> 0, far |-> FALSE])
    ELSE LET a == Value(e.a, vars)
             b == IF Has(e, "b") THEN Value(e.b, vars) ELSE a
             inr == Expressible(a.v) /\ Expressible(b.v)
             ca == IF inr THEN a.v ELSE 0
             cb == IF inr THEN b.v ELSE 0
             r == CASE e.op = "+" -> ca + cb
                    [] e.op = "-" -> ca - cb
                    [] e.op = "*" -> FMul(ca, cb)
                    [] e.op = "neg" -> -ca
                    [] e.op = "abs" -> Abs(ca)
                    [] e.op = "/" -> (a.v + e.by \div 2) \div e.by       \* by a whole number
                    [] e.op = "%" -> a.v % (e.by * S)
                    [] e.op = ">" -> IF ca > cb THEN S ELSE 0
                    [] e.op = "<" -> IF ca < cb THEN S ELSE 0
         IN [ok |-> a.ok /\ b.ok, v |-> r,
             far |-> a.far \/ b.far \/ (e.op \notin {"/", "%"} /\ ~inr)]

\* eval: every statement but the last one assigns; errors count as 0
EvalStep(s, x, some) ==
    LET v0 == ("phase" :> s.t * S) @@ (IF some THEN "in" :> x ELSE << >>) @@ s.vars
        run == FoldLeft(LAMBDA acc, j :
                    LET r == Value(s.code[j].e, acc.vars)
                        v == IF r.ok THEN r.v ELSE 0
                        far == acc.far \/ r.far
                    IN IF j < Len(s.code) THEN [vars |-> (s.code[j].to :> v) @@ acc.vars, y |-> 0, far |-> far]
                       ELSE [vars |-> acc.vars, y |-> v, far |-> far],
                 [vars |-> v0, y |-> 0, far |-> s.unsure], Idx(Len(s.code)))
    IN [st |-> [s EXCEPT !.t = s.t + 1, !.vars = run.vars, !.unsure = run.far], y |-> run.y]

\* meta: a script that assigns and then puts a value into the output, once per sample.  An error ends it
\* and leaves the last block as it was.
MetaBlock(nd, in, n) ==
    LET st == nd.st
        step(acc, i) ==
            IF ~acc.ok THEN acc
            ELSE LET v0 == IF in = << >> THEN acc.vars ELSE ("in" :> in[i]) @@ acc.vars
                     run == FoldLeft(LAMBDA a, j :
                                IF ~a.ok THEN a
                                ELSE LET r == Value(st.code[j].e, a.vars)
                                     IN IF ~r.ok THEN [a EXCEPT !.ok = FALSE]
                                        ELSE IF j < Len(st.code)
                                        THEN [a EXCEPT !.vars = (st.code[j].to :> r.v) @@ a.vars, !.far = @ \/ r.far]
                                        ELSE [a EXCEPT !.y = r.v, !.far = @ \/ r.far],
                              [ok |-> TRUE, vars |-> v0, y |-> 0, far |-> acc.far], Idx(Len(st.code)))
                 IN [ok |-> run.ok, vars |-> run.vars, out |-> Append(acc.out, run.y), far |-> run.far]
        r == FoldLeft(step, [ok |-> TRUE, vars |-> st.vars, out |-> << >>, far |-> st.unsure], Idx(n))
    IN IF st.code = << >> THEN [st |-> st, out |-> nd.out]
       ELSE [st |-> [st EXCEPT !.vars = r.vars, !.unsure = r.far], out |-> IF r.ok THEN << r.out >> ELSE nd.out]

(***************************************************************************)
(* The plate reverb, one block.  The signal enters the loop through the    *)
(* delay aa: what follows it hears its previous block.                     *)
(***************************************************************************)
Oldest(b, n) == SubSeq(b, 1, n)
Shift(b, new) == SubSeq(b, Len(new) + 1, Len(b)) \o new
AddAll(n, blocks) == [i \in 1..n |-> FoldLeft(LAMBDA acc, b : acc + b[i], 0, blocks)]
Times(b, g) == [i \in 1..Len(b) |-> FMul(b[i], g)]
\* y[i] = x[i-d] - g*x[i] + g*y[i-d]
ApBlock(x, y, in, g, n) == [i \in 1..n |-> x[i] - FMul(in[i], g) + FMul(y[i], g)]
\* the same with a length of m (fixed point, in samples) behind the newest
ApVar(x, y, in, g, m, n) ==
    [i \in 1..n |->
        LET p == (Len(x) + i - 1) * S - m[i]       \* counted from the oldest
        IN At(x, p) - FMul(in[i], g) + FMul(At(y, p), g)]
OneBlock(y0, in, b) ==
    FoldLeft(LAMBDA acc, i : Append(acc, FMul(in[i], S - b) + FMul(IF i = 1 THEN y0 ELSE acc[i - 1], b)),
             << >>, Idx(Len(in)))
\* A slow oscillator of 0.1 Hz.  Its phase m/2^q is rounded to 24 digits after every sample, which
\* shifts it over the seconds by more than can be neglected.
SlowInc == 9972895       \* of 2^-42
SlowAdvance(ph) ==
    LET k == 42 - ph.q
        t == ph.m + SlowInc \div Pow2(k)
        more == IF t >= Pow2(24) THEN 1 ELSE 0
        rest == IF more = 0 THEN SlowInc % Pow2(k) ELSE (t % 2) * Pow2(k) + (SlowInc % Pow2(k))
        unit == Pow2(k + more)
        a == IF more = 0 THEN t ELSE t \div 2
        up == 2 * rest > unit \/ (2 * rest = unit /\ a % 2 = 1)
    IN [m |-> IF up THEN a + 1 ELSE a, q |-> ph.q - more]
SlowSin(ph) ==
    LET p == IF ph.q >= 28 THEN ph.m \div Pow2(Smaller(30, ph.q - 28)) ELSE ph.m * Pow2(28 - ph.q)
        i == p \div 4096
    IN FSin(i) + ((FSin(i + 1) - FSin(i)) * (p % 4096)) \div 4096
PlateBlock(st, in, n) ==
    LET lfo == FoldLeft(LAMBDA acc, i : Append(acc, SlowAdvance(acc[i])), << st.ph >>, Idx(n))
        d(k) == TLCEval(Oldest(st.d[k], n))
        ap(k, b) == TLCEval(ApBlock(st.x[k], st.y[k], b, PlateAps[k][2], n))
        \* 29.5 ms, moved by 5.5 ms; in samples
        m == TLCEval([i \in 1..n |-> 1300 * S + 62259 + FMul(SlowSin(lfo[i]), 15895757 \div 4) * 4])
        apv(k, b) == TLCEval(ApVar(st.x[k], st.y[k], b, PlateAps[k][2], m, n))
        aaOld == IF st.aa = << >> THEN Zeros(n) ELSE st.aa
        ab == d("ab")
        ac == d("ac")
        ba1 == d("ba")
        ba2 == TLCEval(OneBlock(st.p.ba, ba1, ExpNeg2Pi(6554)))
        ba == ap("ba", ba2)
        bb == ap("bb", ba)
        bc == apv("bc", bb)
        ca == d("ca")
        cb == d("cb")
        cc == TLCEval(Times(d("cc"), 19661))
        da1 == ap("da", cc)
        da == d("da")
        db == d("db")
        dc == d("dc")
        ea1 == TLCEval(OneBlock(st.p.ea, dc, ExpNeg2Pi(6554)))
        ea == ap("ea", ea1)
        eb == ap("eb", ea)
        fa1 == ap("fa", eb)
        fa == d("fa")
        fb == d("fb")
        fc == TLCEval(Times(d("fc"), 19661))
        w1 == TLCEval(OneBlock(st.p.w1, in, ExpNeg2Pi(45875)))
        w2 == d("pre")
        w3 == ap("w3", w2)
        w4 == ap("w4", w3)
        w5 == ap("w5", w4)
        w6 == ap("w6", w5)
        w7 == TLCEval(AddAll(n, << w6, fc >>))
        w8 == apv("w8", w7)
        aa == d("aa")
        left == [i \in 1..n |-> aa[i] + ab[i] + cb[i] - (bb[i] + db[i] + ea[i] + fa[i])]
        right == [i \in 1..n |-> da[i] + db[i] + fb[i] - (eb[i] + ab[i] + ba[i] + ca[i])]
        dry == S - st.mix
        mixed(wet) == [i \in 1..n |-> FMul(in[i], dry) + FMul(wet[i], st.mix)]
        xin == [w3 |-> w2, w4 |-> w3, w5 |-> w4, w6 |-> w5, w8 |-> w7, ba |-> ba2, bb |-> ba, bc |-> bb,
                da |-> cc, ea |-> ea1, eb |-> ea, fa |-> eb]
        yout == [w3 |-> w3, w4 |-> w4, w5 |-> w5, w6 |-> w6, w8 |-> w8, ba |-> ba, bb |-> bb, bc |-> bc,
                 da |-> da1, ea |-> ea, eb |-> eb, fa |-> fa1]
        din == [pre |-> w1, aa |-> w8, ab |-> aaOld, ac |-> ab, ba |-> ac, ca |-> bc, cb |-> ca, cc |-> cb,
                da |-> da1, db |-> da, dc |-> db, fa |-> fa1, fb |-> fa, fc |-> fb]
    IN [st |-> [mix |-> st.mix, ph |-> lfo[n + 1], aa |-> aa,
                d |-> TLCEval([k \in DOMAIN st.d |-> TLCEval(Shift(st.d[k], din[k]))]),
                x |-> TLCEval([k \in DOMAIN st.x |-> TLCEval(Shift(st.x[k], xin[k]))]),
                y |-> TLCEval([k \in DOMAIN st.y |-> TLCEval(Shift(st.y[k], yout[k]))]),
                p |-> [w1 |-> w1[n], ba |-> ba2[n], ea |-> ea1[n]]],
        out |-> << TLCEval(mixed(left)), TLCEval(mixed(right)) >>]

(***************************************************************************)
(* nd: the running node; ord, ins: its inputs; n: block size.              *)
(* Result [st, out].                                                       *)
(***************************************************************************)
NodeBlock(nd, ord, ins, n) ==
    LET c == nd.c
        st == nd.st
        cnt == Cardinality(DOMAIN ins)
        same == [st |-> st, out |-> nd.out]
        only == ins[CHOOSE k \in DOMAIN ins : TRUE]
        main == ins[ord[1]]
        ref == ins[ord[2]]
        fill(x) == [st |-> st, out |-> << [i \in 1..n |-> x] >>]
        \* map a function over the two channels
        both(f(_, _)) == [st |-> st, out |-> << [i \in 1..n |-> f(1, i)], [i \in 1..n |-> f(2, i)] >>]
    IN
    CASE c.k \in {"saw", "squ", "tri", "sin"} ->
            IF cnt = 0 THEN OscBlock(c, st, << >>, n)
            ELSE IF cnt = 1 THEN OscBlock(c, st, Ch(only, 1), n)
            ELSE same
      [] c.k = "sig" -> fill(st.v)
      [] c.k = "speed" -> [st |-> st, out |-> << [i \in 1..n |-> IF i = 1 THEN st.v ELSE 0] >>]
      [] c.k = "imp" ->
            Mono(Run1(st, n, LAMBDA s, i :
                [st |-> [s EXCEPT !.t = s.t + 1], y |-> IF s.t % s.per = 0 THEN S ELSE 0]))
      [] c.k = "noise" ->
            [st |-> [st EXCEPT !.t = st.t + n],
             out |-> << [i \in 1..n |-> NoiseAt(st.seed, st.t + i - 1)] >>]
      [] c.k = "choose" ->
            LET L == Len(c.list)
                at == (NoiseAt(st.seed, st.t) + S) * L
                id == at \div (2 * S)
                \* lengths that are no powers of two cut the stream between the numbers of the model
                edge == at % (2 * S)
                close == L \notin {1, 2, 4, 8, 16} /\ (edge < 2 * L \/ edge > (2 * S) - (2 * L))
            IN [st |-> [st EXCEPT !.t = st.t + 1, !.unsure = @ \/ close],
                out |-> << [i \in 1..n |-> c.list[IF id >= L THEN 1 ELSE id + 1] * S] >>]
      [] c.k \in {"mul", "add"} ->
            IF cnt = 1 THEN both(LAMBDA ch, i : Op(c.k, Ch(only, ch)[i], st.v))
            ELSE IF cnt = 2 THEN both(LAMBDA ch, i : Op(c.k, Ch(main, ch)[i], Ch(ref, ch)[i]))
            ELSE same
      [] c.k = "get" ->
            IF cnt = 0 THEN same ELSE both(LAMBDA ch, i : Ch(only, ch)[i])
      [] c.k = "mix" ->
            both(LAMBDA ch, i : SumOver(LAMBDA k : Ch(ins[k], ch)[i], DOMAIN ins))
      [] c.k = "balance" ->
            LET l == ord[Len(ord) - 1]
                r == ord[Len(ord)]
            IN IF l \in DOMAIN ins /\ r \in DOMAIN ins
               THEN [st |-> st, out |-> << Ch(ins[l], 1), Ch(ins[r], 1) >>]
               ELSE same
      [] c.k = "pan" ->
            LET gains(v) == LET p == (Clip(v, -S, S) + S) \div 2 IN << FSqrt(S - p), FSqrt(p) >>
                fixed == gains(st.v)
            IN IF cnt = 1 THEN both(LAMBDA ch, i : FMul(Ch(only, 1)[i], fixed[ch]))
               ELSE IF cnt = 2 THEN both(LAMBDA ch, i : FMul(Ch(main, 1)[i], gains(Ch(ref, 1)[i])[ch]))
               ELSE same
      [] c.k = "delayn" ->
            IF cnt # 1 THEN same
            ELSE IF st.d = 0 THEN both(LAMBDA ch, i : Ch(only, ch)[i])
            ELSE Dual(Run2(st, n, LAMBDA s, i :
                    [st |-> [s EXCEPT !.b = << Push(s.b[1], Ch(only, 1)[i]), Push(s.b[2], Ch(only, 2)[i]) >>],
                     l |-> s.b[1][1], r |-> s.b[2][1]]))
      [] c.k = "delayms" ->
            IF cnt = 1 THEN
                Dual(Run2(st, n, LAMBDA s, i :
                    [st |-> [s EXCEPT !.b = << Push(s.b[1], Ch(only, 1)[i]), Push(s.b[2], Ch(only, 2)[i]) >>],
                     l |-> s.b[1][1], r |-> s.b[2][1]]))
            ELSE IF cnt = 2 THEN
                Dual(Run2(st, n, LAMBDA s, i :
                    LET newest == (Len(s.b[1]) - 1) * S
                        m == Ch(ref, 1)[i]
                        d == IF m <= 0 THEN 0 ELSE Smaller(newest, (m \div 1000) * s.sr + ((m % 1000) * s.sr) \div 1000)
                        b == << Push(s.b[1], Ch(main, 1)[i]), Push(s.b[2], Ch(main, 2)[i]) >>
                    IN [st |-> [s EXCEPT !.b = b],
                        l |-> At(b[1], newest - d), r |-> At(b[2], newest - d)]))
            ELSE same
      [] c.k = "apfmsgain" ->
            IF cnt = 0 THEN same
            ELSE Mono(Run1(st, n, LAMBDA s, i :
                LET x == Ch(IF cnt = 1 THEN only ELSE main, 1)[i]
                    longest == Len(s.x) * S
                    m == IF cnt = 1 THEN 0 ELSE Ch(ref, 1)[i]
                    d == IF cnt = 1 THEN longest
                         ELSE Clip(IF m <= 0 THEN 0 ELSE (m \div 1000) * s.sr + ((m % 1000) * s.sr) \div 1000,
                                   S, longest)
                    y == Sat(At(s.x, longest - d) - FMul(x, s.g) + FMul(At(s.y, longest - d), s.g))
                IN [st |-> [s EXCEPT !.x = Push(s.x, x), !.y = Push(s.y, y)], y |-> y]))
      [] c.k = "onepole" ->
            IF cnt = 0 THEN same
            ELSE Mono(Run1(st, n, LAMBDA s, i :
                LET x == Ch(IF cnt = 1 THEN only ELSE main, 1)[i]
                    b == IF cnt = 1 THEN s.b ELSE ExpNeg2Pi(Ch(ref, 1)[i])
                    y == FMul(x, S - b) + FMul(s.y, b)
                IN [st |-> [s EXCEPT !.b = b, !.y = y], y |-> y]))
      [] c.k \in {"lpf", "rhpf"} ->
            IF cnt = 0 THEN same
            ELSE IF cnt = 1 THEN
                LET bar == IF Has(c, "pat") THEN Larger(1, Scale(c.span, Bar(st))) ELSE 1
                    at == IF Has(c, "pat") THEN [j \in 1..Len(c.pat) |-> Scale(c.pat[j].t, Bar(st))] ELSE << >>
                IN Mono(Run1(st, n, LAMBDA s, i :
                    LET due == SelectSeq(Idx(Len(at)), LAMBDA j : at[j] = s.t % bar)
                        fc == IF due = << >> THEN s.fc ELSE c.pat[due[Len(due)]].v
                    IN Biquad(c.k, [s EXCEPT !.t = s.t + 1], fc, Ch(only, 1)[i])))
            ELSE LET fc == Ch(ref, 1)[1]
                     r == Mono(Run1(st, n, LAMBDA s, i :
                            Biquad(c.k, [s EXCEPT !.t = s.t + 1], fc, Ch(main, 1)[i])))
                 IN [r EXCEPT !.st.fc = st.fc]
      [] c.k = "envperc" ->
            IF cnt # 1 THEN same ELSE Mono(Run1(st, n, LAMBDA s, i : EnvStep(s, Ch(only, 1)[i])))
      [] c.k = "adsr" ->
            IF cnt # 1 THEN same ELSE Dual(Run2(st, n, LAMBDA s, i : AdsrStep(s, Ch(only, 1)[i])))
      [] c.k = "seq" ->
            LET refs == Refs(c)
                up == IF Len(ord) > Len(refs) THEN 1 ELSE 0
                src(r) == LET k == ord[up + (CHOOSE j \in 1..Len(refs) : refs[j] = r)]
                          IN IF k \in DOMAIN ins THEN Ch(ins[k], 1) ELSE Zeros(n)
            IN SeqBlock(c, st, IF up = 1 /\ cnt > 0 THEN Ch(main, 1) ELSE << >>,
                        LAMBDA r, i : src(r)[i], n)
      [] c.k = "arrange" ->
            ArrangeBlock(c, st, LAMBDA j, ch, i :
                IF ord[j] \in DOMAIN ins THEN Ch(ins[ord[j]], ch)[i] ELSE 0, n)
      [] c.k = "points" -> IF st.pts = << >> THEN same ELSE PointsBlock(c, st, n)
      [] c.k = "sp" ->
            IF cnt # 1 THEN [st |-> st, out |-> << Zeros(n), Zeros(n) >>]
            ELSE Dual(Run2(st, n, LAMBDA s, i : SamplerStep(s, Ch(only, 1)[i])))
      [] c.k = "psampler" -> PSamplerBlock(c, st, n)
      [] c.k = "psynth" -> IF cnt = 0 THEN PSynthBlock(c, st, n) ELSE same
      [] c.k = "msgsynth" -> MsgSynthBlock(c, st, n)
      [] c.k \in Instruments ->
            IF cnt # 1 THEN same
            ELSE Twice(Run1(st, n, LAMBDA s, i :
                    IF c.k \in {"bd", "sn", "hh"} THEN DrumStep(c, s, Ch(only, 1)[i])
                    ELSE SynthStep(c, s, Ch(only, 1)[i])))
      [] c.k = "plate" -> IF cnt # 1 THEN same ELSE PlateBlock(st, Ch(only, 1), n)
      [] c.k = "eval" ->
            IF st.code = << >> THEN [st |-> [st EXCEPT !.t = st.t + n,
                                             !.vars = IF cnt = 0 THEN @ ELSE ("in" :> Ch(main, 1)[n]) @@ @],
                                     out |-> << Zeros(n) >>]
            ELSE Mono(Run1(st, n, LAMBDA s, i : EvalStep(s, IF cnt = 0 THEN 0 ELSE Ch(main, 1)[i], cnt > 0)))
      [] c.k = "meta" -> MetaBlock(nd, IF cnt = 0 THEN << >> ELSE Ch(main, 1), n)
=============================================================================
