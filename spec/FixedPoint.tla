----------------------------- MODULE FixedPoint -----------------------------
(***************************************************************************)
(* Fixed-point arithmetic for signal values.  A real number x is the       *)
(* integer x*S.  TLC integers have 32 bits, so products are computed in     *)
(* pieces; signals are kept within +-Cap (see Sat).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

S == 65536
Cap == 64 * S            \* signals beyond this make a behaviour inconclusive
SatMax == 8355840

Abs(x) == IF x < 0 THEN -x ELSE x
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
Clip(x, lo, hi) == Larger(lo, Smaller(hi, x))
Sat(x) == Clip(x, -SatMax, SatMax)

\* a*b rounded, for |a| <= SatMax and |b| <= 64*S
FMul(a, b) == a * (b \div S) + (a * ((b % S) \div 256) + (a * (b % 256)) \div 256 + 128) \div 256

\* a/b for 0 < b < 2^23
FDiv(a, b) ==
    LET m == Abs(a)
        r == m % b
        q1 == (r * 256) \div b
        r1 == (r * 256) % b
        q2 == (r1 * 256) \div b
        q == (m \div b) * S + q1 * 256 + q2
    IN IF a < 0 THEN -q ELSE q

\* floor(a*n/S) for 0 <= a and 0 <= n < 2^22: a duration a (fixed point) in units of 1/n
Scale(a, n) ==
    (a \div S) * n + (((a % S) \div 256) * n + ((a % 256) * n) \div 256) \div 256

\* floor of a duration of ms milliseconds (fixed point) in samples
MsToN(ms, sr) == (((ms \div S) * sr) + Scale(ms % S, sr)) \div 1000

\* sin(2*pi*x): a quarter of the wave in 256 steps, interpolated
SinTable == <<
    0, 402, 804, 1206, 1608, 2010, 2412, 2814, 3216, 3617, 4019, 4420, 4821, 5222, 5623, 6023,
    6424, 6824, 7224, 7623, 8022, 8421, 8820, 9218, 9616, 10014, 10411, 10808, 11204, 11600,
    11996, 12391, 12785, 13180, 13573, 13966, 14359, 14751, 15143, 15534, 15924, 16314, 16703,
    17091, 17479, 17867, 18253, 18639, 19024, 19409, 19792, 20175, 20557, 20939, 21320, 21699,
    22078, 22457, 22834, 23210, 23586, 23961, 24335, 24708, 25080, 25451, 25821, 26190, 26558,
    26925, 27291, 27656, 28020, 28383, 28745, 29106, 29466, 29824, 30182, 30538, 30893, 31248,
    31600, 31952, 32303, 32652, 33000, 33347, 33692, 34037, 34380, 34721, 35062, 35401, 35738,
    36075, 36410, 36744, 37076, 37407, 37736, 38064, 38391, 38716, 39040, 39362, 39683, 40002,
    40320, 40636, 40951, 41264, 41576, 41886, 42194, 42501, 42806, 43110, 43412, 43713, 44011,
    44308, 44604, 44898, 45190, 45480, 45769, 46056, 46341, 46624, 46906, 47186, 47464, 47741,
    48015, 48288, 48559, 48828, 49095, 49361, 49624, 49886, 50146, 50404, 50660, 50914, 51166,
    51417, 51665, 51911, 52156, 52398, 52639, 52878, 53114, 53349, 53581, 53812, 54040, 54267,
    54491, 54714, 54934, 55152, 55368, 55582, 55794, 56004, 56212, 56418, 56621, 56823, 57022,
    57219, 57414, 57607, 57798, 57986, 58172, 58356, 58538, 58718, 58896, 59071, 59244, 59415,
    59583, 59750, 59914, 60075, 60235, 60392, 60547, 60700, 60851, 60999, 61145, 61288, 61429,
    61568, 61705, 61839, 61971, 62101, 62228, 62353, 62476, 62596, 62714, 62830, 62943, 63054,
    63162, 63268, 63372, 63473, 63572, 63668, 63763, 63854, 63944, 64031, 64115, 64197, 64277,
    64354, 64429, 64501, 64571, 64639, 64704, 64766, 64827, 64884, 64940, 64993, 65043, 65091,
    65137, 65180, 65220, 65259, 65294, 65328, 65358, 65387, 65413, 65436, 65457, 65476, 65492,
    65505, 65516, 65525, 65531, 65535, 65536
  >>
QuarterSin(p) ==          \* p in 0..S/4
    LET i == p \div 64
        f == p % 64
    IN IF f = 0 THEN SinTable[i + 1]
       ELSE SinTable[i + 1] + ((SinTable[i + 2] - SinTable[i + 1]) * f + 32) \div 64
FSin(x) ==
    LET p == x % S
        q == S \div 4
    IN CASE p <= q -> QuarterSin(p)
         [] p <= 2 * q -> QuarterSin(2 * q - p)
         [] p <= 3 * q -> -QuarterSin(p - 2 * q)
         [] OTHER -> -QuarterSin(4 * q - p)
FCos(x) == FSin(x + S \div 4)

\* 2^((m - 60)/12) for an integer m
SemiTable == <<
    65536, 69433, 73562, 77936, 82570, 87480, 92682, 98193, 104032, 110218, 116772, 123715 
  >>
Pow2(n) == 2 ^ n
MidiRatio(m) ==
    LET o == (m - 60) \div 12
        v == SemiTable[((m - 60) % 12) + 1]
    IN IF o >= 0 THEN v * Pow2(o) ELSE v \div Pow2(-o)

\* exp(-2*pi*r) for a fixed-point r >= 0; entry k is for r = 2^(k-1)/S
ExpTable == <<
    65530, 65523, 65511, 65486, 65436, 65335, 65135, 64737, 63947, 62397, 59408, 53853, 
    44252, 29880, 13624, 2832, 122, 0 
  >>
ExpNeg2Pi(r) ==
    IF r >= 4 * S THEN 0
    ELSE FoldLeft(LAMBDA acc, k : IF (r \div Pow2(k - 1)) % 2 = 1 THEN FMul(acc, ExpTable[k]) ELSE acc,
                  S, [k \in 1..18 |-> k])

\* square root of a fixed-point number in [0, 1]
RECURSIVE ISqrt(_, _, _)
ISqrt(x, lo, hi) ==
    IF hi - lo <= 1 THEN lo
    ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN ISqrt(x, m, hi) ELSE ISqrt(x, lo, m)
FSqrt(x) == 2 * ISqrt(x * 16384, 0, 32769)
=============================================================================
