------------------------------ MODULE Float32 ------------------------------
(* Which 32-bit float a decimal literal denotes: the nearest one, ties to    *)
(* the even significand (IEEE 754).  Decided exactly, with big naturals      *)
(* (little-endian sequences of base-10000 limbs).                            *)
(*                                                                           *)
(* A finite float is <<neg, m, e>>: (-1)^neg * m * 2^e with 2^23 <= m < 2^24, *)
(* or e = -149 and m < 2^23 (zero included; its sign is not looked at).      *)
EXTENDS Integers, Sequences, SequencesExt, TLC

BASE == 10000

Strip(a) == IF \A i \in DOMAIN a : a[i] = 0 THEN <<>>
            ELSE SubSeq(a, 1, CHOOSE i \in DOMAIN a : a[i] # 0 /\ \A j \in (i + 1)..Len(a) : a[j] = 0)

\* a * n, for 0 <= n <= 2^16
Mul(a, n) ==
    LET step(acc, x) == LET y == x * n + acc.c IN [c |-> y \div BASE, out |-> Append(acc.out, y % BASE)]
        r == FoldLeft(step, [c |-> 0, out |-> <<>>], a)
    IN r.out \o <<r.c % BASE, r.c \div BASE>>

RECURSIVE Pow2(_, _)
Pow2(a, k) == IF k = 0 THEN a ELSE IF k >= 16 THEN Pow2(TLCEval(Mul(a, 65536)), k - 16) ELSE Mul(a, 2 ^ k)

Pow10(a, k) == LET b == Mul(a, 10 ^ (k % 4)) IN [i \in 1..(k \div 4) |-> 0] \o b

Cmp(a0, b0) ==
    LET a == TLCEval(Strip(a0))
        b == TLCEval(Strip(b0))
    IN IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
       ELSE IF a = b THEN 0
       ELSE LET i == CHOOSE i \in DOMAIN a : a[i] # b[i] /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]
            IN IF a[i] < b[i] THEN -1 ELSE 1

\* decimal digits, most significant first
OfDigits(ds) ==
    LET n == Len(ds)
        d(i) == IF i >= 1 THEN ds[i] ELSE 0
    IN [k \in 1..((n + 3) \div 4) |->
            LET e == n - 4 * (k - 1) IN d(e) + 10 * d(e - 1) + 100 * d(e - 2) + 1000 * d(e - 3)]
OfInt(n) == <<n % BASE, (n \div BASE) % BASE, n \div (BASE * BASE)>>

Max0(n) == IF n > 0 THEN n ELSE 0

(* compare digits * 10^x with n * 2^y *)
CmpDec(ds, x, n, y) ==
    Cmp(Pow2(Pow10(OfDigits(ds), Max0(x)), Max0(-y)),
        Pow2(Pow10(OfInt(n), Max0(-x)), Max0(y)))

LeadingZeros(ds) == IF \A i \in DOMAIN ds : ds[i] = 0 THEN Len(ds)
                    ELSE (CHOOSE i \in DOMAIN ds : ds[i] # 0 /\ \A j \in 1..(i - 1) : ds[j] = 0) - 1

(* digits * 10^x (x may be any integer) is nearest to the finite m * 2^e, *)
(* or, with inf, rounds to infinity.                                      *)
NearestTo(ds0, x, m, e) ==
    LET ds == SubSeq(ds0, LeadingZeros(ds0) + 1, Len(ds0)) IN
    IF ds = <<>> THEN m = 0
    ELSE IF Len(ds) + x > 60 THEN FALSE
    ELSE IF Len(ds) + x < -60 THEN m = 0
    ELSE LET even == m % 2 = 0
             up == CmpDec(ds, x, 2 * m + 1, e - 1)
             \* below a power of two the gap to the next smaller float is half as wide
             narrow == m = 8388608 /\ e > -149
             down == IF m = 0 THEN 1 ELSE IF narrow THEN CmpDec(ds, x, 4 * m - 1, e - 2) ELSE CmpDec(ds, x, 2 * m - 1, e - 1)
         IN /\ up < 0 \/ (up = 0 /\ even)
            /\ down > 0 \/ (down = 0 /\ even)

Overflows(ds0, x) ==
    LET ds == SubSeq(ds0, LeadingZeros(ds0) + 1, Len(ds0)) IN
    IF ds = <<>> THEN FALSE
    ELSE IF Len(ds) + x > 60 THEN TRUE
    ELSE IF Len(ds) + x < 30 THEN FALSE
    ELSE CmpDec(ds, x, 33554431, 103) >= 0    \* max + half a gap = (2^25 - 1) * 2^103

IsFloat32(neg, m, e) ==
    /\ neg \in {0, 1}
    /\ \/ m >= 8388608 /\ m < 16777216 /\ e >= -149 /\ e <= 104
       \/ m >= 0 /\ m < 8388608 /\ e = -149
=============================================================================
