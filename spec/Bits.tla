-------------------------------- MODULE Bits --------------------------------
(* Machine integers for TLC, whose own integers have 32 bits: a 64-bit word is *)
(* a sequence of four 16-bit limbs, the most significant one first.            *)
EXTENDS Integers, Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE SequencesExt

LOCAL B == 65536

W0 == <<0, 0, 0, 0>>
WMaxI64 == <<32767, 65535, 65535, 65535>>
WMinI64 == <<32768, 0, 0, 0>>
WMaxU64 == <<65535, 65535, 65535, 65535>>

Word(n) ==                        \* of a TLC integer, with sign
    IF n >= 0 THEN <<0, 0, n \div B, n % B>>
    ELSE LET m == -(n + 1) IN
         <<65535, 65535, 65535 - (m \div B), 65535 - (m % B)>>

(* unsigned comparison *)
ULt(a, b) ==
    \/ a[1] < b[1]
    \/ a[1] = b[1] /\ a[2] < b[2]
    \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
    \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
ULe(a, b) == a = b \/ ULt(a, b)

IsNeg(a) == a[1] >= 32768

(* comparison in two's complement *)
SLt(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE ULt(a, b)
SLe(a, b) == a = b \/ SLt(a, b)

(* addition modulo 2^64 *)
Add(a, b) ==
    LET s4 == a[4] + b[4]
        s3 == a[3] + b[3] + (s4 \div B)
        s2 == a[2] + b[2] + (s3 \div B)
        s1 == a[1] + b[1] + (s2 \div B)
    IN <<s1 % B, s2 % B, s3 % B, s4 % B>>

Inv(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
Neg(a) == Add(Inv(a), <<0, 0, 0, 1>>)

(* does a + b, for two's complement numbers, stay in range *)
SAddFits(a, b) ==
    LET s == Add(a, b) IN ~(IsNeg(a) = IsNeg(b) /\ IsNeg(s) # IsNeg(a))

Low32(a) == <<0, 0, a[3], a[4]>>

(* the little-endian bytes of the n least significant bytes, n in {1, 2, 4, 8} *)
LEBytes(a, n) ==
    [i \in 1..n |-> LET limb == a[4 - ((i - 1) \div 2)] IN
                    IF i % 2 = 1 THEN limb % 256 ELSE limb \div 256]

-----------------------------------------------------------------------------
(* FNV-1a with 32 bits, as two limbs <<hi, lo>>; the prime is 2^24 + 403 *)
LOCAL FnvStep(h, byte) ==
    LET lo == h[2] ^^ byte
        hi == h[1]
        p  == lo * 403
        l2 == p % B
        h2 == (hi * 403 + (p \div B) + (lo % 256) * 256) % B
    IN <<h2, l2>>

Fnv(bytes) == FoldLeft(FnvStep, <<33052, 40389>>, bytes)    \* 0x811C9DC5

(* the n least significant bits of two limbs *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

Cut(h, n) ==
    IF n >= 32 THEN h
    ELSE IF n >= 16 THEN <<h[1] % Pow2(n - 16), h[2]>>
    ELSE <<0, h[2] % Pow2(n)>>
=============================================================================
