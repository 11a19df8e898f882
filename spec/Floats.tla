-------------------------------- MODULE Floats --------------------------------
(* Sums of doubles that are whole numbers, for where the specification has to   *)
(* compute them itself.                                                         *)
EXTENDS Speed

(* whole numbers as floats; up to 2^30 *)
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)

F64(n) ==
    IF n = 0 THEN W0
    ELSE LET a == IF n < 0 THEN -n ELSE n
             k == Log2(a)
             f == a - Pow2(k)                    \* k bits, to be the highest of 52
             top == IF k <= 4 THEN f * Pow2(4 - k) ELSE f \div Pow2(k - 4)
             low == IF k <= 4 THEN 0 ELSE f % Pow2(k - 4)        \* k - 4 bits of the next 16
             mid == IF k <= 20 THEN low * Pow2(20 - k) ELSE low \div Pow2(k - 20)
             end == IF k <= 20 THEN 0 ELSE (low % Pow2(k - 20)) * Pow2(36 - k)
         IN <<(IF n < 0 THEN 32768 ELSE 0) + (1023 + k) * 16 + top, mid, end, 0>>

IntOf(w) ==
    IF w = W0 THEN 0
    ELSE LET k == (w[1] % 32768) \div 16 - 1023
             a == Pow2(k) + (IF k <= 4 THEN (w[1] % 16) \div Pow2(4 - k) ELSE (w[1] % 16) * Pow2(k - 4))
                          + (IF k <= 4 THEN 0 ELSE IF k <= 20 THEN w[2] \div Pow2(20 - k) ELSE w[2] * Pow2(k - 20))
                          + (IF k <= 20 THEN 0 ELSE w[3] \div Pow2(36 - k))
         IN IF IsNeg(w) THEN -a ELSE a

FloatsOK == \A n \in {0, 1, 2, 3, 7, 15, 16, 17, 100, 255, 4095, 65535, 65537, 1048577, 2097151, 16777215, 1000000000} :
               IntOf(F64(n)) = n /\ IntOf(F64(-n)) = -n
ASSUME FloatsOK
ASSUME F64(1) = <<16368, 0, 0, 0>> /\ F64(-2) = <<49152, 0, 0, 0>> /\ F64(100) = <<16473, 0, 0, 0>> /\ F64(1000003) = <<16686, 33926, 0, 0>>

WithSum(s, o) ==
    LET m == s.met[o.m] IN
    IF m.kind \in {"gauge", "gvec"} /\ o.f \in {"Inc", "Dec"} /\ o.i \in DOMAIN m.vals
    THEN LET cur == m.vals[o.i].w
             d == IF o.f = "Inc" THEN IntOf(o.v.w) ELSE -IntOf(o.v.w)
         IN [o EXCEPT !.sums = <<[i |-> o.i, p |-> cur, s |-> F64(IntOf(cur) + d), dy |-> FALSE]>>]
    ELSE o
=============================================================================
