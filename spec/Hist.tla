-------------------------------- MODULE Hist --------------------------------
(* Statistics of recorded values, and the precision within which a histogram  *)
(* has to report them. All numbers are in units of q, a power of two that     *)
(* keeps them small: h = [low, high, sig, q, bag], bag a function from value  *)
(* to count. Means and deviations are given in quarters of a unit.            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + SumOver(f, D \ {x})

Count(h) == SumOver(h.bag, DOMAIN h.bag)
Sum(h)   == SumOver([v \in DOMAIN h.bag |-> v * h.bag[v]], DOMAIN h.bag)
Sq(h)    == SumOver([v \in DOMAIN h.bag |-> v * v * h.bag[v]], DOMAIN h.bag)

Record(h, v, n) ==
    IF n = 0 THEN h
    ELSE [h EXCEPT !.bag = [x \in DOMAIN h.bag \cup {v} |->
                            (IF x \in DOMAIN h.bag THEN h.bag[x] ELSE 0) + (IF x = v THEN n ELSE 0)]]

LOCAL Ten(n) == CASE n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] OTHER -> 100000
LOCAL Larger(a, b) == IF a > b THEN a ELSE b

(* the allowed error for a value *)
Tol(h, v) ==
    IF h.q = 1 /\ h.low <= 1 /\ v < 2 * Ten(h.sig) THEN 0
    ELSE Larger(h.low, v \div Ten(h.sig) + 1) + (IF h.q > 1 THEN 1 ELSE 0)

LOCAL MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
LOCAL MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x

TolMax(h) == MaxOf({Tol(h, v) : v \in DOMAIN h.bag})

MinOK(h, m) == IF Count(h) = 0 THEN m = 0
               ELSE LET v == MinOf(DOMAIN h.bag) IN Abs(m - v) <= Tol(h, v)
\* with nothing recorded it is 0, which with a lower bound above 1 is a range
MaxOK(h, m) == IF Count(h) = 0 THEN m >= 0 /\ m <= (IF h.low > 1 \/ h.q > 1 THEN h.low ELSE 0)
               ELSE LET v == MaxOf(DOMAIN h.bag) IN Abs(m - v) <= Tol(h, v)

(* m4: four times the mean, rounded *)
MeanOK(h, m4) ==
    IF Count(h) = 0 THEN m4 = 0
    ELSE IF Cardinality(DOMAIN h.bag) = 1
         THEN LET v == MaxOf(DOMAIN h.bag) IN Abs(m4 - 4 * v) <= 4 * Tol(h, v) + 1
    ELSE LET n == Count(h) IN Abs(m4 * n - 4 * Sum(h)) <= n * (4 * TolMax(h) + 1)

LOCAL Spread(h) == (Count(h) * Sq(h) - Sum(h) * Sum(h)) \div (Count(h) * Count(h))

DevOK(h, s4) ==
    IF Count(h) = 0 \/ Cardinality(DOMAIN h.bag) = 1 THEN s4 = 0
    ELSE LET d == 4 * TolMax(h) + 2
             a == s4 + d
             b == Larger(0, s4 - d)
         IN (a * a) \div 16 + 1 >= Spread(h) /\ (b * b) \div 16 <= Spread(h) + 1

(* v4: four times the variance; the square of a deviation that is right *)
VarOK(h, s4, v4) ==
    LET a == s4 + 1  b == Larger(0, s4 - 1)
    IN v4 <= (a * a) \div 4 + 1 /\ v4 >= (b * b) \div 4 - 1

(* f: the mean in parts of 1/k and the variance in parts of 1/kv, where nothing
   of what was recorded is rounded *)
FineOK(h, f) ==
    LET n == Count(h) IN
    (f.k > 0 /\ n > 0 /\ TolMax(h) = 0) =>
        /\ Abs(f.m * n - f.k * Sum(h)) <= n
        /\ f.kv > 0 => Abs(f.v * n * n - f.kv * (n * Sq(h) - Sum(h) * Sum(h))) <= n * n

(* the recorded value with rank k, 1..Count *)
RECURSIVE RankIn(_, _, _)
RankIn(h, D, k) ==
    LET v == MinOf(D) IN
    IF k <= h.bag[v] \/ Cardinality(D) = 1 THEN v ELSE RankIn(h, D \ {v}, k - h.bag[v])

(* p10: ten times the percentile; either neighbour of the exact rank will do *)
PercentileOK(h, p10, r) ==
    LET n == Count(h) IN
    IF n = 0 THEN r = 0
    ELSE LET x  == (p10 * n) \div 1000
             k1 == IF x < 1 THEN 1 ELSE x
             k2 == IF x + 1 > n THEN n ELSE x + 1
         IN \E v \in {RankIn(h, DOMAIN h.bag, k1), RankIn(h, DOMAIN h.bag, k2)} : Abs(r - v) <= Tol(h, v)

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
=============================================================================
