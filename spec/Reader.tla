------------------------------- MODULE Reader -------------------------------
(* Reading the MMV format, from the bytes: what a file says, when it is         *)
(* well-formed, and when a reader has to refuse it. A file is a sequence of     *)
(* bytes; integers of it are little-endian, 32-bit ones are two 16-bit limbs,   *)
(* 64-bit ones four, the most significant first.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

R(s) == {s[i] : i \in DOMAIN s}
At8(b, o) == b[o + 1]
L1(b, o) == b[o + 2] * 256 + b[o + 1]
L2(b, o) == <<L1(b, o + 2), L1(b, o)>>
L4(b, o) == <<L1(b, o + 6), L1(b, o + 4), L1(b, o + 2), L1(b, o)>>
Zero4 == <<0, 0, 0, 0>>

(* the integer of a word, -1 if it is too large to be an offset or a count *)
Nat4(w) == IF w[1] = 0 /\ w[2] = 0 /\ w[3] < 16384 THEN w[3] * 65536 + w[4] ELSE -1
Nat2(w) == IF w[1] < 16384 THEN w[1] * 65536 + w[2] ELSE -1

HeaderLen == 40   TocLen == 16
Kinds == 1..5        \* indoms, instances, metrics, values, strings
LenOf(t, ver) == CASE t = 1 -> 32 [] t = 2 -> (IF ver = 1 THEN 80 ELSE 24) [] t = 3 -> (IF ver = 1 THEN 104 ELSE 48)
                   [] t = 4 -> 32 [] t = 5 -> 256

(* a text ends at its zeros *)
Text(b, o, n) ==
    LET k == CHOOSE k \in 0..n : (k = 0 \/ b[o + k] # 0) /\ \A j \in (k + 1)..n : b[o + j] = 0
    IN SubSeq(b, o + 1, o + k)

Header(b) == [ver |-> L2(b, 4), g |-> L4(b, 8), g2 |-> L4(b, 16), ntoc |-> L2(b, 24), flag |-> L2(b, 28),
              pid |-> L2(b, 32), cluster |-> L2(b, 36)]

Ver(b) == L2(b, 4)[2]
NToc(b) == Nat2(L2(b, 24))
Tocs(b) == TLCEval([i \in 1..NToc(b) |-> LET p == HeaderLen + TocLen * (i - 1) IN
              [t |-> L2(b, p), c |-> L2(b, p + 4), o |-> L4(b, p + 8)]])

Kind(t) == IF t.t[1] = 0 /\ t.t[2] \in Kinds THEN t.t[2] ELSE 0
Fits(b, t) ==
    LET c == Nat2(t.c)  o == Nat4(t.o)  n == Len(b) IN
    c # -1 /\ o # -1 /\ o <= n /\ c <= n /\ o + c * LenOf(Kind(t), Ver(b)) <= n

HeaderBad(b) == \/ Len(b) < HeaderLen
                \/ SubSeq(b, 1, 3) # <<77, 77, 86>>
                \/ L4(b, 8) # L4(b, 16)
                \/ L2(b, 4) \notin {<<0, 1>>, <<0, 2>>}
                \/ NToc(b) = -1
                \/ NToc(b) > Len(b)
                \/ HeaderLen + TocLen * NToc(b) > Len(b)

MustReject(b) == \/ HeaderBad(b)
                 \/ \E t \in R(Tocs(b)) : Kind(t) # 0 /\ ~Fits(b, t)

(* can its items be told: the sections are known, each there once *)
Readable(b) == /\ ~MustReject(b)
               /\ LET ts == Tocs(b) IN
                  /\ \A i \in DOMAIN ts : Kind(ts[i]) # 0
                  /\ \A i, j \in DOMAIN ts : i # j => Kind(ts[i]) # Kind(ts[j])

(* the offsets of the items of a kind, in order *)
Offs(b, k) ==
    LET s == {t \in R(Tocs(b)) : Kind(t) = k} IN
    IF s = {} THEN <<>>
    ELSE LET t == CHOOSE x \in s : TRUE IN TLCEval([i \in 1..Nat2(t.c) |-> Nat4(t.o) + (i - 1) * LenOf(k, Ver(b))])

IndomAt(b, o) == [o |-> o, serial |-> L2(b, o), count |-> L2(b, o + 4), off |-> L4(b, o + 8), short |-> L4(b, o + 16), long |-> L4(b, o + 24)]

InstAt(b, o) ==
    [o |-> o, indom |-> L4(b, o), pad |-> L2(b, o + 8), internal |-> L2(b, o + 12),
     name |-> IF Ver(b) = 1 THEN Text(b, o + 16, 64) ELSE <<>>,
     noff |-> IF Ver(b) = 1 THEN Zero4 ELSE L4(b, o + 16)]

MetricAt(b, o) ==
    LET q == o + (IF Ver(b) = 1 THEN 64 ELSE 8) IN
    [o |-> o, name |-> IF Ver(b) = 1 THEN Text(b, o, 64) ELSE <<>>, noff |-> IF Ver(b) = 1 THEN Zero4 ELSE L4(b, o),
     item |-> L2(b, q), typ |-> L2(b, q + 4), sem |-> L2(b, q + 8), unit |-> L2(b, q + 12), indom |-> L2(b, q + 16),
     pad |-> L2(b, q + 20), short |-> L4(b, q + 24), long |-> L4(b, q + 32)]

ValueAt(b, o) == [o |-> o, val |-> L4(b, o), extra |-> L4(b, o + 8), metric |-> L4(b, o + 16), inst |-> L4(b, o + 24)]

StringAt(b, o) == [o |-> o, s |-> Text(b, o, 256)]

(* what the file says *)
Contents(b) ==
    LET Map(k, Op(_, _)) == LET s == Offs(b, k) IN TLCEval([i \in DOMAIN s |-> Op(b, s[i])]) IN
    [indoms |-> Map(1, IndomAt), insts |-> Map(2, InstAt), metrics |-> Map(3, MetricAt), values |-> Map(4, ValueAt), strings |-> Map(5, StringAt)]

-----------------------------------------------------------------------------
NoIndom == <<65535, 65535>>
NoIndom0 == <<0, 0>>
StringT == <<0, 6>>
Types == {<<0, t>> : t \in 0..6}

Resolves(w, s) == Nat4(w) # -1 /\ Nat4(w) \in s
TextResolves(w, s) == w = Zero4 \/ Resolves(w, s)

(* every reference leads to an item *)
RefsOK(b) ==
    LET c == Contents(b)
        O(k) == R(Offs(b, k))
        io == O(1)  no == O(2)  mo == O(3)  so == O(5)  v == Ver(b) IN
    /\ \A x \in R(c.indoms) : TextResolves(x.short, so) /\ TextResolves(x.long, so)
    /\ \A x \in R(c.insts) : Resolves(x.indom, io) /\ (v = 2 => Resolves(x.noff, so))
    /\ \A x \in R(c.metrics) : TextResolves(x.short, so) /\ TextResolves(x.long, so) /\ (v = 2 => Resolves(x.noff, so)) /\ x.typ \in Types
    /\ \A x \in R(c.values) : /\ Resolves(x.metric, mo)
                              /\ LET m == CHOOSE y \in R(c.metrics) : y.o = Nat4(x.metric) IN
                                 /\ m.typ = StringT => Resolves(x.extra, so)
                                 /\ m.indom \notin {NoIndom, NoIndom0} => Resolves(x.inst, no)

(* sections that do not overlap each other or what is before them, on words *)
Disjoint(b) ==
    LET ts == {t \in R(Tocs(b)) : t.c # <<0, 0>>}
        End(t) == Nat4(t.o) + Nat2(t.c) * LenOf(Kind(t), Ver(b)) IN
    /\ \A t \in ts : Nat4(t.o) >= HeaderLen + TocLen * NToc(b) /\ Nat4(t.o) % 8 = 0
    /\ \A t, u \in ts : t = u \/ End(t) <= Nat4(u.o) \/ End(u) <= Nat4(t.o)

(* the scales of units that have a name: space and time have seven and six, count one *)
ScalesOK(b) == \A x \in R(Contents(b).metrics) :
    LET hi == x.unit[1]  lo == x.unit[2] IN hi % 16 <= 6 /\ lo \div 4096 <= 5 /\ (lo \div 256) % 16 = 0

WellFormed(b) == Readable(b) /\ At8(b, 3) = 0 /\ Disjoint(b) /\ RefsOK(b) /\ ScalesOK(b)

-----------------------------------------------------------------------------
(* the value of a word by type: [k |-> kind, w |-> word] *)
SignExt(w) == IF w[3] >= 32768 THEN <<65535, 65535, w[3], w[4]>> ELSE <<0, 0, w[3], w[4]>>
NaN64(w) == w[1] % 32768 >= 32752 /\ ~(w[1] % 16 = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0)
NaN32(w) == w[3] % 32768 >= 32640 /\ ~(w[3] % 128 = 0 /\ w[4] = 0)
NaN == <<32767, 65535, 65535, 65535>>
Typed(t, w) ==
    CASE t = 0 -> [k |-> "int32", w |-> SignExt(w)]
      [] t = 1 -> [k |-> "uint32", w |-> <<0, 0, w[3], w[4]>>]
      [] t = 2 -> [k |-> "int64", w |-> w]
      [] t = 3 -> [k |-> "uint64", w |-> w]
      [] t = 4 -> [k |-> "float32", w |-> IF NaN32(w) THEN NaN ELSE <<0, 0, w[3], w[4]>>]
      [] t = 5 -> [k |-> "float64", w |-> IF NaN64(w) THEN NaN ELSE w]
      [] OTHER -> [k |-> "", w |-> Zero4]
=============================================================================
