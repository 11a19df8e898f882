----------------------------- MODULE ReaderTrace -----------------------------
(* Runs of the dump package on files, against Reader: each line has the bytes,  *)
(* what Dump gave, FixedVal for every value, and the printed form, cut into     *)
(* its items.                                                                   *)
EXTENDS Reader, Json, IOUtils, TLC
U == INSTANCE Units

Raw == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
B(lab, ok) == IF ok THEN {} ELSE {lab}
Has(e, f) == f \in DOMAIN e

(* printed texts are compared without their zeros, and only if they have neither *)
(* zeros nor line ends within                                                    *)
Plain(s) == \A i \in DOMAIN s : s[i] \notin {0, 10}
Printable(b) == LET c == Contents(b) IN
    /\ \A x \in R(c.strings) : Plain(x.s)
    /\ Ver(b) = 1 => (\A x \in R(c.insts) : Plain(x.name)) /\ (\A x \in R(c.metrics) : Plain(x.name))

(* results of Dump *)
DumpBad(e, b) ==
    IF e.r # "ok" THEN {}
    ELSE LET h == Header(b) IN
         B("dump-header", /\ e.head = [ver |-> h.ver, g |-> h.g, g2 |-> h.g2, ntoc |-> h.ntoc, flag |-> h.flag, pid |-> h.pid, cluster |-> h.cluster]
                          /\ e.tocs = Tocs(b))
         \cup (IF ~Readable(b) THEN {}
               ELSE LET c == Contents(b) IN
                    B("dump-items", /\ e.indoms = c.indoms /\ e.insts = c.insts /\ e.metrics = c.metrics
                                    /\ e.values = c.values /\ e.strings = c.strings))
         \cup (IF ~WellFormed(b) THEN {}
               ELSE B("dump-typed", \A x \in R(e.typed) :
                       LET v == ValueAt(b, x.o)
                           t == MetricAt(b, Nat4(v.metric)).typ[2]
                           y == Typed(t, v.val) IN
                       IF t = 6 THEN x.k = "err" ELSE x.k = y.k /\ x.w = y.w))

(* the printed form of a well-formed file *)
TextIs(x, b, w) == IF w = Zero4 THEN ~x.has ELSE x.has /\ x.s = StringAt(b, Nat4(w)).s
NameOf(b, x) == IF Ver(b) = 1 THEN x.name ELSE StringAt(b, Nat4(x.noff)).s

UnitIs(x, w) == x = U!Shown(U!Decode(w))

Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
After(p, s) == SubSeq(s, Len(p) + 1, Len(s))

PrintedIndom(x, b, o) ==
    LET d == IndomAt(b, o) IN
    /\ x.k = "indom" /\ x.o = o /\ x.serial = d.serial /\ x.count = d.count /\ x.off = d.off
    /\ TextIs(x.short, b, d.short) /\ TextIs(x.long, b, d.long)

PrintedInst(x, b, o) ==
    LET i == InstAt(b, o) IN
    /\ x.k = "inst" /\ x.o = o /\ x.serial = IndomAt(b, Nat4(i.indom)).serial
    /\ x.internal = i.internal /\ x.name = NameOf(b, i)

PrintedMetric(x, b, o) ==
    LET m == MetricAt(b, o) IN
    /\ x.k = "metric" /\ x.o = o /\ x.item = m.item /\ x.name = NameOf(b, m)
    /\ x.typ = m.typ /\ x.tname \in {-1, m.typ[2]} /\ x.sem = m.sem /\ x.sname \in {-1, m.sem[2]} /\ x.pad = m.pad
    /\ UnitIs(x.unit, m.unit)
    /\ IF m.indom = NoIndom THEN ~x.ind.has ELSE x.ind.has /\ x.ind.v = m.indom
    /\ TextIs(x.short, b, m.short) /\ TextIs(x.long, b, m.long)

(* rest: what is printed after the numbers of a value; its name, its instance in
   brackets, " = " and the value; pre is the part before the last " = ", for
   values that are numbers, num what this number is, by type *)
PrintedValue(x, b, o) ==
    LET v == ValueAt(b, o)
        m == MetricAt(b, Nat4(v.metric))
        n == NameOf(b, m)
        s0 == x.rest
        s1 == After(n, s0)
        inst == m.indom \notin {NoIndom, NoIndom0}
        i == InstAt(b, Nat4(v.inst))
        in == NameOf(b, i)
        head == <<91>> \o x.idec \o <<32, 111, 114, 32, 34>>       \* [N or "
        s2 == IF inst THEN After(head, s1) ELSE s1
        s3 == IF inst THEN After(in, s2) ELSE s2
        tl == IF inst THEN <<34, 93, 32, 61, 32>> ELSE <<32, 61, 32>>  \* "] = 
        s4 == After(tl, s3)
    IN /\ x.k = "value" /\ x.o = o /\ x.item = m.item
       /\ Prefix(n, s0)
       /\ inst => x.iid = i.internal /\ Prefix(head, s1) /\ Prefix(in, s2)
       /\ Prefix(tl, s3)
       /\ IF m.typ = StringT THEN s4 = StringAt(b, Nat4(v.extra)).s
          ELSE LET y == Typed(m.typ[2], v.val)
                   q == CHOOSE z \in R(x.num) : z.k = y.k IN
               s4 = x.last /\ (\E z \in R(x.num) : z.k = y.k) /\ q.w = y.w

PrintedString(x, b, o) == x.k = "string" /\ x.o = o /\ x.s = StringAt(b, o).s

PrintBad(e, b) ==
    LET h == Header(b)  p == e.print  ts == Tocs(b) IN
    B("print-header", p.head = [ver |-> h.ver, g |-> h.g, ntoc |-> h.ntoc, flag |-> h.flag, pid |-> h.pid, cluster |-> h.cluster])
    \cup B("print-toc", /\ Len(p.secs) = Len(ts)
                        /\ \A i \in DOMAIN ts : /\ p.secs[i].i = i - 1 /\ p.secs[i].at = HeaderLen + TocLen * (i - 1)
                                                /\ p.secs[i].kind = Kind(ts[i]) /\ p.secs[i].off = ts[i].o /\ p.secs[i].c = ts[i].c)
    \cup (IF Len(p.secs) # Len(ts) THEN {}
          ELSE B("print-items", \A i \in DOMAIN ts :
                 LET os == Offs(b, Kind(ts[i]))  xs == p.secs[i].items IN
                 /\ Len(xs) = Len(os)
                 /\ \A k \in DOMAIN os :
                      CASE Kind(ts[i]) = 1 -> PrintedIndom(xs[k], b, os[k])
                        [] Kind(ts[i]) = 2 -> PrintedInst(xs[k], b, os[k])
                        [] Kind(ts[i]) = 3 -> PrintedMetric(xs[k], b, os[k])
                        [] Kind(ts[i]) = 4 -> PrintedValue(xs[k], b, os[k])
                        [] Kind(ts[i]) = 5 -> PrintedString(xs[k], b, os[k])))

Bad(e) ==
    LET b == e.b
        rej == MustReject(b)
        wf == WellFormed(b)
        pok == e.w = "ok" /\ Has(e, "print")
    IN B("dump-modifies", e.kept) \cup B("print-cut", e.cut \in {"none", "err"}) \cup B("dump-crash", e.r \in {"ok", "err"}) \cup B("print-crash", e.w \in {"ok", "err", "none"})
       \cup (IF rej THEN B("dump-accept", e.r # "ok") ELSE {})
       \cup (IF wf THEN B("dump-reject", e.r = "ok") \cup (IF e.r = "ok" THEN B("print-refuse", e.w = "ok") ELSE {}) ELSE {})
       \cup DumpBad(e, b)
       \cup (IF wf /\ pok /\ Printable(b) THEN PrintBad(e, b) ELSE {})
       \cup (IF e.cli = "none" THEN {} ELSE B("dump-cli", e.cli = (IF e.r = "ok" /\ e.w = "ok" THEN "same" ELSE "err")))

Class(e) == IF MustReject(e.b) THEN "reject" ELSE IF WellFormed(e.b) THEN "wellformed" ELSE "other"

Init == l = 2
Next == /\ l <= Len(Raw) /\ l' = l + 1
        /\ LET e == Raw[l] IN
           /\ PrintT(<<"CLASS", Class(e), e.r, e.w>>)
           /\ \A x \in Bad(e) : PrintT(<<"BAD", x, l, 0>>)
Spec == Init /\ [][Next]_l
Done == l > Len(Raw) => PrintT(<<"DONE", l - 2>>)
=============================================================================
