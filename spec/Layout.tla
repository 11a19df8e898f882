------------------------------- MODULE Layout -------------------------------
(* The MMV file: what a well-formed image is, and what it says.               *)
(*                                                                            *)
(* An image is the record of what lies in the file by the record formats of   *)
(* MMV 1 and 2, read without any judgement:                                    *)
(*  size, rep    length of the file, length reported by the client             *)
(*  magic, ver, gz (generation is zero), geq (generations are equal),          *)
(*  ntoc, flag, pid, cluster <<hi, lo>>                                        *)
(*  tocs   sequence of [t, c, o]                                               *)
(*  indoms [o, id <<hi, lo>>, c, io, so, lo]                                   *)
(*  insts  [o, d, pad, id <<hi, lo>>, n, no]  n: symbol of the name in the     *)
(*         record (format 1), no: offset of the name (format 2)                *)
(*  metrics [o, n, no, id, t, sem, u <<hi, lo>>, ind <<hi, lo>>, pad, so, lo]  *)
(*  vals   [o, w, x, m, i]  slot word, extra, metric and instance offset       *)
(*  strs   [o, s]                                                              *)
(*  slack  TRUE iff the bytes after the end of every text are zero             *)
(* Offsets and counts that are negative or do not fit are -1 (-2 for the extra *)
(* word if it is not an offset).                                               *)
EXTENDS Integers, Sequences, FiniteSets

HeaderLen == 40   TocLen == 16   IndomLen == 32   ValueLen == 32   StringLen == 256
InstLen(ver) == IF ver = 1 THEN 80 ELSE 24
MetricLen(ver) == IF ver = 1 THEN 104 ELSE 48

ItemLen(t, ver) == CASE t = 1 -> IndomLen [] t = 2 -> InstLen(ver) [] t = 3 -> MetricLen(ver)
                     [] t = 4 -> ValueLen [] t = 5 -> StringLen [] OTHER -> 0

Rng(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Rng(s)) = Len(s)

(* what makes a reader take the file for complete *)
Accepted(img) == img.magic /\ img.geq

-----------------------------------------------------------------------------
NoMinus == <<65535, 65535>>      \* the instance domain of a metric without one

(* each check has a name; Broken is the set of those that fail *)
Broken(img) ==
    LET ver  == img.ver
        secs == {t \in Rng(img.tocs) : t.c > 0}
        End(t) == t.o + t.c * ItemLen(t.t, ver)
        offs(q) == {q[i].o : i \in DOMAIN q}
        strOffs == offs(img.strs)
        domOffs == offs(img.indoms)
        instOffs == offs(img.insts)
        metOffs == offs(img.metrics)
        textMets == {m.o : m \in {x \in Rng(img.metrics) : x.t = 6}}
        textOk(o) == o = 0 \/ o \in strOffs
        refs == [ r \in {"x"} |->        \* every reference to a string slot, as a sequence
              [i \in 1..Len(img.indoms) |-> img.indoms[i].so] \o [i \in 1..Len(img.indoms) |-> img.indoms[i].lo]
              \o [i \in 1..Len(img.metrics) |-> img.metrics[i].so] \o [i \in 1..Len(img.metrics) |-> img.metrics[i].lo]
              \o [i \in 1..Len(img.metrics) |-> IF ver = 2 THEN img.metrics[i].no ELSE 0]
              \o [i \in 1..Len(img.insts) |-> IF ver = 2 THEN img.insts[i].no ELSE 0]
              \o [i \in 1..Len(img.vals) |-> IF img.vals[i].m \in textMets THEN img.vals[i].x ELSE 0]]["x"]
        used == {i \in DOMAIN refs : refs[i] # 0}
    IN { l \in {"version", "toc", "section", "tile", "size", "ref", "strref", "share", "indomspan", "slack", "pad"} :
         ~ CASE l = "version" -> ver \in {1, 2} /\ img.magic /\ img.geq /\ ~img.gz
             [] l = "toc" -> /\ Len(img.tocs) = img.ntoc
                             /\ \A i, j \in DOMAIN img.tocs : i # j => img.tocs[i].t # img.tocs[j].t
                             /\ \A t \in Rng(img.tocs) : t.t \in 1..5 /\ t.c >= 0
             [] l = "section" -> \A t \in secs : t.o >= HeaderLen + TocLen * img.ntoc /\ End(t) <= img.size
             [] l = "tile" -> /\ \A t, u \in secs : t = u \/ End(t) <= u.o \/ End(u) <= t.o
                              /\ LET RECURSIVE Sum(_)
                                     Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN t.c * ItemLen(t.t, ver) + Sum(S \ {t})
                                 IN HeaderLen + TocLen * img.ntoc + Sum(secs) = img.size
             [] l = "size" -> img.size = img.rep
             [] l = "ref" -> /\ \A x \in Rng(img.insts) : x.d \in domOffs
                             /\ \A x \in Rng(img.vals) : x.m \in metOffs /\ (x.i = 0 \/ x.i \in instOffs)
             [] l = "strref" -> /\ \A i \in used : refs[i] \in strOffs
                                /\ ver = 2 => \A x \in Rng(img.metrics) : x.no # 0
                                /\ ver = 2 => \A x \in Rng(img.insts) : x.no # 0
             [] l = "share" -> /\ Cardinality({refs[i] : i \in used}) = Cardinality(used)
                               /\ Cardinality(used) = Len(img.strs)
             [] l = "indomspan" -> \A d \in Rng(img.indoms) :
                                   {img.insts[k].o : k \in {y \in DOMAIN img.insts : img.insts[y].d = d.o}}
                                     = {d.io + k * InstLen(ver) : k \in 0..(d.c - 1)}
             [] l = "slack" -> img.slack
             [] l = "pad" -> (\A x \in Rng(img.insts) : x.pad = 0) /\ (\A x \in Rng(img.metrics) : x.pad = 0) }

-----------------------------------------------------------------------------
(* what the file says; only for images without a broken reference *)
(* the item of q at o; it should be where items of a length of l lie *)
LOCAL At(q, o, l) == LET k == 1 + (o - q[1].o) \div l IN
                     IF k \in DOMAIN q /\ q[k].o = o THEN q[k] ELSE CHOOSE x \in Rng(q) : x.o = o
LOCAL TextAt(img, o) == IF o = 0 THEN 0 ELSE At(img.strs, o, StringLen).s
LOCAL InstAt(img, o) == At(img.insts, o, InstLen(img.ver))
InstName(img, x) == IF img.ver = 1 THEN x.n ELSE TextAt(img, x.no)
MetricName(img, x) == IF img.ver = 1 THEN x.n ELSE TextAt(img, x.no)

SaidIndoms(img) ==
    [i \in DOMAIN img.indoms |->
        LET d == img.indoms[i]
            ins == {y \in DOMAIN img.insts : img.insts[y].d = d.o}
        IN [id |-> d.id, short |-> TextAt(img, d.so), long |-> TextAt(img, d.lo), n |-> d.c,
            insts |-> {[name |-> InstName(img, img.insts[x]), id |-> img.insts[x].id] : x \in ins}]]

SaidMetrics(img) ==
    [i \in DOMAIN img.metrics |->
        LET m == img.metrics[i] IN
        [name |-> MetricName(img, m), id |-> m.id, t |-> m.t, sem |-> m.sem, u |-> m.u, ind |-> m.ind,
         short |-> TextAt(img, m.so), long |-> TextAt(img, m.lo)]]

(* the instance of a value is its name and the identifier of its domain *)
SaidValues(img) ==
    [i \in DOMAIN img.vals |->
        LET v == img.vals[i]
            m == At(img.metrics, v.m, MetricLen(img.ver)) IN
        [metric |-> MetricName(img, m),
         inst   |-> IF v.i = 0 THEN [in |-> FALSE, n |-> 0]
                    ELSE [in |-> TRUE, n |-> InstName(img, InstAt(img, v.i))],
         own    |-> v.i = 0 \/ At(img.indoms, InstAt(img, v.i).d, IndomLen).id = m.ind,
         w      |-> IF m.t = 6 THEN <<0, 0, 0, 0>> ELSE v.w,
         len    |-> IF m.t = 6 THEN v.w ELSE <<0, 0, 0, 0>>,
         x      |-> IF m.t = 6 THEN 0 ELSE v.x,
         s      |-> IF m.t = 6 THEN TextAt(img, v.x) ELSE 0]]
=============================================================================
