-------------------------------- MODULE Speed --------------------------------
(* The client library as a state machine: clients, registries, instance        *)
(* domains, metrics and the published files, with one operation per call of    *)
(* the API. Eff(st, e) is the state after a call and what the call must return; *)
(* facts that only the run can know (the clock, the sums of floats) are in e.   *)
(*                                                                             *)
(* Names and texts are symbols: indexes in Str, the table of their bytes; 0 is *)
(* the empty one. Objects are handles, small integers.                         *)
EXTENDS Values, Layout, Hist, TLC

CONSTANT Str

SLen(s) == IF s = 0 THEN 0 ELSE Len(Str[s])
Bytes(s) == IF s = 0 THEN <<>> ELSE Str[s]
AllFnv == LET t == Str IN [i \in 1..Len(t) |-> Fnv(t[i])]
HashOf(s, n) == Cut(IF s = 0 THEN Fnv(<<>>) ELSE AllFnv[s], n)

ClusterBits == 12   IndomBits == 22   InstBits == 32   MetricBits == 10
V1Name == 63

(* symbols with a fixed number *)
SHistogram == 1
HistInsts == 2..6          \* min, max, mean, variance, standard_deviation
SDotIndom == 7             \* ".indom"
HistIndom == 0             \* handle of the instance domain of all histograms

Emp == [x \in {} |-> 0]

Init0 == [ind |-> (HistIndom :> [name |-> SHistogram, insts |-> HistInsts, short |-> 0, long |-> 0]),
          met |-> Emp, reg |-> Emp, cli |-> Emp, erase |-> FALSE]

-----------------------------------------------------------------------------
(* what can be derived *)
LOCAL F == INSTANCE Functions
SumSet(f, D) == F!SumFunctionOnSet(f, D)

Insts(st, m) == DOMAIN st.met[m].vals
IsSingle(k) == k \in {"single", "counter", "gauge", "timer"}

Mapped(st, r) == \E c \in DOMAIN st.cli : st.cli[c].r = r /\ st.cli[c].act

IndomNamed(st, r, n) == {d \in st.reg[r].ind : st.ind[d].name = n}
MetricNamed(st, r, n) == {m \in st.reg[r].met : st.met[m].name = n}

NText(x) == (IF x.short # 0 THEN 1 ELSE 0) + (IF x.long # 0 THEN 1 ELSE 0)

Version2(st, r) == \/ \E m \in st.reg[r].met : SLen(st.met[m].name) > V1Name
                   \/ \E d \in st.reg[r].ind : \E i \in st.ind[d].insts : SLen(i) > V1Name

MetricCount(st, r) == Cardinality(st.reg[r].met)
ValueCount(st, r) == SumSet([m \in st.reg[r].met |-> Cardinality(Insts(st, m))], st.reg[r].met)
IndomCount(st, r) == Cardinality(st.reg[r].ind)
InstCount(st, r) == SumSet([d \in st.reg[r].ind |-> Cardinality(st.ind[d].insts)], st.reg[r].ind)
StringCount(st, r) ==
    SumSet([m \in st.reg[r].met |-> NText(st.met[m]) + (IF st.met[m].t = StringT THEN Cardinality(Insts(st, m)) ELSE 0)], st.reg[r].met)
    + SumSet([d \in st.reg[r].ind |-> NText(st.ind[d])], st.reg[r].ind)
    + (IF Version2(st, r) THEN MetricCount(st, r) + InstCount(st, r) ELSE 0)

TocCount(st, r) == 2 + (IF IndomCount(st, r) > 0 THEN 1 ELSE 0) + (IF InstCount(st, r) > 0 THEN 1 ELSE 0)
                     + (IF StringCount(st, r) > 0 THEN 1 ELSE 0)

FileLength(st, r) ==
    LET v == IF Version2(st, r) THEN 2 ELSE 1 IN
    HeaderLen + TocLen * TocCount(st, r) + IndomLen * IndomCount(st, r) + InstLen(v) * InstCount(st, r)
      + MetricLen(v) * MetricCount(st, r) + ValueLen * ValueCount(st, r) + StringLen * StringCount(st, r)

(* what a published file has to say *)
MustIndoms(st, r) ==
    {[id |-> HashOf(st.ind[d].name, IndomBits), short |-> st.ind[d].short, long |-> st.ind[d].long,
      n |-> Cardinality(st.ind[d].insts),
      insts |-> {[name |-> i, id |-> HashOf(i, InstBits)] : i \in st.ind[d].insts}] : d \in st.reg[r].ind}

IndomID(st, m) == IF st.met[m].ind = -1 THEN NoMinus ELSE HashOf(st.ind[st.met[m].ind].name, IndomBits)

MustMetrics(st, r) ==
    {[name |-> st.met[m].name, id |-> HashOf(st.met[m].name, MetricBits), t |-> st.met[m].t, sem |-> st.met[m].sem,
      u |-> st.met[m].u, ind |-> IndomID(st, m), short |-> st.met[m].short, long |-> st.met[m].long] : m \in st.reg[r].met}

MustValues(st, r) ==
    {[metric |-> st.met[m].name, inst |-> [in |-> st.met[m].ind # -1, n |-> i], own |-> TRUE,
      w |-> st.met[m].vals[i].w, s |-> st.met[m].vals[i].s, x |-> 0] : <<m, i>> \in
        UNION {{m} \X Insts(st, m) : m \in st.reg[r].met}}

SaidNorm(st, r, img) ==
    LET sv == SaidValues(img) IN
    {LET ms == MetricNamed(st, r, sv[k].metric)  v == sv[k] IN
     [metric |-> v.metric, inst |-> v.inst, own |-> v.own, s |-> v.s, x |-> v.x,
      w |-> IF ms = {} THEN v.w ELSE Norm(st.met[CHOOSE m \in ms : TRUE].t, v.w)] : k \in DOMAIN sv}

(* the checks of an image of the file of client c; a set of labels *)
ImageBad(st, c, img) ==
    LET r == st.cli[c].r
        b == Broken(img)
        sm == Rng(SaidMetrics(img))  mm == MustMetrics(st, r)
        sd == Rng(SaidIndoms(img))   md == MustIndoms(st, r)
        sv == SaidNorm(st, r, img)   mv == MustValues(st, r)
        B(l, ok) == IF ok THEN {} ELSE {l}
    IN {"layout-" \o l : l \in b} \cup
       IF b \cap {"version", "toc", "section", "ref", "strref"} # {} THEN {"content"}
       ELSE B("header", img.flag = st.cli[c].flag /\ img.pid)
            \cup B("header-cluster", img.cluster = HashOf(st.cli[c].name, ClusterBits))
            \cup B("format", img.ver = (IF Version2(st, r) THEN 2 ELSE 1))
            \cup B("content-indoms", /\ Len(img.indoms) = IndomCount(st, r)
                                     /\ sd = md
                                     /\ Len(img.insts) = InstCount(st, r))
            \cup B("content-metrics", /\ Len(img.metrics) = MetricCount(st, r)
                                      /\ sm = mm)
            \cup B("content-values", /\ Len(img.vals) = ValueCount(st, r)
                                     /\ sv = mv)
            \cup B("content-ids", /\ {x.id : x \in sm} = {x.id : x \in mm}
                                  /\ {x.id : x \in sd} = {x.id : x \in md}
                                  /\ {x.id : x \in Rng(img.insts)} = UNION {{x.id : x \in d.insts} : d \in md})
            \cup B("content-names", /\ {x.name : x \in sm} = {x.name : x \in mm}
                                    /\ {InstName(img, x) : x \in Rng(img.insts)} = UNION {{x.name : x \in d.insts} : d \in md}
                                    /\ {<<x.short, x.long>> : x \in sm} = {<<x.short, x.long>> : x \in mm}
                                    /\ {<<x.short, x.long>> : x \in sd} = {<<x.short, x.long>> : x \in md}
                                    /\ {x.s : x \in sv} = {x.s : x \in mv})
            \cup B("content-units", {x.u : x \in sm} = {x.u : x \in mm})

(* where the values of client c are, according to an image *)
SlotsOf(st, c, img) ==
    IF Broken(img) \cap {"version", "toc", "section", "ref", "strref"} # {} THEN {}
    ELSE LET r == st.cli[c].r
             sv == SaidValues(img) IN
         {[m |-> IF MetricNamed(st, r, sv[i].metric) = {} THEN -1
                 ELSE CHOOSE m \in MetricNamed(st, r, sv[i].metric) : TRUE,
           i |-> sv[i].inst.n, o |-> img.vals[i].o, x |-> img.vals[i].x] : i \in DOMAIN sv}

-----------------------------------------------------------------------------
(* operations *)
Ret(st, exp) == [st |-> st, exp |-> exp, bad |-> {}]
Try(ok, st, new) == IF ok THEN Ret(new, "ok") ELSE Ret(st, "err")

DescOK(d) == Len(d) <= 2 /\ \A i \in DOMAIN d : SLen(d[i]) <= SlotMax
Short(d) == IF Len(d) > 0 THEN d[1] ELSE 0
Long(d) == IF Len(d) > 1 THEN d[2] ELSE 0

ValOK(t, v) == Admits(t, v, SLen(v.s))

(* vals: a sequence of [i, v], the map given to a constructor *)
ValsOK(t, vals, insts) ==
    /\ {vals[k].i : k \in DOMAIN vals} = insts /\ Len(vals) = Cardinality(insts)
    /\ \A k \in DOMAIN vals : ValOK(t, vals[k].v)
ValsOf(t, vals) == [i \in {vals[k].i : k \in DOMAIN vals} |-> Stored(t, vals[CHOOSE k \in DOMAIN vals : vals[k].i = i].v)]

NameOK(n) == n # 0 /\ SLen(n) <= SlotMax

ClientNameOK(n) == /\ n # 0
                   /\ Bytes(n) \notin {<<46>>, <<46, 46>>}
                   /\ \A i \in DOMAIN Bytes(n) : Bytes(n)[i] # 47

NewClient(st, e) ==
    Try(ClientNameOK(e.name), st,
        [st EXCEPT !.cli = @ @@ (e.c :> [name |-> e.name, r |-> e.reg, act |-> FALSE, flag |-> 2, file |-> FALSE,
                                         slots |-> {}, blind |-> FALSE]),
                   !.reg = IF e.reg \in DOMAIN @ THEN @ ELSE @ @@ (e.reg :> [ind |-> {}, met |-> {}])])

NewIndomOK(e) == e.name # 0 /\ DescOK(e.desc) /\ \A i \in DOMAIN e.insts : SLen(e.insts[i]) <= SlotMax

IndomRec(e) == [name |-> e.name, insts |-> Rng(e.insts), short |-> Short(e.desc), long |-> Long(e.desc)]

NewIndom(st, e) == Try(NewIndomOK(e), st, [st EXCEPT !.ind = @ @@ (e.d :> IndomRec(e))])

NoHist == [low |-> 0, high |-> 0, highr |-> 0, sig |-> 1, q |-> 1, bag |-> Emp]

MetricRec(e, t, sem, u, ind, vals, h) ==
    [kind |-> e.kind, name |-> e.name, t |-> t, sem |-> sem, u |-> u, short |-> Short(e.desc), long |-> Long(e.desc),
     ind |-> ind, vals |-> vals, on |-> FALSE, lo |-> 0, hi |-> 0, h |-> h]

OneUnit == <<16, 0>>
W64(n) == <<0, 0, 0, n>>

\* bounds are given in units of q, where the limit is 3600000000 \div e.h.q
\* and what the limit exceeds a multiple of q by is kept as highr
HistRec(e) == [low |-> Clamp(e.low, 0, e.hmax), high |-> Clamp(e.high, 0, e.hmax),
               highr |-> IF e.q = 1 \/ e.high <= e.hmax THEN 0 ELSE 4 * (900000000 % (e.q \div 4)),
               sig |-> Clamp(e.sig, 1, 5), q |-> e.q, bag |-> Emp]

NewMetric(st, e) ==
    LET descOK == NameOK(e.name) /\ DescOK(e.desc)
        Put(rec) == [st EXCEPT !.met = @ @@ (e.m :> rec)]
        PutVec(rec) == [st EXCEPT !.met = @ @@ (e.m :> rec),
                                  !.ind = @ @@ (e.d :> [name |-> e.iname, insts |-> DOMAIN rec.vals, short |-> 0, long |-> 0])]
        instsOK == \A x \in Rng(e.vals) : SLen(x.i) <= SlotMax
    IN CASE e.kind = "single" ->
              Try(descOK /\ ValOK(e.t, e.v), st,
                  Put(MetricRec(e, e.t, e.sem, e.u, -1, (0 :> Stored(e.t, e.v)), NoHist)))
         [] e.kind = "inst" ->
              Try(descOK /\ ValsOK(e.t, e.vals, st.ind[e.d].insts), st,
                  Put(MetricRec(e, e.t, e.sem, e.u, e.d, ValsOf(e.t, e.vals), NoHist)))
         [] e.kind = "counter" ->
              Try(descOK, st, Put(MetricRec(e, Int64T, 1, OneUnit, -1, (0 :> Stored(Int64T, e.v)), NoHist)))
         [] e.kind = "gauge" ->
              Try(descOK, st, Put(MetricRec(e, DoubleT, 3, OneUnit, -1, (0 :> Stored(DoubleT, e.v)), NoHist)))
         [] e.kind = "timer" ->
              Try(descOK, st, Put(MetricRec(e, DoubleT, 4, e.u, -1, (0 :> [w |-> W0, s |-> 0]), NoHist)))
         [] e.kind = "cvec" ->
              Try(descOK /\ instsOK, st, PutVec(MetricRec(e, Int64T, 1, OneUnit, e.d, ValsOf(Int64T, e.vals), NoHist)))
         [] e.kind = "gvec" ->
              Try(descOK /\ instsOK, st, PutVec(MetricRec(e, DoubleT, 3, OneUnit, e.d, ValsOf(DoubleT, e.vals), NoHist)))
         [] e.kind = "hist" ->
              Try(descOK /\ e.low <= e.high, st,
                  Put(MetricRec(e, DoubleT, 3, e.u, HistIndom, [i \in HistInsts |-> [w |-> W0, s |-> 0]], HistRec(e))))

(* registration *)
AddIndomOK(st, r, name) == ~Mapped(st, r) /\ IndomNamed(st, r, name) = {}

RegIndom(st, e) ==
    LET r == st.cli[e.c].r IN
    Try(AddIndomOK(st, r, st.ind[e.d].name), st, [st EXCEPT !.reg[r].ind = @ \cup {e.d}])

AddIndomByName(st, e) ==
    LET r == st.cli[e.c].r IN
    Try(NewIndomOK(e) /\ AddIndomOK(st, r, e.name), st,
        [st EXCEPT !.ind = @ @@ (e.d :> IndomRec(e)), !.reg[r].ind = @ \cup {e.d}])

RegOK(st, r, rec, insts) ==      \* insts: instances of the metric's domain
    /\ ~Mapped(st, r)
    /\ MetricNamed(st, r, rec.name) = {}
    /\ rec.ind # -1 => \A d \in IndomNamed(st, r, st.ind[rec.ind].name) : st.ind[d].insts = insts

AddMetric(st, r, m) ==
    LET d == st.met[m].ind IN
    [st EXCEPT !.reg[r].met = @ \cup {m},
               !.reg[r].ind = IF d = -1 \/ IndomNamed(st, r, st.ind[d].name) # {} THEN @ ELSE @ \cup {d}]

Register(st, e) ==
    LET r == st.cli[e.c].r  rec == st.met[e.m] IN
    Try(RegOK(st, r, rec, IF rec.ind = -1 THEN {} ELSE st.ind[rec.ind].insts), st, AddMetric(st, r, e.m))

(* e.p: the parsed string, with symbols: [ok, br, metric, indom, insts] *)
RegString(st, e, p) ==
    LET r == st.cli[e.c].r IN
    IF ~p.ok \/ Mapped(st, r) \/ MetricNamed(st, r, p.metric) # {} \/ ~NameOK(p.metric) THEN Ret(st, "err")
    ELSE LET x == [kind |-> IF p.br THEN "inst" ELSE "single", name |-> p.metric, desc |-> <<>>] IN
         IF ~p.br THEN
            Try(~e.isI /\ ValOK(e.t, e.v), st,
                [st EXCEPT !.met = @ @@ (e.m :> MetricRec(x, e.t, e.sem, e.u, -1, (0 :> Stored(e.t, e.v)), NoHist)),
                           !.reg[r].met = @ \cup {e.m}])
         ELSE LET have == IndomNamed(st, r, p.indom)
                  d == IF have = {} THEN e.d ELSE CHOOSE y \in have : TRUE IN
            Try(/\ e.isI
                /\ have # {} => st.ind[d].insts = p.insts
                /\ \A i \in p.insts : SLen(i) <= SlotMax
                /\ ValsOK(e.t, e.vals, p.insts), st,
                [st EXCEPT !.ind = IF have # {} THEN @ ELSE @ @@ (d :> [name |-> p.indom, insts |-> p.insts, short |-> 0, long |-> 0]),
                           !.met = @ @@ (e.m :> MetricRec(x, e.t, e.sem, e.u, d, ValsOf(e.t, e.vals), NoHist)),
                           !.reg[r].met = @ \cup {e.m},
                           !.reg[r].ind = @ \cup {d}])

(* updates: the new value of one instance, or a refusal *)
Yes(v) == [ok |-> TRUE, v |-> v]
No == [ok |-> FALSE, v |-> [w |-> W0, s |-> 0]]
Num(w) == [w |-> w, s |-> 0]

One(m, f, v, i, e) ==
    LET cur == m.vals[i].w IN
    CASE m.kind \in {"single", "inst"} /\ f = "Set" -> IF ValOK(m.t, v) THEN Yes(Stored(m.t, v)) ELSE No
      [] m.kind \in {"counter", "cvec"} /\ f = "Set" -> IF SLt(v.w, cur) THEN No ELSE Yes(Num(v.w))
      [] m.kind \in {"counter", "cvec"} /\ f = "Inc" ->
            IF IsNeg(v.w) \/ ~SAddFits(cur, v.w) THEN No ELSE Yes(Num(Add(cur, v.w)))
      [] m.kind \in {"gauge", "gvec"} /\ f = "Set" -> Yes(Num(Norm(DoubleT, v.w)))
      [] m.kind \in {"gauge", "gvec"} /\ f \in {"Inc", "Dec"} ->
            LET q == e.sums[CHOOSE k \in DOMAIN e.sums : e.sums[k].i = i] IN Yes(Num(Norm(DoubleT, q.s)))
      [] OTHER -> No

(* the sums of floats come with the run: they have to be sums of the current values,
   and for multiples of 1/8 that are not too large, they are checked here *)
SumsOK(m, f, e) ==
    m.kind \in {"gauge", "gvec"} /\ f \in {"Inc", "Dec"} =>
        \A x \in Rng(e.sums) : /\ x.i \in DOMAIN m.vals => Norm(DoubleT, x.p) = m.vals[x.i].w
                               /\ x.dy => x.sn = (IF f = "Inc" THEN x.pn + x.vn ELSE x.pn - x.vn)

Readback(m, e) == [i \in DOMAIN m.vals |->
    LET S == {e.rb[k] : k \in {j \in DOMAIN e.rb : e.rb[j].i = i}} IN
    IF S = {} THEN [w |-> W0, s |-> -1]
    ELSE LET x == CHOOSE y \in S : TRUE IN [w |-> Norm(m.t, x.w), s |-> x.s]]

(* f for one instance *)
Upd(st, e, f, i) ==
    LET m == st.met[e.m] IN
    IF i \notin DOMAIN m.vals THEN Ret(st, "err")
    ELSE LET o == One(m, f, e.v, i, e)
             r == Try(o.ok, st, [st EXCEPT !.met[e.m].vals[i] = o.v]) IN
         [r EXCEPT !.bad = IF SumsOK(m, f, e) THEN {} ELSE {"sums"}]

(* f for all instances, which stops at the first refusal, whichever that is *)
UpdAll(st, e, f) ==
    LET m == st.met[e.m]
        o == [i \in DOMAIN m.vals |-> One(m, f, e.v, i, e)]
        rb == Readback(m, e) IN
    IF \A i \in DOMAIN o : o[i].ok
    THEN [Ret([st EXCEPT !.met[e.m].vals = [i \in DOMAIN o |-> o[i].v]], "ok")
            EXCEPT !.bad = IF SumsOK(m, f, e) THEN {} ELSE {"sums"}]
    ELSE [Ret([st EXCEPT !.met[e.m].vals = [i \in DOMAIN o |->
                     IF o[i].ok /\ rb[i] = o[i].v THEN o[i].v ELSE m.vals[i]]], "panic")
            EXCEPT !.bad = IF SumsOK(m, f, e) THEN {} ELSE {"sums"}]

Update(st, e) ==
    CASE e.f \in {"Set", "Inc", "Dec"} -> Upd(st, e, e.f, e.i)
      [] e.f = "SetAll" -> UpdAll(st, e, "Set")
      [] e.f = "IncAll" -> UpdAll(st, e, "Inc")
      [] e.f = "DecAll" -> UpdAll(st, e, "Dec")

(* timers; times in microseconds *)
TimerOp(st, e) ==
    LET m == st.met[e.m] IN
    CASE e.f = "TStart" -> Try(~m.on, st, [st EXCEPT !.met[e.m].on = TRUE])
      [] e.f = "TReset" -> Try(~m.on, st, [st EXCEPT !.met[e.m].vals[0] = Num(W0), !.met[e.m].lo = 0, !.met[e.m].hi = 0])
      [] e.f = "TStop" ->
           IF ~m.on THEN Ret(st, "err")
           ELSE LET lo == m.lo + e.lo  hi == m.hi + e.hi IN
                [Ret([st EXCEPT !.met[e.m].on = FALSE, !.met[e.m].vals[0] = Num(e.tot), !.met[e.m].lo = lo, !.met[e.m].hi = hi], "ok")
                   EXCEPT !.bad = IF e.r = "ok" /\ ~(e.us >= lo - 2 /\ e.us <= hi + 2) THEN {"elapsed"} ELSE {}]
      \* started and stopped within nanoseconds
      [] e.f = "TTick" ->
           IF m.on THEN Ret(st, "err")
           ELSE LET lo == m.lo + e.lo  hi == m.hi + e.hi IN
                [Ret([st EXCEPT !.met[e.m].vals[0] = Num(e.tot), !.met[e.m].lo = lo, !.met[e.m].hi = hi], "ok")
                   EXCEPT !.bad = IF e.r = "ok" /\ ~(e.us >= lo - 2 /\ e.us <= hi + 2 /\ e.ns >= e.lons - 2 /\ e.ns <= e.hins + 2)
                                  THEN {"elapsed"} ELSE {}]

(* histograms; what is recorded decides, what is published is what is reported *)
HistEff(st, e) ==
    LET m == st.met[e.m]
        must == e.n >= 0 /\ e.val >= 0 /\ e.val <= m.h.high
        mustNot == e.n < 0 \/ e.val < 0
        ok == IF must THEN TRUE ELSE IF mustNot THEN FALSE ELSE e.r = "ok"
    IN Try(ok, st, [st EXCEPT !.met[e.m].h = Record(m.h, e.val, e.n)])

HistBad(h, hs) ==
    LET B(l, c) == IF c THEN {} ELSE {l} IN
    B("hist-min", MinOK(h, hs.min)) \cup B("hist-max", MaxOK(h, hs.max))
    \cup B("hist-mean", MeanOK(h, hs.mean4)) \cup B("hist-dev", DevOK(h, hs.dev4))
    \cup B("hist-var", VarOK(h, hs.dev4, hs.var4))
    \cup B("hist-fine", FineOK(h, hs.fine))
    \cup B("hist-bounds", hs.high = h.high /\ hs.highr = h.highr /\ hs.low = (IF h.low = 0 /\ h.q = 1 THEN 1 ELSE h.low))
    \cup B("hist-pct", \A x \in Rng(hs.pct) : PercentileOK(h, x.p, x.r))
    \cup B("hist-count", hs.count = Count(h))
    \cup B("hist-link", hs.link)

HistOp(st, e) ==
    LET x == HistEff(st, e) IN
    [x EXCEPT !.st.met[e.m].vals = IF x.exp = "ok" THEN Readback(st.met[e.m], e) ELSE @,
              !.bad = HistBad(x.st.met[e.m].h, e.hs)]

SetFlag(st, e) == Try(~Mapped(st, st.cli[e.c].r), st, [st EXCEPT !.cli[e.c].flag = e.flag])

Start(st, e) ==
    \* a failed start can have removed what was left of an earlier one
    IF e.fault THEN Ret(IF e.lost THEN [st EXCEPT !.cli[e.c].file = \E o \in Rng(e.cl) : o.c = e.c /\ o.ex] ELSE st, "err")
    ELSE Ret([st EXCEPT !.cli[e.c].act = TRUE, !.cli[e.c].file = TRUE,
                        !.cli[e.c].slots = IF "img" \in DOMAIN e THEN SlotsOf(st, e.c, e.img) ELSE {},
                        !.cli[e.c].blind = ~("img" \in DOMAIN e)], "ok")

(* where the file is gone already, its removal can be an error, but no less of  *)
(* a stop                                                                       *)
Stop(st, e) ==
    LET c == st.cli[e.c]
        done == [st EXCEPT !.cli[e.c].act = FALSE, !.cli[e.c].file = @ /\ ~st.erase, !.cli[e.c].slots = {}]
    IN IF c.act /\ st.erase /\ ~c.file /\ e.r # "ok" THEN Ret(done, "err")
       ELSE Try(c.act, st, done)

Eff(st, e, p) ==
    CASE e.op = "client" -> NewClient(st, e)
      [] e.op = "indom" -> NewIndom(st, e)
      [] e.op = "metric" -> NewMetric(st, e)
      [] e.op = "regindom" -> RegIndom(st, e)
      [] e.op = "indombyname" -> AddIndomByName(st, e)
      [] e.op = "register" -> Register(st, e)
      [] e.op = "regstring" -> RegString(st, e, p)
      [] e.op = "upd" -> Update(st, e)
      [] e.op = "timer" -> TimerOp(st, e)
      [] e.op = "hist" -> HistOp(st, e)
      [] e.op = "flag" -> SetFlag(st, e)
      [] e.op = "start" -> Start(st, e)
      [] e.op = "stop" -> Stop(st, e)
      \* something else put a file there, or a process ended while it made one
      [] e.op \in {"plant", "crash"} -> Ret([st EXCEPT !.cli[e.c].file = e.ex], "ok")
      \* somebody else removed the file
      [] e.op = "vanish" -> Ret([st EXCEPT !.cli[e.c].file = FALSE, !.cli[e.c].slots = {}, !.cli[e.c].blind = TRUE], "ok")
      [] e.op = "erase" -> Ret([st EXCEPT !.erase = e.on], "ok")
      [] OTHER -> Ret(st, "ok")
=============================================================================
