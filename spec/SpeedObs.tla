------------------------------ MODULE SpeedObs ------------------------------
(* What a recorded event of a run has to agree with: the result of a call, what *)
(* can be read afterwards, and what the files show. A set of labels says what  *)
(* does not.                                                                   *)
EXTENDS Naturals, Json, IOUtils, Speed, Grammar

Raw == ndJsonDeserialize(IOEnv.TRACE)
TraceStr == Raw[1].strs

Has(e, f) == f \in DOMAIN e

(* the symbol of a text, among those the event offers *)
Sym(e, b) == IF b = <<>> THEN 0
             ELSE LET S == {i \in Rng(e.cand) : Bytes(i) = b} IN IF S = {} THEN -7 ELSE CHOOSE i \in S : TRUE

NoParse == [ok |-> FALSE, br |-> FALSE, metric |-> 0, indom |-> 0, insts |-> {}]

Parsed(e) ==
    IF e.op # "regstring" THEN NoParse
    ELSE LET p == Parse(e.runes, Rng(e.uid)) IN
         IF ~p.ok THEN NoParse
         ELSE [ok |-> TRUE, br |-> p.br, metric |-> Sym(e, Utf8(p.metric)), indom |-> Sym(e, Utf8(p.indom)),
               insts |-> {Sym(e, Utf8(i)) : i \in p.insts}]

(* objects an event is about have to be known, or an earlier mismatch is to blame *)
Known(s, e) ==
    /\ Has(e, "c") /\ e.op # "client" => e.c \in DOMAIN s.cli
    /\ Has(e, "m") /\ e.op \in {"upd", "timer", "hist", "register", "get", "info"} => e.m \in DOMAIN s.met
    /\ Has(e, "d") /\ (e.op = "regindom" \/ (e.op = "metric" /\ e.kind = "inst")) => e.d \in DOMAIN s.ind

Kind(s, e) == IF e.op = "metric" THEN e.kind
              ELSE IF Has(e, "m") /\ e.m \in DOMAIN s.met THEN s.met[e.m].kind ELSE ""

ResultBad(s, e, x) ==
    LET want == IF Has(e, "must") /\ e.must /\ x.exp = "err" THEN "panic" ELSE x.exp
        unknown == e.op \in {"upd", "get"} /\ Has(e, "i") /\ e.i \notin DOMAIN s.met[e.m].vals
    IN IF e.r = want THEN {}
       ELSE {"res-" \o e.op \o "-" \o Kind(s, e)}
            \cup (IF e.r = "panic" /\ ~(Has(e, "must") /\ e.must) THEN {"panic"} ELSE {})
            \cup (IF e.r = "hang" THEN {"hang"} ELSE {})
            \cup (IF Has(e, "must") /\ e.must THEN {"res-must"} ELSE {})
            \cup (IF unknown THEN {"res-unknown-inst"} ELSE {})
            \cup (IF e.op \in {"metric", "regstring", "upd"} /\ Has(e, "v")
                     /\ e.v.k = "string" /\ SLen(e.v.s) > SlotMax - 2 THEN {"res-length"} ELSE {})
            \cup (IF e.op \in {"metric", "indom", "indombyname", "regstring"} /\ Has(e, "long") /\ e.long THEN {"res-length"} ELSE {})
            \cup (IF e.op \in {"register", "regstring", "regindom", "indombyname", "flag"}
                     /\ Mapped(s, s.cli[e.c].r) THEN {"res-active"} ELSE {})

(* values read back from the metric *)
ReadBad(s0, s, e) ==
    IF ~Has(e, "rb") \/ ~(e.m \in DOMAIN s.met) THEN {}
    ELSE LET m == s.met[e.m]
             seen == {[i |-> e.rb[k].i, w |-> Norm(m.t, e.rb[k].w), s |-> e.rb[k].s] : k \in DOMAIN e.rb}
             want == {[i |-> i, w |-> m.vals[i].w, s |-> m.vals[i].s] : i \in DOMAIN m.vals} IN
         (IF m.kind # "timer" /\ seen # want THEN {"read-" \o m.kind} ELSE {})
         \cup (IF m.kind \in {"single", "inst"} /\ \E k \in DOMAIN e.rb : e.rb[k].k # GoKind(m.t) THEN {"read-type"} ELSE {})
         \cup (IF m.kind \in {"counter", "cvec"} /\ e.op \in {"upd"} /\ \E x \in Rng(e.rb) : x.i \in DOMAIN s0.met[e.m].vals
                   /\ SLt(x.w, s0.met[e.m].vals[x.i].w) THEN {"backwards"} ELSE {})

(* what the file of client c shows after the event *)
SlotsMatch(s0, s1, c, ob) ==
    LET slots == s0.cli[c].slots
        T(sl) == s1.met[sl.m].t
        New(sl) == s1.met[sl.m].vals[sl.i]
        Old(sl) == s0.met[sl.m].vals[sl.i]
        has == [m \in {sl.m : sl \in slots} \ {-1} |-> DOMAIN s1.met[m].vals]
        good == {sl \in slots : sl.m # -1 /\ sl.i \in has[sl.m]}
    IN /\ \A x \in Rng(ob.chg) : \E sl \in good : sl.o = x.o /\ T(sl) # StringT /\ Norm(T(sl), x.w) = New(sl).w
       /\ \A x \in Rng(ob.sch) : \E sl \in good : T(sl) = StringT /\ sl.x = x.o /\ New(sl).s = x.s
       /\ \A sl \in good : New(sl) # Old(sl) =>
            IF T(sl) = StringT THEN \E x \in Rng(ob.sch) : x.o = sl.x ELSE \E x \in Rng(ob.chg) : x.o = sl.o

FileBad(s0, s1, e, ob) ==
    LET c == ob.c
        fresh == e.op = "start" /\ e.c = c /\ e.r = "ok"
        stopped == e.op = "stop" /\ e.c = c /\ e.r = "ok"
        lost == e.op = "start" /\ e.c = c /\ e.lost
        own == Has(e, "m") /\ c \in DOMAIN s1.cli /\ e.m \in s1.reg[s1.cli[c].r].met
        still == ob.chg = <<>> /\ ob.sch = <<>>
    IN (IF fresh \/ lost THEN {}
        ELSE IF ~s1.cli[c].act THEN (IF still THEN {} ELSE {"chg-idle"})
        ELSE IF s0.cli[c].blind THEN {}
        ELSE IF SlotsMatch(s0, s1, c, ob) THEN {}
        ELSE {IF e.op \in {"upd", "timer", "hist"} THEN (IF own THEN "chg-own-" \o e.op ELSE "chg-other")
              ELSE IF Has(e, "c") /\ e.c # c THEN "chg-other" ELSE "chg-still"})
       \cup (IF ob.ex = s1.cli[c].file THEN {} ELSE IF stopped THEN {"exists-stop"} ELSE {"exists"})
       \cup (IF s1.cli[c].act THEN (IF ob.maps <= 1 /\ ob.fds <= 1 THEN {} ELSE {"leak"})
             ELSE IF ob.maps = 0 /\ ob.fds = 0 THEN {} ELSE {"leak"})

CountBad(s, ob) ==
    LET r == s.cli[ob.c].r IN
    (IF SubSeq(ob.cnt, 1, 4) = <<MetricCount(s, r), ValueCount(s, r), IndomCount(s, r), InstCount(s, r)>> THEN {} ELSE {"counts"})
    \cup (IF ob.cnt[5] = StringCount(s, r) THEN {} ELSE {"counts-strings"})
    \cup (IF ob.len = FileLength(s, r) THEN {} ELSE {"length"})

(* equal identifiers in an image, but for the pairs that are known; asked for   *)
(* by the trace                                                                 *)
IdsWanted == "known" \in DOMAIN Raw[1]
KnownPair(n) == \E i \in DOMAIN Raw[1].known : n = Rng(Raw[1].known[i])
IdsBad(img) ==
    IF ~IdsWanted \/ Broken(img) \cap {"version", "toc", "section", "ref", "strref"} # {} THEN {}
    ELSE LET sm == SaidMetrics(img)
             M == {{sm[p[1]].name, sm[p[2]].name} : p \in {q \in (DOMAIN sm) \X (DOMAIN sm) : q[1] < q[2] /\ sm[q[1]].id = sm[q[2]].id}}
             sd == SaidIndoms(img)
             I == UNION {{{p[1].name, p[2].name} : p \in {q \in sd[k].insts \X sd[k].insts : q[1] # q[2] /\ q[1].id = q[2].id}} : k \in DOMAIN sd}
             bad == M \cup I
         IN IF \E n \in bad : ~KnownPair(n) THEN {"same-id"}
            ELSE IF \A n \in bad : PrintT(<<"KNOWN", n>>) THEN {} ELSE {}

ObsBad(s0, s1, e) ==
    UNION {IF ob.c \in DOMAIN s1.cli /\ ob.c \in DOMAIN s0.cli THEN FileBad(s0, s1, e, ob) \cup CountBad(s1, ob) ELSE {} : ob \in Rng(e.cl)}
    \cup UNION {IF Has(ob, "img") THEN IdsBad(ob.img) ELSE {} : ob \in Rng(e.cl)}
    \cup UNION {IF ob.c \in DOMAIN s1.cli /\ Has(ob, "img") THEN ImageBad(s1, ob.c, ob.img) ELSE {} : ob \in Rng(e.cl)}
    \cup UNION {IF ob.c \in DOMAIN s1.cli /\ Has(ob, "img") /\ Has(e, "c") /\ e.c # ob.c /\ ImageBad(s1, ob.c, ob.img) # {} THEN {"other-image"} ELSE {} : ob \in Rng(e.cl)}

(* names a registration by string resulted in, membership, identifiers *)
OtherBad(s, e, p) ==
    CASE e.op = "regstring" /\ e.r = "ok" ->
           (IF e.rname = p.metric /\ (p.br => Rng(e.rinsts) = p.insts /\ e.rindom = p.indom) /\ (~p.br => e.rindom = -1) THEN {} ELSE {"regstring-names"})
      [] e.op = "has" ->
           LET r == s.cli[e.c].r IN
           (IF /\ e.metric = (MetricNamed(s, r, e.name) # {})
               /\ e.indom = (IndomNamed(s, r, e.name) # {}) THEN {} ELSE {"membership"})
      [] e.op = "info" ->
           LET m == s.met[e.m] IN
           (IF e.id = HashOf(m.name, MetricBits) THEN {} ELSE {"info-id"})
           \cup (IF e.name = m.name /\ e.t = m.t /\ e.sem = m.sem /\ e.short = m.short /\ e.long = m.long THEN {} ELSE {"info"})
           \cup (IF e.u = m.u THEN {} ELSE {"info-unit"})
           \cup (IF m.ind = -1 THEN (IF e.ind = -1 THEN {} ELSE {"info"})
                 ELSE (IF e.ind = s.ind[m.ind].name /\ Rng(e.insts) = s.ind[m.ind].insts /\ Len(e.insts) = Cardinality(s.ind[m.ind].insts) THEN {} ELSE {"info"})
                      \cup (IF e.indid = HashOf(s.ind[m.ind].name, IndomBits) THEN {} ELSE {"info-id"}))
      [] e.op = "made" ->
           IF \A i \in DOMAIN e.made : LET x == e.made[i] IN x.id = HashOf(x.name, IF x.dom THEN IndomBits ELSE MetricBits)
           THEN {} ELSE {"info-id"}
      [] e.op = "get" ->
           LET m == s.met[e.m] IN
           IF e.i \in DOMAIN m.vals
           THEN (IF e.r = "ok" /\ Norm(m.t, e.w) = m.vals[e.i].w /\ e.s = m.vals[e.i].s THEN {} ELSE {"read-" \o m.kind})
           ELSE (IF e.r = "err" THEN {} ELSE {"res-unknown-inst"})
      [] OTHER -> {}

(* what readers took for complete on the way, other than the final file *)
PubBad(s, e) ==
    IF Has(e, "pubs") /\ \E i \in DOMAIN e.pubs : Accepted(e.pubs[i]) /\ ImageBad(s, e.c, e.pubs[i]) # {} THEN {"incomplete"} ELSE {}

Structural(b) == \E x \in b : x \in {"panic", "hang", "counts", "read-single"} \/ x \in {"res-" \o e \o "-" \o k :
                   e \in {"client", "indom", "metric", "regindom", "indombyname", "register", "regstring", "upd", "timer", "hist", "flag", "start", "stop", "erase"},
                   k \in {"", "single", "inst", "counter", "gauge", "timer", "cvec", "gvec", "hist"}}

Say(b, n, e) == \A x \in b : PrintT(<<"BAD", x, n, e.sid>>)
=============================================================================
