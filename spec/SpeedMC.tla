------------------------------- MODULE SpeedMC -------------------------------
(* Speed with a few objects, explored whole. The files are explicit here: what  *)
(* a start writes, and what an update changes in it. The properties are         *)
(* invariants and properties of steps; Mutant names a way to get the library    *)
(* wrong, each of which has to break one of them. The calls are those of a      *)
(* universe, U; with Log every step is printed, and the paths made of them are  *)
(* replayed on the library.                                                     *)
EXTENDS Floats, SequencesExt, TLCExt, Json

CONSTANTS U, Mutant, Log

VARIABLES st, file, res        \* res: what the call returned

vars == <<st, file, res>>

-----------------------------------------------------------------------------
(* texts, as bytes *)
T_i1 == 8  T_i2 == 9  T_a == 10  T_b == 11  T_c == 12  T_ca == 13  T_cb == 14  T_x == 15  T_s == 16
T_xb == 17  T_xc == 18  T_v == 19  T_vi == 20  T_none == 21  T_str1 == 22  T_str2 == 23  T_str3 == 24  T_t == 25  T_str4 == 26  T_long == 27
T_g == 28  T_gi == 29  T_y == 30  T_z == 31  T_longi == 32  T_d1 == 33  T_d2 == 34  T_e == 35
Names == <<
  <<104,105,115,116,111,103,114,97,109>>, <<109,105,110>>, <<109,97,120>>, <<109,101,97,110>>, <<118,97,114,105,97,110,99,101>>,
  <<115,116,97,110,100,97,114,100,95,100,101,118,105,97,116,105,111,110>>, <<46,105,110,100,111,109>>,
  <<105,49>>, <<105,50>>, <<97>>, <<98>>, <<99>>, <<99,97>>, <<99,98>>, <<120>>, <<115>>,
  <<120,46,98>>, <<120,46,99>>, <<118>>, <<118,46,105,110,100,111,109>>, <<110,111>>,
  <<120,91,105,49,93,46,98>>, <<120,91,105,49,44,32,105,50,93,46,99>>, <<120,91,105,49>>, <<116>>, <<97,91,105,49,93>>,
  [k \in 1..64 |-> 108], <<103>>, <<103,46,105,110,100,111,109>>, <<121>>, <<122>>, [k \in 1..64 |-> 105],
  <<115,104,111,114,116>>, <<108,111,110,103>>, <<101>> >>

W(n) == <<0, 0, 0, n>>
I64(n) == [k |-> "int64", w |-> W(n), f |-> W0, s |-> 0]
I32(n) == [k |-> "int32", w |-> W(n), f |-> W0, s |-> 0]
U32(n) == [k |-> "uint32", w |-> W(n), f |-> W0, s |-> 0]
Text(s) == [k |-> "string", w |-> W0, f |-> W0, s |-> s]
NoUnit == <<0, 0>>
F(n) == [k |-> "float64", w |-> F64(n), f |-> W0, s |-> 0]

(* constructors *)
Client(c, name, r) == [op |-> "client", c |-> c, name |-> name, reg |-> r]
Indom(d, name, insts) == [op |-> "indom", d |-> d, name |-> name, insts |-> insts, desc |-> <<>>]
Counter(m, name) == [op |-> "metric", kind |-> "counter", m |-> m, name |-> name, desc |-> <<>>, v |-> I64(0), u |-> OneUnit]
Single(m, name, t, v) == [op |-> "metric", kind |-> "single", m |-> m, name |-> name, desc |-> <<>>, t |-> t, sem |-> 3, u |-> NoUnit, v |-> v]
Inst(m, name, d, t, vals) == [op |-> "metric", kind |-> "inst", m |-> m, name |-> name, desc |-> <<>>, t |-> t, sem |-> 3, u |-> NoUnit, d |-> d, vals |-> vals]
CVec(m, name, d, iname, insts) == [op |-> "metric", kind |-> "cvec", m |-> m, name |-> name, desc |-> <<>>, d |-> d, iname |-> iname, u |-> OneUnit,
                                   vals |-> [k \in DOMAIN insts |-> [i |-> insts[k], v |-> I64(0)]]]
GVec(m, name, d, iname, insts) == [op |-> "metric", kind |-> "gvec", m |-> m, name |-> name, desc |-> <<>>, d |-> d, iname |-> iname, u |-> OneUnit,
                                   vals |-> [k \in DOMAIN insts |-> [i |-> insts[k], v |-> F(0)]]]
Gauge(m, name) == [op |-> "metric", kind |-> "gauge", m |-> m, name |-> name, desc |-> <<>>, v |-> F(0), u |-> OneUnit]
Hist_(m, name, high) == [op |-> "metric", kind |-> "hist", m |-> m, name |-> name, desc |-> <<>>, u |-> OneUnit, low |-> 0, high |-> high, sig |-> 3, q |-> 1,
                         hmax |-> 2147483647]
Timer_(m, name) == [op |-> "metric", kind |-> "timer", m |-> m, name |-> name, desc |-> <<>>, u |-> <<256, 12288>>, t |-> 3]
Desc(o, d) == [o EXCEPT !.desc = d]

(* calls *)
RegI(c, d) == [op |-> "regindom", c |-> c, d |-> d, must |-> FALSE]
ByName(c, d, name, insts) == [op |-> "indombyname", c |-> c, d |-> d, name |-> name, insts |-> insts, desc |-> <<>>]
Reg(c, m) == [op |-> "register", c |-> c, m |-> m, must |-> FALSE]
Str_(c, m, d, s, isI, v, vals, p) == [op |-> "regstring", c |-> c, m |-> m, d |-> d, str |-> s, isI |-> isI, t |-> Int32T, sem |-> 3, u |-> NoUnit,
                                      v |-> v, vals |-> vals, must |-> FALSE, p |-> p]
P1(metric) == [ok |-> TRUE, br |-> FALSE, metric |-> metric, indom |-> 0, insts |-> {}]
P2(metric, indom, insts) == [ok |-> TRUE, br |-> TRUE, metric |-> metric, indom |-> indom, insts |-> insts]
PNo == [ok |-> FALSE, br |-> FALSE, metric |-> 0, indom |-> 0, insts |-> {}]
Upd_(m, f, i, v) == [op |-> "upd", m |-> m, f |-> f, i |-> i, v |-> v, must |-> FALSE, sums |-> <<>>, rb |-> <<>>]
Rec(m, val, n) == [op |-> "hist", m |-> m, val |-> val, n |-> n, f |-> IF n = 1 THEN "Record" ELSE "RecordN", must |-> FALSE, r |-> "err"]
Tim(m, f) == [op |-> "timer", m |-> m, f |-> f, must |-> FALSE, r |-> "ok", lo |-> 0, hi |-> 0, us |-> 0, tot |-> W0]
Must(o) == [o EXCEPT !.must = TRUE]
Start_(c, fault) == [op |-> "start", c |-> c, fault |-> fault # "", how |-> fault, lost |-> fault = "nofile", cl |-> <<>>, must |-> FALSE]
Stop_(c) == [op |-> "stop", c |-> c, must |-> FALSE]
Flag(c, f) == [op |-> "flag", c |-> c, flag |-> f]
Erase(b) == [op |-> "erase", on |-> b]

IV1(i, v) == <<[i |-> i, v |-> v]>>

-----------------------------------------------------------------------------
(* the universes: what is there at first, and the calls *)
Prefix ==
    CASE U = "reg" ->
           << Client(1, T_ca, 1), Client(2, T_cb, 1),
              Indom(1, T_x, <<T_i1>>), Indom(2, T_x, <<T_i1, T_i2>>),
              Counter(1, T_a), Single(2, T_a, Int32T, I32(1)),
              Inst(3, T_b, 1, Int32T, IV1(T_i1, I32(1))),
              Inst(4, T_c, 2, Uint32T, <<[i |-> T_i1, v |-> U32(1)], [i |-> T_i2, v |-> U32(2)]>>) >>
      [] U = "life" ->
           << Client(1, T_ca, 1), Indom(1, T_x, <<T_i1>>),
              Counter(1, T_a), Single(2, T_s, StringT, Text(T_a)), CVec(3, T_v, 2, T_vi, <<T_i1, T_i2>>),
              Single(4, T_long, Uint64T, [k |-> "uint", w |-> W(7), f |-> W0, s |-> 0]),
              Reg(1, 1), Reg(1, 2), Reg(1, 3) >>
      [] U = "two" ->
           << Client(1, T_ca, 1), Client(2, T_cb, 2), Indom(1, T_x, <<T_i1>>),
              Counter(1, T_a), Inst(2, T_b, 1, Int32T, IV1(T_i1, I32(0))),
              Counter(3, T_a), Inst(4, T_c, 1, Int32T, IV1(T_i1, I32(0))) >>
      [] U = "vec" ->
           << Client(1, T_ca, 1), CVec(1, T_v, 1, T_vi, <<T_i1, T_i2>>), GVec(2, T_g, 2, T_gi, <<T_i1, T_i2>>),
              Inst(3, T_b, 2, Int32T, <<[i |-> T_i1, v |-> I32(0)], [i |-> T_i2, v |-> I32(0)]>>),
              Reg(1, 1), Reg(1, 2), Reg(1, 3) >>
      [] U = "texts" ->
           << Client(1, T_ca, 1), Desc(Indom(1, T_x, <<T_i1>>), <<T_d1>>), Desc(Indom(2, T_y, <<T_i2, T_longi>>), <<T_d1, T_d2>>), Indom(3, T_z, <<>>),
              Desc(Counter(1, T_long), <<T_d1>>), Desc(Single(2, T_a, StringT, Text(T_b)), <<T_d1, T_d2>>),
              Inst(3, T_b, 1, StringT, IV1(T_i1, Text(0))), Single(4, T_c, DoubleT, F(1)),
              Inst(5, T_e, 2, FloatT, <<[i |-> T_i2, v |-> [k |-> "float32", w |-> <<0, 0, 16256, 0>>, f |-> W0, s |-> 0]],
                                        [i |-> T_longi, v |-> [k |-> "float32", w |-> <<0, 0, 16384, 0>>, f |-> W0, s |-> 0]]>>) >>
      [] U = "stats" ->
           << Client(1, T_ca, 1), Client(2, T_cb, 2), Hist_(1, T_a, 1000), Hist_(2, T_b, 1000), Timer_(3, T_t),
              Reg(1, 1), Reg(1, 3), Reg(2, 2) >>
      [] U = "names" ->
           << Client(1, T_ca, 1), Client(2, T_cb, 2), Indom(1, T_x, <<T_i1>>), Desc(Indom(2, T_x, <<T_i1>>), <<T_d1, T_d2>>), Indom(3, T_x, <<T_i2>>),
              Inst(1, T_a, 1, Int32T, IV1(T_i1, I32(1))), Inst(2, T_a, 2, Int32T, IV1(T_i1, I32(2))), Inst(3, T_b, 2, StringT, IV1(T_i1, Text(T_d2))),
              Inst(4, T_b, 3, Int32T, IV1(T_i2, I32(3))) >>

Calls ==
    CASE U = "reg" ->
           << RegI(1, 1), RegI(1, 2), ByName(1, 8, T_x, <<T_i1>>), Reg(1, 1), Reg(1, 2), Reg(1, 3), Reg(2, 4),
              Str_(1, 11, 11, T_str1, TRUE, Text(0), IV1(T_i1, I32(3)), P2(T_xb, T_x, {T_i1})),
              Str_(1, 12, 12, T_str2, TRUE, Text(0), <<[i |-> T_i1, v |-> I32(4)], [i |-> T_i2, v |-> I32(5)]>>, P2(T_xc, T_x, {T_i1, T_i2})),
              Str_(1, 13, 13, T_str2, TRUE, Text(0), IV1(T_i1, I32(4)), P2(T_xc, T_x, {T_i1, T_i2})),
              Str_(1, 14, 14, T_a, FALSE, I32(6), <<>>, P1(T_a)),
              Str_(1, 15, 15, T_t, FALSE, U32(6), <<>>, P1(T_t)),
              Str_(1, 16, 16, T_str4, TRUE, Text(0), IV1(T_i1, I32(4)), P2(T_a, T_a, {T_i1})),
              Str_(1, 17, 17, T_str3, TRUE, Text(0), IV1(T_i1, I32(4)), PNo),
              Start_(1, ""), Stop_(1), Start_(2, ""), Stop_(2) >>
      [] U = "life" ->
           << Start_(1, ""), Start_(1, "dir"), Start_(1, "nofile"), Stop_(1), Erase(TRUE), Erase(FALSE), Flag(1, 1), Flag(1, 2), Reg(1, 4), Reg(1, 1),
              Upd_(1, "Inc", 0, I64(1)), Upd_(1, "Set", 0, I64(1)), Upd_(2, "Set", 0, Text(T_b)), Upd_(2, "Set", 0, Text(0)), Upd_(2, "Set", 0, I32(1)),
              Upd_(3, "Inc", T_i1, I64(1)), Upd_(3, "SetAll", 0, I64(1)), Upd_(3, "Set", T_none, I64(1)), Upd_(3, "IncAll", 0, I64(1)) >>
      [] U = "two" ->
           << Reg(1, 1), Reg(1, 2), Reg(2, 3), Reg(2, 4), RegI(1, 1), Start_(1, ""), Stop_(1), Start_(2, ""), Stop_(2),
              Upd_(1, "Inc", 0, I64(1)), Upd_(2, "Set", T_i1, I32(1)), Upd_(2, "Set", T_i1, I32(0)), Upd_(3, "Inc", 0, I64(1)), Upd_(4, "Set", T_i1, I32(1)) >>
      [] U = "vec" ->
           << Start_(1, ""), Stop_(1),
              Upd_(1, "Inc", T_i1, I64(1)), Must(Upd_(1, "Inc", T_i2, I64(1))), Upd_(1, "Set", T_i2, I64(1)), Must(Upd_(1, "Set", T_i1, I64(0))),
              Upd_(1, "SetAll", 0, I64(1)), Upd_(1, "IncAll", 0, I64(1)), Upd_(1, "IncAll", 0, [I64(0) EXCEPT !.w = <<65535, 65535, 65535, 65535>>]), Upd_(1, "Inc", T_none, I64(0)),
              Upd_(2, "Inc", T_i1, F(1)), Must(Upd_(2, "Dec", T_i1, F(1))), Upd_(2, "Dec", T_i2, F(1)), Upd_(2, "Set", T_i2, F(1)),
              Upd_(2, "SetAll", 0, F(0)), Upd_(2, "IncAll", 0, F(1)), Upd_(2, "DecAll", 0, F(1)), Must(Upd_(2, "Set", T_none, F(1))), Upd_(2, "Dec", T_none, F(0)),
              Upd_(3, "Set", T_i1, I32(1)), Must(Upd_(3, "Set", T_i1, U32(0))), Upd_(3, "Set", T_none, I32(1)) >>
      [] U = "texts" ->
           << Start_(1, ""), Stop_(1), RegI(1, 1), RegI(1, 2), RegI(1, 3), Reg(1, 1), Reg(1, 2), Reg(1, 3), Reg(1, 4), Reg(1, 5),
              Upd_(2, "Set", 0, Text(0)), Upd_(2, "Set", 0, Text(T_long)), Upd_(3, "Set", T_i1, Text(T_d1)) >>
      [] U = "stats" ->
           << Start_(1, ""), Stop_(1), Start_(2, ""), Must(Stop_(2)),
              Rec(1, 2, 1), Must(Rec(1, 2, 1)), Rec(1, 2, 2), Rec(1, 2, 0), Rec(1, -1, 1), Rec(1, 2, -1), Must(Rec(2, 2, 1)), Must(Rec(2, -1, 1)),
              Tim(3, "TStart"), Tim(3, "TStop"), Tim(3, "TReset") >>
      [] U = "names" ->
           << RegI(1, 1), RegI(1, 2), RegI(2, 2), Must(RegI(2, 3)), Reg(1, 1), Must(Reg(1, 3)), Reg(1, 4), Reg(2, 2), Reg(2, 4), Reg(2, 3),
              Start_(1, ""), Must(Start_(2, "")), Must(Stop_(1)), Stop_(2), Upd_(1, "Set", T_i1, I32(2)), Upd_(2, "Set", T_i1, I32(1)) >>

Limit == CASE U \in {"two", "vec"} -> 1 [] OTHER -> 2

-----------------------------------------------------------------------------
NoP == [ok |-> FALSE]

(* with the sums of gauges, which come with the run elsewhere; what is read back *)
(* after a refusal in the middle is what was there                              *)
Summed(s, o) ==
    IF o.op # "upd" THEN o
    ELSE LET m == s.met[o.m]
             d == IF o.f \in {"Dec", "DecAll"} THEN -IntOf(o.v.w) ELSE IntOf(o.v.w)
             rb == {[i |-> i, w |-> m.vals[i].w, s |-> m.vals[i].s] : i \in DOMAIN m.vals}
             o1 == [o EXCEPT !.rb = SetToSeq(rb)] IN
         IF m.kind \in {"gauge", "gvec"} /\ o.f \in {"Inc", "Dec", "IncAll", "DecAll"}
         THEN [o1 EXCEPT !.sums = SetToSeq({[i |-> i, p |-> m.vals[i].w, s |-> F64(IntOf(m.vals[i].w) + d), dy |-> FALSE] :
                                             i \in IF o.f \in {"Inc", "Dec"} THEN DOMAIN m.vals \cap {o.i} ELSE DOMAIN m.vals})]
         ELSE o1
(* of a histogram in which one value, 2, is recorded everything is known *)
Recorded(s, o) ==
    LET x == HistEff(s, o)  two == Num(F64(2)) IN
    IF x.exp # "ok" \/ (o.n = 0 /\ Count(s.met[o.m].h) = 0) THEN x
    ELSE [x EXCEPT !.st.met[o.m].vals = [i \in DOMAIN @ |-> IF i \in 2..4 THEN two ELSE Num(W0)]]
After(s, o) == IF o.op = "hist" THEN Recorded(s, o) ELSE Eff(s, Summed(s, o), IF o.op = "regstring" THEN o.p ELSE NoP)

RECURSIVE Run(_, _)
Run(s, os) == IF os = <<>> THEN s ELSE Run(After(s, os[1]).st, Tail(os))
Start0 == Run(Init0, Prefix)

Content(s, c) ==
    LET r == s.cli[c].r IN
    [on |-> TRUE, flag |-> s.cli[c].flag, indoms |-> MustIndoms(s, r), metrics |-> MustMetrics(s, r), vals |-> MustValues(s, r)]
NoContent == [on |-> FALSE, flag |-> 0, indoms |-> {}, metrics |-> {}, vals |-> {}]

(* not supported: two started clients of one registry, and a start of a started *)
(* client that fails after it took the file away                               *)
Supported(s, o) == o.op = "start" => ~(o.how = "nofile" /\ s.cli[o.c].act) /\ \A c \in DOMAIN s.cli : c # o.c /\ s.cli[c].r = s.cli[o.c].r => ~s.cli[c].act

Small(s) == /\ \A m \in DOMAIN s.met : s.met[m].kind \in {"gauge", "gvec"} =>
                  \A i \in DOMAIN s.met[m].vals : IntOf(s.met[m].vals[i].w) \in -1..1
            /\ \A m \in DOMAIN s.met : s.met[m].kind = "hist" => Count(s.met[m].h) <= Limit
            /\ \A m \in DOMAIN s.met : s.met[m].t = StringT \/ s.met[m].kind \notin {"counter", "cvec"}
                                    \/ \A i \in DOMAIN s.met[m].vals : ULe(s.met[m].vals[i].w, W(Limit))

(* what a call does to the file of c *)
Store(f, s, s1, o, c) ==
    LET r == s.cli[c].r  ok == o.op \in {"upd", "hist", "timer"} /\ s.cli[c].act /\ o.m \in s.reg[r].met IN
    IF o.op = "start" /\ o.c = c /\ ~o.fault THEN Content(s1, c)
    ELSE IF ok /\ ~(Mutant = "update lost" /\ s.cli[c].flag = 1)
         THEN [f EXCEPT !.vals = {IF v.metric = s.met[o.m].name
                                  THEN [v EXCEPT !.w = s1.met[o.m].vals[v.inst.n].w, !.s = s1.met[o.m].vals[v.inst.n].s]
                                  ELSE v : v \in f.vals}]
    ELSE IF o.op \in {"start", "stop"} /\ o.c = c /\ ~s1.cli[c].file THEN NoContent
    ELSE IF Mutant = "stray store" /\ o.op \in {"upd", "hist", "timer"} /\ ~s.cli[c].act /\ f.on THEN [f EXCEPT !.vals = {}]
    ELSE f

(* ways to get it wrong *)
Wrong(s, o, x) ==
    CASE Mutant = "register while started" /\ o.op = "register" /\ x.exp = "err" -> [x EXCEPT !.st = AddMetric(s, s.cli[o.c].r, o.m)]
      [] Mutant = "leaves a domain" /\ o.op = "regstring" /\ x.exp = "err" /\ o.p.ok /\ o.p.br /\ IndomNamed(s, s.cli[o.c].r, o.p.indom) = {} ->
            [x EXCEPT !.st.ind = @ @@ (o.d :> [name |-> o.p.indom, insts |-> o.p.insts, short |-> 0, long |-> 0]), !.st.reg[s.cli[o.c].r].ind = @ \cup {o.d}]
      [] Mutant = "other domain" /\ o.op = "register" /\ x.exp = "err" /\ ~Mapped(s, s.cli[o.c].r) /\ MetricNamed(s, s.cli[o.c].r, s.met[o.m].name) = {} ->
            [x EXCEPT !.st = AddMetric(s, s.cli[o.c].r, o.m), !.exp = "ok"]
      [] Mutant = "same name" /\ o.op = "register" /\ x.exp = "err" /\ ~Mapped(s, s.cli[o.c].r) /\ s.met[o.m].ind = -1 ->
            [x EXCEPT !.st = AddMetric(s, s.cli[o.c].r, o.m), !.exp = "ok"]
      [] Mutant = "counter back" /\ o.op = "upd" /\ x.exp = "err" /\ s.met[o.m].kind = "counter" -> [x EXCEPT !.st.met[o.m].vals[0] = Num(o.v.w)]
      [] Mutant = "other instance" /\ o.op = "upd" /\ o.f = "Inc" /\ s.met[o.m].kind = "cvec" ->
            [x EXCEPT !.st.met[o.m].vals = [i \in DOMAIN @ |-> Num(Add(s.met[o.m].vals[i].w, o.v.w))]]
      [] Mutant = "stop resets" /\ o.op = "stop" /\ x.exp = "ok" -> [x EXCEPT !.st.met[1].vals[0] = Num(W0)]
      [] Mutant = "stop of both" /\ o.op = "stop" /\ x.exp = "ok" -> [x EXCEPT !.st.cli = [c \in DOMAIN @ |-> [@[c] EXCEPT !.act = FALSE]]]
      [] Mutant = "shared recordings" /\ o.op = "hist" /\ x.exp = "ok" ->
            [x EXCEPT !.st.met = [m \in DOMAIN @ |-> IF @[m].kind = "hist" THEN [@[m] EXCEPT !.h = x.st.met[o.m].h, !.vals = x.st.met[o.m].vals] ELSE @[m]]]
      [] Mutant = "started twice" /\ o.op = "timer" /\ o.f = "TStart" -> [x EXCEPT !.exp = "ok"]
      [] Mutant = "domain by name" /\ o.op = "register" /\ x.exp = "err" /\ ~Mapped(s, s.cli[o.c].r) /\ MetricNamed(s, s.cli[o.c].r, s.met[o.m].name) = {} ->
            [x EXCEPT !.st = AddMetric(s, s.cli[o.c].r, o.m), !.exp = "ok"]
      [] Mutant = "domain of both" /\ o.op = "regindom" /\ x.exp = "ok" -> [x EXCEPT !.st.reg = [r \in DOMAIN @ |-> [@[r] EXCEPT !.ind = @ \cup {o.d}]]]
      [] OTHER -> x

Init == st = Start0 /\ file = [c \in DOMAIN Start0.cli |-> NoContent] /\ res = [k |-> 0, r |-> "ok", odd |-> FALSE]

Next == \E k \in DOMAIN Calls :
    LET o == Calls[k]  x == Wrong(st, o, After(st, o)) IN
    /\ Supported(st, o) = TRUE         \* TLC would take the parts for steps
    /\ Small(x.st) = TRUE
    /\ st' = x.st
    /\ file' = [c \in DOMAIN file |-> Store(file[c], st, x.st, o, c)]
    /\ res' = [k |-> k, r |-> x.exp, odd |-> ~res.odd]     \* odd: no step stutters
    /\ IF Log THEN PrintT("E " \o ToString(TLCFP(st)) \o " " \o ToString(k) \o " " \o ToString(TLCFP(x.st))) ELSE TRUE

Spec == Init /\ [][Next]_vars

(* what a file that nobody writes to says matters to nothing that comes *)
Live == <<st, [c \in DOMAIN file |-> IF st.cli[c].act THEN file[c] ELSE file[c].on]>>

-----------------------------------------------------------------------------
(* the properties *)
FileShows == \A c \in DOMAIN file : st.cli[c].act => file[c] = Content(st, c)                      \* P01, P04, P10
FileThere == \A c \in DOMAIN file : file[c].on = st.cli[c].file                                      \* P09
OneName == \A r \in DOMAIN st.reg : /\ \A m, n \in st.reg[r].met : m # n => st.met[m].name # st.met[n].name     \* P08
                                    /\ \A d, e \in st.reg[r].ind : d # e => st.ind[d].name # st.ind[e].name
DomainsFit == \A r \in DOMAIN st.reg : \A m \in st.reg[r].met : st.met[m].ind # -1 =>                  \* P08, P01
                 \E d \in st.reg[r].ind : /\ st.ind[d].name = st.ind[st.met[m].ind].name
                                          /\ st.ind[d].insts = Insts(st, m)
Covered == \A r \in DOMAIN st.reg :                                                                     \* P02
              LET v == IF Version2(st, r) THEN 2 ELSE 1 IN
              FileLength(st, r) = HeaderLen + TocLen * TocCount(st, r)
                 + SumSet([d \in st.reg[r].ind |-> IndomLen + Cardinality(st.ind[d].insts) * InstLen(v)], st.reg[r].ind)
                 + SumSet([m \in st.reg[r].met |-> MetricLen(v) + Cardinality(Insts(st, m)) * ValueLen], st.reg[r].met)
                 + StringLen * StringCount(st, r)

Refused == [][res'.r = "err" /\ ~(Calls[res'.k].op = "start" /\ Calls[res'.k].lost) => st' = st /\ file' = file]_vars                                     \* P05, P06, P08, P09, P22
Frozen == [][\A r \in DOMAIN st.reg : Mapped(st, r) /\ Mapped(st', r) => st'.reg[r] = st.reg[r]]_vars  \* P09
Forward == [][\A m \in DOMAIN st.met : st.met[m].kind \in {"counter", "cvec"} =>                        \* P06
                 \A i \in Insts(st, m) : ULe(st.met[m].vals[i].w, st'.met[m].vals[i].w)]_vars
OnlyNamed == [][LET o == Calls[res'.k] IN                                                              \* P22
                 \A m \in DOMAIN st.met : \A i \in Insts(st, m) :
                    st'.met[m].vals[i] # st.met[m].vals[i] =>
                       /\ o.op \in {"upd", "hist", "timer"} /\ o.m = m
                       /\ o.op = "upd" => o.i = i \/ o.f \in {"SetAll", "IncAll", "DecAll"}]_vars
Started == [][LET o == Calls[res'.k] IN                                                                \* P15
               o.op = "timer" => (res'.r = "ok") = (IF o.f = "TStop" THEN st.met[o.m].on ELSE ~st.met[o.m].on)]_vars
Counted == [][LET o == Calls[res'.k] IN                                                                \* P16
               \A m \in DOMAIN st.met : st.met[m].kind = "hist" =>
                  Count(st'.met[m].h) = Count(st.met[m].h) + (IF o.op = "hist" /\ o.m = m /\ res'.r = "ok" THEN o.n ELSE 0)]_vars
Apart == [][LET o == Calls[res'.k] IN                                                                  \* P23
             "c" \in DOMAIN o => \A c \in DOMAIN st.cli : c # o.c => st'.cli[c] = st.cli[c] /\ file'[c] = file[c]]_vars
Still == [][LET o == Calls[res'.k] IN                                                                  \* P04
             \A c \in DOMAIN st.cli : ~st.cli[c].act /\ ~(o.op = "start" /\ o.c = c) => file'[c] = file[c]]_vars

(* for the replay *)
Script == PrintT("PREFIX " \o ToJson(Prefix)) /\ PrintT("CALLS " \o ToJson(Calls)) /\ PrintT("NAMES " \o ToJson(Names)) /\ PrintT("ROOT " \o ToString(TLCFP(Start0)))
ASSUME Log => Script
=============================================================================
