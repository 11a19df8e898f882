--------------------------------- MODULE Lin ---------------------------------
(* Are histories of concurrent calls on the real library linearizable? In a    *)
(* block every call has two stamps; TLC looks for an order of the calls that   *)
(* keeps the order of those that do not overlap, in which Speed gives the      *)
(* results that were returned, and the state that was found afterwards. Each   *)
(* history is explored on its own; those for which there is an order are       *)
(* printed.                                                                    *)
EXTENDS SpeedObs, Floats

VARIABLES h, l, st, open, rest

vars == <<h, l, st, open, rest>>

Begins == {n \in DOMAIN Raw : Has(Raw[n], "op") /\ Raw[n].op = "begin"}

Init == h \in Begins /\ l = h + 1 /\ st = Init0 /\ open = FALSE /\ rest = {}

CountOf(s, r, which) == CASE which = 1 -> MetricCount(s, r) [] which = 2 -> ValueCount(s, r) [] which = 3 -> IndomCount(s, r)
                          [] which = 4 -> InstCount(s, r) [] OTHER -> StringCount(s, r)

(* the effect of a call, if it can come now *)
No_ == [ok |-> FALSE, st |-> Init0]
Can(ok, s) == [ok |-> ok, st |-> s]

Call(s, o) ==
    IF ~Known(s, o) THEN No_
    ELSE CASE o.op = "upd" -> LET x == Update(s, WithSum(s, o)) IN Can(x.exp = o.r /\ x.bad = {}, x.st)
      [] o.op = "hist" -> LET x == HistEff(s, o) IN Can(x.exp = o.r, x.st)
      [] o.op = "timer" -> LET x == TimerOp(s, o) IN
            Can(/\ x.exp = o.r /\ x.bad = {}
                /\ (o.f = "TStop" /\ o.r = "ok") => ULe(s.met[o.m].vals[0].w, o.tot), x.st)
      [] o.op = "get" -> LET m == s.met[o.m] IN
            Can(IF o.i \in DOMAIN m.vals THEN o.r = "ok" /\ Norm(m.t, o.w) = m.vals[o.i].w /\ o.s = m.vals[o.i].s ELSE o.r = "err", s)
      [] o.op = "peek" -> Can(o.r = "ok", s)
      [] o.op = "stat" -> LET g == s.met[o.m].h IN
            Can(o.r = "ok" /\ CASE o.which = 0 -> MinOK(g, o.v) [] o.which = 1 -> MaxOK(g, o.v) [] o.which = 2 -> MeanOK(g, o.v)
                                [] o.which = 3 -> PercentileOK(g, 500, o.v) [] o.which = 4 -> o.v = Count(g) [] OTHER -> DevOK(g, o.v), s)
      [] o.op = "mono" -> Can(o.r = "ok" /\ ~o.back, s)
      [] o.op = "has1" -> LET r == s.cli[o.c].r IN
            Can(o.r = "ok" /\ o.yes = ((IF o.metric THEN MetricNamed(s, r, o.name) ELSE IndomNamed(s, r, o.name)) # {}), s)
      [] o.op = "count" -> Can(o.r = "ok" /\ o.n = CountOf(s, s.cli[o.c].r, o.which), s)
      [] o.op \in {"start", "stop", "flag", "register", "regstring", "regindom", "indombyname"} ->
            LET p == Parsed(o)  x == Eff(s, o, p) IN
            Can(x.exp = o.r /\ x.bad = {} /\ OtherBad(x.st, o, p) = {}, x.st)
      [] OTHER -> No_

-----------------------------------------------------------------------------
(* what is found after a block *)
SyncMet(s, x) ==
    /\ x.m \in DOMAIN s.met
    /\ LET m == s.met[x.m] IN
       IF x.hist THEN HistBad(m.h, x.hs) = {}
       ELSE ReadBad(s, s, [op |-> "sync", m |-> x.m, rb |-> x.rb]) = {}

(* what a histogram published is what it reported *)
Settle(s, e) ==
    [s EXCEPT !.met = [k \in DOMAIN s.met |->
        LET m == s.met[k]
            H == {x \in Rng(e.mets) : x.m = k /\ x.hist} IN
        IF H = {} THEN m ELSE [m EXCEPT !.vals = Readback(m, CHOOSE x \in H : TRUE)]]]

SyncCli(s, ob) ==
    LET c == ob.c IN
    /\ c \in DOMAIN s.cli
    /\ CountBad(s, ob) = {}
    /\ ob.ex = s.cli[c].file
    /\ IF s.cli[c].act
       THEN ob.maps = 1 /\ ob.fds <= 1 /\ Has(ob, "img") /\ ImageBad(s, c, ob.img) = {}
       ELSE ob.maps = 0 /\ ob.fds = 0

Over == l > Len(Raw) \/ Raw[l].op = "begin"

(* ever smaller values were recorded, and the smallest one asked for in two ways *)
Climb ==
    /\ ~open /\ ~Over /\ Raw[l].op = "climb"
    /\ LET r == Raw[l].reads IN
       IF \A k \in DOMAIN r : r[k] \in 1..Raw[l].top /\ (k > 1 => r[k] <= r[k - 1]) THEN TRUE
       ELSE PrintT(<<"BAD", "hist-climb", l, Raw[l].sid>>)
    /\ l' = l + 1
    /\ UNCHANGED <<h, st, open, rest>>

Seq1 ==
    /\ ~open /\ ~Over /\ Raw[l].op \notin {"conc", "sync", "climb"}
    /\ LET e == Raw[l] IN
       /\ Known(st, e)
       /\ LET p == Parsed(e)
              x == Eff(st, e, p)
              b == ResultBad(st, e, x) \cup x.bad
                   \cup ReadBad(st, x.st, e) \cup ObsBad(st, x.st, e) \cup OtherBad(x.st, e, p)
          IN /\ Say(b, l, e)
             /\ st' = x.st
    /\ l' = l + 1
    /\ UNCHANGED <<h, open, rest>>

Enter ==
    /\ ~open /\ ~Over /\ Raw[l].op = "conc"
    /\ IF Raw[l].hang THEN PrintT(<<"BAD", "hang", l, Raw[l].sid>>) /\ FALSE ELSE TRUE
    /\ open' = TRUE /\ rest' = DOMAIN Raw[l].ops
    /\ UNCHANGED <<h, l, st>>

Step(i) ==
    LET ops == Raw[l].ops IN
    /\ ~(\E j \in rest : ops[j].e < ops[i].b)
    /\ LET x == Call(st, ops[i]) IN x.ok /\ st' = x.st
    /\ rest' = rest \ {i}
    /\ UNCHANGED <<h, l, open>>

Leave ==
    /\ open /\ rest = {}
    /\ open' = FALSE /\ l' = l + 1
    /\ UNCHANGED <<h, st, rest>>

Sync ==
    /\ ~open /\ ~Over /\ Raw[l].op = "sync"
    /\ LET e == Raw[l]  s == Settle(st, e) IN
       /\ \A x \in Rng(e.mets) : SyncMet(st, x)
       /\ \A ob \in Rng(e.cl) : SyncCli(s, ob)
       /\ st' = s
       /\ PrintT(<<"AT", h, l>>)
    /\ l' = l + 1
    /\ UNCHANGED <<h, open, rest>>

Next == Seq1 \/ Climb \/ Enter \/ (open /\ \E i \in rest : Step(i)) \/ Leave \/ Sync

Spec == Init /\ [][Next]_vars

Done == (~open /\ Over) => PrintT(<<"LIN", h>>)
=============================================================================
