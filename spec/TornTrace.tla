------------------------------ MODULE TornTrace ------------------------------
(* What readers of a mapped file saw in the words of values that were updated  *)
(* meanwhile: only words of values that were written (Torn).                   *)
EXTENDS Values, Json, IOUtils, TLC

Raw == ndJsonDeserialize(IOEnv.TRACE)
Rng(s) == {s[i] : i \in DOMAIN s}

VARIABLE l

(* increments by 0x0001000100010001 from zero *)
StepWord(s, w) == w[1] = w[2] /\ w[2] = w[3] /\ w[3] = w[4] /\ w[1] <= s.n

Whole(s, w) ==
    IF s.steps THEN StepWord(s, w)
    ELSE \E v \in Rng(s.vals) : Norm(s.t, w) = Stored(s.t, v).w

Bad(e) ==
    UNION {(IF \A w \in Rng(s.seen) : Whole(s, w) THEN {} ELSE {"torn-" \o s.kind})
           \cup (IF s.back THEN {"torn-back"} ELSE {})
           \cup (IF (s.steps /\ s.last # <<s.n, s.n, s.n, s.n>>) \/ ~Whole(s, s.last) THEN {"torn-last"} ELSE {}) : s \in Rng(e.slots)}
    \cup (IF e.fails = 0 THEN {} ELSE {"torn-result"})

Init == l = 2
Next == /\ l <= Len(Raw)
        /\ l' = l + 1
        /\ \A x \in Bad(Raw[l]) : PrintT(<<"BAD", x, l, Raw[l].sid>>)
Spec == Init /\ [][Next]_l
Done == l > Len(Raw) => PrintT(<<"DONE", l - 2>>)
=============================================================================
