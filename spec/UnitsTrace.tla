----------------------------- MODULE UnitsTrace -----------------------------
(* Units composed with the library against Units. *)
EXTENDS Units, Json, IOUtils, TLC, SequencesExt

Raw == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
B(lab, ok) == IF ok THEN {} ELSE {lab}

(* the unit after each request, as Units says *)
States(e) ==
    LET i0 == [u |-> Simple(e.base, e.bscale), simple |-> IF e.base = "n" THEN "" ELSE e.base]
    IN FoldLeft(LAMBDA acc, s : Append(acc, Step(acc[Len(acc)], s.k, s.sc, s.d)), <<i0>>, e.steps)

Bad(e) ==
    IF "w" \in DOMAIN e THEN B("unit-decode", e.dump = Decode(e.w) /\ e.text = "ok")
    ELSE
    LET sts == States(e)
        n == Len(e.steps)
        u == sts[n + 1].u
    IN UNION {B("unit-refuse", (e.steps[i].r = "panic") <=> Refused(sts[i], e.steps[i].k, e.steps[i].d)) : i \in 1..n}
       \cup UNION {B("unit-form", e.steps[i].pm = Encode(sts[i + 1].u)) : i \in 1..n}
       \cup B("unit-form", e.pm0 = Encode(sts[1].u))
       \cup B("unit-decode", e.dump = u)
       \cup B("unit-decode", e.own = [sd |-> u.sd, td |-> u.td, cd |-> u.cd])
       \cup B("unit-scale", \A i \in 1..3 : e.scales[i] \in {-1, IF <<u.sd, u.td, u.cd>>[i] = 0 THEN -1 ELSE <<u.ss, u.ts, u.cs>>[i]})
       \cup B("unit-text", e.text = Shown(u))
       \cup B("unit-dumptext", e.dtext = Shown(u))

Init == l = 2
Next == l <= Len(Raw) /\ l' = l + 1 /\ \A x \in Bad(Raw[l]) : PrintT(<<"BAD", x, l, 0>>)
Spec == Init /\ [][Next]_l
Done == l > Len(Raw) => PrintT(<<"DONE", l - 2>>)
=============================================================================
