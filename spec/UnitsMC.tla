------------------------------- MODULE UnitsMC -------------------------------
(* All units that two requests can compose: the form determines the unit, and   *)
(* the order of requests of different kinds does not matter.                     *)
EXTENDS Units, TLC
Scales(k) == CASE k = "s" -> 0..6 [] k = "t" -> 0..5 [] OTHER -> {0}
Kinds == {"s", "t", "c"}
Dims == {-9, -8, -7, -1, 0, 1, 6, 7, 8}
VARIABLES st, n
Init == /\ n = 0
        /\ st \in {[u |-> None, simple |-> ""]} \cup
                  UNION {{[u |-> Simple(k, x), simple |-> k] : x \in Scales(k)} : k \in Kinds}
Next == /\ n < 2 /\ n' = n + 1
        /\ \E k \in Kinds : \E x \in Scales(k), d \in Dims : st' = Step(st, k, x, d)
Spec == Init /\ [][Next]_<<st, n>>
RoundTrip == Decode(Encode(st.u)) = st.u
Fields == st.u.sd \in -8..7 /\ st.u.td \in -8..7 /\ st.u.cd \in -8..7
Commute == \A k, j \in Kinds : k # j =>
    Request(Request(st.u, k, 0, 3), j, 0, -2) = Request(Request(st.u, j, 0, -2), k, 0, 3)
=============================================================================
