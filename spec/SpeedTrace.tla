----------------------------- MODULE SpeedTrace -----------------------------
(* Is a recorded run of the library a behaviour of Speed? One line of the      *)
(* trace per call, in sessions that start with "begin". Every mismatch is      *)
(* printed with a label that names what disagrees.                             *)
EXTENDS SpeedObs

VARIABLES l, st, dead

vars == <<l, st, dead>>

Init == l = 2 /\ st = Init0 /\ dead = FALSE

Next ==
    /\ l <= Len(Raw)
    /\ l' = l + 1
    /\ LET e == Raw[l] IN
       IF e.op = "begin" THEN st' = Init0 /\ dead' = FALSE
       ELSE IF dead THEN UNCHANGED <<st, dead>>
       ELSE IF ~Known(st, e) THEN UNCHANGED <<st, dead>> /\ PrintT(<<"BAD", "unknown", l, e.sid>>)
       ELSE LET p == Parsed(e)
                x == IF e.op = "get" THEN Ret(st, e.r) ELSE Eff(st, e, p)
                b == ResultBad(st, e, x) \cup x.bad
                     \cup ReadBad(st, x.st, e) \cup ObsBad(st, x.st, e) \cup OtherBad(x.st, e, p) \cup PubBad(x.st, e)
            IN /\ st' = x.st
               /\ dead' = Structural(b)
               /\ Say(b, l, e)

Spec == Init /\ [][Next]_vars

Done == l > Len(Raw) => PrintT(<<"DONE", l - 2>>)
=============================================================================
