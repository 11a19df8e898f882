------------------------------ MODULE ConfTrace ------------------------------
(* Clients in processes with environments of their own against Conf: what they  *)
(* changed among the files around them.                                         *)
EXTENDS Conf, Json, IOUtils, TLC

Raw == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
B(lab, ok) == IF ok THEN {} ELSE {lab}
Rng(s) == {s[i] : i \in DOMAIN s}

Fresh(e, dirs) == {Components(d) : d \in Rng(dirs)}
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* file names of more than 255 bytes cannot exist *)
Bad(e) ==
    LET ok == NameOK(e.name)
        f == File(e.env, e.name)
        chg1 == {Components(p) : p \in Rng(e.chg1)}
        chg2 == {Components(p) : p \in Rng(e.chg2)}
        dirs == {Components(p) : p \in Rng(e.dirs)}
    IN B("conf-name", (e.new = "ok") <=> ok)
       \cup B("conf-dir", e.gone = <<>>)
       \cup B("conf-panic", e.new \in {"ok", "err"} /\ e.start \in {"ok", "err", "none"} /\ e.stop \in {"ok", "err", "none"})
       \cup (IF ~ok THEN B("conf-elsewhere", chg1 = {} /\ chg2 = {} /\ dirs = {})
             ELSE IF Len(e.name) > 255
             THEN B("conf-place", e.start = "err") \cup B("conf-elsewhere", chg1 = {} /\ chg2 = {})
             ELSE B("conf-place", e.start = "ok" /\ f \in chg1 /\ e.valid)
                  \cup B("conf-elsewhere", chg1 \subseteq {f} /\ chg2 \subseteq {f} /\ \A d \in dirs : Prefix(d, f))
                  \cup B("conf-stop", e.stop = "ok" /\ (e.erase <=> ~e.left)))

Init == l = 2
Next == l <= Len(Raw) /\ l' = l + 1 /\ \A x \in Bad(Raw[l]) : PrintT(<<"BAD", x, l, 0>>)
Spec == Init /\ [][Next]_l
Done == l > Len(Raw) => PrintT(<<"DONE", l - 2>>)
=============================================================================
