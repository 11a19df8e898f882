-------------------------------- MODULE Units --------------------------------
(* Units: the scale and the dimension last requested for space, time and count, *)
(* and the 32-bit form that pmUnits gives them: from the most significant bit    *)
(* on, four bits each for the dimensions of space, time and count, then for the  *)
(* scales of space, time and count, then eight bits of zero.                     *)
EXTENDS Integers, Sequences

None == [sd |-> 0, td |-> 0, cd |-> 0, ss |-> 0, ts |-> 0, cs |-> 0]

(* a simple unit has dimension 1 *)
Simple(k, scale) ==
    CASE k = "s" -> [None EXCEPT !.sd = 1, !.ss = scale]
      [] k = "t" -> [None EXCEPT !.td = 1, !.ts = scale]
      [] k = "c" -> [None EXCEPT !.cd = 1, !.cs = scale]
      [] OTHER -> None

Request(u, k, scale, dim) ==
    CASE k = "s" -> [u EXCEPT !.sd = dim, !.ss = scale]
      [] k = "t" -> [u EXCEPT !.td = dim, !.ts = scale]
      [] k = "c" -> [u EXCEPT !.cd = dim, !.cs = scale]

(* st: [u, simple], simple the kind of a simple unit or "" *)
Refused(st, k, dim) == dim < -8 \/ dim > 7 \/ st.simple = k

Step(st, k, scale, dim) ==
    IF Refused(st, k, dim) THEN st ELSE [u |-> Request(st.u, k, scale, dim), simple |-> ""]

Nib(d) == d % 16         \* TLC's % is never negative

Encode(u) == <<Nib(u.sd) * 4096 + Nib(u.td) * 256 + Nib(u.cd) * 16 + u.ss, u.ts * 4096 + u.cs * 256>>

LOCAL Signed(n) == IF n >= 8 THEN n - 16 ELSE n
Decode(w) == [sd |-> Signed(w[1] \div 4096), td |-> Signed((w[1] \div 256) % 16), cd |-> Signed((w[1] \div 16) % 16),
              ss |-> w[1] % 16, ts |-> w[2] \div 4096, cs |-> (w[2] \div 256) % 16]

(* what a printed form can show: nothing for a dimension of 0 *)
Shown(u) == [u EXCEPT !.ss = IF u.sd = 0 THEN 0 ELSE @, !.ts = IF u.td = 0 THEN 0 ELSE @, !.cs = IF u.cd = 0 THEN 0 ELSE @]
=============================================================================
