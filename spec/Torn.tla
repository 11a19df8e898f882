--------------------------------- MODULE Torn ---------------------------------
(* A word of memory that one process updates and another one reads. A store    *)
(* and a load are of units of bytes; those of a unit that is stored whole and  *)
(* lies within an aligned word are seen at once. Which sizes of stores give a  *)
(* reader only values that were written?                                       *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Width,      \* bytes of the value
          Chunk,      \* bytes of a store
          At,         \* offset of the value; aligned words have 8 bytes
          Load,       \* bytes of a load
          Writes      \* number of updates

VARIABLES mem,        \* which update a byte is of
          w, at,      \* the update that is going on, and how far it is
          got, rd     \* what the reader has, by byte, and how far it is

vars == <<mem, w, at, got, rd>>

Bytes_ == At .. (At + Width - 1)
End == At + Width

(* a store is split where it crosses into another aligned word *)
RECURSIVE Next8(_)
Next8(x) == IF x % 8 = 0 THEN x ELSE Next8(x + 1)
Min(a, b) == IF a < b THEN a ELSE b
StoreEnd(x) == Min(Min(x + Chunk, Next8(x + 1)), End)
LoadEnd(x) == Min(Min(x + Load, Next8(x + 1)), End)

Init == mem = [b \in Bytes_ |-> 0] /\ w = 1 /\ at = At /\ got = <<>> /\ rd = At

Store ==
    /\ w <= Writes
    /\ mem' = [b \in Bytes_ |-> IF b >= at /\ b < StoreEnd(at) THEN w ELSE mem[b]]
    /\ IF StoreEnd(at) = End THEN w' = w + 1 /\ at' = At ELSE w' = w /\ at' = StoreEnd(at)
    /\ UNCHANGED <<got, rd>>

Read ==
    /\ rd < End
    /\ got' = got \o [k \in 1..(LoadEnd(rd) - rd) |-> mem[rd + k - 1]]
    /\ rd' = LoadEnd(rd)
    /\ UNCHANGED <<mem, w, at>>

Again == rd = End /\ rd' = At /\ got' = <<>> /\ UNCHANGED <<mem, w, at>>

Next == Store \/ Read \/ Again
Spec == Init /\ [][Next]_vars

Whole == rd = End => \A i, j \in DOMAIN got : got[i] = got[j]
=============================================================================
