----------------------------- MODULE ByteWriter -----------------------------
(* The buffers the files are written with. A buffer is a sequence of bytes, a  *)
(* write puts the bytes of a value at an offset, or does nothing.              *)
EXTENDS Bits, FiniteSets

(* bytes of a value: [k |-> kind, w |-> word, b |-> bytes] *)
Width(k) == CASE k \in {"int8", "uint8", "bool"} -> 1
              [] k \in {"int16", "uint16"} -> 2
              [] k \in {"int32", "uint32", "float32"} -> 4
              [] k \in {"int64", "uint64", "float64"} -> 8
              [] OTHER -> 0

Encode(v) == IF v.k \in {"string", "bytes"} THEN v.b ELSE LEBytes(v.w, Width(v.k))

Fits(buf, b, off) == off >= 0 /\ off + Len(b) <= Len(buf)

Put(buf, b, off) == [i \in DOMAIN buf |-> IF i > off /\ i <= off + Len(b) THEN b[i - off] ELSE buf[i]]

(* the buffer after a write, and what it returns *)
Write(buf, v, off) ==
    LET b == Encode(v) IN
    IF Fits(buf, b, off) THEN [buf |-> Put(buf, b, off), r |-> "ok", ret |-> off + Len(b)]
    ELSE [buf |-> buf, r |-> "err", ret |-> -1]

Zeros(n) == [i \in 1..n |-> 0]
=============================================================================
