------------------------------ MODULE BWTrace ------------------------------
(* Recorded writes to real buffers against ByteWriter. *)
EXTENDS ByteWriter, Json, IOUtils, TLC, SequencesExt

Raw == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, buf, dead
vars == <<l, buf, dead>>

Say(b, n, e) == \A x \in b : PrintT(<<"BAD", x, n, e.sid>>)
B(lab, ok) == IF ok THEN {} ELSE {lab}

(* e.m: the variant that panics; e.unk: a value that has no fixed bytes *)
WriteBad(e) ==
    IF e.unk THEN B("bw-unchanged", e.r = "ok" \/ e.buf = buf) \cup B("bw-result", e.m => e.r # "err")
    ELSE LET x == Write(buf, e.v, e.off)
             want == IF x.r = "err" /\ e.m THEN "panic" ELSE x.r
         IN B("bw-result", e.r = want)
            \cup B("bw-return", e.r = "ok" /\ x.r = "ok" => e.ret = x.ret)
            \cup (IF e.buf = x.buf THEN {} ELSE IF x.r = "ok" THEN {"bw-bytes"} ELSE {"bw-unchanged"})

(* the file, or the part of an array, that a buffer is made on; nothing around it changes *)
MapBad(e, b) == B("bw-file", e.mapped => e.file = b) \cup B("bw-around", e.around)

(* a large buffer, kept as the bytes that were written *)
Sparse(e) ==
    FoldLeft(LAMBDA a, w :
        LET b == Encode(w.v)  n == Len(b) IN
        IF w.off < 0 \/ w.off > e.n - n THEN a
        ELSE [p \in DOMAIN a \cup {w.off + i - 1 : i \in 1..n} |-> IF p >= w.off /\ p < w.off + n THEN b[p - w.off + 1] ELSE a[p]],
        [p \in {} |-> 0], e.ws)

BigBad(e) ==
    IF e.r # "ok" THEN {"bw-new"}
    ELSE B("bw-size", e.len = e.n /\ (e.mapped => e.fsize = e.n))
         \cup B("bw-file", e.file)
         \cup B("bw-unmap", e.mapped => e.unmap = "ok")
         \cup B("bw-result", \A k \in DOMAIN e.ws : LET w == e.ws[k]  n == Len(Encode(w.v)) IN
                IF w.off < 0 \/ w.off > e.n - n THEN w.r = "err" ELSE w.r = "ok" /\ w.ret = w.off + n)
         \cup LET s == Sparse(e) IN
              B("bw-bytes", {<<e.nz[k][1], e.nz[k][2]>> : k \in DOMAIN e.nz} = {<<p, s[p]>> : p \in {x \in DOMAIN s : s[x] # 0}})

Init == l = 2 /\ buf = <<>> /\ dead = FALSE

Next ==
    /\ l <= Len(Raw)
    /\ l' = l + 1
    /\ LET e == Raw[l] IN
       CASE e.op = "new" ->
              LET b == IF e.r = "ok" THEN e.init ELSE <<>> IN
              /\ buf' = b /\ dead' = (e.r # "ok")
              /\ Say(B("bw-new", e.r = (IF e.must THEN "ok" ELSE "err"))
                     \cup (IF e.r = "ok" THEN B("bw-size", e.len = Len(b) /\ e.buf = b) \cup MapBad(e, b) ELSE {}), l, e)
         [] e.op = "w" /\ ~dead ->
              /\ Say(WriteBad(e) \cup MapBad(e, e.buf), l, e)
              /\ buf' = e.buf /\ UNCHANGED dead
         [] e.op = "conc" /\ ~dead ->        \* writes to separate places, at the same time
              /\ LET b == FoldLeft(LAMBDA a, w : Write(a, w.v, w.off).buf, buf, e.ws) IN
                 /\ Say(B("bw-conc", e.buf = b /\ \A i \in DOMAIN e.ws : e.ws[i].r = Write(buf, e.ws[i].v, e.ws[i].off).r)
                        \cup B("bw-conc", \A i \in DOMAIN e.ws : \A k \in DOMAIN e.ws[i].seen : e.ws[i].seen[k].b = Encode(e.ws[i].seen[k].v))
                        \cup MapBad(e, b), l, e)
                 /\ buf' = b /\ UNCHANGED dead
         [] e.op = "unmap" /\ ~dead ->
              /\ Say(B("bw-unmap", e.r = "ok" /\ e.maps = 0 /\ e.fds = 0)
                     \cup (IF e.remove THEN B("bw-unmap", ~e.exists) ELSE B("bw-unmap", e.exists) \cup B("bw-file", e.file = buf)), l, e)
              /\ UNCHANGED <<buf, dead>>
         [] e.op = "big" -> Say(BigBad(e), l, e) /\ UNCHANGED <<buf, dead>>
         [] OTHER -> UNCHANGED <<buf, dead>>

Spec == Init /\ [][Next]_vars
Done == l > Len(Raw) => PrintT(<<"DONE", l - 2>>)
=============================================================================
