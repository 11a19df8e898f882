------------------------------ MODULE Grammar ------------------------------
(* Registration strings, as sequences of code points.                        *)
(*   string     ::= dotted [ "[" id { "," [blank] id } "]" { "." id } ]       *)
(*   dotted     ::= id { "." id }                                            *)
(*   id         ::= one or more letters, digits and underscores              *)
EXTENDS Integers, Sequences

(* uid: the code points above 127 in the string that are letters or numbers *)
LOCAL IdChar(c, uid) == (c >= 97 /\ c <= 122) \/ c = 95 \/ (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ c \in uid
LOCAL Blank == {9, 10, 12, 13, 32}

LOCAL IsId(s, uid) == s # <<>> /\ \A i \in DOMAIN s : IdChar(s[i], uid)

LOCAL Positions(s, c) == {i \in DOMAIN s : s[i] = c}

RECURSIVE Split(_, _)
Split(s, c) ==
    LET p == Positions(s, c) IN
    IF p = {} THEN <<s>>
    ELSE LET i == CHOOSE x \in p : \A y \in p : x <= y IN
         <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)

(* identifiers with single dots between them *)
LOCAL IsDotted(s, uid) ==
    /\ s # <<>>
    /\ s[1] # 46 /\ s[Len(s)] # 46
    /\ \A i \in DOMAIN s : IdChar(s[i], uid) \/ (s[i] = 46 /\ s[i + 1] # 46)

LOCAL NoBlank(s) == IF s # <<>> /\ s[1] \in Blank THEN Tail(s) ELSE s

Invalid == [ok |-> FALSE, br |-> FALSE, metric |-> <<>>, indom |-> <<>>, insts |-> {}]

Parse(s, uid) ==
    LET open == Positions(s, 91)  close == Positions(s, 93) IN
    IF open = {} /\ close = {} THEN
        IF IsDotted(s, uid)
        THEN [ok |-> TRUE, br |-> FALSE, metric |-> s, indom |-> <<>>, insts |-> {}]
        ELSE Invalid
    ELSE IF \E o \in open, c \in close : o < c /\ open = {o} /\ close = {c} THEN
        LET o    == CHOOSE x \in open : TRUE
            c    == CHOOSE x \in close : TRUE
            pre  == SubSeq(s, 1, o - 1)
            list == Split(SubSeq(s, o + 1, c - 1), 44)
            post == SubSeq(s, c + 1, Len(s))
            insts == [i \in DOMAIN list |-> IF i = 1 THEN list[i] ELSE NoBlank(list[i])]
        IN IF /\ IsDotted(pre, uid)
              /\ \A i \in DOMAIN insts : IsId(insts[i], uid)
              /\ (post = <<>> \/ (post[1] = 46 /\ IsDotted(Tail(post), uid)))
           THEN [ok |-> TRUE, br |-> TRUE, metric |-> pre \o post, indom |-> pre,
                 insts |-> {insts[i] : i \in DOMAIN insts}]
           ELSE Invalid
    ELSE Invalid

(* UTF-8 *)
LOCAL M64(c) == c % 64

LOCAL U8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + M64(c)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + M64(c \div 64), 128 + M64(c)>>
    ELSE <<240 + c \div 262144, 128 + M64(c \div 4096), 128 + M64(c \div 64), 128 + M64(c)>>

RECURSIVE Utf8(_)
Utf8(s) == IF s = <<>> THEN <<>> ELSE U8(s[1]) \o Utf8(Tail(s))
=============================================================================
