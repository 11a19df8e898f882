-------------------------------- MODULE Conf --------------------------------
(* Where the file of a client is: the configuration of PCP, and paths. Texts    *)
(* are sequences of bytes.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LOCAL KeyChar(c) == (c >= 65 /\ c <= 90) \/ (c >= 48 /\ c <= 57) \/ c = 95
LOCAL Slash == 47
LOCAL Eq == 61
TmpKey == <<80, 67, 80, 95, 84, 77, 80, 95, 68, 73, 82>>      \* PCP_TMP_DIR
Mmv == <<109, 109, 118>>

(* a line KEY=VALUE sets KEY, every other line sets nothing *)
LOCAL EqAt(line) == LET s == {i \in DOMAIN line : line[i] = Eq} IN
                    IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
Sets(line, key) ==
    LET i == EqAt(line) IN
    /\ i > 1
    /\ \A k \in 1..(i - 1) : KeyChar(line[k])
    /\ SubSeq(line, 1, i - 1) = key

Value(line) == SubSeq(line, EqAt(line) + 1, Len(line))

(* the last setting counts *)
Setting(lines, key) ==
    LET s == {i \in DOMAIN lines : Sets(lines[i], key)} IN
    IF s = {} THEN [set |-> FALSE, v |-> <<>>]
    ELSE [set |-> TRUE, v |-> Value(lines[CHOOSE i \in s : \A j \in s : j <= i])]

(* the components of a path; "." and ".." are resolved, as far as the root *)
Components(p) ==
    LET parts == FoldLeft(LAMBDA acc, c : IF c = Slash THEN Append(acc, <<>>)
                                          ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], <<<<>>>>, p)
    IN FoldLeft(LAMBDA acc, x : IF x = <<>> \/ x = <<46>> THEN acc
                                ELSE IF x = <<46, 46>> THEN (IF acc = <<>> THEN acc ELSE Front(acc))
                                ELSE Append(acc, x), <<>>, parts)

Absolute(p) == p # <<>> /\ p[1] = Slash
In(base, p) == Components(base \o <<Slash>> \o p)

(* env: [cwd, dir (has, v), tmp, conf], conf the lines of the configuration
   file, with has = FALSE if there is none *)
Root(env) == IF ~env.dir.has THEN <<Slash>>
             ELSE IF Absolute(env.dir.v) THEN env.dir.v ELSE env.cwd \o <<Slash>> \o env.dir.v

Dir(env) ==
    LET s == IF env.conf.has THEN Setting(env.conf.lines, TmpKey) ELSE [set |-> FALSE, v |-> <<>>] IN
    (IF s.set THEN In(Root(env), s.v) ELSE Components(env.tmp)) \o <<Mmv>>

NameOK(n) == /\ n \notin {<<>>, <<46>>, <<46, 46>>}
             /\ \A i \in DOMAIN n : n[i] # Slash

File(env, name) == Dir(env) \o <<name>>
=============================================================================
