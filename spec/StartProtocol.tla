---------------------------- MODULE StartProtocol ----------------------------
(* How a start makes a file, and what its readers can see at every moment: the  *)
(* header, the table of contents and the data are stored by threads of their    *)
(* own, the second generation number comes last. The process can end anywhere,  *)
(* and start again over what it left. Mutant names a way to get it wrong; each  *)
(* of them has to break Safe, or Safe would say nothing.                        *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Mutant, Runs, Log

Data == {"header", "toc", "indom", "inst", "string", "metric", "value"}
Gens == {1, 2}                   \* the clock, in seconds: it may stand still

VARIABLES file,    \* what is at the location: none, or tag, generations and for every part which run stored it
          run,     \* the number of the run, 0 before the first
          gen,     \* its generation
          pc,      \* "off", "on" (started), "busy"
          done,    \* what the threads of the start have stored
          ord      \* the order, if Log

vars == <<file, run, gen, pc, done, ord>>

NoFile == [is |-> FALSE]
Old(tag, a, b, r) == [is |-> TRUE, tag |-> tag, g1 |-> a, g2 |-> b, part |-> [p \in Data |-> r]]
Zeroed == Old(FALSE, 0, 0, 0)

(* left by something else: -1 here is run 100 *)
Before == {NoFile, Zeroed, Old(TRUE, 1, 1, 100), Old(TRUE, 1, 0, 100), Old(FALSE, 1, 1, 100), Old(TRUE, 2, 2, 100)}

Init == /\ file \in Before
        /\ run = 0 /\ gen = 0 /\ pc = "off" /\ done = {} /\ ord = <<>>

Note(x) == ord' = IF Log THEN Append(ord, x) ELSE ord

(* the file is made anew; a start while started does the same *)
Create ==
    /\ pc \in {"off", "on"} /\ run < Runs
    /\ run' = run + 1 /\ gen' \in Gens /\ pc' = "busy" /\ done' = {}
    /\ file' = IF Mutant = "dirty" /\ file.is THEN file ELSE Zeroed
    /\ UNCHANGED ord

After(x) == CASE x = "header" -> {}
              [] x = "g1" -> {"header"}
              [] x = "g2zero" -> {"g1"}
              [] x = "tag" -> IF Mutant = "tag first" THEN {} ELSE {"g2zero"}
              [] x = "toc" -> {}
              [] x \in {"indom", "inst"} -> {}
              [] x = "string" -> {}
              [] x \in {"metric", "value"} -> {"indom", "inst"}
              [] x = "g2" -> CASE Mutant = "g2 before data" -> {"tag", "toc"}
                               [] Mutant = "g2 before toc" -> {"tag"} \cup (Data \ {"toc"})
                               [] Mutant = "g2 before value" -> {"tag"} \cup (Data \ {"value"})
                               [] Mutant = "g2 before string" -> {"tag"} \cup (Data \ {"string"})
                               [] Mutant = "g2 with the header" -> {"g2zero"}
                               [] OTHER -> {"tag"} \cup Data

Steps == Data \cup {"g1", "g2zero", "tag", "g2"}

Store(x) ==
    /\ pc = "busy" /\ x \in Steps \ done /\ After(x) \subseteq done
    /\ done' = done \cup {x}
    /\ file' = CASE x \in Data -> [file EXCEPT !.part[x] = run]
                 [] x = "g1" -> [file EXCEPT !.g1 = gen]
                 [] x = "g2zero" -> [file EXCEPT !.g2 = 0]
                 [] x = "tag" -> [file EXCEPT !.tag = TRUE]
                 [] x = "g2" -> [file EXCEPT !.g2 = gen]
    /\ pc' = IF done' = Steps THEN "on" ELSE pc
    /\ Note(x)
    /\ UNCHANGED <<run, gen>>

Crash == pc # "off" /\ ~Log /\ pc' = "off" /\ done' = {} /\ UNCHANGED <<file, run, gen, ord>>
Stop == pc = "on" /\ ~Log /\ pc' = "off" /\ done' = {} /\ file' \in {file, NoFile} /\ UNCHANGED <<run, gen, ord>>

Next == Create \/ Crash \/ Stop \/ \E x \in Steps : Store(x)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E x \in Steps : Store(x))

Complete == file.is /\ file.tag /\ file.g1 = file.g2
(* what looks complete is the whole of one run *)
Safe == Complete => \E r \in 1..Runs \cup {100} : \A p \in Data : file.part[p] = r
(* and after a start, of the latest *)
Fresh == pc = "on" => file.is /\ Complete /\ \A p \in Data : file.part[p] = run
Ends == pc = "busy" ~> pc # "busy"

(* for the orders of stores that are tried on the library: the stores up to the *)
(* zero come together                                                          *)
OneBefore == {NoFile}
OneGen == {1}
Chain == Log => \A i \in DOMAIN ord : ord[i] \in {"g1", "g2zero"} => ord[i - 1] = (IF ord[i] = "g1" THEN "header" ELSE "g1")
Orders == (Log /\ pc = "on") => PrintT("ORDER" \o FoldLeft(LAMBDA a, x : a \o " " \o x, "", ord))
=============================================================================
