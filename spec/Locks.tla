-------------------------------- MODULE Locks --------------------------------
(* The locks of the library: that of a client is held for a whole start or      *)
(* stop, that of a registry for a registration and to mark the registry as       *)
(* mapped, one for all clients while a file is laid out (the offsets of shared   *)
(* instances are kept in the instances), and that of a metric for an update or   *)
(* while it is bound to a mapping or let go. Two clients, a metric of each, a    *)
(* metric that is registered with the first one; every thread makes some calls.  *)
(* Whatever the order of their steps, no update is lost, none writes to a        *)
(* mapping that is gone, what is registered is what is laid out, and the calls   *)
(* all end. Mutant names a way to get it wrong, which has to break one of these. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Mutant, Threads, Calls, Active

Clients == {1, 2}
Home == [a |-> 1, b |-> 2, x |-> 1]        \* the client a metric belongs to
Metrics == DOMAIN Home
Ops == [k : {"start", "stop"}, c : Clients] \cup [k : {"upd"}, m : Metrics] \cup [k : {"register"}, m : {"x"}]

Locks == {<<"client", c>> : c \in Clients} \cup {<<"reg", c>> : c \in Clients} \cup {<<"metric", m>> : m \in Metrics} \cup {<<"layout", 0>>}

VARIABLES held,    \* which thread has a lock, 0 none
          reg,     \* the metrics of a client's registry
          mapped,  \* the mark of the registry
          map,     \* the mapping of a client, 0 none
          alive,   \* the mappings that exist
          lay,     \* the metrics a mapping has room for
          file,    \* the values stored in a mapping
          offs,    \* which mapping the offsets of the shared instances are for
          wrong,   \* something went wrong: a store to a mapping that is gone, a wrong offset
          bound,   \* the mapping a metric writes to, 0 none
          mem,     \* the value of a metric
          ends,    \* how many updates of it have ended
          todo,    \* the calls a thread still has to make
          pc, loc  \* where it is in one, and what it remembers

vars == <<held, reg, mapped, map, alive, lay, file, offs, wrong, bound, mem, ends, todo, pc, loc>>

Zero == [m \in Metrics |-> 0]
None == [was |-> FALSE, id |-> 0, prev |-> 0, ms |-> {}, v |-> 0]

Init ==
    /\ todo \in [Threads -> UNION {[1..n -> Ops] : n \in Calls}]
    /\ \E on \in SUBSET Active :
        /\ mapped = [c \in Clients |-> c \in on]
        /\ map = [c \in Clients |-> IF c \in on THEN c ELSE 0]
        /\ alive = on
        /\ bound = [m \in Metrics |-> IF m # "x" /\ Home[m] \in on THEN Home[m] ELSE 0]
    /\ reg = [c \in Clients |-> {m \in Metrics \ {"x"} : Home[m] = c}]
    /\ lay = [c \in 1..2 |-> reg[c]]
    /\ file = [c \in 1..2 |-> Zero]
    /\ offs = 0 /\ wrong = {}
    /\ held = [k \in Locks |-> 0]
    /\ mem = Zero /\ ends = Zero
    /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> None]

Free(k) == held[k] = 0
Op(t) == Head(todo[t])
C(t) == <<"client", Op(t).c>>
R(t) == <<"reg", IF Op(t).k = "register" THEN Home[Op(t).m] ELSE Op(t).c>>
M(t) == <<"metric", Op(t).m>>
L == <<"layout", 0>>

Take(t, k) == IF k \in Locks THEN Free(k) /\ held' = [held EXCEPT ![k] = t] ELSE UNCHANGED held
Drop(k) == held' = [held EXCEPT ![k] = 0]
To(t, s) == pc' = [pc EXCEPT ![t] = s]
(* the call is over *)
End(t) == pc' = [pc EXCEPT ![t] = "idle"] /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ loc' = [loc EXCEPT ![t] = None]
Skip == <<"none", 0>>

(* a lock that is not taken in a wrong variant *)
Unless(m, k) == IF Mutant = m THEN Skip ELSE k

World == <<reg, mapped, map, alive, lay, file, offs, wrong, bound, mem, ends>>

-----------------------------------------------------------------------------
Start1(t) ==
    /\ pc[t] = "idle" /\ todo[t] # <<>> /\ Op(t).k = "start"
    /\ Take(t, Unless("no client lock", C(t)))
    /\ To(t, IF Mutant = "late mark" THEN "map" ELSE "mark")
    /\ UNCHANGED <<World, todo, loc>>

Mark(t) ==
    /\ pc[t] = "mark" /\ Free(R(t))
    /\ loc' = [loc EXCEPT ![t].was = mapped[Op(t).c]]
    /\ mapped' = [mapped EXCEPT ![Op(t).c] = TRUE]
    /\ To(t, IF Mutant = "late mark" THEN "lock" ELSE "map")
    /\ UNCHANGED <<held, reg, map, alive, lay, file, offs, wrong, bound, mem, ends, todo>>

(* a new file, or an error, which leaves everything as it was *)
Map(t) ==
    LET c == Op(t).c  id == Len(lay) + 1 IN
    /\ pc[t] = "map"
    /\ \/ /\ lay' = Append(lay, reg[c]) /\ file' = Append(file, Zero)
          /\ alive' = (alive \cup {id}) \ (IF Mutant = "unmap first" THEN {map[c]} ELSE {})
          /\ loc' = [loc EXCEPT ![t].id = id, ![t].prev = map[c], ![t].ms = reg[c]]
          /\ map' = [map EXCEPT ![c] = id]
          /\ To(t, IF Mutant = "late mark" THEN "mark" ELSE "lock")
          /\ UNCHANGED <<mapped, held, todo>>
       \/ /\ mapped' = [mapped EXCEPT ![c] = IF Mutant = "mark stays" THEN @ ELSE IF Mutant = "late mark" THEN @ ELSE loc[t].was]
          /\ IF Mutant = "no client lock" THEN UNCHANGED held ELSE Drop(C(t))
          /\ End(t)
          /\ UNCHANGED <<lay, file, alive, map>>
    /\ UNCHANGED <<reg, offs, wrong, bound, mem, ends>>

Lock(t) ==
    /\ pc[t] = "lock" /\ Take(t, Unless("no layout lock", L))
    /\ To(t, "indoms")
    /\ UNCHANGED <<World, todo, loc>>

Indoms(t) ==
    /\ pc[t] = "indoms" /\ offs' = loc[t].id /\ To(t, "bind")
    /\ UNCHANGED <<held, reg, mapped, map, alive, lay, file, wrong, bound, mem, ends, todo, loc>>

(* threads of their own, in any order *)
Bind(t) ==
    /\ pc[t] = "bind"
    /\ \E m \in loc[t].ms :
        /\ Mutant # "bind unlocked" => Free(<<"metric", m>>)
        /\ file' = [file EXCEPT ![loc[t].id][m] = mem[m]]
        /\ bound' = [bound EXCEPT ![m] = loc[t].id]
        /\ wrong' = wrong \cup (IF offs # loc[t].id THEN {"offset"} ELSE {}) \cup (IF loc[t].id \notin alive THEN {"stray"} ELSE {})
        /\ loc' = [loc EXCEPT ![t].ms = @ \ {m}]
    /\ UNCHANGED <<held, reg, mapped, map, alive, lay, offs, mem, ends, todo, pc>>

Laid(t) ==
    /\ pc[t] = "bind" /\ loc[t].ms = {} /\ To(t, "old")
    /\ IF Mutant = "no layout lock" THEN UNCHANGED held ELSE Drop(L)
    /\ UNCHANGED <<World, todo, loc>>

Old(t) ==
    /\ pc[t] = "old"
    /\ alive' = alive \ {loc[t].prev}
    /\ IF Mutant = "no client lock" THEN UNCHANGED held ELSE Drop(C(t))
    /\ End(t)
    /\ UNCHANGED <<reg, mapped, map, lay, file, offs, wrong, bound, mem, ends>>

-----------------------------------------------------------------------------
Stop1(t) ==
    LET c == Op(t).c IN
    /\ pc[t] = "idle" /\ todo[t] # <<>> /\ Op(t).k = "stop"
    /\ Free(C(t))
    /\ IF map[c] = 0 THEN End(t) /\ UNCHANGED held
       ELSE /\ Take(t, Unless("no client lock", C(t)))
            /\ To(t, IF Mutant = "unmap, then detach" THEN "gone" ELSE "detach")
            /\ loc' = [loc EXCEPT ![t].ms = reg[c], ![t].id = map[c]]
            /\ UNCHANGED todo
    /\ UNCHANGED World

Detach(t) ==
    /\ pc[t] = "detach"
    /\ \E m \in loc[t].ms :
        /\ Mutant # "detach unlocked" => Free(<<"metric", m>>)
        /\ bound' = [bound EXCEPT ![m] = 0]
        /\ loc' = [loc EXCEPT ![t].ms = @ \ {m}]
    /\ UNCHANGED <<held, reg, mapped, map, alive, lay, file, offs, wrong, mem, ends, todo, pc>>

Unmark(t) ==
    /\ pc[t] = "detach" /\ loc[t].ms = {} /\ Free(R(t))
    /\ mapped' = [mapped EXCEPT ![Op(t).c] = FALSE]
    /\ IF Mutant = "unmap, then detach"
       THEN /\ (IF Mutant = "no client lock" THEN UNCHANGED held ELSE Drop(C(t)))
            /\ End(t)
       ELSE To(t, "gone") /\ UNCHANGED <<held, todo, loc>>
    /\ UNCHANGED <<reg, map, alive, lay, file, offs, wrong, bound, mem, ends>>

Gone(t) ==
    /\ pc[t] = "gone"
    /\ alive' = alive \ {loc[t].id}
    /\ map' = [map EXCEPT ![Op(t).c] = 0]
    /\ IF Mutant = "unmap, then detach"
       THEN To(t, "detach") /\ UNCHANGED <<held, todo, loc>>
       ELSE /\ (IF Mutant = "no client lock" THEN UNCHANGED held ELSE Drop(C(t)))
            /\ End(t)
    /\ UNCHANGED <<reg, mapped, lay, file, offs, wrong, bound, mem, ends>>

-----------------------------------------------------------------------------
Upd1(t) ==
    /\ pc[t] = "idle" /\ todo[t] # <<>> /\ Op(t).k = "upd"
    /\ Take(t, Unless("no metric lock", M(t)))
    /\ loc' = [loc EXCEPT ![t].v = mem[Op(t).m] + 1, ![t].id = bound[Op(t).m]]
    /\ To(t, IF Mutant = "order" THEN "first" ELSE "store")
    /\ UNCHANGED <<World, todo>>

(* wrong: an update that looks at the client while it has the metric *)
First(t) ==
    /\ pc[t] = "first" /\ Free(<<"client", Home[Op(t).m]>>) /\ To(t, "store")
    /\ UNCHANGED <<World, held, todo, loc>>

Store(t) ==
    LET id == loc[t].id  m == Op(t).m IN
    /\ pc[t] = "store" /\ To(t, "keep")
    /\ IF id = 0 THEN UNCHANGED <<file, wrong>>
       ELSE IF id \in alive THEN file' = [file EXCEPT ![id][m] = loc[t].v] /\ UNCHANGED wrong
       ELSE wrong' = wrong \cup {"stray"} /\ UNCHANGED file
    /\ UNCHANGED <<held, reg, mapped, map, alive, lay, offs, bound, mem, ends, todo, loc>>

Keep(t) ==
    LET m == Op(t).m IN
    /\ pc[t] = "keep"
    /\ mem' = [mem EXCEPT ![m] = loc[t].v] /\ ends' = [ends EXCEPT ![m] = @ + 1]
    /\ IF Mutant = "no metric lock" THEN UNCHANGED held ELSE Drop(M(t))
    /\ End(t)
    /\ UNCHANGED <<reg, mapped, map, alive, lay, file, offs, wrong, bound>>

Register(t) ==
    LET m == Op(t).m  c == Home[m] IN
    /\ pc[t] = "idle" /\ todo[t] # <<>> /\ Op(t).k = "register"
    /\ IF Mutant = "early check"
       THEN IF mapped[c] THEN End(t) /\ UNCHANGED held ELSE To(t, "add") /\ UNCHANGED <<held, todo, loc>>
       ELSE Take(t, R(t)) /\ To(t, "add") /\ UNCHANGED <<todo, loc>>
    /\ UNCHANGED World

Add(t) ==
    LET m == Op(t).m  c == Home[m] IN
    /\ pc[t] = "add"
    /\ reg' = [reg EXCEPT ![c] = @ \cup (IF mapped[c] /\ Mutant # "early check" THEN {} ELSE {m})]
    /\ IF Mutant = "early check" THEN UNCHANGED held ELSE Drop(R(t))
    /\ End(t)
    /\ UNCHANGED <<mapped, map, alive, lay, file, offs, wrong, bound, mem, ends>>

AllDone == \A t \in Threads : todo[t] = <<>>
Over == AllDone /\ UNCHANGED vars

Thread(t) == \/ Start1(t) \/ Mark(t) \/ Map(t) \/ Lock(t) \/ Indoms(t) \/ Bind(t) \/ Laid(t) \/ Old(t)
             \/ Stop1(t) \/ Detach(t) \/ Unmark(t) \/ Gone(t)
             \/ Upd1(t) \/ First(t) \/ Store(t) \/ Keep(t) \/ Register(t) \/ Add(t)
Next == Over \/ \E t \in Threads : Thread(t)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Right == wrong = {}
(* no update is lost *)
Kept == \A m \in Metrics : Free(<<"metric", m>>) => mem[m] = ends[m]
Calm(c) == Free(<<"client", c>>) /\ \A t \in Threads : pc[t] = "idle" \/ ("c" \in DOMAIN Op(t) => Op(t).c # c)
(* between starts and stops, a client is active with all it has, or it is not *)
Whole == \A c \in Clients : Calm(c) =>
    /\ mapped[c] = (map[c] # 0)
    /\ map[c] # 0 => map[c] \in alive /\ reg[c] = lay[map[c]]
    /\ \A m \in Metrics : Home[m] = c => bound[m] = (IF m \in reg[c] THEN map[c] ELSE 0)
(* and what the file shows are the values *)
Shown == \A m \in Metrics : LET c == Home[m] IN
    (Calm(c) /\ map[c] # 0 /\ m \in reg[c] /\ \A t \in Threads : pc[t] = "idle" \/ Op(t) # [k |-> "upd", m |-> m])
        => file[map[c]][m] = mem[m]
(* nothing is left mapped *)
Tidy == AllDone => alive = {map[c] : c \in Clients} \ {0}
=============================================================================
