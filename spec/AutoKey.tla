---- MODULE AutoKey ----
(* A table with an automatic primary key and a column u (unique when UNIQ), and an application that
   holds objects (slots), some of them copies of the same object.  Keys are abstract tokens handed
   out in order; the harness binds each token to the key the database really chose.  Property S02. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS MaxT,   \* how many keys can be handed out
          Us, Slots, UNIQ, EMIT,
          IMPORT    \* rows may also be stored by other means, with a key far from those handed out
VARIABLES db,    \* [1..MaxT -> "-" (no row) or u]
          used,  \* number of keys handed out so far
          mem,   \* [Slots -> <<>> or <<key or 0, u>>]
          ev
vars == <<db, used, mem, ev>>
View == <<db, used, mem>>
T == 1..MaxT
TypeOK ==
  /\ db \in [T -> Us \cup {"-"}] /\ used \in 0..MaxT
  /\ mem \in [Slots -> {<<>>} \cup ((0..MaxT) \X Us)]

Init == db = [t \in T |-> "-"] /\ used = 0 /\ mem = [s \in Slots |-> <<>>] /\ ev = [op |-> "init"]
Admits(t, u) == UNIQ => \A t2 \in T \ {t} : db[t2] # u

New(s, u) ==
  /\ mem' = [mem EXCEPT ![s] = <<0, u>>] /\ UNCHANGED <<db, used>>
  /\ mem' # mem
  /\ ev' = [op |-> "new", s |-> s, u |-> u, res |-> "ok"]
\* first save: insert, and the object gets the key
Insert(s) ==
  /\ mem[s] # <<>> /\ mem[s][1] = 0 /\ used < MaxT
  /\ LET u == mem[s][2] IN
     IF Admits(0, u)
     THEN /\ used' = used + 1 /\ db' = [db EXCEPT ![used + 1] = u]
          /\ mem' = [mem EXCEPT ![s] = <<used + 1, u>>]
          /\ ev' = [op |-> "insert", s |-> s, res |-> "ok"]
     ELSE UNCHANGED <<db, used, mem>> /\ ev' = [op |-> "insert", s |-> s, res |-> "err"]
\* a row stored by other means (SQL, a bulk import), with a key of its own
Import(u) ==
  /\ IMPORT /\ used < MaxT /\ Admits(0, u)
  /\ used' = used + 1 /\ db' = [db EXCEPT ![used + 1] = u] /\ UNCHANGED mem
  /\ ev' = [op |-> "import", t |-> used + 1, u |-> u, res |-> "ok"]
\* later save: update of the row with its key
Update(s) ==
  /\ mem[s] # <<>> /\ mem[s][1] # 0 /\ db[mem[s][1]] # "-"
  /\ LET t == mem[s][1] u == mem[s][2] IN
     IF Admits(t, u)
     THEN db' = [db EXCEPT ![t] = u] /\ ev' = [op |-> "update", s |-> s, res |-> "ok"]
     ELSE UNCHANGED db /\ ev' = [op |-> "update", s |-> s, res |-> "err"]
  /\ UNCHANGED <<used, mem>>
\* Deviation (known finding ghost-save): saving an object whose row has been deleted reports success
\* but stores nothing.  The action exists so that everything else can be checked around it.
SaveGone(s) ==
  /\ mem[s] # <<>> /\ mem[s][1] # 0 /\ db[mem[s][1]] = "-"
  /\ UNCHANGED <<db, used, mem>> /\ ev' = [op |-> "savegone", s |-> s, res |-> "gone"]
Set(s, u) ==
  /\ mem[s] # <<>> /\ mem[s][2] # u
  /\ mem' = [mem EXCEPT ![s] = <<mem[s][1], u>>] /\ UNCHANGED <<db, used>>
  /\ ev' = [op |-> "set", s |-> s, u |-> u, res |-> "ok"]
Copy(s, s2) ==
  /\ s # s2 /\ mem[s] # <<>> /\ mem[s] # mem[s2] /\ mem' = [mem EXCEPT ![s2] = mem[s]]
  /\ UNCHANGED <<db, used>> /\ ev' = [op |-> "copy", s |-> s, s2 |-> s2, res |-> "ok"]
Delete(s) ==
  /\ mem[s] # <<>> /\ mem[s][1] # 0
  /\ db' = [db EXCEPT ![mem[s][1]] = "-"] /\ UNCHANGED <<used, mem>>
  /\ ev' = [op |-> "delete", s |-> s, res |-> "ok"]
Get(s, t) ==
  /\ t <= used
  /\ IF db[t] # "-" THEN mem' = [mem EXCEPT ![s] = <<t, db[t]>>] /\ ev' = [op |-> "get", s |-> s, t |-> t, res |-> "ok"]
     ELSE UNCHANGED mem /\ ev' = [op |-> "get", s |-> s, t |-> t, res |-> "nosuch"]
  /\ UNCHANGED <<db, used>>

Next == (\E u \in Us : Import(u)) \/ \E s \in Slots :
  \/ \E u \in Us : New(s, u) \/ Set(s, u)
  \/ Insert(s) \/ Update(s) \/ SaveGone(s) \/ Delete(s)
  \/ \E s2 \in Slots : Copy(s, s2)
  \/ \E t \in T : Get(s, t)
Spec == Init /\ [][Next]_vars

\* Properties
NoRowWithoutKey == \A t \in T : t > used => db[t] = "-"
UniqueColumn == UNIQ => \A t1, t2 \in T : t1 # t2 /\ db[t1] # "-" => db[t1] # db[t2]
KeysStayAssigned == [][\A s \in Slots : mem[s] # <<>> /\ mem'[s] # <<>> /\ mem[s][1] # 0
  /\ ev'.op \in {"insert", "update", "set", "delete", "savegone"} => mem'[s][1] = mem[s][1]]_vars
OneRowPerInsert == [][Cardinality({t \in T : db'[t] # db[t]}) <= 1]_vars
FreshKey == [][ev'.op = "insert" /\ ev'.res = "ok" =>
                 LET t == mem'[ev'.s][1] IN db[t] = "-" /\ \A s \in Slots : mem[s] = <<>> \/ mem[s][1] # t]_vars
FailureChangesNothing == [][ev'.res = "err" => db' = db /\ mem' = mem]_vars
OnlyOwnRow == [][ev'.op \in {"update", "delete"} => \A t \in T : t # mem[ev'.s][1] => db'[t] = db[t]]_vars

Emitted == EMIT => EmitT([db |-> db, mem |-> mem, used |-> used], ev', [db |-> db', mem |-> mem', used |-> used'])
====
