---- MODULE Store ----
(* A table of objects whose primary key the user supplies, one unique column u and one plain
   column n, used through save / get / try_get / delete / load, by an application that also holds
   in-memory copies (slots) which may be stale.  Property S01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS Keys, Us, Ns, Slots, EMIT
VARIABLES db,    \* [Keys -> row]  row = <<>> (absent) or <<u, n>>
          mem,   \* [Slots -> <<>> or <<k, u, n>>]
          ev     \* last operation and its specified result (hidden by VIEW)
vars == <<db, mem, ev>>
View == <<db, mem>>

Rows == {<<>>} \cup (Us \X Ns)
Objs == {<<>>} \cup (Keys \X Us \X Ns)

TypeOK == db \in [Keys -> Rows] /\ mem \in [Slots -> Objs]

Present(d, k) == d[k] # <<>>
\* the unique column admits the row for key k
Admits(d, k, u) == \A k2 \in Keys \ {k} : Present(d, k2) => d[k2][1] # u

Init == db = [k \in Keys |-> <<>>] /\ mem = [s \in Slots |-> <<>>] /\ ev = [op |-> "init"]

SaveRes(k, u, n) == IF Admits(db, k, u) THEN "ok" ELSE "err"
SaveDb(k, u, n) == IF Admits(db, k, u) THEN [db EXCEPT ![k] = <<u, n>>] ELSE db

\* save an object made on the spot
SaveNew(k, u, n) ==
  /\ db' = SaveDb(k, u, n) /\ UNCHANGED mem
  /\ ev' = [op |-> "savenew", k |-> k, u |-> u, n |-> n, res |-> SaveRes(k, u, n)]
\* save a held (perhaps stale) copy
Save(s) ==
  /\ mem[s] # <<>>
  /\ LET o == mem[s] IN
       /\ db' = SaveDb(o[1], o[2], o[3])
       /\ ev' = [op |-> "save", s |-> s, res |-> SaveRes(o[1], o[2], o[3])]
  /\ UNCHANGED mem
\* get by key into a slot
Get(s, k) ==
  /\ mem' = IF Present(db, k) THEN [mem EXCEPT ![s] = <<k>> \o db[k]] ELSE mem
  /\ ev' = [op |-> "get", s |-> s, k |-> k, res |-> IF Present(db, k) THEN "ok" ELSE "nosuch"]
  /\ UNCHANGED db
TryGet(k) ==
  /\ ev' = [op |-> "tryget", k |-> k, res |-> "ok", val |-> db[k]]
  /\ UNCHANGED <<db, mem>>
Set(s, u, n) ==
  /\ mem[s] # <<>>
  /\ mem' = [mem EXCEPT ![s] = <<mem[s][1], u, n>>]
  /\ mem' # mem
  /\ ev' = [op |-> "set", s |-> s, u |-> u, n |-> n, res |-> "ok"]
  /\ UNCHANGED db
Delete(s) ==
  /\ mem[s] # <<>>
  /\ db' = [db EXCEPT ![mem[s][1]] = <<>>]
  /\ ev' = [op |-> "delete", s |-> s, res |-> "ok"]
  /\ UNCHANGED mem
Load ==
  /\ ev' = [op |-> "load", res |-> "ok"]
  /\ UNCHANGED <<db, mem>>

Next == \/ \E k \in Keys, u \in Us, n \in Ns : SaveNew(k, u, n)
        \/ \E s \in Slots : Save(s) \/ Delete(s)
        \/ \E s \in Slots, k \in Keys : Get(s, k)
        \/ \E s \in Slots, u \in Us, n \in Ns : Set(s, u, n)
        \/ \E k \in Keys : TryGet(k)
        \/ Load
Spec == Init /\ [][Next]_vars

\* Properties
UniqueColumn == \A k \in Keys : Present(db, k) => Admits(db, k, db[k][1])
Touches(e) == IF e.op = "savenew" THEN {e.k}
              ELSE IF e.op \in {"save", "delete"} THEN {mem[e.s][1]} ELSE {}
OthersUntouched == [][\A k \in Keys \ Touches(ev') : db'[k] = db[k]]_vars
FailureChangesNothing == [][ev'.res = "err" => db' = db]_vars
SavedIsStored == [][
  /\ ev'.op = "savenew" /\ ev'.res = "ok" => db'[ev'.k] = <<ev'.u, ev'.n>>
  /\ ev'.op = "save" /\ ev'.res = "ok" => <<mem[ev'.s][1]>> \o db'[mem[ev'.s][1]] = mem[ev'.s]]_vars
DeletedIsGone == [][ev'.op = "delete" => db'[mem[ev'.s][1]] = <<>>]_vars

Emitted == EMIT => EmitT([db |-> db, mem |-> mem], ev', [db |-> db', mem |-> mem'])
====
