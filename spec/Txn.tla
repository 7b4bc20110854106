---- MODULE Txn ----
(* Two connections to one database.  A works inside and outside transactions; B reads, writes when it
   can, and (with BTX) has transactions of its own, so that locking can make A's operations or its
   commit fail.  The process can die at any time (CRASH).  Property T01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS Keys, Vals,
          ABORTS,   \* a failing statement leaves the transaction unusable (PostgreSQL)
          DDL,      \* also create a table inside transactions
          BULK,     \* also change many rows at once, more than a database may keep in memory
          BTX,      \* B has transactions too, with SQLite's locking rules
          CRASH, EMIT
VARIABLES d,     \* committed: [rows: [Keys -> 0 (absent) or a value], tab: a second table exists,
             \*             bulk: the value of all rows of a large table]
          a,     \* A's transaction: <<>> or [w: the database as seen inside, dirty, ab: aborted]
          b,     \* B's transaction: <<>> or [w, lock: "none", "read", "write"]
          ev
vars == <<d, a, b, ev>>
View == <<d, a, b>>
Db == [rows : [Keys -> {0} \cup Vals], tab : BOOLEAN, bulk : {0, 1}]
TypeOK == d \in Db /\ (a # <<>> => a.w \in Db) /\ (b # <<>> => b.w \in Db)
\* values are unique
Unique(x) == \A k, l \in Keys : k # l /\ x.rows[k] # 0 => x.rows[k] # x.rows[l]
Consistent == Unique(d) /\ (a # <<>> => Unique(a.w))
\* without writing, A sees what is committed
Clean == (a # <<>> /\ ~a.dirty) => a.w = d
Init == d = [rows |-> [k \in Keys |-> 0], tab |-> FALSE, bulk |-> 0] /\ a = <<>> /\ b = <<>> /\ ev = [op |-> "init"]

InA == IF a = <<>> THEN d ELSE a.w
InB == IF b = <<>> \/ b.lock = "none" THEN d ELSE b.w  \* the snapshot is taken by the first statement
Fits(x, k, v) == \A l \in Keys \ {k} : x.rows[l] # v
AbortedA == a # <<>> /\ a.ab
BWrites == b # <<>> /\ b.lock = "write"
BReads == b # <<>> /\ b.lock # "none"
AWrites == a # <<>> /\ a.dirty

\* A executes something that turns the database it sees into y, if ok
StepA(e, ok, y) ==
  /\ UNCHANGED b
  /\ IF AbortedA THEN UNCHANGED <<d, a>> /\ ev' = e @@ [res |-> "err"]
     ELSE IF ~ok THEN /\ UNCHANGED d
                      /\ a' = IF a = <<>> THEN a ELSE [a EXCEPT !.ab = ABORTS]
                      /\ ev' = e @@ [res |-> "err"]
     ELSE /\ IF a = <<>> THEN d' = y /\ a' = a ELSE d' = d /\ a' = [a EXCEPT !.w = y, !.dirty = TRUE]
          /\ ev' = e @@ [res |-> "ok"]
\* a write outside a transaction takes effect at once, so it also needs B to have no lock at all
FreeA == ~BWrites /\ (a = <<>> => ~BReads)
\* with locking, whether a write that changes nothing takes a lock is up to the database
Real(y) == BTX => y # InA
Put(k, v) == /\ BTX => Fits(InA, k, v)
             /\ Real([InA EXCEPT !.rows[k] = v])
             /\ StepA([op |-> "put", k |-> k, v |-> v], FreeA /\ Fits(InA, k, v), [InA EXCEPT !.rows[k] = v])
Del(k) == FreeA /\ Real([InA EXCEPT !.rows[k] = 0]) /\ StepA([op |-> "del", k |-> k], TRUE, [InA EXCEPT !.rows[k] = 0])
DelAll == FreeA /\ Real([InA EXCEPT !.rows = [k \in Keys |-> 0]]) /\ StepA([op |-> "delall"], TRUE, [InA EXCEPT !.rows = [k \in Keys |-> 0]])
MkTable == DDL /\ b = <<>> /\ StepA([op |-> "mktable"], ~InA.tab, [InA EXCEPT !.tab = TRUE])
Bulk == BULK /\ ~BTX /\ StepA([op |-> "bulk"], TRUE, [InA EXCEPT !.bulk = 1 - @])
Bad == ~BTX /\ StepA([op |-> "bad"], FALSE, InA)
Read == /\ UNCHANGED <<d, b>>
        /\ a' = a
        /\ ev' = [op |-> "read", res |-> IF AbortedA THEN "err" ELSE "ok", val |-> InA]
Begin == /\ a = <<>> /\ a' = [w |-> d, dirty |-> FALSE, ab |-> FALSE] /\ UNCHANGED <<d, b>>
         /\ ev' = [op |-> "begin", res |-> "ok"]
\* a commit that cannot succeed undoes the transaction
Commit == /\ a # <<>> /\ a' = <<>> /\ UNCHANGED b
          /\ IF AbortedA \/ (a.dirty /\ BReads) THEN d' = d /\ ev' = [op |-> "commit", res |-> "err"]
             ELSE d' = a.w /\ ev' = [op |-> "commit", res |-> "ok"]
Undo(how) == a # <<>> /\ a' = <<>> /\ UNCHANGED <<d, b>> /\ ev' = [op |-> how, res |-> "ok"]

\* the other connection
ReadB == /\ UNCHANGED <<d, a>>
         /\ b' = IF b = <<>> THEN b ELSE [w |-> InB, lock |-> IF b.lock = "none" THEN "read" ELSE b.lock]
         /\ ev' = [op |-> "readb", res |-> "ok", val |-> InB]
PutB(k, v) ==
  IF b = <<>>
  THEN /\ a = <<>> /\ Fits(d, k, v) /\ d' = [d EXCEPT !.rows[k] = v] /\ UNCHANGED <<a, b>>
       /\ ev' = [op |-> "putb", k |-> k, v |-> v, res |-> "ok"]
  ELSE /\ UNCHANGED <<d, a>> /\ Fits(InB, k, v) /\ InB.rows[k] # v
       /\ b' = IF AWrites THEN b ELSE [w |-> [InB EXCEPT !.rows[k] = v], lock |-> "write"]
       /\ ev' = [op |-> "putb", k |-> k, v |-> v, res |-> IF AWrites THEN "err" ELSE "ok"]
BeginB == BTX /\ b = <<>> /\ b' = [w |-> d, lock |-> "none"] /\ UNCHANGED <<d, a>> /\ ev' = [op |-> "beginb", res |-> "ok"]
EndB(how) == /\ b # <<>> /\ b' = <<>> /\ UNCHANGED <<a>>
             /\ how = "commitb" /\ BWrites => a = <<>>   \* A could hold a read lock
             /\ d' = IF how = "commitb" /\ BWrites THEN b.w ELSE d
             /\ ev' = [op |-> how, res |-> "ok"]
Crash == CRASH /\ a' = <<>> /\ b' = <<>> /\ d' = d /\ ev' = [op |-> "crash", res |-> "ok"]
Next ==
  \/ \E k \in Keys : Del(k) \/ \E v \in Vals : Put(k, v) \/ PutB(k, v)
  \/ DelAll \/ MkTable \/ Bulk \/ Bad \/ Begin \/ Commit \/ Undo("rollback") \/ Undo("drop") \/ ReadB \/ Crash
  \/ Read
  \/ BTX /\ (BeginB \/ EndB("commitb") \/ EndB("rollbackb"))
Spec == Init /\ [][Next]_vars
\* Properties of the transitions
AllOrNothing == [][ev'.op \in {"commit", "rollback", "drop", "crash", "begin", "read", "readb", "bad"} =>
                     d' = IF ev'.op = "commit" /\ ev'.res = "ok" THEN a.w ELSE d]_vars
Isolated == [][a # <<>> /\ a' # <<>> /\ d' # d => ev'.op = "commitb"]_vars
Ends == [][ev'.op \in {"commit", "rollback", "drop", "crash"} => a' = <<>>]_vars
Emitted == EMIT => EmitT([d |-> d, a |-> a, b |-> b], ev', [d |-> d', a |-> a', b |-> b'])
====
