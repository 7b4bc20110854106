---- MODULE Migrate ----
(* Applying and undoing a chain of migrations, with migrations that fail and the death of the process.
   Properties G01 and G03.  The protocol is modelled call by call (begin, sql, record, commit for each
   migration); a run of it appears as one event.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS Max, Keys, Kinds,
          CRASH,    \* the process may die before any call of a run
          EMIT
VARIABLES c,     \* the chain: what is wrong with each migration ("ok", "badup", "baddown", "nosql")
          d,     \* the durable database: [schema: how many migrations have had their effect,
                 \*   recs: the positions in the chain of those recorded as applied, rows: Keys stored in the first one's tables]
          ev
vars == <<c, d, ev>>
View == <<c, d>>
Points == <<"begin", "sql", "record", "commit", "done">>
TypeOK == /\ c \in UNION {[1..i -> Kinds] : i \in 0..Max}
          /\ d \in [schema : 0..Len(c), recs : SUBSET (1..Len(c)), rows : SUBSET Keys]
Init == c = <<>> /\ d = [schema |-> 0, recs |-> {}, rows |-> {}] /\ ev = [op |-> "init"]

\* G01/G03: what has had its effect is what is recorded, and it is the first part of the chain
Consistent == d.recs = 1..d.schema
NoTables == d.schema = 0 => d.rows = {}
n == d.schema

\* The last applied migration is found through the records; what is after it in the chain is to be applied
LastApplied == IF d.recs = {} THEN 0 ELSE CHOOSE i \in d.recs : \A j \in d.recs : j <= i
Unapplied == [i \in 1..(Len(c) - LastApplied) |-> LastApplied + i]

\* One migration inside a transaction: w is what the transaction sees; the calls are made in order until one fails
Up(w, i) == [w EXCEPT !.schema = i, !.recs = @ \cup {i}]
Down(w, i) == [schema |-> i - 1, recs |-> w.recs \ {i}, rows |-> IF i = 1 THEN {} ELSE w.rows]
UpOk(i) == c[i] \notin {"badup", "nosql"}
DownOk(i) == c[i] \notin {"baddown", "nosql"}
\* which calls of migration i are made
Reaches(i, dir, p) ==
  LET ok == IF dir = "up" THEN UpOk(i) ELSE DownOk(i)
  IN CASE p = "begin" -> TRUE
       [] p = "sql" -> c[i] # "nosql"   \* without SQL for this database nothing is executed
       [] OTHER -> ok
\* A run over the positions s (a sequence) starting from database x, dying before call p of the k-th (k = 0: not).
\* Result: [db, res]
RECURSIVE Run(_, _, _, _, _)
Run(x, s, dir, k, p) ==
  IF s = <<>> THEN [db |-> x, res |-> "ok"]
  ELSE LET i == Head(s)
           y == IF dir = "up" THEN Up(x, i) ELSE Down(x, i)
           ok == IF dir = "up" THEN UpOk(i) ELSE DownOk(i)
       IN IF k = 1 /\ Reaches(i, dir, p) THEN [db |-> IF p = "done" THEN y ELSE x, res |-> "died"]
          ELSE IF ok THEN Run(y, Tail(s), dir, IF k = 0 THEN 0 ELSE k - 1, p) ELSE [db |-> x, res |-> "err"]
Applied == [i \in 1..LastApplied |-> LastApplied + 1 - i]

Do(op, s, dir) ==
  LET r == Run(d, s, dir, 0, "") IN d' = r.db /\ c' = c /\ ev' = [op |-> op, res |-> r.res]
Die(op, s, dir) ==
  /\ CRASH
  /\ \E k \in 1..Len(s), p \in {Points[q] : q \in 1..5} :
       LET r == Run(d, s, dir, k, p) IN
         /\ r.res = "died" /\ d' = r.db /\ c' = c
         /\ ev' = [op |-> op, res |-> "died", k |-> k, p |-> p, fin |-> LET f == Run(d, s, dir, 0, "") IN [n |-> f.db.schema, res |-> f.res]]
Migrate == Do("migrate", Unapplied, "up") \/ Die("migrate", Unapplied, "up")
Unmigrate == Do("unmigrate", Applied, "down") \/ Die("unmigrate", Applied, "down")
\* single migrations, where they may be used
ApplyOne == Unapplied # <<>> /\ Do("apply", <<Head(Unapplied)>>, "up")
DownOne == Applied # <<>> /\ Do("downgrade", <<Head(Applied)>>, "down")
Create(kind) == Len(c) < Max /\ c' = Append(c, kind) /\ UNCHANGED d /\ ev' = [op |-> "create", kind |-> kind, res |-> "ok"]
Repair(i) == c[i] # "ok" /\ c' = [c EXCEPT ![i] = "ok"] /\ UNCHANGED d /\ ev' = [op |-> "repair", i |-> i, res |-> "ok"]
AddRow(k) == n >= 1 /\ k \notin d.rows /\ d' = [d EXCEPT !.rows = @ \cup {k}] /\ UNCHANGED c /\ ev' = [op |-> "addrow", k |-> k, res |-> "ok"]
Reopen == UNCHANGED <<c, d>> /\ ev' = [op |-> "reopen", res |-> "ok"]
Next == \/ Migrate \/ Unmigrate \/ ApplyOne \/ DownOne \/ Reopen
        \/ \E kind \in Kinds : Create(kind)
        \/ \E i \in 1..Len(c) : Repair(i)
        \/ \E k \in Keys : AddRow(k)
Spec == Init /\ [][Next]_vars

\* Properties of the transitions
\* migrating changes nothing but by whole migrations, in chain order; if it succeeds all are applied; again it does nothing
Prefix == [][ev'.op = "migrate" => d'.schema >= d.schema /\ (ev'.res = "ok" <=> (d'.schema = Len(c) /\ ev'.res # "died"))]_vars
Idempotent == [][ev'.op = "migrate" /\ LastApplied = Len(c) => d' = d /\ ev'.res = "ok"]_vars
FailsAt == [][ev'.op = "migrate" /\ ev'.res = "err" => ~UpOk(d'.schema + 1)]_vars
Undone == [][ev'.op = "unmigrate" => (ev'.res = "ok" => d'.schema = 0) /\ (ev'.res = "err" => ~DownOk(d'.schema)) /\ d'.schema <= d.schema]_vars
KeepsRows == [][(\A k \in d.rows : k \in d'.rows) \/ d'.schema = 0]_vars
\* after a crash, running the same again gives what an uninterrupted run gives
Resumes == [][ev'.op \in {"migrate", "unmigrate"} /\ ev'.res = "died" =>
                LET dir == IF ev'.op = "migrate" THEN "up" ELSE "down"
                    s == IF dir = "up" THEN [i \in 1..(Len(c) - d'.schema) |-> d'.schema + i] ELSE [i \in 1..d'.schema |-> d'.schema + 1 - i]
                IN Run(d', s, dir, 0, "").db = Run(d, IF dir = "up" THEN Unapplied ELSE Applied, dir, 0, "").db]_vars
St == [c |-> c, n |-> n, rows |-> d.rows, un |-> Unapplied]
Emitted == EMIT => EmitT(St, ev', [c |-> c', n |-> n', rows |-> d'.rows, un |-> Unapplied'])
====
