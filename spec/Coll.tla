---- MODULE Coll ----
(* A collection of migrations through creating, editing, detaching, deleting, storing and copying.  Property G04.
   Migrations are named by numbers (0: none); a schema gives every table a variant (0: no such table, 3: with a column
   of the custom type, which may be known only later; 30+i: the same with the custom type resolved to its i-th meaning). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS Names, Tables, Vars, Types, Bk, EMIT
VARIABLES kind,    \* "mem" or "fs"
          store,   \* name -> <<>> or <<[from, db, sql: Bk -> 0 (none), 1 (generated), 2 (given)]>>
          latest,  \* last migration of the chain, or 0
          cur,     \* the current schema [tabs: Tables -> variant, ty: {1,2} -> 0 (unknown) or a meaning]
          ev
vars == <<kind, store, latest, cur, ev>>
View == <<kind, store, latest, cur>>
NoSchema == [t \in Tables |-> 0]
NoCur == [tabs |-> NoSchema, ty |-> [k \in {1, 2} |-> 0]]
Init == kind \in {"mem"} /\ store = [n \in Names |-> <<>>] /\ latest = 0 /\ cur = NoCur /\ ev = [op |-> "init"]
Has(n) == store[n] # <<>>
M(n) == Head(store[n])
\* a migration and those it is based on, the last one first
RECURSIVE Back(_)
Back(n) == IF n = 0 THEN <<>> ELSE IF store[n] = <<>> THEN <<n>> ELSE <<n>> \o Back(M(n).from)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Chain == Rev(Back(latest))
Range(s) == {s[i] : i \in DOMAIN s}
InChain == Range(Chain)
Db(n) == IF n = 0 THEN NoSchema ELSE M(n).db
Resolvable == \A t \in Tables : cur.tabs[t] = 3 => cur.ty[1] # 0
Resolved == [t \in Tables |-> IF cur.tabs[t] = 3 THEN 30 + cur.ty[1] ELSE cur.tabs[t]]
Leaf(n) == \A m \in Names : Has(m) => M(m).from # n

\* The current schema
Edit(op, c) == cur' = c /\ UNCHANGED <<kind, store, latest>> /\ ev' = op
AddTable(t, v) == v # cur.tabs[t] /\ Edit([op |-> "addtable", t |-> t, v |-> v, res |-> "ok"], [cur EXCEPT !.tabs[t] = v])
DelTable(t) == cur.tabs[t] # 0 /\ Edit([op |-> "deltable", t |-> t, res |-> "ok"], [cur EXCEPT !.tabs[t] = 0])
AddType(v) == v # cur.ty[1] /\ Edit([op |-> "addtype", v |-> v, res |-> "ok"], [cur EXCEPT !.ty[1] = v])
\* several programs record their models and types at the same time
Par == cur.ty[2] = 0 /\ Edit([op |-> "par", res |-> "ok"], [tabs |-> [t \in Tables |-> IF 3 \in Vars THEN 3 ELSE 1], ty |-> [k \in {1, 2} |-> 1]])
ClearCur == cur # NoCur /\ Edit([op |-> "clearcur", res |-> "ok"], NoCur)

\* A migration from f (0: an empty database) to the current schema; bad: SQL cannot be generated for one of the databases
CreateRes(n, f, bad) ==
  IF ~Resolvable THEN "err" ELSE IF Db(f) = Resolved THEN "none"
  ELSE IF bad \/ n \in Range(Back(f)) THEN "err" ELSE "ok"
Create(n, f, bs, bad) ==
  /\ f = 0 \/ f \in InChain
  \* what other migrations are based on is not replaced
  /\ Leaf(n) \/ n \in Range(Back(f))
  /\ LET r == CreateRes(n, f, bad) IN
       /\ IF r = "ok"
          THEN /\ store' = [store EXCEPT ![n] = <<[from |-> f, db |-> Resolved, sql |-> [b \in Bk |-> IF b \in bs THEN 1 ELSE 0]]>>]
               /\ latest' = IF latest = 0 \/ (f # 0 /\ f = latest) THEN n ELSE latest
          ELSE UNCHANGED <<store, latest>>
       /\ UNCHANGED <<kind, cur>>
       /\ ev' = [op |-> "create", n |-> n, f |-> f, bs |-> bs, bad |-> bad, res |-> r]
\* SQL given by hand
AddSql(n, b) == /\ Has(n) /\ (kind = "fs" \/ n \in InChain)
                /\ store' = [store EXCEPT ![n] = <<[M(n) EXCEPT !.sql[b] = 2]>>] /\ UNCHANGED <<kind, latest, cur>>
                /\ ev' = [op |-> "addsql", n |-> n, b |-> b, res |-> "ok"]
RmSql(n, b) == /\ Has(n) /\ (kind = "fs" \/ n \in InChain) /\ M(n).sql[b] # 0
               /\ store' = [store EXCEPT ![n] = <<[M(n) EXCEPT !.sql[b] = 0]>>] /\ UNCHANGED <<kind, latest, cur>>
               /\ ev' = [op |-> "rmsql", n |-> n, b |-> b, res |-> "ok"]
\* All migrations of the chain written again (the databases are those of the last one)
Regen == /\ latest # 0 /\ \E b \in Bk : M(latest).sql[b] # 0
         /\ store' = [n \in Names |-> IF n \in InChain THEN <<[M(n) EXCEPT !.sql = [b \in Bk |-> IF M(latest).sql[b] # 0 THEN 1 ELSE 0]]>> ELSE store[n]]
         /\ UNCHANGED <<kind, latest, cur>>
         /\ ev' = [op |-> "regen", res |-> "ok"]
\* Taking the last migration out of the chain, and putting one back
Detach == /\ kind = "fs" /\ latest # 0
          /\ LET f == M(latest).from IN
               /\ latest' = IF f = 0 THEN latest ELSE f
               /\ ev' = [op |-> "detach", res |-> IF f = 0 THEN "err" ELSE "ok"]
          /\ UNCHANGED <<kind, store, cur>>
Attach(n) == /\ Has(n) /\ n \notin InChain /\ Range(Back(n)) \subseteq {m \in Names : Has(m)}
             /\ latest' = IF latest = 0 \/ (M(n).from # 0 /\ M(n).from = latest) THEN n ELSE latest
             /\ UNCHANGED <<kind, store, cur>>
             /\ ev' = [op |-> "attach", n |-> n, res |-> "ok"]
\* The contents of a migration copied to another
Dup(n, m) == /\ kind = "fs" /\ Has(n) /\ ~Has(m)
             /\ store' = [store EXCEPT ![m] = store[n]] /\ UNCHANGED <<kind, latest, cur>>
             /\ ev' = [op |-> "dup", n |-> n, m |-> m, res |-> "ok"]
None == [n \in Names |-> <<>>]
\* forgetting all migrations; clearing also forgets (with: in a database that has had migrations) that they were applied
Forget(e) == store' = None /\ latest' = 0 /\ UNCHANGED <<kind, cur>> /\ ev' = e
Delete == latest # 0 /\ Forget([op |-> "delete", res |-> "ok"])
Clear(with) == latest # 0 /\ Forget([op |-> "clear", with |-> with, res |-> "ok"])
\* reading it back from the disk or from its text
Reload == UNCHANGED <<kind, store, latest, cur>> /\ ev' = [op |-> "reload", res |-> "ok"]
\* copying the chain into a collection of the other kind, and carrying on with that
Copy == /\ kind' = IF kind = "mem" THEN "fs" ELSE "mem"
        /\ store' = [n \in Names |-> IF n \in InChain THEN store[n] ELSE <<>>]
        /\ UNCHANGED <<latest, cur>>
        /\ ev' = [op |-> "copy", res |-> "ok"]
Rest == Par \/ ClearCur \/ Regen \/ Detach \/ Delete \/ Reload \/ Copy \/ \E w \in BOOLEAN : Clear(w)
Next == \/ \E t \in Tables, v \in Vars : AddTable(t, v)
        \/ \E t \in Tables : DelTable(t)
        \/ \E v \in Types : AddType(v)
        \/ \E n \in Names, f \in {0} \cup Names, bs \in SUBSET Bk \ {{}}, bad \in BOOLEAN : Create(n, f, bs, bad)
        \/ \E n \in Names, b \in Bk : AddSql(n, b) \/ RmSql(n, b)
        \/ \E n \in Names : Attach(n)
        \/ \E n, m \in Names : Dup(n, m)
        \/ Rest
Spec == Init /\ [][Next]_vars
Pick(S) == {RandomElement(S)}
SimNext == \/ \E t \in Pick({x \in Tables : x \in DOMAIN cur.tabs}), v \in Pick({x \in Vars : latest >= 0}) : AddTable(t, v)
           \/ \E t \in Pick({x \in Tables : x \in DOMAIN cur.tabs}) : DelTable(t)
           \/ \E v \in Pick({x \in Types : latest >= 0}) : AddType(v)
           \/ \E n \in Pick({x \in Names : latest >= 0}), bs \in Pick({x \in SUBSET Bk \ {{}} : latest >= 0}), bad \in Pick({x \in {TRUE, FALSE, FALSE} : latest >= 0}) :
                Create(n, latest, bs, bad)
           \/ \E n \in Pick({x \in Names : ~Has(x)} \cup {CHOOSE x \in Names : TRUE}), bs \in Pick({x \in SUBSET Bk \ {{}} : latest >= 0}) : Create(n, latest, bs, FALSE)
           \/ \E n \in Pick({x \in Names : latest >= 0}), f \in Pick({0} \cup InChain), bs \in Pick({x \in SUBSET Bk \ {{}} : latest >= 0}) : Create(n, f, bs, FALSE)
           \/ \E n \in Pick({x \in Names : latest >= 0}), b \in Pick({x \in Bk : latest >= 0}) : AddSql(n, b) \/ RmSql(n, b)
           \/ \E n \in Pick({x \in Names : latest >= 0}) : Attach(n)
           \/ \E n, m \in Pick({x \in Names : latest >= 0}) : Dup(n, m)
           \/ Par \/ ClearCur \/ Regen \/ Detach \/ Reload \/ Copy
           \/ \E w \in Pick({x \in {1, 2, 3, 4, 5, 6} : latest >= 0}) : CASE w = 1 -> Delete [] w = 2 -> Clear(TRUE) [] w = 3 -> Clear(FALSE) [] OTHER -> Reload
SimSpec == Init /\ [][SimNext]_vars

Variants == {0} \cup (Vars \ {3}) \cup {30 + v : v \in Types}
TypeOK == /\ kind \in {"mem", "fs"}
          /\ \A n \in Names : Has(n) => M(n).from \in {0} \cup Names /\ M(n).db \in [Tables -> Variants] /\ M(n).sql \in [Bk -> 0..2]
\* the chain is whole: every migration of it is there, once, based on the one before
ChainOK == /\ \A n \in InChain : Has(n)
           /\ Len(Chain) = Cardinality(InChain)
           /\ \A i \in 1..Len(Chain) : M(Chain[i]).from = IF i = 1 THEN 0 ELSE Chain[i - 1]
\* consecutive migrations differ
Steps == \A n \in InChain : M(n).db # Db(M(n).from)
\* editing the current schema, reloading and copying change no migration of the chain
Kept == [][ev'.op \in {"addtable", "deltable", "addtype", "par", "clearcur", "reload", "copy", "attach"} =>
             \A n \in InChain : n \in InChain' /\ store'[n] = store[n]]_vars
\* what fails or makes nothing changes nothing
Refused == [][ev'.op = "create" /\ ev'.res # "ok" => store' = store /\ latest' = latest /\ cur' = cur]_vars
\* creating, detaching and editing SQL never change another migration
Local == [][ev'.op \in {"create", "addsql", "rmsql"} => \A n \in Names : n # ev'.n => store'[n] = store[n]]_vars
Abs(k, s, l, c, ch, r, d) == [kind |-> k, store |-> s, latest |-> l, cur |-> c, chain |-> ch, db |-> IF r THEN <<d>> ELSE <<>>]
St == Abs(kind, store, latest, cur, Chain, Resolvable, Resolved)
Emitted == EMIT => EmitT(St, ev', Abs(kind', store', latest', cur', Chain', Resolvable', Resolved'))
====
