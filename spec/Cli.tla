---- MODULE Cli ----
(* A project: its models, its migrations, the copy of them embedded in its source, and its database, worked on with
   the command line tool.  Property C01.
   A schema is [a, b]: variant of the table A (0: none; 1: key and name; 2: with a further column that has a default;
   3: names unique; 4: with a column of a type only PostgreSQL has) and whether there is a table B that refers to A. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS BE,      \* the backend of the database
          Bk,      \* all backends
          AV,      \* variants of A
          MaxN,    \* how many migrations can be made
          EMIT
VARIABLES model,   \* schema the source declares
          cur,     \* schema recorded when it was built
          chain,   \* sequence of [id, s: schema, sql: set of backends]
          det,     \* migrations taken out of the chain
          n,       \* number of migrations made so far
          app,     \* how many of the chain are applied to the database
          d,       \* the database: [a: {1,2} -> <<>> or <<name, further>>, b: 0 or the row of A it refers to]
          emb,     \* whether migrations are embedded
          ev
vars == <<model, cur, chain, det, n, app, d, emb, ev>>
View == <<model, cur, chain, det, n, app, d, emb>>
Empty == [a |-> 0, b |-> 0]
NoData == [a |-> [i \in {1, 2} |-> <<>>], b |-> 0]
Init == /\ model = Empty /\ cur = Empty /\ chain = <<>> /\ det = {} /\ n = 0 /\ app = 0 /\ d = NoData /\ emb = FALSE
        /\ ev = [op |-> "init"]
Schema(k) == IF k = 0 THEN Empty ELSE chain[k].s
S == Schema(app)
Last == chain[Len(chain)]
Ids == {chain[i].id : i \in DOMAIN chain}
Index(id) == CHOOSE i \in DOMAIN chain : chain[i].id = id
Can(be, s) == s.a # 4 \/ be = "pg"

\* What going from one schema to another does to the data, if it is possible
Fits(from, to, x) == to.a = 3 => ~(x.a[1] # <<>> /\ x.a[2] # <<>> /\ x.a[1][1] = x.a[2][1])
Trans(from, to, x) ==
  [a |-> [i \in {1, 2} |-> IF to.a = 0 \/ x.a[i] = <<>> THEN <<>>
                           ELSE <<x.a[i][1], IF to.a = 2 THEN (IF from.a = 2 THEN x.a[i][2] ELSE "d") ELSE "-">>],
   b |-> IF to.b = 0 THEN 0 ELSE x.b]
RECURSIVE Up(_, _, _), Down(_, _, _)
Up(i, x, to) == IF i >= to THEN [app |-> i, d |-> x, ok |-> TRUE]
                ELSE IF BE \notin chain[i + 1].sql \/ ~Fits(Schema(i), chain[i + 1].s, x) THEN [app |-> i, d |-> x, ok |-> FALSE]
                ELSE Up(i + 1, Trans(Schema(i), chain[i + 1].s, x), to)
Down(i, x, to) == IF i <= to THEN [app |-> i, d |-> x, ok |-> TRUE]
                  ELSE IF BE \notin chain[i].sql \/ ~Fits(chain[i].s, Schema(i - 1), x) THEN [app |-> i, d |-> x, ok |-> FALSE]
                  ELSE Down(i - 1, Trans(chain[i].s, Schema(i - 1), x), to)

\* Work on the source: declare a variant of a table (0: none) and build.  Tables no longer declared stay recorded.
Built(m, c) == [a |-> IF m.a # 0 THEN m.a ELSE c.a, b |-> IF m.b # 0 THEN m.b ELSE c.b]
Edit(m) == /\ m # model /\ (m.b = 1 => m.a # 0)
           /\ model' = m /\ cur' = Built(m, cur)
           /\ UNCHANGED <<chain, det, n, app, d, emb>>
           /\ ev' = [op |-> "edit", res |-> "ok"]
Build == cur # Built(model, cur) /\ cur' = Built(model, cur) /\ UNCHANGED <<model, chain, det, n, app, d, emb>> /\ ev' = [op |-> "build", res |-> "ok"]
\* Work on the data
CanA(i, nm) == S.a # 0 /\ d.a[i] = <<>> /\ (S.a = 3 => \A j \in {1, 2} : IF d.a[j] = <<>> THEN TRUE ELSE d.a[j][1] # nm)
CanB(i) == S.b = 1 /\ d.b = 0 /\ d.a[i] # <<>>
AddA(i, nm) ==
  /\ CanA(i, nm)
  /\ d' = [d EXCEPT !.a[i] = <<nm, IF S.a = 2 THEN "v" ELSE "-">>]
  /\ UNCHANGED <<model, cur, chain, det, n, app, emb>> /\ ev' = [op |-> "adda", i |-> i, nm |-> nm, res |-> "ok"]
AddB(i) == /\ CanB(i) /\ d' = [d EXCEPT !.b = i]
           /\ UNCHANGED <<model, cur, chain, det, n, app, emb>> /\ ev' = [op |-> "addb", i |-> i, res |-> "ok"]

\* Commands
Nothing == UNCHANGED <<model, cur, chain, det, n, app, d, emb>>
Refuse(e) == Nothing /\ ev' = e @@ [res |-> "err"]
Accept(e) == Nothing /\ ev' = e @@ [res |-> "ok"]
\* a new migration, from the last one to the recorded schema, for the databases the last one is for
Make ==
  LET from == IF chain = <<>> THEN Empty ELSE Last.s
      bs == IF chain = <<>> THEN {BE} ELSE Last.sql IN
  /\ n < MaxN
  /\ IF cur = from THEN Nothing /\ ev' = [op |-> "make", res |-> "ok", made |-> FALSE]
     ELSE IF \E b \in bs : ~Can(b, cur) THEN Nothing /\ ev' = [op |-> "make", res |-> "err", made |-> FALSE]
     ELSE /\ chain' = Append(chain, [id |-> n + 1, s |-> cur, sql |-> bs]) /\ n' = n + 1
          /\ UNCHANGED <<model, cur, det, app, d, emb>> /\ ev' = [op |-> "make", res |-> "ok", made |-> TRUE]
Apply(e, r) == /\ app' = r.app /\ d' = r.d /\ UNCHANGED <<model, cur, chain, det, n, emb>>
               /\ ev' = e @@ [res |-> IF r.ok THEN "ok" ELSE "err"]
\* apply those not yet applied; all, or up to a named one.  99: a name there is no migration of
Migrate(to) ==
  LET e == [op |-> "migrate", to |-> to] IN
  IF to = 0 THEN Apply(e, Up(app, d, Len(chain)))
  ELSE IF to \notin Ids THEN Refuse(e)
  ELSE IF Index(to) <= app THEN Accept(e)
  ELSE Apply(e, Up(app, d, Index(to)))
\* undo the last applied, or those after a named one
Unmigrate(to) ==
  LET e == [op |-> "unmigrate", to |-> to] IN
  IF app = 0 THEN Refuse(e)
  ELSE IF to = 0 THEN Apply(e, Down(app, d, app - 1))
  ELSE IF to \notin Ids THEN Refuse(e)
  ELSE IF Index(to) >= app THEN Refuse(e)
  ELSE Apply(e, Down(app, d, Index(to)))
Detach ==
  IF Len(chain) <= 1 \/ app = Len(chain) THEN Refuse([op |-> "detach"])
  ELSE /\ chain' = SubSeq(chain, 1, Len(chain) - 1) /\ det' = det \cup {Last.id}
       /\ UNCHANGED <<model, cur, n, app, d, emb>> /\ ev' = [op |-> "detach", res |-> "ok"]
\* replace the migrations by one that leads to what has been applied
Collapse ==
  /\ n < MaxN
  /\ IF Len(chain) <= 1 \/ app = 0 THEN Refuse([op |-> "collapse"])
     ELSE IF S = Empty THEN Refuse([op |-> "collapse"])
     ELSE IF \E b \in Last.sql : ~Can(b, S) THEN Refuse([op |-> "collapse"])
     ELSE /\ chain' = <<[id |-> n + 1, s |-> S, sql |-> Last.sql]>> /\ n' = n + 1 /\ app' = 1 /\ det' = {}
          /\ UNCHANGED <<model, cur, d, emb>> /\ ev' = [op |-> "collapse", res |-> "ok"]
Regenerate == IF chain = <<>> THEN Refuse([op |-> "regenerate"]) ELSE Accept([op |-> "regenerate"])
BackendAdd(b) ==
  LET e == [op |-> "backendadd", b |-> b] IN
  IF chain = <<>> \/ b \notin Bk THEN Refuse(e)
  ELSE IF b \in Last.sql \/ \E i \in DOMAIN chain : ~Can(b, chain[i].s) THEN Refuse(e)
  ELSE /\ chain' = [i \in DOMAIN chain |-> [chain[i] EXCEPT !.sql = @ \cup {b}]]
       /\ UNCHANGED <<model, cur, det, n, app, d, emb>> /\ ev' = e @@ [res |-> "ok"]
BackendRm(b) ==
  LET e == [op |-> "backendrm", b |-> b] IN
  IF chain = <<>> \/ b \notin Bk THEN Refuse(e)
  ELSE IF Last.sql = {b} \/ b \notin Last.sql THEN Refuse(e)
  ELSE /\ chain' = [i \in DOMAIN chain |-> [chain[i] EXCEPT !.sql = @ \ {b}]]
       /\ UNCHANGED <<model, cur, det, n, app, d, emb>> /\ ev' = e @@ [res |-> "ok"]
BackendList == IF chain = <<>> THEN Refuse([op |-> "backendlist"])
               ELSE Nothing /\ ev' = [op |-> "backendlist", res |-> "ok", val |-> Last.sql]
Embed == /\ emb' = TRUE /\ UNCHANGED <<model, cur, chain, det, n, app, d>> /\ ev' = [op |-> "embed", res |-> "ok"]
List == Nothing /\ ev' = [op |-> "list", res |-> "ok", val |-> [i \in DOMAIN chain |-> [id |-> chain[i].id, applied |-> i <= app]]]
\* the tables that a migration, or (0) the recorded schema after the last migration, adds, drops and changes
Kind(x, y) == IF x = y THEN "same" ELSE IF x = 0 THEN "new" ELSE IF y = 0 THEN "remove" ELSE "change"
Describe(id) ==
  LET e == [op |-> "describe", id |-> id]
      ok(x, y) == Nothing /\ ev' = e @@ [res |-> "ok", val |-> [a |-> Kind(x.a, y.a), b |-> Kind(x.b, y.b)]] IN
  IF id = 0 THEN ok(IF chain = <<>> THEN Empty ELSE Last.s, cur)
  ELSE IF id \notin Ids THEN (id \notin det) = TRUE /\ Refuse(e)
  ELSE ok(Schema(Index(id) - 1), chain[Index(id)].s)
ClearData == IF app = 0 THEN Refuse([op |-> "cleardata"])
             ELSE d' = NoData /\ UNCHANGED <<model, cur, chain, det, n, app, emb>> /\ ev' = [op |-> "cleardata", res |-> "ok"]
\* forget a recorded table; it is refused if there is none
DelTable(t) ==
  LET e == [op |-> "deltable", t |-> t] IN
  IF cur[t] = 0 THEN Refuse(e)
  ELSE /\ (t = "a" => cur.b = 0)
       /\ cur' = [cur EXCEPT ![t] = 0] /\ UNCHANGED <<model, chain, det, n, app, d, emb>> /\ ev' = e @@ [res |-> "ok"]
Clean == /\ cur # Empty /\ cur' = Empty /\ UNCHANGED <<model, chain, det, n, app, d, emb>> /\ ev' = [op |-> "clean", res |-> "ok"]
Init2(good) == IF good THEN Accept([op |-> "initdb", good |-> TRUE]) ELSE Refuse([op |-> "initdb", good |-> FALSE])

Names == {"n1", "n2"}
Models == [a : AV, b : {0, 1}]
Command ==
  \/ Make \/ Detach \/ Collapse \/ Regenerate \/ BackendList \/ Embed \/ List \/ ClearData \/ Clean
  \/ \E id \in 0..n \cup {99} : Migrate(id) \/ Unmigrate(id) \/ Describe(id)
  \/ \E b \in Bk \cup {"nosuch"} : BackendAdd(b) \/ BackendRm(b)
  \/ \E t \in {"a", "b"} : DelTable(t)
  \/ \E g \in BOOLEAN : Init2(g)
Next == \/ Command \/ Build \/ \E m \in Models : Edit(m)
        \/ \E i \in {1, 2} : AddB(i) \/ \E nm \in Names : AddA(i, nm)
Spec == Init /\ [][Next]_vars
Pick(Q) == {RandomElement(Q)}
SimNext ==
  \E r \in Pick({x \in 1..48 : n >= 0}), m0 \in Pick({x \in Models : n >= 0}), w \in Pick({x \in 1..3 : n >= 0}), i \in Pick({x \in {1, 2} : n >= 0}),
     nm \in Pick({x \in Names : n >= 0}) :
  \E id \in Pick(Ids \cup det \cup (IF w = 1 \/ chain = <<>> THEN {0, 99} ELSE {0})), id1 \in Pick(Ids \cup (IF chain = <<>> THEN {99} ELSE {})),
     b \in Pick({x \in Bk \cup {"nosuch"} : n >= 0}), t \in Pick({x \in {"a", "b"} : n >= 0}) :
  LET m == IF w # 1 /\ m0.a \in {0, 4} THEN [m0 EXCEPT !.a = 2] ELSE m0
      new == cur # (IF chain = <<>> THEN Empty ELSE Last.s)
      can == \A x \in (IF chain = <<>> THEN {BE} ELSE Last.sql) : Can(x, cur)
      edit == m # model /\ (m.b = 1 => m.a # 0) IN
  CASE r <= 14 /\ Len(chain) < 4 /\ new /\ n < MaxN /\ (w = 1 \/ can) -> Make
    [] r <= 14 /\ edit -> Edit(m)
    [] r \in 15..17 /\ CanA(i, nm) -> AddA(i, nm)
    [] r \in 15..17 /\ CanB(i) -> AddB(i)
    [] r \in 18..21 -> Migrate(id1)
    [] r \in 22..23 -> Migrate(id)
    [] r = 24 -> Migrate(0)
    [] r = 25 -> Unmigrate(0)
    [] r \in 26..28 -> Unmigrate(id1)
    [] r = 29 -> Unmigrate(id)
    [] r \in 30..31 -> Detach
    [] r = 32 /\ n < MaxN -> Collapse
    [] r = 33 -> Regenerate
    [] r = 34 -> BackendAdd(b)
    [] r = 35 -> BackendRm(b)
    [] r = 36 -> Embed
    [] r = 37 -> List
    [] r = 38 /\ (id \in {0} \cup Ids \/ id \notin det) -> Describe(id)
    [] r \in 39..40 /\ d # NoData /\ app > 0 -> ClearData
    [] r = 41 -> ClearData
    [] r = 42 /\ (t = "b" \/ cur.a = 0 \/ cur.b = 0) -> DelTable(t)
    [] r = 43 /\ w = 1 /\ cur # Empty -> Clean
    [] r = 44 /\ cur # Built(model, cur) -> Build
    [] r = 45 -> BackendList
    [] r = 46 /\ m.a < 2 -> Init2(m.a = 0)
    [] r = 47 /\ n < MaxN -> Make
    [] n < MaxN /\ new /\ can -> Make
    [] OTHER -> Migrate(id)
SimSpec == Init /\ [][SimNext]_vars

TypeOK == /\ app \in 0..Len(chain) /\ n \in 0..MaxN /\ cur \in [a : AV, b : {0, 1}] /\ det \cap Ids = {}
\* consecutive migrations differ, all are for the same databases
ChainOK == /\ \A i \in DOMAIN chain : chain[i].s # Schema(i - 1) /\ chain[i].sql # {} /\ chain[i].sql = chain[1].sql
           /\ \A i \in DOMAIN chain : \A b \in chain[i].sql : Can(b, chain[i].s)
\* the data is data of the schema that has been applied
DataOK == /\ \A i \in {1, 2} : d.a[i] # <<>> => S.a # 0 /\ (d.a[i][2] = "-" <=> S.a # 2)
          /\ d.b # 0 => S.b = 1 /\ d.a[d.b] # <<>>
          /\ Fits(S, S, d)
\* only these touch the data, and only these the chain, what is applied, ...
KeepsData == [][ev'.op \notin {"adda", "addb", "migrate", "unmigrate", "cleardata"} => d' = d]_vars
KeepsChain == [][ev'.op \notin {"make", "detach", "collapse", "backendadd", "backendrm"} => chain' = chain]_vars
KeepsApplied == [][ev'.op \notin {"migrate", "unmigrate", "collapse"} => app' = app]_vars
SchemaStays == [][ev'.op \notin {"migrate", "unmigrate"} => (IF app' = 0 THEN Empty ELSE chain'[app'].s) = S]_vars
RefusedNothing == [][ev'.res = "err" /\ ev'.op \notin {"migrate", "unmigrate"} => model' = model /\ cur' = cur /\ chain' = chain /\ det' = det /\ app' = app /\ d' = d /\ emb' = emb]_vars
Forward == [][(ev'.op = "migrate" => app' >= app) /\ (ev'.op = "unmigrate" => app' <= app)]_vars
Abs(m, c, ch, dt, nn, ap, dd, em) == [model |-> m, cur |-> c, chain |-> ch, det |-> dt, n |-> nn, app |-> ap, d |-> dd, emb |-> em]
Emitted == EMIT => EmitT(Abs(model, cur, chain, det, n, app, d, emb), ev', Abs(model', cur', chain', det', n', app', d', emb'))
====
