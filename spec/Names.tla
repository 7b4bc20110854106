---- MODULE Names ----
(* Two related tables that migrations create, change and drop, written, changed, searched and emptied through every
   operation of a connection.  No rule depends on what the tables and their columns are called: a behaviour is replayed
   under many namings.  Property N01.
   P: key, value, at some stages a further column with a default.  C: key, reference to P. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS Top,   \* last stage
          K,     \* keys of P
          J,     \* keys of C
          D,     \* values (numbers from 1; 0 is null)
          Fixed, \* the tables are those of two models, there from the start
          EMIT
VARIABLES st,    \* 0: no tables, 1: both, 2: the further column, 3: values unique, 4: values optional, 5: no further column, 6: no C
          p,     \* K -> <<>> or <<value, further>>
          c,     \* J -> 0 or the row of P it refers to
          ev
vars == <<st, p, c, ev>>
View == <<st, p, c>>
HasP(s) == s >= 1
HasC(s) == s \in 1..5
Extra(s) == s \in 2..4
Uniq(s) == s = 3
Opt(s) == s >= 4
Init == st = (IF Fixed THEN 1 ELSE 0) /\ p = [i \in K |-> <<>>] /\ c = [j \in J |-> 0] /\ ev = [op |-> "init"]
Rows(q) == {i \in K : q[i] # <<>>}
Distinct(q) == \A i, j \in Rows(q) : i # j /\ q[i][1] # 0 => q[i][1] # q[j][1]
Fits(s, q) == /\ ~Opt(s) => \A i \in Rows(q) : q[i][1] # 0
              /\ Uniq(s) => Distinct(q)
To(s) ==
  /\ p' = [i \in K |-> IF p[i] = <<>> \/ ~HasP(s) THEN <<>>
                       ELSE <<p[i][1], IF ~Extra(s) THEN "-" ELSE IF Extra(st) THEN p[i][2] ELSE "def">>]
  /\ c' = [j \in J |-> IF HasC(s) THEN c[j] ELSE 0]
  /\ st' = s
Up == /\ st < Top /\ ~Fixed
      /\ Fits(st + 1, p) /\ To(st + 1) /\ ev' = [op |-> "up", res |-> "ok"]
Down == /\ st > 0 /\ ~Fixed
        /\ Fits(st - 1, p) /\ To(st - 1) /\ ev' = [op |-> "down", res |-> "ok"]
Same == UNCHANGED <<st, p, c>>
\* a row is written if it may be; how: inserted, inserted or replaced, or changed
Write(how, i, v) ==
  LET x == IF ~Extra(st) THEN "-" ELSE IF how = "update" THEN (IF p[i] = <<>> THEN "-" ELSE p[i][2]) ELSE "giv"
      q == [p EXCEPT ![i] = <<v, x>>]
      e == [op |-> "write", how |-> how, i |-> i, v |-> v] IN
  /\ HasP(st) /\ (v = 0 => Opt(st))
  /\ (how = "update" => p[i] # <<>>) = TRUE
  /\ (how \in {"update", "replace"} \/ p[i] = <<>> \/ v # 0) = TRUE
  /\ IF (how \notin {"update", "replace"} /\ p[i] # <<>>) \/ ~Fits(st, q) THEN Same /\ ev' = e @@ [res |-> "err"]
     ELSE p' = q /\ UNCHANGED <<st, c>> /\ ev' = e @@ [res |-> "ok"]
Refer(j, i) ==
  LET e == [op |-> "refer", j |-> j, i |-> i, new |-> c[j] = 0] IN
  /\ HasC(st)
  /\ IF p[i] = <<>> THEN Same /\ ev' = e @@ [res |-> "err"]
     ELSE c' = [c EXCEPT ![j] = i] /\ UNCHANGED <<st, p>> /\ ev' = e @@ [res |-> "ok"]
DelC(j) == HasC(st) /\ c' = [c EXCEPT ![j] = 0] /\ UNCHANGED <<st, p>> /\ ev' = [op |-> "delc", j |-> j, res |-> "ok"]

\* Conditions on a row of P
Kinds == {"eq", "ne", "lt", "gt", "le", "ge", "like", "in", "not", "and", "or"}
Sub == {"sub", "join", "keys"}
Holds(k, v, i) ==
  LET a == p[i][1] IN
  CASE k = "eq" -> a = v
    [] k = "ne" -> a # 0 /\ a # v
    [] k = "lt" -> a # 0 /\ a < v
    [] k = "gt" -> a # 0 /\ a > v
    [] k = "le" -> a # 0 /\ a <= v
    [] k = "ge" -> a # 0 /\ a >= v
    [] k = "like" -> a = v
    [] k = "in" -> a = v
    [] k = "not" -> a # 0 /\ a # v
    [] k = "and" -> a = v /\ i = 1
    [] k = "or" -> a = v \/ i = 1
    [] k = "keys" -> i = v
    [] k = "sub" -> \E j \in J : c[j] = i /\ j <= v             \* key among the references of such rows of C
    [] k = "join" -> \E j \in J : c[j] = i /\ p[i][1] = v       \* ... of those that refer to such rows of P
    [] OTHER -> TRUE
Conds == {"all"} \cup Kinds \cup (IF HasC(st) THEN Sub ELSE {"keys"})
Sel(k, v) == {i \in Rows(p) : Holds(k, v, i)}
Less(o, x, y) == CASE o = "k" -> x < y
                   [] o = "kd" -> x > y
                   [] o = "d" -> p[x][1] < p[y][1] \/ (p[x][1] = p[y][1] /\ x < y)
                   [] OTHER -> p[x][1] > p[y][1] \/ (p[x][1] = p[y][1] /\ x < y)
RECURSIVE Order(_, _)
Order(q, o) == IF q = {} THEN <<>> ELSE LET m == CHOOSE x \in q : \A y \in q : x = y \/ Less(o, x, y) IN <<m>> \o Order(q \ {m}, o)
Cut(s, w) == IF w = "all" \/ s = <<>> THEN s ELSE IF w = "first" THEN SubSeq(s, 1, 1) ELSE SubSeq(s, 2, Len(s))
Find(k, v, o, w) ==
  /\ HasP(st) /\ k \in Conds /\ (o \in {"d", "dd"} => \A i \in Rows(p) : p[i][1] # 0)
  /\ Same /\ ev' = [op |-> "find", k |-> k, v |-> v, o |-> o, w |-> w, res |-> "ok", val |-> Cut(Order(Sel(k, v), o), w)]
\* rows of C by their reference, or by the value of what they refer to
FindC(k, v) ==
  /\ HasC(st)
  /\ Same /\ ev' = [op |-> "findc", k |-> k, v |-> v, res |-> "ok",
                    val |-> {j \in J : c[j] # 0 /\ (IF k = "ref" THEN c[j] = v ELSE p[c[j]][1] = v)}]
Delete(k, v) ==
  LET s == Sel(k, v)
      e == [op |-> "delete", k |-> k, v |-> v] IN
  /\ HasP(st) /\ k \in Conds
  /\ IF \E j \in J : c[j] \in s THEN Same /\ ev' = e @@ [res |-> "err", n |-> 0]
     ELSE p' = [i \in K |-> IF i \in s THEN <<>> ELSE p[i]] /\ UNCHANGED <<st, c>> /\ ev' = e @@ [res |-> "ok", n |-> Cardinality(s)]
Has == Same /\ ev' = [op |-> "has", res |-> "ok", p |-> HasP(st), c |-> HasC(st)]
Next ==
  \/ Up \/ Down \/ Has
  \/ \E i \in K, v \in D \cup {0}, how \in {"insert", "replace", "update"} : Write(how, i, v)
  \/ \E j \in J, i \in K : Refer(j, i)
  \/ \E j \in J : DelC(j)
  \/ \E k \in {"all"} \cup Kinds \cup Sub, v \in D, o \in {"k", "kd", "d", "dd"}, w \in {"all", "first", "rest"} : Find(k, v, o, w)
  \/ \E k \in {"ref", "val"}, v \in K \cap D : FindC(k, v)
  \/ \E k \in {"all"} \cup Kinds \cup Sub, v \in D : Delete(k, v)
Spec == Init /\ [][Next]_vars
TypeOK == st \in 0..Top /\ p \in [K -> {<<>>} \cup {<<v, x>> : v \in D \cup {0}, x \in {"-", "def", "giv"}}] /\ c \in [J -> {0} \cup K]
Refs == \A j \in J : c[j] # 0 => HasC(st) /\ p[c[j]] # <<>>
Shape == \A i \in Rows(p) : HasP(st) /\ (p[i][2] = "-" <=> ~Extra(st))
Sound == Fits(st, p)
Reads == [][ev'.op \in {"find", "findc", "has"} \/ ev'.res = "err" => p' = p /\ c' = c /\ st' = st]_vars
Emitted == EMIT => EmitT([st |-> st, p |-> p, c |-> c], ev', [st |-> st', p |-> p', c |-> c'])
====
