---- MODULE Values ----
(* Rows with a required column v and an optional column o of one type, whose values are known only by their rank
   in the natural order of the type; 0 stands for null.  What is stored is what is read, and comparing stored
   values in the database agrees with comparing the values themselves.  Property V01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS Ids, R,      \* row keys; number of values
          Ordered,     \* the type has an order the database knows
          EMIT
VARIABLES rows,  \* [Ids -> <<>> or <<v, o>>]
          ev
vars == <<rows, ev>>
View == rows
Ranks == 1..R
Init == rows = [i \in Ids |-> <<>>] /\ ev = [op |-> "init"]
Row == {<<>>} \cup (Ranks \X (0..R))
TypeOK == rows \in [Ids -> Row]
There == {i \in Ids : rows[i] # <<>>}

Save(i, v, o) == rows' = [rows EXCEPT ![i] = <<v, o>>] /\ ev' = [op |-> "save", i |-> i, v |-> v, o |-> o, res |-> "ok"]
Delete(i) == i \in There /\ rows' = [rows EXCEPT ![i] = <<>>] /\ ev' = [op |-> "delete", i |-> i, res |-> "ok"]
\* c: 1 for v, 2 for o
Cmp(op, a, b) ==
  /\ a # 0     \* a comparison with null is not true
  /\ CASE op = "eq" -> a = b [] op = "ne" -> a # b [] op = "lt" -> a < b [] op = "le" -> a <= b [] op = "gt" -> a > b [] op = "ge" -> a >= b
Ops == IF Ordered THEN {"eq", "ne", "lt", "le", "gt", "ge"} ELSE {"eq", "ne"}
Find(c, op, x) ==
  /\ ev' = [op |-> "find", c |-> c, cmp |-> op, x |-> x, ids |-> {i \in There : Cmp(op, rows[i][c], x)}, res |-> "ok"]
  /\ UNCHANGED rows
FindNull(neg) ==
  /\ ev' = [op |-> "null", neg |-> neg, ids |-> {i \in There : (rows[i][2] = 0) # neg}, res |-> "ok"]
  /\ UNCHANGED rows
FindIn(c, S) ==
  /\ ev' = [op |-> "in", c |-> c, xs |-> S, ids |-> {i \in There : rows[i][c] \in S}, res |-> "ok"]
  /\ UNCHANGED rows
\* the ranks of column v in the order asked for
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : rows[i][1] <= rows[j][1] IN <<rows[m][1]>> \o Sorted(S \ {m})
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Sort(dir) ==
  /\ Ordered
  /\ ev' = [op |-> "sort", dir |-> dir, ranks |-> IF dir = "asc" THEN Sorted(There) ELSE Rev(Sorted(There)), res |-> "ok"]
  /\ UNCHANGED rows
Next ==
  \/ \E i \in Ids, v \in Ranks, o \in 0..R : Save(i, v, o)
  \/ \E i \in Ids : Delete(i)
  \/ \E c \in {1, 2}, op \in Ops, x \in Ranks : Find(c, op, x)
  \/ \E neg \in BOOLEAN : FindNull(neg)
  \/ \E c \in {1, 2}, S \in SUBSET Ranks : FindIn(c, S)
  \/ \E dir \in {"asc", "desc"} : Sort(dir)
Spec == Init /\ [][Next]_vars
\* the finders split the rows that have a value
Split == [][\A i \in Ids : ev'.op = "find" /\ ev'.cmp = "lt" => \A j \in ev'.ids : rows[j][ev'.c] < ev'.x /\ rows[j][ev'.c] # 0]_vars
OnlyNamed == [][\A i \in Ids : rows'[i] # rows[i] => ev'.op \in {"save", "delete"} /\ ev'.i = i]_vars
Emitted == EMIT => EmitT(rows, ev', rows')
====
