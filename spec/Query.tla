---- MODULE Query ----
(* A table, and queries whose filter is built up token by token in postfix form.  The value of the
   filter for every row is carried along as a stack per row, so that each state with one value per
   row on the stack is a complete query, with its result.  Property Q01. *)
EXTENDS Sql3, TLC, Emit
CONSTANTS AVals, BVals, Strs, SVals,  \* column values; Strs: sequence of character sequences
          Atoms,                      \* the atoms used
          MaxLen, MaxDepth, MaxAll, DELETE, EMIT
VARIABLES db,     \* ids of the rows present
          prog, stk, ev
vars == <<db, prog, stk, ev>>
View == <<db, prog>>

\* all combinations of column values, in lexicographic order
NA == Cardinality(AVals)
NB == Cardinality(BVals)
NS == Cardinality(SVals)
RowSeq == [i \in 1..(NA * NB * NS) |->
  << (i - 1) \div (NB * NS), 1 + (((i - 1) \div NS) % NB), (i - 1) % NS >>]
ASSUME AVals = 0..(NA - 1) /\ BVals = 1..NB /\ SVals = 0..(NS - 1)
Rows == [i \in 1..Len(RowSeq) |-> [a |-> RowSeq[i][1], b |-> RowSeq[i][2], s |-> RowSeq[i][3]]]
Full == 1..Len(RowSeq)

Depth == IF stk = <<>> THEN 0 ELSE Len(stk[1])
Result == {i \in db : stk[i][1] = "T"}
TypeOK == db \subseteq Full
\* the law of the logic: negation partitions the rows together with "unknown"
Partition == prog # <<>> /\ Depth = 1 =>
   \A i \in Full : (stk[i][1] = "T") # (NOT3(stk[i][1]) = "T") \/ stk[i][1] = "U"

Init == db = Full /\ prog = <<>> /\ stk = <<>> /\ ev = [op |-> "init"]
NewStk(tok) == [i \in Full |-> Step3(IF stk = <<>> THEN <<>> ELSE stk[i], tok, Rows[i], Strs)]
Push(tok) ==
  /\ db = Full
  /\ prog' = Append(prog, tok) /\ stk' = NewStk(tok) /\ UNCHANGED db
  /\ ev' = IF Len(stk'[1]) = 1
           THEN [op |-> "query", prog |-> prog', res |-> "ok", rows |-> {i \in db : stk'[i][1] = "T"}]
           ELSE [op |-> "build", res |-> "ok"]
\* delete by the present filter; only from the full table, which is then filled again
Delete ==
  /\ DELETE /\ db = Full /\ Depth = 1 /\ Result # {}
  /\ db' = db \ Result /\ prog' = <<>> /\ stk' = <<>>
  /\ ev' = [op |-> "delete", prog |-> prog, res |-> "ok", n |-> Cardinality(Result)]
Refill ==
  /\ db # Full /\ db' = Full /\ prog' = <<>> /\ stk' = <<>> /\ ev' = [op |-> "refill", res |-> "ok"]
Next ==
  \/ \E a \in Atoms : Len(prog) < MaxLen /\ Depth < MaxDepth /\ Push(a)
  \/ Len(prog) < MaxLen /\ Depth >= 1 /\ Last_(prog).t # "not" /\ Push([t |-> "not"])
  \/ \E o \in {"and", "or"} : Len(prog) < MaxLen /\ Depth >= 2 /\ Push([t |-> o])
  \/ \E n \in 0..MaxAll : n # 2 /\ Len(prog) < MaxLen /\ Depth >= n /\ Depth - n < MaxDepth /\ Push([t |-> "all", n |-> n])
  \/ Delete \/ Refill
Spec == Init /\ [][Next]_vars

Emitted == (EMIT /\ ev'.op \in {"query", "delete", "refill"}) => EmitT([db |-> db], ev', [db |-> db'])
====
