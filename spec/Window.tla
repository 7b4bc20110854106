---- MODULE Window ----
(* Sorting, limit and offset over a filtered table.  Rows that agree on every sort column may come in
   any order, so the specified result is the sequence of sort keys of the window.  Property Q02. *)
EXTENDS Sql3, Integers, SequencesExt, TLC, Emit
CONSTANTS AVals, BVals, SVals, Filters, SortCols, MaxTerms, Limits, Offsets, EMIT
\* -1: no limit / no offset
VARIABLES sort, ev
vars == <<sort, ev>>
View == sort
\* all combinations of column values, in lexicographic order
NA == Cardinality(AVals)
NB == Cardinality(BVals)
NS == Cardinality(SVals)
RowSeq == [i \in 1..(NA * NB * NS) |->
  << (i - 1) \div (NB * NS), 1 + (((i - 1) \div NS) % NB), (i - 1) % NS >>]
ASSUME AVals = 0..(NA - 1) /\ BVals = 1..NB /\ SVals = 0..(NS - 1)
Rows == [i \in 1..Len(RowSeq) |-> [id |-> i, a |-> RowSeq[i][1], b |-> RowSeq[i][2], s |-> RowSeq[i][3]]]
Full == 1..Len(RowSeq)
KeyOf(i, st) == [j \in DOMAIN st |-> Rows[i][st[j][1]]]
RECURSIVE Before(_, _, _)
\* row i must come before row k
Before(i, k, st) ==
  IF st = <<>> THEN FALSE
  ELSE LET c == Head(st)[1] x == Rows[i][c] y == Rows[k][c] IN
       IF x = y THEN Before(i, k, Tail(st))
       ELSE IF Head(st)[2] = "asc" THEN x < y ELSE x > y
\* each filter restricts the query further
Match3(i, f) == \A j \in DOMAIN f : Atom3(Rows[i], f[j], <<>>) = "T"
\* sorting by term, ties by row number
Sorted(f, st) == SetToSortSeq({i \in Full : Match3(i, f)}, LAMBDA i, k : Before(i, k, st) \/ (~Before(k, i, st) /\ i < k))
Window(s, lim, off) ==
  LET o == IF off < 0 THEN 0 ELSE off
      n == IF lim < 0 THEN Len(s) ELSE lim
  IN SubSeq(s, o + 1, IF o + n < Len(s) THEN o + n ELSE Len(s))
Init == sort = <<>> /\ ev = [op |-> "init"]
AddTerm(c, d) ==
  /\ Len(sort) < MaxTerms /\ \A j \in DOMAIN sort : sort[j][1] # c
  /\ sort' = Append(sort, <<c, d>>) /\ ev' = [op |-> "build", res |-> "ok"]
Query(f, lim, off) ==
  \* (rows which have been deleted are put back)
  /\ UNCHANGED sort
  /\ LET s == Sorted(f, sort) IN
     \E op \in {"window", "wdelete"} : ev' = [op |-> op, prog |-> f, sort |-> sort, limit |-> lim, offset |-> off, res |-> "ok",
            match |-> ToSet(s), keys |-> [j \in DOMAIN Window(s, lim, off) |-> KeyOf(Window(s, lim, off)[j], sort)],
            keyof |-> [i \in Full |-> KeyOf(i, sort)]]
Next == \/ \E c \in SortCols, d \in {"asc", "desc"} : AddTerm(c, d)
        \/ \E f \in Filters, lim \in Limits, off \in Offsets : Query(f, lim, off)
Spec == Init /\ [][Next]_vars
\* The properties, on the specified results
KeyBefore(x, y) == LET d == CHOOSE j \in DOMAIN x : x[j] # y[j] /\ \A h \in 1..(j-1) : x[h] = y[h]
                   IN IF sort[d][2] = "asc" THEN x[d] < y[d] ELSE x[d] > y[d]
Ordered == [][ev'.op \in {"window", "wdelete"} => \A i, j \in DOMAIN ev'.keys : i < j => ev'.keys[i] = ev'.keys[j] \/ KeyBefore(ev'.keys[i], ev'.keys[j])]_vars
Size == [][ev'.op \in {"window", "wdelete"} =>
   LET n == Cardinality(ev'.match) o == IF ev'.offset < 0 THEN 0 ELSE ev'.offset
       rest == IF n > o THEN n - o ELSE 0 IN
   Len(ev'.keys) = IF ev'.limit < 0 \/ ev'.limit > rest THEN rest ELSE ev'.limit]_vars
Emitted == (EMIT /\ ev'.op # "build") => EmitT([db |-> "full"], ev', [db |-> "full"])
====
