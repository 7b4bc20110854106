---- MODULE Sql3 ----
(* SQL's three-valued logic, and the filter expressions of butane over it.  A filter is a program in
   postfix form: a sequence of tokens (records).  A row is a record of columns whose values are
   ranks: 0 is NULL, larger ranks are larger values.  Text columns hold an index into Strs. *)
EXTENDS Naturals, Sequences, FiniteSets
NOT3(x) == CASE x = "T" -> "F" [] x = "F" -> "T" [] OTHER -> "U"
AND3(x, y) == IF x = "F" \/ y = "F" THEN "F" ELSE IF x = "T" /\ y = "T" THEN "T" ELSE "U"
OR3(x, y) == IF x = "T" \/ y = "T" THEN "T" ELSE IF x = "F" /\ y = "F" THEN "F" ELSE "U"
B3(b) == IF b THEN "T" ELSE "F"
CMP3(o, x, y) == IF x = 0 \/ y = 0 THEN "U"
  ELSE B3(CASE o = "eq" -> x = y [] o = "ne" -> x # y [] o = "lt" -> x < y
            [] o = "gt" -> x > y [] o = "le" -> x <= y [] o = "ge" -> x >= y)
RECURSIVE OrAll(_), AndAll(_)
OrAll(s) == IF s = <<>> THEN "F" ELSE OR3(Head(s), OrAll(Tail(s)))
AndAll(s) == IF s = <<>> THEN "T" ELSE AND3(Head(s), AndAll(Tail(s)))
IN3(x, vs) == OrAll([i \in DOMAIN vs |-> CMP3("eq", x, vs[i])])

\* LIKE, on sequences of characters; % any sequence, _ any one character
RECURSIVE Match(_, _)
Match(s, p) == IF p = <<>> THEN s = <<>>
  ELSE IF Head(p) = "%" THEN Match(s, Tail(p)) \/ (s # <<>> /\ Match(Tail(s), p))
  ELSE s # <<>> /\ (Head(p) = "_" \/ Head(p) = Head(s)) /\ Match(Tail(s), Tail(p))

\* Value of an atom for a row
Atom3(row, a, strs) ==
  CASE a.t = "cmp"  -> CMP3(a.o, row[a.c], a.v)
    [] a.t = "null" -> B3(row[a.c] = 0)
    [] a.t = "notnull" -> B3(row[a.c] # 0)
    [] a.t = "in"   -> IN3(row[a.c], a.vs)
    [] a.t = "like" -> IF row[a.c] = 0 THEN "U" ELSE B3(Match(strs[row[a.c]], a.p))
    [] a.t = "col"  -> CMP3(a.o, row[a.c], row[a.c2])
    [] a.t = "true" -> "T"

Front_(s) == SubSeq(s, 1, Len(s) - 1)
Last_(s) == s[Len(s)]
\* One step of the evaluation: st is the stack
Step3(st, tok, row, strs) ==
  CASE tok.t = "not" -> Append(Front_(st), NOT3(Last_(st)))
    [] tok.t = "and" -> Append(SubSeq(st, 1, Len(st) - 2), AND3(st[Len(st) - 1], st[Len(st)]))
    [] tok.t = "or"  -> Append(SubSeq(st, 1, Len(st) - 2), OR3(st[Len(st) - 1], st[Len(st)]))
    [] tok.t = "all" -> Append(SubSeq(st, 1, Len(st) - tok.n), AndAll(SubSeq(st, Len(st) - tok.n + 1, Len(st))))
    [] OTHER -> Append(st, Atom3(row, tok, strs))
====
