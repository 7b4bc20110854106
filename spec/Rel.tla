---- MODULE Rel ----
(* Related objects and filters that follow the relations.  Four tables: items (I), tags (T), children
   (C: parent -> I, optional opt -> T) and owners (O: optional boss -> O, optional lead -> C, and the
   many-to-many things -> I, tags -> T, kids -> C, friends -> O).  A filter is built token by token in
   postfix form; a relation token turns a filter on the referred type into one on the referring type.
   Property Q03. *)
EXTENDS Sql3, TLC, Emit
CONSTANTS DBs,          \* sequence of databases
          Atoms, MaxLen, MaxDepth, Bools, DELETE, EMIT
VARIABLES d, gone, prog, stk, ev
\* d: the database in use, 0 for none yet; gone: rows deleted, [type -> ids]
vars == <<d, gone, prog, stk, ev>>
View == <<d, gone, prog>>

Types == {"I", "T", "C", "O"}
Rel == [parent |-> <<"C", "I">>, opt |-> <<"C", "T">>, boss |-> <<"O", "O">>, lead |-> <<"O", "C">>,
        things |-> <<"O", "I">>, tags |-> <<"O", "T">>, kids |-> <<"O", "C">>, friends |-> <<"O", "O">>]
FKeys == {"parent", "opt", "boss", "lead"}
Manys == {"things", "tags", "kids", "friends"}
Nothing == [t \in Types |-> {}]

Ids(t) == DOMAIN DBs[d][t] \ gone[t]
Row(t, i) == DBs[d][t][i]
\* value of an atom for a row (the columns of a row include its key, as its number)
AtomVal(a, i) == LET x == IF a.c = "key" THEN i ELSE Row(a.ty, i)[a.c] IN
  CASE a.t = "cmp" -> CMP3(a.o, x, a.v)
    [] a.t = "null" -> B3(x = 0)
\* follow a relation from row i, given the value of the inner filter for the rows referred to
Follow(r, i, inner, S) ==
  IF r \in FKeys
  THEN LET x == Row(Rel[r][1], i)[r] IN
       IF x # 0 THEN B3(inner[x] = "T")
       ELSE IF \E k \in S : inner[k] = "T" THEN "U" ELSE "F"
  ELSE B3(\E k \in Row(Rel[r][1], i)[r] : inner[k] = "T")
Top == stk[Len(stk)]
Under == stk[Len(stk) - 1]
Pop(n) == SubSeq(stk, 1, Len(stk) - n)
\* stack elements: type and the value for every row
El(ty, f) == [ty |-> ty, v |-> f]

Result == {i \in Ids(Top.ty) : Top.v[i] = "T"}
\* is a row referred to by some row that is not in the set D of its type's rows being deleted?
Referred(t, D) == \E r \in DOMAIN Rel : Rel[r][2] = t /\
  \E i \in Ids(Rel[r][1]) :
    IF r \in FKeys THEN ~(Rel[r][1] = t /\ i \in D) /\ Row(Rel[r][1], i)[r] \in D
    ELSE Row(Rel[r][1], i)[r] \cap D # {}
\* rows of a relation also refer to their owner
Owning(t, D) == t = "O" /\ \E i \in D, r \in Manys : Row("O", i)[r] # {}

Init == d = 0 /\ gone = Nothing /\ prog = <<>> /\ stk = <<>> /\ ev = [op |-> "init"]
Fill(n) ==
  /\ d = 0 \/ gone # Nothing
  /\ d' = n /\ gone' = Nothing /\ prog' = <<>> /\ stk' = <<>>
  /\ ev' = [op |-> "fill", res |-> "ok", db |-> DBs[n]]
Push(tok, s) ==
  /\ prog' = Append(prog, tok) /\ stk' = s /\ UNCHANGED <<d, gone>>
  /\ ev' = IF Len(s) = 1
           THEN [op |-> "query", ty |-> s[1].ty, prog |-> prog', res |-> "ok", rows |-> {i \in Ids(s[1].ty) : s[1].v[i] = "T"}]
           ELSE [op |-> "build", res |-> "ok"]
Ready == d # 0 /\ gone = Nothing /\ Len(prog) < MaxLen
PushAtom == Ready /\ Len(stk) < MaxDepth /\ \E a \in Atoms :
  Push(a, Append(stk, El(a.ty, [i \in Ids(a.ty) |-> AtomVal(a, i)])))
PushRel == Ready /\ Len(stk) > 0 /\ \E r \in DOMAIN Rel : Rel[r][2] = Top.ty /\
  Push([t |-> "rel", r |-> r, ty |-> Rel[r][1], many |-> r \in Manys],
       Append(Pop(1), El(Rel[r][1], [i \in Ids(Rel[r][1]) |-> Follow(r, i, Top.v, Ids(Top.ty))])))
PushNot == Ready /\ Len(stk) > 0 /\ prog[Len(prog)].t # "not" /\
  Push([t |-> "not"], Append(Pop(1), El(Top.ty, [i \in DOMAIN Top.v |-> NOT3(Top.v[i])])))
PushBin == Ready /\ Len(stk) > 1 /\ Under.ty = Top.ty /\ \E o \in Bools :
  Push([t |-> o], Append(Pop(2), El(Top.ty, [i \in DOMAIN Top.v |->
     IF o = "and" THEN AND3(Under.v[i], Top.v[i]) ELSE OR3(Under.v[i], Top.v[i])])))
\* delete by the present filter; refused as a whole if something refers to a deleted row
Delete ==
  /\ DELETE /\ d # 0 /\ gone = Nothing /\ Len(stk) = 1 /\ Result # {}
  /\ LET t == Top.ty  bad == Referred(t, Result) \/ Owning(t, Result) IN
     /\ gone' = IF bad THEN gone ELSE [gone EXCEPT ![t] = Result]
     /\ ev' = [op |-> "delete", ty |-> t, prog |-> prog, res |-> IF bad THEN "err" ELSE "ok", n |-> Cardinality(Result), within |-> t = "O" /\ \E i \in Result : Row(t, i).boss \in Result]
  /\ prog' = <<>> /\ stk' = <<>> /\ UNCHANGED d
Next == (\E n \in DOMAIN DBs : Fill(n)) \/ PushAtom \/ PushRel \/ PushNot \/ PushBin \/ Delete
Spec == Init /\ [][Next]_vars

\* Properties of the specified results
TypeOK == d \in 0..Len(DBs) /\ \A k \in DOMAIN stk : DOMAIN stk[k].v = Ids(stk[k].ty)
\* an unset reference satisfies no filter
UnsetNever == (Len(stk) > 0 /\ prog[Len(prog)].t = "rel" /\ prog[Len(prog)].r \in FKeys) =>
  \A i \in Ids(Top.ty) : Row(Top.ty, i)[prog[Len(prog)].r] = 0 => Top.v[i] # "T"
\* a relation filter selects something only if its inner filter does
Emitted == (EMIT /\ ev'.op # "build") => EmitT([d |-> d, gone |-> gone], ev', [d |-> d', gone |-> gone'])
====
