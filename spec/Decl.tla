---- MODULE Decl ----
(* Declarations of models and of custom types, and the schema recorded for them.  Property D01.
   A program's declarations are expanded in any order, again and again (every build expands what was edited). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
\* Once: no model is expanded again with other fields
CONSTANTS Models, Aliases, PkTypes, Types, AliasTypes, Attrs, MaxFields, Once, EMIT
VARIABLES decl,    \* model -> <<>> or <<[pk, auto, renamed, fields]>>
          alias,   \* custom type -> "none" or what it stands for
          ev
vars == <<decl, alias, ev>>
View == <<decl, alias>>
Init == decl = [m \in Models |-> <<>>] /\ alias = [a \in Aliases |-> "none"] /\ ev = [op |-> "init"]
Is(m) == decl[m] # <<>>
D(m) == Head(decl[m])

\* Fields: of a type, referring to a model, or related to many of a model
Prims == {[k |-> "prim", t |-> t, m |-> 0, null |-> a.null, uniq |-> a.uniq, dflt |-> a.dflt] : t \in Types, a \in Attrs}
Fks == {[k |-> "fk", t |-> "", m |-> m, null |-> a.null, uniq |-> a.uniq, dflt |-> 0] : m \in Models, a \in Attrs}
Manys == {[k |-> "many", t |-> "", m |-> m, null |-> FALSE, uniq |-> FALSE, dflt |-> 0] : m \in Models}
Fields == Prims \cup Fks \cup Manys
Pks == {[t |-> t, auto |-> FALSE] : t \in PkTypes} \cup {[t |-> t, auto |-> TRUE] : t \in PkTypes \cap {"int", "bigint"}}

\* What a type is in the database
RECURSIVE TypeOf(_)
TypeOf(t) == IF t \in Aliases THEN (IF alias[t] = "none" THEN "none" ELSE TypeOf(alias[t])) ELSE t
PkType(m) == IF Is(m) THEN TypeOf(D(m).pk.t) ELSE "none"
FieldType(f) == IF f.k = "prim" THEN TypeOf(f.t) ELSE PkType(f.m)
Declared == {m \in Models : Is(m)}
Resolvable == \A m \in Declared : PkType(m) # "none" /\ \A i \in DOMAIN D(m).fields : FieldType(D(m).fields[i]) # "none"

\* The schema.  Columns are numbered as the fields, the key's is 0; ref: the model whose key is referred to
Column(i, t, null, pk, auto, uniq, dflt, ref) == [f |-> i, t |-> t, null |-> null, pk |-> pk, auto |-> auto, uniq |-> uniq, dflt |-> dflt, ref |-> ref]
KeyColumn(m) == Column(0, PkType(m), FALSE, TRUE, D(m).pk.auto, FALSE, 0, 0)
FieldColumn(i, f) == Column(i, FieldType(f), f.null, FALSE, FALSE, f.uniq, f.dflt, f.m)
RowFields(m) == {i \in DOMAIN D(m).fields : D(m).fields[i].k # "many"}
ManyFields(m) == DOMAIN D(m).fields \ RowFields(m)
Table(m) == [m |-> m, many |-> 0, owner |-> 0, has |-> 0, renamed |-> D(m).renamed,
             cols |-> {KeyColumn(m)} \cup {FieldColumn(i, D(m).fields[i]) : i \in RowFields(m)}]
\* columns of relations: 1 the owner, 2 what it has
Relation(m, i) == [m |-> m, many |-> i, owner |-> m, has |-> D(m).fields[i].m, renamed |-> D(m).renamed,
                   cols |-> {Column(1, PkType(m), FALSE, FALSE, FALSE, FALSE, 0, m),
                             Column(2, PkType(D(m).fields[i].m), FALSE, FALSE, FALSE, FALSE, 0, D(m).fields[i].m)}]
Schema == {Table(m) : m \in Declared} \cup UNION {{Relation(m, i) : i \in ManyFields(m)} : m \in Declared}

\* The model is declared, or expanded again with other fields (relations that were left out are removed by `butane clean`)
Declare(m, pk, renamed, fs) ==
  /\ Is(m) => ~Once /\ ManyFields(m) = {} /\ D(m).renamed = renamed
  /\ decl' = [decl EXCEPT ![m] = <<[pk |-> pk, renamed |-> renamed, fields |-> fs]>>]
  /\ UNCHANGED alias
  /\ ev' = [op |-> "declare", m |-> m, pk |-> pk, renamed |-> renamed, fields |-> fs, res |-> IF Is(m) THEN "again" ELSE "ok"]
\* Expanded again as it is
Again(m) == Is(m) /\ UNCHANGED <<decl, alias>> /\ ev' = [op |-> "again", m |-> m, res |-> "ok"]
\* A custom type is declared; custom types stand for those after them
Define(a, t) ==
  /\ alias' = [alias EXCEPT ![a] = t] /\ UNCHANGED decl
  /\ ev' = [op |-> "define", a |-> a, t |-> t, res |-> "ok"]
AliasOf(a) == AliasTypes \ (CASE a = "c1" -> {"c1"} [] a = "c2" -> {"c1", "c2"} [] OTHER -> {"c1", "c2", "c3"})
Look == /\ UNCHANGED <<decl, alias>>
        /\ ev' = [op |-> "look", res |-> IF Resolvable THEN "ok" ELSE "unresolved", tabs |-> IF Resolvable THEN Schema ELSE {}]

Seqs == UNION {[1..n -> Fields] : n \in 0..MaxFields}
Next == \/ \E m \in Models, pk \in Pks, r \in BOOLEAN, fs \in Seqs : Declare(m, pk, r, fs)
        \/ \E m \in Models : Again(m)
        \/ \E a \in Aliases : \E t \in AliasOf(a) : Define(a, t)
        \/ Look
Spec == Init /\ [][Next]_vars

Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
SimFields == [i \in 1..RandomElement({n \in 0..MaxFields : alias # <<>>}) |->
                LET k == RandomElement({x \in 1..4 : alias # <<>>}) IN
                RandomElement(CASE k = 1 -> Fks [] k = 2 -> Manys [] OTHER -> Prims)]
SimNext == \/ \E m \in Pick({x \in Models : ~Is(x)}), pk \in Pick({x \in Pks : alias # <<>>}), r \in Pick({x \in BOOLEAN : alias # <<>>}) : Declare(m, pk, r, SimFields)
           \/ \E m \in Pick({x \in Models : Is(x)}), pk \in Pick({x \in Pks : alias # <<>>}) : Declare(m, pk, D(m).renamed, SimFields)
           \/ \E m \in Pick(Models \cap {x \in Models : Is(x)}) : Again(m)
           \/ \E a \in Pick({x \in Aliases : alias # <<>>}) : \E t \in Pick({x \in AliasOf(a) : alias # <<>>}) : Define(a, t)
           \/ Look
SimSpec == Init /\ [][SimNext]_vars

\* Each model has one table with one key, each relation refers to both models' keys, and references have the type of what they refer to
TypeOK == \A m \in Declared : D(m).pk \in Pks /\ \A i \in DOMAIN D(m).fields : D(m).fields[i] \in Fields
Keys == Resolvable => \A t \in Schema : Cardinality({c \in t.cols : c.pk}) = IF t.many = 0 THEN 1 ELSE 0
Refs == Resolvable => \A t \in Schema : \A c \in t.cols : c.ref # 0 =>
          \E u \in Schema : u.m = c.ref /\ u.many = 0 /\ \E k \in u.cols : k.pk /\ k.t = c.t
Whole == Resolvable => \A m \in Declared :
           /\ Cardinality({t \in Schema : t.m = m}) = 1 + Cardinality(ManyFields(m))
           /\ Cardinality((CHOOSE t \in Schema : t.m = m /\ t.many = 0).cols) = 1 + Cardinality(RowFields(m))
\* expanding a model again changes nothing, and a declaration changes only its own tables unless they depend on it
Idempotent == [][ev'.op \in {"again", "look"} => UNCHANGED <<decl, alias>>]_vars
St == [decl |-> decl, alias |-> alias]
Emitted == EMIT => EmitT(St, ev', [decl |-> decl', alias |-> alias'])
====
