---- MODULE Schema ----
(* Schemas, the migrations generated between them, and what they do to stored rows.  Property G02.
   Two tables with a key each, a data column x (and y), a column r which may refer to a table, and a relation
   table M between them.  A database is migrated to another schema and back. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS XA, RA, XB,    \* the definitions that columns A.x, A.r and B.x may have
          TabA,          \* whether table A may be missing (BOOLEANs)
          TabB, M,
          KeyTypes,      \* types of the keys
          Kinds,         \* how tables are filled
          MaxLen,        \* longest chain of migrations
          Conv,          \* values can be converted between the types
          EMIT
VARIABLES hist,   \* the schemas migrated to, oldest first
          d,      \* [A, B: <<>> or two rows, M: whether it has rows]
          ev
vars == <<hist, d, ev>>
View == <<hist, d>>
Absent == <<>>

\* A column definition: type, nullable, unique, declared default, referred table
Def(ty, nul, uniq, def, ref) == [ty |-> ty, nul |-> nul, uniq |-> uniq, def |-> def, ref |-> ref]
AllX == {Absent} \cup {Def(t, n, u, f, "") : t \in {"t1", "t2"}, n \in BOOLEAN, u \in BOOLEAN, f \in BOOLEAN}
SomeX == {Absent, Def("t1", FALSE, FALSE, FALSE, ""), Def("t1", TRUE, TRUE, FALSE, ""), Def("t2", TRUE, FALSE, TRUE, ""), Def("t1", FALSE, FALSE, TRUE, "")}
FewX == {Absent, Def("t1", TRUE, FALSE, FALSE, "")}
NoX == {Absent}
ConvX == {Absent} \cup {Def(t, n, u, FALSE, "") : t \in {"t1", "t2"}, n \in BOOLEAN, u \in BOOLEAN}
AllR == {Absent} \cup {Def("key", n, FALSE, FALSE, ref) : n \in BOOLEAN, ref \in {"", "A", "B"}}
SomeR == {Absent, Def("key", TRUE, FALSE, FALSE, "B"), Def("key", FALSE, FALSE, FALSE, "B"), Def("key", TRUE, FALSE, FALSE, "A"), Def("key", TRUE, FALSE, FALSE, "")}
NoR == {Absent}

Tables(xs, rs, there) == (IF FALSE \in there THEN {Absent} ELSE {}) \cup {[x |-> x, r |-> r] : x \in xs, r \in rs}
Valid(s) ==
  /\ (s.A = Absent \/ s.A.r = Absent \/ s.A.r.ref = "" \/ s[s.A.r.ref] # Absent)
  /\ (s.M => s.A # Absent /\ s.B # Absent)
Schemas == {s \in [A : Tables(XA, RA, TabA), B : Tables(XB, NoR, TabB), M : M, key : KeyTypes] : Valid(s)}
Empty == [A |-> Absent, B |-> Absent, M |-> FALSE, key |-> CHOOSE k \in KeyTypes : TRUE]
Cur == IF hist = <<>> THEN Empty ELSE hist[Len(hist)]
NoData == [A |-> <<>>, B |-> <<>>, M |-> FALSE]

\* rows: two per table, with keys 1 and 2
Val(def, kind, i) ==
  IF def = Absent THEN "-"
  ELSE IF kind = "nulls" /\ def.nul THEN "n"
  ELSE IF def.ty = "key" THEN (IF kind = "same" THEN "1" ELSE ToString(i))
  ELSE IF kind = "same" /\ ~def.uniq THEN "v1" ELSE "v" \o ToString(i)
Rows(t, kind) == [i \in 1..2 |-> [x |-> Val(t.x, kind, i), r |-> Val(t.r, kind, i)]]

\* what becomes of a stored value when the column's definition changes
Moved(old, new, v) ==
  IF new = Absent THEN "-"
  ELSE IF old # Absent THEN v
  ELSE IF new.def THEN "d" ELSE IF new.nul THEN "n" ELSE "z"
MovedTab(old, new, rows) ==
  IF old = Absent \/ new = Absent THEN <<>>
  ELSE [i \in DOMAIN rows |-> [x |-> Moved(old.x, new.x, rows[i].x), r |-> Moved(old.r, new.r, rows[i].r)]]
MovedTo(s, u, w) == [A |-> MovedTab(s.A, u.A, w.A), B |-> MovedTab(s.B, u.B, w.B), M |-> w.M /\ s.M /\ u.M]

\* whether rows satisfy the constraints of a schema
ColOk(def, vs, w) ==
  \/ def = Absent
  \/ /\ def.nul \/ \A i \in DOMAIN vs : vs[i] # "n"
     /\ ~def.uniq \/ \A i, j \in DOMAIN vs : i # j => vs[i] # vs[j] \/ vs[i] = "n"
     /\ def.ref = "" \/ \A i \in DOMAIN vs : vs[i] = "n" \/ (w[def.ref] # <<>> /\ vs[i] \in {"1", "2"})
TabOk(t, rows, w) == t = Absent \/ (ColOk(t.x, [i \in DOMAIN rows |-> rows[i].x], w) /\ ColOk(t.r, [i \in DOMAIN rows |-> rows[i].r], w))
Holds(s, w) == TabOk(s.A, w.A, w) /\ TabOk(s.B, w.B, w) /\ (w.M => w.A # <<>> /\ w.B # <<>>)
\* changes of type of stored values are only considered between types whose values can be converted
Considered(s, u, w) ==
  \A t \in {"A", "B"} : s[t] = Absent \/ u[t] = Absent \/ s[t].x = Absent \/ u[t].x = Absent \/ s[t].x.ty = u[t].x.ty \/ Conv
                      \/ \A i \in DOMAIN w[t] : w[t][i].x = "n"

Init == hist = <<>> /\ d = NoData /\ ev = [op |-> "init"]
Step(op, u, h) ==
  LET w == MovedTo(Cur, u, d)
      ok == Holds(u, w)
  IN /\ Considered(Cur, u, d) = TRUE
     /\ IF ok THEN d' = w /\ hist' = h ELSE UNCHANGED <<d, hist>>
     /\ ev' = [op |-> op, to |-> u, res |-> IF ok THEN "ok" ELSE "err"]
Evolve(u) == u # Cur /\ Len(hist) < MaxLen /\ Step("evolve", u, Append(hist, u))
Again == hist # <<>> /\ UNCHANGED <<hist, d>> /\ ev' = [op |-> "evolve", to |-> Cur, res |-> "none"]
Undo == hist # <<>> /\ LET u == IF Len(hist) = 1 THEN Empty ELSE hist[Len(hist) - 1] IN Step("undo", u, SubSeq(hist, 1, Len(hist) - 1))
CanFill == \E t \in {"A", "B"} : Cur[t] # Absent /\ d[t] = <<>>
Fill(kind) ==
  LET w == [A |-> IF Cur.A = Absent THEN <<>> ELSE IF d.A # <<>> THEN d.A ELSE Rows(Cur.A, kind),
            B |-> IF Cur.B = Absent THEN <<>> ELSE IF d.B # <<>> THEN d.B ELSE Rows(Cur.B, kind),
            M |-> Cur.M]
  IN /\ CanFill /\ d' = w /\ UNCHANGED hist
     /\ ev' = [op |-> "fill", kind |-> kind, res |-> "ok"]
Next == (\E u \in Schemas : Evolve(u)) \/ Again \/ Undo \/ (\E k \in Kinds : Fill(k))
SimNext == (\E u \in {RandomElement({s \in Schemas : s # Cur})} : Evolve(u)) \/ Again \/ Undo \/ (\E k \in {RandomElement(Kinds)} : Fill(k))
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

TypeOK == Len(hist) <= MaxLen /\ \A i \in DOMAIN hist : Valid(hist[i])
\* the stored rows always satisfy the schema in force
Consistent == Holds(Cur, d)
\* columns in both schemas keep their values, unless the migration is refused
Keeps == [][ev'.op \in {"evolve", "undo"} =>
             LET u == Cur' IN
             \A t \in {"A", "B"} : Cur[t] # Absent /\ u[t] # Absent =>
                 /\ Len(d'[t]) = Len(d[t])
                 /\ \A i \in DOMAIN d[t] : (Cur[t].x # Absent /\ u[t].x # Absent => d'[t][i].x = d[t][i].x)
                                      /\ (Cur[t].r # Absent /\ u[t].r # Absent => d'[t][i].r = d[t][i].r)]_vars
\* undoing what was done to an empty database, or only added things, gives the rows back
St == [h |-> hist, d |-> d]
Emitted == EMIT => EmitT(St, ev', [h |-> hist', d |-> d'])
====
