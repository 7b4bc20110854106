---- MODULE Many ----
(* Many-to-many fields: the stored relations, and objects in memory with pending changes and loaded
   values.  Several objects may stand for the same owner.  Property M01. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Emit
CONSTANTS Items, Owners, Fields, Handles, OwnerOf, Active, Rel0, Saved0, SETS, MISSING, EMIT
\* Active: <<handle, field>> pairs that are worked on; Rel0: relations at the start
VARIABLES rel,     \* [owner -> [field -> set of items]], as stored
          saved,   \* owners whose row is stored
          items,   \* items that are stored
          up,      \* the starting contents are in place
          h,       \* [handle -> [init, fs: [field -> [news, rem, cache]]]]
          ev
vars == <<rel, saved, items, up, h, ev>>
View == <<rel, saved, items, up, h>>
None == [news |-> {}, rem |-> {}, cache |-> <<>>]
State == [rel |-> rel, saved |-> saved, items |-> items]
TypeOK == /\ rel \in [Owners -> [Fields -> SUBSET Items]]
          /\ \A x \in Handles, f \in Fields : h[x].fs[f].news \subseteq Items /\ h[x].fs[f].rem \subseteq Items
\* relations only between stored objects
NoDangling == \A o \in Owners, f \in Fields : rel[o][f] \subseteq items /\ (rel[o][f] # {} => o \in saved)

Init == /\ rel = [o \in Owners |-> [f \in Fields |-> {}]] /\ saved = {} /\ items = {} /\ up = FALSE
        /\ h = [x \in Handles |-> [init |-> FALSE, fs |-> [f \in Fields |-> None]]]
        /\ ev = [op |-> "init"]
Fill == /\ up' = TRUE /\ rel' = Rel0 /\ saved' = Saved0 /\ items' = Items
        /\ h' = [x \in Handles |-> [init |-> OwnerOf[x] \in Saved0, fs |-> [f \in Fields |-> None]]]
        /\ ev' = [op |-> "fill", n |-> Cardinality(Items), rel |-> Rel0, saved |-> Saved0, owner |-> OwnerOf, res |-> "ok"]
Same == UNCHANGED <<rel, saved, items>>
Add(x, f, i) ==
  /\ i \in items
  /\ h' = [h EXCEPT ![x].fs[f] = [news |-> @.news \cup {i}, rem |-> @.rem, cache |-> <<>>]] /\ Same
  /\ ev' = [op |-> "add", h |-> x, f |-> f, i |-> i, res |-> "ok"]
\* adding an object that has no key yet is refused
AddNew(x, f) == UNCHANGED <<rel, saved, items, h>> /\ ev' = [op |-> "addnew", h |-> x, f |-> f, res |-> "err"]
Remove(x, f, i) ==
  /\ h' = [h EXCEPT ![x].fs[f] = [news |-> @.news, rem |-> @.rem \cup {i}, cache |-> <<>>]] /\ Same
  /\ ev' = [op |-> "remove", h |-> x, f |-> f, i |-> i, res |-> "ok"]
After(o, f, s) == (rel[o][f] \cup s.news) \ s.rem
SavedField(s) == [news |-> {}, rem |-> {}, cache |-> IF s.rem # {} THEN <<>> ELSE s.cache]
News(x, F) == UNION {h[x].fs[f].news : f \in F}
Rems(x, F) == UNION {h[x].fs[f].rem : f \in F}
\* save the owner (F: all fields) or a single field of it
Save(x, F, op) ==
  LET o == OwnerOf[x]  lost == News(x, F) \ items  owner == op = "save" IN
  IF ~owner /\ ~h[x].init
  THEN UNCHANGED <<rel, saved, items, h>> /\ ev' = [op |-> op, h |-> x, fs |-> F, res |-> "err"]
  ELSE IF lost = {}
  THEN /\ rel' = [rel EXCEPT ![o] = [f \in Fields |-> IF f \in F THEN After(o, f, h[x].fs[f]) ELSE rel[o][f]]]
       /\ saved' = saved \cup {o}
       /\ h' = [h EXCEPT ![x] = [init |-> TRUE, fs |-> [f \in Fields |-> IF f \in F THEN SavedField(h[x].fs[f]) ELSE h[x].fs[f]]]]
       /\ UNCHANGED items
       /\ ev' = [op |-> op, h |-> x, fs |-> F, res |-> "ok"]
  ELSE \* a relation to a missing object; only where nothing else would have been changed before
       /\ h[x].init /\ o \in saved
       /\ Cardinality({f \in F : h[x].fs[f].news # {}}) = 1 /\ Cardinality(News(x, F)) = 1 /\ Rems(x, F) = {}
       /\ UNCHANGED <<rel, saved, items, h>>
       /\ ev' = [op |-> op, h |-> x, fs |-> F, res |-> "err"]
Delete(x, f) ==
  IF ~h[x].init THEN UNCHANGED <<rel, saved, items, h>> /\ ev' = [op |-> "delete", h |-> x, f |-> f, res |-> "err"]
  ELSE /\ rel' = [rel EXCEPT ![OwnerOf[x]][f] = {}]
       /\ h' = [h EXCEPT ![x].fs[f] = [news |-> {}, rem |-> {}, cache |-> << {} >>]]
       /\ UNCHANGED <<saved, items>>
       /\ ev' = [op |-> "delete", h |-> x, f |-> f, res |-> "ok"]
Set(x, f, S) ==
  /\ S \subseteq items
  /\ IF ~h[x].init THEN UNCHANGED <<rel, saved, items, h>> /\ ev' = [op |-> "set", h |-> x, f |-> f, val |-> S, res |-> "err"]
     ELSE /\ rel' = [rel EXCEPT ![OwnerOf[x]][f] = S]
          /\ h' = [h EXCEPT ![x].fs[f] = [news |-> {}, rem |-> {}, cache |-> << S >>]]
          /\ UNCHANGED <<saved, items>>
          /\ ev' = [op |-> "set", h |-> x, f |-> f, val |-> S, res |-> "ok"]
\* load if necessary; ord: none, asc, desc
Loaded(x, f) == IF h[x].fs[f].cache # <<>> THEN h[x].fs[f].cache[1]
                ELSE rel[OwnerOf[x]][f] \cup (h[x].fs[f].news \cap items)
\* "loads": two loads of the same collection whose execution overlaps
Load(x, f, ord, op) ==
  /\ h' = IF h[x].init THEN [h EXCEPT ![x].fs[f].cache = <<Loaded(x, f)>>] ELSE h
  /\ Same
  /\ ev' = [op |-> op, h |-> x, f |-> f, ord |-> ord, res |-> "ok", cached |-> h[x].fs[f].cache # <<>>,
            val |-> IF h[x].init THEN Loaded(x, f) ELSE {}]
Get(x, f) ==
  /\ UNCHANGED <<rel, saved, items, h>>
  /\ ev' = [op |-> "get", h |-> x, f |-> f, res |-> IF h[x].fs[f].cache = <<>> THEN "err" ELSE "ok",
            val |-> IF h[x].fs[f].cache = <<>> THEN {} ELSE h[x].fs[f].cache[1]]
Reload(x) ==
  /\ OwnerOf[x] \in saved
  /\ h' = [h EXCEPT ![x] = [init |-> TRUE, fs |-> [f \in Fields |-> None]]] /\ Same
  /\ ev' = [op |-> "reload", h |-> x, res |-> "ok"]
DropItem(i) ==
  /\ MISSING /\ i \in items /\ \A o \in Owners, f \in Fields : i \notin rel[o][f]
  /\ items' = items \ {i} /\ UNCHANGED <<rel, saved, h>> /\ ev' = [op |-> "dropitem", i |-> i, res |-> "ok"]
\* objects that are still related, on either side, cannot be deleted
DropRelated(i) ==
  /\ i \in items /\ \E o \in Owners, f \in Fields : i \in rel[o][f]
  /\ UNCHANGED <<rel, saved, items, h>> /\ ev' = [op |-> "dropitem", i |-> i, res |-> "err"]
DropOwner(o) ==
  /\ o \in saved /\ \E f \in Fields : rel[o][f] # {}
  /\ UNCHANGED <<rel, saved, items, h>> /\ ev' = [op |-> "dropowner", o |-> o, res |-> "err"]
PutItem(i) ==
  /\ i \notin items /\ items' = items \cup {i} /\ UNCHANGED <<rel, saved, h>> /\ ev' = [op |-> "putitem", i |-> i, res |-> "ok"]
ActiveH == {p[1] : p \in Active}
Work ==
  \/ \E p \in Active, i \in Items : Add(p[1], p[2], i) \/ Remove(p[1], p[2], i)
  \/ \E p \in Active : \/ AddNew(p[1], p[2]) \/ Delete(p[1], p[2]) \/ Get(p[1], p[2]) \/ Save(p[1], {p[2]}, "savefield")
                       \/ \E ord \in {"none", "asc", "desc"} : \E op \in {"load", "loads"} : Load(p[1], p[2], ord, op)
                       \/ SETS /\ \E S \in SUBSET Items : Set(p[1], p[2], S)
  \/ \E x \in ActiveH : Save(x, Fields, "save") \/ Reload(x)
  \/ \E i \in Items : DropItem(i) \/ PutItem(i) \/ DropRelated(i)
  \/ \E o \in Owners : DropOwner(o)
Next == IF ~up THEN Fill ELSE Work /\ UNCHANGED up
\* one random enabled action at a time, for long random behaviours
One(S) == {RandomElement(S)}
SimWork ==
  \E r \in One(1..20), p \in One(Active), i \in One(Items), S \in One(SUBSET Items), ord \in One({"none", "asc", "desc"}) :
    CASE r \in 1..4 /\ i \in items -> Add(p[1], p[2], i)
      [] r \in 5..7 -> Remove(p[1], p[2], i)
      [] r \in 8..10 /\ ENABLED Save(p[1], Fields, "save") -> Save(p[1], Fields, "save")
      [] r = 11 /\ ENABLED Save(p[1], {p[2]}, "savefield") -> Save(p[1], {p[2]}, "savefield")
      [] r = 12 -> Delete(p[1], p[2])
      [] r = 13 /\ S \subseteq items -> Set(p[1], p[2], S)
      [] r = 14 -> Get(p[1], p[2])
      [] r = 15 /\ OwnerOf[p[1]] \in saved -> Reload(p[1])
      [] r = 16 /\ ENABLED DropItem(i) -> DropItem(i)
      [] r = 17 /\ i \notin items -> PutItem(i)
      [] r = 19 /\ OwnerOf[p[1]] \in saved /\ ENABLED DropOwner(OwnerOf[p[1]]) -> DropOwner(OwnerOf[p[1]])
      [] r = 20 /\ ENABLED DropRelated(i) -> DropRelated(i)
      [] r = 18 -> AddNew(p[1], p[2])
      [] OTHER -> Load(p[1], p[2], ord, IF r % 2 = 0 THEN "load" ELSE "loads")
SimNext == IF ~up THEN Fill ELSE SimWork /\ UNCHANGED up
SimSpec == Init /\ [][SimNext]_vars
Spec == Init /\ [][Next]_vars

\* Properties of the transitions
\* no operation touches the relations of another owner or field
OnlyOwn == [][up => \A o \in Owners, f \in Fields : rel'[o][f] # rel[o][f] =>
     OwnerOf[ev'.h] = o /\ (IF ev'.op \in {"save", "savefield"} THEN f \in ev'.fs ELSE ev'.f = f)]_vars
OnlyBySaving == [][up /\ rel' # rel => ev'.op \in {"save", "savefield", "set", "delete"} /\ ev'.res = "ok"]_vars
LoadsRelated == [][ev'.op \in {"load", "loads"} /\ h[ev'.h].init /\ ~ev'.cached =>
     rel[OwnerOf[ev'.h]][ev'.f] \subseteq ev'.val /\ ev'.val \subseteq rel[OwnerOf[ev'.h]][ev'.f] \cup h[ev'.h].fs[ev'.f].news]_vars
Emitted == EMIT => EmitT([s |-> State, up |-> up, h |-> h], ev', [s |-> [rel |-> rel', saved |-> saved', items |-> items'], up |-> up', h |-> h'])
====
