---- MODULE Fkey ----
(* Objects that refer to others through foreign keys, and foreign key values held by the application,
   which load the object they name when asked to.  Property F01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS Ts, Vs, Rs, OPT, BOSS, HANDLE, EMIT
VARIABLES t,    \* [Ts -> <<>> (absent) or <<v>>]     referred objects
          r,    \* [Rs -> <<>> or <<parent, opt, boss>>] referring objects; "none" for an unset reference
          h,    \* <<>> or [k, c]: a foreign key value naming k, with the loaded object's value in c (<<>> or <<v>>)
          ev
vars == <<t, r, h, ev>>
View == <<t, r, h>>
Opts == IF OPT THEN Ts \cup {"none"} ELSE {"none"}
Bosses == IF BOSS THEN Rs \cup {"none"} ELSE {"none"}
TypeOK == /\ t \in [Ts -> {<<>>} \cup {<<v>> : v \in Vs}]
          /\ r \in [Rs -> {<<>>} \cup (Ts \X Opts \X Bosses)]
          /\ h \in {<<>>} \cup [k : Ts, c : {<<>>} \cup {<<v>> : v \in Vs}]
\* no stored object refers to a missing one
Integrity == \A x \in Rs : r[x] # <<>> =>
               /\ t[r[x][1]] # <<>>
               /\ r[x][2] # "none" => t[r[x][2]] # <<>>
               /\ r[x][3] # "none" => r[r[x][3]] # <<>>
Init == t = [k \in Ts |-> <<>>] /\ r = [x \in Rs |-> <<>>] /\ h = <<>> /\ ev = [op |-> "init"]

Referred(k) == \E x \in Rs : r[x] # <<>> /\ (r[x][1] = k \/ r[x][2] = k)
\* store a referred object, or replace it: references to it stay
PutT(k, v) == /\ t' = [t EXCEPT ![k] = <<v>>] /\ UNCHANGED <<r, h>>
              /\ ev' = [op |-> "putt", k |-> k, v |-> v, res |-> "ok"]
DelT(k) == IF Referred(k)
           THEN UNCHANGED <<t, r, h>> /\ ev' = [op |-> "delt", k |-> k, res |-> "err"]
           ELSE t' = [t EXCEPT ![k] = <<>>] /\ UNCHANGED <<r, h>> /\ ev' = [op |-> "delt", k |-> k, res |-> "ok"]
\* delete all referred objects with a value, by query
DelQ(v) == LET S == {k \in Ts : t[k] = <<v>>} IN
           IF \E k \in S : Referred(k)
           THEN UNCHANGED <<t, r, h>> /\ ev' = [op |-> "delq", v |-> v, res |-> "err", val |-> 0]
           ELSE /\ t' = [k \in Ts |-> IF k \in S THEN <<>> ELSE t[k]] /\ UNCHANGED <<r, h>>
                /\ ev' = [op |-> "delq", v |-> v, res |-> "ok", val |-> Cardinality(S)]
\* save a referring object
CanSave(x, p, o, b) == t[p] # <<>> /\ (o # "none" => t[o] # <<>>) /\ (b # "none" => b = x \/ r[b] # <<>>)
SaveR(x, p, o, b) ==
  /\ UNCHANGED <<t, h>>
  /\ r' = IF CanSave(x, p, o, b) THEN [r EXCEPT ![x] = <<p, o, b>>] ELSE r
  /\ ev' = [op |-> "saver", x |-> x, p |-> p, o |-> o, b |-> b, res |-> IF CanSave(x, p, o, b) THEN "ok" ELSE "err"]
\* load a stored referring object, change one reference, save it
Repoint(x, f, to) ==
  /\ r[x] # <<>>
  /\ LET n == IF f = "p" THEN <<to, r[x][2], r[x][3]>> ELSE IF f = "o" THEN <<r[x][1], to, r[x][3]>> ELSE <<r[x][1], r[x][2], to>>
         ok == CanSave(x, n[1], n[2], n[3]) IN
     /\ r' = IF ok THEN [r EXCEPT ![x] = n] ELSE r
     /\ UNCHANGED <<t, h>>
     /\ ev' = [op |-> "repoint", x |-> x, f |-> f, to |-> to, res |-> IF ok THEN "ok" ELSE "err"]
DelR(x) == IF \E y \in Rs \ {x} : r[y] # <<>> /\ r[y][3] = x /\ r[x] # <<>>
           THEN UNCHANGED <<t, r, h>> /\ ev' = [op |-> "delr", x |-> x, res |-> "err"]
           ELSE r' = [r EXCEPT ![x] = <<>>] /\ UNCHANGED <<t, h>> /\ ev' = [op |-> "delr", x |-> x, res |-> "ok"]
DelAllR == /\ r' = [x \in Rs |-> <<>>] /\ UNCHANGED <<t, h>>
           /\ ev' = [op |-> "delallr", res |-> "ok", val |-> Cardinality({x \in Rs : r[x] # <<>>})]
\* load a stored referring object and the objects it refers to
Follow(x) == /\ r[x] # <<>> /\ UNCHANGED <<t, r, h>>
             /\ ev' = [op |-> "follow", x |-> x, res |-> "ok", p |-> r[x][1], pv |-> t[r[x][1]],
                       o |-> r[x][2], ov |-> IF r[x][2] = "none" THEN <<>> ELSE t[r[x][2]],
                       b |-> r[x][3], bp |-> IF r[x][3] = "none" THEN "none" ELSE r[r[x][3]][1]]

\* foreign key values
FromPk(k) == h' = [k |-> k, c |-> <<>>] /\ UNCHANGED <<t, r>> /\ ev' = [op |-> "frompk", k |-> k, res |-> "ok"]
FromObj(k, v) == h' = [k |-> k, c |-> <<v>>] /\ UNCHANGED <<t, r>> /\ ev' = [op |-> "fromobj", k |-> k, v |-> v, res |-> "ok"]
FromRef(k, v) == h' = [k |-> k, c |-> <<>>] /\ UNCHANGED <<t, r>> /\ ev' = [op |-> "fromref", k |-> k, v |-> v, res |-> "ok"]
Take(x) == /\ r[x] # <<>> /\ h' = [k |-> r[x][1], c |-> <<>>] /\ UNCHANGED <<t, r>> /\ ev' = [op |-> "take", x |-> x, res |-> "ok"]
\* "loads": two loads of the same value whose execution overlaps
Load(op) ==
  /\ h # <<>> /\ UNCHANGED <<t, r>>
  /\ IF h.c # <<>> THEN h' = h /\ ev' = [op |-> op, res |-> "ok", val |-> h.c, k |-> h.k]
     ELSE IF t[h.k] # <<>> THEN h' = [h EXCEPT !.c = t[h.k]] /\ ev' = [op |-> op, res |-> "ok", val |-> t[h.k], k |-> h.k]
     ELSE h' = h /\ ev' = [op |-> op, res |-> "nosuch", val |-> <<>>, k |-> h.k]
Get == /\ h # <<>> /\ UNCHANGED <<t, r, h>>
       /\ ev' = [op |-> "get", res |-> IF h.c = <<>> THEN "err" ELSE "ok", val |-> h.c, k |-> h.k]
Compare(k) == /\ h # <<>> /\ UNCHANGED <<t, r, h>> /\ ev' = [op |-> "compare", k |-> k, res |-> IF h.k = k THEN "equal" ELSE "different", own |-> h.k]
Serde == h # <<>> /\ h' = [h EXCEPT !.c = <<>>] /\ UNCHANGED <<t, r>> /\ ev' = [op |-> "serde", res |-> "ok"]
Dup == h # <<>> /\ UNCHANGED <<t, r, h>> /\ ev' = [op |-> "clone", res |-> "ok"]
\* save a referring object with this value
Use(x) == /\ h # <<>> /\ UNCHANGED <<t, h>>
          /\ r' = IF CanSave(x, h.k, "none", "none") THEN [r EXCEPT ![x] = <<h.k, "none", "none">>] ELSE r
          /\ ev' = [op |-> "use", x |-> x, res |-> IF CanSave(x, h.k, "none", "none") THEN "ok" ELSE "err"]
\* the referring objects that name the same object, by a filter with this value
Find == /\ h # <<>> /\ UNCHANGED <<t, r, h>>
        /\ ev' = [op |-> "find", res |-> "ok", val |-> {x \in Rs : r[x] # <<>> /\ r[x][1] = h.k}]
Next ==
  \/ \E k \in Ts : DelT(k) \/ \E v \in Vs : PutT(k, v)
  \/ \E v \in Vs : DelQ(v)
  \/ \E x \in Rs : \/ DelR(x) \/ Follow(x)
                   \/ ~HANDLE /\ \E p \in Ts, o \in Opts, b \in Bosses : SaveR(x, p, o, b)
                   \/ \E p \in Ts : Repoint(x, "p", p)
                   \/ OPT /\ \E o \in Opts : Repoint(x, "o", o)
                   \/ BOSS /\ \E b \in Bosses : Repoint(x, "b", b)
  \/ DelAllR
  \/ HANDLE /\ ( \/ Load("load") \/ Load("loads") \/ Get \/ Serde \/ Dup \/ Find
                 \/ \E k \in Ts : FromPk(k) \/ Compare(k) \/ \E v \in Vs : FromObj(k, v) \/ FromRef(k, v)
                 \/ \E x \in Rs : Take(x) \/ Use(x))
Spec == Init /\ [][Next]_vars
\* Properties of the transitions
RefusedNothing == [][ev'.res = "err" => t' = t /\ r' = r]_vars
\* a load gives the stored object unless one had been loaded before, and never another object
LoadsNamed == [][ev'.op \in {"load", "loads"} /\ ev'.res = "ok" => h'.k = h.k /\ h'.c # <<>> /\ (h.c = <<>> => h'.c = t[h.k])]_vars
Emitted == EMIT => EmitT([s |-> [t |-> t, r |-> r], h |-> h], ev', [s |-> [t |-> t', r |-> r'], h |-> h'])
====
