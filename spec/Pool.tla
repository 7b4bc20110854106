---- MODULE Pool ----
(* A pool of at most MAX connections used by several holders, one of which may be waiting for a
   connection.  Holders write directly or in a transaction, are interrupted in the middle of something,
   find their connection broken, and give it back in any of these situations.  Property P01.
   Which of the unused connections is handed out can not be seen and is not specified. *)
EXTENDS Naturals, FiniteSets, TLC, Emit
CONSTANTS Holders, MAX, Vals, BREAK, KILL, ABANDON, EMIT
VARIABLES d,     \* the committed value of the object (0: absent)
          h,     \* what each holder has: <<>>, or [tx: in a transaction, x: what it sees, bad: a statement of it failed, ok: not broken]
          w,     \* the holder that waits, if any
          ev
vars == <<d, h, w, ev>>
View == <<d, h, w>>
Has(i) == h[i] # <<>>
Held == {i \in Holders : Has(i)}
Tx(i) == Has(i) /\ h[i].tx
Others(i) == {j \in Holders \ {i} : Tx(j)} = {}    \* nobody else is in a transaction
Quiet == {j \in Holders : Tx(j)} = {}
Fresh(x) == [tx |-> FALSE, x |-> x, bad |-> FALSE, ok |-> TRUE]
TypeOK == /\ d \in {0} \cup Vals /\ w \subseteq Holders
          /\ \A i \in Held : h[i] \in [tx : BOOLEAN, x : {0} \cup Vals, bad : BOOLEAN, ok : BOOLEAN]
Limit == Cardinality(Held) <= MAX
Waits == w # {} => Cardinality(w) = 1 /\ w \cap Held = {} /\ Cardinality(Held) = MAX
Isolated == Cardinality({i \in Holders : Tx(i)}) <= 1 /\ \A i \in Held : h[i].ok /\ ~h[i].tx => h[i].x = d
Init == d = 0 /\ h = [i \in Holders |-> <<>>] /\ w = {} /\ ev = [op |-> "init"]

\* what everybody outside a transaction sees follows what is committed
See(g, x) == [i \in Holders |-> IF g[i] # <<>> /\ ~g[i].tx THEN [g[i] EXCEPT !.x = x] ELSE g[i]]
E(op, i, res) == ev' = [op |-> op, i |-> i, res |-> res]

Take(i) == /\ ~Has(i) /\ w = {} /\ d' = d /\ w' = w
           /\ IF Cardinality(Held) < MAX THEN h' = [h EXCEPT ![i] = Fresh(d)] /\ E("take", i, "ok")
              ELSE h' = h /\ E("take", i, "timeout")
Wait(i) == /\ ~Has(i) /\ w = {} /\ Cardinality(Held) = MAX /\ w' = {i} /\ UNCHANGED <<d, h>> /\ E("wait", i, "ok")
\* the connection goes back and to who waits for it
Given(i, x) == [j \in Holders |-> IF j \in w THEN Fresh(x) ELSE IF j = i THEN <<>> ELSE h[j]]
Release(i, how) == /\ Has(i) /\ d' = d /\ w' = {} /\ h' = Given(i, d)
                   /\ ev' = [op |-> "release", i |-> i, how |-> how, res |-> "ok"]
Put(i, v) == /\ Has(i) /\ ~h[i].tx /\ Others(i) /\ w' = w
             /\ IF h[i].ok THEN d' = v /\ h' = See(h, v) ELSE UNCHANGED <<d, h>>
             /\ ev' = [op |-> "put", i |-> i, v |-> v, res |-> IF h[i].ok THEN "ok" ELSE "err"]
Begin(i) == /\ Has(i) /\ ~h[i].tx /\ Others(i) /\ UNCHANGED <<d, w>>
            /\ IF h[i].ok THEN h' = [h EXCEPT ![i].tx = TRUE] /\ E("begin", i, "ok")
               ELSE h' = h /\ E("begin", i, "err")
TPut(i, v) == /\ Tx(i) /\ ~h[i].bad /\ UNCHANGED <<d, w>>
              /\ h' = IF h[i].ok THEN [h EXCEPT ![i].x = v] ELSE [h EXCEPT ![i].bad = TRUE]
              /\ ev' = [op |-> "tput", i |-> i, v |-> v, res |-> IF h[i].ok THEN "ok" ELSE "err"]
TFail(i) == /\ Tx(i) /\ ~h[i].bad /\ UNCHANGED <<d, w>> /\ h' = [h EXCEPT ![i].bad = TRUE] /\ E("tfail", i, "err")
End(i, how) ==
  /\ Tx(i) /\ w' = w /\ (how = "commit" => ~h[i].bad)
  /\ LET done == how = "commit" /\ h[i].ok
         x == IF done THEN h[i].x ELSE d
     IN /\ d' = x
        /\ h' = See([h EXCEPT ![i].tx = FALSE, ![i].bad = FALSE], x)
        /\ ev' = [op |-> "end", i |-> i, how |-> how, res |-> IF h[i].ok \/ how = "drop" THEN "ok" ELSE IF how = "commit" THEN "err" ELSE "any"]
\* What the holder was doing is abandoned half way and with it the connection.  It has happened or not;
\* somebody then does it again.
Abandon(i, v, tx) == /\ ABANDON /\ Has(i) /\ Quiet /\ h[i].ok /\ w' = {} /\ d' = v
                     /\ h' = See(Given(i, v), v)
                     /\ ev' = [op |-> "abandon", i |-> i, v |-> v, tx |-> tx, res |-> "ok"]
\* the connection becomes unusable, and whoever has it notices
Break(i) == /\ BREAK /\ Has(i) /\ h[i].ok /\ ~h[i].bad /\ (h[i].tx => KILL) /\ UNCHANGED <<d, w>>
            /\ h' = [h EXCEPT ![i].ok = FALSE] /\ E("break", i, "ok")
\* unused connections become unusable
KillIdle == KILL /\ UNCHANGED <<d, h, w>> /\ ev' = [op |-> "killidle", res |-> "ok"]
\* many users at once
Storm == Quiet /\ w = {} /\ Cardinality(Held) < MAX /\ UNCHANGED <<d, h, w>> /\ ev' = [op |-> "storm", res |-> "ok"]
Next == \/ \E i \in Holders :
             \/ Take(i) \/ Wait(i) \/ Begin(i) \/ TFail(i) \/ Break(i)
             \/ \E how \in {"drop", "panic"} : Release(i, how)
             \/ \E how \in {"commit", "rollback", "drop"} : End(i, how)
             \/ \E v \in {0} \cup Vals : Put(i, v) \/ TPut(i, v) \/ \E tx \in BOOLEAN : Abandon(i, v, tx)
        \/ KillIdle \/ Storm
Spec == Init /\ [][Next]_vars
\* What is in a transaction is never seen unless committed
NoLeak == [][d' # d => ev'.op \in {"put", "abandon"} \/ (ev'.op = "end" /\ ev'.how = "commit")]_vars
\* A connection is received outside any transaction and usable
Clean == [][\A i \in Holders : ~Has(i) /\ h'[i] # <<>> => h'[i] = Fresh(d')]_vars
Emitted == EMIT => EmitT([d |-> d, h |-> h, w |-> w], ev', [d |-> d', h |-> h', w |-> w'])
====
