---- MODULE Conn ----
(* One connection, opened blocking or asynchronous and converted any number of times, used for single
   operations, transactions, concurrent operations, blocking work on an asynchronous connection (which
   can succeed, fail or panic) and operations abandoned half way.  An observer has a connection of its
   own.  Property A01. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit
CONSTANTS Keys, Vals, STYLES, MAXCONV, TWO, \* work can be of two writes
          EMIT
VARIABLES d,     \* committed: Keys -> 0 (absent) or a value; values are unique
          c,     \* the connection: <<>> or [how, n: conversions, mark: session state is set, ok: not poisoned]
          ev
vars == <<d, c, ev>>
View == <<d, c>>
Up == c # <<>>
TypeOK == d \in [Keys -> {0} \cup Vals] /\ (Up => c.how \in {"S", "A"} /\ c.n \in 0..MAXCONV)
Unique == \A k, l \in Keys : k # l /\ d[k] # 0 => d[k] # d[l]
Init == d = [k \in Keys |-> 0] /\ c = <<>> /\ ev = [op |-> "init"]

\* A piece of work is a sequence of writes; it stops at the first that fails
Write == [k : Keys, v : {0} \cup Vals]
Works == {<<>>} \cup {<<w>> : w \in Write} \cup (IF TWO THEN {<<w, x>> : w, x \in Write} ELSE {})
Fits(x, w) == w.v = 0 \/ \A l \in Keys \ {w.k} : x[l] # w.v
RECURSIVE Run(_, _)
Run(x, b) == IF b = <<>> THEN [x |-> x, ok |-> TRUE]
             ELSE IF Fits(x, Head(b)) THEN Run([x EXCEPT ![Head(b).k] = Head(b).v], Tail(b))
             ELSE [x |-> x, ok |-> FALSE]
\* the order of two writes does not matter, and neither fails
Commute(b) == /\ Len(b) = 2 /\ b[1].k # b[2].k
              /\ Run(d, b).ok /\ Run(d, <<b[2], b[1]>>).ok
Txs == {"none", "commit", "rollback", "drop"}
Effect(b, tx) == IF tx = "none" \/ (tx = "commit" /\ Run(d, b).ok) THEN Run(d, b).x ELSE d

Open(s) == c = <<>> /\ c' = [how |-> s, n |-> 0, mark |-> FALSE, ok |-> TRUE] /\ d' = d /\ ev' = [op |-> "open", how |-> s]
Close == Up /\ c' = <<>> /\ d' = d /\ ev' = [op |-> "close"]
\* the same session, used in the other style
Convert == Up /\ c.n < MAXCONV /\ c' = [c EXCEPT !.n = @ + 1, !.how = IF @ = "S" THEN "A" ELSE "S"] /\ d' = d /\ ev' = [op |-> "convert"]
Mark == Up /\ c.ok /\ ~c.mark /\ c' = [c EXCEPT !.mark = TRUE] /\ d' = d /\ ev' = [op |-> "mark"]

Do(b, tx) == /\ Up /\ c' = c
             /\ b = <<>> => tx = "none" /\ ~c.ok
             /\ IF c.ok THEN d' = Effect(b, tx) /\ ev' = [op |-> "run", b |-> b, tx |-> tx, res |-> IF Run(d, b).ok THEN "ok" ELSE "err"]
                ELSE d' = d /\ ev' = [op |-> "run", b |-> b, tx |-> tx, res |-> "err"]
Async == Up /\ c.how = "A"
\* two writes at once, outside or inside a transaction
Par(b, tx) == /\ Async /\ c.ok /\ Commute(b) /\ c' = c /\ d' = Effect(b, tx)
              /\ ev' = [op |-> "par", b |-> b, tx |-> tx, res |-> "ok"]
\* two writes of the same value at once: one succeeds; both rows are then removed
Race(k, l, v) == /\ Async /\ c.ok /\ k # l /\ \A m \in Keys \ {k, l} : d[m] # v
                 /\ d[k] = 0 /\ d[l] = 0
                 /\ c' = c /\ d' = d
                 /\ ev' = [op |-> "race", k |-> k, l |-> l, v |-> v, res |-> "one"]
\* objects with automatic keys saved at once each get their own (and are removed again)
Autos == Async /\ c.ok /\ UNCHANGED <<d, c>> /\ ev' = [op |-> "autos", res |-> "ok"]
\* a failure within the library's or the database driver's code, possibly a panic, is that of one operation
Burst == Up /\ c.ok /\ UNCHANGED <<d, c>> /\ ev' = [op |-> "burst", res |-> "fail"]
\* blocking work.  A panic drops the connection.
With(b, tx, end) ==
  /\ Async
  /\ LET r == Run(d, b)
         res == IF ~c.ok /\ (b # <<>> \/ tx # "none") THEN "err" ELSE IF c.ok /\ ~r.ok THEN "err" ELSE end
     IN /\ d' = IF c.ok THEN Effect(b, tx) ELSE d
        /\ c' = IF res = "panic" THEN [c EXCEPT !.ok = FALSE, !.mark = FALSE] ELSE c
        /\ ev' = [op |-> "with", b |-> b, tx |-> tx, end |-> end, res |-> res]
\* the call is abandoned, the work isn't
CancelWith(b) == /\ Async /\ c.ok /\ b # <<>> /\ Run(d, b).ok /\ d' = Run(d, b).x /\ c' = [c EXCEPT !.ok = FALSE, !.mark = FALSE]
                 /\ ev' = [op |-> "cancelwith", b |-> b, res |-> "none"]
\* an abandoned operation has happened or not; doing it again succeeds
Again(b) == Run(Run(d, b).x, b) = Run(d, b) /\ Run(Run(d, SubSeq(b, 1, 1)).x, b) = Run(d, b)
Cancel(b, tx) == /\ Async /\ c.ok /\ b # <<>> /\ Run(d, b).ok /\ Again(b) /\ c' = c /\ d' = Effect(b, tx)
                 /\ ev' = [op |-> "cancel", b |-> b, tx |-> tx, res |-> "ok"]
\* the first write waits for a lock of the observer, the second for the first; the second, or the first
\* (w = 1), is abandoned, and done again
CancelQueued(b, w) == /\ Async /\ c.ok /\ Commute(b) /\ c' = c /\ d' = Run(d, b).x
                      /\ ev' = [op |-> "cancelqueued", b |-> b, w |-> w, res |-> "ok"]
Next ==
  \/ \E s \in STYLES : Open(s)
  \/ Close \/ Convert \/ Mark \/ Autos \/ Burst
  \/ \E b \in Works :
       \/ \E tx \in Txs : Do(b, tx) \/ Par(b, tx) \/ \E e \in {"ok", "err", "panic"} : With(b, tx, e)
       \/ \E tx \in {"none", "commit"} : Cancel(b, tx)
       \/ CancelWith(b)
       \/ \E w \in {1, 2} : CancelQueued(b, w)
  \/ \E k, l \in Keys, v \in Vals : Race(k, l, v)
Spec == Init /\ [][Next]_vars
\* Once poisoned, a connection changes nothing and stays so
Poisoned == [][Up /\ ~c.ok => d' = d /\ (c' # <<>> => ~c'.ok)]_vars
\* Conversions keep the session and the data
Converts == [][ev'.op = "convert" => d' = d /\ c'.mark = c.mark /\ c'.ok = c.ok]_vars
Failed == [][ev'.op = "with" /\ ev'.res = "err" /\ ev'.tx # "none" /\ ev'.tx # "commit" => d' = d]_vars
Emitted == EMIT => EmitT([d |-> d, c |-> c], ev', [d |-> d', c |-> c'])
====
