---- MODULE DeclMC ----
EXTENDS Decl
AllAttrs == {[null |-> FALSE, uniq |-> u, dflt |-> d] : u \in BOOLEAN, d \in {0, 1}} \cup {[null |-> TRUE, uniq |-> u, dflt |-> 0] : u \in BOOLEAN}
TwoAttrs == {[null |-> FALSE, uniq |-> TRUE, dflt |-> 1], [null |-> TRUE, uniq |-> FALSE, dflt |-> 0]}
NoAttrs == {[null |-> FALSE, uniq |-> FALSE, dflt |-> 0]}
====
