---- MODULE QueryMC ----
EXTENDS Query
\* t = "cmp": column c, operator o, value v; ...
Cmp(c, o, v) == [t |-> "cmp", c |-> c, o |-> o, v |-> v]
MCStrs == << <<>>, <<"x">>, <<"x", "y">>, <<"y", "x", "x">> >>
AtomsSmall == {Cmp("a", "eq", 1), Cmp("a", "lt", 2), [t |-> "null", c |-> "a"], Cmp("b", "ge", 2),
  [t |-> "in", c |-> "a", vs |-> <<1, 2>>], [t |-> "like", c |-> "s", p |-> <<"x", "%">>]}
AtomsAll == {Cmp(c, o, v) : c \in {"a", "b"}, o \in {"eq", "ne", "lt", "gt", "le", "ge"}, v \in {1, 2}}
  \cup {Cmp("s", o, v) : o \in {"eq", "ne", "lt", "ge"}, v \in {2, 3}}
  \cup {[t |-> "null", c |-> c] : c \in {"a", "s"}} \cup {[t |-> "notnull", c |-> c] : c \in {"a", "s"}}
  \cup {[t |-> "in", c |-> c, vs |-> vs] : c \in {"a", "b", "s"}, vs \in {<<>>, <<2>>, <<1, 2>>, <<2, 2, 3>>, <<3>>}}
  \cup {[t |-> "in", c |-> "a", vs |-> vs] : vs \in {<<0>>, <<1, 0>>}}
  \cup {[t |-> "like", c |-> "s", p |-> p] : p \in {<<>>, <<"%">>, <<"x">>, <<"x", "%">>, <<"%", "x">>, <<"_", "y">>, <<"%", "x", "%">>, <<"_", "%", "_">>}}
  \cup {[t |-> "col", c |-> c, o |-> o, c2 |-> c2] : c \in {"a"}, o \in {"eq", "lt", "ge", "ne"}, c2 \in {"b"}}
  \cup {[t |-> "true"]}
====
