---- MODULE ManyMC ----
EXTENDS Many
MCOwnerOf == [h1 |-> "o1", h2 |-> "o1", h3 |-> "o2"]
MCOwnerOf1 == [h1 |-> "o1"]
MCOwnerOf3 == [h3 |-> "o2"]
MCRel0 == [o1 |-> [f |-> {1}, g |-> {1, 2}], o2 |-> [f |-> {1, 2}, g |-> {}]]
MCRel1 == [o1 |-> [f |-> {1}, g |-> {1, 2}], o2 |-> [f |-> {}, g |-> {}]]
MCRel2 == [o1 |-> [f |-> {1}, g |-> {1}], o2 |-> [f |-> {1}, g |-> {}]]
MCSaved1 == {"o1"}
MCSaved2 == {"o1", "o2"}
MCActive1 == {<<"h1", "f">>}
MCActive3 == {<<"h3", "f">>}
MCActiveAll == {"h1", "h2", "h3"} \X {"f", "g"}
====
