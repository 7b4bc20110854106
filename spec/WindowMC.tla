---- MODULE WindowMC ----
EXTENDS Window
MCFilters == {<<>>, <<[t |-> "cmp", c |-> "b", o |-> "eq", v |-> 1]>>, <<[t |-> "cmp", c |-> "a", o |-> "gt", v |-> 3]>>, <<[t |-> "null", c |-> "a"]>>,
  <<[t |-> "cmp", c |-> "b", o |-> "eq", v |-> 1], [t |-> "null", c |-> "a"]>>, <<[t |-> "cmp", c |-> "a", o |-> "ge", v |-> 1], [t |-> "cmp", c |-> "b", o |-> "eq", v |-> 2]>>}
MCNoFilter == {<<>>, <<[t |-> "cmp", c |-> "b", o |-> "ne", v |-> 1]>>}
MCLimits == {-1, 0, 1, 2, 7, 30, 1000}
MCOffsets == {-1, 0, 1, 3, 29, 30, 500}
====
