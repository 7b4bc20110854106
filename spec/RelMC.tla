---- MODULE RelMC ----
EXTENDS Rel
Cm(ty, c, o, v) == [t |-> "cmp", ty |-> ty, c |-> c, o |-> o, v |-> v]
MCAtoms == {Cm("I", "n", "eq", 1), [t |-> "null", ty |-> "I", c |-> "n"], Cm("I", "key", "ge", 2), Cm("I", "key", "eq", 1),
   Cm("T", "val", "ge", 2), Cm("T", "key", "eq", 1), Cm("C", "key", "ne", 2), Cm("C", "parent", "eq", 1),
   [t |-> "null", ty |-> "C", c |-> "opt"], Cm("C", "opt", "ne", 2), Cm("O", "key", "le", 2), Cm("O", "boss", "eq", 1), Cm("O", "key", "eq", 3)}
MCAtomsFew == {Cm("I", "n", "eq", 1), Cm("T", "val", "ge", 2), Cm("C", "key", "ne", 2), [t |-> "null", ty |-> "C", c |-> "opt"], Cm("O", "key", "le", 2)}
Io(n) == [n |-> n]
To(v) == [val |-> v]
Co(p, o) == [parent |-> p, opt |-> o]
Oo(b, l, th, tg, k, f) == [boss |-> b, lead |-> l, things |-> th, tags |-> tg, kids |-> k, friends |-> f]
DB1 == [I |-> <<Io(0), Io(1), Io(2), Io(1)>>, T |-> <<To(1), To(2), To(2)>>,
        C |-> <<Co(1, 0), Co(2, 1), Co(3, 2), Co(1, 2)>>,
        O |-> <<Oo(0, 1, {}, {}, {}, {}), Oo(1, 2, {1}, {1}, {2, 3}, {3}), Oo(3, 0, {1, 2}, {2, 3}, {1}, {1, 2, 3}),
                Oo(2, 3, {2, 3}, {}, {}, {2}), Oo(0, 0, {1, 2, 3}, {1, 2, 3}, {1, 2}, {})>>]
DB2 == [I |-> <<Io(1), Io(0)>>, T |-> <<>>, C |-> <<Co(1, 0), Co(2, 0)>>,
        O |-> <<Oo(0, 0, {}, {}, {}, {}), Oo(0, 0, {2}, {}, {2}, {}), Oo(1, 0, {}, {}, {}, {})>>]
DB3 == [I |-> <<>>, T |-> <<To(2)>>, C |-> <<>>, O |-> <<>>]
MCDBs == <<DB1, DB2, DB3>>
====
