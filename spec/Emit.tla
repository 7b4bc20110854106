---- MODULE Emit ----
(* Printing every transition TLC generates, for replay against the implementation. *)
EXTENDS Naturals, Sequences, TLC, Json
\* a: source state, e: event with its specified result, b: target state
EmitT(a, e, b) == PrintT(ToJson(<<a, e, b>>))
====
