---------------------------- MODULE DeriveScalar ----------------------------
(***************************************************************************)
(* Definitions with a derived scalar decoder: an enum is accepted exactly   *)
(* if all its variants are plain names; nothing else is accepted.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Max
VARIABLES item, list, data      \* data: some variant carries any
vars == <<item, list, data>>

Shapes == {"unit", "tuple", "tuple2", "struct"}

Init == item \in {"enum", "struct", "tuple", "unit struct"}
        /\ list = <<>> /\ data = FALSE
Next == /\ item = "enum" /\ Len(list) < Max
        /\ \E s \in Shapes : /\ list' = Append(list, s)
                             /\ data' = (data \/ s /= "unit")
        /\ UNCHANGED item
Spec == Init /\ [][Next]_vars

Accepted == item = "enum" /\ ~data
Thm == /\ Accepted => \A i \in 1..Len(list) : list[i] = "unit"
       /\ item = "enum" /\ ~Accepted => \E i \in 1..Len(list) : list[i] /= "unit"

Emit == Thm /\ ((item = "enum" /\ list = <<>>)
               \/ PrintT(ToJson(<<"scalar", item, list, Accepted>>)))
=============================================================================
