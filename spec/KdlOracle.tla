------------------------------ MODULE KdlOracle -----------------------------
(***************************************************************************)
(* The specification's verdict on given texts: one behaviour per document   *)
(* of the file, read character by character. The outcome of each is printed *)
(* for comparison with what the implementation did with the same text.      *)
(***************************************************************************)
EXTENDS KdlThm, Json

CONSTANTS File, Stride, WithPos, CheckThm

Docs == ndJsonDeserialize(File)

VARIABLE i

Init == i \in 1..Stride /\ i <= Len(Docs)
Next == i + Stride <= Len(Docs) /\ i' = i + Stride
Spec == Init /\ [][Next]_i

Machine(j) == StepAll(Init0, Docs[j].t)
Emit == LET m == Machine(i)
        IN /\ PrintT(ToJson(Outcome(m, WithPos)))
           /\ CheckThm => Theorems(m)
=============================================================================
