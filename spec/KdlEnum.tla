------------------------------ MODULE KdlEnum ------------------------------
(***************************************************************************)
(* Exhaustive generation of texts: every concatenation of a prefix, at most *)
(* MaxChunks chunks and a suffix. Each text is printed with the meaning the *)
(* specification gives it, for replay into the implementation.              *)
(* A text that became ill formed is not extended further, except by suffix. *)
(***************************************************************************)
EXTENDS KdlThm, Json

CONSTANTS Heads, Chunks, Tails, MaxChunks, WithPos, CheckThm

VARIABLES m, k

Init == k = 0 /\ \E p \in Heads : m = StepAll(Init0, p)
Next == /\ k < MaxChunks
        /\ m.st /= "dead"
        /\ k' = k + 1
        /\ \E ch \in Chunks : m' = StepAll(m, ch)
Spec == Init /\ [][Next]_<<m, k>>

Out(q) == PrintT(ToJson(Outcome(q, WithPos)))
Emit == \A w \in Tails : Out(StepAll(m, w))
Thm == CheckThm => Theorems(m)
=============================================================================
