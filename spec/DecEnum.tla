------------------------------ MODULE DecEnum ------------------------------
(***************************************************************************)
(* Documents for the cases of the schema file: every concatenation of a     *)
(* head, at most n chunks and a tail of the case, read by the machine and   *)
(* then decoded. Ill-formed documents are not decoded.                      *)
(***************************************************************************)
EXTENDS Decode

CONSTANTS CheckThm, Lines

Cases == DB.cases

VARIABLES s, cx, m, k

Init == /\ k = 0
        /\ s \in 1..Len(Cases)
        /\ \E i \in 1..Len(Cases[s].ctxs) : cx = Cases[s].ctxs[i]
        /\ \E i \in 1..Len(Cases[s].heads) :
               m = StepAll(Init0, Cases[s].heads[i])
Next == /\ k < Cases[s].n
        /\ m.st /= "dead"
        /\ k' = k + 1
        /\ \E i \in 1..Len(Cases[s].chunks) : m' = StepAll(m, Cases[s].chunks[i])
        /\ UNCHANGED <<s, cx>>
Spec == Init /\ [][Next]_<<s, cx, m, k>>

Out(q) == LET p == AtEof(q)
              c == Cases[s]
              r == DecodeAll(c.form, c.t, p.nodes, cx)
          IN p.ok =>
             /\ PrintT(ToJson(<<c.id, cx, q.txt, IF Accepted(r) THEN 1 ELSE 0,
                                IF Accepted(r) THEN r.val ELSE <<>>, r.errs>>
                              \o (IF Lines THEN <<LineCols(q)>> ELSE <<>>)))
             /\ CheckThm =>
                  /\ LosslessThm(r, p.nodes) /\ FailThm(r) /\ LabelThm(q.txt, r)
                  /\ IF c.form = "root" THEN RootThm(c.t, p.nodes, cx)
                     ELSE ListThm(c.t, p.nodes, cx)
                  /\ c.inl > 0 => InlineThm(c.t, c.inl, p.nodes, cx)
                  /\ c.wrap > 0 => WrapThm(c.form, c.t, c.wrap, p.nodes, cx)
Emit == \A i \in 1..Len(Cases[s].tails) : Out(StepAll(m, Cases[s].tails[i]))
=============================================================================
