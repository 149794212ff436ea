----------------------------- MODULE DecOracle ------------------------------
(***************************************************************************)
(* The specification's verdict on given documents of given cases            *)
(***************************************************************************)
EXTENDS Decode

CONSTANTS CheckThm, Lines, File, Stride

Cases == DB.cases
Docs == ndJsonDeserialize(File)

VARIABLE i

Init == i \in 1..Stride /\ i <= Len(Docs)
Next == i + Stride <= Len(Docs) /\ i' = i + Stride
Spec == Init /\ [][Next]_i

Emit == LET q == StepAll(Init0, Docs[i].t)
            p == AtEof(q)
            c == Cases[Docs[i].s]
            cx == Docs[i].cx
            r == DecodeAll(c.form, c.t, p.nodes, cx)
        IN p.ok =>
           /\ PrintT(ToJson(<<c.id, cx, Docs[i].t, IF Accepted(r) THEN 1 ELSE 0,
                              IF Accepted(r) THEN r.val ELSE <<>>, r.errs>>
                            \o (IF Lines THEN <<LineCols(q)>> ELSE <<>>)))
           /\ CheckThm =>
                /\ LosslessThm(r, p.nodes) /\ FailThm(r)
                /\ LabelThm(Docs[i].t, r)
                /\ IF c.form = "root" THEN RootThm(c.t, p.nodes, cx)
                   ELSE ListThm(c.t, p.nodes, cx)
                /\ c.inl > 0 => InlineThm(c.t, c.inl, p.nodes, cx)
                /\ c.wrap > 0 => WrapThm(c.form, c.t, c.wrap, p.nodes, cx)
=============================================================================
