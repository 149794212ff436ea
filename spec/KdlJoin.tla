------------------------------ MODULE KdlJoin ------------------------------
(***************************************************************************)
(* Documents one after another. What stands before a document only moves    *)
(* its nodes: the nodes of a text that ends in an empty line, followed by   *)
(* another text, are those of the first and then those of the second, moved *)
(* by the length of the first. TLC checks this (JoinThm) on pairs of the    *)
(* given documents. The implementation is then given documents far longer   *)
(* than the ones the specification reads: many of these texts one after     *)
(* another, where every one has to be read as it is read alone.             *)
(***************************************************************************)
EXTENDS KdlThm, Json

CONSTANTS File, Stride, WithPos

Docs == ndJsonDeserialize(File)

VARIABLE i

Init == i \in 1..Stride /\ i <= Len(Docs)
Next == i + Stride <= Len(Docs) /\ i' = i + Stride
Spec == Init /\ [][Next]_i

MoveT(t, d) == IF t = <<>> THEN <<>> ELSE <<t[1], t[2] + d, t[3] + d>>
MoveV(v, d) == <<MoveT(v[1], d),
                 <<v[2][1], v[2][2], v[2][3] + d, v[2][4] + d>> >>
RECURSIVE Move(_, _)
(* The nodes ns, d characters further on                                    *)
Move(ns, d) ==
    [k \in 1..Len(ns) |->
        LET n == ns[k] IN
        <<MoveT(n[1], d), MoveT(n[2], d),
          [j \in 1..Len(n[3]) |-> MoveV(n[3][j], d)],
          [j \in 1..Len(n[4]) |->
             <<n[4][j][1],
               [l \in 1..Len(n[4][j][2]) |-> <<n[4][j][2][l][1] + d,
                                               n[4][j][2][l][2] + d>>],
               MoveV(n[4][j][3], d)>>],
          IF n[5] = <<>> THEN <<>>
          ELSE <<Move(n[5][1], d), n[5][2] + d, n[5][3] + d>>,
          n[6] + d, n[7] + d>>]

Separated(j) == StepAll(Init0, Docs[j].t \o <<10, 10>>)

JoinThm(m, j) ==
    LET a  == AtEof(m)
        bm == StepAll(Init0, Docs[j].t)
        b  == AtEof(bm)
        cm == StepAll(m, Docs[j].t)
        c  == AtEof(cm)
        d  == Len(m.txt)
        l  == m.pos[d + 1][2]
    IN a.ok =>
       /\ m.pos[d + 1][3] = 0
       /\ c.ok = b.ok
       /\ c.ok => c.nodes = a.nodes \o Move(b.nodes, d)
       /\ \A k \in 1..Len(bm.pos) :
             cm.pos[d + k] = <<bm.pos[k][1] + m.pos[d + 1][1],
                               bm.pos[k][2] + l, bm.pos[k][3]>>

Emit == LET m == Separated(i)
        IN /\ PrintT(ToJson(Outcome(m, WithPos)))
           /\ i + 1 <= Len(Docs) => JoinThm(m, i + 1)
=============================================================================
