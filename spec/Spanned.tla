------------------------------ MODULE Spanned -------------------------------
(***************************************************************************)
(* Spanned values and the collections keyed by them. A value is its rank in *)
(* the order of its type (0 is a value not equal to anything, itself        *)
(* included, as NaN), a span is a number: 1, 2 where the two values were    *)
(* written, 3 and above for spans put there by mapping.                     *)
(*                                                                          *)
(* The machine holds two spanned values and a map with spanned keys. Beside *)
(* it runs the machine of the plain values, which has no spans at all; the  *)
(* invariant Refines says that the former without its spans is the latter,  *)
(* so spans influence nothing but themselves.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Top,        \* values are ranks up to Top
          Nan,        \* whether 0 is among them (then there are no maps)
          MaxSpan,    \* spans are numbers up to MaxSpan
          Depth

Vals == IF Nan THEN 0..Top ELSE 1..Top

VARIABLES slot,       \* the two spanned values, <<value, span>>
          map,        \* entries <<value, span of the key, payload>>, ordered
          plain,      \* the plain values and map of the other machine
          ops, init
vars == <<slot, map, plain, ops, init>>

Rot(v) == IF v = Top THEN (IF Nan THEN 0 ELSE 1) ELSE v + 1
Funs == {"rot", "one"}
App(f, v) == IF f = "rot" THEN Rot(v) ELSE 1

(* -1, 0, 1, or 2 when there is no order                                    *)
Cmp(a, b) == IF a = 0 \/ b = 0 THEN 2
             ELSE IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1

(* Spanned machine                                                          *)
SpCmp(x, y) == Cmp(x[1], y[1])
Find(m, v) == {i \in 1..Len(m) : m[i][1] = v}
Put(m, k, p) ==
    IF Find(m, k[1]) /= {}
    THEN LET i == CHOOSE j \in Find(m, k[1]) : TRUE
         IN [m EXCEPT ![i] = <<m[i][1], m[i][2], p>>]   \* the key stays
    ELSE SelectSeq(m, LAMBDA e : e[1] < k[1]) \o <<<<k[1], k[2], p>>>>
         \o SelectSeq(m, LAMBDA e : e[1] > k[1])
Del(m, v) == SelectSeq(m, LAMBDA e : e[1] /= v)

(* Plain machine: the values and a function from values to payloads         *)
PPut(m, v, p) == [x \in DOMAIN m \cup {v} |-> IF x = v THEN p ELSE m[x]]
PDel(m, v) == [x \in DOMAIN m \ {v} |-> m[x]]

Init == /\ slot \in [1..2 -> {<<v, 0>> : v \in Vals}]
        /\ init = <<slot[1][1], slot[2][1]>>
        /\ map = <<>>
        /\ plain = [v |-> init, m |-> [x \in {} |-> 0]]
        /\ ops = <<>>

Did(op) == ops' = Append(ops, op) /\ UNCHANGED init
MapValue(i, f) ==
    /\ slot' = [slot EXCEPT ![i][1] = App(f, @)]
    /\ plain' = [plain EXCEPT !.v[i] = App(f, @)]
    /\ UNCHANGED map
    /\ Did(<<"map", i, f>>)
MapSpan(i, s) ==
    /\ slot' = [slot EXCEPT ![i][2] = s]
    /\ UNCHANGED <<map, plain>>
    /\ Did(<<"span", i, s>>)
Insert(i) ==
    /\ ~Nan
    /\ map' = Put(map, slot[i], Len(ops))
    /\ plain' = [plain EXCEPT !.m = PPut(@, plain.v[i], Len(ops))]
    /\ UNCHANGED slot
    /\ Did(<<"ins", i, 0>>)
Remove(v) ==
    /\ ~Nan
    /\ Find(map, v) /= {}
    /\ map' = Del(map, v)
    /\ plain' = [plain EXCEPT !.m = PDel(@, v)]
    /\ UNCHANGED slot
    /\ Did(<<"rem", v, 0>>)
Next == /\ Len(ops) < Depth
        /\ \/ \E i \in 1..2, f \in Funs : MapValue(i, f)
           \/ \E i \in 1..2, s \in 3..MaxSpan : MapSpan(i, s)
           \/ \E i \in 1..2 : Insert(i)
           \/ \E v \in Vals : Remove(v)
Spec == Init /\ [][Next]_vars

Refines == /\ plain.v = <<slot[1][1], slot[2][1]>>
           /\ {e[1] : e \in {map[i] : i \in 1..Len(map)}} = DOMAIN plain.m
           /\ \A i \in 1..Len(map) : plain.m[map[i][1]] = map[i][3]
           /\ SpCmp(slot[1], slot[2]) = Cmp(plain.v[1], plain.v[2])
Sorted == \A i, j \in 1..Len(map) : i < j => map[i][1] < map[j][1]

Emit == PrintT(ToJson(<<init, ops, slot, map, SpCmp(slot[1], slot[2])>>))
=============================================================================
