------------------------------ MODULE KdlThm ------------------------------
(***************************************************************************)
(* Properties of the language machine of module Kdl, stated over a machine  *)
(* state m or over a text s. The generator modules have TLC check them in   *)
(* every state they visit.                                                  *)
(***************************************************************************)
EXTENDS Kdl

NoExtent(t) == IF t = <<>> THEN <<>> ELSE <<t[1]>>
NoExtentV(v) == <<NoExtent(v[1]), v[2][1], v[2][2]>>

RECURSIVE NoExtentN(_)
(* A node without the extents                                               *)
NoExtentN(n) ==
    <<NoExtent(n[1]), NoExtent(n[2]),
      [i \in 1..Len(n[3]) |-> NoExtentV(n[3][i])],
      {<<n[4][i][1], NoExtentV(n[4][i][3])>> : i \in 1..Len(n[4])},
      IF n[5] = <<>> THEN <<>>
      ELSE <<[i \in 1..Len(n[5][1]) |-> NoExtentN(n[5][1][i])]>> >>
Data(ns) == [i \in 1..Len(ns) |-> NoExtentN(ns[i])]

Covered(i, ivs) == \E j \in 1..Len(ivs) : ivs[j][1] < i /\ i <= ivs[j][2]
(* s with the extents ivs replaced by spaces                                *)
Blanked(s, ivs) ==
    FoldLeft(LAMBDA a, i :
                IF ~Covered(i, ivs) THEN Append(a, s[i])
                ELSE IF \E j \in 1..Len(ivs) : ivs[j][1] = i - 1
                THEN Append(a, 32) ELSE a,
             <<>>, [i \in 1..Len(s) |-> i])

SameData(s, r) == LET p == Parse(s) IN p.ok /\ Data(p.nodes) = Data(r.nodes)

(* C06: blanking the slashdashed elements leaves the same data. (Deleting    *)
(* them could join a CR before and an LF after one into a single newline.)  *)
SlashdashThm(s, r) == (r.ok /\ r.cuts /= <<>>) => SameData(Blanked(s, r.cuts), r)
(* C05: comments and continuations are worth a space                        *)
TriviaThm(s, r) == (r.ok /\ r.triv /= <<>>) => SameData(Blanked(s, r.triv), r)

(* C02/C03: a canonical rendering of the tree denotes the same tree         *)
Quoted(t) == <<34>> \o FoldLeft(LAMBDA a, c : a \o (IF c \in {34, 92}
                                                  THEN <<92, c>> ELSE <<c>>),
                                <<>>, t) \o <<34>>
RenderT(t) == IF t = <<>> THEN <<>> ELSE <<40>> \o Quoted(t[1]) \o <<41>>
RenderL(k, p) == CASE k = 0 -> KwNull
                   [] k = 1 -> IF p = <<1>> THEN KwTrue ELSE KwFalse
                   [] k = 2 -> (IF p[1] = 1 THEN <<45>> ELSE <<>>)
                               \o [i \in 1..Len(p[2]) |-> p[2][i] + 48]
                   [] k = 3 -> p
                   [] k = 4 -> Quoted(p)
RenderV(v) == RenderT(v[1]) \o RenderL(v[2][1], v[2][2])
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
RECURSIVE RenderN(_)
RenderNs(ns) == Cat([i \in 1..Len(ns) |-> RenderN(ns[i])])
RenderN(n) ==
    RenderT(n[1]) \o Quoted(n[2][1])
    \o Cat([i \in 1..Len(n[4]) |-> <<32>> \o Quoted(n[4][i][1]) \o <<61>>
                                   \o RenderV(n[4][i][3])])
    \o Cat([i \in 1..Len(n[3]) |-> <<32>> \o RenderV(n[3][i])])
    \o (IF n[5] = <<>> THEN <<>> ELSE <<123>> \o RenderNs(n[5][1]) \o <<125>>)
    \o <<10>>
RenderThm(s, r) == r.ok => SameData(RenderNs(r.nodes), r)

(* C07: extents delimit the tokens, nest and are ordered                    *)
TxtAt(s, a, b) == SubSeq(s, a + 1, b)
TypeExtent(s, t) == t = <<>> \/ (/\ t[2] + 2 < t[3] /\ s[t[2] + 1] = 40
                                 /\ s[t[3]] = 41)
NameExtent(s, t) == LET x == TxtAt(s, t[2], t[3])
                    IN x = t[1] \/ (/\ Len(x) >= 2 /\ x[Len(x)] \in {34, 35}
                                    /\ (x[1] = 34 \/ x[1] = 114))
LitExtent(s, l) ==
    LET x == TxtAt(s, l[3], l[4])
    IN CASE l[1] = 0 -> x = KwNull
         [] l[1] = 1 -> x \in {KwTrue, KwFalse}
         [] l[1] = 2 -> x[1] \in 48..57 \/ IsSign(x[1])
         [] l[1] = 3 -> NoUnderscore(x) = l[2]
         [] l[1] = 4 -> x[Len(x)] \in {34, 35} /\ Len(x) >= 2
RECURSIVE NodeExtents(_, _)
NodesExtents(s, ns, a, b) ==
    /\ \A i \in 1..Len(ns) : NodeExtents(s, ns[i])
    /\ \A i \in 1..Len(ns) : a <= ns[i][6] /\ ns[i][7] <= b
    /\ \A i \in 1..(Len(ns) - 1) : ns[i][7] <= ns[i + 1][6]
NodeExtents(s, n) ==
    LET inside(x, y) == n[6] <= x /\ x < y /\ y <= n[7]
        endc == IF n[7] > 0 THEN s[n[7]] ELSE 0
    IN /\ n[6] = IF n[1] = <<>> THEN n[2][2] ELSE n[1][2]
       /\ n[1] /= <<>> => n[1][3] = n[2][2]
       /\ TypeExtent(s, n[1]) /\ NameExtent(s, n[2]) /\ inside(n[2][2], n[2][3])
       /\ n[7] = Len(s) \/ endc = 59 \/ IsNl(endc)
       /\ \A i \in 1..Len(n[3]) :
            /\ TypeExtent(s, n[3][i][1]) /\ LitExtent(s, n[3][i][2])
            /\ inside(n[3][i][2][3], n[3][i][2][4])
            /\ n[3][i][1] /= <<>> => n[3][i][1][3] = n[3][i][2][3]
       /\ \A i \in 1..Len(n[4]) :
            /\ \A j \in 1..Len(n[4][i][2]) :
                 /\ inside(n[4][i][2][j][1], n[4][i][2][j][2])
                 /\ s[n[4][i][2][j][2] + 1] = 61
            /\ TypeExtent(s, n[4][i][3][1]) /\ LitExtent(s, n[4][i][3][2])
            /\ inside(n[4][i][3][2][3], n[4][i][3][2][4])
       /\ n[5] /= <<>> =>
            /\ inside(n[5][2], n[5][3]) /\ s[n[5][2] + 1] = 123
            /\ s[n[5][3]] = 125
            /\ NodesExtents(s, n[5][1], n[5][2] + 1, n[5][3] - 1)
ExtentThm(s, r) == r.ok => NodesExtents(s, r.nodes, 0, Len(s))

(* C08: positions                                                           *)
PosThm(m) ==
    /\ Len(m.pos) = Len(m.txt) + 1
    /\ \A i \in 1..Len(m.txt) :
         /\ m.pos[i + 1][1] = m.pos[i][1] + Utf8Len(m.txt[i])
         /\ \/ m.pos[i + 1][2] = m.pos[i][2]
            \/ m.pos[i + 1][2] = m.pos[i][2] + 1 /\ m.pos[i + 1][3] = 0
    /\ m.pos[Len(m.pos)][2] =
         Cardinality({i \in 1..Len(m.txt) :
             IsNl(m.txt[i]) /\ ~(m.txt[i] = 10 /\ i > 1 /\ m.txt[i - 1] = 13)})

(* C01/C10: a machine that is not dead can be brought to a well-formed       *)
(* document, so that the machine dies at the first offending character.     *)
KwRest(b) == LET w == CHOOSE w \in Keywords : SubSeq(w, 1, Len(b)) = b
             IN SubSeq(w, Len(b) + 1, Len(w))
Fix(m) ==
    CASE m.st = "nodes"  -> <<125>>
      [] m.st = "sdnode" -> <<97>>
      [] m.st \in {"nosp", "items", "after"} -> <<59>>
      [] m.st = "sditem" -> <<49>>
      [] m.st = "sdkids" -> <<123, 125>>
      [] m.st = "slash"  -> <<42, 42, 47>>
      [] m.st = "mlc"    -> <<32, 42, 47>>
      [] m.st \in {"slc", "escl", "crterm", "crret"} -> <<10>>
      [] m.st = "type0"  -> <<97, 41>>
      [] m.st = "type1"  -> <<41>>
      [] m.st = "name0"  -> <<97>>
      [] m.st \in {"val0", "pval0"} -> <<49>>
      [] m.st = "propq"  -> <<32>>
      [] m.st = "ident" /\ m.ctx = "name" ->
            IF m.buf \in Keywords THEN <<97>> ELSE <<32>>
      [] m.st = "ident" /\ m.ctx \in NameCtx ->
            IF m.buf \in Keywords THEN <<97>> ELSE <<41>>
      [] m.st = "ident" /\ m.ctx = "item" ->
            IF m.buf \in Keywords THEN <<32>> ELSE <<61, 49>>
      [] m.st = "ident" -> IF IsRawHead(m.buf) THEN <<34>>
                           ELSE IF m.buf \in Keywords THEN <<32>>
                           ELSE KwRest(m.buf)
      [] m.st = "sign" -> CASE m.ctx = "name" -> <<32>>
                            [] m.ctx \in NameCtx -> <<41>>
                            [] m.ctx = "item" -> <<61, 49>>
                            [] OTHER -> <<49>>
      [] m.st = "num"  -> CASE m.ret \in NumAccepting -> <<32>>
                            [] m.ret = "rad0" -> <<48>>
                            [] OTHER -> <<49>>
      [] m.st = "str"   -> <<34>>
      [] m.st = "esc"   -> <<110>>
      [] m.st = "escu0" -> <<123>>
      [] m.st = "escu"  -> IF m.k >= 1 /\ IsScalarValue(m.n) THEN <<125>>
                           ELSE <<48>>
      [] m.st = "raw"   -> <<34>>
      [] m.st = "rawq"  -> <<35>>
RECURSIVE Completes(_, _)
Completes(m, fuel) ==
    \/ AtEof(m).ok
    \/ /\ m.st /= "dead" /\ fuel > 0
       /\ Completes(StepAll(m, Fix(m)), fuel - 1)
ViableThm(m) == m.st /= "dead" => Completes(m, 40)

(* The report of an unclosed construct                                      *)
UnclosedThm(m, r) ==
    /\ r.ok => r.unc = {}
    /\ (Depth(m) > 1 /\ m.st \notin {"dead", "ident", "num"}) => r.unc /= {}
    /\ m.st \in {"str", "raw", "rawq", "esc", "escu0", "escu", "mlc"}
         => r.unc /= {}
    /\ \A u \in r.unc : u[2] < u[3] /\ u[3] <= Len(m.txt)
    /\ r.ok <=> r.offs = <<>>
    /\ \A i \in 1..Len(r.offs) : r.offs[i][1] <= r.offs[i][2]
                                /\ r.offs[i][2] <= Len(m.txt)

(* What is handed over for replay into the implementation                   *)
LineCols(m) == [i \in 1..Len(m.pos) |-> <<m.pos[i][2], m.pos[i][3]>>]
Outcome(m, withPos) ==
    LET r == AtEof(m)
    IN <<m.txt, IF r.ok THEN 1 ELSE 0, r.nodes, r.unc, r.offs,
         IF withPos THEN LineCols(m) ELSE <<>> >>

Theorems(m) ==
    LET r == AtEof(m)
        s == m.txt
    IN /\ SlashdashThm(s, r) /\ TriviaThm(s, r) /\ RenderThm(s, r)
       /\ ExtentThm(s, r) /\ UnclosedThm(m, r) /\ ViableThm(m)
       /\ PosThm(m)
=============================================================================
