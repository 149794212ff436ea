------------------------------ MODULE KdlCover -----------------------------
(***************************************************************************)
(* State cover of the machine's control part. Texts that leave the machine  *)
(* in the same control state (View) are explored once; then every character *)
(* of Probes is tried in each control state, followed by each of Tails      *)
(* (which tell apart the states an implementation might have gone to).      *)
(***************************************************************************)
EXTENDS KdlThm, Json

CONSTANTS Alphabet, Probes, Tails, MaxDepth, MaxLen, Fine, WithPos, CheckThm

VARIABLE m

Cap(x, n) == IF x > n THEN n ELSE x

BufView(b) == IF b \in KwPrefixes THEN b
              ELSE IF IsRawHead(b) THEN <<114, Cap(Len(b), 3)>> ELSE <<>>

TokSt == {"ident", "sign", "num", "str", "esc", "escu0", "escu", "raw", "rawq",
          "type0", "type1", "val0"}
LevelView(l) == <<l.sdk >= 0, l.open.sd >= 0, Cap(Len(l.nodes), 1),
                  l.open.kids /= <<>>>>
View == <<m.st,
          IF m.st \in TokSt \cup {"slc"} \/ m.ret = "escl" THEN m.ctx ELSE "",
          IF m.st \in {"slash", "mlc", "escl", "crret", "num"}
             \/ (m.st = "slc" /\ m.ctx = "escl") THEN m.ret ELSE "",
          IF m.st \in {"ident", "sign"} THEN BufView(m.buf)
          ELSE IF m.st = "mlc" THEN m.buf ELSE <<>>,
          CASE m.st \in {"raw", "rawq"} -> <<Cap(m.n, 2), Cap(m.k, 2)>>
            [] m.st = "escu" -> <<m.k, IsScalarValue(m.n)>>
            [] m.st = "num" -> <<m.n, Cap(Len(m.buf), 3)>>
            [] OTHER -> <<>>,
          Cap(Len(m.aux), 2),
          m.sdi >= 0, m.tn /= <<>>, m.pn /= <<>>,
          IF Fine THEN <<m.cr, Cap(Len(Open(m).args), 1),
                         Cap(Len(Open(m).props), 1),
                         [i \in 1..Len(m.lv) |-> LevelView(m.lv[i])]>>
          ELSE IF m.st \in {"nodes", "nosp", "items", "after"}
          THEN <<Open(m).sd >= 0, Len(m.lv), m.lv[Len(m.lv)].sdk >= 0>>
          ELSE <<>> >>

Init == m = Init0
Next == /\ m.st /= "dead"
        /\ Len(m.txt) < MaxLen
        /\ \E c \in Alphabet : m' = Step(m, c)
        /\ m'.st /= "dead" /\ Len(m'.lv) <= MaxDepth
Spec == Init /\ [][Next]_m

Out(q) == PrintT(ToJson(Outcome(q, WithPos)))
Emit == /\ Out(m)
        /\ \A c \in Probes : LET q == Step(m, c)
                             IN \A w \in Tails : Out(StepAll(q, w))
Thm == CheckThm => Theorems(m)
=============================================================================
