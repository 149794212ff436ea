------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* Type definitions with derived decoders. The state is a definition that   *)
(* is written field by field; the verdict on it follows the rules of the    *)
(* documentation: what contradicts itself is rejected at compile time, and  *)
(* everything else compiles.                                                *)
(*                                                                          *)
(* A field is [m, name, dec, def, unw, ty]: the mode attributes written on  *)
(* it, whether the name is given explicitly, the decode modes, the number   *)
(* of defaults, the unwrap(..)s (each the same kind of record) and whether  *)
(* its type is Option<..>, bool or anything else.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,      \* "named", "tuple", "variant"
          Owns,       \* attributes of the definition ("" for none)
          VarOwns,    \* attributes of its variant
          First, Second, Third,    \* names of the alphabets by position
          After       \* how many fields may follow a contradictory one

VARIABLES kind, own, varOwn, list, seen, bad
vars == <<kind, own, varOwn, list, seen, bad>>

Scalar == {"argument", "property", "arguments", "properties"}
Special == {"span", "node_name", "type_name"}
Child == {"child", "children", "children(name)"}
Flat == {"flatten(child)", "flatten(property)", "flatten(child, property)"}

(* Groups: fields of one group share a catch-all                            *)
Groups(m) == CASE m \in {"argument", "arguments"} -> {"args"}
               [] m \in {"property", "properties", "flatten(property)"}
                    -> {"props"}
               [] m \in Child \cup {"flatten(child)"} -> {"kids"}
               [] m = "flatten(child, property)" -> {"props", "kids"}
               [] OTHER -> {}
CatchAll == {"arguments", "properties", "children"}

F(m, name, dec, def, unw, ty) ==
    [m |-> m, name |-> name, dec |-> dec, def |-> def, unw |-> unw, ty |-> ty]
Inner(m, name, dec, def) == F(m, name, dec, def, <<>>, "val")

-----------------------------------------------------------------------------
(* Alphabets                                                                *)
Decs == {<<>>, <<"str">>, <<"bytes">>, <<"str", "bytes">>, <<"str", "str">>,
         <<"bytes", "str">>}
Dec1 == {<<>>, <<"str">>, <<"bytes">>}
NameFor(m) == IF m = "property" THEN {FALSE, TRUE} ELSE {FALSE}

Scalars == UNION {{F(<<m>>, n, d, df, <<>>, t) : n \in NameFor(m), d \in Decs,
                   df \in 0..2, t \in {"val", "opt"}}
                  : m \in {"argument", "property"}}
VarScalars == {F(<<m>>, FALSE, d, 0, <<>>, "val")
               : m \in {"arguments", "properties"}, d \in Decs}

Unwraps ==
    {Inner(<<m>>, n, d, df) : m \in {"argument"}, n \in {FALSE}, d \in Dec1,
                              df \in 0..1}
    \cup {Inner(<<"property">>, n, d, 0) : n \in BOOLEAN, d \in Dec1}
    \cup {Inner(<<m>>, FALSE, <<>>, 0)
          : m \in {"arguments", "properties", "children", "children(name)",
                   "child"}}
BadUnwraps ==
    {Inner(<<"argument">>, FALSE, <<"str", "bytes">>, 0),
     Inner(<<"argument">>, FALSE, <<>>, 2),
     Inner(<<"argument", "property">>, FALSE, <<>>, 0),
     Inner(<<"arguments", "argument">>, FALSE, <<>>, 0),
     Inner(<<"child">>, FALSE, <<"str">>, 0),
     Inner(<<"children">>, FALSE, <<"bytes">>, 0),
     Inner(<<"children(name)">>, FALSE, <<"str">>, 0),
     F(<<"child">>, FALSE, <<>>, 0,
       <<Inner(<<"argument">>, FALSE, <<"bytes", "bytes">>, 0)>>, "val")}
Nested == {F(<<"child">>, FALSE, <<>>, 0, <<u>>, "val")
           : u \in {Inner(<<"argument">>, FALSE, <<>>, 0),
                    Inner(<<"property">>, TRUE, <<"str">>, 0)}}

Children ==
    {F(<<"child">>, FALSE, <<>>, df, <<>>, t) : df \in 0..2,
                                                t \in {"val", "opt"}}
    \cup {F(<<"child">>, FALSE, <<>>, 0, <<>>, "bool")}
    \cup {F(<<"child">>, FALSE, d, 0, w, t)
          : d \in Decs \ {<<>>}, t \in {"val", "opt"},
            w \in {<<>>, <<Inner(<<"argument">>, FALSE, <<>>, 0)>>}}
    \cup {F(<<"child">>, FALSE, <<"str">>, 0, <<>>, "bool")}
    \cup {F(<<"child">>, FALSE, <<>>, df, <<u>>, t)
          : df \in 0..1, u \in Unwraps, t \in {"val", "opt"}}
    \cup {F(<<"child">>, FALSE, <<>>, 0,
            <<Inner(<<"argument">>, FALSE, <<>>, 0)>>, "bool")}
    \cup {F(<<"child">>, FALSE, <<>>, 0, <<u>>, "val")
          : u \in BadUnwraps \cup Nested}
    \cup {F(<<"child">>, FALSE, <<>>, 0,
            <<Inner(<<"argument">>, FALSE, <<>>, 0), u>>, "val")
          : u \in Unwraps}
    \cup {F(<<m>>, FALSE, d, 0, w, "val")
          : m \in {"children", "children(name)"}, d \in Decs,
            w \in {<<>>, <<Inner(<<"argument">>, FALSE, <<>>, 0)>>}}
    \cup {F(<<m>>, FALSE, <<>>, 0, <<u>>, "val")
          : m \in {"children", "children(name)"}, u \in Unwraps \cup BadUnwraps}
    \cup {F(<<"children(name)">>, FALSE, <<>>, df, <<>>, t)
          : df \in 0..2, t \in {"val", "opt"}}

Flattened == {F(<<m>>, FALSE, d, 0, <<>>, t)
              : m \in Flat, d \in Dec1, t \in {"val", "opt"}}
Specials == {F(<<m>>, FALSE, d, 0, <<>>, "val") : m \in Special, d \in Decs}
    \cup {F(<<"type_name">>, FALSE, d, 0, <<>>, "opt") : d \in Dec1}
Plain == {F(<<>>, FALSE, <<>>, 0, <<>>, "val")}
TwoModes == {F(<<a, b>>, TRUE, <<>>, 0, <<>>, "val")
             : a \in Scalar \cup Child \cup Flat \cup Special,
               b \in Scalar \cup Child \cup Flat \cup Special}

Full == Scalars \cup VarScalars \cup Children \cup Flattened \cup Specials
        \cup Plain \cup TwoModes

Simple(m, t) == F(<<m>>, FALSE, <<>>, 0, <<>>, t)
Core ==
    {Simple(m, "val") : m \in Scalar \cup Child \cup Flat \cup Special}
    \cup {Simple(m, "opt") : m \in {"argument", "property", "child",
                                    "children(name)", "type_name"}}
    \cup {F(<<"property">>, TRUE, <<>>, 0, <<>>, t) : t \in {"val", "opt"}}
    \cup {Simple("child", "bool"),
          F(<<"argument">>, FALSE, <<>>, 1, <<>>, "val"),
          F(<<"child">>, FALSE, <<>>, 0,
            <<Inner(<<"argument">>, FALSE, <<>>, 0)>>, "val"),
          F(<<"child">>, FALSE, <<>>, 0,
            <<Inner(<<"property">>, FALSE, <<>>, 0)>>, "opt")}
    \cup Plain

(* What may stand around anything, one per group                            *)
Around == {Simple("argument", "val"), Simple("properties", "val"),
           Simple("children", "val"), Simple("arguments", "val"),
           F(<<"property">>, TRUE, <<>>, 0, <<>>, "opt"),
           Simple("children(name)", "opt")} \cup Plain

(* Every form of a field that takes all that is left, and every form of one *)
(* that may then come too late                                              *)
CatchAlls ==
    {F(<<m>>, FALSE, d, 0, <<>>, "val")
     : m \in {"arguments", "properties"}, d \in Dec1}
    \cup {F(<<"children">>, FALSE, <<>>, 0, w, "val")
          : w \in {<<>>} \cup {<<u>> : u \in Unwraps}}
Grouped ==
    {F(<<m>>, m = "property", d, df, <<>>, t)
     : m \in {"argument", "property"}, d \in Dec1, df \in 0..1,
       t \in {"val", "opt"}}
    \cup {F(<<"child">>, FALSE, <<>>, df, <<>>, t)
          : df \in 0..1, t \in {"val", "opt"}}
    \cup {Simple("child", "bool")}
    \cup {F(<<"child">>, FALSE, <<>>, 0, <<u>>, t)
          : u \in Unwraps, t \in {"val", "opt"}}
    \cup {F(<<"children(name)">>, FALSE, <<>>, df, <<>>, t)
          : df \in 0..1, t \in {"val", "opt"}}
    \cup {F(<<"children(name)">>, FALSE, <<>>, 0, <<u>>, "val") : u \in Unwraps}
    \cup {Simple(m, "val") : m \in Flat \cup Special}
    \cup CatchAlls

Alphabet(n) == CASE n = "Full" -> Full
                 [] n = "CatchAlls" -> CatchAlls
                 [] n = "Grouped" -> Grouped
                 [] n = "Core" -> Core
                 [] n = "Around" -> Around
                 [] n = "None" -> {}

-----------------------------------------------------------------------------
(* The rules                                                                *)
RECURSIVE FieldBad(_, _)
FieldBad(f, named) ==
    \/ Len(f.m) > 1 \/ Len(f.dec) > 1 \/ f.def > 1 \/ Len(f.unw) > 1
    \/ f.m /= <<>> /\ f.dec /= <<>> /\ f.m[1] \notin Scalar
    \/ f.m /= <<>> /\ f.m[1] \in Flat /\ f.ty = "opt"
    \/ f.m = <<"property">> /\ ~f.name /\ ~named
    \/ f.m = <<"child">> /\ ~named
    \/ \E i \in 1..Len(f.unw) : FieldBad(f.unw[i], named)

Mode(f) == IF f.m = <<>> THEN "" ELSE f.m[1]
Late(f, s) == Groups(Mode(f)) \cap s /= {}
Opens(f) == IF Mode(f) \in CatchAll THEN Groups(Mode(f)) ELSE {}

(* The same for whole lists, without a state                                *)
Contradictory(l, named) ==
    \/ \E i \in 1..Len(l) : FieldBad(l[i], named)
    \/ \E i, j \in 1..Len(l) :
        i < j /\ Opens(l[i]) \cap Groups(Mode(l[j])) /= {}

IsRoot(l) == \A i \in 1..Len(l) :
    Mode(l[i]) \in Child \cup {"flatten(child)", ""}
FlatField(f) ==
    CASE Mode(f) \in {"property", "children(name)"} -> f.ty = "opt"
      [] Mode(f) = "child" -> f.ty = "opt" \/ (f.ty = "bool" /\ f.unw = <<>>)
      [] Mode(f) \in Flat \cup {""} -> TRUE
      [] OTHER -> FALSE
IsFlat(l) == \A i \in 1..Len(l) : FlatField(l[i])

NewType == kind = "tuple" /\ Len(list) = 1 /\ Mode(list[1]) = ""

-----------------------------------------------------------------------------
(* The attributes that may stand on a definition and on a variant           *)
OwnBad(o) == o \notin {"", "span_type"}
VarBad(o) == o \notin {"", "skip"}

Init == /\ kind \in Kinds
        /\ own \in Owns
        /\ varOwn \in IF kind = "variant" THEN VarOwns ELSE {""}
        /\ list = <<>>
        /\ seen = {}
        /\ bad = -1            \* fields since the contradiction

Named == kind = "named"

Append1(f) ==
    /\ list' = Append(list, f)
    /\ seen' = seen \cup Opens(f)
    /\ bad' = IF bad >= 0 THEN bad + 1
              ELSE IF FieldBad(f, Named) \/ Late(f, seen) THEN 0 ELSE -1
    /\ UNCHANGED <<kind, own, varOwn>>
Next == /\ bad < After
        /\ \E f \in Alphabet(IF Len(list) = 0 THEN First
                             ELSE IF Len(list) = 1 THEN Second
                             ELSE IF Len(list) = 2 THEN Third ELSE "None") :
             Append1(f)
Spec == Init /\ [][Next]_vars

(* A skipped variant is not decoded, so it may be anything                  *)
Rejected == \/ OwnBad(own) \/ VarBad(varOwn)
            \/ bad >= 0 /\ varOwn /= "skip"

-----------------------------------------------------------------------------
(* Theorems about the rules                                                 *)
Without(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
Swapped(l, i) == [l EXCEPT ![i] = l[i + 1], ![i + 1] = l[i]]

Thm ==
    (* one rule per list and one per step say the same                      *)
    /\ (bad >= 0) = Contradictory(list, Named)
    (* a part of a good definition is good, and as usable                   *)
    /\ \A i \in 1..Len(list) :
        /\ (bad < 0 => ~Contradictory(Without(list, i), Named))
        /\ IsRoot(list) => IsRoot(Without(list, i))
        /\ IsFlat(list) => IsFlat(Without(list, i))
    (* order matters only within a group                                    *)
    /\ \A i \in 1..Len(list) - 1 :
        (Groups(Mode(list[i])) \cap Groups(Mode(list[i + 1])) = {})
        => /\ Contradictory(Swapped(list, i), Named)
              = Contradictory(list, Named)
    (* a positional definition that compiles also does with names           *)
    /\ ~Contradictory(list, FALSE) => ~Contradictory(list, TRUE)
    (* no catch-all or argument in what is flattened                        *)
    /\ IsFlat(list) => seen = {}


Use(b) == IF kind = "variant" \/ NewType THEN "any"
          ELSE IF b THEN "yes" ELSE "no"
Emit == Thm /\ ((list = <<>> /\ kind = "variant")
    \/ PrintT(ToJson(<<kind, own, varOwn, list, ~Rejected, Use(IsRoot(list)),
                      Use(IsFlat(list))>>)))
=============================================================================
