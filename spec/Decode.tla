------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* Typed decoding: what a document, parsed by the machine of module Kdl,    *)
(* means for a given family of type definitions.                            *)
(*                                                                          *)
(* The type definitions come from the file SchemaFile, which also is the    *)
(* source of the Rust types that the same documents are decoded into.       *)
(* Types is a sequence of node types; a field holds a scalar type (st), the *)
(* index of a node type (t), or the attributes of its unwrap (uw).          *)
(*                                                                          *)
(* A decoder yields a record                                                *)
(*   ok    FALSE if decoding stopped here; the last error is the one that   *)
(*         stopped it                                                       *)
(*   errs  the errors reported so far, in order                             *)
(*   val   the value (meaningless when there are errors)                    *)
(*   n     the number of document elements consumed                         *)
(* Values are tuples starting with a tag: i integer, f float, s string,     *)
(* b boolean, y bytes, n None, o Some, l list, m map, t structure,          *)
(* v enum variant, sp spanned, span a bare span.                            *)
(* An error is <<kind, set of admissible labels, words of its message>>;    *)
(* labels are extents in characters.                                        *)
(***************************************************************************)
EXTENDS KdlThm, Json

CONSTANT SchemaFile

DB == JsonDeserialize(SchemaFile)
Types == DB.types

Err(kind, labels, words) == <<kind, labels, words>>
Good(v) == [ok |-> TRUE, val |-> v, errs |-> <<>>, n |-> 0]
Soft(v, e) == [ok |-> TRUE, val |-> v, errs |-> <<e>>, n |-> 0]
Stop(e) == [ok |-> FALSE, val |-> <<>>, errs |-> <<e>>, n |-> 0]
Count(r) == [r EXCEPT !.n = @ + 1]
Before(es, r) == [r EXCEPT !.errs = es \o @]
Map(r, F(_)) == IF r.ok THEN [r EXCEPT !.val = F(r.val)] ELSE r

None == <<"n">>
Some(v) == <<"o", v>>
Bad == <<"?">>

----------------------------------------------------------------------------
(* Scalars                                                                  *)

KindName(k) == CASE k = 0 -> "null" [] k = 1 -> "boolean" [] k = 2 -> "integer"
                 [] k = 3 -> "decimal" [] k = 4 -> "string"
LitLabel(l) == {<<l[3], l[4]>>}
TypeLabel(t) == {<<t[2], t[3]>>}
WrongKind(want, l) ==
    Err("ScalarKind", LitLabel(l), <<KindName(want), KindName(l[1])>>)
WrongType(t, want) == Err("TypeName", TypeLabel(t), <<want, t[1]>>)

Fits(mask, bit) == (mask \div 2^bit) % 2 = 1
IntVal(p) == <<"i", IF p[2] = <<0>> THEN 0 ELSE p[1], p[2]>>
LitVal(l) == CASE l[1] = 0 -> None
               [] l[1] = 1 -> <<"b", l[2][1]>>
               [] l[1] = 2 -> IntVal(l[2])
               [] l[1] = 3 -> <<"f", l[2]>>
               [] l[1] = 4 -> <<"s", l[2]>>

(* Hand-written decoders take a text as a program: c, v and u report an     *)
(* error and go on, x and y stop with one; anything else does nothing. The  *)
(* decoder of whole documents knows what was reported so far: h reports an  *)
(* error if there is one already.                                           *)
KwBad == <<98, 97, 100>>
ProbeAfter(es, prog, lab, v) ==
    LET add(r, e) == [r EXCEPT !.errs = Append(@, e)]
        stop(r, e) == [add(r, e) EXCEPT !.ok = FALSE]
    IN FoldLeft(LAMBDA r, c :
                  IF ~r.ok THEN r
                  ELSE CASE c = 99 -> add(r, Err("Custom", {}, <<"probe c">>))
                         [] c = 118 -> add(r, Err("Conversion", lab, <<"probe v">>))
                         [] c = 117 -> add(r, Err("Unsupported", lab, <<"probe u">>))
                         [] c = 120 -> stop(r, Err("Conversion", lab, <<"probe x">>))
                         [] c = 121 -> stop(r, Err("Custom", {}, <<"probe y">>))
                         [] c = 104 /\ r.errs /= <<>> ->
                              add(r, Err("Custom", {}, <<"probe h">>))
                         [] OTHER -> r,
                Before(es, Good(v)), prog)
Probe(prog, lab, v) ==
    ProbeAfter(<<>>, SelectSeq(prog, LAMBDA c : c /= 104), lab, v)

(* The errors of checking the annotation t against the scalar type st       *)
RECURSIVE TypeCheck(_, _)
TypeCheck(st, t) ==
    IF t = <<>> THEN <<>>
    ELSE CASE st.k \in {"int", "float"} ->
                IF t[1] = st.ann THEN <<>> ELSE <<WrongType(t, st.ann)>>
           [] st.k \in {"string", "bool", "enum"} -> <<WrongType(t, "no type")>>
           [] st.k \in {"opt", "box", "spanned"} -> TypeCheck(st.i, t)
           [] st.k \in {"value", "literal", "ctx"} -> <<>>
           [] st.k = "probe" ->
                IF t[1] = KwBad THEN <<Err("Custom", {}, <<"probe type">>)>>
                ELSE <<>>

VariantIdx(keys, name) ==
    LET hits == {i \in 1..Len(keys) : keys[i] = name}
    IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
ExpectedKeys(keys) == IF Len(keys) <= 3 THEN keys ELSE SubSeq(keys, 1, 2)

(* The last value set for the type of context values ty                     *)
CtxVal(cx, ty) ==
    LET mine == SelectSeq(cx, LAMBDA x : x[1] = ty)
    IN IF mine = <<>> THEN None
       ELSE Some(<<"i", 0, <<mine[Len(mine)][2]>> >>)

(* Errors reported together with filling the context                        *)
CtxErrs(cx) ==
    LET mine == SelectSeq(cx, LAMBDA x : x[1] = 3)
    IN [i \in 1..Len(mine) |-> Err("Custom", {}, <<"probe ctx">>)]

RECURSIVE Scalar(_, _, _)
Scalar(st, v, cx) ==
    LET l == v[2]
        chk == TypeCheck(st, v[1])
    IN CASE st.k = "opt" ->
              IF l[1] = 0 THEN Count(Before(chk, Good(None)))
              ELSE Map(Scalar(st.i, v, cx), Some)
         [] st.k = "box" -> Scalar(st.i, v, cx)
         [] st.k = "spanned" ->
              Map(Scalar(st.i, v, cx), LAMBDA x : <<"sp", l[3], l[4], x>>)
         [] st.k = "value" ->
              Count(Good(<<"val", NoExtent(v[1]), LitVal(l)>>))
         [] st.k = "literal" -> Count(Good(<<"lit", LitVal(l)>>))
         [] st.k = "ctx" -> Count(Good(CtxVal(cx, st.ty)))
         [] st.k = "probe" ->
              Count(Before(chk, IF l[1] = 4
                                THEN Probe(l[2], LitLabel(l), <<"s", l[2]>>)
                                ELSE Good(None)))
         [] st.k = "int" ->
              Count(Before(chk,
                IF l[1] /= 2 THEN Soft(Bad, WrongKind(2, l))
                ELSE IF ~Fits(l[2][3], st.bit)
                THEN Soft(Bad, Err("Conversion", LitLabel(l), <<>>))
                ELSE Good(IntVal(l[2]))))
         [] st.k = "float" ->
              Count(Before(chk, IF l[1] /= 3 THEN Soft(Bad, WrongKind(3, l))
                                ELSE Good(<<"f", l[2]>>)))
         [] st.k = "string" ->
              Count(Before(chk, IF l[1] /= 4 THEN Soft(Bad, WrongKind(4, l))
                                ELSE Good(<<"s", l[2]>>)))
         [] st.k = "bool" ->
              Count(Before(chk, IF l[1] /= 1 THEN Soft(Bad, WrongKind(1, l))
                                ELSE Good(LitVal(l))))
         [] st.k = "enum" ->
              Count(Before(chk,
                IF l[1] /= 4 THEN Stop(WrongKind(4, l))
                ELSE LET i == VariantIdx(st.keys, l[2])
                     IN IF i = 0
                        THEN Stop(Err("Conversion", LitLabel(l),
                                      ExpectedKeys(st.keys)))
                        ELSE Good(<<"v", st.names[i]>>)))

(* Types decoded from strings: one is any text, alpha a non-empty text of    *)
(* lower case letters, small a decimal number below 100                     *)
StrParse(fs, s) ==
    CASE fs = "any" -> <<<<"s", s>>>>
      [] fs = "alpha" -> IF s /= <<>> /\ \A i \in 1..Len(s) : s[i] \in 97..122
                         THEN <<<<"s", s>>>> ELSE <<>>
      [] fs = "small" -> IF Len(s) \in 1..2 /\ \A i \in 1..Len(s) : IsDigit(s[i])
                         THEN <<<<"i", 0, StripZeros([i \in 1..Len(s) |->
                                                       s[i] - 48])>>>>
                         ELSE <<>>
StrFail(fs) == CASE fs = "alpha" -> <<"not alpha">>
                 [] fs = "small" -> <<"not small">>
                 [] OTHER -> <<>>

StrMode(fs, opt, v) ==
    LET l == v[2]
        chk == IF v[1] = <<>> THEN <<>> ELSE <<WrongType(v[1], "no type")>>
        r == StrParse(fs, l[2])
    IN Count(Before(chk,
        IF l[1] = 4
        THEN IF r = <<>>
             THEN Stop(Err("Conversion", LitLabel(l), StrFail(fs)))
             ELSE Good(IF opt THEN Some(r[1]) ELSE r[1])
        ELSE IF opt /\ l[1] = 0 THEN Good(None)
        ELSE IF opt THEN Soft(None, WrongKind(4, l))
        ELSE Stop(WrongKind(4, l))))

Utf8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
    ELSE IF c < 65536
    THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
           128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8All(s) == FoldLeft(LAMBDA a, c : a \o Utf8(c), <<>>, s)

B64(c) == IF c \in 65..90 THEN c - 65
          ELSE IF c \in 97..122 THEN c - 71
          ELSE IF c \in 48..57 THEN c + 4
          ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 99
(* The bytes of a base64 text (standard alphabet, canonical padding), or    *)
(* an empty tuple; otherwise a tuple holding the tuple of bytes             *)
Base64(s) ==
    LET pad == IF Len(s) >= 2 /\ s[Len(s)] = 61 /\ s[Len(s) - 1] = 61 THEN 2
               ELSE IF Len(s) >= 1 /\ s[Len(s)] = 61 THEN 1 ELSE 0
        d == [i \in 1..(Len(s) - pad) |-> B64(s[i])]
        at(i) == IF i <= Len(d) THEN d[i] ELSE 0
        quad(q) == LET x == at(4*q + 1) * 262144 + at(4*q + 2) * 4096
                            + at(4*q + 3) * 64 + at(4*q + 4)
                   IN <<x \div 65536, (x \div 256) % 256, x % 256>>
        all == FoldLeft(LAMBDA a, q : a \o quad(q - 1), <<>>,
                        [q \in 1..(Len(s) \div 4) |-> q])
    IN IF \/ Len(s) % 4 /= 0
          \/ \E i \in 1..Len(d) : d[i] = 99
          \/ pad = 1 /\ d[Len(d)] % 4 /= 0
          \/ pad = 2 /\ d[Len(d)] % 16 /= 0
       THEN <<>>
       ELSE <<SubSeq(all, 1, Len(all) - pad)>>

KwBase64 == <<98, 97, 115, 101, 54, 52>>
Bytes(v) ==
    LET l == v[2]
        bs == Base64(l[2])
    IN IF v[1] /= <<>> /\ v[1][1] /= KwBase64
       THEN Soft(<<"y", <<>>>>, WrongType(v[1], KwBase64))
       ELSE IF l[1] /= 4 THEN Soft(<<"y", <<>>>>, WrongKind(4, l))
       ELSE IF v[1] = <<>> THEN Good(<<"y", Utf8All(l[2])>>)
       ELSE IF bs = <<>>
       THEN Soft(<<"y", <<>>>>, Err("Conversion", LitLabel(l), <<>>))
       ELSE Good(<<"y", bs[1]>>)
(* fs is "any", or "even" for a type that takes an even number of bytes     *)
BytesMode(fs, opt, v) ==
    LET r == Bytes(v)
        fails == fs = "even" /\ Len(r.val[2]) % 2 /= 0
        e == Err("Conversion", LitLabel(v[2]), <<"not even">>)
    IN Count(
        IF opt /\ v[2][1] = 0 THEN Good(None)
        ELSE IF fails /\ opt THEN [r EXCEPT !.val = None,
                                            !.errs = Append(@, e)]
        ELSE IF fails THEN [r EXCEPT !.ok = FALSE, !.errs = Append(@, e)]
        ELSE IF opt THEN Map(r, Some) ELSE r)

(* The value v in the field f                                               *)
Value(f, v, cx) == CASE f.dec = "n" -> Scalar(f.st, v, cx)
                     [] f.dec = "s" -> StrMode(f.fs, f.opt, v)
                     [] f.dec = "b" -> BytesMode(f.fs, f.opt, v)

----------------------------------------------------------------------------
(* Nodes                                                                    *)

NameLabel(n) == {<<n[2][2], n[2][3]>>}
TextOf(v) == IF v[2][1] = 4 THEN v[2][2] ELSE <<>>
NodeLabel(n) == {<<n[6], n[7]>>}
Kids(n) == IF n[5] = <<>> THEN <<>> ELSE n[5][1]

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] /= b[1] THEN a[1] < b[1]
                 ELSE LexLess(Tail(a), Tail(b))
ByName(ps) == SortSeq(ps, LAMBDA x, y : LexLess(x[1], y[1]))
KeyLabel(p) == {p[2][i] : i \in 1..Len(p[2])}

UnexpectedProp(p) == Err("Unexpected", KeyLabel(p), <<"property", p[1]>>)
UnexpectedArg(v) == Err("Unexpected", LitLabel(v[2]), <<"argument">>)
UnexpectedNode(c) == Err("Unexpected", NodeLabel(c), <<"node", c[2][1]>>)
UnexpectedType(n) == Err("Unexpected", TypeLabel(n[1]), <<"type name">>)
Duplicate(c) == Err("Unexpected", NameLabel(c), <<"duplicate", c[2][1]>>)

(* The errors of a node that has to be bare                                 *)
NotBare(n) ==
    LET ps == ByName(n[4])
    IN (IF n[1] = <<>> THEN <<>> ELSE <<UnexpectedType(n)>>)
       \o [i \in 1..Len(n[3]) |-> UnexpectedArg(n[3][i])]
       \o [i \in 1..Len(ps) |-> UnexpectedProp(ps[i])]
       \o [i \in 1..Len(Kids(n)) |-> UnexpectedNode(Kids(n)[i])]

Indices(fs, modes) == SelectSeq([i \in 1..Len(fs) |-> i],
                                LAMBDA i : fs[i].m \in modes)
RECURSIVE Elements(_)
Sum(xs) == FoldLeft(LAMBDA a, x : a + x, 0, xs)
(* The number of nodes, arguments and properties                            *)
Elements(ns) == Sum([i \in 1..Len(ns) |-> 1 + Len(ns[i][3]) + Len(ns[i][4])
                                          + Elements(Kids(ns[i]))])

(* The text of the first argument                                           *)
NodeText(n) == IF n[3] = <<>> THEN <<>> ELSE TextOf(n[3][1])

PropModes == {"prop", "flatp", "flatcp"}
ChildModes == {"child", "flag", "children", "flatc", "flatcp"}
FlatModes == {"flatp", "flatc", "flatcp"}

(* acc: the fields decoded so far (v), the errors, whether to go on         *)
Merge(acc, r) == [acc EXCEPT !.ok = r.ok, !.errs = @ \o r.errs,
                             !.n = @ + r.n]
Put(acc, i, r) == [Merge(acc, r) EXCEPT !.v[i] = IF r.ok THEN r.val ELSE @]
Push(acc, i, r) == [Merge(acc, r) EXCEPT !.v[i] = IF r.ok THEN Append(@, r.val)
                                                  ELSE @]

Each(acc, F(_, _), xs) == FoldLeft(LAMBDA a, x : IF a.ok THEN F(a, x) ELSE a,
                                   acc, xs)

RECURSIVE DecodeNode(_, _, _)
RECURSIVE Fields(_, _, _, _)
RECURSIVE TryProp(_, _, _, _, _)
RECURSIVE TryChild(_, _, _, _, _)
RECURSIVE InsertProp(_, _, _, _)
RECURSIVE InsertChild(_, _, _, _)
RECURSIVE PartialOf(_)

(* The structure behind Box, Rc, Arc                                        *)
PartialOf(t) == IF Types[t].k = "box" THEN PartialOf(Types[t].t) ELSE Types[t]

(* The default of a flattened structure, with the mark "d" on children that *)
(* have not been seen, and the structure without those marks                *)
RECURSIVE Marked(_, _)
Marked(t, v) ==
    LET fs == PartialOf(t).fs
    IN IF PartialOf(t).k = "part" THEN v ELSE <<"t">> \o [i \in 1..Len(fs) |->
                     IF fs[i].m \in {"child", "flag", "children"}
                     THEN <<"d", v[i + 1]>>
                     ELSE IF fs[i].m \in FlatModes
                     THEN Marked(fs[i].t, v[i + 1]) ELSE v[i + 1]]
RECURSIVE Unmarked(_, _)
Unmarked(t, v) ==
    LET fs == PartialOf(t).fs
    IN IF PartialOf(t).k = "part" THEN v ELSE <<"t">> \o [i \in 1..Len(fs) |->
                     IF v[i + 1][1] = "d" THEN v[i + 1][2]
                     ELSE IF fs[i].m \in FlatModes
                     THEN Unmarked(fs[i].t, v[i + 1]) ELSE v[i + 1]]
Unseen(v) == v[1] = "d"

FieldNode(f, n, cx) ==
    IF f.uw = <<>> THEN DecodeNode(f.t, n, cx)
    ELSE Count(Map(Fields(<<f.uw[1]>>, n, cx, FALSE), LAMBDA v : v[1]))

InitialOf(f) == CASE f.m = "flag" -> <<"b", 0>>
                   [] f.m \in FlatModes -> Marked(f.t, PartialOf(f.t).dflt)
                   [] f.m = "extra" -> f.def[1]
                   [] OTHER -> <<>>

Special(fs, n, cx, acc0) ==
    LET span(acc, i) == [acc EXCEPT !.v[i] = <<"span", n[6], n[7]>>
                                             \o (IF fs[i].fs = "ctx"
                                                 THEN <<CtxVal(cx, 1)>>
                                                 ELSE <<>>)]
        parse(acc, i, t, wrap) ==
            LET r == StrParse(fs[i].fs, t[1])
            IN Put(acc, i, IF r = <<>>
                           THEN Stop(Err("Conversion", {<<t[2], t[3]>>},
                                         StrFail(fs[i].fs)))
                           ELSE Good(IF wrap THEN Some(r[1]) ELSE r[1]))
        nname(acc, i) == parse(acc, i, n[2], FALSE)
        tname(acc, i) ==
            IF n[1] /= <<>> THEN parse(acc, i, n[1], fs[i].opt)
            ELSE IF fs[i].opt THEN Put(acc, i, Good(None))
            ELSE Put(acc, i, Stop(Err("Missing", NameLabel(n) \cup NodeLabel(n),
                                      <<"type name">>)))
        a1 == Each(acc0, span, Indices(fs, {"span"}))
        a2 == Each(a1, nname, Indices(fs, {"nname"}))
        a3 == Each(a2, tname, Indices(fs, {"tname"}))
    IN IF a3.ok /\ n[1] /= <<>> /\ Indices(fs, {"tname"}) = <<>>
       THEN [a3 EXCEPT !.errs = Append(@, UnexpectedType(n))] ELSE a3

Missing(n, words) == Err("Missing", NameLabel(n) \cup NodeLabel(n), words)
Absent(f, e) == IF f.def /= <<>> THEN Good(f.def[1])
                ELSE IF f.opt THEN Good(None) ELSE Stop(e)

Arguments(fs, n, cx, acc0) ==
    LET as == Indices(fs, {"arg"})
        rest == Indices(fs, {"args"})
        one(acc, j) ==
            Put(acc, as[j],
                IF j <= Len(n[3]) THEN Value(fs[as[j]], n[3][j], cx)
                ELSE Absent(fs[as[j]], Missing(n, <<"argument">>
                                                  \o fs[as[j]].label)))
        more(acc, j) == Push(acc, rest[1], Value(fs[rest[1]], n[3][j], cx))
        a1 == Each(acc0, one, [j \in 1..Len(as) |-> j])
        over == [j \in 1..(Len(n[3]) - Len(as)) |-> j + Len(as)]
    IN IF ~a1.ok THEN a1
       ELSE IF rest /= <<>> THEN Each(a1, more, over)
       ELSE IF Len(n[3]) > Len(as)
       THEN Merge(a1, Stop(UnexpectedArg(n[3][Len(as) + 1])))
       ELSE a1

(* the property p for the first of the fields idx that takes it             *)
TryProp(fs, idx, acc, p, cx) ==
    IF idx = <<>>
    THEN LET rest == Indices(fs, {"props"})
             k == StrParse(fs[rest[1]].kfs, p[1])
         IN IF rest = <<>> THEN Merge(acc, Stop(UnexpectedProp(p)))
            ELSE IF k = <<>>
            THEN Merge(acc, Stop(Err("Conversion", KeyLabel(p),
                                     StrFail(fs[rest[1]].kfs))))
            ELSE Push(acc, rest[1], Map(Value(fs[rest[1]], p[3], cx),
                                        LAMBDA v : <<k[1], v>>))
    ELSE LET i == idx[1]
             f == fs[i]
         IN IF f.m = "prop"
            THEN IF f.key = p[1]
                 THEN Put(acc, i, Map(Value(f, p[3], cx), LAMBDA v : <<v>>))
                 ELSE TryProp(fs, Tail(idx), acc, p, cx)
            ELSE LET r == InsertProp(PartialOf(f.t), acc.v[i], p, cx)
                 IN IF r.hit THEN Put(acc, i, r.res)
                    ELSE TryProp(fs, Tail(idx), Merge(acc, r.res), p, cx)

(* What a partially filled structure does with an element: takes it or not, *)
(* either way with errors; one that stops decoding counts as taking it      *)
Miss == [hit |-> FALSE, res |-> Good(<<>>)]
Hit(r) == [hit |-> TRUE, res |-> r]
After(a, b) == [b EXCEPT !.res = Before(a.res.errs, @)]
(* A hand-written one takes elements whose names start with its letter,     *)
(* treating the text prog as a program, and complains about others that     *)
(* start with e                                                             *)
Part(ty, sv, i, name, lab, prog, cnt) ==
    IF name = <<>> \/ name[1] \notin {ty.letter, 101} THEN Miss
    ELSE IF name[1] = 101
    THEN [Miss EXCEPT !.res = Soft(<<>>, Err("Custom", {}, <<"probe e">>))]
    ELSE Hit([Probe(prog, lab, [sv EXCEPT ![i] = Append(@, <<"s", name>>)])
                EXCEPT !.n = cnt])
(* p into the partially filled structure sv of type ty                      *)
InsertProp(ty, sv, p, cx) ==
    LET fs == ty.fs
        try(a, i) ==
            IF a.hit THEN a
            ELSE IF fs[i].m = "prop"
            THEN IF fs[i].key = p[1]
                 THEN After(a, Hit(Map(Value(fs[i], p[3], cx),
                                       LAMBDA v : [sv EXCEPT ![i + 1] = v])))
                 ELSE a
            ELSE LET r == InsertProp(PartialOf(fs[i].t), sv[i + 1], p, cx)
                 IN IF r.hit
                    THEN After(a, Hit(Map(r.res,
                                          LAMBDA v : [sv EXCEPT ![i + 1] = v])))
                    ELSE After(a, r)
    IN IF ty.k = "part"
       THEN Part(ty, sv, 2, p[1], LitLabel(p[3][2]), TextOf(p[3]), 1)
       ELSE FoldLeft(try, Miss, Indices(fs, PropModes))

Properties(fs, n, cx, acc0) ==
    LET idx == Indices(fs, PropModes)
        one(acc, p) == TryProp(fs, idx, acc, p, cx)
        done(acc, i) ==
            IF acc.v[i] /= <<>> THEN [acc EXCEPT !.v[i] = @[1]]
            ELSE Put(acc, i, Absent(fs[i], Missing(n, <<"property",
                                                        fs[i].key>>)))
    IN Each(Each(acc0, one, ByName(n[4])), done, Indices(fs, {"prop"}))

TryChild(fs, idx, acc, c, cx) ==
    IF idx = <<>>
    THEN LET rest == Indices(fs, {"rest"})
         IN IF rest = <<>>
            THEN [acc EXCEPT !.errs = Append(@, UnexpectedNode(c))]
            ELSE Push(acc, rest[1], FieldNode(fs[rest[1]], c, cx))
    ELSE LET i == idx[1]
             f == fs[i]
         IN IF f.m \in FlatModes
            THEN LET r == InsertChild(PartialOf(f.t), acc.v[i], c, cx)
                 IN IF r.hit THEN Put(acc, i, r.res)
                    ELSE TryChild(fs, Tail(idx), Merge(acc, r.res), c, cx)
            ELSE IF f.key /= c[2][1] THEN TryChild(fs, Tail(idx), acc, c, cx)
            ELSE CASE f.m = "flag" ->
                        Put(acc, i, Count(Before(
                            NotBare(c) \o (IF acc.v[i] = <<"b", 1>>
                                           THEN <<Duplicate(c)>> ELSE <<>>),
                            Good(<<"b", 1>>))))
                   [] f.m = "children" -> Push(acc, i, FieldNode(f, c, cx))
                   [] f.m = "child" ->
                        IF acc.v[i] /= <<>>
                        THEN Merge(acc, Stop(Duplicate(c)))
                        ELSE Put(acc, i, Map(FieldNode(f, c, cx),
                                             LAMBDA v : <<v>>))

InsertChild(ty, sv, c, cx) ==
    LET fs == ty.fs
        set(i, r) == Hit(Map(r, LAMBDA v : [sv EXCEPT ![i + 1] = v]))
        try(a, i) ==
            IF a.hit THEN a
            ELSE IF fs[i].m \in FlatModes
            THEN LET r == InsertChild(PartialOf(fs[i].t), sv[i + 1], c, cx)
                 IN After(a, IF r.hit THEN set(i, r.res) ELSE r)
            ELSE IF fs[i].key /= c[2][1] THEN a
            ELSE After(a, CASE fs[i].m = "flag" ->
                        set(i, Count(Before(
                            NotBare(c) \o (IF sv[i + 1] = <<"b", 1>>
                                           THEN <<Duplicate(c)>> ELSE <<>>),
                            Good(<<"b", 1>>))))
                   [] fs[i].m = "children" ->
                        set(i, Map(FieldNode(fs[i], c, cx),
                                   LAMBDA v : IF Unseen(sv[i + 1])
                                              THEN Some(<<"l", v>>)
                                              ELSE Some(Append(sv[i + 1][2], v))))
                   [] fs[i].m = "child" ->
                        set(i, Before(IF Unseen(sv[i + 1]) THEN <<>>
                                      ELSE <<Duplicate(c)>>,
                                      Map(FieldNode(fs[i], c, cx), Some))))
    IN IF ty.k = "part"
       THEN Part(ty, sv, 3, c[2][1], NameLabel(c), NodeText(c), Elements(<<c>>))
       ELSE FoldLeft(try, Miss, Indices(fs, ChildModes))

MissingChild(f, n, root) ==
    IF root THEN Err("MissingNode", {}, <<"child", f.key>>)
    ELSE Missing(n, <<"child", f.key>>)

Children(fs, n, cx, root, acc0) ==
    LET idx == Indices(fs, ChildModes)
        one(acc, c) == TryChild(fs, idx, acc, c, cx)
        done(acc, i) ==
            LET f == fs[i]
                v == acc.v[i]
            IN IF f.m = "children"
               THEN IF v = <<>> /\ (f.def /= <<>> \/ f.opt)
                    THEN Put(acc, i, Absent(f, <<>>))
                    ELSE [acc EXCEPT !.v[i] = IF f.opt THEN Some(<<"l">> \o v)
                                              ELSE <<"l">> \o v]
               ELSE IF v = <<>> THEN Put(acc, i, Absent(f, MissingChild(f, n, root)))
               ELSE [acc EXCEPT !.v[i] = IF f.opt THEN Some(v[1]) ELSE v[1]]
    IN Each(Each(acc0, one, Kids(n)), done, Indices(fs, {"child", "children"}))

Listed(fs, acc) ==
    [i \in 1..Len(fs) |->
        CASE fs[i].m \in {"args", "rest"} -> <<"l">> \o acc.v[i]
          [] fs[i].m = "props" -> <<"m">> \o acc.v[i]
          [] fs[i].m \in FlatModes -> Unmarked(fs[i].t, acc.v[i])
          [] OTHER -> acc.v[i]]

(* The values of the fields fs decoded from the node n; root tells that n   *)
(* stands for a whole document                                              *)
Fields(fs, n, cx, root) ==
    LET a0 == [ok |-> TRUE, errs |-> <<>>, n |-> 0,
               v |-> [i \in 1..Len(fs) |-> InitialOf(fs[i])]]
        a1 == IF root THEN a0 ELSE Special(fs, n, cx, a0)
        a2 == IF a1.ok /\ ~root THEN Arguments(fs, n, cx, a1) ELSE a1
        a3 == IF a2.ok /\ ~root THEN Properties(fs, n, cx, a2) ELSE a2
        a4 == IF a3.ok THEN Children(fs, n, cx, root, a3) ELSE a3
    IN [ok |-> a4.ok, errs |-> a4.errs, n |-> a4.n,
        val |-> IF a4.ok THEN Listed(fs, a4) ELSE <<>>]

Empty(n) == n[1] = <<>> /\ n[3] = <<>> /\ n[4] = <<>> /\ n[5] = <<>>

DecodeNode(t, n, cx) ==
    LET ty == Types[t]
    IN CASE ty.k = "box" -> DecodeNode(ty.t, n, cx)
         [] ty.k = "pnode" ->
              [Probe(NodeText(n), NameLabel(n),
                     <<"t", <<"s", n[2][1]>>, <<"s", NodeText(n)>>>>)
                 EXCEPT !.n = Elements(<<n>>)]
         [] ty.k = "struct" ->
              Count(Map(Fields(ty.fs, n, cx, FALSE), LAMBDA v : <<"t">> \o v))
         [] ty.k = "new" ->
              IF ~ty.opt THEN Map(DecodeNode(ty.t, n, cx), LAMBDA v : <<"t", v>>)
              ELSE IF Empty(n) THEN Count(Good(<<"t", None>>))
              ELSE Map(DecodeNode(ty.t, n, cx), LAMBDA v : <<"t", Some(v)>>)
         [] ty.k = "enum" ->
              LET i == VariantIdx(ty.keys, n[2][1])
                  w == ty.vs[i]
              IN IF i = 0
                 THEN Stop(Err("Conversion", NameLabel(n),
                               ExpectedKeys(ty.keys)))
                 ELSE CASE w.k = "unit" ->
                             Count(Before(NotBare(n), Good(<<"v", w.name>>)))
                        [] w.k = "nested" ->
                             Map(DecodeNode(w.t, n, cx),
                                 LAMBDA v : <<"v", w.name, v>>)
                        [] w.k = "nestopt" ->
                             IF Empty(n) THEN Count(Good(<<"v", w.name, None>>))
                             ELSE Map(DecodeNode(w.t, n, cx),
                                      LAMBDA v : <<"v", w.name, Some(v)>>)
                        [] w.k = "tuple" ->
                             Count(Map(Fields(w.fs, n, cx, FALSE),
                                       LAMBDA v : <<"v", w.name>> \o v))

(* A document: a list of nodes, or the children of the root structure       *)
DocNode(ns) == <<<<>>, <<<<>>, 0, 0>>, <<>>, <<>>, <<ns, 0, 0>>, 0, 0>>
DecodeList(t, ns, cx) ==
    FoldLeft(LAMBDA a, n :
                LET r == DecodeNode(t, n, cx)
                IN [a EXCEPT !.errs = @ \o r.errs, !.n = @ + r.n,
                             !.val = IF r.ok THEN Append(@, r.val) ELSE @],
             Good(<<"l">>), ns)
(* A hand-written decoder of documents runs the program of every node       *)
ProbeRoot(ns, cx) ==
    FoldLeft(LAMBDA a, n :
                LET r == ProbeAfter(a.errs, NodeText(n), NameLabel(n), a.val)
                IN IF ~a.ok THEN a
                   ELSE [r EXCEPT !.n = a.n + Elements(<<n>>),
                                  !.val = Append(a.val, <<"s", n[2][1]>>)],
             Before(CtxErrs(cx), Good(<<"l">>)), ns)
RECURSIVE DecodeDoc(_, _, _, _)
DecodeDoc(form, t, ns, cx) ==
    CASE form = "list" -> DecodeList(t, ns, cx)
      [] form = "root" ->
           IF Types[t].k = "box" THEN DecodeDoc(form, Types[t].t, ns, cx)
           ELSE IF Types[t].k = "proot" THEN ProbeRoot(ns, cx)
           ELSE Map(Fields(Types[t].fs, DocNode(ns), cx, TRUE),
                    LAMBDA v : <<"t">> \o v)

(* Errors reported before decoding starts come first                        *)
DecodeAll(form, t, ns, cx) ==
    LET r == DecodeDoc(form, t, ns, cx)
    IN IF PartialOf(t).k = "proot" THEN r ELSE Before(CtxErrs(cx), r)

Accepted(r) == r.ok /\ r.errs = <<>>

----------------------------------------------------------------------------
(* Properties of decoding, checked by TLC for every document visited        *)

(* C19: what is accepted has been consumed completely; what is not has an   *)
(* error                                                                    *)
LosslessThm(r, ns) == Accepted(r) => r.n = Elements(ns)
FailThm(r) == ~r.ok => r.errs /= <<>>
LabelThm(s, r) == \A i \in 1..Len(r.errs) :
                    /\ \A x \in r.errs[i][2] : x[1] < x[2] /\ x[2] <= Len(s)
                    /\ (r.errs[i][1] \in {"MissingNode", "Custom"})
                          <=> (r.errs[i][2] = {})
(* C24: a document decoded as a root structure is a node with these children *)
RootThm(t, ns, cx) == PartialOf(t).k /= "proot" =>
    LET a == DecodeDoc("root", t, ns, cx)
        b == DecodeNode(t, DocNode(ns), cx)
    IN /\ Accepted(a) = Accepted(b)
       /\ Accepted(a) => a.val = b.val
(* C24: decoding a list is decoding each of its elements                     *)
ListThm(t, ns, cx) ==
    LET a == DecodeDoc("list", t, ns, cx)
        bs == [i \in 1..Len(ns) |-> DecodeNode(t, ns[i], cx)]
    IN /\ Accepted(a) = (\A i \in 1..Len(bs) : Accepted(bs[i]))
       /\ Accepted(a) => a.val = <<"l">> \o [i \in 1..Len(bs) |-> bs[i].val]

(* C15: the values of a structure with the flattened ones spliced in        *)
RECURSIVE Spliced(_, _)
Spliced(t, v) ==
    LET fs == PartialOf(t).fs
    IN FoldLeft(LAMBDA a, i :
                    IF fs[i].m \in FlatModes
                    THEN a \o Tail(Spliced(fs[i].t, v[i + 1]))
                    ELSE Append(a, v[i + 1]),
                <<"t">>, [i \in 1..Len(fs) |-> i])
(* t has flattened fields, u declares the same fields inline, and the       *)
(* default of the flattened structures is that nothing is there             *)
InlineThm(t, u, ns, cx) ==
    LET a == DecodeList(t, ns, cx)
        b == DecodeList(u, ns, cx)
    IN /\ Accepted(a) = Accepted(b)
       /\ Accepted(a) =>
            b.val = [i \in 1..Len(a.val) |-> IF i = 1 THEN a.val[i]
                                             ELSE Spliced(t, a.val[i])]

(* C14: w has structures of one field wherever t has unwrap                 *)
Stripped(w, v) ==
    LET fs == Types[w].fs
        each(l) == [j \in 1..Len(l) |-> IF j = 1 THEN l[j] ELSE l[j][2]]
        one(f, x) == CASE f.m = "child" /\ f.opt ->
                            IF x = None THEN x ELSE Some(x[2][2])
                       [] f.m = "child" /\ ~f.opt -> x[2]
                       [] f.m = "children" /\ f.opt ->
                            IF x = None THEN x ELSE Some(each(x[2]))
                       [] f.m \in {"rest", "children"} /\ ~f.opt -> each(x)
    IN <<"t">> \o [i \in 1..Len(fs) |-> one(fs[i], v[i + 1])]
WrapThm(form, t, w, ns, cx) ==
    LET a == DecodeDoc(form, t, ns, cx)
        b == DecodeDoc(form, w, ns, cx)
    IN /\ a.errs = b.errs
       /\ Accepted(a) => a.val = IF form = "root" THEN Stripped(w, b.val)
                                 ELSE [i \in 1..Len(b.val) |->
                                         IF i = 1 THEN b.val[i]
                                         ELSE Stripped(w, b.val[i])]
=============================================================================
