-------------------------------- MODULE Kdl --------------------------------
(***************************************************************************)
(* The KDL 1.0 document language as a deterministic pushdown machine that   *)
(* reads one character (Unicode code point) at a time.                      *)
(*                                                                          *)
(* A machine state `m` is a record; Step(m, c) consumes the character c and *)
(* AtEof(m) says what the document read so far means if the input ends      *)
(* here: whether it is well formed, the abstract syntax tree it denotes     *)
(* with the extent of every construct, or which construct is left unclosed. *)
(* The machine enters the absorbing state "dead" exactly at the first       *)
(* character after which no continuation can make the text well formed.     *)
(*                                                                          *)
(* All data in the tree is made of tuples of integers (texts are tuples of  *)
(* code points, extents are pairs of character indices), so that it can be  *)
(* printed as JSON and compared with what the implementation returns.       *)
(* pos[i+1] is <<byte offset, line, column>> of character index i.          *)
(***************************************************************************)
EXTENDS Widths, Integers, Sequences, FiniteSets, SequencesExt, TLC

RECURSIVE Step0(_, _)

----------------------------------------------------------------------------
(* Character classes                                                        *)

WsChars == {9, 32, 160, 5760, 8192, 8193, 8194, 8195, 8196, 8197, 8198,
            8199, 8200, 8201, 8202, 8239, 8287, 12288, 65279}
NlChars == {10, 13, 12, 133, 8232, 8233}
(* \ / ( ) { } < > ; [ ] = , "                                              *)
Punct == {92, 47, 40, 41, 123, 125, 60, 62, 59, 91, 93, 61, 44, 34}

IsWs(c) == c \in WsChars
IsNl(c) == c \in NlChars
IsIdChar(c) == c > 32 /\ c \notin Punct /\ c \notin WsChars /\ c \notin NlChars
IsDigit(c) == c >= 48 /\ c <= 57
IsSign(c) == c = 43 \/ c = 45
IsIdStart(c) == IsIdChar(c) /\ ~IsDigit(c) /\ ~IsSign(c)

HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE 99
IsRadixDigit(c, r) == HexVal(c) < r

KwTrue  == <<116, 114, 117, 101>>
KwFalse == <<102, 97, 108, 115, 101>>
KwNull  == <<110, 117, 108, 108>>
Keywords == {KwTrue, KwFalse, KwNull}
KwPrefixes == UNION {{SubSeq(w, 1, i) : i \in 1..Len(w)} : w \in Keywords}

(* r, r#, r##, ... : may turn out to be the opening of a raw string         *)
IsRawHead(b) == /\ Len(b) >= 1
                /\ b[1] = 114
                /\ \A i \in 2..Len(b) : b[i] = 35

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2
              ELSE IF c < 65536 THEN 3 ELSE 4

(* Position after the character c that was read at position p; cr tells     *)
(* that the previous character was a carriage return.                       *)
NextPos(p, c, cr) ==
    IF c = 10 /\ cr THEN <<p[1] + 1, p[2], p[3]>>
    ELSE IF IsNl(c) THEN <<p[1] + Utf8Len(c), p[2] + 1, 0>>
    ELSE IF c = 9 THEN <<p[1] + 1, p[2], p[3] + 8>>
    ELSE <<p[1] + Utf8Len(c), p[2], p[3] + Width(c)>>

----------------------------------------------------------------------------
(* Numbers: digit sequences (most significant first) without leading zeros  *)

RECURSIVE MulAdd(_, _, _, _)
(* ds * r + carry, little endian, starting from the digit number i          *)
MulAdd(ds, r, carry, i) ==
    IF i > Len(ds)
    THEN IF carry = 0 THEN <<>>
         ELSE <<carry % 10>> \o MulAdd(ds, r, carry \div 10, i)
    ELSE LET v == ds[i] * r + carry
         IN <<v % 10>> \o MulAdd(ds, r, v \div 10, i + 1)

RECURSIVE ToDec(_, _, _, _)
(* decimal digits (little endian) of the number with the digits ds, radix r *)
ToDec(ds, r, acc, i) ==
    IF i > Len(ds) THEN acc
    ELSE ToDec(ds, r, MulAdd(acc, r, ds[i], 1), i + 1)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

RECURSIVE StripZeros(_)
StripZeros(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN StripZeros(Tail(ds)) ELSE ds

DecimalDigits(ds, r) ==
    IF r = 10 THEN StripZeros(ds)
    ELSE LET d == Rev(ToDec(ds, r, <<>>, 1))
         IN IF d = <<>> THEN <<0>> ELSE d

(* Comparison of numbers given by decimal digits without leading zeros      *)
DigitsLeq(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \/ a = b
          \/ \E i \in 1..Len(a) : /\ a[i] < b[i]
                                 /\ \A j \in 1..(i - 1) : a[j] = b[j]

(* The integer types: greatest value, magnitude of the least value          *)
IntTypes == <<
    << <<1,2,7>>, <<1,2,8>> >>,                                   \* i8
    << <<3,2,7,6,7>>, <<3,2,7,6,8>> >>,                           \* i16
    << <<2,1,4,7,4,8,3,6,4,7>>, <<2,1,4,7,4,8,3,6,4,8>> >>,       \* i32
    << <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>,
       <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>> >>,              \* i64
    << <<2,5,5>>, <<>> >>,                                        \* u8
    << <<6,5,5,3,5>>, <<>> >>,                                    \* u16
    << <<4,2,9,4,9,6,7,2,9,5>>, <<>> >>,                          \* u32
    << <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>, <<>> >> >>    \* u64

(* Does the integer written with the sign neg and these digits fit the type  *)
(* number i? A literal with a minus sign never fits an unsigned type.       *)
FitsType(neg, ds, i) ==
    IF neg THEN DigitsLeq(ds, IntTypes[i][2]) ELSE DigitsLeq(ds, IntTypes[i][1])

(* Bit mask of the types that can hold the integer                          *)
FitsMask(neg, ds) ==
    LET b(i) == IF FitsType(neg, ds, i) THEN 2 ^ (i - 1) ELSE 0
    IN b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7) + b(8)

NoUnderscore(s) == SelectSeq(s, LAMBDA c : c /= 95)

(* The literal denoted by a number token.                                   *)
(*   <<2, <<negative, digits, mask>>>>  an integer, the types holding it    *)
(*   <<3, text>>                   a decimal, its text without underscores  *)
NumberLit(b) ==
    LET neg  == b[1] = 45
        u    == IF IsSign(b[1]) THEN SubSeq(b, 2, Len(b)) ELSE b
        rad  == IF Len(u) >= 2 /\ u[1] = 48
                THEN CASE u[2] = 98 -> 2 [] u[2] = 111 -> 8
                       [] u[2] = 120 -> 16 [] OTHER -> 10
                ELSE 10
        body == NoUnderscore(IF rad = 10 THEN u ELSE SubSeq(u, 3, Len(u)))
        isdec == rad = 10 /\ \E i \in 1..Len(body) : body[i] \in {46, 101, 69}
        ds   == DecimalDigits([i \in 1..Len(body) |-> HexVal(body[i])], rad)
    IN IF isdec THEN <<3, NoUnderscore(b)>>
       ELSE <<2, <<IF neg THEN 1 ELSE 0, ds, FitsMask(neg, ds)>> >>

----------------------------------------------------------------------------
(* Machine state                                                            *)

NoNode == [tn |-> <<>>, nm |-> <<>>, args |-> <<>>, props |-> <<>>,
           kids |-> <<>>, s0 |-> 0, sd |-> -1]

Level0 == [nodes |-> <<>>, open |-> NoNode, b0 |-> 0, sdk |-> -1]

Init0 == [st  |-> "nodes",  \* mode
          ctx |-> "",       \* role of the token or comment being read
          ret |-> "",       \* mode to return to after a comment/continuation
          buf |-> <<>>,     \* text of the token being read
          t0  |-> 0,        \* index where that token starts
          n   |-> 0,        \* hashes of a raw string, radix, ...
          k   |-> 0,        \* hashes seen after a quote, \u{} digits, ...
          aux |-> <<>>,     \* openers of the comments we are in
          p0  |-> 0,        \* parenthesis of the type annotation being read
          tn  |-> <<>>,     \* pending type annotation
          pn  |-> <<>>,     \* pending property name
          sdi |-> -1,       \* index of the slashdash of the item being read
          sd0 |-> -1,       \* index of the slashdash whose element is awaited
          e0  |-> 0,        \* index of the backslash of a continuation
          cuts |-> <<>>,    \* extents of the slashdashed elements
          triv |-> <<>>,    \* extents of the comments and continuations
          lv  |-> <<Level0>>,   \* document and the children blocks we are in
          ni  |-> 0,        \* characters read
          pos |-> << <<0, 0, 0>> >>,
          cr  |-> FALSE,
          d0  |-> 0,        \* when dead: start of the offending token
          why |-> "",       \* when dead: the mode in which it happened
          txt |-> <<>>]

Dead(m, d0) == [m EXCEPT !.st = "dead", !.d0 = d0, !.why = m.st]

Depth(m) == Len(m.lv)
Open(m) == m.lv[Len(m.lv)].open

StartNode(m, sd) ==
    [m EXCEPT !.lv[Len(m.lv)].open = [NoNode EXCEPT !.s0 = m.ni, !.sd = sd]]

NodeTuple(o, e) == <<o.tn, o.nm, o.args, o.props, o.kids, o.s0, e>>

(* The node being read ends before the character index e                    *)
FinishNode(m, e) ==
    LET d == Len(m.lv)
        o == m.lv[d].open
    IN [m EXCEPT !.st = "nodes",
                 !.lv[d].open = NoNode,
                 !.cuts = IF o.sd < 0 THEN @ ELSE Append(@, <<o.sd, e>>),
                 !.lv[d].nodes = IF o.sd >= 0 THEN @
                                 ELSE Append(@, NodeTuple(o, e))]

OpenBrace(m, sdk) ==
    [m EXCEPT !.st = "nodes",
              !.lv = Append(@, [Level0 EXCEPT !.b0 = m.ni, !.sdk = sdk])]

CloseBrace(m) ==
    LET d == Len(m.lv)
        top == m.lv[d]
        low == SubSeq(m.lv, 1, d - 1)
    IN [m EXCEPT !.st = "after",
                 !.cuts = IF top.sdk < 0 THEN @
                          ELSE Append(@, <<top.sdk, m.ni + 1>>),
                 !.lv = IF top.sdk >= 0 THEN low
                        ELSE [low EXCEPT ![d - 1].open.kids =
                                 <<top.nodes, top.b0, m.ni + 1>>]]

GotName(m, cps, e) ==
    [m EXCEPT !.st = "nosp", !.lv[Len(m.lv)].open.nm = <<cps, m.t0, e>>]

(* Type annotation: the parenthesis is at m.p0, the closing one is current   *)
GotType(m) ==
    LET t == <<m.buf, m.p0, m.ni + 1>>
    IN CASE m.ctx = "ntype" ->
              [m EXCEPT !.st = "name0", !.lv[Len(m.lv)].open.tn = t]
         [] m.ctx = "itype" ->
              [m EXCEPT !.st = "val0", !.ctx = "ival", !.tn = t]
         [] m.ctx = "ptype" ->
              [m EXCEPT !.st = "val0", !.ctx = "pval", !.tn = t]

(* Properties: one entry <<name, extents of the names written, value>> per  *)
(* name; the value written last stays.                                      *)
PutProp(ps, nm, v) ==
    LET idx == {i \in 1..Len(ps) : ps[i][1] = nm[1]}
    IN IF idx = {} THEN Append(ps, <<nm[1], << <<nm[2], nm[3]>> >>, v>>)
       ELSE LET i == CHOOSE j \in idx : TRUE
            IN [ps EXCEPT ![i] = <<nm[1],
                                   Append(ps[i][2], <<nm[2], nm[3]>>), v>>]

GotValue(m, kind, payload, e) ==
    LET v == <<m.tn, <<kind, payload, m.t0, e>> >>
        d == Len(m.lv)
        mm == [m EXCEPT !.st = "nosp", !.tn = <<>>, !.pn = <<>>,
                        !.sdi = -1]
    IN IF m.sdi >= 0 THEN [mm EXCEPT !.cuts = Append(@, <<m.sdi, e>>)]
       ELSE IF m.ctx \in {"item", "ival"}
       THEN [mm EXCEPT !.lv[d].open.args = Append(@, v)]
       ELSE [mm EXCEPT !.lv[d].open.props = PutProp(@, m.pn, v)]

KwKind(b) == IF b = KwNull THEN 0 ELSE 1
KwPayload(b) == IF b = KwTrue THEN <<1>> ELSE IF b = KwFalse THEN <<0>>
                ELSE <<>>

NameCtx == {"name", "ntype", "itype", "ptype"}
ValueCtx == {"ival", "pval"}

Tok(m, st, ctx, c) == [m EXCEPT !.st = st, !.ctx = ctx, !.t0 = m.ni,
                                !.buf = <<c>>]
StartStr(m, ctx) == [m EXCEPT !.st = "str", !.ctx = ctx, !.t0 = m.ni,
                              !.buf = <<>>]

(* First character of an identifier (bare, quoted or raw)                   *)
StartName(m, c, ctx) ==
    IF c = 34 THEN StartStr(m, ctx)
    ELSE IF IsIdStart(c) THEN Tok(m, "ident", ctx, c)
    ELSE IF IsSign(c) THEN Tok(m, "sign", ctx, c)
    ELSE Dead(m, m.ni)

(* First character of a literal                                             *)
StartValue(m, c, ctx) ==
    IF c = 34 THEN StartStr(m, ctx)
    ELSE IF c \in {114, 116, 102, 110} THEN Tok(m, "ident", ctx, c)
    ELSE IF IsSign(c) THEN Tok(m, "sign", ctx, c)
    ELSE IF IsDigit(c) THEN [Tok(m, "num", ctx, c) EXCEPT
                                !.ret = IF c = 48 THEN "zero" ELSE "int"]
    ELSE Dead(m, m.ni)

(* Type annotations remember the parenthesis in p0                          *)
StartType(m, ctx) == [m EXCEPT !.st = "type0", !.ctx = ctx, !.p0 = m.ni]

(* First character of an argument or a property                             *)
StartItem(m, c, sdi) ==
    LET mm == [m EXCEPT !.sdi = sdi]
    IN IF c = 40 THEN StartType(mm, "itype")
       ELSE IF c = 34 THEN StartStr(mm, "item")
       ELSE IF IsIdStart(c) THEN Tok(mm, "ident", "item", c)
       ELSE StartValue(mm, c, "item")

(* A string or raw string ended before the index e                          *)
StrEnd(m, e) ==
    CASE m.ctx = "name"  -> GotName(m, m.buf, e)
      [] m.ctx \in {"ntype", "itype", "ptype"} -> [m EXCEPT !.st = "type1"]
      [] m.ctx = "item"  -> [m EXCEPT !.st = "propq", !.pn = <<m.buf, m.t0, e>>]
      [] OTHER           -> GotValue(m, 4, m.buf, e)

(* `/` was read; what may follow depends on the place                       *)
StartSlash(m) == [m EXCEPT !.ret = m.st, !.st = "slash", !.t0 = m.ni]

(* node_space, as far as it starts with the character c                     *)
Escape(m, ret) == [m EXCEPT !.st = "escl", !.ret = ret, !.t0 = m.ni,
                                !.e0 = m.ni]

(* The node ends with the newline character c                               *)
NewlineEnd(m, c) ==
    IF c = 13 THEN [m EXCEPT !.st = "crterm"]
    ELSE FinishNode(m, m.ni + 1)

----------------------------------------------------------------------------
(* Modes                                                                    *)

StepNodes(m, c) ==
    IF IsWs(c) \/ IsNl(c) THEN m
    ELSE IF c = 47 THEN StartSlash(m)
    ELSE IF c = 125
    THEN IF Depth(m) > 1 THEN CloseBrace(m) ELSE Dead(m, m.ni)
    ELSE IF c = 40 THEN StartType(StartNode(m, -1), "ntype")
    ELSE StartName(StartNode(m, -1), c, "name")

StepSdNode(m, c) ==
    IF IsWs(c) THEN m
    ELSE IF c = 47 THEN StartSlash(m)
    ELSE IF c = 92 THEN Escape(m, "sdnode")
    ELSE IF c = 40 THEN StartType(StartNode(m, m.sd0), "ntype")
    ELSE StartName(StartNode(m, m.sd0), c, "name")

(* after a name or an item, no space yet: no further item may start here    *)
StepNosp(m, c) ==
    IF IsWs(c) THEN [m EXCEPT !.st = "items"]
    ELSE IF c = 92 THEN Escape(m, "items")
    ELSE IF c = 47 THEN StartSlash(m)
    ELSE IF c = 123 THEN OpenBrace(m, -1)
    ELSE IF IsNl(c) THEN NewlineEnd(m, c)
    ELSE IF c = 59 THEN FinishNode(m, m.ni + 1)
    ELSE Dead(m, m.ni)

StepItems(m, c) ==
    IF IsWs(c) \/ c = 92 \/ c = 47 \/ c = 123 \/ IsNl(c) \/ c = 59
    THEN StepNosp(m, c)
    ELSE StartItem(m, c, -1)

StepSdItem(m, c) ==
    IF IsWs(c) THEN m
    ELSE IF c = 92 THEN Escape(m, "sditem")
    ELSE IF c = 47 THEN StartSlash(m)
    ELSE IF c = 123 THEN OpenBrace(m, m.sd0)
    ELSE StartItem(m, c, m.sd0)

StepSdKids(m, c) ==
    IF IsWs(c) THEN m
    ELSE IF c = 92 THEN Escape(m, "sdkids")
    ELSE IF c = 47 THEN StartSlash(m)
    ELSE IF c = 123 THEN OpenBrace(m, m.sd0)
    ELSE Dead(m, m.ni)

StepAfter(m, c) ==
    IF IsWs(c) THEN m
    ELSE IF c = 92 THEN Escape(m, "after")
    ELSE IF c = 47 THEN StartSlash(m)
    ELSE IF IsNl(c) THEN NewlineEnd(m, c)
    ELSE IF c = 59 THEN FinishNode(m, m.ni + 1)
    ELSE Dead(m, m.ni)

(* After `/`, m.ret is the mode where it was met                            *)
StepSlash(m, c) ==
    IF c = 42
    THEN [m EXCEPT !.st = "mlc", !.buf = <<>>, !.aux = <<m.t0>>,
                   !.ret = IF m.ret = "nosp" THEN "items" ELSE m.ret]
    ELSE IF c = 47
    THEN CASE m.ret = "nodes" -> [m EXCEPT !.st = "slc", !.ctx = "nodes"]
           [] m.ret \in {"nosp", "items", "after"} ->
                [m EXCEPT !.st = "slc", !.ctx = "term"]
           [] m.ret = "escl" ->
                [m EXCEPT !.st = "slc", !.ctx = "escl", !.ret = m.ctx]
           [] OTHER -> Dead(m, m.t0)
    ELSE IF c = 45
    THEN CASE m.ret = "nodes" -> [m EXCEPT !.st = "sdnode", !.sd0 = m.t0]
           [] m.ret = "nosp"  -> [m EXCEPT !.st = "sdkids", !.sd0 = m.t0]
           [] m.ret = "items" -> [m EXCEPT !.st = "sditem", !.sd0 = m.t0]
           [] OTHER -> Dead(m, m.t0)
    ELSE Dead(m, m.t0)

(* Nestable comment; buf holds a character that may combine with the next   *)
StepMlc(m, c) ==
    IF m.buf = <<42>> /\ c = 47
    THEN LET a == SubSeq(m.aux, 1, Len(m.aux) - 1)
         IN IF a = <<>>
            THEN IF m.ret = "escl"
                 THEN [m EXCEPT !.st = "escl", !.ret = m.ctx, !.aux = <<>>]
                 ELSE [m EXCEPT !.st = m.ret, !.aux = <<>>,
                                !.triv = Append(@, <<m.aux[1], m.ni + 1>>)]
            ELSE [m EXCEPT !.aux = a, !.buf = <<>>]
    ELSE IF m.buf = <<47>> /\ c = 42
    THEN [m EXCEPT !.aux = Append(@, m.ni - 1), !.buf = <<>>]
    ELSE IF c = 42 \/ c = 47 THEN [m EXCEPT !.buf = <<c>>]
    ELSE [m EXCEPT !.buf = <<>>]

(* The continuation ended before the character index e                      *)
EsclEnd(m, e) == [m EXCEPT !.st = m.ret, !.triv = Append(@, <<m.e0, e>>)]

StepSlc(m, c) ==
    IF ~IsNl(c) THEN m
    ELSE LET q == [m EXCEPT !.triv = Append(@, <<m.t0, m.ni>>)]
         IN CASE m.ctx = "nodes" -> [q EXCEPT !.st = "nodes"]
              [] m.ctx = "term"  -> NewlineEnd(q, c)
              [] m.ctx = "escl"  -> IF c = 13 THEN [m EXCEPT !.st = "crret"]
                                    ELSE EsclEnd(m, m.ni + 1)

(* Line continuation: `\`, space and comments, then a newline.              *)
(* While a `/` or a comment inside is being read, ctx keeps our ret.        *)
StepEscl(m, c) ==
    IF IsWs(c) THEN m
    ELSE IF c = 13 THEN [m EXCEPT !.st = "crret"]
    ELSE IF IsNl(c) THEN EsclEnd(m, m.ni + 1)
    ELSE IF c = 47 THEN [m EXCEPT !.st = "slash", !.ctx = m.ret,
                                  !.ret = "escl", !.t0 = m.ni]
    ELSE Dead(m, m.e0)

StepIdent(m, c) ==
    LET b == m.buf
    IN IF IsIdChar(c)
       THEN IF m.ctx \in ValueCtx
               /\ Append(b, c) \notin KwPrefixes
               /\ ~IsRawHead(Append(b, c))
            THEN Dead(m, m.t0)
            ELSE [m EXCEPT !.buf = Append(@, c)]
       ELSE IF c = 34 /\ IsRawHead(b)
       THEN [m EXCEPT !.st = "raw", !.n = Len(b) - 1, !.buf = <<>>]
       ELSE IF m.ctx = "name"
       THEN IF b \in Keywords THEN Dead(m, m.t0)
            ELSE Step0(GotName(m, b, m.ni), c)
       ELSE IF m.ctx \in NameCtx
       THEN IF c = 41 /\ b \notin Keywords THEN GotType(m)
            ELSE Dead(m, m.t0)
       ELSE IF m.ctx = "item"
       THEN IF c = 61 /\ b \notin Keywords
            THEN [m EXCEPT !.st = "pval0", !.pn = <<b, m.t0, m.ni>>]
            ELSE IF b \in Keywords /\ c /= 61
            THEN Step0(GotValue(m, KwKind(b), KwPayload(b), m.ni), c)
            ELSE Dead(m, m.t0)
       ELSE IF b \in Keywords
       THEN Step0(GotValue(m, KwKind(b), KwPayload(b), m.ni), c)
       ELSE Dead(m, m.t0)

StepSign(m, c) ==
    IF IsDigit(c)
    THEN IF m.ctx \in NameCtx THEN Dead(m, m.t0)
         ELSE [m EXCEPT !.st = "num", !.buf = Append(@, c),
                        !.ret = IF c = 48 THEN "zero" ELSE "int"]
    ELSE IF m.ctx \in ValueCtx THEN Dead(m, m.t0)
    ELSE IF IsIdChar(c)
    THEN [m EXCEPT !.st = "ident", !.buf = Append(@, c)]
    ELSE StepIdent(m, c)

NumGo(m, c, r) == [m EXCEPT !.buf = Append(@, c), !.ret = r]
NumEnd(m) == LET l == NumberLit(m.buf) IN GotValue(m, l[1], l[2], m.ni)

NumAccepting == {"zero", "int", "frac", "expd", "rad"}

StepNum(m, c) ==
    LET r == m.ret
        dig == IsDigit(c)
        und == c = 95
        isE == c = 101 \/ c = 69
        done == LET q == NumEnd(m) IN
                IF c = 61 THEN Dead(m, m.t0) ELSE Step0(q, c)
    IN CASE r = "zero" -> IF dig \/ und THEN NumGo(m, c, "int")
                          ELSE IF c = 46 THEN NumGo(m, c, "dot")
                          ELSE IF isE THEN NumGo(m, c, "exp")
                          ELSE IF c = 98 THEN [NumGo(m, c, "rad0") EXCEPT !.n = 2]
                          ELSE IF c = 111 THEN [NumGo(m, c, "rad0") EXCEPT !.n = 8]
                          ELSE IF c = 120 THEN [NumGo(m, c, "rad0") EXCEPT !.n = 16]
                          ELSE done
         [] r = "int"  -> IF dig \/ und THEN NumGo(m, c, "int")
                          ELSE IF c = 46 THEN NumGo(m, c, "dot")
                          ELSE IF isE THEN NumGo(m, c, "exp")
                          ELSE done
         [] r = "dot"  -> IF dig THEN NumGo(m, c, "frac") ELSE Dead(m, m.t0)
         [] r = "frac" -> IF dig \/ und THEN NumGo(m, c, "frac")
                          ELSE IF isE THEN NumGo(m, c, "exp")
                          ELSE done
         [] r = "exp"  -> IF dig THEN NumGo(m, c, "expd")
                          ELSE IF IsSign(c) THEN NumGo(m, c, "expsign")
                          ELSE Dead(m, m.t0)
         [] r = "expsign" -> IF dig THEN NumGo(m, c, "expd")
                             ELSE Dead(m, m.t0)
         [] r = "expd" -> IF dig \/ und THEN NumGo(m, c, "expd") ELSE done
         [] r = "rad0" -> IF IsRadixDigit(c, m.n) THEN NumGo(m, c, "rad")
                          ELSE Dead(m, m.t0)
         [] r = "rad"  -> IF IsRadixDigit(c, m.n) \/ und
                          THEN NumGo(m, c, "rad") ELSE done

StepStr(m, c) ==
    IF c = 34 THEN StrEnd(m, m.ni + 1)
    ELSE IF c = 92 THEN [m EXCEPT !.st = "esc"]
    ELSE [m EXCEPT !.buf = Append(@, c)]

EscOut(c) == CASE c \in {34, 92, 47} -> c
               [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
               [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1

StepEsc(m, c) ==
    IF c = 117 THEN [m EXCEPT !.st = "escu0"]
    ELSE IF EscOut(c) >= 0
    THEN [m EXCEPT !.st = "str", !.buf = Append(@, EscOut(c))]
    ELSE Dead(m, m.t0)

IsScalarValue(v) == v < 55296 \/ (v > 57343 /\ v <= 1114111)

(* k = number of digits, n = value so far                                   *)
StepEscU(m, c) ==
    IF IsRadixDigit(c, 16)
    THEN IF \/ m.k >= 6
            \/ m.n * 16 + HexVal(c) > 1114111
            \/ m.k = 5 /\ ~IsScalarValue(m.n * 16 + HexVal(c))
         THEN Dead(m, m.t0)
         ELSE [m EXCEPT !.k = @ + 1, !.n = @ * 16 + HexVal(c)]
    ELSE IF c = 125 /\ m.k >= 1 /\ IsScalarValue(m.n)
    THEN [m EXCEPT !.st = "str", !.buf = Append(@, m.n)]
    ELSE Dead(m, m.t0)

StepRaw(m, c) ==
    IF c = 34
    THEN IF m.n = 0 THEN StrEnd(m, m.ni + 1)
         ELSE [m EXCEPT !.st = "rawq", !.k = 0]
    ELSE [m EXCEPT !.buf = Append(@, c)]

Hashes(n) == [i \in 1..n |-> 35]

(* after a quote and k hashes inside of a raw string                        *)
StepRawQ(m, c) ==
    IF c = 35
    THEN IF m.k + 1 = m.n THEN StrEnd(m, m.ni + 1)
         ELSE [m EXCEPT !.k = @ + 1]
    ELSE LET mm == [m EXCEPT !.st = "raw",
                             !.buf = @ \o <<34>> \o Hashes(m.k)]
         IN StepRaw(mm, c)

Step0(m, c) ==
    CASE m.st = "nodes"  -> StepNodes(m, c)
      [] m.st = "sdnode" -> StepSdNode(m, c)
      [] m.st = "nosp"   -> StepNosp(m, c)
      [] m.st = "items"  -> StepItems(m, c)
      [] m.st = "sditem" -> StepSdItem(m, c)
      [] m.st = "sdkids" -> StepSdKids(m, c)
      [] m.st = "after"  -> StepAfter(m, c)
      [] m.st = "slash"  -> StepSlash(m, c)
      [] m.st = "mlc"    -> StepMlc(m, c)
      [] m.st = "slc"    -> StepSlc(m, c)
      [] m.st = "escl"   -> StepEscl(m, c)
      [] m.st = "crterm" -> IF c = 10 THEN FinishNode(m, m.ni + 1)
                            ELSE Step0(FinishNode(m, m.ni), c)
      [] m.st = "crret"  -> IF c = 10 THEN EsclEnd(m, m.ni + 1)
                            ELSE Step0(EsclEnd(m, m.ni), c)
      [] m.st = "type0"  -> StartName(m, c, m.ctx)
      [] m.st = "type1"  -> IF c = 41 THEN GotType(m) ELSE Dead(m, m.ni)
      [] m.st = "name0"  -> StartName(m, c, "name")
      [] m.st = "val0"   -> StartValue(m, c, m.ctx)
      [] m.st = "pval0"  -> IF c = 40 THEN StartType(m, "ptype")
                            ELSE StartValue(m, c, "pval")
      [] m.st = "propq"  -> IF c = 61 THEN [m EXCEPT !.st = "pval0"]
                            ELSE Step0(GotValue([m EXCEPT !.pn = <<>>],
                                                4, m.pn[1], m.pn[3]), c)
      [] m.st = "ident"  -> StepIdent(m, c)
      [] m.st = "sign"   -> StepSign(m, c)
      [] m.st = "num"    -> StepNum(m, c)
      [] m.st = "str"    -> StepStr(m, c)
      [] m.st = "esc"    -> StepEsc(m, c)
      [] m.st = "escu0"  -> IF c = 123 THEN [m EXCEPT !.st = "escu",
                                                      !.k = 0, !.n = 0]
                            ELSE Dead(m, m.t0)
      [] m.st = "escu"   -> StepEscU(m, c)
      [] m.st = "raw"    -> StepRaw(m, c)
      [] m.st = "rawq"   -> StepRawQ(m, c)
      [] m.st = "dead"   -> m

(* One character. In the dead state ni stays at the offending character.    *)
Step(m, c) ==
    IF m.st = "dead" THEN [m EXCEPT !.txt = Append(@, c),
                              !.pos = Append(@, NextPos(@[Len(@)], c, m.cr)),
                              !.cr = c = 13]
    ELSE LET q == Step0(m, c)
         IN [q EXCEPT !.txt = Append(@, c),
                      !.pos = Append(@, NextPos(@[Len(@)], c, m.cr)),
                      !.cr = c = 13,
                      !.ni = IF q.st = "dead" THEN @ ELSE @ + 1]

StepAll(m, s) == FoldLeft(Step, m, s)

----------------------------------------------------------------------------
(* End of input                                                             *)

(* The node being read is complete if the input ends: the machine after an  *)
(* implied terminator, or a dead one.                                       *)
RECURSIVE EofNode(_)
EofNode(m) ==
    CASE m.st \in {"nosp", "items", "after", "crterm"} -> FinishNode(m, m.ni)
      [] m.st = "nodes" -> m
      [] m.st = "slc" /\ m.ctx = "nodes" ->
            [m EXCEPT !.triv = Append(@, <<m.t0, m.ni>>)]
      [] m.st = "slc" /\ m.ctx = "term"  ->
            FinishNode([m EXCEPT !.triv = Append(@, <<m.t0, m.ni>>)], m.ni)
      [] m.st = "slc" /\ m.ctx = "escl"  -> EofNode(EsclEnd(m, m.ni))
      [] m.st = "crret" -> EofNode(EsclEnd(m, m.ni))
      [] m.st \in {"ident", "sign"} /\ m.ctx = "name" /\ m.buf \notin Keywords
            -> FinishNode(GotName(m, m.buf, m.ni), m.ni)
      [] m.st = "ident" /\ m.ctx \in {"item", "ival", "pval"}
            /\ m.buf \in Keywords
            -> FinishNode(GotValue(m, KwKind(m.buf), KwPayload(m.buf), m.ni),
                          m.ni)
      [] m.st = "num" /\ m.ret \in NumAccepting -> FinishNode(NumEnd(m), m.ni)
      [] m.st = "propq" -> FinishNode(GotValue([m EXCEPT !.pn = <<>>],
                                               4, m.pn[1], m.pn[3]), m.ni)
      [] m.st = "dead" -> m
      [] OTHER -> Dead(m, IF m.st \in {"ident", "sign", "num", "str", "raw",
                                       "rawq", "esc", "escu0", "escu", "escl",
                                       "slash", "mlc"}
                          THEN m.t0 ELSE m.ni)

(* What is left unclosed if the input ends in the state m: a set of         *)
(* <<kind, opener start, opener end>>, kind 1 string, 2 raw string,         *)
(* 3 comment, 4 braces. All members are of the innermost kind. (A keyword   *)
(* in the place of a name or half a number is the nearer offence.)          *)
Unclosed(m) ==
    IF m.st = "dead" THEN {}
    ELSE IF m.st \in {"str", "esc", "escu0", "escu"}
    THEN {<<1, m.t0, m.t0 + 1>>}
    ELSE IF m.st \in {"raw", "rawq"} THEN {<<2, m.t0, m.t0 + m.n + 2>>}
    ELSE IF m.st = "mlc"
    THEN {<<3, m.aux[i], m.aux[i] + 2>> : i \in 1..Len(m.aux)}
    ELSE IF m.st = "ident" /\ m.ctx \in NameCtx /\ m.buf \in Keywords THEN {}
    ELSE IF m.st = "num" /\ m.ret \notin NumAccepting THEN {}
    ELSE {<<4, m.lv[i].b0, m.lv[i].b0 + 1>> : i \in 2..Len(m.lv)}

(* Two errors a reader recovers from: a malformed \u escape (it skips to the *)
(* next `}`, `"` or `\` and goes on with the string) and a bare identifier   *)
(* in the place of an argument (taken for a string). Offences lists the     *)
(* places of the errors that such a reader meets, up to the first one it    *)
(* does not recover from.                                                   *)
SkipTo(m) == LET js == {j \in (m.ni + 1)..Len(m.txt) : m.txt[j] \in {125, 34, 92}}
             IN IF js = {} THEN Len(m.txt) + 1
                ELSE CHOOSE j \in js : \A i \in js : j <= i
BareArg(m) == m.ctx = "item" /\ m.buf \notin Keywords
RecoveredArg(m) == GotValue([m EXCEPT !.pn = <<>>], 4, m.buf, m.ni)
Rewound(m, j) == [m EXCEPT !.ni = j - 1, !.cr = FALSE,
                           !.txt = SubSeq(m.txt, 1, j - 1),
                           !.pos = SubSeq(m.pos, 1, j)]
Recovered(m) ==
    LET j == IF m.why \in {"ident", "sign"} THEN m.ni + 1 ELSE SkipTo(m)
        q == Rewound(m, j)
    IN StepAll(IF m.why \in {"ident", "sign"} THEN RecoveredArg(q)
               ELSE [q EXCEPT !.st = "str"],
               SubSeq(m.txt, j, Len(m.txt)))
Recovers(m) == \/ m.why \in {"escu0", "escu"}
               \/ m.why \in {"ident", "sign"} /\ BareArg(m)
RECURSIVE Offences(_)
Offences(m) ==
    LET e == EofNode(m)
    IN IF e.st /= "dead" THEN IF Depth(e) = 1 THEN <<>>
                              ELSE << <<m.ni, m.ni>> >>
       ELSE IF m.st = "dead"
       THEN << <<m.d0, m.ni + 1>> >>
            \o (IF Recovers(m) THEN Offences(Recovered(m)) ELSE <<>>)
       ELSE << <<e.d0, m.ni>> >>

AtEof(m) ==
    LET e == EofNode(m)
        ok == e.st /= "dead" /\ Depth(e) = 1
    IN [ok |-> ok,
        nodes |-> IF ok THEN e.lv[1].nodes ELSE <<>>,
        cuts |-> IF ok THEN e.cuts ELSE <<>>,
        triv |-> IF ok THEN e.triv ELSE <<>>,
        unc |-> IF ok THEN {} ELSE Unclosed(m),
        offs |-> Offences(m)]

Parse(s) == AtEof(StepAll(Init0, s))

=============================================================================
