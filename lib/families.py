"""The type families and document pieces of the decode checks."""
from core import QUICK
from schema import *


def lits(*xs):
    return [" " + x for x in xs]


u8, u16, u32, u64 = Int("u8"), Int("u16"), Int("u32"), Int("u64")
i8, i64 = Int("i8"), Int("i64")
st = Str()
D = 0 if QUICK else 1       # additional depth of the thorough tier


def arg_cases():
    n = 4 + D
    mix = lits("1", "300", '"x"', "null", "true", "(u8)2", "(i8)3", "1.5")
    return [
        Case(Struct("A1", [arg("a", u8), arg("b", st, opt=True),
                           arg("c", u16, default=vi(7))]),
             heads=["n"], chunks=mix, tails=["", "\nn 1"], n=n),
        Case(Struct("A2", [arg("first", u8, opt=True), args("rest", st)]),
             heads=["n"], chunks=lits("1", '"x"', '"y"', "null", "256"), n=n + 1),
        Case(Struct("A3", [arg("a", st), arg("b", Bool, opt=True,
                                             default=vsome(vb(True))),
                           args("c", Opt(u8))], tuple_=True),
             heads=["n"], chunks=lits("1", '"x"', "null", "true", "false"), n=n + 1),
        Case(Struct("A4", [arg("a", st, opt=True, default=vsome(vs("d"))),
                           arg("b", Bool, default=True),
                           arg("c", i8, opt=True, default=True)]),
             heads=["n"], chunks=lits("-1", '"x"', "null", "true", "200"), n=n),
        Case(Struct("A5", [arg("a", u8), args("b", u8, coll="VecDeque")]),
             heads=["n"], chunks=lits("1", "2", "3", "null", "999"), n=n + 1),
        Case(Struct("A6", [args("b", st, coll="LinkedList")]),
             heads=["n", "n {}"], chunks=lits('"1"', '"2"', "3", "null"), n=n),
        Case(Struct("A7", [prop("p", u8, opt=True), arg("r#type", u8),
                           flag("f"), arg("last_one", u8)]),
             heads=["n"], chunks=lits("1", "p=2", "null", "{f;}", "/-3",
                                      "zz=1", '"s"'), n=n + 1),
        Case(Struct("A8", []), heads=["n"], chunks=lits("1", "{}", "{a;}", "null"), n=3),
        Case(Struct("A9", [], unit=True), heads=["n"], chunks=lits("1", "{}", "{a;}", "a=1"), n=3),
        Case(Struct("A10", [arg("a", u8), arg("b", u8), arg("c", u8, opt=True),
                            arg("d", u8, opt=True), args("e", u8)], tuple_=True),
             heads=["n"], chunks=lits("1", "2", "null", "300"), n=n + 2),
        Case(Enum("A11", [Var("One", "tuple", fields=[arg("a", u8)]),
                          Var("TwoArgs", "tuple", fields=[arg("a", u8), arg("b", st, opt=True)]),
                          Var("Many", "tuple", fields=[args("a", u8)])]),
             heads=["one", "two-args", "many"], chunks=lits("1", '"x"', "null", "256"), n=n),
        Case(Struct("A12", [arg("a", u8, default=vi(5)), arg("b", u8, default=vi(6)),
                            arg("c", u8, opt=True)]),
             heads=["n"], chunks=lits("1", "2", "null"), n=n),
        Case(Struct("A13", [arg("a", dec="s", fs="small", opt=True), arg("b", dec="b", opt=True),
                            args("c", dec="s", fs="alpha")]),
             heads=["n"], chunks=lits('"1"', '"x"', "null", "7", '(base64)"QQ=="'), n=n),
        Case(Struct("A14", [args("early", u8), prop("p", u8, opt=True), extra("x")]),
             heads=["n"], chunks=lits("1", "p=2", "q=3", "2", "null"), n=n),
    ]


def prop_cases():
    n = 4 + D
    return [
        Case(Struct("P1", [prop("a", u8), prop("b", st, opt=True),
                           prop("c", u16, default=vi(7))]),
             heads=["n"], chunks=lits("a=1", "a=2", 'b="x"', "b=null", "c=3",
                                      "c=null", "d=1", "a=300"),
             tails=["", "\nn a=9"], n=n),
        Case(Struct("P2", [prop("a", u8, opt=True), props("rest", u8)]),
             heads=["n"], chunks=lits("a=1", "b=2", "c=3", "b=4", "a=null",
                                      "c=null", "1"), n=n),
        Case(Struct("P3", [props("rest", st, coll="BTreeMap")]),
             heads=["n"], chunks=lits('a="1"', '"b c"="2"', 'a="3"', '""="4"', "a=5"), n=n),
        Case(Struct("P4", [prop("z", Opt(u8)), props("rest", u8, coll="HashMap")]),
             heads=["n"], chunks=lits("z=1", "y=2", "x=3", "z=null", "y=4"), n=n),
        Case(Struct("P5", [prop("dark_blue", u8, opt=True), prop("r#type", u8, opt=True),
                           prop("eps_2", u8, opt=True), prop("ipV4", u8, opt=True),
                           prop("plain", u8, key="the name", opt=True),
                           prop("other", u8, key="", opt=True)]),
             heads=["n"], chunks=lits("dark-blue=1", "dark_blue=2", "type=3", "r#type=4",
                                      "eps-2=5", "eps_2=6", "ip-v4=7", "ipV4=8",
                                      '"the name"=9', "plain=10", '""=11', "the-name=12",
                                      "other=13", "DarkBlue=14"), n=2 + D),
        Case(Struct("P6", [prop("x", u8, key="a"), prop("y", st, key="b", opt=True),
                           props("z", u8)], tuple_=True),
             heads=["n"], chunks=lits("a=1", 'b="y"', "c=3", "b=null", "a=2"), n=n),
        Case(Struct("P7", [prop("a", st, opt=True, default=vsome(vs("d"))),
                           prop("b", Bool, default=True),
                           prop("c", i8, opt=True, default=True)]),
             heads=["n"], chunks=lits("a=null", 'a="x"', "b=true", "b=null",
                                      "c=-1", "c=null", "c=200"), n=n),
        Case(Enum("P8", [Var("One", "tuple", fields=[prop("a", u8, key="a")]),
                         Var("Rest", "tuple", fields=[prop("a", u8, key="a", opt=True),
                                                      props("b", u8)])]),
             heads=["one", "rest"], chunks=lits("a=1", "b=2", "a=null", "a=3"), n=n),
        Case(Struct("P9", [prop("a", u8, opt=True), prop("b", u8, opt=True),
                           prop("c", u8, opt=True), prop("d", u8, opt=True)]),
             heads=["n"], chunks=lits("a=1", "b=2", "c=3", "d=4", "a=5"), n=n + 1),
        Case(Struct("P10", [arg("v", u8), prop("p", dec="s", fs="alpha", opt=True),
                            props("q", dec="s", fs="small", kfs="alpha")]),
             heads=["n"], chunks=lits("1", 'p="x"', "p=null", 'q="7"', 'Q="7"',
                                      'r="z"', 'p="1"'), n=n),
        Case(Struct("P11", [prop("key", dec="b"), prop("opt_key", dec="b", opt=True)]),
             heads=["n"], chunks=lits('key="a"', 'key=(base64)"QQ=="', "key=null",
                                      "opt-key=null", 'opt-key="é"', "key=1"), n=n - 1),
        Case(Struct("P12", [prop("a", u8), prop("b", u8), prop("c", u8)]),
             heads=["n"], chunks=lits("a=1", "b=2", "c=3", "/-a=4", "/-c=5", "b=6"), n=n + 1),
    ]


def child_cases():
    n = 4 + D
    one = Struct("C1v", [arg("v", u8)])
    none = Struct("C1n", [])
    kids = lambda *xs: [x + ";" for x in xs]
    rec = Ref("C9")
    return [
        Case(Struct("C1", [child("a", one), child("b", none, opt=True), flag("f"),
                           children("cs", "c", one)]),
             heads=["n {"], chunks=kids("a 1", "a 2", "b", "b 1", "f", "f 1", "c 1",
                                        "c 2", "c", "zz"),
             tails=["}"], n=n - 1),
        Case(Struct("C2", [child("a", one, opt=True), children("c", "c", one),
                           rest("more", one)]),
             heads=["n {"], chunks=kids("a 1", "c 1", "c 2", "d 1", "e 2", "d"),
             tails=["}"], n=n),
        Case(Struct("C3", [flag("dark_mode"), flag("r#move"), flag("f")]),
             heads=["n {"], chunks=kids("dark-mode", "dark_mode", "move", "f", "f {}",
                                        "f {x;}", "f a=1", "f null", "(t)f"),
             tails=["}"], n=n - 1),
        Case(Struct("C4", [children("a", "item", one, opt=True),
                           children("b", "thing", one, default=True),
                           children("c", "third one", none, coll="VecDeque")]),
             heads=["n {", "n", "n {} {"], chunks=kids("item 1", "item 2", "thing 3", '"third one"', "c", "item"),
             tails=["}", ""], n=n),
        Case(Struct("C5", [child("a", one), child("b", one, opt=True),
                           child("c", Boxed("Box", one), opt=True), flag("d")]), form="root",
             chunks=["a 1\n", "a 2\n", "b 1\n", "c 3\n", "d\n", "d\n\n", "e\n", "b\n"], n=n),
        Case(Struct("C6", [rest("all", one)]), form="root",
             chunks=["a 1\n", "b 2\n", "c\n", "d 4 {}\n"], n=n + 1),
        Case(Struct("C7", [children("x", "x", one), rest("y", none)], tuple_=True),
             heads=["n {"], chunks=kids("x 1", "x 2", "y", "z", "z 1"), tails=["}"], n=n),
        Case(Struct("C8", [child("a", Struct("C8a", [child("b", Struct("C8b", [
            child("c", one, opt=True), flag("d")]), opt=True), flag("e")]), opt=True)]),
             heads=["n {"], chunks=["a {", "b {", "c 1;", "d;", "e;", "}", "a;"], tails=["}", "}}", "}}}"],
             n=n + 1),
        Case(Struct("C9", [arg("v", u8, opt=True), rest("kids", rec)], ref=rec),
             heads=["n {"], chunks=["a {", "b 1 {", "c 2;", "}", "d x=1;"], tails=["}", "}}", "}}}"],
             n=n + 1),
        Case(Struct("C10", [rest("early", none), extra("x"), prop("p", u8, opt=True)]),
             heads=["n {", "n p=1 {"], chunks=kids("a", "b", "c 1"), tails=["}"], n=n),
        Case(Enum("C11", [Var("One", "tuple", fields=[children("a", "a", one)]),
                          Var("All", "tuple", fields=[arg("v", u8, opt=True), rest("b", one)])]),
             heads=["one {", "all {", "all 1 {"], chunks=kids("a 1", "a 2", "b 3", "a"), tails=["}"], n=n),
        Case(Struct("C12", [child("a", Struct("C12d", [prop("pa", u8, opt=True), flag("fl")],
                                              default="derive"), default=True),
                            child("b", Struct("C12e", [prop("pa", u8, opt=True)],
                                              default=[vsome(vi(9))]), default=True)]),
             heads=["n {"], chunks=kids("a", "a pa=1", "a pa=2 {fl;}", "b", "b pa=3", "b pa=null"),
             tails=["}"], n=n - 1),
        Case(Struct("C13", [children("l", "l", Enum("C13e", [Var("L", "tuple", fields=[arg("v", u8)]),
                                                             Var("M", "unit")])),
                            rest("o", Enum("C13f", [Var("A", "unit"), Var("B", "nested", one)]))]),
             heads=["n {"], chunks=kids("l 1", "m", "a", "b 2", "l", "c"), tails=["}"], n=n),
        Case(Struct("C14", [children("a", "x", one, coll="LinkedList"), rest("b", one, coll="LinkedList")]),
             heads=["n {"], chunks=kids("x 1", "x 2", "y 3", "y 4"), tails=["}"], n=n),
    ]


def unwrap_cases():
    n = 4 + D
    one = Struct("U1v", [arg("v", u8)])

    def field(name, uw, w, inner, kind=child, **kw):
        """A field with unwrap(inner), or of a structure with the field"""
        if uw:
            return kind(name, uw=inner(name), **kw)
        return kind(name, t=Struct(w, [inner(name)]), **kw)

    res = []

    def add(mk, heads, chunks, tails, n, form="list"):
        i = len(res)
        a, b = mk("U%d" % i, True), mk("W%d" % i, False)
        res.append(Case(a, form, heads, chunks, tails, n, wrap=b))
        res.append(Case(b, form, heads, chunks, tails, min(n, 2)))

    def kids(*xs):
        return [x + ";" for x in xs]
    add(lambda nm, uw: Struct(nm, [
        field("a", uw, nm + "a", lambda f: arg(f, u8)),
        field("b", uw, nm + "b", lambda f: arg(f, st), opt=True)]),
        ["n {"], kids("a 1", "a", "a 1 2", 'b "x"', "b 1", "b", "a null", "b null", "a x=1", "a 2{z;}", "(t)a 1"),
        ["}"], n - 1)
    add(lambda nm, uw: Struct(nm, [
        field("a", uw, nm + "a", lambda f: prop(f, u8)),
        field("b", uw, nm + "b", lambda f: prop(f, st, key="the key"), opt=True),
        field("c_d", uw, nm + "c", lambda f: prop(f, u8), opt=True)]),
        ["n {"], kids("a a=1", "a", "a b=1", 'b "the key"="x"', 'b "the key"=1', "b", "c-d c-d=1", "c-d c_d=1", "a 1"),
        ["}"], n - 1)
    add(lambda nm, uw: Struct(nm, [
        field("a", uw, nm + "a", lambda f: args(f, u8)),
        field("p", uw, nm + "p", lambda f: props(f, u8), opt=True)]),
        ["n {"], kids("a 1 2", "a", 'a 1 "x"', "a b=1", "p a=1 b=2", "p", "p 1", 'p z="s"'), ["}"], n - 1)
    add(lambda nm, uw: Struct(nm, [
        field("it", uw, nm + "i", lambda f: arg(f, u8), children, key="item"),
        field("o", uw, nm + "o", lambda f: prop(f, u8, key="k"), children, key="opt", opt=True)]),
        ["n {"], kids("item 1", "item 2", "item", "item 1 2", "opt k=1", "opt k=2", "opt", "zz"), ["}"], n)
    add(lambda nm, uw: Struct(nm, [
        field("all", uw, nm + "a", lambda f: arg(f, dec="s", fs="small"), rest)]),
        ["n {"], kids('a "1"', 'b "2"', 'c "x"', "d 1", "e"), ["}"], n + 1)
    add(lambda nm, uw: Struct(nm, [
        field("a", uw, nm + "a", lambda f: child(f, one)),
        field("b", uw, nm + "b", lambda f: children(f, "kid", one), opt=True)]),
        ["n {"], ["a {", "b {", "a 1;", "kid 2;", "}", "a;", "b;"], ["}", "}}"], n + 1)
    add(lambda nm, uw: Struct(nm, [
        field("a", uw, nm + "a", lambda f: child(f, uw=arg(f, u8))),
        field("r", uw, nm + "r", lambda f: rest(f, one), opt=True)]),
        ["n {"], ["a {", "r {", "a 1;", "a;", "kid 2;", "}", "a 3 {"], ["}", "}}"], n + 1)
    add(lambda nm, uw: Struct(nm, [
        field("a", uw, nm + "a", lambda f: arg(f, u8), opt=True),
        field("b", uw, nm + "b", lambda f: args(f, st), opt=True),
        field("c", uw, nm + "c", lambda f: arg(f, dec="b"), opt=True)]),
        [""], ["a 1\n", "a\n", 'b "x" "y"\n', "b\n", 'c "q"\n', 'c (base64)"QUI="\n', "c 1\n", "a 1 2\n", "d\n"],
        [""], n - 1, "root")
    add(lambda nm, uw: Struct(nm, [
        field("a", uw, nm + "a", lambda f: arg(f, u8, default=vi(5)), opt=True),
        field("b", uw, nm + "b", lambda f: prop(f, st, default=vs("d")))]),
        ["n {"], kids("a 1", "a", "a 1 2", "a null", 'b b="x"', "b", "b b=1", "b b=null"), ["}"], n - 1)
    # positional fields: in tuple structures and variants
    res.append(Case(Struct("UT1", [children("x", "item", uw=arg("x", u8)),
                                   rest("y", uw=prop("y", u8, key="k"))], tuple_=True),
                    heads=["n {"], chunks=kids("item 1", "item", "item 1 2", "z k=1", "z", "z k=1 l=2"),
                    tails=["}"], n=n))
    res.append(Case(Enum("UT2", [Var("A", "tuple", fields=[arg("v", u8), children("x", "item", uw=args("x", st))]),
                                 Var("B", "tuple", fields=[rest("y", uw=arg("y", u8))])]),
                    heads=["a {", "a 1 {", "b {"], chunks=kids('item "x" "y"', "item", "item 1", "z 1"), tails=["}"], n=n))
    res.append(Case(Struct("UD", [child("a", uw=arg("a", u8), default=vi(5)),
                                  child("b", uw=arg("b", st), default=vs("q")),
                                  children("c", "c", uw=arg("c", u8), default=True)]),
                    heads=["n {"], chunks=kids("a 1", "a", 'b "x"', "b", "c 1", "c 2", "a null"), tails=["}"], n=n - 1))
    # optional fields with defaults: a scalar without a decode mode decodes into
    # the Option, so null overrides the default; anything else into its content
    res.append(Case(Struct("UE", [
        child("a", uw=arg("a", Opt(u8)), default=vsome(vi(5))),
        child("b", uw=arg("b", dec="s", fs="small"), opt=True, default=True),
        child("c", uw=child("c", one), opt=True,
              default=V("Some(%s { v: 9 })" % one.rust, ["o", ["t", vi(9).term]])),
        child("d", uw=props("d", u8), opt=True, default=True),
        child("e", uw=children("e", "kid", one), opt=True, default=True)]),
        heads=["n {"], chunks=kids("a 1", "a null", "a", 'b "1"', "b null", "b", "c { c 1; }", "c", "d x=1", "d",
                                   "e { kid 1; }", "e"), tails=["}"], n=n - 1))
    res.append(Case(Struct("UF", [child("f", uw=arg("f", Bool)), child("g", uw=arg("g", Bool), opt=True),
                                  child("h", uw=prop("h", SEnum("Color"), key="c"), opt=True)]),
                    heads=["n {"], chunks=kids("f true", "f", "f false", "g true", "g", 'h c="red"', 'h c="blue"', "f 1"),
                    tails=["}"], n=n - 1))
    return res


def flatten_cases():
    n = 4 + D
    one = Struct("F1v", [arg("v", u8)])

    def kids(*xs):
        return [x + ";" for x in xs]
    pc = [child("pa", one, opt=True), flag("pf"), children("pk", "item", one, opt=True)]
    pp = [prop("qa", u8, opt=True), prop("qb_c", st, opt=True)]
    PC = Struct("FPC", pc, default="derive")
    PP = Struct("FPP", pp, default="derive")
    PCP = Struct("FPCP", pc + pp, default="derive")
    own_c = child("own", one, opt=True)
    own_p = prop("op", u8, opt=True)
    NEST = Struct("FNEST", [flat("in1", PC, "c"), flag("deep"), flat("in2", PP, "p")], default="derive")
    TUP = Struct("FTUP", [prop("x", u8, key="tx", opt=True), children("y", "ty", one, opt=True)],
                 tuple_=True, default="derive")
    UW = Struct("FUW", [child("ua", uw=arg("ua", u8), opt=True), child("ub", uw=args("ub", st), opt=True),
                        children("uc", "uc", uw=prop("uc", u8, key="k"), opt=True)], default="derive")
    MODES = Struct("FMODES", [prop("m1", dec="s", fs="small", opt=True), prop("m2", dec="b", opt=True),
                              prop("m3", SEnum("Color"), opt=True)], default="derive")
    cs = kids("pa 1", "pa", "pa 2", "pf", "pf 1", "item 1", "item 2", "own 1", "zz")
    res = [
        Case(Struct("F1", [own_c, flat("fl", PC, "c")]), heads=["n {"], chunks=cs, tails=["}"], n=n - 1,
             inl=Struct("F1i", [own_c] + pc)),
        Case(Struct("F2", [flat("fl", PC, "c"), own_c]), heads=["n {"], chunks=cs, tails=["}"], n=n - 1,
             inl=Struct("F2i", pc + [own_c])),
        Case(Struct("F3", [own_p, flat("fl", PP, "p")]), heads=["n"],
             chunks=lits("qa=1", "qa=null", "qa=2", 'qb-c="x"', "qb_c=1", "op=3", "zz=1", "qa=300"), n=n - 1,
             inl=Struct("F3i", [own_p] + pp)),
        Case(Struct("F4", [flat("fl", PCP, "cp"), own_c, own_p]), heads=["n", "n qa=1", "n op=2 {", "n qa=3 {"],
             chunks=[" qa=1", ' qb-c="x"', " op=1", " {", "pa 1;", "pf;", "item 1;", "own 2;", "}", "zz;"], tails=["", "}"], n=n,
             inl=Struct("F4i", pc + pp + [own_c, own_p])),
        Case(Struct("F5", [flat("fl", NEST, "cp")]), heads=["n", "n {", "n qa=1 {"],
             chunks=[" qa=2", ' qb-c="x"', " {", "pa 1;", "pf;", "deep;", "item 1;", "}", "zz;", " zz=1"], tails=["", "}"], n=n,
             inl=Struct("F5i", pc + [flag("deep")] + pp)),
        Case(Struct("F6", [flat("fl", Boxed("Box", PC), "c"), prop("op", u8)]), heads=["n op=1 {", "n {"], chunks=cs,
             tails=["}"], n=n - 1, inl=Struct("F6i", pc + [prop("op", u8)])),
        Case(Struct("F7", [flat("fl", TUP, "pc"), flag("z")]), heads=["n", "n {", "n tx=1 {"],
             chunks=[" tx=2", " {", "ty 1;", "ty 2;", "z;", "}", "tx;", " ty=1"], tails=["", "}"], n=n,
             inl=Struct("F7i", [prop("x", u8, key="tx", opt=True), children("y", "ty", one, opt=True), flag("z")])),
        Case(Struct("F8", [flat("fl", UW, "c")]), heads=["n {"],
             chunks=kids("ua 1", "ua", "ua 2", 'ub "x"', "ub", "ub 1", "uc k=1", "uc k=2", "uc"), tails=["}"], n=n - 1,
             inl=Struct("F8i", [child("ua", uw=arg("ua", u8), opt=True), child("ub", uw=args("ub", st), opt=True),
                                children("uc", "uc", uw=prop("uc", u8, key="k"), opt=True)])),
        Case(Struct("F9", [flat("fl", MODES, "p")]), heads=["n"],
             chunks=lits('m1="7"', "m1=null", 'm1="x"', 'm2="ab"', 'm2=(base64)"QQ=="', "m2=null", "m2=1",
                         'm3="red"', "m3=null", "m1=1"), n=n - 1,
             inl=Struct("F9i", MODES.fields)),
        # the flattened structure also declares what is not flattened here
        Case(Struct("F10", [flat("fl", PCP, "c")]), heads=["n", "n qa=1", "n {"],
             chunks=[" qa=1", " {", "pa 1;", "pf;", "}"], tails=["", "}"], n=n),
        Case(Struct("F11", [flat("fl", PCP, "p")]), heads=["n", "n qa=1", "n {"],
             chunks=[" qa=2", " {", "pa 1;", "pf;", "}"], tails=["", "}"], n=n),
        # catch-alls take what the flattened structure does not
        Case(Struct("F12", [flat("fl", PCP, "cp"), props("rp", u8), rest("rc", one)]), heads=["n", "n {"],
             chunks=[" qa=1", " zz=2", ' qb-c="x"', " {", "pa 1;", "pf;", "zz 1;", "item 3;", "}"], tails=["", "}"], n=n),
        # several flattened structures; the first that declares a name has it
        Case(Struct("F13", [flat("f1", PC, "c"), flat("f2", PP, "p"), flat("f3", MODES, "p"), flat("f4", UW, "c")]),
             heads=["n", "n qa=1 {", "n {"], chunks=[" m3=\"green\"", ' qb-c="x"', " {", "pa 1;", "ua 1;", "uc k=1;", "pf;", "}"],
             tails=["", "}"], n=n, inl=Struct("F13i", pc + pp + MODES.fields + UW.fields)),
        Case(Struct("F14", [child("pa", one, opt=True), prop("qa", u8, opt=True), flat("fl", PCP, "cp")]),
             heads=["n", "n {", "n qa=1 {"], chunks=[" qa=2", ' qb-c="x"', " {", "pa 1;", "pf;", "}", "item 1;"], tails=["", "}"], n=n),
        # a root structure
        Case(Struct("F15", [flat("fl", PC, "c"), own_c]), form="root", chunks=[x[:-1] + "\n" for x in cs], n=n - 1),
        # defaults of the flattened structure that are not empty
        Case(Struct("F16", [flat("fl", Struct("FD1", [prop("a", u8, opt=True), prop("b", st, opt=True)],
                                              default=[vsome(vi(3)), VNONE]), "p")]),
             heads=["n"], chunks=lits("a=1", "a=null", 'b="x"', "b=null", "c=1"), n=n),
        Case(Struct("F17", [flat("fl", Boxed("Box", NEST), "cp"), own_c, props("rest", u8)]), heads=["n", "n {", "n qa=1 {"],
             chunks=[" qa=2", ' qb-c="x"', " {", "pa 1;", "pf;", "deep;", "own 1;", "}", " zz=1", " yy=2"], tails=["", "}"], n=n),
        Case(Struct("F18", [flat("fl", Struct("FE", [children("es", "e", Enum("FEe", [
            Var("E", "tuple", fields=[arg("v", u8, opt=True)])]), opt=True), extra("x"), flag("g")], default="derive"), "c")]),
             heads=["n {"], chunks=kids("e", "e 1", "e 2", "g", "x", "f"), tails=["}"], n=n),
    ]
    return res


def flat_default_cases():
    """Defaults of flattened structures that hold a child"""
    one = Struct("FV", [arg("v", u8)])
    return [
        Case(Struct("FDC", [flat("fl", Struct("FDCi", [child("a", one, opt=True)],
                                              default=[V("Some(FV { v: 9 })", ["o", ["t", vi(9).term]])]), "c")]),
             heads=["n {"], chunks=["a 1;"], tails=["}"], n=2),
        Case(Struct("FDF", [flat("fl", Struct("FDFi", [flag("f")], default=[vb(True)]), "c")]),
             heads=["n {"], chunks=["f;"], tails=["}"], n=2),
        Case(Struct("FDL", [flat("fl", Struct("FDLi", [children("l", "l", one, opt=True)],
                                              default=[V("Some(vec![FV { v: 9 }])", ["o", ["l", ["t", vi(9).term]]])]), "c")]),
             heads=["n {"], chunks=["l 1;"], tails=["}"], n=2),
    ]


# ---------------------------------------------------------------- matrices
# Every flavour of a field (optional or not; without a default, with the
# type's Default, with a value; plain or in a decode mode) next to each kind of
# companion field that takes a part of what the node holds.

def scalar_flavours(kind, name, **kw):
    """kind: arg or prop"""
    fl = [("q", st, {}), ("o", st, {"opt": True}), ("d", st, {"default": True}), ("v", st, {"default": vs("dv")}),
          ("od", st, {"opt": True, "default": True}), ("ov", st, {"opt": True, "default": vsome(vs("dv"))}),
          ("iv", u8, {"default": vi(42)}), ("iov", u8, {"opt": True, "default": vsome(vi(42))}), ("id", u8, {"default": True}),
          ("bv", Bool, {"default": vb(True)}), ("bov", Bool, {"opt": True, "default": vsome(vb(True))}),
          ("ed", SEnum("Color"), {"default": True}), ("eo", SEnum("Color"), {"opt": True}),
          ("sv", Spanned(u8), {"opt": True}), ("xo", Opt(u8), {}), ("xb", Ptr("Box", Opt(u8)), {})]
    res = [(n, kind(name, s_, **kw, **k)) for n, s_, k in fl]
    for fs in ("any", "small"):
        for n, k in [("q", {}), ("o", {"opt": True}), ("od", {"opt": True, "default": True})]:
            res.append(("s" + fs[0] + n, kind(name, dec="s", fs=fs, **kw, **k)))
    res.append(("svd", kind(name, dec="s", fs="any", default=vs("dv"), **kw)))
    res.append(("svo", kind(name, dec="s", fs="any", opt=True, default=vsome(vs("dv")), **kw)))
    for fs in ("any", "even"):
        for n, k in [("q", {}), ("o", {"opt": True}), ("d", {"default": True}), ("od", {"opt": True, "default": True})]:
            res.append(("b" + fs[0] + n, kind(name, dec="b", fs=fs, **kw, **k)))
    return res


LITS = ['"x"', '"5"', '"red"', "null", "7", "true"]


def arg_matrix():
    res = []
    comp = {
        "a": lambda f: [f],
        "f": lambda f: [arg("w", Value), f],
        "o": lambda f: [f, arg("w", u8, opt=True)],
        "r": lambda f: [f, args("w", Value)],
        "x": lambda f: [extra("y"), f, prop("p", u8, default=vi(1)), flag("g")],
    }
    for n, f in scalar_flavours(arg, "it"):
        for c, mk in comp.items():
            res.append(Case(Struct("Ma_%s_%s" % (c, n), mk(f)), heads=["n", "(t)n"] if c == "a" else ["n"],
                            chunks=[" " + x for x in LITS], tails=["", " {}"] if c == "x" else [""],
                            n=2))
    return res


def prop_matrix():
    res = []
    inner = lambda n: Struct("MpF" + n, [prop("w", u8, opt=True), prop("it_too", u8, opt=True)], default="derive")
    comp = {
        "a": lambda f, n: [f],
        "o": lambda f, n: [f, prop("w", u8, opt=True)],
        "b": lambda f, n: [prop("w", u8, default=vi(9)), f],
        "r": lambda f, n: [f, props("w", Value)],
        "f": lambda f, n: [flat("w", inner(n), "p"), f],
    }
    for n, f in scalar_flavours(prop, "it"):
        for c, mk in comp.items():
            res.append(Case(Struct("Mp_%s_%s" % (c, n), mk(f, n)), heads=["n"],
                            chunks=[" it=" + x for x in LITS] + [" w=3", " w=null"][:1 if QUICK else 2], n=2))
    # the same fields inside of a flattened structure
    for n, f in scalar_flavours(prop, "it"):
        if f.kw["opt"] and not f.kw["def"]:
            res.append(Case(Struct("Mp_i_" + n, [flat("w", Struct("MpI" + n, [f, prop("w", u8, opt=True)], default="derive"), "p")]),
                            heads=["n"], chunks=[" it=" + x for x in LITS] + [" w=3", " it_=1"], n=2,
                            inl=Struct("MpL" + n, [f, prop("w", u8, opt=True)])))
    return res


def child_flavours(nm):
    one = Struct("Mc1" + nm, [arg("v", u8)], default=[vi(3)])
    o9 = V("%s { v: 9 }" % one.rust, ["t", vi(9).term])
    l9 = V("vec![%s { v: 9 }]" % one.rust, ["l", ["t", vi(9).term]])
    fl = [("q", lambda: child("it", one)), ("o", lambda: child("it", one, opt=True)),
          ("d", lambda: child("it", one, default=True)), ("v", lambda: child("it", one, default=o9)),
          ("od", lambda: child("it", one, opt=True, default=True)),
          ("ov", lambda: child("it", one, opt=True, default=vsome(o9))), ("f", lambda: flag("it"))]
    for c in ("Vec", "LinkedList"):
        mk = lambda v, c=c: v if c == "Vec" else V("[%s { v: 9 }].into_iter().collect()" % one.rust, v.term)
        fl += [("l" + c, lambda c=c: children("it", "it", one, coll=c)), ("lo" + c, lambda c=c: children("it", "it", one, opt=True, coll=c)),
               ("ld" + c, lambda c=c: children("it", "it", one, default=True, coll=c)),
               ("lv" + c, lambda c=c, mk=mk: children("it", "it", one, default=mk(l9), coll=c)),
               ("lod" + c, lambda c=c: children("it", "it", one, opt=True, default=True, coll=c)),
               ("lov" + c, lambda c=c, mk=mk: children("it", "it", one, opt=True, default=vsome(mk(l9)), coll=c))]
    return [(n, f()) for n, f in fl]


def child_matrix():
    one = Struct("Mc2", [arg("v", u8)])
    part = Struct("McP", [child("w", one, opt=True), flag("it_too")], default="derive")
    comp = {
        "a": lambda f: [f],
        "o": lambda f: [f, child("w", one, opt=True)],
        "g": lambda f: [flag("w"), f],
        "m": lambda f: [children("w", "w", one, default=V("vec![Mc2 { v: 1 }]", ["l", ["t", vi(1).term]])), f],
        "r": lambda f: [f, rest("w", one)],
        "f": lambda f: [flat("w", part, "c"), f],
        "e": lambda f: [arg("a", u8, opt=True), f, extra("x")],
    }
    res = []
    for c, mk in comp.items():
        for n, f in child_flavours(c):
            t = Struct("Mc_%s_%s" % (c, n), mk(f))
            res.append(Case(t, heads=["n"], chunks=[" {", "it 1;", "it;", "w 2;", "}"], tails=["", "}"], n=3))
            if c != "e":
                res.append(Case(t, form="root", chunks=["it 1\n", "it\n", "w 2\n"], n=3))
    return res


def unwrap_inner(nm):
    """What can be inside of unwrap(..), with a document of one node that fits
    and ones that do not, and a default: (id, field, nodes, Rust, term)"""
    one = Struct("Mu1" + nm, [arg("v", u8)])
    return [
        ("a", lambda f: arg(f, u8), ["it 1;", "it;", "it null;"], vi(9)),
        ("x", lambda f: arg(f, Opt(u8)), ["it 1;", "it;", "it null;"], vsome(vi(9))),
        ("as", lambda f: arg(f, dec="s", fs="small"), ['it "1";', "it;", "it null;", "it 1;"], V("Small(9)", vi(9).term)),
        ("ab", lambda f: arg(f, dec="b"), ['it "q";', "it;", "it null;", "it 1;"], V("vec![9]", ["y", [9]])),
        ("ae", lambda f: arg(f, dec="b", fs="even"), ['it "qq";', 'it "q";', "it null;"], V("Even(vec![])", ["y", []])),
        ("pa", lambda f: prop(f, dec="s", fs="alpha", key="k"), ['it k="qq";', 'it k="1";', "it k=null;"],
         V('Alpha("z".into())', vs("z").term)),
        ("As", lambda f: args(f, dec="s", fs="small"), ['it "1" "2";', "it;", "it null;"], V("vec![Small(9)]", ["l", vi(9).term])),
        ("A", lambda f: args(f, u8), ["it 1 2;", "it;", "it null;"], V("vec![9]", ["l", vi(9).term])),
        ("p", lambda f: prop(f, u8, key="k"), ["it k=1;", "it;", "it k=null;"], vi(9)),
        ("px", lambda f: prop(f, Opt(u8), key="k"), ["it k=1;", "it;", "it k=null;"], vsome(vi(9))),
        ("P", lambda f: props(f, u8), ["it k=1 l=2;", "it;", "it k=null;"], V('vec![("z".into(), 9)]', ["m", [vs("z").term, vi(9).term]])),
        ("c", lambda f: child(f, one), ["it {it 1;};", "it;", "it {it 1; it 2;};"],
         V("%s { v: 9 }" % one.rust, ["t", vi(9).term])),
        ("u", lambda f: child(f, uw=arg(f, u8)), ["it {it 1;};", "it;", "it {it;};"], vi(9)),
        ("C", lambda f: children(f, "kid", one), ["it {kid 1; kid 2;};", "it;", "it {it 1;};"],
         V("vec![%s { v: 9 }]" % one.rust, ["l", ["t", vi(9).term]])),
        ("R", lambda f: rest(f, one), ["it {a 1; b 2;};", "it;", "it {a;};"],
         V("vec![%s { v: 9 }]" % one.rust, ["l", ["t", vi(9).term]])),
    ]


def unwrap_matrix():
    res = []
    for n, mk, docs, v in unwrap_inner(""):
        plain = n in ("x", "px")          # an Option of its own
        outer = [("q", lambda: child("it", uw=mk("it"))), ("v", lambda: child("it", uw=mk("it"), default=v)),
                 ("l", lambda: children("it", "it", uw=mk("it"))), ("lo", lambda: children("it", "it", uw=mk("it"), opt=True)),
                 ("ld", lambda: children("it", "it", uw=mk("it"), default=True)),
                 ("lv", lambda: children("it", "it", uw=mk("it"), default=V("vec![%s]" % v.rust, ["l", v.term]))),
                 ("lov", lambda: children("it", "it", uw=mk("it"), opt=True,
                                          default=V("Some(vec![%s])" % v.rust, ["o", ["l", v.term]]))),
                 ("r", lambda: rest("it", uw=mk("it")))]
        if plain:
            outer = outer[1:]
        else:
            outer.append(("o", lambda: child("it", uw=mk("it"), opt=True)))
            if n not in ("a", "p"):
                outer.append(("ov", lambda: child("it", uw=mk("it"), opt=True, default=vsome(v))))
                outer.append(("od", lambda: child("it", uw=mk("it"), opt=True, default=True)))
        for o, f in outer:
            comp = [] if o == "r" else [flag("w")]
            res.append(Case(Struct("Mu_%s_%s" % (n, o), [f()] + comp), heads=["n", "n {"],
                            chunks=docs + ["w;", "it x=1;"], tails=["", "}"], n=2))
    return res


def flatten_pointers():
    """The part of the matrix that is about pointers"""
    return flatten_matrix(lambda i, deep, comp: i > 0 and (not QUICK or not deep and i < 4))


def flatten_matrix(take=lambda i, deep, comp: True):
    """Each kind of field that can be flattened, behind each kind of pointer,
    one or two levels deep, flattened as each of the three kinds"""
    one = Struct("Mf1", [arg("v", u8)])
    full = lambda: [prop("p_a", u8, opt=True), prop("p_b", dec="s", fs="any", opt=True), child("c_a", one, opt=True), flag("c_f"),
                    children("c_k", "kk", one, opt=True), child("c_u", uw=arg("c_u", u8), opt=True)]
    res = []
    body = [" p-a=1", " p-a=null", " p-b=\"x\"", " zz=1", " {", "c-a 1;", "c-f;", "kk 1;", "c-u 2;", "zz;", "}"]
    for i, w in enumerate([lambda t: t, lambda t: Boxed("Box", t), lambda t: Boxed("Rc", t), lambda t: Boxed("Arc", t),
                           lambda t: Boxed("Rc", Boxed("Box", t))]):
        for what in ("c", "p", "cp"):
            if what == "cp":
                fs = full()
            else:
                fs = [f for f in full() if (f.m == "prop") == (what == "p")]
            for deep in (False, True):
                for comp in ([], [props("rp", Value), rest("rc", one)], [prop("zz", u8, opt=True), flag("zz_f")]):
                    if QUICK and deep and not comp or not take(i, deep, comp):
                        continue
                    nm = "Mf_%d%s%d%s" % (i, what, deep, "".join(c.m[0] for c in comp))
                    t = Struct(nm + "i", fs, default="derive")
                    inl = fs + comp
                    if deep:
                        t = Struct(nm + "j", [flag("own_f"), flat("inner", w(t), what)] if what == "c" else
                                   [prop("own_p", u8, opt=True), flat("inner", w(t), what)], default="derive")
                        inl = [t.fields[0]] + inl
                    res.append(Case(Struct(nm, [flat("fl", w(t), what)] + comp), heads=["n", "n {", "n p-b=\"y\" {"], chunks=body,
                                    tails=["", "}"], n=2, inl=Struct(nm + "l", inl)))
    return res


def enum_cases():
    n = 3 + D
    one = Struct("E1v", [arg("v", u8)])
    opt = Struct("E1o", [arg("v", u8, opt=True), flag("f")])
    e1 = Enum("E1", [Var("Unit"), Var("Nested", "nested", one), Var("Maybe", "nestopt", opt),
                     Var("Inline", "tuple", fields=[arg("a", u8), prop("b", u8, key="b", opt=True)]),
                     Var("Hidden", "skip")])
    body = [" 1", " 2", " b=1", " {", "f;", "}", " {}", " null"]
    e2 = Enum("E2", [Var("Alone")])
    e3 = Enum("E3", [Var("DarkBlue"), Var("HTTPPort"), Var("X2Y"), Var("r#Type"), Var("Item1"), Var("A")])
    e4 = Enum("E4", [Var("Sub", "nested", Enum("E4i", [Var("Sub"), Var("Other")])), Var("Other", "nested", one),
                     Var("Third")])
    e5 = Enum("E5", [Var("First", "tuple", fields=[args("a", u8)]),
                     Var("Second", "tuple", fields=[props("a", u8)]),
                     Var("Third", "tuple", fields=[rest("a", one)]),
                     Var("Fourth", "tuple", fields=[children("a", "k", one), arg("b", st, opt=True)]),
                     Var("Fifth", "nested", Boxed("Box", one))])
    e6 = Enum("E6", [Var("A", "skip"), Var("B"), Var("C", "skip"), Var("D", "nestopt", one)])
    rec = Ref("E7")
    e7 = Enum("E7", [Var("Leaf", "tuple", fields=[arg("a", u8)]), Var("Tree", "tuple", fields=[rest("b", rec)]), Var("Nil")],
              ref=rec)
    e8 = Enum("E8", [Var("A", "nested", NewType("E8n", one)), Var("B", "nested", NewType("E8m", one, opt=True)),
                     Var("C", "nestopt", NewType("E8k", one, opt=True))])
    return [
        Case(e1, heads=["unit", "nested", "maybe", "inline", "hidden", "Unit", "other", '""', "(t)unit", "(t)maybe", "(t)nested"],
             chunks=body, tails=["", "\nunit"], n=n),
        Case(e2, heads=["alone", "Alone", "alon", "alone2"], chunks=[" 1", " {}", " {a;}", " a=1", "\nalone"], n=n),
        Case(e3, heads=["dark-blue", "dark_blue", "DarkBlue", "darkblue", "http-port", "httpport", "HTTPPort", "h-t-t-p-port",
                        "x2-y", "x2y", "x-2-y", "x2y ", "type", "r-type", "Type", "item1", "item-1", "a", "A", "b"],
             chunks=[" 1", "\na"], n=2),
        Case(e4, heads=["sub", "other", "third", "x"], chunks=[" 1", " {}", "\nsub", "\nother 2"], n=n),
        Case(e5, heads=["first", "second", "third", "fourth", "fifth"],
             chunks=[" 1", " a=1", ' "x"', " {", "k 1;", "}", " b=2"], tails=["", "}"], n=n),
        Case(e6, heads=["a", "b", "c", "d", "(x)d"], chunks=[" 1", " {}", "\nb", "\nd 1", " x=1"], n=n),
        Case(e7, heads=["leaf 1", "tree", "nil", "tree {"], chunks=[" {", "leaf 1;", "leaf;", "tree {", "nil;", "}", "x;"],
             tails=["", "}", "}}"], n=n + 1),
        Case(e8, heads=["a", "b", "c", "(t)b", "(t)c"], chunks=[" 1", " {}", " {x;}", " x=1", " null"], n=n),
        Case(Struct("E9", [rest("es", e1), arg("v", u8, opt=True)]), heads=["n {", "n 1 {"],
             chunks=["unit;", "nested 1;", "maybe;", "maybe 1;", "inline 1;", "hidden;", "x;", "unit 1;"], tails=["}"], n=n),
        Case(Struct("E10", [children("a", "unit", e1), children("b", "nested", e1, opt=True), rest("c", e6)]), heads=["n {"],
             chunks=["unit;", "nested 1;", "b;", "d;", "d 1;", "unit 1;", "c;"], tails=["}"], n=n),
    ]


ANNS = ["", "(u8)", "(u16)", "(u32)", "(u64)", "(usize)", "(i8)", "(i16)", "(i32)", "(i64)", "(isize)",
        "(f32)", "(f64)", "(base64)", "(string)", "(bool)", "(U8)", '("")', "(str)", '("u8")', "(r)", "(u8x)", "(Color)", "(color)",
        "(Level)", "(One)", "(String)", "(PathBuf)", "(path)", "(enum)", "(u128)", "(i128)", "(float)", "(int)", "(decimal)"]
NUMS = ["0", "1", "-1", "-0", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535",
        "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551615", "18446744073709551616", "0xff", "-0x80", "0b101", "0o17", "1_000", "+5",
        "340282366920938463463374607431768211456", "0x7fff_ffff"]
FLOATS = ["0.0", "-0.0", "1.5", "1e5", "-2.5e-3", "1_0.2_5", "1e400", "1e-400", "0.1", "16777217.0", "1e39", "+1.0"]
OTHERS = ["null", "true", "false", '"x"', '""', 'r"y"', '"red"', '"dark-blue"', '"DarkBlue"', '"type"', '"low"',
          '"é/ü"', '"null"', '"1"', '"ab"', '"c-d"', '"http-server"', '"HTTPServer"', '"x1-y2"', '"i-pv4"', '"ip-v4"', '"ipv4"',
          '"a"', '"a-bc"', '"abc"', '"mixed-case"', '"snake-case"', '"snake_case"', '"lower"', '"red "', '" red"', '"re\\u{64}"', '"RED"', '"red\\u{0}"',
          '"dark--blue"', '"four5-six"', '"four5six"', '"yes-it-is-a-long-name"']


def scalar_types():
    res = [Int(t) for t in BITS] + [Float("f32"), Float("f64"), Bool]
    res += [Str(t) for t in ("String", "PathBuf", "ArcStr", "ArcPath")]
    res += [SEnum("Color"), SEnum("Level"), SEnum("One"), SEnum("Two"), SEnum("Proto"), Value, Literal]
    res += [Opt(u8), Opt(st), Opt(Float("f64")), Opt(Bool), Opt(SEnum("Color")), Opt(Value), Opt(Literal)]
    res += [Ptr("Box", u8), Ptr("Rc", st), Ptr("Arc", Bool), Ptr("Box", Opt(i8)), Opt(Ptr("Arc", u64)),
            Ptr("Box", SEnum("Level")), Ptr("Box", Value), Ptr("Rc", Float("f32")), Ptr("Arc", Int("i16"))]
    res += [Spanned(u8), Spanned(st), Opt(Spanned(u16)), Spanned(Opt(Bool)), Spanned(Ptr("Box", i64)),
            Ptr("Rc", Spanned(Float("f64"))), Spanned(SEnum("Color")), Spanned(Value), Spanned(Literal),
            Ptr("Box", Ptr("Box", u8)), Opt(Opt(u8)), Spanned(Spanned(u8))]
    return res


def scalar_cases():
    lit = NUMS + FLOATS + OTHERS
    some = ["", "(u8)", "(i8)", "(f64)", "(f32)", "(zz)", "(base64)", '("é")']
    res = []
    for i, s in enumerate(scalar_types()):
        plain = s.term["k"] in ("int", "float", "bool", "string", "enum")
        res.append(Case(Struct("S%d" % i, [arg("a", s)]),
                        heads=["n " + a for a in (ANNS if plain or not QUICK else some)],
                        chunks=lit if plain or not QUICK else lit[::3] + OTHERS, n=1))
    for i, s in enumerate([u8, Float("f64"), Opt(Bool), st, SEnum("Color"), Opt(Spanned(i64))]):
        res.append(Case(Struct("SP%d" % i, [prop("p", s)]), heads=["n p=" + a for a in some],
                        chunks=lit[::4] + OTHERS, n=1))
        res.append(Case(Struct("SA%d" % i, [args("p", s)]), heads=["n " + a for a in some[:4]],
                        chunks=[x + " " for x in lit[::9] + OTHERS[::2]], n=2))
        res.append(Case(Struct("SM%d" % i, [props("p", s)]), heads=["n q=" + a for a in some],
                        chunks=lit[::4] + OTHERS, n=1))
        res.append(Case(Struct("SU%d" % i, [rest("p", uw=arg("p", s))]), heads=["n { x " + a for a in some],
                        chunks=lit[::4] + OTHERS, tails=[";}"], n=1))
    return res


def mode_cases():
    n = 4 + D
    a = ["A", "B", "/", "+", "=", "-", "z", "é", "9"]
    strs = ['"abc"', '"7"', '"07"', '"123"', '""', '"é"', '"A"', "null", "true", "1", "1.5", 'r"x"',
            '"a\\nb"', '"🌍"', '"\\u{7f}"', '"AAAA"', '"QUI="', '"QQ=="', '"QUJD"', '"QQ="', '"QR=="', '"QUK="']
    anns = ["", "(base64)", "(str)", "(u8)", '("base64")', "(Base64)", "(string)"]
    res = []

    def scalars(i, f):
        res.append(Case(Struct("M%d" % i, [f]), heads=["n " + x for x in anns], chunks=strs, n=1))
    i = 0
    for fs in ("any", "alpha", "small"):
        for o in (False, True):
            scalars(i, arg("a", dec="s", fs=fs, opt=o))
            i += 1
    for fs in ("any", "even"):
        for o in (False, True):
            scalars(i, arg("a", dec="b", fs=fs, opt=o))
            i += 1
    res.append(Case(Struct("MB", [arg("a", dec="b")]), heads=['n (base64)"'], chunks=a, tails=['"'], n=n))
    res.append(Case(Struct("MB2", [arg("a", dec="b")]), heads=['n (base64)"QUJ', 'n (base64)"QUJDA', 'n (base64)"'],
                    chunks=["A", "Q", "=", "/", "g"], tails=['"'], n=n + 1))
    res.append(Case(Struct("MB3", [arg("a", dec="b", fs="even", opt=True)]), heads=['n "', 'n (base64)"'],
                    chunks=["A", "é", "=", "🌍", "\\n", "中"], tails=['"'], n=n))
    for j, (m, fs) in enumerate([("s", "small"), ("s", "alpha"), ("b", "any"), ("b", "even")]):
        vals = ['"7"', '"ab"', '""', "null", "1", '(base64)"QQ=="', '(base64)"QUI="', '(zz)"ab"', '(base64)"%"']
        res.append(Case(Struct("MP%d" % j, [prop("a", dec=m, fs=fs), prop("b", dec=m, fs=fs, opt=True)]),
                        heads=["n"], chunks=[" a=" + v for v in vals] + [" b=" + v for v in vals], n=2))
        res.append(Case(Struct("MA%d" % j, [args("a", dec=m, fs=fs)]), heads=["n"],
                        chunks=[" " + v for v in vals], n=3 if QUICK else 4))
        res.append(Case(Struct("MM%d" % j, [props("a", dec=m, fs=fs, kfs="alpha")]), heads=["n"],
                        chunks=[" k=" + v for v in vals] + [" K=" + vals[0], " j=" + vals[1]], n=2))
        res.append(Case(Struct("MU%d" % j, [child("a", uw=arg("a", dec=m, fs=fs), opt=True),
                                            children("b", "b", uw=prop("b", dec=m, fs=fs, key="k"))]),
                        heads=["n {"], chunks=["a " + v + ";" for v in vals] + ["b k=" + v + ";" for v in vals],
                        tails=["}"], n=2))
        res.append(Case(Struct("MD%d" % j, [arg("a", dec=m, fs=fs, opt=True, default=True),
                                            prop("b", dec=m, fs=fs, opt=True, default=True)]),
                        heads=["n"], chunks=[" " + v for v in vals] + [" b=" + v for v in vals], n=2))
    return res


def special_cases():
    """Spans, names, type names and the context"""
    n = 3 + D
    one = Struct("X1v", [span("s"), arg("v", u8)])
    ctx3 = ((), ((1, 5),), ((1, 5), (2, 7)), ((2, 3), (1, 4), (1, 6)), ((2, 1), (2, 9)))
    names = ["n", '"a b"', "é", "abc", "(ty)abc", '("12")abc', "(abc)é", '("")n', "(ty)x", "(Ty)x"]
    kidn = ["a 1;", "(t)a 2;", "é 3;\n", "a;", " \\\n a 4 //c\n"]
    ctx8 = ctx3 + (((4, 0),), ((5, 3), (4, 0)), ((6, 1), (7, 2)), ((8, 3), (7, 4), (8, 5)), ((5, 1), (5, 2), (6, 3), (6, 4)),
                   tuple((i, i) for i in (8, 7, 6, 5, 2, 1)) + ((4, 0), (4, 0)))
    rec = Ref("X9")
    return [
        Case(Struct("X12", [arg("a", Ctx(1)), arg("b", Ctx(2)), args("m", Ctx(4)), prop("c", Ctx(5), opt=True), prop("d", Ctx(6), opt=True),
                            prop("e", Ctx(7), opt=True), prop("f", Ctx(8), opt=True)]),
             heads=["n 1 2", "n 1 2 3", "n c=1 d=2 e=3 f=4 1 2 3"], chunks=[" 4", " c=1", " d=1", " e=1", " f=null", "\nn 5 6"], n=3,
             ctxs=ctx8),
        Case(Struct("X13", [child("a", Struct("X13a", [span("s", "ctx"), arg("v", Ctx(4)), prop("w", Ctx(8), opt=True)]), opt=True),
                            children("b", "b", uw=arg("b", Ctx(5))), rest("k", Struct("X13b", [args("v", Ctx(7)), props("p", Ctx(6))]))]),
             form="root", chunks=["a 1\n", "a 1 w=2\n", "b 1\n", "c 1 2 x=3\n"], n=3, ctxs=ctx8),
        Case(Struct("X1", [span("s"), nname("nn"), tname("tn", opt=True), rest("kids", one)]),
             heads=[x + " {" for x in names], chunks=kidn, tails=["}", "}\nn"], n=n),
        Case(Struct("X2", [tname("tn"), nname("nn", "alpha"), arg("v", u8, opt=True)]), heads=names,
             chunks=[" 1", "\n" + names[3], ";(q)zz", " a=1"], n=n),
        Case(Struct("X3", [tname("tn", opt=True, fs="small"), nname("nn")]), heads=names + ["(\"7\")n", "(\"x\")n"],
             chunks=["\n(\"8\")é", " 1", "\nz"], n=n),
        Case(Struct("X4", [tname("tn", fs="alpha")]), heads=names, chunks=["\nn", "\n(b)n", " 1"], n=n),
        Case(Struct("X5", [span("a"), arg("v", Spanned(u8), opt=True), prop("p", Spanned(st), opt=True),
                           args("more", Spanned(Opt(Bool)))]),
             heads=["n", "  é ", "(t)n", "\n\nn"], chunks=[" 1", ' p="é"', " true", " null", " \\\n", " /-2", "\nn 3", ";n"], n=n + 1),
        Case(Struct("X6", [arg("a", Ctx(1)), arg("b", Opt(Ctx(2))), prop("c", Ctx(1), opt=True),
                           rest("k", Struct("X6k", [span("s", "ctx"), args("v", Ctx(2))]))]),
             heads=["n 1 2 {", "n null null {", "n 1 {", 'n "x" c=1 {', "n c=(u8)null 1 2 {"],
             chunks=["a;", "b 1;", "c 1 null;", "d x=1;"], tails=["}"], n=n - 1, ctxs=ctx3),
        Case(Struct("X7", [child("a", Struct("X7a", [span("s", "ctx"), arg("v", Ctx(1))]), opt=True),
                           children("b", "b", uw=arg("b", Ctx(2)))]), form="root",
             chunks=["a 1\n", "b 1\n", "b null\n", "a\n"], n=n, ctxs=ctx3),
        Case(Enum("X8", [Var("A", "tuple", fields=[span("s"), tname("t", opt=True), nname("n")]),
                         Var("B", "tuple", fields=[tname("t"), arg("v", Ctx(1), opt=True)]),
                         Var("C", "nested", Struct("X8c", [nname("n"), span("s", "ctx")])), Var("D")]),
             heads=["a", "(x)a", "b", "(x)b", "c", "(x)c", "d", "(x)d"], chunks=[" 1", "\n a", "\n(y)b 1"], n=2 + D, ctxs=ctx3[:3]),
        Case(Struct("X9", [span("s"), nname("n"), rest("k", rec)], ref=rec), heads=["a", "é {"],
             chunks=[" {", "b", ";", "é\n", "}", "//x\n"], tails=["", "}", "}}"], n=n + 2),
        Case(Struct("X10", [span("s"), tname("t", opt=True), nname("n", "alpha"), prop("p", u8, key="p", opt=True)], tuple_=True),
             heads=names, chunks=[" p=1", "\nabc", "\n\n(ab)b", ";"], n=n),
        Case(NewType("X11", Struct("X11i", [span("s"), nname("n"), tname("t", opt=True), arg("v", u8, opt=True)]), opt=True),
             heads=names[:6], chunks=[" 1", " {}", "\nq 2", "\nr"], n=n),
    ]


def container_cases():
    n = 4 + D
    base = [arg("a", u8, opt=True), prop("p", st, opt=True), flag("f"),
            children("k", "k", Struct("K0", [arg("v", u8)]))]
    S0 = Struct("K1", base)
    body = [" 1", ' p="x"', " {", "f;", "k 1;", "k 2;", "}", " 2", "\nn"]
    E0 = Enum("K2", [Var("Red"), Var("Blue", "nested", S0), Var("Maybe", "nestopt", S0)])
    res = []
    for i, t in enumerate([S0, Boxed("Box", S0), Boxed("Rc", S0), Boxed("Arc", S0), Boxed("Box", Boxed("Rc", S0)),
                           NewType("K3", S0), NewType("K4", S0, opt=True), NewType("K5", Boxed("Arc", S0), opt=True)]):
        res.append(Case(t, heads=["n", "n {"], chunks=body, tails=["", "}"], n=n - (0 if i in (0, 1) else 1)))
    for i, t in enumerate([E0, Boxed("Box", E0), Boxed("Rc", E0), Boxed("Arc", E0)]):
        res.append(Case(t, heads=["red", "blue", "maybe", "green"], chunks=body[:7] + ["\nred"], tails=["", "}"], n=n - 1))
    R0 = Struct("K6", [child("a", S0, opt=True), child("b", Boxed("Box", S0), opt=True), flag("f"),
                       children("k", "k", S0, opt=True), rest("r", Boxed("Arc", S0))])
    docs = ["a 1\n", "a\n", "b\n", 'b p="x"\n', "f\n", "k 1\n", "k {f;}\n", "z 1\n", "y {k 1;}\n", "z 1 2\n", "f 1\n"]
    for t in [R0, Boxed("Box", R0), Boxed("Rc", R0), Boxed("Arc", R0)]:
        res.append(Case(t, form="root", chunks=docs, n=n - 1))
    # the same structure as a node
    res.append(Case(R0, heads=["n {"], chunks=[d[:-1] + ";" for d in docs], tails=["}"], n=n - 1))
    R1 = Struct("K7", [child("a", S0), children("k", "k", S0, default=True)])
    res.append(Case(R1, form="root", chunks=docs, n=n - 1))
    res.append(Case(R1, heads=["n {"], chunks=[d[:-1] + ";" for d in docs], tails=["}"], n=n - 1))
    res.append(Case(Struct("K8", []), form="root", chunks=["a\n", "//x\n", "/-b\n"], n=3))
    res.append(Case(Struct("K9", [], unit=True), form="root", chunks=["a\n", "//x\n", "/-b\n"], n=3))
    lit = ["1", "300", "-1", "null", "true", '"x"', '"red"', "1.5", "(u8)2", "(i8)3", '(u8)"x"', "(zz)null", "(f64)2.5"]
    for i, b in enumerate([u8, i64, Float("f64"), st, Bool, SEnum("Color"), Str("PathBuf")]):
        for j, w in enumerate([lambda s: s, lambda s: Ptr("Box", s), lambda s: Ptr("Rc", s), lambda s: Ptr("Arc", s), Opt,
                               Spanned, lambda s: Opt(Ptr("Box", s)), lambda s: Ptr("Arc", Opt(s)),
                               lambda s: Opt(Spanned(s)), lambda s: Spanned(Opt(s)), lambda s: Spanned(Ptr("Rc", s))]):
            res.append(Case(Struct("K%d_%d" % (i, j), [arg("a", w(b)), args("b", w(b))]), heads=["n "],
                            chunks=[x + " " for x in lit], n=1 if QUICK else 2))
    return res


def mixed_cases():
    """Every kind of field in one structure, every kind of surplus element"""
    n = 4 + D
    one = Struct("T1v", [arg("v", u8)])
    flatd = Struct("T1f", [prop("fp", u8, opt=True), child("fc", one, opt=True), flag("ff")], default="derive")
    e = Enum("T1e", [Var("EUnit"), Var("ETup", "tuple", fields=[arg("a", u8), prop("b", u8, key="b", opt=True)]),
                     Var("ENest", "nested", one), Var("EOpt", "nestopt", one)])
    full = Struct("T1", [arg("a", u8), arg("b", u8, opt=True), prop("p", u8, opt=True), extra("x"),
                         flat("fl", flatd, "cp"), child("c", one, opt=True), flag("g"),
                         children("k", "k", one), child("w", uw=arg("w", u8), opt=True), extra("y", u16)])
    catch = Struct("T2", [arg("a", u8), args("as_", u8), prop("p", u8, opt=True), props("ps", u8),
                          child("c", one, opt=True), rest("r", e), extra("x")])
    ptr = [Struct("T4" + w, [arg("a", u8), flat("fl", Boxed(w, Struct("T4%sf" % w, [
        prop("fp", u8, opt=True), child("fc", one, opt=True), children("k", "k", one, opt=True), flag("ff"), child("w", uw=arg("w", u8), opt=True)],
        default="derive")), "cp"), child("c", one, opt=True)]) for w in ("Box", "Rc", "Arc")]
    deep = Struct("T3", [children("l", "l", Struct("T3l", [args("a", u8), children("m", "m", Struct("T3m", [
        arg("v", u8), flag("f")]))]))])
    entries = [" 1", ' "x"', " 300", " p=1", " fp=2", " p=\"s\"", " zz=1"]
    kids_ = ["c 1;", "c;", "g;", "g 1 x=2;", "k 1;", "k true;", "w 1;", "fc 1;", "ff;", "zz;"]
    return [
        Case(full, heads=["n", "n 1", "(t)n 1", "n 1 {", "n true p=true {"],
             chunks=entries + [" {"] + kids_ + ["}"], tails=["", "}"], n=n - 1),
        Case(catch, heads=["n", "n 1", "n 1 {", 'n "x" q="y" {', "(t)n 1 {"],
             chunks=entries + [" {", "}", "e-unit;", "e-unit 1 2;", "e-tup 1 b=2;", "e-tup;", "e-opt;", "e-nest 300;", "no;", "c 1;"],
             tails=["", "}"], n=n - 1),
    ] + [
        Case(t, heads=["n 1", "n 1 fp=2 {fc 1;", "n 1 {"], chunks=[" fp=1", ' fp="s"', " zz=1", " {", "fc 1;", "fc;", "fc 1 2;", "k 1;", "k true;",
                                                                  "ff;", "ff 1;", "w 1;", "c 1;", "zz;", "}"], tails=["", "}"], n=3 + D)
        for t in ptr
    ] + [
        Case(deep, heads=["n {", "n {l {"], chunks=["l 1 2 {", 'l "x" "y" {', "m 1;", "m;", "m 1 2 {f 1;};", "f;", "}", "m {g;};",
                                                   "l 300 {"], tails=["}", "}}", "}}}"], n=n),
        Case(deep, form="root", heads=["", "l {", "l true {m;}\n"], chunks=["l 1 2 {", 'l "x" "y" {', "m 1;", "m;", "}\n", "z\n",
                                                                         "m false;"], tails=["", "}", "}}"], n=n),
        Case(e, heads=["e-unit", "e-tup", "e-nest", "e-opt", "e-x"],
             chunks=[" 1", ' "x"', " 2", " b=1", ' b="y"', " c=3", " {z;}", "\ne-unit 1", "\n(t)e-tup 1"], n=n - 1),
    ]


def probe_cases():
    """Decoders written by hand that report errors of their own, at every place
    where derived ones call them"""
    n = 3 + D
    progs = ["a", "c", "v", "u", "x", "y", "cx", "vuy", "xc"]
    strs = [' "%s"' % p for p in progs]
    fl = flat("f", PartP, "cp")
    pn = ProbeNode
    ctx = ((), ((3, 1),), ((3, 1), (1, 1), (3, 2)))
    full = Struct("H1", [arg("a", Probe), arg("b", Opt(Probe)), args("m", Probe)])
    ps = Struct("H2", [prop("a", Probe), prop("b", Opt(Spanned(Probe))), prop("d", Probe, opt=True), props("m", Ptr("Box", Probe))])
    kids = Struct("H3", [child("a", pn), child("b", pn, opt=True), children("k", "kk", pn), flag("g"), rest("r", pn)])
    un = Struct("H4", [child("a", uw=arg("a", Probe)), child("b", uw=prop("b", Probe, key="p"), opt=True),
                       children("k", "kk", uw=args("k", Probe)), rest("r", uw=props("r", Probe))])
    un2 = Struct("H5", [child("a", uw=child("a", pn)), children("b", "bb", uw=children("b", "kk", pn)), rest("c", uw=rest("c", pn))])
    part = lambda nm, what, *more: Struct(nm, [flat("f", PartP, what)] + list(more))
    inner = Struct("H6i", [prop("own", Probe, opt=True), child("ck", pn, opt=True), flat("f", PartP, "cp"), flag("g"),
                           flat("h", Boxed("Box", PartQ), "cp")], default="derive")
    en = Enum("H7", [Var("A", "nested", pn), Var("B", "nestopt", pn), Var("C", "tuple", fields=[arg("x", Probe), prop("y", Probe, key="y", opt=True)]),
                     Var("D")])
    pk = [" pa=" + x.strip() for x in strs[:6]] + [" pb=1", " e1=1", " zz=1", " qa=1", ' qa="c"']
    ck = ["pa%s;" % x for x in strs[:6]] + ["pb 1 {z;};", "e1;", "zz;", "qa;", 'qa "x";']
    return [
        Case(full, heads=["n", "(t)n", 'n "c" (bad)"a"', 'n (bad)"x"'], chunks=strs + [' (bad)"v"', " (ok)1", " null", "\nn 1 2", "\nn"], n=n),
        Case(ps, heads=["n", 'n a="a"', 'n a="c"'], chunks=[" %s=%s" % (k, v) for k in ("a", "b", "m") for v in
                                                    ('"a"', '"cv"', '"x"', '(bad)"u"', "null", '(bad)"y"')] + [' d="y"', " 1", "\nn"], n=n - 1),
        Case(kids, heads=["n {", "n {a;"], chunks=[k + v + ";" for k in ("a", "b", "kk", "zz") for v in ("", ' "c"', ' "uy"', ' "vx" {z;}')]
             + ["g;", "g 1;"], tails=["}", "}\nn {}"], n=n - 1),
        Case(kids, form="root", heads=["", "a\n"], chunks=[k + v + "\n" for k in ("a", "b", "kk", "zz") for v in ("", ' "c"', ' "uy"')] + ["g 1\n"],
             n=n - 1, ctxs=ctx),
        Case(un, heads=["n {", 'n {a "a";'], chunks=["a%s;" % x for x in strs[:6]] + ["b p=%s;" % x for x in strs[:6]] + ['kk "c" "v";', 'kk "x" "c";', 'kk;',
             'zz i="u" j="c";', 'zz i="y" j="c";', 'zz (bad)1;', 'zz i=(bad)"v";'], tails=["}"], n=n - 1),
        Case(un2, heads=["n {", 'n {a {a;};'], chunks=['a {a "c";};', 'a {a "x";};', 'a {b;};', "a;", 'bb {kk "v"; kk "u";};', 'bb {kk "y"; kk "u";};', "bb {z;};",
             'q {w "c"; w "x"; w "c";};', "q;"], tails=["}"], n=n - 1),
        Case(part("H8", "cp"), heads=["n", "n {"], chunks=pk + [" {"] + ck + ["}"], tails=["", "}"], n=n - 1),
        Case(part("H9", "p", props("rp", Probe), rest("rc", pn)), heads=["n", "n {"], chunks=pk + [" {"] + ck, tails=["", "}"], n=n - 1),
        Case(part("H10", "c", flat("h", PartQ, "c"), rest("rc", pn)), heads=["n {"], chunks=pk + ck, tails=["", "}"], n=n),
        Case(part("H11", "c", flat("h", Boxed("Rc", PartQ), "cp"), child("zz", pn, opt=True)), heads=["n {", "n"], chunks=pk + [" {"] + ck, tails=["", "}"], n=n - 1),
        Case(Struct("H6", [flat("i", inner, "cp"), flag("zz"), prop("zz", Probe, opt=True)][:2]), heads=["n {", "n"],
             chunks=pk + [' own="c"', ' own="x"', " {"] + ck + ["ck;", 'ck "vx";', "g;", "g 1;"], tails=["", "}"], n=n - 1),
        Case(part("H12", "c", flat("h", PartQ, "c"), rest("rc", pn)), form="root", chunks=[x[:-1] + "\n" for x in ck], n=n, ctxs=ctx),
        Case(en, heads=["a", "b", "c", "d", "(t)b", 'c "a"'], chunks=strs[:8] + [' y="c"', ' y="x"', " {}", "\nd 1", '\na "v"'], n=n - 1),
        Case(NewType("H13", pn, opt=True), heads=["n", "(t)n"], chunks=strs + [" {}", "\nn", '\nn "u"'], n=n - 1),
        Case(NewType("H14", Boxed("Arc", pn)), heads=["n", "(t)n"], chunks=strs + ["\nn", '\nn "u"'], n=n - 1, ctxs=ctx),
        Case(pn, heads=["", "n"], chunks=strs + ["\nn", ";n"], n=n, ctxs=ctx),
        Case(ProbeRoot, form="root", heads=["", "m"], chunks=strs + [' "h"', ' "ch"', "\nn", ";n", ' "hch"'], n=n, ctxs=ctx),
        Case(Boxed("Box", ProbeRoot), form="root", heads=["", "m"], chunks=strs + ["\nn"], n=n - 1),
    ]


def fault_cases():
    """Each kind of fault at each kind of place"""
    n = 2 + D
    one = Struct("G1v", [arg("the_value", u8)])
    req = Struct("G1", [arg("first_one", u8), prop("need_ed", st), child("kid_a", one), flag("fl_ag"),
                        child("kid_b", uw=prop("kid_b", Bool, key="on"), opt=True), children("more", "item", one)])
    opt = Struct("G2", [arg("a", st, opt=True), prop("b", Opt(Float("f64"))), flat("f", Struct("G2f", [
        prop("fb", i8, opt=True), child("fk", one, opt=True), flag("ff")], default="derive"), "cp"),
        tname("t", opt=True, fs="alpha")])
    ptr = [Struct("G2%s" % w, [arg("a", st, opt=True), flat("f", Boxed(w, Struct("G2%sf" % w, [
        prop("fb", i8, opt=True), child("fk", one, opt=True), children("fm", "m", one, opt=True), flag("ff")], default="derive")), "cp"),
        child("o", one, opt=True)]) for w in ("Box", "Rc", "Arc")]
    nn = Struct("G3", [nname("n", "alpha"), tname("t", fs="small"), arg("v", SEnum("Level"), opt=True)])
    e = Enum("G4", [Var("Uno"), Var("Dos", "nested", one), Var("Tres", "nestopt", one),
                    Var("Quatro", "tuple", fields=[arg("a", u8), children("k", "kk", one)])])
    tup = Struct("G5", [arg("a", u8), arg("b", dec="s", fs="small"), prop("c", dec="b", fs="even", key="cc"),
                        children("d", "dd", uw=arg("d", u8))], tuple_=True)
    entry = [" 1", ' "x"', " 1.5", " null", " true", ' (u8)"x"', " (i8)1", ' need-ed="é"', " need-ed=1", " need_ed=2", " é=1"]
    kids_ = ["kid-a 1;", "kid-a;", "kid-a é=1 1;", "kid_a 1;", "fl-ag;", "fl-ag 1;", "(é)fl-ag;", "kid-b on=true;", "kid-b;",
             "kid-b on=1;", 'item "x";', "item 256;", "é;", "\"a b\" 1;"]
    res = []
    for pre in ["n", "é", "(t)n"]:
        res.append(Case(req, heads=[pre], chunks=entry + [" {"], tails=["", "{}", " {kid-a 1;}", "kid-a 1;}"], n=n))
    res.append(Case(req, heads=['n 1 need-ed="x" {', 'é 1 need-ed="x" {\n', "n {"], chunks=kids_,
                    tails=["}", "\n kid-a 1\n}"], n=n))
    res.append(Case(req, heads=['n 1 need-ed="x" {kid-a 2;}\n', "z 300\n"], chunks=["n 1\n", "é\n", "(t)n 1\n", "n true 2\n"], n=n))
    res.append(Case(opt, heads=["n", "(é)n", "(ab)n", "n {", '("1")n {'],
                    chunks=[' "x"', " 1", " b=1", " b=1.5", ' b="é"', " fb=1", " fb=200", " fb=(u8)1", " {", "fk 1;", "fk;", "ff;", "ff 1;",
                            "}", " zé=1"], tails=["", "}"], n=n + 1))
    for t in ptr:
        res.append(Case(t, heads=["n", 'n "x" fb=1 {fk 1;', "n {"], chunks=[" 1", " fb=1", " fb=200", " {", "fk 1;", "fk 2 3;", "fk;", "m 1;",
                        "m 300;", "ff;", "ff 1;", "o 1;", "}"], tails=["", "}"], n=n))
    res.append(Case(nn, heads=["n", "é", '("1")n', '("é")n', '("12")é', "(abc)n"],
                    chunks=[' "low"', ' "Low"', " 1", ' (t)"low"', " x=1", " {a;}", "\n(\"5\")ok"], n=n))
    res.append(Case(e, heads=["uno", "dos", "tres", "quatro", "é", "(x)uno", "(x)dos", "(x)tres"],
                    chunks=[" 1", " é=1", " {", "kk 1;", "é 1;", "kk;", "}", "\nuno é=2 1 {z;}"], tails=["", "}"], n=n + 1))
    res.append(Case(tup, heads=["n", "n 1", 'é 1 "5"', 'n 1 "5" cc="ab"', 'n 1 "5" cc="é" {'],
                    chunks=[' "é"', " 2", ' "5"', ' cc="abc"', ' cc=(base64)"%"', " cc=(zz)1", " {", "dd 1;", "dd;", "é;", "}"], tails=["", "}"],
                    n=n + 1))
    res.append(Case(Struct("G6", [child("kid_a", one), flag("fl_ag"), children("more", "item", one),
                                  child("kid_b", uw=arg("kid_b", Bool), opt=True)]), form="root",
                    heads=["", "kid-a 1\n", "é 1\n"], chunks=[x[:-1] + "\n" for x in kids_], n=n))
    return res
