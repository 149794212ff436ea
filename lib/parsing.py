"""Checks of the text level: C01 to C10."""
import json, os
from core import *
import texts

ALWAYS = ["hang", "crash"]


def b(x):
    return "TRUE" if x else "FALSE"


class ParseCheck(Check):
    def __init__(self, pid, cats, line=False, deep=False, scalar=False,
                 form="replay"):
        super().__init__(pid, cats + ALWAYS)
        self.form = form
        self.line, self.deep, self.scalar = line, deep, scalar
        self.bin = self.build("harness")
        self.assumptions += [
            "texts are built from the alphabets named in lib/parsing.py; the "
            "specification treats characters by class and every class "
            "boundary is probed",
        ]

    def replay_cmd(self):
        c = [self.bin, self.form, "--cats", ",".join(self.cats)]
        if self.line:
            c.append("--line")
        if self.deep:
            c.append("--deep")
        if self.scalar:
            c.append("--scalar")
        return c

    def enum(self, name, heads, chunks, tails, n, thm=False):
        """All texts head + at most n chunks + tail"""
        d = self.module(name, "KdlEnum", {
            "Heads": tset(heads), "Chunks": tset(chunks),
            "Tails": tset(tails)},
            "  MaxChunks = %d\n  WithPos = %s\n  CheckThm = %s\n"
            "SPECIFICATION Spec\nINVARIANT Emit\n%sCHECK_DEADLOCK FALSE\n"
            % (n, b(self.line), b(thm), "INVARIANT Thm\n" if thm else ""))
        self.tlc_replay(name, d, self.replay_cmd())

    def cover(self, name, probes, tails, depth=2, maxlen=20, fine=False,
              thm=True, alphabet=texts.COVER_ALPHABET):
        """State cover of the machine, then every probe and tail"""
        d = self.module(name, "KdlCover", {
            "Alphabet": "{" + ",".join(map(str, alphabet)) + "}",
            "Probes": "{" + ",".join(map(str, probes)) + "}",
            "Tails": tset(tails)},
            "  MaxDepth = %d\n  MaxLen = %d\n  Fine = %s\n  WithPos = %s\n"
            "  CheckThm = %s\nSPECIFICATION Spec\nVIEW View\n"
            "INVARIANT Emit\nINVARIANT Thm\nCHECK_DEADLOCK FALSE\n"
            % (depth, maxlen, b(fine), b(self.line), b(thm)))
        self.tlc_replay(name, d, self.replay_cmd())

    def oracle(self, name, docs, thm=False):
        """The specification's verdict on given documents"""
        d = self.module(name, "KdlOracle", {}, "CONSTANTS\n"
            "  File = \"docs.ndjson\"\n  Stride = 64\n  WithPos = %s\n"
            "  CheckThm = %s\nSPECIFICATION Spec\nINVARIANT Emit\n"
            "CHECK_DEADLOCK FALSE\n" % (b(self.line), b(thm)))
        with open(os.path.join(d, "docs.ndjson"), "w") as f:
            for t in docs:
                f.write(json.dumps({"t": [ord(c) for c in t]}) + "\n")
        self.tlc_replay(name, d, self.replay_cmd())

    def scale(self, filt=None):
        """One construct long, repeated or deeply nested"""
        ns = [9, 17, 34, 66, 130, 258] if QUICK else [5, 9, 13, 17, 25, 34, 50, 66, 100, 130, 200, 258, 400, 520, 1030]
        self.oracle("Scale", [t for t in texts.scale(ns) if filt is None or filt(t)])

    def join(self, n, size=80000):
        """Documents one after another: far longer texts"""
        g = texts.Gen("%d/%s/join" % (SEED, self.pid))
        d = self.module("Join", "KdlJoin", {}, "CONSTANTS\n"
            "  File = \"docs.ndjson\"\n  Stride = 64\n  WithPos = %s\n"
            "SPECIFICATION Spec\nINVARIANT Emit\n"
            "CHECK_DEADLOCK FALSE\n" % b(self.line))
        with open(os.path.join(d, "docs.ndjson"), "w") as f:
            for i in range(n):
                f.write(json.dumps({"t": [ord(c) for c in g.doc(3, .02)]}) + "\n")
        cmd = self.replay_cmd()
        cmd[1] = "join"
        self.tlc_replay("Join", d, cmd + ["--size", str(size)])

    def every_char(self, *kinds):
        self.oracle("EveryChar", texts.every_char(kinds, 61 if QUICK else 3, self.line))

    def random(self, name, n, depth=3, mut=.35, salt=0, thm=False, filt=None):
        g = texts.Gen("%d/%s/%d" % (SEED, self.pid, salt))
        docs = []
        while len(docs) < n:
            t = g.doc(depth, mut)
            if len(t) < 400 and (filt is None or filt(t)):
                docs.append(t)
        self.oracle(name, docs, thm)


TAILS = ["", "\n", '"', " 1", "a)", "}"]
STRUCT = ["a", " ", "\n", '"', "{", "}", ";", "/-", "=", "1", "(u)", "\\\n",
          "/*", "*/", "//", "true", "r"]


def c01():
    c = ParseCheck("C01", ["accept"])
    c.cover("CoverControl", texts.probes(), TAILS)
    c.enum("EnumStruct", [""], STRUCT, ["", "1\n"], 4 if QUICK else 6, thm=QUICK)
    c.enum("EnumItems", ["a "], ["b", "=", '"c"', "1", " ", "(t)", "null",
                                 "nullx", "/-", "{", "}", "-", "r#", '"', "#"],
           ["", "\n", ' "'], 4 if QUICK else 5)
    c.enum("EnumNumbers", ["a ", "a -", "a b=+"], list("0179afxbo_.eE+-") , ["", "=1", "x"],
           4 if QUICK else 6)
    c.random("RandomDocs", 6000 if QUICK else 60000)
    if not QUICK:
        c.cover("CoverFine", texts.COVER_ALPHABET, ["", " 1\n"], fine=True,
                maxlen=16)
        c.cover("CoverDeep", texts.probes(), TAILS + ["*/", "#", '"#', ";", "=1"],
                depth=3, maxlen=24)
    c.every_char("ident")
    c.scale()
    return c.finish()


def c02():
    c = ParseCheck("C02", ["accept", "struct", "str", "num", "panic"])
    c.enum("EnumTree", [""], ["a", "(t)a", " 1", " b=2", " b=(u)3", ' "s"', " c=null",
                              " (v)true", "{", "}", "\n", ";"],
           [""], 6 if QUICK else 7, thm=False)
    c.enum("EnumNesting", ["a {", "a 1 {b;"], ["b", "{", "}", ";", "\n", " 1", "/-"],
           ["", "}", ";}", ";};}"], 6 if QUICK else 8, thm=False)
    c.enum("EnumProps", ["n"], [" a=1", " a=2", " b=1", ' "a"=3', " /-a=4", " 5",
                                ' a="x"', " (t)6", " a=(t)7", ' r"b"=8'],
           ["", " {c;}"], 4 if QUICK else 5, thm=QUICK)
    c.enum("EnumTypes", ["(", "a (", "a b=(", '("'], ["u", "i", "f", "8", "16", "32", "64", "size", "base", "e", "I", "-", "1", "28"],
           [")n", ")1", '")n', ")n {(u8)b;}"], 2 if QUICK else 3, thm=False)
    c.cover("CoverFine", [], [], fine=True, maxlen=14 if QUICK else 18)
    c.random("RandomDocs", 6000 if QUICK else 60000, mut=.1)
    c.every_char("raw")
    c.scale()
    c.join(12000 if QUICK else 80000)
    return c.finish()


def c03():
    c = ParseCheck("C03", ["accept", "str", "panic"])
    esc = ["\\" + chr(x) for x in range(32, 127)]
    c.enum("EnumEscapes", ['a "', '"', 'a b="', 'a "x"="', '("', 'a {b "'],
           esc + ["\\\n", "\\é", "\\\x00", "x", "\n", "\\u{41}"],
           ['"', 'y"', '")', '")a', '"=1', '";}'], 1 if QUICK else 2)
    c.enum("EnumUnicode", ['a "\\u', 'a "\\u{', 'a "x\\u{0', '("\\u{', '"\\u{'],
           list("0189aDdFfg{}"), ['}"', '"', '}z"', '}")a'], 4 if QUICK else 5)
    c.enum("EnumUnicodeBounds", ['a "\\u{'],
           ["%x" % v for v in (0, 1, 9, 0x20, 0x22, 0x5c, 0x7f, 0x80, 0x7ff, 0x800,
            0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff,
            0x10000, 0x10ffff, 0x110000, 0x1fffff, 0xffffff)]
           + ["%06X" % v for v in (0, 0x41, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff)]
           + ["%07x" % v for v in (0, 0x41, 0x10ffff)]
           + ["0%x" % v for v in (0xd7ff, 0xd800, 0xdfff, 0xe000)], ['}"', 'x}"'], 1)
    c.enum("EnumRaw", ["a r", "r", "a b=r", "(r", "a r#", "a r##", "a r###"],
           ["#", '"', "x", "\\n", "\n", "é"],
           ["", '"', '"#', '"##', '")', '"#)a'], 4 if QUICK else 6)
    c.enum("EnumString", ['a "', '"'], ["x", "é", "🌍", "\n", "\r", "\\n", '\\"', "\\\\", "/",
                                        "\\/", "\\t", "{", "\\u{1F30D}"],
           ['"', ' "'], 3 if QUICK else 4)
    c.cover("CoverIdent", texts.probes(), ["", " ", "=1", ")a"], maxlen=6)
    c.random("RandomDocs", 4000 if QUICK else 60000, mut=.2,
             filt=lambda t: '"' in t)
    c.every_char("string", "escape")
    c.scale()
    return c.finish()


def boundary_numbers():
    res = []
    for bits in (8, 16, 32, 64):
        for base in (2 ** (bits - 1), 2 ** bits):
            for d in (-2, -1, 0, 1, 2):
                v = base + d
                for s in ("", "+", "-"):
                    for t in (str(v), "0x%x" % v, "0x%X" % v, "0o%o" % v, "0b" + bin(v)[2:],
                              "00" + str(v), "0x00%x" % v, "%d_%d" % divmod(v, 10),
                              "0x%x_" % v):
                        res.append(s + t)
    for v in ("0", "00", "0_0", "0x0", "0b0", "0o0", "1_", "0x_1", "0b_", "18446744073709551616000",
              "1" * 40, "0x" + "f" * 33, "0b" + "1" * 65, "0b" + "1" * 64, "0o" + "7" * 21,
              "0o1" + "7" * 21, "0o2" + "0" * 21):
        for s in ("", "+", "-"):
            res.append(s + v)
    return res


def decimals():
    ip = ["0", "1", "10", "123", "9007199254740993", "00", "1_0"]
    fp = ["", ".0", ".5", ".1", ".30000000000000004", ".1_2", ".", "._1", ".1_"]
    ep = ["", "e0", "E5", "e+10", "e-10", "e308", "e309", "e-324", "e38", "e39", "e-46", "e",
          "e_1", "e1_0", "e+", "E-_"]
    return [s + i + f + e for s in ("", "-", "+") for i in ip for f in fp for e in ep]


def c04():
    c = ParseCheck("C04", ["accept", "num", "panic", "scalar"], scalar=True)
    c.enum("EnumBoundaries", ["a " + x for x in boundary_numbers()], [], [""], 0)
    c.enum("EnumDecimals", ["a " + x for x in decimals()], [], [""], 0)
    c.enum("EnumDigits", ["a ", "a -", "a +"], list("0179_.eE+-xafbo"), ["", "\n"], 4 if QUICK else 6)
    c.enum("EnumProp", ["a b=", "a (u8)"], list("019_.e-x"), [""], 4 if QUICK else 6)
    c.enum("EnumTypedRadix", ["a 0x", "a 0o", "a 0b", "a -0x"], list("0178fFgA_"), [""], 4 if QUICK else 6)
    g = texts.Gen("%d/C04" % SEED)
    c.oracle("RandomNumbers", ["n " + " ".join(g.number() for _ in range(4))
                               for _ in range(5000 if QUICK else 60000)])
    c.scale()
    return c.finish()


def c05():
    c = ParseCheck("C05", ["accept", "struct", "str", "num", "panic"])
    trivia = [" ", "\t", "\ufeff", "\u3000", "\n", "\r\n", "\r", "\u2028", "/*x*/", "/*/**/*/",
              "//x\n", "\\\n", "\\ //c\r\n", "\\/**/\n"]
    tok = ["a", "1", "b=2", "{", "}", ";", "/-"]
    c.enum("EnumTrivia", ["", "a"], trivia + tok, [""], 3 if QUICK else 4, thm=True)
    c.enum("EnumTriviaDeep", ["a ", "a b=1", "a{b;}", "a{"], trivia + ["1", "}", "c"], ["", "1", "\nz"],
           3 if QUICK else 4, thm=False)
    c.enum("EnumComment", ["a /*", "/*", "//", "a //", "a \\//", "a/*"],
           ["/", "*", "x", '"', "\n", "{", "\\", "/*", "*/", "-"],
           ["", "*/", "*/\n", "\nb", "*/ 1"], 3 if QUICK else 5)
    allws = [chr(x) for x in texts.WS] + [chr(x) for x in texts.NL] + ["\r\n"]
    c.enum("EnumAllSpace", ["", "a", "a 1", "a b=1", "a {", "a{b;}", "/-", "a /-", "a \\", "a /-1",
                            "(t)", "a (t)", "a b=", "a\\ ", "a //x", "/*x", "a{b"], allws + ["\x0b", "\u200b", "\u180e"],
           ["", "b", "1", " 1", "{}", "\n", "c=1", "}", "*/"], 1 if QUICK else 2)
    c.random("RandomDocs", 5000 if QUICK else 60000, mut=.1, thm=True,
             filt=lambda t: "/*" in t or "//" in t or "\\\n" in t or "\ufeff" in t)
    c.every_char("comment")
    c.scale()
    return c.finish()


def c06():
    c = ParseCheck("C06", ["accept", "struct", "str", "num", "panic"])
    c.enum("EnumSlashdash", ["", "a"], ["/-", "a", " ", "1", "b=2", "{", "}", "\n", ";", "(t)"],
           [""], 5 if QUICK else 7, thm=QUICK)
    c.enum("EnumSlashdashItems", ["a"], [" 1", " b=1", " b=2", " /-1", " /-b=3", " /- (t)4",
                                         " /-/*c*/5", " /-\\\n6", "{", "}", "/-{", " /-{", "c;", "/-c;",
                                         "/-d 1 b=2{e;}\n", ' /-"s"', ' /-"s"="t"', " /-null", "\n"],
           [""], 4 if QUICK else 5, thm=QUICK)
    c.random("RandomDocs", 5000 if QUICK else 60000, mut=.1, thm=True,
             filt=lambda t: "/-" in t)
    c.scale()
    return c.finish()


def c07():
    c = ParseCheck("C07", ["span", "panic"])
    toks = ["a", "é中", "(t)", '("é")', " ", "\u3000", '"🌍x"', 'r#"é"#', "1", "null", "b=", '"é"=',
            "{", "}", ";", "\n", "\r\n", "\u2028", "/*é*/", "//中\n", "/-"]
    c.enum("EnumSpans", ["", "é "], toks, [""], 4 if QUICK else 5, thm=QUICK)
    c.enum("EnumTerminators", ["a", "é 1", "a{b;}", "a{b}", "a{é", "(t)a \\\n1", "a /-é", "a{b;}/-"],
           ["\n", "\r", "\r\n", ";", " ", "//x", "/**/", "\\\n", "\u2029", "\x85", "z", "}"], [""], 4 if QUICK else 5,
           thm=QUICK)
    c.cover("CoverFine", [], [], fine=True, maxlen=12 if QUICK else 18)
    c.random("RandomDocs", 6000 if QUICK else 60000, mut=.05)
    c.every_char("ident")
    c.scale()
    c.join(12000 if QUICK else 80000)
    return c.finish()


def c08():
    c = ParseCheck("C08", ["line", "panic"], line=True)
    c.enum("EnumLines", ["", "é "], ["a", "\t", "中", "🌍", "\n", "\r\n", "\r", "\x0c", "\u2028", "1", " ", '"\n\r"',
                               "/*\n*/", "{", "}", "e\u0301", '"\u200b\x01"'], [""], 4 if QUICK else 5)
    c.enum("EnumNewlines", ["a", "a {b", 'a "', "/*", "//"], ["\n", "\r", "\x0c", "\x85", "\u2028", "\u2029", "\t", "x", "\x0b"],
           ["", 'z\n', ' "', "\n}", "*/ z", '" 1\ny'], 3 if QUICK else 5)
    c.random("RandomDocs", 6000 if QUICK else 60000, mut=.15)
    c.every_char("string")
    c.scale()
    c.join(12000 if QUICK else 80000)
    return c.finish()


def stress_docs(k):
    """Long and repetitive documents (the cost of reading them matters)"""
    reps = ["(", "a{", "{", "/*", "/-", "a ", '"', "\\", "r#", "\\\n", "a /-", "a b=", "(a)", "/*/", "-", "1", "0x",
            "a;", "}", "\n", "a{b;}", "/**/", "//\n", "a/-{", "/-a{", "\\u{", '"\\u{', "a\\", "r", "#", "é", "\r", "e", "_"]
    res = []
    for r in reps:
        for pre in ("", "a ", 'a "', "a r#\"", "/*", "a 1", "a {"):
            for n in k:
                depthy = "{" in r and '"' not in pre and "/*" not in pre
                m = min(n, 30) if depthy else n
                for post in ("", "}", '"', "*/"):
                    res.append(pre + r * m + post)
    # children nested in children, well formed or wrong at the innermost level
    for head in ("a", "a 1 ", "(t)a b=2", "/-a ", "a /-", "a /-1", "a /*x*/ ", "a \\\n", '"a" "b"', "r#\"a\"# "):
        for end in ("}\n", "};", "} ;", "} // x\n", "}\n\n", "\n} /-{}\n"):
            for m in (24, 30):
                for inner in ("", "b 1;", "b %", 'b "\\q"\n', "b {", "1\n", "}"):
                    res.append((head + "{") * m + inner + end * m)
    return sorted(set(res))


def c09():
    c = ParseCheck("C09", ["panic", "errform", "determinism", "harness"], deep=True)
    c.cover("CoverControl", texts.probes(), ["", '"', " 1", "}"] if QUICK else TAILS)
    c.enum("EnumStruct", [""], STRUCT, [""], 4 if QUICK else 5)
    c.enum("EnumUnclosed", ["a", "é {"], ['"', "r#\"", "/*", "*/", "{", "}", "é", "\\", "u{", "\n", "(", "/-", "#"], [""],
           4 if QUICK else 5)
    c.oracle("Stress", stress_docs([40, 150] if QUICK else [40, 150, 600]))
    c.random("RandomDocs", 5000 if QUICK else 60000, mut=.8)
    return c.finish()


def c10():
    c = ParseCheck("C10", ["errpoint", "unclosed", "found", "panic"])
    c.cover("CoverControl", texts.probes(), ["", "\n", '"', " 1", "}"] if QUICK else TAILS + ["*/", "#", '"#', ";"])
    c.enum("EnumUnclosed", ["", "a é ", "a {b "], ['"', 'r#"', 'r"', "/*", "*/", "{", "}", "é", "\\n", '"#', ";", " "], [""],
           4 if QUICK else 6)
    c.enum("EnumOffence", ["a 1\n", "a {b {c;}\n", "a é "], ["a", "1", "=", ")", "(", "}", "{", "\\", "/-", " ", '"x"', ",", "null", "0x", "'", "[", "<", '"\\q"'],
           ["", "\nz 1\n"], 3 if QUICK else 4)
    c.random("RandomDocs", 6000 if QUICK else 60000, mut=.9)
    c.scale()
    return c.finish()


def tree_docs(c, n):
    """Documents of all shapes, for what is done with parsed trees"""
    c.enum("EnumTree", [""], ["a", "(t)a", ' "b"', " 1", " -0x1F", " b=2.5", " b=(u8)3", ' r#"s"#', " c=null",
                              " (v)true", "{", "}", "\n", ";"], [""], 5 if QUICK else 6)
    c.enum("EnumKids", ["a {", "é {b;", "(t)a 1 {"], ["b", "{", "}", ";", " 1", " c=2", "(é)d", "/-", "\n"],
           ["}", ";}", ";};}"], 5 if QUICK else 6)
    vals = ["0", "-1", "+7", "0x0f_F", "0b1_0", "0o17", "-0b1", "1.0", "1e5", "-0.5E-3", "1_0.5_0", '""', '"é\\n"', 'r"\\"',
            "true", "false", "null", "123456789012345678901234567890", "-0", "1e999", '"null"']
    anns = ["", "(u8)", "(i8)", "(u16)", "(i16)", "(u32)", "(i32)", "(u64)", "(i64)", "(usize)", "(isize)", "(f32)",
            "(f64)", "(base64)", "(other)", '("")', '("a b")', "(é)", '("u8")', "(U8)"]
    c.enum("EnumValues", ["n " + a for a in anns] + ["n k=" + a for a in anns], vals, ["", " {}"], 1)
    c.enum("EnumTypes", anns, ["n", '"n"', "é", 'r"x"', '""'], ["", " 1", " {}", " {m;}"], 1)
    c.random("RandomDocs", n, mut=.02)
    big = ["n " + " ".join(str(i) for i in range(k)) for k in (23, 24, 25, 255, 256, 257)]
    big += ["n " + " ".join("k%d=%d" % (i, i) for i in range(k)) for k in (23, 24, 25, 256)]
    big += ["n {" + "".join("k%d;" % i for i in range(k)) + "}" for k in (23, 24, 255, 256)]
    big += ['n "' + x * k + '"' for x in ("a", "é") for k in (23, 24, 127, 128, 255, 256, 1000)]
    big += ["".join("a%d\n" % i for i in range(k)) for k in (23, 24, 256)]
    big += ["a{" * k + "}" * k for k in (5, 23, 24, 40)]
    big += ["(" + "t" * k + ")n (" + "u" * k + ")" + "9" * k for k in (23, 24, 256)]
    big += ["\n" * 300 + "a\t" * 1 + '"' + "\n" * 300 + '"' + " b=1\nc\n"]
    c.oracle("Large", big)


def c22():
    c = ParseCheck("C22", ["ident"], line=True, form="ident")
    tree_docs(c, 3000 if QUICK else 30000)
    return c.finish()


def c23():
    c = ParseCheck("C23", ["cbor"], line=True, form="cbor")
    tree_docs(c, 3000 if QUICK else 30000)
    return c.finish()


def c26():
    c = ParseCheck("C26", ["spanned"], form="spanned")

    def behaviours(name, top, nan, spans, depth):
        d = c.module(name, "Spanned", {},
                     "CONSTANTS\n  Top = %d\n  Nan = %s\n  MaxSpan = %d\n  Depth = %d\n"
                     "SPECIFICATION Spec\nINVARIANTS Refines Sorted Emit\nCHECK_DEADLOCK FALSE\n"
                     % (top, b(nan), spans, depth))
        c.tlc_replay(name, d, c.replay_cmd() + (["--nan"] if nan else []))
    behaviours("Maps", 4, False, 4, 3 if QUICK else 4)
    behaviours("Nan", 4, True, 4, 3 if QUICK else 4)
    return c.finish()


CHECKS = {"C26": c26, "C22": c22, "C23": c23, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05,
          "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10}
