"""Alphabets and random documents for the text-level checks. The documents are
only stimuli: what they mean is decided by the TLA+ specification."""
import random, unicodedata

WS = [9, 32, 160, 5760] + list(range(0x2000, 0x200B)) + [0x202F, 0x205F, 0x3000, 0xFEFF]
NL = [10, 13, 12, 133, 0x2028, 0x2029]
COVER_ALPHABET = sorted(set(map(ord, 'a \n\r"\\{};/-*=()01xboe._+r#untfls')))


def probes():
    pr = set(range(0, 128))
    for c in WS + NL:
        pr |= {c - 1, c, c + 1}
    pr |= {0xE9, 0x4E2D, 0x1F600, 0x10FFFF, 0xD7FF, 0xE000, 0x7FF, 0x800,
           0xFFFF, 0x10000}
    return sorted(pr)


# widths of these are known to the specification (operator Width)
WIDE = "aé中🌍ñ\u0301Ａ한"


class Gen:
    """Random documents; mostly well formed, then possibly mutated"""
    def __init__(self, seed):
        self.r = random.Random(seed)

    def ch(self, *xs):
        return self.r.choice(xs)

    def ws1(self):
        return chr(self.r.choice(WS)) if self.r.random() < .3 else " "

    def nl(self):
        return self.ch("\n", "\n", "\n", "\r\n", "\r", "\x0c", "\x85", "\u2028", "\u2029")

    def junk(self, stop=""):
        s = "".join(self.ch("a", " ", "{", "}", '"', "\\", "/", "-", "=", "1",
                            "é", "中", "(", ")", "*x", "#", ";", "\t", "🌍")
                    for _ in range(self.r.randrange(5)))
        return s

    def mlc(self, d=0):
        s = "/*"
        for _ in range(self.r.randrange(4)):
            if d < 3 and self.r.random() < .2:
                s += self.mlc(d + 1)
            else:
                s += self.junk() + (self.nl() if self.r.random() < .1 else "")
        s = s.replace("*/*", "* /*") if d else s
        return s + self.ch("", "*", "**", "/") + "*/"

    def sp(self):
        """one or more node-space"""
        s = ""
        for _ in range(1 + (self.r.random() < .2)):
            x = self.r.random()
            if x < .75:
                s += self.ws1()
            elif x < .87:
                s += self.mlc()
            elif x < .94:
                s += "\\" + self.ch("", " ") + self.nl()
            else:
                s += "\\" + self.ch("", " ", "/* c */ ") + "// " + self.junk() + self.nl()
        return s

    def osp(self):
        return self.sp() if self.r.random() < .2 else ""

    def ident(self):
        x = self.r.random()
        if x < .5:
            return self.ch("a", "b", "foo", "b", "nullable", "truex", "-", "-a",
                           "+", "r", "rx", "r#x", "a-b", "é", "中", "!", "a!",
                           "$", "fals", "<" if x < .01 else "u8", "x'y", "~@^&%")
        if x < .6:
            n = self.r.randrange(1, 4)
            return self.ch("a", "é", "r", "_") + "".join(
                chr(self.r.choice([c for c in (33, 35, 36, 39, 43, 46, 48, 63,
                                               65, 95, 124, 126, 0xE9, 0x4E2D,
                                               0x1F30D)])) for _ in range(n))
        return self.string()

    def string(self):
        x = self.r.random()
        if x < .2:
            n = self.r.randrange(3)
            body = "".join(self.ch("a", '"', "#", "\\", "é", " ", "\n", '"#')
                           for _ in range(self.r.randrange(5)))
            if n == 0:
                body = body.replace('"', "")
            while '"' + "#" * n in body + "":
                body = body.replace('"' + "#" * n, "x")
            if n and body.endswith('"'):
                body += " "
            return "r" + "#" * n + '"' + body + '"' + "#" * n
        s = ""
        for _ in range(self.r.randrange(6)):
            s += self.ch("a", "b", " ", "é", "中", "🌍", "{", "/", "//", "/*", "\n",
                         "\t", '\\"', "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r",
                         "\\t", "\\u{%x}" % self.r.choice(
                             [0, 10, 0x41, 0xE9, 0xD7FF, 0xE000, 0x1F30D, 0x10FFFF]),
                         "\\u{0041}", "\\u{00E9}", "(u8)", "=", ";", "r#")
        return '"' + s + '"'

    def number(self):
        sg = self.ch("", "", "-", "+")
        x = self.r.random()

        def digs(al, n=6):
            return self.r.choice(al) + "".join(
                self.r.choice(al + "_") for _ in range(self.r.randrange(n)))
        if x < .35:
            return sg + digs("0123456789", self.ch(2, 4, 8, 22))
        if x < .45:
            return sg + "0x" + digs("0123456789abcdefABCDEF", self.ch(3, 18))
        if x < .52:
            return sg + "0o" + digs("01234567", self.ch(3, 24))
        if x < .6:
            return sg + "0b" + digs("01", self.ch(6, 68))
        if x < .7:
            return sg + str(self.r.choice([127, 128, 129, 255, 256, 257, 32767, 32768,
                32769, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32,
                2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 1, 0]))
        s = sg + digs("0123456789", 4)
        if self.r.random() < .7:
            s += "." + digs("0123456789", 5)
        if self.r.random() < .5:
            s += self.ch("e", "E") + self.ch("", "+", "-") + digs("0123456789", 2)
        return s

    def typ(self):
        return "(" + self.ident() + ")"

    def literal(self):
        x = self.r.random()
        if x < .4:
            return self.string()
        if x < .8:
            return self.number()
        return self.ch("null", "true", "false")

    def value(self):
        return (self.typ() if self.r.random() < .15 else "") + self.literal()

    def item(self):
        if self.r.random() < .5:
            return self.value()
        return self.ident() + "=" + self.value()

    def node(self, depth):
        s = self.typ() if self.r.random() < .15 else ""
        s += self.ident()
        for _ in range(self.r.choice([0, 0, 1, 1, 2, 3])):
            s += self.sp()
            if self.r.random() < .1:
                s += "/-" + self.osp()
            s += self.item()
        if depth > 0 and self.r.random() < .35:
            s += self.osp()
            if self.r.random() < .15:
                s += "/-" + self.osp()
            s += "{" + self.nodes(depth - 1, True) + "}"
        s += self.osp()
        return s

    def nodes(self, depth, inner):
        s = ""
        n = self.r.choice([0, 1, 1, 2, 3])
        for i in range(n):
            s += self.linespace()
            if self.r.random() < .1:
                s += "/-" + self.osp()
            s += self.node(depth)
            x = self.r.random()
            if i == n - 1 and not inner and x < .3:
                return s
            s += self.nl() if x < .6 else ";" if x < .85 else "//" + self.junk() + self.nl()
        return s + self.linespace()

    def linespace(self):
        s = ""
        while self.r.random() < .25:
            s += self.ch(self.ws1(), self.nl(), self.mlc(), "//" + self.junk() + self.nl())
        return s

    def mutate(self, s):
        for _ in range(self.r.choice([1, 1, 2])):
            if not s:
                return s
            i = self.r.randrange(len(s) + 1)
            x = self.r.random()
            if x < .35:
                s = s[:i] + s[i + 1:]
            elif x < .7:
                s = s[:i] + self.ch(*'a"\\/{}()=;#r-+01 \n*.,<>[]_eu\'!') + s[i:]
            elif x < .85:
                s = s[:i]
            else:
                j = self.r.randrange(len(s) + 1)
                s = s[:i] + s[min(i, j):max(i, j)] + s[i:]
        return s

    def doc(self, depth=3, mut=.35):
        s = self.nodes(depth, False)
        if self.r.random() < .03:
            s = "\ufeff" + s
        if self.r.random() < mut:
            s = self.mutate(s)
        return s


def scale(ns):
    """Documents in which one construct is long, repeated or deeply nested"""
    res = []
    for n in ns:
        h = "#" * n
        res += ['a r%s"x"%s' % (h, h), 'r%s"x"%sy"%s b=1' % (h, h[1:], h), 'a r%s"x"%s' % (h, h[1:]),
                '(r%s"t"%s)a' % (h, h), 'a r%s"x"%s#' % (h, h), "r" + h, "a r" + h, 'a r"%s"' % h, 'a "%s"' % h]
        res += ["a" + " 1" * n, "a" + " 1" * n + " (u8)2", "a " + " ".join("k%d=%d" % (i, i) for i in range(n)),
                "a " + " ".join("k%d=%d" % (i % 3, i) for i in range(n)), "a" + " /-1" * n + " 2",
                "a" + " /-b=1" * n + " b=2", "a" + " /- 1 b=2" * n, "a" + ' "s"=true null' * (n // 2)]
        res += ["a;" * n, "a\n" * n, "/-a\n" * n + "b", "a {" + "b;" * n + "}", "a {" + "b\n" * n + "} // x",
                "(t)a 1 b=2;" * (n // 2), "a{}" + "\n" * n + "b", "a{b 1;};" * (n // 2)]
        d = min(n, 40)
        res += ["a{" * d + "}" * d, "a{" * d + ";" + "}" * d, "a{" * d + "b;" + "};" * d, "a {\n" * d + "}\n" * d + "b",
                "a{" * d + "}" * (d - 1), "a{" * d + "}" * (d + 1), "a /-{" * d + "b}" * d + " ", "/-a{" * d + "}" * d + "\nc",
                "a 1 {" * d + "x;}" * d, "a{" * (d - 1) + "a 1 b=2" + "}" * d]
        res += ["/*" * n + "*/" * n + "a", "/*" * n + "*/" * (n - 1) + "a", "a " + "/*x*/" * n + " 1", "/*" + "/**/" * n + "*/a",
                "/*" + "*" * n + "/a", "/*" + "/" * n + "*/", "//" + "/" * n + "\na", "// x\n" * n + "a", "/*" + "*\n/" * n + "*/ a",
                "a /*" + "x" * n + "*/ 1", "a //" + "\t" * n + "\n b"]
        res += ["a" + " " * n + "1", " " * n + "a", "\n" * n + "a", "\r\n" * n + "a 1", "a" + " \\\n" * n + " 1", "a \\" + " " * n + "\n1",
                "a" + "\\\n" * n, "a {" + "\n" * n + "}", "\ufeff" * n + "a", "a\u2003" * 1 + "\u3000" * n + "1 /-" + " " * n + "2",
                "a \\// " + "x" * n + "\n 1", "\t" * n + "a", "a\t1\t" * n, "\u2028" * n + "a", "a /-" + "\\\n" * n + "{}", "a\\ /**/" + " " * n + "\r\n;"]
        for x in ("a", "é", "中", "\U0001F30D", "\\n", "\\u{41}", "\\u{10FFFF}", "\\\\", '\\"', "\n", "//", "/*", "{", "\t", "\x01", "\u0301"):
            res += ['a "%s" 1' % (x * n), '"%s"' % (x * n)]
            if "\\" not in x[:1]:
                res += ['a b=r#"%s"# 1' % (x * n)]
        res += ['a "%s\\u{110000}"' % ("x" * n), 'a "%s\\q"' % ("x" * n), 'a "%s' % ("x" * n), 'a "%s' % ("\\n" * n),
                'a "\\u{%s41}"' % ("0" * n), 'a r#"%s' % ("x" * n), 'a /*%s' % ("é" * n)]
        for x in ("a", "é", "-", "z9", "#", "."):
            res += ["a" + x * n, "a" + x * n + "=1", "n a" + x * n + "=1", "(a%s)n (b%s)1" % (x * n, x * n), "n a" + x * n]
        for s in ("", "-", "+"):
            res += ["a " + s + p + x for p, x in (("", "1" * n), ("", "0" * n + "7"), ("", "9" + "_" * n), ("0x", "f" * n), ("0o", "7" * n),
                    ("0b", "1" * n), ("0x", "0" * n + "1"), ("0b", "0" * n + "1"), ("0b", "1" + "_0" * n), ("0.", "0" * n + "1"), ("1.", "3" * n),
                    ("", "9" * n + ".5"), ("1e", "0" * n + "1"), ("1e-", "0" * n + "1"), ("0.1e", "0" * n), ("1.5_", "_" * n), ("0x1", "_" * n + "g"))]
        res += ["a b=" + "1" * n + "e1", "a " + "1" * n + "=2", "1" * n, "a " + "1" * n + "x", "a {b " + "-" * n + "}"]
    return res


# Characters whose display width is a matter of convention: parts of conjoined
# or composed syllables, marks that enclose or precede what they belong to
DISPUTED = """600-604,6dd,9be,9d7,b3e,b57,bbe,bd7,cc0,cc2,cc7-cc8,cca-ccb,cd5-cd6,d3e,d4e,d57,dcf,ddf,1160-11ff,17a4,17d8,
1b35,1b3b,1b3d,1b43,2d7f,302e-302f,3164,a8fa,d7b0-d7c6,d7cb-d7fb,ff9e-ffa0,fff9-fffb,110bd,110cd,111c2-111c3,1133e,11357,
114b0,114bd,115af,11930,1193f,11941,11a3a,11a84-11a89,11d46,11f02,13430-1343f,1d165,1d16e-1d172"""


def every_char(kinds, astral=61, width=False):
    """Every character of the basic plane and each one in `astral` of the
    others, in each of the ways that `kinds` names"""
    out = set(range(0xd800, 0xe000))
    if width:
        for r in DISPUTED.replace("\n", "").split(","):
            lo, _, hi = r.partition("-")
            out |= set(range(int(lo, 16), int(hi or lo, 16) + 1))
        out |= {c for c in range(0x110000) if unicodedata.category(chr(c)) in ("Cn", "Co")}
    cs = [c for c in range(0x110000) if c not in out and (c < 0x10000 or c % astral == 0 or c in (0x10ffff, 0x1f30d))]
    special = set(WS + NL + list(map(ord, '\\/(){}<>;[]=,"')))
    res = []
    for kind in kinds:
        if kind == "ident":
            mine = [c for c in cs if c not in special and not 0x30 <= c <= 0x39]
            for c in cs:
                if c in special or 0x30 <= c <= 0x39 or c < 256:
                    res += [chr(c), "a" + chr(c), "a" + chr(c) + "b 1", "a b" + chr(c) + "c=1", chr(c) + "a=1", "(" + chr(c) + ")a"]
            line = lambda x: "%sx a%s=1\n" % (x, x)
        elif kind == "string":
            mine = [c for c in cs if c not in (34, 92)]
            line = lambda x: '"%s" 1\n' % x
        elif kind == "raw":
            mine = [c for c in cs if c != 34]
            line = lambda x: 'a r"%s" 1\n' % x
        elif kind == "escape":
            mine = cs
            line = lambda x: '"\\u{%x}" 1\n' % ord(x)
        elif kind == "comment":
            mine = [c for c in cs if c not in NL]
            line = lambda x: 'a/*%s*/ 1//%s\n' % (x, x)
        for i in range(0, len(mine), 64):
            res.append("".join(line(chr(c)) for c in mine[i:i + 64]))
    return res
