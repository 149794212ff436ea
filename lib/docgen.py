"""Random documents for a type definition, mostly right, sometimes wrong."""
import json, random, re
from schema import *

WORDS = ["a", "bc", "x-y", "red", "dark-blue", "low", "very-high", "type",
         "12", "7", "", "A", "é", "SGk=", "SGkh", "SGVsbG8", "====", "only",
         "green", "100", "mid", "high", "/tmp/x", "ab cd", " a", "a ", " 7",
         "7 ", "+7", "007", "red ", "a\u0000", "\t", "\n", "\u2028x", "\u3000", "🌍",
         "null", "true", "a" * 70, "SGk= ", "SG k=", "Red", "RED", "low\u0000"]
NAMES = ["zz", "unknown", "extra-thing", "Value", "n"]
WILD = ["1", "-1", "0", "255", "256", "-129", "70000", "5000000000", "1.5",
        "1e3", "\"x\"", "\"\"", "true", "false", "null", "0x1F",
        "(u8)1", "(i64)2", "(f64)1.0", "(base64)\"SGk=\"", "(zzz)null",
        "(zzz)\"x\"", "18446744073709551615", "18446744073709551616"]


def q(s):
    return json.dumps(s, ensure_ascii=False)


class DocGen:
    def __init__(self, seed, eps=.06):
        self.r = random.Random(seed)
        self.eps = eps

    def slip(self):
        return self.r.random() < self.eps

    def scalar(self, term):
        r = self.r
        if self.slip():
            return r.choice(WILD)
        k = term["k"]
        if k == "opt":
            return "null" if r.random() < .25 else self.scalar(term["i"])
        if k in ("box", "spanned"):
            return self.scalar(term["i"])
        if k in ("value", "literal", "ctx"):
            return r.choice(WILD)
        if k == "int":
            t = "".join(map(chr, term["ann"]))
            bits = {"isize": 64, "usize": 64}.get(t) or int(t[1:])
            lo, hi = (0, 2 ** bits - 1) if t[0] == "u" else \
                (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
            v = r.choice([lo, hi, 0, 1, 7, hi // 3, r.randint(lo, hi)])
            if r.random() < .05:
                v = r.choice([lo - 1, hi + 1])
            return ("(%s)" % t if r.random() < .2 else "") + str(v)
        if k == "float":
            t = "".join(map(chr, term["ann"]))
            return ("(%s)" % t if r.random() < .2 else "") + \
                r.choice(["1.5", "-0.25", "1e5", "3.0", "0.1", "-1.5e-3"])
        if k == "bool":
            return r.choice(["true", "false"])
        if k == "string":
            return q(r.choice(WORDS))
        if k == "probe":
            return self.annot(.1, ["bad", "ok"]) + q(self.program())
        if k == "enum":
            return q("".join(map(chr, r.choice(term["keys"]))))
        raise Exception(k)

    def annot(self, p, names):
        return "(%s)" % self.r.choice(names) if self.r.random() < p else ""

    def program(self):
        r = self.r
        return "".join(r.choice("aabbcvuxyh") for _ in range(r.choice([0, 1, 1, 2, 3]))) \
            if r.random() < 5 * self.eps else r.choice(["", "a", "ab"])

    def value(self, f):
        d = f.kw
        dec = d.get("dec", "n")
        r = self.r
        if dec == "n":
            return self.scalar(d["st"])
        if self.slip():
            return r.choice(WILD)
        if d.get("opt") and r.random() < .2:
            return "null"
        if dec == "s":
            return q({"any": r.choice(WORDS), "alpha": r.choice(["a", "bc"]),
                      "small": r.choice(["1", "12", "07"])}[d["fs"]])
        if r.random() < .5:
            return "(base64)" + q(r.choice(["SGk=", "SGkh", "", "SGVsbG8h",
                                            "//79", "+A=="]))
        return q(r.choice(WORDS))

    def name(self, s):
        return q(s) if s == "" or not (s[0].isalpha()) or " " in s else s

    def node(self, t, name, depth):
        t = deref(t)
        while isinstance(t, Boxed):
            t = deref(t.inner)
        r = self.r
        if isinstance(t, Hand):
            return self.annot(.1, ["t"]) + self.name(name) + r.choice(
                ["", " 1", " " + q(self.program()), " " + q(self.program()) + " a=1 {b;}"])
        if isinstance(t, NewType):
            if t.opt and r.random() < .3:
                return self.name(name)
            return self.node(t.inner, name, depth)
        if isinstance(t, Enum):
            live = [v for v in t.variants if v.kind != "skip"]
            v = r.choice(live)
            n = kebab(v.name)
            if self.slip():
                n = r.choice([kebab(x.name) for x in t.variants] + NAMES)
            if v.kind == "unit":
                return n + (" 1" if self.slip() else "")
            if v.kind == "tuple":
                return self.fields(v.fields, n, depth)
            if v.kind == "nestopt" and r.random() < .3:
                return n
            return self.node(v.t, n, depth)
        return self.fields(t.fields, name, depth)

    def items(self, fs, depth, entries, kids):
        """Entries (argument/property texts) and child nodes for fields"""
        r = self.r
        stop = False
        for f in fs:
            opt = f.kw.get("opt") or f.kw.get("def")
            here = r.random() < (.6 if opt else 1 - self.eps)
            if f.m == "arg":
                if not here:
                    stop = True
                if not stop:
                    entries.append((0, self.value(f)))
            elif f.m == "args":
                if not stop:
                    for _ in range(r.choice([0, 1, 1, 2, 3])):
                        entries.append((0, self.value(f)))
            elif f.m == "prop" and here:
                k = self.name("".join(map(chr, f.kw["key"])))
                entries.append((1, k + "=" + self.value(f)))
                if r.random() < .06:
                    entries.append((1, k + "=" + self.value(f)))
            elif f.m == "props":
                for _ in range(r.choice([0, 1, 2, 3])):
                    entries.append((1, r.choice(["k", "kk", "abc", "zz", "K1"])
                                    + "=" + self.value(f)))
            elif f.m in ("flatp", "flatc", "flatcp"):
                t = f.kw["t"]
                while isinstance(t, Boxed):
                    t = t.inner
                e2, k2 = [], []
                if isinstance(t, Hand):
                    for _ in range(r.choice([0, 1, 1, 2])):
                        n = chr(t.term_["letter"]) + r.choice("abc")
                        if self.slip():
                            n = r.choice(["e1", "zz"])
                        e2.append((1, n + "=" + r.choice(["1", q(self.program())])))
                        k2.append(self.node(t, n, depth))
                else:
                    self.items(t.fields, depth, e2, k2)
                entries += e2 if f.m != "flatc" or self.slip() else []
                kids += k2 if f.m != "flatp" or self.slip() else []
            elif f.m in ("child", "children", "rest"):
                if depth <= 0:
                    continue
                if f.m == "rest":
                    cnt = r.choice([0, 1, 2])
                elif f.m == "children":
                    cnt = r.choice([0, 1, 2, 3])
                else:
                    cnt = (2 if self.slip() else 1) if here else 0
                for _ in range(cnt):
                    n = r.choice(["zz", "other", "any"]) if f.m == "rest" \
                        else "".join(map(chr, f.kw["key"]))
                    if isinstance(f.kw.get("uw"), F):
                        kids.append(self.fields([f.kw["uw"]], n, depth - 1))
                    else:
                        kids.append(self.node(f.kw["t"], n, depth - 1))
            elif f.m == "flag" and r.random() < .5:
                n = "".join(map(chr, f.kw["key"]))
                kids.append(n + (r.choice([" 1", " a=1", " {b;}", "{}"])
                                 if self.slip() else ""))
                if self.slip():
                    kids.append(n)

    def fields(self, fs, name, depth):
        r = self.r
        entries, kids = [], []
        self.items(fs, depth, entries, kids)
        if self.slip():
            entries.insert(r.randint(0, len(entries)),
                           (r.choice([0, 1]) and 1, r.choice(NAMES) + "=" +
                            r.choice(WILD)))
        if self.slip():
            entries.append((0, r.choice(WILD)))
        if self.slip() and entries:
            entries.pop(r.randrange(len(entries)))
        if self.slip():
            kids.append(r.choice(NAMES) + r.choice(["", " 1", " {}"]))
        if self.slip() and kids:
            kids.append(r.choice(kids))
        if len(kids) > 1 and r.random() < .4:
            r.shuffle(kids)
        # properties may stand anywhere
        if r.random() < .5:
            pr = [e for e in entries if e[0]]
            ar = [e for e in entries if not e[0]]
            r.shuffle(pr)
            for e in pr:
                ar.insert(r.randint(0, len(ar)), e)
            entries = ar
        s = self.name(name)
        tn = [f for f in fs if f.m == "tname"]
        if (tn and r.random() < (.5 if tn[0].kw.get("opt") else 1 - self.eps)) \
                or self.slip():
            s = "(%s)" % r.choice(["abc", "ty", "u8", "\"12\"", "\"x y\""]) + s
        for _, e in entries:
            s += " " + e
        if kids:
            s += " {" + r.choice(["", "\n ", " "]) + "".join(
                k + r.choice([";", "\n", "; "]) for k in kids) + "}"
        elif r.random() < .05:
            s += " {}"
        return s

    def edit(self, text):
        """One change at a random place of a document, by its tokens"""
        r = self.r
        toks = re.findall(r'"(?:[^"\\\\]|\\\\.)*"|[{}();=\n]| +|[^\s{}();="]+', text)
        solid = [i for i, t in enumerate(toks) if t.strip(" \n") and t not in "{}();="]
        if not solid:
            return text
        i = r.choice(solid)
        t = toks[i]
        x = r.random()
        if x < .25 and (i == 0 or toks[i - 1] != ")"):
            if i + 1 < len(toks) and toks[i + 1] == "=":
                i += 2
            toks[i] = "(%s)" % r.choice(["t", "u8", "i64", "f64", "base64", "str", "abc", "7", '""']) + toks[i]
        elif x < .4:
            w = r.choice(["{}", "{ }", "{(t)a;}", "{a;b 1}", "{/-a;}", "/-{a;}", "{\n}"])
            j = next((j for j in range(i, len(toks)) if toks[j] in ";\n{}"), len(toks))
            toks.insert(j, " " + w)
        elif x < .5 and t[0] == '"':
            toks[i] = r.choice(['" ' + t[1:], t[:-1] + ' "', t.swapcase(), t[:-1] + '\\u{0}"', "r#" + t + "#"])
        elif x < .62:
            toks[i] = r.choice(WILD) if t[0] in '"0123456789-+' else r.choice(NAMES + WORDS[:4] + [t.upper(), t + "-", t[:-1] or "q"])
        elif x < .72:
            toks.insert(i, "/-" + t + " ")
        elif x < .82:
            j = r.choice(solid)
            toks[i], toks[j] = toks[j], toks[i]
        elif x < .92:
            toks.insert(i, t + " ")
        else:
            del toks[i]
        return "".join(toks)

    def doc(self, case, depth=3):
        r = self.r
        if case.form == "root":
            entries, kids = [], []
            t = deref(case.t)
            while isinstance(t, Boxed):
                t = deref(t.inner)
            if isinstance(t, Hand):
                kids = [self.node(t, r.choice(["a", "b"]), depth) for _ in range(r.randint(0, 4))]
            else:
                self.items(t.fields, depth, entries, kids)
            if self.slip() and kids:
                kids.append(r.choice(kids))
            if self.slip():
                kids.append(r.choice(NAMES))
            if self.slip() and kids:
                kids.pop(r.randrange(len(kids)))
            if r.random() < .3:
                r.shuffle(kids)
            return "".join(k + "\n" for k in kids)
        return "".join(self.node(case.t, r.choice(["n", "node", "x"]), depth)
                       + r.choice(["\n", ";"])
                       for _ in range(r.choice([1, 1, 1, 2, 3])))
