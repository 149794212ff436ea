"""Checks of typed decoding: C11 to C22 and C24."""
import fcntl, json, os, shutil, subprocess
from core import *
from schema import *
from docgen import DocGen
import randschema
import families as F_

ALWAYS = ["hang", "crash", "panic"]
ALL = ["accept", "value", "single", "errors", "errcount"]


def b(x):
    return "TRUE" if x else "FALSE"


class DecodeCheck(Check):
    # documents are also read with line spans
    lines = False

    def __init__(self, pid, cats):
        super().__init__(pid, cats + ALWAYS)
        self.assumptions += [
            "types are those of lib/decoding.py and, seeded, of "
            "lib/randschema.py; the documents of each type are enumerated "
            "over the pieces listed there or drawn at random",
        ]

    def build_types(self, fam, name):
        types = os.path.join(self.work, name + ".rs")
        with open(types, "w") as f:
            f.write(fam.rust(self.lines))
        with open(os.path.join(self.work, name + ".json"), "w") as f:
            f.write(fam.json())
        os.environ["KGEN_TYPES"] = types
        with open(os.path.join(VERIF, "dharness", ".lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            exe = self.build("dharness")
            dst = os.path.join(self.work, name + ".exe")
            shutil.copy(exe, dst)
        return dst

    def cmd(self, exe):
        return [exe, "--cats", ",".join(self.cats)]

    def enum(self, name, cases, thm=True):
        fam = Family(cases)
        exe = self.build_types(fam, name)
        d = self.module("Dec" + name, "DecEnum", {}, "CONSTANTS\n"
                        "  SchemaFile = \"schema.json\"\n  CheckThm = %s\n"
                        "  Lines = %s\nSPECIFICATION Spec\nINVARIANT Emit\n"
                        "CHECK_DEADLOCK FALSE\n" % (b(thm), b(self.lines)))
        with open(os.path.join(d, "schema.json"), "w") as f:
            f.write(fam.json())
        self.tlc_replay("Dec" + name, d, self.cmd(exe))
        return fam, exe

    def docs(self, name, fam, exe, docs, thm=True):
        """docs: (case index, context, text)"""
        d = self.module("Dec" + name, "DecOracle", {}, "CONSTANTS\n"
                        "  SchemaFile = \"schema.json\"\n  CheckThm = %s\n"
                        "  Lines = %s\n  File = \"docs.ndjson\"\n  Stride = 64\n"
                        "SPECIFICATION Spec\nINVARIANT Emit\n"
                        "CHECK_DEADLOCK FALSE\n" % (b(thm), b(self.lines)))
        with open(os.path.join(d, "schema.json"), "w") as f:
            f.write(fam.json())
        with open(os.path.join(d, "docs.ndjson"), "w") as f:
            for ci, cx, t in docs:
                f.write(json.dumps({"s": ci + 1, "cx": [list(o) for o in cx],
                                    "t": cps(t)}) + "\n")
        self.tlc_replay("Dec" + name, d, self.cmd(exe))

    def random_docs(self, name, fam, exe, n, eps=.06, depth=3):
        g = DocGen("%d/%s/%s" % (SEED, self.pid, name), eps)
        docs = []
        i = 0
        while len(docs) < n:
            ci = i % len(fam.cases)
            i += 1
            c = fam.cases[ci]
            t = g.doc(c, depth)
            if len(t) < 300:
                docs.append((ci, g.r.choice(list(c.ctxs)), t))
        self.docs(name, fam, exe, docs)

    def edited_docs(self, name, fam, exe, n):
        """Documents that fit their types, with one or two places changed"""
        g = DocGen("%d/%s/%s" % (SEED, self.pid, name), .01)
        docs = []
        i = 0
        while len(docs) < n:
            ci = i % len(fam.cases)
            i += 1
            c = fam.cases[ci]
            t = g.edit(g.doc(c, 3))
            if g.r.random() < .3:
                t = g.edit(t)
            if len(t) < 400:
                docs.append((ci, g.r.choice(list(c.ctxs)), t))
        self.docs(name, fam, exe, docs)

    def scale_docs(self, name, fam, exe, n):
        """Documents of many arguments, properties, nodes or faults"""
        g = DocGen("%d/%s/%s" % (SEED, self.pid, name), .01)
        docs, i = [], 0
        while len(docs) < n:
            ci = i % len(fam.cases)
            i += 1
            c = fam.cases[ci]
            ch = list(c.chunks)
            if not ch:
                if i > 4 * len(fam.cases):
                    break
                continue
            k = g.r.choice([17, 33, 70, 140, 270])
            x = g.r.random()
            g.sep = g.r.choice(["", "", "\n", " "])
            # one piece again and again, or two, or any
            ch = ch if x < .3 else g.r.sample(ch, min(len(ch), 1 if x < .7 else 2))
            t = g.r.choice(list(c.heads) or [""]) + \
                "".join(("" if p[:1] == " " else g.sep) + p for p in
                        (g.r.choice(ch) for _ in range(k))) + \
                g.r.choice(list(c.tails) or [""])
            if len(t) < 2500:
                docs.append((ci, g.r.choice(list(c.ctxs)), t))
        self.docs(name, fam, exe, docs, thm=False)

    def random_types(self, name, ntypes, ndocs, focus, eps=.06, probes=False):
        rs = randschema.RandSchema("%d/%s/%s" % (SEED, self.pid, name), focus, probes)
        fam = Family(rs.cases(ntypes))
        exe = self.build_types(fam, name)
        self.random_docs(name, fam, exe, ndocs, eps)


def family(pid, cats, name, cases, focus, ntypes=16, eps=.08, docs=2000,
           edits=4000, lines=False):
    """Enumerated documents of the curated types, random documents of the same
    types, random types with random documents"""
    def run():
        c = DecodeCheck(pid, cats)
        c.lines = lines or not QUICK
        fam, exe = c.enum(name, cases())
        c.random_docs(name + "Docs", fam, exe, docs if QUICK else docs * 10, eps)
        c.edited_docs(name + "Edits", fam, exe, edits if QUICK else edits * 10)
        c.scale_docs(name + "Scale", fam, exe, 300 if QUICK else 3000)
        c.random_types("RandomTypes", ntypes if QUICK else ntypes * 4,
                       2000 if QUICK else 30000, focus)
        return c.finish()
    return run


def c15():
    c = DecodeCheck("C15", VAL)
    fam, exe = c.enum("Flatten", F_.flatten_cases() + F_.flatten_matrix())
    c.random_docs("FlattenDocs", fam, exe, 2000 if QUICK else 20000, .08)
    c.edited_docs("FlattenEdits", fam, exe, 4000 if QUICK else 40000)
    c.scale_docs("FlattenScale", fam, exe, 300 if QUICK else 3000)
    c.enum("FlatDefault", F_.flat_default_cases())
    c.random_types("RandomTypes", 16 if QUICK else 64,
                   2000 if QUICK else 30000, ["flat"])
    return c.finish()


def c19():
    """Everything at once: documents with many faults and documents with none"""
    c = DecodeCheck("C19", ALL)
    fam, exe = c.enum("Mixed", F_.mixed_cases())
    c.random_docs("MixedDocs", fam, exe, 3000 if QUICK else 30000, .02)
    c.random_docs("MixedFaults", fam, exe, 3000 if QUICK else 30000, .3)
    c.edited_docs("MixedEdits", fam, exe, 4000 if QUICK else 40000)
    c.scale_docs("MixedScale", fam, exe, 1000 if QUICK else 4000)
    fam, exe = c.enum("Probes", F_.probe_cases())
    c.random_docs("ProbeDocs", fam, exe, 3000 if QUICK else 30000, .05)
    c.random_types("RandomTypes", 32 if QUICK else 100,
                   4000 if QUICK else 40000, ["extra"], .03, True)
    return c.finish()


def c20():
    c = DecodeCheck("C20", ["errors", "errsrc"])
    c.lines = True
    fam, exe = c.enum("Faults", F_.fault_cases())
    c.random_docs("Faults1", fam, exe, 3000 if QUICK else 30000, .15)
    c.edited_docs("FaultEdits", fam, exe, 4000 if QUICK else 40000)
    c.scale_docs("FaultScale", fam, exe, 800 if QUICK else 4000)
    c.random_types("RandomTypes", 32 if QUICK else 100,
                   4000 if QUICK else 40000, [], .15)
    return c.finish()


def both(a, b):
    return lambda: a() + b()


VAL = ["accept", "value", "single"]
CHECKS = {
    "C11": family("C11", VAL, "Args", both(F_.arg_cases, F_.arg_matrix), ["arg", "args"]),
    "C12": family("C12", VAL, "Props", both(F_.prop_cases, F_.prop_matrix), ["prop", "props"]),
    "C13": family("C13", VAL, "Children", both(F_.child_cases, F_.child_matrix), ["child", "flag", "children", "rest"]),
    "C14": family("C14", VAL + ["errors"], "Unwrap", both(F_.unwrap_cases, F_.unwrap_matrix), ["child", "children", "rest"]),
    "C15": c15,
    "C16": family("C16", VAL + ["errors"], "Enums", F_.enum_cases, ["rest", "child"]),
    "C17": family("C17", VAL + ["errors"], "Scalars", F_.scalar_cases, ["arg", "prop"]),
    "C18": family("C18", VAL + ["errors"], "Modes", F_.mode_cases, ["arg", "prop"]),
    "C19": c19,
    "C20": c20,
    "C21": family("C21", ALL, "Special", F_.special_cases, ["span", "nname", "tname"], lines=True),
    "C24": family("C24", ALL, "Containers", both(F_.container_cases, F_.flatten_pointers), ["child", "flat"]),
}
