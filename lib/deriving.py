"""Check of C25: which definitions compile, and what they can be used for."""
import concurrent.futures as cf
import json, os, random, subprocess
from core import *

BATCH = 250          # definitions per compilation

PRELUDE = """#![allow(dead_code, unused, non_camel_case_types)]
use knuffel::span::Span;
#[derive(knuffel::Decode, Default)]
pub struct Leaf { #[knuffel(argument)] a: Option<String> }
#[derive(knuffel::Decode, Default)]
pub struct Flat {
    #[knuffel(property)] inner_p: Option<String>,
    #[knuffel(child)] inner_c: Option<Leaf>,
}
#[derive(knuffel::Decode, Default)]
pub struct FlatP { #[knuffel(property)] inner_q: Option<String> }
#[derive(knuffel::Decode, Default)]
pub struct FlatC { #[knuffel(child)] inner_d: Option<Leaf> }
#[derive(Default)]
pub struct Place(usize);
impl knuffel::traits::DecodeSpan<Span> for Place {
    fn decode_span(s: &Span, _: &mut knuffel::decode::Context<Span>) -> Self {
        Place(s.0)
    }
}
pub fn root<T: knuffel::DecodeChildren<Span>>() {}
pub fn scalar<T: knuffel::DecodeScalar<Span>>() {}
pub fn node<T: knuffel::Decode<Span>>() {}
type Map<V> = std::collections::HashMap<String, V>;
"""


def base_type(f):
    """The type under Option"""
    if f["ty"] == "bool":
        return "bool"
    m = f["m"][0] if f["m"] else ""
    byt = f["dec"] == ["bytes"]
    sc = "Vec<u8>" if byt else "String"
    if m in ("argument", "property"):
        return sc
    if m == "arguments":
        return "Vec<%s>" % sc
    if m == "properties":
        return "Map<%s>" % sc
    if m in ("child", "children", "children(name)"):
        t = base_type(f["unw"][0]) if f["unw"] else "Leaf"
        return t if m == "child" else "Vec<%s>" % t
    if m.startswith("flatten"):
        return {"flatten(child)": "FlatC", "flatten(property)": "FlatP"}.get(
            m, "Flat")
    if m == "span":
        return "Place"
    if m in ("node_name", "type_name"):
        return "String"
    return "Leaf"


def rust_type(f):
    t = base_type(f)
    return "Option<%s>" % t if f["ty"] == "opt" else t


class Writer:
    """Writes definitions; attributes may be written in several ways"""
    def __init__(self, r):
        self.r = r
        self.n = 0

    def attrs(self, f):
        a = []
        for m in f["m"]:
            self.n += 1
            if m == "property" and f["name"]:
                m = 'property(name="n%d")' % self.n
            if m == "children(name)":
                m = 'children(name="n%d")' % self.n
            a.append(m)
        for d in f["dec"]:
            a.append(d)
        for _ in range(f["def"]):
            a.append(self.r.choice(["default", "default=Default::default()"]))
        for u in f["unw"]:
            a.append("unwrap(%s)" % ", ".join(self.attrs(u)))
        if self.r.random() < .3:
            self.r.shuffle(a)
        return a

    def name(self, i):
        """Names of fields, also those the macros use themselves"""
        return self.r.choice([
            "f%d" % i, "some_field%d" % i, "x_%d_y" % i, "F%dSome" % i,
            ["node", "ctx", "children", "r#type"][i % 4],
            ["name", "value", "r#fn", "val"][i % 4],
            ["child", "r#match", "result", "name_str"][i % 4]])

    def field(self, f, named, i):
        a = self.attrs(f)
        if not a:
            s = ""
        elif self.r.random() < .3:
            s = " ".join("#[knuffel(%s)]" % x for x in a)
        else:
            s = "#[knuffel(%s%s)]" % (", ".join(a),
                                      "," if self.r.random() < .2 else "")
        vis = self.r.choice(["", "pub "])
        if named:
            return "%s %s%s: %s" % (s, vis, self.name(i), rust_type(f))
        return "%s %s" % (s, rust_type(f))

    def scalar(self, item, shapes):
        if item != "enum":
            return "#[derive(knuffel::DecodeScalar)] pub %s" % {
                "struct": "struct T { a: u8 }", "tuple": "struct T(u8);",
                "unit struct": "struct T;"}[item]
        vs = ["%s%d%s" % (self.r.choice(["Red", "InfraRed", "V", "HTTPa"]), i,
                          {"unit": "", "tuple": "(u8)", "tuple2": "(u8, u8)",
                           "struct": " { a: u8 }"}[x])
              for i, x in enumerate(shapes)]
        return "#[derive(knuffel::DecodeScalar)] pub enum T { %s }" \
            % ", ".join(vs)

    def definition(self, kind, own, var_own, fields):
        text = {"default": "default", "span_type": "span_type=Span"}
        attr = lambda o: "#[knuffel(%s)] " % text.get(o, o) if o else ""
        if own == "" and (any("span" in f["m"] for f in fields)
                          or self.r.random() < .3):
            own = "span_type"
        named = kind == "named"
        body = ", ".join(self.field(f, named, i) for i, f in enumerate(fields))
        if kind in ("named", "tuple"):
            br = " { %s }" % body if named else \
                "(%s);" % body if fields else self.r.choice(["();", ";"])
            return "#[derive(knuffel::Decode, Default)] %spub struct T%s" \
                % (attr(own), br)
        vs = ["%sVar(%s)" % (attr(var_own), body), "Other",
              "Third(#[knuffel(argument)] String)",
              "Fourth(Leaf)", "Fifth(Option<Leaf>)",
              "#[knuffel(skip)] Sixth { a: u8 }"]
        self.r.shuffle(vs)
        return "#[derive(knuffel::Decode)] %spub enum T { %s }" \
            % (attr(own), ", ".join(vs))


USES = "use super::{Leaf, Flat, FlatC, FlatP, Map, Place}; use knuffel::span::Span;"


class DeriveCheck(Check):
    def __init__(self):
        super().__init__("C25", [])
        self.assumptions += [
            "definitions are the field lists of module Derive up to the "
            "length of the stage, with the field types of lib/deriving.py; "
            "longer lists are drawn at random from those enumerated",
            "a definition counts as rejected if rustc reports an error "
            "whose place is in it, in a compilation of all definitions that "
            "had no error so far",
        ]
        self.build("derivecheck")
        d = os.path.join(VERIF, "derivecheck")
        r = subprocess.run(["cargo", "build", "--offline",
                            "--message-format=json"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=sh_env())
        self.lib = None
        for line in r.stdout.decode().splitlines():
            j = json.loads(line)
            if j.get("reason") == "compiler-artifact" and \
                    j["target"]["name"] == "knuffel":
                self.lib = [x for x in j["filenames"]
                            if x.endswith(".rlib")][0]
        if not self.lib:
            raise CheckError("no knuffel library")
        self.deps = os.path.join(d, "target", "debug", "deps")

    def tlc(self, name, consts, module="Derive"):
        d = self.module(name, module, {}, "CONSTANTS\n%sSPECIFICATION Spec\n"
                        "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % "".join(
                            "  %s = %s\n" % kv for kv in consts.items()))
        log = os.path.join(d, "tlc.log")
        with open(log, "w") as f:
            r = subprocess.run([TLC_JAVA[0], "-Djava.io.tmpdir=" + d]
                               + TLC_JAVA[1:] + ["-workers", "8", "-nowarning",
                               "-config", name + ".cfg", name + ".tla"], cwd=d,
                               stdout=f, stderr=subprocess.STDOUT)
        cases = []
        text = open(log).read()
        for line in text.splitlines():
            if line.startswith('"['):
                cases.append(json.loads(json.loads(line)))
        if r.returncode != 0 or "No error has been found" not in text:
            raise CheckError("%s: TLC reports an error in the model:\n%s"
                             % (name, text[text.find("Error:"):][:3000]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states", text)
        return cases, int(m.group(1)), int(m.group(2))

    # ------------------------------------------------------------ compiling
    def compile(self, n, items):
        """Errors of the items in one compilation: {index: message}"""
        path = os.path.join(self.work, "b%d.rs" % n)
        src = PRELUDE
        line = src.count("\n") + 1
        where = []
        for i, t in items:
            t = "mod m%d { %s\n%s\n}\n" % (i, USES, t)
            src += t
            nl = t.count("\n")
            where += [i] * nl
        with open(path, "w") as f:
            f.write(src)
        r = subprocess.run(
            ["rustc", "--edition", "2021", "--crate-type", "lib",
             "--crate-name", "batch%d" % n, "--emit=metadata",
             "--error-format=json", "--out-dir", self.work,
             "--extern", "knuffel=" + self.lib, "-L",
             "dependency=" + self.deps, path],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
            env=sh_env())
        errs = {}
        other = []
        for l in r.stderr.decode("utf-8", "replace").splitlines():
            if not l.startswith("{"):
                other.append(l)
                continue
            j = json.loads(l)
            if not j["level"].startswith("error"):
                continue
            own = [s for s in j["spans"] if s["is_primary"]]
            placed = False
            for s in own:
                # where the text is, also if a macro produced the code
                while s and not s["file_name"].endswith("b%d.rs" % n):
                    s = (s.get("expansion") or {}).get("span")
                if s and s["line_start"] >= line:
                    k = s["line_start"] - line
                    errs.setdefault(where[k], j["message"])
                    placed = True
            if not placed and own:
                other.append(j["message"])
        if r.returncode != 0 and not errs:
            raise CheckError("rustc fails: %s" % "\n".join(other)[-2000:])
        return errs

    def classify(self, texts):
        """For each text the first error, or None"""
        res = [None] * len(texts)
        todo = list(enumerate(texts))
        rounds = 0
        with cf.ThreadPoolExecutor(8) as ex:
            batches = [todo[i:i + BATCH] for i in range(0, len(todo), BATCH)]
            while batches:
                rounds += 1
                if rounds > 12:
                    raise CheckError("compilation does not settle")
                nxt = []
                outs = ex.map(lambda nb: self.compile(nb[0], nb[1]),
                              enumerate(batches))
                for b, errs in zip(batches, outs):
                    for i, e in errs.items():
                        res[i] = e
                    if errs:
                        rest = [x for x in b if x[0] not in errs]
                        if rest:
                            nxt.append(rest)
                batches = nxt
        return res

    def stage(self, name, consts, cap, module="Derive", keep=False):
        cases, gen, dist = self.tlc(name, consts, module)
        cases.sort(key=json.dumps)
        r = random.Random("%d/%s" % (SEED, name))
        # all that must not compile if keep is set, and cap others
        kept = [c for c in cases if keep and not c[-3]]
        if keep:
            cases = [c for c in cases if c[-3]]
        if len(cases) > cap:
            cases = r.sample(cases, cap)
        cases += kept
        w = Writer(r)
        texts, meta = [], []
        for case in cases:
            if case[0] == "scalar":
                d = w.scalar(case[1], case[2])
                ok, root, flat = case[3], "any", "any"
                texts.append(d + "\nfn ok() { super::scalar::<T>() }")
            else:
                d = w.definition(*case[:4])
                ok, root, flat = case[4:]
                texts.append(d + "\nfn ok() { super::node::<T>() }")
            meta.append((ok, "accepted" if ok else "rejected", d))
            if not ok:
                continue
            # which of its uses compile, with a definition that does
            if root != "any":
                texts.append(d + "\nfn ok() { super::root::<T>() }")
                meta.append((root == "yes", "as a root", d))
            if flat != "any":
                texts.append(d + "\n#[derive(knuffel::Decode)] "
                             "#[knuffel(span_type=Span)] struct Outer { "
                             "#[knuffel(flatten(child, property))] t: T }")
                meta.append((flat == "yes", "as a flatten target", d))
        res = self.classify(texts)
        bad = 0
        tally = {}
        for (ok, what, d), e in zip(meta, res):
            key = what + (" yes" if ok else " no") if "as a" in what else what
            tally[key] = tally.get(key, 0) + 1
            if ok == (e is None):
                continue
            bad += 1
            if bad > 40:
                continue
            if ok:
                det = "has to compile %s, but: %s: %s" % (
                    what if "as" in what else "", e, d)
            else:
                det = "compiles%s, but must not: %s" % (
                    " " + what if "as" in what else "", d)
            self.mismatch(name, {"cat": "compile", "case": d, "detail": det})
        summary = {"cases": len(texts), "violations": bad, **tally,
                   "samples": [m[2] for m in meta[:2] + meta[-2:]]}
        self.account(name, gen, dist, summary)


def q(*xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def c25():
    c = DeriveCheck()
    kinds = q("named", "tuple", "variant")
    structs = q("named", "tuple")

    def al(ks, a, b, t, n, owns=q(""), var=q("", "skip")):
        return {"Kinds": ks, "Owns": owns, "VarOwns": var,
                "First": '"%s"' % a, "Second": '"%s"' % b,
                "Third": '"%s"' % t, "After": n}
    c.stage("Fields", al(kinds, "Full", "None", "None", 0), 100000)
    c.stage("Before", al(structs, "Full", "Around", "None", 1),
            1500 if QUICK else 8000)
    c.stage("After", al(structs, "Around", "Full", "None", 1),
            1500 if QUICK else 8000)
    c.stage("Late", al(structs, "CatchAlls", "Grouped", "None", 1),
            300 if QUICK else 3000, keep=True)
    c.stage("Early", al(structs, "Grouped", "CatchAlls", "None", 1),
            600 if QUICK else 8000)
    c.stage("Between", al(structs, "CatchAlls", "Around", "Grouped", 1),
            1000 if QUICK else 8000)
    c.stage("Pairs", al(kinds, "Core", "Core", "None", 1),
            2000 if QUICK else 8000)
    c.stage("Triples", al(structs, "Core", "Core", "Core", 1),
            2000 if QUICK else 20000)
    attrs = ["", "argument", "arguments", "property", "children", "child",
             "span", "node_name", "str", "bytes", "default",
             "unwrap(argument)", "flatten(child)"]
    c.stage("Containers", al(kinds, "Core", "None", "None", 0,
                             q("span_type", "skip", *attrs),
                             q("skip", "span_type", *attrs)),
            2000 if QUICK else 10000)
    c.stage("Scalars", {"Max": 4}, 400, "DeriveScalar")
    return c.finish()


CHECKS = {"C25": c25}
