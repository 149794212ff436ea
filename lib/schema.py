"""Type definitions as seen by both sides: the specification (JSON read by
spec/Decode.tla) and the implementation (Rust types with derived decoders)."""
import json, re


def cps(s):
    return [ord(c) for c in s]


def kebab(name):
    """kebab-case of an identifier: words are split at underscores, before an
    upper case letter that follows a lower case one, and before the last of
    several upper case letters if a lower case one follows"""
    words = []
    for part in re.split(r"[^0-9A-Za-z]+", unraw(name)):
        start, mode = 0, ""
        for i, c in enumerate(part):
            nxt = part[i + 1:i + 2]
            m = "l" if c.islower() else "u" if c.isupper() else mode
            if m == "l" and nxt.isupper():
                words.append(part[start:i + 1])
                start, mode = i + 1, ""
            elif mode == "u" and c.isupper() and nxt.islower():
                words.append(part[start:i])
                start, mode = i, ""
            else:
                mode = m
        if part[start:]:
            words.append(part[start:])
    return "-".join(w.lower() for w in words)


def unraw(n):
    return n[2:] if n.startswith("r#") else n


BITS = {"i8": 0, "i16": 1, "i32": 2, "i64": 3, "u8": 4, "u16": 5, "u32": 6,
        "u64": 7, "isize": 3, "usize": 7}


# ---------------------------------------------------------------- values
class V:
    """A value: Rust expression and specification term"""
    def __init__(self, rust, term):
        self.rust, self.term = rust, term


def vi(n):
    return V(str(n), ["i", 1 if n < 0 else 0, [int(c) for c in str(abs(n))]])


def vf(s):
    return V(s, ["f", cps(s)])


def vs(s):
    return V(json.dumps(s) + ".into()", ["s", cps(s)])


def vb(x):
    return V("true" if x else "false", ["b", 1 if x else 0])


VNONE = V("None", ["n"])


def vsome(v):
    return V("Some(%s)" % v.rust, ["o", v.term])


# --------------------------------------------------------------- scalars
class S:
    """Scalar type"""
    def __init__(self, rust, term, zero=None):
        self.rust, self.term, self.zero = rust, term, zero


def Int(t):
    return S(t, {"k": "int", "ann": cps(t), "bit": BITS[t]}, vi(0))


def Float(t):
    return S(t, {"k": "float", "ann": cps(t)}, vf("0.0"))


def Str(t="String"):
    return S({"ArcStr": "Arc<str>", "ArcPath": "Arc<Path>"}.get(t, t),
             {"k": "string"}, V("Default::default()", ["s", []]))


Bool = S("bool", {"k": "bool"}, vb(False))
Value = S("knuffel::ast::Value<FldS>", {"k": "value"})
Literal = S("knuffel::ast::Literal", {"k": "literal"})


def Opt(s):
    return S("Option<%s>" % s.rust, {"k": "opt", "i": s.term}, VNONE)


def Ptr(p, s):
    return S("%s<%s>" % (p, s.rust), {"k": "box", "i": s.term}, s.zero and
             V("%s::new(%s)" % (p, s.zero.rust), s.zero.term))


def Spanned(s):
    return S("Spanned<%s, FldS>" % s.rust, {"k": "spanned", "i": s.term})


def Ctx(ty):
    return S("CtxScalar%d" % ty, {"k": "ctx", "ty": ty})


Probe = S("Probe", {"k": "probe"})


class Scalars:
    """Derived scalar enums, by name"""
    defs = {
        "Color": ["Red", "DarkBlue", "Green"],
        "Level": ["Low", "Mid", "High", "VeryHigh", "r#Type"],
        "One": ["Only"],
        "Two": ["Ab", "CD"],
        "Proto": ["HTTPServer", "X1Y2", "IPv4", "A", "ABc", "MixedCASE", "Snake_Case", "lower", "Four5Six",
                  "YesItIsALongName"],
    }


def SEnum(name):
    vs_ = Scalars.defs[name]
    return S(name, {"k": "enum", "keys": [cps(kebab(v)) for v in vs_],
                    "names": [v.replace("r#", "") for v in vs_]},
             V("%s::%s" % (name, vs_[0]), ["v", vs_[0].replace("r#", "")]))


# FromStr / TryFrom<Vec<u8>> types: name in the specification -> Rust type
FROMSTR = {"any": "String", "alpha": "Alpha", "small": "Small"}
BYTES = {"any": "Vec<u8>", "even": "Even"}


# ---------------------------------------------------------------- fields
class F:
    """A field. ty is its Rust type, attr the inside of #[knuffel(..)]"""
    def __init__(self, m, name=None, ty=None, attrs=(), **kw):
        self.m, self.name, self.ty, self.attrs = m, name, ty, list(attrs)
        self.kw = kw

    def term(self, tuple_=False):
        d = {"m": self.m, "key": [], "st": 0, "t": 0, "opt": False,
             "dec": "n", "fs": "any", "kfs": "any", "def": [], "uw": [],
             "label": []}
        d.update(self.kw)
        if self.m == "arg":
            d["label"] = [] if tuple_ else [cps(unraw(self.name))]
        return d

    def rust(self, tuple_=False, style=(), gen=None):
        """style "split": an attribute for each of the options, among others;
        "fns": defaults are functions of the same name as the field;
        gen: the type parameters so far"""
        attrs = ["default=%s()" % self.name
                 if "fns" in style and not tuple_
                 and x.startswith("default=") else x
                 for x in self.attrs]
        if "split" in style:
            a = "/// %s\n" % self.m + "".join(
                "#[knuffel(%s,)] #[allow(unused)] " % x for x in attrs)
        else:
            a = ", ".join(attrs)
            a = "#[knuffel(%s)] " % a if a else ""
        ty = self.ty if gen is None else gen.param(self)
        if tuple_:
            return "%s%s" % (a, ty)
        return "%s%s%s: %s" % (a, "pub " if "split" in style else "",
                               self.name, ty)

    def default_fn(self):
        return "".join("fn %s() -> %s { %s }\n" % (self.name, self.ty, x[8:])
                       for x in self.attrs if x.startswith("default="))


class Generic:
    """Replaces scalar and node types by type parameters"""
    WRAP = r"((?:Option<|Vec<|Box<|Rc<|Arc<|Vec<\(\w+, )*)([\w:]+)(>*\)?>*)$"

    def __init__(self, extras=False):
        """extras: only what is not read from the document"""
        self.bounds, self.args, self.extras = [], [], extras

    def param(self, f):
        if self.extras:
            if f.m != "extra":
                return f.ty
            self.bounds.append("T%d: Default" % len(self.bounds))
            self.args.append(f.ty)
            return "T%d" % (len(self.bounds) - 1)
        g = f
        while isinstance(g.kw.get("uw"), F):
            g = g.kw["uw"]
        bound = {"arg": "DecodeScalar", "args": "DecodeScalar",
                 "prop": "DecodeScalar", "props": "DecodeScalar",
                 "child": "Decode", "children": "Decode", "rest": "Decode",
                 "flatc": "DecodePartial", "flatp": "DecodePartial",
                 "flatcp": "DecodePartial"}.get(g.m)
        m = re.match(self.WRAP, f.ty)
        if not bound or not m or m.group(2) in ("str", "Path") or g.kw.get("dec", "n") != "n" or \
                any(a.startswith("default=") for a in f.attrs + g.attrs):
            return f.ty
        more = " + Default" if bound == "DecodePartial" or \
            "default" in f.attrs and not f.kw.get("opt") and \
            f.m != "children" and "Vec<" not in f.ty else ""
        name = "T%d" % len(self.bounds)
        self.bounds.append("%s: knuffel::traits::%s<DocS>%s"
                           % (name, bound, more))
        self.args.append(m.group(2))
        return m.group(1) + name + m.group(3)

    def wrap(self, name):
        """(name of the definition, its parameters, its conditions, the
        concrete type)"""
        if not self.bounds:
            return name, "", "", ""
        n = len(self.bounds)
        gen = name + "_"
        alias = "pub type %s = %s<%s>;\n" % (name, gen, ", ".join(self.args))
        if n % 2:
            return gen, "<%s>" % ", ".join(self.bounds), "", alias
        return gen, "<%s>" % ", ".join("T%d" % i for i in range(n)), \
            " where %s" % ", ".join(self.bounds), alias


def _default(attrs, default, zero):
    """default: None, True (the type's Default) or a V"""
    if default is None:
        return []
    if default is True:
        attrs.append("default")
        return [zero.term]
    attrs.append("default=" + default.rust)
    return [default.term]


def _scalar(attrs, st, dec, fs, opt, coll=False):
    """Rust type and specification of a scalar position"""
    if dec == "n":
        if st.rust.startswith("Option<") and not opt and not coll:
            # the derive takes it for an optional field
            return st.rust, {"st": st.term, "opt": True}, VNONE
        s = Opt(st) if opt else st
        return s.rust, {"st": s.term, "opt": opt}, (VNONE if opt else st.zero)
    attrs.append({"s": "str", "b": "bytes"}[dec])
    r = (FROMSTR if dec == "s" else BYTES)[fs]
    zero = {"s": V("", ["s", []]), "b": V("", ["y", []])}[dec]
    return ("Option<%s>" % r if opt else r), \
        {"dec": dec, "fs": fs, "opt": opt}, (VNONE if opt else zero)


def arg(name, st=None, opt=False, dec="n", fs="any", default=None):
    a = ["argument"]
    ty, kw, zero = _scalar(a, st, dec, fs, opt)
    kw["def"] = _default(a, default, zero)
    return F("arg", name, ty, a, zero=zero, **kw)


def args(name, st=None, dec="n", fs="any", coll="Vec"):
    a = ["arguments"]
    ty, kw, _ = _scalar(a, st, dec, fs, False, True)
    return F("args", name, "%s<%s>" % (coll, ty), a, zero=V("", ["l"]), **kw)


def prop(name, st=None, key=None, opt=False, dec="n", fs="any", default=None):
    a = ["property(name=%s)" % json.dumps(key) if key is not None
         else "property"]
    ty, kw, zero = _scalar(a, st, dec, fs, opt)
    kw["def"] = _default(a, default, zero)
    return F("prop", name, ty, a, zero=zero,
             key=cps(key if key is not None else kebab(name)), **kw)


def props(name, st=None, dec="n", fs="any", kfs="any", coll="Vec"):
    a = ["properties"]
    ty, kw, _ = _scalar(a, st, dec, fs, False, True)
    k = FROMSTR[kfs]
    ty = "Vec<(%s, %s)>" % (k, ty) if coll == "Vec" else \
        "%s<%s, %s>" % (coll, k, ty)
    return F("props", name, ty, a, kfs=kfs, zero=V("", ["m"]), **kw)


def _unwrap(attrs, uw):
    attrs.append("unwrap(%s)" % ", ".join(uw.attrs))


def child(name, t=None, opt=False, default=None, uw=None):
    """default: None, or True for the type's Default, or a V"""
    a = ["child"]
    kw = {"key": cps(kebab(name)), "opt": opt}
    if uw is not None:
        _unwrap(a, uw)
        ty = uw.ty
        kw["uw"] = uw
        zero = uw.kw.get("zero")
    else:
        ty, kw["t"], zero = t.rust, t, t.zero
    if opt:
        ty, zero = "Option<%s>" % ty, VNONE
    if default is not None:
        kw["def"] = _default(a, default, zero)
    return F("child", name, ty, a, **kw)


def flag(name):
    return F("flag", name, "bool", ["child"], key=cps(kebab(name)))


def children(name, key, t=None, opt=False, default=None, uw=None, coll="Vec"):
    a = ["children(name=%s)" % json.dumps(key)]
    kw = {"key": cps(key), "opt": opt}
    if uw is not None:
        _unwrap(a, uw)
        ty = uw.ty
        kw["uw"] = uw
    else:
        ty, kw["t"] = t.rust, t
    ty = "%s<%s>" % (coll, ty)
    if default is not None:
        kw["def"] = _default(a, default, VNONE if opt else V("", ["l"]))
    return F("children", name, "Option<%s>" % ty if opt else ty, a, **kw)


def rest(name, t=None, uw=None, coll="Vec"):
    a = ["children"]
    kw = {}
    if uw is not None:
        _unwrap(a, uw)
        ty = uw.ty
        kw["uw"] = uw
    else:
        ty, kw["t"] = t.rust, t
    return F("rest", name, "%s<%s>" % (coll, ty), a, **kw)


def flat(name, t, what):
    """what: c, p or cp"""
    a = ["flatten(%s)" % {"c": "child", "p": "property",
                          "cp": "child, property",
                          "pc": "property, child"}[what]]
    return F("flat" + {"pc": "cp"}.get(what, what), name, t.rust, a, t=t)


def span(name, fs="any"):
    return F("span", name, "CtxSpan<FldS>" if fs == "ctx" else "FldS", ["span"],
             fs=fs)


def nname(name, fs="any"):
    return F("nname", name, FROMSTR[fs], ["node_name"], fs=fs)


def tname(name, opt=False, fs="any"):
    ty = FROMSTR[fs]
    return F("tname", name, "Option<%s>" % ty if opt else ty, ["type_name"],
             opt=opt, fs=fs)


def extra(name, s=None):
    s = s or Int("u32")
    return F("extra", name, s.rust, [], **{"def": [s.zero.term]})


# ----------------------------------------------------------------- types
class T:
    """Node type"""
    zero = None
    # how the type is written down: generic, split
    style = ()

    def rust_def(self):
        return ""

    def deps(self):
        return []


def field_types(fs):
    res = []
    for f in fs:
        if isinstance(f.kw.get("t"), T):
            res.append(f.kw["t"])
        if isinstance(f.kw.get("uw"), F):
            res += field_types([f.kw["uw"]])
    return res


class Ref(T):
    """A type defined later (recursive types)"""
    def __init__(self, rust):
        self.rust = rust
        self.target = None


class Struct(T):
    def __init__(self, name, fields, tuple_=False, unit=False, default=None,
                 ref=None):
        """default: None (no Default), "derive", or list of V per field"""
        self.rust = name
        self.fields, self.tuple_, self.unit = fields, tuple_, unit
        self.default = default
        if ref is not None:
            ref.target = self
        if default is not None:
            self.zero = V("", ["t"] + self.dflt_terms())

    def deps(self):
        return field_types(self.fields)

    def dflt_terms(self):
        if self.default == "derive":
            res = []
            for f in self.fields:
                if f.m == "flag":
                    res.append(["b", 0])
                elif f.m in ("flatc", "flatp", "flatcp"):
                    res.append(f.kw["t"].zero.term)
                elif f.m == "extra":
                    res.append(f.kw["def"][0])
                elif f.kw.get("opt"):
                    res.append(["n"])
                elif f.m in ("children", "rest", "args"):
                    res.append(["l"])
                elif f.kw.get("zero_term"):
                    res.append(f.kw["zero_term"])
                else:
                    res.append(["i", 0, [0]])
            return res
        return [v.term for v in self.default]

    def term(self, idx):
        return {"k": "struct", "name": self.rust,
                "fs": [field_term(f, idx, self.tuple_) for f in self.fields],
                "dflt": ["t"] + self.dflt_terms() if self.default is not None
                else []}

    def rust_def(self):
        derive = self.default == "derive" and not (
            "generic" in self.style or "marker" in self.style)
        der = "knuffel::Decode" + (", Default" if derive else "")
        gen = Generic() if "generic" in self.style else \
            Generic(True) if "marker" in self.style else None
        style = [] if self.tuple_ and "fns" in self.style else self.style
        fs = [f.rust(self.tuple_, style, gen) for f in self.fields]
        fns = "".join(f.default_fn() for f in self.fields) \
            if "fns" in style else ""
        name, params, where, alias = (gen or Generic()).wrap(self.rust)
        if self.unit:
            body = "pub struct %s;" % self.rust
        elif self.tuple_:
            body = "pub struct %s%s(%s)%s;" % (
                name, params, ", ".join(fs), where)
        else:
            body = "pub struct %s%s%s { %s }" % (
                name, params, where, ", ".join(fs))
        acc = ["self.%s" % (i if self.tuple_ else f.name)
               for i, f in enumerate(self.fields)]
        res = "#[derive(Debug, %s)] %s%s\n%s" % (der, span_attr(self), body,
                                                 alias)
        if self.default == "derive" and not derive:
            # the derived one would ask for it of the type parameters
            ds = ["Default::default()"] * len(self.fields)
            res += "impl Default for %s { fn default() -> Self { %s%s } }\n" % (
                self.rust, name, "(%s)" % ", ".join(ds) if self.tuple_ else
                "{ %s }" % ", ".join(
                    "%s: %s" % (f.name, d) for f, d in zip(self.fields, ds)))
        if isinstance(self.default, list):
            res += "impl Default for %s { fn default() -> Self { %s } }\n" % (
                self.rust, "%s { %s }" % (self.rust, ", ".join(
                    "%s: %s" % (f.name, v.rust)
                    for f, v in zip(self.fields, self.default))))
        res += ("impl Dump for %s { fn dump(&self) -> J { J::Array(vec!["
                "tag(\"t\"), %s]) } }\n"
                % (self.rust, " ".join("%s.dump()," % a for a in acc)))
        if fns:
            # functions of the same name may be needed elsewhere
            res = "mod m_%s {\nuse super::*;\n%s%s}\npub use m_%s::%s;\n" % (
                self.rust, fns, res, self.rust, self.rust)
        return res


class NewType(T):
    def __init__(self, name, inner, opt=False):
        self.rust, self.inner, self.opt = name, inner, opt

    def deps(self):
        return [self.inner]

    def term(self, idx):
        return {"k": "new", "t": idx(self.inner), "opt": self.opt}

    def rust_def(self):
        ty = self.inner.rust
        gen = Generic()
        if "generic" in self.style:
            ty = gen.param(F("child", "x", ty))
        name, params, where, alias = gen.wrap(self.rust)
        return ("#[derive(Debug, knuffel::Decode)] " + span_attr(self) +
                ("pub struct %s%s(%s)%s;\n%s"
                "impl Dump for %s { fn dump(&self) -> J { J::Array(vec!["
                "tag(\"t\"), self.0.dump()]) } }\n" % (
                    name, params, "Option<%s>" % ty if self.opt else ty,
                    where, alias, self.rust)))


class Boxed(T):
    def __init__(self, ptr, inner):
        self.rust, self.inner = "%s<%s>" % (ptr, inner.rust), inner
        self.zero = inner.zero

    def deps(self):
        return [self.inner]

    def term(self, idx):
        return {"k": "box", "t": idx(self.inner)}


class Hand(T):
    """A type with a hand-written decoder"""
    def __init__(self, name, term, zero=None):
        self.rust, self.term_ = name, term
        self.zero = zero

    def term(self, idx):
        return self.term_


ProbeNode = Hand("ProbeNode", {"k": "pnode"})
ProbeRoot = Hand("ProbeRoot", {"k": "proot"})
PART = ["t", ["l"], ["l"]]
PartP = Hand("PartP", {"k": "part", "letter": ord("p"), "fs": [], "dflt": PART}, V("", PART))
PartQ = Hand("PartQ", {"k": "part", "letter": ord("q"), "fs": [], "dflt": PART}, V("", PART))


class Var:
    """Enum variant: kind unit, nested, nestopt, tuple or skip"""
    def __init__(self, name, kind="unit", t=None, fields=()):
        self.name, self.kind, self.t, self.fields = name, kind, t, list(fields)


class Enum(T):
    def __init__(self, name, variants, ref=None):
        self.rust, self.variants = name, variants
        if ref is not None:
            ref.target = self

    def deps(self):
        res = []
        for v in self.variants:
            if v.t is not None:
                res.append(v.t)
            res += field_types(v.fields)
        return res

    def term(self, idx):
        live = [v for v in self.variants if v.kind != "skip"]
        return {"k": "enum", "keys": [cps(kebab(v.name)) for v in live],
                "vs": [{"k": v.kind, "name": unraw(v.name),
                        "t": idx(v.t) if v.t is not None else 0,
                        "fs": [field_term(f, idx, True) for f in v.fields]}
                       for v in live]}

    def rust_def(self):
        vs_, arms = [], []
        gen = Generic() if "generic" in self.style else None
        for v in self.variants:
            n = unraw(v.name)
            if v.kind in ("unit", "skip"):
                vs_.append("%s%s" % ("#[knuffel(skip)] " if v.kind == "skip"
                                     else "", v.name))
                arms.append("Self::%s => vec![tag(\"v\"), tag(\"%s\")]"
                            % (v.name, n))
            elif v.kind in ("nested", "nestopt"):
                ty = gen.param(F("child", "x", v.t.rust)) if gen \
                    else v.t.rust
                vs_.append("%s(%s)" % (v.name, "Option<%s>" % ty if
                                       v.kind == "nestopt" else ty))
                arms.append("Self::%s(x) => vec![tag(\"v\"), tag(\"%s\"), "
                            "x.dump()]" % (v.name, n))
            else:
                vs_.append("%s(%s)" % (v.name, ", ".join(
                    f.rust(True, self.style, gen) for f in v.fields)))
                xs = ["x%d" % i for i in range(len(v.fields))]
                arms.append("Self::%s(%s) => vec![tag(\"v\"), tag(\"%s\"), %s]"
                            % (v.name, ", ".join(xs), n,
                               " ".join(x + ".dump()," for x in xs)))
        name, params, where, alias = (gen or Generic()).wrap(self.rust)
        return ("#[derive(Debug, knuffel::Decode)] " + span_attr(self) +
                ("pub enum %s%s%s { %s }\n%s"
                "impl Dump for %s { fn dump(&self) -> J { J::Array(match self "
                "{ %s }) } }\n" % (name, params, where, ", ".join(vs_), alias,
                                   self.rust, ", ".join(arms))))


def field_term(f, idx, tuple_=False):
    d = f.term(tuple_)
    d.pop("zero_term", None)
    d.pop("zero", None)
    if isinstance(d["t"], T):
        d["t"] = idx(d["t"])
    if isinstance(d["uw"], F):
        d["uw"] = [field_term(d["uw"], idx, tuple_)]
        if d["uw"][0]["dec"] == "n":
            # what is inside of unwrap is never optional
            d["uw"][0]["opt"] = False
    return d


def needs_span(t, seen=None):
    """Does the type only decode from documents with one type of spans?"""
    seen = seen if seen is not None else set()
    t = deref(t)
    if id(t) in seen:
        return False
    seen.add(id(t))
    if "generic" in t.style:
        return True
    fs = list(getattr(t, "fields", []))
    for v in getattr(t, "variants", []):
        fs += v.fields
    while fs:
        f = fs.pop()
        if f.m == "span" or any(x in f.ty for x in
                                ("FldS", "ast::")):
            return True
        if isinstance(f.kw.get("uw"), F):
            fs.append(f.kw["uw"])
    return any(needs_span(d, seen) for d in t.deps())


def span_attr(t):
    return "#[knuffel(span_type=DocS)] " if needs_span(t) \
        else ""


# ----------------------------------------------------------------- cases
class Case:
    """Documents to decode into a type.
    form: "list" (Vec<T>) or "root" (the structure is the document)"""
    def __init__(self, t, form="list", heads=("",), chunks=(), tails=("",),
                 n=0, ctxs=((),), inl=None, wrap=None):
        """inl: the structure with the flattened fields inline; wrap: the
        structure with wrapper structures in place of unwrap"""
        self.t, self.form, self.n, self.wrap = t, form, n, wrap
        self.heads, self.chunks, self.tails = heads, chunks, tails
        self.ctxs, self.inl = ctxs, inl


def deref(t):
    return t.target if isinstance(t, Ref) else t


class Family:
    """The cases of a check with all the types they need"""
    def __init__(self, cases):
        self.cases = cases
        self.types = []
        self.index = {}
        for c in cases:
            self.add(c.t)
            if c.inl is not None:
                self.add(c.inl)
            if c.wrap is not None:
                self.add(c.wrap)

    def add(self, t):
        t = deref(t)
        if id(t) in self.index:
            return
        assert not t.rust_def() or t.rust not in [x.rust for x in self.types], \
            t.rust
        self.types.append(t)
        self.index[id(t)] = len(self.types)
        for d in t.deps():
            self.add(d)

    def idx(self, t):
        return self.index[id(deref(t))]

    def json(self):
        return json.dumps({
            "types": [t.term(self.idx) for t in self.types],
            "cases": [{
                "id": i, "t": self.idx(c.t), "form": c.form, "n": c.n,
                "heads": [cps(x) for x in c.heads],
                "chunks": [cps(x) for x in c.chunks],
                "tails": [cps(x) for x in c.tails],
                "ctxs": [[list(o) for o in ops] for ops in c.ctxs],
                "inl": self.idx(c.inl) if c.inl is not None else 0,
                "wrap": self.idx(c.wrap) if c.wrap is not None else 0,
            } for i, c in enumerate(self.cases)]})

    def rust(self, lines=False):
        """Three modules if lines is set: documents with byte spans, with line
        spans, with line spans decoded into byte spans"""
        seen, out = set(), []
        for t in self.types:
            d = t.rust_def()
            if d and t.rust not in seen:
                seen.add(t.rust)
                out.append(d)
        arms = []
        for i, c in enumerate(self.cases):
            t = deref(c.t).rust
            arms.append("%d => %s::<DocS, %s>(text, ops)," % (
                i, "list" if c.form == "list" else "root", t))
        out.append("pub fn run(case: usize, text: &str, ops: &[(u64, u64)]) "
                   "-> Got {\n match case {\n%s\n_ => panic!(\"no case\") }\n}"
                   % "\n".join(arms))
        body = "\n".join(out)
        mods = [("by", "Span", "Span")]
        if lines:
            mods += [("ln", "LineSpan", "LineSpan"), ("lb", "LineSpan", "Span")]
        return "".join(
            "pub mod %s {\nuse super::*;\ntype DocS = %s;\ntype FldS = %s;\n%s\n}\n"
            % (m, d, f, body) for m, d, f in mods) + \
            "pub static RUNS: &[(&str, Run)] = &[%s];\n" % ", ".join(
                '("%s", %s::run as Run)' % (m, m) for m, _, _ in mods)
