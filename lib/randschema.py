"""Random type definitions within what the documentation allows."""
import random
from schema import *


class RandSchema:
    def __init__(self, seed, focus, probes=False):
        self.r = random.Random(seed)
        self.styles = random.Random(seed + "/styles")
        self.probes = probes
        self.focus = focus
        self.count = 0

    def styled(self, t):
        """The same type, possibly with type parameters or with its attributes
        written one by one"""
        t.style = [x for x, p in (("generic", .25), ("marker", .5),
                                  ("split", .25), ("fns", .5))
                   if self.styles.random() < p]
        return t

    def fresh(self, p):
        self.count += 1
        return "%s%d" % (p, self.count)

    # -------------------------------------------------------------- scalars
    def scalar(self, depth=2):
        r = self.r
        x = r.random()
        if depth > 0 and x < .08:
            return Ptr(r.choice(["Box", "Rc", "Arc"]), self.scalar(depth - 1))
        if depth > 0 and x < .15:
            return Spanned(self.scalar(depth - 1))
        return r.choice([Int(r.choice(list(BITS))), Int("u8"),
                         Float(r.choice(["f32", "f64"])),
                         Str(r.choice(["String", "String", "PathBuf", "ArcStr", "ArcPath"])),
                         Bool, SEnum(r.choice(["Color", "Level", "Two", "Proto"]))]
                        + ([Probe] * 3 if self.probes else []))

    def default_of(self, s):
        """A default value for scalars where one is easily written"""
        k = s.term["k"]
        if k == "int":
            return vi(self.r.choice([0, 1, 42]))
        if k == "bool":
            return vb(self.r.random() < .5)
        if k == "string" and s.rust == "String":
            return vs(self.r.choice(["dflt", ""]))
        return None

    def mode(self):
        """Decode mode of a scalar position: keyword arguments"""
        r = self.r
        x = r.random()
        if x < .12:
            return {"dec": "s", "fs": r.choice(["any", "alpha", "small"])}
        if x < .2:
            return {"dec": "b", "fs": r.choice(["any", "even"])}
        return {"st": self.scalar()}

    def scalar_kw(self, allow_default=True):
        r = self.r
        kw = self.mode()
        kw["opt"] = r.random() < .4
        if allow_default and r.random() < .3:
            if "st" in kw:
                v = self.default_of(kw["st"])
                if v is not None:
                    kw["default"] = vsome(v) if kw["opt"] else v
                elif kw["opt"]:
                    kw["default"] = True
            elif kw["opt"]:
                kw["default"] = True
        return kw

    NAMES = ["alpha", "beta", "gamma_ray", "delta", "r#type", "eps_2", "zeta", "x",
             # what the derived code might call its variables
             "node", "ctx", "val", "name", "children", "seen_x", "s"]

    def unwrap(self, depth, tuple_=False):
        """The attributes inside of unwrap(..); the field keeps its name"""
        r = self.r
        ks = (["arg", "arg", "arg", "args", "prop", "props", "child", "children", "rest"]
              if depth > 0 else ["arg", "args", "prop"])
        if tuple_:
            ks = [k for k in ks if k != "child"]
        k = r.choice(ks)
        if k == "arg":
            kw = self.mode()
            return lambda nm: arg(nm, **kw)
        if k == "args":
            kw = self.mode()
            return lambda nm: args(nm, **kw)
        if k == "prop":
            kw = self.mode()
            key = r.choice([None, "val", "the value"])
            if tuple_ and key is None:
                key = "val"
            return lambda nm: prop(nm, key=key, **kw)
        if k == "props":
            kw = self.mode()
            return lambda nm: props(nm, **kw)
        if k == "child":
            if r.random() < .5:
                u = self.unwrap(depth - 1)
                return lambda nm: child(nm, uw=u(nm))
            t = self.struct(depth - 1)
            return lambda nm: child(nm, t)
        t = self.node_type(depth - 1)
        if k == "children":
            return lambda nm: children(nm, "kid", t)
        return lambda nm: rest(nm, t)

    def partial(self, depth):
        """A structure that can be flattened"""
        r = self.r
        fs = []
        names = ["pa", "pb", "pc_d", "pe", "pf"]
        sfx = self.fresh("")
        for nm in names[:r.randint(1, 4)]:
            nm = nm + sfx
            k = r.choice(["prop", "child", "flag", "children", "uchild", "flat"]
                         if depth > 0 else ["prop", "flag", "uchild"])
            if k == "prop":
                kw = self.mode()
                if kw.get("dec") == "b" and kw["fs"] == "even":
                    kw["fs"] = "any"
                fs.append(prop(nm, opt=True, **kw))
            elif k == "flag":
                fs.append(flag(nm))
            elif k == "child":
                fs.append(child(nm, self.node_type(depth - 1, False), opt=True))
            elif k == "uchild":
                u = self.unwrap(0)
                fs.append(child(nm, opt=True, uw=u(nm)))
            elif k == "children":
                fs.append(children(nm, kebab(nm), self.node_type(0, False), opt=True))
            else:
                t, what = self.partial(depth - 1)
                fs.append(flat(nm, t, what))
        t = self.styled(Struct(self.fresh("P"), fs, default="derive"))
        c = any(f.m in ("child", "children", "flag", "flatc", "flatcp") for f in fs)
        p = any(f.m in ("prop", "flatp", "flatcp") for f in fs)
        return t, ("c" if c else "") + ("p" if p else "")

    def struct(self, depth, root=False, n=None):
        r = self.r
        tuple_ = not root and r.random() < .15
        modes = {"arg": 3, "args": 1, "prop": 3, "props": 1, "child": 3, "flag": 2,
                 "children": 2, "rest": 1, "flat": 1.5, "span": .3, "nname": .3,
                 "tname": .4, "extra": .4}
        for k in self.focus:
            modes[k] *= 3
        if root:
            for k in ("arg", "args", "prop", "props", "span", "nname", "tname"):
                del modes[k]
        if depth <= 0:
            for k in ("child", "children", "rest", "flat"):
                modes.pop(k, None)
        if tuple_:
            for k in ("child", "flag", "flat"):
                modes.pop(k, None)
        fs, done = [], set()
        names = self.NAMES[:]
        r.shuffle(names)
        for nm in names[:n or r.randint(1, 5)]:
            k = r.choices(list(modes), list(modes.values()))[0]
            if k in done:
                continue
            if k == "arg" and "args" in done or k == "prop" and "props" in done \
                    or k in ("child", "flag", "children") and "rest" in done:
                continue
            if k == "flat" and ("rest" in done or "props" in done):
                continue
            if k in ("args", "props", "rest", "nname", "tname", "span"):
                done.add(k)
            if k == "arg":
                fs.append(arg(nm, **self.scalar_kw()))
            elif k == "args":
                fs.append(args(nm, **self.mode()))
            elif k == "prop":
                key = r.choice([None, None, nm.replace("r#", "") + "Key", "k-" + nm.replace("r#", "")])
                if tuple_ and key is None:
                    key = nm.replace("r#", "")
                fs.append(prop(nm, key=key, **self.scalar_kw()))
            elif k == "props":
                coll = r.choice(["Vec", "BTreeMap", "HashMap"])
                kw = self.mode()
                fs.append(props(nm, kfs="any" if coll != "Vec" else r.choice(["any", "alpha"]), coll=coll, **kw))
            elif k == "flag":
                fs.append(flag(nm))
            elif k == "child":
                if r.random() < .5:
                    u = self.unwrap(depth - 1)(nm)
                    opt, dflt = r.random() < .5, None
                    if r.random() < .4:
                        z = u.kw.get("zero")
                        if u.m in ("args", "props", "rest") or \
                                u.m in ("arg", "prop") and opt and u.kw.get("dec", "n") != "n":
                            dflt = True
                        elif u.m in ("arg", "prop") and z is not None and \
                                z.rust and "Path" not in u.ty:
                            if opt:
                                # decodes into the Option itself
                                st = Int(r.choice(list(BITS)))
                                u = arg(nm, Opt(st)) if u.m == "arg" else \
                                    prop(nm, Opt(st), key="kk")
                                opt, dflt = False, r.choice([vsome(vi(7)), True])
                            else:
                                dflt = z
                    if dflt is True and not opt and \
                            u.kw.get("zero") is None:
                        dflt = None
                    fs.append(child(nm, opt=opt, uw=u, default=dflt))
                else:
                    fs.append(child(nm, self.node_type(depth - 1), opt=r.random() < .5))
            elif k in ("children", "rest"):
                kw = {}
                if r.random() < .4:
                    kw["uw"] = self.unwrap(depth - 1, tuple_)(nm)
                else:
                    kw["t"] = self.node_type(depth - 1)
                if k == "rest":
                    fs.append(rest(nm, **kw))
                else:
                    x = r.random()
                    if x < .25:
                        kw["opt"] = True
                    elif x < .4:
                        kw["default"] = True
                    if x < .2 and "t" in kw:
                        kw["default"] = vsome(V("Default::default()", ["l"]))
                    elif "uw" in kw and r.random() < .3 and \
                            kw["uw"].m in ("arg", "prop") and \
                            kw["uw"].kw.get("zero") is not None and \
                            kw["uw"].kw["zero"].rust and \
                            "Path" not in kw["uw"].ty:
                        z = kw["uw"].kw["zero"]
                        l = V("vec![%s, %s]" % (z.rust, z.rust),
                              ["l", z.term, z.term])
                        kw["default"] = vsome(l) if kw.get("opt") else l
                    fs.append(children(nm, r.choice([kebab(nm), "kid", "item-" + kebab(nm)]), **kw))
            elif k == "flat":
                t, what = self.partial(depth - 1)
                if root:
                    if "p" in what:
                        continue
                fs.append(flat(nm, t, what))
            elif k == "span":
                fs.append(span(nm))
            elif k == "nname":
                fs.append(nname(nm, r.choice(["any", "any", "alpha"])))
            elif k == "tname":
                fs.append(tname(nm, r.random() < .6, r.choice(["any", "any", "alpha"])))
            elif k == "extra":
                fs.append(extra(nm))
        if tuple_ and (not fs or len(fs) == 1 and fs[0].m == "extra"):
            tuple_ = False
        return self.styled(Struct(self.fresh("S"), fs, tuple_=tuple_))

    def node_type(self, depth, enums=True):
        r = self.r
        if self.probes and r.random() < .15:
            return ProbeNode
        x = r.random()
        if x < .1:
            return Boxed(r.choice(["Box", "Rc", "Arc"]), self.struct(depth))
        if x < .2:
            return self.styled(NewType(self.fresh("N"), self.struct(depth),
                                       opt=r.random() < .5))
        if x < .4 and enums:
            return self.enum(depth)
        return self.struct(depth)

    def enum(self, depth):
        r = self.r
        names = ["First", "SecondOne", "ThirdX", "r#Self_", "Fifth"]
        names = ["First", "SecondOne", "Zz", "Other", "Kid"]
        r.shuffle(names)
        vs_ = []
        for nm in names[:r.randint(1, 5)]:
            k = r.choice(["unit", "nested", "nestopt", "tuple", "skip"])
            if k in ("nested", "nestopt"):
                vs_.append(Var(nm, k, self.struct(depth - 1)))
            elif k == "tuple":
                vs_.append(Var(nm, k, fields=[arg("a", **self.scalar_kw()),
                                              prop("b", key="val", **self.scalar_kw())][:r.randint(1, 2)]))
            else:
                vs_.append(Var(nm, k))
        if all(v.kind == "skip" for v in vs_):
            vs_.append(Var("Any", "unit"))
        return self.styled(Enum(self.fresh("E"), vs_))

    def cases(self, n):
        res = []
        for i in range(n):
            if self.r.random() < .2:
                res.append(Case(self.struct(2, root=True), form="root"))
            else:
                res.append(Case(self.node_type(2) if self.r.random() < .3
                                else self.struct(2, n=self.r.randint(2, 6))))
        return res
