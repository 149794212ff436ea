//! Compares what the implementation returns for a text with what the
//! specification says about it.
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::fmt::Debug;

use knuffel::ast::{BuiltinType, Document, Literal, SpannedNode, TypeName, Value as KValue};
use knuffel::span::{LineSpan, Span, Spanned};
use miette::Diagnostic;
use serde_json::Value;

use crate::pool::Outcome;

pub struct Case {
    pub text: String,
    pub ok: bool,
    pub nodes: Value,
    pub unc: Vec<(i64, usize, usize)>,
    /// places of the errors, as character indices
    pub offs: Vec<(usize, usize)>,
    /// byte offset of each character index
    pub boff: Vec<usize>,
    /// line and column of each character index, if given
    pub lc: Vec<(usize, usize)>,
}

pub fn uint(v: &Value) -> usize { v.as_u64().expect("uint") as usize }

pub fn text(v: &Value) -> String {
    v.as_array().expect("text").iter()
        .map(|c| char::from_u32(uint(c) as u32).expect("scalar value"))
        .collect()
}

impl Case {
    pub fn from_line(line: &str) -> Case {
        let v: Value = serde_json::from_str(line).expect("json");
        Case::from_value(&v)
    }
    pub fn from_value(v: &Value) -> Case {
        let text = text(&v[0]);
        let mut boff = vec![0];
        for c in text.chars() {
            boff.push(boff[boff.len()-1] + c.len_utf8());
        }
        Case {
            text, boff,
            ok: v[1] == 1,
            nodes: v[2].clone(),
            unc: v[3].as_array().unwrap().iter()
                .map(|u| (u[0].as_i64().unwrap(), uint(&u[1]), uint(&u[2])))
                .collect(),
            offs: v[4].as_array().unwrap().iter()
                .map(|p| (uint(&p[0]), uint(&p[1]))).collect(),
            lc: v[5].as_array().unwrap().iter()
                .map(|p| (uint(&p[0]), uint(&p[1]))).collect(),
        }
    }
}

/// Catches panics of the implementation
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_else(|| "?".into())
    })
}

/// How spans are checked
pub trait Spans: Sized {
    fn same(&self, case: &Case, s: usize, e: usize) -> bool;
}
impl Spans for Span {
    fn same(&self, case: &Case, s: usize, e: usize) -> bool {
        self.0 == case.boff[s] && self.1 == case.boff[e]
    }
}
impl Spans for LineSpan {
    fn same(&self, case: &Case, s: usize, e: usize) -> bool {
        self.0.offset == case.boff[s] && self.1.offset == case.boff[e]
        && (case.lc.is_empty()
            || ((self.0.line, self.0.column) == case.lc[s]
                && (self.1.line, self.1.column) == case.lc[e]))
    }
}

pub struct Cmp<'a> {
    pub case: &'a Case,
    pub out: &'a mut Outcome,
    /// categories to use
    pub struct_cat: &'static str,
    pub str_cat: &'static str,
    pub num_cat: &'static str,
    pub span_cat: &'static str,
}

impl<'a> Cmp<'a> {
    fn span<S: Spans + Debug>(&mut self, what: &str, sp: &S,
                              s: &Value, e: &Value)
    {
        let (s, e) = (uint(s), uint(e));
        if !sp.same(self.case, s, e) {
            let d = format!(
                "{} span {:?}, expected characters {}..{} (bytes {}..{}, \
                 line/col {:?}..{:?})", what, sp, s, e,
                self.case.boff[s], self.case.boff[e],
                self.case.lc.get(s), self.case.lc.get(e));
            self.out.bad(self.span_cat, d);
        }
    }
    fn type_name<S: Spans + Debug>(&mut self, t: &Option<Spanned<TypeName, S>>,
                                   m: &Value)
    {
        let m = m.as_array().unwrap();
        match (t, m.is_empty()) {
            (None, true) => {}
            (Some(t), false) => {
                let want = text(&m[0]);
                if t.as_str() != want {
                    self.out.bad(self.str_cat, format!(
                        "type name {:?}, expected {:?}", t.as_str(), want));
                } else if let Some(e) = type_api(t, &want) {
                    self.out.bad(self.struct_cat, format!(
                        "type name {:?}: {}", want, e));
                }
                self.span("type name", t.span(), &m[1], &m[2]);
            }
            _ => self.out.bad(self.struct_cat, format!(
                "type name present: {}, expected: {}",
                t.is_some(), !m.is_empty())),
        }
    }
    pub fn value<S: Spans + Debug>(&mut self, v: &KValue<S>, m: &Value) {
        self.type_name(&v.type_name, &m[0]);
        self.literal(&v.literal, &m[1][0], &m[1][1]);
        self.span("literal", v.literal.span(), &m[1][2], &m[1][3]);
    }
    pub fn literal(&mut self, l: &Literal, kind: &Value, payload: &Value) {
        let kind = uint(kind);
        match (l, kind) {
            (Literal::Null, 0) => {}
            (Literal::Bool(b), 1) => {
                if *b != (payload[0] == 1) {
                    self.out.bad(self.struct_cat, format!("bool {}", b));
                }
            }
            (Literal::Int(i), 2) => {
                if let Err(e) = integer(i, payload) {
                    self.out.bad(self.num_cat, e);
                }
            }
            (Literal::Decimal(d), 3) => {
                let t = text(payload);
                let want64: f64 = t.parse().expect("decimal");
                let want32: f32 = t.parse().expect("decimal");
                match (f64::try_from(d), f32::try_from(d)) {
                    (Ok(a), Ok(b)) if a.to_bits() == want64.to_bits()
                                   && b.to_bits() == want32.to_bits() => {}
                    (a, b) => self.out.bad(self.num_cat, format!(
                        "decimal {}: {:?} {:?}", t, a, b)),
                }
            }
            (Literal::String(s), 4) => {
                let want = text(payload);
                if **s != *want {
                    self.out.bad(self.str_cat, format!(
                        "string {:?}, expected {:?}", s, want));
                }
            }
            (_, k) => {
                let cat = if k == 2 || k == 3 { self.num_cat }
                          else { self.struct_cat };
                self.out.bad(cat, format!(
                    "literal {:?}, expected kind {}", l, k));
            }
        }
    }
    pub fn nodes<S: Spans + Debug>(&mut self, ns: &[SpannedNode<S>],
                                   m: &Value)
    {
        let m = m.as_array().unwrap();
        if ns.len() != m.len() {
            self.out.bad(self.struct_cat, format!(
                "{} nodes, expected {}", ns.len(), m.len()));
            return;
        }
        for (n, m) in ns.iter().zip(m) {
            self.node(n, m);
        }
    }
    pub fn node<S: Spans + Debug>(&mut self, n: &SpannedNode<S>, m: &Value) {
        self.type_name(&n.type_name, &m[0]);
        let want = text(&m[1][0]);
        if **n.node_name != *want {
            self.out.bad(self.str_cat, format!(
                "node name {:?}, expected {:?}", n.node_name, want));
        }
        self.span("node name", n.node_name.span(), &m[1][1], &m[1][2]);
        let margs = m[2].as_array().unwrap();
        if margs.len() != n.arguments.len() {
            self.out.bad(self.struct_cat, format!(
                "{} arguments, expected {}", n.arguments.len(), margs.len()));
        } else {
            for (a, m) in n.arguments.iter().zip(margs) {
                self.value(a, m);
            }
        }
        let mprops: BTreeMap<String, &Value> = m[3].as_array().unwrap().iter()
            .map(|p| (text(&p[0]), p)).collect();
        let keys: Vec<&str> = n.properties.keys().map(|k| &***k).collect();
        let want: Vec<&str> = mprops.keys().map(|x| &x[..]).collect();
        if keys != want {
            self.out.bad(self.struct_cat, format!(
                "properties {:?}, expected {:?}", keys, want));
        } else {
            for (k, v) in &n.properties {
                let m = mprops[&***k];
                // the key may be any of the places where it is written
                let places = m[1].as_array().unwrap();
                if !places.iter().any(|p| k.span().same(
                        self.case, uint(&p[0]), uint(&p[1])))
                {
                    self.span("property name", k.span(),
                              &places[0][0], &places[0][1]);
                }
                self.value(v, &m[2]);
            }
        }
        let all: Vec<_> = n.children.iter().flat_map(|c| c.iter()).collect();
        let it = n.children();
        if it.len() != all.len() || !it.zip(&all).all(|(a, b)| std::ptr::eq(a, *b)) {
            self.out.bad(self.struct_cat, "children() differs from children"
                         .to_string());
        }
        let mkids = m[4].as_array().unwrap();
        match (&n.children, mkids.is_empty()) {
            (None, true) => {}
            (Some(c), false) => {
                self.nodes(c, &mkids[0]);
                self.span("children", c.span(), &mkids[1], &mkids[2]);
            }
            _ => self.out.bad(self.struct_cat, format!(
                "children present: {}, expected: {}",
                n.children.is_some(), !mkids.is_empty())),
        }
        self.span("node", n.span(), &m[5], &m[6]);
    }
}

/// The integer against (sign, digits, mask of the types that can hold it)
pub fn integer(i: &knuffel::ast::Integer, payload: &Value)
    -> Result<(), String>
{
    let neg = payload[0] == 1;
    let digits: String = payload[1].as_array().unwrap().iter()
        .map(|d| char::from(b'0' + uint(d) as u8)).collect();
    let mask = uint(&payload[2]);
    let want = format!("{}{}", if neg && digits != "0" { "-" } else { "" },
                       digits);
    let mut res = Ok(());
    macro_rules! typ {
        ($t:ty, $bit:expr) => {
            let fits = mask & (1 << $bit) != 0;
            let got = <$t>::try_from(i);
            let good = match &got {
                Ok(v) => fits && v.to_string() == want,
                Err(_) => !fits,
            };
            if !good {
                res = Err(format!("integer {} as {}: {:?}, {}", want,
                    stringify!($t), got,
                    if fits { "fits" } else { "does not fit" }));
            }
        }
    }
    typ!(i8, 0); typ!(i16, 1); typ!(i32, 2); typ!(i64, 3); typ!(isize, 3);
    typ!(u8, 4); typ!(u16, 5); typ!(u32, 6); typ!(u64, 7); typ!(usize, 7);
    res
}

/// A node whose first argument is decoded as `T`
struct First<T>(T);
impl<S, T> knuffel::Decode<S> for First<T>
    where S: knuffel::traits::ErrorSpan, T: knuffel::DecodeScalar<S>,
{
    fn decode_node(node: &SpannedNode<S>,
                   ctx: &mut knuffel::decode::Context<S>)
        -> Result<Self, knuffel::errors::DecodeError<S>>
    {
        T::decode(&node.arguments[0], ctx).map(First)
    }
}

/// Every unannotated number of the document through `DecodeScalar`
fn scalars(ns: &[SpannedNode<Span>], m: &Value, out: &mut Outcome) {
    for (n, m) in ns.iter().zip(m.as_array().unwrap()) {
        for (a, m) in n.arguments.iter().zip(m[2].as_array().unwrap()) {
            if a.type_name.is_some() { continue; }
            let kind = uint(&m[1][0]);
            if kind != 2 && kind != 3 { continue; }
            let mut one = n.clone();
            one.arguments = vec![a.clone()];
            macro_rules! typ { ($t:ty, $want:expr) => {
                let want: Option<$t> = $want;
                let got = knuffel::decode::node::<First<$t>, Span>(&one).ok()
                    .map(|x| x.0);
                if got.map(|x| x.to_string()) != want.map(|x| x.to_string()) {
                    out.bad("scalar", format!("{:?} decoded as {}: {:?}, \
                        expected {:?}", a.literal, stringify!($t), got, want));
                }
            } }
            if kind == 2 {
                let p = &m[1][1];
                let mut text = if p[0] == 1 { "-" } else { "" }.to_string();
                for d in p[1].as_array().unwrap() {
                    text.push(char::from(b'0' + uint(d) as u8));
                }
                let mask = uint(&p[2]);
                macro_rules! int { ($t:ty, $bit:expr) => {
                    typ!($t, if mask & (1 << $bit) != 0 {
                        Some(text.parse().unwrap())
                    } else { None });
                } }
                int!(i8, 0); int!(i16, 1); int!(i32, 2); int!(i64, 3);
                int!(isize, 3); int!(u8, 4); int!(u16, 5); int!(u32, 6);
                int!(u64, 7); int!(usize, 7);
                typ!(f32, None); typ!(f64, None);
            } else {
                let text = text(&m[1][1]);
                typ!(f32, Some(text.parse().unwrap()));
                typ!(f64, Some(text.parse().unwrap()));
                typ!(u8, None); typ!(i64, None); typ!(u64, None);
                typ!(i32, None); typ!(usize, None);
            }
        }
    }
}

pub fn parse<S: knuffel::traits::Span>(text: &str)
    -> Result<Result<Document<S>, knuffel::Error>, String>
{
    guarded(|| knuffel::parse_ast::<S>("input.kdl", text))
}

pub struct Label { pub start: usize, pub end: usize }
pub struct Diag { pub message: String, pub labels: Vec<Label> }

/// The diagnostics of an error
pub fn diags(e: &knuffel::Error) -> Vec<Diag> {
    let mut res = Vec::new();
    if let Some(rel) = e.related() {
        for d in rel {
            res.push(Diag {
                message: d.to_string(),
                labels: d.labels().map(|ls| ls.map(|l| Label {
                    start: l.offset(), end: l.offset() + l.len(),
                }).collect()).unwrap_or_default(),
            });
        }
    }
    res
}

/// What is wrong with the ways to look at a type name
fn type_api(t: &TypeName, want: &str) -> Option<String> {
    const NAMES: &[(&str, BuiltinType)] = &[
        ("u8", BuiltinType::U8), ("i8", BuiltinType::I8),
        ("u16", BuiltinType::U16), ("i16", BuiltinType::I16),
        ("u32", BuiltinType::U32), ("i32", BuiltinType::I32),
        ("u64", BuiltinType::U64), ("i64", BuiltinType::I64),
        ("usize", BuiltinType::Usize), ("isize", BuiltinType::Isize),
        ("f32", BuiltinType::F32), ("f64", BuiltinType::F64),
        ("base64", BuiltinType::Base64),
    ];
    let known = NAMES.iter().find(|x| x.0 == want).map(|x| &x.1);
    let got = t.as_builtin();
    let parsed: TypeName = want.parse().unwrap();
    if known.is_some() && got != known
        || got.map_or(false, |b| b.as_str() != want) {
        return Some(format!("built-in {:?}", got));
    }
    if want.parse::<BuiltinType>().ok().as_ref() != got {
        return Some("built-in parsed from its text differs".into());
    }
    if parsed != *t || parsed.as_str() != want {
        return Some("differs from the one parsed from its text".into());
    }
    if known.map_or(false, |k| k.clone().as_type() != *t) {
        return Some("differs from the built-in type".into());
    }
    if t.to_string() != want || &**t != want {
        return Some(format!("displayed as {}", t));
    }
    None
}

/// Does the report carry the name and the text it was made from?
pub fn source(e: &dyn Diagnostic, name: &str, text: &str) -> Result<(), String> {
    let src = e.source_code().ok_or("none")?;
    if text.is_empty() { return Ok(()); }
    let got = src.read_span(&(0, text.len()).into(), 0, 0)
        .map_err(|e| e.to_string())?;
    if got.data() != text.as_bytes() {
        return Err(format!("text {:?}", String::from_utf8_lossy(got.data())));
    }
    match got.name() {
        Some(n) if n == name => {}
        n => return Err(format!("name {:?}", n)),
    }
    // nothing follows
    match src.read_span(&(0, text.len() + 1).into(), 0, 0) {
        Ok(got) if got.data().len() > text.len() =>
            Err("longer than the text".into()),
        _ => Ok(()),
    }
}

/// Full comparison of one case
pub fn check(case: &Case, line_mode: bool, deep: bool, scalar: bool) -> Outcome {
    let mut out = Outcome::default();
    out.sample = Some(format!("{:?} -> {}", case.text,
        if case.ok { "well formed" } else { "error" }));
    out.counts.push(if case.ok { "accepted" } else { "rejected" });
    let t = &case.text[..];
    let res = match parse::<Span>(t) {
        Ok(r) => r,
        Err(p) => {
            out.bad("panic", format!("{:?}: panic {}", t, p));
            out.bad("accept", format!("{:?}: panic {}", t, p));
            return out;
        }
    };
    match &res {
        Ok(doc) if case.ok => {
            let mut c = Cmp {
                case, out: &mut out, struct_cat: "struct", str_cat: "str",
                num_cat: "num", span_cat: "span",
            };
            c.nodes(&doc.nodes, &case.nodes);
            if scalar {
                scalars(&doc.nodes, &case.nodes, &mut out);
            }
        }
        Err(e) if !case.ok => error_report(case, e, deep, &mut out),
        Ok(_) => out.bad("accept", format!("{:?} accepted, is ill formed", t)),
        Err(e) => out.bad("accept", format!(
            "{:?} rejected, is well formed: {}", t,
            diags(e).first().map(|d| d.message.clone()).unwrap_or_default())),
    }
    if line_mode {
        match parse::<LineSpan>(t) {
            Err(p) => out.bad("line", format!("{:?}: panic {}", t, p)),
            Ok(Ok(doc)) => {
                if case.ok {
                    let mut c = Cmp {
                        case, out: &mut out, struct_cat: "line",
                        str_cat: "line", num_cat: "line", span_cat: "line",
                    };
                    c.nodes(&doc.nodes, &case.nodes);
                }
                if res.is_err() {
                    out.bad("line", format!("{:?} accepted with line spans \
                                             only", t));
                }
            }
            Ok(Err(e)) => {
                match &res {
                    Ok(_) => out.bad("line", format!(
                        "{:?} rejected with line spans only", t)),
                    Err(b) => {
                        let f = |e: &knuffel::Error| diags(e).into_iter()
                            .map(|d| (d.message, d.labels.into_iter()
                                .map(|l| (l.start, l.end))
                                .collect::<Vec<_>>()))
                            .collect::<Vec<_>>();
                        if f(&e) != f(b) {
                            out.bad("line", format!(
                                "{:?}: report differs with line spans", t));
                        }
                    }
                }
            }
        }
    }
    if deep {
        // determinism
        let again = parse::<Span>(t);
        let same = match (&again, &res) {
            (Ok(Ok(a)), Ok(b)) => format!("{:?}", a) == format!("{:?}", b),
            (Ok(Err(a)), Err(b)) => format!("{:?}", a) == format!("{:?}", b),
            _ => false,
        };
        if !same {
            out.bad("determinism", format!("{:?}: two parses differ", t));
        }
    }
    out
}

fn error_report(case: &Case, e: &knuffel::Error, deep: bool,
                out: &mut Outcome)
{
    let t = &case.text[..];
    let ds = diags(e);
    if let Err(x) = source(e, "input.kdl", t) {
        out.bad("errform", format!("{:?}: source of the report: {}", t, x));
    }
    if ds.is_empty() {
        out.bad("errform", format!("{:?}: no diagnostics", t));
    }
    for d in &ds {
        if d.message.trim().is_empty() {
            out.bad("errform", format!("{:?}: empty message", t));
        }
        if d.labels.is_empty() {
            out.bad("errform", format!("{:?}: {:?} has no label",
                                       t, d.message));
        }
        for l in &d.labels {
            if l.start > l.end || l.end > t.len()
                || !t.is_char_boundary(l.start) || !t.is_char_boundary(l.end)
            {
                out.bad("errform", format!("{:?}: label {}..{}",
                                           t, l.start, l.end));
            }
        }
    }
    // what the message says was found is what stands at the label
    for d in &ds {
        let l = match d.labels.first() {
            Some(l) if l.start <= l.end && l.end <= t.len() => l,
            _ => continue,
        };
        let good = if d.message.starts_with("found end of input") {
            l.start == t.len()
        } else if d.message.starts_with("found `") {
            t.get(l.start..l.end).map_or(false, |at| {
                let esc = match at {
                    "\"" | "'" | "\\" => at.to_string(),
                    _ => at.escape_default().to_string(),
                };
                let want = format!("found `{}`", esc);
                d.message == want
                    || d.message.starts_with(&(want + ", expected "))
            })
        } else {
            true
        };
        if !good {
            out.bad("found", format!("{:?}: {:?} labels {}..{}",
                                     t, d.message, l.start, l.end));
        }
    }
    if deep {
        let r = guarded(|| {
            let mut s = String::new();
            miette::NarratableReportHandler::new()
                .render_report(&mut s, e).map(|()| s)
        });
        match r {
            Ok(Ok(s)) if !s.is_empty() => {}
            Ok(_) => out.bad("errform", format!("{:?}: cannot render", t)),
            Err(p) => out.bad("errform", format!("{:?}: rendering: panic {}",
                                                 t, p)),
        }
    }
    let offs: Vec<(usize, usize)> = case.offs.iter()
        .map(|&(a, b)| (case.boff[a], case.boff[b])).collect();
    if !ds.iter().any(|d| d.labels.iter().any(|l| offs.iter()
                      .any(|&(lo, hi)| l.start <= hi && l.end >= lo)))
    {
        out.bad("errpoint", format!(
            "{:?}: no label touches any of {:?}: {:?}", t, offs,
            ds.iter().map(|d| (&d.message, d.labels.iter()
                .map(|l| (l.start, l.end)).collect::<Vec<_>>()))
            .collect::<Vec<_>>()));
    }
    if !case.unc.is_empty() {
        out.counts.push("unclosed");
        let word = match case.unc[0].0 {
            1 => "string", 2 => "raw string", 3 => "comment", _ => "braces",
        };
        let good = ds.iter().any(|d| {
            d.message.contains("unclosed") && d.message.contains(word)
            && d.labels.iter().any(|l| l.start == t.len() && l.end == t.len())
            && d.labels.iter().any(|l| case.unc.iter().any(|u| {
                l.start == case.boff[u.1] && l.end == case.boff[u.2]
            }))
        });
        if !good {
            out.bad("unclosed", format!(
                "{:?}: expected an unclosed {} at {:?}, got {:?}", t, word,
                case.unc, ds.iter().map(|d| (&d.message, d.labels.iter()
                    .map(|l| (l.start, l.end)).collect::<Vec<_>>()))
                .collect::<Vec<_>>()));
        }
    }
}
