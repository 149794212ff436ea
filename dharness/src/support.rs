//! Dumping decoded values, types with hand-written decoders, and the entry
//! points through which documents are decoded.
use std::collections::{BTreeMap, HashMap, LinkedList, VecDeque};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;

use knuffel::ast::{Literal, SpannedNode, TypeName, Value};
use knuffel::decode::Context;
use knuffel::errors::DecodeError;
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::traits::{self, Decode, DecodeChildren, DecodeScalar, DecodeSpan,
                      ErrorSpan};
use miette::Diagnostic;

pub type J = serde_json::Value;

pub fn tag(s: &str) -> J { J::from(s) }
fn codes(s: &str) -> J { s.chars().map(|c| c as u32).collect::<Vec<_>>().into() }

pub trait Dump {
    fn dump(&self) -> J;
}

fn int(s: String) -> J {
    let neg = s.starts_with('-');
    let ds: Vec<u32> = s.trim_start_matches('-').bytes()
        .map(|b| (b - b'0') as u32).collect();
    J::Array(vec![tag("i"), J::from(neg as u32), ds.into()])
}

macro_rules! ints {
    ($($t:ty)*) => { $(impl Dump for $t {
        fn dump(&self) -> J { int(self.to_string()) }
    })* }
}
ints!(i8 i16 i32 i64 u8 u16 u32 u64 isize usize);

impl Dump for f64 {
    fn dump(&self) -> J { J::Array(vec![tag("f64"), self.to_bits().into()]) }
}
impl Dump for f32 {
    fn dump(&self) -> J { J::Array(vec![tag("f32"), self.to_bits().into()]) }
}
impl Dump for bool {
    fn dump(&self) -> J { J::Array(vec![tag("b"), (*self as u32).into()]) }
}
fn text(s: &str) -> J { J::Array(vec![tag("s"), codes(s)]) }
impl Dump for String { fn dump(&self) -> J { text(self) } }
impl Dump for Arc<str> { fn dump(&self) -> J { text(self) } }
impl Dump for PathBuf { fn dump(&self) -> J { text(self.to_str().unwrap()) } }
impl Dump for Arc<Path> { fn dump(&self) -> J { text(self.to_str().unwrap()) } }

impl<T: Dump> Dump for Box<T> { fn dump(&self) -> J { (**self).dump() } }
impl<T: Dump> Dump for Rc<T> { fn dump(&self) -> J { (**self).dump() } }
impl<T: Dump> Dump for Arc<T> { fn dump(&self) -> J { (**self).dump() } }
impl<T: Dump> Dump for Option<T> {
    fn dump(&self) -> J {
        match self {
            None => J::Array(vec![tag("n")]),
            Some(x) => J::Array(vec![tag("o"), x.dump()]),
        }
    }
}
fn dump_list<'x, T: Dump + 'x>(it: impl Iterator<Item=&'x T>) -> J {
    let mut res = vec![tag("l")];
    res.extend(it.map(|x| x.dump()));
    J::Array(res)
}
impl<T: Dump> Dump for Vec<T> {
    fn dump(&self) -> J { dump_list(self.iter()) }
}
impl<T: Dump> Dump for VecDeque<T> {
    fn dump(&self) -> J { dump_list(self.iter()) }
}
impl<T: Dump> Dump for LinkedList<T> {
    fn dump(&self) -> J { dump_list(self.iter()) }
}
impl<A: Dump, B: Dump> Dump for (A, B) {
    fn dump(&self) -> J { J::Array(vec![self.0.dump(), self.1.dump()]) }
}
fn map<'x, K: Dump + 'x, T: Dump + 'x>(it: impl Iterator<Item=(&'x K, &'x T)>)
    -> J
{
    let mut res = vec![tag("l")];
    res.extend(it.map(|(k, v)| J::Array(vec![k.dump(), v.dump()])));
    J::Array(res)
}
impl<K: Dump, T: Dump> Dump for HashMap<K, T> {
    fn dump(&self) -> J { map(self.iter()) }
}
impl<K: Dump, T: Dump> Dump for BTreeMap<K, T> {
    fn dump(&self) -> J { map(self.iter()) }
}
/// A span: ["at", start, end], followed by the lines and columns if it has
/// them
pub trait DumpSpan { fn ends(&self) -> J; }
impl DumpSpan for Span {
    fn ends(&self) -> J {
        J::Array(vec![tag("at"), J::from(self.0), J::from(self.1)])
    }
}
impl DumpSpan for LineSpan {
    fn ends(&self) -> J {
        let (a, b) = (&self.0, &self.1);
        J::Array(vec![tag("at"), J::from(a.offset), J::from(b.offset),
                      J::from(a.line), J::from(a.column),
                      J::from(b.line), J::from(b.column)])
    }
}
macro_rules! spans {
    ($($s:ty)*) => { $(
        impl Dump for $s {
            fn dump(&self) -> J { J::Array(vec![tag("span"), self.ends()]) }
        }
    )* }
}
spans!(Span LineSpan);
impl<T: Dump, S: DumpSpan> Dump for Spanned<T, S> {
    fn dump(&self) -> J {
        J::Array(vec![tag("sp"), self.span().ends(), (**self).dump()])
    }
}
fn literal(l: &Literal) -> J {
    match l {
        Literal::Null => J::Array(vec![tag("n")]),
        Literal::Bool(b) => b.dump(),
        Literal::String(s) => s.to_string().dump(),
        Literal::Int(i) => match i64::try_from(i) {
            Ok(x) => x.dump(),
            Err(_) => match u64::try_from(i) {
                Ok(x) => x.dump(),
                Err(_) => J::Array(vec![tag("huge")]),
            },
        },
        Literal::Decimal(d) => f64::try_from(d).unwrap().dump(),
    }
}
impl Dump for Literal {
    fn dump(&self) -> J { J::Array(vec![tag("lit"), literal(self)]) }
}
impl<S: ErrorSpan> Dump for Value<S> {
    fn dump(&self) -> J {
        let t: Vec<J> = self.type_name.iter()
            .map(|t| codes(t.as_str())).collect();
        J::Array(vec![tag("val"), t.into(), literal(&self.literal)])
    }
}

// ------------------------------------------------- types used in str mode
#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Clone, Default)]
pub struct Alpha(pub String);
#[derive(Debug, Clone, Default)]
pub struct Small(pub u8);
#[derive(Debug)]
pub struct Fail(&'static str);
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Fail {}
impl FromStr for Alpha {
    type Err = Fail;
    fn from_str(s: &str) -> Result<Self, Fail> {
        if !s.is_empty() && s.chars().all(|c| c.is_ascii_lowercase()) {
            Ok(Alpha(s.into()))
        } else { Err(Fail("not alpha")) }
    }
}
impl FromStr for Small {
    type Err = Fail;
    fn from_str(s: &str) -> Result<Self, Fail> {
        if (s.len() == 1 || s.len() == 2)
            && s.bytes().all(|c| c.is_ascii_digit()) {
            Ok(Small(s.parse().unwrap()))
        } else { Err(Fail("not small")) }
    }
}
impl Dump for Alpha { fn dump(&self) -> J { self.0.dump() } }
impl Dump for Small { fn dump(&self) -> J { self.0.dump() } }

#[derive(Debug, Default)]
pub struct Even(pub Vec<u8>);
impl TryFrom<Vec<u8>> for Even {
    type Error = Fail;
    fn try_from(v: Vec<u8>) -> Result<Even, Fail> {
        if v.len() % 2 == 0 { Ok(Even(v)) } else { Err(Fail("not even")) }
    }
}
impl Dump for Even {
    fn dump(&self) -> J { bytes(&self.0) }
}
/// Byte vectors (Vec<u8> fields are only ever used in bytes mode)
pub fn bytes(v: &[u8]) -> J {
    J::Array(vec![tag("y"), v.to_vec().into()])
}

// ------------------------------------------------------- derived scalars
#[derive(Debug, knuffel::DecodeScalar)]
pub enum Color { Red, DarkBlue, Green }
#[derive(Debug, knuffel::DecodeScalar)]
pub enum Level { Low, Mid, High, VeryHigh, r#Type }
#[derive(Debug, knuffel::DecodeScalar)]
pub enum One { Only }
#[derive(Debug, knuffel::DecodeScalar)]
pub enum Two { Ab, CD }
#[derive(Debug, knuffel::DecodeScalar)]
#[allow(non_camel_case_types)]
pub enum Proto { HTTPServer, X1Y2, IPv4, A, ABc, MixedCASE, Snake_Case, lower, Four5Six, YesItIsALongName }
macro_rules! variants {
    ($($t:ty)*) => { $(impl Dump for $t {
        fn dump(&self) -> J {
            J::Array(vec![tag("v"), format!("{:?}", self).into()])
        }
    })* }
}
variants!(Color Level One Two Proto);
impl Default for Color { fn default() -> Color { Color::Red } }
impl Default for Level { fn default() -> Level { Level::Low } }

// ------------------------------------------------- context-reading types
pub struct CtxA(pub u64);
pub struct CtxB(pub u64);
/// A value without size, one that owns memory, one behind a reference, and
/// one whose type differs from another in a parameter only
pub struct CtxC;
pub struct CtxD(pub Vec<String>);
pub type CtxE = &'static str;
pub struct CtxF<T>(pub u64, pub std::marker::PhantomData<T>);
const DIGITS: [&str; 10] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];
#[derive(Debug)]
pub struct CtxScalar1(Option<u64>);
#[derive(Debug)]
pub struct CtxScalar2(Option<u64>);
#[derive(Debug)]
pub struct CtxSpan<Q>(Q, Option<u64>);
macro_rules! ctx_scalar {
    ($t:ident, $c:ty, $get:expr) => {
        impl<S: ErrorSpan> DecodeScalar<S> for $t {
            fn type_check(_: &Option<Spanned<TypeName, S>>,
                          _: &mut Context<S>) {}
            fn raw_decode(_: &Spanned<Literal, S>, ctx: &mut Context<S>)
                -> Result<Self, DecodeError<S>>
            {
                Ok($t(ctx.get::<$c>().map($get)))
            }
        }
        impl Dump for $t { fn dump(&self) -> J { self.0.dump() } }
    }
}
#[derive(Debug)]
pub struct CtxScalar4(Option<u64>);
#[derive(Debug)]
pub struct CtxScalar5(Option<u64>);
#[derive(Debug)]
pub struct CtxScalar6(Option<u64>);
#[derive(Debug)]
pub struct CtxScalar7(Option<u64>);
#[derive(Debug)]
pub struct CtxScalar8(Option<u64>);
ctx_scalar!(CtxScalar1, CtxA, |x| x.0);
ctx_scalar!(CtxScalar2, CtxB, |x| x.0);
ctx_scalar!(CtxScalar4, CtxC, |_| 0);
ctx_scalar!(CtxScalar5, CtxD, |x| x.0[0].parse().unwrap());
ctx_scalar!(CtxScalar6, CtxE, |x| x.parse().unwrap());
ctx_scalar!(CtxScalar7, CtxF<u8>, |x| x.0);
ctx_scalar!(CtxScalar8, CtxF<i8>, |x| x.0);
impl<S: ErrorSpan, Q: DecodeSpan<S>> DecodeSpan<S> for CtxSpan<Q> {
    fn decode_span(span: &S, ctx: &mut Context<S>) -> Self {
        CtxSpan(Q::decode_span(span, ctx), ctx.get::<CtxA>().map(|x| x.0))
    }
}
impl<Q: DumpSpan> Dump for CtxSpan<Q> {
    fn dump(&self) -> J {
        J::Array(vec![tag("span"), self.0.ends(), self.1.dump()])
    }
}

// --------------------------------------------------- hand-written decoders
/// Runs a text as a program: reports errors and goes on, or stops with one
fn probe<S: ErrorSpan, T>(prog: &str, at: &Spanned<T, S>,
                          ctx: &mut Context<S>, whole: bool)
    -> Result<(), DecodeError<S>>
{
    fn custom<S: ErrorSpan>(s: &'static str) -> DecodeError<S> {
        DecodeError::Custom(Box::new(Fail(s)))
    }
    for c in prog.chars() {
        match c {
            'c' => ctx.emit_error(custom("probe c")),
            'v' => ctx.emit_error(DecodeError::conversion(at, Fail("probe v"))),
            'u' => ctx.emit_error(DecodeError::unsupported(at, "probe u")),
            'x' => return Err(DecodeError::conversion(at, Fail("probe x"))),
            'y' => return Err(custom("probe y")),
            'h' if whole && ctx.has_errors() =>
                ctx.emit_error(custom("probe h")),
            _ => {}
        }
    }
    Ok(())
}
fn node_text<S: ErrorSpan>(n: &SpannedNode<S>) -> &str {
    match n.arguments.first().map(|a| &*a.literal) {
        Some(Literal::String(s)) => s,
        _ => "",
    }
}

#[derive(Debug)]
pub struct Probe(Option<String>);
impl<S: ErrorSpan> DecodeScalar<S> for Probe {
    fn type_check(t: &Option<Spanned<TypeName, S>>, ctx: &mut Context<S>) {
        if t.as_ref().map_or(false, |t| t.as_str() == "bad") {
            ctx.emit_error(DecodeError::Custom(Box::new(Fail("probe type"))));
        }
    }
    fn raw_decode(l: &Spanned<Literal, S>, ctx: &mut Context<S>)
        -> Result<Self, DecodeError<S>>
    {
        match &**l {
            Literal::String(s) => {
                probe(s, l, ctx, false)?;
                Ok(Probe(Some(s.to_string())))
            }
            _ => Ok(Probe(None)),
        }
    }
}
impl Dump for Probe {
    fn dump(&self) -> J {
        match &self.0 {
            Some(s) => text(s),
            None => J::Array(vec![tag("n")]),
        }
    }
}

#[derive(Debug)]
pub struct ProbeNode(String, String);
impl<S: ErrorSpan> Decode<S> for ProbeNode {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>)
        -> Result<Self, DecodeError<S>>
    {
        probe(node_text(n), &n.node_name, ctx, false)?;
        Ok(ProbeNode(n.node_name.to_string(), node_text(n).to_string()))
    }
}
impl Dump for ProbeNode {
    fn dump(&self) -> J { J::Array(vec![tag("t"), text(&self.0), text(&self.1)]) }
}

/// Takes what is called P...
#[derive(Debug, Default)]
pub struct Part<const P: char>(Vec<String>, Vec<String>);
impl<const P: char> Part<P> {
    fn mine<S: ErrorSpan>(name: &str, ctx: &mut Context<S>) -> bool {
        if name.starts_with('e') {
            ctx.emit_error(DecodeError::Custom(Box::new(Fail("probe e"))));
        }
        name.starts_with(P)
    }
}
impl<S: ErrorSpan, const P: char> traits::DecodePartial<S> for Part<P> {
    fn insert_child(&mut self, n: &SpannedNode<S>, ctx: &mut Context<S>)
        -> Result<bool, DecodeError<S>>
    {
        if !Self::mine(&n.node_name, ctx) { return Ok(false); }
        probe(node_text(n), &n.node_name, ctx, false)?;
        self.1.push(n.node_name.to_string());
        Ok(true)
    }
    fn insert_property(&mut self, name: &Spanned<Box<str>, S>, v: &Value<S>,
                       ctx: &mut Context<S>)
        -> Result<bool, DecodeError<S>>
    {
        if !Self::mine(name, ctx) { return Ok(false); }
        if let Literal::String(s) = &*v.literal {
            probe(s, &v.literal, ctx, false)?;
        }
        self.0.push(name.to_string());
        Ok(true)
    }
}
impl<const P: char> Dump for Part<P> {
    fn dump(&self) -> J { J::Array(vec![tag("t"), self.0.dump(), self.1.dump()]) }
}
pub type PartP = Part<'p'>;
pub type PartQ = Part<'q'>;

#[derive(Debug)]
pub struct ProbeRoot(Vec<String>);
impl<S: ErrorSpan> DecodeChildren<S> for ProbeRoot {
    fn decode_children(ns: &[SpannedNode<S>], ctx: &mut Context<S>)
        -> Result<Self, DecodeError<S>>
    {
        let mut res = Vec::new();
        for n in ns {
            probe(node_text(n), &n.node_name, ctx, true)?;
            res.push(n.node_name.to_string());
        }
        Ok(ProbeRoot(res))
    }
}
impl Dump for ProbeRoot { fn dump(&self) -> J { self.0.dump() } }

// ------------------------------------------------------------ entry points
#[derive(Debug, PartialEq, Clone)]
pub struct Fault {
    /// variant of DecodeError, where it can be seen
    pub kind: Option<&'static str>,
    pub message: String,
    /// byte offsets
    pub labels: Vec<(usize, usize)>,
    pub texts: Vec<String>,
}

pub struct Got {
    pub result: Result<J, Vec<Fault>>,
    /// what is wrong with the source of the report
    pub source: Option<String>,
    /// outcome of decoding the nodes one by one
    pub single: Option<Vec<Result<J, Vec<Fault>>>>,
}

fn fault(d: &dyn Diagnostic) -> Fault {
    let mut labels = Vec::new();
    let mut texts = Vec::new();
    for l in d.labels().into_iter().flatten() {
        labels.push((l.offset(), l.offset() + l.len()));
        texts.push(l.label().unwrap_or("").to_string());
    }
    Fault { kind: None, message: d.to_string(), labels, texts }
}

fn kind<S: ErrorSpan>(e: &DecodeError<S>) -> &'static str {
    match e {
        DecodeError::TypeName {..} => "TypeName",
        DecodeError::ScalarKind {..} => "ScalarKind",
        DecodeError::Missing {..} => "Missing",
        DecodeError::MissingNode {..} => "MissingNode",
        DecodeError::Unexpected {..} => "Unexpected",
        DecodeError::Conversion {..} => "Conversion",
        DecodeError::Unsupported {..} => "Unsupported",
        DecodeError::Custom(_) => "Custom",
        _ => "other",
    }
}

pub type Run = fn(usize, &str, &[(u64, u64)]) -> Got;

/// Types of spans that documents are decoded with
pub trait DocSpan: traits::Span + ErrorSpan {
    fn plain<T: DecodeChildren<Self> + Dump>(text: &str)
        -> Result<T, knuffel::Error>
    {
        knuffel::parse_with_context::<T, Self, _>("test.kdl", text, |_| {})
    }
}
impl DocSpan for Span {
    fn plain<T: DecodeChildren<Self> + Dump>(text: &str)
        -> Result<T, knuffel::Error>
    {
        knuffel::parse::<T>("test.kdl", text)
    }
}
impl DocSpan for LineSpan {}

fn source(e: &dyn Diagnostic, name: &str, text: &str) -> Option<String> {
    let src = match e.source_code() {
        Some(src) => src,
        None => return Some("none".into()),
    };
    if text.is_empty() { return None; }
    match src.read_span(&(0, text.len()).into(), 0, 0) {
        Ok(got) if got.data() != text.as_bytes() =>
            Some(format!("text {:?}", String::from_utf8_lossy(got.data()))),
        Ok(got) if got.name() != Some(name) =>
            Some(format!("name {:?}", got.name())),
        Ok(_) => match src.read_span(&(0, text.len() + 1).into(), 0, 0) {
            Ok(got) if got.data().len() > text.len() =>
                Some("longer than the text".into()),
            _ => None,
        },
        Err(e) => Some(e.to_string()),
    }
}

fn whole<S, T>(text: &str, ops: &[(u64, u64)])
    -> (Result<J, Vec<Fault>>, Option<String>)
    where S: DocSpan, T: DecodeChildren<S> + Dump,
{
    let r = if ops.is_empty() {
        S::plain::<T>(text)
    } else {
        knuffel::parse_with_context::<T, S, _>("test.kdl", text, |ctx| {
            for op in ops {
                match op.0 {
                    1 => ctx.set(CtxA(op.1)),
                    3 => ctx.emit_error(
                        DecodeError::Custom(Box::new(Fail("probe ctx")))),
                    4 => ctx.set(CtxC),
                    5 => ctx.set(CtxD(vec![op.1.to_string()])),
                    6 => ctx.set::<CtxE>(DIGITS[op.1 as usize]),
                    7 => ctx.set(CtxF::<u8>(op.1, Default::default())),
                    8 => ctx.set(CtxF::<i8>(op.1, Default::default())),
                    _ => ctx.set(CtxB(op.1)),
                }
            }
        })
    };
    let src = r.as_ref().err().and_then(|e| source(e, "test.kdl", text));
    (r.map(|v| v.dump()).map_err(|e| {
        e.related().into_iter().flatten().map(fault).collect()
    }), src)
}

pub fn list<S, T>(text: &str, ops: &[(u64, u64)]) -> Got
    where S: DocSpan, T: Decode<S> + Dump,
{
    let (result, source) = whole::<S, Vec<T>>(text, ops);
    let single = if ops.is_empty() {
        let doc = knuffel::parse_ast::<S>("test.kdl", text).unwrap();
        Some(doc.nodes.iter().map(|n: &SpannedNode<S>| {
            knuffel::decode::node::<T, S>(n).map(|v| v.dump())
            .map_err(|es| es.iter().map(|e| Fault {
                kind: Some(kind(e)), ..fault(e)
            }).collect())
        }).collect())
    } else { None };
    Got { result, source, single }
}

pub fn root<S, T>(text: &str, ops: &[(u64, u64)]) -> Got
    where S: DocSpan, T: DecodeChildren<S> + Dump,
{
    let (result, source) = whole::<S, T>(text, ops);
    Got { result, source, single: None }
}
