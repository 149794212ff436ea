//! Other forms of the tree: decoded into the AST types (C22), serialised and
//! read back (C23). Each is compared with the specification's tree.
use std::collections::BTreeMap;
use std::fmt::Debug;

use knuffel::ast::{Document, Literal, Node, SpannedNode, Value as KValue};
use knuffel::decode::Context;
use knuffel::span::{LineSpan, Span};
use knuffel::traits::DecodeSpan;
use serde_json::Value;

use crate::astcmp::{guarded, text, Case, Cmp, Spans};
use crate::pool::Outcome;

/// A span type of the user's, made by a decoder that uses the context
#[derive(Debug, Clone)]
pub struct MySpan { file: u32, end: usize, start: usize }
pub struct FileNo(u32);
impl DecodeSpan<Span> for MySpan {
    fn decode_span(s: &Span, ctx: &mut Context<Span>) -> Self {
        MySpan { file: ctx.get::<FileNo>().map(|x| x.0).unwrap_or(0),
                 start: s.0, end: s.1 }
    }
}
impl Spans for MySpan {
    fn same(&self, case: &Case, s: usize, e: usize) -> bool {
        self.file == 77 && self.start == case.boff[s]
            && self.end == case.boff[e]
    }
}

/// Everything of a node through derived decoders
#[derive(knuffel::Decode, Debug)]
#[knuffel(span_type=Span)]
struct AllValues {
    #[knuffel(node_name)]
    name: String,
    #[knuffel(type_name)]
    typ: Option<String>,
    #[knuffel(arguments)]
    args: Vec<KValue<Span>>,
    #[knuffel(properties)]
    props: BTreeMap<String, KValue<Span>>,
    #[knuffel(children)]
    kids: Vec<AllValues>,
}
#[derive(knuffel::Decode, Debug)]
#[knuffel(span_type=Span)]
struct AllLiterals {
    #[knuffel(node_name)]
    name: String,
    #[knuffel(type_name)]
    typ: Option<String>,
    #[knuffel(arguments)]
    args: Vec<Literal>,
    #[knuffel(properties)]
    props: BTreeMap<String, Literal>,
    #[knuffel(children)]
    kids: Vec<SpannedNode<Span>>,
}

fn cmp<'a>(case: &'a Case, out: &'a mut Outcome, cat: &'static str)
    -> Cmp<'a>
{
    Cmp { case, out, struct_cat: cat, str_cat: cat, num_cat: cat,
          span_cat: cat }
}

fn nodes<S: Spans + Debug>(case: &Case, out: &mut Outcome, cat: &'static str,
                           what: &str,
                           r: Result<Vec<SpannedNode<S>>, String>)
{
    let before = out.findings.len();
    match r {
        Err(e) => out.bad(cat, e),
        Ok(ns) => cmp(case, out, cat).nodes(&ns, &case.nodes),
    }
    for f in &mut out.findings[before..] {
        f.detail = format!("{:?} {}: {}", case.text, what, f.detail);
    }
}

fn heads(case: &Case, out: &mut Outcome, name: &str, typ: &Option<String>,
         nargs: usize, keys: Vec<&String>, m: &Value)
{
    let wt = m[0].as_array().unwrap();
    let wt = if wt.is_empty() { None } else { Some(text(&wt[0])) };
    let mut wk: Vec<String> = m[3].as_array().unwrap().iter()
        .map(|p| text(&p[0])).collect();
    wk.sort();
    if text(&m[1][0]) != name || wt != *typ
        || m[2].as_array().unwrap().len() != nargs
        || !keys.into_iter().eq(wk.iter())
    {
        out.bad("ident", format!("{:?}: derived node {:?} differs", case.text,
                                 name));
    }
}

fn all_values(case: &Case, out: &mut Outcome, ns: &[AllValues], m: &Value) {
    let m = m.as_array().unwrap();
    if ns.len() != m.len() {
        out.bad("ident", format!("{:?}: {} nodes instead of {}", case.text,
                                 ns.len(), m.len()));
        return;
    }
    for (n, m) in ns.iter().zip(m) {
        let before = out.findings.len();
        heads(case, out, &n.name, &n.typ, n.args.len(),
              n.props.keys().collect(), m);
        if out.findings.len() > before { continue; }
        for (a, m) in n.args.iter().zip(m[2].as_array().unwrap()) {
            cmp(case, out, "ident").value(a, m);
        }
        for p in m[3].as_array().unwrap() {
            cmp(case, out, "ident").value(&n.props[&text(&p[0])], &p[2]);
        }
        let none = Value::Array(Vec::new());
        let kids = m[4].as_array().unwrap();
        all_values(case, out, &n.kids, kids.first().unwrap_or(&none));
    }
}

fn all_literals(case: &Case, out: &mut Outcome, ns: &[AllLiterals],
                m: &Value)
{
    let m = m.as_array().unwrap();
    if ns.len() != m.len() {
        out.bad("ident", format!("{:?}: {} nodes instead of {}", case.text,
                                 ns.len(), m.len()));
        return;
    }
    for (n, m) in ns.iter().zip(m) {
        let before = out.findings.len();
        heads(case, out, &n.name, &n.typ, n.args.len(),
              n.props.keys().collect(), m);
        if out.findings.len() > before { continue; }
        for (a, m) in n.args.iter().zip(m[2].as_array().unwrap()) {
            cmp(case, out, "ident").literal(a, &m[1][0], &m[1][1]);
        }
        for p in m[3].as_array().unwrap() {
            cmp(case, out, "ident").literal(&n.props[&text(&p[0])],
                                            &p[2][1][0], &p[2][1][1]);
        }
        let none = Value::Array(Vec::new());
        let kids = m[4].as_array().unwrap();
        cmp(case, out, "ident").nodes(&n.kids,
                                      kids.first().unwrap_or(&none));
    }
}

fn flat<T>(r: Result<Result<T, knuffel::Error>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("fails: {:?}", e)),
        Err(p) => Err(format!("panics: {}", p)),
    }
}

pub fn ident(case: &Case) -> Outcome {
    let mut out = Outcome::default();
    out.sample = Some(format!("{:?} decoded into AST types", case.text));
    let t = &case.text[..];
    if !case.ok { return out; }
    out.counts.push("accepted");
    const C: &str = "ident";
    nodes(case, &mut out, C, "as Vec<SpannedNode<Span>>", flat(guarded(|| {
        knuffel::parse::<Vec<SpannedNode<Span>>>("x.kdl", t)
    })));
    nodes(case, &mut out, C, "line spans as Vec<SpannedNode<Span>>",
          flat(guarded(|| {
        knuffel::parse_with_context::<Vec<SpannedNode<Span>>, LineSpan, _>(
            "x.kdl", t, |_| {})
    })));
    nodes(case, &mut out, C, "as Vec<SpannedNode<LineSpan>>",
          flat(guarded(|| {
        knuffel::parse_with_context::<Vec<SpannedNode<LineSpan>>, LineSpan, _>(
            "x.kdl", t, |_| {})
    })));
    nodes(case, &mut out, C, "as Vec<SpannedNode<MySpan>>",
          flat(guarded(|| {
        knuffel::parse_with_context::<Vec<SpannedNode<MySpan>>, Span, _>(
            "x.kdl", t, |ctx| ctx.set(FileNo(77)))
    })));
    let doc = match flat(guarded(|| knuffel::parse_ast::<Span>("x.kdl", t))) {
        Ok(d) => d,
        Err(e) => { out.bad(C, e); return out; }
    };
    // one by one, with and without a span of the node's own
    nodes(case, &mut out, C, "by decode::node", guarded(|| {
        doc.nodes.iter().map(|n| {
            knuffel::decode::node::<SpannedNode<Span>, Span>(n)
        }).collect::<Result<Vec<_>, _>>()
    }).and_then(|r| r.map_err(|e| format!("{:?}", e))));
    let bare = guarded(|| doc.nodes.iter().map(|n| {
        knuffel::decode::node::<Node<Span>, Span>(n)
    }).collect::<Result<Vec<_>, _>>());
    match bare {
        Ok(Ok(ns)) => {
            for (a, b) in ns.iter().zip(&doc.nodes) {
                // putting the node back into the place of its origin
                let mut n = b.clone();
                *n = a.clone();
                let i = doc.nodes.iter().position(|x| std::ptr::eq(x, b))
                    .unwrap();
                cmp(case, &mut out, C).node(&n, &case.nodes[i]);
            }
        }
        other => out.bad(C, format!("{:?} as Vec<Node<Span>>: {:?}", t,
                                    other.map(|x| x.is_ok()))),
    }
    match flat(guarded(|| knuffel::parse::<Vec<AllValues>>("x.kdl", t))) {
        Ok(v) => all_values(case, &mut out, &v, &case.nodes),
        Err(e) => out.bad(C, format!("{:?} as values: {}", t, e)),
    }
    match flat(guarded(|| knuffel::parse::<Vec<AllLiterals>>("x.kdl", t))) {
        Ok(v) => all_literals(case, &mut out, &v, &case.nodes),
        Err(e) => out.bad(C, format!("{:?} as literals: {}", t, e)),
    }
    out
}

fn round<S>(case: &Case, out: &mut Outcome, what: &str)
    where S: knuffel::traits::Span + Spans + Debug + minicbor::Encode<()>
             + for<'x> minicbor::Decode<'x, ()>,
{
    const C: &str = "cbor";
    let t = &case.text[..];
    let before = out.findings.len();
    let r = guarded(|| {
        let doc = knuffel::parse_ast::<S>("x.kdl", t)
            .map_err(|e| format!("parse: {:?}", e))?;
        let buf = minicbor::to_vec(&doc)
            .map_err(|e| format!("encode: {}", e))?;
        let back: Document<S> = minicbor::decode(&buf)
            .map_err(|e| format!("decode: {}", e))?;
        let again = minicbor::to_vec(&back)
            .map_err(|e| format!("encode again: {}", e))?;
        if again != buf {
            return Err("encodes to other bytes the second time".to_string());
        }
        if format!("{:?}", doc) != format!("{:?}", back) {
            return Err(format!("{:?} instead of {:?}", back, doc));
        }
        for n in &doc.nodes {
            let buf = minicbor::to_vec(n)
                .map_err(|e| format!("encode node: {}", e))?;
            let back: SpannedNode<S> = minicbor::decode(&buf)
                .map_err(|e| format!("decode node: {}", e))?;
            if format!("{:?}", n) != format!("{:?}", back) {
                return Err(format!("node {:?} instead of {:?}", back, n));
            }
        }
        Ok(back)
    }).unwrap_or_else(|p| Err(format!("panics: {}", p)));
    match r {
        Err(e) => out.bad(C, e),
        Ok(doc) => cmp(case, out, C).nodes(&doc.nodes, &case.nodes),
    }
    for f in &mut out.findings[before..] {
        f.detail = format!("{:?} {}: {}", case.text, what, f.detail);
    }
}

pub fn cbor(case: &Case) -> Outcome {
    let mut out = Outcome::default();
    out.sample = Some(format!("{:?} through minicbor", case.text));
    if !case.ok { return out; }
    out.counts.push("accepted");
    round::<Span>(case, &mut out, "with byte spans");
    round::<LineSpan>(case, &mut out, "with line spans");
    out
}
