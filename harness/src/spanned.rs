//! Replays behaviours of module Spanned: [initial values, operations,
//! final slots, final map, order of the slots]
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use knuffel::span::{LinePos, LineSpan, Span, Spanned};
use serde_json::Value;

use crate::astcmp::{guarded, uint};
use crate::pool::Outcome;

/// Spans that can be made up
trait Made: knuffel::traits::Span + PartialEq + Debug + Clone + Sized {
    fn made(n: usize) -> Self;
}
impl Made for Span {
    fn made(n: usize) -> Span { Span(n * 100, n * 100 + n) }
}
impl Made for LineSpan {
    fn made(n: usize) -> LineSpan {
        LineSpan(LinePos { offset: n * 100, line: n, column: 9 - n },
                 LinePos { offset: n * 100 + n, line: n + 1, column: 3 })
    }
}

struct Case {
    init: Vec<usize>,
    ops: Vec<(String, usize, Value)>,
    slot: Vec<(usize, usize)>,
    map: Vec<(usize, usize, u64)>,
    cmp: i64,
}

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn order(c: i64) -> Option<Ordering> {
    match c {
        -1 => Some(Ordering::Less),
        0 => Some(Ordering::Equal),
        1 => Some(Ordering::Greater),
        _ => None,
    }
}

type Sp<T, S> = Spanned<T, S>;

/// The two values as they come out of the parser, at different places
fn written<S: Made>(pad: usize) -> Result<(Sp<Box<str>, S>, Sp<Box<str>, S>),
                                          String>
{
    let text = format!("{}ab\n\n{} ab", " ".repeat(pad), "\t".repeat(pad));
    let doc = knuffel::parse_ast::<S>("x.kdl", &text)
        .map_err(|e| format!("{:?}", e))?;
    Ok((doc.nodes[0].node_name.clone(), doc.nodes[1].node_name.clone()))
}

fn slots<T, S>(case: &Case, at: &dyn Fn(usize) -> T)
    -> Result<(Vec<Sp<T, S>>, Vec<S>), String>
    where S: Made, T: Clone + PartialOrd + Debug
{
    let (a, b) = written::<S>(case.init[0] + 2 * case.init[1])?;
    let spans = vec![a.span().clone(), b.span().clone()];
    let v = vec![a.map(|_| at(case.init[0])), b.map(|_| at(case.init[1]))];
    Ok((v, spans))
}

fn ok(b: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if b { Ok(()) } else { Err(what()) }
}

fn partial<T, S>(case: &Case, top: usize, low: usize,
                 at: &dyn Fn(usize) -> T, rank: &dyn Fn(&T) -> usize)
    -> Result<(), String>
    where S: Made, T: Clone + PartialOrd + Debug
{
    let (mut v, spans) = slots::<T, S>(case, at)?;
    for (op, i, x) in &case.ops {
        match &op[..] {
            "map" => {
                let s = v[*i - 1].clone();
                let f = |val: T| match x.as_str() {
                    Some("rot") => at(if rank(&val) == top { low }
                                      else { rank(&val) + 1 }),
                    _ => at(1),
                };
                v[*i - 1] = s.map(f);
            }
            "span" => {
                let s = v[*i - 1].clone();
                v[*i - 1] = s.map_span(|_| S::made(uint(x)));
            }
            _ => {}
        }
    }
    for i in 0..2 {
        let want = if case.slot[i].1 == 0 { spans[i].clone() }
                   else { S::made(case.slot[i].1) };
        ok(rank(&v[i]) == case.slot[i].0, || format!(
            "slot {} holds {:?}, expected value {:?}", i, v[i],
            at(case.slot[i].0)))?;
        ok(*v[i].span() == want, || format!(
            "slot {} has span {:?}, expected {:?}", i, v[i].span(), want))?;
        let c = v[i].clone();
        ok(rank(&c) == case.slot[i].0 && *c.span() == want, || format!(
            "clone {:?} of {:?}", c, v[i]))?;
        let mut m = v[i].clone();
        *m = at(1);
        ok(rank(&m) == 1 && *m.span() == want, || format!(
            "assignment through DerefMut: {:?}", m))?;
        ok(rank(Borrow::<T>::borrow(&v[i])) == case.slot[i].0,
           || format!("borrow of {:?}", v[i]))?;
    }
    for (a, b, c) in [(0, 1, case.cmp),
                      (1, 0, if case.cmp == 2 { 2 } else { -case.cmp })] {
        let o = order(c);
        ok(v[a].partial_cmp(&v[b]) == o, || format!(
            "partial_cmp of {:?} and {:?}, expected {:?}", v[a], v[b], o))?;
        ok((v[a] == v[b]) == (o == Some(Ordering::Equal))
           && (v[a] != v[b]) != (o == Some(Ordering::Equal)), || format!(
            "equality of {:?} and {:?}, expected {:?}", v[a], v[b], o))?;
        ok((v[a] < v[b]) == (o == Some(Ordering::Less))
           && (v[a] > v[b]) == (o == Some(Ordering::Greater))
           && (v[a] <= v[b]) == matches!(o, Some(Ordering::Less
                                                 | Ordering::Equal))
           && (v[a] >= v[b]) == matches!(o, Some(Ordering::Greater
                                                 | Ordering::Equal)),
           || format!("comparison of {:?} and {:?}", v[a], v[b]))?;
    }
    Ok(())
}

fn total<T, S>(case: &Case, top: usize, at: &dyn Fn(usize) -> T,
               rank: &dyn Fn(&T) -> usize,
               find: &dyn Fn(&BTreeMap<Sp<T, S>, u64>,
                             &HashMap<Sp<T, S>, u64>,
                             &BTreeSet<Sp<T, S>>, &HashSet<Sp<T, S>>, usize)
                   -> Vec<Option<u64>>)
    -> Result<(), String>
    where S: Made, T: Clone + Ord + Hash + Debug
{
    partial::<T, S>(case, top, 1, at, rank)?;
    let (mut v, spans) = slots::<T, S>(case, at)?;
    let mut bm: BTreeMap<Sp<T, S>, u64> = BTreeMap::new();
    let mut hm: HashMap<Sp<T, S>, u64> = HashMap::new();
    let mut bs: BTreeSet<Sp<T, S>> = BTreeSet::new();
    let mut hs: HashSet<Sp<T, S>> = HashSet::new();
    for (n, (op, i, x)) in case.ops.iter().enumerate() {
        match &op[..] {
            "map" => {
                let s = v[*i - 1].clone();
                v[*i - 1] = s.map(|val: T| match x.as_str() {
                    Some("rot") => at(if rank(&val) == top { 1 }
                                      else { rank(&val) + 1 }),
                    _ => at(1),
                });
            }
            "span" => {
                let s = v[*i - 1].clone();
                v[*i - 1] = s.map_span(|_| S::made(uint(x)));
            }
            "ins" => {
                let a = bm.insert(v[*i - 1].clone(), n as u64);
                let b = hm.insert(v[*i - 1].clone(), n as u64);
                let c = bs.insert(v[*i - 1].clone());
                let d = hs.insert(v[*i - 1].clone());
                ok(a == b && c == d && a.is_none() == c, || format!(
                    "insertion of {:?}: {:?} {:?} {} {}", v[*i - 1], a, b, c,
                    d))?;
            }
            _ => {
                let k = at(*i);
                let a = bm.remove(&k);
                let b = hm.remove(&k);
                ok(a.is_some() && a == b, || format!(
                    "removal of {:?}: {:?} {:?}", k, a, b))?;
                ok(bs.remove(&k) && hs.remove(&k), || format!(
                    "removal of {:?} from the sets", k))?;
            }
        }
    }
    let key = |w: &(usize, usize, u64), got: &Sp<T, S>| {
        // spans of keys: one of the two places, or a made one
        rank(got) == w.0 && if w.1 == 0 { spans.contains(got.span()) }
                            else { *got.span() == S::made(w.1) }
    };
    ok(bm.len() == case.map.len() && hm.len() == bm.len()
       && bs.len() == bm.len() && hs.len() == bm.len(), || format!(
        "{:?} {:?} {:?} {:?}", bm, hm, bs, hs))?;
    for ((w, (k, p)), s) in case.map.iter().zip(&bm).zip(&bs) {
        ok(key(w, k) && *p == w.2 && rank(s) == w.0, || format!(
            "entry {:?} {} instead of {:?}", k, p, w))?;
        ok(hm.iter().any(|(k, p)| key(w, k) && *p == w.2), || format!(
            "entry {:?} not in {:?}", w, hm))?;
    }
    for r in 1..=top {
        let want = case.map.iter().find(|w| w.0 == r).map(|w| w.2);
        let got = find(&bm, &hm, &bs, &hs, r);
        ok(got[0] == want && got[1] == want
           && got[2..].iter().all(|g| g.is_some() == want.is_some()),
           || format!("lookups of {:?} give {:?}, expected {:?}", at(r), got,
                      want))?;
    }
    for i in 0..2 {
        ok(hash(&v[i]) == hash(&*v[i]), || format!(
            "hash of {:?} is not that of the value", v[i]))?;
        ok(v[i].cmp(&v[1 - i])
           == order(if i == 0 { case.cmp } else { -case.cmp }).unwrap(),
           || format!("cmp of {:?} and {:?}", v[i], v[1 - i]))?;
        ok(v[i].clone().max(v[1 - i].clone()) >= v[i], || format!(
            "max of {:?}", v))?;
    }
    Ok(())
}

fn lookups<T, S>(at: &dyn Fn(usize) -> T, bm: &BTreeMap<Sp<T, S>, u64>,
                 hm: &HashMap<Sp<T, S>, u64>, bs: &BTreeSet<Sp<T, S>>,
                 hs: &HashSet<Sp<T, S>>, r: usize) -> Vec<Option<u64>>
    where S: Made, T: Ord + Hash
{
    let k = at(r);
    vec![bm.get(&k).copied(), hm.get(&k).copied(),
         bs.get(&k).map(|_| 0), hs.get(&k).map(|_| 0)]
}

const WORDS: [&str; 5] = ["", "", "a", "ab", "\u{e9}"];

pub fn check(line: &str, nan: bool) -> Outcome {
    let mut out = Outcome::default();
    let j: Value = serde_json::from_str(&line.replace("\\\"", "\""))
        .expect("case");
    let case = Case {
        init: vec![uint(&j[0][0]), uint(&j[0][1])],
        ops: j[1].as_array().unwrap().iter().map(|o| {
            (o[0].as_str().unwrap().to_string(), uint(&o[1]), o[2].clone())
        }).collect(),
        slot: j[2].as_array().unwrap().iter()
            .map(|s| (uint(&s[0]), uint(&s[1]))).collect(),
        map: j[3].as_array().unwrap().iter()
            .map(|s| (uint(&s[0]), uint(&s[1]), uint(&s[2]) as u64))
            .collect(),
        cmp: j[4].as_i64().unwrap(),
    };
    out.sample = Some(format!("{}", j));
    const TOP: usize = 4;
    if !nan { out.counts.push("total"); }
    let mut run = |name: &str, f: &dyn Fn() -> Result<(), String>| {
        match guarded(f) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => out.bad("spanned", format!("{}: {}: {}", name, j,
                                                     e)),
            Err(p) => out.bad("spanned", format!("{}: {}: panics: {}", name,
                                                 j, p)),
        }
    };
    let fl = |r: usize| match r {
        0 => f64::NAN, 1 => f64::NEG_INFINITY, 2 => -0.0, 3 => 1e-9, _ => 7.0
    };
    let frank = |x: &f64| (0..=TOP).find(|&r| {
        fl(r).to_bits() == x.to_bits()
    }).unwrap();
    // with NaN there are no maps and no other types
    let low = if nan { 0 } else { 1 };
    run("f64", &|| partial::<f64, Span>(&case, TOP, low, &fl, &frank));
    run("f64, line spans", &|| partial::<f64, LineSpan>(&case, TOP, low, &fl,
                                                        &frank));
    if nan { return out; }
    let bx = |r: usize| Box::<str>::from(WORDS[r]);
    let brank = |x: &Box<str>| WORDS[1..].iter().position(|w| *w == &**x)
        .unwrap() + 1;
    run("Box<str>", &|| total::<Box<str>, Span>(&case, TOP, &bx, &brank,
        &|bm, hm, bs, hs, r| {
            let w = WORDS[r];
            let mut v = lookups(&bx, bm, hm, bs, hs, r);
            v.push(bs.contains(w).then_some(0));
            v.push(hs.contains(w).then_some(0));
            v.push(bm.contains_key(w).then_some(0));
            v.push(hm.contains_key(w).then_some(0));
            v.push(bm.get_key_value(w).map(|_| 0));
            v
        }));
    run("Box<str>, line spans", &|| total::<Box<str>, LineSpan>(
        &case, TOP, &bx, &brank, &|bm, hm, bs, hs, r| {
            let mut v = lookups(&bx, bm, hm, bs, hs, r);
            v.push(bm.get(WORDS[r]).copied());
            v.push(hm.get(WORDS[r]).copied());
            v
        }));
    let st = |r: usize| WORDS[r].to_string();
    run("String", &|| total::<String, Span>(&case, TOP, &st,
        &|x| brank(&x[..].into()), &|bm, hm, bs, hs, r| {
            lookups(&st, bm, hm, bs, hs, r)
        }));
    let int = |r: usize| [0i64, -7, 0, 1, i64::MAX][r];
    run("i64", &|| total::<i64, Span>(&case, TOP, &int,
        &|x| (1..=TOP).find(|&r| int(r) == *x).unwrap(),
        &|bm, hm, bs, hs, r| lookups(&int, bm, hm, bs, hs, r)));
    let op = |r: usize| match r { 1 => None, 2 => Some((0u8, 'a')),
        3 => Some((0, 'b')), _ => Some((1, 'a')) };
    run("Option<(u8, char)>", &|| total::<Option<(u8, char)>, LineSpan>(
        &case, TOP, &op, &|x| (1..=TOP).find(|&r| op(r) == *x).unwrap(),
        &|bm, hm, bs, hs, r| lookups(&op, bm, hm, bs, hs, r)));
    out
}
