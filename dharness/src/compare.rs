//! Comparison of the implementation's outcome with the specification's:
//! [case, context, text, accepted, value, errors]
use std::panic::{catch_unwind, AssertUnwindSafe};
use crate::pool::Outcome;
use crate::support::{Fault, J};
use crate::types;

/// Byte offsets of the characters, and where the specification puts them
struct Offsets<'a>(Vec<usize>, Option<&'a J>);
impl<'a> Offsets<'a> {
    fn new(text: &str, lines: Option<&'a J>) -> Offsets<'a> {
        let mut v: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
        v.push(text.len());
        Offsets(v, lines)
    }
    fn at(&self, j: &J) -> usize { self.0[j.as_u64().unwrap() as usize] }
    /// ["at", start, end] or ["at", start, end, line, column, line, column]
    fn span(&self, a: &J, b: &J, got: &J) -> bool {
        let g = match got.as_array() { Some(g) => g, None => return false };
        if g.len() < 3 || J::from(self.at(a)) != g[1]
            || J::from(self.at(b)) != g[2] { return false; }
        if g.len() == 3 { return true; }
        match self.1 {
            Some(lines) => [(a, 3), (b, 5)].iter().all(|(i, k)| {
                let p = &lines[i.as_u64().unwrap() as usize];
                p[0] == g[*k] && p[1] == g[*k + 1]
            }),
            None => true,
        }
    }
}

fn string(j: &J) -> String {
    match j {
        J::String(s) => s.clone(),
        J::Array(a) => a.iter().map(|c| {
            char::from_u32(c.as_u64().unwrap() as u32).unwrap()
        }).collect(),
        _ => panic!("no text: {}", j),
    }
}

fn tag(j: &J) -> &str { j[0].as_str().unwrap_or("") }

/// Does the dumped value equal the specification's?
fn same(spec: &J, got: &J, off: &Offsets) -> bool {
    let (s, g) = match (spec.as_array(), got.as_array()) {
        (Some(s), Some(g)) => (s, g),
        _ => return spec == got,
    };
    if s.is_empty() || !s[0].is_string() {
        return s.len() == g.len()
            && s.iter().zip(g).all(|(a, b)| same(a, b, off));
    }
    match tag(spec) {
        "f" => {
            let text = string(&s[1]);
            match tag(got) {
                "f64" => text.parse::<f64>().unwrap().to_bits()
                    == g[1].as_u64().unwrap(),
                "f32" => text.parse::<f32>().unwrap().to_bits() as u64
                    == g[1].as_u64().unwrap(),
                _ => false,
            }
        }
        "y" => {
            if tag(got) == "l" {
                let bytes: Vec<J> = g[1..].iter().map(|x| {
                    let ds = x[2].as_array().unwrap();
                    J::from(ds.iter().fold(0, |a, d| {
                        a * 10 + d.as_u64().unwrap()
                    }))
                }).collect();
                s[1] == J::Array(bytes)
            } else {
                spec == got
            }
        }
        "m" => {
            if tag(got) != "l" || s.len() != g.len() { return false; }
            let mut left: Vec<&J> = g[1..].iter().collect();
            for pair in &s[1..] {
                match left.iter().position(|x| same(pair, x, off)) {
                    Some(i) => { left.remove(i); }
                    None => return false,
                }
            }
            true
        }
        "sp" | "span" => {
            s.len() == g.len() + 1 && s[0] == g[0]
                && off.span(&s[1], &s[2], &g[1])
                && s[3..].iter().zip(&g[2..]).all(|(a, b)| same(a, b, off))
        }
        // an integer that fits no type is not looked at any further
        "i" if tag(got) == "huge" => {
            let digits: String = s[2].as_array().unwrap().iter()
                .map(|d| d.to_string()).collect();
            match digits.parse::<u128>() {
                Ok(x) if s[1] == J::from(1) => x > 1 << 63,
                Ok(x) => x > u64::MAX as u128,
                Err(_) => true,
            }
        }
        "s" => s[0] == g[0] && string(&s[1]) == string(&g[1]),
        _ => s.len() == g.len() && s[0] == g[0]
            && s[1..].iter().zip(&g[1..]).all(|(a, b)| same(a, b, off)),
    }
}

/// The kind of an error told by the way it is reported
fn looks_like(f: &Fault) -> &'static str {
    if f.labels.is_empty() {
        return if f.message.starts_with("probe ") { "Custom" }
            else { "MissingNode" };
    }
    let t = &f.texts[0][..];
    match t {
        "node starts here" => "Missing",
        "invalid value" => "Conversion",
        "unsupported value" => "Unsupported",
        "unexpected type name" => if f.message.contains("found") {
            "TypeName"
        } else { "Unexpected" },
        _ if f.message.starts_with("expected ")
            && f.message.contains("scalar") => "ScalarKind",
        _ if t.starts_with("unexpected ") => "Unexpected",
        _ => "other",
    }
}

fn fault_ok(spec: &J, got: &Fault, off: &Offsets) -> Result<(), String> {
    let want = spec[0].as_str().unwrap();
    let kind = got.kind.unwrap_or_else(|| looks_like(got));
    if want != kind {
        return Err(format!("{} instead of {}: {}", kind, want, got.message));
    }
    let allowed: Vec<(usize, usize)> = spec[1].as_array().unwrap().iter()
        .map(|x| (off.at(&x[0]), off.at(&x[1]))).collect();
    if allowed.is_empty() != got.labels.is_empty()
        || got.labels.len() > 1
        || !got.labels.iter().all(|l| allowed.contains(l)) {
        return Err(format!("labels {:?} instead of one of {:?}: {}",
                           got.labels, allowed, got.message));
    }
    let mut hay = got.message.clone();
    for t in &got.texts { hay.push('\n'); hay.push_str(t); }
    for w in spec[2].as_array().unwrap() {
        let w = string(w);
        if w.chars().all(|c| c.is_ascii() && !c.is_ascii_control()
                         && c != '"' && c != '\\' && c != '\'')
            && !hay.contains(&w) {
            return Err(format!("message does not mention {:?}: {}", w,
                               got.message));
        }
    }
    Ok(())
}

fn faults(spec: &[J], got: &[Fault], off: &Offsets) -> Result<(), String> {
    for (i, g) in got.iter().enumerate() {
        match spec.get(i) {
            Some(s) => fault_ok(s, g, off)?,
            None => return Err(format!("one error too many: {}", g.message)),
        }
    }
    if spec.len() > got.len() {
        return Err(format!("error not reported: {}", spec[got.len()]));
    }
    Ok(())
}

pub fn check(line: &str) -> Outcome {
    let mut out = Outcome::default();
    let case: J = serde_json::from_str(&line.replace("\\\"", "\""))
        .expect("case");
    let id = case[0].as_u64().unwrap() as usize;
    let ops: Vec<(u64, u64)> = case[1].as_array().unwrap().iter()
        .map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap())).collect();
    let text = string(&case[2]);
    let accepted = case[3] == J::from(1);
    let errs = case[5].as_array().unwrap();
    let off = Offsets::new(&text, case.get(6));
    out.sample = Some(format!("case {} ctx {:?} {:?} -> {}", id, ops, text,
        if accepted { "accepted".into() }
        else { format!("{} error(s)", errs.len()) }));
    out.counts.push(if accepted { "accepted" } else { "rejected" });
    for (variant, run) in types::RUNS {
        let how = match *variant {
            "by" => "",
            "ln" => " (line spans)",
            _ => " (line spans into byte spans)",
        };
        one(&mut out, *run, how, id, &ops, &text, accepted, &case[4], errs,
            &off);
    }
    out
}

fn one(out: &mut Outcome, run: crate::support::Run, how: &str, id: usize,
       ops: &[(u64, u64)], text: &str, accepted: bool, value: &J, errs: &[J],
       off: &Offsets)
{
    let got = match catch_unwind(AssertUnwindSafe(|| {
        run(id, text, ops)
    })) {
        Ok(got) => got,
        Err(e) => {
            let msg = e.downcast_ref::<String>().cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            out.bad("panic", format!("case {}: {:?}{} panics: {}", id, text, how,
                                     msg));
            return;
        }
    };
    match &got.result {
        Ok(v) => {
            if !accepted {
                out.bad("accept", format!(
                    "case {}: {:?}{} accepted as {}, should be an error: {}",
                    id, text, how, v, J::Array(errs.to_vec())));
            } else if !same(value, v, off) {
                out.bad("value", format!(
                    "case {}: {:?}{} gives {} instead of {}", id, text, how, v,
                    value));
            }
        }
        Err(es) => {
            if accepted {
                out.bad("accept", format!(
                    "case {}: {:?}{} fails with {:?} instead of giving {}",
                    id, text, how, es.iter().map(|e| &e.message)
                        .collect::<Vec<_>>(), value));
            } else {
                out.counts.push("errors_compared");
                if let Some(e) = &got.source {
                    out.bad("errsrc", format!(
                        "case {}: {:?}{}: source of the report: {}", id, text,
                        how, e));
                }
                if es.is_empty() {
                    out.bad("errors", format!(
                        "case {}: {:?}{} fails without any error", id, text, how));
                }
                if es.len() != errs.len() {
                    out.bad("errcount", format!(
                        "case {}: {:?}{} gives {} errors instead of {}: {:?}",
                        id, text, how, es.len(), errs.len(), es));
                }
                if let Err(e) = faults(errs, es, off) {
                    out.bad("errors", format!("case {}: {:?}{}: {}", id, text, how,
                                              e));
                }
            }
        }
    }
    if let Some(single) = got.single {
        let bad = single.iter().any(|r| r.is_err());
        if bad == accepted {
            out.bad("single", format!(
                "case {}: {:?}{}: nodes decoded one by one {}", id, text, how,
                if bad { "fail" } else { "are accepted" }));
        } else if accepted {
            let all = J::Array(std::iter::once(J::from("l"))
                .chain(single.into_iter().map(|r| r.unwrap())).collect());
            if !same(value, &all, off) {
                out.bad("single", format!(
                    "case {}: {:?}{}: nodes decoded one by one give {} instead \
                     of {}", id, text, how, all, value));
            }
        } else {
            let all: Vec<Fault> = single.into_iter()
                .filter_map(|r| r.err()).flatten().collect();
            if let Err(e) = faults(errs, &all, off) {
                out.bad("errors", format!(
                    "case {}: {:?}{}: decoded one by one: {}", id, text, how, e));
            }
        }
    }
}
