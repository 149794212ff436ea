//! Documents far longer than the ones the specification reads: texts one
//! after another, each of which has to be read as it is read alone.
use std::sync::Mutex;

use knuffel::span::{LineSpan, Span};

use crate::astcmp::{guarded, parse, Case, Cmp, Spans};
use crate::pool::Outcome;

/// More than what two bytes can count
const LONG: usize = 70_000;

#[derive(Default)]
struct Joined {
    text: String,
    line: usize,
    parts: Vec<Case>,
}

impl Joined {
    /// A document that starts with many lines or with many columns
    fn new(kind: usize) -> Joined {
        let mut j = Joined::default();
        match kind % 4 {
            0 => {}
            1 => {
                j.text.extend(std::iter::repeat('\n').take(LONG));
                j.line = LONG;
            }
            2 => j.text = format!("/*{}*/", "x".repeat(LONG)),
            _ => j.text = "/*é*/\n".repeat(1000),
        }
        if kind % 4 == 3 { j.line = 1000; }
        j
    }
    fn column(&self) -> usize {
        self.text.len() - self.text.rfind('\n').map_or(0, |x| x + 1)
    }
    fn push(&mut self, mut case: Case) {
        let (base, line, column) = (self.text.len(), self.line, self.column());
        for b in &mut case.boff { *b += base; }
        for (l, c) in &mut case.lc {
            if *l == 0 { *c += column; }
            *l += line;
        }
        self.line = match case.lc.last() { Some(x) => x.0, None => 0 };
        self.text.push_str(&case.text);
        self.parts.push(case);
    }
    fn compare<S>(&self, cat: Option<&'static str>, out: &mut Outcome)
        where S: knuffel::traits::Span + Spans + std::fmt::Debug,
    {
        let what = format!("document of {} bytes, {} lines, {} parts from {:?}",
                           self.text.len(), self.line, self.parts.len(),
                           self.parts.get(0).map(|p| &p.text));
        let doc = match parse::<S>(&self.text) {
            Err(p) => {
                return out.bad("panic", format!("{}: panic {}", what, p));
            }
            Ok(Err(_)) => {
                return out.bad(cat.unwrap_or("accept"), format!(
                    "{} rejected, each part is well formed", what));
            }
            Ok(Ok(doc)) => doc,
        };
        let mut rest = &doc.nodes[..];
        for p in &self.parts {
            let n = p.nodes.as_array().unwrap().len();
            if rest.len() < n {
                return out.bad(cat.unwrap_or("struct"),
                               format!("{}: nodes missing", what));
            }
            let (now, later) = rest.split_at(n);
            rest = later;
            let mut here = Outcome::default();
            Cmp {
                case: p, out: &mut here,
                struct_cat: cat.unwrap_or("struct"),
                str_cat: cat.unwrap_or("str"), num_cat: cat.unwrap_or("num"),
                span_cat: cat.unwrap_or("span"),
            }.nodes(now, &p.nodes);
            for f in here.findings {
                out.bad(f.cat, format!("{}: part {:?} at {}: {}", what,
                                       p.text, p.boff[0], f.detail));
            }
            if !out.findings.is_empty() { return; }
        }
        if !rest.is_empty() {
            out.bad(cat.unwrap_or("struct"), format!("{}: {} more nodes", what,
                                                     rest.len()));
        }
    }
}

pub struct Joiner {
    now: Mutex<(usize, Vec<Joined>)>,
    line: bool,
    size: usize,
}

impl Joiner {
    pub fn new(line: bool, size: usize) -> Joiner {
        Joiner {
            now: Mutex::new((0, (0..4).map(Joined::new).collect())),
            line, size,
        }
    }
    pub fn add(&self, case: Case) -> Outcome {
        let mut out = Outcome::default();
        if !case.ok {
            out.counts.push("ill formed");
            return out;
        }
        let full = {
            let mut now = self.now.lock().unwrap();
            now.0 += 1;
            let kind = now.0 % 4;
            let j = &mut now.1[kind];
            j.push(case);
            // only what stands on the first line is many columns away
            let enough = if kind == 2 { j.parts.len() >= 20 }
                         else { j.text.len() > self.size };
            if !enough { return out; }
            std::mem::replace(j, Joined::new(kind))
        };
        self.check(full, &mut out);
        out
    }
    fn check(&self, full: Joined, out: &mut Outcome) {
        out.counts.push("documents");
        let r = guarded(|| {
            full.compare::<Span>(None, out);
            if self.line { full.compare::<LineSpan>(Some("line"), out); }
        });
        if let Err(p) = r { out.bad("panic", p); }
    }
}
