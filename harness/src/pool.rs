//! Runs a checker over the lines that TLC prints, on several threads.
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::sync_channel;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Finding {
    pub cat: &'static str,
    pub detail: String,
}

/// Outcome of one replayed case: findings and the counters to bump
#[derive(Default)]
pub struct Outcome {
    pub findings: Vec<Finding>,
    pub counts: Vec<&'static str>,
    pub sample: Option<String>,
}

impl Outcome {
    pub fn bad(&mut self, cat: &'static str, detail: impl Into<String>) {
        self.findings.push(Finding { cat, detail: detail.into() });
    }
}

struct Slot {
    started: Option<Instant>,
    line: String,
}

const THREADS: usize = 6;
const HANG: Duration = Duration::from_secs(20);

pub fn report(f: &Finding, line: &str) {
    let rec = serde_json::json!({
        "cat": f.cat, "detail": f.detail, "case": line,
    });
    println!("MISMATCH {}", rec);
}

pub fn run<F>(log: &str, wanted: Vec<String>, check: F)
    where F: Fn(&str) -> Outcome + Send + Sync + 'static,
{
    std::panic::set_hook(Box::new(|_| {}));
    let check = Arc::new(check);
    let wanted = Arc::new(wanted);
    let (tx, rx) = sync_channel::<Vec<String>>(64);
    let rx = Arc::new(Mutex::new(rx));
    let total = Arc::new(AtomicU64::new(0));
    let shown = Arc::new(AtomicU64::new(0));
    let slots: Arc<Vec<Mutex<Slot>>> = Arc::new((0..THREADS).map(|_| {
        Mutex::new(Slot { started: None, line: String::new() })
    }).collect());
    let tallies = Arc::new(Mutex::new(BTreeMap::<String, u64>::new()));
    let samples = Arc::new(Mutex::new(Vec::<String>::new()));
    let mut handles = Vec::new();
    for t in 0..THREADS {
        let (rx, check, wanted, total, shown, slots, tallies, samples) =
            (rx.clone(), check.clone(), wanted.clone(), total.clone(),
             shown.clone(), slots.clone(), tallies.clone(), samples.clone());
        handles.push(std::thread::Builder::new().stack_size(256 << 20)
            .spawn(move || {
            loop {
                let batch = match rx.lock().unwrap().recv() {
                    Ok(b) => b,
                    Err(_) => break,
                };
                let mut local = BTreeMap::<String, u64>::new();
                for line in batch {
                    {
                        let mut s = slots[t].lock().unwrap();
                        s.started = Some(Instant::now());
                        s.line = line.clone();
                    }
                    let c = check.clone();
                    let l = line.clone();
                    let out = std::panic::catch_unwind(
                        std::panic::AssertUnwindSafe(move || c(&l)));
                    slots[t].lock().unwrap().started = None;
                    let n = total.fetch_add(1, Ordering::SeqCst);
                    let out = out.unwrap_or_else(|e| {
                        let msg = e.downcast_ref::<String>().cloned()
                            .or_else(|| e.downcast_ref::<&str>()
                                     .map(|x| x.to_string()))
                            .unwrap_or_default();
                        let mut o = Outcome::default();
                        o.bad("harness", format!("panic: {}", msg));
                        o
                    });
                    for c in &out.counts {
                        *local.entry(c.to_string()).or_default() += 1;
                    }
                    for f in &out.findings {
                        *local.entry(format!("bad.{}", f.cat))
                            .or_default() += 1;
                        if wanted.iter().any(|w| w == f.cat)
                            || f.cat == "harness" {
                            *local.entry("violations".into()).or_default() += 1;
                            if shown.fetch_add(1, Ordering::SeqCst) < 40 {
                                report(f, &line);
                            }
                        }
                    }
                    if let Some(s) = out.sample {
                        // a deterministic-enough spread of samples
                        if n.is_power_of_two() {
                            let mut all = samples.lock().unwrap();
                            if all.len() < 12 { all.push(s); }
                        }
                    }
                }
                let mut t = tallies.lock().unwrap();
                for (k, v) in local { *t.entry(k).or_default() += v; }
            }
        }).unwrap());
    }
    {
        let slots = slots.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in slots.iter() {
                let s = s.lock().unwrap();
                if s.started.map(|x| x.elapsed() > HANG).unwrap_or(false) {
                    report(&Finding {
                        cat: "hang",
                        detail: format!("no answer within {:?}", HANG),
                    }, &s.line);
                    println!("SUMMARY {{\"hang\":1,\"violations\":1}}");
                    std::process::exit(1);
                }
            }
        });
    }
    let mut logf = std::io::BufWriter::new(
        std::fs::File::create(log).expect("log file"));
    let stdin = std::io::stdin();
    let mut batch = Vec::new();
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        if line.starts_with("\"[") {
            batch.push(line[1..line.len()-1].to_string());
            if batch.len() >= 64 {
                tx.send(std::mem::take(&mut batch)).unwrap();
            }
        } else {
            let _ = writeln!(logf, "{}", line);
        }
    }
    tx.send(batch).unwrap();
    drop(tx);
    let _ = logf.flush();
    for h in handles { h.join().unwrap(); }
    let t = tallies.lock().unwrap();
    let mut obj = serde_json::Map::new();
    for (k, v) in t.iter() { obj.insert(k.clone(), (*v).into()); }
    obj.insert("cases".into(), total.load(Ordering::SeqCst).into());
    obj.insert("samples".into(), samples.lock().unwrap().clone().into());
    println!("SUMMARY {}", serde_json::Value::Object(obj));
}
