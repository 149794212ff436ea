//! Decodes the documents that the specification visited into Rust types with
//! derived decoders and compares the outcome with the specification's.
#![allow(dead_code)]
#[path = "../../harness/src/pool.rs"]
mod pool;
mod support;
mod compare;

mod types {
    #![allow(unused_imports)]
    use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList,
        VecDeque};
    use std::path::{Path, PathBuf};
    use std::rc::Rc;
    use std::sync::Arc;
    use knuffel::span::{LineSpan, Span, Spanned};
    use crate::support::*;
    include!(env!("KGEN_TYPES"));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name)
        .map(|i| args[i+1].clone());
    let cats = opt("--cats").unwrap_or_default().split(',')
        .map(|x| x.to_string()).collect();
    pool::run(&opt("--log").unwrap(), cats, compare::check);
}
