mod astcmp;
mod forms;
mod join;
mod pool;
mod spanned;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name)
        .map(|i| args[i+1].clone());
    let flag = |name: &str| args.iter().any(|a| a == name);
    match args.get(1).map(|x| &x[..]) {
        Some("replay") => {
            let cats = opt("--cats").unwrap_or_default().split(',')
                .map(|x| x.to_string()).collect();
            let line = flag("--line");
            let deep = flag("--deep");
            let scalar = flag("--scalar");
            pool::run(&opt("--log").unwrap(), cats, move |l| {
                astcmp::check(&astcmp::Case::from_line(l), line, deep,
                              scalar)
            });
        }
        Some(what @ ("ident" | "cbor")) => {
            let cats = opt("--cats").unwrap_or_default().split(',')
                .map(|x| x.to_string()).collect();
            let f = if what == "ident" { forms::ident } else { forms::cbor };
            pool::run(&opt("--log").unwrap(), cats, move |l| {
                f(&astcmp::Case::from_line(l))
            });
        }
        Some("join") => {
            let cats = opt("--cats").unwrap_or_default().split(',')
                .map(|x| x.to_string()).collect();
            let size = opt("--size").map_or(80_000, |x| x.parse().unwrap());
            let j = join::Joiner::new(flag("--line"), size);
            pool::run(&opt("--log").unwrap(), cats, move |l| {
                j.add(astcmp::Case::from_line(l))
            });
        }
        Some("spanned") => {
            let cats = opt("--cats").unwrap_or_default().split(',')
                .map(|x| x.to_string()).collect();
            let nan = flag("--nan");
            pool::run(&opt("--log").unwrap(), cats, move |l| {
                spanned::check(l, nan)
            });
        }
        _ => {
            eprintln!("usage: kharness replay ...");
            std::process::exit(2);
        }
    }
}
