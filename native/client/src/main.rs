//! native-client PROP TIER SEED: runs the real progenitor-client on many inputs against independent expectations.
//! Prints `CASES n`, and one `FAIL key<TAB>message` line per distinct failing input.
mod query;
mod rec;
mod resp;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = util::Ctx {
        rng: util::Rng(a[3].parse::<u64>().unwrap_or(1)),
        cases: 0,
        distinct: Default::default(),
        samples: vec![],
        fails: vec![],
        thorough: a[2] == "thorough",
        rt: tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(),
    };
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        p @ ("C02" | "C03" | "C04") => query::run(&mut c, p),
        p => resp::run(&mut c, p),
    }
    println!("CASES {}", c.cases);
    println!("DISTINCT {}", c.distinct.len());
    for s in &c.samples {
        println!("SAMPLE {}", s.replace(['\n', '\t'], " "));
    }
    for (k, m) in &c.fails {
        println!("FAIL {}\t{}", k.replace(['\n', '\t'], " "), m.replace(['\n', '\t'], " "));
    }
}
