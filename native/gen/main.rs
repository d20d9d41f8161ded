//! native-gen PROP TIER SEED: runs the sources of progenitor-impl, with stand-ins for openapiv3, schemars and
//! typify, on many inputs against independent expectations.
#[allow(unreachable_code)]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(feature = "emit")]
    {
        std::panic::set_hook(Box::new(|_| {}));
        return progenitor_impl::vp_emit::run(&a[1], &a[2]);
    }
    let mut c = progenitor_impl::vp_util::Ctx::new(a[3].parse::<u64>().unwrap_or(1), a[2] == "thorough");
    std::panic::set_hook(Box::new(|_| {}));
    progenitor_impl::vp_dispatch::run(&mut c, &a[1]);
    println!("CASES {}", c.cases);
    println!("DISTINCT {}", c.distinct.len());
    for s in &c.samples {
        println!("SAMPLE {}", s.replace(['\n', '\t'], " "));
    }
    for (k, m) in &c.fails {
        println!("FAIL {}\t{}", k.replace(['\n', '\t'], " "), m.replace(['\n', '\t'], " "));
    }
}
