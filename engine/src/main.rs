//! lofsym: symbolic execution of the LLVM IR rustc emits for the library under test, decided by Z3.
mod exec; mod expr; mod ir; mod mem; mod par; mod solver;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("selftest") { expr::selftest(a[2].parse().unwrap()); return; }
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: f64| get(k).map_or(d, |x| x.parse().unwrap());
    let cfg = par::Cfg {
        ll: get("--ll").expect("--ll"),
        out: get("--out").expect("--out"),
        harnesses: get("--harness").expect("--harness").split(',').map(|x| x.to_string()).collect(),
        jobs: num("--jobs", 8.0) as usize,
        secs: num("--secs", 60.0),
        steps: num("--steps", 5e7) as u64,
        rlimit: num("--rlimit", 1e7) as u32,
        dump: get("--dump"),
        confirm_us: num("--confirm", 2.0) as u64 * 1_000_000,
        split: a.iter().any(|x| x == "--split"),
        xc: a.iter().any(|x| x == "--xc"),
        samples: num("--samples", 6.0) as usize,
        mem_mb: num("--mem", 3000.0) as u64,
        utf8_stub: !a.iter().any(|x| x == "--no-utf8-stub"),
        model: get("--model").map(|x| (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()),
        profile: a.iter().any(|x| x == "--profile"),
        seed: num("--seed", 1.0) as u64,
    };
    par::main(cfg);
}
