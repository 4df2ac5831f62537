//! Process-parallel exploration: harnesses and then subtrees are spread over forked workers.
use crate::exec::*;
use crate::expr::Arena;
use crate::ir::Module;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn signal(s: i32, h: usize) -> usize;
    fn clock() -> i64;
    fn getpid() -> i32;
}

pub struct Cfg {
    pub ll: String,
    pub out: String,
    pub harnesses: Vec<String>,
    pub jobs: usize,
    pub secs: f64,
    pub steps: u64,
    pub rlimit: u32,
    pub split: bool,
    pub dump: Option<String>,
    pub xc: bool,
    pub confirm_us: u64,
    pub samples: usize,
    pub mem_mb: u64,
    pub utf8_stub: bool,
    pub model: Option<Vec<u8>>,
    pub profile: bool,
    pub seed: u64,
}

struct Shared(&'static [AtomicU64]);
const ST: usize = 0; // all harnesses started
const NSTART: usize = 1;
const NDONE: usize = 2;
const PHASE2: usize = 3;
const BASE: usize = 8;
impl Shared {
    fn live(&self, h: usize) -> &AtomicU64 { &self.0[BASE + 2 * h] }
    fn used(&self, h: usize) -> &AtomicU64 { &self.0[BASE + 2 * h + 1] }
}

fn cpu() -> u64 { unsafe { clock() as u64 } }
fn wall() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_micros() as u64 }
fn now() -> f64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs_f64() }
fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 >> 20
}

struct Ctx { cfg: &'static Cfg, sh: Shared, tok_r: i32, tok_w: i32, live_w: i32, deadline: f64, share: u64 }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn report(ex: &Exec, cx: &Ctx, h: usize, started_cpu: u64, err: Option<String>) {
    let s = &ex.stats;
    let mut o = String::new();
    let mut inc = s.incomplete.clone();
    if let Some(e) = err { *inc.entry(format!("engine: {}", e)).or_insert(0) += 1; }
    let _ = write!(o, "{{\"harness\":{},\"paths\":{},\"assumed_away\":{},\"steps\":{},\"forks\":{},\"checks\":{},\"decides\":{},\"unexplored\":{},\"max_steps\":{},\"max_forks\":{},\"utf8_calls\":{}", js(&cx.cfg.harnesses[h]), s.paths, s.assumed_away, s.steps, s.forks, s.checks, s.decides, s.unexplored, s.max_steps, s.max_forks, ex.utf8_calls);
    let _ = write!(o, ",\"cpu_us\":{},\"q\":{},\"q_hits\":{},\"q_sat\":{},\"q_unsat\":{},\"q_unknown\":{},\"q_us\":{},\"q_slowest_us\":{},\"eval_sat\":{},\"dom\":{},\"rss_mb\":{}", cpu() - started_cpu, ex.sv.queries, ex.sv.cache_hits, ex.sv.sat, ex.sv.unsat, ex.sv.unknown, ex.sv.micros, ex.sv.slowest, ex.quick_sat + ex.model_hits, ex.dom_decided, rss_mb());
    let _ = write!(o, ",\"incomplete\":{{{}}}", inc.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"reach\":{{{}}}", ex.reach_all.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"viols\":[{}]", ex.viols.iter().map(|v| format!("{{\"kind\":{},\"what\":{},\"loc\":{},\"stack\":[{}],\"model\":\"{}\",\"steps\":{}}}", js(&v.kind), js(&v.what), js(&v.loc), v.stack.iter().take(40).map(|x| js(x)).collect::<Vec<_>>().join(","), hex(&v.model), v.steps)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"samples\":[{}]", ex.samples.iter().map(|(r, m, n)| format!("{{\"reach\":[{}],\"model\":\"{}\",\"notes\":[{}]}}", (0..128).filter(|k| r >> k & 1 != 0).map(|k| k.to_string()).collect::<Vec<_>>().join(","), hex(m), n.iter().map(|(k, v)| format!("[{},{}]", k, v)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let mut fs: Vec<(&str, u64)> = ex.funcs.iter().map(|(k, v)| (ex.m.funcs[*k as usize].pretty.as_ref(), *v)).collect();
    fs.sort();
    let _ = write!(o, ",\"funcs\":{{{}}}", fs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    if cx.cfg.profile {
        let mut fs: Vec<_> = ex.fork_sites.iter().collect();
        fs.sort_by_key(|x| std::cmp::Reverse(*x.1));
        let _ = write!(o, ",\"fork_sites\":{{{}}}", fs.iter().take(60).map(|((f, b, i), c)| format!("{}:{}", js(&format!("{} b{} i{}", ex.m.funcs[*f as usize].pretty, b, i)), c)).collect::<Vec<_>>().join(","));
    }
    o.push('}');
    let pid = unsafe { getpid() };
    let f = format!("{}/{}.{}.json", cx.cfg.out, pid, h);
    std::fs::write(format!("{}.tmp", f), o).unwrap();
    std::fs::rename(format!("{}.tmp", f), f).unwrap();
}

fn reset(ex: &mut Exec) {
    ex.stats = Stats::default();
    ex.viols.clear();
    ex.samples.clear();
    ex.reach_all.clear();
    ex.funcs.clear();
    ex.fork_sites.clear();
    ex.sv.queries = 0; ex.sv.cache_hits = 0; ex.sv.sat = 0; ex.sv.unsat = 0; ex.sv.unknown = 0; ex.sv.micros = 0; ex.sv.slowest = 0;
    ex.quick_sat = 0; ex.model_hits = 0; ex.dom_decided = 0; ex.utf8_calls = 0;
    ex.max_samples = 2;
}

/// body of one worker process; never returns
fn worker(ex: &mut Exec, cx: &Ctx, h: usize) -> ! {
    // shares are counted in wall time, so that every harness gets its turn on a busy machine too
    let mut started = cpu();
    let mut last = wall();
    loop {
        // returns when nothing is pending, or `true` in a freshly forked child
        let (mut forked, mut dup) = (false, false);
        let mut n = 0u32;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ex.explore(&mut |e: &mut Exec| {
                n = n.wrapping_add(1);
                let c = wall();
                if n & 15 != 0 && c - last < 2000 { return false; }
                cx.sh.used(h).fetch_add(c - last, SeqCst);
                last = c;
                if now() > cx.deadline { return true; }
                if n & 255 == 0 && rss_mb() > cx.cfg.mem_mb { *e.stats.incomplete.entry("memory cap of a worker".into()).or_insert(0) += 1; return true; }
                if cx.sh.0[PHASE2].load(SeqCst) == 0 && cx.sh.used(h).load(SeqCst) > cx.share { return true; }
                if e.pending.len() >= 2 && cx.sh.0[ST].load(SeqCst) != 0 {
                    let mut b = 0u8;
                    if unsafe { read(cx.tok_r, &mut b, 1) } == 1 {
                        let k = e.pending.len().div_ceil(2);
                        cx.sh.0[NSTART].fetch_add(1, SeqCst);
                        cx.sh.live(h).fetch_add(1, SeqCst);
                        match unsafe { fork() } {
                            0 => { e.pending.truncate(k); forked = true; dup = e.mid; return true; }
                            -1 => { cx.sh.0[NSTART].fetch_sub(1, SeqCst); cx.sh.live(h).fetch_sub(1, SeqCst); unsafe { write(cx.tok_w, &b, 1); } }
                            _ => { e.pending.drain(..k); }
                        }
                    }
                }
                false
            })
        }));
        if let Err(p) = r {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            ex.stats.unexplored += ex.pending.len() as u64 + 1;
            report(ex, cx, h, started, Some(msg));
            break;
        }
        if forked {
            // the path being run at the fork was pushed back here too; it belongs to the parent
            if dup { ex.pending.pop(); }
            reset(ex);
            started = cpu();
            last = wall();
            continue;
        }
        if ex.pending.is_empty() { report(ex, cx, h, started, None); break; }
        let over = now() > cx.deadline || rss_mb() > cx.cfg.mem_mb;
        if over {
            ex.stats.unexplored += ex.pending.len() as u64;
            report(ex, cx, h, started, None);
            break;
        }
        // the harness has used its share: hand the slot to the others until all have had theirs
        unsafe { write(cx.tok_w, &0u8, 1); }
        loop {
            if now() > cx.deadline {
                ex.stats.unexplored += ex.pending.len() as u64;
                report(ex, cx, h, started, None);
                cx.sh.live(h).fetch_sub(1, SeqCst);
                cx.sh.0[NDONE].fetch_add(1, SeqCst);
                unsafe { _exit(0) }
            }
            if cx.sh.0[PHASE2].load(SeqCst) == 0 && cx.sh.0[ST].load(SeqCst) != 0 {
                let all = (0..cx.cfg.harnesses.len()).all(|k| cx.sh.live(k).load(SeqCst) == 0 || cx.sh.used(k).load(SeqCst) > cx.share);
                if all { cx.sh.0[PHASE2].store(1, SeqCst); }
            }
            if cx.sh.0[PHASE2].load(SeqCst) != 0 {
                let mut b = 0u8;
                if unsafe { read(cx.tok_r, &mut b, 1) } == 1 { break; }
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        last = wall();
    }
    cx.sh.live(h).fetch_sub(1, SeqCst);
    cx.sh.0[NDONE].fetch_add(1, SeqCst);
    unsafe { write(cx.tok_w, &0u8, 1); _exit(0) }
}

pub fn main(cfg: Cfg) {
    let t0 = Instant::now();
    let cfg: &'static Cfg = Box::leak(Box::new(cfg));
    std::fs::create_dir_all(&cfg.out).unwrap();
    let m: &'static Module = Box::leak(Box::new(Module::load(&cfg.ll)));
    let ar: &'static RefCell<Arena> = Box::leak(Box::new(RefCell::new(Arena::new())));
    for h in &cfg.harnesses { if !m.fmap.contains_key(&m.resolve(h.as_str())) { eprintln!("harness {} not in module", h); std::process::exit(2); } }
    let load = t0.elapsed().as_secs_f64();
    let (mut tok, mut live) = ([0i32; 2], [0i32; 2]);
    let sh = unsafe {
        signal(17, 1);
        pipe(tok.as_mut_ptr());
        pipe(live.as_mut_ptr());
        fcntl(tok[0], 4, 0o4000);
        let p = mmap(std::ptr::null_mut(), 1 << 16, 3, 0x21, -1, 0);
        Shared(std::slice::from_raw_parts(p as *const AtomicU64, 8192))
    };
    for _ in 0..cfg.jobs { unsafe { write(tok[1], &0u8, 1); } }
    let nh = cfg.harnesses.len();
    let cx = Ctx { cfg, sh, tok_r: tok[0], tok_w: tok[1], live_w: live[1], deadline: now() + cfg.secs, share: (cfg.secs * 0.85 * cfg.jobs as f64 / nh as f64 * 1e6) as u64 };
    let mut skipped = 0;
    for h in 0..nh {
        let mut b = 0u8;
        let mut ok = false;
        while now() < cx.deadline { if unsafe { read(cx.tok_r, &mut b, 1) } == 1 { ok = true; break; } std::thread::sleep(Duration::from_millis(2)); }
        if !ok { skipped += 1; continue; }
        cx.sh.0[NSTART].fetch_add(1, SeqCst);
        cx.sh.live(h).fetch_add(1, SeqCst);
        match unsafe { fork() } {
            0 => {
                unsafe { close(live[0]); }
                let mut ex = Exec::new(m, ar, cfg.rlimit);
                ex.sv.dump = cfg.dump.clone();
                ex.crosscheck = cfg.xc;
                ex.split = cfg.split;
                ex.confirm_us = cfg.confirm_us;
                ex.step_limit = cfg.steps;
                ex.max_samples = cfg.samples;
                ex.utf8_stub = cfg.utf8_stub;
                ex.fixed_model = cfg.model.clone();
                ex.profile = cfg.profile;
                ex.rng = cfg.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (h as u64 + 1) << 32 | 1;
                let st = ex.start(&cfg.harnesses[h]);
                ex.pending.push(st);
                worker(&mut ex, &cx, h)
            }
            -1 => { eprintln!("fork failed"); std::process::exit(2) }
            _ => {}
        }
    }
    cx.sh.0[ST].store(1, SeqCst);
    unsafe { close(cx.live_w); }
    let mut b = 0u8;
    while unsafe { read(live[0], &mut b, 1) } > 0 {}
    let (s, d) = (cx.sh.0[NSTART].load(SeqCst), cx.sh.0[NDONE].load(SeqCst));
    std::fs::write(format!("{}/done.txt", cfg.out), format!("{{\"started\":{},\"finished\":{},\"skipped\":{},\"load_s\":{:.3},\"wall_s\":{:.3}}}", s, d, skipped, load, t0.elapsed().as_secs_f64())).unwrap();
}
