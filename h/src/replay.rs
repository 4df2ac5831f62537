//! Native replay: runs harnesses against the real build with concrete bytes.
//! stdin: one case per line, `HARNESS HEX`. stdout: one JSON object per case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

struct Counting;
static LIMIT: AtomicU64 = AtomicU64::new(0);
static BIGGEST: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if LIMIT.load(Relaxed) != 0 { BIGGEST.fetch_max(l.size() as u64, Relaxed); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if LIMIT.load(Relaxed) != 0 { BIGGEST.fetch_max(l.size() as u64, Relaxed); } System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if LIMIT.load(Relaxed) != 0 { BIGGEST.fetch_max(n as u64, Relaxed); } System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Default)]
struct Ctx { data: Vec<u8>, at: usize, reach: Vec<u32>, notes: Vec<(u32, u64)> }
thread_local! { static C: RefCell<Ctx> = RefCell::new(Ctx::default()); }
static LOC: Mutex<String> = Mutex::new(String::new());
struct Assume;
struct Check(String);

#[no_mangle] pub unsafe extern "C-unwind" fn sym_bytes(p: *mut u8, n: usize) {
    C.with(|c| { let mut c = c.borrow_mut(); for i in 0..n { let k = c.at; *p.add(i) = c.data.get(k).copied().unwrap_or(0); c.at += 1; } })
}
#[no_mangle] pub extern "C-unwind" fn sym_assume(b: bool) { if !b { std::panic::resume_unwind(Box::new(Assume)) } }
#[no_mangle] pub unsafe extern "C-unwind" fn sym_check(b: bool, m: *const u8, n: usize) {
    if !b { let s = String::from_utf8_lossy(std::slice::from_raw_parts(m, n)).to_string(); std::panic::resume_unwind(Box::new(Check(s))) }
}
#[no_mangle] pub extern "C-unwind" fn sym_reach(id: u32) { C.with(|c| c.borrow_mut().reach.push(id)) }
#[no_mangle] pub extern "C-unwind" fn sym_note(k: u32, v: u64) { C.with(|c| { let mut c = c.borrow_mut(); if c.notes.len() < 64 { c.notes.push((k, v)) } }) }
#[no_mangle] pub extern "C-unwind" fn sym_concretize(v: u64) -> u64 { v }
#[no_mangle] pub extern "C-unwind" fn sym_decide(b: bool) -> bool { b }
#[no_mangle] pub extern "C-unwind" fn sym_alloc_limit(n: u64) { LIMIT.store(n, Relaxed); BIGGEST.store(0, Relaxed); }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o + "\""
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        if let Ok(mut l) = LOC.try_lock() { *l = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default()); }
    }));
    let all = lofh::all();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let (Some(h), hx) = (it.next(), it.next().unwrap_or("")) else { continue };
        let f = all.iter().find(|x| x.0 == h).unwrap_or_else(|| panic!("no harness {}", h)).1;
        let data: Vec<u8> = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect();
        let h = h.to_string();
        // a generous stack, as the executor bounds call depth instead
        let out = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            C.with(|c| *c.borrow_mut() = Ctx { data, ..Default::default() });
            LIMIT.store(0, Relaxed);
            let t = std::time::Instant::now();
            let r = std::panic::catch_unwind(f);
            let ms = t.elapsed().as_millis();
            let (lim, big) = (LIMIT.swap(0, Relaxed), BIGGEST.load(Relaxed));
            let (st, what) = match r {
                Ok(()) if lim != 0 && big > lim => ("alloc", format!("single allocation of {} bytes, limit {}", big, lim)),
                Ok(()) => ("ok", String::new()),
                Err(e) if e.is::<Assume>() => ("assume", String::new()),
                Err(e) if e.is::<Check>() => ("check", e.downcast_ref::<Check>().unwrap().0.clone()),
                Err(_) => ("panic", LOC.lock().unwrap().clone()),
            };
            C.with(|c| {
                let mut c = c.borrow_mut();
                c.reach.sort();
                c.reach.dedup();
                format!("{{\"harness\":{},\"status\":\"{}\",\"what\":{},\"ms\":{},\"used\":{},\"biggest\":{},\"reach\":{:?},\"notes\":[{}]}}", js(&h), st, js(&what), ms, c.at, if lim != 0 { big } else { 0 }, c.reach, c.notes.iter().map(|(k, v)| format!("[{},{}]", k, v)).collect::<Vec<_>>().join(","))
            })
        }).unwrap().join().unwrap();
        println!("{}", out);
        std::io::stdout().flush().unwrap();
    }
}
