//! Z3 back end (C API through FFI) with constraint slicing and caching.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_params_set_bool(c: P, p: P, k: P, v: bool);
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_rem(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
}

#[derive(Clone, Debug)]
pub enum Ans { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Solver {
    ctx: P,
    slv: P,
    slv_fp: P,
    tr: HashMap<Ex, P>,
    has_fp: HashMap<Ex, bool>,
    cache: HashMap<Vec<Ex>, Ans>,
    plain: HashMap<Vec<Ex>, Ans>,
    pub queries: u64,
    pub cache_hits: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub micros: u64,
    pub slowest: u64,
    pub has_log: bool,
    pub dump: Option<String>,
    pub dumped: u64,
    true_: P,
    false_: P,
}

pub fn z3_version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let sym = |s: &str| { let c = CString::new(s).unwrap(); Z3_mk_string_symbol(ctx, c.as_ptr()) };
            let kind = std::env::var("LOFSYM_Z3").unwrap_or_default();
            let slv = match kind.as_str() { "simple" => Z3_mk_simple_solver(ctx), "full" => Z3_mk_solver(ctx), "bv" => Z3_mk_solver_for_logic(ctx, sym("QF_BV")), "tac" => { let t = |n: &str| { let c = CString::new(n).unwrap(); let t = Z3_mk_tactic(ctx, c.as_ptr()); Z3_tactic_inc_ref(ctx, t); t }; let x = Z3_tactic_and_then(ctx, t("bit-blast"), t("sat")); Z3_tactic_inc_ref(ctx, x); let x = Z3_tactic_and_then(ctx, t("simplify"), x); Z3_tactic_inc_ref(ctx, x); Z3_mk_solver_from_tactic(ctx, x) } _ => Z3_mk_simple_solver(ctx) };
            Z3_solver_inc_ref(ctx, slv);
            let slv_fp = Z3_mk_solver_for_logic(ctx, sym("QF_FPBV"));
            Z3_solver_inc_ref(ctx, slv_fp);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, sym("rlimit"), rlimit);
            if kind == "" || kind == "simple" { Z3_params_set_uint(ctx, p, sym("relevancy"), 0); Z3_params_set_bool(ctx, p, sym("auto_config"), false); }
            Z3_solver_set_params(ctx, slv, p);
            Z3_solver_set_params(ctx, slv_fp, p);
            let true_ = Z3_mk_true(ctx);
            let false_ = Z3_mk_false(ctx);
            Z3_inc_ref(ctx, true_);
            Z3_inc_ref(ctx, false_);
            Solver { ctx, slv, slv_fp, tr: HashMap::new(), has_fp: HashMap::new(), cache: HashMap::new(), plain: HashMap::new(), queries: 0, cache_hits: 0, unsat: 0, sat: 0, unknown: 0, micros: 0, slowest: 0, has_log: false, dump: None, dumped: 0, true_, false_ }
        }
    }
    pub fn reset_counters(&mut self) {
        self.queries = 0; self.cache_hits = 0; self.unsat = 0; self.sat = 0; self.unknown = 0; self.micros = 0; self.slowest = 0;
    }
    unsafe fn num(&self, v: u128, w: u16) -> P {
        let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
        if w <= 64 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) } else {
            let c = CString::new(format!("{}", v)).unwrap();
            Z3_mk_numeral(self.ctx, c.as_ptr(), s)
        }
    }
    /// translation to a Z3 bit-vector term (booleans are 1-bit vectors at this level except via `boolean`)
    fn term(&mut self, a: &Arena, root: Ex) -> P {
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if self.tr.contains_key(&e) { st.pop(); continue; }
            let n = a.node(e).clone();
            let mut kids: Vec<Ex> = vec![];
            match n.op {
                Op::Const | Op::Sym => {}
                Op::Extract | Op::Tab => kids.push(n.a),
                Op::Ite => { kids.extend([n.a, n.b, n.c]); }
                _ => { kids.push(n.a); if n.b != 0 { kids.push(n.b); } }
            }
            let mut ready = true;
            for k in &kids { if !self.tr.contains_key(k) { st.push(*k); ready = false; } }
            if !ready { continue; }
            let fp = kids.iter().any(|k| self.has_fp[k]) || matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FCmpOeq | Op::FCmpOlt | Op::FCmpOle | Op::FIsNan | Op::UiToFp | Op::SiToFp | Op::FpToUiSat | Op::FpToSiSat | Op::FpExt | Op::FpTrunc | Op::FRound | Op::FFloor | Op::FCeil | Op::FTruncI | Op::FSqrt | Op::FRoundEven);
            let t = unsafe { self.build(a, &n) };
            unsafe { Z3_inc_ref(self.ctx, t) };
            self.tr.insert(e, t);
            self.has_fp.insert(e, fp);
            st.pop();
        }
        self.tr[&root]
    }
    // width-1 expressions are translated to Z3 booleans
    fn as_bv(&self, w: u16, t: P) -> P {
        if w == 1 { unsafe { let o = self.num(1, 1); let z = self.num(0, 1); Z3_mk_ite(self.ctx, t, o, z) } } else { t }
    }
    unsafe fn bit_to_bool(&self, t: P) -> P { let o = self.num(1, 1); Z3_mk_eq(self.ctx, t, o) }
    unsafe fn build(&mut self, a: &Arena, n: &Node) -> P {
        let c = self.ctx;
        let w = n.w;
        let g = |s: &Self, e: Ex| s.tr[&e];
        let gw = |e: Ex| a.w(e);
        if w == 1 {
            let t = match n.op {
                Op::Const => return if n.lo != 0 { self.true_ } else { self.false_ },
                Op::Not => Z3_mk_not(c, g(self, n.a)),
                Op::And => { let v = [g(self, n.a), g(self, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [g(self, n.a), g(self, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, g(self, n.a), g(self, n.b)),
                Op::Mul => { let v = [g(self, n.a), g(self, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Ite => Z3_mk_ite(c, g(self, n.a), g(self, n.b), g(self, n.c)),
                Op::Eq => Z3_mk_eq(c, g(self, n.a), g(self, n.b)),
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.as_bv(gw(n.a), g(self, n.a));
                    let y = self.as_bv(gw(n.b), g(self, n.b));
                    match n.op { Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y), Op::Slt => Z3_mk_bvslt(c, x, y), _ => Z3_mk_bvsle(c, x, y) }
                }
                Op::Extract => { let t = self.as_bv(gw(n.a), g(self, n.a)); let x = Z3_mk_extract(c, n.b, n.b, t); self.bit_to_bool(x) }
                Op::Tab => { let x = self.as_bv(gw(n.a), g(self, n.a)); let t = &a.tabs[n.b as usize]; let iw = gw(n.a); let r = self.mux(t, 0, iw, x, 1); self.bit_to_bool(r) }
                Op::FCmpOeq | Op::FCmpOlt | Op::FCmpOle | Op::FIsNan => {
                    let s = self.fsort(gw(n.a));
                    let x = Z3_mk_fpa_to_fp_bv(c, g(self, n.a), s);
                    if n.op == Op::FIsNan { Z3_mk_fpa_is_nan(c, x) } else {
                        let y = Z3_mk_fpa_to_fp_bv(c, g(self, n.b), s);
                        match n.op { Op::FCmpOeq => Z3_mk_fpa_eq(c, x, y), Op::FCmpOlt => Z3_mk_fpa_lt(c, x, y), _ => Z3_mk_fpa_leq(c, x, y) }
                    }
                }
                Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr => {
                    let x = self.as_bv(1, g(self, n.a));
                    let y = self.as_bv(1, g(self, n.b));
                    let r = self.arith(n.op, x, y);
                    self.bit_to_bool(r)
                }
                o => panic!("bool build {:?}", o),
            };
            return t;
        }
        let bv = |s: &Self, e: Ex| s.as_bv(gw(e), s.tr[&e]);
        match n.op {
            Op::Const => self.num(n.lo, w),
            Op::Sym => {
                let nm = CString::new(format!("b{}", n.a)).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, 8))
            }
            Op::Concat => Z3_mk_concat(c, bv(self, n.a), bv(self, n.b)),
            Op::Extract => Z3_mk_extract(c, n.b + w as u32 - 1, n.b, bv(self, n.a)),
            Op::SExt => Z3_mk_sign_ext(c, (w - gw(n.a)) as c_uint, bv(self, n.a)),
            Op::Not => Z3_mk_bvnot(c, bv(self, n.a)),
            Op::Ite => Z3_mk_ite(c, g(self, n.a), bv(self, n.b), bv(self, n.c)),
            Op::Tab => { let t = &a.tabs[n.b as usize]; let iw = gw(n.a); let x = bv(self, n.a); self.mux(t, 0, iw, x, w) }
            Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr => {
                let x = bv(self, n.a);
                let y = bv(self, n.b);
                self.arith(n.op, x, y)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                let s = self.fsort(w);
                let x = Z3_mk_fpa_to_fp_bv(c, bv(self, n.a), s);
                let y = Z3_mk_fpa_to_fp_bv(c, bv(self, n.b), s);
                let rm = Z3_mk_fpa_rne(c);
                let r = match n.op { Op::FAdd => Z3_mk_fpa_add(c, rm, x, y), Op::FSub => Z3_mk_fpa_sub(c, rm, x, y), Op::FMul => Z3_mk_fpa_mul(c, rm, x, y), Op::FDiv => Z3_mk_fpa_div(c, rm, x, y), _ => Z3_mk_fpa_rem(c, x, y) };
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FRound | Op::FFloor | Op::FCeil | Op::FTruncI | Op::FSqrt | Op::FRoundEven => {
                let s = self.fsort(w);
                let x = Z3_mk_fpa_to_fp_bv(c, bv(self, n.a), s);
                let r = match n.op {
                    Op::FRound => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), x),
                    Op::FRoundEven => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rne(c), x),
                    Op::FFloor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), x),
                    Op::FCeil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), x),
                    Op::FSqrt => Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), x),
                    _ => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), x),
                };
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FLog10 => {
                self.has_log = true;
                let nm = CString::new(format!("log10_{}", n.a)).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, w as c_uint))
            }
            Op::UiToFp => { let s = self.fsort(w); let r = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), bv(self, n.a), s); Z3_mk_fpa_to_ieee_bv(c, r) }
            Op::SiToFp => { let s = self.fsort(w); let r = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), bv(self, n.a), s); Z3_mk_fpa_to_ieee_bv(c, r) }
            Op::FpExt | Op::FpTrunc => {
                let s = self.fsort(w);
                let fs = self.fsort(gw(n.a));
                let x = Z3_mk_fpa_to_fp_bv(c, bv(self, n.a), fs);
                Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, s))
            }
            Op::FpToUiSat | Op::FpToSiSat => {
                let fw = gw(n.a);
                let fs = self.fsort(fw);
                let signed = n.op == Op::FpToSiSat;
                let x = Z3_mk_fpa_to_fp_bv(c, bv(self, n.a), fs);
                let conv = if signed { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, w as c_uint) } else { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, w as c_uint) };
                let fbits = |v: f64| -> u128 { if fw == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 } };
                let two = 2f64.powi(if signed { w as i32 - 1 } else { w as i32 });
                let hi = Z3_mk_fpa_to_fp_bv(c, self.num(fbits(two), fw), fs);
                let over = Z3_mk_fpa_leq(c, hi, x);
                let (maxv, minv) = if signed { (mask(w) >> 1, (mask(w) >> 1) + 1) } else { (mask(w), 0) };
                let lo = if signed { Z3_mk_fpa_to_fp_bv(c, self.num(fbits(-two), fw), fs) } else { Z3_mk_fpa_to_fp_bv(c, self.num(fbits(0.0), fw), fs) };
                let under = Z3_mk_fpa_leq(c, x, lo);
                let nan = Z3_mk_fpa_is_nan(c, x);
                let z = self.num(0, w);
                let mx = self.num(maxv, w);
                let mn = self.num(minv, w);
                Z3_mk_ite(c, nan, z, Z3_mk_ite(c, over, mx, Z3_mk_ite(c, under, mn, conv)))
            }
            o => panic!("build {:?}", o),
        }
    }
    unsafe fn fsort(&self, w: u16) -> P { if w == 32 { Z3_mk_fpa_sort_single(self.ctx) } else { Z3_mk_fpa_sort_double(self.ctx) } }
    unsafe fn arith(&self, op: Op, x: P, y: P) -> P {
        let c = self.ctx;
        match op {
            Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
            Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
            Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y),
            Op::SRem => Z3_mk_bvsrem(c, x, y), Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y),
            _ => Z3_mk_bvashr(c, x, y),
        }
    }
    /// table lookup as a multiplexer tree over the index bits
    unsafe fn mux(&self, t: &[u128], base: usize, bits: u16, idx: P, w: u16) -> P {
        let get = |i: usize| t.get(i).copied().unwrap_or(*t.last().unwrap());
        let span = if bits >= 63 { usize::MAX } else { 1usize << bits };
        if base >= t.len() || bits == 0 { return self.num(get(base), w); }
        let end = base.saturating_add(span).min(t.len());
        if (base..end).all(|i| t[i] == t[base]) { return self.num(t[base], w); }
        let half = if bits - 1 >= 63 { usize::MAX } else { 1usize << (bits - 1) };
        let lo = self.mux(t, base, bits - 1, idx, w);
        if base.saturating_add(half) >= t.len() { return lo; }
        let hi = self.mux(t, base + half, bits - 1, idx, w);
        if lo == hi { return lo; }
        let b = Z3_mk_extract(self.ctx, (bits - 1) as c_uint, (bits - 1) as c_uint, idx);
        Z3_mk_ite(self.ctx, self.bit_to_bool(b), hi, lo)
    }

    pub fn key(cs: &[Ex]) -> Vec<Ex> { let mut k = cs.to_vec(); k.sort(); k.dedup(); k }
    pub fn cached(&mut self, key: &Vec<Ex>) -> Option<Ans> { let r = self.cache.get(key).cloned(); if r.is_some() { self.cache_hits += 1; } r }
    pub fn remember(&mut self, key: Vec<Ex>, r: Ans) { if self.cache.len() > 400_000 { self.cache.clear(); } self.cache.insert(key, r); }
    /// cross-check mode: the bare solver, cached separately
    pub fn check_plain(&mut self, a: &Arena, cs: &[Ex]) -> Ans {
        let key = Self::key(cs);
        if let Some(r) = self.plain.get(&key) { return r.clone(); }
        let saved = self.cache.remove(&key);
        let r = self.check(a, cs);
        if let Some(s) = saved { self.cache.insert(key.clone(), s); }
        self.plain.insert(key, r.clone());
        r
    }
    /// satisfiability of the conjunction of `cs` (already sliced); the model lists the values of the slice's symbols
    pub fn check(&mut self, a: &Arena, cs: &[Ex]) -> Ans {
        let mut key: Vec<Ex> = cs.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) { self.cache_hits += 1; return r.clone(); }
        self.queries += 1;
        let t0 = std::time::Instant::now();
        let mut syms = [0u64; SSW];
        let mut terms = vec![];
        let mut fp = false;
        for &c in &key {
            for (x, y) in syms.iter_mut().zip(a.sets[a.node(c).ss as usize].iter()) { *x |= *y; }
            terms.push(self.term(a, c));
            fp |= self.has_fp[&c];
        }
        let r = unsafe {
            let s = if fp { self.slv_fp } else { self.slv };
            Z3_solver_reset(self.ctx, s);
            for t in terms { Z3_solver_assert(self.ctx, s, t); }
            let r = Z3_solver_check(self.ctx, s);
            if let Some(d) = &self.dump {
                if self.dumped < 400 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned();
                    let st = match r { 1 => "sat", -1 => "unsat", _ => "unknown" };
                    let _ = std::fs::write(format!("{}/q{}_{}_{}.smt2", d, std::process::id(), self.dumped, st), format!("(set-logic ALL)\n{}\n(check-sat)\n", txt));
                    self.dumped += 1;
                }
            }
            match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for (i, word) in syms.iter().enumerate() {
                        let mut wd = *word;
                        while wd != 0 {
                            let k = wd.trailing_zeros();
                            wd &= wd - 1;
                            let idx = (i * 64) as u32 + k;
                            let nm = CString::new(format!("b{}", idx)).unwrap();
                            let t = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, nm.as_ptr()), Z3_mk_bv_sort(self.ctx, 8));
                            let mut v: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            if Z3_model_eval(self.ctx, m, t, true, &mut v) { Z3_get_numeral_uint64(self.ctx, v, &mut u); }
                            out.push((idx, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Ans::Sat(out)
                }
                -1 => { self.unsat += 1; Ans::Unsat }
                _ => {
                    self.unknown += 1;
                    if std::env::var("LOFSYM_DEBUG").is_ok() {
                        eprintln!("unknown: {}", CStr::from_ptr(Z3_solver_get_reason_unknown(self.ctx, s)).to_string_lossy());
                    }
                    Ans::Unknown
                }
            }
        };
        let us = t0.elapsed().as_micros() as u64;
        self.micros += us;
        self.slowest = self.slowest.max(us);
        if self.cache.len() > 400_000 { self.cache.clear(); }
        self.cache.insert(key, r.clone());
        r
    }
}
