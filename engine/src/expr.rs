//! Hash-consed bit-vector expressions with a normalising constructor layer.
use std::collections::HashMap;

pub type Ex = u32;

/// A fast hasher for the arenas.
#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl FxH { #[inline] fn add(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); } }
impl std::hash::BuildHasher for Fx { type Hasher = FxH; #[inline] fn build_hasher(&self) -> FxH { FxH(0) } }
impl std::hash::Hasher for FxH {
    #[inline] fn finish(&self) -> u64 { self.0 ^ self.0 >> 32 }
    #[inline] fn write(&mut self, b: &[u8]) { let mut c = b.chunks_exact(8); for x in &mut c { self.add(u64::from_le_bytes(x.try_into().unwrap())); } for &x in c.remainder() { self.add(x as u64); } }
    #[inline] fn write_u8(&mut self, x: u8) { self.add(x as u64); }
    #[inline] fn write_u16(&mut self, x: u16) { self.add(x as u64); }
    #[inline] fn write_u32(&mut self, x: u32) { self.add(x as u64); }
    #[inline] fn write_u64(&mut self, x: u64) { self.add(x); }
    #[inline] fn write_u128(&mut self, x: u128) { self.add(x as u64); self.add((x >> 64) as u64); }
    #[inline] fn write_usize(&mut self, x: usize) { self.add(x as u64); }
    #[inline] fn write_isize(&mut self, x: isize) { self.add(x as u64); }
}


#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Sym, Concat, Extract, SExt, Not, And, Or, Xor, Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Tab,
    FAdd, FSub, FMul, FDiv, FRem, FCmpOeq, FCmpOlt, FCmpOle, FIsNan, UiToFp, SiToFp, FpToUiSat, FpToSiSat,
    FpExt, FpTrunc, FRound, FFloor, FCeil, FTruncI, FSqrt, FRoundEven, FLog10,
}

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub ss: u32,
    pub lo: u128,
    pub hi: u128,
}

#[derive(PartialEq, Eq, Hash, Clone, Copy)]
struct Key(Op, u16, u32, u32, u32, u128);

pub const MAXSYM: usize = 1024;
pub const SSW: usize = MAXSYM / 64;
pub type SymSet = [u64; SSW];

pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<Key, Ex, Fx>,
    pub sets: Vec<SymSet>,
    setmap: HashMap<SymSet, u32, Fx>,
    unionmemo: HashMap<(u32, u32), u32, Fx>,
    pub tabs: Vec<Vec<u128>>,
    tabmap: HashMap<Vec<u128>, u32, Fx>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    single: Vec<i32>,
    arrs: HashMap<Ex, std::rc::Rc<Vec<u128>>, Fx>,
    truths: HashMap<Ex, [u64; 4], Fx>,
    exmemo: HashMap<(Ex, u32, u16), Ex, Fx>,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

fn f_of(v: u128, w: u16) -> f64 {
    if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }
}

/// Concrete semantics of the binary/ternary operations.
pub fn eval_op(op: Op, w: u16, wa: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let f2 = |f: fn(f64, f64) -> f64, g: fn(f32, f32) -> f32| -> u128 {
        if w == 32 {
            g(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u128
        } else {
            f(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128
        }
    };
    let f1 = |f: fn(f64) -> f64, g: fn(f32) -> f32| -> u128 {
        if w == 32 {
            g(f32::from_bits(x as u32)).to_bits() as u128
        } else {
            f(f64::from_bits(x as u64)).to_bits() as u128
        }
    };
    match op {
        Op::Not => !x & m,
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 { if a < 0 { 1 } else { m } } else { (a.wrapping_div(b) as u128) & m }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m }
        }
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((sx(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sx(x, wa) < sx(y, wa)) as u128,
        Op::Sle => (sx(x, wa) <= sx(y, wa)) as u128,
        Op::SExt => (sx(x, wa) as u128) & m,
        Op::FAdd => f2(|a, b| a + b, |a, b| a + b),
        Op::FSub => f2(|a, b| a - b, |a, b| a - b),
        Op::FMul => f2(|a, b| a * b, |a, b| a * b),
        Op::FDiv => f2(|a, b| a / b, |a, b| a / b),
        Op::FRem => f2(|a, b| a % b, |a, b| a % b),
        Op::FCmpOeq => (f_of(x, wa) == f_of(y, wa)) as u128,
        Op::FCmpOlt => (f_of(x, wa) < f_of(y, wa)) as u128,
        Op::FCmpOle => (f_of(x, wa) <= f_of(y, wa)) as u128,
        Op::FIsNan => f_of(x, wa).is_nan() as u128,
        Op::UiToFp => if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 },
        Op::SiToFp => {
            let s = sx(x, wa);
            if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 }
        }
        Op::FpToUiSat => {
            let f = f_of(x, wa);
            let v = f as u128;
            if v > m { m } else { v }
        }
        Op::FpToSiSat => {
            let f = f_of(x, wa);
            let v = f as i128;
            let mx = (m >> 1) as i128;
            let mn = -mx - 1;
            (v.clamp(mn, mx) as u128) & m
        }
        Op::FpExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        Op::FpTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        Op::FRound => f1(f64::round, f32::round),
        Op::FFloor => f1(f64::floor, f32::floor),
        Op::FCeil => f1(f64::ceil, f32::ceil),
        Op::FTruncI => f1(f64::trunc, f32::trunc),
        Op::FSqrt => f1(f64::sqrt, f32::sqrt),
        Op::FLog10 => f1(f64::log10, f32::log10),
        Op::FRoundEven => f1(f64::round_ties_even, f32::round_ties_even),
        _ => unreachable!("eval_op {:?}", op),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            n: Vec::new(), map: HashMap::default(), sets: vec![], setmap: HashMap::default(),
            unionmemo: HashMap::default(), tabs: vec![], tabmap: HashMap::default(), memo: vec![], epoch: 0,
            single: vec![], arrs: HashMap::default(), truths: HashMap::default(), exmemo: HashMap::default(),
        };
        a.set_id([0; SSW]);
        // node 0 is reserved ("no expression"), 1/2 are the booleans
        a.n.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, ss: 0, lo: 0, hi: 0 });
        a.cst(0, 1);
        a.cst(1, 1);
        a
    }
    pub const FALSE: Ex = 1;
    pub const TRUE: Ex = 2;

    fn set_id(&mut self, s: SymSet) -> u32 {
        if let Some(&i) = self.setmap.get(&s) { return i; }
        let i = self.sets.len() as u32;
        self.sets.push(s);
        let pc: u32 = s.iter().map(|w| w.count_ones()).sum();
        self.single.push(if pc == 1 { s.iter().enumerate().find(|x| *x.1 != 0).map(|(k, w)| (k * 64) as i32 + w.trailing_zeros() as i32).unwrap() } else { -1 });
        self.setmap.insert(s, i);
        i
    }
    pub fn set_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.unionmemo.get(&k) { return r; }
        let mut s = self.sets[a as usize];
        for (x, y) in s.iter_mut().zip(self.sets[b as usize].iter()) { *x |= *y; }
        let r = self.set_id(s);
        self.unionmemo.insert(k, r);
        r
    }
    #[inline] pub fn w(&self, e: Ex) -> u16 { self.n[e as usize].w }
    #[inline] pub fn is_const(&self, e: Ex) -> bool { self.n[e as usize].op == Op::Const }
    #[inline] pub fn cval(&self, e: Ex) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const { Some(n.lo) } else { None }
    }
    fn intern(&mut self, op: Op, w: u16, a: u32, b: u32, c: u32, lo: u128, hi: u128, ss: u32) -> Ex {
        let key = Key(op, w, a, b, c, if op == Op::Const { lo } else { 0 });
        if let Some(&e) = self.map.get(&key) { return e; }
        let e = self.n.len() as Ex;
        self.n.push(Node { op, w, a, b, c, ss, lo, hi });
        self.map.insert(key, e);
        e
    }
    pub fn cst(&mut self, v: u128, w: u16) -> Ex {
        let v = v & mask(w);
        self.intern(Op::Const, w, 0, 0, 0, v, v, 0)
    }
    pub fn sym(&mut self, idx: u32) -> Ex {
        assert!((idx as usize) < MAXSYM, "too many symbolic bytes");
        let mut s = [0u64; SSW];
        s[idx as usize / 64] |= 1 << (idx % 64);
        let ss = self.set_id(s);
        self.intern(Op::Sym, 8, idx, 0, 0, 0, 255, ss)
    }
    #[inline] pub fn node(&self, e: Ex) -> &Node { &self.n[e as usize] }

    fn mk(&mut self, op: Op, w: u16, a: Ex, b: Ex, c: Ex) -> Ex {
        // generic constructor: computes interval + symbol set
        let m = mask(w);
        let (alo, ahi, wa, sa) = { let n = self.node(a); (n.lo, n.hi, n.w, n.ss) };
        let (blo, bhi, sb) = if matches!(op, Op::Extract | Op::Tab) || b == 0 { (0, 0, 0) } else { let n = self.node(b); (n.lo, n.hi, n.ss) };
        let (clo, chi, sc) = if op == Op::Ite { let n = self.node(c); (n.lo, n.hi, n.ss) } else { (0, 0, 0) };
        let (mut lo, mut hi) = (0u128, m);
        match op {
            Op::Concat => { let wb = self.w(b); lo = alo << wb | blo; hi = ahi << wb | bhi; }
            Op::Extract => {
                let off = b; // offset stored raw in b
                if ahi >> off <= m { lo = alo >> off; hi = ahi >> off; }
            }
            Op::SExt => if wa < 128 && ahi < (1u128 << (wa - 1)) { lo = alo; hi = ahi; },
            Op::Not => { lo = !ahi & m; hi = !alo & m; }
            Op::And => hi = ahi.min(bhi),
            Op::Or => {
                lo = alo.max(blo);
                let z = (ahi | bhi).leading_zeros();
                hi = if z == 128 { 0 } else if z == 0 { m } else { ((1u128 << (128 - z)) - 1) & m };
            }
            Op::Xor => {
                let z = (ahi | bhi).leading_zeros();
                hi = if z == 128 { 0 } else if z == 0 { m } else { ((1u128 << (128 - z)) - 1) & m };
            }
            Op::Add => if let Some(s) = ahi.checked_add(bhi) { if s <= m { lo = alo + blo; hi = s; } },
            Op::Sub => if alo >= bhi { lo = alo - bhi; hi = ahi - blo; },
            Op::Mul => if let Some(s) = ahi.checked_mul(bhi) { if s <= m { lo = alo * blo; hi = s; } },
            Op::UDiv => if blo > 0 { lo = alo / bhi; hi = ahi / blo; },
            Op::URem => { if blo > 0 { hi = ahi.min(bhi - 1); } else { hi = ahi; } }
            Op::LShr => hi = ahi,
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FCmpOeq | Op::FCmpOlt | Op::FCmpOle | Op::FIsNan => { hi = 1; }
            Op::Ite => { lo = blo.min(clo); hi = bhi.max(chi); }
            Op::Tab => {
                let t = &self.tabs[b as usize];
                lo = *t.iter().min().unwrap();
                hi = *t.iter().max().unwrap();
            }
            _ => {}
        }
        if lo == hi { return self.cst(lo, w); }
        let s = self.set_union(sa, sb);
        let s = self.set_union(s, sc);
        if self.single[s as usize] >= 0 && w <= 64 {
            // anything non-structural over one input byte becomes a 256-entry table of that byte
            let build = match op {
                Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr => true,
                Op::Ite => w > 1,
                Op::Add | Op::Sub => !self.is_const(a) && !self.is_const(b),
                Op::Tab => self.n[a as usize].op != Op::Sym,
                Op::Sym | Op::Const | Op::Concat | Op::Extract | Op::SExt | Op::Not | Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => false,
                _ => true,
            };
            if build {
                let idx = self.single[s as usize] as u32;
                let av = self.arr(a);
                let bv = if matches!(op, Op::Tab) || b == 0 { None } else { Some(self.arr(b)) };
                let cv = if op == Op::Ite { Some(self.arr(c)) } else { None };
                let t: Vec<u128> = (0..256usize).map(|i| match op {
                    Op::Ite => if av[i] != 0 { bv.as_ref().unwrap()[i] } else { cv.as_ref().unwrap()[i] },
                    Op::Tab => self.tabs[b as usize].get(av[i] as usize).copied().unwrap_or(0),
                    _ => eval_op(op, w, wa, av[i], bv.as_ref().map_or(0, |x| x[i])),
                }).collect();
                let sy = self.sym(idx);
                return self.tab(t, sy, w);
            }
        }
        self.intern(op, w, a, b, c, lo, hi, s)
    }
    /// the only symbolic byte an expression depends on
    pub fn single(&self, e: Ex) -> Option<u32> {
        let s = self.single[self.n[e as usize].ss as usize];
        if s >= 0 { Some(s as u32) } else { None }
    }
    /// values of a single-byte expression for all 256 values of that byte
    pub fn arr(&mut self, e: Ex) -> std::rc::Rc<Vec<u128>> {
        if let Some(r) = self.arrs.get(&e) { return r.clone(); }
        let n = self.n[e as usize].clone();
        let r: Vec<u128> = match n.op {
            Op::Const => vec![n.lo; 256],
            Op::Sym => (0..256).collect(),
            Op::Concat => { let h = self.arr(n.a); let l = self.arr(n.b); let wl = self.w(n.b); (0..256).map(|i| h[i] << wl | l[i]).collect() }
            Op::Extract => { let v = self.arr(n.a); v.iter().map(|x| (x >> n.b) & mask(n.w)).collect() }
            Op::Ite => { let c = self.arr(n.a); let x = self.arr(n.b); let y = self.arr(n.c); (0..256).map(|i| if c[i] != 0 { x[i] } else { y[i] }).collect() }
            Op::Tab => { let v = self.arr(n.a); let t = &self.tabs[n.b as usize]; v.iter().map(|i| t.get(*i as usize).copied().unwrap_or(0)).collect() }
            op => {
                let wa = self.w(n.a);
                let x = self.arr(n.a);
                let y = if n.b != 0 { Some(self.arr(n.b)) } else { None };
                (0..256).map(|i| eval_op(op, n.w, wa, x[i], y.as_ref().map_or(0, |y| y[i]))).collect()
            }
        };
        let r = std::rc::Rc::new(r);
        self.arrs.insert(e, r.clone());
        r
    }
    /// set of byte values under which a single-byte condition holds
    pub fn truth(&mut self, e: Ex) -> [u64; 4] {
        if let Some(r) = self.truths.get(&e) { return *r; }
        let v = self.arr(e);
        let mut r = [0u64; 4];
        for i in 0..256 { if v[i] != 0 { r[i / 64] |= 1 << (i % 64); } }
        self.truths.insert(e, r);
        r
    }

    // ---- structural helpers -------------------------------------------------
    /// segments from low to high: (expr, offset in whole)
    pub fn segs(&self, mut e: Ex, out: &mut Vec<Ex>) {
        out.clear();
        // Concat(a=hi, b=lo) right-nested: hi part is never a Concat
        loop {
            let n = self.node(e);
            if n.op == Op::Concat { out.push(n.a); e = n.b; } else { out.push(e); break; }
        }
        out.reverse();
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let hn = self.node(h).clone();
        if hn.op == Op::Concat {
            let t = self.concat(hn.b, l);
            return self.concat(hn.a, t);
        }
        let ln = self.node(l).clone();
        let w = hn.w + ln.w;
        assert!(w <= 128, "concat too wide");
        if hn.op == Op::Const && ln.op == Op::Const { return self.cst(hn.lo << ln.w | ln.lo, w); }
        // zero-extension of the low bits of something whose upper bits are known to be zero
        if hn.op == Op::Const && hn.lo == 0 && ln.op == Op::Extract && ln.b == 0 && self.node(ln.a).hi <= mask(ln.w) {
            let wb = self.w(ln.a);
            if w == wb { return ln.a; }
            if w > wb { let z = self.cst(0, w - wb); return self.concat(z, ln.a); }
        }
        // merge with the top segment of l
        let (top, rest) = if ln.op == Op::Concat { (ln.a, Some(ln.b)) } else { (l, None) };
        let tn = self.node(top).clone();
        let mut merged = None;
        if hn.op == Op::Const && tn.op == Op::Const {
            merged = Some(self.cst(hn.lo << tn.w | tn.lo, hn.w + tn.w));
        } else {
            // adjacent extracts of the same expression (a plain x counts as extract(x,0) only for full width pieces)
            let (hb, ho) = if hn.op == Op::Extract { (hn.a, hn.b) } else { (h, 0) };
            let (tb, to) = if tn.op == Op::Extract { (tn.a, tn.b) } else { (top, 0) };
            if hb == tb && hn.op == Op::Extract && ho == to + tn.w as u32 {
                merged = Some(self.extract(hb, to, hn.w + tn.w));
            }
            if merged.is_none() && hn.op == Op::Tab && tn.op == Op::Tab && hn.a == tn.a && hn.w + tn.w <= 64 {
                let t: Vec<u128> = { let (x, y) = (&self.tabs[hn.b as usize], &self.tabs[tn.b as usize]); (0..x.len().min(y.len())).map(|i| x[i] << tn.w | y[i]).collect() };
                merged = Some(self.tab(t, hn.a, hn.w + tn.w));
            }
        }
        if let Some(mg) = merged {
            return match rest { Some(r) => self.concat(mg, r), None => mg };
        }
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn extract(&mut self, e: Ex, off: u32, w: u16) -> Ex {
        let n = self.node(e);
        if off == 0 && w == n.w { return e; }
        if matches!(n.op, Op::Const | Op::Sym) { return self.extract_(e, off, w); }
        // shared subexpressions are narrowed once
        if let Some(&r) = self.exmemo.get(&(e, off, w)) { return r; }
        let r = self.extract_(e, off, w);
        self.exmemo.insert((e, off, w), r);
        r
    }
    fn extract_(&mut self, e: Ex, off: u32, w: u16) -> Ex {
        let n = self.node(e).clone();
        assert!(off + w as u32 <= n.w as u32, "extract out of range {:?} w{} off {} want {}", n.op, n.w, off, w);
        match n.op {
            Op::Const => { return self.cst(n.lo >> off, w); }
            Op::Extract => return self.extract(n.a, n.b + off, w),
            Op::Concat => {
                let lw = self.w(n.b) as u32;
                if off >= lw { return self.extract(n.a, off - lw, w); }
                if off + w as u32 <= lw { return self.extract(n.b, off, w); }
                let lo = self.extract(n.b, off, (lw - off) as u16);
                let hi = self.extract(n.a, 0, (off + w as u32 - lw) as u16);
                return self.concat(hi, lo);
            }
            Op::SExt => {
                let aw = self.w(n.a) as u32;
                if off + w as u32 <= aw { return self.extract(n.a, off, w); }
                if off == 0 { return self.sext(n.a, w); }
                if off < aw {
                    let x = self.extract(n.a, off, (aw - off) as u16);
                    return self.sext(x, w);
                }
                if w == 1 { return self.extract(n.a, aw - 1, 1); }
                let b = self.extract(n.a, aw - 1, 1);
                return self.sext(b, w);
            }
            Op::And | Op::Or | Op::Xor if (off == 0 && w >= 8) || self.is_const(n.a) || self.is_const(n.b) || w == 1 => {
                let a = self.extract(n.a, off, w);
                let b = self.extract(n.b, off, w);
                return self.bin(n.op, a, b);
            }
            Op::Not => { let a = self.extract(n.a, off, w); return self.not(a); }
            Op::Add | Op::Sub | Op::Mul if off == 0 && self.cheap(n.a, n.b) => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                return self.bin(n.op, a, b);
            }
            Op::Ite => {
                if (self.is_const(n.b) || self.is_const(n.c)) || w <= 8 {
                    let a = self.extract(n.b, off, w);
                    let b = self.extract(n.c, off, w);
                    return self.ite(n.a, a, b);
                }
            }
            Op::Tab => {
                let t: Vec<u128> = self.tabs[n.b as usize].iter().map(|v| (v >> off) & mask(w)).collect();
                return self.tab(t, n.a, w);
            }
            _ => {}
        }
        if n.hi >> off == 0 { return self.cst(0, w); }
        // leading zeros known by interval
        let nb = 128 - (n.hi >> off).leading_zeros() as u16;
        if nb < w {
            let lo = self.mk_raw_extract(e, off, nb);
            let z = self.cst(0, w - nb);
            return self.concat(z, lo);
        }
        self.mk_raw_extract(e, off, w)
    }
    fn mk_raw_extract(&mut self, e: Ex, off: u32, w: u16) -> Ex {
        if off == 0 && self.w(e) == w { return e; }
        self.mk(Op::Extract, w, e, off, 0)
    }
    fn cheap(&self, a: Ex, b: Ex) -> bool {
        // narrowing an addition is always sound for the low bits
        let _ = (a, b);
        true
    }
    pub fn zext(&mut self, e: Ex, w: u16) -> Ex {
        let ew = self.w(e);
        if ew == w { return e; }
        let z = self.cst(0, w - ew);
        self.concat(z, e)
    }
    pub fn sext(&mut self, e: Ex, w: u16) -> Ex {
        let n = self.node(e).clone();
        if n.w == w { return e; }
        if n.op == Op::Const { return self.cst(sx(n.lo, n.w) as u128, w); }
        if n.hi < (1u128 << (n.w - 1)) { return self.zext(e, w); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        if n.w == 1 {
            let (t, f) = (self.cst(!0, w), self.cst(0, w));
            return self.ite(e, t, f);
        }
        self.mk(Op::SExt, w, e, 0, 0)
    }
    pub fn trunc(&mut self, e: Ex, w: u16) -> Ex { self.extract(e, 0, w) }
    pub fn not(&mut self, e: Ex) -> Ex {
        let n = self.node(e).clone();
        match n.op {
            Op::Const => self.cst(!n.lo, n.w),
            Op::Not => n.a,
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            Op::Concat => { let h = self.not(n.a); let l = self.not(n.b); self.concat(h, l) }
            Op::Ite if self.is_const(n.b) && self.is_const(n.c) => { let a = self.not(n.b); let b = self.not(n.c); self.ite(n.a, a, b) }
            Op::Ite if n.w == 1 => { let a = self.not(n.b); let b = self.not(n.c); self.ite(n.a, a, b) }
            _ => self.mk(Op::Not, n.w, e, 0, 0),
        }
    }
    pub fn ite(&mut self, c: Ex, t: Ex, f: Ex) -> Ex {
        debug_assert_eq!(self.w(t), self.w(f));
        if let Some(v) = self.cval(c) { return if v != 0 { t } else { f }; }
        if t == f { return t; }
        let w = self.w(t);
        let cn = self.node(c).clone();
        if cn.op == Op::Not { return self.ite(cn.a, f, t); }
        if w == 1 {
            match (self.cval(t), self.cval(f)) {
                (Some(1), Some(_)) => return c,
                (Some(0), Some(_)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => { let nc = self.not(c); return self.bin(Op::And, nc, f); }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, t); }
                _ => {}
            }
        }
        // same condition nested
        let tn = self.node(t).clone();
        if tn.op == Op::Ite && tn.a == c { return self.ite(c, tn.b, f); }
        let fnn = self.node(f).clone();
        if fnn.op == Op::Ite && fnn.a == c { return self.ite(c, t, fnn.c); }
        if fnn.op == Op::Ite && fnn.b == t { let o = self.bin(Op::Or, c, fnn.a); return self.ite(o, t, fnn.c); }
        // split into segments when both sides share segment structure with equal parts
        if w > 1 && (tn.op == Op::Concat || fnn.op == Op::Concat) {
            // common low or high constant parts
            let cut = if tn.op == Op::Concat { self.w(tn.b) } else { self.w(fnn.b) };
            let tl = self.extract(t, 0, cut);
            let fl = self.extract(f, 0, cut);
            let th = self.extract(t, cut as u32, w - cut);
            let fh = self.extract(f, cut as u32, w - cut);
            if th == fh || tl == fl {
                let h = self.ite(c, th, fh);
                let l = self.ite(c, tl, fl);
                return self.concat(h, l);
            }
        }
        self.mk(Op::Ite, w, c, t, f)
    }
    pub fn tab(&mut self, t: Vec<u128>, idx: Ex, w: u16) -> Ex {
        if t.iter().all(|v| *v == t[0]) { return self.cst(t[0], w); }
        if let Some(i) = self.cval(idx) { let v = t.get(i as usize).copied().unwrap_or(0); return self.cst(v, w); }
        let id = match self.tabmap.get(&t) {
            Some(&i) => i,
            None => { let i = self.tabs.len() as u32; self.tabs.push(t.clone()); self.tabmap.insert(t, i); i }
        };
        self.mk(Op::Tab, w, idx, id, 0)
    }

    fn runs(v: u128, w: u16) -> Vec<(u16, u16, bool)> {
        // (offset, width, bit) from low to high
        let mut r = vec![];
        let mut i = 0;
        while i < w {
            let b = (v >> i) & 1 == 1;
            let mut j = i;
            while j < w && ((v >> j) & 1 == 1) == b { j += 1; }
            r.push((i, j - i, b));
            i = j;
        }
        r
    }
    /// boundaries of segments
    fn bounds(&self, e: Ex) -> Vec<(u32, Ex)> {
        let mut s = vec![];
        self.segs(e, &mut s);
        let mut o = 0u32;
        s.into_iter().map(|x| { let r = (o, x); o += self.w(x) as u32; r }).collect()
    }
    fn bitop(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        let w = self.w(a);
        if w == 1 { return None; }
        // constant operand: cut into runs of equal bits
        let (x, k) = if let Some(k) = self.cval(b) { (a, k) } else if let Some(k) = self.cval(a) { (b, k) } else {
            // two symbolic operands: cut at the union of boundaries if each piece has a constant side
            let (ba, bb) = (self.bounds(a), self.bounds(b));
            if ba.len() == 1 && bb.len() == 1 { return None; }
            let mut cuts: Vec<u32> = ba.iter().map(|x| x.0).chain(bb.iter().map(|x| x.0)).collect();
            cuts.sort(); cuts.dedup(); cuts.push(w as u32);
            let mut pieces = vec![];
            let mut any = false;
            for i in 0..cuts.len() - 1 {
                let (o, pw) = (cuts[i], (cuts[i + 1] - cuts[i]) as u16);
                let pa = self.extract(a, o, pw);
                let pb = self.extract(b, o, pw);
                let z = |v: Option<u128>| v == Some(0) || v == Some(mask(pw));
                if z(self.cval(pa)) || z(self.cval(pb)) || (self.is_const(pa) && self.is_const(pb)) { any = true; }
                pieces.push((pa, pb));
            }
            if !any { return None; }
            let mut acc = None;
            for (pa, pb) in pieces {
                let r = self.bin(op, pa, pb);
                acc = Some(match acc { None => r, Some(l) => self.concat(r, l) });
            }
            return acc;
        };
        let rs = Self::runs(k, w);
        if rs.len() == 1 {
            let ones = rs[0].2;
            return Some(match (op, ones) {
                (Op::And, true) | (Op::Or, false) | (Op::Xor, false) => x,
                (Op::And, false) => self.cst(0, w),
                (Op::Or, true) => self.cst(!0, w),
                _ => self.not(x),
            });
        }
        let is_cat = self.node(x).op == Op::Concat;
        if rs.len() > 4 && !is_cat { return None; }
        if rs.len() > 16 { return None; }
        if op == Op::Xor && !is_cat { return None; }
        let mut acc = None;
        for (o, pw, bit) in rs {
            let p = match (op, bit) {
                (Op::And, false) => self.cst(0, pw),
                (Op::Or, true) => self.cst(!0, pw),
                (Op::Xor, true) => { let y = self.extract(x, o as u32, pw); self.not(y) }
                _ => self.extract(x, o as u32, pw),
            };
            acc = Some(match acc { None => p, Some(l) => self.concat(p, l) });
        }
        acc
    }
    /// are the possibly-set bits of a and b disjoint (cheaply decided)?
    fn possible_bits(&self, e: Ex) -> u128 {
        let mut r = 0;
        for (o, s) in self.bounds(e) {
            let n = self.node(s);
            let m = if n.op == Op::Const { n.lo } else {
                let z = n.hi.leading_zeros();
                if z == 128 { 0 } else if z == 0 { !0 } else { (1u128 << (128 - z)) - 1 }
            };
            r |= (m & mask(n.w)) << o;
        }
        r
    }

    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let an = self.node(a).clone();
        let bn = self.node(b).clone();
        debug_assert!(an.w == bn.w, "width mismatch {:?} {} {}", op, an.w, bn.w);
        let w = an.w;
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        let (ca, cb) = (an.op == Op::Const, bn.op == Op::Const);
        if ca && cb { let v = eval_op(op, rw, w, an.lo, bn.lo); return self.cst(v, rw); }
        // distribute over ite/table with constant leaves
        if cb {
            if an.op == Op::Ite && (self.is_const(an.b) || self.is_const(an.c)) && (cmp || (self.is_const(an.b) && self.is_const(an.c))) {
                let x = self.bin(op, an.b, b);
                let y = self.bin(op, an.c, b);
                return self.ite(an.a, x, y);
            }
            if an.op == Op::Tab {
                let t: Vec<u128> = self.tabs[an.b as usize].iter().map(|v| eval_op(op, rw, w, *v, bn.lo)).collect();
                return self.tab(t, an.a, rw);
            }
        }
        if ca {
            if bn.op == Op::Ite && (self.is_const(bn.b) || self.is_const(bn.c)) && (cmp || (self.is_const(bn.b) && self.is_const(bn.c))) {
                let x = self.bin(op, a, bn.b);
                let y = self.bin(op, a, bn.c);
                return self.ite(bn.a, x, y);
            }
            if bn.op == Op::Tab {
                let t: Vec<u128> = self.tabs[bn.b as usize].iter().map(|v| eval_op(op, rw, w, an.lo, *v)).collect();
                return self.tab(t, bn.a, rw);
            }
        }
        match op {
            Op::And => {
                if a == b { return a; }
                if w == 1 {
                    if ca { return if an.lo == 1 { b } else { a }; }
                    if cb { return if bn.lo == 1 { a } else { b }; }
                    if an.op == Op::Not && an.a == b || bn.op == Op::Not && bn.a == a { return Self::FALSE; }
                }
                if let Some(r) = self.bitop(op, a, b) { return r; }
            }
            Op::Or => {
                if a == b { return a; }
                if w == 1 {
                    if ca { return if an.lo == 1 { a } else { b }; }
                    if cb { return if bn.lo == 1 { b } else { a }; }
                    if an.op == Op::Not && an.a == b || bn.op == Op::Not && bn.a == a { return Self::TRUE; }
                }
                if let Some(r) = self.bitop(op, a, b) { return r; }
            }
            Op::Xor => {
                if a == b { return self.cst(0, w); }
                if w == 1 {
                    if ca { return if an.lo == 1 { self.not(b) } else { b }; }
                    if cb { return if bn.lo == 1 { self.not(a) } else { a }; }
                }
                if let Some(r) = self.bitop(op, a, b) { return r; }
            }
            Op::Add => {
                if ca && an.lo == 0 { return b; }
                if cb && bn.lo == 0 { return a; }
                if ca { return self.bin(Op::Add, b, a); }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if cb {
                    if an.op == Op::Add && self.is_const(an.b) {
                        let k = self.bin(Op::Add, an.b, b);
                        return self.bin(Op::Add, an.a, k);
                    }
                    // (c - x) + k
                    if an.op == Op::Sub && self.is_const(an.a) {
                        let k = self.bin(Op::Add, an.a, b);
                        return self.bin(Op::Sub, k, an.b);
                    }
                } else {
                    // pull constants outwards
                    if an.op == Op::Add && self.is_const(an.b) {
                        let s = self.bin(Op::Add, an.a, b);
                        return self.bin(Op::Add, s, an.b);
                    }
                    if bn.op == Op::Add && self.is_const(bn.b) {
                        let s = self.bin(Op::Add, a, bn.a);
                        return self.bin(Op::Add, s, bn.b);
                    }
                    if bn.op == Op::Sub && bn.b == a { return bn.a; }
                    if an.op == Op::Sub && an.b == b { return an.a; }
                }
                if self.possible_bits(a) & self.possible_bits(b) == 0 { return self.bin(Op::Or, a, b); }
                // low zero bits of one operand: split the addition (keeps byte structure)
                if cb && an.op == Op::Concat {
                    let tz = bn.lo.trailing_zeros();
                    let cut = self.bounds(a).iter().map(|x| x.0).filter(|x| *x <= tz).max().unwrap_or(0) as u16;
                    if cut > 0 {
                        let h = self.extract(a, cut as u32, w - cut);
                        let l = self.extract(a, 0, cut);
                        let k = self.cst(bn.lo >> cut, w - cut);
                        let h = self.bin(Op::Add, h, k);
                        return self.concat(h, l);
                    }
                }
                if cb {
                    let tz = bn.lo.trailing_zeros() as u16;
                    if tz > 0 && tz < w && an.op == Op::Concat {
                        let lo = self.extract(a, 0, tz);
                        if self.is_const(lo) {
                            let ah = self.extract(a, tz as u32, w - tz);
                            let k = self.cst(bn.lo >> tz, w - tz);
                            let h = self.bin(Op::Add, ah, k);
                            return self.concat(h, lo);
                        }
                    }
                }
                // zero-extended operands whose sum cannot carry out: add narrow
                if let Some(r) = self.narrow(op, a, b) { return r; }
            }
            Op::Sub => {
                if a == b { return self.cst(0, w); }
                if cb {
                    let k = self.cst(bn.lo.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                // (x + k) - x, (x+k1)-(x+k2), (x+k)-y
                let split = |s: &Self, e: Ex| -> (Ex, u128) {
                    let n = s.node(e);
                    if n.op == Op::Add { if let Some(k) = s.cval(n.b) { return (n.a, k); } }
                    (e, 0)
                };
                let (xa, ka) = split(self, a);
                let (xb, kb) = split(self, b);
                if xa == xb { return self.cst(ka.wrapping_sub(kb), w); }
                if ka != 0 || kb != 0 {
                    let s = self.bin(Op::Sub, xa, xb);
                    let k = self.cst(ka.wrapping_sub(kb), w);
                    return self.bin(Op::Add, s, k);
                }
                if an.op == Op::Add { if an.a == b { return an.b; } if an.b == b { return an.a; } }
                if bn.op == Op::Sub && bn.a == a { return bn.b; }
                if ca && an.lo == 0 && w == 1 { return b; }
            }
            Op::Mul => {
                if ca { return self.bin(Op::Mul, b, a); }
                if cb {
                    if bn.lo == 0 { return b; }
                    if bn.lo == 1 { return a; }
                    if bn.lo.is_power_of_two() { let k = self.cst(bn.lo.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, k); }
                    if an.op == Op::Mul && self.is_const(an.b) {
                        let k = self.bin(Op::Mul, an.b, b);
                        return self.bin(Op::Mul, an.a, k);
                    }
                }
                if let Some(r) = self.narrow(op, a, b) { return r; }
            }
            Op::UDiv => {
                if cb {
                    if bn.lo == 1 { return a; }
                    if bn.lo.is_power_of_two() { let k = self.cst(bn.lo.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, k); }
                }
                if bn.lo > 0 && an.hi < bn.lo { return self.cst(0, w); }
                if let Some(r) = self.narrow(op, a, b) { return r; }
            }
            Op::URem => {
                if cb {
                    if bn.lo == 1 { return self.cst(0, w); }
                    if bn.lo.is_power_of_two() {
                        let k = self.cst(bn.lo - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                }
                if bn.lo > 0 && an.hi < bn.lo { return a; }
                if let Some(r) = self.narrow(op, a, b) { return r; }
            }
            Op::SDiv | Op::SRem => {
                let h = 1u128 << (w - 1);
                if an.hi < h && bn.hi < h { return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b); }
            }
            Op::Shl => {
                if cb {
                    let k = bn.lo;
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.cst(0, w); }
                    let l = self.cst(0, k as u16);
                    let h = self.extract(a, 0, w - k as u16);
                    return self.concat(h, l);
                }
                if ca && an.lo == 0 { return a; }
            }
            Op::LShr => {
                if cb {
                    let k = bn.lo;
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.cst(0, w); }
                    let h = self.extract(a, k as u32, w - k as u16);
                    return self.zext(h, w);
                }
                if ca && an.lo == 0 { return a; }
            }
            Op::AShr => {
                if an.hi < (1u128 << (w - 1)) { return self.bin(Op::LShr, a, b); }
                if cb {
                    let k = bn.lo.min(w as u128 - 1);
                    if k == 0 { return a; }
                    let h = self.extract(a, k as u32, w - k as u16);
                    return self.sext(h, w);
                }
            }
            Op::Eq => {
                if a == b { return Self::TRUE; }
                if an.hi < bn.lo || bn.hi < an.lo { return Self::FALSE; }
                if w == 1 {
                    if cb { return if bn.lo == 1 { a } else { self.not(a) }; }
                    if ca { return if an.lo == 1 { b } else { self.not(b) }; }
                    let nb = self.not(b);
                    return self.ite(a, b, nb);
                }
                if ca { return self.bin(Op::Eq, b, a); }
                if an.op == Op::Concat || bn.op == Op::Concat {
                    // compare piecewise at the union of boundaries
                    let (ba, bb) = (self.bounds(a), self.bounds(b));
                    let mut cuts: Vec<u32> = ba.iter().map(|x| x.0).chain(bb.iter().map(|x| x.0)).collect();
                    cuts.sort(); cuts.dedup(); cuts.push(w as u32);
                    if cb || cuts.len() <= ba.len().max(bb.len()) + 1 || cuts.len() < 20 {
                        let mut acc = Self::TRUE;
                        for i in (0..cuts.len() - 1).rev() {
                            let (o, pw) = (cuts[i], (cuts[i + 1] - cuts[i]) as u16);
                            let pa = self.extract(a, o, pw);
                            let pb = self.extract(b, o, pw);
                            let r = self.bin(Op::Eq, pa, pb);
                            if r == Self::FALSE { return r; }
                            acc = self.bin(Op::And, acc, r);
                        }
                        return acc;
                    }
                }
                if cb {
                    match an.op {
                        Op::Add if self.is_const(an.b) => { let k = self.bin(Op::Sub, b, an.b); return self.bin(Op::Eq, an.a, k); }
                        Op::Sub if self.is_const(an.a) => { let k = self.bin(Op::Sub, an.a, b); return self.bin(Op::Eq, an.b, k); }
                        Op::Sub if bn.lo == 0 => return self.bin(Op::Eq, an.a, an.b),
                        Op::Xor if self.is_const(an.b) => { let k = self.bin(Op::Xor, an.b, b); return self.bin(Op::Eq, an.a, k); }
                        Op::Xor if bn.lo == 0 => return self.bin(Op::Eq, an.a, an.b),
                        Op::Not => { let k = self.not(b); return self.bin(Op::Eq, an.a, k); }
                        Op::SExt => {
                            let aw = self.w(an.a);
                            let k = self.extract(b, 0, aw);
                            let back = self.sext(k, w);
                            if back != b { return Self::FALSE; }
                            return self.bin(Op::Eq, an.a, k);
                        }
                        Op::Or if bn.lo == 0 => {
                            let x = self.bin(Op::Eq, an.a, b);
                            let y = self.bin(Op::Eq, an.b, b);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                }
                if a > b { return self.mk(Op::Eq, 1, b, a, 0); }
            }
            Op::Ult => {
                if a == b { return Self::FALSE; }
                if an.hi < bn.lo { return Self::TRUE; }
                if an.lo >= bn.hi { return Self::FALSE; }
                if cb && bn.lo == 1 { let z = self.cst(0, w); return self.bin(Op::Eq, a, z); }
                if ca && an.lo == 0 { let z = self.cst(0, w); let e = self.bin(Op::Eq, b, z); return self.not(e); }
                if ca && an.lo == mask(w) - 1 { let z = self.cst(!0, w); return self.bin(Op::Eq, b, z); }
                if cb && bn.lo == mask(w) { let e = self.bin(Op::Eq, a, b); return self.not(e); }
                if let Some(r) = self.strip_cmp(op, a, b) { return r; }
            }
            Op::Ule => {
                if a == b { return Self::TRUE; }
                if an.hi <= bn.lo { return Self::TRUE; }
                if an.lo > bn.hi { return Self::FALSE; }
                // normalise to Ult
                let r = self.bin(Op::Ult, b, a);
                return self.not_raw(r);
            }
            Op::Slt | Op::Sle => {
                if a == b { return if op == Op::Sle { Self::TRUE } else { Self::FALSE }; }
                let h = 1u128 << (w - 1);
                let (apos, bpos) = (an.hi < h, bn.hi < h);
                let (aneg, bneg) = (an.lo >= h, bn.lo >= h);
                if (apos || aneg) && (bpos || bneg) {
                    if apos == bpos { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                    return if aneg { Self::TRUE } else { Self::FALSE };
                }
                // sign test
                if cb && ((op == Op::Slt && bn.lo == 0) || (op == Op::Sle && bn.lo == mask(w))) { return self.extract(a, w as u32 - 1, 1); }
                if ca && ((op == Op::Slt && an.lo == mask(w)) || (op == Op::Sle && an.lo == 0)) { let s = self.extract(b, w as u32 - 1, 1); return self.not(s); }
                if an.op == Op::SExt && bn.op == Op::SExt && self.w(an.a) == self.w(bn.a) { return self.bin(op, an.a, bn.a); }
            }
            _ => {}
        }
        // commutative normal order (constants to the right)
        if matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul) && (ca || (!cb && a > b)) {
            return self.mk(op, rw, b, a, 0);
        }
        self.mk(op, rw, a, b, 0)
    }
    fn not_raw(&mut self, e: Ex) -> Ex {
        // not() would turn Ult into Ule and loop; keep Not(Ult)
        if let Some(v) = self.cval(e) { return self.cst(v ^ 1, 1); }
        let n = self.node(e).clone();
        if n.op == Op::Not { return n.a; }
        if n.op == Op::Ult { return self.mk(Op::Ule, 1, n.b, n.a, 0); }
        self.not(e)
    }
    fn strip_cmp(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        // equal high parts (usually zeros) can be dropped; equal low parts too
        let w = self.w(a);
        let (an, bn) = (self.node(a).clone(), self.node(b).clone());
        let top = |s: &Self, n: &Node, e: Ex| -> Option<(Ex, u16)> {
            if n.op == Op::Concat { Some((n.a, s.w(n.a))) } else if n.op == Op::Const { Some((e, 0)) } else { None }
        };
        let (ta, tb) = (top(self, &an, a)?, top(self, &bn, b)?);
        let hw = match (ta.1, tb.1) { (0, x) => x, (x, 0) => x, (x, y) => x.min(y) };
        if hw == 0 || hw >= w { return None; }
        let ha = self.extract(a, (w - hw) as u32, hw);
        let hb = self.extract(b, (w - hw) as u32, hw);
        if ha == hb {
            let la = self.extract(a, 0, w - hw);
            let lb = self.extract(b, 0, w - hw);
            return Some(self.bin(op, la, lb));
        }
        None
    }
    fn narrow(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        // if both operands have a common run of leading zero bits and the result fits, operate narrow
        let w = self.w(a);
        if w < 16 { return None; }
        let (ah, bh) = (self.node(a).hi, self.node(b).hi);
        let r = match op {
            Op::Add => ah.checked_add(bh)?,
            Op::Mul => ah.checked_mul(bh)?,
            Op::UDiv | Op::URem => { if self.node(b).lo == 0 { return None; } ah.max(bh) }
            _ => return None,
        }.max(ah).max(bh);
        let need = (128 - r.leading_zeros()) as u16;
        let need = need.max(1);
        let nw = need.div_ceil(8) * 8;
        if nw + 8 > w { return None; }
        let x = self.extract(a, 0, nw);
        let y = self.extract(b, 0, nw);
        let z = self.bin(op, x, y);
        Some(self.zext(z, w))
    }
    /// operations without extra simplification (floating point etc.)
    pub fn fop(&mut self, op: Op, w: u16, a: Ex, b: Ex) -> Ex {
        let ca = self.cval(a);
        let cb = if b == 0 { Some(0) } else { self.cval(b) };
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = eval_op(op, w, self.w(a), x, y);
            return self.cst(v, w);
        }
        let e = self.mk(op, w, a, b, 0);
        e
    }

    // ---- evaluation ---------------------------------------------------------
    pub fn new_epoch(&mut self) {
        self.epoch += 1;
        if self.epoch == u32::MAX { self.memo.clear(); self.epoch = 1; }
    }
    /// evaluate under the current epoch's model (caller bumps the epoch when the model changes)
    pub fn eval(&mut self, e: Ex, model: &[u8]) -> u128 {
        if self.memo.len() < self.n.len() { self.memo.resize(self.n.len() + 1024, (0, 0)); }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.memo[x as usize].0 == self.epoch { stack.pop(); continue; }
            let n = &self.n[x as usize];
            let r;
            macro_rules! get { ($i:expr) => {{ let i = $i; let m = self.memo[i as usize]; if m.0 != self.epoch { stack.push(i); continue; } m.1 }} }
            match n.op {
                Op::Const => r = n.lo,
                Op::Sym => r = model.get(n.a as usize).copied().unwrap_or(0) as u128,
                Op::Concat => { let (h, l) = (n.a, n.b); let hv = get!(h); let lv = get!(l); r = hv << self.n[l as usize].w | lv; }
                Op::Extract => { let v = get!(n.a); r = (v >> n.b) & mask(n.w); }
                Op::Ite => { let c = get!(n.a); r = if c != 0 { get!(n.b) } else { get!(n.c) }; }
                Op::Tab => { let i = get!(n.a); r = self.tabs[n.b as usize].get(i as usize).copied().unwrap_or(0); }
                op => {
                    let a = get!(n.a);
                    let b = if n.b != 0 { get!(n.b) } else { 0 };
                    r = eval_op(op, n.w, self.n[n.a as usize].w, a, b);
                }
            }
            self.memo[x as usize] = (self.epoch, r);
            stack.pop();
        }
        self.memo[e as usize].1
    }
    pub fn show(&self, e: Ex, d: u32) -> String {
        let n = self.node(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.lo, n.w),
            Op::Sym => format!("b{}", n.a),
            _ if d == 0 => format!("#{}", e),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.b, n.w),
            Op::Tab => format!("tab{}[{}]", n.b, self.show(n.a, d - 1)),
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => if n.b != 0 { format!("{:?}({}, {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)) } else { format!("{:?}({})", n.op, self.show(n.a, d - 1)) },
        }
    }
}

/// randomised self-test of the simplifier against direct evaluation
pub fn selftest(iters: u32) {
    let mut s: u64 = 0x9E3779B97F4A7C15;
    let mut rnd = move || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    let mut a = Arena::new();
    let mut pool: Vec<(Ex, Vec<u128>)> = vec![];
    let models: Vec<Vec<u8>> = (0..8).map(|i| (0..8).map(|_| match i { 0 => 0, 1 => 255, 2 => (rnd() % 3) as u8, _ => rnd() as u8 }).collect()).collect();
    for k in 0..8u32 { let e = a.sym(k); pool.push((e, models.iter().map(|m| m[k as usize] as u128).collect())); }
    for it in 0..iters {
        if pool.len() > 400 { pool.truncate(8); }
        let (x, xv) = pool[rnd() as usize % pool.len()].clone();
        let w = a.w(x);
        let pick = |a: &mut Arena, pool: &Vec<(Ex, Vec<u128>)>, w: u16, r: &mut dyn FnMut() -> u64| -> (Ex, Vec<u128>) {
            for _ in 0..6 { let p = &pool[r() as usize % pool.len()]; if a.w(p.0) == w { return p.clone(); } }
            let v = match r() % 6 { 0 => 0, 1 => mask(w), 2 => 1, 3 => 1u128 << (r() % w as u64), 4 => (r() as u128) << (r() % 64), _ => r() as u128 & 0xff } & mask(w);
            (a.cst(v, w), vec![v; 8])
        };
        let (e, ev): (Ex, Vec<u128>) = match rnd() % 12 {
            0 => { let nw = 1 + (rnd() % w as u64) as u16; let off = rnd() as u32 % (w - nw + 1) as u32; (a.extract(x, off, nw), xv.iter().map(|v| (v >> off) & mask(nw)).collect()) }
            1 => { let (y, yv) = pool[rnd() as usize % pool.len()].clone(); if w + a.w(y) > 128 { continue; } let wy = a.w(y); (a.concat(x, y), xv.iter().zip(&yv).map(|(p, q)| p << wy | q).collect()) }
            2 => { let nw = w + (rnd() % 32) as u16; if nw > 128 { continue; } (a.sext(x, nw), xv.iter().map(|v| sx(*v, w) as u128 & mask(nw)).collect()) }
            3 => (a.not(x), xv.iter().map(|v| !v & mask(w)).collect()),
            4 => { let (y, yv) = pick(&mut a, &pool, w, &mut rnd); let (c, cv) = pick(&mut a, &pool, 1, &mut rnd); (a.ite(c, x, y), (0..8).map(|i| if cv[i] != 0 { xv[i] } else { yv[i] }).collect()) }
            5 => { let nw = w + (rnd() % 40) as u16; if nw > 128 { continue; } (a.zext(x, nw), xv) }
            6 if w <= 8 => { let t: Vec<u128> = (0..(1u32 << w)).map(|_| rnd() as u128 & 0xffff).collect(); let r = xv.iter().map(|v| t[*v as usize]).collect(); (a.tab(t, x, 16), r) }
            _ => {
                let ops = [Op::And, Op::Or, Op::Xor, Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
                let op = ops[rnd() as usize % ops.len()];
                let (mut y, mut yv) = pick(&mut a, &pool, w, &mut rnd);
                let (mut x, mut xv) = (x, xv);
                if rnd() % 2 == 0 { std::mem::swap(&mut x, &mut y); std::mem::swap(&mut xv, &mut yv); }
                let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
                (a.bin(op, x, y), xv.iter().zip(&yv).map(|(p, q)| eval_op(op, rw, w, *p, *q)).collect())
            }
        };
        for i in 0..8 {
            a.new_epoch();
            let v = a.eval(e, &models[i]);
            let n = a.node(e);
            if v != ev[i] || v < n.lo || v > n.hi { panic!("selftest mismatch at {}: got {:#x} want {:#x} [{:#x},{:#x}] {}", it, v, ev[i], n.lo, n.hi, a.show(e, 4)); }
        }
        pool.push((e, ev));
    }
    println!("selftest ok: {} expressions, {} nodes", iters, a.n.len());
}
