//! Symbolic execution of LLVM IR, one path at a time, with forking on feasible alternatives.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use crate::expr::Fx;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub blk: u32,
    pub prev: u32,
    pub ip: u32,
    pub dst: u32,
    pub normal: u32,
    pub stack: u32,
}
#[derive(Clone)]
struct Group { syms: SymSet, cs: Vec<Ex> }

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    groups: Rc<Vec<Rc<Group>>>,
    known: Rc<HashMap<Ex, u128, Fx>>,
    bounds: Rc<HashMap<Ex, (u128, u128), Fx>>,
    dom: Rc<HashMap<u32, [u64; 4], Fx>>,
    pub model: Rc<Vec<u8>>,
    model_id: u64,
    pub nsym: u32,
    pub steps: u64,
    pub reach: u128,
    pub forks: u32,
    pub alloc_limit: u64,
    pub errno: u64,
    pub notes: Vec<(u32, V)>,
    /// where this state was forked off
    site: u64,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    /// path cut by an assumption
    Assume,
    Violation { kind: String, what: String, loc: String },
    Incomplete(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub what: String, pub loc: String, pub stack: Vec<String>, pub model: Vec<u8>, pub steps: u64 }

#[derive(Clone, Copy, PartialEq, Debug)]
enum FKind { Normal, Panic, Utf8, Hash }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub assumed_away: u64,
    pub steps: u64,
    pub forks: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub unexplored: u64,
    pub max_steps: u64,
    pub checks: u64,
    pub decides: u64,
    pub max_forks: u32,
}

pub struct Exec {
    pub m: &'static Module,
    pub ar: &'static RefCell<Arena>,
    pub sv: Solver,
    gcache: HashMap<u32, Rc<Obj>>,
    fkind: Vec<Option<FKind>>,
    cur_model: u64,
    next_model: u64,
    pub pending: Vec<State>,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    vkeys: HashMap<String, u32>,
    pub samples: Vec<(u128, Vec<u8>, Vec<(u32, u64)>)>,
    pub reach_all: BTreeMap<u32, u64>,
    pub funcs: HashMap<u32, u64>,
    pub step_limit: u64,
    pub fork_sites: HashMap<(u32, u32, u32), u64>,
    pub profile: bool,
    pub debug: bool,
    pub max_samples: usize,
    recent: Vec<Rc<Vec<u8>>>,
    recent_at: usize,
    pub crosscheck: bool,
    pub split: bool,
    pub confirm_us: u64,
    pub quick_sat: u64,
    pub model_hits: u64,
    pub dom_decided: u64,
    pub utf8_stub: bool,
    pub fixed_model: Option<Vec<u8>>,
    pub utf8_calls: u64,
    pub mid: bool,
    site_runs: HashMap<u64, u32, Fx>,
    pub rng: u64,
}

fn popc(v: &V) -> Option<u64> { if let V::C(c) = v { Some(*c) } else { None } }

impl Exec {
    pub fn new(m: &'static Module, ar: &'static RefCell<Arena>, rlimit: u32) -> Self {
        let nf = m.funcs.len();
        Exec {
            m, ar, sv: Solver::new(rlimit), gcache: HashMap::new(), fkind: vec![None; nf], cur_model: 0, next_model: 1, pending: vec![],
            stats: Stats::default(), viols: vec![], vkeys: HashMap::new(), samples: vec![], reach_all: BTreeMap::new(), funcs: HashMap::new(),
            step_limit: 50_000_000, fork_sites: HashMap::new(), profile: false, debug: false, max_samples: 8, recent: vec![], recent_at: 0, crosscheck: false, split: false, confirm_us: 0, quick_sat: 0, model_hits: 0, dom_decided: 0, utf8_stub: true, fixed_model: None, utf8_calls: 0, mid: false, site_runs: HashMap::default(), rng: 1,
        }
    }
    pub fn start(&mut self, name: &str) -> State {
        let idx = *self.m.fmap.get(&self.m.resolve(name)).unwrap_or_else(|| panic!("harness {} not in module", name));
        let f = self.m.func(idx, self.ar);
        let mut mem = Mem::new(self.m.globals.len() as u32 + 64);
        let stack = if f.frame > 0 { let a = mem.alloc(Obj::new(f.frame, Kind::Stack)); (a >> 32) as u32 } else { 0 };
        *self.funcs.entry(idx).or_insert(0) += 1;
        let id = self.next_model;
        self.next_model += 1;
        State {
            cur: Frame { regs: vec![V::C(0); f.nregs as usize], f, blk: 0, prev: 0, ip: 0, dst: 0, normal: u32::MAX, stack },
            stack: vec![], mem, groups: Rc::new(vec![]), known: Rc::new(HashMap::default()), bounds: Rc::new(HashMap::default()), dom: Rc::new(HashMap::default()),
            model: Rc::new(vec![]), model_id: id, nsym: 0, steps: 0, reach: 0, forks: 0, alloc_limit: 0, errno: 0, notes: vec![], site: 0,
        }
    }

    // ---- values ---------------------------------------------------------------
    #[inline]
    fn get(&self, st: &State, o: &Opnd) -> V {
        match o {
            Opnd::K(v) => v.clone(),
            Opnd::R(r) => match &st.cur.regs[*r as usize] {
                V::C(c) => V::C(*c),
                V::E(e) => self.norm(st, *e),
                a => a.clone(),
            },
        }
    }
    #[inline]
    fn norm(&self, st: &State, e: Ex) -> V {
        if let Some(&k) = st.known.get(&e) {
            let mut ar = self.ar.borrow_mut();
            let w = ar.w(e);
            return if w <= 64 { V::C(k as u64) } else { V::E(ar.cst(k, w)) };
        }
        if self.split {
            let (w, k) = { let ar = self.ar.borrow(); (ar.w(e), self.fixed(st, &ar, e, 5)) };
            if let (Some(k), true) = (k, w <= 64) { return V::C(k as u64); }
        }
        V::E(e)
    }
    /// the value of an expression whose parts have known values
    fn fixed(&self, st: &State, ar: &Arena, e: Ex, depth: u32) -> Option<u128> {
        let n = ar.node(e);
        if n.op == Op::Const { return Some(n.lo); }
        if let Some(&k) = st.known.get(&e) { return Some(k); }
        if depth == 0 { return None; }
        match n.op {
            Op::Add | Op::Sub | Op::Mul => {
                let x = self.fixed(st, ar, n.a, depth - 1)?;
                let y = self.fixed(st, ar, n.b, depth - 1)?;
                Some(match n.op { Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), _ => x.wrapping_mul(y) } & mask(n.w))
            }
            Op::Concat => {
                let x = self.fixed(st, ar, n.a, depth - 1)?;
                let y = self.fixed(st, ar, n.b, depth - 1)?;
                Some(x << ar.w(n.b) | y)
            }
            Op::Extract => Some(self.fixed(st, ar, n.a, depth - 1)? >> n.b & mask(n.w)),
            _ => None,
        }
    }
    #[inline]
    fn ex(&self, v: &V, w: u16) -> Ex {
        match v { V::C(c) => self.ar.borrow_mut().cst(*c as u128, w), V::E(e) => *e, V::A(_) => panic!("aggregate as scalar") }
    }
    #[inline]
    fn val(&self, e: Ex) -> V {
        let ar = self.ar.borrow();
        let n = ar.node(e);
        if n.op == Op::Const && n.w <= 64 { V::C(n.lo as u64) } else { V::E(e) }
    }
    fn eval(&mut self, st: &State, e: Ex) -> u128 {
        let mut ar = self.ar.borrow_mut();
        if self.cur_model != st.model_id { ar.new_epoch(); self.cur_model = st.model_id; }
        ar.eval(e, &st.model)
    }

    // ---- constraints ----------------------------------------------------------
    fn learn(&mut self, st: &mut State, e: Ex, v: u128) {
        let mut work = vec![(e, v)];
        let ar = self.ar;
        while let Some((e, v)) = work.pop() {
            let n = { let a = ar.borrow(); if a.is_const(e) { continue; } a.node(e).clone() };
            if st.known.contains_key(&e) { continue; }
            Rc::make_mut(&mut st.known).insert(e, v);
            if n.w == 1 {
                let sg = ar.borrow().single(e);
                if let Some(k) = sg {
                    let t = ar.borrow_mut().truth(e);
                    let d = st.dom.get(&k).copied().unwrap_or([!0; 4]);
                    let mut r = d;
                    for i in 0..4 { r[i] &= if v == 1 { t[i] } else { !t[i] }; }
                    if r != d {
                        Rc::make_mut(&mut st.dom).insert(k, r);
                        if r.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                            let b = (0..256u32).find(|i| r[*i as usize / 64] >> (i % 64) & 1 != 0).unwrap();
                            let se = ar.borrow_mut().sym(k);
                            work.push((se, b as u128));
                        }
                    }
                }
                let ne = ar.borrow_mut().not(e);
                if !ar.borrow().is_const(ne) { Rc::make_mut(&mut st.known).insert(ne, v ^ 1); }
                match n.op {
                    Op::And if v == 1 => { work.push((n.a, 1)); work.push((n.b, 1)); }
                    Op::Or if v == 0 => { work.push((n.a, 0)); work.push((n.b, 0)); }
                    Op::Not => work.push((n.a, v ^ 1)),
                    Op::Eq => {
                        let k = ar.borrow().cval(n.b);
                        if let Some(k) = k { if v == 1 { work.push((n.a, k)); } else if ar.borrow().w(n.a) == 1 { work.push((n.a, k ^ 1)); } else { self.exclude(st, n.a, k); } }
                    }
                    Op::Ult | Op::Ule => {
                        let (ka, kb) = { let a = ar.borrow(); (a.cval(n.a), a.cval(n.b)) };
                        if let Some(k) = kb {
                            let strict = n.op == Op::Ult;
                            if v == 1 { self.bound(st, n.a, 0, if strict { k.wrapping_sub(1) } else { k }); }
                            else { self.bound(st, n.a, if strict { k } else { k.wrapping_add(1) }, !0); }
                        } else if let Some(k) = ka {
                            let strict = n.op == Op::Ult;
                            if v == 1 { self.bound(st, n.b, if strict { k.wrapping_add(1) } else { k }, !0); }
                            else { self.bound(st, n.b, 0, if strict { k } else { k.wrapping_sub(1) }); }
                        }
                    }
                    _ => {}
                }
            } else {
                match n.op {
                    Op::Concat => { let wl = ar.borrow().w(n.b); work.push((n.a, v >> wl)); work.push((n.b, v & mask(wl))); }
                    Op::Ite => {
                        let (kb, kc) = { let a = ar.borrow(); (a.cval(n.b), a.cval(n.c)) };
                        if kb.is_some() && kb != Some(v) { work.push((n.a, 0)); work.push((n.c, v)); }
                        else if kc.is_some() && kc != Some(v) { work.push((n.a, 1)); work.push((n.b, v)); }
                    }
                    Op::SExt => { let wa = ar.borrow().w(n.a); work.push((n.a, v & mask(wa))); }
                    Op::Add | Op::Mul if self.split => {
                        let (ka, kb) = { let a = ar.borrow(); (a.cval(n.a), a.cval(n.b)) };
                        if let Some((k, o)) = ka.map(|k| (k, n.b)).or(kb.map(|k| (k, n.a))) {
                            if n.op == Op::Add { work.push((o, v.wrapping_sub(k) & mask(n.w))); }
                            else if k == mask(n.w) { work.push((o, v.wrapping_neg() & mask(n.w))); }
                        }
                    }
                    Op::Extract | Op::And if self.split => {
                        // what this says about a single input byte
                        let c = { let mut a = ar.borrow_mut(); if a.single(e).is_some() { let k = a.cst(v, n.w); Some(a.bin(Op::Eq, e, k)) } else { None } };
                        if let Some(c) = c { work.push((c, 1)); }
                    }
                    _ => {}
                }
            }
        }
    }
    fn exclude(&mut self, st: &mut State, e: Ex, k: u128) {
        let (lo, hi) = { let a = self.ar.borrow(); let n = a.node(e); st.bounds.get(&e).copied().unwrap_or((n.lo, n.hi)) };
        if lo == k && lo < hi { self.bound(st, e, lo + 1, hi); } else if hi == k && hi > lo { self.bound(st, e, lo, hi - 1); }
    }
    fn bound(&mut self, st: &mut State, e: Ex, lo: u128, hi: u128) {
        let (l, h, w, op, a, b) = { let ar = self.ar.borrow(); let n = ar.node(e); (n.lo, n.hi, n.w, n.op, n.a, n.b) };
        let (l0, h0) = st.bounds.get(&e).copied().unwrap_or((l, h));
        let (l2, h2) = (l0.max(lo), h0.min(hi & mask(w)));
        if l2 > h2 { return; }
        if (l2, h2) != (l0, h0) {
            Rc::make_mut(&mut st.bounds).insert(e, (l2, h2));
            // zero extensions share the bound
            if op == Op::Concat && self.ar.borrow().cval(a) == Some(0) { self.bound(st, b, l2, h2); }
        }
        if l2 == h2 && !st.known.contains_key(&e) { self.learn(st, e, l2); }
    }
    fn range(&self, st: &State, e: Ex) -> (u128, u128) {
        let ar = self.ar.borrow();
        let n = ar.node(e);
        let (mut l, mut h) = (n.lo, n.hi);
        if let Some(&(a, b)) = st.bounds.get(&e) { l = l.max(a); h = h.min(b); }
        if n.op == Op::Concat && ar.cval(n.a) == Some(0) {
            if let Some(&(a, b)) = st.bounds.get(&n.b) { l = l.max(a); h = h.min(b); }
        }
        (l, h)
    }
    /// value of a condition that already follows from what is recorded about the path
    fn quick(&self, st: &State, c: Ex) -> Option<bool> {
        let n = { let a = self.ar.borrow(); if let Some(v) = a.cval(c) { return Some(v != 0); } a.node(c).clone() };
        if let Some(&v) = st.known.get(&c) { return Some(v != 0); }
        match n.op {
            Op::Not => return self.quick(st, n.a).map(|x| !x),
            Op::And => {
                let x = self.quick(st, n.a);
                if x == Some(false) { return x; }
                let y = self.quick(st, n.b);
                if y == Some(false) { return y; }
                if x == Some(true) && y == Some(true) { return x; }
            }
            Op::Or => {
                let x = self.quick(st, n.a);
                if x == Some(true) { return x; }
                let y = self.quick(st, n.b);
                if y == Some(true) { return y; }
                if x == Some(false) && y == Some(false) { return x; }
            }
            Op::Ult | Op::Ule | Op::Eq => {
                let (al, ah) = self.range(st, n.a);
                let (bl, bh) = self.range(st, n.b);
                match n.op {
                    Op::Ult => { if ah < bl { return Some(true); } if al >= bh { return Some(false); } }
                    Op::Ule => { if ah <= bl { return Some(true); } if al > bh { return Some(false); } }
                    _ => { if ah < bl || bh < al { return Some(false); } }
                }
            }
            _ => {}
        }
        let sg = self.ar.borrow().single(c);
        if let Some(k) = sg {
            let t = self.ar.borrow_mut().truth(c);
            let d = st.dom.get(&k).copied().unwrap_or([!0; 4]);
            if (0..4).all(|i| d[i] & t[i] == 0) { return Some(false); }
            if (0..4).all(|i| d[i] & !t[i] == 0) { return Some(true); }
        }
        None
    }
    /// satisfiability of (path constraints && c)
    fn sat(&mut self, st: &State, c: Ex) -> Ans {
        let q = self.slice(st, c);
        let ar = self.ar;
        let sg = ar.borrow().single(c);
        if let Some(k) = sg {
            // the byte is constrained only by itself: its domain is exact
            let only = { let a = ar.borrow(); q.iter().all(|x| a.single(*x) == Some(k)) };
            if only {
                let t = ar.borrow_mut().truth(c);
                let d = st.dom.get(&k).copied().unwrap_or([!0; 4]);
                self.dom_decided += 1;
                return match (0..256usize).find(|i| (d[i / 64] & t[i / 64]) >> (i % 64) & 1 != 0) { Some(b) => Ans::Sat(vec![(k, b as u8)]), None => Ans::Unsat };
            }
        }
        let key = Solver::key(&q);
        if let Some(r) = self.sv.cached(&key) { return r; }
        // cheap candidates first: any model found by evaluation is a genuine one
        for t in 0..4u32 {
            if let Some(asg) = self.candidate(st, c, t) {
                let mut m = (*st.model).clone();
                for &(i, b) in &asg { if m.len() <= i as usize { m.resize(i as usize + 1, 0); } m[i as usize] = b; }
                if self.holds(&q, &m) { self.quick_sat += 1; let r = Ans::Sat(self.restrict(&q, &m)); self.sv.remember(key, r.clone()); return r; }
            } else { break; }
        }
        let rec = self.recent.clone();
        for m in rec.iter() {
            if self.holds(&q, m) {
                self.model_hits += 1;
                let r = Ans::Sat(self.restrict(&q, m));
                self.sv.remember(key, r.clone());
                return r;
            }
        }
        let a = ar.borrow();
        // constraints over the condition's own symbols only
        let cs = a.sets[a.node(c).ss as usize];
        let sub: Vec<Ex> = q.iter().copied().filter(|x| { let s = &a.sets[a.node(*x).ss as usize]; s.iter().zip(cs.iter()).all(|(p, r)| p & !r == 0) }).collect();
        if sub.len() < q.len() {
            if let Ans::Unsat = self.sv.check(&a, &sub) { return Ans::Unsat; }
        }
        let r = self.sv.check(&a, &q);
        drop(a);
        if let Ans::Sat(m) = &r {
            let mut full = (*st.model).clone();
            for &(i, b) in m { if full.len() <= i as usize { full.resize(i as usize + 1, 0); } full[i as usize] = b; }
            if !self.holds(&q, &full) {
                // log10 is an unconstrained value to the solver: its "unsat" holds, its models need not
                if self.sv.has_log { self.sv.unknown += 1; return Ans::Unknown; }
                panic!("solver model does not satisfy the query");
            }
            if self.recent.len() < 12 { self.recent.push(Rc::new(full)); } else { let k = self.recent_at % 12; self.recent[k] = Rc::new(full); self.recent_at += 1; }
        }
        r
    }
    fn restrict(&self, q: &[Ex], m: &[u8]) -> Vec<(u32, u8)> {
        let a = self.ar.borrow();
        let mut s = [0u64; SSW];
        for x in q { for (p, r) in s.iter_mut().zip(a.sets[a.node(*x).ss as usize].iter()) { *p |= *r; } }
        let mut out = vec![];
        for i in 0..MAXSYM { if s[i / 64] >> (i % 64) & 1 != 0 { out.push((i as u32, m.get(i).copied().unwrap_or(0))); } }
        out
    }
    fn holds(&mut self, q: &[Ex], m: &[u8]) -> bool {
        let mut ar = self.ar.borrow_mut();
        ar.new_epoch();
        self.cur_model = 0;
        q.iter().all(|x| ar.eval(*x, m) != 0)
    }
    /// byte assignment making a (nearly) concrete-shaped expression equal to a value
    fn assign(&self, e: Ex, v: u128, out: &mut Vec<(u32, u8)>, m: &[u8]) -> bool {
        let a = self.ar.borrow();
        let mut sg = vec![];
        a.segs(e, &mut sg);
        let mut o = 0u32;
        for s in sg {
            let n = a.node(s);
            let part = (v >> o) & mask(n.w);
            o += n.w as u32;
            match n.op {
                Op::Const => if n.lo != part { return false; },
                Op::Sym => { out.retain(|x| x.0 != n.a); out.push((n.a, part as u8)); }
                Op::Extract if a.node(n.a).op == Op::Sym => {
                    let k = a.node(n.a).a;
                    let cur = out.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(m.get(k as usize).copied().unwrap_or(0));
                    let msk = (mask(n.w) << n.b) as u8;
                    out.retain(|x| x.0 != k);
                    out.push((k, (cur & !msk) | ((part << n.b) as u8 & msk)));
                }
                _ => return false,
            }
        }
        true
    }
    fn candidate(&mut self, st: &State, c: Ex, t: u32) -> Option<Vec<(u32, u8)>> {
        let mut out: Vec<(u32, u8)> = vec![];
        let mut work = vec![(c, true)];
        let mut varied = false;
        while let Some((e, pos)) = work.pop() {
            let n = self.ar.borrow().node(e).clone();
            match n.op {
                Op::Not => { work.push((n.a, !pos)); continue; }
                Op::And if pos => { work.push((n.a, true)); work.push((n.b, true)); continue; }
                Op::Or if !pos => { work.push((n.a, false)); work.push((n.b, false)); continue; }
                Op::And | Op::Or => { varied = true; work.push((if t & 1 == 0 { n.a } else { n.b }, pos)); continue; }
                _ => {}
            }
            let sg = self.ar.borrow().single(e);
            if let Some(k) = sg {
                let tr = self.ar.borrow_mut().truth(e);
                let d = st.dom.get(&k).copied().unwrap_or([!0; 4]);
                let ok = |i: &usize| (d[i / 64] & (if pos { tr[i / 64] } else { !tr[i / 64] })) >> (i % 64) & 1 != 0;
                let b = if t & 1 == 0 { (0..256usize).find(ok) } else { (0..256usize).rev().find(ok) }?;
                varied = true;
                out.retain(|x| x.0 != k);
                out.push((k, b as u8));
                continue;
            }
            let (ka, kb) = { let a = self.ar.borrow(); (if n.op == Op::Const { None } else { a.cval(n.a) }, if n.b != 0 { a.cval(n.b) } else { None }) };
            let m = st.model.clone();
            match n.op {
                Op::Eq if kb.is_some() => {
                    let k = kb.unwrap();
                    let w = self.ar.borrow().w(n.a);
                    let v = if pos { k } else { varied = true; match t { 0 => 0, 1 => mask(w), 2 => k ^ 1, _ => k.wrapping_add(1) & mask(w) } };
                    if !self.assign(n.a, v, &mut out, &m) { return None; }
                }
                Op::Ult | Op::Ule if ka.is_some() || kb.is_some() => {
                    varied = true;
                    let (x, k, less) = if let Some(k) = kb { (n.a, k, pos) } else { (n.b, ka.unwrap(), !pos) };
                    let w = self.ar.borrow().w(x);
                    let v = if less { match t { 0 => 0, 1 => k.saturating_sub(1), 2 => k, _ => 1 } } else { match t { 0 => mask(w), 1 => k.saturating_add(1).min(mask(w)), 2 => k, _ => mask(w) >> 1 } };
                    // respect constant zero padding
                    let (lo, hi) = { let a = self.ar.borrow(); let nd = a.node(x); (nd.lo, nd.hi) };
                    if !self.assign(x, v.clamp(lo, hi), &mut out, &m) { return None; }
                }
                _ => return None,
            }
        }
        if t > 0 && !varied { return None; }
        Some(out)
    }
    fn slice(&self, st: &State, c: Ex) -> Vec<Ex> {
        let ar = self.ar.borrow();
        let s = &ar.sets[ar.node(c).ss as usize];
        let mut r = vec![c];
        for g in st.groups.iter() {
            if g.syms.iter().zip(s.iter()).any(|(x, y)| x & y != 0) { r.extend_from_slice(&g.cs); }
        }
        r
    }
    fn add(&mut self, st: &mut State, c: Ex) {
        {
            let ar = self.ar.borrow();
            if ar.is_const(c) { return; }
            let s = ar.sets[ar.node(c).ss as usize];
            let gs = Rc::make_mut(&mut st.groups);
            let mut merged = Group { syms: s, cs: vec![c] };
            gs.retain(|g| {
                if g.syms.iter().zip(s.iter()).any(|(x, y)| x & y != 0) {
                    for (x, y) in merged.syms.iter_mut().zip(g.syms.iter()) { *x |= *y; }
                    merged.cs.extend_from_slice(&g.cs);
                    false
                } else { true }
            });
            gs.push(Rc::new(merged));
        }
        self.learn(st, c, 1);
    }
    fn set_model(&mut self, st: &mut State, m: &[(u32, u8)]) {
        let v = Rc::make_mut(&mut st.model);
        for &(i, b) in m { if v.len() <= i as usize { v.resize(i as usize + 1, 0); } v[i as usize] = b; }
        st.model_id = self.next_model;
        self.next_model += 1;
    }
    /// an assertion that value sets decided is put to the solver as well (within the time set aside for it)
    fn confirm(&mut self, st: &mut State, e: Ex) {
        if self.confirm_us == 0 || self.ar.borrow().is_const(e) { return; }
        let ne = self.ar.borrow_mut().not(e);
        let q = self.slice(st, ne);
        let us = self.sv.micros;
        let a = self.ar.borrow();
        let unk = self.sv.unknown;
        if let Ans::Sat(_) = self.sv.check_plain(&a, &q) { panic!("the solver contradicts an assertion decided by value sets"); }
        self.sv.unknown = unk;
        self.confirm_us = self.confirm_us.saturating_sub(self.sv.micros - us);
    }
    /// decide a condition on this path; the other feasible side is queued (it re-executes the instruction)
    fn decide(&mut self, st: &mut State, c: Ex) -> bool {
        if let Some(b) = self.quick(st, c) {
            if self.crosscheck && !self.ar.borrow().is_const(c) {
                let other = if b { self.ar.borrow_mut().not(c) } else { c };
                let q = self.slice(st, other);
                let a = self.ar.borrow();
                if let Ans::Sat(_) = self.sv.check_plain(&a, &q) { panic!("crosscheck: quick decision is wrong"); }
            }
            return b;
        }
        self.stats.decides += 1;
        if self.crosscheck {
            let all: Vec<Ex> = st.groups.iter().flat_map(|g| g.cs.iter().copied()).collect();
            let m = st.model.clone();
            if !self.holds(&all, &m) { panic!("crosscheck: the model of a path contradicts its constraints"); }
        }
        let v = self.eval(st, c) != 0;
        let nc = self.ar.borrow_mut().not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        let ans = self.sat(st, other);
        if self.crosscheck {
            let q = self.slice(st, other);
            let a = self.ar.borrow();
            let z = self.sv.check_plain(&a, &q);
            if matches!((&ans, &z), (Ans::Sat(_), Ans::Unsat) | (Ans::Unsat, Ans::Sat(_))) { panic!("crosscheck: {:?} vs {:?}", ans, z); }
        }
        match ans {
            Ans::Sat(m) => {
                let mut sib = st.clone();
                sib.forks += 1;
                st.forks += 1;
                self.stats.forks += 1;
                if self.profile { *self.fork_sites.entry((st.cur.f.idx, st.cur.blk, st.cur.ip)).or_insert(0) += 1; }
                sib.site = ((st.cur.f.idx as u64) << 40 | (st.cur.blk as u64) << 20 | (st.cur.ip as u64)) << 1 | v as u64;
                self.set_model(&mut sib, &m);
                self.add(&mut sib, other);
                self.pending.push(sib);
                self.add(st, mine);
            }
            Ans::Unsat => self.learn(st, mine, 1),
            Ans::Unknown => {
                let k = format!("solver gave no answer for a condition in {}", self.place(st));
                *self.stats.incomplete.entry(k).or_insert(0) += 1;
                self.add(st, mine);
            }
        }
        v
    }
    /// the innermost function of the code under test
    fn place(&self, st: &State) -> String {
        let bt = self.backtrace(st);
        bt.iter().find(|f| f.contains("lofty") || f.contains("ogg_pager") || f.contains("lofh")).or(bt.first()).cloned().unwrap_or_default()
    }
    fn conc(&mut self, st: &mut State, v: &V) -> u64 {
        match v {
            V::C(c) => *c,
            V::E(e) => {
                if let Some(&k) = st.known.get(e) { return k as u64; }
                let x = self.eval(st, *e);
                let c = { let mut ar = self.ar.borrow_mut(); let w = ar.w(*e); let k = ar.cst(x, w); ar.bin(Op::Eq, *e, k) };
                self.decide(st, c);
                x as u64
            }
            V::A(_) => panic!("concretise aggregate"),
        }
    }
    fn assume(&mut self, st: &mut State, c: Ex) -> R<()> {
        match self.quick(st, c) { Some(true) => return Ok(()), Some(false) => return Err(Stop::Assume), None => {} }
        if self.eval(st, c) == 0 {
            let ans = self.sat(st, c);
            match ans {
                Ans::Sat(m) => self.set_model(st, &m),
                Ans::Unsat => return Err(Stop::Assume),
                Ans::Unknown => return Err(Stop::Incomplete("solver gave no answer for an assumption".into())),
            }
        }
        self.add(st, c);
        Ok(())
    }

    // ---- memory ---------------------------------------------------------------
    fn obj(&mut self, st: &State, id: u32) -> Option<Rc<Obj>> {
        if let Some(o) = st.mem.get(id) { return Some(o.clone()); }
        if id >= 1 && (id as usize) <= self.m.globals.len() {
            if let Some(o) = self.gcache.get(&id) { return Some(o.clone()); }
            let g = &self.m.globals[id as usize - 1];
            let mut o = Obj::new(g.ty.size(), if g.constant { Kind::Const } else { Kind::Global });
            let v = self.m.global_init(g, self.ar);
            write_const(&mut o, 0, &g.ty, &v, &self.ar.borrow());
            let n = o.size as usize;
            o.ensure(n);
            let o = Rc::new(o);
            self.gcache.insert(id, o.clone());
            return Some(o);
        }
        None
    }
    fn merr<T>(&self, what: &str, a: u64) -> R<T> { Err(Stop::Violation { kind: "memory".into(), what: format!("{} at {:#x}", what, a), loc: String::new() }) }
    /// resolve an address to (object id, offset), checking n bytes are in bounds
    fn locate(&mut self, st: &mut State, a: u64, n: u64) -> R<(u32, u64)> {
        let id = (a >> 32) as u32;
        let off = (a & 0xffff_ffff).wrapping_sub(OBJ_OFF);
        let Some(o) = self.obj(st, id) else { return self.merr("invalid access", a) };
        if off > 0xf000_0000 || off + n > o.size { return self.merr(if o.kind == Kind::Freed { "use after free" } else { "out of bounds access" }, a); }
        if o.size_e != 0 {
            let c = { let mut ar = self.ar.borrow_mut(); let k = ar.cst((off + n) as u128, 64); ar.bin(Op::Ule, k, o.size_e) };
            if !self.decide(st, c) { return self.merr("out of bounds access", a); }
        }
        Ok((id, off))
    }
    fn wobj<'a>(&mut self, st: &'a mut State, id: u32) -> &'a mut Obj {
        if st.mem.get(id).is_none() { let o = self.obj(st, id).unwrap(); st.mem.put(id, o); }
        st.mem.get_mut(id).unwrap()
    }
    fn load_int(&mut self, st: &State, o: &Obj, off: u64, w: u16) -> V {
        let n = (w as usize).div_ceil(8);
        if !o.has_sym(off as usize, n) {
            if n <= 8 { return V::C(o.read_le(off as usize, n) & mask(w) as u64); }
            let lo = o.read_le(off as usize, 8) as u128;
            let hi = o.read_le(off as usize + 8, n - 8) as u128;
            return V::E(self.ar.borrow_mut().cst(hi << 64 | lo, w));
        }
        let mut e: Ex = 0;
        let mut ar = self.ar.borrow_mut();
        // a value stored as a whole is loaded as a whole
        if n > 1 && n <= 8 {
            if let Some((k, x)) = (0..n).rev().map(|k| (k, o.get(off as usize + k).1)).find(|x| x.1 != 0) {
                let nd = ar.node(x).clone();
                if k > 0 && nd.op == Op::Extract && nd.w == 8 && nd.b == 8 * k as u32 {
                    let base = nd.a;
                    let bw = ar.w(base) as usize;
                    let mut same = bw >= 8 * (k + 1);
                    let mut i = 0;
                    while same && i < n {
                        let (b, x) = o.get(off as usize + i);
                        let want = if 8 * i + 8 <= bw { ar.extract(base, 8 * i as u32, 8) } else if 8 * i >= bw { ar.cst(0, 8) } else { 0 };
                        let got = if x == 0 { ar.cst(b as u128, 8) } else { x };
                        same = want == got;
                        i += 1;
                    }
                    if same {
                        let f = if bw <= 8 * n { ar.zext(base, 8 * n as u16) } else { ar.extract(base, 0, 8 * n as u16) };
                        let e = ar.extract(f, 0, w);
                        drop(ar);
                        return match self.val(e) { V::E(e) => self.norm(st, e), v => v };
                    }
                }
            }
        }
        for k in 0..n {
            let (b, x) = o.get(off as usize + k);
            let p = if x == 0 { ar.cst(b as u128, 8) } else if let Some(&v) = st.known.get(&x) { ar.cst(v, 8) } else { x };
            e = if e == 0 { p } else { ar.concat(p, e) };
        }
        let e = ar.extract(e, 0, w);
        drop(ar);
        match self.val(e) { V::E(e) => self.norm(st, e), v => v }
    }
    fn load_ty(&mut self, st: &State, o: &Obj, off: u64, ty: &Ty) -> V {
        match ty {
            Ty::I(_) | Ty::Ptr | Ty::F(_) => self.load_int(st, o, off, ty.bits()),
            Ty::Vec(n, t) if **t == Ty::I(1) => {
                let v = self.load_int(st, o, off, *n as u16);
                self.int_to_lanes(&v, *n as u16, 1, *n)
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => { let s = t.size(); V::A(Rc::new((0..*n).map(|i| self.load_ty(st, o, off + i * s, t)).collect())) }
            Ty::St(f, _) => V::A(Rc::new((0..f.len()).map(|i| self.load_ty(st, o, off + ty.field_off(i), &f[i])).collect())),
            t => panic!("load {:?}", t),
        }
    }
    fn load(&mut self, st: &mut State, ty: &Ty, p: &V) -> R<V> {
        let n = ty.store_size();
        if n == 0 { return Ok(zero_of(ty)); }
        let a = match p {
            V::C(a) => *a,
            V::E(e) => {
                if let Some(v) = self.load_table(st, ty, *e)? { return Ok(v); }
                self.conc(st, p)
            }
            _ => panic!(),
        };
        let (id, off) = self.locate(st, a, n)?;
        let o = self.obj(st, id).unwrap();
        Ok(self.load_ty(st, &o, off, ty))
    }
    /// load at a symbolic address from an object with concrete contents: a table lookup
    fn load_table(&mut self, st: &mut State, ty: &Ty, e: Ex) -> R<Option<V>> {
        let w = match ty { Ty::I(w) => *w, Ty::Ptr => 64, Ty::F(w) => *w, _ => return Ok(None) };
        if w > 64 { return Ok(None); }
        let a = self.eval(st, e) as u64;
        let id = (a >> 32) as u32;
        let Some(o) = self.obj(st, id) else { return Ok(None) };
        if o.size_e != 0 || o.kind == Kind::Freed || o.kind == Kind::Stack && o.size > 4096 { return Ok(None); }
        let n = ty.store_size();
        let base = obj_base(id);
        let off = { let mut ar = self.ar.borrow_mut(); let b = ar.cst(base as u128, 64); ar.bin(Op::Sub, e, b) };
        if n > o.size { return Ok(None); }
        let (lo, hi, shift) = {
            let ar = self.ar.borrow();
            let nd = ar.node(off);
            let mut sg = vec![];
            ar.segs(off, &mut sg);
            let sh = if ar.cval(sg[0]) == Some(0) { ar.w(sg[0]) as u32 } else { 0 };
            (nd.lo as u64, nd.hi as u64, sh)
        };
        let _ = lo;
        let inb = { let mut ar = self.ar.borrow_mut(); let k = ar.cst((o.size - n) as u128, 64); ar.bin(Op::Ule, off, k) };
        let last = hi.min(o.size - n);
        let cnt = (last >> shift) + 1;
        if cnt > 8192 { return Ok(None); }
        if o.has_sym(0, (last + n) as usize) {
            return Ok(None);
        }
        if !self.decide(st, inb) { return Ok(None); }
        let sgn = (0..cnt).map(|i| o.read_le((i << shift) as usize, n as usize) as u128 & mask(w)).collect::<Vec<_>>();
        let idx = { let mut ar = self.ar.borrow_mut(); ar.extract(off, shift, 64 - shift as u16) };
        let r = { let mut ar = self.ar.borrow_mut(); ar.tab(sgn, idx, w) };
        Ok(Some(match self.val(r) { V::E(e) => self.norm(st, e), v => v }))
    }
    fn store_int(&mut self, o: &mut Obj, off: u64, w: u16, v: &V) {
        let n = (w as usize).div_ceil(8);
        match v {
            V::C(c) if n <= 8 => o.write_le(off as usize, n, *c),
            V::C(c) => { o.write_le(off as usize, 8, *c); for k in 8..n { o.set(off as usize + k, 0, 0); } }
            V::E(e) => {
                let mut ar = self.ar.borrow_mut();
                let e = ar.zext(*e, (n * 8) as u16);
                o.ensure(off as usize + n);
                for k in 0..n {
                    let b = ar.extract(e, 8 * k as u32, 8);
                    if let Some(c) = ar.cval(b) { o.set(off as usize + k, c as u8, 0); } else { o.set(off as usize + k, 0, b); }
                }
            }
            V::A(_) => panic!("store aggregate as int"),
        }
    }
    fn store_ty(&mut self, o: &mut Obj, off: u64, ty: &Ty, v: &V) {
        match (ty, v) {
            (Ty::I(_) | Ty::Ptr | Ty::F(_), v) => self.store_int(o, off, ty.bits(), v),
            (Ty::Vec(n, t), v) if **t == Ty::I(1) => { let x = self.lanes_to_int(v, 1); self.store_int(o, off, *n as u16, &x) }
            (Ty::Arr(_, t) | Ty::Vec(_, t), V::A(l)) => { let s = t.size(); for (i, x) in l.iter().enumerate() { self.store_ty(o, off + i as u64 * s, t, x); } }
            (Ty::St(f, _), V::A(l)) => for (i, x) in l.iter().enumerate() { self.store_ty(o, off + ty.field_off(i), &f[i], x); },
            (t, v) => panic!("store {:?} {:?}", t, v),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, p: &V) -> R<()> {
        let n = ty.store_size();
        if n == 0 { return Ok(()); }
        if let (V::E(e), V::C(c)) = (p, v) {
            if self.store_is_noop(st, *e, n, *c)? { return Ok(()); }
        }
        let a = self.conc(st, p);
        let (id, off) = self.locate(st, a, n)?;
        if self.obj(st, id).unwrap().kind == Kind::Const { return self.merr("write to constant", a); }
        // take the object out to keep the borrow checker happy
        let mut o = { let r = self.wobj(st, id); std::mem::replace(r, Obj::new(0, Kind::Heap)) };
        self.store_ty(&mut o, off, ty, v);
        *st.mem.get_mut(id).unwrap() = o;
        Ok(())
    }
    /// writing a value to an object that holds nothing else, at a symbolic (but in-bounds) offset
    fn store_is_noop(&mut self, st: &mut State, e: Ex, n: u64, c: u64) -> R<bool> {
        let b = c as u8;
        for k in 1..n { if (c >> (8 * k)) as u8 != b { return Ok(false); } }
        let a = self.eval(st, e) as u64;
        let id = (a >> 32) as u32;
        let Some(o) = self.obj(st, id) else { return Ok(false) };
        if o.kind != Kind::Heap || o.fill != b || o.bytes.iter().any(|&x| x != b) || o.sym.iter().any(|&x| x != 0) { return Ok(false); }
        self.sym_in_bounds(st, e, id, &o, n)
    }
    fn sym_in_bounds(&mut self, st: &mut State, e: Ex, id: u32, o: &Obj, n: u64) -> R<bool> {
        let c = {
            let mut ar = self.ar.borrow_mut();
            let base = ar.cst(obj_base(id) as u128, 64);
            let off = ar.bin(Op::Sub, e, base);
            let k = ar.cst(n as u128, 64);
            let end = ar.bin(Op::Add, off, k);
            let size = if o.size_e != 0 { o.size_e } else { ar.cst(o.size as u128, 64) };
            let x = ar.bin(Op::Ule, end, size);
            let y = ar.bin(Op::Ule, off, end);
            ar.bin(Op::And, x, y)
        };
        Ok(self.decide(st, c))
    }
    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, l: &V) -> R<()> {
        let n = self.conc(st, l);
        if n == 0 { return Ok(()); }
        let d = self.conc(st, d);
        let s = self.conc(st, s);
        let (si, so) = self.locate(st, s, n)?;
        let (di, dof) = self.locate(st, d, n)?;
        let src = self.obj(st, si).unwrap();
        if self.obj(st, di).unwrap().kind == Kind::Const { return self.merr("write to constant", d); }
        let (so, dof, n) = (so as usize, dof as usize, n as usize);
        let known = st.known.clone();
        let bytes: Vec<u8>;
        let mut syms: Vec<Ex> = vec![];
        if src.has_sym(so, n) {
            let mut bb = vec![0u8; n];
            syms = vec![0; n];
            for k in 0..n {
                let (b, e) = src.get(so + k);
                if e != 0 { if let Some(&v) = known.get(&e) { bb[k] = v as u8; } else { syms[k] = e; } } else { bb[k] = b; }
            }
            bytes = bb;
        } else if so + n <= src.bytes.len() { bytes = src.bytes[so..so + n].to_vec(); }
        else { bytes = (0..n).map(|k| src.get(so + k).0).collect(); }
        drop(src);
        let o = self.wobj(st, di);
        o.ensure(dof + n);
        o.bytes[dof..dof + n].copy_from_slice(&bytes);
        if syms.is_empty() { if !o.sym.is_empty() { o.sym[dof..dof + n].fill(0); } }
        else {
            if o.sym.is_empty() { o.sym = vec![0; o.bytes.len()]; }
            o.sym[dof..dof + n].copy_from_slice(&syms);
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: &V, b: &V, l: &V) -> R<()> {
        if let (V::E(le), V::C(bv)) = (l, b) {
            let bv = *bv as u8;
            // unresolved length: the object must already hold only that byte behind the start, or be filled from its start completely
            let de = self.ex(d, 64);
            let a = match d { V::C(a) => *a, V::E(e) => self.eval(st, *e) as u64, _ => panic!() };
            let id = (a >> 32) as u32;
            if let Some(o) = self.obj(st, id) {
                if o.kind == Kind::Heap {
                    let same = o.fill == bv && o.bytes.iter().all(|&x| x == bv) && o.sym.iter().all(|&x| x == 0);
                    let whole = !same && matches!(d, V::C(_)) && a == obj_base(id) && o.size_e == *le;
                    if same || whole {
                        let c = {
                            let mut ar = self.ar.borrow_mut();
                            let base = ar.cst(obj_base(id) as u128, 64);
                            let off = ar.bin(Op::Sub, de, base);
                            let end = ar.bin(Op::Add, off, *le);
                            let size = if o.size_e != 0 { o.size_e } else { ar.cst(o.size as u128, 64) };
                            let x = ar.bin(Op::Ule, end, size);
                            let y = ar.bin(Op::Ule, off, end);
                            ar.bin(Op::And, x, y)
                        };
                        if self.decide(st, c) {
                            if whole { let w = self.wobj(st, id); w.fill = bv; w.bytes.clear(); w.sym.clear(); }
                            return Ok(());
                        }
                        return self.merr("memset out of bounds", a);
                    }
                }
            }
        }
        let n = self.conc(st, l);
        if n == 0 { return Ok(()); }
        let d = self.conc(st, d);
        let (id, off) = self.locate(st, d, n)?;
        if self.obj(st, id).unwrap().kind == Kind::Const { return self.merr("write to constant", d); }
        let (bv, be) = match b { V::C(c) => (*c as u8, 0), V::E(e) => (0, *e), _ => panic!() };
        let o = self.wobj(st, id);
        if off == 0 && n == o.size && be == 0 { o.bytes.clear(); o.sym.clear(); o.fill = bv; return Ok(()); }
        o.ensure((off + n) as usize);
        o.bytes[off as usize..(off + n) as usize].fill(bv);
        if be != 0 && o.sym.is_empty() { o.sym = vec![0; o.bytes.len()]; }
        if !o.sym.is_empty() { o.sym[off as usize..(off + n) as usize].fill(be); }
        Ok(())
    }
    fn byte_ex(&mut self, st: &State, o: &Obj, i: usize) -> Ex {
        let (b, e) = o.get(i);
        if e == 0 { return self.ar.borrow_mut().cst(b as u128, 8); }
        if let Some(&v) = st.known.get(&e) { return self.ar.borrow_mut().cst(v, 8); }
        e
    }
    fn memcmp(&mut self, st: &mut State, a: &V, b: &V, l: &V, order: bool) -> R<V> {
        let n = self.conc(st, l);
        if n == 0 { return Ok(V::C(0)); }
        let a = self.conc(st, a);
        let b = self.conc(st, b);
        let (ai, ao) = self.locate(st, a, n)?;
        let (bi, bo) = self.locate(st, b, n)?;
        let x = self.obj(st, ai).unwrap();
        let y = self.obj(st, bi).unwrap();
        let mut r = self.ar.borrow_mut().cst(0, 32);
        if !order {
            let mut acc = Arena::TRUE;
            for k in 0..n as usize {
                let p = self.byte_ex(st, &x, ao as usize + k);
                let q = self.byte_ex(st, &y, bo as usize + k);
                let mut ar = self.ar.borrow_mut();
                let e = ar.bin(Op::Eq, p, q);
                acc = ar.bin(Op::And, acc, e);
                if acc == Arena::FALSE { break; }
            }
            let mut ar = self.ar.borrow_mut();
            let one = ar.cst(1, 32);
            r = ar.ite(acc, r, one);
        } else {
            for k in (0..n as usize).rev() {
                let p = self.byte_ex(st, &x, ao as usize + k);
                let q = self.byte_ex(st, &y, bo as usize + k);
                let mut ar = self.ar.borrow_mut();
                let e = ar.bin(Op::Eq, p, q);
                let lt = ar.bin(Op::Ult, p, q);
                let (m1, one) = (ar.cst(0xffff_ffff, 32), ar.cst(1, 32));
                let d = ar.ite(lt, m1, one);
                r = ar.ite(e, r, d);
            }
        }
        Ok(self.val(r))
    }
    fn malloc(&mut self, st: &mut State, n: &V, fill0: bool) -> R<V> {
        const LIM: u64 = 0xD000_0000;
        let _ = fill0;
        let e = self.ex(n, 64);
        if st.alloc_limit > 0 {
            let c = { let mut ar = self.ar.borrow_mut(); let k = ar.cst(st.alloc_limit as u128, 64); ar.bin(Op::Ule, e, k) };
            if !self.decide(st, c) {
                let v = self.eval(st, e);
                return Err(Stop::Violation { kind: "alloc".into(), what: format!("single allocation of {} bytes (limit {})", v, st.alloc_limit), loc: String::new() });
            }
        }
        match n {
            V::C(n) => {
                if *n > LIM { return Ok(V::C(0)); }
                Ok(V::C(st.mem.alloc(Obj::new(*n, Kind::Heap))))
            }
            _ => {
                let c = { let mut ar = self.ar.borrow_mut(); let k = ar.cst(LIM as u128, 64); ar.bin(Op::Ule, e, k) };
                if !self.decide(st, c) { return Ok(V::C(0)); }
                if let Some(&k) = st.known.get(&e) { return Ok(V::C(st.mem.alloc(Obj::new(k as u64, Kind::Heap)))); }
                let hi = self.range(st, e).1.min(LIM as u128) as u64;
                let mut o = Obj::new(hi, Kind::Heap);
                o.size_e = e;
                Ok(V::C(st.mem.alloc(o)))
            }
        }
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 { return Ok(()); }
        let id = (p >> 32) as u32;
        match st.mem.get(id) {
            Some(o) if o.kind == Kind::Heap && p == obj_base(id) => { st.mem.del(id); Ok(()) }
            _ => self.merr("invalid free", p),
        }
    }

    // ---- scalar operations ----------------------------------------------------
    fn bin(&mut self, b: Bin, ty: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vec(_, t) = ty {
            let (V::A(p), V::A(q)) = (x, y) else { panic!("vector op") };
            let mut r = Vec::with_capacity(p.len());
            for (u, v) in p.iter().zip(q.iter()) { r.push(self.bin(b, t, u, v)?); }
            return Ok(V::A(Rc::new(r)));
        }
        let w = ty.bits();
        if let (V::C(p), V::C(q)) = (x, y) {
            let (p, q) = (*p, *q);
            let m = mask(w) as u64;
            let r = match b {
                Bin::Add => p.wrapping_add(q), Bin::Sub => p.wrapping_sub(q), Bin::Mul => p.wrapping_mul(q),
                Bin::And => p & q, Bin::Or => p | q, Bin::Xor => p ^ q,
                Bin::Shl => if q >= w as u64 { 0 } else { p << q },
                Bin::LShr => if q >= w as u64 { 0 } else { p >> q },
                Bin::AShr => ((sx(p as u128, w) as i64) >> q.min(w as u64 - 1)) as u64,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if q == 0 => return self.merr("division by zero", 0),
                Bin::UDiv => p / q, Bin::URem => p % q,
                Bin::SDiv => eval_op(Op::SDiv, w, w, p as u128, q as u128) as u64,
                Bin::SRem => eval_op(Op::SRem, w, w, p as u128, q as u128) as u64,
                Bin::FAdd => eval_op(Op::FAdd, w, w, p as u128, q as u128) as u64,
                Bin::FSub => eval_op(Op::FSub, w, w, p as u128, q as u128) as u64,
                Bin::FMul => eval_op(Op::FMul, w, w, p as u128, q as u128) as u64,
                Bin::FDiv => eval_op(Op::FDiv, w, w, p as u128, q as u128) as u64,
                Bin::FRem => eval_op(Op::FRem, w, w, p as u128, q as u128) as u64,
            };
            return Ok(V::C(r & m));
        }
        let (p, q) = (self.ex(x, w), self.ex(y, w));
        let mut ar = self.ar.borrow_mut();
        let e = match b {
            Bin::Add => ar.bin(Op::Add, p, q), Bin::Sub => ar.bin(Op::Sub, p, q), Bin::Mul => ar.bin(Op::Mul, p, q),
            Bin::And => ar.bin(Op::And, p, q), Bin::Or => ar.bin(Op::Or, p, q), Bin::Xor => ar.bin(Op::Xor, p, q),
            Bin::Shl => ar.bin(Op::Shl, p, q), Bin::LShr => ar.bin(Op::LShr, p, q), Bin::AShr => ar.bin(Op::AShr, p, q),
            Bin::UDiv => ar.bin(Op::UDiv, p, q), Bin::URem => ar.bin(Op::URem, p, q),
            Bin::SDiv => ar.bin(Op::SDiv, p, q), Bin::SRem => ar.bin(Op::SRem, p, q),
            Bin::FAdd => ar.fop(Op::FAdd, w, p, q), Bin::FSub => ar.fop(Op::FSub, w, p, q), Bin::FMul => ar.fop(Op::FMul, w, p, q),
            Bin::FDiv => ar.fop(Op::FDiv, w, p, q), Bin::FRem => ar.fop(Op::FRem, w, p, q),
        };
        drop(ar);
        Ok(self.val(e))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, x: &V, y: &V) -> V {
        if let Ty::Vec(_, t) = ty {
            let (V::A(a), V::A(b)) = (x, y) else { panic!() };
            let r = a.iter().zip(b.iter()).map(|(u, v)| self.icmp(p, t, u, v)).collect();
            return V::A(Rc::new(r));
        }
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (x, y) {
            let (sa, sb) = (sx(*a as u128, w), sx(*b as u128, w));
            let r = match p { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb, Pred::Slt => sa < sb, Pred::Sle => sa <= sb };
            return V::C(r as u64);
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let mut ar = self.ar.borrow_mut();
        let e = match p {
            Pred::Eq => ar.bin(Op::Eq, a, b), Pred::Ne => { let e = ar.bin(Op::Eq, a, b); ar.not(e) }
            Pred::Ugt => ar.bin(Op::Ult, b, a), Pred::Uge => ar.bin(Op::Ule, b, a), Pred::Ult => ar.bin(Op::Ult, a, b), Pred::Ule => ar.bin(Op::Ule, a, b),
            Pred::Sgt => ar.bin(Op::Slt, b, a), Pred::Sge => ar.bin(Op::Sle, b, a), Pred::Slt => ar.bin(Op::Slt, a, b), Pred::Sle => ar.bin(Op::Sle, a, b),
        };
        drop(ar);
        self.val(e)
    }
    fn fcmp(&mut self, p: &str, ty: &Ty, x: &V, y: &V) -> V {
        if let Ty::Vec(_, t) = ty {
            let (V::A(a), V::A(b)) = (x, y) else { panic!() };
            let r = a.iter().zip(b.iter()).map(|(u, v)| self.fcmp(p, t, u, v)).collect();
            return V::A(Rc::new(r));
        }
        let w = ty.bits();
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let mut ar = self.ar.borrow_mut();
        let nan = { let u = ar.fop(Op::FIsNan, 1, a, 0); let v = ar.fop(Op::FIsNan, 1, b, 0); ar.bin(Op::Or, u, v) };
        let ord = |ar: &mut Arena, o: &str| match o {
            "eq" => ar.fop(Op::FCmpOeq, 1, a, b),
            "gt" => ar.fop(Op::FCmpOlt, 1, b, a),
            "ge" => ar.fop(Op::FCmpOle, 1, b, a),
            "lt" => ar.fop(Op::FCmpOlt, 1, a, b),
            "le" => ar.fop(Op::FCmpOle, 1, a, b),
            "ne" => { let e = ar.fop(Op::FCmpOeq, 1, a, b); let e = ar.not(e); let nn = ar.not(nan); ar.bin(Op::And, e, nn) }
            _ => panic!("fcmp"),
        };
        let e = match p {
            "true" => Arena::TRUE, "false" => Arena::FALSE,
            "uno" => nan, "ord" => ar.not(nan),
            _ if p.starts_with('o') => ord(&mut ar, &p[1..]),
            _ => { let o = ord(&mut ar, &p[1..]); ar.bin(Op::Or, o, nan) }
        };
        drop(ar);
        self.val(e)
    }
    fn lanes_to_int(&mut self, v: &V, w: u16) -> V {
        let V::A(l) = v else { panic!() };
        let tot = w as usize * l.len();
        if tot <= 64 && l.iter().all(|x| matches!(x, V::C(_))) {
            let mut r = 0u64;
            for x in l.iter().rev() { r = if w == 64 { 0 } else { r << w } | popc(x).unwrap(); }
            return V::C(r);
        }
        let mut e = 0;
        for x in l.iter() { let p = self.ex(x, w); e = if e == 0 { p } else { self.ar.borrow_mut().concat(p, e) }; }
        self.val(e)
    }
    fn int_to_lanes(&mut self, v: &V, tot: u16, w: u16, n: u64) -> V {
        let e = self.ex(v, tot);
        let mut r = vec![];
        for i in 0..n { let x = self.ar.borrow_mut().extract(e, (i * w as u64) as u32, w); r.push(self.val(x)); }
        V::A(Rc::new(r))
    }
    fn cast(&mut self, c: Cast, from: &Ty, to: &Ty, x: &V) -> V {
        if c == Cast::BitCast {
            return match (from, to) {
                (Ty::Vec(n, t), Ty::Vec(n2, t2)) => {
                    if n == n2 { return x.clone(); }
                    let (w, w2) = (t.bits(), t2.bits());
                    let tot = w as u64 * n;
                    if tot > 128 { panic!("bitcast too wide"); }
                    let i = self.lanes_to_int(x, w);
                    self.int_to_lanes(&i, tot as u16, w2, *n2)
                }
                (Ty::Vec(_, t), _) => self.lanes_to_int(x, t.bits()),
                (_, Ty::Vec(n, t)) => self.int_to_lanes(x, from.bits(), t.bits(), *n),
                _ => x.clone(),
            };
        }
        if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) {
            let V::A(l) = x else { panic!() };
            let r = l.iter().map(|v| self.cast(c, f, t, v)).collect();
            return V::A(Rc::new(r));
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let V::C(v) = x {
            match c {
                Cast::Trunc | Cast::PtrToInt | Cast::IntToPtr if tw <= 64 => return V::C(v & mask(tw) as u64),
                Cast::ZExt if tw <= 64 => return V::C(*v),
                Cast::SExt if tw <= 64 => return V::C((sx(*v as u128, fw) as u64) & mask(tw) as u64),
                _ => {}
            }
        }
        let e = self.ex(x, fw);
        let mut ar = self.ar.borrow_mut();
        let r = match c {
            Cast::Trunc => ar.trunc(e, tw),
            Cast::ZExt => ar.zext(e, tw),
            Cast::SExt => ar.sext(e, tw),
            Cast::PtrToInt | Cast::IntToPtr => if tw < fw { ar.trunc(e, tw) } else { ar.zext(e, tw) },
            Cast::FpToUi => ar.fop(Op::FpToUiSat, tw, e, 0),
            Cast::FpToSi => ar.fop(Op::FpToSiSat, tw, e, 0),
            Cast::UiToFp => ar.fop(Op::UiToFp, tw, e, 0),
            Cast::SiToFp => ar.fop(Op::SiToFp, tw, e, 0),
            Cast::FpExt => ar.fop(Op::FpExt, tw, e, 0),
            Cast::FpTrunc => ar.fop(Op::FpTrunc, tw, e, 0),
            Cast::BitCast => unreachable!(),
        };
        drop(ar);
        self.val(r)
    }
    /// a choice between sizes or positions that depends on several input bytes is taken as a decision
    fn splits(&self, c: Ex, w: u16) -> bool { self.split && w == 64 && self.ar.borrow().single(c).is_none() }
    fn select(&mut self, st: &mut State, ty: &Ty, c: &V, x: &V, y: &V, vc: bool) -> R<V> {
        if vc {
            let (V::A(cs), V::A(a), V::A(b), Ty::Vec(_, t)) = (c, x, y, ty) else { panic!() };
            let mut r = vec![];
            for i in 0..cs.len() { r.push(self.select(st, t, &cs[i], &a[i], &b[i], false)?); }
            return Ok(V::A(Rc::new(r)));
        }
        match c {
            V::C(k) => Ok(if *k & 1 != 0 { x.clone() } else { y.clone() }),
            V::E(ce) => {
                if let Some(b) = self.quick(st, *ce) { return Ok(if b { x.clone() } else { y.clone() }); }
                match ty {
                    Ty::I(_) | Ty::F(_) => {
                        let w = ty.bits();
                        if self.splits(*ce, w) { return Ok(if self.decide(st, *ce) { x.clone() } else { y.clone() }); }
                        let (p, q) = (self.ex(x, w), self.ex(y, w));
                        let e = self.ar.borrow_mut().ite(*ce, p, q);
                        Ok(self.val(e))
                    }
                    Ty::Vec(_, t) => {
                        let (V::A(a), V::A(b)) = (x, y) else { panic!() };
                        let mut r = vec![];
                        for i in 0..a.len() { r.push(self.select(st, t, c, &a[i], &b[i], false)?); }
                        Ok(V::A(Rc::new(r)))
                    }
                    // pointers and aggregates: take the decision now
                    _ => { if let (V::C(p), V::C(q)) = (x, y) { if p == q { return Ok(x.clone()); } } let b = self.decide(st, *ce); Ok(if b { x.clone() } else { y.clone() }) }
                }
            }
            _ => panic!(),
        }
    }

    // ---- control --------------------------------------------------------------
    fn goto(&mut self, st: &mut State, b: u32) {
        let f: *const Func = &*st.cur.f;
        let blk = unsafe { &(&(*f).blocks)[b as usize] };
        let from = st.cur.blk;
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let o = inc.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi without edge in {}", st.cur.f.pretty));
                vals.push((*d, self.get(st, &o.1)));
            }
            for (d, v) in vals { st.cur.regs[d as usize] = v; }
        }
        st.cur.prev = from;
        st.cur.blk = b;
        st.cur.ip = 0;
    }
    fn fkind(&mut self, idx: u32) -> FKind {
        if let Some(k) = self.fkind[idx as usize] { return k; }
        let n = &self.m.funcs[idx as usize].name;
        let pats = ["4core9panicking", "6option13unwrap_failed", "6option13expect_failed", "6result13unwrap_failed", "slice_index_fail", "slice_error_fail",
            "17capacity_overflow", "7raw_vec12handle_error", "18handle_alloc_error", "panic_already_", "3std9panicking11begin_panic", "3std7process5abort", "rust_panic",
            "begin_panic_handler", "slice5index24slice_", "14len_mismatch_fail", "___rust_alloc_error_handler"];
        let k = if pats.iter().any(|p| n.contains(p)) { FKind::Panic } else if self.utf8_stub && n.ends_with("3str8converts9from_utf8") { FKind::Utf8 } else if n.contains("11BuildHasher8hash_one") { FKind::Hash } else { FKind::Normal };
        self.fkind[idx as usize] = Some(k);
        k
    }
    fn cstr_at(&mut self, st: &State, p: u64, n: u64) -> Option<String> {
        if n > 4096 { return None; }
        let id = (p >> 32) as u32;
        let o = self.obj(st, id)?;
        let off = (p & 0xffff_ffff).wrapping_sub(OBJ_OFF);
        if off.checked_add(n)? > o.size { return None; }
        Some((0..n).map(|k| o.get((off + k) as usize).0 as char).collect())
    }
    fn location(&mut self, st: &State, args: &[V]) -> String {
        for a in args.iter().rev() {
            if let V::C(p) = a {
                let id = (p >> 32) as u32;
                if id == 0 || id as usize > self.m.globals.len() { continue; }
                let Some(o) = self.obj(st, id) else { continue };
                let off = (p & 0xffff_ffff).wrapping_sub(OBJ_OFF);
                if o.size < off + 24 { continue; }
                let (fp, fl) = (o.read_le(off as usize, 8), o.read_le(off as usize + 8, 8));
                let (ln, col) = (o.read_le(off as usize + 16, 4), o.read_le(off as usize + 20, 4));
                if let Some(s) = self.cstr_at(st, fp, fl.saturating_sub(0)) {
                    let s = s.trim_end_matches('\0').to_string();
                    if s.ends_with(".rs") { return format!("{}:{}:{}", s, ln, col); }
                }
            }
        }
        String::new()
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut r = vec![st.cur.f.pretty.to_string()];
        for f in st.stack.iter().rev() { r.push(f.f.pretty.to_string()); }
        r
    }
    fn call(&mut self, st: &mut State, idx: u32, args: Vec<V>, dst: u32, normal: u32) -> R<()> {
        if self.fkind(idx) == FKind::Panic {
            let what = self.m.funcs[idx as usize].pretty.to_string();
            let loc = self.location(st, &args);
            return Err(Stop::Violation { kind: "panic".into(), what, loc });
        }
        if self.fkind[idx as usize] == Some(FKind::Utf8) && args.len() == 3 && self.utf8(st, &args)? {
            self.finish_call(st, dst, normal, V::C(0));
            return Ok(());
        }
        // any function is a legal hasher; a constant one keeps table positions concrete for symbolic keys
        if self.fkind[idx as usize] == Some(FKind::Hash) { self.finish_call(st, dst, normal, V::C(0)); return Ok(()); }
        let f = self.m.func(idx, self.ar);
        *self.funcs.entry(idx).or_insert(0) += 1;
        if st.stack.len() > 2000 { return Err(Stop::Violation { kind: "stack".into(), what: "call depth over 2000".into(), loc: String::new() }); }
        let mut regs = args;
        regs.truncate(f.nparams as usize);
        regs.resize(f.nregs as usize, V::C(0));
        let stack = if f.frame > 0 { (st.mem.alloc(Obj::new(f.frame, Kind::Stack)) >> 32) as u32 } else { 0 };
        let nf = Frame { f, regs, blk: 0, prev: 0, ip: 0, dst, normal, stack };
        let old = std::mem::replace(&mut st.cur, nf);
        st.stack.push(Rc::new(old));
        Ok(())
    }
    /// `core::str::from_utf8` over symbolic bytes as one decision, instead of one fork per byte class.
    /// The result object is {0, ptr, len} or {1, valid_up_to, error_len as (tag, value)}; `selfcheck_utf8`
    /// in the harness crate compares it with the interpreted function.
    fn utf8(&mut self, st: &mut State, args: &[V]) -> R<bool> {
        let (V::C(out), V::C(p), n) = (&args[0], &args[1], self.conc(st, &args[2])) else { return Ok(false) };
        let (out, p, n) = (*out, *p, n as usize);
        if n == 0 || n > 256 { return Ok(false); }
        let (id, off) = self.locate(st, p, n as u64)?;
        let Some(o) = self.obj(st, id) else { return Ok(false) };
        if !o.has_sym(off as usize, n) { return Ok(false); }
        let b: Vec<Ex> = (0..n).map(|i| { let e = self.byte_ex(st, &o, off as usize + i); let v = self.norm(st, e); self.ex(&v, 8) }).collect();
        let ar = self.ar;
        let rng = |e: Ex, lo: u8, hi: u8| { let mut a = ar.borrow_mut(); let (l, d) = (a.cst(lo as u128, 8), a.cst((hi - lo) as u128, 8)); let x = a.bin(Op::Sub, e, l); a.bin(Op::Ule, x, d) };
        let and = |x: Ex, y: Ex| ar.borrow_mut().bin(Op::And, x, y);
        let or = |x: Ex, y: Ex| ar.borrow_mut().bin(Op::Or, x, y);
        let ite = |c: Ex, x: Ex, y: Ex| ar.borrow_mut().ite(c, x, y);
        let k = |v: usize, w: u16| ar.borrow_mut().cst(v as u128, w);
        let f = k(0, 1);
        // v[i]: the suffix from i is valid; u[i]: (valid_up_to << 8 | error code) of the suffix, code 4 = None
        let mut v = vec![k(1, 1); n + 1];
        let mut u = vec![k(n << 8, 24); n + 1];
        let err = |i: usize, c: usize| k(i << 8 | c, 24);
        for i in (0..n).rev() {
            let c: Vec<Option<Ex>> = (1..4).map(|j| b.get(i + j).map(|e| rng(*e, 0x80, 0xbf))).collect();
            let a1 = rng(b[i], 0, 0x7f);
            let mut val = and(a1, v[i + 1]);
            let mut uu = err(i, 1);
            // 4, 3, 2 byte forms: (lead range, second byte range)
            let forms: [(u8, u8, u8, u8, usize); 8] = [(0xc2, 0xdf, 0x80, 0xbf, 2), (0xe0, 0xe0, 0xa0, 0xbf, 3), (0xe1, 0xec, 0x80, 0xbf, 3), (0xed, 0xed, 0x80, 0x9f, 3), (0xee, 0xef, 0x80, 0xbf, 3), (0xf0, 0xf0, 0x90, 0xbf, 4), (0xf1, 0xf3, 0x80, 0xbf, 4), (0xf4, 0xf4, 0x80, 0x8f, 4)];
            for (l, h, l2, h2, len) in forms {
                let lead = rng(b[i], l, h);
                let mut ok = if i + len <= n { v[i + len] } else { f };
                let mut r = if i + len <= n { u[i + len] } else { f };
                for j in (1..len).rev() {
                    match b.get(i + j) {
                        None => { ok = f; r = err(i, 4); }
                        Some(e) => {
                            let good = if j == 1 { rng(*e, l2, h2) } else { c[j - 1].unwrap() };
                            ok = and(good, ok);
                            r = ite(good, r, err(i, j));
                        }
                    }
                }
                let t = and(lead, ok);
                val = or(val, t);
                uu = ite(lead, r, uu);
            }
            v[i] = val;
            u[i] = ite(a1, u[i + 1], uu);
        }
        self.utf8_calls += 1;
        if self.decide(st, v[0]) {
            self.store(st, &Ty::I(64), &V::C(0), &V::C(out))?;
            self.store(st, &Ty::I(64), &V::C(p), &V::C(out + 8))?;
            self.store(st, &Ty::I(64), &V::C(n as u64), &V::C(out + 16))?;
        } else {
            let (pos, tag, len) = { let mut a = ar.borrow_mut(); let q = a.extract(u[0], 8, 16); let c = a.extract(u[0], 0, 8); let four = a.cst(4, 8); let t = a.bin(Op::Eq, c, four); let t = a.not(t); (a.zext(q, 64), a.zext(t, 8), c) };
            let (pos, tag, len) = (self.val(pos), self.val(tag), self.val(len));
            self.store(st, &Ty::I(64), &V::C(1), &V::C(out))?;
            self.store(st, &Ty::I(64), &pos, &V::C(out + 8))?;
            self.store(st, &Ty::I(8), &tag, &V::C(out + 16))?;
            self.store(st, &Ty::I(8), &len, &V::C(out + 17))?;
        }
        Ok(true)
    }
    fn ret(&mut self, st: &mut State, v: V) -> R<()> {
        if st.cur.stack != 0 { st.mem.del(st.cur.stack); }
        let (dst, normal) = (st.cur.dst, st.cur.normal);
        let Some(fr) = st.stack.pop() else { return Err(Stop::Done) };
        st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
        self.finish_call(st, dst, normal, v);
        Ok(())
    }
    fn finish_call(&mut self, st: &mut State, dst: u32, normal: u32, v: V) {
        st.cur.regs[dst as usize] = v;
        if normal != u32::MAX { self.goto(st, normal); } else { st.cur.ip += 1; }
    }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        let f: *const Func = &*st.cur.f;
        let inst = unsafe { &(&(&(*f).blocks)[st.cur.blk as usize]).insts[st.cur.ip as usize] };
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.cur.regs[*$d as usize] = v; st.cur.ip += 1; }} }
        match inst {
            Inst::Bin(b, t, d, x, y) => { let x = self.get(st, x); let y = self.get(st, y); let v = self.bin(*b, t, &x, &y)?; set!(d, v) }
            Inst::ICmp(p, t, d, x, y) => { let x = self.get(st, x); let y = self.get(st, y); set!(d, self.icmp(*p, t, &x, &y)) }
            Inst::FCmp(p, t, d, x, y) => { let x = self.get(st, x); let y = self.get(st, y); set!(d, self.fcmp(p, t, &x, &y)) }
            Inst::FNeg(t, d, x) => {
                let x = self.get(st, x);
                let r = match (t, &x) {
                    (Ty::Vec(_, t), V::A(l)) => { let w = t.bits(); let k = V::C(1u64 << (w - 1)); let l = l.clone(); let mut r = vec![]; for v in l.iter() { r.push(self.bin(Bin::Xor, &Ty::I(w), v, &k)?); } V::A(Rc::new(r)) }
                    _ => { let w = t.bits(); self.bin(Bin::Xor, &Ty::I(w), &x, &V::C(1u64 << (w - 1)))? }
                };
                set!(d, r)
            }
            Inst::Cast(c, a, b, d, x) => { let x = self.get(st, x); set!(d, self.cast(*c, a, b, &x)) }
            Inst::Select(t, d, c, x, y, vc) => { let c = self.get(st, c); let x = self.get(st, x); let y = self.get(st, y); let v = self.select(st, t, &c, &x, &y, *vc)?; set!(d, v) }
            Inst::Load(t, d, p) => { let p = self.get(st, p); let v = self.load(st, t, &p)?; set!(d, v) }
            Inst::Store(t, v, p) => { let v = self.get_deep(st, v); let p = self.get(st, p); self.store(st, t, &v, &p)?; st.cur.ip += 1; }
            Inst::Alloca(d, _, off) => set!(d, V::C(obj_base(st.cur.stack) + *off)),
            Inst::Gep(d, b, k, vars) => {
                let base = self.get(st, b);
                let mut acc = match base { V::C(c) => V::C(c.wrapping_add(*k)), V::E(e) => { let mut ar = self.ar.borrow_mut(); let c = ar.cst(*k as u128, 64); let r = ar.bin(Op::Add, e, c); drop(ar); self.val(r) } _ => panic!("vector gep") };
                for (o, s, w) in vars.iter() {
                    let iv = self.get(st, o);
                    match (&acc, &iv) {
                        (V::C(a), V::C(i)) => acc = V::C(a.wrapping_add((sx(*i as u128, *w) as i64 as u64).wrapping_mul(*s))),
                        _ => {
                            let (a, i) = (self.ex(&acc, 64), self.ex(&iv, *w));
                            let mut ar = self.ar.borrow_mut();
                            let i = if *w < 64 { ar.sext(i, 64) } else if *w > 64 { ar.trunc(i, 64) } else { i };
                            let sc = ar.cst(*s as u128, 64);
                            let o = ar.bin(Op::Mul, i, sc);
                            let r = ar.bin(Op::Add, a, o);
                            drop(ar);
                            acc = self.val(r);
                        }
                    }
                }
                set!(d, acc)
            }
            Inst::ExtractValue(d, a, ix) => {
                let mut v = self.get(st, a);
                for i in ix.iter() { let V::A(l) = &v else { panic!() }; let t = l[*i as usize].clone(); v = t; }
                if let V::E(e) = v { v = self.norm(st, e); }
                set!(d, v)
            }
            Inst::InsertValue(d, _, a, x, ix) => {
                let a = self.get(st, a);
                let x = self.get(st, x);
                fn ins(a: &V, x: &V, ix: &[u32]) -> V {
                    if ix.is_empty() { return x.clone(); }
                    let V::A(l) = a else { panic!() };
                    let mut l = (**l).clone();
                    l[ix[0] as usize] = ins(&l[ix[0] as usize], x, &ix[1..]);
                    V::A(Rc::new(l))
                }
                set!(d, ins(&a, &x, ix))
            }
            Inst::ExtractElem(d, _, a, i) => {
                let a = self.get(st, a);
                let i = self.get(st, i);
                let i = self.conc(st, &i) as usize;
                let V::A(l) = a else { panic!() };
                let v = l.get(i).cloned().unwrap_or(V::C(0));
                set!(d, v)
            }
            Inst::InsertElem(d, _, a, x, i) => {
                let a = self.get(st, a);
                let x = self.get(st, x);
                let i = self.get(st, i);
                let i = self.conc(st, &i) as usize;
                let V::A(l) = a else { panic!() };
                let mut l = (*l).clone();
                l[i] = x;
                set!(d, V::A(Rc::new(l)))
            }
            Inst::Shuffle(d, _, a, b, m) => {
                let (V::A(a), V::A(b)) = (self.get(st, a), self.get(st, b)) else { panic!() };
                let n = a.len();
                let r = m.iter().map(|&i| if i < 0 { V::C(0) } else if (i as usize) < n { a[i as usize].clone() } else { b[i as usize - n].clone() }).collect();
                set!(d, V::A(Rc::new(r)))
            }
            Inst::Freeze(d, a) => { let v = self.get(st, a); set!(d, v) }
            Inst::Br(b) => self.goto(st, *b),
            Inst::CondBr(c, a, b) => {
                let c = self.get(st, c);
                let t = match c { V::C(k) => k & 1 != 0, V::E(e) => self.decide(st, e), _ => panic!() };
                self.goto(st, if t { *a } else { *b });
            }
            Inst::Switch(t, v, def, cases) => {
                let v = self.get(st, v);
                let tgt = match v {
                    V::C(c) => cases.iter().find(|x| x.0 == c as u128).map_or(*def, |x| x.1),
                    V::E(e) => {
                        let x = self.eval(st, e);
                        let tgt = cases.iter().find(|k| k.0 == x).map_or(*def, |k| k.1);
                        let c = {
                            let mut ar = self.ar.borrow_mut();
                            let w = t.bits();
                            let (lo, hi) = { let n = ar.node(e); (n.lo, n.hi) };
                            let mut acc = Arena::FALSE;
                            for (k, l) in cases.iter() {
                                if *k < lo || *k > hi { continue; }
                                if (*l == tgt) == (tgt != *def) {
                                    let kk = ar.cst(*k, w);
                                    let q = ar.bin(Op::Eq, e, kk);
                                    acc = ar.bin(Op::Or, acc, q);
                                }
                            }
                            if tgt == *def { ar.not(acc) } else { acc }
                        };
                        self.decide(st, c);
                        tgt
                    }
                    _ => panic!(),
                };
                self.goto(st, tgt);
            }
            Inst::Ret(v) => { let v = self.get(st, v); return self.ret(st, v); }
            Inst::RetVoid => return self.ret(st, V::C(0)),
            Inst::Call { dst, ty, callee, args, normal } => {
                match callee {
                    Callee::Fun(i) => {
                        let a: Vec<V> = args.iter().map(|x| self.get(st, &x.1)).collect();
                        return self.call(st, *i, a, *dst, *normal);
                    }
                    Callee::Ext(i) => {
                        let v = self.external(st, *i, ty, args)?;
                        self.finish_call(st, *dst, *normal, v);
                    }
                    Callee::Ind(o) => {
                        let o = self.get(st, o);
                        let p = self.conc(st, &o);
                        if p >= FN_BASE {
                            let a: Vec<V> = args.iter().map(|x| self.get(st, &x.1)).collect();
                            return self.call(st, ((p - FN_BASE) / 16) as u32, a, *dst, *normal);
                        }
                        if p >= EXT_BASE {
                            let v = self.external(st, ((p - EXT_BASE) / 16) as u32, ty, args)?;
                            self.finish_call(st, *dst, *normal, v);
                            return Ok(());
                        }
                        return self.merr("call through bad pointer", p);
                    }
                    Callee::Asm(s) => {
                        if !s.is_empty() { return Err(Stop::Incomplete(format!("inline asm {}", s))); }
                        // optimisation barrier (`black_box`): identity / no-op
                        let v = args.first().map(|x| self.get(st, &x.1)).unwrap_or(V::C(0));
                        self.finish_call(st, *dst, *normal, v);
                    }
                }
            }
            Inst::Rmw(o, t, d, a, v) => {
                let a = self.get(st, a);
                let v = self.get(st, v);
                let old = self.load(st, t, &a)?;
                let b = match o { Rmw::Add => Some(Bin::Add), Rmw::Sub => Some(Bin::Sub), Rmw::And => Some(Bin::And), Rmw::Or => Some(Bin::Or), Rmw::Xor => Some(Bin::Xor), _ => None };
                let n = match (b, o) {
                    (Some(b), _) => self.bin(b, t, &old, &v)?,
                    (_, Rmw::Xchg) => v,
                    _ => return Err(Stop::Incomplete(format!("atomicrmw {:?}", o))),
                };
                self.store(st, t, &n, &a)?;
                set!(d, old)
            }
            Inst::CmpXchg(t, d, a, c, n) => {
                let a = self.get(st, a);
                let c = self.get(st, c);
                let n = self.get(st, n);
                let old = self.load(st, t, &a)?;
                let eq = self.icmp(Pred::Eq, t, &old, &c);
                let ok = match eq { V::C(k) => k != 0, V::E(e) => self.decide(st, e), _ => panic!() };
                if ok { self.store(st, t, &n, &a)?; }
                set!(d, V::A(Rc::new(vec![old, V::C(ok as u64)])))
            }
            Inst::Unreachable => return Err(Stop::Violation { kind: "unreachable".into(), what: "unreachable executed".into(), loc: String::new() }),
            Inst::LandingPad(_) => return Err(Stop::Incomplete("landingpad".into())),
            Inst::Fence => st.cur.ip += 1,
            Inst::Unsupported(s) => return Err(Stop::Incomplete(format!("unsupported {}", s))),
        }
        Ok(())
    }
    /// operand with known facts applied inside aggregates as well
    fn get_deep(&self, st: &State, o: &Opnd) -> V { self.get(st, o) }

    // ---- externals --------------------------------------------------------------
    fn un_w(&mut self, name: &str, w: u16, x: &V, y: Option<&V>) -> V {
        // bit-counting style unary intrinsics on symbolic scalars
        let e = self.ex(x, w);
        let _ = y;
        let mut ar = self.ar.borrow_mut();
        let r = match name {
            "bswap" => {
                let mut acc = 0;
                for k in 0..w as u32 / 8 { let b = ar.extract(e, 8 * k, 8); acc = if acc == 0 { b } else { ar.concat(acc, b) }; }
                acc
            }
            "bitreverse" => {
                let mut acc = 0;
                for k in 0..w as u32 { let b = ar.extract(e, k, 1); acc = if acc == 0 { b } else { ar.concat(acc, b) }; }
                acc
            }
            "ctpop" => {
                let mut acc = ar.cst(0, w);
                for k in 0..w as u32 { let b = ar.extract(e, k, 1); let z = ar.zext(b, w); acc = ar.bin(Op::Add, acc, z); }
                acc
            }
            "cttz" | "ctlz" => {
                let mut acc = ar.cst(w as u128, w);
                for i in (0..w as u32).rev() {
                    let k = if name == "cttz" { i } else { w as u32 - 1 - i };
                    let b = ar.extract(e, k, 1);
                    let c = ar.cst(i as u128, w);
                    acc = ar.ite(b, c, acc);
                }
                acc
            }
            _ => panic!(),
        };
        drop(ar);
        self.val(r)
    }
    fn lanewise(&mut self, ty: &Ty, xs: &[V], f: &mut dyn FnMut(&mut Self, u16, &[V]) -> R<V>) -> R<V> {
        if let Ty::Vec(n, t) = ty {
            let w = t.bits();
            let mut r = vec![];
            for i in 0..*n as usize {
                let a: Vec<V> = xs.iter().map(|x| match x { V::A(l) => l[i].clone(), v => v.clone() }).collect();
                r.push(f(self, w, &a)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        f(self, ty.bits(), xs)
    }
    fn external(&mut self, st: &mut State, id: u32, ty: &Ty, args: &[(Ty, Opnd)]) -> R<V> {
        let name: Rc<str> = self.m.extv.borrow()[id as usize].clone();
        let a: Vec<V> = args.iter().map(|x| self.get(st, &x.1)).collect();
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(st, n, ty, args, a); }
        match &*name {
            "sym_bytes" => {
                let p = self.conc(st, &a[0]);
                let n = self.conc(st, &a[1]);
                if n == 0 { return Ok(V::C(0)); }
                let (oid, off) = self.locate(st, p, n)?;
                let syms: Vec<Ex> = (0..n as u32).map(|k| self.ar.borrow_mut().sym(st.nsym + k)).collect();
                st.nsym += n as u32;
                let need = st.nsym as usize;
                if st.model.len() < need { Rc::make_mut(&mut st.model).resize(need, 0); }
                let o = self.wobj(st, oid);
                for (k, e) in syms.iter().enumerate() { o.set(off as usize + k, 0, *e); }
                if let Some(m) = self.fixed_model.clone() {
                    // debugging: this input only
                    for k in 0..n as usize { let b = m.get(need - n as usize + k).copied().unwrap_or(0); let w = self.wobj(st, oid); w.write_le(off as usize + k, 1, b as u64); }
                }
                Ok(V::C(0))
            }
            "sym_assume" => { let e = self.ex(&a[0], 1); self.assume(st, e)?; Ok(V::C(0)) }
            "sym_check" => {
                let e = self.ex(&a[0], 1);
                self.stats.checks += 1;
                if !self.decide(st, e) {
                    let msg = if a.len() >= 3 { match (&a[1], &a[2]) { (V::C(p), V::C(n)) => self.cstr_at(st, *p, *n).unwrap_or_default(), _ => String::new() } } else { String::new() };
                    return Err(Stop::Violation { kind: "check".into(), what: msg, loc: String::new() });
                }
                self.confirm(st, e);
                Ok(V::C(0))
            }
            "sym_reach" => { if let V::C(k) = a[0] { if k < 128 { st.reach |= 1 << k; } } Ok(V::C(0)) }
            "sym_note" => { if let V::C(k) = &a[0] { if st.notes.len() < 64 { st.notes.push((*k as u32, a[1].clone())); } } Ok(V::C(0)) }
            "sym_concretize" => { let v = self.conc(st, &a[0]); Ok(V::C(v)) }
            "sym_decide" => { let e = self.ex(&a[0], 1); Ok(V::C(self.decide(st, e) as u64)) }
            "sym_is_symbolic" => Ok(V::C(1)),
            "sym_alloc_limit" => { st.alloc_limit = self.conc(st, &a[0]); Ok(V::C(0)) }
            "sym_print" => { if self.debug { eprintln!("sym_print {}", match &a[0] { V::C(c) => format!("{:#x}", c), V::E(e) => self.ar.borrow().show(*e, 6), _ => "agg".into() }); } Ok(V::C(0)) }
            "sym_stop" => Err(Stop::Done),
            "malloc" => self.malloc(st, &a[0], false),
            "calloc" => {
                let n = match (&a[0], &a[1]) {
                    (V::C(1), v) | (v, V::C(1)) => v.clone(),
                    (x, y) => { let (x, y) = (x.clone(), y.clone()); self.bin(Bin::Mul, &Ty::I(64), &x, &y)? }
                };
                self.malloc(st, &n, true)
            }
            "posix_memalign" => {
                let p = self.malloc(st, &a[2], false)?;
                let z = V::C(0);
                if matches!(p, V::C(0)) { return Ok(V::C(12)); }
                self.store(st, &Ty::Ptr, &p, &a[0])?;
                Ok(z)
            }
            "realloc" => {
                let p = self.conc(st, &a[0]);
                let np = self.malloc(st, &a[1], false)?;
                if p == 0 { return Ok(np); }
                let V::C(na) = np else { panic!() };
                if na == 0 { return Ok(np); }
                let id = (p >> 32) as u32;
                let Some(o) = st.mem.get(id).cloned() else { return self.merr("realloc of invalid pointer", p) };
                if o.kind != Kind::Heap || p != obj_base(id) { return self.merr("realloc of invalid pointer", p); }
                let d = self.wobj(st, (na >> 32) as u32);
                let lim = if d.size_e == 0 { d.size as usize } else { usize::MAX };
                d.bytes = o.bytes.clone();
                d.sym = o.sym.clone();
                d.fill = o.fill;
                if d.bytes.len() > lim { d.bytes.truncate(lim); if !d.sym.is_empty() { d.sym.truncate(lim); } }
                if o.size_e == 0 && o.fill != 0 { let n = o.size as usize; d.ensure(n.min(lim)); d.fill = 0; }
                st.mem.del(id);
                Ok(V::C(na))
            }
            "free" => { let p = self.conc(st, &a[0]); self.free(st, p)?; Ok(V::C(0)) }
            "memcpy" | "memmove" => { self.memcpy(st, &a[0], &a[1], &a[2])?; Ok(a[0].clone()) }
            "memset" => { self.memset(st, &a[0], &a[1], &a[2])?; Ok(a[0].clone()) }
            "bcmp" => self.memcmp(st, &a[0], &a[1], &a[2], false),
            "memcmp" => self.memcmp(st, &a[0], &a[1], &a[2], true),
            "strlen" => {
                let p = self.conc(st, &a[0]);
                let mut n = 0;
                loop {
                    let v = self.load(st, &Ty::I(8), &V::C(p + n))?;
                    if self.conc(st, &v) == 0 { return Ok(V::C(n)); }
                    n += 1;
                }
            }
            "getenv" => Ok(V::C(0)),
            "__errno_location" => {
                if st.errno == 0 { st.errno = st.mem.alloc(Obj::new(8, Kind::Heap)); }
                Ok(V::C(st.errno))
            }
            "getrandom" => { let n = self.conc(st, &a[1]); Ok(V::C(n)) }
            "syscall" => {
                // 318 = getrandom: the buffer keeps its zeros
                if let V::C(318) = a[0] { let n = self.conc(st, &a[2]); return Ok(V::C(n)); }
                if let V::C(186) = a[0] { return Ok(V::C(1)); }
                Err(Stop::Incomplete(format!("syscall {:?}", a[0])))
            }
            "abort" => Err(Stop::Violation { kind: "abort".into(), what: "abort".into(), loc: String::new() }),
            "__cxa_thread_atexit_impl" => Ok(V::C(0)),
            "fmod" => { let (x, y) = (self.ex(&a[0], 64), self.ex(&a[1], 64)); let e = self.ar.borrow_mut().fop(Op::FRem, 64, x, y); Ok(self.val(e)) }
            "pthread_self" => Ok(V::C(1)),
            "write" => Ok(a[2].clone()),
            n => Err(Stop::Incomplete(format!("external {}", n))),
        }
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, ty: &Ty, args: &[(Ty, Opnd)], a: Vec<V>) -> R<V> {
        let head = n.split('.').next().unwrap();
        match head {
            "lifetime" | "experimental" | "dbg" | "prefetch" | "invariant" | "donothing" | "sideeffect" | "var" => return Ok(V::C(0)),
            "assume" => return Ok(V::C(0)),
            "memcpy" | "memmove" => { self.memcpy(st, &a[0], &a[1], &a[2])?; return Ok(V::C(0)); }
            "memset" => { self.memset(st, &a[0], &a[1], &a[2])?; return Ok(V::C(0)); }
            "expect" | "launder" | "strip" | "ssa" => return Ok(a[0].clone()),
            "threadlocal" => return Ok(a[0].clone()),
            "is" => return Ok(V::C(0)),
            "trap" | "ubsantrap" => return Err(Stop::Violation { kind: "abort".into(), what: "trap".into(), loc: String::new() }),
            "objectsize" => return Ok(V::C(!0)),
            "load" => {
                // load.relative: base + *(i32*)(base + off)
                let p = self.bin(Bin::Add, &Ty::I(64), &a[0], &a[1])?;
                let o = self.load(st, &Ty::I(32), &p)?;
                let c = self.conc(st, &o);
                if c & 0xfff0_0000 == REL_TAG {
                    let d = self.m.rel.borrow()[(c & 0xf_ffff) as usize];
                    return self.bin(Bin::Add, &Ty::I(64), &a[0], &V::C(d));
                }
                let o = self.cast(Cast::SExt, &Ty::I(32), &Ty::I(64), &o);
                return self.bin(Bin::Add, &Ty::I(64), &a[0], &o);
            }
            "ptrmask" => return self.bin(Bin::And, &Ty::I(64), &a[0], &a[1]),
            "bswap" | "ctpop" | "cttz" | "ctlz" | "bitreverse" => {
                let h = head.to_string();
                return self.lanewise(ty, &a[..1], &mut |s, w, x| {
                    if let V::C(c) = x[0] {
                        let r = match h.as_str() {
                            "bswap" => c.swap_bytes() >> (64 - w), "ctpop" => c.count_ones() as u64,
                            "cttz" => (c.trailing_zeros() as u64).min(w as u64), "ctlz" => c.leading_zeros() as u64 - (64 - w as u64),
                            _ => c.reverse_bits() >> (64 - w),
                        };
                        return Ok(V::C(r));
                    }
                    Ok(s.un_w(&h, w, &x[0], None))
                });
            }
            "umin" | "umax" | "smin" | "smax" => {
                let h = head.to_string();
                if matches!(ty, Ty::I(64)) && self.split {
                    let p = match head { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                    let c = self.icmp(p, ty, &a[0], &a[1]);
                    let c = match c { V::E(e) => match self.quick(st, e) { Some(b) => V::C(b as u64), None => if self.splits(e, 64) { V::C(self.decide(st, e) as u64) } else { V::E(e) } }, v => v };
                    if let V::C(k) = c { return Ok(if k & 1 != 0 { a[0].clone() } else { a[1].clone() }); }
                }
                return self.lanewise(ty, &a, &mut |s, w, x| {
                    let t = Ty::I(w);
                    let p = match h.as_str() { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                    match s.icmp(p, &t, &x[0], &x[1]) {
                        V::C(k) => Ok(if k != 0 { x[0].clone() } else { x[1].clone() }),
                        V::E(c) => { let (p, q) = (s.ex(&x[0], w), s.ex(&x[1], w)); let e = s.ar.borrow_mut().ite(c, p, q); Ok(s.val(e)) }
                        _ => panic!(),
                    }
                });
            }
            "abs" => {
                return self.lanewise(ty, &a[..1], &mut |s, w, x| {
                    let t = Ty::I(w);
                    let neg = s.bin(Bin::Sub, &t, &V::C(0), &x[0])?;
                    match s.icmp(Pred::Slt, &t, &x[0], &V::C(0)) {
                        V::C(k) => Ok(if k != 0 { neg } else { x[0].clone() }),
                        V::E(c) => { let (p, q) = (s.ex(&neg, w), s.ex(&x[0], w)); let e = s.ar.borrow_mut().ite(c, p, q); Ok(s.val(e)) }
                        _ => panic!(),
                    }
                });
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let is_sat = n.contains(".sat.");
                let op = match &head[1..] { "add" => Bin::Add, "sub" => Bin::Sub, _ => Bin::Mul };
                let signed = head.starts_with('s');
                let vt = args[0].0.clone();
                if is_sat {
                    return self.lanewise(&vt, &a, &mut |s, w, x| {
                        let (r, o) = s.overflow(op, signed, w, &x[0], &x[1])?;
                        let m = mask(w) as u64;
                        let sat = if !signed { V::C(if op == Bin::Sub { 0 } else { m }) } else {
                            // sign of the first operand decides (add: both share it, sub: as well)
                            let neg = s.icmp(Pred::Slt, &Ty::I(w), &x[0], &V::C(0));
                            s.ite_v(w, &neg, &V::C((m >> 1) + 1), &V::C(m >> 1))
                        };
                        Ok(s.ite_v(w, &o, &sat, &r))
                    });
                }
                if let Ty::Vec(..) = vt { return Err(Stop::Incomplete(format!("intrinsic {}", n))); }
                let (r, o) = self.overflow(op, signed, vt.bits(), &a[0], &a[1])?;
                return Ok(V::A(Rc::new(vec![r, o])));
            }
            "ucmp" | "scmp" => {
                let w = args[0].0.bits();
                let t = Ty::I(w);
                let rw = ty.bits();
                let lt = self.icmp(if head == "ucmp" { Pred::Ult } else { Pred::Slt }, &t, &a[0], &a[1]);
                let eq = self.icmp(Pred::Eq, &t, &a[0], &a[1]);
                let x = self.ite_v(rw, &eq, &V::C(0), &V::C(1));
                return Ok(self.ite_v(rw, &lt, &V::C(mask(rw) as u64), &x));
            }
            "fshl" | "fshr" => {
                let h = head.to_string();
                return self.lanewise(ty, &a, &mut |s, w, x| {
                    let c = if let V::C(c) = x[2] { c % w as u64 } else {
                        // symbolic rotate amount: build with wide shift
                        if w > 64 { return Err(Stop::Incomplete("fshl wide".into())); }
                        let (p, q, k) = (s.ex(&x[0], w), s.ex(&x[1], w), s.ex(&x[2], w));
                        let mut ar = s.ar.borrow_mut();
                        let cat = ar.concat(p, q);
                        let mm = ar.cst(w as u128, w);
                        let k = ar.bin(Op::URem, k, mm);
                        let k2 = ar.zext(k, 2 * w);
                        let e = if h == "fshl" { let t = ar.bin(Op::Shl, cat, k2); ar.extract(t, w as u32, w) } else { let t = ar.bin(Op::LShr, cat, k2); ar.extract(t, 0, w) };
                        drop(ar);
                        return Ok(s.val(e));
                    };
                    let (p, q) = (s.ex(&x[0], w), s.ex(&x[1], w));
                    let mut ar = s.ar.borrow_mut();
                    let e = if h == "fshl" {
                        if c == 0 { p } else { let hi = ar.extract(p, 0, w - c as u16); let lo = ar.extract(q, w as u32 - c as u32, c as u16); ar.concat(hi, lo) }
                    } else if c == 0 { q } else { let hi = ar.extract(p, 0, c as u16); let lo = ar.extract(q, c as u32, w - c as u16); ar.concat(hi, lo) };
                    drop(ar);
                    Ok(s.val(e))
                });
            }
            "fabs" => { return self.lanewise(ty, &a, &mut |s, w, x| s.bin(Bin::And, &Ty::I(w), &x[0], &V::C(mask(w) as u64 >> 1))); }
            "round" | "floor" | "ceil" | "trunc" | "sqrt" | "log10" | "rint" | "nearbyint" | "roundeven" => {
                let op = match head { "round" => Op::FRound, "floor" => Op::FFloor, "ceil" => Op::FCeil, "trunc" => Op::FTruncI, "sqrt" => Op::FSqrt, "log10" => Op::FLog10, _ => Op::FRoundEven };
                return self.lanewise(ty, &a, &mut |s, w, x| { let e = s.ex(&x[0], w); let r = s.ar.borrow_mut().fop(op, w, e, 0); Ok(s.val(r)) });
            }
            "fptoui" | "fptosi" => {
                let fw = args[0].0.bits();
                let tw = ty.bits();
                let e = self.ex(&a[0], fw);
                let r = self.ar.borrow_mut().fop(if head == "fptoui" { Op::FpToUiSat } else { Op::FpToSiSat }, tw, e, 0);
                return Ok(self.val(r));
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                return self.lanewise(ty, &a, &mut |s, w, x| {
                    let t = Ty::F(w);
                    let c = s.fcmp(if n.starts_with("min") { "olt" } else { "ogt" }, &t, &x[0], &x[1]);
                    let nan = s.fcmp("uno", &t, &x[1], &x[1]);
                    let r = s.ite_v(w, &c, &x[0], &x[1]);
                    let r2 = s.ite_v(w, &nan, &x[0], &r);
                    Ok(r2)
                });
            }
            "copysign" => {
                return self.lanewise(ty, &a, &mut |s, w, x| {
                    let m = mask(w) as u64 >> 1;
                    let p = s.bin(Bin::And, &Ty::I(w), &x[0], &V::C(m))?;
                    let q = s.bin(Bin::And, &Ty::I(w), &x[1], &V::C(m + 1))?;
                    s.bin(Bin::Or, &Ty::I(w), &p, &q)
                });
            }
            "powi" => {
                if let (V::C(x), V::C(k)) = (&a[0], &a[1]) {
                    let w = ty.bits();
                    let r = if w == 32 { f32::from_bits(*x as u32).powi(*k as u32 as i32).to_bits() as u64 } else { f64::from_bits(*x).powi(*k as u32 as i32).to_bits() };
                    return Ok(V::C(r));
                }
            }
            "pow" | "exp2" | "ldexp" => {
                if a.iter().all(|x| matches!(x, V::C(_))) && ty.bits() == 64 {
                    let x = f64::from_bits(popc(&a[0]).unwrap());
                    let r = match head { "pow" => x.powf(f64::from_bits(popc(&a[1]).unwrap())), "exp2" => x.exp2(), _ => x * 2f64.powi(popc(&a[1]).unwrap() as u32 as i32) };
                    return Ok(V::C(r.to_bits()));
                }
            }
            "fma" | "fmuladd" => { let p = self.bin(Bin::FMul, ty, &a[0], &a[1])?; return self.bin(Bin::FAdd, ty, &p, &a[2]); }
            "vector" => {
                if n.starts_with("vector.reduce.") {
                    let op = n.split('.').nth(2).unwrap();
                    let Ty::Vec(_, et) = &args[0].0 else { panic!() };
                    let V::A(l) = &a[0] else { panic!() };
                    let mut acc = l[0].clone();
                    for v in l[1..].iter() {
                        acc = match op {
                            "add" => self.bin(Bin::Add, et, &acc, v)?, "and" => self.bin(Bin::And, et, &acc, v)?, "or" => self.bin(Bin::Or, et, &acc, v)?,
                            "xor" => self.bin(Bin::Xor, et, &acc, v)?, "mul" => self.bin(Bin::Mul, et, &acc, v)?,
                            "umax" | "umin" | "smax" | "smin" => {
                                let p = match op { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                                let c = self.icmp(p, et, &acc, v);
                                self.ite_v(et.bits(), &c, &acc, v)
                            }
                            _ => return Err(Stop::Incomplete(format!("intrinsic {}", n))),
                        };
                    }
                    return Ok(acc);
                }
            }
            "x86" => {
                match n {
                    "x86.sse2.pause" => return Ok(V::C(0)),
                    "x86.sse2.pmadd.wd" => {
                        let (V::A(p), V::A(q)) = (&a[0], &a[1]) else { panic!() };
                        let mut r = vec![];
                        for i in 0..4 {
                            let mut acc = V::C(0);
                            for j in 0..2 {
                                let x = self.cast(Cast::SExt, &Ty::I(16), &Ty::I(32), &p[2 * i + j]);
                                let y = self.cast(Cast::SExt, &Ty::I(16), &Ty::I(32), &q[2 * i + j]);
                                let m = self.bin(Bin::Mul, &Ty::I(32), &x, &y)?;
                                acc = self.bin(Bin::Add, &Ty::I(32), &acc, &m)?;
                            }
                            r.push(acc);
                        }
                        return Ok(V::A(Rc::new(r)));
                    }
                    "x86.sse2.psad.bw" => {
                        let (V::A(p), V::A(q)) = (&a[0], &a[1]) else { panic!() };
                        let mut r = vec![];
                        for i in 0..2 {
                            let mut acc = V::C(0);
                            for j in 0..8 {
                                let (x, y) = (&p[8 * i + j], &q[8 * i + j]);
                                let t = Ty::I(8);
                                let c = self.icmp(Pred::Ult, &t, x, y);
                                let d1 = self.bin(Bin::Sub, &t, y, x)?;
                                let d2 = self.bin(Bin::Sub, &t, x, y)?;
                                let d = self.ite_v(8, &c, &d1, &d2);
                                let d = self.cast(Cast::ZExt, &t, &Ty::I(64), &d);
                                acc = self.bin(Bin::Add, &Ty::I(64), &acc, &d)?;
                            }
                            r.push(acc);
                        }
                        return Ok(V::A(Rc::new(r)));
                    }
                    "x86.sse2.pmovmskb.128" => {
                        let V::A(p) = &a[0] else { panic!() };
                        let mut bits = vec![];
                        for v in p.iter() { bits.push(self.icmp(Pred::Slt, &Ty::I(8), v, &V::C(0))); }
                        let i = self.lanes_to_int(&V::A(Rc::new(bits)), 1);
                        return Ok(self.cast(Cast::ZExt, &Ty::I(16), &Ty::I(32), &i));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        Err(Stop::Incomplete(format!("intrinsic {}", n)))
    }
    fn ite_v(&mut self, w: u16, c: &V, x: &V, y: &V) -> V {
        match c {
            V::C(k) => if *k & 1 != 0 { x.clone() } else { y.clone() },
            V::E(c) => { let (p, q) = (self.ex(x, w), self.ex(y, w)); let e = self.ar.borrow_mut().ite(*c, p, q); self.val(e) }
            _ => panic!(),
        }
    }
    /// (result, overflow bit)
    fn overflow(&mut self, op: Bin, signed: bool, w: u16, x: &V, y: &V) -> R<(V, V)> {
        let t = Ty::I(w);
        let r = self.bin(op, &t, x, y)?;
        if let (V::C(p), V::C(q)) = (x, y) {
            let (p, q) = (*p as u128, *q as u128);
            let o = if signed {
                let (sp, sq) = (sx(p, w), sx(q, w));
                let v = match op { Bin::Add => sp + sq, Bin::Sub => sp - sq, _ => sp * sq };
                v != sx(v as u128, w)
            } else {
                match op { Bin::Add => p + q > mask(w), Bin::Sub => p < q, _ => p * q > mask(w) }
            };
            return Ok((r, V::C(o as u64)));
        }
        let (p, q, re) = (self.ex(x, w), self.ex(y, w), self.ex(&r, w));
        let mut ar = self.ar.borrow_mut();
        let o = match (op, signed) {
            (Bin::Add, false) => {
                // carry out; compare against the complement when one side is constant
                if let Some(k) = ar.cval(q) { let l = ar.cst(mask(w) - k, w); ar.bin(Op::Ult, l, p) }
                else if let Some(k) = ar.cval(p) { let l = ar.cst(mask(w) - k, w); ar.bin(Op::Ult, l, q) }
                else {
                    let (hp, hq) = (ar.node(p).hi, ar.node(q).hi);
                    if hp.checked_add(hq).map_or(false, |s| s <= mask(w)) { Arena::FALSE } else { ar.bin(Op::Ult, re, p) }
                }
            }
            (Bin::Sub, false) => ar.bin(Op::Ult, p, q),
            (Bin::Mul, false) => {
                let (hp, hq) = (ar.node(p).hi, ar.node(q).hi);
                if hp.checked_mul(hq).map_or(false, |s| s <= mask(w)) { Arena::FALSE }
                else if let Some(k) = ar.cval(q) { if k == 0 { Arena::FALSE } else { let l = ar.cst(mask(w) / k, w); ar.bin(Op::Ult, l, p) } }
                else if let Some(k) = ar.cval(p) { if k == 0 { Arena::FALSE } else { let l = ar.cst(mask(w) / k, w); ar.bin(Op::Ult, l, q) } }
                else {
                    if w > 64 { return Err(Stop::Incomplete("wide umul overflow".into())); }
                    let (a2, b2) = (ar.zext(p, 2 * w), ar.zext(q, 2 * w));
                    let m = ar.bin(Op::Mul, a2, b2);
                    let h = ar.extract(m, w as u32, w);
                    let z = ar.cst(0, w);
                    let e = ar.bin(Op::Eq, h, z);
                    ar.not(e)
                }
            }
            (_, true) => {
                let ew = match op { Bin::Mul => 2 * w, _ => w + 1 };
                if ew > 128 { return Err(Stop::Incomplete("wide signed overflow".into())); }
                let (a2, b2) = (ar.sext(p, ew), ar.sext(q, ew));
                let v = match op { Bin::Add => ar.bin(Op::Add, a2, b2), Bin::Sub => ar.bin(Op::Sub, a2, b2), _ => ar.bin(Op::Mul, a2, b2) };
                let back = ar.sext(re, ew);
                let e = ar.bin(Op::Eq, v, back);
                ar.not(e)
            }
            _ => panic!(),
        };
        drop(ar);
        let o = self.val(o);
        Ok((r, o))
    }

    // ---- paths ------------------------------------------------------------------
    /// run one path to its end
    pub fn run(&mut self, mut st: State, tick: &mut dyn FnMut(&mut Exec) -> bool) -> bool {
        let mut n = 0u64;
        let mut us = self.sv.micros;
        let stop = loop {
            n += 1;
            if (n & 0xffff == 0 || self.sv.micros > us + 500_000) && {
                us = self.sv.micros; self.mid = true; let t = tick(self); self.mid = false; t } {
                st.steps += n;
                self.stats.steps += n;
                self.pending.push(st);
                return true;
            }
            if st.steps + n > self.step_limit { break Stop::Violation { kind: "hang".into(), what: format!("no end after {} instructions", self.step_limit), loc: String::new() }; }
            if let Err(s) = self.step(&mut st) { break s; }
        };
        st.steps += n;
        self.stats.steps += n;
        self.finish(st, stop);
        false
    }
    pub fn finish(&mut self, st: State, stop: Stop) {
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        self.stats.max_forks = self.stats.max_forks.max(st.forks);
        match stop {
            Stop::Assume => self.stats.assumed_away += 1,
            Stop::Incomplete(s) => { if self.debug { eprintln!("incomplete: {} in {:?}", s, self.backtrace(&st)); } *self.stats.incomplete.entry(s).or_insert(0) += 1; }
            Stop::Done => {
                self.stats.paths += 1;
                let mut fresh = false;
                for k in 0..128 { if st.reach >> k & 1 != 0 { let c = self.reach_all.entry(k).or_insert(0); if *c < 2 { fresh = true; } *c += 1; } }
                if self.samples.len() < self.max_samples || fresh {
                    let mut m = (*st.model).clone();
                    m.resize(st.nsym as usize, 0);
                    let notes = st.notes.iter().map(|(k, v)| (*k, match v { V::C(c) => *c, V::E(e) => self.eval(&st, *e) as u64, V::A(_) => 0 })).collect();
                    self.samples.push((st.reach, m, notes));
                }
            }
            Stop::Violation { kind, what, loc } => {
                self.stats.paths += 1;
                let bt = self.backtrace(&st);
                let key = format!("{}|{}|{}|{}", kind, what.split(" of ").next().unwrap_or(""), loc, bt.first().cloned().unwrap_or_default());
                let c = self.vkeys.entry(key).or_insert(0);
                *c += 1;
                if *c <= 2 {
                    let mut m = (*st.model).clone();
                    m.resize(st.nsym as usize, 0);
                    if self.debug { eprintln!("VIOL {} {} {} {:?} steps {}", kind, what, loc, bt, st.steps); }
                    self.viols.push(Viol { kind, what, loc, stack: bt, model: m, steps: st.steps });
                }
            }
        }
    }
    pub fn explore(&mut self, tick: &mut dyn FnMut(&mut Exec) -> bool) {
        while !self.pending.is_empty() {
            if tick(self) { return; }
            let n = self.pending.len();
            if n > 24 && n < 2500 {
                self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
                if self.rng & 3 == 0 {
                    // every fourth path: of a few queued states, the one forked off where the fewest have been taken up
                    let mut best = n - 1;
                    let mut bc = u32::MAX;
                    let mut r = self.rng >> 2;
                    for _ in 0..6 {
                        r ^= r << 13; r ^= r >> 7; r ^= r << 17;
                        let i = (r % n as u64) as usize;
                        let c = self.site_runs.get(&self.pending[i].site).copied().unwrap_or(0);
                        if c < bc { bc = c; best = i; }
                    }
                    self.pending.swap(best, n - 1);
                }
            }
            let Some(st) = self.pending.pop() else { return };
            *self.site_runs.entry(st.site).or_insert(0) += 1;
            if self.run(st, tick) { return; }
        }
    }
}
