//! Per-path memory: copy-on-write byte objects with an optional symbolic overlay.
use crate::expr::{Arena, Ex};
use crate::ir::{OBJ_OFF, V};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Global, Const, Stack, Heap, Freed }

#[derive(Clone)]
pub struct Obj {
    /// concrete size, or the upper bound of a symbolic one
    pub size: u64,
    /// symbolic size expression (0 = concrete)
    pub size_e: Ex,
    /// materialised prefix; everything behind it reads as `fill`
    pub bytes: Vec<u8>,
    /// symbolic overlay, empty or as long as `bytes` (0 = concrete byte)
    pub sym: Vec<Ex>,
    pub fill: u8,
    pub kind: Kind,
}
impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj { Obj { size, size_e: 0, bytes: Vec::new(), sym: Vec::new(), fill: 0, kind } }
    #[inline]
    pub fn ensure(&mut self, n: usize) {
        if self.bytes.len() < n {
            let cap = if self.size_e == 0 { (self.size as usize).min(n.next_power_of_two().max(64)).max(n) } else { n.next_power_of_two().max(64) };
            let f = self.fill;
            self.bytes.resize(cap, f);
            if !self.sym.is_empty() { self.sym.resize(cap, 0); }
        }
    }
    #[inline]
    pub fn get(&self, i: usize) -> (u8, Ex) {
        if i >= self.bytes.len() { return (self.fill, 0); }
        (self.bytes[i], if self.sym.is_empty() { 0 } else { self.sym[i] })
    }
    #[inline]
    pub fn set(&mut self, i: usize, b: u8, e: Ex) {
        self.ensure(i + 1);
        self.bytes[i] = b;
        if e != 0 && self.sym.is_empty() { self.sym = vec![0; self.bytes.len()]; }
        if !self.sym.is_empty() { self.sym[i] = e; }
    }
    #[inline]
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        if self.sym.is_empty() || off >= self.sym.len() { return false; }
        let e = (off + n).min(self.sym.len());
        self.sym[off..e].iter().any(|&x| x != 0)
    }
    /// little endian concrete read (n <= 8)
    #[inline]
    pub fn read_le(&self, off: usize, n: usize) -> u64 {
        let mut v = 0u64;
        if off + n <= self.bytes.len() {
            for k in (0..n).rev() { v = v << 8 | self.bytes[off + k] as u64; }
        } else {
            for k in (0..n).rev() { v = v << 8 | self.get(off + k).0 as u64; }
        }
        v
    }
    #[inline]
    pub fn write_le(&mut self, off: usize, n: usize, mut v: u64) {
        self.ensure(off + n);
        for k in 0..n { self.bytes[off + k] = v as u8; v >>= 8; }
        if !self.sym.is_empty() { for k in 0..n { self.sym[off + k] = 0; } }
    }
}

const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    empty: Rc<Chunk>,
    pub next: u32,
    pub live_heap: u64,
}
impl Mem {
    pub fn new(first: u32) -> Mem {
        let empty: Rc<Chunk> = Rc::new(std::array::from_fn(|_| None));
        Mem { chunks: vec![], empty, next: first, live_heap: 0 }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_ref())
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        c[id as usize % CH].as_ref()?;
        let c = Rc::make_mut(c);
        Some(Rc::make_mut(c[id as usize % CH].as_mut().unwrap()))
    }
    pub fn put(&mut self, id: u32, o: Rc<Obj>) {
        let k = id as usize / CH;
        while self.chunks.len() <= k { self.chunks.push(self.empty.clone()); }
        Rc::make_mut(&mut self.chunks[k])[id as usize % CH] = Some(o);
    }
    pub fn del(&mut self, id: u32) {
        let k = id as usize / CH;
        if k >= self.chunks.len() { return; }
        let c = Rc::make_mut(&mut self.chunks[k]);
        c[id as usize % CH] = None;
        if c.iter().all(|x| x.is_none()) { self.chunks[k] = self.empty.clone(); }
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        if self.next > 0x7d00_0000 { panic!("object ids exhausted"); }
        self.put(id, Rc::new(o));
        ((id as u64) << 32) + OBJ_OFF
    }
}

/// flatten a constant initialiser into bytes
pub fn write_const(o: &mut Obj, off: u64, ty: &crate::ir::Ty, v: &V, ar: &Arena) {
    use crate::ir::Ty;
    match (ty, v) {
        (Ty::Arr(_, t), V::A(l)) | (Ty::Vec(_, t), V::A(l)) => {
            let s = t.size();
            for (i, x) in l.iter().enumerate() { write_const(o, off + i as u64 * s, t, x, ar); }
        }
        (Ty::St(f, _), V::A(l)) => for (i, x) in l.iter().enumerate() { write_const(o, off + ty.field_off(i), &f[i], x, ar); },
        (_, V::C(c)) => { let n = ty.store_size() as usize; if n <= 8 { o.write_le(off as usize, n, *c); } else { o.write_le(off as usize, 8, *c); for k in 8..n { o.set(off as usize + k, 0, 0); } } }
        (_, V::E(e)) => { let v = ar.cval(*e).unwrap(); for k in 0..ty.store_size() as usize { o.set(off as usize + k, (v >> (8 * k)) as u8, 0); } }
        (t, v) => panic!("initialiser {:?} {:?}", t, v),
    }
}
