//! Textual LLVM IR front end: module-level entities eagerly, function bodies on first use.
use crate::expr::{Arena, Ex};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u16),
    Ptr,
    F(u16),
    Arr(u64, Rc<Ty>),
    St(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self { Ty::I(w) => *w, Ty::Ptr => 64, Ty::F(w) => *w, t => panic!("bits of {:?}", t) }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::F(w) => if *w == 80 { 16 } else { *w as u64 / 8 },
            Ty::Arr(_, t) => t.align(),
            Ty::St(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(w) => { let b = (*w as u64).div_ceil(8); let a = self.align(); b.div_ceil(a) * a }
            Ty::Ptr => 8,
            Ty::F(w) => if *w == 80 { 16 } else { *w as u64 / 8 },
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(f, p) => {
                let mut o = 0;
                for t in f.iter() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !*p { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Vec(n, t) => match **t { Ty::I(1) => (n + 7) / 8, _ => n * t.size() },
            _ => 0,
        }
    }
    /// bytes touched by a load/store
    pub fn store_size(&self) -> u64 {
        match self { Ty::I(w) => (*w as u64).div_ceil(8), t => t.size() }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::St(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            t => panic!("field_off {:?}", t),
        }
    }
}

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(Ex),
    A(Rc<Vec<V>>),
}
#[derive(Clone, Debug)]
pub enum Opnd { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }
#[derive(Clone, Debug)]
pub enum Callee { Fun(u32), Ext(u32), Ind(Opnd), Asm(Rc<str>) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, UMax, UMin, Max, Min, Nand }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bin, Ty, u32, Opnd, Opnd),
    FNeg(Ty, u32, Opnd),
    ICmp(Pred, Ty, u32, Opnd, Opnd),
    FCmp(Rc<str>, Ty, u32, Opnd, Opnd),
    Cast(Cast, Ty, Ty, u32, Opnd),
    Select(Ty, u32, Opnd, Opnd, Opnd, bool),
    Load(Ty, u32, Opnd),
    Store(Ty, Opnd, Opnd),
    Alloca(u32, u64, u64),
    /// base + const + sum(idx*scale); idx sign extended from its width
    Gep(u32, Opnd, u64, Box<[(Opnd, u64, u16)]>),
    ExtractValue(u32, Opnd, Box<[u32]>),
    InsertValue(u32, Ty, Opnd, Opnd, Box<[u32]>),
    ExtractElem(u32, Ty, Opnd, Opnd),
    InsertElem(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, Ty, Opnd, Opnd, Box<[i32]>),
    Freeze(u32, Opnd),
    Call { dst: u32, ty: Ty, callee: Callee, args: Box<[(Ty, Opnd)]>, normal: u32 },
    Rmw(Rmw, Ty, u32, Opnd, Opnd),
    CmpXchg(Ty, u32, Opnd, Opnd, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Box<[(u128, u32)]>),
    Ret(Opnd),
    RetVoid,
    Unreachable,
    LandingPad(u32),
    Fence,
    Unsupported(Rc<str>),
}
pub struct Block { pub name: String, pub phis: Vec<(u32, Vec<(u32, Opnd)>)>, pub insts: Vec<Inst> }
pub struct Func { pub name: Rc<str>, pub pretty: Rc<str>, pub nparams: u32, pub nregs: u32, pub blocks: Vec<Block>, pub idx: u32, pub frame: u64, pub ninst: u32 }

pub struct FuncDecl { pub name: Rc<str>, pub pretty: Rc<str>, pub header: usize, pub body: (usize, usize), pub ninst: usize }
pub struct Global { pub name: String, pub ty: Ty, pub init: Option<(usize, usize)>, pub constant: bool, pub align: u64, pub id: u32 }

pub struct Module {
    pub text: Vec<u8>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub exts: Vec<Rc<str>>,
    pub emap: RefCell<HashMap<String, u32>>,
    pub extv: RefCell<Vec<Rc<str>>>,
    pub ext_weak: RefCell<HashMap<String, bool>>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub named: RefCell<HashMap<String, Ty>>,
    pub decoded: RefCell<HashMap<u32, Rc<Func>>>,
    /// 64-bit address differences behind the entries of relative look-up tables
    pub rel: RefCell<Vec<u64>>,
}
/// relative table entries are REL_TAG + index into `rel`
pub const REL_TAG: u64 = 0x5e10_0000;

pub const OBJ_OFF: u64 = 0x1000_0000;
pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;
pub const EXT_BASE: u64 = 0x7e00_0000_0000_0000;
pub fn obj_base(id: u32) -> u64 { ((id as u64) << 32) + OBJ_OFF }

pub struct P<'a> { s: &'a [u8], i: usize, end: usize }
impl<'a> P<'a> {
    fn new(s: &'a [u8], i: usize, end: usize) -> Self { P { s, i, end } }
    fn ws(&mut self) { while self.i < self.end && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.end { self.s[self.i] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.i + b.len() <= self.end && &self.s[self.i..self.i + b.len()] == b {
            // identifiers must end at a boundary
            if b[b.len() - 1].is_ascii_alphanumeric() {
                if let Some(&n) = self.s[..self.end].get(self.i + b.len()) { if n.is_ascii_alphanumeric() || n == b'_' || n == b'.' { return false; } }
            }
            self.i += b.len();
            true
        } else { false }
    }
    fn expect(&mut self, t: &str) { if !self.eat(t) { panic!("expected `{}` at `{}`", t, self.ctx()); } }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(60);
        let e = (self.i + 80).min(self.end);
        format!("{}<<HERE>>{}", String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..e]))
    }
    fn ident(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.end && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.') { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_ident(&mut self) -> &'a str { let s = self.i; let r = self.ident(); self.i = s; self.ws(); r }
    /// name after @ or % (quoted or not)
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            return r;
        }
        let st = self.i;
        while self.i < self.end && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'$' | b'-')) { self.i += 1; }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn skip_group(&mut self) {
        // at '(' : skip to the matching ')'
        self.ws();
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let neg = if self.s[self.i] == b'-' { self.i += 1; true } else { false };
        let mut v: u128 = 0;
        let st = self.i;
        while self.i < self.end && self.s[self.i].is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.s[self.i] - b'0') as u128); self.i += 1; }
        if st == self.i { panic!("int expected at {}", self.ctx()); }
        if neg { (v as i128).wrapping_neg() } else { v as i128 }
    }
    fn ty(&mut self, m: &Module) -> Ty {
        let c = self.peek();
        match c {
            b'[' => { self.i += 1; let n = self.int() as u64; self.expect("x"); let t = self.ty(m); self.expect("]"); Ty::Arr(n, Rc::new(t)) }
            b'{' => { self.i += 1; let r = self.fields(m, "}"); Ty::St(Rc::new(r), false) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let r = self.fields(m, "}"); self.expect(">"); return Ty::St(Rc::new(r), true); }
                let n = self.int() as u64;
                self.expect("x");
                let t = self.ty(m);
                self.expect(">");
                Ty::Vec(n, Rc::new(t))
            }
            b'%' => { self.i += 1; let n = self.name(); m.named.borrow().get(&n).cloned().unwrap_or(Ty::Other) }
            _ => {
                let id = self.ident();
                match id {
                    "void" => Ty::Void, "ptr" => { if self.peek_ident() == "addrspace" { self.ident(); self.skip_group(); } Ty::Ptr }
                    "double" => Ty::F(64), "float" => Ty::F(32), "half" => Ty::F(16), "x86_fp80" => Ty::F(80), "fp128" => Ty::F(128),
                    "metadata" | "token" | "label" => Ty::Other,
                    _ if id.starts_with('i') && id.len() > 1 && id[1..].bytes().all(|b| b.is_ascii_digit()) => Ty::I(id[1..].parse().unwrap()),
                    _ => panic!("type expected at {}", self.ctx()),
                }
            }
        }
    }
    fn fields(&mut self, m: &Module, close: &str) -> Vec<Ty> {
        let mut r = vec![];
        if self.eat(close) { return r; }
        loop { r.push(self.ty(m)); if self.eat(",") { continue; } self.expect(close); return r; }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => {
                let id = self.peek_ident();
                matches!(id, "void" | "ptr" | "double" | "float" | "half" | "x86_fp80" | "fp128" | "metadata" | "token" | "label")
                    || (id.starts_with('i') && id.len() > 1 && id[1..].bytes().all(|b| b.is_ascii_digit()))
            }
        }
    }
    /// skip attributes before a type or a value
    fn skip_attrs_to_type(&mut self) {
        while !self.is_type_start() {
            if self.i >= self.end { panic!("attrs ran out"); }
            self.skip_attr();
        }
    }
    fn skip_attr(&mut self) {
        if self.peek() == b'"' {
            self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1;
            if self.peek() == b'=' { self.i += 1; self.ws(); self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; }
            return;
        }
        if self.peek() == b'#' { self.i += 1; self.int(); return; }
        let id = self.ident();
        if id.is_empty() { panic!("attr expected at {}", self.ctx()); }
        if self.peek() == b'(' { self.skip_group(); }
        else if (id == "align" || id == "cc") && self.peek().is_ascii_digit() { self.int(); }
    }
    fn is_value_start(&mut self) -> bool {
        match self.peek() {
            b'%' | b'@' | b'-' | b'<' | b'{' | b'[' | b'+' => true,
            c if c.is_ascii_digit() => true,
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => true,
            _ => matches!(self.peek_ident(), "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "sub" | "add" | "xor" | "bitcast" | "none" | "f0x" | "addrspacecast" | "blockaddress" | "dso_local_equivalent" | "nan" | "inf" | "mul" | "zext" | "sext")
                || self.peek_ident().starts_with("f0x"),
        }
    }
}

pub fn zero_of(ty: &Ty) -> V {
    match ty {
        Ty::Arr(n, t) | Ty::Vec(n, t) => { let z = zero_of(t); V::A(Rc::new(vec![z; *n as usize])) }
        Ty::St(f, _) => V::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => V::C(0),
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let mut m = Module {
            text: vec![], funcs: vec![], fmap: HashMap::new(), exts: vec![], emap: RefCell::new(HashMap::new()), extv: RefCell::new(vec![]),
            ext_weak: RefCell::new(HashMap::new()), globals: vec![], gmap: HashMap::new(), aliases: HashMap::new(),
            named: RefCell::new(HashMap::new()), decoded: RefCell::new(HashMap::new()), rel: RefCell::new(vec![]),
        };
        let mut i = 0;
        let n = text.len();
        let mut comment: Option<(usize, usize)> = None;
        let mut named_lines = vec![];
        let mut global_lines = vec![];
        while i < n {
            let e = text[i..].iter().position(|&b| b == b'\n').map_or(n, |p| i + p);
            let line = &text[i..e];
            if line.starts_with(b"; Function Attrs") {} else if line.starts_with(b";") { comment = Some((i + 2.min(e - i), e)); }
            else if line.starts_with(b"define") {
                let hdr = i;
                let mut j = e + 1;
                let mut ni = 0;
                loop {
                    let e2 = text[j..].iter().position(|&b| b == b'\n').map_or(n, |p| j + p);
                    if text[j] == b'}' { i = e2; break; }
                    ni += 1;
                    j = e2 + 1;
                }
                let mut p = P::new(&text, hdr, e);
                while p.s[p.i] != b'@' { if p.s[p.i] == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } } p.i += 1; }
                p.i += 1;
                let name = p.name();
                let pretty = comment.map(|(a, b)| String::from_utf8_lossy(&text[a..b]).into_owned()).unwrap_or_else(|| name.clone());
                m.fmap.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FuncDecl { name: name.into(), pretty: pretty.into(), header: hdr, body: (e + 1, j), ninst: ni });
                comment = None;
                i += 1;
                continue;
            } else if line.starts_with(b"declare") {
                if line.windows(11).any(|w| w == b"extern_weak") {
                    let mut p = P::new(&text, i, e);
                    while p.s[p.i] != b'@' { p.i += 1; }
                    p.i += 1;
                    let nm = p.name();
                    m.ext_weak.borrow_mut().insert(nm, true);
                }
            } else if line.starts_with(b"@") { global_lines.push((i, e)); }
            else if line.starts_with(b"%") { named_lines.push((i, e)); }
            if !line.starts_with(b";") { comment = None; }
            i = e + 1;
        }
        m.text = text;
        for (a, b) in named_lines {
            let mut p = P::new(&m.text, a + 1, b);
            let nm = p.name();
            p.expect("=");
            p.expect("type");
            if p.peek_ident() == "opaque" { continue; }
            let t = p.ty(&m);
            m.named.borrow_mut().insert(nm, t);
        }
        let mut globals = vec![];
        let mut aliases = HashMap::new();
        let mut gmap = HashMap::new();
        for (a, b) in global_lines {
            let mut p = P::new(&m.text, a + 1, b);
            let nm = p.name();
            p.expect("=");
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                if p.is_type_start() && !alias { break; }
                let id = p.ident();
                match id {
                    "constant" => { constant = true; break; }
                    "global" => break,
                    "alias" | "ifunc" => { alias = true; break; }
                    "external" | "extern_weak" | "available_externally" => { external = true; if id == "extern_weak" { m.ext_weak.borrow_mut().insert(nm.clone(), true); } }
                    "" => panic!("global: {}", p.ctx()),
                    _ => { if p.peek() == b'(' { p.skip_group(); } }
                }
            }
            let ty = p.ty(&m);
            if alias {
                // a function type: the parameter list follows
                p.ws();
                if p.peek() == b'(' { p.skip_group(); }
                p.expect(",");
                p.ty(&m);
                p.ws();
                if p.s[p.i] == b'@' { p.i += 1; let t = p.name(); aliases.insert(nm, t); }
                continue;
            }
            let init = if external { None } else { Some((p.i, b)) };
            let line = String::from_utf8_lossy(&m.text[a..b]).into_owned();
            let align = line.rfind(", align ").and_then(|k| line[k + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())).unwrap_or(1);
            gmap.insert(nm.clone(), globals.len() as u32);
            let id = globals.len() as u32 + 1;
            globals.push(Global { name: nm, ty, init, constant, align, id });
        }
        m.globals = globals;
        m.gmap = gmap;
        m.aliases = aliases;
        m
    }
    pub fn ext_id(&self, name: &str) -> u32 {
        if let Some(&i) = self.emap.borrow().get(name) { return i; }
        let i = self.extv.borrow().len() as u32;
        self.extv.borrow_mut().push(name.into());
        self.emap.borrow_mut().insert(name.to_string(), i);
        i
    }
    pub fn resolve(&self, name: &str) -> String {
        let mut n = name.to_string();
        while let Some(t) = self.aliases.get(&n) { n = t.clone(); }
        n
    }
    pub fn sym_addr(&self, name: &str) -> u64 {
        let n = self.resolve(name);
        if let Some(&f) = self.fmap.get(&n) { return FN_BASE + (f as u64) * 16; }
        if let Some(&g) = self.gmap.get(&n) {
            if self.globals[g as usize].init.is_none() && self.ext_weak.borrow().contains_key(&n) { return 0; }
            return obj_base(self.globals[g as usize].id);
        }
        if self.ext_weak.borrow().contains_key(&n) { return 0; }
        EXT_BASE + self.ext_id(&n) as u64 * 16
    }
    /// constant value following a parsed type
    fn konst(&self, p: &mut P, ty: &Ty, ar: &RefCell<Arena>) -> V {
        let c = p.peek();
        match c {
            b'@' => { p.i += 1; let n = p.name(); V::C(self.sym_addr(&n)) }
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 2;
                let mut r = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' {
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        if let Ok(x) = u8::from_str_radix(h, 16) { r.push(V::C(x as u64)); p.i += 3; continue; }
                        r.push(V::C(b'\\' as u64));
                        p.i += 2;
                        continue;
                    }
                    r.push(V::C(p.s[p.i] as u64));
                    p.i += 1;
                }
                p.i += 1;
                V::A(Rc::new(r))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' { p.i += 1; let v = self.klist(p, "}", ar); p.expect(">"); return v; }
                self.klist(p, ">", ar)
            }
            b'{' => { p.i += 1; self.klist(p, "}", ar) }
            b'[' => { p.i += 1; self.klist(p, "]", ar) }
            _ => {
                let id = p.peek_ident();
                if let Ty::F(w) = ty {
                    match id { "undef" | "poison" | "zeroinitializer" => { p.ident(); return V::C(0); } "splat" => {} _ => return self.kfloat(p, *w) }
                }
                if c == b'-' || c.is_ascii_digit() {
                    let v = p.int();
                    let w = match ty { Ty::I(w) => *w, _ => 64 };
                    if w > 64 { let e = ar.borrow_mut().cst(v as u128, w); return V::E(e); }
                    return V::C((v as u64) & crate::expr::mask(w) as u64);
                }
                p.ident();
                match id {
                    "null" | "none" => V::C(0),
                    "undef" | "poison" | "zeroinitializer" => match ty { Ty::I(w) if *w > 64 => V::E(ar.borrow_mut().cst(0, *w)), _ => zero_of(ty) },
                    "true" => V::C(1),
                    "false" => V::C(0),
                    "splat" => {
                        p.expect("(");
                        let et = p.ty(self);
                        let v = self.konst(p, &et, ar);
                        p.expect(")");
                        let n = match ty { Ty::Vec(n, _) | Ty::Arr(n, _) => *n, _ => 1 };
                        V::A(Rc::new(vec![v; n as usize]))
                    }
                    "getelementptr" => {
                        while p.peek() != b'(' { p.ident(); if p.peek() == b'(' && self.is_range(p) { p.skip_group(); } }
                        p.expect("(");
                        let bt = p.ty(self);
                        p.expect(",");
                        let pt = p.ty(self);
                        let base = self.konst(p, &pt, ar);
                        let mut addr = match base { V::C(v) => v, _ => panic!("gep base") };
                        let mut cur = bt;
                        let mut first = true;
                        while p.eat(",") {
                            if p.eat("inrange") { p.skip_group(); }
                            let it = p.ty(self);
                            let iv = match self.konst(p, &it, ar) { V::C(v) => crate::expr::sx(v as u128, it.bits()) as i64, _ => panic!() };
                            if first { addr = addr.wrapping_add((iv as u64).wrapping_mul(cur.size())); first = false; }
                            else {
                                let off = match &cur { Ty::St(..) => cur.field_off(iv as usize), Ty::Arr(_, t) | Ty::Vec(_, t) => (iv as u64).wrapping_mul(t.size()), _ => panic!() };
                                cur = match &cur { Ty::St(f, _) => f[iv as usize].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!() };
                                addr = addr.wrapping_add(off);
                            }
                        }
                        p.expect(")");
                        V::C(addr)
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "bitcast" | "addrspacecast" | "zext" => {
                        p.ident_opt_flags();
                        p.expect("(");
                        let t = p.ty(self);
                        let v = self.konst(p, &t, ar);
                        p.expect("to");
                        let t2 = p.ty(self);
                        p.expect(")");
                        if let (V::C(x), Ty::I(32), true) = (&v, &t2, id == "trunc") {
                            let x = *x;
                            if (x >> 32) != 0 {
                                let mut r = self.rel.borrow_mut();
                                r.push(x);
                                assert!(r.len() < 0x10_0000);
                                return V::C(REL_TAG + r.len() as u64 - 1);
                            }
                        }
                        match (v, &t2) {
                            (V::C(x), Ty::I(w)) if *w <= 64 => V::C(x & crate::expr::mask(*w) as u64),
                            (v, _) => v,
                        }
                    }
                    "sub" | "add" | "xor" | "mul" => {
                        p.ident_opt_flags();
                        p.expect("(");
                        let t = p.ty(self);
                        let a = self.konst(p, &t, ar);
                        p.expect(",");
                        let t2 = p.ty(self);
                        let b = self.konst(p, &t2, ar);
                        p.expect(")");
                        match (a, b) {
                            (V::C(x), V::C(y)) => V::C(match id { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), "mul" => x.wrapping_mul(y), _ => x ^ y } & crate::expr::mask(t.bits()) as u64),
                            _ => panic!("const expr"),
                        }
                    }
                    _ => panic!("constant `{}` at {}", id, p.ctx()),
                }
            }
        }
    }
    fn is_range(&self, p: &mut P) -> bool {
        // getelementptr inrange(...) (…): the group is followed by another '('
        let s = p.i;
        p.skip_group();
        let r = p.peek() == b'(';
        p.i = s;
        r
    }
    fn kfloat(&self, p: &mut P, w: u16) -> V {
        p.ws();
        let st = p.i;
        while p.i < p.end && !matches!(p.s[p.i], b',' | b' ' | b')' | b']' | b'}' | b'>' | b'\n') { p.i += 1; }
        let t = std::str::from_utf8(&p.s[st..p.i]).unwrap();
        let bits: u64 = if let Some(h) = t.strip_prefix("f0x") { u64::from_str_radix(h, 16).unwrap() }
        else if let Some(h) = t.strip_prefix("0x") {
            let d = u64::from_str_radix(h, 16).unwrap();
            if w == 32 { (f64::from_bits(d) as f32).to_bits() as u64 } else { d }
        } else {
            let d: f64 = match t { "+inf" | "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "+qnan" | "nan" | "+nan" => f64::NAN, "-qnan" => -f64::NAN, _ => t.parse().unwrap_or_else(|_| panic!("float {}", t)) };
            if w == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() }
        };
        V::C(bits)
    }
    fn klist(&self, p: &mut P, close: &str, ar: &RefCell<Arena>) -> V {
        let mut r = vec![];
        if p.eat(close) { return V::A(Rc::new(r)); }
        loop {
            let t = p.ty(self);
            r.push(self.konst(p, &t, ar));
            if p.eat(",") { continue; }
            p.expect(close);
            return V::A(Rc::new(r));
        }
    }
    pub fn global_init(&self, g: &Global, ar: &RefCell<Arena>) -> V {
        match g.init { Some((a, b)) => { let mut p = P::new(&self.text, a, b); self.konst(&mut p, &g.ty, ar) } None => zero_of(&g.ty) }
    }

    // ---- function bodies ----------------------------------------------------
    pub fn func(&self, idx: u32, ar: &RefCell<Arena>) -> Rc<Func> {
        if let Some(f) = self.decoded.borrow().get(&idx) { return f.clone(); }
        let f = Rc::new(self.decode(idx, ar));
        self.decoded.borrow_mut().insert(idx, f.clone());
        f
    }
    fn decode(&self, idx: u32, ar: &RefCell<Arena>) -> Func {
        let d = &self.funcs[idx as usize];
        let mut regs: HashMap<String, u32> = HashMap::new();
        // parameters
        let mut p = P::new(&self.text, d.header, d.body.0);
        while p.s[p.i] != b'@' { if p.s[p.i] == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } } p.i += 1; }
        p.i += 1;
        p.name();
        p.expect("(");
        let mut np = 0u32;
        let mut unnamed = 0u32;
        if !p.eat(")") {
            loop {
                if p.eat("...") { p.expect(")"); break; }
                p.ty(self);
                while p.peek() != b'%' && p.peek() != b',' && p.peek() != b')' { p.skip_attr(); }
                let nm = if p.peek() == b'%' { p.i += 1; p.name() } else { unnamed.to_string() };
                if nm == unnamed.to_string() { unnamed += 1; }
                regs.insert(nm, np);
                np += 1;
                if p.eat(",") { continue; }
                p.expect(")");
                break;
            }
        }
        // split lines, find labels
        let body = &self.text[d.body.0..d.body.1];
        let mut lines: Vec<(usize, usize)> = vec![];
        let mut blocks: Vec<(String, Vec<(usize, usize)>)> = vec![];
        let mut i = 0;
        let mut first = true;
        while i < body.len() {
            let e = body[i..].iter().position(|&b| b == b'\n').map_or(body.len(), |q| i + q);
            let l = &body[i..e];
            let (ga, gb) = (d.body.0 + i, d.body.0 + e);
            i = e + 1;
            if l.is_empty() || l[0] == b';' { continue; }
            if l[0] != b' ' && l[0] != b'\t' {
                // label
                let s = String::from_utf8_lossy(l);
                let name = if let Some(r) = s.strip_prefix('"') { r[..r.find('"').unwrap()].to_string() } else { s[..s.find(':').unwrap()].to_string() };
                blocks.push((name, vec![]));
                first = false;
                continue;
            }
            let t = std::str::from_utf8(l).map(|x| x.trim_start()).unwrap_or("");
            if t.starts_with(';') || t.starts_with("#dbg") || t.is_empty() { continue; }
            if first { blocks.push((unnamed.to_string(), vec![])); first = false; }
            // continuation lines of a switch or of an invoke are appended to the previous instruction
            let cont = t.starts_with(']') || t.starts_with("to label") || t.starts_with("catch") || t.starts_with("cleanup") || t.starts_with("filter")
                || (t.starts_with('i') && t[1..].starts_with(|c: char| c.is_ascii_digit()) && t.contains("label %"));
            let b = blocks.last_mut().unwrap();
            if cont { b.1.last_mut().unwrap().1 = gb; } else { b.1.push((ga, gb)); }
        }
        lines.clear();
        let bmap: HashMap<String, u32> = blocks.iter().enumerate().map(|(k, b)| (b.0.clone(), k as u32)).collect();
        let mut nregs = np;
        // pre-assign destination registers
        for (_, ls) in &blocks {
            for &(a, b) in ls {
                let mut p = P::new(&self.text, a, b);
                if p.peek() == b'%' { p.i += 1; let n = p.name(); if p.peek() == b'=' { regs.insert(n, nregs); nregs += 1; } }
            }
        }
        let mut out = vec![];
        for (name, ls) in &blocks {
            let mut blk = Block { name: name.clone(), phis: vec![], insts: vec![] };
            for &(a, b) in ls {
                let mut dcd = Dec { m: self, p: P::new(&self.text, a, b), regs: &regs, bmap: &bmap, ar };
                dcd.inst(&mut blk, nregs);
            }
            out.push(blk);
        }
        // all stack slots of a frame share one object: Alloca(dst, size, align) becomes Alloca(dst, size, offset)
        let mut frame = 0u64;
        for b in out.iter_mut() {
            for i in b.insts.iter_mut() {
                if let Inst::Alloca(_, size, al) = i {
                    let a = (*al).max(16);
                    frame = (frame + a - 1) / a * a;
                    *al = frame;
                    frame += *size + 16;
                }
            }
        }
        let ninst = out.iter().map(|b| b.insts.len() as u32).sum();
        Func { name: d.name.clone(), pretty: d.pretty.clone(), nparams: np, nregs: nregs + 1, blocks: out, idx, frame, ninst }
    }
}

impl<'a> P<'a> {
    fn ident_opt_flags(&mut self) { while self.peek() != b'(' { self.ident(); } }
}

struct Dec<'a> { m: &'a Module, p: P<'a>, regs: &'a HashMap<String, u32>, bmap: &'a HashMap<String, u32>, ar: &'a RefCell<Arena> }
impl<'a> Dec<'a> {
    fn val(&mut self, ty: &Ty) -> Opnd {
        if self.p.peek() == b'%' { self.p.i += 1; let n = self.p.name(); return Opnd::R(*self.regs.get(&n).unwrap_or_else(|| panic!("reg {}", n))); }
        Opnd::K(self.m.konst(&mut self.p, ty, self.ar))
    }
    fn tval(&mut self) -> (Ty, Opnd) { let t = self.p.ty(self.m); let v = self.val(&t); (t, v) }
    fn label(&mut self) -> u32 {
        self.p.expect("label");
        self.p.ws();
        self.p.i += 1;
        let n = self.p.name();
        *self.bmap.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }
    fn flags(&mut self, set: &[&str]) { loop { let id = self.p.peek_ident(); if set.contains(&id) { self.p.ident(); } else { break; } } }
    fn inst(&mut self, blk: &mut Block, scratch: u32) {
        const FM: &[&str] = &["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"];
        let mut dst = scratch;
        if self.p.peek() == b'%' { self.p.i += 1; let n = self.p.name(); self.p.expect("="); dst = self.regs[&n]; }
        let op = self.p.ident();
        let m = self.m;
        let bin = |o: Bin| Some(o);
        let b = match op {
            "add" => bin(Bin::Add), "sub" => bin(Bin::Sub), "mul" => bin(Bin::Mul), "udiv" => bin(Bin::UDiv), "sdiv" => bin(Bin::SDiv),
            "urem" => bin(Bin::URem), "srem" => bin(Bin::SRem), "shl" => bin(Bin::Shl), "lshr" => bin(Bin::LShr), "ashr" => bin(Bin::AShr),
            "and" => bin(Bin::And), "or" => bin(Bin::Or), "xor" => bin(Bin::Xor), "fadd" => bin(Bin::FAdd), "fsub" => bin(Bin::FSub),
            "fmul" => bin(Bin::FMul), "fdiv" => bin(Bin::FDiv), "frem" => bin(Bin::FRem), _ => None,
        };
        if let Some(b) = b {
            self.flags(&["nuw", "nsw", "exact", "disjoint", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
            let t = self.p.ty(m);
            let x = self.val(&t);
            self.p.expect(",");
            let y = self.val(&t);
            blk.insts.push(Inst::Bin(b, t, dst, x, y));
            return;
        }
        let i = match op {
            "fneg" => { self.flags(FM); let (t, x) = self.tval(); Inst::FNeg(t, dst, x) }
            "icmp" => {
                self.flags(&["samesign"]);
                let pr = match self.p.ident() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("pred {}", x) };
                self.flags(&["samesign"]);
                let t = self.p.ty(m);
                let x = self.val(&t);
                self.p.expect(",");
                let y = self.val(&t);
                Inst::ICmp(pr, t, dst, x, y)
            }
            "fcmp" => {
                self.flags(FM);
                let pr: Rc<str> = self.p.ident().into();
                let t = self.p.ty(m);
                let x = self.val(&t);
                self.p.expect(",");
                let y = self.val(&t);
                Inst::FCmp(pr, t, dst, x, y)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                self.flags(&["nuw", "nsw", "nneg", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let (t, x) = self.tval();
                self.p.expect("to");
                let t2 = self.p.ty(m);
                let c = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fpext" => Cast::FpExt, "fptrunc" => Cast::FpTrunc, _ => Cast::BitCast };
                Inst::Cast(c, t, t2, dst, x)
            }
            "select" => {
                self.flags(FM);
                let (ct, c) = self.tval();
                self.p.expect(",");
                let (t, x) = self.tval();
                self.p.expect(",");
                let (_, y) = self.tval();
                Inst::Select(t, dst, c, x, y, matches!(ct, Ty::Vec(..)))
            }
            "load" => {
                self.flags(&["atomic", "volatile"]);
                let t = self.p.ty(m);
                self.p.expect(",");
                let (_, a) = self.tval();
                Inst::Load(t, dst, a)
            }
            "store" => {
                self.flags(&["atomic", "volatile"]);
                let (t, v) = self.tval();
                self.p.expect(",");
                let (_, a) = self.tval();
                Inst::Store(t, v, a)
            }
            "alloca" => {
                let t = self.p.ty(m);
                let mut n = 1;
                let mut al = t.align();
                while self.p.eat(",") {
                    if self.p.eat("align") { al = self.p.int() as u64; } else if self.p.peek() == b'!' { break; } else { let (_, o) = self.tval(); if let Opnd::K(V::C(v)) = o { n = v; } else { panic!("dynamic alloca"); } }
                }
                Inst::Alloca(dst, t.size() * n, al)
            }
            "getelementptr" => {
                while !self.p.is_type_start() { self.p.ident(); if self.p.peek() == b'(' { self.p.skip_group(); } }
                let bt = self.p.ty(m);
                self.p.expect(",");
                let (_, base) = self.tval();
                let mut k = 0u64;
                let mut vars = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.p.eat(",") {
                    if self.p.peek() == b'!' { break; }
                    let (it, iv) = self.tval();
                    let w = match &it { Ty::I(w) => *w, _ => panic!("vector gep") };
                    let (scale, next) = if first { first = false; (cur.size(), cur.clone()) } else {
                        match &cur {
                            Ty::St(f, _) => {
                                let Opnd::K(V::C(ix)) = iv else { panic!("struct gep") };
                                k = k.wrapping_add(cur.field_off(ix as usize));
                                cur = f[ix as usize].clone();
                                continue;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), (**t).clone()),
                            _ => panic!("gep into {:?}", cur),
                        }
                    };
                    match iv {
                        Opnd::K(V::C(v)) => k = k.wrapping_add((crate::expr::sx(v as u128, w) as i64 as u64).wrapping_mul(scale)),
                        o => vars.push((o, scale, w)),
                    }
                    cur = next;
                }
                Inst::Gep(dst, base, k, vars.into())
            }
            "extractvalue" => {
                let (_, a) = self.tval();
                let mut ix = vec![];
                while self.p.eat(",") { if self.p.peek() == b'!' { break; } ix.push(self.p.int() as u32); }
                Inst::ExtractValue(dst, a, ix.into())
            }
            "insertvalue" => {
                let (t, a) = self.tval();
                self.p.expect(",");
                let (_, v) = self.tval();
                let mut ix = vec![];
                while self.p.eat(",") { if self.p.peek() == b'!' { break; } ix.push(self.p.int() as u32); }
                Inst::InsertValue(dst, t, a, v, ix.into())
            }
            "extractelement" => { let (t, a) = self.tval(); self.p.expect(","); let (_, ix) = self.tval(); Inst::ExtractElem(dst, t, a, ix) }
            "insertelement" => { let (t, a) = self.tval(); self.p.expect(","); let (_, v) = self.tval(); self.p.expect(","); let (_, ix) = self.tval(); Inst::InsertElem(dst, t, a, v, ix) }
            "shufflevector" => {
                let (t, a) = self.tval();
                self.p.expect(",");
                let (_, b2) = self.tval();
                self.p.expect(",");
                let mt = self.p.ty(m);
                let mk = self.m.konst(&mut self.p, &mt, self.ar);
                let V::A(v) = mk else { panic!() };
                let ix: Vec<i32> = v.iter().map(|x| if let V::C(c) = x { *c as i32 } else { 0 }).collect();
                Inst::Shuffle(dst, t, a, b2, ix.into())
            }
            "freeze" => { let (_, a) = self.tval(); Inst::Freeze(dst, a) }
            "phi" => {
                self.flags(FM);
                let t = self.p.ty(m);
                let mut inc = vec![];
                loop {
                    self.p.expect("[");
                    let v = self.val(&t);
                    self.p.expect(",");
                    self.p.ws();
                    self.p.i += 1;
                    let n = self.p.name();
                    self.p.expect("]");
                    inc.push((self.bmap[&n], v));
                    if !self.p.eat(",") { break; }
                    if self.p.peek() == b'!' { break; }
                }
                blk.phis.push((dst, inc));
                return;
            }
            "br" => {
                if self.p.peek_ident() == "label" { let l = self.label(); Inst::Br(l) } else {
                    let (_, c) = self.tval();
                    self.p.expect(",");
                    let a = self.label();
                    self.p.expect(",");
                    let b2 = self.label();
                    Inst::CondBr(c, a, b2)
                }
            }
            "switch" => {
                let (t, v) = self.tval();
                self.p.expect(",");
                let d = self.label();
                self.p.expect("[");
                let mut cs = vec![];
                while !self.p.eat("]") {
                    let ct = self.p.ty(m);
                    let k = match self.m.konst(&mut self.p, &ct, self.ar) { V::C(v) => v as u128, V::E(e) => self.ar.borrow().cval(e).unwrap(), _ => panic!() };
                    self.p.expect(",");
                    let l = self.label();
                    cs.push((k, l));
                }
                Inst::Switch(t, v, d, cs.into())
            }
            "ret" => { if self.p.peek_ident() == "void" { Inst::RetVoid } else { let (_, v) = self.tval(); Inst::Ret(v) } }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Unreachable,
            "landingpad" => Inst::LandingPad(dst),
            "fence" => Inst::Fence,
            "atomicrmw" => {
                self.flags(&["volatile"]);
                let o = match self.p.ident() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "max" => Rmw::Max, "min" => Rmw::Min, "nand" => Rmw::Nand, x => panic!("rmw {}", x) };
                let (_, a) = self.tval();
                self.p.expect(",");
                let (t, v) = self.tval();
                Inst::Rmw(o, t, dst, a, v)
            }
            "cmpxchg" => {
                self.flags(&["weak", "volatile"]);
                let (_, a) = self.tval();
                self.p.expect(",");
                let (t, c) = self.tval();
                self.p.expect(",");
                let (_, n) = self.tval();
                Inst::CmpXchg(t, dst, a, c, n)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { self.p.expect("call"); }
                self.p.skip_attrs_to_type();
                let ty = self.p.ty(m);
                if self.p.peek() == b'(' { self.p.skip_group(); }
                self.p.ws();
                let callee = match self.p.s[self.p.i] {
                    b'@' => {
                        self.p.i += 1;
                        let n = self.p.name();
                        let n = self.m.resolve(&n);
                        if let Some(&f) = self.m.fmap.get(&n) { Callee::Fun(f) } else { Callee::Ext(self.m.ext_id(&n)) }
                    }
                    b'%' => Callee::Ind(self.val(&Ty::Ptr)),
                    _ => {
                        if self.p.peek_ident() == "asm" {
                            self.p.ident();
                            while self.p.peek() != b'"' { self.p.ident(); }
                            self.p.i += 1;
                            let st = self.p.i;
                            while self.p.s[self.p.i] != b'"' { self.p.i += 1; }
                            let s: Rc<str> = String::from_utf8_lossy(&self.p.s[st..self.p.i]).into_owned().into();
                            self.p.i += 1;
                            self.p.expect(",");
                            self.p.ws();
                            self.p.i += 1;
                            while self.p.s[self.p.i] != b'"' { self.p.i += 1; }
                            self.p.i += 1;
                            Callee::Asm(s)
                        } else { Callee::Ind(self.val(&Ty::Ptr)) }
                    }
                };
                self.p.expect("(");
                let mut args = vec![];
                if !self.p.eat(")") {
                    loop {
                        let t = self.p.ty(m);
                        if t == Ty::Other {
                            // metadata argument
                            let mut d = 0;
                            loop {
                                match self.p.s[self.p.i] { b'(' => d += 1, b')' => { if d == 0 { break; } d -= 1; } b',' => if d == 0 { break; }, _ => {} }
                                self.p.i += 1;
                            }
                            args.push((t, Opnd::K(V::C(0))));
                        } else {
                            while !self.p.is_value_start() { self.p.skip_attr(); }
                            let v = self.val(&t);
                            args.push((t, v));
                        }
                        if self.p.eat(",") { continue; }
                        self.p.expect(")");
                        break;
                    }
                }
                let mut normal = u32::MAX;
                if op == "invoke" {
                    // find "to label"
                    let rest = &self.p.s[self.p.i..self.p.end];
                    let k = rest.windows(8).position(|w| w == b"to label").expect("invoke");
                    self.p.i += k + 2;
                    normal = self.label();
                }
                Inst::Call { dst, ty, callee, args: args.into(), normal }
            }
            _ => Inst::Unsupported(format!("{} in {}", op, self.p.ctx()).into()),
        };
        blk.insts.push(i);
    }
}
