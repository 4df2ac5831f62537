//! Interface between harnesses and the symbolic executor (or, in the `native` build, the replayer).
#![allow(dead_code)]
pub mod ffi {
    extern "C-unwind" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(b: bool);
        pub fn sym_check(b: bool, m: *const u8, n: usize);
        pub fn sym_reach(id: u32);
        pub fn sym_note(k: u32, v: u64);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_decide(b: bool) -> bool;
        pub fn sym_alloc_limit(n: u64);
    }
}
use ffi::*;

/// Thorough tier: larger bounds.
pub const T: bool = cfg!(feature = "thorough");
pub const fn t(quick: usize, thorough: usize) -> usize { if T { thorough } else { quick } }

/// Fill with fresh symbolic bytes.
pub fn fill(b: &mut [u8]) { unsafe { sym_bytes(b.as_mut_ptr(), b.len()) } }
pub fn bytes<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; fill(&mut b); b }
pub fn vec(n: usize) -> Vec<u8> { let mut b = vec![0u8; n]; fill(&mut b); b }
pub fn u8() -> u8 { bytes::<1>()[0] }
pub fn u16() -> u16 { u16::from_le_bytes(bytes()) }
pub fn u32() -> u32 { u32::from_le_bytes(bytes()) }
pub fn u64() -> u64 { u64::from_le_bytes(bytes()) }
pub fn bool() -> bool { let x = u8(); assume(x < 2); x == 1 }
/// A value below `n`, split into one path per value.
pub fn choose(n: usize) -> usize { let x = u8(); assume((x as usize) < n); conc(x as u64) as usize }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
#[track_caller]
pub fn check(b: bool, m: &'static str) { unsafe { sym_check(b, m.as_ptr(), m.len()) } }
/// Mark that this point is reached (checked by the driver against vacuity).
pub fn reach(id: u32) { unsafe { sym_reach(id) } }
/// Record a value of the path, compared between the executor and the native run.
pub fn note(k: u32, v: u64) { unsafe { sym_note(k, v) } }
/// Split into one path per value.
pub fn conc(v: u64) -> u64 { unsafe { sym_concretize(v) } }
pub fn decide(b: bool) -> bool { unsafe { sym_decide(b) } }
/// From here on no single allocation may exceed `n` bytes.
pub fn alloc_limit(n: u64) { unsafe { sym_alloc_limit(n) } }

/// Byte equality as one condition.
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a.iter().zip(b).fold(true, |x, (p, q)| x & (p == q)) }
pub fn same_str(a: &str, b: &str) -> bool { same(a.as_bytes(), b.as_bytes()) }
/// Concretise the length of a slice (symbolic lengths only).
pub fn be32(b: &[u8]) -> u32 { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) }
pub fn le32(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
pub fn be16(b: &[u8]) -> u16 { u16::from_be_bytes([b[0], b[1]]) }
pub fn le16(b: &[u8]) -> u16 { u16::from_le_bytes([b[0], b[1]]) }
/// Some printable ASCII character (never NUL).
pub fn ascii() -> u8 { let x = u8(); assume((0x20..0x7f).contains(&x)); x }
pub fn ascii_str(n: usize) -> String {
    let mut v = vec(n);
    for x in &mut v { assume((*x >= 0x20) & (*x < 0x7f)); }
    // all bytes are ASCII
    unsafe { String::from_utf8_unchecked(v) }
}

#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $n:ident () $b:block )*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $n() { body::$n() } )*
        #[allow(unused_imports)]
        mod body { use super::*; $( pub fn $n() $b )* }
        pub const ALL: &[(&str, fn())] = &[$((stringify!($n), body::$n)),*];
    };
}
