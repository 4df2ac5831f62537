//! bound: printing and reparsing: every year 0-9999, month, day, hour, minute and second, with any number of trailing components absent, in all three modes
//! bound: a year and month behind 0 to 3 arbitrary white-space characters, in all three modes
//! bound: arbitrary bytes: every string of up to 8 (thorough 10) bytes, and every continuation by up to 6 (thorough 9) bytes of a year, a date and a date with hour, in all three modes, cut at 19 bytes
use crate::sym::*;
use crate::util::*;
use lofty::tag::items::Timestamp;

pub fn mode(k: usize) -> ParsingMode { [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed][k] }
/// A decimal field below `lim` as its digits, and its value
fn num<const N: usize>(lo: u32, hi: u32) -> ([u8; N], u32) {
    let d: [u8; N] = bytes();
    let mut v = 0u32;
    for x in d { assume((x >= b'0') & (x <= b'9')); v = v * 10 + (x - b'0') as u32; }
    assume((v >= lo) & (v <= hi));
    (d, v)
}
fn parse(b: &[u8], m: ParsingMode) -> Option<Option<Timestamp>> { Timestamp::parse(&mut &b[..], m).ok() }
fn eq(a: &Timestamp, b: &Timestamp) -> bool {
    fn o(a: Option<u8>, b: Option<u8>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x == y, _ => false } }
    (a.year == b.year) & o(a.month, b.month) & o(a.day, b.day) & o(a.hour, b.hour) & o(a.minute, b.minute) & o(a.second, b.second)
}
fn count(t: &Timestamp) -> usize {
    1 + t.month.is_some() as usize + t.day.is_some() as usize + t.hour.is_some() as usize + t.minute.is_some() as usize + t.second.is_some() as usize
}
/// The components are the leading decimal digits of the text, in order, without a gap
fn digits_match(b: &[u8], ts: &Timestamp) {
    let d: Vec<u8> = b.iter().copied().filter(|x| decide((*x >= b'0') & (*x <= b'9'))).collect();
    let f = [Some(ts.year as u32), ts.month.map(|x| x as u32), ts.day.map(|x| x as u32), ts.hour.map(|x| x as u32), ts.minute.map(|x| x as u32), ts.second.map(|x| x as u32)];
    let mut at = 0;
    let mut gap = false;
    for (i, c) in f.iter().enumerate() {
        let w = if i == 0 { 4 } else { 2 };
        match c {
            None => gap = true,
            Some(c) => {
                check(!gap, "a component after an absent one");
                check(at + w <= d.len(), "a component without digits");
                if at + w > d.len() { return; }
                let v = d[at..at + w].iter().fold(0u32, |v, x| v * 10 + (*x - b'0') as u32);
                check(v == *c, "a component differs from its digits");
                at += w;
            }
        }
    }
}
fn arbitrary(b: &[u8]) {
    let k = choose(3);
    let r = parse(b, mode(k));
    if let Some(Some(ts)) = r {
        check(ts.year <= 9999, "year has four digits");
        for c in [ts.month, ts.day, ts.hour, ts.minute, ts.second] { if let Some(c) = c { check(c <= 99, "component has two digits"); } }
        if k == 0 {
            digits_match(b, &ts);
            for m in 1..3 {
                let r = parse(b, mode(m));
                check(matches!(&r, Some(Some(x)) if eq(x, &ts)), "what Strict accepts the other modes accept alike");
            }
            reach(1);
        } else if k == 1 {
            let r = parse(b, mode(2));
            check(matches!(&r, Some(Some(x)) if eq(x, &ts)), "what BestAttempt accepts Relaxed accepts alike");
            reach(2);
        }
    }
}

harnesses! {
    /// Leading white space is skipped outside of strict mode
    fn h_space() {
        let n = choose(4);
        let mut b = vec(n);
        for c in &b { assume((*c == b' ') | (*c == b'\t') | (*c == b'\n') | (*c == 0x0c) | (*c == b'\r')); }
        let (yd, y) = num::<4>(0, 9999);
        let (md, m) = num::<2>(1, 12);
        b.extend_from_slice(&yd);
        b.push(b'-');
        b.extend_from_slice(&md);
        let k = choose(3);
        let want = Timestamp { year: y as u16, month: Some(m as u8), ..Timestamp::default() };
        let r = parse(&b, mode(k));
        if k == 0 && n > 0 { check(r.is_none(), "strict mode refuses white space in front"); reach(1); }
        else { check(matches!(&r, Some(Some(t)) if eq(t, &want)), "a timestamp behind white space is read"); reach(2); }
    }
    fn h_roundtrip() {
        let n = choose(6);
        // one numeral system for value and digits keeps the printed digits tied to the value
        let (yd, y) = num::<4>(0, 9999);
        let lim = [(1, 12), (1, 31), (0, 23), (0, 59), (0, 59)];
        let mut ts = Timestamp { year: y as u16, ..Timestamp::default() };
        let mut text = yd.to_vec();
        let sep = b"--T::";
        for i in 0..n {
            let (d, v) = num::<2>(lim[i].0, lim[i].1);
            let v = Some(v as u8);
            match i { 0 => ts.month = v, 1 => ts.day = v, 2 => ts.hour = v, 3 => ts.minute = v, _ => ts.second = v }
            text.push(sep[i]);
            text.extend_from_slice(&d);
        }
        let m = mode(choose(3));
        let r = parse(&text, m);
        check(matches!(&r, Some(Some(x)) if eq(x, &ts)), "a valid timestamp text is parsed to its components");
        reach(3);
        let bare: Vec<u8> = text.iter().copied().filter(|c| *c != b'-' && *c != b':').collect();
        if n <= 5 {
            let r = parse(&bare, m);
            check(matches!(&r, Some(Some(x)) if eq(x, &ts)), "a valid timestamp text without separators is parsed to its components");
            reach(4);
        }
    }
    fn h_print_date() {
        let (yl, m, d) = (u8(), u8(), u8());
        let y = choose(100) as u16 * 100 + yl as u16;
        assume((yl <= 99) & (m >= 1) & (m <= 12) & (d >= 1) & (d <= 31));
        let n = choose(3);
        let ts = Timestamp { year: y, month: if n > 0 { Some(m) } else { None }, day: if n > 1 { Some(d) } else { None }, ..Timestamp::default() };
        let s = ts.to_string();
        check(s.len() == 4 + 3 * n, "printed length");
        for k in 0..3 {
            let r = parse(s.as_bytes(), mode(k));
            check(matches!(&r, Some(Some(x)) if eq(x, &ts)), "the printed date parses back");
        }
        check(matches!(s.parse::<Timestamp>(), Ok(x) if eq(&x, &ts)), "FromStr of the printed date");
        reach(5);
    }
    fn h_print_time() {
        let (h, m, s) = (u8(), u8(), u8());
        assume((h <= 23) & (m <= 59) & (s <= 59));
        let n = choose(4);
        let ts = Timestamp { year: 2024, month: Some(6), day: Some(3), hour: if n > 0 { Some(h) } else { None }, minute: if n > 1 { Some(m) } else { None }, second: if n > 2 { Some(s) } else { None } };
        let p = ts.to_string();
        check(p.len() == 10 + 3 * n, "printed length");
        for k in 0..3 {
            let r = parse(p.as_bytes(), mode(k));
            check(matches!(&r, Some(Some(x)) if eq(x, &ts)), "the printed time parses back");
        }
        reach(6);
    }
    fn h_any() {
        let n = choose(t(9, 11));
        let b = vec(n);
        if n == 0 {
            check(parse(&b, ParsingMode::Strict).is_none(), "Strict rejects empty input");
            check(matches!(parse(&b, ParsingMode::Relaxed), Some(None)), "Relaxed reports empty input as absent");
        }
        arbitrary(&b);
    }
    fn h_any_tail() {
        let pre: &[u8] = [&b"1999"[..], b"1999-12", b"1999-12-31", b"1999-12-31T23", b"19991231T23", b"1999-12-31T23:59"][choose(6)];
        let n = choose(t(7, 10));
        let mut b = pre.to_vec();
        b.extend_from_slice(&vec(n));
        arbitrary(&b);
    }
    fn h_order() {
        // lexicographic by component, absent first
        let f = |n: usize| { let b: [u8; 4] = bytes(); Timestamp { year: (b[0] as u16) << 4, month: if n > 0 { Some(b[1]) } else { None }, day: if n > 1 { Some(b[2]) } else { None }, hour: if n > 2 { Some(b[3]) } else { None }, minute: None, second: None } };
        let a = f(choose(4));
        let b = f(choose(4));
        use std::cmp::Ordering::*;
        let o = a.cmp(&b);
        check(o == b.cmp(&a).reverse(), "order is antisymmetric");
        check((o == Equal) == eq(&a, &b), "order agrees with equality");
        if a.year != b.year { check(o == a.year.cmp(&b.year), "year dominates"); reach(7); }
    }
}
