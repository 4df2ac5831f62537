//! bound: single pages with every header field arbitrary, 1 to 3 and 255 segments, every lacing value for one segment (several otherwise), arbitrary first and last bytes; truncation at every point of the header and of the body end
//! bound: checksums: one arbitrary byte at any place among up to 8 (thorough: 32) bytes of 0, 0x5a or 0xff, against the bitwise definition of the CRC
//! bound: pagination: one to three packets of 0, 1, 254..256, 510, 8159..8161, 16320 and 16321 bytes, arbitrary serial number, granule position and flags
//! bound: reading: two packets of 0..600 bytes, split into pages after any segment, in front of another page, with read counts of -1 to 3
//! secs: 60
use crate::sym::*;
use crate::util::*;
use ogg_pager::{crc32, paginate, Packets, Page, PageHeader};

fn bitwise(b: &[u8]) -> u32 {
    let mut c = 0u32;
    for x in b {
        c ^= (*x as u32) << 24;
        for _ in 0..8 { c = (c << 1) ^ (0x04c1_1db7 & (c >> 31).wrapping_neg()); }
    }
    c
}
const SIZES: [usize; 11] = [0, 1, 254, 255, 256, 510, 8159, 8160, 8161, 16320, 16321];
fn body(n: usize, k: u8) -> Vec<u8> {
    let mut v = vec![k; n];
    if n > 0 { v[0] = u8(); v[n - 1] = u8(); }
    v
}

harnesses! {
    fn h_page() {
        let kind = choose(5);
        let segs: Vec<u8> = match kind { 0 => vec![conc(u8() as u64) as u8], 1 => vec![255, [0u8, 1, 254][choose(3)]], 2 => vec![[0u8, 9][choose(2)], 255, 7], 3 => vec![0; 255], _ => vec![255; 255] };
        let n: usize = segs.iter().map(|x| *x as usize).sum();
        let (fl, g, se, sq) = (u8(), u64(), u32(), u32());
        let ck: [u8; 4] = bytes();
        let b = body(n, 0x3c);
        let mut v = page(fl, g, se, sq, &segs, &b);
        v[22..26].copy_from_slice(&ck);
        let len = v.len();
        v.extend_from_slice(b"tail");
        let lead = choose(2) * 3;
        let mut w = vec![9; lead];
        w.extend_from_slice(&v);
        let mut c = Cursor::new(&w[..]);
        c.set_position(lead as u64);
        let r = Page::read(&mut c);
        check(r.is_ok(), "a well-formed page is read");
        let Ok(p) = r else { return };
        check(same(&p.as_bytes(), &v[..len]), "a page read is written back unchanged");
        check(same(p.content(), &b), "page content");
        check(p.end == (lead + len) as u64 && c.position() == p.end, "the reader is behind the page");
        let h = p.header();
        check(h.start == lead as u64 && h.header_type_flag() == fl && h.abgp == g && h.stream_serial == se && h.sequence_number == sq && h.checksum() == u32::from_le_bytes(ck), "page header");
        check(h.content_size() == n, "content size");
        reach(1);
    }
    fn h_page_bad() {
        let mut v = page(u8(), u64(), u32(), u32(), &[3, 0], &[1, 2, 3]);
        match choose(4) {
            0 => { let m: [u8; 4] = bytes(); assume(!same(&m, b"OggS")); v[..4].copy_from_slice(&m); }
            1 => { let x = u8(); assume(x != 0); v[4] = x; }
            2 => v[26] = 0,
            _ => { let n = choose(v.len()); v.truncate(n); }
        }
        check(Page::read(&mut Cursor::new(&v[..])).is_err(), "a malformed or truncated page is refused");
        reach(1);
    }
    fn h_crc() {
        let n = 1 + choose(t(8, 32));
        let mut v = vec![[0x5au8, 0, 0xff][choose(3)]; n];
        let i = choose(n);
        v[i] = u8();
        check(crc32(&v) == bitwise(&v), "the CRC is that of the Ogg framing");
        reach(1);
    }
    fn h_gen_crc() {
        let n = choose(3);
        let mut b = vec![0x11; [3usize, 300, 9][n]];
        b[2] = u8();
        let mut v = page(4, 77, 5, 6, &lace(b.len()), &b);
        v[22..26].copy_from_slice(&[1, 2, 3, 4]);
        let Ok(mut p) = Page::read(&mut Cursor::new(&v[..])) else { check(false, "a well-formed page is read"); return };
        p.header_mut().sequence_number = 9;
        p.gen_crc();
        let mut want = page(4, 77, 5, 9, &lace(b.len()), &b);
        let c = bitwise(&want);
        check(p.header().checksum() == c, "the checksum covers the page with a checksum of 0");
        want[22..26].copy_from_slice(&c.to_le_bytes());
        check(same(&p.as_bytes(), &want), "only number and checksum change");
        reach(1);
    }
    fn h_paginate() {
        let np = 1 + choose(t(2, 3));
        let mut packets = vec![];
        for k in 0..np { let n = if k == 0 { SIZES[choose(11)] } else { SIZES[[0usize, 1, 7][choose(3)]] }; packets.push(body(n, k as u8 + 1)); }
        let (serial, granule) = (u32(), u64());
        assume(granule != u64::MAX);
        let flags = [0u8, 2, 4, 6][choose(4)];
        let r = paginate(packets.iter().map(|p| &p[..]), serial, granule, flags);
        check(r.is_ok(), "packets are paginated");
        let Ok(pages) = r else { return };
        check(pages.len() > 0, "packets need a page");
        let (mut cur, mut at) = (0usize, 0usize);
        for (i, p) in pages.iter().enumerate() {
            let h = p.header();
            let last = i + 1 == pages.len();
            let cont = at > 0;
            check(h.header_type_flag() & 1 == cont as u8, "continuation flag");
            check(h.header_type_flag() & 2 == if i == 0 { flags & 2 } else { 0 }, "first page flag");
            check(h.header_type_flag() & 4 == if last { flags & 4 } else { 0 }, "last page flag");
            check(h.stream_serial == serial && h.sequence_number == i as u32, "serial and sequence number");
            let b = p.as_bytes();
            let ns = b[26] as usize;
            check(ns > 0, "pages have segments");
            let mut off = 27 + ns;
            let mut done = false;
            for s in &b[27..27 + ns] {
                let n = *s as usize;
                check(cur < np && at + n <= packets[cur].len(), "lacing stays inside the packet");
                if cur >= np || at + n > packets[cur].len() { return; }
                check(same(&b[off..off + n], &packets[cur][at..at + n]), "packet content");
                off += n;
                at += n;
                if n < 255 { check(at == packets[cur].len(), "a packet ends where its data ends"); cur += 1; at = 0; done = true; }
            }
            check(off == b.len(), "lacing covers the page");
            check(h.abgp == if done { granule } else { u64::MAX }, "granule position on pages that finish a packet");
        }
        check(cur == np, "all packets are written");
        reach(1);
    }
    fn h_roundtrip() {
        let np = 1 + choose(2);
        let mut packets = vec![];
        for k in 0..np { packets.push(body(SIZES[[10usize, 0, 3, 7, 5][choose(t(3, 5))]], k as u8 + 1)); }
        let Ok(pages) = paginate(packets.iter().map(|p| &p[..]), 7, 0, 2) else { check(false, "packets are paginated"); return };
        let mut v = vec![];
        for p in &pages { v.extend(p.as_bytes()); }
        let n = v.len() as u64;
        v.extend(page(1, 5, 7, 99, &[1], &[8]));
        let mut c = Cursor::new(&v[..]);
        let r = Packets::read_count(&mut c, np as isize);
        check(r.is_ok(), "paginated packets are read");
        let Ok(q) = r else { return };
        check(c.position() == n, "reading stops behind the last packet");
        check(q.len() == np && !q.is_empty(), "packet count");
        for k in 0..np { check(matches!(q.get(k), Some(x) if same(x, &packets[k])), "packets come back unchanged"); }
        check(q.get(np).is_none(), "no more packets");
        let mut out = vec![];
        let w = q.write_to(&mut out, 7, 0, 2);
        check(matches!(w, Ok(x) if x == pages.len()), "the number of pages written is returned");
        check(out.len() as u64 == n, "writing gives the same pages");
        reach(1);
    }
    fn h_set() {
        let lens = [3usize, 0, 300];
        let mut v = vec![];
        let mut packets = vec![];
        for (k, n) in lens.iter().enumerate() { let b = body(*n, k as u8); v.extend(page(0, 0, 1, k as u32, &lace(*n), &b)); packets.push(b); }
        let Ok(mut q) = Packets::read(&mut Cursor::new(&v[..])) else { check(false, "packets are read"); return };
        let k = choose(4);
        let b = body([0usize, 1, 5, 400][choose(4)], 0x77);
        check(q.set(k, b.clone()) == (k < 3), "only existing packets are replaced");
        if k < 3 { packets[k] = b; }
        check(q.len() == 3, "the number of packets stays");
        let mut i = 0;
        for x in &q { check(i < 3 && same(x, &packets[i]), "iteration"); i += 1; }
        check(i == 3, "iteration ends");
        for i in 0..3 { check(matches!(q.get(i), Some(x) if same(x, &packets[i])), "look-up"); }
        reach(1);
    }
    fn h_read() {
        // any division of the segments into pages
        let (a, b) = ([0usize, 5, 255, 300, 600][choose(5)], [0usize, 254, 510][choose(3)]);
        let pk = [body(a, 1), body(b, 2), vec![9; 4]];
        let mut segs = vec![];
        let mut data = vec![];
        for p in &pk { segs.extend(lace(p.len())); data.extend_from_slice(p); }
        let (mut v, mut off, mut start, mut seq) = (vec![], 0, 0, 0);
        for i in 0..segs.len() {
            if i + 1 == segs.len() || choose(2) == 1 {
                let s = &segs[start..=i];
                let n: usize = s.iter().map(|x| *x as usize).sum();
                v.extend(page((start > 0 && segs[start - 1] == 255) as u8, 0, 1, seq, s, &data[off..off + n]));
                off += n; start = i + 1; seq += 1;
            }
        }
        let count = [-1isize, 0, 1, 2, 3, 4][choose(6)];
        let r = Packets::read_count(&mut Cursor::new(&v[..]), count);
        if count == 4 { check(r.is_err(), "missing packets are an error"); reach(1); return; }
        check(r.is_ok(), "packets are read");
        let Ok(q) = r else { return };
        let n = if count < 0 { 3 } else { count as usize };
        check(q.len() == n, "packet count");
        for k in 0..n { check(matches!(q.get(k), Some(x) if same(x, &pk[k])), "packets do not depend on the division into pages"); }
        reach(2);
    }
    fn h_header_new() {
        let (f, g, s, q) = (u8(), u64(), u32(), u32());
        let h = PageHeader::new(f, g, s, q);
        check(h.header_type_flag() == f && h.abgp == g && h.stream_serial == s && h.sequence_number == q && h.content_size() == 0, "a new header");
        reach(1);
    }
}
