//! JPEG XL: containers built from picked boxes with symbolic payloads; independent reader.
use crate::common::*;
use crate::jpg::{nothing, orientation, raw_op, small_tiff};

pub const T: FileExtension = FileExtension::JXL;
/// form: 0 32 bit size, 1 64 bit size, 2 up to the end of the file
pub fn bx(name: &[u8], data: &[u8], form: usize) -> Vec<u8> {
    let n = data.len() as u64 + if form == 1 { 16 } else { 8 };
    let mut v = match form { 0 => (n as u32).to_be_bytes(), 1 => 1u32.to_be_bytes(), _ => [0; 4] }.to_vec();
    v.extend_from_slice(name); if form == 1 { v.extend_from_slice(&n.to_be_bytes()); } v.extend_from_slice(data); v
}
pub const SIG: [u8; 12] = [0, 0, 0, 12, b'J', b'X', b'L', b' ', 13, 10, 0x87, 10];
pub fn ftyp() -> Vec<u8> { bx(b"ftyp", b"jxl \0\0\0\0jxl ", 0) }
/// A Brotli stream holding `d` uncompressed
pub fn brotli(d: &[u8]) -> Vec<u8> { let h = (d.len() as u32 - 1) << 4 | 1 << 20; let mut v = h.to_le_bytes()[..3].to_vec(); v.extend_from_slice(d); v.push(3); v }
/// kind: 0 kept, 1 EXIF
pub struct Piece { pub kind: u8, pub b: Vec<u8> }
pub struct Jxl { pub ps: Vec<Piece>, pub first: Option<u16>, pub naked: bool }
impl Jxl {
    fn add(&mut self, kind: u8, b: Vec<u8>) { self.ps.push(Piece { kind, b }) }
    pub fn bytes(&self) -> Vec<u8> { self.ps.iter().flat_map(|p| p.b.iter().copied()).collect() }
    pub fn cleared(&self) -> Vec<u8> { self.ps.iter().filter(|p| p.kind == 0).flat_map(|p| p.b.iter().copied()).collect() }
}
fn name() -> Vec<u8> { let n = sx::vec(4); for x in &n { sx::assume(x.is_ascii_lowercase()); } sx::assume(n[0] != b'b' && n[0] != b'f' && n[0] != b'j'); n }
/// content of an Exif box. 0: with EXIF header, 1: TIFF data at once, 2: other bytes before the TIFF data
fn exif(j: &mut Jxl, how: usize) -> Vec<u8> {
    let val = sx::u16(); if j.first.is_none() { j.first = Some(val); }
    let pre: Vec<u8> = match how { 0 => b"Exif\0\0".to_vec(), 1 => vec![], _ => sx::vec(2) };
    let mut v = (pre.len() as u32).to_be_bytes().to_vec(); v.extend_from_slice(&pre); v.extend(small_tiff(how % 2 == 0, val)); v
}
/// kinds: 0 nothing, 1 Exif, 2 Exif without EXIF header, 3 compressed Exif, 4 jxll, 5 xml, 6 other compressed box, 7 other box, 8 empty box, 9 Exif with 64 bit size, 10 other box with 64 bit size, 11 Exif with an offset, 14 large boxes
fn slot(j: &mut Jxl, kind: usize) {
    match kind {
        1 | 2 | 9 | 11 => { let d = exif(j, match kind { 2 => 1, 11 => 2, _ => 0 }); j.add(1, bx(b"Exif", &d, (kind == 9) as usize)) }
        3 => { let mut d = b"Exif".to_vec(); let e = exif(j, 1); d.extend(brotli(&e)); j.add(1, bx(b"brob", &d, 0)) }
        4 => { let d = sx::vec(1); j.add(0, bx(b"jxll", &d, 0)) }
        5 => { let d = sx::vec(4); j.add(0, bx(b"xml ", &d, 0)) }
        6 => { let d = sx::vec(6); sx::assume(!(d[0] == b'E' && d[1] == b'x' && d[2] == b'i' && d[3] == b'f')); j.add(0, bx(b"brob", &d, 0)) }
        7 | 10 => { let n = name(); let d = sx::vec(3); j.add(0, bx(&n, &d, (kind == 10) as usize)) }
        14 => { let s = big(70001); j.add(0, bx(b"xml ", &s, 0)); let s = big(257); j.add(0, bx(b"jumb", &s, 0)) }
        8 => { let n = name(); j.add(0, bx(&n, &[], 0)) }
        _ => {}
    }
}
pub const KINDS: usize = 12;
/// slots: two before the codestream, one after; last: 0 nothing special, 1 codestream up to the end, 2 Exif up to the end, 3 partial codestreams, 4 naked codestream
pub fn build(last: usize, slots: &[usize]) -> Jxl {
    let mut j = Jxl { ps: vec![], first: None, naked: last == 4 };
    if last == 4 { let mut d = vec![0xff, 0x0a]; sym(&mut d, 4); j.add(0, d); return j; }
    j.add(0, SIG.to_vec()); j.add(0, ftyp());
    for (i, s) in slots.iter().enumerate() {
        if i == 2 && last != 1 { let d = sx::vec(3); if last == 3 { j.add(0, bx(b"jxlp", &d, 0)); } else { j.add(0, bx(b"jxlc", &d, 0)); } }
        let k = if *s == 13 { sx::pick(KINDS as u64) as usize } else { *s }; slot(&mut j, k);
    }
    match last {
        1 => { let d = sx::vec(9); j.add(0, bx(b"jxlc", &d, 2)) }
        2 => { let d = exif(&mut j, 0); j.add(1, bx(b"Exif", &d, 2)) }
        3 => { let d = sx::vec(5); j.add(0, bx(b"jxlp", &d, 0)) }
        _ => {}
    }
    j
}
/// Independent reader: (start, start of the content, end) of all boxes
fn boxes(v: &[u8]) -> Result<Vec<(usize, usize, usize)>, &'static str> {
    let (mut i, mut r) = (0, vec![]);
    while i < v.len() {
        if i + 8 > v.len() { return Err("box truncated"); }
        let (mut n, mut h) = (get32(v, i, false) as u64, 8);
        if n == 1 { if i + 16 > v.len() { return Err("box truncated"); } n = (get32(v, i + 8, false) as u64) << 32 | get32(v, i + 12, false) as u64; h = 16; }
        if n == 0 { n = (v.len() - i) as u64; }
        if n < h as u64 || n > (v.len() - i) as u64 { return Err("box size"); }
        r.push((i, i + h, i + n as usize)); i += n as usize;
    }
    Ok(r)
}
fn ok(r: std::io::Result<()>, m: &'static str) { sx::check(r.is_ok(), m) }
harnesses! {
    // (last, slot, slot, slot, metadata kind, text length)
    fn h_jxl_write() {
        let j = build(p(0), &[p(1), p(2), p(3)]);
        let mut v = j.bytes();
        let m = meta(p(4), p(5));
        ok(m.write_to_vec(&mut v, T), "writing to a valid JXL succeeds");
        let bs = match boxes(&v) { Ok(c) => c, Err(e) => { sx::check(false, e); unreachable!() } };
        let ex: Vec<_> = bs.iter().filter(|b| &v[b.0 + 4..b.0 + 8] == b"Exif" || &v[b.0 + 4..b.0 + 8] == b"brob" && b.2 - b.1 >= 4 && &v[b.1..b.1 + 4] == b"Exif").collect();
        sx::check(ex.len() == 1, "exactly one box holds EXIF data");
        let e = ex[0];
        let off = get32(&v, e.1, false) as usize;
        sx::check(e.1 + 4 + off + 8 <= e.2, "the offset of the EXIF data lies in its box");
        let t = &v[e.1 + 4 + off..e.2];
        sx::check(t.starts_with(b"II*\0") || t.starts_with(b"MM\0*"), "the offset leads to the EXIF data");
        sx::check(e.0 >= 32, "signature and file type come first");
        let mut rest = v[..e.0].to_vec(); rest.extend_from_slice(&v[e.2..]);
        let want = if j.naked { let mut w = SIG.to_vec(); w.extend(ftyp()); w.extend(bx(b"jxlc", &j.bytes(), 0)); w } else { j.cleared() };
        sx::check(rest.len() == want.len(), "all other boxes are kept, and no others");
        sx::check(sx::same(&rest, &want), "every box not holding EXIF data is unchanged and in order");
        match Metadata::new_from_vec(&v, T) { Ok(b) => sx::check(same_meta(&m, &b) && b.get_endian() == m.get_endian(), "exactly the written metadata is read"), Err(_) => sx::check(false, "the written metadata is read") }
        let once = v.clone();
        ok(m.write_to_vec(&mut v, T), "writing again succeeds");
        sx::check(sx::same(&v, &once), "writing the same metadata again changes nothing");
        sx::reach("ok");
    }
    // (last, slot, slot, slot)
    fn h_jxl_read() {
        let j = build(p(0), &[p(1), p(2), p(3)]);
        let r = Metadata::new_from_vec(&j.bytes(), T);
        match j.first { Some(val) => { orientation(&r, val); sx::reach("found"); } None => { sx::check(nothing(&r), "no EXIF data, no metadata"); sx::reach("none"); } }
    }
    // (last, slot, slot, slot)
    fn h_jxl_clear() {
        let j = build(p(0), &[p(1), p(2), p(3)]);
        let mut v = j.bytes();
        ok(Metadata::clear_metadata(&mut v, T), "clearing a valid JXL succeeds");
        let want = j.cleared();
        sx::check(v.len() == want.len(), "exactly the boxes holding EXIF data are gone");
        sx::check(sx::same(&v, &want), "every other box is unchanged and in order");
        sx::check(nothing(&Metadata::new_from_vec(&v, T)), "no metadata is read after clearing");
        ok(Metadata::clear_metadata(&mut v, T), "clearing again succeeds");
        sx::check(sx::same(&v, &want), "clearing again changes nothing");
        sx::reach("ok");
    }
    // arbitrary bytes after the signature: (bytes, operation, unchanged on error?)
    fn h_jxl_raw() { let mut v = SIG.to_vec(); sym(&mut v, p(0)); raw_op(v, T, p(1), p(2) == 1); }
    // signature, file type, a box with arbitrary size and content: (name, bytes, more boxes after it?, operation, unchanged on error?)
    fn h_jxl_box() {
        let mut v = SIG.to_vec(); v.extend(ftyp());
        sym(&mut v, 4); v.extend_from_slice([&b"Exif"[..], b"brobExif", b"jxlc", b"ftyp", b"JXL ", b"brob"][p(0)]); sym(&mut v, p(1));
        if p(2) == 1 { v.extend(bx(b"jxlc", b"abc", 0)); v.extend(bx(b"Exif", b"\0\0\0\0", 0)); }
        raw_op(v, T, p(3), p(4) == 1);
    }
    // compressed Exif box of right size with an arbitrary stream: (bytes, operation)
    fn h_jxl_brotli() {
        let mut v = SIG.to_vec(); v.extend(ftyp());
        let mut d = b"Exif".to_vec();
        if p(2) == 1 { let s = sx::vec(p(0)); d.extend(brotli(&s)); } else { sym(&mut d, p(0)); }
        v.extend(bx(b"brob", &d, 0));
        raw_op(v, T, p(1), false);
    }
}
