//! JPEG: containers built from picked segments with symbolic payloads; independent expectations.
use crate::common::*;
use crate::oracle;

/// A piece of the file, in order. kind: 0 other, 1 EXIF segment, 2 APP12, 3 APP13, 4 fill bytes
pub struct Piece { pub kind: u8, pub b: Vec<u8> }
pub struct Jpg { pub ps: Vec<Piece>, pub first: Option<(usize, u16)> }
impl Jpg {
    pub fn bytes(&self) -> Vec<u8> { self.ps.iter().flat_map(|p| p.b.iter().copied()).collect() }
    /// all pieces but those of a kind
    pub fn without(&self, kind: u8) -> Vec<u8> { self.ps.iter().filter(|p| p.kind != kind).flat_map(|p| p.b.iter().copied()).collect() }
    fn add(&mut self, kind: u8, b: Vec<u8>) { self.ps.push(Piece { kind, b }) }
}
pub fn seg(marker: u8, body: &[u8]) -> Vec<u8> { let mut v = vec![0xff, marker]; v.extend_from_slice(&(body.len() as u16 + 2).to_be_bytes()); v.extend_from_slice(body); v }
/// TIFF data with one SHORT tag (Orientation)
pub fn small_tiff(le: bool, val: u16) -> Vec<u8> {
    let mut v = tiff_header(le);
    put16(&mut v, le, 1); put16(&mut v, le, 0x112); put16(&mut v, le, 3); put32(&mut v, le, 1); put16(&mut v, le, val); put16(&mut v, le, 0); put32(&mut v, le, 0);
    v
}
fn exif_body(n: usize) -> (Vec<u8>, u16) { let val = sx::u16(); let mut b = b"Exif\0\0".to_vec(); b.extend(small_tiff(n % 2 == 0, val)); (b, val) }
fn ecs(n: usize) -> Vec<u8> {
    let v = sx::vec(n);
    for i in 0..n { let nx = if i + 1 < n { v[i + 1] } else { 1 }; sx::assume(v[i] != 0xff || nx == 0 || (nx >= 0xd0 && nx <= 0xd7)); }
    if n > 0 { sx::assume(v[n - 1] != 0xff); }
    v
}
fn other_app1(n: usize) -> Vec<u8> { let b = sx::vec(n); sx::assume(!(b[0] == b'E' && b[1] == b'x' && b[2] == b'i' && b[3] == b'f' && b[4] == 0 && b[5] == 0)); seg(0xe1, &b) }
/// kinds: 0 nothing, 1 APP0, 2 EXIF, 3 other APP1, 4 short APP1, 5 APP12, 6 APP13, 7 any other marker, 8 fill bytes + DQT, 9 fill + EXIF, 10 TEM, 11 EXIF header with arbitrary content, 12 two APP12, 14 the largest segment
fn slot(j: &mut Jpg, kind: u64) {
    match kind {
        1 => { let s = sx::vec(5); j.add(0, seg(0xe0, &s)) }
        2 | 9 => { if kind == 9 { j.add(4, vec![0xff]); } let (b, val) = exif_body(kind as usize); if j.first.is_none() { j.first = Some((j.ps.len(), val)); } j.add(1, seg(0xe1, &b)) }
        3 => { let s = other_app1(8); j.add(0, s) }
        4 => { let s = sx::vec(sx::pick(6) as usize); j.add(0, seg(0xe1, &s)) }
        5 => { let s = sx::vec(4); j.add(2, seg(0xec, &s)) }
        6 => { let s = sx::vec(4); j.add(3, seg(0xed, &s)) }
        7 => { let m = sx::u8(); sx::assume(m >= 0x02 && m != 0xff && !(m >= 0xd0 && m <= 0xda) && m != 0xe1 && m != 0xec && m != 0xed); let s = sx::vec(3); j.add(0, seg(m, &s)) }
        8 => { j.add(4, vec![0xff, 0xff]); let s = sx::vec(3); j.add(0, seg(0xdb, &s)) }
        10 => { j.add(0, vec![0xff, 0x01]); }
        14 => { let s = big(65533); j.add(0, seg(0xe2, &s)); let s = big(257); j.add(0, seg(0xe3, &s)) }
        12 => { let s = sx::vec(2); j.add(2, seg(0xec, &s)); let s = sx::vec(1); j.add(2, seg(0xec, &s)); j.add(3, seg(0xed, &[])); }
        _ => {}
    }
}
pub const KINDS: usize = 12;
/// slots: kinds for the slots before the scan (13: any kind); scan (plus ten times the length of the scan data) 0: one scan, 1: a segment and a second scan, 2: no EOI; trail: trailing bytes
pub fn build(slots: &[usize], scan: usize, trail: usize) -> Jpg {
    let mut j = Jpg { ps: vec![], first: None };
    j.add(0, vec![0xff, 0xd8]);
    for s in slots { let k = if *s == 13 { sx::pick(KINDS as u64) } else { *s as u64 }; slot(&mut j, k); }
    let s = sx::vec(2); j.add(0, seg(0xda, &s)); j.add(0, ecs(if scan >= 10 { scan / 10 } else { 3 }));
    let scan = scan % 10;
    if scan == 1 { let k = sx::pick(5); slot(&mut j, [0, 2, 3, 7, 5][k as usize]); let s = sx::vec(1); j.add(0, seg(0xda, &s)); j.add(0, ecs(2)); }
    if scan != 2 { j.add(0, vec![0xff, 0xd9]); if trail > 0 { let t = sx::vec(trail); j.add(0, t); } }
    j
}
/// Independent reader: (index, end) of every EXIF segment up to the first scan, and whether the headers parse up to a scan
fn exifs(b: &[u8]) -> Result<Vec<(usize, usize)>, &'static str> {
    let mut r = vec![];
    if b.len() < 2 || b[0] != 0xff || b[1] != 0xd8 { return Err("no SOI"); }
    let mut i = 2;
    loop {
        let st = i;
        if i >= b.len() || b[i] != 0xff { return Err("marker expected"); }
        while i < b.len() && b[i] == 0xff { i += 1; }
        if i >= b.len() { return Err("marker missing"); }
        let m = b[i]; i += 1;
        if m == 1 { continue; }
        if m == 0xda { return Ok(r); }
        if m == 0xd9 { return Err("no scan"); }
        if i + 2 > b.len() { return Err("length missing"); }
        let n = ((b[i] as usize) << 8) | b[i + 1] as usize;
        if n < 2 || i + n > b.len() { return Err("segment length wrong"); }
        if m == 0xe1 && n >= 8 && &b[i + 2..i + 8] == b"Exif\0\0" { r.push((st, i + n)); }
        i += n;
    }
}
fn ok(r: std::io::Result<()>, m: &'static str) { sx::check(r.is_ok(), m) }
/// no EXIF found: error or nothing inside
pub fn nothing(r: &std::io::Result<Metadata>) -> bool { match r { Err(_) => true, Ok(m) => rows(m).is_empty() } }
fn slots() -> Vec<usize> { vec![p(2), p(3), p(4)] }
pub fn orientation(r: &std::io::Result<Metadata>, val: u16) {
    match r { Ok(m) => { let l = rows(m); sx::check(l.len() == 1 && l[0].code == 0x112 && l[0].val.len() == 2, "exactly the tags of the EXIF data are read"); sx::check(get16(&l[0].val, 0, true) == val, "the value stored in the EXIF data is read"); } Err(_) => sx::check(false, "EXIF data is found") }
}
harnesses! {
    // (scan, trail, slot, slot, slot, metadata kind, characters)
    fn h_jpg_write() {
        let j = build(&slots(), p(0), p(1));
        let mut v = j.bytes();
        let m = meta(p(5), p(6));
        ok(m.write_to_vec(&mut v, FileExtension::JPEG), "writing to a valid JPEG succeeds");
        let found = exifs(&v);
        let f = match found { Ok(f) => f, Err(e) => { sx::check(false, e); unreachable!() } };
        sx::check(f.len() == 1, "exactly one EXIF segment before the scan");
        let (s, e) = f[0];
        let mut rest = v[..s].to_vec(); rest.extend_from_slice(&v[e..]);
        sx::check(sx::same(&rest, &j.without(1)), "everything but the EXIF segment is unchanged");
        let t = oracle::tiff(&v[s + 10..e]);
        sx::check(v[s + 1] == 0xe1 && t.err.is_empty(), "the segment holds well-formed EXIF data");
        match Metadata::new_from_vec(&v, FileExtension::JPEG) { Ok(b) => sx::check(same_meta(&m, &b), "exactly the written metadata is read"), Err(_) => sx::check(false, "the written metadata is read") }
        let once = v.clone();
        ok(m.write_to_vec(&mut v, FileExtension::JPEG), "writing again succeeds");
        sx::check(sx::same(&v, &once), "writing the same metadata again changes nothing");
        sx::reach("ok");
    }
    // (scan, trail, slot, slot, slot): EXIF data is found wherever it is
    fn h_jpg_read() {
        let j = build(&slots(), p(0), p(1));
        let v = j.bytes();
        let r = Metadata::new_from_vec(&v, FileExtension::JPEG);
        match j.first { Some((_, val)) => { orientation(&r, val); sx::reach("found"); } None => { sx::check(nothing(&r), "no EXIF data, no metadata"); sx::reach("none"); } }
    }
    // (scan, trail, slot, slot, slot, what: 0 EXIF 1 APP12 2 APP13)
    fn h_jpg_clear() {
        let j = build(&slots(), p(0), p(1));
        let mut v = j.bytes();
        let op = p(5);
        let mut go = |v: &mut Vec<u8>| match op { 0 => Metadata::clear_metadata(v, FileExtension::JPEG), 1 => Metadata::clear_app12_segment(v, FileExtension::JPEG), _ => Metadata::clear_app13_segment(v, FileExtension::JPEG) };
        ok(go(&mut v), "clearing a valid JPEG succeeds");
        let want = j.without([1, 2, 3][op]);
        sx::check(sx::same(&v, &want), "exactly the segments of that kind are gone");
        if op == 0 { sx::check(nothing(&Metadata::new_from_vec(&v, FileExtension::JPEG)), "no metadata is read after clearing"); }
        ok(go(&mut v), "clearing again succeeds");
        sx::check(sx::same(&v, &want), "clearing again changes nothing");
        sx::reach("ok");
    }
    // arbitrary bytes after the signature: (bytes, operation 0 read 1 clear 2 write 3 APP12 4 APP13, check that errors leave the data alone?)
    fn h_jpg_raw() {
        let mut v = vec![0xff, 0xd8]; sym(&mut v, p(0));
        raw_op(v, FileExtension::JPEG, p(1), p(2) == 1);
    }
    // one segment with a marker and an arbitrary length, then arbitrary bytes: (marker, bytes, operation, as above)
    fn h_jpg_segment() {
        let mut v = vec![0xff, 0xd8];
        if p(4) == 1 { v.extend(seg(0xe1, b"Exif\0\0ab")); }
        v.extend([0xff, p(0) as u8]); sym(&mut v, 2); if p(0) == 0xe1 { v.extend(b"Exif\0\0"); } sym(&mut v, p(1));
        raw_op(v, FileExtension::JPEG, p(2), p(3) == 1);
    }
    // metadata around the largest size a segment can hold: (bytes of the value)
    fn h_jpg_size() {
        let mut m = Metadata::new();
        let mut d = sx::vec(3); d.resize(p(0), 7);
        m.set_tag(ExifTag::UserComment(d));
        let j = build(&[2, 0, 0], 0, 1);
        let orig = j.bytes(); let mut v = orig.clone();
        let fits = match m.encode() { Ok(e) => e.len() + 8 <= 65535, Err(_) => { sx::check(false, "encoding"); unreachable!() } };
        let r = m.write_to_vec(&mut v, FileExtension::JPEG);
        sx::check(r.is_ok() == fits, "metadata is written if and only if it fits into a segment");
        if fits { match Metadata::new_from_vec(&v, FileExtension::JPEG) { Ok(b) => sx::check(same_meta(&m, &b), "read back"), Err(_) => sx::check(false, "read back") } sx::reach("fits"); }
        else { sx::check(sx::same(&v, &orig), "the refused operation leaves the data alone"); sx::reach("refused"); }
    }
}
/// operation on arbitrary data: nothing but an orderly result; optionally unchanged data on error
pub fn raw_op(mut v: Vec<u8>, t: FileExtension, op: usize, unchanged: bool) {
    let orig = if unchanged { v.clone() } else { vec![] };
    let r = match op {
        0 => Metadata::new_from_vec(&v, t).map(|_| ()),
        1 => Metadata::clear_metadata(&mut v, t),
        2 => { let mut m = Metadata::new(); m.set_tag(ExifTag::Orientation(vec![1])); m.write_to_vec(&mut v, t) }
        3 => Metadata::clear_app12_segment(&mut v, t),
        _ => Metadata::clear_app13_segment(&mut v, t),
    };
    if unchanged && r.is_err() { sx::check(sx::same(&v, &orig), "a refused operation leaves the data as it was"); }
    outcome(&r);
}
