//! WebP: files built from picked chunks with symbolic payloads; independent reader.
use crate::common::*;
use crate::jpg::{nothing, orientation, raw_op, small_tiff};

pub const T: FileExtension = FileExtension::WEBP;
pub fn chunk(name: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = name.to_vec(); v.extend_from_slice(&(data.len() as u32).to_le_bytes()); v.extend_from_slice(data);
    if data.len() % 2 == 1 { v.push(0); } v
}
pub fn file(body: &[u8]) -> Vec<u8> { let mut v = b"RIFF".to_vec(); v.extend_from_slice(&(body.len() as u32 + 4).to_le_bytes()); v.extend_from_slice(b"WEBP"); v.extend_from_slice(body); v }
/// kind: 0 kept, 1 EXIF, 2 extended header
pub struct Piece { pub kind: u8, pub b: Vec<u8> }
/// ext: an extended header exists; canvas: expected width - 1, height - 1, alpha when one has to be made
pub struct Webp { pub ps: Vec<Piece>, pub first: Option<u16>, pub ext: bool, pub canvas: (u32, u32, bool) }
impl Webp {
    fn add(&mut self, kind: u8, b: Vec<u8>) { self.ps.push(Piece { kind, b }) }
    pub fn bytes(&self) -> Vec<u8> { file(&self.ps.iter().flat_map(|p| p.b.iter().copied()).collect::<Vec<u8>>()) }
}
fn name() -> Vec<u8> { let n = sx::vec(4); for x in &n { sx::assume(x.is_ascii_alphabetic()); } sx::assume(n[0] != b'E' && n[0] != b'e' && n[0] != b'V' && n[0] != b'v'); n }
/// kinds: 0 nothing, 1 EXIF, 2 ICCP, 3 ANIM, 4 VP8L, 5 VP8, 6 ALPH + VP8, 7 XMP, 8 other chunk, 9 EXIF of odd length, 10 ANMF, 11 empty chunk, 14 large chunks
fn slot(j: &mut Webp, kind: usize) {
    match kind {
        1 | 9 => { let val = sx::u16(); let mut t = small_tiff(kind == 1, val); if kind == 9 { t.push(0); } if j.first.is_none() { j.first = Some(val); } j.add(1, chunk(b"EXIF", &t)) }
        2 => { let d = sx::vec(3); j.add(0, chunk(b"ICCP", &d)) }
        3 => { let d = sx::vec(6); j.add(0, chunk(b"ANIM", &d)) }
        4 => { let d = sx::vec(5); j.add(0, chunk(b"VP8L", &d)) }
        5 => { let d = sx::vec(10); j.add(0, chunk(b"VP8 ", &d)) }
        6 => { let d = sx::vec(2); j.add(0, chunk(b"ALPH", &d)); let d = sx::vec(3); j.add(0, chunk(b"VP8 ", &d)) }
        7 => { let d = sx::vec(5); j.add(0, chunk(b"XMP ", &d)) }
        8 => { let d = sx::vec(3); let n = name(); j.add(0, chunk(&n, &d)) }
        10 => { let d = sx::vec(4); j.add(0, chunk(b"ANMF", &d)) }
        14 => { let s = big(70001); j.add(0, chunk(b"XMP ", &s)); let s = big(257); j.add(0, chunk(b"abcd", &s)) }
        11 => { let n = name(); j.add(0, chunk(&n, b"")) }
        _ => {}
    }
}
pub const KINDS: usize = 12;
/// first: 0 extended header, 1 lossless, 2 lossy, 3 extended header whose EXIF flag says nothing about the EXIF chunks
pub fn build(first: usize, slots: &[usize]) -> Webp {
    let mut j = Webp { ps: vec![], first: None, ext: first == 0 || first == 3, canvas: (0, 0, false) };
    match first {
        1 => {
            let (w, h, a) = (sx::u16() & 0x3fff, sx::u16() & 0x3fff, sx::u8() & 1);
            let bits = w as u32 | (h as u32) << 14 | (a as u32) << 28;
            let mut d = vec![0x2f]; d.extend_from_slice(&bits.to_le_bytes()); sym(&mut d, 2);
            j.canvas = (w as u32, h as u32, a == 1); j.add(0, chunk(b"VP8L", &d));
        }
        2 => {
            let (w, h, s) = (sx::u16() & 0x3fff, sx::u16() & 0x3fff, sx::u8());
            sx::assume(w > 0 && h > 0);
            let mut d = sx::vec(3); d.extend_from_slice(&[0x9d, 0x01, 0x2a]);
            d.extend_from_slice(&(w | (s as u16 & 3) << 14).to_le_bytes()); d.extend_from_slice(&(h | (s as u16 & 12) << 12).to_le_bytes()); sym(&mut d, 1);
            j.canvas = (w as u32 - 1, h as u32 - 1, false); j.add(0, chunk(b"VP8 ", &d));
        }
        _ => j.add(2, vec![]),
    }
    for s in slots { let k = if *s == 13 { sx::pick(KINDS as u64) as usize } else { *s }; slot(&mut j, k); }
    if j.ext {
        let mut d = sx::vec(10);
        if first == 0 { d[0] = (d[0] & 0xf7) | if j.first.is_some() { 8 } else { 0 }; }
        j.ps[0].b = chunk(b"VP8X", &d);
    }
    j
}
/// Independent reader: (start, end with padding) of all chunks
fn chunks(v: &[u8]) -> Result<Vec<(usize, usize)>, &'static str> {
    if v.len() < 12 || &v[..4] != b"RIFF" || &v[8..12] != b"WEBP" { return Err("signature"); }
    let size = get32(v, 4, true) as usize;
    if size % 2 != 0 { return Err("the RIFF size is even"); }
    if size + 8 != v.len() { return Err("the RIFF size is the length of the data"); }
    let (mut i, mut r) = (12, vec![]);
    while i < v.len() {
        if i + 8 > v.len() { return Err("chunk truncated"); }
        let n = get32(v, i + 4, true) as usize; let m = n + n % 2;
        if m > v.len() - i - 8 { return Err("chunk length"); }
        if n % 2 == 1 && v[i + 8 + n] != 0 { return Err("padding"); }
        r.push((i, i + 8 + m)); i += 8 + m;
    }
    Ok(r)
}
fn ok(r: std::io::Result<()>, m: &'static str) { sx::check(r.is_ok(), m) }
/// All chunks of `v` but EXIF chunks are the original ones, the header says `exif`; returns the number of EXIF chunks
fn kept(j: &Webp, v: &[u8], exif: bool) -> usize {
    let cs = match chunks(v) { Ok(c) => c, Err(e) => { sx::check(false, e); unreachable!() } };
    let is = |c: &(usize, usize), n: &[u8]| &v[c.0..c.0 + 4] == n;
    let mut rest: Vec<&[u8]> = cs.iter().filter(|c| !is(c, b"EXIF")).map(|c| &v[c.0..c.1]).collect();
    let found = cs.len() - rest.len();
    if j.ext || exif {
        sx::check(!cs.is_empty() && is(&cs[0], b"VP8X") && rest[0].len() == 18, "the extended header comes first");
        let mut want = if j.ext { j.ps[0].b.clone() } else {
            let mut d = vec![if j.canvas.2 { 0x10 } else { 0 }, 0, 0, 0];
            d.extend_from_slice(&j.canvas.0.to_le_bytes()[..3]); d.extend_from_slice(&j.canvas.1.to_le_bytes()[..3]);
            chunk(b"VP8X", &d)
        };
        want[8] = (want[8] & 0xf7) | if exif { 8 } else { 0 };
        sx::check((rest[0][8] & 8 != 0) == exif, "the extended header tells whether there is EXIF data");
        sx::check(sx::same(rest[0], &want), "the extended header announces the true canvas and features");
        rest.remove(0);
    }
    let want: Vec<&Piece> = j.ps.iter().filter(|p| p.kind == 0).collect();
    sx::check(want.len() == rest.len(), "all other chunks are kept, and no others");
    for (w, g) in want.iter().zip(rest) { sx::check(sx::same(&w.b, g), "a chunk not holding EXIF data is unchanged"); }
    found
}
harnesses! {
    // (first, slot, slot, slot, metadata kind, text length)
    fn h_webp_write() {
        let j = build(p(0), &[p(1), p(2), p(3)]);
        let mut v = j.bytes();
        let m = meta(p(4), p(5));
        ok(m.write_to_vec(&mut v, T), "writing to a valid WebP succeeds");
        sx::check(kept(&j, &v, true) == 1, "exactly one chunk holds EXIF data");
        if let Ok(cs) = chunks(&v) {
            let lead = |c: &(usize, usize)| [&b"VP8X"[..], b"ICCP", b"ANIM", b"ANMF", b"ALPH", b"VP8 ", b"VP8L"].contains(&&v[c.0..c.0 + 4]);
            let mut i = 0; while &v[cs[i].0..cs[i].0 + 4] != b"EXIF" { i += 1; }
            sx::check(cs.get(i + 1).map_or(true, |c| !lead(c)) || cs[..i].iter().any(|c| !lead(c)), "the EXIF chunk is not put between the header, colour, animation and image chunks");
        }
        match Metadata::new_from_vec(&v, T) { Ok(b) => sx::check(same_meta(&m, &b) && b.get_endian() == m.get_endian(), "exactly the written metadata is read"), Err(_) => sx::check(false, "the written metadata is read") }
        let once = v.clone();
        ok(m.write_to_vec(&mut v, T), "writing again succeeds");
        sx::check(sx::same(&v, &once), "writing the same metadata again changes nothing");
        sx::reach("ok");
    }
    // (first, slot, slot, slot)
    fn h_webp_read() {
        let j = build(p(0), &[p(1), p(2), p(3)]);
        let r = Metadata::new_from_vec(&j.bytes(), T);
        match j.first { Some(val) => { orientation(&r, val); sx::reach("found"); } None => { sx::check(nothing(&r), "no EXIF data, no metadata"); sx::reach("none"); } }
    }
    // (first, slot, slot, slot)
    fn h_webp_clear() {
        let j = build(p(0), &[p(1), p(2), p(3)]);
        let mut v = j.bytes();
        ok(Metadata::clear_metadata(&mut v, T), "clearing a valid WebP succeeds");
        sx::check(kept(&j, &v, false) == 0, "no EXIF chunk is left");
        sx::check(nothing(&Metadata::new_from_vec(&v, T)), "no metadata is read after clearing");
        let once = v.clone();
        ok(Metadata::clear_metadata(&mut v, T), "clearing again succeeds");
        sx::check(sx::same(&v, &once), "clearing again changes nothing");
        sx::reach("ok");
    }
    // the chunk offered to users: (number of symbolic characters)
    fn h_webp_chunk_data() {
        let m = meta(2, p(0));
        let c = match m.as_u8_vec(T) { Ok(t) => t, Err(_) => { sx::check(false, "encoding"); unreachable!() } };
        let mut b = chunk(b"VP8X", &[8, 0, 0, 0, 1, 0, 0, 1, 0, 0]); b.extend_from_slice(&c);
        let v = file(&b);
        sx::check(chunks(&v).map(|c| c.len()) == Ok(2), "the encoded metadata is one chunk");
        match Metadata::new_from_vec(&v, T) { Ok(b) => sx::check(same_meta(&m, &b), "the chunk holds the metadata"), Err(_) => sx::check(false, "the chunk is read") }
        sx::reach("ok");
    }
    // arbitrary bytes after a right (1) or arbitrary (0) header: (bytes, right size?, operation, unchanged on error?)
    fn h_webp_raw() {
        let mut v = if p(1) == 1 { let s = sx::vec(p(0)); file(&s) } else { let mut v = b"RIFF".to_vec(); sym(&mut v, 4); v.extend_from_slice(b"WEBP"); sym(&mut v, p(0)); v };
        raw_op(v, T, p(2), p(3) == 1);
    }
    // first chunk 0 VP8X, 1 VP8L, 2 VP8 with arbitrary size and content: (first, bytes, operation, unchanged on error?)
    fn h_webp_first() {
        let mut b = [b"VP8X", b"VP8L", b"VP8 ", b"EXIF"][p(0)].to_vec();
        sym(&mut b, p(1));
        raw_op(file(&b), T, p(2), p(3) == 1);
    }
    // right extended header, then a chunk with arbitrary size and content: (name 0 EXIF 1 other, bytes, operation, unchanged on error?)
    fn h_webp_second() {
        let mut b = chunk(b"VP8X", &{ let mut d = sx::vec(10); d[0] |= 8; d });
        b.extend_from_slice([b"EXIF", b"ALPH"][p(0)]); sym(&mut b, p(1));
        raw_op(file(&b), T, p(2), p(3) == 1);
    }
}
