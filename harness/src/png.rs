//! PNG: files built from picked chunks with symbolic payloads and correct checksums.
use crate::common::*;
use crate::jpg::{nothing, orientation, raw_op, small_tiff};

pub const T: FileExtension = FileExtension::PNG { as_zTXt_chunk: true };
fn crc(b: &[u8]) -> u32 { crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(b) }
/// Bitwise checksum, independent of the crate used by the implementation
fn crc2(b: &[u8]) -> u32 { let mut c = 0xffff_ffffu32; for x in b { c ^= *x as u32; for _ in 0..8 { c = (c >> 1) ^ (0xedb8_8320 & (0u32.wrapping_sub(c & 1))); } } !c }
pub fn chunk(name: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut v = (data.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(name); v.extend_from_slice(data);
    let c = crc(&v[4..]); v.extend_from_slice(&c.to_be_bytes()); v
}
pub const SIG: &[u8] = b"\x89PNG\r\n\x1a\n";
pub const KEY: &[u8] = b"Raw profile type exif\0";
const XKEY: &[u8] = b"XML:com.adobe.xmp\0";
/// kind: 0 kept, 1 EXIF, 2 XMP (replaced by `clean` when cleared)
pub struct Piece { pub kind: u8, pub b: Vec<u8>, pub clean: Vec<u8> }
pub struct Png { pub ps: Vec<Piece>, pub first: Option<u16>, trail: Vec<u8> }
impl Png {
    fn add(&mut self, kind: u8, b: Vec<u8>) { self.ps.push(Piece { kind, b, clean: vec![] }) }
    pub fn bytes(&self) -> Vec<u8> { let mut v = SIG.to_vec(); for p in &self.ps { v.extend_from_slice(&p.b); } v.extend_from_slice(&self.trail); v }
    pub fn cleared(&self) -> Vec<u8> { let mut v = SIG.to_vec(); for p in &self.ps { match p.kind { 0 => v.extend_from_slice(&p.b), 2 => v.extend_from_slice(&p.clean), _ => {} } } v.extend_from_slice(&self.trail); v }
}
fn hex(b: &[u8]) -> Vec<u8> { let d = b"0123456789abcdef"; b.iter().flat_map(|x| [d[(*x >> 4) as usize], d[(*x & 15) as usize]]).collect() }
/// The profile text as written by common tools. style: 0 this crate, 1 lines of 72 digits, 2 without EXIF header, 3 with EXIF header but upper case digits
pub fn profile(t: &[u8], style: usize) -> Vec<u8> {
    let mut d = if style == 2 { vec![] } else { b"Exif\0\0".to_vec() };
    d.extend_from_slice(t); if style == 0 { d.push(0); }
    let mut v = b"\nexif\n".to_vec();
    let n = d.len().to_string(); for _ in n.len()..8 { v.push(b' '); } v.extend_from_slice(n.as_bytes()); v.push(b'\n');
    let h = hex(&d);
    if style == 0 { v.extend_from_slice(&h); } else { for c in h.chunks(72) { if style == 3 { v.extend(c.iter().map(|x| x.to_ascii_uppercase())); } else { v.extend_from_slice(c); } v.push(b'\n'); } }
    if style == 0 { v.push(b'\n'); }
    v
}
fn zlib(b: &[u8]) -> Vec<u8> { miniz_oxide::deflate::compress_to_vec_zlib(b, 6) }
fn text_chunk(how: usize, key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = key.to_vec();
    match how {
        0 => { v.extend_from_slice(data); chunk(b"tEXt", &v) }
        1 => { v.push(0); v.extend(zlib(data)); chunk(b"zTXt", &v) }
        2 => { v.extend_from_slice(b"\0\0en\0k\xc3\xa9\0"); v.extend_from_slice(data); chunk(b"iTXt", &v) }
        _ => { v.extend_from_slice(b"\x01\0\0\0"); v.extend(zlib(data)); chunk(b"iTXt", &v) }
    }
}
/// XMP text and the text expected after cleaning
fn xmp(n: u64) -> (Vec<u8>, Vec<u8>) {
    let parts: Vec<(bool, &[u8])> = match n {
        0 => vec![(false, b"<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:Description rdf:about=\"\""), (true, b" exif:Flash=\"1\""), (false, b" dc:k=\"v\"><dc:a>hi</dc:a>\n"), (true, b"<exif:FNumber>28/10</exif:FNumber>\n"), (false, b"</rdf:Description></x:xmpmeta>")],
        1 => vec![(false, b"<a xmlns=\"b\">"), (true, b"<exif:ISO><rdf:Seq><rdf:li>100</rdf:li></rdf:Seq></exif:ISO>"), (false, b"<tiff:Make>x</tiff:Make>"), (true, b"<exif:Fired/>"), (false, b"<dc:b>y</dc:b></a>")],
        2 => vec![(false, b"<a>"), (true, b"<exif:Flash r=\"R\"><exif:Fired>True</exif:Fired><exif:Mode>1</exif:Mode></exif:Flash>"), (false, b"</a>")],
        3 => vec![(false, b"<?xpacket begin=\"\"?><a b=\"c\"><dc:t>q &amp; r</dc:t><!-- c --></a><?xpacket end=\"w\"?>")],
        _ => vec![(false, b"<a>"), (true, b"<exif:A></exif:A>"), (false, b"<exifEX:B>1</exifEX:B><b c=\"exif:d\">exif:e</b></a>")],
    };
    (parts.iter().flat_map(|p| p.1.iter().copied()).collect(), parts.iter().filter(|p| !p.0).flat_map(|p| p.1.iter().copied()).collect())
}
fn exif_in(j: &mut Png, k: usize, style: usize) {
    let val = if k == 0 { sx::u16() } else { 0x100 + 7 * sx::pick(2) as u16 };
    let t = small_tiff(style % 2 == 0, val);
    if j.first.is_none() { j.first = Some(val); }
    j.add(1, if k == 0 { chunk(b"eXIf", &t) } else { text_chunk(k - 1, KEY, &profile(&t, style)) });
}
fn xmp_in(j: &mut Png, how: usize, n: u64) {
    let (t, c) = xmp(n);
    let b = text_chunk(how, XKEY, &t);
    // compressed text: only the decompressed text is determined
    let clean = text_chunk(how, XKEY, &c);
    j.ps.push(Piece { kind: 2, b, clean });
}
/// kinds: 0 nothing, 1 eXIf, 2..5 raw profile in tEXt, zTXt, iTXt, compressed iTXt, 6 other text, 7 unknown chunk, 8 PLTE, 9 XMP without EXIF (iTXt), 10 odd texts, 11 tIME + empty chunk, 12 keyword like that of a profile but longer or different, 14 large chunks, 20+: XMP
fn slot(j: &mut Png, kind: usize) {
    match kind {
        1 => exif_in(j, 0, 0),
        2 => exif_in(j, 1, 1), 3 => exif_in(j, 2, 0), 4 => exif_in(j, 3, 2), 5 => exif_in(j, 4, 3),
        6 => { let mut d = b"Raw profile type exi".to_vec(); let x = sx::u8(); sx::assume(x != b'f' && x < 0x80); d.push(x); d.push(0); sym(&mut d, 1); j.add(0, chunk([b"tEXt", b"zTXt", b"iTXt"][sx::pick(3) as usize], &d)) }
        7 => { let n = sx::vec(4); for x in &n { sx::assume(x.is_ascii_alphabetic()); } sx::assume(n[0] >= b'a' && n[0] != b'e' && n[0] != b't' && n[0] != b'z' && n[0] != b'i'); let d = sx::vec(3); j.add(0, chunk(&[n[0], n[1], n[2], n[3]], &d)) }
        8 => { let d = sx::vec(3); j.add(0, chunk(b"PLTE", &d)) }
        9 => xmp_in(j, 2, 3),
        10 => { let d = sx::vec(2); sx::assume(d[0] < 0x80); j.add(0, chunk(b"tEXt", &d)); j.add(0, chunk(b"iTXt", b"")); }
        11 => { let d = sx::vec(7); j.add(0, chunk(b"tIME", &d)); j.add(0, chunk(b"sRGB", &[])); }
        12 => { let c = sx::u8(); sx::assume(c >= 0x20 && c < 0x7f); let (k, n): (&[u8], usize) = [(KEY, 21), (KEY, 0), (KEY, 20), (XKEY, 17), (XKEY, 0)][sx::pick(5) as usize];
            let mut d = k[..n].to_vec(); if n != 20 { d.push(c); } else { sx::assume(c != b'f'); d.push(c); } d.extend_from_slice(&k[n + (n == 20) as usize..]);
            let how = sx::pick(2) as usize; let t = if k == KEY { profile(&small_tiff(true, 7), 0) } else { xmp(1).0 };
            let b = text_chunk(if how == 0 { 0 } else { 2 }, &d, &t); j.add(0, b) }
        14 => { let s = big(70000); j.add(0, chunk(b"abCd", &s)); let s = big(257); j.add(0, chunk(b"tRNS", &s)) }
        k if k >= 20 => xmp_in(j, (k - 20) % 4, (k as u64 - 20) / 4),
        _ => {}
    }
}
pub const KINDS: usize = 13;
/// slots: two before the image data, one after; 13: any kind
pub fn build(slots: &[usize], trail: usize) -> Png {
    let mut j = Png { ps: vec![], first: None, trail: vec![] };
    let d = sx::vec(13); j.add(0, chunk(b"IHDR", &d));
    for (i, s) in slots.iter().enumerate() {
        if i == 2 { let d = sx::vec(4); j.add(0, chunk(b"IDAT", &d)); }
        let k = if *s == 13 { sx::pick(KINDS as u64) as usize } else { *s };
        slot(&mut j, k);
    }
    if slots.len() < 3 { let d = sx::vec(4); j.add(0, chunk(b"IDAT", &d)); }
    j.add(0, chunk(b"IEND", &[]));
    j.trail = sx::vec(trail);
    j
}
/// Independent reader: (start, end) of all chunks up to IEND
fn chunks(v: &[u8]) -> Result<Vec<(usize, usize)>, &'static str> {
    if v.len() < 8 || &v[..8] != SIG { return Err("signature"); }
    let (mut i, mut r) = (8, vec![]);
    loop {
        if i + 12 > v.len() { return Err("chunk truncated"); }
        let n = u32::from_be_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]) as usize;
        if n > v.len() - i - 12 { return Err("chunk length"); }
        r.push((i, i + 12 + n));
        if &v[i + 4..i + 8] == b"IEND" { return Ok(r); }
        i += 12 + n;
    }
}
fn ok(r: std::io::Result<()>, m: &'static str) { sx::check(r.is_ok(), m) }
/// Text of a chunk (independent of how it is compressed); None: not a readable text chunk
fn text_of(c: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let d = &c[8..c.len() - 4];
    let z = d.iter().position(|x| *x == 0)?;
    let (key, mut rest) = (d[..z].to_vec(), &d[z + 1..]);
    let mut head = key; head.push(0);
    let comp = match &c[4..8] {
        b"tEXt" => false,
        b"zTXt" => { if rest.first() != Some(&0) { return None; } rest = &rest[1..]; true }
        b"iTXt" => { let f = *rest.first()?; head.extend_from_slice(rest.get(..2)?); rest = &rest[2..]; for _ in 0..2 { let z = rest.iter().position(|x| *x == 0)?; head.extend_from_slice(&rest[..z + 1]); rest = &rest[z + 1..]; } f == 1 }
        _ => return None,
    };
    let t = if comp { miniz_oxide::inflate::decompress_to_vec_zlib(rest).ok()? } else { rest.to_vec() };
    Some((head, t))
}
fn no_nl(b: &[u8]) -> Vec<u8> { b.iter().copied().filter(|x| *x != b'\n').collect() }
/// The chunks of `v` except those of index `skip` are the cleared chunks of the original, in order
fn kept(j: &Png, v: &[u8], cs: &[(usize, usize)], skip: Option<usize>) {
    let want: Vec<&Piece> = j.ps.iter().filter(|p| p.kind != 1).collect();
    let got: Vec<&[u8]> = cs.iter().enumerate().filter(|(i, _)| Some(*i) != skip).map(|(_, c)| &v[c.0..c.1]).collect();
    sx::check(want.len() == got.len(), "all other chunks are kept, and no others");
    for (w, g) in want.iter().zip(got) {
        if w.kind == 0 { sx::check(sx::same(&w.b, g), "a chunk not holding EXIF data is unchanged"); continue; }
        sx::check(g[4..8] == w.b[4..8], "the XMP chunk keeps its type");
        sx::check(crc2(&g[4..g.len() - 4]).to_be_bytes()[..] == g[g.len() - 4..], "the checksum of the XMP chunk is right");
        match (text_of(g), text_of(&w.clean)) { (Some(a), Some(b)) => { sx::check(a.0 == b.0, "keyword, flags and language of the XMP chunk are kept"); sx::check(no_nl(&a.1) == no_nl(&b.1), "exactly the EXIF part of the XMP text is gone"); } _ => sx::check(false, "the XMP chunk stays readable") }
    }
    let end = cs.last().map(|c| c.1).unwrap_or(0);
    sx::check(sx::same(&v[end..], &j.trail), "what follows the image is unchanged");
}
/// Metadata with concrete content (it passes through the compressor)
pub fn cmeta(k: u64) -> Metadata {
    let mut m = Metadata::new();
    match k {
        0 => {}
        1 => m.set_tag(ExifTag::ImageDescription("Hello, world".to_string())),
        2 => { m.set_tag(ExifTag::Orientation(vec![6])); m.set_tag(ExifTag::ISO(vec![2706])); m.set_tag(ExifTag::GPSAltitude(vec![uR64 { nominator: 0x0a0d0020, denominator: 0xfffefd00 }])); }
        3 => { m.set_tag(ExifTag::UserComment((0..=255u8).collect())); }
        k if k >= 1000 => m.set_tag(ExifTag::UserComment((0..k - 1000).map(|i| (i / 7) as u8).collect())),
        _ => { m = empty(false); m.set_tag(ExifTag::Make("II*".to_string())); m.set_tag(ExifTag::Model("Exif\u{e9}".to_string())); }
    }
    m
}
fn slots() -> Vec<usize> { vec![p(1), p(2), p(3)] }
harnesses! {
    // (trail, slot, slot, slot, metadata)
    fn h_png_write() {
        let j = build(&slots(), p(0));
        let mut v = j.bytes();
        let m = cmeta(p(4) as u64);
        ok(m.write_to_vec(&mut v, T), "writing to a valid PNG succeeds");
        let cs = match chunks(&v) { Ok(c) => c, Err(e) => { sx::check(false, e); unreachable!() } };
        let mut ex = vec![];
        for (i, c) in cs.iter().enumerate() {
            let n = &v[c.0 + 4..c.0 + 8];
            if n == b"eXIf" { ex.push(i); }
            if n == b"zTXt" || n == b"tEXt" || n == b"iTXt" { if v[c.0 + 8..c.1 - 4].starts_with(KEY) { ex.push(i); } }
        }
        sx::check(ex.len() == 1, "exactly one chunk holds EXIF data");
        sx::check(ex[0] >= 1, "the header chunk stays first");
        let c = &v[cs[ex[0]].0..cs[ex[0]].1];
        sx::check(crc2(&c[4..c.len() - 4]).to_be_bytes()[..] == c[c.len() - 4..], "the checksum is right");
        kept(&j, &v, &cs, Some(ex[0]));
        match Metadata::new_from_vec(&v, T) { Ok(b) => sx::check(same_meta(&m, &b) && b.get_endian() == m.get_endian(), "exactly the written metadata is read"), Err(_) => sx::check(false, "the written metadata is read") }
        let once = v.clone();
        ok(m.write_to_vec(&mut v, T), "writing again succeeds");
        sx::check(sx::same(&v, &once), "writing the same metadata again changes nothing");
        sx::reach("ok");
    }
    // (trail, slot, slot, slot)
    fn h_png_read() {
        let j = build(&slots(), p(0));
        let r = Metadata::new_from_vec(&j.bytes(), T);
        match j.first { Some(val) => { orientation(&r, val); sx::reach("found"); } None => { sx::check(nothing(&r), "no EXIF data, no metadata"); sx::reach("none"); } }
    }
    // (trail, slot, slot, slot)
    fn h_png_clear() {
        let j = build(&slots(), p(0));
        let mut v = j.bytes();
        ok(Metadata::clear_metadata(&mut v, T), "clearing a valid PNG succeeds");
        match chunks(&v) { Ok(cs) => kept(&j, &v, &cs, None), Err(e) => sx::check(false, e) }
        sx::check(nothing(&Metadata::new_from_vec(&v, T)), "no metadata is read after clearing");
        let once = v.clone();
        ok(Metadata::clear_metadata(&mut v, T), "clearing again succeeds");
        sx::check(sx::same(&v, &once), "clearing again changes nothing");
        sx::reach("ok");
    }
    // the profile text of symbolic EXIF data, as offered to users: (number of symbolic bytes)
    fn h_png_profile() {
        let mut m = Metadata::new(); m.set_tag(ExifTag::UserComment({ let mut d = sx::vec(p(0)); d.push(0x0a); d.push(0xc8); d }));
        let t = match m.as_u8_vec(FileExtension::PNG { as_zTXt_chunk: false }) { Ok(t) => t, Err(_) => { sx::check(false, "encoding"); unreachable!() } };
        let mut v = SIG.to_vec();
        v.extend(chunk(b"IHDR", &[0; 13])); v.extend(text_chunk(0, KEY, &t)); v.extend(chunk(b"IEND", &[]));
        match Metadata::new_from_vec(&v, T) { Ok(b) => sx::check(same_meta(&m, &b), "the profile text holds the metadata"), Err(_) => sx::check(false, "the profile text is read") }
        sx::reach("ok");
    }
    // arbitrary bytes after the signature: (bytes, operation, unchanged on error?)
    fn h_png_raw() { let mut v = SIG.to_vec(); sym(&mut v, p(0)); raw_op(v, T, p(1), p(2) == 1); }
    // one chunk of a type (0 eXIf 1 tEXt 2 zTXt 3 iTXt 4 any name) with right checksum and arbitrary content: (type, prefix 0 none 1 raw profile 2 XMP 3 profile with size, bytes, operation, unchanged on error?)
    fn h_png_chunk() {
        let mut d = match p(1) { 1 => KEY[..21].to_vec(), 2 => XKEY[..17].to_vec(), 3 => b"Raw profile type exif\0\nexif\n      12\n".to_vec(), 4 => b"Raw profile type exif\0".to_vec(), 5 => b"XML:com.adobe.xmp\0<a>".to_vec(), 6 => b"XML:com.adobe.xmp\0\0\0\0\0<a>".to_vec(), 7 => b"XML:com.adobe.xmp\0<exif:a>".to_vec(), 8 => b"Raw profile type exif\0\0\x78\x9c".to_vec(), 9 => b"Raw profile type exif\0\nexif\n 8\n4d4d002a000000".to_vec(), 10 => b"Raw profile type exif\0\n      06457869660000".to_vec(), _ => vec![] };
        sym(&mut d, p(2));
        let n = match p(0) { 0 => *b"eXIf", 1 => *b"tEXt", 2 => *b"zTXt", 3 => *b"iTXt", _ => { let n = sx::vec(4); for x in &n { sx::assume(*x < 0x80); } [n[0], n[1], n[2], n[3]] } };
        let mut v = SIG.to_vec();
        v.extend(chunk(b"IHDR", &[1, 2, 3])); v.extend(chunk(&n, &d)); v.extend(chunk(b"IEND", &[]));
        raw_op(v, T, p(3), p(4) == 1);
    }
    // damaged file: any byte of a small file replaced by any other: (operation)
    fn h_png_damage() {
        let mut v = SIG.to_vec();
        v.extend(chunk(b"IHDR", &[1, 2, 3])); v.extend(chunk(b"eXIf", &small_tiff(true, 5))); v.extend(chunk(b"IEND", &[]));
        let orig = v.clone();
        let at = 8 + sx::pick((v.len() - 8) as u64) as usize;
        let x = sx::u8(); sx::assume(x != v[at]); v[at] = x;
        let mut b = v.clone();
        let r = match p(0) { 0 => Metadata::new_from_vec(&v, T).map(|_| ()), 1 => Metadata::clear_metadata(&mut b, T), _ => Metadata::new().write_to_vec(&mut b, T) };
        sx::check(r.is_err(), "a damaged chunk is noticed");
        sx::check(sx::same(&b, &v), "and nothing is changed");
        let _ = orig;
        sx::reach("ok");
    }
}
