//! Independent readers used as oracles (no code of the crate).
use crate::common::{get16, get32};
/// One IFD entry as found in the bytes. group: 0 IFDn, 1 EXIF, 2 INTEROP, 3 GPS
#[derive(Clone)]
pub struct Ent { pub group: u8, pub nr: u32, pub tag: u16, pub ty: u16, pub count: u32, pub data: Vec<u8> }
pub struct Tiff { pub le: bool, pub ents: Vec<Ent>, pub regions: Vec<(usize, usize)>, pub ifds: Vec<(u8, u32)>, pub strips: Vec<(u32, Vec<u8>)>, pub thumbs: Vec<(u32, Vec<u8>)>, pub err: &'static str }
pub fn size_of(ty: u16) -> usize { match ty { 1 | 2 | 6 | 7 => 1, 3 | 8 => 2, 4 | 9 | 11 => 4, 5 | 10 | 12 => 8, _ => 0 } }
fn ifd(t: &mut Tiff, b: &[u8], at: usize, group: u8, nr: u32) -> u32 {
    let le = t.le;
    if at % 2 != 0 { t.err = "IFD not on a word boundary"; return 0; }
    if at + 6 > b.len() { t.err = "IFD offset out of bounds"; return 0; }
    let n = get16(b, at, le) as usize;
    let end = at + 2 + 12 * n + 4;
    if end > b.len() { t.err = "IFD entries out of bounds"; return 0; }
    t.regions.push((at, end));
    t.ifds.push((group, nr));
    let mut last: i64 = -1;
    let (mut so, mut sc, mut to, mut tl) = (Vec::new(), Vec::new(), None, None);
    for i in 0..n {
        let e = at + 2 + 12 * i;
        let (tag, ty, count) = (get16(b, e, le), get16(b, e + 2, le), get32(b, e + 4, le));
        if tag as i64 <= last { t.err = "tags not in ascending order"; return 0; }
        last = tag as i64;
        let sz = size_of(ty);
        if sz == 0 { t.err = "unknown field type"; return 0; }
        let bytes = sz * count as usize;
        let off = if bytes <= 4 { e + 8 } else { get32(b, e + 8, le) as usize };
        if bytes > 4 {
            if off + bytes > b.len() { t.err = "value out of bounds"; return 0; }
            if off % 2 != 0 { t.err = "value not on a word boundary"; return 0; }
            t.regions.push((off, off + bytes));
        }
        let data = b[off..off + bytes].to_vec();
        let sub = match (group, tag) { (0, 0x8769) => 1u8, (0, 0x8825) => 3, (1, 0xa005) => 2, _ => 0 };
        if sub != 0 {
            if ty != 4 || count != 1 { t.err = "sub-IFD pointer is not one LONG"; return 0; }
            let o = get32(&data, 0, le) as usize;
            let _ = ifd(t, b, o, sub, nr);
            if !t.err.is_empty() { return 0; }
            continue;
        }
        let num = |d: &Vec<u8>, i: usize| if ty == 3 { get16(d, 2 * i, le) as usize } else { get32(d, 4 * i, le) as usize };
        if tag == 0x111 { for i in 0..count as usize { so.push(num(&data, i)); } continue; }
        if tag == 0x117 { for i in 0..count as usize { sc.push(num(&data, i)); } }
        if tag == 0x201 { to = Some(num(&data, 0)); continue; }
        if tag == 0x202 { tl = Some(num(&data, 0)); }
        t.ents.push(Ent { group, nr, tag, ty, count, data });
    }
    if so.len() != sc.len() { t.err = "strip offsets and byte counts differ in number"; return 0; }
    for i in 0..so.len() {
        if so[i] + sc[i] > b.len() { t.err = "strip out of bounds"; return 0; }
        if sc[i] > 0 { t.regions.push((so[i], so[i] + sc[i])); }
        t.strips.push((nr, b[so[i]..so[i] + sc[i]].to_vec()));
    }
    if let (Some(o), Some(l)) = (to, tl) {
        if o + l > b.len() { t.err = "thumbnail out of bounds"; return 0; }
        if l > 0 { t.regions.push((o, o + l)); }
        t.thumbs.push((nr, b[o..o + l].to_vec()));
    }
    get32(b, end - 4, le)
}
/// Strict TIFF structure parser; `err` names the first broken rule.
pub fn tiff(b: &[u8]) -> Tiff {
    let mut t = Tiff { le: true, ents: vec![], regions: vec![(0, 8)], ifds: vec![], strips: vec![], thumbs: vec![], err: "" };
    if b.len() < 8 { t.err = "shorter than a header"; return t; }
    if b[0] == 0x49 && b[1] == 0x49 && b[2] == 0x2a && b[3] == 0 { t.le = true }
    else if b[0] == 0x4d && b[1] == 0x4d && b[2] == 0 && b[3] == 0x2a { t.le = false }
    else { t.err = "bad byte order mark"; return t; }
    let mut at = get32(b, 4, t.le) as usize;
    let mut nr = 0;
    if at == b.len() { return t; } // no IFD at all
    while at != 0 {
        if nr > 8 { t.err = "IFD chain does not end"; return t; }
        at = ifd(&mut t, b, at, 0, nr) as usize;
        if !t.err.is_empty() { return t; }
        nr += 1;
    }
    let mut r = t.regions.clone();
    r.sort();
    for w in r.windows(2) { if w[1].0 < w[0].1 { t.err = "two structures overlap"; return t; } }
    t
}
pub fn swap(raw: &[u8], ty: u16) -> Vec<u8> {
    let s = match ty { 5 | 10 => 4, t => size_of(t) };
    let mut v = raw.to_vec();
    for c in v.chunks_mut(s) { c.reverse(); }
    v
}

/// Independent TIFF writer: entries (tag, type, count, value bytes in file order), strips, sub-IFDs.
#[derive(Default, Clone)]
pub struct Dir { pub ents: Vec<(u16, u16, u32, Vec<u8>)>, pub strips: Vec<Vec<u8>>, pub strip_ty: u16, pub subs: Vec<(u16, Dir)>, pub thumb: Option<Vec<u8>> }
fn enc(le: bool, ty: u16, x: u32) -> Vec<u8> { match (ty, le) { (3, true) => (x as u16).to_le_bytes().to_vec(), (3, false) => (x as u16).to_be_bytes().to_vec(), (_, true) => x.to_le_bytes().to_vec(), (_, false) => x.to_be_bytes().to_vec() } }
impl Dir {
    /// Appends the directory; `data_first`: strips and values before the directory. Returns (offset, offset of the next link).
    fn put(&self, v: &mut Vec<u8>, le: bool, data_first: bool) -> (u32, usize) {
        let mut ents = self.ents.clone();
        let extra = (if self.strips.is_empty() { 0 } else { 2 }) + self.subs.len() + if self.thumb.is_some() { 2 } else { 0 };
        let n = ents.len() + extra;
        let size = 2 + 12 * n + 4;
        let mut at = 0;
        if !data_first { if v.len() % 2 == 1 { v.push(0); } at = v.len(); v.resize(at + size, 0); }
        if !self.strips.is_empty() {
            let (mut so, mut sc) = (vec![], vec![]);
            for s in &self.strips { so.extend(enc(le, self.strip_ty, v.len() as u32)); sc.extend(enc(le, self.strip_ty, s.len() as u32)); v.extend_from_slice(s); }
            ents.push((0x111, self.strip_ty, self.strips.len() as u32, so)); ents.push((0x117, self.strip_ty, self.strips.len() as u32, sc));
        }
        if let Some(t) = &self.thumb { ents.push((0x201, 4, 1, enc(le, 4, v.len() as u32))); ents.push((0x202, 4, 1, enc(le, 4, t.len() as u32))); v.extend_from_slice(t); }
        for (tag, d) in &self.subs { let (o, _) = d.put(v, le, data_first); ents.push((*tag, 4, 1, enc(le, 4, o))); }
        ents.sort_by_key(|e| e.0);
        let mut body = Vec::new();
        body.extend(enc(le, 3, n as u32));
        for (tag, ty, count, val) in &ents {
            body.extend(enc(le, 3, *tag as u32)); body.extend(enc(le, 3, *ty as u32)); body.extend(enc(le, 4, *count));
            if val.len() <= 4 { body.extend_from_slice(val); for _ in val.len()..4 { body.push(0); } }
            else { if v.len() % 2 == 1 { v.push(0); } body.extend(enc(le, 4, v.len() as u32)); v.extend_from_slice(val); }
        }
        body.extend([0; 4]);
        if data_first { if v.len() % 2 == 1 { v.push(0); } at = v.len(); v.extend_from_slice(&body); } else { v[at..at + size].copy_from_slice(&body); }
        (at as u32, at + size - 4)
    }
}
/// A whole TIFF stream from the chain of directories.
pub fn tiff_bytes(le: bool, dirs: &[Dir], data_first: bool) -> Vec<u8> {
    let mut v = crate::common::tiff_header(le);
    let mut link = 4;
    for d in dirs { let (o, l) = d.put(&mut v, le, data_first); v[link..link + 4].copy_from_slice(&enc(le, 4, o)); link = l; }
    v
}
