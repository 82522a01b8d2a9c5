//! HEIF: containers with items in several places, symbolic payloads; independent reader resolving every item.
use crate::common::*;
use crate::jpg::{nothing, raw_op, small_tiff};
use crate::jxl::bx;

pub const T: FileExtension = FileExtension::HEIF;
fn full(name: &[u8], version: u8, data: &[u8]) -> Vec<u8> { let mut d = vec![version, 0, 0, 0]; d.extend_from_slice(data); bx(name, &d, 0) }
fn put(v: &mut Vec<u8>, size: u8, x: u64) { match size { 0 => {} 2 => put16(v, false, x as u16), 4 => put32(v, false, x as u32), _ => { put32(v, false, (x >> 32) as u32); put32(v, false, x as u32) } } }
/// (version, size of offsets, lengths, base offsets, indices, what the base offset is: 0 nothing, 1 start of the data, 2 the offset itself)
pub const ILOC: [(u8, u8, u8, u8, u8, u8); 9] = [(0, 4, 4, 0, 0, 0), (1, 4, 4, 4, 0, 1), (1, 0, 4, 4, 0, 2), (2, 8, 8, 0, 4, 0), (1, 4, 4, 0, 8, 0), (0, 8, 4, 8, 0, 1), (2, 4, 8, 8, 0, 2), (1, 4, 4, 4, 0, 0), (1, 0, 4, 8, 0, 2)];
/// order of the boxes: 0 ftyp meta mdat, 1 ftyp mdat meta, 2 ftyp meta free mdat (64 bit) free, 3 ftyp meta mdat up to the end, 4 ftyp free mdat meta mdat, 5 more boxes and bytes after the last one, 6 meta with 64 bit size, 7 as 0 with large data
pub const ORDERS: usize = 7;
pub const META: usize = 5;
/// place of the EXIF data in the last mdat: 0 none, 1 first, 2 between, 3 last
#[derive(Clone)]
pub struct Cfg { pub iloc: usize, pub meta: usize, pub order: usize, pub place: usize, pub how: usize }
pub struct Heif { pub b: Vec<u8>, pub val: Option<u16>, pub exif: Option<(usize, usize)> }
struct Data { a: Vec<u8>, b: Vec<u8>, c: Vec<u8>, exif: Vec<u8>, idat: Vec<u8>, gap: Vec<u8> }
fn cfg(at: u64) -> Cfg { let g = |i: u64, n: usize| { let x = p(at + i); if x == 99 { sx::pick(n as u64) as usize } else { x } }; Cfg { iloc: g(0, ILOC.len()), meta: g(1, META), order: g(2, ORDERS), place: g(3, 4), how: g(4, 3) } }
/// iloc entry: (id, method, data reference, extents)
fn iloc(c: &Cfg, items: &[(u32, u16, u16, Vec<(u64, u64)>)], start: u64) -> Vec<u8> {
    let (ver, os, ls, bs, is, base) = ILOC[c.iloc];
    let mut d = vec![os << 4 | ls, bs << 4 | is];
    put(&mut d, if ver == 2 { 4 } else { 2 }, items.len() as u64);
    for (id, method, dref, ext) in items {
        put(&mut d, if ver == 2 { 4 } else { 2 }, *id as u64);
        if ver > 0 { put16(&mut d, false, *method); }
        put16(&mut d, false, *dref);
        let b = match base { 0 => 0, 1 => if *method == 0 && *dref == 0 { start.min(ext[0].0) } else { 0 }, _ => ext[0].0 };
        put(&mut d, bs, b);
        put16(&mut d, false, ext.len() as u16);
        for (i, (o, l)) in ext.iter().enumerate() { put(&mut d, is, i as u64 + 1); put(&mut d, os, o - b); put(&mut d, ls, *l); }
    }
    full(b"iloc", ver, &d)
}
fn infe(ver: u8, id: u32, ty: &[u8], rest: &[u8]) -> Vec<u8> { let mut d = vec![]; put(&mut d, if ver == 3 { 4 } else { 2 }, id as u64); put16(&mut d, false, 0); d.extend_from_slice(ty); d.extend_from_slice(rest); full(b"infe", ver, &d) }
fn meta_box(c: &Cfg, d: &Data, pos: &[u64]) -> Vec<u8> {
    let (ver, os, ..) = ILOC[c.iloc];
    let single = os == 0;
    let mut items = vec![(2, 0, 0, vec![(pos[0], d.a.len() as u64)])];
    items.push((3, 0, 0, if single { vec![(pos[1], d.b.len() as u64)] } else { vec![(pos[1], d.b.len() as u64), (pos[2], d.c.len() as u64)] }));
    if single { items.push((5, 0, 0, vec![(pos[2], d.c.len() as u64)])); }
    if ver > 0 { items.push((4, 1, 0, vec![(1, d.idat.len() as u64 - 1)])); }
    if c.meta == 2 { items.push((7, 0, 1, vec![(pos[3], 5)])); }
    if c.place > 0 { items.push((6, 0, 0, vec![(pos[3], d.exif.len() as u64)])); }
    let loc = iloc(c, &items, pos[4]);
    let iv = if c.meta == 1 { 1 } else { 0 };
    let mut infos = vec![infe(2, 2, b"hvc1", b"\0"), infe(2, 3, b"hvc1", b"B\0")];
    if c.meta == 3 { infos.push(infe(2, 9, b"iden", b"\0")); }
    if c.place > 0 { infos.push(if c.meta == 4 { infe(3, 6, b"Exif", b"\0") } else if c.meta == 3 { infe(2, 6, b"Exif", b"name\0") } else { infe(2, 6, b"Exif", b"\0") }); }
    infos.push(infe(2, 4, b"mime", b"\0a/b\0"));
    let mut inf = vec![]; put(&mut inf, if iv == 0 { 2 } else { 4 }, infos.len() as u64); for i in &infos { inf.extend_from_slice(i); }
    let inf = full(b"iinf", iv, &inf);
    let rv = if c.meta == 1 { 1 } else { 0 };
    let rf = if c.meta == 0 || c.meta == 4 { vec![] } else { let mut r = vec![]; let mut one = vec![]; let w = if rv == 1 { 4 } else { 2 }; put(&mut one, w, 3); put16(&mut one, false, 2); put(&mut one, w, 2); put(&mut one, w, 4); r.extend(bx(b"thmb", &one, 0)); full(b"iref", rv, &r) };
    let mut k = full(b"hdlr", 0, b"\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0");
    k.extend(full(b"pitm", 0, &[0, 2]));
    if c.meta % 2 == 0 { k.extend(&loc); k.extend(&inf); k.extend(&rf); } else { k.extend(&inf); k.extend(&rf); k.extend(bx(b"iprp", &d.gap, 0)); k.extend(&loc); }
    k.extend(bx(b"idat", &d.idat, 0));
    if c.meta == 2 { k.extend(bx(&[0xa9, b'x', b'y', 0x80], &d.gap, 0)); }
    let mut v = vec![0; 4]; v.extend(k);
    if c.order == 6 { bx(b"meta", &v, 1) } else { bx(b"meta", &v, 0) }
}
pub fn build(c: &Cfg) -> Heif {
    let val = if c.place > 0 { Some(sx::u16()) } else { None };
    let exif = match val { Some(x) => { let pre: Vec<u8> = match c.how { 0 => b"Exif\0\0".to_vec(), 1 => vec![], _ => sx::vec(2) }; let mut v = (pre.len() as u32).to_be_bytes().to_vec(); v.extend(pre); v.extend(small_tiff(c.how % 2 == 0, x)); v } None => vec![] };
    let d = Data { a: sx::vec(3), b: sx::vec(2), c: if c.order == 7 { big(70000) } else { sx::vec(3) }, exif, idat: sx::vec(4), gap: sx::vec(2) };
    let ftyp = bx(b"ftyp", b"heic\0\0\0\0mif1heic", 0);
    let form = match c.order { 2 => 1, 3 => 2, _ => 0 };
    let mut data = d.gap.clone();
    let (mut q, at) = ([0; 5], |v: &Vec<u8>| v.len() as u64);
    if c.place == 1 { q[3] = at(&data); data.extend(&d.exif); }
    q[0] = at(&data); data.extend(&d.a);
    q[1] = at(&data); data.extend(&d.b);
    if c.place == 2 { q[3] = at(&data); data.extend(&d.exif); }
    q[2] = at(&data); data.extend(&d.c);
    if c.place == 3 { q[3] = at(&data); data.extend(&d.exif); } else { data.extend(&d.gap); }
    let n = meta_box(c, &d, &[1 << 20; 5]).len();
    let mut v = ftyp;
    let free = bx(b"free", &d.gap, 0);
    let first: Option<u64>;
    match c.order { 2 => {} 4 => { v.extend(&free); } _ => {} }
    // item 2 of order 4 lies in a first mdat box
    if c.order == 4 { first = Some(v.len() as u64 + 8); v.extend(bx(b"mdat", &d.a, 0)); } else { first = None; }
    let mdat = bx(b"mdat", &data, form);
    let before_meta = c.order == 1;
    let head = (mdat.len() - data.len()) as u64;
    let start = v.len() as u64 + head + if before_meta { 0 } else { n as u64 + if c.order == 2 { free.len() as u64 } else { 0 } };
    let mut pos = [q[0] + start, q[1] + start, q[2] + start, q[3] + start, start];
    if let Some(f) = first { pos[0] = f; }
    let m = meta_box(c, &d, &pos);
    if before_meta { v.extend(&mdat); v.extend(&m); } else { v.extend(&m); if c.order == 2 { v.extend(&free); } v.extend(&mdat); }
    match c.order { 2 => v.extend(&free), 5 => { v.extend(bx(&[0xff, 0xfe, b'a', b'b'], &d.gap, 0)); let mut u = b"0123456789abcdef".to_vec(); u.extend(&d.gap); v.extend(bx(b"uuid", &u, 0)); v.extend(full(b"mvhd", 0, &d.gap)); v.extend([0, 0, 7]); } _ => {} }
    Heif { b: v, val, exif: if c.place > 0 { Some((pos[3] as usize, d.exif.len())) } else { None } }
}

/// Independent reader. Box: (start, name, start of the content, end); bytes after the last box are left over
type Bx = (usize, [u8; 4], usize, usize);
fn boxes(v: &[u8], mut i: usize, end: usize, top: bool) -> Result<Vec<Bx>, &'static str> {
    let mut r = vec![];
    while i < end {
        if i + 8 > end { if top { break; } return Err("box truncated"); }
        let (mut n, mut h) = (get32(v, i, false) as usize, 8);
        if n == 1 { if i + 16 > end { return Err("box truncated"); } n = get32(v, i + 12, false) as usize; h = 16; }
        if n == 0 { n = end - i; }
        if n < h || n > end - i { return Err("box size"); }
        r.push((i, [v[i + 4], v[i + 5], v[i + 6], v[i + 7]], i + h, i + n)); i += n;
    }
    Ok(r)
}
struct Loc { id: u32, method: u16, dref: u16, ext: Vec<(u64, u64, u64)>, bytes: Vec<u8> }
struct Doc { top: Vec<Bx>, kids: Vec<Bx>, infos: Vec<(u32, [u8; 4], Vec<u8>)>, locs: Vec<Loc>, refs: Vec<([u8; 4], Vec<u8>)>, rv: u8, left: usize }
fn num(v: &[u8], i: &mut usize, size: u8, end: usize) -> Result<u64, &'static str> {
    if *i + size as usize > end { return Err("box content truncated"); }
    let mut x = 0; for _ in 0..size { x = x << 8 | v[*i] as u64; *i += 1; } Ok(x)
}
fn parse(v: &[u8]) -> Result<Doc, &'static str> {
    let top = boxes(v, 0, v.len(), true)?;
    let left = top.last().map(|b| b.3).unwrap_or(0);
    let m = *top.iter().find(|b| &b.1 == b"meta").ok_or("no meta box")?;
    let kids = boxes(v, m.2 + 4, m.3, false)?;
    let find = |n: &[u8; 4]| kids.iter().find(|b| &b.1 == n).copied();
    if kids.iter().filter(|b| &b.1 == b"iref" || &b.1 == b"iinf" || &b.1 == b"iloc").count() > 3 { return Err("a box of the meta box is repeated"); }
    let idat = find(b"idat").ok_or("no idat")?;
    let mut infos = vec![];
    let b = find(b"iinf").ok_or("no iinf")?; let mut i = b.2 + 4;
    let n = num(v, &mut i, if v[b.2] == 0 { 2 } else { 4 }, b.3)?;
    let es = boxes(v, i, b.3, false)?;
    if es.len() as u64 != n { return Err("number of item infos"); }
    for e in es { let mut i = e.2 + 4; let id = num(v, &mut i, if v[e.2] == 3 { 4 } else { 2 }, e.3)? as u32; i += 2; if i + 4 > e.3 { return Err("item info truncated"); } infos.push((id, [v[i], v[i + 1], v[i + 2], v[i + 3]], v[e.0..e.3].to_vec())); }
    let mut refs = vec![]; let mut rv = 0;
    if let Some(b) = find(b"iref") { rv = v[b.2]; for r in boxes(v, b.2 + 4, b.3, false)? { refs.push((r.1, v[r.2..r.3].to_vec())); } }
    let b = find(b"iloc").ok_or("no iloc")?; let mut i = b.2 + 4; let ver = v[b.2];
    let (os, ls, bs, is) = (v[i] >> 4, v[i] & 15, v[i + 1] >> 4, if ver == 0 { 0 } else { v[i + 1] & 15 }); i += 2;
    let n = num(v, &mut i, if ver == 2 { 4 } else { 2 }, b.3)?;
    let mut locs = vec![];
    for _ in 0..n {
        let id = num(v, &mut i, if ver == 2 { 4 } else { 2 }, b.3)? as u32;
        let method = if ver == 0 { 0 } else { num(v, &mut i, 2, b.3)? as u16 };
        let dref = num(v, &mut i, 2, b.3)? as u16;
        let base = num(v, &mut i, bs, b.3)?;
        let mut l = Loc { id, method, dref, ext: vec![], bytes: vec![] };
        for _ in 0..num(v, &mut i, 2, b.3)? {
            let x = num(v, &mut i, is, b.3)?; let o = num(v, &mut i, os, b.3)? + base; let n = num(v, &mut i, ls, b.3)?;
            l.ext.push((o, n, x));
            if dref != 0 { continue; }
            let (from, to) = if method == 1 { (idat.2, idat.3) } else { (0, v.len()) };
            if o + n > (to - from) as u64 { return Err("an item lies outside of the data"); }
            l.bytes.extend_from_slice(&v[from + o as usize..from + (o + n) as usize]);
        }
        locs.push(l);
    }
    if i != b.3 { return Err("size of the item location box"); }
    Ok(Doc { top, kids, infos, locs, refs, rv, left })
}
fn read(v: &[u8]) -> Doc { match parse(v) { Ok(d) => d, Err(e) => { sx::check(false, e); unreachable!() } } }
/// everything but the EXIF data is as it was; gives the position of the EXIF data now
fn compare(old: &[u8], new: &[u8], old_exif: Option<(usize, usize)>, added: bool) -> (usize, usize) {
    let (a, b) = (read(old), read(new));
    sx::check(a.top.len() == b.top.len() && sx::same(&old[a.left..], &new[b.left..]), "no box and nothing after them is lost");
    let ex: Vec<_> = b.infos.iter().filter(|i| &i.1 == b"Exif").collect();
    sx::check(ex.len() == 1, "exactly one item holds EXIF data");
    let id = ex[0].0;
    sx::check(b.infos.iter().filter(|i| i.0 == id).count() == 1, "the ID of the item holding EXIF data is used once");
    let l: Vec<_> = b.locs.iter().filter(|l| l.id == id).collect();
    sx::check(l.len() == 1 && l[0].ext.len() == 1 && l[0].method == 0 && l[0].dref == 0, "the EXIF data has one location");
    let (e0, e1) = (l[0].ext[0].0 as usize, (l[0].ext[0].0 + l[0].ext[0].1) as usize);
    // top level
    for (x, y) in a.top.iter().zip(&b.top) {
        sx::check(x.1 == y.1, "the boxes keep their order");
        if &x.1 == b"meta" { continue; }
        let mut want = old[x.2..x.3].to_vec(); let mut is = new[y.2..y.3].to_vec();
        if let Some((o, n)) = old_exif { if o >= x.2 && o + n <= x.3 { want.drain(o - x.2..o - x.2 + n); } }
        if e0 >= y.2 && e1 <= y.3 { sx::check(&y.1 == b"mdat", "the EXIF data lies in a data box"); is.drain(e0 - y.2..e1 - y.2); }
        sx::check(want.len() == is.len() && sx::same(&want, &is), "every box but for the EXIF data is unchanged");
        sx::check((x.2 - x.0) == (y.2 - y.0), "every box keeps its kind of header");
    }
    // meta
    let kept = |v: &[Bx]| v.iter().filter(|k| &k.1 != b"iref").copied().collect::<Vec<_>>();
    let (ka, kb) = (kept(&a.kids), kept(&b.kids));
    sx::check(ka.len() == kb.len(), "the meta box keeps its boxes");
    for (x, y) in ka.iter().zip(&kb) {
        sx::check(x.1 == y.1, "the boxes in the meta box keep their order");
        if &x.1 != b"iloc" && &x.1 != b"iinf" { sx::check(x.3 - x.0 == y.3 - y.0 && sx::same(&old[x.0..x.3], &new[y.0..y.3]), "the other boxes in the meta box are unchanged"); }
    }
    let extra = added as usize;
    sx::check(b.infos.len() == a.infos.len() + extra && b.locs.len() == a.locs.len() + extra && b.refs.len() == a.refs.len() + extra, "only the EXIF item is added");
    for (x, y) in a.infos.iter().zip(&b.infos) { sx::check(x.2.len() == y.2.len() && sx::same(&x.2, &y.2), "the item infos are unchanged"); }
    for (x, y) in a.refs.iter().zip(&b.refs) { sx::check(x.0 == y.0 && x.1.len() == y.1.len() && sx::same(&x.1, &y.1), "the item references are unchanged"); }
    for (x, y) in a.locs.iter().zip(&b.locs) {
        sx::check(x.id == y.id && x.method == y.method && x.dref == y.dref && x.ext.len() == y.ext.len(), "every item keeps its kind of location");
        for (s, t) in x.ext.iter().zip(&y.ext) { sx::check(s.2 == t.2, "extents keep their index"); if x.dref != 0 { sx::check(s.0 == t.0 && s.1 == t.1, "items in other files keep their location"); } }
        if x.id != id { sx::check(x.bytes.len() == y.bytes.len() && sx::same(&x.bytes, &y.bytes), "every other item resolves to the bytes it had"); }
    }
    if added {
        let (ty, d) = &b.refs[a.refs.len()];
        let mut want = vec![]; let w = if b.rv == 0 { 2 } else { 4 }; put(&mut want, w, id as u64); put16(&mut want, false, 1); put(&mut want, w, 2);
        sx::check(ty == b"cdsc" && d == &want, "the new item describes the primary item");
    }
    (e0, e1)
}
fn tiff(v: &[u8], e: (usize, usize)) -> Option<&[u8]> {
    let x = &v[e.0..e.1]; if x.len() < 4 { return None; }
    let off = get32(x, 0, false) as usize; if off > x.len() - 4 { return None; } Some(&x[4 + off..])
}
harnesses! {
    // (iloc, meta, order, place, prefix, metadata kind, text length)
    fn h_heif_write() {
        let c = cfg(0); let h = build(&c);
        let m = meta(p(5), p(6));
        let mut v = h.b.clone();
        sx::check(m.write_to_vec(&mut v, T).is_ok(), "writing to a valid HEIF succeeds");
        let e = compare(&h.b, &v, h.exif, h.exif.is_none());
        let t = tiff(&v, e);
        sx::check(t.is_some(), "the EXIF data has a valid header");
        let t = t.unwrap();
        sx::check(t.starts_with(b"II*\0") || t.starts_with(b"MM\0*"), "the offset leads to the EXIF data");
        match Metadata::new_from_vec(&v, T) { Ok(b) => sx::check(same_meta(&m, &b) && b.get_endian() == m.get_endian(), "exactly the written metadata is read"), Err(_) => sx::check(false, "the written metadata is read") }
        let once = v.clone();
        sx::check(m.write_to_vec(&mut v, T).is_ok(), "writing again succeeds");
        sx::check(sx::same(&v, &once), "writing the same metadata again changes nothing");
        sx::reach("ok");
    }
    // (iloc, meta, order, place, prefix)
    fn h_heif_read() {
        let c = cfg(0); let h = build(&c);
        let r = Metadata::new_from_vec(&h.b, T);
        match h.val { Some(x) => { crate::jpg::orientation(&r, x); sx::reach("found"); } None => { sx::check(nothing(&r), "no EXIF data, no metadata"); sx::reach("none"); } }
    }
    // first written with other metadata, then cleared: (iloc, meta, order, place, prefix, metadata kind or 9 for none, text length)
    fn h_heif_clear() {
        let c = cfg(0); let h = build(&c);
        let mut v = h.b.clone();
        let m = if p(5) == 9 { None } else { Some(meta(p(5), p(6))) };
        if let Some(m) = &m { sx::check(m.write_to_vec(&mut v, T).is_ok(), "writing to a valid HEIF succeeds"); }
        let before = v.clone();
        sx::check(Metadata::clear_metadata(&mut v, T).is_ok(), "clearing a valid HEIF succeeds");
        if h.exif.is_none() && m.is_none() { sx::check(sx::same(&v, &h.b), "nothing to clear, nothing changes"); sx::reach("none"); return; }
        compare(&h.b, &v, h.exif, h.exif.is_none());
        let (had, has) = (Metadata::new_from_vec(&before, T), Metadata::new_from_vec(&v, T));
        sx::check(had.is_ok(), "EXIF data is read before");
        let had = rows(&had.unwrap()); let has = has.map(|m| rows(&m)).unwrap_or_default();
        for r in &has { sx::check(matches!(r.code, 0x112 | 0x11a | 0x11b | 0x128) && had.iter().any(|o| o.code == r.code && o.g == r.g && o.val == r.val), "only orientation and resolution are left"); }
        for r in &had { if matches!(r.code, 0x112 | 0x11a | 0x11b | 0x128) { sx::check(has.iter().any(|o| o.code == r.code), "orientation and resolution are kept"); } }
        let once = v.clone();
        sx::check(Metadata::clear_metadata(&mut v, T).is_ok(), "clearing again succeeds");
        sx::check(sx::same(&v, &once), "clearing again changes nothing");
        sx::reach("ok");
    }
    // valid container with n arbitrary bytes at a place: (iloc, meta, order, place, prefix, box 0 iloc 1 iinf 2 iref 3 EXIF data 4 second box 5 hdlr 6 idat 7 mdat, offset (1000 + k: any below k), n, operation, unchanged on error?)
    fn h_heif_field() {
        let c = cfg(0); let h = build(&c);
        let mut v = h.b;
        let d = match parse(&v) { Ok(d) => d, Err(_) => { sx::assume(false); return; } };
        let find = |n: &[u8; 4]| d.kids.iter().find(|b| &b.1 == n).map(|b| b.0);
        let at = match p(5) { 0 => find(b"iloc"), 1 => find(b"iinf"), 2 => find(b"iref"), 3 => h.exif.map(|e| e.0), 4 => Some(d.top[1].0), 5 => Some(d.kids[0].0), 6 => find(b"idat"), _ => d.top.iter().rev().find(|b| &b.1 == b"mdat").map(|b| b.0) };
        let Some(at) = at else { sx::assume(false); return; };
        let off = if p(6) >= 1000 { sx::pick(p(6) as u64 - 1000) as usize } else { p(6) };
        let s = sx::vec(p(7)); for (i, x) in s.iter().enumerate() { if at + off + i < v.len() { v[at + off + i] = *x; } }
        raw_op(v, T, p(8), p(9) == 1);
    }
    // file type box, then arbitrary bytes: (bytes, operation, unchanged on error?)
    fn h_heif_raw() { let mut v = bx(b"ftyp", b"heic\0\0\0\0", 0); sym(&mut v, p(0)); raw_op(v, T, p(1), p(2) == 1); }
    // a meta box with handler and a box with arbitrary size and content: (name, bytes, operation, unchanged on error?)
    fn h_heif_box() {
        let mut v = bx(b"ftyp", b"heic\0\0\0\0", 0);
        let mut k = vec![0; 4]; k.extend(full(b"hdlr", 0, b"\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0"));
        sym(&mut k, 4); k.extend_from_slice([&b"iinf"[..], b"iloc", b"iref", b"idat", b"uuid", b"hdlr"][p(0)]); sym(&mut k, p(1));
        v.extend(bx(b"meta", &k, 0)); v.extend(bx(b"mdat", b"abc", 0));
        raw_op(v, T, p(2), p(3) == 1);
    }
}
