//! EXIF body / TIFF files.
use crate::common::*;
use crate::oracle::{self, Dir};
harnesses! {
    // arbitrary bytes: n
    fn h_tiff_read_raw() {
        let v = sx::vec(p(0));
        outcome(&Metadata::new_from_vec(&v, FileExtension::TIFF));
    }
    // header, then `e` entirely symbolic IFD entries, symbolic next link, symbolic tail: (big endian?, e, tail, symbolic link?)
    fn h_tiff_read_ifd() {
        let le = p(0) == 0; let e = p(1); let tail = p(2);
        let mut v = tiff_header(le);
        put16(&mut v, le, e as u16);
        sym(&mut v, 12 * e);
        if p(3) == 1 { sym(&mut v, 4); } else { put32(&mut v, le, 0); }
        sym(&mut v, tail);
        outcome(&Metadata::new_from_vec(&v, FileExtension::TIFF));
    }
    // one IFD0 entry of a given format, everything else symbolic: (big endian?, format, tail, arbitrary bytes?, tag or 0x10000)
    fn h_tiff_read_entry() {
        let le = p(0) == 0; let fmt = p(1) as u16; let tail = p(2);
        let mut v = tiff_header(le);
        put16(&mut v, le, 1);
        if p(4) < 0x10000 { put16(&mut v, le, p(4) as u16) } else { sym(&mut v, 2) }
        put16(&mut v, le, fmt);
        sym(&mut v, 4);
        let at = v.len();
        sym(&mut v, 4); put32(&mut v, le, 0); sym(&mut v, tail);
        if p(3) == 0 { for i in at..v.len() { sx::assume(v[i] < 0x80); } }
        outcome(&Metadata::new_from_vec(&v, FileExtension::TIFF));
    }

    // two related entries of up to two values, everything else symbolic: (big endian?, pair, tail, symbolic link?, most values)
    fn h_tiff_read_pair() {
        let le = p(0) == 0;
        let (a, b) = [(0x201u16, 0x202u16), (0x111, 0x117), (0x202, 0x201), (0x117, 0x111), (0x8769, 0x8825), (0x8825, 0x8825), (0x8769, 0x201)][p(1)];
        let mut v = tiff_header(le);
        put16(&mut v, le, 2);
        let (f, g) = [(4u16, 4u16), (3, 4), (4, 3), (4, 7), (3, 3)][sx::pick(5) as usize];
        for (t, f) in [(a, f), (b, g)] { put16(&mut v, le, t); put16(&mut v, le, f); let n = sx::pick(p(4) as u64 + 1) as u32 * (1 + (f == 7) as u32); put32(&mut v, le, n); sym(&mut v, 4); }
        if p(3) == 1 { sym(&mut v, 4) } else { put32(&mut v, le, 0) }
        sym(&mut v, p(2));
        outcome(&Metadata::new_from_vec(&v, FileExtension::TIFF));
    }
    // TIFF image, metadata changed and written back or cleared: (big endian?, data first?, pages, strip type, operation 0 write 1 clear 2 write+clear 3 clear+write)
    fn h_tiff_image() {
        let (le, df, pages, st, op) = (p(0) == 0, p(1) == 1, p(2), p(3) as u16, p(4));
        let dirs: Vec<Dir> = (0..pages).map(|i| image_dir(le, st, i)).collect();
        let mut v = oracle::tiff_bytes(le, &dirs, df);
        if sx::pick(2) == 1 { sym(&mut v, 64); }
        let before = oracle::tiff(&v);
        sx::check(before.err.is_empty(), before.err);
        let orig = v.clone();
        let name = text(3);
        let want = name.as_bytes().to_vec();
        if op == 1 || op == 3 { must(Metadata::clear_metadata(&mut v, FileExtension::TIFF)); }
        let mut written = None;
        if op != 1 {
            let mut m = match Metadata::new_from_vec(&v, FileExtension::TIFF) { Ok(m) => m, Err(_) => { sx::check(false, "a valid TIFF image can be read"); unreachable!() } };
            m.set_tag(ExifTag::ImageDescription(name));
            must(m.write_to_vec(&mut v, FileExtension::TIFF));
            written = Some(m);
        }
        if op == 2 { must(Metadata::clear_metadata(&mut v, FileExtension::TIFF)); }
        let after = oracle::tiff(&v);
        sx::check(after.err.is_empty(), after.err);
        sx::check(after.le == le, "byte order kept");
        let end = after.regions.iter().map(|r| r.1).max().unwrap_or(0);
        sx::check(v.len() <= end + 3, "nothing of the old file is left behind the new one");
        sx::check(after.strips.len() == before.strips.len(), "number of strips kept");
        for (a, b) in before.strips.iter().zip(after.strips.iter()) { sx::check(a.0 == b.0, "strips stay with their page"); sx::check(sx::same(&a.1, &b.1), "strip bytes kept"); }
        let cleared = op == 1 || op == 2;
        for e in &before.ents {
            let image = e.group == 0 && matches!(e.tag, 0x100 | 0x101 | 0x102 | 0x103 | 0x106 | 0x115 | 0x116 | 0x117 | 0x11a | 0x11b | 0x128);
            let gone = if image { false } else { op != 0 || e.group == 0 && e.tag == 0x10e && e.nr == 0 };
            let f = after.ents.iter().find(|x| x.group == e.group && x.nr == e.nr && x.tag == e.tag);
            if gone && !(op == 3 && e.tag == 0x10e && e.group == 0) { if op != 0 { sx::check(f.is_none(), "clearing removes what does not describe the image"); } continue; }
            if gone { continue; }
            match f { Some(x) => same_value(&before, e, &after, x), None => sx::check(false, "an entry got lost") }
        }
        let d = after.ents.iter().find(|x| x.group == 0 && x.nr == 0 && x.tag == 0x10e);
        if cleared { sx::check(d.is_none(), "clearing removes the description"); }
        else { match d { Some(x) => sx::check(x.ty == 2 && x.data.len() == 4 && sx::same(&x.data[..3], &want), "the new description is in the file"), None => sx::check(false, "the new description is in the file") } }
        for e in &after.ents { if !(e.tag == 0x10e && e.nr == 0) { sx::check(before.ents.iter().any(|x| x.group == e.group && x.nr == e.nr && x.tag == e.tag), "no other entry appears"); } }
        if let (Some(m), false) = (written, cleared) { match Metadata::new_from_vec(&v, FileExtension::TIFF) { Ok(b) => sx::check(same_meta(&m, &b), "reads back what was written"), Err(_) => sx::check(false, "the written image can be read") } }
        let _ = orig;
        sx::reach("ok");
    }
    // writing metadata that lacks a required tag is refused and changes nothing: ()
    fn h_tiff_required() {
        let req = [0x100u16, 0x101, 0x103, 0x106, 0x111, 0x116, 0x117, 0x11a, 0x11b, 0x128];
        let mut v = oracle::tiff_bytes(true, &[image_dir(true, 4, 0)], false);
        let orig = v.clone();
        let mut m = match Metadata::new_from_vec(&v, FileExtension::TIFF) { Ok(m) => m, Err(_) => { sx::check(false, "a valid TIFF image can be read"); unreachable!() } };
        let k = req[sx::pick(10) as usize];
        m.remove_tag_by_hex_group(k, ExifTagGroup::GENERIC);
        let r = m.write_to_vec(&mut v, FileExtension::TIFF);
        sx::check(r.is_err(), "refused");
        sx::check(sx::same(&v, &orig), "unchanged");
        sx::reach("ok");
    }
}
fn must(r: Result<(), std::io::Error>) { sx::check(r.is_ok(), "the operation succeeds") }
fn same_value(b: &oracle::Tiff, e: &oracle::Ent, a: &oracle::Tiff, x: &oracle::Ent) {
    sx::check(e.count == x.count, "number of values kept");
    if e.ty == x.ty { sx::check(sx::same(&e.data, &x.data), "value kept"); return; }
    sx::check(e.ty == 3 && x.ty == 4, "only SHORT may become LONG");
    for i in 0..e.count as usize { sx::check(get16(&e.data, 2 * i, b.le) as u32 == get32(&x.data, 4 * i, a.le), "value kept"); }
}
/// A page with all required tags, symbolic values and strips; other metadata on page 0.
pub fn image_dir(le: bool, st: u16, page: usize) -> Dir {
    let sh = |x: usize| { let mut v = Vec::new(); for _ in 0..x { let s = sx::u16(); put16(&mut v, le, s); } v };
    let mut d = Dir { strip_ty: st, ..Default::default() };
    let wt = if sx::pick(2) == 0 { 3u16 } else { 4 };
    d.ents.push((0x100, wt, 1, sx::vec(oracle::size_of(wt)))); d.ents.push((0x101, 3, 1, sh(1)));
    let spp = if page == 0 { [1usize, 3][sx::pick(2) as usize] } else { 1 };
    d.ents.push((0x102, 3, spp as u32, sh(spp)));
    d.ents.push((0x103, 3, 1, sh(1))); d.ents.push((0x106, 3, 1, sh(1))); d.ents.push((0x115, 3, 1, sh(1))); d.ents.push((0x116, 4, 1, sx::vec(4)));
    d.ents.push((0x11a, 5, 1, sx::vec(8))); d.ents.push((0x11b, 5, 1, sx::vec(8))); d.ents.push((0x128, 3, 1, sh(1)));
    let ns = if page == 0 { [1usize, 3, 2][sx::pick(3) as usize] } else { 1 };
    for i in 0..ns { d.strips.push(sx::vec([5, 2, 8][i])); }
    if page == 0 {
        if sx::pick(2) == 1 { let mut t = sx::vec(6); for x in &t { sx::assume(*x >= 0x20 && *x < 0x7f); } t.push(0); d.ents.push((0x10e, 2, 7, t)); }
        match sx::pick(3) { 1 => { d.ents.push((0x112, 3, 1, sh(1))); let e = Dir { ents: vec![(0x8827, 3, 1, sh(1)), (0x9286, 7, 6, sx::vec(6))], ..Default::default() }; d.subs.push((0x8769, e)); }
            2 => { let e = Dir { ents: vec![(6, 5, 1, sx::vec(8))], ..Default::default() }; d.subs.push((0x8825, e)); d.ents.push((0x9c9b, 1, 5, sx::vec(5))); } _ => {} }
    }
    d
}
