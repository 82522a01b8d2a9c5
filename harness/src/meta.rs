//! Metadata model: encode/decode, structure, get/set/remove, tag tables.
use crate::common::*;
use crate::oracle;
use crate::sx;

/// Metadata with several IFDs; what is present, and how long, is chosen symbolically. `wide`: more choices.
pub fn layout(le: bool, wide: bool) -> Metadata {
    let mut m = empty(le);
    let w = if wide { 3 } else { 2 };
    let n = [0, 3, 6][sx::pick(w) as usize];
    m.set_tag(ExifTag::ImageDescription(text(n)));
    if sx::pick(2) == 1 { m.set_tag(ExifTag::UnknownUNDEF(sx::vec(5), 0x9c9b, ExifTagGroup::GENERIC)); }
    if sx::pick(2) == 1 { m.set_tag(ExifTag::Copyright(text(4))); }
    match sx::pick(w) { 1 => { let s = sx::vec(3); m.set_tag(ExifTag::StripOffsets(vec![], vec![s])); m.set_tag(ExifTag::StripByteCounts(vec![3])); }
        2 => { let (a, b) = (sx::vec(1), sx::vec(6)); m.set_tag(ExifTag::StripOffsets(vec![], vec![a, b])); m.set_tag(ExifTag::StripByteCounts(vec![1, 6])); } _ => {} }
    match sx::pick(w) { 1 => m.set_tag(ExifTag::ISO(vu16(1))), 2 => { m.set_tag(ExifTag::ISO(vu16(3))); m.set_tag(ExifTag::UserComment(sx::vec(9))); } _ => {} }
    if sx::pick(2) == 1 { m.set_tag(ExifTag::InteroperabilityIndex(text(3))); if wide { m.set_tag(ExifTag::InteroperabilityVersion(sx::vec(4))); } }
    match sx::pick(w) { 1 => m.set_tag(ExifTag::GPSLatitude(vur(3))), 2 => { m.set_tag(ExifTag::GPSAltitudeRef(sx::vec(1))); m.set_tag(ExifTag::GPSLatitudeRef(text(1))); } _ => {} }
    match sx::pick(w) { 1 => { let d = sx::vec(5); let i = m.get_ifd_mut(ExifTagGroup::GENERIC, 1); i.set_tag(ExifTag::ThumbnailOffset(vec![], d)); i.set_tag(ExifTag::ThumbnailLength(vec![5])); i.set_tag(ExifTag::XResolution(vur(1))); }
        2 => { m.get_ifd_mut(ExifTagGroup::EXIF, 1).set_tag(ExifTag::ExposureCompensation(vir(1))); m.get_ifd_mut(ExifTagGroup::GENERIC, 1).set_tag(ExifTag::Make(text(3))); m.get_ifd_mut(ExifTagGroup::GENERIC, 2).set_tag(ExifTag::Model(text(2))); } _ => {} }
    m
}
fn usable(code: u16, g: ExifTagGroup, ty: u16) -> bool {
    // not the codes whose value is maintained by the encoder
    if matches!(code, 0x111 | 0x117 | 0x201 | 0x202 | 0x8769 | 0x8825 | 0xa005) { return false; }
    match ExifTag::from_u16(code, &g) { Ok(t) => t.format().as_u16() == ty && t.is_writable(), Err(_) => true }
}
/// One tag of format `ty` with n components, any code usable in the group: (tag, code, raw little endian value)
pub fn any_tag(g: ExifTagGroup, ty: u16, n: usize) -> (ExifTag, u16, Vec<u8>) {
    let code = sx::u16();
    sx::assume(usable(code, g, ty));
    let raw = sx::vec(n * oracle::size_of(ty));
    if ty == 2 { for x in &raw { sx::assume(*x >= 1 && *x < 0x80); } }
    match ExifTag::from_u16_with_data(code, &fmt(ty), &raw, &Endian::Little, &g) { Ok(t) => (t, code, raw), Err(_) => { sx::check(false, "a tag can be made from its code, format and data"); unreachable!() } }
}
fn encoded(m: &Metadata) -> Vec<u8> { match m.encode() { Ok(v) => v, Err(_) => { sx::check(false, "encoding succeeds"); unreachable!() } } }
fn decoded(v: &Vec<u8>) -> Metadata { match Metadata::new_from_vec(v, FileExtension::TIFF) { Ok(m) => m, Err(_) => { sx::check(false, "what was encoded can be decoded"); unreachable!() } } }

harnesses! {
    // one tag of any code in a group: (big endian?, group, format, components)
    fn h_tag_roundtrip() {
        let (le, g, ty, n) = (p(0) == 0, GROUPS[p(1)], p(2) as u16, p(3));
        let (t, code, raw) = any_tag(g, ty, n);
        let unk = t.is_unknown();
        sx::check(t.as_u16() == code && t.get_group() == g, "the tag keeps code and group");
        let mut m = empty(le);
        m.set_tag(t);
        let back = decoded(&encoded(&m));
        sx::check(back.get_endian() == (if le { Endian::Little } else { Endian::Big }), "byte order survives");
        let l = rows(&back);
        sx::check(l.len() == 1, "exactly the one tag is read back");
        let r = &l[0];
        sx::check(r.code == code && r.g == gidx(g) && r.nr == 0, "same code and IFD");
        sx::check(r.ty == ty && r.unk == unk, "same format");
        if ty == 2 { sx::check(r.val.len() == n + 1 && r.val[n] == 0, "string length"); sx::check(sx::same(&r.val[..n], &raw), "same text"); }
        else { sx::check(sx::same(&r.val, &raw), "same value"); }
        sx::reach(if unk { "unknown" } else { "known" });
    }
    // the bytes of one tag of any code: (big endian?, group, format, components)
    fn h_tag_bytes() {
        let (le, g, ty, n) = (p(0) == 0, GROUPS[p(1)], p(2) as u16, p(3));
        let (t, code, raw) = any_tag(g, ty, n);
        let mut m = empty(le);
        m.set_tag(t);
        let v = encoded(&m);
        let o = oracle::tiff(&v);
        sx::check(o.err.is_empty(), o.err);
        sx::check(o.le == le, "byte order mark");
        sx::check(o.ents.len() == 1, "one entry");
        let e = &o.ents[0];
        sx::check(e.group == gidx(g) && e.nr == 0 && e.tag == code, "entry code and IFD");
        sx::check(e.ty == ty, "entry type");
        let mut want = if le { raw } else { oracle::swap(&raw, ty) };
        if ty == 2 { want.push(0); }
        sx::check(e.count as usize == (if ty == 2 { n + 1 } else { n }), "entry count");
        sx::check(sx::same(&e.data, &want), "entry value bytes");
        sx::reach("ok");
    }
    // several IFDs: (big endian?, wide?)
    fn h_layout_roundtrip() {
        let m = layout(p(0) == 0, p(1) == 1);
        let back = decoded(&encoded(&m));
        sx::check(same_meta(&m, &back), "every tag is read back with its value");
        let again = encoded(&back);
        sx::check(same_meta(&back, &decoded(&again)), "a second round trip changes nothing");
        sx::reach("ok");
    }
    fn h_layout_bytes() {
        let m = layout(p(0) == 0, p(1) == 1);
        let v = encoded(&m);
        let o = oracle::tiff(&v);
        sx::check(o.err.is_empty(), o.err);
        let l = rows(&m);
        let mut n = 0;
        for r in &l {
            if r.code == 0x111 { let s: Vec<u8> = o.strips.iter().flat_map(|x| x.1.clone()).collect(); sx::check(sx::same(&s, &r.val), "strip bytes"); continue; }
            if r.code == 0x201 { sx::check(o.thumbs.len() == 1 && o.thumbs[0].0 == r.nr && sx::same(&o.thumbs[0].1, &r.val), "thumbnail bytes"); continue; }
            n += 1;
            match o.ents.iter().find(|e| e.group == r.g && e.nr == r.nr && e.tag == r.code) {
                Some(e) => { let want = if o.le { r.val.clone() } else { oracle::swap(&r.val, r.ty) };
                    sx::check(e.ty == r.ty && e.count as usize == want.len() / oracle::size_of(r.ty), "entry type and count"); sx::check(sx::same(&e.data, &want), "entry value bytes"); }
                None => sx::check(false, "entry missing"),
            }
        }
        sx::check(o.ents.len() == n, "no extra entry");
        sx::reach("ok");
    }
    // tags whose value the caller left empty or set to offsets: (kind)
    fn h_odd_tags() {
        let mut m = empty(p(0) == 0);
        m.set_tag(ExifTag::Software(text(6)));
        match p(1) {
            0 => m.set_tag(ExifTag::XResolution(vec![])),
            1 => m.set_tag(ExifTag::ExifOffset(vu32(1))),
            2 => { m.set_tag(ExifTag::ISO(vu16(1))); m.set_tag(ExifTag::ExifOffset(vu32(1))); }
            3 => { m.set_tag(ExifTag::GPSInfo(vu32(1))); m.set_tag(ExifTag::GPSAltitude(vur(1))); }
            4 => { m.set_tag(ExifTag::BitsPerSample(vec![])); m.set_tag(ExifTag::GPSLatitude(vec![])); }
            5 => { m.set_tag(ExifTag::InteropOffset(vu32(1))); }
            _ => { m.set_tag(ExifTag::Artist(String::new())); m.set_tag(ExifTag::ISO(vec![])); m.set_tag(ExifTag::StripOffsets(vec![], vec![])); m.set_tag(ExifTag::StripByteCounts(vec![])); }
        }
        let v = encoded(&m);
        let o = oracle::tiff(&v);
        sx::check(o.err.is_empty(), o.err);
        let back = decoded(&v);
        let l = rows(&back);
        for r in rows(&m) {
            if r.val.is_empty() || matches!(r.code, 0x8769 | 0x8825 | 0xa005) { continue; }
            match l.iter().find(|x| x.g == r.g && x.code == r.code) { Some(x) => sx::check(sx::same(&x.val, &r.val), "the other tags keep their value"), None => sx::check(false, "the other tags are read back") }
        }
        sx::reach("ok");
    }

    // a history of k operations against a reference map: (operations)
    fn h_history() {
        let mut m = Metadata::new();
        let mut model: Vec<(u8, u32, u16, Vec<u8>)> = Vec::new();
        for _ in 0..p(0) {
            match sx::pick(9) {
                0 => { let v = vu16(1); put(&mut model, 0, 0, 0x112, le16(&v)); m.set_tag(ExifTag::Orientation(v)); }
                1 => { let v = vu16(2); put(&mut model, 1, 0, 0x8827, le16(&v)); m.set_tag(ExifTag::ISO(v)); }
                2 => { let v = sx::vec(1); put(&mut model, 3, 0, 5, v.clone()); m.set_tag(ExifTag::GPSAltitudeRef(v)); }
                3 => { let v = sx::vec(2); put(&mut model, 2, 0, 2, v.clone()); m.set_tag(ExifTag::InteroperabilityVersion(v)); }
                // same code as 0x0002 in INTEROP, other group
                4 => { let v = vur(1); let mut b = v[0].nominator.to_le_bytes().to_vec(); b.extend_from_slice(&v[0].denominator.to_le_bytes()); put(&mut model, 3, 0, 2, b); m.set_tag(ExifTag::GPSLatitude(v)); }
                5 => { let v = vu16(1); put(&mut model, 0, 1, 0x112, le16(&v)); m.get_ifd_mut(ExifTagGroup::GENERIC, 1).set_tag(ExifTag::Orientation(v)); }
                6 => { let n = m.remove_tag(ExifTag::Orientation(vec![])); let had = model.iter().any(|e| e.0 == 0 && e.2 == 0x112); if had { sx::check(n > 0, "removal of a present tag is counted"); } model.retain(|e| !(e.0 == 0 && e.2 == 0x112)); }
                7 => { m.remove_tag_by_hex_group(2, ExifTagGroup::GPS); model.retain(|e| !(e.0 == 3 && e.2 == 2)); }
                _ => { m.remove_tag_by_hex_group(0x8827, ExifTagGroup::EXIF); model.retain(|e| !(e.0 == 1 && e.2 == 0x8827)); }
            }
            agree(&m, &model);
        }
        sx::reach("ok");
    }
    // lookups by any code and group: (wide)
    fn h_lookup() {
        let m = layout(true, false);
        let code = sx::u16();
        let l = rows(&m);
        let all: Vec<Vec<u8>> = (&m).into_iter().map(val).collect();
        sx::check(all.len() == l.len(), "iteration yields every tag once");
        for i in 0..l.len() { sx::check(sx::same(&all[i], &l[i].val), "iteration order is the order of the IFDs"); }
        for g in [None, Some(ExifTagGroup::GENERIC), Some(ExifTagGroup::EXIF), Some(ExifTagGroup::INTEROP), Some(ExifTagGroup::GPS)] {
            let got: Vec<&ExifTag> = m.get_tag_by_hex(code, g).collect();
            let want: Vec<&Row> = l.iter().filter(|r| r.code == code && g.map_or(true, |x| gidx(x) == r.g)).collect();
            sx::check(got.len() == want.len(), "lookup finds every instance of the tag and nothing else");
            for i in 0..got.len() { sx::check(got[i].as_u16() == code && sx::same(&val(got[i]), &want[i].val), "lookup yields the stored value"); }
        }
        sx::reach("ok");
    }
    // any code in a group against the reference table: (group)
    fn h_tag_table() {
        let g = GROUPS[p(0)];
        let code = sx::u16();
        let r = ExifTag::from_u16(code, &g);
        let row = crate::tags::TAGS.iter().enumerate().find(|(_, x)| x.0 == code && x.4 == gidx(g));
        if matches!(code, 0x111 | 0x117 | 0x201 | 0x202) { if let Ok(t) = r { sx::check(t.as_u16() == code && t.format() == ExifTagFormat::INT32U, "data offset tag"); } else { sx::check(false, "data offset tags are known") } sx::reach("data"); return; }
        match (r, row) {
            (Ok(t), Some((i, x))) => {
                sx::check(crate::tags::index(&t) == i, "the code names the right tag");
                sx::check(t.as_u16() == code, "the tag has that code");
                sx::check(t.get_group() == g, "the tag belongs to that group");
                sx::check(t.format().as_u16() == x.1, "the tag has its documented type");
                sx::check(t.is_writable() == x.3, "the tag is writable as documented");
                sx::check(t.is_string() == (x.1 == 2), "string tags are strings");
                sx::check(!t.is_unknown() && t.unknown_is_justified(), "known");
                sx::check(t.number_of_components() == if x.1 == 2 { 1 } else { x.2 }, "predefined number of components");
                sx::check(t.value_as_u8_vec(&Endian::Little).len() == if x.1 == 2 { 1 } else { 0 }, "no data yet");
                sx::reach("known");
            }
            (Err(_), None) => {
                let ty = (sx::pick(12) + 1) as u16;
                match ExifTag::from_u16_with_data(code, &fmt(ty), &vec![0; 8], &Endian::Little, &g) {
                    Ok(t) => { sx::check(t.is_unknown() && t.unknown_is_justified() && t.as_u16() == code && t.get_group() == g && t.format().as_u16() == ty && t.is_writable(), "unknown codes keep code, group and type"); }
                    Err(_) => sx::check(false, "unknown codes can be held"),
                }
                sx::reach("unknown");
            }
            (Ok(_), None) => sx::check(false, "a code outside the table is known"),
            (Err(_), Some(_)) => sx::check(false, "a documented code is not known"),
        }
    }
    // type codes
    fn h_format_table() {
        let c = sx::u16();
        match ExifTagFormat::from_u16(c) {
            Some(f) => { sx::check(c >= 1 && c <= 12 && f == fmt(c) && f.as_u16() == c, "type code round trip"); sx::check(f.bytes_per_component() as usize == oracle::size_of(c), "component size"); sx::reach("type"); }
            None => { sx::check(c == 0 || c > 12, "all twelve TIFF types are known"); sx::reach("none"); }
        }
    }
    // minimisation keeps what an image needs: (kind)
    fn h_reduce() {
        let mut m = layout(true, p(0) == 1);
        let g = GROUPS[p(1)];
        let ty = p(2) as u16;
        let (t, code, _) = any_tag(g, ty, 1);
        m.set_tag(t);
        let before = rows(&m);
        m.reduce_to_a_minimum();
        let after = rows(&m);
        let keep = |r: &Row| r.g == 0 && matches!(r.code, 0x111 | 0x117 | 0x201 | 0x202 | 0x100 | 0x101 | 0x102 | 0x103 | 0x106 | 0x115 | 0x116 | 0x11a | 0x11b | 0x128 | 0x140) && !r.unk;
        let want: Vec<Row> = before.into_iter().filter(|r| keep(r)).collect();
        sx::check(same_rows(&want, &after), "exactly the image describing tags remain, unchanged");
        let _ = code;
        sx::reach("ok");
    }
}
fn le16(v: &[u16]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() }
fn put(m: &mut Vec<(u8, u32, u16, Vec<u8>)>, g: u8, nr: u32, c: u16, v: Vec<u8>) { m.retain(|e| !(e.0 == g && e.1 == nr && e.2 == c)); m.push((g, nr, c, v)); }
fn val(t: &ExifTag) -> Vec<u8> { match t { ExifTag::StripOffsets(_, s) => s.concat(), ExifTag::ThumbnailOffset(_, d) => d.clone(), t => t.value_as_u8_vec(&Endian::Little) } }
fn agree(m: &Metadata, model: &[(u8, u32, u16, Vec<u8>)]) {
    let l = rows(m);
    sx::check(l.len() == model.len(), "exactly the tags that were set and not removed");
    for r in &l {
        match model.iter().find(|e| e.0 == r.g && e.1 == r.nr && e.2 == r.code) { Some(e) => sx::check(sx::same(&e.3, &r.val), "the last value set"), None => sx::check(false, "a tag that was not set") }
    }
    let mut last = 0u64;
    for r in &l { let k = ((r.nr as u64) << 32) + ((r.g as u64) << 16) + r.code as u64 + 1; sx::check(k > last, "tags are kept in order, once each"); last = k; }
}
