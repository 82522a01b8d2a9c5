//! File API against buffer API.
use crate::common::*;
use std::path::Path;
pub fn filetype(f: usize) -> (FileExtension, &'static str) { match f { 0 => (FileExtension::JPEG, "a.jpg"), 1 => (FileExtension::TIFF, "a.tif"), 2 => (FileExtension::PNG { as_zTXt_chunk: true }, "a.png"), 3 => (FileExtension::WEBP, "a.webp"), 4 => (FileExtension::JXL, "a.jxl"), _ => (FileExtension::HEIF, "a.heic") } }
/// op: 0 read, 1 clear, 2 write, 3 clear then write, 4 write then clear, 5 APP12, 6 APP13. same: compare results; keep: an error leaves the file alone
pub fn compare(f: usize, v: Vec<u8>, op: usize, m: &Metadata, same: bool, keep: bool) {
    let (t, name) = filetype(f);
    let path = Path::new(name);
    sx::assume(std::fs::write(path, &v).is_ok());
    if op == 0 {
        let (a, b) = (Metadata::new_from_vec(&v, t), Metadata::new_from_path(path));
        match (&a, &b) { (Ok(x), Ok(y)) => { sx::check(same_meta(x, y) && x.get_endian() == y.get_endian(), "file and buffer hold the same metadata"); sx::reach("ok"); } (Err(_), Err(_)) => sx::reach("err"), _ => sx::check(false, "file and buffer agree on whether there is metadata") }
        let now = std::fs::read(path).unwrap_or_default();
        sx::check(sx::same(&now, &v), "reading does not change the file");
        return;
    }
    let mut b = v.clone();
    let step = |o: usize, b: &mut Vec<u8>| match o {
        1 => (Metadata::clear_metadata(b, t), Metadata::file_clear_metadata(path)),
        2 => (m.write_to_vec(b, t), m.write_to_file(path)),
        5 => (Metadata::clear_app12_segment(b, t), Metadata::file_clear_app12_segment(path)),
        _ => (Metadata::clear_app13_segment(b, t), Metadata::file_clear_app13_segment(path)),
    };
    let ops: &[usize] = match op { 3 => &[1, 2], 4 => &[2, 1], o => &[[0, 1, 2, 0, 0, 5, 6][o]] };
    for o in ops {
        let before = std::fs::read(path).unwrap_or_default();
        let (x, y) = step(*o, &mut b);
        let now = std::fs::read(path).unwrap_or_default();
        if same {
            sx::check(x.is_ok() == y.is_ok(), "file and buffer operation agree on success");
            if x.is_ok() { sx::check(now.len() == b.len(), "file and buffer have the same length afterwards"); sx::check(sx::same(&now, &b), "file and buffer have the same content afterwards"); }
        }
        if keep && y.is_err() { sx::check(sx::same(&now, &before), "a refused operation leaves the file as it was"); }
        outcome(&y);
        if y.is_err() { return; }
    }
}
harnesses! {
    // (operation, scan, trail, slot, slot, slot, metadata kind)
    fn h_file_jpg() {
        let j = crate::jpg::build(&[p(3), p(4), p(5)], p(1), p(2));
        let m = meta(p(6), 3);
        compare(0, j.bytes(), p(0), &m, true, true);
    }
    // (operation, trail, slot, slot, slot, metadata)
    fn h_file_png() {
        let j = crate::png::build(&[p(2), p(3), p(4)], p(1));
        compare(2, j.bytes(), p(0), &crate::png::cmeta(p(5) as u64), true, true);
    }
    // (operation, first, slot, slot, slot, metadata kind)
    fn h_file_webp() {
        let j = crate::webp::build(p(1), &[p(2), p(3), p(4)]);
        compare(3, j.bytes(), p(0), &meta(p(5), 3), true, true);
    }
    // (operation, last, slot, slot, slot, metadata kind)
    fn h_file_jxl() {
        let j = crate::jxl::build(p(1), &[p(2), p(3), p(4)]);
        compare(4, j.bytes(), p(0), &meta(p(5), 3), true, true);
    }
    // (operation, iloc, meta, order, place, metadata kind)
    fn h_file_heif() {
        let c = crate::heif::Cfg { iloc: p(1), meta: p(2), order: if p(3) == 99 { sx::pick(crate::heif::ORDERS as u64) as usize } else { p(3) }, place: if p(4) == 99 { sx::pick(4) as usize } else { p(4) }, how: 0 };
        compare(5, crate::heif::build(&c).b, p(0), &meta(p(5), 3), true, true);
    }
    // (operation, big endian?, data first?, pages, strip type, metadata kind)
    fn h_file_tiff() {
        let le = p(1) == 0;
        let dirs: Vec<_> = (0..p(3)).map(|i| crate::tiff::image_dir(le, p(4) as u16, i)).collect();
        let mut v = crate::oracle::tiff_bytes(le, &dirs, p(2) == 1);
        if sx::pick(2) == 1 { sym(&mut v, 4); }
        let mut m = if p(5) == 9 { Metadata::new_from_vec(&v, FileExtension::TIFF).unwrap_or_default() } else { meta(p(5), 3) };
        if p(5) == 9 { m.set_tag(ExifTag::ImageDescription(text(3))); }
        compare(1, v, p(0), &m, true, true);
    }
    // a user who may only read the file: (format)
    fn h_readonly() {
        let (t, name) = filetype(p(0));
        let v = match p(0) { 0 => crate::jpg::build(&[2, 0, 0], 0, 0).bytes(), 1 => crate::jpg::small_tiff(true, sx::u16()), 2 => crate::png::build(&[1, 0, 0], 0).bytes(), 3 => crate::webp::build(0, &[1, 0, 0]).bytes(), 4 => crate::jxl::build(0, &[1, 0, 0]).bytes(), _ => crate::heif::build(&crate::heif::Cfg { iloc: 0, meta: 1, order: 0, place: 1, how: 0 }).b };
        let path = Path::new(name);
        sx::assume(std::fs::write(path, &v).is_ok());
        sx::readonly();
        match (Metadata::new_from_vec(&v, t), Metadata::new_from_path(path)) { (Ok(x), Ok(y)) => sx::check(same_meta(&x, &y), "file and buffer hold the same metadata"), (x, _) => { sx::assume(x.is_ok()); sx::check(false, "a readable file can be read") } }
        sx::check(Metadata::new().write_to_file(path).is_err() && Metadata::file_clear_metadata(path).is_err(), "a file that can not be written is refused");
        let now = std::fs::read(path).unwrap_or_default();
        sx::check(sx::same(&now, &v), "the file is unchanged");
        sx::reach("ok");
    }
    // one input/output call fails, is interrupted or transfers less: (format, operation 0 read 1 clear 2 write, EXIF data in the file?, most calls, fault 1 error 2 less 3 interrupted)
    fn h_fault() {
        let (f, op) = (p(0), p(1));
        let v = sample(f, p(2) == 1);
        let (t, name) = filetype(if f == 6 { 3 } else { f });
        let path = Path::new(name);
        sx::assume(std::fs::write(path, &v).is_ok());
        let mut m = match f { 1 => Metadata::new_from_vec(&v, t).unwrap_or_default(), 2 => crate::png::cmeta(2), _ => meta(1, 3) };
        if f == 1 { m.set_tag(ExifTag::ImageDescription(text(3))); }
        let mut want = v.clone();
        let expected = match op { 0 => Metadata::new_from_vec(&v, t).map(|x| rows(&x)), 1 => Metadata::clear_metadata(&mut want, t).map(|_| vec![]), _ => m.write_to_vec(&mut want, t).map(|_| vec![]) };
        sx::assume(expected.is_ok());
        let at = sx::pick(p(3) as u64) + 1;
        sx::fault(at, p(4) as u64);
        let got = match op { 0 => Metadata::new_from_path(path).map(|x| rows(&x)), 1 => Metadata::file_clear_metadata(path).map(|_| vec![]), _ => m.write_to_file(path).map(|_| vec![]) };
        let hit = sx::fault(0, 0);
        let now = std::fs::read(path).unwrap_or_default();
        match (got, expected) {
            (Ok(x), Ok(y)) => { sx::check(same_rows(&x, &y), "what is reported as read is what the file holds"); sx::check(now.len() == want.len() && sx::same(&now, &want), "success is reported only when the file holds the complete result"); sx::reach(if hit { "survived" } else { "no fault" }); }
            _ => { sx::check(hit && p(4) != 2, "an operation without fault succeeds"); if op == 0 { sx::check(sx::same(&now, &v), "reading does not change the file"); } sx::reach("reported"); }
        }
    }
    // signature, then arbitrary bytes: (format, bytes, operation, compare with the buffer?, unchanged on error?)
    fn h_file_raw() {
        let mut v = signature(p(0));
        sym(&mut v, p(1));
        if p(0) == 3 { let n = v.len() as u8 - 8; v[4] = n; }
        let mut m = meta(0, 0); m.set_tag(ExifTag::Orientation(vec![1]));
        compare(p(0), v, p(2), &m, p(3) == 1, p(4) == 1);
    }
    // arbitrary bytes without the right signature: (format, bytes, operation): refused, nothing changed
    fn h_wrong_signature() {
        let (f, op) = (p(0), p(2));
        let v = sx::vec(p(1));
        let s = signature(f);
        let right = match f { 1 => v.starts_with(b"II*\0") | v.starts_with(b"MM\0*"), 3 => v.starts_with(b"RIFF") && v.len() >= 12 && &v[8..12] == b"WEBP", 5 => v.len() >= 8 && &v[4..8] == b"ftyp", _ => v.starts_with(&s) };
        let right = right | (f == 4 && op == 2 && v.starts_with(&[0xff, 0x0a]));
        sx::assume(!right);
        let (t, name) = filetype(f);
        let path = Path::new(name);
        sx::assume(std::fs::write(path, &v).is_ok());
        let mut m = Metadata::new(); m.set_tag(ExifTag::Orientation(vec![1]));
        let mut b = v.clone();
        let (x, y) = match op { 0 => (Metadata::new_from_vec(&b, t).map(|_| ()), Ok(())), 1 => (Metadata::clear_metadata(&mut b, t), Metadata::file_clear_metadata(path)), _ => (m.write_to_vec(&mut b, t), m.write_to_file(path)) };
        sx::check(x.is_err(), "data without the signature is refused");
        if op != 0 { sx::check(y.is_err(), "a file without the signature is refused"); }
        sx::check(sx::same(&b, &v), "the buffer is unchanged");
        let now = std::fs::read(path).unwrap_or_default();
        sx::check(sx::same(&now, &v), "the file is unchanged");
        sx::reach("refused");
    }
}
/// A small file of a format: 0 JPEG 1 TIFF 2 PNG 3 WebP 4 JXL 5 HEIF 6 simple WebP
pub fn sample(f: usize, exif: bool) -> Vec<u8> {
    let e = exif as usize;
    match f { 0 => crate::jpg::build(&[1, 2 * e, 0], 0, 2).bytes(), 1 => crate::oracle::tiff_bytes(true, &[crate::tiff::image_dir(true, 4, 0)], false), 2 => crate::png::build(&[e, 0, 9], 0).bytes(), 3 => crate::webp::build(0, &[4, e, 7]).bytes(), 6 => crate::webp::build(1, &[0, 0, 0]).bytes(),
        4 => crate::jxl::build(0, &[e, 7, 0]).bytes(), _ => crate::heif::build(&crate::heif::Cfg { iloc: 0, meta: 1, order: 0, place: e, how: 0 }).b }
}
pub fn signature(f: usize) -> Vec<u8> {
    match f { 0 => vec![0xff, 0xd8], 1 => b"II*\0".to_vec(), 2 => b"\x89PNG\r\n\x1a\n".to_vec(), 3 => b"RIFF\0\0\0\0WEBP".to_vec(), 4 => vec![0, 0, 0, 12, b'J', b'X', b'L', b' ', 13, 10, 0x87, 10], _ => b"\0\0\0\x0cftypheic".to_vec() }
}
