//! Standalone encodings; which format a path is treated as.
use crate::common::*;
use crate::files::{filetype, sample};
use std::io::ErrorKind;
use std::path::Path;
fn holds(t: &[u8], m: &Metadata, what: &'static str) {
    sx::check(crate::oracle::tiff(t).err.is_empty(), "the encoded metadata is well-formed");
    match Metadata::new_from_vec(&t.to_vec(), FileExtension::TIFF) { Ok(b) => sx::check(same_meta(m, &b) && m.get_endian() == b.get_endian(), what), Err(_) => sx::check(rows(m).is_empty(), what) }
}
fn digit(c: u8) -> u8 { let low = c | 0x20; sx::check((c >= b'0') & (c <= b'9') | (low >= b'a') & (low <= b'f'), "the profile text consists of hexadecimal digits"); (c & 15) + 9 * (c >> 6) }
fn read(v: &Vec<u8>, t: FileExtension, m: &Metadata) { match Metadata::new_from_vec(v, t) { Ok(b) => sx::check(same_meta(m, &b), "an image built from the encoded metadata holds it"), Err(_) => sx::check(false, "an image built from the encoded metadata is read") } }
pub const ENDINGS: [(&str, usize); 28] = [("a", 99), ("a.txt", 98), ("a.", 98), (".jpg", 99), ("a.jpg.bak", 98), ("a.jpg", 0), ("a.JpEg", 0), ("b.png.jpg", 0), ("a.TIF", 1), ("a.tiff", 1), ("a.PNG", 2), ("a.webp", 3), ("a.WeBP", 3), ("a.jxl", 4), ("a.JXL", 4), ("a.heic", 5), ("a.HEIF", 5), ("a.hif", 5), ("a.aVif", 5), ("a.gif", 98), ("a.jpgx", 98), ("a.jp", 98), ("a.\u{e9}", 98), ("jpg", 99), ("d.png/a", 99), ("d.png/a.jxl", 4), ("a.jpe", 98), ("a.heics", 98)];
harnesses! {
    // the encoding for embedding elsewhere: (format 0 JPEG 1 TIFF 2 PNG as text 3 WebP 4 JXL 5 HEIF 6 naked JXL 7 PNG as zTXt chunk, metadata kind, bytes)
    fn h_encode() {
        let m = if p(0) == 7 { crate::png::cmeta(p(1) as u64) } else { meta(p(1), p(2)) };
        let t = match p(0) { 2 => FileExtension::PNG { as_zTXt_chunk: false }, 6 => FileExtension::NAKED_JXL, f if f < 6 => filetype(f).0, _ => FileExtension::PNG { as_zTXt_chunk: true } };
        let r = m.as_u8_vec(t);
        if [1, 4, 6].contains(&p(0)) { sx::check(r.is_err(), "formats without a standalone encoding are refused"); sx::reach("refused"); return; }
        let plain = match m.encode() { Ok(e) => e, Err(_) => { sx::check(false, "encoding"); unreachable!() } };
        if p(0) == 0 && plain.len() + 8 > 65535 { sx::check(r.is_err(), "metadata that does not fit into a segment is refused"); sx::reach("refused"); return; }
        let c = match r { Ok(c) => c, Err(_) => { sx::check(false, "encoding for a format succeeds"); unreachable!() } };
        match p(0) {
            0 => {
                sx::check(c.len() >= 10 && &c[..2] == b"\xff\xe1" && ((c[2] as usize) << 8 | c[3] as usize) == c.len() - 2 && &c[4..10] == b"Exif\0\0", "the encoding is one APP1 segment of the announced length");
                holds(&c[10..], &m, "the segment holds exactly the metadata");
                let mut v = vec![0xff, 0xd8]; v.extend_from_slice(&c); v.extend(crate::jpg::seg(0xda, &[1])); v.extend([7, 0xff, 0xd9]);
                read(&v, t, &m);
            }
            2 => {
                sx::check(c.len() > 16 && &c[..6] == b"\nexif\n" && c[14] == b'\n' && c[c.len() - 1] == b'\n', "the encoding is a profile text");
                let n: usize = String::from_utf8_lossy(&c[6..14]).trim_start().parse().unwrap_or(0);
                let d: Vec<u8> = c[15..].iter().copied().filter(|x| *x != b'\n').collect();
                sx::check(d.len() == 2 * n && n >= 7, "the profile text has the announced length");
                let d: Vec<u8> = d.chunks(2).map(|x| digit(x[0]) << 4 | digit(x[1])).collect();
                sx::check(&d[..6] == b"Exif\0\0" && d[n - 1] == 0, "the profile text holds the EXIF header and ends with zero");
                holds(&d[6..n - 1], &m, "the profile text holds exactly the metadata");
            }
            7 => {
                sx::check(c.len() > 4 && &c[..4] == b"zTXt", "the encoding is a zTXt chunk without length and checksum");
                let mut v = crate::png::SIG.to_vec();
                v.extend(crate::png::chunk(b"IHDR", &[0; 13])); v.extend(crate::png::chunk(b"zTXt", &c[4..])); v.extend(crate::png::chunk(b"IEND", &[]));
                read(&v, t, &m);
            }
            3 => {
                let n = if c.len() < 8 { 0 } else { get32(&c, 4, true) as usize };
                sx::check(c.len() >= 8 && &c[..4] == b"EXIF" && c.len() == 8 + n + n % 2 && c.len() % 2 == 0, "the encoding is one EXIF chunk of the announced length");
                holds(if n >= 6 && &c[8..14] == b"Exif\0\0" { &c[14..8 + n] } else { &c[8..8 + n] }, &m, "the chunk holds exactly the metadata");
                let mut b = crate::webp::chunk(b"VP8X", &[8, 0, 0, 0, 1, 0, 0, 1, 0, 0]); b.extend_from_slice(&c);
                read(&crate::webp::file(&b), t, &m);
            }
            _ => {
                sx::check(c.len() >= 10 && &c[..10] == b"\0\0\0\x06Exif\0\0", "the encoding is the content of an Exif item");
                holds(&c[10..], &m, "the item holds exactly the metadata");
            }
        }
        sx::reach("ok");
    }
    // which format a file is treated as: (content 0..6 a small file of a format, 7 naked JXL, 8 unknown, 10 + n: n arbitrary bytes, operation 0 read 1 clear 2 write 3 APP12 4 APP13)
    fn h_path() {
        let v = match p(0) { 7 => b"\xff\x0a\x12\x34".to_vec(), 8 => b"some text".to_vec(), n if n >= 10 => sx::vec(n - 10), f => sample(f, true) };
        let (name, ending) = ENDINGS[sx::pick(ENDINGS.len() as u64) as usize];
        #[cfg(feature = "native")] let _ = std::fs::create_dir("d.png");
        let path = Path::new(name);
        sx::assume(std::fs::write(path, &v).is_ok());
        let kind = |f: usize| filetype(f).0;
        let m = if p(0) == 1 { Metadata::new_from_vec(&v, FileExtension::TIFF).unwrap_or_default() } else { crate::png::cmeta(2) };
        if p(1) == 0 {
            let at = |i: usize| v.get(i).copied().unwrap_or(0);
            let is = |o: usize, s: &[u8]| s.iter().enumerate().all(|(i, c)| at(o + i) == *c);
            let content = if v.len() < 4 { 99 } else if is(0, &[0xff, 0xd8]) { 0 } else if is(0, b"II*\0") || is(0, b"MM\0*") { 1 } else if is(0, b"\x89PNG") { 2 } else if is(0, b"RIFF") && is(8, b"WEBP") { 3 } else if is(0, &crate::jxl::SIG) { 4 } else if is(4, b"ftypheic") || is(4, b"ftypheif") || is(4, b"ftypavif") { 5 } else if is(0, &[0xff, 0x0a]) { 7 } else { 99 };
            let got = Metadata::new_from_path(path);
            if ending == 98 { sx::check(got.as_ref().err().map(|e| e.kind()) == Some(ErrorKind::Unsupported), "an unknown ending is reported as unsupported"); sx::reach("unsupported"); }
            else {
                let t = if content != 99 { content } else { ending };
                if t == 7 || t == 99 { sx::check(got.is_err(), "a file of unknown type is refused"); sx::reach("refused"); }
                else { match (got, Metadata::new_from_vec(&v, kind(t))) { (Ok(x), Ok(y)) => { sx::check(same_meta(&x, &y), "a file is read as what its content, else its name says"); sx::reach("read"); } (Err(_), Err(_)) => sx::reach("no metadata"), (_, y) => sx::check(false, if y.is_ok() { "a file is read as what its content says" } else { "a file is not read as something else" }) } }
            }
        } else {
            let mut want = v.clone();
            let known = if ending < 90 { Some(kind(ending)) } else { None };
            let (got, exp) = match p(1) {
                1 => (Metadata::file_clear_metadata(path), known.map(|t| Metadata::clear_metadata(&mut want, t))),
                2 => (m.write_to_file(path), known.map(|t| m.write_to_vec(&mut want, t))),
                3 => (Metadata::file_clear_app12_segment(path), known.map(|t| Metadata::clear_app12_segment(&mut want, t))),
                _ => (Metadata::file_clear_app13_segment(path), known.map(|t| Metadata::clear_app13_segment(&mut want, t))),
            };
            sx::check(got.is_ok() == matches!(exp, Some(Ok(()))), "a file is changed as what its name says or refused");
            let now = std::fs::read(path).unwrap_or_default();
            sx::check(now.len() == want.len() && sx::same(&now, &want), "the file is what the operation of its name's format makes of it");
            if p(1) > 2 && ending != 0 { sx::check(got.is_err(), "only JPEG files have APP segments"); }
            sx::reach(if got.is_ok() { "done" } else { "refused" });
        }
    }
    // a file that does not exist
    fn h_missing() {
        let (name, _) = ENDINGS[sx::pick(ENDINGS.len() as u64) as usize];
        let path = Path::new(name);
        let m = crate::png::cmeta(2);
        sx::check(Metadata::new_from_path(path).is_err(), "reading a missing file is refused");
        sx::check(Metadata::file_clear_metadata(path).is_err() && m.write_to_file(path).is_err() && Metadata::file_clear_app12_segment(path).is_err() && Metadata::file_clear_app13_segment(path).is_err(), "changing a missing file is refused");
        sx::check(std::fs::read(path).is_err(), "no file is created");
        sx::reach("ok");
    }
}
