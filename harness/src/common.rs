pub use crate::sx;
pub use little_exif::exif_tag::ExifTag;
pub use little_exif::filetype::FileExtension;
pub use little_exif::ifd::ExifTagGroup;
pub use little_exif::metadata::Metadata;
pub use little_exif::endian::Endian;

pub fn p(i: u64) -> usize { sx::param(i) as usize }
pub fn put16(v: &mut Vec<u8>, le: bool, x: u16) { v.extend_from_slice(&if le { x.to_le_bytes() } else { x.to_be_bytes() }); }
pub fn put32(v: &mut Vec<u8>, le: bool, x: u32) { v.extend_from_slice(&if le { x.to_le_bytes() } else { x.to_be_bytes() }); }
pub fn get16(v: &[u8], at: usize, le: bool) -> u16 { let b = [v[at], v[at + 1]]; if le { u16::from_le_bytes(b) } else { u16::from_be_bytes(b) } }
pub fn get32(v: &[u8], at: usize, le: bool) -> u32 { let b = [v[at], v[at + 1], v[at + 2], v[at + 3]]; if le { u32::from_le_bytes(b) } else { u32::from_be_bytes(b) } }
pub fn tiff_header(le: bool) -> Vec<u8> { if le { vec![0x49, 0x49, 0x2a, 0, 8, 0, 0, 0] } else { vec![0x4d, 0x4d, 0, 0x2a, 0, 0, 0, 8] } }
/// n bytes, the first and the last symbolic
pub fn big(n: usize) -> Vec<u8> { let mut d: Vec<u8> = (0..n).map(|i| (i * i >> 5) as u8 ^ 0x33).collect(); d[0] = sx::u8(); d[n - 1] = sx::u8(); d }
pub fn sym(v: &mut Vec<u8>, n: usize) { let s = sx::vec(n); v.extend_from_slice(&s); }
pub fn outcome<T, E>(r: &Result<T, E>) { if r.is_ok() { sx::reach("ok") } else { sx::reach("err") } }
pub use little_exif::exif_tag_format::ExifTagFormat;
pub use little_exif::rational::{uR64, iR64};
pub const GROUPS: [ExifTagGroup; 4] = [ExifTagGroup::GENERIC, ExifTagGroup::EXIF, ExifTagGroup::INTEROP, ExifTagGroup::GPS];
pub fn gidx(g: ExifTagGroup) -> u8 { match g { ExifTagGroup::GENERIC => 0, ExifTagGroup::EXIF => 1, ExifTagGroup::INTEROP => 2, ExifTagGroup::GPS => 3 } }
pub fn fmt(t: u16) -> ExifTagFormat { match t { 1 => ExifTagFormat::INT8U, 2 => ExifTagFormat::STRING, 3 => ExifTagFormat::INT16U, 4 => ExifTagFormat::INT32U, 5 => ExifTagFormat::RATIONAL64U, 6 => ExifTagFormat::INT8S, 7 => ExifTagFormat::UNDEF, 8 => ExifTagFormat::INT16S, 9 => ExifTagFormat::INT32S, 10 => ExifTagFormat::RATIONAL64S, 11 => ExifTagFormat::FLOAT, _ => ExifTagFormat::DOUBLE } }
/// Empty metadata with the given byte order.
pub fn empty(le: bool) -> Metadata {
    if le { Metadata::new() } else { Metadata::new_from_vec(&vec![0x4d, 0x4d, 0, 0x2a, 0, 0, 0, 8], FileExtension::TIFF).unwrap_or_default() }
}
/// n symbolic printable characters
pub fn text(n: usize) -> String {
    let b = sx::vec(n);
    for x in &b { sx::assume(*x >= 0x20 && *x < 0x7f); }
    String::from_utf8(b).unwrap_or_default()
}
pub fn vu16(n: usize) -> Vec<u16> { (0..n).map(|_| sx::u16()).collect() }
pub fn vu32(n: usize) -> Vec<u32> { (0..n).map(|_| sx::u32()).collect() }
pub fn vur(n: usize) -> Vec<uR64> { (0..n).map(|_| uR64 { nominator: sx::u32(), denominator: sx::u32() }).collect() }
pub fn vir(n: usize) -> Vec<iR64> { (0..n).map(|_| iR64 { nominator: sx::u32() as i32, denominator: sx::u32() as i32 }).collect() }
/// (group of the IFD, IFD number, code, format, unknown?, value in little endian) of every tag, in order
pub struct Row { pub g: u8, pub nr: u32, pub code: u16, pub ty: u16, pub unk: bool, pub val: Vec<u8> }
pub fn rows(m: &Metadata) -> Vec<Row> {
    let mut r = Vec::new();
    for i in m.get_ifds() { for t in i.get_tags() {
        let val = match t { ExifTag::StripOffsets(_, s) => s.concat(), ExifTag::ThumbnailOffset(_, d) => d.clone(), t => t.value_as_u8_vec(&Endian::Little) };
        r.push(Row { g: gidx(i.get_ifd_type()), nr: i.get_generic_ifd_nr(), code: t.as_u16(), ty: t.format().as_u16(), unk: t.is_unknown(), val });
    } }
    r
}
/// Same tags (in any order inside an IFD), same values.
pub fn same_rows(a: &[Row], b: &[Row]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for x in a {
        match b.iter().find(|y| y.g == x.g && y.nr == x.nr && y.code == x.code) {
            Some(y) => { if x.ty != y.ty || x.unk != y.unk || x.val.len() != y.val.len() { return false; } ok = ok & sx::same(&x.val, &y.val); }
            None => return false,
        }
    }
    ok
}
pub fn same_meta(a: &Metadata, b: &Metadata) -> bool { same_rows(&rows(a), &rows(b)) }
/// Metadata used by the container harnesses. 0: none, 1: text, 2: several IFDs with symbolic values, 3: text of n characters, 4: all directories, big endian, 5: resolution and any other tag of several types with n components, 6: n bytes (few of them symbolic)
pub fn meta(kind: usize, n: usize) -> Metadata {
    let mut m = if kind == 4 { empty(false) } else { Metadata::new() };
    if kind >= 1 && kind < 5 { m.set_tag(ExifTag::ImageDescription(text(n))); }
    if kind == 2 {
        m.set_tag(ExifTag::Orientation(vu16(1)));
        m.set_tag(ExifTag::ISO(vu16(1)));
        m.set_tag(ExifTag::GPSAltitude(vur(1)));
    }
    if kind == 4 {
        m.set_tag(ExifTag::Orientation(vu16(1))); m.set_tag(ExifTag::XResolution(vur(1))); m.set_tag(ExifTag::YResolution(vur(1))); m.set_tag(ExifTag::ResolutionUnit(vu16(1)));
        m.set_tag(ExifTag::Artist(text(5))); m.set_tag(ExifTag::UserComment(sx::vec(9))); m.set_tag(ExifTag::InteroperabilityIndex(text(3))); m.set_tag(ExifTag::GPSLatitudeRef(text(1)));
        let d = sx::vec(5); let i = m.get_ifd_mut(ExifTagGroup::GENERIC, 1);
        i.set_tag(ExifTag::ThumbnailOffset(vec![], d)); i.set_tag(ExifTag::ThumbnailLength(vec![5])); i.set_tag(ExifTag::Orientation(vu16(1))); i.set_tag(ExifTag::Model(text(2)));
    }
    if kind == 6 { let mut d = sx::vec(n.min(3)); for i in d.len()..n { d.push((i / 7) as u8); } m.set_tag(ExifTag::UserComment(d)); }
    if kind == 5 {
        if sx::pick(2) == 1 { m.set_tag(ExifTag::Orientation(vu16(1))); m.set_tag(ExifTag::YResolution(vur(1))); }
        if sx::pick(2) == 1 { m.set_tag(ExifTag::XResolution(vur(1))); m.set_tag(ExifTag::ResolutionUnit(vu16(1))); }
        let (g, ty) = [(GROUPS[0], 2), (GROUPS[0], 3), (GROUPS[0], 5), (GROUPS[1], 7), (GROUPS[3], 5), (GROUPS[0], 1)][sx::pick(6) as usize];
        m.set_tag(crate::meta::any_tag(g, ty, n).0);
    }
    m
}
