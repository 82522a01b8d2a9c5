//! Values: type conversions while decoding, rationals, byte conversions, file type detection.
use crate::common::*;
use crate::oracle;
use crate::sx;
use little_exif::u8conversion::U8conversion;
use std::str::FromStr;

/// TIFF bytes holding one entry in the IFD of group g.
pub fn tiff_one(le: bool, g: u8, code: u16, ty: u16, count: u32, val: &[u8]) -> Vec<u8> {
    let mut v = tiff_header(le);
    let ent = |v: &mut Vec<u8>, c: u16, t: u16, n: u32, x: u32| { put16(v, le, 1); put16(v, le, c); put16(v, le, t); put32(v, le, n); put32(v, le, x); put32(v, le, 0); };
    if g == 1 || g == 2 { ent(&mut v, 0x8769, 4, 1, 26); }
    if g == 2 { ent(&mut v, 0xa005, 4, 1, 44); }
    if g == 3 { ent(&mut v, 0x8825, 4, 1, 26); }
    put16(&mut v, le, 1); put16(&mut v, le, code); put16(&mut v, le, ty); put32(&mut v, le, count);
    if val.len() <= 4 { v.extend_from_slice(val); for _ in val.len()..4 { v.push(0); } put32(&mut v, le, 0); }
    else { let at = v.len() as u32 + 8; put32(&mut v, le, at); put32(&mut v, le, 0); v.extend_from_slice(val); }
    v
}
fn num(b: &[u8], ty: u16, i: usize) -> i64 {
    match ty { 1 | 7 | 2 => b[i] as i64, 6 => b[i] as i8 as i64, 3 => get16(b, 2 * i, true) as i64, 8 => get16(b, 2 * i, true) as i16 as i64, 4 => get32(b, 4 * i, true) as i64, 9 => get32(b, 4 * i, true) as i32 as i64, _ => 0 }
}
harnesses! {
    // a known tag stored with a type other than its own: (big endian?, group, own type, stored type, components)
    fn h_convert() {
        let (le, g, own, ty, n) = (p(0) == 0, p(1) as u8, p(2) as u16, p(3) as u16, p(4));
        let code = sx::u16();
        sx::assume(!matches!(code, 0x8769 | 0x8825 | 0xa005));
        sx::assume(!matches!(code, 0x111 | 0x117 | 0x201 | 0x202));
        match ExifTag::from_u16(code, &GROUPS[g as usize]) { Ok(t) => sx::assume(t.format().as_u16() == own), Err(_) => sx::assume(false) }
        let raw = sx::vec(n * oracle::size_of(ty));
        if ty == 2 { for x in &raw { sx::assume(*x < 0x80); } }
        if (own, ty) == (10, 5) { for i in 0..2 * n { sx::assume(get32(&raw, 4 * i, true) <= 0x7fffffff); } }
        let val = if le { raw.clone() } else { oracle::swap(&raw, ty) };
        let v = tiff_one(le, g, code, ty, n as u32, &val);
        let r = Metadata::new_from_vec(&v, FileExtension::TIFF);
        let must = matches!((own, ty), (4, 3) | (4, 1) | (3, 1)) || ((own, ty) == (10, 5)) && (0..n).all(|i| get32(&raw, 8 * i, true) <= 0x7fffffff && get32(&raw, 8 * i + 4, true) <= 0x7fffffff);
        match r {
            Ok(m) => {
                let l = rows(&m);
                let t = match l.iter().find(|x| x.g == g && x.code == code) { Some(t) => t, None => { sx::check(false, "an entry vanished while decoding"); unreachable!() } };
                sx::check(t.ty == own || t.unk, "the tag has its documented type");
                if own == 10 || ty == 5 {
                    sx::check(t.val.len() == 8 * n, "number of values");
                    if must { sx::check(sx::same(&t.val, &raw), "rational value unchanged"); }
                } else if (own, ty) == (1, 2) {
                    let c = raw[0];
                    sx::check(t.val.len() == 1 && ((t.val[0] == 0 && (c == 0 || c == 0x30)) || (t.val[0] == 1 && (c == 1 || c == 0x31))), "altitude reference keeps its meaning");
                } else if (own, ty) == (7, 2) { sx::check(sx::same(&t.val, &raw), "bytes unchanged"); }
                else {
                    sx::check(t.val.len() == n * oracle::size_of(t.ty), "number of values");
                    for i in 0..n { sx::check(num(&t.val, t.ty, i) == num(&raw, ty, i), "value unchanged"); }
                }
                sx::reach("ok");
            }
            Err(_) => { sx::check(!must, "a value that fits is accepted"); 
                if (own, ty) == (1, 3) || (own, ty) == (3, 4) { sx::check((0..n).any(|i| num(&raw, ty, i) > if own == 1 { 255 } else { 65535 }), "a value that fits is accepted"); }
                sx::reach("err"); }
        }
    }
    // integer <-> rational
    fn h_rational_int() {
        let v = sx::u32();
        match p(0) {
            0 => { let r = uR64::from(v); sx::check(r.nominator == v && r.denominator == 1, "u32 as unsigned rational is v/1"); }
            1 => { let i = v as i32; sx::assume(i != i32::MIN); let r = iR64::from(i); sx::check(r.nominator == i && r.denominator == 1, "i32 as signed rational is v/1"); }
            2 => { let r = iR64::from(v); if v <= 0x7fffffff { sx::check(r.nominator == v as i32 && r.denominator == 1, "u32 as signed rational is v/1") } else { sx::check(r.nominator == i32::MAX && r.denominator == 1, "u32 beyond the signed range saturates") } }
            3 => { let x: u32 = uR64 { nominator: v, denominator: 1 }.into(); sx::check(x == v, "v/1 as u32 is v"); }
            4 => { let x: u32 = iR64 { nominator: v as i32, denominator: 1 }.into(); sx::check(x == if (v as i32) < 0 { 0 } else { v }, "v/1 as u32 is v (negative: 0)"); }
            5 => { let r = iR64::from(i32::MIN); sx::check(r.denominator == 1 && r.nominator <= -i32::MAX, "smallest i32"); }
            6 => { let x: f64 = uR64 { nominator: v, denominator: 1 }.into(); sx::check(x == v as f64, "v/1 as f64"); }
            _ => { let x: f64 = iR64 { nominator: v as i32, denominator: 1 }.into(); sx::check(x == v as i32 as f64, "v/1 as f64"); }
        }
        sx::reach("ok");
    }
    // f64 outside the range of the denominators: (0: unsigned, 1: signed)
    fn h_rational_big() {
        let b = sx::u64();
        let x = f64::from_bits(b);
        if p(0) == 0 {
            sx::assume(!(x.abs() <= u32::MAX as f64));
            let r = uR64::from(x);
            if x.is_nan() { sx::check(r.nominator == 0 && r.denominator == 0, "NaN is 0/0"); sx::reach("nan"); }
            else { sx::check(r.denominator == 1 && r.nominator >= i32::MAX as u32, "too large values saturate"); sx::reach("big"); }
        } else {
            sx::assume(!(x.abs() < 2147483648.0));
            let r = iR64::from(x);
            if x.is_nan() { sx::check(r.nominator == 0 && r.denominator == 0, "NaN is 0/0"); sx::reach("nan"); }
            else { sx::check(r.denominator == 1 && (if x < 0.0 { r.nominator <= -i32::MAX } else { r.nominator == i32::MAX }), "too large values saturate with their sign"); sx::reach("big"); }
        }
    }
    // integer + small fraction: (signed?, numerator of the fraction, denominator, log2 of the integer range, base)
    fn h_rational_frac() {
        let k = sx::u32() & ((1u32 << p(3)) - 1);
        let base = p(4) as u32;
        let i = base.wrapping_add(k);
        let f = (p(1) as f64) / (p(2) as f64);
        let x = i as f64 + f;
        let (n, d) = if p(0) == 0 { let r = uR64::from(x); (r.nominator as i64, r.denominator as i64) } else { let r = iR64::from(-x); (-(r.nominator as i64), r.denominator as i64) };
        sx::check(d > 0 && n >= 0, "sign and denominator");
        let exact = (i as i64) * (p(2) as i64) + p(1) as i64;
        let lim = if p(0) == 0 { u32::MAX as i64 } else { i32::MAX as i64 };
        if exact <= lim { sx::check(n * p(2) as i64 == exact * d, "the rational equals the number"); sx::reach("exact"); }
        else { let q = n - (i as i64) * d; sx::check(q >= -d && q <= 2 * d, "the rational is near the number"); sx::reach("near"); }
    }
    // bytes <-> numbers in both byte orders: (type, components)
    fn h_bytes_num() {
        let (ty, n) = (p(0), p(1));
        let e = if sx::pick(2) == 0 { Endian::Little } else { Endian::Big };
        let b = sx::vec(n);
        macro_rules! t { ($x:ty, $s:expr) => {{
            match <Vec<$x> as U8conversion<Vec<$x>>>::from_u8_vec_res(&b, &e) {
                Ok(v) => { sx::check(n % $s == 0 && v.len() == n / $s, "whole components");
                    for i in 0..v.len() { let mut q = [0u8; $s]; q.copy_from_slice(&b[i * $s..(i + 1) * $s]); let w = if e == Endian::Little { <$x>::from_le_bytes(q) } else { <$x>::from_be_bytes(q) }; sx::check(v[i].to_le_bytes() == w.to_le_bytes(), "number read in the given byte order"); }
                    sx::check(sx::same(&v.to_u8_vec(&e), &b), "writing gives the same bytes"); sx::reach("ok"); }
                Err(_) => { sx::check(n % $s != 0, "whole components are accepted"); sx::reach("err"); }
            } } } }
        macro_rules! r { ($x:ty, $i:ty) => {{
            match <Vec<$x> as U8conversion<Vec<$x>>>::from_u8_vec_res(&b, &e) {
                Ok(v) => { sx::check(n % 8 == 0 && v.len() == n / 8, "whole components");
                    for i in 0..v.len() { let g = |o: usize| { let mut q = [0u8; 4]; q.copy_from_slice(&b[8 * i + o..8 * i + o + 4]); if e == Endian::Little { <$i>::from_le_bytes(q) } else { <$i>::from_be_bytes(q) } }; sx::check((v[i].nominator == g(0)) & (v[i].denominator == g(4)), "numerator first"); }
                    sx::check(sx::same(&v.to_u8_vec(&e), &b), "writing gives the same bytes"); sx::reach("ok"); }
                Err(_) => { sx::check(n % 8 != 0, "whole components are accepted"); sx::reach("err"); }
            } } } }
        match ty { 0 => t!(u8, 1), 1 => t!(i8, 1), 2 => t!(u16, 2), 3 => t!(i16, 2), 4 => t!(u32, 4), 5 => t!(i32, 4), 6 => t!(u64, 8), 7 => t!(i64, 8), 8 => t!(f32, 4), 9 => t!(f64, 8), 10 => r!(uR64, u32), _ => r!(iR64, i32) }
    }
    // text stored in a string tag, as any bytes: (bytes, ascii only?)
    fn h_bytes_text() {
        let b = sx::vec(p(0));
        if p(1) == 1 { for x in &b { sx::assume(*x < 0x80); } }
        match <String as U8conversion<String>>::from_u8_vec_res(&b, &Endian::Little) {
            Ok(s) => {
                let o = s.as_bytes();
                let utf8 = std::str::from_utf8(&b).is_ok();
                if utf8 {
                    let mut k = b.len(); while k > 0 && b[k - 1] == 0 { k -= 1; }
                    sx::check(sx::same(o, &b[..k]), "valid text is kept, only trailing NULs go"); sx::reach("utf8");
                } else {
                    let mut w = Vec::new(); for x in &b { if *x != 0 { if *x < 0x80 { w.push(*x) } else { w.push(0xc0 | (*x >> 6)); w.push(0x80 | (*x & 0x3f)); } } }
                    sx::check(sx::same(o, &w), "other bytes are read as Latin-1"); sx::reach("latin1");
                }
                let back = s.to_u8_vec(&Endian::Big);
                sx::check(back.len() == o.len() + 1 && back[o.len()] == 0 && sx::same(&back[..o.len()], o), "written with one NUL");
            }
            Err(_) => sx::check(false, "any bytes give some text"),
        }
    }
    // file type from content: (bytes)
    fn h_detect() {
        let b = sx::vec(p(0));
        let got = FileExtension::auto_detect(&mut std::io::Cursor::new(&b));
        let at = |i: usize| b.get(i).copied().unwrap_or(0);
        let is = |o: usize, s: &[u8]| s.iter().enumerate().all(|(i, c)| at(o + i) == *c);
        let want = if b.len() < 4 { 0 }
            else if is(0, b"\x89PNG") { 1 } else if is(0, &[0xff, 0xd8]) { 2 } else if is(0, b"II*\0") || is(0, b"MM\0*") { 3 }
            else if is(0, b"RIFF") && is(8, b"WEBP") { 4 } else if is(0, &[0xff, 0x0a]) { 5 }
            else if is(0, &[0, 0, 0, 12]) && is(4, b"JXL \x0d\x0a\x87\x0a") { 6 }
            else if is(4, b"ftypheic") || is(4, b"ftypheif") || is(4, b"ftypavif") { 7 } else { 0 };
        let g = match got { None => 0, Some(FileExtension::PNG { .. }) => 1, Some(FileExtension::JPEG) => 2, Some(FileExtension::TIFF) => 3, Some(FileExtension::WEBP) => 4, Some(FileExtension::NAKED_JXL) => 5, Some(FileExtension::JXL) => 6, Some(FileExtension::HEIF) => 7, #[allow(unreachable_patterns)] _ => 8 };
        sx::check(g == want, "the signature decides the type");
        sx::reach(["none", "png", "jpeg", "tiff", "webp", "naked", "jxl", "heif"][want]);
    }
    // file type from a name ending: (characters)
    fn h_ending() {
        let b = sx::vec(p(0));
        for x in &b { sx::assume(*x > 0x20 && *x < 0x7f); }
        let s = String::from_utf8(b.clone()).unwrap_or_default();
        let lo: Vec<u8> = b.iter().map(|c| c.to_ascii_lowercase()).collect();
        let g = match FileExtension::from_str(&s) { Err(e) => { sx::check(e.kind() == std::io::ErrorKind::Unsupported, "unsupported endings are reported as such"); 0 } Ok(FileExtension::PNG { .. }) => 1, Ok(FileExtension::JPEG) => 2, Ok(FileExtension::TIFF) => 3, Ok(FileExtension::WEBP) => 4, Ok(FileExtension::JXL) => 6, Ok(FileExtension::HEIF) => 7, #[allow(unreachable_patterns)] Ok(_) => 8 };
        let is = |x: &[u8]| lo.len() == x.len() && sx::same(&lo, x);
        let want = if is(b"png") { 1 } else if is(b"jpg") | is(b"jpeg") { 2 } else if is(b"tif") | is(b"tiff") { 3 } else if is(b"webp") { 4 } else if is(b"jxl") { 6 } else if is(b"heif") | is(b"hif") | is(b"heic") | is(b"avif") { 7 } else { 0 };
        sx::check(g == want, "the ending decides the type, in any letter case");
        sx::reach("ok");
    }
}
