//! Strings as UTF-16 code units, with independent WTF-8 and modified UTF-8 codecs.
use std::fmt;
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct S(pub Vec<u16>);

impl fmt::Debug for S {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "\"")?;
        for (i, r) in char::decode_utf16(self.0.iter().copied()).enumerate() {
            if i > 200 { write!(f, "...({} units)", self.0.len())?; break; }
            match r {
                Ok(c) if (c as u32) >= 0x20 && c != '"' && c != '\\' && (c as u32) != 0x7f => write!(f, "{c}")?,
                Ok(c) => write!(f, "\\u{{{:x}}}", c as u32)?,
                Err(e) => write!(f, "\\u{{{:x}}}", e.unpaired_surrogate())?,
            }
        }
        write!(f, "\"")
    }
}
impl From<&str> for S {
    fn from(s: &str) -> S { S(s.encode_utf16().collect()) }
}
impl S {
    pub fn push(&mut self, s: &str) { self.0.extend(s.encode_utf16()); }
    pub fn cat(&self, o: &S) -> S { let mut r = self.clone(); r.0.extend_from_slice(&o.0); r }
    pub fn is(&self, s: &str) -> bool { self.0.iter().copied().eq(s.encode_utf16()) }
    pub fn first(&self) -> Option<u16> { self.0.first().copied() }
    pub fn has_lone(&self) -> bool { char::decode_utf16(self.0.iter().copied()).any(|r| r.is_err()) }
    pub fn lossy(&self) -> String { String::from_utf16_lossy(&self.0) }
    pub fn codepoints(&self) -> Vec<u32> {
        char::decode_utf16(self.0.iter().copied()).map(|r| match r { Ok(c) => c as u32, Err(e) => e.unpaired_surrogate() as u32 }).collect()
    }
    pub fn mutf8_len(&self) -> usize { self.0.iter().map(|&u| match u { 1..=0x7f => 1, 0 | 0x80..=0x7ff => 2, _ => 3 }).sum() }
}

pub fn cps_to_units(c: &[u32]) -> Vec<u16> {
    let mut v = vec![];
    for &c in c {
        if c >= 0x10000 { v.push(0xD800 + ((c - 0x10000) >> 10) as u16); v.push(0xDC00 + ((c - 0x10000) & 0x3ff) as u16); } else { v.push(c as u16) }
    }
    v
}

/// UTF-16 units to (well-formed) WTF-8 bytes.
pub fn to_wtf8(s: &S) -> Vec<u8> {
    let mut o = vec![];
    for c in s.codepoints() { put_cp(&mut o, c) }
    o
}
pub fn put_cp(o: &mut Vec<u8>, c: u32) {
    if c < 0x80 { o.push(c as u8) }
    else if c < 0x800 { o.push(0xC0 | (c >> 6) as u8); o.push(0x80 | (c & 63) as u8) }
    else if c < 0x10000 { o.push(0xE0 | (c >> 12) as u8); o.push(0x80 | (c >> 6 & 63) as u8); o.push(0x80 | (c & 63) as u8) }
    else { o.push(0xF0 | (c >> 18) as u8); o.push(0x80 | (c >> 12 & 63) as u8); o.push(0x80 | (c >> 6 & 63) as u8); o.push(0x80 | (c & 63) as u8) }
}

/// Strict WTF-8 decoder to code points; None if not well-formed (incl. surrogate pairs not joined).
pub fn wtf8_codepoints(b: &[u8]) -> Option<Vec<u32>> {
    let mut v: Vec<u32> = vec![];
    let mut i = 0;
    while i < b.len() {
        let x = b[i] as u32;
        let (n, init, min) = match x { 0..=0x7f => (0, x, 0), 0xC2..=0xDF => (1, x & 0x1f, 0x80), 0xE0..=0xEF => (2, x & 0xf, 0x800), 0xF0..=0xF4 => (3, x & 7, 0x10000), _ => return None };
        let mut c = init;
        for k in 1..=n {
            let y = *b.get(i + k)? as u32;
            if y & 0xC0 != 0x80 { return None }
            c = c << 6 | (y & 63);
        }
        if c < min || c > 0x10FFFF { return None }
        if (0xDC00..0xE000).contains(&c) { if let Some(&p) = v.last() { if (0xD800..0xDC00).contains(&p) { return None } } }
        v.push(c);
        i += n + 1;
    }
    Some(v)
}
pub fn from_wtf8(b: &[u8]) -> Option<S> { wtf8_codepoints(b).map(|c| S(cps_to_units(&c))) }

pub fn to_mutf8(s: &S) -> Vec<u8> {
    let mut o = vec![];
    for &u in &s.0 {
        let c = u as u32;
        match c {
            1..=0x7f => o.push(c as u8),
            0 | 0x80..=0x7ff => { o.push(0xC0 | (c >> 6) as u8); o.push(0x80 | (c & 63) as u8) }
            _ => { o.push(0xE0 | (c >> 12) as u8); o.push(0x80 | (c >> 6 & 63) as u8); o.push(0x80 | (c & 63) as u8) }
        }
    }
    o
}
/// Strict JVMS 4.4.7 decoder.
pub fn from_mutf8(b: &[u8]) -> Result<S, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let x = b[i] as u16;
        let cont = |k: usize| -> Result<u16, String> {
            match b.get(i + k) { Some(&y) if y & 0xC0 == 0x80 => Ok((y & 63) as u16), _ => Err(format!("bad continuation at {}", i + k)) }
        };
        match x {
            1..=0x7f => { v.push(x); i += 1 }
            0xC0..=0xDF => { let c = (x & 0x1f) << 6 | cont(1)?; if c < 0x80 && c != 0 { return Err(format!("overlong at {i}")) } v.push(c); i += 2 }
            0xE0..=0xEF => { let c = (x & 0xf) << 12 | cont(1)? << 6 | cont(2)?; if c < 0x800 { return Err(format!("overlong at {i}")) } v.push(c); i += 3 }
            _ => return Err(format!("bad lead byte {x:#x} at {i}")),
        }
    }
    Ok(S(v))
}
