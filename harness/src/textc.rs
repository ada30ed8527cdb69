//! C08 (modified UTF-8), C09 (WTF-8 strings), C10 (descriptors), C11 (signatures).
use crate::ctx::*;
use crate::gen::{G, P};
use crate::model::*;
use crate::pipe;
use crate::rcls::*;
use crate::rng::*;
use crate::text::*;
use coffer::prelude::{ClassSignature, FieldSignature, MethodSignature, RefTypeSignature, Type, TypeSignature};
use coffer::ty::parse_type;
use std::borrow::Cow;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use wtf_8::{Codepoint, Wtf8Str, Wtf8String};

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x} ")).collect() }
fn own(s: &S) -> Wtf8String { Wtf8String::from_bytes(to_wtf8(s)).expect("well-formed WTF-8 refused") }
const CPS: [u32; 40] = [0, 1, 0x41, 0x61, 0x7a, 0x5a, 0x7e, 0x7f, 0x80, 0x81, 0xe9, 0x130, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x7fff, 0x8000, 0xcfff, 0xd000, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10001, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff];
fn cp(r: &mut Rng) -> u32 { if let Some(x) = r.special(5) { if x <= 0x10ffff { return x as u32 } if x <= 0x11ffff { return x as u32 - 0x1000 } } match r.below(8) { 0..=3 => *r.pick(&CPS), 4 => r.range(0xd800, 0xdfff) as u32, 5 => r.range(0, 0x10ffff) as u32, 6 => r.range(0, 0xffff) as u32, _ => r.range(0x20, 0x7e) as u32 } }

// ---------- C08 ----------
fn dec(c: &mut Ctx, b: &[u8]) -> Res {
    let got = guard(|| coffer::mod_utf8::modified_utf8_to_string(b)).map_err(|e| format!("decoding {} panicked: {e}", hex(b)))?;
    // a plain NUL byte and four-byte units have no meaning in the format; what becomes of them is not judged
    if b.iter().any(|x| *x == 0 || *x >= 0xf0) { c.inc("not_judged"); return Ok(()) }
    match (from_mutf8(b), got) {
        (Ok(s), Ok(w)) => { c.inc("decoded"); if w.as_bytes() != &to_wtf8(&s)[..] { return Err(format!("{}: decoded to {}, expected {}", hex(b), hex(w.as_bytes()), hex(&to_wtf8(&s)))) } Ok(()) }
        (Err(_), Err(_)) => { c.inc("rejected"); Ok(()) }
        (Ok(s), Err(e)) => Err(format!("{} is {s:?} but was rejected: {e}", hex(b))),
        (Err(e), Ok(w)) => Err(format!("{} is malformed ({e}) but was decoded to {}", hex(b), hex(w.as_bytes()))),
    }
}
fn encdec(c: &mut Ctx, s: &S) -> Res {
    let w = own(s);
    let b = guard(|| coffer::mod_utf8::string_to_modified_utf8(&w)).map_err(|e| format!("encoding {s:?} panicked: {e}"))?;
    if b != to_mutf8(s) { return Err(format!("{s:?}: encoded as {}, expected {}", hex(&b), hex(&to_mutf8(s)))) }
    match coffer::mod_utf8::modified_utf8_to_string(&b) { Ok(x) if x == w => {} x => return Err(format!("{s:?}: encoded and decoded to {x:?}")) }
    c.inc("encoded_and_decoded");
    Ok(())
}
pub fn c08(c: &mut Ctx) {
    c.indexed("code points", 0x110, |c, _, q| {
        for x in q as u32 * 0x1000..(q as u32 + 1) * 0x1000 {
            let u = S(cps_to_units(&[x]));
            encdec(c, &u)?;
            if x % 16 == 0 { let mut v = u.clone(); v.push("a"); encdec(c, &v)?; let mut v = S::from("\u{e9}"); v.0.extend(&u.0); encdec(c, &v)? }
        }
        c.seen(&("cp", q));
        c.tick();
        Ok(())
    });
    let n = c.n(64, 2048);
    c.indexed("surrogate neighbours", n, |c, r, q| {
        // every surrogate next to every kind of neighbour
        for k in 0..2048 * 32 / 64u32 { let a = 0xd800 + (q as u32 * 37 + k) % 2048; let b = *r.pick(&CPS); let d = cp(r); for v in [vec![a, b], vec![b, a], vec![a, b, d], vec![d, a, b], vec![a, d, a]] { c.seen(&v); encdec(c, &S(cps_to_units(&v)))? } }
        Ok(())
    });
    let n = c.n(60_000, 3_000_000);
    c.cases("texts", n, |c, r| {
        let len = match r.special(20) { Some(x) if x < 70_000 => x as usize, _ => r.below(12) };
        let v: Vec<u32> = (0..len).map(|_| cp(r)).collect();
        let mut s = S(cps_to_units(&v));
        if !dict().strs.is_empty() && r.chance(1, 10) { let t = r.pick(&dict().strs).clone(); s = s.cat(&t.as_str().into()) }
        if r.chance(1, 200) { let t = s.clone(); for _ in 0..r.below(500) { s.0.extend(&t.0) } }
        c.seen(&s);
        c.sample("text", || format!("{s:?}"));
        encdec(c, &s)?;
        let b = to_mutf8(&s);
        dec(c, &b)?;
        // cut anywhere, or damaged in one place
        for _ in 0..3 {
            if b.is_empty() { break }
            let mut d = b.clone();
            match r.below(5) { 0 => d.truncate(r.below(b.len())), 1 => { d.remove(r.below(b.len())); } 2 => { let i = r.below(b.len()); d[i] = r.u8() } 3 => { let i = r.below(b.len()); d.insert(i, *r.pick(&[0x80u8, 0xbf, 0xc0, 0xc1, 0xe0, 0xed, 0x9f, 0xa0])) } _ => { let i = r.below(b.len()); d[i] ^= 1 << r.below(8) } }
            dec(c, &d)?;
        }
        Ok(())
    });
    // every sequence of up to three bytes
    c.indexed("short byte strings", 65536 / 64, |c, _, q| {
        for hi in q * 64..q * 64 + 64 {
            let (a, b) = ((hi >> 8) as u8, hi as u8);
            dec(c, &[a, b])?;
            for x in 0..=255 { dec(c, &[a, b, x])?; }
            if a == 0 { dec(c, &[b])? }
        }
        c.seen(&("bytes", q));
        c.tick();
        Ok(())
    });
    let reps = [0x41u8, 0x80, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef];
    let len = if c.thorough { 7 } else { 6 };
    let k = reps.len() as u64;
    c.indexed("byte classes", k * k * k, |c, _, q| {
        let mut b = vec![reps[(q % k) as usize], reps[(q / k % k) as usize], reps[(q / k / k) as usize]];
        b.resize(len, 0);
        for z in 0..k.pow(len as u32 - 3) { let mut z = z; for i in 3..len { b[i] = reps[(z % k) as usize]; z /= k } dec(c, &b)? }
        c.seen(&("classes", q));
        c.tick();
        Ok(())
    });
    let n = c.n(100_000, 3_000_000);
    c.cases("byte strings", n, |c, r| {
        let n = 3 + r.below(12);
        let b: Vec<u8> = (0..n).map(|_| if r.chance(4, 5) { *r.pick(&[0x41u8, 0x7f, 0x80, 0x81, 0x9f, 0xa0, 0xad, 0xaf, 0xb0, 0xb8, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xed, 0xed, 0xed, 0xee, 0xef]) } else { 1 + r.below(0xef) as u8 }).collect();
        c.seen(&b);
        dec(c, &b)
    });
    // the same text as names, constants and attribute names of classes
    let n = c.n(2500, 60_000);
    fn prof(r: &mut Rng) -> P { let mut p = P::meta(r); p.uni = true; p.lone = true; p.sigs = false; p.consts = 10; p }
    pipe::random(c, "in classes", n, prof, pipe::all);
}

// ---------- C09 ----------
fn joined(v: &[u32]) -> Vec<u32> { S(cps_to_units(v)).codepoints() }
fn bytes_of(v: &[u32]) -> Vec<u8> { let mut o = vec![]; for c in v { put_cp(&mut o, *c) } o }
fn lossy(v: &[u32]) -> String { v.iter().map(|c| char::from_u32(*c).unwrap_or('\u{fffd}')).collect() }
fn has_sur(v: &[u32]) -> bool { v.iter().any(|c| char::from_u32(*c).is_none()) }
fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
macro_rules! eq { ($a:expr, $b:expr, $($m:tt)*) => { { match (&$a, &$b) { (a, b) => if a != b { return Err(format!("{}: got {a:?}, expected {b:?}", format!($($m)*))) } } } } }
/// Everything that can be asked of a string.
fn observe(c: &mut Ctx, w: &Wtf8Str, v: &[u32], deep: bool) -> Res {
    let b = bytes_of(v);
    eq!(hex(w.as_bytes()), hex(&b), "bytes of {v:x?}");
    if wtf8_codepoints(w.as_bytes()).is_none() { return Err(format!("not well-formed: {}", hex(w.as_bytes()))) }
    eq!(w.len(), b.len(), "len of {v:x?}");
    eq!(w.is_empty(), v.is_empty(), "is_empty of {v:x?}");
    c.inc("observations");
    if !deep { return Ok(()) }
    let mut it = w.codepoints();
    for (i, x) in v.iter().enumerate() {
        let (lo, hi) = it.size_hint();
        let left = v.len() - i;
        if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("size_hint ({lo}, {hi:?}) with {left} code points left in {v:x?}")) }
        match it.next() { Some(k) if k.to_u32() == *x => { eq!(k.to_char(), char::from_u32(*x), "to_char of {x:x}"); eq!(k.to_char_lossy(), char::from_u32(*x).unwrap_or('\u{fffd}'), "to_char_lossy of {x:x}"); eq!(Codepoint::from_u32(*x), Some(k), "from_u32 of {x:x}"); if let Some(ch) = char::from_u32(*x) { if k != ch || Codepoint::from(ch) != k || Codepoint::from_char(ch) != k { return Err(format!("char comparison of {x:x}")) } } eq!(format!("{k:?}"), format!("U+{x:04X}"), "Debug of {x:x}"); } k => return Err(format!("code point {i} of {v:x?} is {k:?}")) }
        eq!(hex(it.as_str().as_bytes()), hex(&bytes_of(&v[i + 1..])), "rest after {} code points of {v:x?}", i + 1);
    }
    if it.next().is_some() { return Err(format!("more code points than {v:x?}")) }
    let u = cps_to_units(v);
    let mut e = w.encode_wide();
    for (i, x) in u.iter().enumerate() { let (lo, hi) = e.size_hint(); let left = u.len() - i; if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("wide size_hint ({lo}, {hi:?}) with {left} left in {v:x?}")) } eq!(e.next(), Some(*x), "unit {i} of {v:x?}") }
    eq!(e.next(), None, "units after the end of {v:x?}");
    eq!(Wtf8String::from_wide(&u).as_bytes(), &b[..], "from_wide of {v:x?}");
    let sur = has_sur(v);
    let text = lossy(v);
    match w.as_str() { Some(s) if !sur => eq!(s, &text[..], "as_str"), None if sur => {} x => return Err(format!("as_str of {v:x?} is {x:?}")) }
    eq!(w.to_string_lossy(), Cow::Borrowed(&text[..]), "to_string_lossy of {v:x?}");
    if !sur && !matches!(w.to_string_lossy(), Cow::Borrowed(_)) { return Err(format!("to_string_lossy of {v:x?} copies")) }
    eq!(format!("{w}"), text, "Display of {v:x?}");
    let dbg: String = format!("\"{}\"", v.iter().map(|c| match char::from_u32(*c) { Some(ch) => ch.escape_debug().collect::<String>(), None => format!("\\u{{{c:x}}}") }).collect::<String>());
    eq!(format!("{w:?}"), dbg, "Debug of {v:x?}");
    eq!(w.is_ascii(), v.iter().all(|c| *c < 0x80), "is_ascii of {v:x?}");
    let low: Vec<u32> = v.iter().map(|c| if (0x41..=0x5a).contains(c) { c + 32 } else { *c }).collect();
    let up: Vec<u32> = v.iter().map(|c| if (0x61..=0x7a).contains(c) { c - 32 } else { *c }).collect();
    eq!(hex(w.to_ascii_lowercase().as_bytes()), hex(&bytes_of(&low)), "lower case of {v:x?}");
    eq!(hex(w.to_ascii_uppercase().as_bytes()), hex(&bytes_of(&up)), "upper case of {v:x?}");
    for i in 0..b.len() { eq!(w.ascii_byte_at(i), if b[i] < 0x80 { b[i] } else { 0xff }, "ascii_byte_at({i}) of {v:x?}") }
    // boxes and counted pointers
    eq!(hex(w.into_box().as_bytes()), hex(&b), "into_box");
    eq!(hex(w.into_arc().as_bytes()), hex(&b), "into_arc");
    eq!(hex(w.into_rc().as_bytes()), hex(&b), "into_rc");
    let a = w.into_arc(); let a2 = a.clone(); drop(a); eq!(hex(a2.as_bytes()), hex(&b), "shared"); drop(a2);
    let o: Wtf8String = w.to_owned();
    eq!(o.capacity() >= o.len(), true, "capacity");
    if o != *w || *w != o || o != w || w != o || o.as_wstr() != w || hash_of(&o) != hash_of(w) { return Err(format!("{v:x?}: owned and borrowed differ")) }
    eq!(hex(Wtf8String::from_box(o.clone().into_box()).as_bytes()), hex(&b), "from_box");
    eq!(hex(&o.clone().into_bytes()), hex(&b), "into_bytes");
    match o.clone().into_string() { Ok(s) if !sur => eq!(s, text, "into_string"), Err(x) if sur => eq!(hex(x.as_bytes()), hex(&b), "into_string failed"), x => return Err(format!("into_string of {v:x?} is {x:?}")) }
    eq!(o.clone().into_string_lossy(), text, "into_string_lossy of {v:x?}");
    if !sur { if o != text[..] || *w != text[..] || o != &text[..] || Wtf8Str::new(&text) != w || Wtf8String::from_borrowed(&text) != o || Wtf8String::from_string(text.clone()) != o || Wtf8String::from(text.clone()) != o { return Err(format!("{text:?} as text differs from itself")) } }
    match (Cow::<Wtf8Str>::from(w), Cow::<Wtf8Str>::from(o.clone())) { (Cow::Borrowed(x), Cow::Owned(y)) if x == w && y == o => {} _ => return Err("Cow conversion".into()) }
    match Wtf8Str::from_bytes(&b) { Ok(x) if x == w => {} x => return Err(format!("from_bytes of {v:x?}: {x:?}")) }
    eq!(hex(Wtf8Str::empty_box().as_bytes()), hex(&[]), "empty_box");
    eq!(hex(v.iter().map(|c| Codepoint::from_u32(*c).unwrap()).collect::<Wtf8String>().as_bytes()), hex(&b), "collect of {v:x?}");
    refused(c, w)?;
    refused(c, &format_args!("{w:?}"))?;
    c.inc("deep_observations");
    Ok(())
}
/// Slices and truncation: right on boundaries, panic elsewhere.
fn slices(c: &mut Ctx, w: &Wtf8String, v: &[u32], r: &mut Rng, all: bool) -> Res {
    let b = bytes_of(v);
    let mut at = vec![0usize];
    for x in v { let l = bytes_of(&[*x]).len(); at.push(at.last().unwrap() + l) }
    let pairs: Vec<(usize, usize)> = if all { (0..b.len() + 2).flat_map(|i| (0..b.len() + 2).map(move |j| (i, j))).collect() } else { (0..6).map(|_| (r.below(b.len() + 2), r.below(b.len() + 2))).collect() };
    for (i, j) in pairs {
        let ok = i <= j && at.contains(&i) && at.contains(&j);
        match guard(|| w[i..j].as_bytes().to_vec()) { Ok(x) if ok => eq!(hex(&x), hex(&b[i..j]), "slice {i}..{j} of {v:x?}"), Err(_) if !ok => {} Ok(x) => return Err(format!("slice {i}..{j} of {v:x?} gave {}", hex(&x))), Err(e) => return Err(format!("slice {i}..{j} of {v:x?}: {e}")) }
        let ok = at.contains(&i);
        match guard(|| w[i..].as_bytes().to_vec()) { Ok(x) if ok => eq!(hex(&x), hex(&b[i..]), "slice {i}.. of {v:x?}"), Err(_) if !ok => {} x => return Err(format!("slice {i}.. of {v:x?}: {x:?}")) }
        match guard(|| w[..i].as_bytes().to_vec()) { Ok(x) if ok => eq!(hex(&x), hex(&b[..i]), "slice ..{i} of {v:x?}"), Err(_) if !ok => {} x => return Err(format!("slice ..{i} of {v:x?}: {x:?}")) }
        let mut t = w.clone();
        match guard(|| t.truncate(i)) { Ok(()) if ok => eq!(hex(t.as_bytes()), hex(&b[..i]), "truncate({i}) of {v:x?}"), Err(_) if !ok => eq!(hex(t.as_bytes()), hex(&b), "failed truncate"), x => return Err(format!("truncate({i}) of {v:x?}: {x:?}")) }
        c.inc(if ok { "slices" } else { "refused_slices" });
    }
    eq!(hex(w[..].as_bytes()), hex(&b), "full slice");
    match guard(|| w.ascii_byte_at(b.len())) { Err(_) => {} Ok(x) => return Err(format!("ascii_byte_at past the end gave {x}")) }
    Ok(())
}
fn validate(c: &mut Ctx, b: &[u8]) -> Res {
    let want = wtf8_codepoints(b);
    let res = guard(|| Wtf8Str::from_bytes(b).map(|w| w.as_bytes().to_vec())).map_err(|e| format!("validating {} panicked: {e}", hex(b)))?;
    match (&want, &res) {
        (Some(_), Ok(x)) => { c.inc("valid"); eq!(hex(x), hex(b), "from_bytes") }
        (None, Err(e)) => {
            c.inc("invalid");
            let n = e.valid_up_to();
            // the first code point that is wrong, or the pair that should have been joined
            let mut first = 0;
            while let Some(l) = (1..=4).find(|l| first + l <= b.len() && wtf8_codepoints(&b[first..first + l]).map_or(false, |v| v.len() == 1)) { if wtf8_codepoints(&b[..first + l]).is_none() { break } first += l }
            let pair = first >= 3 && b[first - 3] == 0xed && (0xa0..0xb0).contains(&b[first - 2]) && b[first..].first() == Some(&0xed) && b.get(first + 1).map_or(false, |x| *x >= 0xb0);
            if n != first && !(pair && n == first - 3) { return Err(format!("{}: valid up to {n}, but {first}{}", hex(b), if pair { " completes a surrogate pair" } else { " is the first error" })) }
            let _ = (format!("{e}"), e.error_len());
        }
        (Some(v), Err(e)) => return Err(format!("{} is {v:x?} but was refused: {e}", hex(b))),
        (None, Ok(_)) => return Err(format!("{} is not well-formed but was accepted", hex(b))),
    }
    let ok = want.is_some();
    if Wtf8String::from_bytes(b.to_vec()).is_ok() != ok || wtf_8::validate_wtf8(b).is_ok() != ok { return Err(format!("{}: validations disagree", hex(b))) }
    let mut m = b.to_vec();
    match Wtf8Str::from_bytes_mut(&mut m) { Ok(w) if ok => { w.make_ascii_uppercase(); w.make_ascii_lowercase() } Err(_) if !ok => {} _ => return Err(format!("{}: mutable validation disagrees", hex(b))) }
    if ok { eq!(hex(&m), hex(&b.to_ascii_lowercase()), "case changed in place") }
    Ok(())
}
fn random_cps(r: &mut Rng, n: usize) -> Vec<u32> { let k = match r.special(20) { Some(x) if x < 3000 => x as usize, _ => r.below(n) }; (0..k).map(|_| cp(r)).collect() }
fn history(c: &mut Ctx, r: &mut Rng, steps: usize) -> Res {
    let mut pool: Vec<(Wtf8String, Vec<u32>)> = (0..3).map(|_| { let v = joined(&random_cps(r, 6)); (own(&S(cps_to_units(&v))), v) }).collect();
    let mut trace = vec![];
    for _ in 0..steps {
        let i = r.below(pool.len());
        let j = r.below(pool.len());
        let op = r.below(20);
        trace.push((op, i, j));
        let (ow, ov) = pool[j].clone();
        let (w, v) = &mut pool[i];
        if v.len() > 400 { w.clear(); v.clear() }
        match op {
            0 => { let x = cp(r); w.push(Codepoint::from_u32(x).unwrap()); v.push(x); *v = joined(v) }
            1 => { let x = cp(r); if let Some(ch) = char::from_u32(x) { w.push_char(ch); v.push(x) } }
            2 => { let x = random_cps(r, 5); let t = lossy(&x); w.push_str(&t); v.extend(t.chars().map(|c| c as u32)) }
            3 | 4 => { w.push_wtf8(&ow); v.extend(&ov); *v = joined(v) }
            5 => { let x = random_cps(r, 8); w.extend(x.iter().map(|c| Codepoint::from_u32(*c).unwrap())); v.extend(&x); *v = joined(v) }
            6 => { let k = r.below(v.len() + 1); let n = bytes_of(&v[..k]).len(); w.truncate(n); v.truncate(k) }
            7 => { w.make_ascii_lowercase(); for x in v.iter_mut() { if (0x41..=0x5a).contains(x) { *x += 32 } } }
            8 => { w.make_ascii_uppercase(); for x in v.iter_mut() { if (0x61..=0x7a).contains(x) { *x -= 32 } } }
            9 => { if r.chance(1, 2) { ow.clone_into(w) } else { ow.as_wstr().clone_into(w) } *v = ov.clone() }
            10 => { let a = r.below(ov.len() + 1); let b = a + r.below(ov.len() + 1 - a); let (p, q) = (bytes_of(&ov[..a]).len(), bytes_of(&ov[..b]).len()); w.push_wtf8(&ow[p..q]); v.extend(&ov[a..b]); *v = joined(v) }
            11 => { let u: Vec<u16> = (0..r.below(6)).map(|_| if r.chance(1, 2) { r.range(0xd800, 0xdfff) as u16 } else { r.u16() }).collect(); *w = Wtf8String::from_wide(&u); *v = S(u).codepoints() }
            12 => { w.shrink_to_fit(); w.shrink_to(r.below(10)) }
            13 => { w.reserve(r.below(100)); w.reserve_exact(r.below(100)); w.try_reserve(r.below(10)).map_err(|e| e.to_string())?; w.try_reserve_exact(r.below(10)).map_err(|e| e.to_string())?; if w.try_reserve(usize::MAX).is_ok() { return Err("reserved the whole address space".into()) } if w.capacity() < w.len() { return Err("capacity below length".into()) } }
            14 => { *w = Wtf8String::from_box(w.clone().into_box()) }
            15 => { w.clear(); v.clear() }
            16 => { let x = random_cps(r, 8); *w = x.iter().map(|c| Codepoint::from_u32(*c).unwrap()).collect(); *v = joined(&x) }
            17 => { let m = w.as_mut_wstr(); m.make_ascii_uppercase(); m.make_ascii_lowercase(); for x in v.iter_mut() { if (0x41..=0x5a).contains(x) { *x += 32 } } }
            18 => { // split anywhere and put together again
                let k = r.below(v.len() + 1); let n = bytes_of(&v[..k]).len(); let mut x = Wtf8String::with_capacity(r.below(20)); x.push_wtf8(&w[..n]); x.push_wtf8(&w[n..]); *w = x }
            _ => { // comparisons
                let o = w.as_bytes().cmp(ow.as_bytes());
                eq!((*w).cmp(&ow), o, "comparison of {v:x?} and {ov:x?}");
                eq!(w.as_wstr().partial_cmp(&ow[..]), Some(o), "comparison of {v:x?} and {ov:x?}");
                eq!(*w == ow, *v == ov, "equality");
                eq!(o, (*v).cmp(&ov), "order of {v:x?} and {ov:x?}");
                if *w == ow && hash_of(&*w) != hash_of(&ow) { return Err("equal strings hash differently".into()) }
                eq!(w.eq_ignore_ascii_case(&ow), bytes_of(v).eq_ignore_ascii_case(&bytes_of(&ov)), "eq_ignore_ascii_case");
            }
        }
        c.inc(&format!("op_{op:02}"));
        let deep = r.chance(1, 4);
        observe(c, w, v, deep).map_err(|e| format!("after {trace:?}: {e}"))?;
    }
    c.seen(&trace);
    let i = r.below(pool.len());
    slices(c, &pool[i].0, &pool[i].1, r, false)?;
    c.sample("history", || format!("{trace:?} ended in {:?}", pool.iter().map(|p| format!("{:x?}", p.1)).collect::<Vec<_>>()));
    Ok(())
}
pub fn c09(c: &mut Ctx) {
    let miri = c.part() == "miri";
    let n = if miri { c.n(16, 400) } else { c.n(30_000, 600_000) };
    c.cases("histories", n, |c, r| { let k = 1 + r.below(if miri { 14 } else { 40 }); history(c, r, k) });
    // every pair of kinds of code points next to each other
    let k = CPS.len() as u64;
    let n = if miri { c.n(16, 400) } else { k * k };
    c.indexed("pairs", n, |c, r, q| {
        let q = if miri { q * 31 % (k * k) } else { q };
        let v = [CPS[(q % k) as usize], CPS[(q / k) as usize]];
        let z = joined(&v);
        c.seen(&v);
        let w: Wtf8String = v.iter().map(|c| Codepoint::from_u32(*c).unwrap()).collect();
        observe(c, &w, &z, true)?;
        let (a, b) = (own(&S(cps_to_units(&v[..1]))), own(&S(cps_to_units(&v[1..]))));
        let mut x = a.clone();
        x.push_wtf8(&b);
        observe(c, &x, &z, true)?;
        if v[0] >= 0xd800 && v[0] < 0xdc00 && v[1] >= 0xdc00 && v[1] < 0xe000 { eq!(wtf_8::decode_surrogate_pair(v[0] as u16, v[1] as u16) as u32, z[0], "decode_surrogate_pair") }
        slices(c, &x, &z, r, true)
    });
    c.indexed("single", if miri { c.n(8, 64) } else { 0x110 }, |c, _, q| {
        let all: Vec<u32> = if miri { (0..12).map(|i| (q as u32 * 12 + i) * 3331 % 0x110000).collect() } else { (q as u32 * 0x1000..(q as u32 + 1) * 0x1000).collect() };
        for x in all { let mut w = Wtf8String::new(); w.push(Codepoint::from_u32(x).unwrap()); observe(c, &w, &[x], true)?; }
        for x in [0x110000u32, 0x110001, 0x1fffff, 0x7fffffff, u32::MAX, 0x110000 + q as u32] { if Codepoint::from_u32(x).is_some() { return Err(format!("{x:x} accepted as a code point")) } }
        c.seen(&("cp", q));
        c.tick();
        Ok(())
    });
    if !miri {
        c.indexed("pair table", 64, |c, _, q| {
            for l in (0xd800u32 + q as u32 * 16)..(0xd800 + q as u32 * 16 + 16) { for t in 0xdc00..0xe000u32 { let e = 0x10000 + ((l - 0xd800) << 10) + (t - 0xdc00); if wtf_8::decode_surrogate_pair(l as u16, t as u16) as u32 != e { return Err(format!("pair {l:x} {t:x}")) } } let s = 0xd800 | (l & 0x3ff); let b = bytes_of(&[s]); if wtf_8::decode_surrogate(b[1], b[2]) as u32 != s { return Err(format!("surrogate {s:x}")) } }
            c.tick();
            Ok(())
        });
        c.indexed("short byte strings", 1024, |c, _, q| {
            for hi in q * 64..q * 64 + 64 { let (a, b) = ((hi >> 8) as u8, hi as u8); validate(c, &[a, b])?; for x in 0..=255 { validate(c, &[a, b, x])? } if a == 0 { validate(c, &[b])? } }
            c.seen(&("bytes", q));
            c.tick();
            Ok(())
        });
    }
    let n = if miri { c.n(64, 2000) } else { c.n(200_000, 4_000_000) };
    c.cases("byte strings", n, |c, r| {
        let n = 1 + r.below(10);
        let b: Vec<u8> = if r.chance(1, 2) { let mut b = bytes_of(&joined(&random_cps(r, 6))); if !b.is_empty() { let i = r.below(b.len()); match r.below(4) { 0 => b[i] = r.u8(), 1 => { b.remove(i); } 2 => b.insert(i, *r.pick(&[0x80, 0xed, 0xa0, 0xf0, 0xc0])), _ => {} } } b }
            else { (0..n).map(|_| *r.pick(&[0x41u8, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xed, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff])).collect() };
        c.seen(&b);
        validate(c, &b)?;
        if let Some(v) = wtf8_codepoints(&b) { observe(c, Wtf8Str::from_bytes(&b).unwrap(), &v, true)? }
        Ok(())
    });
}

// ---------- C10 ----------
/// The type a descriptor denotes; `loose` names may be anything.
pub fn ref_type(d: &[u32], loose: bool) -> Option<Type> {
    fn f(d: &[u32], i: &mut usize, loose: bool) -> Option<Type> {
        let mut n = 0;
        while d.get(*i) == Some(&('[' as u32)) { n += 1; *i += 1 }
        let c = char::from_u32(*d.get(*i)?)?;
        *i += 1;
        let t = match c {
            'B' => Type::Byte, 'C' => Type::Char, 'D' => Type::Double, 'F' => Type::Float, 'I' => Type::Int, 'J' => Type::Long, 'Z' => Type::Boolean, 'S' => Type::Short,
            'L' => {
                let e = *i + d[*i..].iter().position(|c| *c == ';' as u32)?;
                let name = &d[*i..e];
                if !loose && name.split(|c| *c == '/' as u32).any(|p| p.is_empty() || p.iter().any(|c| *c == '.' as u32 || *c == '[' as u32)) { return None }
                *i = e + 1;
                Type::Ref(w_of(&S(cps_to_units(name))))
            }
            _ => return None,
        };
        if n > 255 { return None }
        Some(if n > 0 { Type::ArrayRef(n as u8, Box::new(t)) } else { t })
    }
    let mut i = 0;
    let t = if d.first() == Some(&('(' as u32)) {
        i = 1;
        let mut p = vec![];
        while *d.get(i)? != ')' as u32 { p.push(f(d, &mut i, loose)?) }
        i += 1;
        let ret = if *d.get(i)? == 'V' as u32 { i += 1; None } else { Some(Box::new(f(d, &mut i, loose)?)) };
        Type::Method { parameters: p, ret }
    } else { f(d, &mut i, loose)? };
    if i == d.len() { Some(t) } else { None }
}
fn desc(c: &mut Ctx, w: &Wtf8Str) -> Res {
    let d: Vec<u32> = w.codepoints().map(|c| c.to_u32()).collect();
    let got = guard(|| parse_type(w)).map_err(|e| format!("parsing {w:?} panicked: {e}"))?;
    match (ref_type(&d, false), ref_type(&d, true), got) {
        (Some(t), _, Ok(g)) => {
            c.inc("descriptors_parsed");
            if t != g { return Err(format!("{w:?} parsed as {g:?}, expected {t:?}")) }
            printed(w, &g)
        }
        (Some(t), _, Err(e)) => Err(format!("{w:?} denotes {t:?} but was rejected: {e:?}")),
        (None, None, Ok(g)) => Err(format!("{w:?} is no descriptor but was parsed as {g:?}")),
        (None, None, Err(_)) => { c.inc("rejected"); Ok(()) }
        (None, Some(_), Ok(g)) => { c.inc("odd_names_accepted"); printed(w, &g) }
        (None, Some(_), Err(_)) => { c.inc("odd_names_rejected"); Ok(()) }
    }
}
fn printed(w: &Wtf8Str, g: &Type) -> Res {
    let p = Wtf8String::from(g);
    if p != *w { return Err(format!("{w:?} printed as {p:?}")) }
    let mut q = Wtf8String::from_borrowed("x");
    coffer::ty::write_type(g, &mut q);
    if q[1..] != *w { return Err(format!("{w:?} appended as {q:?}")) }
    let t = format!("{g}");
    if t != w.to_string_lossy() { return Err(format!("{w:?} displayed as {t:?}")) }
    Ok(())
}
/// A sink that refuses its k-th piece and takes everything else: printing must not report success.
struct Refuse(String, usize, bool);
impl std::fmt::Write for Refuse { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.1 == 0 && !self.2 && !s.is_empty() { self.2 = true; return Err(std::fmt::Error) } self.1 = self.1.saturating_sub(1); self.0.push_str(s); Ok(()) } }
pub fn refused<T: std::fmt::Display + ?Sized>(c: &mut Ctx, g: &T) -> Res {
    use std::fmt::Write;
    let full = g.to_string();
    for k in 0..40 {
        let mut s = Refuse(String::new(), k, false);
        let r = guard(|| write!(s, "{g}")).map_err(|e| format!("printing {full:?} into a sink that refuses piece {k} panicked: {e}"))?;
        if !s.2 { if r.is_err() || s.0 != full { return Err(format!("{full:?} printed as {:?} with {r:?}", s.0)) } break }
        c.inc("refusing_sinks");
        if r.is_ok() { return Err(format!("printing {full:?} reports success although the sink refused piece {k}")) }
    }
    Ok(())
}
fn rtype(r: &mut Rng, g: &mut dyn FnMut(&mut Rng) -> S, arr: bool) -> Type {
    match r.below(if arr { 11 } else { 10 }) { 0 => Type::Byte, 1 => Type::Char, 2 => Type::Double, 3 => Type::Float, 4 => Type::Int, 5 => Type::Long, 6 => Type::Boolean, 7 => Type::Short, 8 | 9 => Type::Ref(w_of(&g(r))), _ => Type::ArrayRef(*r.pick(&[1u8, 1, 2, 3, 127, 128, 254, 255]), Box::new(rtype(r, g, false))) }
}
/// The texts of a class file.
fn texts(b: &[u8]) -> Vec<String> {
    let (pool, _) = crate::content::scan(b);
    pool.iter().filter(|x| x.0 == 1).filter_map(|(_, at)| { let n = u16::from_be_bytes([b[*at], b[at + 1]]) as usize; std::str::from_utf8(&b[at + 2..at + 2 + n]).ok().map(str::to_string) }).collect()
}
/// Texts around the ones of particular interest, and around classes that every program uses.
fn around() -> Vec<String> {
    let mut w: Vec<String> = dict().strs.clone();
    w.extend(crate::gen::KNOWN.iter().map(|s| s.to_string()));
    w.extend(crate::gen::KNOWN_DESCS.iter().map(|s| s.to_string()));
    w
}
const BEFORE: [&str; 27] = ["", "La", "Lp/a", "La<*>", "(La", "La<TT;>.b", "(", "[", "[[", "L", "[L", "(L", "([L", "(I[", "([[L", "(I[L", "()", "()[", "()L", "()[L", "La/b;", "La<", "La<L", "La<+L", "<T:L", "<T::", "La<TT;>.b<L"];
const AFTER: [&str; 18] = ["", ";", ")V", ";)V", "I)V", ";I)V", ";La;)I", "V", "I", ">;", ";>;", ";>;)V", ";*>;", "<*>;", ";>La;", ">La;", ".b;", "*"];
pub fn c10(c: &mut Ctx) {
    let files = c.corpus();
    c.indexed("texts of real classes", files.len() as u64, |c, _, i| {
        let Some((_, b)) = files.get(i as usize) else { return Ok(()) };
        for t in texts(b) { desc(c, Wtf8Str::new(&t))?; c.inc("real_texts") }
        c.seen(b);
        Ok(())
    });
    let w = around();
    c.indexed("known texts", w.len() as u64, |c, _, i| {
        for a in BEFORE { for b in AFTER { for n in 1..3 { desc(c, Wtf8Str::new(&format!("{a}{}{b}", w[i as usize].repeat(n))))? } } }
        c.seen(&w[i as usize]);
        Ok(())
    });
    let alpha: Vec<char> = "BCDFIJSZVL[();a/\u{1F600}".chars().collect();
    let k = alpha.len() as u64;
    let len = if c.thorough { 7u32 } else { 6 };
    c.indexed("short strings", k * k, |c, _, q| {
        for l in 0..=len {
            if l < 2 { if q < k.pow(l) { let s: String = if l == 0 { String::new() } else { alpha[q as usize].to_string() }; desc(c, Wtf8Str::new(&s))? } continue }
            for z in 0..k.pow(l - 2) { let mut s = String::new(); s.push(alpha[(q % k) as usize]); s.push(alpha[(q / k) as usize]); let mut z = z; for _ in 2..l { s.push(alpha[(z % k) as usize]); z /= k } desc(c, Wtf8Str::new(&s))? }
            c.tick();
        }
        c.seen(&q);
        Ok(())
    });
    let n = c.n(60_000, 2_000_000);
    c.cases("generated", n, |c, r| {
        let mut p = P::mixed(r);
        p.uni = r.chance(1, 2);
        p.lone = p.uni && r.chance(1, 2);
        let d = if r.chance(1, 2) { G::new(r, p).fdesc() } else { G::new(r, p).mdesc() };
        c.seen(&d);
        c.sample("descriptor", || format!("{d:?}"));
        desc(c, &w_of(&d))?;
        // damaged in one place
        for _ in 0..4 {
            let mut x = d.codepoints();
            let i = r.below(x.len());
            match r.below(6) { 0 => { x.remove(i); } 1 => x.truncate(i), 2 => x.insert(i, *r.pick(&[0x5b, 0x28, 0x29, 0x3b, 0x4c, 0x56, 0x49, 0x51, 0xd800, 0x1f600])), 3 => x[i] = cp(r), 4 => { x.push(*r.pick(&[0x3b, 0x49, 0x29, 0x56, 0x20, 0])); } _ => { let j = r.below(x.len()); x.swap(i, j) } }
            desc(c, &own(&S(cps_to_units(&x))))?;
        }
        Ok(())
    });
    c.indexed("dimensions", 600, |c, _, q| {
        for t in ["I", "La;", "V", "", "(", "[", "L", "Lx"] { let s = format!("{}{t}", "[".repeat(q as usize)); desc(c, Wtf8Str::new(&s))?; let s = format!("({}{t})V", "[".repeat(q as usize)); desc(c, Wtf8Str::new(&s))?; let s = format!("(I){}{t}", "[".repeat(q as usize)); desc(c, Wtf8Str::new(&s))?; }
        c.seen(&q);
        Ok(())
    });
    // type values, printed and parsed
    let n = c.n(60_000, 1_000_000);
    c.cases("types", n, |c, r| {
        let mut name = |r: &mut Rng| { let mut p = P::mixed(r); p.uni = r.chance(1, 2); p.lone = true; G::new(r, p).cname() };
        let t = if r.chance(1, 2) { rtype(r, &mut name, true) } else { let n = if r.chance(1, 30) { 255 } else { r.below(6) }; let parameters = (0..n).map(|_| rtype(r, &mut name, true)).collect(); let ret = if r.chance(1, 3) { None } else { Some(Box::new(rtype(r, &mut name, true))) }; Type::Method { parameters, ret } };
        let s = Wtf8String::from(&t);
        c.seen(&format!("{t:?}"));
        let want = desc_of(&t)?;
        if s.as_bytes() != &to_wtf8(&want)[..] { return Err(format!("{t:?} printed as {s:?}")) }
        match guard(|| parse_type(&s)) { Ok(Ok(x)) if x == t => {} x => return Err(format!("{t:?} printed as {s:?} and parsed as {x:?}")) }
        eq!(t.is_wide(), matches!(t, Type::Long | Type::Double), "is_wide of {t:?}");
        eq!(t.is_method(), matches!(t, Type::Method { .. }), "is_method of {t:?}");
        match (&t, t.as_method()) { (Type::Method { parameters, ret }, Some((p, q))) if p == parameters && q == ret => { if Type::method(p.clone(), q.as_ref().map(|b| (**b).clone())) != t { return Err(format!("Type::method of {t:?}")) } } (Type::Method { .. }, _) | (_, Some(_)) => return Err(format!("as_method of {t:?}")), _ => {} }
        if let Type::Ref(n) = &t { if Type::reference(n.clone()) != t { return Err(format!("Type::reference of {n:?}")) } }
        if !t.is_method() { let d = r.below(4) as u8; let (x, e) = match &t { Type::ArrayRef(n, b) if (*n as u32 + d as u32) < 256 => (Type::array(d, t.clone()), Type::ArrayRef(n + d, b.clone())), Type::ArrayRef(..) => return Ok(()), _ => (Type::array(d + 1, t.clone()), Type::ArrayRef(d + 1, Box::new(t.clone()))) }; eq!(x, e, "Type::array({d}, ..)") }
        refused(c, &t)?;
        c.inc("types_printed_and_parsed");
        Ok(())
    });
    // long ones
    let n = c.n(40, 400);
    c.cases("long", n, |c, r| {
        let k = 1 + r.below(20_000);
        let s = match r.below(5) { 0 => format!("L{};", "x/".repeat(k)), 1 => format!("({})V", "[I".repeat(k)), 2 => "(".repeat(k), 3 => format!("({}", "Lx;".repeat(k)), _ => format!("L{}", "y".repeat(k)) };
        c.seen(&s.len());
        desc(c, Wtf8Str::new(&s))
    });
    near_descs(c, 0..PLACES.len());
}

/// The places in a class file that hold a descriptor.
pub const PLACES: [&str; 19] = ["annotation type", "enum type", "class value", "nested annotation type", "type annotation", "parameter annotation", "annotation default", "field", "method", "field reference", "method reference", "interface method reference", "method type", "dynamic constant", "invokedynamic", "local variable", "enclosing method", "handle", "bootstrap argument"];
/// A class with `s` at one of them.
pub fn place(q: usize, s: &S) -> Cls {
    let mut k = crate::content::one_method(vec![I::Op(0), I::Op(177)]);
    let d: S = s.clone();
    let ann = |ty: S, v: Option<V>| Ann { ty, vals: v.into_iter().map(|v| ("v".into(), v)).collect() };
    let m = |kind| Mem { kind, owner: "a/B".into(), name: "n".into(), desc: d.clone() };
    let b = |args| Arc::new(Bsm { kind: 6, mem: Mem { kind: MK::Method, owner: "a/B".into(), name: "n".into(), desc: "()V".into() }, args });
    let insn = match q {
        0 => { k.attrs.push(A::Anns(true, vec![ann(d, None)])); None }
        1 => { k.attrs.push(A::Anns(false, vec![ann("La;".into(), Some(V::Enum(d, "X".into())))])); None }
        2 => { k.attrs.push(A::Anns(true, vec![ann("La;".into(), Some(V::Class(d)))])); None }
        3 => { k.attrs.push(A::Anns(true, vec![ann("La;".into(), Some(V::Arr(vec![V::Int(1), V::Ann(ann(d, None))])))])); None }
        4 => { k.attrs.push(A::TAnns(true, vec![TAnn { target: T::Plain(vec![0x10, 0, 0]), path: vec![], ann: ann(d, None) }])); None }
        5 => { k.methods[0].attrs.push(A::PAnns(true, vec![vec![ann(d, None)]])); None }
        6 => { k.methods[0].attrs.push(A::AnnDefault(V::Class(d))); None }
        7 => { k.fields.push(Member { access: 0, name: "f".into(), desc: d, attrs: vec![] }); None }
        8 => { k.methods[0].desc = d; None }
        9 => Some(I::Field(178, m(MK::Field))), 10 => Some(I::Invoke(184, m(MK::Method), 0)), 11 => Some(I::Invoke(185, m(MK::IMethod), 1)),
        12 => Some(I::Const(K::MType(d))), 13 => Some(I::Const(K::Dyn(Arc::new(Dyn { name: "n".into(), desc: d, bsm: b(vec![]) })))), 14 => Some(I::Indy(Arc::new(Dyn { name: "n".into(), desc: d, bsm: b(vec![]) }))),
        15 => { if let A::Code(x) = &mut k.methods[0].attrs[0] { x.lvt.push((0, 1, 0, "v".into(), d)) } None }
        16 => { k.attrs.push(A::EnclosingMethod("a/B".into(), Some(("n".into(), d)))); None }
        17 => Some(I::Const(K::Handle(6, m(MK::Method)))),
        _ => Some(I::Const(K::Dyn(Arc::new(Dyn { name: "n".into(), desc: "I".into(), bsm: b(vec![K::MType(d)]) })))),
    };
    if let (Some(i), A::Code(x)) = (insn, &mut k.methods[0].attrs[0]) {
        if let I::Indy(d) = &i { k.bsms.push(d.bsm.clone()) }
        if let I::Const(K::Dyn(d)) = &i { k.bsms.push(d.bsm.clone()) }
        k.has_bsm_attr = !k.bsms.is_empty();
        x.insns[0] = i;
    }
    k
}
pub fn in_place(c: &mut Ctx, r: &mut Rng, q: usize, s: &S) -> Res {
    let k = place(q, s);
    let o = crate::enc::Opt::random(r);
    let Ok(b) = crate::enc::encode(&k, &o, r) else { return Ok(()) };
    let d = s.codepoints();
    let void = (q == 2 || q == 6) && s.is("V");
    let mth = d.first() == Some(&('(' as u32));
    c.inc(&format!("in_{}", PLACES[q].replace(' ', "_")));
    if void || ref_type(&d, true).is_some() {
        // a method type where a field is meant, or the other way round, and odd names are not judged here
        if !void && (ref_type(&d, false).is_none() || mth != matches!(q, 8 | 10 | 11 | 12 | 14 | 16 | 17 | 18)) { c.inc("in_files_not_judged"); return Ok(()) }
        c.inc("in_files_valid");
        return pipe::bytes_pipeline(c, &k, &b, |_| {}).map_err(|e| format!("descriptor of {}: {e}", PLACES[q]));
    }
    c.inc("in_files_rejected");
    match pipe::read(&b) { Err(_) => Ok(()), Ok(m) => Err(format!("{s:?} as descriptor of {} was accepted: {}", PLACES[q], short(&m))) }
}
pub fn near_descs(c: &mut Ctx, places: std::ops::Range<usize>) {
    let alpha: Vec<char> = "BCDFIJSZVL[();a/ ".chars().collect();
    let mut list: Vec<String> = vec![String::new()];
    for a in &alpha { list.push(a.to_string()); for b in &alpha { list.push(format!("{a}{b}")); for d in ['I', 'V', ';', 'L'] { list.push(format!("{a}{b}{d}")) } } }
    for x in ["()VV", "()V;", "(I)", "(I)VI", "(V)V", "([V)V", "()[V", "(I)(I)V", "((I)V)V", "La/B", "La/B;;", "La/B;I", "[La/B", "[[", "[[V", "Vx", "VV", "V;", "void", "int", "LV;", "[LV;", "La;b;", "java/lang/String", "Q", "QFoo;", "TT;", "La<TT;>;", "()La", "(La)V", "(La;", ")V(", "I ", " I", "i", "v", "()v", "la;"] { list.push(x.into()) }
    list.push(format!("{}I", "[".repeat(255))); list.push(format!("{}I", "[".repeat(256))); list.push("[".repeat(300));
    list.sort(); list.dedup();
    c.indexed("in files", list.len() as u64, |c, r, i| {
        for q in places.clone() { c.seen(&(i, q)); in_place(c, r, q, &list[i as usize].as_str().into())? }
        Ok(())
    });
    let n = c.n(6000, 200_000);
    c.cases("damaged in files", n, |c, r| {
        let mut p = P::mixed(r);
        p.uni = r.chance(1, 2);
        let mut x = if r.chance(1, 2) { G::small(r, p).fdesc() } else { G::small(r, p).mdesc() }.codepoints();
        if r.chance(3, 4) {
            let i = r.below(x.len());
            match r.below(6) { 0 => { x.remove(i); } 1 => x.truncate(i), 2 => x.insert(i, *r.pick(&[0x5b, 0x28, 0x29, 0x3b, 0x4c, 0x56, 0x49, 0x51, 0x1f600])), 3 => x[i] = cp(r), 4 => x.push(*r.pick(&[0x3b, 0x49, 0x29, 0x56, 0x20, 0])), _ => { let j = r.below(x.len()); x.swap(i, j) } }
        }
        let s = S(cps_to_units(&x));
        c.seen(&s);
        let q = places.start + r.below(places.len());
        in_place(c, r, q, &s)
    });
}

// ---------- C11 ----------
fn verdict<T: PartialEq + std::fmt::Debug + std::fmt::Display>(c: &mut Ctx, s: &str, kind: &str, got: Result<Result<T, String>, String>, strict: Result<(T, bool), String>, loose: bool) -> Res {
    let got = got.map_err(|e| format!("parsing {kind} signature {s:?} panicked: {e}"))?;
    if let Ok(g) = &got { let p = g.to_string(); if p != s { return Err(format!("{kind} signature {s:?} printed as {p:?}")) } }
    match (strict, got) {
        (Ok((w, guessed)), Ok(g)) => { c.inc("parsed"); if w != g && !guessed { return Err(format!("{kind} signature {s:?} parsed as {g:?}, expected {w:?}")) } Ok(()) }
        (Ok((_, true)), Err(_)) => { c.inc("ambiguous"); Ok(()) }
        (Ok(_), Err(e)) => Err(format!("{kind} signature {s:?} was rejected: {e}")),
        (Err(e), Ok(g)) => if loose { c.inc("odd_names_accepted"); Ok(()) } else { Err(format!("{s:?} is no {kind} signature ({e}) but was parsed as {g:?}")) },
        (Err(_), Err(_)) => { c.inc("rejected"); Ok(()) }
    }
}
fn sigs(c: &mut Ctx, s: &str) -> Res {
    fn run<T>(s: &str, loose: bool, f: impl Fn(&mut Sp) -> Result<T, String>) -> Result<(T, bool), String> { let mut p = Sp::new(s); p.loose = loose; let t = f(&mut p)?; if p.at_end() { Ok((t, p.guessed)) } else { Err("trailing text".into()) } }
    fn lib<T: std::str::FromStr<Err = coffer::Error>>(s: &str) -> Result<Result<T, String>, String> { guard(|| s.parse::<T>().map_err(|e| format!("{e:?}"))) }
    verdict::<ClassSignature>(c, s, "class", lib(s), run(s, false, |p| p.class_sig()), run(s, true, |p| p.class_sig()).is_ok())?;
    verdict::<MethodSignature>(c, s, "method", lib(s), run(s, false, |p| p.method_sig()), run(s, true, |p| p.method_sig()).is_ok())?;
    verdict::<RefTypeSignature>(c, s, "reference", lib(s), run(s, false, |p| p.rf()), run(s, true, |p| p.rf()).is_ok())?;
    verdict::<TypeSignature>(c, s, "type", lib(s), run(s, false, |p| p.ty()), run(s, true, |p| p.ty()).is_ok())?;
    let f = guard(|| s.parse::<FieldSignature>().map(|x| x.to_string()).map_err(|e| format!("{e:?}")))?;
    match (f, run(s, false, |p| p.rf()).is_ok(), run(s, true, |p| p.rf()).is_ok()) { (Ok(x), _, true) if x == s => Ok(()), (Ok(x), _, l) => Err(format!("{s:?} as a field signature printed as {x:?} (loose {l})")), (Err(e), true, _) => Err(format!("{s:?} rejected as a field signature: {e}")), _ => Ok(()) }
}
pub fn c11(c: &mut Ctx) {
    let files = c.corpus();
    c.indexed("texts of real classes", files.len() as u64, |c, _, i| {
        let Some((_, b)) = files.get(i as usize) else { return Ok(()) };
        for t in texts(b) { sigs(c, &t)?; c.inc("real_texts") }
        c.seen(b);
        Ok(())
    });
    let w = around();
    c.indexed("known texts", w.len() as u64, |c, _, i| {
        for a in BEFORE { for b in AFTER { for n in 1..3 { sigs(c, &format!("{a}{}{b}", w[i as usize].repeat(n)))? } } }
        c.seen(&w[i as usize]);
        Ok(())
    });
    let alpha: Vec<char> = "LTIVa;<>*+.:/[()^".chars().collect();
    let k = alpha.len() as u64;
    let len = if c.thorough { 6u32 } else { 5 };
    c.indexed("short strings", k * k, |c, _, q| {
        for l in 0..=len {
            if l < 2 { if q < k.pow(l) { let s: String = if l == 0 { String::new() } else { alpha[q as usize].to_string() }; sigs(c, &s)? } continue }
            for z in 0..k.pow(l - 2) { let mut s = String::new(); s.push(alpha[(q % k) as usize]); s.push(alpha[(q / k) as usize]); let mut z = z; for _ in 2..l { s.push(alpha[(z % k) as usize]); z /= k } sigs(c, &s)? }
            c.tick();
        }
        c.seen(&q);
        Ok(())
    });
    // strings over pieces, so that short sequences are meaningful
    let pieces = ["La;", "L", "a", ";", "<", ">", "*", "+", "-", "TT;", "[", "I", "V", "(", ")", "^", ":", ".", "/", "<T:>", "b/c", "\u{e9}", "\u{1F600}"];
    let k = pieces.len() as u64;
    let n = if c.thorough { k.pow(5) } else { k.pow(4) };
    c.indexed("pieces", n / k, |c, _, q| {
        for x in 0..k { let mut z = q * k + x; let mut s = String::new(); for _ in 0..if n > k.pow(4) { 5 } else { 4 } { s += pieces[(z % k) as usize]; z /= k } sigs(c, &s)? }
        c.seen(&("pieces", q));
        Ok(())
    });
    let n = c.n(40_000, 1_500_000);
    c.cases("generated", n, |c, r| {
        let mut p = P::sigs(r);
        p.uni = r.chance(1, 2);
        let s = match r.below(3) { 0 => G::new(r, p).csig(), 1 => G::new(r, p).msig(), _ => G::new(r, p).fsig() };
        let s = s.lossy();
        c.seen(&s);
        c.sample("signature", || s.clone());
        sigs(c, &s)?;
        if let Ok(x) = s.parse::<ClassSignature>() { refused(c, &x)? }
        if let Ok(x) = s.parse::<MethodSignature>() { refused(c, &x)? }
        if let Ok(x) = s.parse::<FieldSignature>() { refused(c, &x)? }
        let ch: Vec<char> = s.chars().collect();
        if !dict().strs.is_empty() { for _ in 0..4 { let mut x = ch.clone(); let i = r.below(x.len() + 1); let w: Vec<char> = r.pick(&dict().strs).chars().collect(); x.splice(i..i, w); sigs(c, &x.iter().collect::<String>())? } }
        for _ in 0..4 {
            let mut x = ch.clone();
            let i = r.below(x.len());
            match r.below(6) { 0 => { x.remove(i); } 1 => x.truncate(i), 2 => x.insert(i, *r.pick(&alpha)), 3 => x[i] = *r.pick(&alpha), 4 => x.push(*r.pick(&alpha)), _ => { let e = (i + r.below(8)).min(x.len()); let y: Vec<char> = x[i..e].to_vec(); let j = r.below(x.len()); x.splice(j..j, y); } }
            sigs(c, &x.iter().collect::<String>())?;
        }
        Ok(())
    });
    c.indexed("dimensions and nesting", 300, |c, _, q| {
        let n = q as usize;
        for t in ["I", "La;", "TT;", "V", "", "L", "T"] { sigs(c, &format!("{}{t}", "[".repeat(n)))?; sigs(c, &format!("({}{t})V", "[".repeat(n)))?; sigs(c, &format!("La<{}{t}>;", "[".repeat(n)))? }
        if n <= 120 { for x in ["", "+", "-"] { sigs(c, &format!("{}*{}", format!("La<{x}").repeat(n), ">;".repeat(n)).replace("+*", "*").replace("-*", "*"))?; sigs(c, &format!("{}Lb;{}", format!("La<{x}").repeat(n), ">;".repeat(n)))? } }
        sigs(c, &format!("L{}x;", "p/".repeat(n)))?;
        sigs(c, &format!("La{};", ".b".repeat(n)))?;
        sigs(c, &format!("La{};", ".b<*>".repeat(n)))?;
        sigs(c, &format!("La<{}>;", "*".repeat(n)))?;
        sigs(c, &format!("<T:{}>La;", ":Lb;".repeat(n)))?;
        sigs(c, &format!("<{}>La;", "T:Lb;".repeat(n)))?;
        sigs(c, &format!("({})V{}", "I".repeat(n), "^Le;".repeat(n)))?;
        sigs(c, &format!("La;{}", "Li;".repeat(n)))?;
        c.seen(&("dim", q));
        Ok(())
    });
    // in the places of a class file
    let n = c.n(12_000, 300_000);
    c.cases("in files", n, |c, r| {
        let q = r.below(4);
        let mut p = P::sigs(r);
        p.uni = r.chance(1, 2);
        p.lone = false;
        let mut x: Vec<char> = match if r.chance(1, 6) { r.below(4) } else { q } { 0 => G::small(r, p).csig(), 2 => G::small(r, p).msig(), _ => G::small(r, p).fsig() }.lossy().chars().collect();
        if r.chance(1, 2) { let i = r.below(x.len()); match r.below(5) { 0 => { x.remove(i); } 1 => x.truncate(i), 2 => x.insert(i, *r.pick(&alpha)), 3 => x[i] = *r.pick(&alpha), _ => x.push(*r.pick(&alpha)) } }
        let s: String = x.into_iter().collect();
        c.seen(&(q, &s));
        let mut k = crate::content::one_method(vec![I::Op(0), I::Op(177)]);
        k.fields.push(Member { access: 0, name: "f".into(), desc: "I".into(), attrs: vec![] });
        let a = A::Signature(s.as_str().into());
        match q { 0 => k.attrs.push(a), 1 => k.fields[0].attrs.push(a), 2 => k.methods[0].attrs.push(a), _ => if let A::Code(y) = &mut k.methods[0].attrs[0] { y.lvtt.push((0, 1, 0, "v".into(), s.as_str().into())) } }
        let o = crate::enc::Opt::random(r);
        let Ok(b) = crate::enc::encode(&k, &o, r) else { return Ok(()) };
        let run = |loose| { let mut p = Sp::new(&s); p.loose = loose; let t = match q { 0 => p.class_sig().map(|_| ()), 2 => p.method_sig().map(|_| ()), _ => p.rf().map(|_| ()) }; (t.is_ok() && p.at_end(), p.guessed) };
        // what a text that was damaged means may be a matter of where names end
        let (strict, guessed) = run(false);
        match (strict, run(true).0) {
            (true, _) if guessed => { c.inc("in_files_not_judged"); Ok(()) }
            (true, _) => { c.inc("in_files_valid"); pipe::bytes_pipeline(c, &k, &b, pipe::p_sigs) }
            (false, false) => { c.inc("in_files_rejected"); match pipe::read(&b) { Err(_) => Ok(()), Ok(_) => Err(format!("{s:?} was accepted as signature at place {q}")) } }
            _ => { c.inc("in_files_not_judged"); Ok(()) }
        }
    });
    let n = c.n(3000, 60_000);
    pipe::random(c, "in classes", n, P::sigs, pipe::p_sigs);
    pipe::counts(c, &[P::sigs], pipe::p_sigs);
    // unpaired surrogates have no place in signatures; the class must not be read as if they were something else
    let _ = own;
}
