//! C01 (any input is handled), C02 (memory) and C16 (streams that fail).
use crate::rng::*;

fn pool_end(b: &[u8]) -> usize { if b.len() < 24 || b[..4] != [0xca, 0xfe, 0xba, 0xbe] { return 8 } std::panic::catch_unwind(|| content::scan(b).1).unwrap_or(8) }
/// Change a file in `n` places, mostly after the constant pool.
pub fn mutate(b: &[u8], r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    let behind = pool_end(b);
    let late = r.chance(3, 4);
    for _ in 0..n {
        if v.len() < 12 { v.push(r.u8()); continue }
        let at = if r.chance(1, 40) { r.below(v.len()) } else if late && behind < v.len() { behind + r.below(v.len() - behind) } else { 8 + r.below(v.len() - 8) };
        if let Some(x) = r.special(4) { let w = *r.pick(&[1usize, 1, 2, 2, 4]); let x = x.to_be_bytes(); for (i, y) in x[8 - w..].iter().enumerate() { if at + i < v.len() { v[at + i] = *y } } continue }
        if !dict().strs.is_empty() && r.chance(1, 8) { let t = r.pick(&dict().strs).clone(); let t = t.as_bytes(); for (i, y) in t.iter().enumerate() { if at + i < v.len() { v[at + i] = *y } } continue }
        match r.below(14) {
            0 | 1 => v[at] = r.u8(),
            2 => v[at] ^= 1 << r.below(8),
            3 => v[at] = v[at].wrapping_add(1),
            4 => v[at] = v[at].wrapping_sub(1),
            5 => v[at] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe]),
            6 => { let e = (at + 1 + r.below(4)).min(v.len()); for x in &mut v[at..e] { *x = 0xff } }
            7 => { let e = (at + 1 + r.below(4)).min(v.len()); for x in &mut v[at..e] { *x = 0 } }
            8 => { v.remove(at); }
            9 => v.insert(at, r.u8()),
            10 => { let e = (at + r.below(12)).min(v.len()); let x = v[at..e].to_vec(); let to = 8 + r.below(v.len() - 8); v.splice(to..to, x); }
            11 => { let e = (at + r.below(12)).min(v.len()); v.drain(at..e); }
            12 => { let e = (at + 2).min(v.len()); let from = 8 + r.below(v.len() - 9); let x: Vec<u8> = v[from..(from + e - at).min(v.len())].to_vec(); let l = x.len(); v[at..at + l].copy_from_slice(&x) }
            _ => { if r.chance(1, 3) { v.truncate(at) } else { let w = u16::from_be_bytes([v[at], *v.get(at + 1).unwrap_or(&0)]).wrapping_add(r.range(-3, 3) as u16).to_be_bytes(); v[at] = w[0]; if at + 1 < v.len() { v[at + 1] = w[1] } } }
        }
    }
    v
}

use crate::ctx::*;
use crate::gen::{G, P};
use crate::rcls::*;
use crate::text::*;
use crate::{alloc, content, enc, pipe};
use coffer::clazz::Class;
use coffer::ReadWrite;
use std::io::{self, Read, Write};
use std::sync::Arc;

fn hx(b: &[u8]) -> String { let mut s = String::new(); for x in b.iter().take(4000) { s += &format!("{x:02x}") } if b.len() > 4000 { s += "..." } s }

// ---------- C01 ----------
/// Everything that may happen to bytes from outside: read, clone, write, read, write, drop.
fn exercise(c: &mut Ctx, b: &[u8]) -> Res {
    let fail = |what: &str, e: String| format!("{what}: {e}\ninput ({} bytes): {}", b.len(), hx(b));
    let m = match guard(|| Class::read_from(&mut &b[..])).map_err(|e| fail("reading", e))? { Ok(m) => m, Err(e) => { c.inc("rejected"); kind_of(c, &e); return guard(|| { let _ = (e.to_string(), format!("{e:?}")); }).map_err(|e| fail("showing the error", e)) } };
    c.inc("accepted");
    let m2 = guard(|| m.clone()).map_err(|e| fail("cloning", e))?;
    let w = match guard(|| { let mut w = vec![]; m2.write_to(&mut w).map(|_| w) }).map_err(|e| fail("writing back", e))? { Ok(w) => w, Err(_) => { c.inc("not_rewritten"); return guard(|| drop((m, m2))).map_err(|e| fail("dropping", e)) } };
    c.inc("rewritten");
    if let Ok(m3) = guard(|| Class::read_from(&mut &w[..])).map_err(|e| fail("reading what was written", e))? { let _ = guard(|| m3.write_to(&mut vec![])).map_err(|e| fail("writing again", e))?; c.inc("read_again") }
    guard(|| drop((m, m2))).map_err(|e| fail("dropping", e))
}
fn kind_of(c: &mut Ctx, e: &coffer::Error) {
    use coffer::error::ErrorBase::*;
    match e { IO(_) => c.inc("error_io"), Invalid(w, _) => { let k = format!("error_invalid_{}", w.replace(' ', "_")); if c.stats.len() < 200 { c.inc(&k) } } Mutf(_) => c.inc("error_mutf"), AttributeLength(..) => c.inc("error_attribute_length"), _ => c.inc("error_other") }
}
const KNOWN: [&str; 31] = ["Code", "Signature", "Synthetic", "Deprecated", "SourceFile", "InnerClasses", "EnclosingMethod", "SourceDebugExtension", "BootstrapMethods", "Module", "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations", "AnnotationDefault", "ConstantValue", "Exceptions", "MethodParameters", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable", "Record", "PermittedSubclasses", "Unknown"];
fn body(r: &mut Rng, n: usize) -> Vec<u8> { (0..r.below(n)).map(|_| match r.below(6) { 0 => 0, 1 => 1, 2 => r.below(12) as u8, 3 => r.below(60) as u8, 4 => *r.pick(&[0xff, 0x80, 0x7f, b'@', b'[', b's', b'e', b'c', b'I', 0x40, 0x47, 0x4b, 0x13, 0xaa, 0xab, 0xc4]), _ => r.u8() }).collect() }
fn random_class(r: &mut Rng) -> Cls { let p = match r.below(7) { 0 => P::code(r), 1 => P::debug(r), 2 => P::anns(r), 3 => P::dynamic(r), 4 => P::meta(r), 5 => P::sigs(r), _ => P::mixed(r) }; G::new(r, p).class() }
fn bytes_of(k: &Cls, r: &mut Rng) -> Option<Vec<u8>> { let o = enc::Opt::random(r); enc::encode(k, &o, r).ok() }
/// attribute bodies replaced by noise, under names the library knows
fn noisy(r: &mut Rng, k: &mut Cls) {
    let mut noise = |v: &mut Vec<A>, r: &mut Rng| {
        for a in v.iter_mut() { if r.chance(1, 6) && !matches!(a, A::Code(_)) { *a = A::Raw((*r.pick(&KNOWN)).into(), body(r, 60)) } }
        if r.chance(1, 3) { v.push(A::Raw((*r.pick(&KNOWN)).into(), body(r, 80))) }
    };
    noise(&mut k.attrs, r);
    for m in k.fields.iter_mut().chain(k.methods.iter_mut()) {
        noise(&mut m.attrs, r);
        for a in m.attrs.iter_mut() { if let A::Code(c) = a { noise(&mut c.attrs, r) } }
        if r.chance(1, 3) {
            // a Code attribute of raw bytes
            let mut b = vec![0, 2, 0, 2];
            let code: Vec<u8> = (0..r.below(60)).map(|_| if r.chance(1, 3) { *r.pick(&[0xaa, 0xab, 0xc4, 0xc8, 0xc9, 0xa7, 0xa8, 0x99, 0xba, 0xb9, 0xc5, 0xbc, 0x12, 0x13, 0x14, 0, 0, 0, 0, 1, 0xff]) } else { r.u8() }).collect();
            b.extend((code.len() as u32).to_be_bytes());
            b.extend(&code);
            let n = r.below(4);
            b.extend((n as u16).to_be_bytes());
            for _ in 0..n { for _ in 0..4 { b.extend((r.below(code.len() + 3) as u16).to_be_bytes()) } }
            let n = r.below(3);
            b.extend((n as u16).to_be_bytes());
            for _ in 0..n { b.extend((r.below(40) as u16).to_be_bytes()); let x = body(r, 40); b.extend((x.len() as u32).to_be_bytes()); b.extend(x) }
            m.attrs.push(A::Raw("Code".into(), b));
        }
    }
}
/// Inputs meant to exhaust the stack or the time.
fn bombs() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let plain = |k: &Cls| enc::encode(k, &enc::Opt::plain(), &mut Rng::new(1));
    let empty = Cls { minor: 0, major: 52, access: 0x21, this: "T".into(), sup: Some("java/lang/Object".into()), ifaces: vec![], fields: vec![], methods: vec![], attrs: vec![], bsms: vec![], has_bsm_attr: false };
    let field = |d: &str, a: Vec<A>| { let mut k = empty.clone(); k.fields.push(Member { access: 0, name: "f".into(), desc: d.into(), attrs: a }); k };
    // text
    for (what, t) in hostile() {
        if t.len() > 65000 { continue }
        let s = S::from(&t[..]);
        for place in 0..4 {
            let mut k = empty.clone();
            match place { 0 => k = field(&t, vec![]), 1 => k.attrs.push(A::Signature(s.clone())), 2 => k.methods.push(Member { access: 0x400, name: "m".into(), desc: "()V".into(), attrs: vec![A::Signature(s.clone())] }), _ => k = field("I", vec![A::Signature(s.clone())]) }
            if let Ok(b) = plain(&k) { v.push((format!("{what} at place {place}"), b)) }
        }
        let mut k = content::one_method(vec![I::Op(1), I::Cast(192, s.clone()), I::Cast(193, s.clone()), I::Op(87), I::Op(177)]);
        k.attrs.push(A::SourceFile(s.clone()));
        if let Ok(b) = plain(&k) { v.push((format!("{what} as class"), b)) }
        let k = content::one_method(vec![I::Const(K::MType(s.clone())), I::Op(177)]);
        if let Ok(b) = plain(&k) { v.push((format!("{what} as method type"), b)) }
    }
    // annotations: pool 1 this 2 super come first in a plain encoding, so take any index with noise bodies below
    for depth in [100usize, 127, 128, 129, 1000, 20_000, 60_000] {
        for shape in 0..3 {
            // names are patched in: the class has "LA;" and "n" as constants
            let mut k = field("LA;", vec![]);
            k.attrs.push(A::SourceFile("n".into()));
            k.attrs.push(A::Raw("RuntimeVisibleAnnotations".into(), vec![0xAB; 8]));
            k.attrs.push(A::Raw("AnnotationDefault".into(), vec![]));
            let Ok(b) = plain(&k) else { continue };
            let (pool, _) = content::scan(&b);
            let find = |t: &[u8]| pool.iter().enumerate().find(|(_, (tag, at))| *tag == 1 && b[*at + 2..].starts_with(t) && b[*at + 1] as usize == t.len()).map(|(i, _)| i as u16);
            let (Some(ty), Some(nm)) = (find(b"LA;"), find(b"n")) else { continue };
            let mut body = vec![0, 1];
            body.extend(ty.to_be_bytes());
            body.extend([0, 1]);
            body.extend(nm.to_be_bytes());
            for i in 0..depth { if shape == 0 || shape == 2 && i % 2 == 0 { body.extend([b'[', 0, 1]) } else { body.push(b'@'); body.extend(ty.to_be_bytes()); body.extend([0, 1]); body.extend(nm.to_be_bytes()) } }
            body.extend([b'[', 0, 0]);
            k.attrs[1] = A::Raw("RuntimeVisibleAnnotations".into(), body.clone());
            if let Ok(b) = plain(&k) { v.push((format!("annotations nested {depth} deep, shape {shape}"), b)) }
            k.methods.push(Member { access: 0x400, name: "n".into(), desc: "()I".into(), attrs: vec![A::Raw("AnnotationDefault".into(), body[8..].to_vec())] });
            k.attrs.remove(1);
            if let Ok(b) = plain(&k) { v.push((format!("annotation default nested {depth} deep, shape {shape}"), b)) }
        }
    }
    // bootstrap methods
    let bm = |i: usize, args: Vec<K>| Arc::new(Bsm { kind: 6, mem: Mem { kind: MK::Method, owner: "b/M".into(), name: format!("b{i}").as_str().into(), desc: "()Ljava/lang/Object;".into() }, args });
    for (what, n, width) in [("chain", 200usize, 1usize), ("chain", 300, 1), ("chain", 1500, 1), ("doubling", 60, 2), ("doubling", 250, 2), ("wide doubling", 40, 30), ("doubling", 1200, 3)] {
        let mut bsms: Vec<Arc<Bsm>> = vec![bm(0, vec![])];
        for i in 1..n { let d = Arc::new(Dyn { name: "d".into(), desc: "I".into(), bsm: bsms[i - 1].clone() }); bsms.push(bm(i, vec![K::Dyn(d); width])) }
        for top in [n - 1, n / 2] {
            // encoding a deep chain through the reference encoder hashes it recursively; build the file by hand
            v.push((format!("{what} of {n} bootstrap methods, {width} arguments, using {top}"), bsm_file(n, width, top)));
        }
        // drop iteratively
        while let Some(b) = bsms.pop() { drop(b) }
    }
    for (n, before, after) in [(40usize, 1usize, 0usize), (250, 0, 1), (1500, 1, 0), (1500, 0, 1), (1500, 2, 3), (9000, 1, 0), (9000, 0, 1), (9000, 1, 1), (30_000, 1, 1)] {
        for width in [1usize, 2] { for top in [n - 1, n / 2] { v.push((format!("chain of {n} bootstrap methods with leaves, {before} before and {after} after {width}, using {top}"), bsm_leaves(n, width, top, before, after))) } }
    }
    for n in [1usize, 2, 5, 300] { let mut b = bsm_file(n, 1, n - 1); cyc(&mut b, n); v.push((format!("cycle of {n} bootstrap methods"), b)) }
    // code
    let nops = |n: usize, tail: Vec<u8>| { let mut c = vec![0u8; n]; c.extend(tail); c };
    let many = |c: Vec<u8>, handlers: usize, copies: usize| {
        let mut b = vec![0, 2, 0, 2];
        b.extend((c.len() as u32).to_be_bytes());
        b.extend(&c);
        b.extend((handlers as u16).to_be_bytes());
        for i in 0..handlers { let x = i % c.len().max(1); b.extend((x as u16).to_be_bytes()); b.extend((c.len() as u16).to_be_bytes()); b.extend((x as u16).to_be_bytes()); b.extend([0, 0]) }
        b.extend([0, 0]);
        let mut k = empty.clone();
        for i in 0..copies { k.methods.push(Member { access: 9, name: format!("m{i}").as_str().into(), desc: "()V".into(), attrs: vec![A::Raw("Code".into(), b.clone())] }) }
        plain(&k)
    };
    let code = |c: Vec<u8>, handlers: usize| many(c, handlers, 1);
    let mut gotos = vec![];
    for i in 0..21_800i32 { gotos.push(0xa7); let to = (i * 7919) % 21_800 * 3; gotos.extend((((to - i * 3).clamp(-32768, 32767) / 3 * 3) as i16).to_be_bytes()) }
    let mut ifs = vec![];
    for i in 0..10_000i32 { ifs.push(0x99); ifs.extend((if i < 5000 { 29_997i16 } else { -14_997 }).to_be_bytes()) }
    ifs.push(0xb1);
    let mut sw = vec![0xaa, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x3f, 0xf0];
    for _ in 0..=0x3ff0 { sw.extend([0, 0, 0, 0]) }
    let mut lsw = vec![0xab, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x1f, 0xf0];
    for i in 0..0x1ff0u32 { lsw.extend(i.to_be_bytes()); lsw.extend([0, 0, 0, 0]) }
    let mut sws = vec![];
    while sws.len() < 65_400 { let at = sws.len(); sws.push(0xaa); while sws.len() % 4 != 0 { sws.push(0) } for x in [-(at as i32), 0, 3] { sws.extend(i32::to_be_bytes(x)) } for _ in 0..4 { sws.extend((-(at as i32)).to_be_bytes()) } }
    let hi = |lo: i32, hi: i32| { let mut b = vec![0xaa, 0, 0, 0, 0, 0, 0, 0]; b.extend(lo.to_be_bytes()); b.extend(hi.to_be_bytes()); b.extend([0; 16]); b };
    for (w, c, h) in [("65535 nops", nops(65535, vec![]), 0usize), ("code of 65536", nops(65536, vec![]), 0), ("gotos everywhere", gotos, 0), ("far conditions", ifs, 0), ("big tableswitch", sw, 0), ("big lookupswitch", lsw, 0), ("many switches", sws, 0), ("many handlers", nops(65535, vec![]), 65535), ("handlers without code", vec![], 3), ("switch to the end of the range", hi(i32::MAX - 1, i32::MAX), 0), ("switch over everything", hi(i32::MIN, i32::MAX), 0), ("switch reversed", hi(5, 4), 0), ("switch reversed far", hi(i32::MAX, i32::MIN), 0), ("lookup of negative count", vec![0xab, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff], 0), ("lookup of huge count", vec![0xab, 0, 0, 0, 0, 0, 0, 0, 0x7f, 0xff, 0xff, 0xff], 0), ("wide at the end", vec![0xc4], 0), ("switch at the end", vec![0, 0xaa], 0), ("jump out", vec![0xa7, 0x7f, 0xff], 0), ("jump before", vec![0xa7, 0x80, 0], 0), ("far jump out", vec![0xc8, 0x7f, 0xff, 0xff, 0xff], 0), ("far jump before", vec![0xc8, 0x80, 0, 0, 0], 0)] {
        if c.len() > 20_000 && h == 0 { if let Ok(b) = many(c.clone(), h, 12) { v.push((format!("{w}, twelve times"), b)) } }
        if let Ok(b) = code(c, h) { v.push((w.to_string(), b)) }
    }
    // as many of everything as there can be, to see what is not done in linear time
    let nm = |i: usize| S::from(format!("n{i}").as_str());
    let full: Vec<(&str, Box<dyn Fn(&mut Cls, usize)>)> = vec![
        ("interfaces", Box::new(move |k, n| k.ifaces = (0..n).map(nm).collect())),
        ("equal interfaces", Box::new(move |k, n| k.ifaces = (0..n).map(|_| nm(0)).collect())),
        ("fields", Box::new(move |k, n| k.fields = (0..n).map(|i| Member { access: 9, name: nm(i), desc: "I".into(), attrs: vec![A::ConstantValue(K::Int(i as i32))] }).collect())),
        ("equal fields", Box::new(move |k, n| k.fields = (0..n).map(|_| Member { access: 9, name: nm(0), desc: "I".into(), attrs: vec![] }).collect())),
        ("methods", Box::new(move |k, n| k.methods = (0..n).map(|i| Member { access: 0x400, name: nm(i), desc: "()V".into(), attrs: vec![] }).collect())),
        ("attributes", Box::new(move |k, n| k.attrs = (0..n).map(|i| A::Raw(S::from(format!("x{i}").as_str()), vec![i as u8])).collect())),
        ("equal attributes", Box::new(move |k, n| k.attrs = (0..n).map(|_| A::Raw("x".into(), vec![1])).collect())),
        ("inner classes", Box::new(move |k, n| k.attrs.push(A::InnerClasses((0..n).map(|i| (nm(i), None, None, 0)).collect())))),
        ("nest members", Box::new(move |k, n| k.attrs.push(A::NestMembers((0..n).map(nm).collect())))),
        ("strings loaded", Box::new(move |k, n| *k = content::one_method((0..n.min(21_000)).map(|i| I::Const(K::Str(nm(i)))).chain([I::Op(177)]).collect()))),
        ("members used", Box::new(move |k, n| *k = content::one_method((0..n.min(16_000)).map(|i| I::Field(178, Mem { kind: MK::Field, owner: "o".into(), name: nm(i), desc: "I".into() })).chain([I::Op(177)]).collect()))),
        ("call sites of one method", Box::new(move |k, n| { let b = Arc::new(Bsm { kind: 6, mem: Mem { kind: MK::Method, owner: "b/M".into(), name: "b".into(), desc: "()Ljava/lang/Object;".into() }, args: vec![] }); *k = content::one_method((0..n.min(13_000)).map(|i| I::Const(K::Dyn(Arc::new(Dyn { name: nm(i), desc: "I".into(), bsm: b.clone() })))).chain([I::Op(177)]).collect()) })),
        ("call sites of as many methods", Box::new(move |k, n| *k = content::one_method((0..n.min(10_000)).map(|i| I::Const(K::Dyn(Arc::new(Dyn { name: "d".into(), desc: "I".into(), bsm: Arc::new(Bsm { kind: 6, mem: Mem { kind: MK::Method, owner: "b/M".into(), name: nm(i), desc: "()Ljava/lang/Object;".into() }, args: vec![K::Int(i as i32)] }) })))).chain([I::Op(177)]).collect()))),
    ];
    for (w, f) in full { for n in [6_000usize, 16_000, 30_000] { let mut k = empty.clone(); f(&mut k, n); if let Ok(b) = plain(&k) { v.push((format!("{n} {w}"), b)) } } }
    // tables of line numbers and variables of the longest kind
    for (name, per) in [("LineNumberTable", 4usize), ("LocalVariableTable", 10), ("LocalVariableTypeTable", 10), ("StackMapTable", 1)] {
        let mut t = vec![0xff, 0xff];
        for i in 0..65535usize { t.extend(match name { "LineNumberTable" => vec![0, (i % 3) as u8, (i >> 8) as u8, i as u8], "StackMapTable" => vec![0], _ => vec![0, 0, 0, 1, 0, 1, 0, 1, 0, 0] }) }
        let _ = per;
        let mut b = vec![0, 2, 0, 2, 0, 0, 0, 3, 0, 0, 0xb1, 0, 0, 0, 1];
        let mut k = empty.clone();
        k.attrs.push(A::SourceFile(name.into()));
        let Ok(f) = plain(&k) else { continue };
        let (pool, _) = content::scan(&f);
        let Some(ni) = pool.iter().position(|(tag, at)| *tag == 1 && f[*at + 2..].starts_with(name.as_bytes()) && f[*at + 1] as usize == name.len()) else { continue };
        b.extend((ni as u16).to_be_bytes());
        b.extend((t.len() as u32).to_be_bytes());
        b.extend(&t);
        k.methods.push(Member { access: 9, name: "m".into(), desc: "()V".into(), attrs: vec![A::Raw("Code".into(), b)] });
        if let Ok(b) = plain(&k) { v.push((format!("full {name}"), b)) }
    }
    v
}
/// n bootstrap methods, each with `width` times the dynamic constant of the one before; the code loads that of `top`
fn bsm_file(n: usize, width: usize, top: usize) -> Vec<u8> { bsm_leaves(n, width, top, 0, 0) }
/// ... and has `before` and `after` it integers of its own
fn bsm_leaves(n: usize, width: usize, top: usize, before: usize, after: usize) -> Vec<u8> {
    let mut pool: Vec<Vec<u8>> = vec![];
    let utf = |s: &str| { let mut v = vec![1]; v.extend((s.len() as u16).to_be_bytes()); v.extend(s.as_bytes()); v };
    for s in ["T", "java/lang/Object", "b", "()Ljava/lang/Object;", "d", "I", "Code", "BootstrapMethods", "m", "()V"] { pool.push(utf(s)) } // 1..=10
    pool.push(vec![7, 0, 1]); // 11
    pool.push(vec![7, 0, 2]); // 12
    pool.push(vec![12, 0, 3, 0, 4]); // 13
    pool.push(vec![10, 0, 11, 0, 13]); // 14
    pool.push(vec![15, 6, 0, 14]); // 15
    pool.push(vec![12, 0, 5, 0, 6]); // 16
    for i in 0..n { let mut e = vec![17]; e.extend((i as u16).to_be_bytes()); e.extend([0, 16]); pool.push(e) } // 17 + i
    for i in 0..if before + after > 0 { n } else { 0 } { let mut e = vec![3]; e.extend((i as u32).to_be_bytes()); pool.push(e) } // 17 + n + i
    let mut b = vec![0xca, 0xfe, 0xba, 0xbe, 0, 0, 0, 55];
    b.extend((pool.len() as u16 + 1).to_be_bytes());
    for e in pool { b.extend(e) }
    b.extend([0, 0x21, 0, 11, 0, 12, 0, 0, 0, 0, 0, 1]);
    b.extend([0, 9, 0, 9, 0, 10, 0, 1, 0, 7, 0, 0, 0, 16, 0, 1, 0, 1, 0, 0, 0, 4, 0x13]);
    b.extend((17 + top as u16).to_be_bytes());
    b.extend([0xb1, 0, 0, 0, 0]);
    b.extend([0, 1, 0, 8]);
    let mut t = (n as u16).to_be_bytes().to_vec();
    for i in 0..n {
        t.extend([0, 15]);
        let w = if i == 0 { 0 } else { width };
        t.extend(((w + before + after) as u16).to_be_bytes());
        let leaf = (17 + n as u16 + i as u16).to_be_bytes();
        for _ in 0..before { t.extend(leaf) }
        for _ in 0..w { t.extend((16 + i as u16).to_be_bytes()) }
        for _ in 0..after { t.extend(leaf) }
    }
    b.extend((t.len() as u32).to_be_bytes());
    b.extend(t);
    b
}
/// make the first bootstrap method use the last
fn cyc(b: &mut Vec<u8>, n: usize) {
    let t: usize = 2 + 4 * n + 2 * (n - 1);
    let at = b.len() - t;
    let l = (t + 2) as u32;
    b[at - 4..at].copy_from_slice(&l.to_be_bytes());
    b[at + 5] = 1;
    let x = (17 + n as u16 - 1).to_be_bytes();
    b.splice(at + 6..at + 6, x);
}
/// Texts meant to exhaust the parsers.
fn hostile() -> Vec<(String, String)> {
    let mut v = vec![];
    for n in [1usize, 127, 128, 129, 254, 255, 256, 257, 1000, 30_000, 65_000, 300_000] {
        for (w, a, b, z) in [("brackets", "[", "", "I"), ("brackets without end", "[", "", ""), ("brackets to a class", "[", "", "La;"), ("parentheses", "(", ")", "V"), ("open parentheses", "(", "", ""), ("angles", "La<", ">;", "*"), ("open angles", "La<", "", ""), ("angles and brackets", "La<[", ">;", "I"), ("parameters", "<T:", "", "La;"), ("wildcards", "La<+", ">;", "TT;"), ("inner classes", "La;", "", ""), ("dots", ".a", "", ";"), ("colons", ":", "", ";"), ("carets", "()V^La;", "", ""), ("parameters of methods", "(I", ")V", ""), ("method in method", "(", ")V", "I"), ("slashes", "a/", "", ";"), ("L", "L", "", ""), ("letters", "I", "", ""), ("stars", "*", "", ""), ("less", "<", "", ""), ("greater", ">", "", "")] {
            let mut t = a.repeat(n);
            t += z;
            t += &b.repeat(n);
            v.push((format!("{w} x{n}"), t));
        }
        v.push((format!("class with {n} dots"), format!("Lx{};", ".a".repeat(n))));
        v.push((format!("class with {n} arguments"), format!("Lx<{}>;", "TT;".repeat(n))));
        v.push((format!("{n} type parameters"), format!("<{}>Lx;", "T:La;".repeat(n))));
        v.push((format!("{n} bounds"), format!("<T{}>Lx;", ":La;".repeat(n))));
        v.push((format!("{n} letters"), format!("L{};", "a".repeat(n))));
    }
    v
}
fn parse_all(c: &mut Ctx, t: &str) -> Res {
    use coffer::prelude::{ClassSignature, FieldSignature, MethodSignature};
    let w = wtf_8::Wtf8String::from(t.to_string());
    let sh = |e: String, k: &str| format!("{k} parser on {:?}... ({} bytes): {e}", t.chars().take(60).collect::<String>(), t.len());
    if let Ok(x) = guard(|| coffer::ty::parse_type(&w)).map_err(|e| sh(e, "descriptor"))? { guard(|| { let _ = x.to_string(); drop(x) }).map_err(|e| sh(e, "printing after the descriptor"))?; c.inc("parsed") }
    macro_rules! sig { ($t:ty, $n:expr) => { if let Ok(x) = guard(|| t.parse::<$t>()).map_err(|e| sh(e, $n))? { guard(|| { let _ = x.to_string(); drop(x.clone()) }).map_err(|e| sh(e, $n))?; c.inc("parsed") } } }
    sig!(ClassSignature, "class signature");
    sig!(MethodSignature, "method signature");
    sig!(FieldSignature, "field signature");
    c.inc("texts_parsed");
    Ok(())
}
pub fn c01(c: &mut Ctx) {
    set_limit(20);
    let san = c.part() == "asan";
    let n = if san { 6000 } else { c.n(30_000, 1_500_000) };
    c.cases("mutants", n, |c, r| {
        let k = random_class(r);
        let Some(b) = bytes_of(&k, r) else { return Ok(()) };
        for _ in 0..6 { let n = 1 + r.below(6); let m = mutate(&b, r, n); c.seen(&m); exercise(c, &m)? }
        Ok(())
    });
    let n = if san { 4000 } else { c.n(30_000, 1_500_000) };
    c.cases("noise in attributes", n, |c, r| {
        let mut k = random_class(r);
        noisy(r, &mut k);
        let Some(b) = bytes_of(&k, r) else { return Ok(()) };
        c.seen(&b);
        c.sample("noise", || hx(&b[..b.len().min(300)]));
        exercise(c, &b)?;
        for _ in 0..3 { let n = 1 + r.below(3); let m = mutate(&b, r, n); exercise(c, &m)? }
        Ok(())
    });
    let n = if san { 2000 } else { c.n(40_000, 3_000_000) };
    c.cases("random bytes", n, |c, r| {
        let mut b = vec![];
        match r.below(4) {
            0 => for _ in 0..r.below(300) { b.push(r.u8()) },
            1 => { b.extend([0xca, 0xfe, 0xba, 0xbe, 0, 0, 0, 52]); for _ in 0..r.below(400) { b.push(r.u8()) } }
            2 => { b.extend([0xca, 0xfe, 0xba, 0xbe, 0, 0, 0, 52]); b.extend(body(r, 400)) }
            _ => {
                // a sound pool and noise after it
                let k = random_class(r);
                let Some(f) = bytes_of(&k, r) else { return Ok(()) };
                let (_, end) = content::scan(&f);
                b.extend(&f[..end.min(f.len())]);
                let x = body(r, 300);
                b.extend([0, 0x21]);
                b.extend(x);
            }
        }
        c.seen(&b);
        exercise(c, &b)
    });
    let n = if san { 60 } else { c.n(400, 20_000) };
    c.cases("cut anywhere", n, |c, r| {
        let k = random_class(r);
        let Some(b) = bytes_of(&k, r) else { return Ok(()) };
        for i in (0..b.len()).step_by(1 + b.len() / 400) { exercise(c, &b[..i])? }
        c.seen(&b);
        Ok(())
    });
    let n = if san { 16 } else { c.n(88, 20_000) };
    c.indexed("every byte of small classes", n, |c, r, q| {
        let k = small_class(r, q);
        let Ok(b) = enc::encode(&k, &enc::Opt { junk: false, undef_flags: false, shuffle: r.chance(1, 2), frames: q % 3 == 0, split: false }, r) else { return Ok(()) };
        if b.len() > 3000 { c.inc("skipped_big"); return Ok(()) }
        c.seen(&b);
        let pool = content::scan(&b).0.len() as u16;
        for i in 6..b.len() {
            let w = u16::from_be_bytes([b[i], *b.get(i + 1).unwrap_or(&0)]);
            for x in [0u16, 1, pool, pool.wrapping_sub(1), w.wrapping_add(1), w.wrapping_sub(1), 0x7fff, 0x8000, 0xffff, r.below(pool as usize + 1) as u16] {
                let mut m = b.clone();
                let y = x.to_be_bytes();
                m[i] = y[0];
                if i + 1 < m.len() { m[i + 1] = y[1] }
                exercise(c, &m)?;
            }
            for x in [0, 0x7fff_ffffu32, 0x8000_0000, 0xffff_ffff, 0xffff_fffe] { let mut m = b.clone(); for (j, y) in x.to_be_bytes().into_iter().enumerate() { if i + j < m.len() { m[i + j] = y } } exercise(c, &m)?; }
            for x in [b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ 0x80, r.u8()] { let mut m = b.clone(); m[i] = x; exercise(c, &m)?; }
            c.tick();
        }
        Ok(())
    });
    let bs = bombs();
    c.indexed("bombs", bs.len() as u64, |c, _, i| {
        let Some((what, b)) = bs.get(i as usize) else { return Ok(()) };
        c.seen(what);
        c.inc("bombs");
        let t = cpu();
        let before = c.stats.get("accepted").copied().unwrap_or(0);
        exercise(c, b).map_err(|e| format!("{what}: {}", &e[..e.len().min(1500)]))?;
        if c.stats.get("accepted").copied().unwrap_or(0) > before { c.inc("bombs_accepted"); if what.starts_with("annot") { c.inc("annotation_bombs_accepted") } }
        let t = cpu() - t;
        c.max("bomb_ms", (t * 1000.) as u64);
        if t > 15. && !san { return Err(format!("{what} ({} bytes) took {t:.1} s of CPU time to read and write", b.len())) }
        Ok(())
    });
    let ts = hostile();
    c.indexed("hostile texts", ts.len() as u64, |c, _, i| { let Some((w, t)) = ts.get(i as usize) else { return Ok(()) }; c.seen(w); parse_all(c, t) });
    let n = if san { 20_000 } else { c.n(200_000, 10_000_000) };
    c.cases("random texts", n, |c, r| {
        let t: String = if r.chance(1, 2) { (0..r.below(30)).map(|_| *r.pick(&['[', '(', ')', '<', '>', ';', ':', '^', '*', '+', '-', '.', '/', 'L', 'T', 'I', 'J', 'V', 'a', 'b', '\u{e9}', '\u{1f600}', '\0'])).collect() } else {
            let p = P::sigs(r); let mut g = G::new(r, p);
            let s = match g.r.below(5) { 0 => g.csig(), 1 => g.msig(), 2 => g.fsig(), 3 => g.fdesc(), _ => g.mdesc() };
            let mut v: Vec<char> = s.lossy().chars().collect();
            for _ in 0..r.below(4) { if v.is_empty() { break } let i = r.below(v.len()); match r.below(4) { 0 => { v.remove(i); } 1 => v.insert(i, *r.pick(&['<', '>', ';', '[', ':', '.', '(', ')', '^', '*', 'L', 'T', '/'])), 2 => v.truncate(i), _ => v[i] = *r.pick(&['<', '>', ';', '[', ':', '.', 'L', 'T', '^', '+']) } }
            v.into_iter().collect()
        };
        c.seen(&t);
        parse_all(c, &t)?;
        let raw: Vec<u8> = if r.chance(1, 2) { t.bytes().collect() } else { (0..r.below(12)).map(|_| *r.pick(&[0u8, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xa0, 0xb0, 0xef, 0xf0, 0xf4, 0xff])).collect() };
        guard(|| coffer::mod_utf8::modified_utf8_to_string(&raw).map(|s| coffer::mod_utf8::string_to_modified_utf8(&s))).map_err(|e| format!("modified UTF-8 of {}: {e}", hx(&raw)))?.ok();
        Ok(())
    });
    let files = c.corpus();
    c.indexed("real classes", files.len() as u64, |c, r, i| {
        let Some((_, b)) = files.get(i as usize) else { return Ok(()) };
        exercise(c, b)?;
        for _ in 0..4 { let n = 1 + r.below(8); let m = mutate(b, r, n); exercise(c, &m)? }
        c.seen(b);
        Ok(())
    });
}

// ---------- C02 ----------
const MUL: usize = 1024;
const ADD: usize = 160 << 10;
fn mem_case(c: &mut Ctx, what: &str, b: &[u8]) -> Res {
    let (r, peak, big, _) = alloc::measure(|| guard(|| Class::read_from(&mut &b[..]).is_ok()));
    alloc::off();
    c.inc(match r { Ok(true) => "accepted", _ => "rejected" });
    c.max("peak", peak as u64);
    c.max("largest_request", big as u64);
    c.max("permille_of_limit", (peak * 1000 / (b.len() * MUL + ADD)) as u64);
    if b.len() > 4096 { c.max("bytes_per_input_byte", (peak / b.len()) as u64) } else { c.max("peak_small_inputs", peak as u64) }
    if peak > b.len() * MUL + ADD { return Err(format!("reading {} bytes took {peak} bytes of memory (largest request {big}): {what}\ninput: {}", b.len(), hx(b))) }
    Ok(())
}
/// short names only, everything the format has
fn small_class(r: &mut Rng, which: u64) -> Cls {
    let p = match which % 7 { 0 => P { insns: 12, methods: 1, ..P::code(r) }, 1 => P { insns: 8, methods: 1, ..P::debug(r) }, 2 => P { fields: 1, methods: 1, insns: 4, anns: 2, ..P::anns(r) }, 3 => P { bsms: 3, insns: 6, methods: 1, ..P::dynamic(r) }, 4 => P { meta: 2, fields: 0, methods: 1, insns: 2, ..P::meta(r) }, 5 => P { fields: 1, methods: 1, ..P::sigs(r) }, _ => P { fields: 1, methods: 1, insns: 6, ..P::mixed(r) } };
    G::small(r, p).class()
}
pub fn c02(c: &mut Ctx) {
    let n = c.n(1500, 60_000);
    c.indexed("every field of small classes", n, |c, r, q| {
        let k = small_class(r, q);
        let Ok(b) = enc::encode(&k, &enc::Opt { junk: false, undef_flags: false, shuffle: r.chance(1, 2), frames: q % 3 == 0, split: false }, r) else { return Ok(()) };
        if b.len() > 4000 { c.inc("skipped_big"); return Ok(()) }
        c.seen(&b);
        mem_case(c, "unchanged", &b)?;
        for i in 4..b.len() {
            for w in 0..3 {
                let mut m = b.clone();
                match w { 0 => { for x in m.iter_mut().skip(i).take(2) { *x = 0xff } } 1 => { for x in m.iter_mut().skip(i).take(4) { *x = 0xff } if i + 4 <= m.len() && r.chance(1, 2) { m[i] = 0x7f } } _ => { m[i] = r.u8(); if r.chance(1, 2) { m.truncate(i + 1 + r.below(8)) } } }
                mem_case(c, &format!("bytes changed at {i}"), &m)?;
            }
        }
        c.tick();
        Ok(())
    });
    // declared and absent
    c.indexed("cut after the count", 64, |c, r, q| {
        for _ in 0..40 {
            let k = small_class(r, q);
            let Ok(b) = enc::encode(&k, &enc::Opt::plain(), r) else { continue };
            for _ in 0..60 { let i = 8 + r.below(b.len() - 8); let mut m = b[..i].to_vec(); m.extend(match r.below(4) { 0 => vec![0xff, 0xff], 1 => vec![0xff, 0xff, 0xff, 0xff], 2 => vec![0x7f, 0xff, 0xff, 0xff], _ => vec![0, 0xff, 0xff, 0xff] }); mem_case(c, &format!("cut at {i}"), &m)? }
        }
        Ok(())
    });
    let n = c.n(4000, 400_000);
    c.cases("mutants", n, |c, r| {
        let q = r.u64();
        let k = small_class(r, q);
        let Some(b) = bytes_of(&k, r) else { return Ok(()) };
        for _ in 0..8 { let n = 1 + r.below(5); let m = mutate(&b, r, n); mem_case(c, "mutant", &m)? }
        c.seen(&b);
        Ok(())
    });
    // many references to one thing that is big
    c.indexed("references to one bootstrap method", 36, |c, r, q| {
        let (uses, args) = [(30usize, 30usize), (300, 300), (40, 3000), (3000, 40), (1000, 1000), (2500, 2500)][q as usize % 6];
        let b = Arc::new(Bsm { kind: 6, mem: Mem { kind: MK::Method, owner: "b/M".into(), name: "b".into(), desc: "()Ljava/lang/Object;".into() }, args: (0..args).map(|i| K::Int(i as i32 % 7)).collect() });
        let d = |n: usize| Arc::new(Dyn { name: S::from(format!("d{n}").as_str()), desc: "I".into(), bsm: b.clone() });
        let call = |n: usize| Arc::new(Dyn { name: S::from(format!("d{n}").as_str()), desc: "()I".into(), bsm: b.clone() });
        let same = (d(0), call(0));
        let insns: Vec<I> = match q / 6 {
            0 => (0..uses).map(|_| I::Const(K::Dyn(same.0.clone()))).collect(),
            1 => (0..uses).map(|_| I::Indy(same.1.clone())).collect(),
            2 => (0..uses).map(|i| I::Const(K::Dyn(d(i % 50)))).collect(),
            3 => (0..uses).map(|i| I::Indy(call(i % 50))).collect(),
            // as arguments of other methods
            4 => vec![I::Const(K::Dyn(Arc::new(Dyn { name: "e".into(), desc: "I".into(), bsm: Arc::new(Bsm { kind: 6, mem: b.mem.clone(), args: (0..uses).map(|_| K::Dyn(same.0.clone())).collect() }) })))],
            _ => (0..(uses / 40).max(2)).map(|i| I::Const(K::Dyn(Arc::new(Dyn { name: "e".into(), desc: "I".into(), bsm: Arc::new(Bsm { kind: 6, mem: b.mem.clone(), args: (0..39).map(|_| K::Dyn(same.0.clone())).chain([K::Int(i as i32)]).collect() }) })))).collect(),
        };
        let mut k = content::one_method(insns.into_iter().chain([I::Op(177)]).collect());
        if q % 5 == 4 { let m = k.methods.clone(); k.methods.extend(m) }
        let Some(f) = bytes_of(&k, r) else { c.inc("not_encodable"); return Ok(()) };
        c.seen(&f);
        mem_case(c, &format!("{uses} references to a bootstrap method with {args} arguments"), &f)
    });
    // big inputs with everything there: linear
    c.indexed("big inputs", 40, |c, r, q| {
        let mut k = small_class(r, q);
        let n = 20 << (q / 7);
        match q % 4 { 0 => { let m = content::one_method((0..(n * 20).min(60_000)).map(|i| I::Op((i % 16) as u8)).collect()); k.methods.extend(m.methods) } 1 => { for _ in 0..n { k.methods.extend(k.methods.first().cloned()) } } 2 => { for _ in 0..n { k.fields.extend(k.fields.first().cloned()) } } _ => { let a = k.attrs.clone(); for _ in 0..n / 8 { k.attrs.extend(a.iter().filter(|a| !matches!(a, A::Raw(..))).cloned()) } } }
        let Some(b) = bytes_of(&k, r) else { return Ok(()) };
        c.max("input", b.len() as u64);
        c.seen(&b.len());
        mem_case(c, "big", &b)
    });
}

// ---------- C16 ----------
#[derive(Debug)]
struct Marker(u64);
impl std::fmt::Display for Marker { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "marker {}", self.0) } }
impl std::error::Error for Marker {}
const KINDS: [io::ErrorKind; 9] = [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::PermissionDenied, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::InvalidData, io::ErrorKind::UnexpectedEof, io::ErrorKind::WriteZero, io::ErrorKind::NotFound];
/// A stream of bytes in pieces that fails once at a place, and would go on if asked again.
struct Src<'a> { b: &'a [u8], at: usize, fail: Option<(usize, io::ErrorKind, u64)>, piece: usize, intr: u32, r: Rng, calls: u64, interrupted: u64 }
impl Read for Src<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if o.is_empty() { return Ok(0) }
        if self.intr > 0 && self.r.chance(self.intr, 8) { self.interrupted += 1; return Err(io::ErrorKind::Interrupted.into()) }
        if let Some((k, e, id)) = self.fail { if self.at == k { self.fail = None; return Err(io::Error::new(e, Marker(id))) } }
        let mut n = o.len().min(self.b.len() - self.at);
        if self.piece > 0 { n = n.min(1 + self.r.below(self.piece)) }
        if let Some((k, ..)) = self.fail { n = n.min(k - self.at) }
        o[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
struct Dst { got: Vec<u8>, fail: Option<(usize, io::ErrorKind, u64)>, zero: Option<usize>, piece: usize, intr: u32, r: Rng }
impl Write for Dst {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        if self.intr > 0 && self.r.chance(self.intr, 8) { return Err(io::ErrorKind::Interrupted.into()) }
        if let Some((k, e, id)) = self.fail { if self.got.len() == k { self.fail = None; return Err(io::Error::new(e, Marker(id))) } }
        if self.zero == Some(self.got.len()) { return Ok(0) }
        let mut n = b.len();
        if self.piece > 0 { n = n.min(1 + self.r.below(self.piece)) }
        for k in [self.fail.map(|f| f.0), self.zero].into_iter().flatten() { if k > self.got.len() { n = n.min(k - self.got.len()) } }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn carries(e: &coffer::Error, id: u64, kind: io::ErrorKind) -> bool {
    match e { coffer::error::ErrorBase::IO(e) => e.kind() == kind && e.get_ref().and_then(|x| x.downcast_ref::<Marker>()).is_some_and(|m| m.0 == id), _ => false }
}
fn io_kind(e: &coffer::Error) -> Option<io::ErrorKind> { match e { coffer::error::ErrorBase::IO(e) => Some(e.kind()), _ => None } }
fn streams(c: &mut Ctx, r: &mut Rng, b: &[u8], every: usize) -> Res {
    let src = |r: &mut Rng| { let (p, i) = (*r.pick(&[0usize, 1, 2, 3, 7, 64]), *r.pick(&[0u32, 0, 1, 5])); Src { b, at: 0, fail: None, piece: p, intr: i, r: Rng::new(r.u64()), calls: 0, interrupted: 0 } };
    let whole = pipe::read(b)?;
    let out = pipe::write(&whole)?;
    let n0 = crate::model::norm(&whole)?;
    let pts = |r: &mut Rng, n: usize| -> Vec<usize> { if n <= every { (0..n).collect() } else { let mut v: Vec<usize> = (0..every).map(|_| r.below(n)).collect(); v.extend([0, 1, n - 1]); v } };
    // failures while reading
    for k in pts(r, b.len()) {
        let id = r.u64();
        let kind = *r.pick(&KINDS);
        let mut s = src(r);
        s.fail = Some((k, kind, id));
        match guard(|| Class::read_from(&mut s)).map_err(|e| format!("reader failing at byte {k}: {e}"))? {
            Ok(_) => return Err(format!("the reader failed ({kind:?}) at byte {k} of {} but reading succeeded", b.len())),
            Err(e) => { if !carries(&e, id, kind) { return Err(format!("the reader failed ({kind:?}) at byte {k} of {}, reported was {e:?}", b.len())) } if s.at != k { return Err(format!("reading went on after the failure at {k}, to {}", s.at)) } }
        }
        c.inc("read_failures");
        // the stream ends there instead
        let mut s = src(r);
        s.b = &b[..k];
        match guard(|| Class::read_from(&mut s)).map_err(|e| format!("input cut at {k}: {e}"))? {
            Ok(_) => return Err(format!("input cut at byte {k} of {} is accepted", b.len())),
            Err(e) => if io_kind(&e) != Some(io::ErrorKind::UnexpectedEof) { return Err(format!("input cut at byte {k} of {} is reported as {e:?}", b.len())) },
        }
        c.inc("truncations");
    }
    // pieces and interruptions do not matter, and what follows is left alone
    for q in 0..6 {
        let mut f = b.to_vec();
        let tail = match q { 0 => vec![], 1 => b.to_vec(), 2 => vec![0; 9], 3 => vec![0xff; 70], _ => (0..r.below(40)).map(|_| r.u8()).collect() };
        f.extend(&tail);
        let mut s = Src { b: &f, ..src(r) };
        // a failure right behind the class is nobody's business
        if q >= 2 { s.fail = Some((b.len(), io::ErrorKind::Other, 1)) }
        let m = Class::read_from(&mut s).map_err(|e| format!("read in pieces of {} with interruptions {}: {e:?}", s.piece, s.intr))?;
        if s.at != b.len() { return Err(format!("{} bytes consumed of a class of {} followed by {}", s.at, b.len(), tail.len())) }
        same(&n0, &crate::model::norm(&m)?).map_err(|e| format!("read in pieces of {} the class differs: {e}", s.piece))?;
        c.add("interruptions", s.interrupted);
        c.inc("chunked_reads");
        if q == 1 {
            let m = Class::read_from(&mut s).map_err(|e| format!("second class of the stream: {e:?}"))?;
            if s.at != f.len() { return Err("second class of the stream not consumed exactly".into()) }
            same(&n0, &crate::model::norm(&m)?).map_err(|e| format!("the second class of the stream differs: {e}"))?;
        }
        let mut rd = io::BufReader::with_capacity(1 + r.below(40), &f[..]);
        let m = Class::read_from(&mut rd).map_err(|e| format!("through a BufReader: {e:?}"))?;
        let mut rest = vec![];
        rd.read_to_end(&mut rest).map_err(|e| e.to_string())?;
        if rest != tail { return Err(format!("after reading through a BufReader {} bytes are left of {}", rest.len(), tail.len())) }
        same(&n0, &crate::model::norm(&m)?).map_err(|e| format!("through a BufReader the class differs: {e}"))?;
    }
    // failures while writing
    let dst = |r: &mut Rng| Dst { got: vec![], fail: None, zero: None, piece: *r.pick(&[0usize, 1, 2, 5, 50]), intr: *r.pick(&[0u32, 0, 1, 5]), r: Rng::new(r.u64()) };
    for k in pts(r, out.len()) {
        let id = r.u64();
        let kind = *r.pick(&KINDS);
        let mut d = dst(r);
        d.fail = Some((k, kind, id));
        match guard(|| whole.write_to(&mut d)).map_err(|e| format!("writer failing at byte {k}: {e}"))? {
            Ok(_) => return Err(format!("the writer failed ({kind:?}) at byte {k} of {} but writing succeeded", out.len())),
            Err(e) => if !carries(&e, id, kind) { return Err(format!("the writer failed ({kind:?}) at byte {k} of {}, reported was {e:?}", out.len())) },
        }
        if d.got[..] != out[..k] { return Err(format!("the writer that failed at byte {k} got {} bytes that are not the beginning of the class", d.got.len())) }
        c.inc("write_failures");
        if k % 3 == 0 {
            let mut d = dst(r);
            d.zero = Some(k);
            match guard(|| whole.write_to(&mut d)).map_err(|e| format!("writer full at byte {k}: {e}"))? {
                Ok(_) => return Err(format!("the writer was full at byte {k} of {} but writing succeeded", out.len())),
                Err(e) => if io_kind(&e) != Some(io::ErrorKind::WriteZero) { return Err(format!("the writer was full at byte {k} of {}, reported was {e:?}", out.len())) },
            }
            c.inc("writers_full");
        }
    }
    for _ in 0..4 {
        let mut d = dst(r);
        whole.write_to(&mut d).map_err(|e| format!("written in pieces of {}: {e:?}", d.piece))?;
        if d.got != out { return Err(format!("written in pieces of {} the bytes differ", d.piece)) }
        c.inc("chunked_writes");
    }
    Ok(())
}
pub fn c16(c: &mut Ctx) {
    let n = c.n(700, 40_000);
    c.cases("classes", n, |c, r| {
        let q = r.u64();
        let k = if r.chance(1, 2) { small_class(r, q) } else { random_class(r) };
        let Some(b) = bytes_of(&k, r) else { return Ok(()) };
        let every = if c.thorough { 4000 } else { 400 };
        c.seen(&b);
        c.max("input", b.len() as u64);
        c.sample("class", || format!("{} bytes, failing at each of them", b.len()));
        streams(c, r, &b, every).map_err(|e| format!("{e}\ninput: {}", hx(&b)))
    });
    let files = c.corpus();
    c.indexed("real classes", files.len() as u64, |c, r, i| {
        let Some((name, b)) = files.get(i as usize) else { return Ok(()) };
        if pipe::read(b).is_err() { c.inc("real_classes_unread"); return Ok(()) }
        c.seen(b);
        streams(c, r, b, 60).map_err(|e| format!("{name}: {e}"))
    });
    // the smallest and the largest readers
    c.once("empty input", 2, |c, _| {
        for b in [&[][..], &[0xca], &[0xca, 0xfe, 0xba, 0xbe]] { match Class::read_from(&mut &b[..]) { Err(e) if io_kind(&e) == Some(io::ErrorKind::UnexpectedEof) => c.inc("truncations"), x => return Err(format!("{b:?} is read as {:?}", x.map(|_| ()))) } }
        Ok(())
    });
}
