//! Content properties judged through the pipelines: C03, C04, C13, C14, C15, C18, C19.
use crate::ctx::*;
use crate::enc;
use crate::gen::{near, ATTRS, G, NEAR, P};
use crate::model::*;
use crate::pipe::*;
use crate::rcls::*;
use crate::rng::*;
use crate::text::*;
use coffer::annotation::*;
use coffer::code::Code as CCode;
use coffer::prelude::{BitType, ConstantPoolReadWrite, Instruction, NumberType, IntOperation, IntType, Label, LoadOrStore, LocalType, MapCp, RawConstantEntry};
use coffer::total_floats::{TotalF32, TotalF64};
use std::cmp::Ordering;
use std::sync::Arc;

pub fn one_method(insns: Vec<I>) -> Cls {
    Cls {
        minor: 0, major: 55, access: 0x21, this: "T".into(), sup: Some("java/lang/Object".into()), ifaces: vec![], fields: vec![],
        methods: vec![Member { access: 9, name: "m".into(), desc: "()V".into(), attrs: vec![A::Code(Box::new(Code { max_stack: 10, max_locals: 10, insns, ..Default::default() }))] }],
        attrs: vec![], bsms: vec![], has_bsm_attr: false,
    }
}

/// Real class files: decoded by the reference, then through the pipeline.
pub fn corpus(c: &mut Ctx, stream: &str, every: u64, p: Proj) {
    let v = c.corpus();
    c.indexed(stream, v.len() as u64, |c, r, k| {
        if every > 1 && r.below(every as usize) != 0 { return Ok(()) }
        let (name, b) = &v[k as usize];
        let d = match decode(b) { Ok(d) => d, Err(_) => { c.inc("corpus_not_judged"); return Ok(()) } };
        c.inc("corpus_files");
        c.seen(b);
        tally(c, &d);
        bytes_pipeline(c, &d, b, p).map_err(|e| format!("{name}: {e}"))
    });
}

pub fn c03(c: &mut Ctx) {
    let n = c.n(12000, 400_000);
    random(c, "mixed", n, P::mixed, all);
    for (s, f, q) in [("code", P::code as fn(&mut Rng) -> P, 2000), ("debug", P::debug, 2000), ("anns", P::anns, 2000), ("dynamic", P::dynamic, 2000), ("meta", P::meta, 2000), ("sigs", P::sigs, 2000), ("consts", P::consts, 2000)] {
        let n = c.n(q, q * 25);
        random(c, s, n, f, all);
    }
    counts(c, &[P::mixed, P::dynamic, P::anns, P::meta, P::sigs], all);
    let e = c.n(2, 1);
    corpus(c, "corpus", e, all);
    // many classes in a row through one reader must not influence each other
    let n = c.n(60, 1000);
    c.cases("stream", n, |c, r| {
        let mut files = vec![];
        let mut joined = vec![];
        for _ in 0..8 { let p = P::mixed(r); let k = G::new(r, p).class(); let o = enc::Opt::random(r); if let Ok(b) = enc::encode(&k, &o, r) { joined.extend(&b); files.push(k) } }
        let mut s = &joined[..];
        for k in &files {
            use coffer::ReadWrite;
            let m = coffer::clazz::Class::read_from(&mut s).map_err(|e| format!("reading from a sequence failed: {e:?}"))?;
            cmp("content read from a sequence", k, &norm(&m)?, all)?;
        }
        c.inc("sequences");
        if s.is_empty() { Ok(()) } else { Err("bytes left after a sequence of classes".into()) }
    });
}

// ---------- C04 ----------
fn chunked(c: &mut Ctx, stream: &str, total: u64, per: u64, f: &dyn Fn(u64) -> I) {
    let n = total.div_ceil(per);
    c.indexed(stream, n, |c, r, k| {
        let mut v: Vec<I> = vec![];
        for i in k * per..((k + 1) * per).min(total) { v.push(f(i)) }
        for i in &v { c.seen(&format!("{i:?}")) }
        c.add("instructions_enumerated", v.len() as u64);
        c.sample(stream, || short(&v[..v.len().min(8)].to_vec()));
        let k = one_method(v);
        let o = enc::Opt { shuffle: r.chance(1, 2), ..enc::Opt::plain() };
        pipeline(c, r, &k, &o, p_code)
    });
}
fn mem(kind: MK, o: &str, n: &str, d: &str) -> Mem { Mem { kind, owner: o.into(), name: n.into(), desc: d.into() } }
/// class names that look like something else
const ODD: [&str; 24] = ["a", "a/B", "java/lang/Object", "I", "J", "D", "F", "B", "C", "S", "Z", "L", "T", "V", "Lfoo", "LJ", "Ljava/lang/Object", "()V", "(I)J", "TT", "J/D", "a/I", "java/lang/Long", "null"];
/// Every kind of instruction with boundary operands, `n` instructions in the body.
pub fn boundary_insns(n: usize) -> Vec<I> {
    let mut v: Vec<I> = vec![];
    let mut ops: Vec<u8> = simple_insns().into_iter().map(|x| x.1).collect();
    ops.sort(); ops.dedup();
    v.extend(ops.into_iter().map(I::Op));
    let idx = [0u16, 1, 2, 3, 4, 5, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535];
    for o in (21..=25).chain(54..=58) { for i in idx { v.push(I::Local(o, i)) } }
    for i in idx { v.push(I::Ret(i)); for d in [0i16, 1, -1, 127, 128, 129, -127, -128, -129, 255, 256, 32767, -32768] { v.push(I::Iinc(i, d)) } }
    for o in (153..=168).chain([198, 199]) { for t in [0, 1, n / 2, n - 1] { v.push(I::Jump(o, t)) } }
    for (lo, k) in [(0, 1), (0, 2), (-1, 3), (i32::MIN, 1), (i32::MIN, 4), (i32::MAX, 1), (i32::MAX - 4, 5), (-5, 11), (100, 7)] { v.push(I::Table(n - 1, lo, (0..k).map(|q| q % n).collect())) }
    for keys in [vec![], vec![0], vec![i32::MIN], vec![i32::MAX], vec![i32::MIN, i32::MAX], vec![i32::MIN, -1, 0, 1, i32::MAX], vec![-5, 7, 100, 70000]] { v.push(I::Lookup(0, keys.iter().enumerate().map(|(q, k)| (*k, (q * 3) % n)).collect())) }
    for o in 178..=181 { for d in ["I", "J", "D", "[I", "La/B;", "[[La/B;", "Z"] { v.push(I::Field(o, mem(MK::Field, "a/B", "f", d))) } v.push(I::Field(o, mem(MK::Field, "[I", "length", "I"))) }
    for o in 182..=185u8 {
        for k in [MK::Method, MK::IMethod] {
            if (o == 182 && k == MK::IMethod) || (o == 185 && k == MK::Method) { continue }
            for d in ["()V", "(IJ)D", "([Ljava/lang/Object;)Z"] { for cnt in if o == 185 { vec![1u8, 2, 4, 127, 128, 255] } else { vec![0] } { v.push(I::Invoke(o, mem(k, "a/B", "m", d), cnt)) } }
            v.push(I::Invoke(o, mem(k, "[[I", "clone", "()Ljava/lang/Object;"), if o == 185 { 1 } else { 0 }));
        }
    }
    v.push(I::Invoke(183, mem(MK::Method, "a/B", "<init>", "()V"), 0));
    for s in ODD { v.push(I::New(s.into())); v.push(I::Cast(192, s.into())); v.push(I::Cast(193, s.into())) }
    for s in ["[I", "[[J", "[La/B;", "[[[Z", "[Ljava/lang/String;"] { v.push(I::Cast(192, s.into())); v.push(I::Cast(193, s.into())) }
    for p in ["Z", "C", "F", "D", "B", "S", "I", "J", "La/B;", "LI;", "Lx;"] {
        for dims in [1usize, 2, 3, 4, 10, 254, 255] {
            let mut s = S::default();
            for _ in 0..dims { s.push("[") }
            s.push(p);
            for d in [1, 2, 3, dims / 2, dims - 1, dims] { if d >= 1 && d <= dims { v.push(I::NewArr(s.clone(), d as u8)) } }
        }
    }
    for i in [0, 1, 2, 3, 4, 5, 6, -1, -2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, i32::MAX, i32::MIN] { v.push(I::Const(K::Int(i))); v.push(I::Const(K::Long(i as i64))); v.push(I::Const(K::Float((i as f32).to_bits()))); v.push(I::Const(K::Double((i as f64).to_bits()))) }
    for f in [0x8000_0000u32, 0x7fc0_0000, 0x7f80_0001, 0xffff_ffff, 1, 0x3f7f_ffff, 0x4040_0000, 0x3f00_0000] { v.push(I::Const(K::Float(f))) }
    for f in [1u64 << 63, 0x7ff8 << 48, 0x7ff0_0000_0000_0001, u64::MAX, 1, 0x3fef_ffff_ffff_ffff, 0x3fe0 << 48] { v.push(I::Const(K::Double(f))) }
    for l in [i64::MAX, i64::MIN, 1 << 32, -(1 << 32), 0x8000_0000] { v.push(I::Const(K::Long(l))) }
    for s in ["", "x", "\u{0}", "é", "\u{1F600}", "I", "()V"] { v.push(I::Const(K::Str(s.into()))) }
    for s in ODD.into_iter().chain(["[I", "[[La/B;", "[[D", "[LJ;"]) { v.push(I::Const(K::Class(s.into()))) }
    for s in ODD {
        v.push(I::Field(178, mem(MK::Field, s, "f", "I"))); v.push(I::Invoke(184, mem(MK::Method, s, "m", "()V"), 0)); v.push(I::Invoke(185, mem(MK::IMethod, s, "m", "()V"), 1));
        v.push(I::NewArr(format!("[L{s};").as_str().into(), 1)); v.push(I::NewArr(format!("[[L{s};").as_str().into(), 2)); v.push(I::Cast(192, format!("[L{s};").as_str().into())); v.push(I::Cast(193, format!("[[L{s};").as_str().into()));
        if !s.contains('/') { v.push(I::Field(180, mem(MK::Field, "a/B", s, "J"))); v.push(I::Invoke(182, mem(MK::Method, "a/B", s, "()V"), 0)) }
    }
    for d in ["()V", "(I)J", "([I[La;)[D"] { v.push(I::Const(K::MType(d.into()))) }
    for k in 1..=9u8 {
        for i in [false, true] {
            let m = match k { 1..=4 if !i => mem(MK::Field, "a/B", "f", "I"), 5 if !i => mem(MK::Method, "a/B", "m", "()V"), 6 | 7 => mem(if i { MK::IMethod } else { MK::Method }, "a/B", "m", "()V"), 8 if !i => mem(MK::Method, "a/B", "<init>", "()V"), 9 if i => mem(MK::IMethod, "a/B", "m", "()V"), _ => continue };
            v.push(I::Const(K::Handle(k, m)));
        }
    }
    let b = Arc::new(Bsm { kind: 6, mem: mem(MK::Method, "a/B", "bsm", "()Ljava/lang/Object;"), args: vec![K::Int(7), K::Str("q".into())] });
    let b2 = Arc::new(Bsm { kind: 6, mem: mem(MK::Method, "a/B", "bsm", "()Ljava/lang/Object;"), args: vec![] });
    for x in [b, b2] {
        for d in ["I", "J", "D", "F", "[J", "La/B;", "Z", "LJ;"] { v.push(I::Const(K::Dyn(Arc::new(Dyn { name: "c".into(), desc: d.into(), bsm: x.clone() })))) }
        for d in ["()V", "(J)D", "()J"] { v.push(I::Indy(Arc::new(Dyn { name: "i".into(), desc: d.into(), bsm: x.clone() }))) }
    }
    // numbers and names of particular interest
    for x in &dict().near {
        let x = *x;
        for o in (21..=25).chain(54..=58) { v.push(I::Local(o, x as u16)) }
        v.push(I::Ret(x as u16)); v.push(I::Iinc(x as u16, 1)); v.push(I::Iinc(1, x as i16)); v.push(I::Iinc(300, x as i16)); v.push(I::Iinc(x as u16, 300));
        v.push(I::Const(K::Int(x as i32))); v.push(I::Const(K::Long(x as i64))); v.push(I::Const(K::Float((x as i64 as f32).to_bits()))); v.push(I::Const(K::Double((x as i64 as f64).to_bits()))); v.push(I::Const(K::Float(x as u32))); v.push(I::Const(K::Double(x)));
        if (x as i32) < i32::MAX - 4 { v.push(I::Table(0, x as i32, vec![0, 1, 2])) }
        v.push(I::Lookup(0, { let mut k = vec![(x as i32, 1), (7, 2)]; k.sort(); k.dedup_by_key(|k| k.0); k }));
        if x < 500 { v.push(I::Table(1, -3, (0..x.max(1) as usize).map(|q| q % n).collect())); v.push(I::Lookup(0, (0..x as usize).map(|q| (q as i32 * 3, q % n)).collect())) }
        if (1..256).contains(&x) { v.push(I::NewArr(S::from("[".repeat(x as usize).as_str()).cat(&"I".into()), 1)); v.push(I::NewArr(S::from("[".repeat(x as usize).as_str()).cat(&"La/B;".into()), x as u8)); v.push(I::Invoke(185, mem(MK::IMethod, "a", "b", "()V"), x as u8)); v.push(I::Cast(192, S::from("[".repeat(x as usize).as_str()).cat(&"J".into()))); v.push(I::Cast(193, S::from("[".repeat(x as usize).as_str()).cat(&"La;".into()))) }
    }
    for s in dict().strs.iter().filter(|s| !s.contains(['.', ';', '[', '/', '<', '>'])) {
        let s = s.as_str();
        v.push(I::New(s.into())); v.push(I::Cast(192, s.into())); v.push(I::Cast(193, s.into())); v.push(I::Const(K::Class(s.into()))); v.push(I::Const(K::Str(s.into()))); v.push(I::NewArr(format!("[L{s};").as_str().into(), 1));
        v.push(I::Field(178, mem(MK::Field, s, "f", "I"))); v.push(I::Field(178, mem(MK::Field, "a/B", s, "I"))); v.push(I::Invoke(184, mem(MK::Method, s, s, "()V"), 0));
    }
    v
}
pub fn c04(c: &mut Ctx) {
    // each boundary instruction, repeated so that every encoding is drawn, at every alignment
    let list = boundary_insns(24);
    c.indexed("boundary", list.len() as u64 * 4, |c, r, k| {
        let i = &list[(k / 4) as usize];
        let mut v = vec![I::Op(0); (k % 4) as usize];
        while v.len() < 20 { v.push(i.clone()) }
        while v.len() < 24 { v.push(I::Op(0)) }
        c.seen(&format!("{i:?}{}", k % 4));
        c.inc("boundary_instructions");
        c.sample("boundary", || short(i));
        let mut k = one_method(v);
        if let A::Code(x) = &mut k.methods[0].attrs[0] { x.handlers = vec![(0, 24, 3, None), (1, 2, 23, Some("a/E".into())), (23, 24, 0, Some("[I".into()))]; }
        let o = enc::Opt::random(r);
        pipeline(c, r, &k, &o, p_code)
    });
    // whole operand spaces
    let step = c.n(1, 1);
    for (n, op) in [21u8, 22, 23, 24, 25, 54, 55, 56, 57, 58].into_iter().enumerate() { let _ = n; chunked(c, &format!("local{op}"), 65536 / step, 8000, &|i| I::Local(op, i as u16)) }
    chunked(c, "ret", 65536, 8000, &|i| I::Ret(i as u16));
    for d in [1i16, -128, 127, 128, -129, i16::MIN] { chunked(c, &format!("iinc{d}"), 65536, 8000, &|i| I::Iinc(i as u16, d)) }
    for x in [0u16, 255, 256, 65535] { chunked(c, &format!("iincd{x}"), 65536, 8000, &|i| I::Iinc(x, i as u16 as i16)) }
    chunked(c, "int", 90000, 3000, &|i| I::Const(K::Int(i as i32 - 45000)));
    chunked(c, "long", 3000, 500, &|i| I::Const(K::Long(i as i64 - 1500)));
    chunked(c, "float", 3000, 500, &|i| I::Const(K::Float((i as f32 - 1500.0).to_bits())));
    chunked(c, "double", 3000, 500, &|i| I::Const(K::Double((i as f64 - 1500.0).to_bits())));
    chunked(c, "iface", 256 * 4, 128, &|i| I::Invoke(185, mem(MK::IMethod, "a", "b", "()V"), (i % 256).max(1) as u8));
    // constants of every size class around index 255/256
    let n = c.n(400, 4000);
    c.cases("ldc", n, |c, r| {
        let pre = 220 + r.below(60);
        let mut v: Vec<I> = (0..pre).map(|i| I::Const(K::Int(100_000 + i as i32))).collect();
        for j in 0..20 { v.push(I::Const(match r.below(7) { 0 => K::Int(-100_000 - j), 1 => K::Float(r.f32bits() | 0x3000_0000), 2 => K::Long(r.b64()), 3 => K::Double(r.f64bits()), 4 => K::Str(format!("s{j}").as_str().into()), 5 => K::Class(format!("c{j}").as_str().into()), _ => K::MType(format!("(Lc{j};)V").as_str().into()) })) }
        if r.chance(1, 2) { r.shuffle(&mut v) }
        c.inc("ldc_boundary_methods");
        let k = one_method(v);
        let o = enc::Opt { shuffle: r.chance(1, 2), junk: r.chance(1, 2), ..enc::Opt::plain() };
        pipeline(c, r, &k, &o, p_code)
    });
    named(c);
    let n = c.n(6000, 200_000);
    random(c, "code", n, P::code, p_code);
    counts(c, &[P::code], p_code);
    let e = c.n(4, 1);
    corpus(c, "corpus", e, p_code);
}
/// The constructors named after JVM instructions.
fn named(c: &mut Ctx) {
    c.once("named", 1, |c, _| {
        use Instruction as N;
        let f = mem(MK::Field, "a/B", "f", "I");
        let m = mem(MK::Method, "a/B", "m", "()V");
        let im = mem(MK::IMethod, "a/B", "m", "()V");
        let l = Label(7);
        let mut nothing = vec![];
        let mut v: Vec<(Instruction, I)> = vec![
            (N::getstatic(u_mem(&f)), I::Field(178, f.clone())), (N::invokevirtual(u_mem(&m)), I::Invoke(182, m.clone(), 0)), (N::invokestatic(u_mem(&m)), I::Invoke(184, m.clone(), 0)), (N::invokestatic(u_mem(&im)), I::Invoke(184, im.clone(), 0)),
            (N::iadd(), I::Op(96)), (N::isub(), I::Op(100)), (N::imul(), I::Op(104)), (N::irem(), I::Op(112)), (N::ineg(), I::Op(116)),
            (N::ifeq(l), I::Jump(153, 0)), (N::if_icmpeq(l), I::Jump(159, 0)), (N::if_icmpne(l), I::Jump(160, 0)), (N::if_icmple(l), I::Jump(164, 0)), (N::if_icmpgt(l), I::Jump(163, 0)),
        ];
        for (i, t) in [LocalType::Int, LocalType::Long, LocalType::Float, LocalType::Double, LocalType::Reference].into_iter().enumerate() {
            for x in [0u16, 1, 2, 3, 4, 255, 256, 65535] { v.push((N::load(t, x), I::Local(21 + i as u8, x))); v.push((N::store(t, x), I::Local(54 + i as u8, x))) }
        }
        for (o, b) in [(IntOperation::Add, 96), (IntOperation::Subtract, 100), (IntOperation::Multiply, 104), (IntOperation::Divide, 108), (IntOperation::Remainder, 112), (IntOperation::Negate, 116), (IntOperation::ShiftLeft, 120), (IntOperation::ShiftRight, 122), (IntOperation::UnsignedShiftRight, 124), (IntOperation::And, 126), (IntOperation::Or, 128), (IntOperation::ExclusiveOr, 130)] { v.push((N::iop(o), I::Op(b))) }
        // conversions that change nothing leave no trace
        for x in [N::ConvertInt(BitType::Int), N::Conversion(NumberType::Int, NumberType::Int), N::Conversion(NumberType::Long, NumberType::Long), N::Conversion(NumberType::Float, NumberType::Float), N::Conversion(NumberType::Double, NumberType::Double)] { nothing.push(x) }
        for (x, b) in [(BitType::Byte, 145), (BitType::Char, 146), (BitType::Short, 147), (BitType::Long, 133), (BitType::Float, 134), (BitType::Double, 135)] { v.push((N::ConvertInt(x), I::Op(b))) }
        let _ = (LoadOrStore::Load, IntType::Int);
        let v: Vec<(Instruction, Option<I>)> = v.into_iter().map(|(a, b)| (a, Some(b))).chain(nothing.into_iter().map(|a| (a, None))).collect();
        for (n, want) in v {
            let mut is = vec![I::Op(0)]; is.extend(want.clone()); is.push(I::Op(177));
            let k = one_method(is);
            let mut m = build(&k, &mut Rng::new(1), false);
            if let coffer::prelude::MethodAttribute::Code(x) = &mut m.methods[0].attributes[0] { *x = CCode { max_stack: 10, max_locals: 10, code: vec![N::Label(l), N::NoOp, n.clone(), N::Return(None)], catches: vec![], attrs: vec![] } }
            let w = write(&m)?;
            cmp(&format!("constructor giving {n:?}"), &k, &decode(&w)?, p_code)?;
            c.seen(&format!("named {n:?}"));
            c.inc("named_constructors");
        }
        Ok(())
    });
}

// ---------- C13 ----------
fn bm(r: &mut Rng, i: usize, args: Vec<K>) -> Arc<Bsm> { Arc::new(Bsm { kind: 6, mem: mem(MK::Method, "b/M", &format!("b{}", if r.chance(1, 2) { i } else { 0 }), "()Ljava/lang/Object;"), args }) }
/// shaped graphs of bootstrap methods
fn shaped(r: &mut Rng, thorough: bool) -> Cls {
    let mut bs: Vec<Arc<Bsm>> = vec![];
    let dk = |b: &Arc<Bsm>, i: usize, r: &mut Rng| K::Dyn(Arc::new(Dyn { name: format!("d{}", i % 3).as_str().into(), desc: ["I", "J", "La/B;", "[D"][r.below(4)].into(), bsm: b.clone() }));
    let n = match r.below(4) { 0 => 1 + r.below(4), 1 => 1 + r.below(12), 2 => 1 + r.below(40), _ => 1 + r.below(if thorough { 100 } else { 60 }) };
    let shape = r.below(6);
    for i in 0..n {
        let mut a = vec![];
        if r.chance(1, 2) { a.push(K::Int(i as i32)) }
        match shape {
            0 => if i > 0 { a.push(dk(&bs[i - 1], i, r)) },                                              // chain
            1 => if i > 0 && i < 10 { a.push(dk(&bs[i - 1], i, r)); a.push(dk(&bs[i - 1], i + 1, r)) },      // doubling diamond
            2 => if i > 0 { a.push(dk(&bs[0], i, r)) },                                                  // star
            3 => if i > 0 { let b = bs[i / 2].clone(); if i < 16 { a.push(dk(&b, i, r)) } },              // tree
            4 => {}                                                                                      // independent
            _ => if i > 0 { for _ in 0..r.below(3) { let b = bs[r.below(i.min(6))].clone(); if b.args.len() < 3 { a.push(dk(&b, i, r)) } } },
        }
        if r.chance(1, 4) { a.push(K::Str("z".into())) }
        let b = bm(r, i, a);
        bs.push(b);
    }
    let mut v = vec![];
    let uses = 1 + r.below(10);
    for q in 0..uses {
        let b = if q == 0 { bs[n - 1].clone() } else { bs[r.below(n)].clone() };
        if r.chance(1, 2) { v.push(I::Indy(Arc::new(Dyn { name: format!("i{}", r.below(2)).as_str().into(), desc: ["()V", "(I)J"][r.below(2)].into(), bsm: b }))) } else { let k = dk(&b, q, r); v.push(I::Const(k)) }
        if r.chance(1, 4) { v.push(I::Const(K::Int(200_000 + q as i32))) }
    }
    let mut k = one_method(v);
    let mut u: Vec<Arc<Bsm>> = vec![];
    for b in bs { if !u.contains(&b) { u.push(b) } }
    if r.chance(1, 3) { r.shuffle(&mut u) }
    k.bsms = u;
    let n = if r.chance(1, 3) { 1 + r.below(20) } else { 0 };
    for i in 0..n { let a = if r.chance(1, 2) { A::Raw(format!("x.{i}").as_str().into(), vec![i as u8; i % 4]) } else { A::Deprecated }; k.attrs.push(a) }
    k.has_bsm_attr = true;
    k
}
pub const SIZES: [usize; 26] = [1, 2, 15, 16, 31, 32, 63, 64, 127, 128, 129, 254, 255, 256, 257, 300, 383, 384, 511, 512, 513, 1000, 1023, 1024, 4096, 8192];
/// `n` bootstrap methods, all of them used
pub fn many_bsms(n: usize, r: &mut Rng) -> Cls {
    let style = r.below(3);
    let bs: Vec<Arc<Bsm>> = (0..n).map(|i| Arc::new(Bsm { kind: 6, mem: mem(MK::Method, "b/M", &if style == 0 { format!("b{i}") } else { "b".into() }, "()Ljava/lang/Object;"), args: if style == 0 { vec![] } else { vec![K::Int(i as i32)] } })).collect();
    let v = bs.iter().enumerate().map(|(i, b)| if style < 2 || i % 2 == 0 { I::Indy(Arc::new(Dyn { name: "i".into(), desc: "()V".into(), bsm: b.clone() })) } else { I::Const(K::Dyn(Arc::new(Dyn { name: "c".into(), desc: "I".into(), bsm: b.clone() }))) }).collect();
    let mut k = one_method(v);
    k.bsms = bs;
    if r.chance(1, 2) { r.shuffle(&mut k.bsms) }
    k.has_bsm_attr = true;
    k
}
/// sizes settle after the first rewriting
fn no_growth(b: &[u8]) -> Res {
    let mut cur = write(&read(b)?)?;
    let mut last = None;
    for _ in 0..4 {
        cur = write(&read(&cur)?)?;
        if let Some(l) = last { if l != cur.len() { return Err(format!("rewriting again changes the size of the class from {l} to {}", cur.len())) } }
        last = Some(cur.len());
    }
    Ok(())
}
/// Constant pool entries as (tag, offset of the data), index 0 unused; and where the pool ends.
pub fn scan(b: &[u8]) -> (Vec<(u8, usize)>, usize) {
    let n = u16::from_be_bytes([b[8], b[9]]) as usize;
    let mut v = vec![(0, 0)];
    let mut p = 10;
    while v.len() < n {
        let t = b[p];
        v.push((t, p + 1));
        p += 1 + match t { 1 => 2 + u16::from_be_bytes([b[p + 1], b[p + 2]]) as usize, 3 | 4 | 9..=12 | 17 | 18 => 4, 5 | 6 => { v.push((0, 0)); 8 } 15 => 3, _ => 2 };
    }
    (v, p)
}
/// Offset of the body of the class's BootstrapMethods attribute.
fn bsm_at(b: &[u8]) -> Option<usize> {
    let (cp, mut p) = scan(b);
    let u2 = |p: usize| u16::from_be_bytes([b[p], b[p + 1]]) as usize;
    let u4 = |p: usize| u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
    p += 6;
    p += 2 + 2 * u2(p);
    for _ in 0..2 { let n = u2(p); p += 2; for _ in 0..n { let k = u2(p + 6); p += 8; for _ in 0..k { p += 6 + u4(p + 2) } } }
    let k = u2(p);
    p += 2;
    for _ in 0..k {
        let (t, o) = cp[u2(p)];
        if t == 1 && &b[o + 2..o + 2 + u2(o)] == b"BootstrapMethods" { return Some(p + 6) }
        p += 6 + u4(p + 2);
    }
    None
}
pub fn c13(c: &mut Ctx) {
    // tables larger than a signed index, some of them in use
    c.indexed("huge tables", 12, |c, r, i| {
        let n = [32_767, 32_768, 32_769, 33_000, 40_000, 50_000, 60_000, 65_000, 65_534, 65_535, 16_384, 20_000][i as usize];
        let bs: Vec<Arc<Bsm>> = (0..n).map(|i| Arc::new(Bsm { kind: 6, mem: mem(MK::Method, "b/M", "b", "()Ljava/lang/Object;"), args: vec![K::Int(i / 256), K::Int(i % 256)] })).collect();
        let mut v = vec![];
        for q in 0..60 { let b = bs[match q { 0 => 0, 1 => bs.len() - 1, 2..=20 => (bs.len() - 1).min(32_758 + q), 21..=30 => bs.len() - q, _ => r.below(bs.len()) }].clone(); if r.chance(1, 2) { v.push(I::Indy(Arc::new(Dyn { name: "i".into(), desc: "()V".into(), bsm: b }))) } else { v.push(I::Const(K::Dyn(Arc::new(Dyn { name: "c".into(), desc: "I".into(), bsm: b })))) } }
        let mut k = one_method(v);
        k.bsms = bs;
        k.has_bsm_attr = true;
        c.inc("huge_tables");
        c.seen(&format!("huge table {n}"));
        let o = enc::Opt { shuffle: r.chance(1, 2), ..enc::Opt::plain() };
        let b = enc::encode(&k, &o, r)?;
        bytes_pipeline(c, &k, &b, p_dyn)
    });
    let sizes: Vec<usize> = SIZES.into_iter().chain(dict_sizes(13_000)).collect();
    c.indexed("tables", sizes.len() as u64 * 3, |c, r, i| {
        let n = sizes[i as usize / 3];
        let k = many_bsms(n, r);
        c.inc("tables");
        c.max("bootstrap_methods", n as u64);
        c.seen(&format!("table {i}"));
        let o = enc::Opt::random(r);
        pipeline(c, r, &k, &o, p_dyn)
    });
    let th = c.thorough;
    let n = c.n(6000, 150_000);
    c.cases("shaped", n, |c, r| {
        let k = shaped(r, th);
        let o = enc::Opt { frames: false, ..enc::Opt::random(r) };
        c.seen(&(k.bsms.len(), short(&k.methods)));
        c.add("bootstrap_methods", k.bsms.len() as u64);
        c.max("table", k.bsms.len() as u64);
        c.sample("shaped", || short(&k.bsms));
        let b = match enc::encode(&k, &o, r) { Ok(b) => b, Err(_) => return Ok(()) };
        bytes_pipeline(c, &k, &b, p_dyn)?;
        no_growth(&b)?;
        built_pipeline(c, r, &k, p_dyn)
    });
    let n = c.n(5000, 100_000);
    random(c, "dynamic", n, P::dynamic, p_dyn);
    counts(c, &[P::dynamic], p_dyn);
    // references redirected to other, missing or own entries of the table
    let n = c.n(12000, 300_000);
    c.cases("redirect", n, |c, r| {
        let k = if r.chance(1, 2) { shaped(r, false) } else { let p = P::dynamic(r); G::new(r, p).class() };
        let mut b = match enc::encode(&k, &enc::Opt { shuffle: r.chance(1, 2), ..enc::Opt::plain() }, r) { Ok(b) => b, Err(_) => return Ok(()) };
        let (cp, _) = scan(&b);
        let Some(t) = bsm_at(&b) else { return Ok(()) };
        let dyns: Vec<usize> = (1..cp.len()).filter(|i| cp[*i].0 == 17).collect();
        let refs: Vec<usize> = (1..cp.len()).filter(|i| matches!(cp[*i].0, 17 | 18)).collect();
        let u2 = |b: &[u8], p: usize| u16::from_be_bytes([b[p], b[p + 1]]) as usize;
        let nb = u2(&b, t);
        if refs.is_empty() || nb == 0 { return Ok(()) }
        for _ in 0..1 + r.below(2) {
            if r.chance(1, 2) || dyns.is_empty() {
                let o = cp[*r.pick(&refs)].1;
                let x = match r.below(4) { 0 => nb, 1 => 65535, _ => r.below(nb + 1) } as u16;
                b[o..o + 2].copy_from_slice(&x.to_be_bytes());
            } else {
                // some argument of some method becomes a dynamic constant
                let mut args = vec![];
                let mut p = t + 2;
                for _ in 0..nb { let k = u2(&b, p + 2); for q in 0..k { args.push(p + 4 + 2 * q) } p += 4 + 2 * k }
                if args.is_empty() { continue }
                let o = *r.pick(&args);
                let x = *r.pick(&dyns) as u16;
                b[o..o + 2].copy_from_slice(&x.to_be_bytes());
            }
        }
        match decode(&b) {
            Ok(k) => {
                if deep(&k) > 60 { return Ok(()) }
                c.inc("redirected_valid");
                bytes_pipeline(c, &k, &b, p_dyn)
            }
            Err(e) if e.contains("circular") || e.starts_with("bootstrap method") => {
                if used(&b) { c.inc(if e.contains("circular") { "redirected_circular" } else { "redirected_missing" }); c.seen(&b); match read(&b) { Err(_) => Ok(()), Ok(_) => Err(format!("class with {e} was read without an error")) } } else { c.inc("redirected_not_judged"); Ok(()) }
            }
            Err(_) => { c.inc("redirected_not_judged"); Ok(()) }
        }
    });
    let e = c.n(4, 1);
    corpus(c, "corpus", e, p_dyn);
}
fn deep(k: &Cls) -> usize {
    fn d(b: &Arc<Bsm>, m: &mut std::collections::HashMap<*const Bsm, usize>) -> usize {
        if let Some(x) = m.get(&Arc::as_ptr(b)) { return *x }
        let x = 1 + b.args.iter().map(|a| match a { K::Dyn(y) => d(&y.bsm, m), _ => 0 }).max().unwrap_or(0);
        m.insert(Arc::as_ptr(b), x);
        x
    }
    let mut m = Default::default();
    k.bsms.iter().map(|b| d(b, &mut m)).max().unwrap_or(0)
}
/// Whether every dynamic constant of the pool is used by code or by the table (otherwise nothing needs to look at it).
fn used(b: &[u8]) -> bool {
    let (cp, _) = scan(b);
    let Some(t) = bsm_at(b) else { return false };
    let u2 = |p: usize| u16::from_be_bytes([b[p], b[p + 1]]) as usize;
    let mut seen = std::collections::HashSet::new();
    let mut p = t + 2;
    for _ in 0..u2(t) { let k = u2(p + 2); for q in 0..k { seen.insert(u2(p + 4 + 2 * q)); } p += 4 + 2 * k }
    // redirecting only changes arguments, so a constant may have lost its last use
    let code = code_refs(b);
    (1..cp.len()).filter(|i| cp[*i].0 == 17).all(|i| seen.contains(&i) || code.contains(&i)) && (1..cp.len()).filter(|i| cp[*i].0 == 18).all(|i| code.contains(&i))
}
/// Indices of the constants that code loads or calls.
fn code_refs(b: &[u8]) -> std::collections::HashSet<usize> {
    let (cp, mut p) = scan(b);
    let u2 = |p: usize| u16::from_be_bytes([b[p], b[p + 1]]) as usize;
    let u4 = |p: usize| u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
    let mut s = std::collections::HashSet::new();
    p += 6;
    p += 2 + 2 * u2(p);
    for kind in 0..2 {
        let n = u2(p);
        p += 2;
        for _ in 0..n {
            let k = u2(p + 6);
            p += 8;
            for _ in 0..k {
                let (t, o) = cp[u2(p)];
                if kind == 1 && t == 1 && &b[o + 2..o + 2 + u2(o)] == b"Code" {
                    let start = p + 6 + 8;
                    let end = start + u4(p + 6 + 4);
                    let mut q = start;
                    while q < end {
                        let op = b[q];
                        match op { 18 => { s.insert(b[q + 1] as usize); } 19 | 20 | 186 => { s.insert(u2(q + 1)); } _ => {} }
                        q += match op {
                            16 | 18 | 21..=25 | 54..=58 | 169 | 188 => 2,
                            17 | 19 | 20 | 132 | 153..=168 | 178..=184 | 187 | 189 | 192 | 193 | 198 | 199 => 3,
                            185 | 186 | 200 | 201 => 5,
                            197 => 4,
                            196 => if b[q + 1] == 132 { 6 } else { 4 },
                            170 => { let a = q + 1 + (3 - (q - start) % 4); let (lo, hi) = (u4(a + 4) as u32 as i32, u4(a + 8) as u32 as i32); a + 12 + 4 * (hi as i64 - lo as i64 + 1) as usize - q }
                            171 => { let a = q + 1 + (3 - (q - start) % 4); a + 8 + 8 * u4(a + 4) - q }
                            _ => 1,
                        };
                    }
                }
                p += 6 + u4(p + 2);
            }
        }
    }
    s
}

// ---------- C14 ----------
fn small_cp() -> (MapCp, Vec<(u16, i32)>) {
    let mut cp = MapCp::new();
    let ints = [0, 1, 2, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, i32::MAX, i32::MIN];
    let mut v = vec![];
    for (k, i) in ints.into_iter().enumerate() { cp.entries.insert(k as u16 + 1, RawConstantEntry::Int(i)); v.push((k as u16 + 1, i)) }
    for (k, e) in [RawConstantEntry::Long(5), RawConstantEntry::Float(TotalF32(1.5)), RawConstantEntry::Double(TotalF64(2.5)), RawConstantEntry::WTF8(w_of(&"La/B;".into())), RawConstantEntry::WTF8(w_of(&"V".into())), RawConstantEntry::WTF8(w_of(&"x".into())), RawConstantEntry::Class(104), RawConstantEntry::String(106)].into_iter().enumerate() { cp.entries.insert(101 + k as u16, e); }
    (cp, v)
}
pub fn c14(c: &mut Ctx) {
    let n = c.n(12000, 300_000);
    random(c, "anns", n, P::anns, p_anns);
    counts(c, &[P::anns], p_anns);
    // every element tag with every kind of constant behind it
    c.once("tags", 0, |c, _| {
        let (mut cp, ints) = small_cp();
        for tag in 0..=255u8 {
            let idx: Vec<u16> = ints.iter().map(|x| x.0).chain(0..=0).chain(101..=109).chain([65535]).collect();
            for i in idx {
                let mut b = vec![tag];
                b.extend(i.to_be_bytes());
                if tag == b'e' { b.extend(106u16.to_be_bytes()) }
                if tag == b'@' { b.extend([0, 0]) }
                if tag == b'[' { b = vec![tag, 0, 0] }
                let int = ints.iter().find(|x| x.0 == i).map(|x| x.1);
                let rng = |lo: i32, hi: i32| int.filter(|v| *v >= lo && *v <= hi);
                let want: Option<V> = match tag {
                    b'B' => rng(-128, 127).map(V::Byte), b'C' => rng(0, 65535).map(V::Char), b'S' => rng(-32768, 32767).map(V::Short), b'Z' => rng(0, 1).map(V::Bool), b'I' => int.map(V::Int),
                    b'J' => (i == 101).then_some(V::Long(5)), b'F' => (i == 102).then_some(V::Float(1.5f32.to_bits())), b'D' => (i == 103).then_some(V::Double(2.5f64.to_bits())),
                    b's' => match i { 104 => Some(V::Str("La/B;".into())), 105 => Some(V::Str("V".into())), 106 => Some(V::Str("x".into())), _ => None },
                    b'e' => (i == 104).then(|| V::Enum("La/B;".into(), "x".into())),
                    b'c' => match i { 104 => Some(V::Class("La/B;".into())), 105 => Some(V::Class("V".into())), _ => None },
                    b'@' => (i == 104).then(|| V::Ann(Ann { ty: "La/B;".into(), vals: Default::default() })),
                    b'[' => Some(V::Arr(vec![])),
                    _ => None,
                };
                let mut s = &b[..];
                let got = match AnnotationValue::read_from(&mut cp, &mut s) { Ok(v) => Some(value(&v)?), Err(_) => None };
                c.inc("element_values_read");
                c.seen(&(tag, i));
                if got != want { return Err(format!("element value tag {tag:#x} ({:?}) with constant {i}: expected {want:?}, read {got:?}", tag as char)) }
                if got.is_some() && !s.is_empty() { return Err(format!("element value tag {tag:#x} left {} bytes", s.len())) }
            }
        }
        Ok(())
    });
    // every target tag at every place, every path kind
    c.once("targets", 1, |c, _| {
        let base = Ann { ty: "La/B;".into(), vals: Default::default() };
        for tag in 0..=255u8 {
            for loc in [Loc::Class, Loc::Field, Loc::Method, Loc::Code] {
                let ops: Vec<Vec<u8>> = match tag { 0 | 1 | 0x16 => vec![vec![0], vec![255], vec![7]], 0x10 | 0x11 | 0x12 | 0x17 => vec![vec![0, 0], vec![255, 255], vec![1, 2], vec![128, 0], vec![0, 128]], 0x40 | 0x41 => vec![vec![0, 0], vec![0, 1, 0, 0, 0, 3, 1, 2]], 0x42 => vec![vec![0, 0]], 0x43..=0x46 => vec![vec![0, 0], vec![0, 2]], 0x47..=0x4B => vec![vec![0, 0, 9], vec![0, 2, 255]], _ => vec![vec![], vec![0, 0]] };
                for op in ops {
                    // a raw attribute whose bytes the encoder takes as they are; index 1.. come from the hand-made pool
                    let mut body = vec![0, 1, tag];
                    body.extend(&op);
                    body.push(0);
                    let b = hand(loc, &body);
                    let want = decode(&b);
                    let got = read(&b).and_then(|m| norm(&m));
                    c.inc("type_annotation_targets");
                    c.seen(&(tag, op.clone(), loc as u8));
                    match (want, got) {
                        (Ok(w), Ok(g)) => { cmp(&format!("target {tag:#x} at {loc:?}"), &w, &g, p_anns)?; bytes_pipeline(c, &w, &b, p_anns)? }
                        (Ok(_), Err(e)) => return Err(format!("type annotation target {tag:#x} {op:?} at {loc:?}: {e}")),
                        (Err(e), Ok(_)) => return Err(format!("type annotation target {tag:#x} {op:?} at {loc:?} was accepted: {e}")),
                        (Err(_), Err(_)) => c.inc("type_annotation_targets_rejected"),
                    }
                }
            }
        }
        for k in 0..=255u8 {
            for a in [0u8, 1, 128, 255] {
                let b = hand_raw(Loc::Field, &{ let mut x = vec![0, 1, 0x13, 2, 0, 5, k, a]; x.extend([0, 6, 0, 0]); x });
                let (want, got) = (decode(&b), read(&b).and_then(|m| norm(&m)));
                c.inc("type_path_kinds");
                match (want, got) { (Ok(w), Ok(g)) => { cmp("type path", &w, &g, p_anns)?; bytes_pipeline(c, &w, &b, p_anns)? } (Err(_), Err(_)) => {} (w, g) => return Err(format!("type path kind {k}: reference {:?}, library {:?}", w.map(|_| ()), g.map(|_| ()))) }
            }
        }
        let _ = base;
        Ok(())
    });
    // out-of-range values inside whole classes
    let n = c.n(1500, 20_000);
    c.cases("range", n, |c, r| {
        let mut p = P::anns(r);
        p.raws = 0;
        let mut k = G::new(r, p).class();
        let bad = match r.below(4) { 0 => V::Byte(*r.pick(&[128, 255, -129, 256, i32::MAX, i32::MIN, 65408])), 1 => V::Char(*r.pick(&[-1, 65536, i32::MAX, i32::MIN])), 2 => V::Short(*r.pick(&[32768, -32769, 65535, i32::MIN, 98304])), _ => V::Bool(*r.pick(&[2, -1, 256, 257, i32::MIN])) };
        let v = match r.below(3) { 0 => bad, 1 => V::Arr(vec![V::Int(1), bad]), _ => V::Ann(Ann { ty: "LA;".into(), vals: [("v".into(), bad)].into_iter().collect() }) };
        let a = Ann { ty: "LB;".into(), vals: [("x".into(), v.clone())].into_iter().collect() };
        match r.below(4) {
            0 => k.attrs.push(A::Anns(true, vec![a])), 1 => k.fields[0].attrs.push(A::Anns(false, vec![a])),
            2 => k.methods[0].attrs.push(A::PAnns(true, vec![vec![], vec![a]])), _ => k.methods[0].attrs.push(A::AnnDefault(v)),
        }
        let o = enc::Opt::random(r);
        let b = match enc::encode(&k, &o, r) { Ok(b) => b, Err(_) => return Ok(()) };
        c.inc("out_of_range_values");
        match read(&b) { Err(_) => Ok(()), Ok(_) => Err(format!("a class with an annotation value out of range was accepted: {}", short(&k.attrs))) }
    });
    crate::textc::near_descs(c, 0..7);
    let e = c.n(4, 1);
    corpus(c, "corpus", e, p_anns);
}
/// A tiny class with one type-annotation attribute of the given bytes: the target, then an empty path, type "La/B;" and no elements.
fn hand(loc: Loc, body: &[u8]) -> Vec<u8> { let mut x = body.to_vec(); x.extend([0, 6, 0, 0]); hand_raw(loc, &x) }
fn hand_raw(loc: Loc, body: &[u8]) -> Vec<u8> {
    let mut b = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52, 0, 9];
    let utf = |b: &mut Vec<u8>, s: &str| { b.push(1); b.extend((s.len() as u16).to_be_bytes()); b.extend(s.bytes()) };
    utf(&mut b, "T");                    // 1
    b.extend([7, 0, 1]);                 // 2
    utf(&mut b, "I");                    // 3
    utf(&mut b, "()V");                  // 4
    utf(&mut b, "Code");                 // 5
    utf(&mut b, "La/B;");                // 6
    utf(&mut b, "RuntimeVisibleTypeAnnotations"); // 7
    utf(&mut b, "n");                    // 8
    let mut at = vec![0, 7];
    at.extend((body.len() as u32).to_be_bytes());
    at.extend(body);
    b.extend([0, 0x21, 0, 2, 0, 0, 0, 0]);
    let one = |b: &mut Vec<u8>, x: &[u8]| { b.extend([0, 1]); b.extend(x) };
    if loc == Loc::Field { b.extend([0, 1, 0, 0, 0, 8, 0, 3]); one(&mut b, &at) } else { b.extend([0, 0]) }
    match loc {
        Loc::Method => { b.extend([0, 1, 0, 0, 0, 8, 0, 4]); one(&mut b, &at) }
        Loc::Code => {
            b.extend([0, 1, 0, 0, 0, 8, 0, 4, 0, 1, 0, 5]);
            let mut x = vec![0, 1, 0, 1, 0, 0, 0, 4, 0, 0, 0, 177, 0, 1, 0, 0, 0, 3, 0, 3, 0, 0];
            one(&mut x, &at);
            b.extend((x.len() as u32).to_be_bytes());
            b.extend(x);
        }
        _ => b.extend([0, 0]),
    }
    if loc == Loc::Class { one(&mut b, &at) } else { b.extend([0, 0]) }
    b
}

// ---------- C15 ----------
pub fn c15(c: &mut Ctx) {
    let n = c.n(12000, 300_000);
    random(c, "debug", n, P::debug, p_debug);
    counts(c, &[P::debug], p_debug);
    crate::edit::around(c);
    let e = c.n(4, 1);
    corpus(c, "corpus", e, p_debug);
}

// ---------- C18 ----------
pub fn c18(c: &mut Ctx) {
    // not optimised, everything takes longer: the bit patterns only
    let part = c.part() == "debug";
    let n = if part { c.n(300, 6000) } else { c.n(9000, 200_000) };
    random(c, "consts", n, P::consts, p_consts);
    if !part { counts(c, &[P::consts], p_consts) }
    // sweeps over bit patterns in every position
    let n = if part { c.n(40, 1000) } else { c.n(300, 6000) };
    c.cases("bits", n, |c, r| {
        let mut k = one_method(vec![]);
        let mut ks = vec![];
        for _ in 0..120 { ks.push(match r.below(5) { 0 => K::Int(r.b32()), 1 => K::Float(r.f32bits()), 2 => K::Long(r.b64()), 3 => K::Double(r.f64bits()), _ => { let mut p = P::mixed(r); p.uni = true; p.lone = true; K::Str(G::new(r, p).text()) } }) }
        for x in &ks { c.seen(&format!("{x:?}")) }
        c.add("constants_placed", 3 * ks.len() as u64);
        let b = Arc::new(Bsm { kind: 6, mem: mem(MK::Method, "b", "b", "()V"), args: ks.clone() });
        if let A::Code(x) = &mut k.methods[0].attrs[0] { x.insns = ks.iter().cloned().map(I::Const).collect(); x.insns.push(I::Indy(Arc::new(Dyn { name: "i".into(), desc: "()V".into(), bsm: b.clone() }))) }
        for x in &ks { k.fields.push(Member { access: 0, name: "f".into(), desc: "I".into(), attrs: vec![A::ConstantValue(x.clone())] }) }
        let vals = ks.iter().map(|x| match x { K::Int(i) => V::Int(*i), K::Float(f) => V::Float(*f), K::Long(l) => V::Long(*l), K::Double(d) => V::Double(*d), K::Str(s) => V::Str(s.clone()), _ => unreachable!() }).collect();
        k.attrs.push(A::Anns(true, vec![Ann { ty: "LA;".into(), vals: [("v".into(), V::Arr(vals))].into_iter().collect() }]));
        k.bsms = vec![b];
        let o = enc::Opt::random(r);
        c.sample("bits", || short(&ks));
        pipeline(c, r, &k, &o, p_consts)
    });
    // every float exponent with edge mantissas, both signs
    let mut fs: Vec<u32> = vec![];
    for s in [0u32, 1] { for e in 0..=255u32 { for m in [0u32, 1, 0x40_0000, 0x3f_ffff, 0x7f_ffff] { fs.push(s << 31 | e << 23 | m) } } }
    let fs2 = fs.clone();
    chunked_const(c, "float_exponents", fs.len(), &move |i| K::Float(fs2[i]));
    let mut ds: Vec<u64> = vec![];
    for s in [0u64, 1] { for e in (0..=2047u64).step_by(if c.thorough { 1 } else { 7 }).chain([2046, 2047, 1023, 1024]) { for m in [0u64, 1, 1 << 51, (1 << 51) - 1, (1 << 52) - 1, 1 << 32] { ds.push(s << 63 | e << 52 | m) } } }
    let d2 = ds.clone();
    chunked_const(c, "double_exponents", ds.len(), &move |i| K::Double(d2[i]));
    floats(c, &fs, &ds);
}
fn chunked_const(c: &mut Ctx, stream: &str, n: usize, f: &dyn Fn(usize) -> K) {
    let per = 600;
    c.indexed(stream, n.div_ceil(per) as u64, |c, r, q| {
        let v: Vec<I> = (q as usize * per..((q as usize + 1) * per).min(n)).map(|i| I::Const(f(i))).collect();
        for i in &v { c.seen(&format!("{i:?}")) }
        c.add("constants_placed", v.len() as u64);
        let mut k = one_method(v.clone());
        for i in &v { if let I::Const(x) = i { k.fields.push(Member { access: 0, name: "f".into(), desc: "I".into(), attrs: vec![A::ConstantValue(x.clone())] }) } }
        let o = enc::Opt::random(r);
        pipeline(c, r, &k, &o, p_consts)
    });
}
fn floats(c: &mut Ctx, fs: &[u32], ds: &[u64]) {
    let n = c.n(400_000, 8_000_000);
    let fp: Vec<u32> = fs.to_vec();
    let dp: Vec<u64> = ds.to_vec();
    c.indexed("total", n / 1000, |c, r, _| {
        for _ in 0..1000 {
            let pf = |r: &mut Rng| if r.chance(1, 2) { *r.pick(&fp) } else { r.f32bits() };
            let (a, b) = (pf(r), pf(r));
            let b = if r.chance(1, 5) { a } else if r.chance(1, 5) { a ^ 1 << r.below(32) } else { b };
            let x = pf(r);
            law(TotalF32(f32::from_bits(a)), TotalF32(f32::from_bits(b)), TotalF32(f32::from_bits(x)), a == b, &format!("f32 {a:#x} {b:#x} {x:#x}"))?;
            let (fa, fb) = (f32::from_bits(a), TotalF32(f32::from_bits(b)));
            if (fb == fa) != (a == b) || (fa == fb) != (a == b) { return Err(format!("TotalF32 compared with f32: {a:#x} {b:#x}")) }
            if f32::from(TotalF32::from(fa)).to_bits() != a { return Err(format!("TotalF32 conversion changes {a:#x}")) }
            let pd = |r: &mut Rng| if r.chance(1, 2) { *r.pick(&dp) } else { r.f64bits() };
            let (a, b) = (pd(r), pd(r));
            let b = if r.chance(1, 5) { a } else if r.chance(1, 5) { a ^ 1 << r.below(64) } else { b };
            let x = pd(r);
            law(TotalF64(f64::from_bits(a)), TotalF64(f64::from_bits(b)), TotalF64(f64::from_bits(x)), a == b, &format!("f64 {a:#x} {b:#x} {x:#x}"))?;
            let (fa, fb) = (f64::from_bits(a), TotalF64(f64::from_bits(b)));
            if (fb == fa) != (a == b) || (fa == fb) != (a == b) { return Err(format!("TotalF64 compared with f64: {a:#x} {b:#x}")) }
            if f64::from(TotalF64::from(fa)).to_bits() != a { return Err(format!("TotalF64 conversion changes {a:#x}")) }
        }
        c.add("float_pairs_compared", 2000);
        Ok(())
    });
}
fn law<T: Ord + std::hash::Hash + Copy>(a: T, b: T, x: T, same: bool, w: &str) -> Res {
    if (a == b) != same { return Err(format!("equality of {w}: {}", a == b)) }
    if (a != b) == same { return Err(format!("inequality of {w}")) }
    let o = a.cmp(&b);
    if (o == Ordering::Equal) != same { return Err(format!("ordering of {w}: {o:?}")) }
    if b.cmp(&a) != o.reverse() { return Err(format!("ordering not antisymmetric: {w}")) }
    if a.partial_cmp(&b) != Some(o) || (a < b) != (o == Ordering::Less) || (a > b) != (o == Ordering::Greater) || (a <= b) == (o == Ordering::Greater) || (a >= b) == (o == Ordering::Less) { return Err(format!("partial ordering of {w} disagrees")) }
    if a <= b && b <= x && a > x { return Err(format!("ordering not transitive: {w}")) }
    if same && hash(&a) != hash(&b) { return Err(format!("hash of {w}")) }
    if a.max(b) != b.max(a) { return Err(format!("maximum of {w}")) }
    Ok(())
}

// ---------- C19 ----------
pub fn c19(c: &mut Ctx) {
    let n = c.n(12000, 300_000);
    random(c, "meta", n, P::meta, p_meta);
    counts(c, &[P::meta], p_meta);
    // attribute lengths that disagree with the content
    let n = c.n(12000, 200_000);
    c.cases("length", n, |c, r| {
        let mut p = match r.below(4) { 0 => P::mixed(r), 1 => P::debug(r), 2 => P::anns(r), _ => P::meta(r) };
        p.insns = p.insns.min(10);
        let k = G::new(r, p).class();
        let o = enc::Opt::random(r);
        let d = *r.pick(&[1i8, 1, 1, -1, -1, 2, 3, -2, 4, 40]);
        let (b, name) = match enc::encode_pad(&k, &o, r, d) { Ok(x) => x, Err(_) => return Ok(()) };
        let Some(name) = name else { return Ok(()) };
        // shortened content may accidentally mean something else; the reference knows
        if decode(&b).is_ok() { c.inc("length_still_valid"); return Ok(()) }
        c.inc(&format!("length_{name}"));
        c.seen(&b);
        c.sample("length", || format!("{name} {d:+} bytes"));
        match read(&b) { Err(_) => Ok(()), Ok(_) => Err(format!("attribute {name} with {d:+} bytes was accepted")) }
    });
    // names that are nearly those of known attributes
    c.indexed("near", (ATTRS.len() * NEAR * 4) as u64, |c, r, i| {
        let i = i as usize;
        let (loc, i) = (i % 4, i / 4);
        let a = A::Raw(near(ATTRS[i / NEAR], i % NEAR), (0..*r.pick(&[0, 1, 2, 4, 6, 8, 12])).map(|_| if r.chance(1, 2) { 0 } else { r.u8() }).collect());
        let mut k = one_method(vec![I::Op(177)]);
        k.fields.push(Member { access: 0, name: "f".into(), desc: "I".into(), attrs: vec![] });
        c.seen(&format!("near {loc} {i}"));
        c.inc("near_names");
        match loc { 0 => k.attrs.push(a), 1 => k.fields[0].attrs.push(a), 2 => k.methods[0].attrs.push(a), _ => if let A::Code(q) = &mut k.methods[0].attrs[0] { q.attrs.push(a) } }
        let o = enc::Opt::random(r);
        pipeline(c, r, &k, &o, p_meta)
    });
    // unknown attributes of odd names and sizes
    let n = c.n(400, 4000);
    c.cases("unknown", n, |c, r| {
        let mut p = P::meta(r);
        p.uni = true;
        let mut k = G::new(r, p).class();
        let size = *r.pick(&[0usize, 1, 2, 3, 255, 256, 257, 65535, 65536, 70000]);
        let name = { let mut p = P::meta(r); p.uni = true; p.lone = true; let mut s = S::from("x"); s = s.cat(&G::new(r, p).text()); s };
        let name = if r.chance(1, 3) { S::from(*r.pick(&["code", "Code ", "Synthetic2", "SYNTHETIC", "Deprecate", "", "RuntimeVisibleAnnotation", "LineNumberTables", "Module\u{0}", "\u{0}", "Record", "PermittedSubclasses"])) } else { name };
        let b: Vec<u8> = (0..size).map(|_| r.u8()).collect();
        let a = A::Raw(name, b);
        c.seen(&format!("{}{size}", short(&a)));
        c.inc("unknown_attributes");
        match r.below(4) { 0 => k.attrs.insert(0, a), 1 if !k.fields.is_empty() => k.fields[0].attrs.push(a), 2 if !k.methods.is_empty() => k.methods[0].attrs.push(a), _ => { let mut x = one_method(vec![I::Op(177)]); if let A::Code(q) = &mut x.methods[0].attrs[0] { q.attrs.push(a) } k.methods.extend(x.methods) } }
        let o = enc::Opt::random(r);
        pipeline(c, r, &k, &o, p_meta)
    });
    let e = c.n(4, 1);
    corpus(c, "corpus", e, p_meta);
}
