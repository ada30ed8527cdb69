//! C12 (constant-pool histories), C20 (flags and versions), C22 (method handles), C23 (stack-map frames).
use crate::ctx::*;
use crate::gen::{G, P};
use crate::model::*;
use crate::rcls::*;
use crate::rng::*;
use crate::text::*;
use crate::textc::{hex, ref_type};
use crate::{enc, pipe};
use coffer::cp::{MapCp, RawConstantEntry, VecCp};
use coffer::dynamic::{BootstrapMethod, Dynamic, OrDynamic};
use coffer::flags::*;
use coffer::code::{Label, RawFrame, VerificationType};
use coffer::prelude::{Constant, MemberRef, MethodHandle, MethodHandleKind, Type};
use coffer::version::JavaVersion;
use coffer::{ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter, ReadWrite};
use once_cell::sync::OnceCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

// ---------- C12 ----------
/// What the specification says is in a pool.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum E { Utf(S), Int(i32), Float(u32), Long(i64), Double(u64), One(u8, u16), Two(u8, u16, u16), Handle(u8, u16) }
fn ref_pool(b: &[u8]) -> Result<Vec<Option<E>>, String> {
    let n = u16::from_be_bytes(b.get(..2).ok_or("no count")?.try_into().unwrap()) as usize;
    let mut v = vec![None; n.max(1)];
    let (mut i, mut p) = (1, 2);
    let take = |p: &mut usize, k: usize| -> Result<&[u8], String> { let s = b.get(*p..*p + k).ok_or_else(|| format!("pool ends at {p}"))?; *p += k; Ok(s) };
    let h = |x: &[u8], i: usize| (x[i] as u16) << 8 | x[i + 1] as u16;
    while i < n {
        let t = take(&mut p, 1)?[0];
        let e = match t {
            1 => { let l = h(take(&mut p, 2)?, 0) as usize; E::Utf(from_mutf8(take(&mut p, l)?)?) }
            3 => E::Int(i32::from_be_bytes(take(&mut p, 4)?.try_into().unwrap())),
            4 => E::Float(u32::from_be_bytes(take(&mut p, 4)?.try_into().unwrap())),
            5 => E::Long(i64::from_be_bytes(take(&mut p, 8)?.try_into().unwrap())),
            6 => E::Double(u64::from_be_bytes(take(&mut p, 8)?.try_into().unwrap())),
            7 | 8 | 16 | 19 | 20 => E::One(t, h(take(&mut p, 2)?, 0)),
            9..=12 | 17 | 18 => { let x = take(&mut p, 4)?; E::Two(t, h(x, 0), h(x, 2)) }
            15 => { let x = take(&mut p, 3)?; E::Handle(x[0], h(x, 1)) }
            _ => return Err(format!("tag {t} in the pool")),
        };
        let w = matches!(e, E::Long(_) | E::Double(_));
        v[i] = Some(e);
        i += 1 + w as usize;
    }
    if i != n { return Err(format!("the last entry takes two indices but the count is {n}")) }
    if p != b.len() { return Err(format!("{} bytes after the pool", b.len() - p)) }
    Ok(v)
}
struct Pool(Vec<Option<E>>);
impl Pool {
    fn get(&self, i: u16) -> Option<&E> { self.0.get(i as usize)?.as_ref() }
    fn utf(&self, i: u16) -> Option<S> { match self.get(i)? { E::Utf(s) => Some(s.clone()), _ => None } }
    fn one(&self, t: u8, i: u16) -> Option<S> { match self.get(i)? { E::One(k, u) if *k == t => self.utf(*u), _ => None } }
    fn ty(&self, i: u16) -> Option<Type> { ref_type(&self.utf(i)?.codepoints(), false) }
    fn nat(&self, i: u16) -> Option<(S, Type)> { match self.get(i)? { E::Two(12, n, t) => Some((self.utf(*n)?, self.ty(*t)?)), _ => None } }
    fn member(&self, i: u16) -> Option<MemberRef> {
        let E::Two(t @ 9..=11, o, n) = self.get(i)? else { return None };
        let (name, ty) = self.nat(*n)?;
        Some(MemberRef { owner: w_of(&self.one(7, *o)?), name: w_of(&name), descriptor: ty, itfs: *t == 11 })
    }
    fn handle(&self, i: u16) -> Option<MethodHandle> { match self.get(i)? { E::Handle(k @ 1..=9, m) => Some(MethodHandle { kind: kind(*k), member: self.member(*m)? }), _ => None } }
    fn constant(&self, i: u16) -> Option<Constant> {
        Some(match self.get(i)? {
            E::Int(x) => Constant::I32(*x), E::Long(x) => Constant::I64(*x),
            E::Float(x) => Constant::F32(coffer::total_floats::TotalF32(f32::from_bits(*x))), E::Double(x) => Constant::F64(coffer::total_floats::TotalF64(f64::from_bits(*x))),
            E::One(8, u) => Constant::String(w_of(&self.utf(*u)?)), E::One(7, u) => Constant::Class(w_of(&self.utf(*u)?)),
            E::One(16, u) => Constant::MethodType(self.ty(*u)?),
            E::Handle(..) => Constant::MethodHandle(self.handle(i)?),
            E::Two(9..=11, ..) => Constant::Member(self.member(i)?),
            _ => return None,
        })
    }
    fn dynamic(&self, t: u8, i: u16) -> Option<(u16, S, Type)> { match self.get(i)? { E::Two(k, b, n) if *k == t => { let (n, t) = self.nat(*n)?; Some((*b, n, t)) } _ => None } }
    /// the tag of a member entry disagrees with its descriptor, or a method type is no method: not judged
    fn odd(&self, i: u16) -> bool {
        match self.get(i) {
            Some(E::Two(t @ 9..=11, _, n)) => self.nat(*n).is_some_and(|(_, d)| d.is_method() != (*t != 9)),
            Some(E::Two(t @ 17..=18, _, n)) => self.nat(*n).is_some_and(|(_, d)| d.is_method() != (*t == 18)),
            Some(E::Handle(_, m)) => matches!(self.get(*m), Some(E::Two(9..=11, ..))) && self.odd(*m),
            Some(E::One(16, u)) => self.ty(*u).is_some_and(|t| !t.is_method()),
            _ => false,
        }
    }
}
/// A reader on top of MapCp that notes which bootstrap methods are asked for.
struct Noting { inner: MapCp, later: Vec<u16> }
impl ConstantPoolReader for Noting {
    fn read_raw(&mut self, i: u16) -> Option<RawConstantEntry> { self.inner.read_raw(i) }
    fn resolve_later(&mut self, i: u16, c: Arc<OnceCell<BootstrapMethod>>) { self.later.push(i); self.inner.resolve_later(i, c) }
    fn bootstrap_methods(&mut self, b: &[BootstrapMethod]) -> coffer::Result<()> { self.inner.bootstrap_methods(b) }
}
fn raw_of(e: &RawConstantEntry) -> Result<E, String> {
    use RawConstantEntry::*;
    Ok(match e {
        WTF8(s) => E::Utf(s_of(s)?), Int(x) => E::Int(*x), Float(x) => E::Float(x.0.to_bits()), Long(x) => E::Long(*x), Double(x) => E::Double(x.0.to_bits()),
        Class(a) => E::One(7, *a), String(a) => E::One(8, *a), MethodType(a) => E::One(16, *a), Module(a) => E::One(19, *a), Package(a) => E::One(20, *a),
        Field(a, b) => E::Two(9, *a, *b), Method(a, b) => E::Two(10, *a, *b), InterfaceMethod(a, b) => E::Two(11, *a, *b), NameAndType(a, b) => E::Two(12, *a, *b), Dynamic(a, b) => E::Two(17, *a, *b), InvokeDynamic(a, b) => E::Two(18, *a, *b),
        MethodHandle(k, m) => E::Handle(*k, *m),
    })
}
fn u_raw(e: &E) -> RawConstantEntry {
    use RawConstantEntry::*;
    match e {
        E::Utf(s) => WTF8(w_of(s)), E::Int(x) => Int(*x), E::Float(x) => Float(coffer::total_floats::TotalF32(f32::from_bits(*x))), E::Long(x) => Long(*x), E::Double(x) => Double(coffer::total_floats::TotalF64(f64::from_bits(*x))),
        E::One(7, a) => Class(*a), E::One(8, a) => String(*a), E::One(16, a) => MethodType(*a), E::One(19, a) => Module(*a), E::One(_, a) => Package(*a),
        E::Two(9, a, b) => Field(*a, *b), E::Two(10, a, b) => Method(*a, *b), E::Two(11, a, b) => InterfaceMethod(*a, *b), E::Two(12, a, b) => NameAndType(*a, *b), E::Two(17, a, b) => Dynamic(*a, *b), E::Two(_, a, b) => InvokeDynamic(*a, *b),
        E::Handle(k, m) => MethodHandle(*k, *m),
    }
}
/// Something inserted, by meaning.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum L { Raw(E), Utf(S), K(K), Mem(Mem), Nat(S, S), Str(u8, S), Indy(Arc<Dyn>), Bsm(Arc<Bsm>) }
/// Equal meanings become equal keys.
fn key(l: &L) -> L {
    match l {
        L::Raw(E::Utf(s)) => L::Utf(s.clone()), L::Raw(E::Int(x)) => L::K(K::Int(*x)), L::Raw(E::Float(x)) => L::K(K::Float(*x)), L::Raw(E::Long(x)) => L::K(K::Long(*x)), L::Raw(E::Double(x)) => L::K(K::Double(*x)),
        L::Str(7, s) => L::K(K::Class(s.clone())), L::Str(8, s) => L::K(K::Str(s.clone())),
        l => l.clone(),
    }
}
fn insert(cp: &mut VecCp, l: &L, r: &mut Rng) -> u16 {
    match l {
        L::Raw(e) => cp.insert_raw(u_raw(e)),
        L::Utf(s) => cp.insert_wtf8(w_of(s)),
        L::Nat(n, d) => cp.insert_nameandtype(w_of(n), w_of(d)),
        L::Mem(m) => if r.chance(1, 2) { cp.insert_member(u_mem(m)) } else { cp.insert_constant(Constant::Member(u_mem(m))) },
        L::Str(t, s) => match t { 7 if r.chance(1, 2) => cp.insert_class(w_of(s)), 20 if r.chance(1, 2) => cp.insert_package(w_of(s)), _ => cp.insert_indirect_str(*t, w_of(s)) },
        L::Indy(d) => cp.insert_dynamic(u_dyn(d)),
        L::Bsm(b) => cp.insert_bsm(u_bsm(b)),
        L::K(k) => match k {
            K::Int(x) if r.chance(1, 2) => cp.insert_int(*x), K::Long(x) if r.chance(1, 2) => cp.insert_long(*x), K::Float(x) if r.chance(1, 2) => cp.insert_float(f32::from_bits(*x)), K::Double(x) if r.chance(1, 2) => cp.insert_double(f64::from_bits(*x)),
            K::Handle(q, m) if r.chance(1, 2) => cp.insert_method_handle(MethodHandle { kind: kind(*q), member: u_mem(m) }),
            K::Dyn(d) if r.chance(1, 2) => cp.insert_dynamic(u_dyn(d)),
            k => match u_konst(k) { OrDynamic::Static(c) if r.chance(1, 2) => cp.insert_constant(c), o => cp.insert_ordynamic(o, ConstantPoolWriter::insert_constant) },
        },
    }
}
fn vocab(r: &mut Rng, bsms: &[Arc<Bsm>], size: usize) -> Vec<L> {
    // a small vocabulary with many near misses, used over and over
    let mut names: Vec<S> = ["a", "b", "I", "", "Ljava/lang/Object;", "()V", "(I)V", "[I", "a\0", "\u{1f600}", "\u{e9}", "<init>", "java/lang/Object"].iter().map(|s| S::from(*s)).chain([S(vec![0xd800]), S(vec![0xdc00, 0x61]), S(vec![0xd83d])]).chain(dict().strs.iter().map(|s| S::from(s.as_str()))).collect();
    let mut fd: Vec<S> = ["I", "J", "[I", "[[J", "Ljava/lang/Object;", "La;", "Z"].iter().map(|s| S::from(*s)).collect();
    let mut md: Vec<S> = ["()V", "(I)V", "(IJ)I", "()La;", "([I[J)V", "()I"].iter().map(|s| S::from(*s)).collect();
    // long texts that differ in one place only
    if r.chance(1, 4) {
        let len = match r.special(2) { Some(x) if x < 20_000 => x as usize + r.below(3), _ => *r.pick(&[17usize, 24, 33, 40, 64, 65, 100, 128, 130, 200, 256, 300, 511, 513, 1000, 1025, 1500, 2050, 4097, 6000, 10_000, 20_000]) };
        let base: Vec<u16> = (0..len.max(2)).map(|_| if r.chance(1, 200) { 0xe9 } else { b"abc/"[r.below(4)] as u16 }).collect();
        let base: Vec<u16> = if r.chance(1, 2) { base.into_iter().map(|_| 0x61).collect() } else { base };
        let family: Vec<S> = (0..5).map(|q| { let mut b = base.clone(); let at = match q { 0 => b.len(), 1 => 0, 2 => b.len() / 2, 3 => b.len() - 1, _ => r.below(b.len()) }; if at < b.len() { b[at] = 0x7a } S(b) }).chain([S(base[..base.len() - 1].to_vec()), S(base.iter().copied().chain([0x62]).collect())]).collect();
        for f in &family { let t: String = f.0.iter().map(|u| if *u == 0x2f { 'c' } else { char::from_u32(*u as u32).unwrap() }).collect(); fd.push(S::from(format!("L{t};").as_str())); md.push(S::from(format!("(L{t};)V").as_str())) }
        if r.chance(1, 2) { names = family } else { names.extend(family) }
    }
    let mut v: Vec<L> = vec![];
    for _ in 0..size {
        // the text of an earlier one, divided otherwise
        if !v.is_empty() && r.chance(1, 4) {
            let mem = |name: &S, desc: &S| Mem { kind: if desc.0.first() == Some(&40) { MK::Method } else { MK::Field }, owner: S::from("a"), name: name.clone(), desc: desc.clone() };
            let t = match r.pick(&v) {
                L::Nat(n, d) => { let m = crate::gen::resplit(r, &mem(n, d), false); Some(L::Nat(m.name, m.desc)) }
                L::Mem(m) => { let t = crate::gen::resplit(r, m, false); Some(if r.chance(1, 4) { L::Nat(t.name, t.desc) } else { L::Mem(t) }) }
                L::K(K::Dyn(d)) | L::Indy(d) => { let m = crate::gen::resplit(r, &mem(&d.name, &d.desc), false); let call = m.kind != MK::Field; let d = Arc::new(Dyn { name: m.name, desc: m.desc, bsm: d.bsm.clone() }); Some(if call { L::Indy(d) } else { L::K(K::Dyn(d)) }) }
                _ => None,
            };
            if let Some(t) = t { v.push(t); continue }
        }
        let n = r.pick(&names).clone();
        let o = r.pick(&[S::from("a"), S::from("b/C"), S::from("[I"), S::from("java/lang/Object")]).clone();
        let m = match r.below(3) { 0 => Mem { kind: MK::Field, owner: o, name: n.clone(), desc: r.pick(&fd).clone() }, x => Mem { kind: if x == 1 { MK::Method } else { MK::IMethod }, owner: o, name: n.clone(), desc: r.pick(&md).clone() } };
        v.push(match r.below(18) {
            0 => L::Utf(n), 1 | 2 => L::K(K::Int(r.b32())), 3 => L::K(K::Int(*r.pick(&[0, 1, -1, 0x3f80_0000, i32::MIN]))), 4 | 5 => L::K(K::Long(r.b64())),
            6 => L::K(K::Float(r.f32bits())), 7 => L::K(K::Float(*r.pick(&[0, 0x8000_0000, 0x3f80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffc0_0000]))), 8 => L::K(K::Double(r.f64bits())), 9 => L::K(K::Double(*r.pick(&[0, 1 << 63, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 1]))),
            10 => L::K(K::Str(n)), 11 => L::Str(*r.pick(&[7, 8, 19, 20]), n), 12 => L::Mem(m), 13 => L::Nat(n, if r.chance(1, 2) { r.pick(&fd).clone() } else { r.pick(&md).clone() }),
            14 => L::K(K::MType(r.pick(&md).clone())),
            15 => L::K(K::Handle(match m.kind { MK::Field => 1 + r.below(4) as u8, _ => 5 + r.below(5) as u8 }, m)),
            16 if !bsms.is_empty() => { let b = r.pick(bsms).clone(); if r.chance(1, 2) { L::K(K::Dyn(Arc::new(Dyn { name: n, desc: r.pick(&fd).clone(), bsm: b }))) } else { L::Indy(Arc::new(Dyn { name: n, desc: r.pick(&md).clone(), bsm: b })) } }
            _ if !bsms.is_empty() && r.chance(1, 2) => L::Bsm(r.pick(bsms).clone()),
            _ => L::Raw(match r.below(4) { 0 => E::One(*r.pick(&[7, 8, 16, 19, 20]), r.below(40) as u16), 1 => E::Two(*r.pick(&[9, 10, 11, 12, 17, 18]), r.below(40) as u16, r.below(40) as u16), 2 => E::Handle(r.below(12) as u8, r.below(40) as u16), _ => E::Utf(n) }),
        })
    }
    v
}
/// What a lookup of `l` at its index must give.
fn lookup(p: &Pool, i: u16, l: &L) -> bool {
    let m_eq = |m: Option<MemberRef>, x: &Mem| m == Some(u_mem(x));
    match l {
        L::Raw(e) => p.get(i) == Some(e),
        L::Utf(s) => p.utf(i).as_ref() == Some(s),
        L::Nat(n, d) => p.nat(i) == Some((n.clone(), ty_of(d))),
        L::Mem(m) => m_eq(p.member(i), m),
        L::Str(t, s) => p.one(*t, i).as_ref() == Some(s),
        L::Indy(d) => p.dynamic(18, i).is_some_and(|(_, n, t)| n == d.name && t == ty_of(&d.desc)),
        L::K(K::Dyn(d)) => p.dynamic(17, i).is_some_and(|(_, n, t)| n == d.name && t == ty_of(&d.desc)),
        L::K(K::Handle(k, m)) => p.handle(i).is_some_and(|h| h.kind == kind(*k) && h.member == u_mem(m)),
        L::K(k) => match u_konst(k) { OrDynamic::Static(c) => p.constant(i) == Some(c), _ => false },
        L::Bsm(_) => true,
    }
}
fn collect(b: &Arc<Bsm>, o: &mut Vec<Arc<Bsm>>) { for a in &b.args { if let K::Dyn(d) = a { collect(&d.bsm, o) } } if !o.contains(b) { o.push(b.clone()) } }
/// every kind of lookup at one index against the reference
fn lookups(cp: &mut Noting, p: &Pool, i: u16, n: &mut u64) -> Res {
    macro_rules! same { ($w:expr, $got:expr, $want:expr) => {{ *n += 1; let (g, w) = ($got, $want); if g != w { return Err(format!("{} at index {i} (entry {:?}) gives {g:?}, expected {w:?}", $w, p.get(i))) } }} }
    let odd = p.odd(i);
    let e = cp.read_raw(i).map(|e| raw_of(&e)).transpose()?;
    same!("read_raw", e.as_ref(), p.get(i));
    same!("read_int", cp.read_int(i), match p.get(i) { Some(E::Int(x)) => Some(*x), _ => None });
    same!("read_long", cp.read_long(i), match p.get(i) { Some(E::Long(x)) => Some(*x), _ => None });
    same!("read_float", cp.read_float(i).map(f32::to_bits), match p.get(i) { Some(E::Float(x)) => Some(*x), _ => None });
    same!("read_double", cp.read_double(i).map(f64::to_bits), match p.get(i) { Some(E::Double(x)) => Some(*x), _ => None });
    same!("read_wtf8", cp.read_wtf8(i), p.utf(i).map(|s| w_of(&s)));
    for t in [7, 8, 19, 20] { same!(format!("read_indirect_str {t}"), cp.read_indirect_str(t, i), p.one(t, i).map(|s| w_of(&s))) }
    same!("read_class", cp.read_class(i), p.one(7, i).map(|s| w_of(&s)));
    same!("read_nameandtype", cp.read_nameandtype(i), p.nat(i).map(|(n, t)| (w_of(&n), t)));
    if odd { return Ok(()) }
    same!("read_member", cp.read_member(i), p.member(i));
    same!("read_method_handle", cp.read_method_handle(i), p.handle(i));
    same!("read_constant", cp.read_constant(i), p.constant(i));
    for t in [17u8, 18] {
        cp.later.clear();
        let d = if t == 17 { cp.read_dynamic(i) } else { cp.read_invokedynamic(i) };
        let w = p.dynamic(t, i);
        same!(format!("dynamic of tag {t}"), d.as_ref().map(|d| (d.name.clone(), d.descriptor.clone())), w.as_ref().map(|(_, n, t)| (w_of(n), t.clone())));
        same!(format!("bootstrap method of tag {t}"), cp.later.clone(), w.map(|w| vec![w.0]).unwrap_or_default());
    }
    cp.later.clear();
    match (cp.read_or_dynamic(i, ConstantPoolReader::read_constant), p.dynamic(17, i)) {
        (Some(OrDynamic::Dynamic(d)), Some((b, n, t))) => { same!("read_or_dynamic", (&d.name, &d.descriptor, cp.later.clone()), (&w_of(&n), &t, vec![b])) }
        (Some(OrDynamic::Static(k)), None) => { same!("read_or_dynamic", Some(k), p.constant(i)) }
        (None, None) => { same!("read_or_dynamic", p.constant(i), None) }
        (g, w) => return Err(format!("read_or_dynamic at {i}: {g:?}, expected {w:?}")),
    }
    Ok(())
}
fn pool_history(c: &mut Ctx, r: &mut Rng, steps: usize) -> Res {
    let mut g = G::small(r, P { bsms: 5, ..P::dynamic(&mut Rng::new(7)) });
    if g.r.chance(2, 3) { g.gen_bsms() }
    let bsms = std::mem::take(&mut g.bsms);
    let voc = vocab(r, &bsms, if steps > 100 { steps / 3 } else { 24 });
    let mut cp = VecCp::new();
    // index spaces: pool entries and bootstrap methods
    let mut at: HashMap<L, u16> = HashMap::new();
    let mut by: BTreeMap<(bool, u16), L> = BTreeMap::new();
    let mut trace = vec![];
    for _ in 0..steps {
        let l = r.pick(&voc).clone();
        let k = key(&l);
        let i = insert(&mut cp, &l, r);
        trace.push((l.clone(), i));
        let b = matches!(k, L::Bsm(_));
        if i == 0 && !b { return Err(format!("{l:?} got index 0")) }
        if let Some(j) = at.get(&k) { c.inc("inserted_again"); if *j != i { return Err(format!("{l:?} had index {j} and now {i}")) } }
        else {
            c.inc("inserted");
            // a raw entry may denote the same thing as a composed one; whether it does shows in the pool below
            if !matches!(k, L::Raw(_)) { if let Some(o) = by.get(&(b, i)) { return Err(format!("index {i} was given to {o:?} and to {k:?}")) } by.insert((b, i), k.clone()); }
            at.insert(k, i);
        }
    }
    // where the bootstrap methods went
    let mut all = vec![];
    for (l, _) in &trace { match l { L::Bsm(b) => collect(b, &mut all), L::Indy(d) | L::K(K::Dyn(d)) => collect(&d.bsm, &mut all), _ => {} } }
    let mut table: BTreeMap<u16, Arc<Bsm>> = BTreeMap::new();
    for b in &all { let i = cp.insert_bsm(u_bsm(b)); if let Some(o) = table.insert(i, b.clone()) { return Err(format!("bootstrap methods {o:?} and {b:?} share index {i}")) } if let Some(j) = at.get(&L::Bsm(b.clone())) { if *j != i { return Err(format!("bootstrap method {b:?} had index {j} and now {i}")) } } }
    c.max("pool_entries", at.len() as u64);
    let mut buf = vec![];
    cp.write_to(&mut buf).map_err(|e| format!("the pool was not written: {e}"))?;
    let mut again = vec![];
    cp.write_to(&mut again).map_err(|e| format!("the pool was not written again: {e}"))?;
    if again != buf { return Err("writing the pool twice gives different bytes".into()) }
    let p = Pool(ref_pool(&buf)?);
    let mut seen = HashMap::new();
    for (i, e) in p.0.iter().enumerate() { if let Some(e) = e { if let Some(j) = seen.insert(e.clone(), i) { return Err(format!("indices {j} and {i} both hold {e:?}")) } } }
    for (l, i) in &trace { if !lookup(&p, *i, l) { return Err(format!("{l:?} was inserted at {i}, where the written pool has {:?}", p.get(*i))) } }
    let mut rest = &buf[..];
    let inner = MapCp::read_from(&mut rest).map_err(|e| format!("the written pool is not read: {e}"))?;
    if !rest.is_empty() { return Err(format!("{} bytes of the pool not read", rest.len())) }
    if inner.entries.len() != seen.len() { return Err(format!("{} entries read of {}", inner.entries.len(), seen.len())) }
    let mut cp2 = Noting { inner, later: vec![] };
    let mut n = 0;
    for i in 0..p.0.len() as u16 + 2 { lookups(&mut cp2, &p, i, &mut n)? }
    for i in [65534, 65535, r.u16()] { lookups(&mut cp2, &p, i, &mut n)? }
    c.add("lookups", n);
    // resolution
    let dense = table.keys().copied().eq(0..table.len() as u16);
    if !dense { return Err(format!("bootstrap methods have the indices {:?}", table.keys())) }
    let full: Vec<BootstrapMethod> = table.values().map(|b| u_bsm(b)).collect();
    let mut used = 0;
    for cut in [full.len(), full.len() / 2] {
        let mut m = MapCp::read_from(&mut &buf[..]).map_err(|e| e.to_string())?;
        let mut ds: Vec<(u16, Dynamic, Arc<Dyn>)> = vec![];
        for (l, i) in &trace {
            if let L::Indy(d) | L::K(K::Dyn(d)) = l {
                let t = if matches!(l, L::Indy(_)) { 18 } else { 17 };
                let g = if t == 18 { m.read_invokedynamic(*i) } else { m.read_dynamic(*i) }.ok_or_else(|| format!("{d:?} is not found at {i}"))?;
                ds.push((p.dynamic(t, *i).unwrap().0, g, d.clone()));
            }
        }
        let missing = ds.iter().any(|d| d.0 as usize >= cut);
        match m.bootstrap_methods(&full[..cut]) {
            Ok(()) if missing => return Err(format!("bootstrap methods of {} were accepted although a dynamic uses a later one", cut)),
            Err(e) if !missing => return Err(format!("bootstrap methods rejected: {e}")),
            Err(_) => { c.inc("missing_bootstrap_method_reported"); continue }
            Ok(()) => {}
        }
        for (i, g, d) in &ds {
            used += 1;
            match g.bsm.get() { None => return Err(format!("{d:?} was not resolved")), Some(x) => if bsm(x, 0)? != *d.bsm { return Err(format!("dynamic with bootstrap method {i} was resolved to {x:?}, expected {:?}", d.bsm)) } }
        }
    }
    c.add("dynamics_resolved", used);
    c.seen(&trace);
    c.sample("history", || format!("{:?}", &trace[..trace.len().min(8)]));
    Ok(())
}
pub fn c12(c: &mut Ctx) {
    let n = c.n(20_000, 400_000);
    c.cases("histories", n, |c, r| { let s = 1 + r.below(60); pool_history(c, r, s) });
    let n = c.n(40, 1000);
    c.cases("long histories", n, |c, r| { let s = match r.special(3) { Some(x) if x < 20_000 => x as usize + r.below(3), _ => 200 + r.below(2000) }; pool_history(c, r, s) });
    // indices stay put up to the very end of the pool
    c.indexed("filling up", 16, |c, r, q| {
        let mut cp = VecCp::new();
        let (mut at, mut len): (Vec<(L, u16)>, u32) = (vec![], 1);
        let mut k = 0i64;
        let end = 65535 - q as u32 % 4;
        while len < end {
            let wide = r.chance(1, 3) && len + 2 <= end;
            let l = match (wide, r.below(3)) { (true, 0) => L::K(K::Double(k as u64)), (true, _) => L::K(K::Long(k)), (_, 0) => L::K(K::Int(k as i32)), (_, 1) => L::K(K::Float(k as u32)), _ => L::Utf(S::from(&k.to_string()[..])) };
            k += 1;
            len += 1 + wide as u32;
            let i = insert(&mut cp, &l, r);
            at.push((l, i));
            if k % 4096 == 0 { let (l, i) = r.pick(&at); let j = insert(&mut cp, l, r); if j != *i { return Err(format!("{l:?} had index {i} and now {j}")) } }
        }
        for (l, i) in &at { let j = insert(&mut cp, l, r); if j != *i { return Err(format!("{l:?} had index {i} and now {j}, with {len} slots used")) } }
        let mut b = vec![];
        cp.write_to(&mut b).map_err(|e| format!("a pool of {len} is not written: {e}"))?;
        let p = Pool(ref_pool(&b)?);
        if p.0.len() != len as usize { return Err(format!("pool count {} instead of {len}", p.0.len())) }
        let mut m = Noting { inner: MapCp::read_from(&mut &b[..]).map_err(|e| e.to_string())?, later: vec![] };
        let mut n = 0;
        for (l, i) in &at { if !lookup(&p, *i, l) { return Err(format!("{l:?} was inserted at {i}, where the written pool has {:?}", p.get(*i))) } }
        for i in 0..=65535u16 { lookups(&mut m, &p, i, &mut n)?; }
        c.add("lookups", n); c.inc("full_pools"); c.seen(&("full", q));
        c.tick();
        // over the limit: what was there keeps its index, and the pool is not written
        for x in 0..3 + q as i64 { let i = cp.insert_long(-1 - x); let _ = i; }
        for (l, i) in at.iter().step_by(7) { let j = insert(&mut cp, l, r); if j != *i { return Err(format!("{l:?} had index {i} and now {j}, with the pool full")) } }
        if cp.write_to(&mut vec![]).is_ok() { return Err("an overfull pool was written".into()) }
        Ok(())
    });
}

// ---------- C20 ----------
fn flags_of<F: ReadWrite + Copy>(c: &mut Ctx, name: &str, mask: u16, named: &[(&str, u16, u16)], bits: impl Fn(F) -> u16, make: impl Fn(u16) -> F, q: u64) -> Res {
    for (n, got, want) in named { if got != want { return Err(format!("{name}::{n} is {got:#06x}, the specification says {want:#06x}")) } }
    let all: u16 = named.iter().fold(0, |a, x| a | x.2);
    if all != mask { return Err(format!("harness: {name} mask {mask:#x} vs {all:#x}")) }
    for w in q as u32 * 4096..(q as u32 + 1) * 4096 {
        let w = w as u16;
        let f = F::read_from(&mut &w.to_be_bytes()[..]).map_err(|e| format!("{name} {w:#06x}: {e}"))?;
        if bits(f) != w & mask { return Err(format!("{name} {w:#06x} is read as {:#06x}, expected {:#06x}", bits(f), w & mask)) }
        let mut o = vec![];
        f.write_to(&mut o).map_err(|e| format!("{name} {w:#06x}: {e}"))?;
        if o != (w & mask).to_be_bytes() { return Err(format!("{name} {w:#06x} is written as {}", hex(&o))) }
        let mut o = vec![];
        make(w & mask).write_to(&mut o).map_err(|e| format!("{name}: {e}"))?;
        if o != (w & mask).to_be_bytes() { return Err(format!("{name} with bits {:#06x} is written as {}", w & mask, hex(&o))) }
        c.inc("flag_words");
    }
    c.seen(&(name, q));
    Ok(())
}
macro_rules! fl { ($c:expr, $t:ident, $mask:expr, $q:expr, $($n:ident = $v:expr),*) => { flags_of::<$t>($c, stringify!($t), $mask, &[$((stringify!($n), $t::$n.bits(), $v)),*], |f: $t| f.bits(), |b| { let mut f = $t::empty(); $(if b & $v != 0 { f |= $t::$n; })* f }, $q)? } }
const NAMES: [&str; 15] = ["", "JDK 1.2", "JDK 1.3", "JDK 1.4", "Java SE 5.0", "Java SE 6.0", "Java SE 7", "Java SE 8", "Java SE 9", "Java SE 10", "Java SE 11", "Java SE 12", "Java SE 13", "Java SE 14", "Java SE 15"];
pub fn c20(c: &mut Ctx) {
    c.indexed("flags", 16, |c, _, q| {
        fl!(c, ClassFlags, CLASS_FLAGS, q, ACC_PUBLIC = 1, ACC_FINAL = 0x10, ACC_SUPER = 0x20, ACC_INTERFACE = 0x200, ACC_ABSTRACT = 0x400, ACC_SYNTHETIC = 0x1000, ACC_ANNOTATION = 0x2000, ACC_ENUM = 0x4000, ACC_MODULE = 0x8000);
        fl!(c, FieldFlags, FIELD_FLAGS, q, ACC_PUBLIC = 1, ACC_PRIVATE = 2, ACC_PROTECTED = 4, ACC_STATIC = 8, ACC_FINAL = 0x10, ACC_VOLATILE = 0x40, ACC_TRANSIENT = 0x80, ACC_SYNTHETIC = 0x1000, ACC_ENUM = 0x4000);
        fl!(c, MethodFlags, METHOD_FLAGS, q, ACC_PUBLIC = 1, ACC_PRIVATE = 2, ACC_PROTECTED = 4, ACC_STATIC = 8, ACC_FINAL = 0x10, ACC_SYNCHRONIZED = 0x20, ACC_BRIDGE = 0x40, ACC_VARARGS = 0x80, ACC_NATIVE = 0x100, ACC_ABSTRACT = 0x400, ACC_STRICT = 0x800, ACC_SYNTHETIC = 0x1000);
        fl!(c, InnerClassFlags, INNER_FLAGS, q, ACC_PUBLIC = 1, ACC_PRIVATE = 2, ACC_PROTECTED = 4, ACC_STATIC = 8, ACC_FINAL = 0x10, ACC_INTERFACE = 0x200, ACC_ABSTRACT = 0x400, ACC_SYNTHETIC = 0x1000, ACC_ANNOTATION = 0x2000, ACC_ENUM = 0x4000);
        fl!(c, MethodParameterFlags, PARAM_FLAGS, q, ACC_FINAL = 0x10, ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000);
        fl!(c, ModuleFlags, MODULE_FLAGS, q, ACC_OPEN = 0x20, ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000);
        fl!(c, RequireFlags, REQUIRE_FLAGS, q, ACC_TRANSITIVE = 0x20, ACC_STATIC_PHASE = 0x40, ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000);
        fl!(c, ExOpFlags, EXOP_FLAGS, q, ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000);
        Ok(())
    });
    // every version, alone and in a class
    let base = enc::encode(&Cls { minor: 0, major: 52, access: 0x21, this: "T".into(), sup: Some("java/lang/Object".into()), ifaces: vec![], fields: vec![], methods: vec![], attrs: vec![], bsms: vec![], has_bsm_attr: false }, &enc::Opt::plain(), &mut Rng::new(1)).expect("base class");
    c.indexed("versions", 512, |c, _, q| {
        for major in q as u16 * 128..=q as u16 * 128 + 127 {
            let minors: Vec<u16> = if (45..=59).contains(&major) { (0..=65535).collect() } else { vec![0, 1, 3, 45, 65535] };
            for minor in minors {
                let b = [minor.to_be_bytes(), major.to_be_bytes()].concat();
                let v = JavaVersion::read_from(&mut &b[..]);
                let ok = (45..=59).contains(&major);
                match v {
                    Ok(v) if ok => {
                        if v.minor != minor || major_no(v.major)? != major { return Err(format!("version {major}.{minor} is read as {v:?}")) }
                        if (v.major as u16) != major { return Err(format!("{:?} as a number is {}", v.major, v.major as u16)) }
                        let mut o = vec![];
                        v.write_to(&mut o).map_err(|e| e.to_string())?;
                        if o != b { return Err(format!("version {major}.{minor} is written as {}", hex(&o))) }
                        if minor < 16 || minor % 4099 == 0 || minor == 65535 {
                            let w = format!("{} minor version {minor}", if major == 45 { if minor <= 3 { "JDK 1.0.2" } else { "JDK 1.1" } } else { NAMES[major as usize - 45] });
                            if v.to_string() != w { return Err(format!("version {major}.{minor} is shown as {v}, expected {w}")) }
                            c.inc("shown");
                        }
                        c.inc("versions");
                    }
                    Err(_) if !ok => c.inc("versions_rejected"),
                    Ok(v) => return Err(format!("version {major}.{minor} is accepted as {v:?}")),
                    Err(e) => return Err(format!("version {major}.{minor} is rejected: {e}")),
                }
                if minor < 4 || minor == 65535 {
                    let mut k = base.clone();
                    k[4..8].copy_from_slice(&b);
                    match (pipe::read(&k), ok) {
                        (Ok(x), true) => { if x.version.minor != minor || major_no(x.version.major)? != major { return Err(format!("class of version {major}.{minor} is read as {:?}", x.version)) } let w = pipe::write(&x)?; if w[..8] != k[..8] { return Err(format!("class of version {major}.{minor} is written with header {}", hex(&w[..8]))) } }
                        (Err(_), false) => {}
                        (Ok(_), false) => return Err(format!("a class of version {major}.{minor} is accepted")),
                        (Err(e), true) => return Err(format!("a class of version {major}.{minor} is rejected: {e}")),
                    }
                    c.inc("classes");
                }
            }
            c.tick();
            if (45..=59).contains(&major) { c.seen(&("version", major)) }
        }
        Ok(())
    });
    c.once("constants", 3, |_, _| {
        let j = JavaVersion::J8;
        if j.minor != 0 || major_no(j.major)? != 52 { return Err(format!("JavaVersion::J8 is {j:?}")) }
        let mut o = vec![];
        j.write_to(&mut o).map_err(|e| e.to_string())?;
        if o != [0, 0, 0, 52] { return Err(format!("JavaVersion::J8 is written as {}", hex(&o))) }
        Ok(())
    });
    // every combination of the flags of members, parameters, inner classes and directives, in classes of every kind
    c.indexed("combinations", 512 * 3, |c, r, q| {
        let spread = |q: u16, mask: u16| { let (mut w, mut b) = (0u16, 0); for i in 0..16 { if mask >> i & 1 == 1 { if q >> b & 1 == 1 { w |= 1 << i } b += 1 } } w };
        let mut k = crate::content::one_method(vec![I::Op(177)]);
        k.major = 45 + (q % 15) as u16;
        k.access = spread((q / 3) as u16, CLASS_FLAGS);
        let part = (q / 3) as u16;
        let code = k.methods[0].attrs.clone();
        k.methods = (0..8u16).map(|i| { let w = part * 8 + i; Member { access: spread(w, METHOD_FLAGS), name: ["m", "<init>", "<clinit>"][(q % 3) as usize].into(), desc: "()V".into(), attrs: if r.chance(1, 2) { code.clone() } else { vec![] } } }).collect();
        k.methods[0].attrs.push(A::MethodParameters((0..8).map(|w| (None, spread(w, PARAM_FLAGS))).collect()));
        k.fields = vec![Member { access: spread(part, FIELD_FLAGS), name: "f".into(), desc: "I".into(), attrs: if q % 3 == 0 { vec![A::ConstantValue(K::Int(1))] } else { vec![] } }];
        k.attrs.push(A::InnerClasses((0..2u16).map(|i| ("T$I".into(), if q % 3 == 1 { None } else { Some("T".into()) }, if q % 3 == 2 { None } else { Some("I".into()) }, spread(part * 2 + i, INNER_FLAGS))).collect()));
        if q % 3 == 0 { k.attrs.push(A::Module(Box::new(Module { name: "m".into(), flags: spread(part % 8, MODULE_FLAGS), version: None, requires: (0..16).map(|w| ("r".into(), spread(w, REQUIRE_FLAGS), None)).collect(), exports: (0..4).map(|w| ("e".into(), spread(w, EXOP_FLAGS), vec![])).collect(), opens: (0..4).map(|w| ("o".into(), spread(w, EXOP_FLAGS), vec!["x".into()])).collect(), uses: vec![], provides: vec![] }))) }
        c.inc("combinations");
        c.seen(&("combination", q));
        pipe::pipeline(c, r, &k, &enc::Opt::plain(), pipe::all)
    });
    c.indexed("magic", 32, |c, r, q| {
        for k in 0..40u32 {
            let m = if k == 0 { 0xCAFEBABEu32 ^ 1 << q } else if k == 1 { 0xCAFEBABEu32.swap_bytes() } else if k == 2 { !0xCAFEBABEu32 } else if k == 3 { 0 } else { r.u32() };
            if m == 0xCAFEBABE { continue }
            let mut b = base.clone();
            b[..4].copy_from_slice(&m.to_be_bytes());
            if pipe::read(&b).is_ok() { return Err(format!("magic number {m:#010x} is accepted")) }
            c.inc("wrong_magic_rejected");
            c.seen(&("magic", m));
        }
        Ok(())
    });
    // flags where they stand in a class: every single bit and random words at every place
    let n = c.n(3000, 100_000);
    c.cases("flags in classes", n, |c, r| {
        let k = { let p = P::meta(r); let mut g = G::new(r, p); let mut k = g.class(); if k.fields.is_empty() { k.fields.push(g.gfield()) } if k.methods.is_empty() { k.methods.push(g.gmethod()) } k };
        let mut k = k;
        let mut w = |m: u16| (match r.below(3) { 0 => 1 << r.below(16), 1 => r.u16(), _ => 0xffff }, m);
        let mut want = k.clone();
        macro_rules! set { ($a:expr, $b:expr, $m:expr) => {{ let (x, m) = w($m); $a = x; $b = x & m; }} }
        set!(k.access, want.access, CLASS_FLAGS);
        for (a, b) in k.fields.iter_mut().zip(want.fields.iter_mut()) { set!(a.access, b.access, FIELD_FLAGS) }
        for (a, b) in k.methods.iter_mut().zip(want.methods.iter_mut()) {
            set!(a.access, b.access, METHOD_FLAGS);
            for (x, y) in a.attrs.iter_mut().zip(b.attrs.iter_mut()) { if let (A::MethodParameters(x), A::MethodParameters(y)) = (x, y) { for (p, q) in x.iter_mut().zip(y.iter_mut()) { set!(p.1, q.1, PARAM_FLAGS) } } }
        }
        for (x, y) in k.attrs.iter_mut().zip(want.attrs.iter_mut()) {
            match (x, y) {
                (A::InnerClasses(x), A::InnerClasses(y)) => for (p, q) in x.iter_mut().zip(y.iter_mut()) { set!(p.3, q.3, INNER_FLAGS) },
                (A::Module(x), A::Module(y)) => {
                    set!(x.flags, y.flags, MODULE_FLAGS);
                    for (p, q) in x.requires.iter_mut().zip(y.requires.iter_mut()) { set!(p.1, q.1, REQUIRE_FLAGS) }
                    for (p, q) in x.exports.iter_mut().zip(y.exports.iter_mut()) { set!(p.1, q.1, EXOP_FLAGS) }
                    for (p, q) in x.opens.iter_mut().zip(y.opens.iter_mut()) { set!(p.1, q.1, EXOP_FLAGS) }
                    c.inc("modules");
                }
                _ => {}
            }
        }
        let b = { let o = enc::Opt::random(r); match enc::encode(&k, &o, r) { Ok(b) => b, Err(_) => { c.inc("too_big_to_encode"); return Ok(()) } } };
        let x = pipe::read(&b)?;
        pipe::cmp("read", &want, &norm(&x)?, pipe::all)?;
        let w = pipe::write(&x)?;
        pipe::cmp("written", &want, &decode(&w)?, pipe::all)?;
        c.inc("classes_with_random_flags");
        c.seen(&(k.access, k.fields.iter().map(|f| f.access).collect::<Vec<_>>(), k.methods.iter().map(|f| f.access).collect::<Vec<_>>()));
        Ok(())
    });
}

// ---------- C22 ----------
fn rule(k: u8, d: &Type, name: &S) -> bool {
    let method = matches!(d, Type::Method { .. });
    if (k <= 4) == method { return false }
    if name.is("<clinit>") { return false }
    (k == 8) == name.is("<init>")
}
pub fn c22(c: &mut Ctx) {
    let names: Vec<S> = ["<init>", "<clinit>", "", "<", "<>", "init", "clinit", "<init", "init>", "<init> ", " <init>", "<Init>", "<INIT>", "<init>\0", "<clinit", "clinit>", "<clinit>x", "x<clinit>", "<cinit>", "<init>V", "<\u{131}nit>", "<clin\u{131}t>", "a", "m", "run", "\u{1f600}", "<init><init>", "<clinit><init>"].iter().map(|s| S::from(*s)).chain([S(vec![0xd800]), S("<init>".encode_utf16().chain([0xd83d]).collect()), S([0xdc00].into_iter().chain("<init>".encode_utf16()).collect())]).collect();
    let types: Vec<Type> = vec![Type::Byte, Type::Char, Type::Double, Type::Float, Type::Int, Type::Long, Type::Boolean, Type::Short, Type::Ref(w_of(&"a/B".into())), Type::Ref(w_of(&"".into())), Type::ArrayRef(1, Box::new(Type::Int)), Type::ArrayRef(255, Box::new(Type::Ref(w_of(&"()V".into())))),
        Type::Method { parameters: vec![], ret: None }, Type::Method { parameters: vec![Type::Int], ret: None }, Type::Method { parameters: vec![], ret: Some(Box::new(Type::Ref(w_of(&"a".into())))) }, Type::Method { parameters: vec![Type::Long, Type::ArrayRef(2, Box::new(Type::Double))], ret: Some(Box::new(Type::ArrayRef(1, Box::new(Type::Byte)))) }];
    let one = |c: &mut Ctx, k: u8, t: &Type, n: &S, owner: &S, itfs: bool| -> Res {
        let h = MethodHandle { kind: kind(k), member: MemberRef { owner: w_of(owner), name: w_of(n), descriptor: t.clone(), itfs } };
        let want = rule(k, t, n);
        let got = guard(|| h.check()).map_err(|e| format!("check of {h:?}: {e}"))?;
        if got.is_ok() != want { return Err(format!("check of {h:?} gives {got:?}, the documented rules say {}", if want { "valid" } else { "invalid" })) }
        c.inc(if want { "accepted" } else { "rejected" });
        // written on its own
        let mut cp = VecCp::new();
        let mut b = vec![];
        match (ConstantPoolReadWrite::write_to(&h, &mut cp, &mut b), want) {
            (Ok(()), true) => { if b.len() != 3 || b[0] != k { return Err(format!("{h:?} is written as {}", hex(&b))) } for cut in 0..3 { if ConstantPoolReadWrite::write_to(&h, &mut VecCp::new(), &mut &mut [0u8; 3][..cut]).is_ok() { return Err(format!("{h:?} is written to a sink of {cut} bytes")) } } }
            (Err(_), false) => {}
            (Ok(()), false) => return Err(format!("invalid {h:?} is written")),
            (Err(e), true) => return Err(format!("valid {h:?} is not written: {e}")),
        }
        // read on its own
        let mut cp = VecCp::new();
        let m = cp.insert_member(h.member.clone());
        let mut pb = vec![];
        cp.write_to(&mut pb).map_err(|e| e.to_string())?;
        let mut rd = MapCp::read_from(&mut &pb[..]).map_err(|e| e.to_string())?;
        let mb = [k, (m >> 8) as u8, m as u8];
        // an interface flag on a field is documented to be ignored; an empty class name cannot come back from text
        let mut exp = h.clone();
        if !t.is_method() { exp.member.itfs = false }
        match (<MethodHandle as ConstantPoolReadWrite>::read_from(&mut rd, &mut &mb[..]), want) {
            (Ok(x), true) => { if x != exp { return Err(format!("{h:?} is read as {x:?}")) } }
            (Err(_), false) => {}
            (Ok(x), false) => return Err(format!("invalid {x:?} is read")),
            (Err(e), true) => return Err(format!("valid {h:?} is not read: {e}")),
        }
        // other numbers are no kinds
        let bad = [0u8, 10, 255][(m as usize + k as usize) % 3];
        if let Ok(x) = <MethodHandle as ConstantPoolReadWrite>::read_from(&mut rd, &mut &[bad, mb[1], mb[2]][..]) { return Err(format!("kind {bad} is read as {x:?}")) }
        Ok(())
    };
    c.indexed("combinations", 9, |c, r, q| {
        let k = q as u8 + 1;
        for t in types.iter().filter(|t| !matches!(t, Type::Ref(s) if s.is_empty())) { for n in &names { for itfs in [false, true] { one(c, k, t, n, r.pick(&[S::from("a/B"), S::from("[I"), S::from("<init>")]), itfs)?; c.seen(&(k, t, n, itfs)); } } }
        Ok(())
    });
    let n = c.n(20_000, 1_000_000);
    c.cases("random handles", n, |c, r| {
        let p = P { uni: r.chance(1, 2), lone: r.chance(1, 4), ..P::dynamic(r) };
        let mut g = G::new(r, p);
        let (k, d) = (1 + g.r.below(9) as u8, if g.r.chance(1, 2) { g.fdesc() } else { g.mdesc() });
        let n = if g.r.chance(1, 3) { S::from(if g.r.chance(1, 2) { "<init>" } else { "<clinit>" }) } else { g.name() };
        let o = g.cref();
        let i = g.r.chance(1, 2);
        if [&d, &n, &o].iter().any(|s| s.mutf8_len() > 65535) { return Ok(()) }
        c.seen(&(k, &d, &n, i));
        c.sample("handle", || format!("kind {k} {o:?} {n:?} {d:?}"));
        one(c, k, &ty_of(&d), &n, &o, i)
    });
    c.indexed("kinds", 256, |c, _, q| {
        let k = q as u8;
        let ok = (1..=9).contains(&k);
        c.seen(&("kind", k));
        match (MethodHandleKind::try_from(k), ok) { (Ok(x), true) => if x != kind(k) || x as u8 != k { return Err(format!("kind {k} is {x:?}")) }, (Err(e), false) => if e != k { return Err(format!("kind {k} is rejected as {e}")) }, (x, _) => return Err(format!("kind {k} gives {x:?}")) }
        match (<MethodHandleKind as ReadWrite>::read_from(&mut &[k][..]), ok) { (Ok(x), true) => { if x != kind(k) { return Err(format!("kind {k} is read as {x:?}")) } let mut o = vec![]; x.write_to(&mut o).map_err(|e| e.to_string())?; if o != [k] { return Err(format!("kind {k} is written as {o:?}")) } } (Err(_), false) => {} (x, _) => return Err(format!("kind {k} is read as {x:?}")) }
        // in a constant pool
        for method in [false, true] {
            let mut cp = VecCp::new();
            let m = cp.insert_member(MemberRef { owner: w_of(&"a".into()), name: w_of(&"n".into()), descriptor: if method { Type::Method { parameters: vec![], ret: None } } else { Type::Int }, itfs: false });
            let h = cp.insert_raw(RawConstantEntry::MethodHandle(k, m));
            let mut b = vec![];
            cp.write_to(&mut b).map_err(|e| e.to_string())?;
            let mut rd = MapCp::read_from(&mut &b[..]).map_err(|e| e.to_string())?;
            let (x, y) = (rd.read_method_handle(h), rd.read_constant(h));
            if x.is_some() != ok || y.is_some() != ok { return Err(format!("handle of kind {k} in the pool is looked up as {x:?} and {y:?}")) }
            if let (Some(x), Some(Constant::MethodHandle(y))) = (&x, &y) {
                if x.kind != kind(k) || y.kind != kind(k) { return Err(format!("handle of kind {k} in the pool is looked up as {x:?} and {y:?}")) }
                for w in 0..2 {
                    let mut cp = VecCp::new();
                    let i = if w == 0 { cp.insert_method_handle(x.clone()) } else { cp.insert_constant(Constant::MethodHandle(y.clone())) };
                    let mut b = vec![];
                    cp.write_to(&mut b).map_err(|e| e.to_string())?;
                    match Pool(ref_pool(&b)?).get(i) { Some(E::Handle(z, _)) if *z == k => {} e => return Err(format!("handle of kind {k} is inserted as {e:?}")) }
                }
            }
            c.inc("kinds");
        }
        Ok(())
    });
}

// ---------- C23 ----------
/// Pool reader and writer that also know labels, as the ones inside the library do.
struct RdL(MapCp, Vec<u32>);
fn lab(x: u32) -> Label { Label(x.wrapping_mul(2_654_435_761) ^ 0x5a5a) }
impl ConstantPoolReader for RdL {
    fn read_raw(&mut self, i: u16) -> Option<RawConstantEntry> { self.0.read_raw(i) }
    fn resolve_later(&mut self, i: u16, c: Arc<OnceCell<BootstrapMethod>>) { self.0.resolve_later(i, c) }
    fn bootstrap_methods(&mut self, b: &[BootstrapMethod]) -> coffer::Result<()> { self.0.bootstrap_methods(b) }
    fn get_label(&mut self, i: u32) -> Label { self.1.push(i); lab(i) }
}
struct WrL(VecCp, HashMap<Label, u16>);
impl ConstantPoolWriter for WrL {
    fn insert_raw(&mut self, e: RawConstantEntry) -> u16 { self.0.insert_raw(e) }
    fn insert_bsm(&mut self, b: BootstrapMethod) -> u16 { self.0.insert_bsm(b) }
    fn label(&mut self, l: &Label) -> u16 { self.1[l] }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum VT { Top, Int, Float, Double, Long, Null, This, Obj(S), Un(u16) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum F { Same(u16), One(u16, VT), Chop(u16, u8), App(u16, Vec<VT>), Full(u16, Vec<VT>, Vec<VT>) }
fn dec_vt(b: &mut &[u8], p: &Pool) -> Result<VT, String> {
    let u1 = |b: &mut &[u8]| -> Result<u8, String> { let (x, r) = b.split_first().ok_or("end")?; *b = r; Ok(*x) };
    let u2 = |b: &mut &[u8]| -> Result<u16, String> { Ok((u1(b)? as u16) << 8 | u1(b)? as u16) };
    Ok(match u1(b)? { 0 => VT::Top, 1 => VT::Int, 2 => VT::Float, 3 => VT::Double, 4 => VT::Long, 5 => VT::Null, 6 => VT::This, 7 => { let i = u2(b)?; VT::Obj(p.one(7, i).ok_or_else(|| format!("no class at {i}"))?) } 8 => VT::Un(u2(b)?), t => return Err(format!("verification type {t}")) })
}
/// JVMS 4.7.4, frames in canonical form
fn dec_f(b: &mut &[u8], p: &Pool) -> Result<F, String> {
    let u1 = |b: &mut &[u8]| -> Result<u8, String> { let (x, r) = b.split_first().ok_or("end")?; *b = r; Ok(*x) };
    let u2 = |b: &mut &[u8]| -> Result<u16, String> { Ok((u1(b)? as u16) << 8 | u1(b)? as u16) };
    let t = u1(b)?;
    Ok(match t {
        0..=63 => F::Same(t as u16), 64..=127 => F::One(t as u16 - 64, dec_vt(b, p)?), 128..=246 => return Err(format!("reserved {t}")),
        247 => { let o = u2(b)?; F::One(o, dec_vt(b, p)?) } 248..=250 => F::Chop(u2(b)?, 251 - t), 251 => F::Same(u2(b)?),
        252..=254 => { let o = u2(b)?; F::App(o, (0..t - 251).map(|_| dec_vt(b, p)).collect::<Result<_, _>>()?) }
        255 => { let o = u2(b)?; let n = u2(b)?; let l = (0..n).map(|_| dec_vt(b, p)).collect::<Result<_, _>>()?; let n = u2(b)?; F::Full(o, l, (0..n).map(|_| dec_vt(b, p)).collect::<Result<_, _>>()?) }
    })
}
fn enc_vt(v: &VT, o: &mut Vec<u8>, cp: &mut VecCp) {
    match v { VT::Top => o.push(0), VT::Int => o.push(1), VT::Float => o.push(2), VT::Double => o.push(3), VT::Long => o.push(4), VT::Null => o.push(5), VT::This => o.push(6), VT::Obj(s) => { o.push(7); let u = cp.insert_raw(RawConstantEntry::WTF8(w_of(s))); let i = cp.insert_raw(RawConstantEntry::Class(u)); o.extend(i.to_be_bytes()) } VT::Un(x) => { o.push(8); o.extend(x.to_be_bytes()) } }
}
fn enc_f(f: &F, wide: bool, o: &mut Vec<u8>, cp: &mut VecCp) {
    match f {
        F::Same(x @ 0..=63) if !wide => o.push(*x as u8), F::Same(x) => { o.push(251); o.extend(x.to_be_bytes()) }
        F::One(x @ 0..=63, v) if !wide => { o.push(64 + *x as u8); enc_vt(v, o, cp) } F::One(x, v) => { o.push(247); o.extend(x.to_be_bytes()); enc_vt(v, o, cp) }
        F::Chop(x, k) => { o.push(251 - k); o.extend(x.to_be_bytes()) }
        F::App(x, v) => { o.push(251 + v.len() as u8); o.extend(x.to_be_bytes()); for v in v { enc_vt(v, o, cp) } }
        F::Full(x, l, s) => { o.push(255); o.extend(x.to_be_bytes()); for v in [l, s] { o.extend((v.len() as u16).to_be_bytes()); for v in v { enc_vt(v, o, cp) } } }
    }
}
fn u_vt(v: &VT) -> VerificationType { match v { VT::Top => VerificationType::Top, VT::Int => VerificationType::Int, VT::Float => VerificationType::Float, VT::Double => VerificationType::Double, VT::Long => VerificationType::Long, VT::Null => VerificationType::Null, VT::This => VerificationType::UninitializedThis, VT::Obj(s) => VerificationType::Object(w_of(s)), VT::Un(x) => VerificationType::UninitializedVariable(lab(*x as u32)) } }
fn u_f(f: &F) -> RawFrame { let vs = |v: &Vec<VT>| v.iter().map(u_vt).collect(); match f { F::Same(x) => RawFrame::Same(*x), F::One(x, v) => RawFrame::SameLocalsOneStack(*x, u_vt(v)), F::Chop(x, k) => RawFrame::Chop(*x, *k), F::App(x, v) => RawFrame::Append(*x, vs(v)), F::Full(x, l, s) => RawFrame::Full(*x, vs(l), vs(s)) } }
fn labels(f: &F) -> HashMap<Label, u16> {
    let v: Vec<&VT> = match f { F::One(_, v) => vec![v], F::App(_, v) => v.iter().collect(), F::Full(_, a, b) => a.iter().chain(b).collect(), _ => vec![] };
    v.into_iter().filter_map(|v| if let VT::Un(x) = v { Some((lab(*x as u32), *x)) } else { None }).collect()
}
fn pool_of(cp: &VecCp) -> Result<(Pool, MapCp), String> { let mut b = vec![]; cp.write_to(&mut b).map_err(|e| e.to_string())?; Ok((Pool(ref_pool(&b)?), MapCp::read_from(&mut &b[..]).map_err(|e| e.to_string())?)) }
fn frame(c: &mut Ctx, f: &F) -> Res {
    // read, in either form
    for wide in [false, true] {
        let (mut b, mut cp) = (vec![], VecCp::new());
        enc_f(f, wide, &mut b, &mut cp);
        let n = b.len();
        b.extend([0xde, 0xad]);
        let (_, m) = pool_of(&cp)?;
        let mut rd = RdL(m, vec![]);
        let mut s = &b[..];
        let got = guard(|| <RawFrame as ConstantPoolReadWrite>::read_from(&mut rd, &mut s)).map_err(|e| format!("reading {f:?}: {e}"))?.map_err(|e| format!("{f:?} ({}) is rejected: {e}", hex(&b[..n.min(40)])))?;
        if got != u_f(f) { return Err(format!("{f:?} ({}) is read as {got:?}", hex(&b[..n.min(40)]))) }
        if s.len() != 2 { return Err(format!("{f:?}: {} bytes consumed of {n}", b.len() - s.len())) }
        // cut anywhere it is an error
        for cut in (0..n).step_by(1 + n / 40) { let mut rd = RdL(pool_of(&cp)?.1, vec![]); if let Ok(x) = <RawFrame as ConstantPoolReadWrite>::read_from(&mut rd, &mut &b[..cut]) { return Err(format!("{f:?} cut to {cut} bytes is read as {x:?}")) } }
        c.inc("read");
    }
    // write
    let mut w = WrL(VecCp::new(), labels(f));
    let mut b = vec![];
    ConstantPoolReadWrite::write_to(&u_f(f), &mut w, &mut b).map_err(|e| format!("{f:?} is not written: {e}"))?;
    let (p, _) = pool_of(&w.0)?;
    let mut s = &b[..];
    let back = dec_f(&mut s, &p).map_err(|e| format!("{f:?} is written as {}: {e}", hex(&b[..b.len().min(40)])))?;
    if back != *f || !s.is_empty() { return Err(format!("{f:?} is written as {}, which is {back:?} and {} bytes", hex(&b[..b.len().min(40)]), s.len())) }
    c.inc("written");
    // into a sink that is too small it is an error
    for cut in (0..b.len()).step_by(1 + b.len() / 40) { let mut w = WrL(VecCp::new(), labels(f)); if ConstantPoolReadWrite::write_to(&u_f(f), &mut w, &mut &mut vec![0; cut][..]).is_ok() { return Err(format!("{f:?} is written to a sink of {cut} bytes, with {} needed", b.len())) } }
    Ok(())
}
pub fn c23(c: &mut Ctx) {
    fn vt(r: &mut Rng) -> VT { match r.below(10) { 0 => VT::Top, 1 => VT::Int, 2 => VT::Float, 3 => VT::Double, 4 => VT::Long, 5 => VT::Null, 6 => VT::This, 7 | 8 => VT::Obj(r.pick(&[S::from("a"), S::from("java/lang/Object"), S::from("[[I"), S(vec![0xd800, 0x61]), S::from("\u{1f600}/\u{e9}")]).clone()), _ => VT::Un(r.b16()) } }
    fn all() -> Vec<VT> { vec![VT::Top, VT::Int, VT::Float, VT::Double, VT::Long, VT::Null, VT::This, VT::Obj("x/Y".into()), VT::Un(0), VT::Un(77), VT::Un(65535)] }
    c.indexed("types", all().len() as u64, |c, _, q| {
        let v = &all()[q as usize];
        let (mut b, mut cp) = (vec![], VecCp::new());
        enc_vt(v, &mut b, &mut cp);
        let mut rd = RdL(pool_of(&cp)?.1, vec![]);
        let g = <VerificationType as ConstantPoolReadWrite>::read_from(&mut rd, &mut &b[..]).map_err(|e| format!("{v:?} rejected: {e}"))?;
        if g != u_vt(v) { return Err(format!("{v:?} ({}) is read as {g:?}", hex(&b))) }
        if g.is_wide() != matches!(v, VT::Long | VT::Double) { return Err(format!("{g:?}.is_wide() is {}", g.is_wide())) }
        if let VT::Un(x) = v { if rd.1 != [*x as u32] { return Err(format!("{v:?} asked for the labels {:?}", rd.1)) } }
        let mut w = WrL(VecCp::new(), labels(&F::One(0, v.clone())));
        let mut o = vec![];
        ConstantPoolReadWrite::write_to(&u_vt(v), &mut w, &mut o).map_err(|e| e.to_string())?;
        let p = pool_of(&w.0)?.0;
        let mut s = &o[..];
        if dec_vt(&mut s, &p)? != *v || !s.is_empty() { return Err(format!("{v:?} is written as {}", hex(&o))) }
        c.seen(v);
        for d in [0u16, 63, 64, 65535] { for f in [F::One(d, v.clone()), F::App(d, vec![v.clone()]), F::Full(d, vec![v.clone()], vec![v.clone(), VT::Top])] { c.seen(&f); frame(c, &f)? } }
        Ok(())
    });
    // tags that mean nothing
    c.once("bad tags", 1, |c, _| {
        for t in 9..=255u8 { let mut rd = RdL(pool_of(&VecCp::new())?.1, vec![]); if let Ok(x) = <VerificationType as ConstantPoolReadWrite>::read_from(&mut rd, &mut &[t, 0, 0, 0][..]) { return Err(format!("verification type tag {t} is read as {x:?}")) } c.inc("rejected") }
        for t in 128..=246u8 { let mut rd = RdL(pool_of(&VecCp::new())?.1, vec![]); if let Ok(x) = <RawFrame as ConstantPoolReadWrite>::read_from(&mut rd, &mut &[t, 0, 0, 0, 0, 0, 0, 0][..]) { return Err(format!("frame tag {t} is read as {x:?}")) } c.inc("rejected") }
        for i in [0u16, 1, 9] { let mut cp = VecCp::new(); cp.insert_wtf8(w_of(&"a".into())); let mut rd = RdL(pool_of(&cp)?.1, vec![]); let b = [7, 0, i as u8]; if let Ok(x) = <VerificationType as ConstantPoolReadWrite>::read_from(&mut rd, &mut &b[..]) { return Err(format!("object of a constant that is no class is read as {x:?}")) } }
        for k in [0u8, 4, 5, 255] { let f = RawFrame::Chop(1, k); if ConstantPoolReadWrite::write_to(&f, &mut WrL(VecCp::new(), HashMap::new()), &mut vec![]).is_ok() { return Err(format!("{f:?} is written")) } c.inc("refused") }
        for k in [0usize, 4, 5, 255, 256, 261] { let f = RawFrame::Append(1, vec![VerificationType::Int; k]); if ConstantPoolReadWrite::write_to(&f, &mut WrL(VecCp::new(), HashMap::new()), &mut vec![]).is_ok() { return Err(format!("append frame of {k} locals is written")) } c.inc("refused") }
        for k in [65536usize, 65537, 131072] { for st in [false, true] { let v = vec![VerificationType::Int; k]; let f = if st { RawFrame::Full(1, vec![], v) } else { RawFrame::Full(1, v, vec![]) }; if ConstantPoolReadWrite::write_to(&f, &mut WrL(VecCp::new(), HashMap::new()), &mut vec![]).is_ok() { return Err(format!("full frame of {k} values is written")) } c.inc("refused") } }
        for k in [255usize, 256, 65535] { frame(c, &F::Full(3, vec![VT::Float; k], vec![VT::Long; k]))?; c.tick() }
        Ok(())
    });
    c.indexed("offsets", 64, |c, _, q| {
        for d in q as u32 * 1024..(q as u32 + 1) * 1024 {
            let d = d as u16;
            frame(c, &F::Same(d))?;
            frame(c, &F::One(d, VT::Int))?;
            if d % 7 == 0 || d < 300 { frame(c, &F::Chop(d, 1 + (d % 3) as u8))?; frame(c, &F::App(d, vec![VT::Long; 1 + (d % 3) as usize]))?; frame(c, &F::Full(d, vec![], vec![VT::Null]))? }
        }
        c.seen(&("offsets", q));
        c.tick();
        Ok(())
    });
    let n = c.n(20_000, 1_000_000);
    c.cases("random frames", n, |c, r| {
        let d = if r.chance(1, 2) { r.below(130) as u16 } else { r.b16() };
        let f = match r.below(5) { 0 => F::Same(d), 1 => F::One(d, vt(r)), 2 => F::Chop(d, 1 + r.below(3) as u8), 3 => F::App(d, (0..1 + r.below(3)).map(|_| vt(r)).collect()), _ => { let mut n = || match r.special(6) { Some(x) if x < 2000 => x as usize, _ => if r.chance(1, 60) { *r.pick(&[16usize, 31, 32, 64, 127, 128, 255, 256, 257, 300, 1000]) } else { r.below(12) } }; let (a, b) = (n(), n()); F::Full(d, (0..a).map(|_| vt(r)).collect(), (0..b).map(|_| vt(r)).collect()) } };
        c.seen(&f);
        c.sample("frame", || format!("{f:?}"));
        frame(c, &f)
    });
    // in a class: every tag byte as the first frame of a StackMapTable
    c.indexed("in classes", 256, |c, _, q| {
        let t = q as u8;
        let mut body = vec![0, 1, t];
        body.extend(match t { 64..=127 => vec![1u8], 247 => vec![0, 1, 5], 248..=251 => vec![0, 1], 252..=254 => [vec![0, 0], vec![2; (t - 251) as usize]].concat(), 255 => vec![0, 1, 0, 2, 0, 8, 0, 0, 0, 1, 3], _ => vec![] });
        let mut k = crate::content::one_method(vec![I::Op(0), I::Op(0), I::Op(177)]);
        if let Some(A::Code(x)) = k.methods[0].attrs.iter_mut().find(|a| matches!(a, A::Code(_))) { x.attrs.push(A::Raw("StackMapTable".into(), body)) }
        let b = enc::encode(&k, &enc::Opt::plain(), &mut Rng::new(1))?;
        let g = pipe::read(&b);
        match (&g, (128..=246).contains(&t)) { (Ok(_), false) => c.inc("tables_read"), (Err(_), true) => c.inc("tables_rejected"), (Ok(_), true) => return Err(format!("a StackMapTable with reserved tag {t} is accepted")), (Err(e), false) => return Err(format!("a StackMapTable with tag {t} is rejected: {e}")) }
        c.seen(&("class", t));
        Ok(())
    });
}
