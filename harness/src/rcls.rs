//! Reference class-file representation and a strict decoder, written from the JVM
//! specification and sharing no code with the library under test.
use crate::text::*;
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MK { Field, Method, IMethod }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Mem { pub kind: MK, pub owner: S, pub name: S, pub desc: S }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K { Int(i32), Float(u32), Long(i64), Double(u64), Str(S), Class(S), MType(S), Handle(u8, Mem), Dyn(Arc<Dyn>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Dyn { pub name: S, pub desc: S, pub bsm: Arc<Bsm> }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Bsm { pub kind: u8, pub mem: Mem, pub args: Vec<K> }

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V { Byte(i32), Char(i32), Double(u64), Float(u32), Int(i32), Long(i64), Short(i32), Bool(i32), Str(S), Enum(S, S), Class(S), Ann(Ann), Arr(Vec<V>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ann { pub ty: S, pub vals: BTreeMap<S, V> }
pub type H = (usize, usize, usize, Option<S>);
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T { Plain(Vec<u8>), Local(u8, Vec<(usize, usize, u16)>), Catch(H), Off(u8, usize), OffArg(u8, usize, u8) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TAnn { pub target: T, pub path: Vec<(u8, u8)>, pub ann: Ann }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum I {
    Op(u8), Const(K), Local(u8, u16), Iinc(u16, i16), Ret(u16),
    Jump(u8, usize), Table(usize, i32, Vec<usize>), Lookup(usize, Vec<(i32, usize)>),
    Field(u8, Mem), Invoke(u8, Mem, u8), Indy(Arc<Dyn>), New(S), NewArr(S, u8), Cast(u8, S),
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Code {
    pub max_stack: u16, pub max_locals: u16,
    pub insns: Vec<I>,
    /// encoded as goto_w (used to recognise expanded conditional jumps); not compared
    pub widegoto: Vec<bool>,
    pub handlers: Vec<H>,
    pub lines: Vec<(usize, u16)>,
    pub lvt: Vec<(usize, usize, u16, S, S)>,
    pub lvtt: Vec<(usize, usize, u16, S, S)>,
    pub attrs: Vec<A>,
    /// frame offsets seen (statistics only)
    pub frames: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Module {
    pub name: S, pub flags: u16, pub version: Option<S>,
    pub requires: Vec<(S, u16, Option<S>)>, pub exports: Vec<(S, u16, Vec<S>)>, pub opens: Vec<(S, u16, Vec<S>)>,
    pub uses: Vec<S>, pub provides: Vec<(S, Vec<S>)>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum A {
    Signature(S), Synthetic, Deprecated, SourceFile(S),
    InnerClasses(Vec<(S, Option<S>, Option<S>, u16)>), EnclosingMethod(S, Option<(S, S)>), SourceDebug(S),
    Module(Box<Module>), ModulePackages(Vec<S>), ModuleMainClass(S), NestHost(S), NestMembers(Vec<S>),
    Anns(bool, Vec<Ann>), TAnns(bool, Vec<TAnn>), PAnns(bool, Vec<Vec<Ann>>), AnnDefault(V),
    ConstantValue(K), Code(Box<Code>), Exceptions(Vec<S>), MethodParameters(Vec<(Option<S>, u16)>),
    Raw(S, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Member { pub access: u16, pub name: S, pub desc: S, pub attrs: Vec<A> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cls {
    pub minor: u16, pub major: u16, pub access: u16, pub this: S, pub sup: Option<S>, pub ifaces: Vec<S>,
    pub fields: Vec<Member>, pub methods: Vec<Member>, pub attrs: Vec<A>,
    /// the BootstrapMethods table (all of them, used or not)
    pub bsms: Vec<Arc<Bsm>>,
    pub has_bsm_attr: bool,
}

pub const CLASS_FLAGS: u16 = 0xF631;
pub const FIELD_FLAGS: u16 = 0x50DF;
pub const METHOD_FLAGS: u16 = 0x1DFF;
pub const INNER_FLAGS: u16 = 0x761F;
pub const PARAM_FLAGS: u16 = 0x9010;
pub const MODULE_FLAGS: u16 = 0x9020;
pub const REQUIRE_FLAGS: u16 = 0x9060;
pub const EXOP_FLAGS: u16 = 0x9000;

#[derive(Clone, Debug)]
enum C { Utf8(S), Int(i32), Float(u32), Long(i64), Double(u64), Class(u16), Str(u16), Ref(MK, u16, u16), Nat(u16, u16), Handle(u8, u16), MType(u16), Dyn(u16, u16), Indy(u16, u16), Module(u16), Package(u16) }

type R<X> = Result<X, String>;

pub struct Rd<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self { Rd { b, p: 0 } }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.p < n { return Err(format!("need {n} bytes at {}, have {}", self.p, self.b.len() - self.p)) }
        self.p += n;
        Ok(&self.b[self.p - n..self.p])
    }
    pub fn u1(&mut self) -> R<u8> { Ok(self.take(1)?[0]) }
    pub fn u2(&mut self) -> R<u16> { let x = self.take(2)?; Ok((x[0] as u16) << 8 | x[1] as u16) }
    pub fn u4(&mut self) -> R<u32> { Ok((self.u2()? as u32) << 16 | self.u2()? as u32) }
    pub fn u8(&mut self) -> R<u64> { Ok((self.u4()? as u64) << 32 | self.u4()? as u64) }
    pub fn left(&self) -> usize { self.b.len() - self.p }
}

pub struct Dec { cp: Vec<Option<C>>, raw_bsms: Vec<(u16, Vec<u16>)>, bsms: Vec<Arc<Bsm>>, bsm_state: Vec<u8>, has_table: bool }

/// Statistics about the constant pool of a decoded file.
#[derive(Clone, Debug, Default)]
pub struct Info { pub cp_count: usize, pub consumed: usize, pub dup_entries: usize, pub max_bsm: usize }

pub fn valid_field_desc(d: &[u16]) -> Option<usize> {
    let mut i = 0;
    while i < d.len() && d[i] == b'[' as u16 { i += 1 }
    if i > 255 { return None }
    match char::from_u32(*d.get(i)? as u32)? {
        'B' | 'C' | 'D' | 'F' | 'I' | 'J' | 'S' | 'Z' => Some(i + 1),
        'L' => { let n = d[i..].iter().position(|&c| c == b';' as u16)?; Some(i + n + 1) }
        _ => None,
    }
}
pub fn is_field_desc(s: &S) -> bool { valid_field_desc(&s.0) == Some(s.0.len()) }
pub fn is_method_desc(s: &S) -> bool {
    let d = &s.0;
    if d.first() != Some(&(b'(' as u16)) { return false }
    let mut i = 1;
    while i < d.len() && d[i] != b')' as u16 {
        match valid_field_desc(&d[i..]) { Some(n) => i += n, None => return false }
    }
    if i >= d.len() { return false }
    i += 1;
    if d.get(i) == Some(&(b'V' as u16)) && i + 1 == d.len() { return true }
    valid_field_desc(&d[i..]).map_or(false, |n| i + n == d.len())
}
fn any_desc(s: &S) -> R<()> { if is_field_desc(s) || is_method_desc(s) { Ok(()) } else { Err(format!("bad descriptor {s:?}")) } }

impl Dec {
    fn c(&self, i: u16) -> R<&C> { self.cp.get(i as usize).and_then(|x| x.as_ref()).ok_or_else(|| format!("bad constant index {i}")) }
    fn utf(&self, i: u16) -> R<S> { match self.c(i)? { C::Utf8(s) => Ok(s.clone()), x => Err(format!("constant {i} is {x:?}, expected Utf8")) } }
    fn class(&self, i: u16) -> R<S> { match self.c(i)? { C::Class(u) => self.utf(*u), x => Err(format!("constant {i} is {x:?}, expected Class")) } }
    fn module(&self, i: u16) -> R<S> { match self.c(i)? { C::Module(u) => self.utf(*u), x => Err(format!("constant {i} is {x:?}, expected Module")) } }
    fn package(&self, i: u16) -> R<S> { match self.c(i)? { C::Package(u) => self.utf(*u), x => Err(format!("constant {i} is {x:?}, expected Package")) } }
    fn opt<X>(&self, i: u16, f: impl Fn(&Self, u16) -> R<X>) -> R<Option<X>> { if i == 0 { Ok(None) } else { f(self, i).map(Some) } }
    fn nat(&self, i: u16) -> R<(S, S)> { match self.c(i)? { C::Nat(a, b) => Ok((self.utf(*a)?, self.utf(*b)?)), x => Err(format!("constant {i} is {x:?}, expected NameAndType")) } }
    fn mem(&self, i: u16) -> R<Mem> {
        match self.c(i)? {
            C::Ref(k, o, n) => {
                let (name, desc) = self.nat(*n)?;
                let okd = if *k == MK::Field { is_field_desc(&desc) } else { is_method_desc(&desc) };
                if !okd { return Err(format!("member {i} of kind {k:?} has descriptor {desc:?}")) }
                Ok(Mem { kind: *k, owner: self.class(*o)?, name, desc })
            }
            x => Err(format!("constant {i} is {x:?}, expected member")),
        }
    }
    fn handle(&self, i: u16) -> R<(u8, Mem)> {
        match self.c(i)? {
            C::Handle(k, m) => {
                let m = self.mem(*m)?;
                let ok = match k { 1..=4 => m.kind == MK::Field, 5 | 8 => m.kind == MK::Method, 6 | 7 => m.kind != MK::Field, 9 => m.kind == MK::IMethod, _ => false };
                if !ok { return Err(format!("method handle kind {k} with {:?}", m.kind)) }
                Ok((*k, m))
            }
            x => Err(format!("constant {i} is {x:?}, expected MethodHandle")),
        }
    }
    fn konst(&mut self, i: u16) -> R<K> {
        Ok(match self.c(i)?.clone() {
            C::Int(x) => K::Int(x), C::Float(x) => K::Float(x), C::Long(x) => K::Long(x), C::Double(x) => K::Double(x),
            C::Str(u) => K::Str(self.utf(u)?), C::Class(u) => K::Class(self.utf(u)?),
            C::MType(u) => { let s = self.utf(u)?; if !is_method_desc(&s) { return Err(format!("MethodType descriptor {s:?}")) } K::MType(s) }
            C::Handle(..) => { let (k, m) = self.handle(i)?; K::Handle(k, m) }
            C::Dyn(b, n) => {
                let (name, desc) = self.nat(n)?;
                if !is_field_desc(&desc) { return Err(format!("dynamic constant descriptor {desc:?}")) }
                K::Dyn(Arc::new(Dyn { name, desc, bsm: self.bsm(b)? }))
            }
            x => return Err(format!("constant {i} is {x:?}, not loadable")),
        })
    }
    fn indy(&mut self, i: u16) -> R<Arc<Dyn>> {
        match self.c(i)?.clone() {
            C::Indy(b, n) => {
                let (name, desc) = self.nat(n)?;
                if !is_method_desc(&desc) { return Err(format!("invokedynamic descriptor {desc:?}")) }
                Ok(Arc::new(Dyn { name, desc, bsm: self.bsm(b)? }))
            }
            x => Err(format!("constant {i} is {x:?}, expected InvokeDynamic")),
        }
    }
    fn bsm(&mut self, b: u16) -> R<Arc<Bsm>> {
        let b = b as usize;
        if b >= self.raw_bsms.len() { return Err(format!("bootstrap method {b} of {}", self.raw_bsms.len())) }
        match self.bsm_state[b] {
            2 => return Ok(self.bsms[b].clone()),
            1 => return Err(format!("circular bootstrap method {b}")),
            _ => {}
        }
        self.bsm_state[b] = 1;
        let (h, args) = self.raw_bsms[b].clone();
        let (kind, mem) = self.handle(h)?;
        let args = args.into_iter().map(|a| self.konst(a)).collect::<R<Vec<_>>>()?;
        self.bsms[b] = Arc::new(Bsm { kind, mem, args });
        self.bsm_state[b] = 2;
        Ok(self.bsms[b].clone())
    }
    fn vals(&mut self, r: &mut Rd, depth: usize) -> R<Ann> {
        let ty = self.utf(r.u2()?)?;
        if !is_field_desc(&ty) { return Err(format!("annotation type {ty:?}")) }
        let n = r.u2()?;
        let mut vals = BTreeMap::new();
        for _ in 0..n {
            let k = self.utf(r.u2()?)?;
            let v = self.val(r, depth + 1)?;
            if vals.insert(k.clone(), v).is_some() { return Err(format!("duplicate annotation element {k:?}")) }
        }
        Ok(Ann { ty, vals })
    }
    fn val(&mut self, r: &mut Rd, depth: usize) -> R<V> {
        if depth > 300 { return Err("annotation too deep".into()) }
        let tag = r.u1()?;
        let int = |s: &Self, r: &mut Rd| -> R<i32> { match s.c(r.u2()?)? { C::Int(i) => Ok(*i), x => Err(format!("annotation int is {x:?}")) } };
        let rng = |v: i32, lo: i32, hi: i32| if v < lo || v > hi { Err(format!("annotation value {v} out of {lo}..{hi}")) } else { Ok(v) };
        Ok(match tag {
            b'B' => V::Byte(rng(int(self, r)?, -128, 127)?), b'C' => V::Char(rng(int(self, r)?, 0, 65535)?), b'S' => V::Short(rng(int(self, r)?, -32768, 32767)?),
            b'Z' => V::Bool(rng(int(self, r)?, 0, 1)?), b'I' => V::Int(int(self, r)?),
            b'J' => match self.c(r.u2()?)? { C::Long(x) => V::Long(*x), x => return Err(format!("annotation long is {x:?}")) },
            b'F' => match self.c(r.u2()?)? { C::Float(x) => V::Float(*x), x => return Err(format!("annotation float is {x:?}")) },
            b'D' => match self.c(r.u2()?)? { C::Double(x) => V::Double(*x), x => return Err(format!("annotation double is {x:?}")) },
            b's' => V::Str(self.utf(r.u2()?)?),
            b'e' => { let t = self.utf(r.u2()?)?; any_desc(&t)?; V::Enum(t, self.utf(r.u2()?)?) }
            b'c' => { let t = self.utf(r.u2()?)?; if !t.is("V") { any_desc(&t)? } V::Class(t) }
            b'@' => V::Ann(self.vals(r, depth)?),
            b'[' => { let n = r.u2()?; let mut v = vec![]; for _ in 0..n { v.push(self.val(r, depth + 1)?) } V::Arr(v) }
            t => return Err(format!("annotation tag {t}")),
        })
    }
    fn anns(&mut self, r: &mut Rd) -> R<Vec<Ann>> { let n = r.u2()?; let mut v = vec![]; for _ in 0..n { v.push(self.vals(r, 0)?) } Ok(v) }
    fn list(&mut self, r: &mut Rd, f: impl Fn(&Self, u16) -> R<S>) -> R<Vec<S>> { let n = r.u2()?; let mut v = vec![]; for _ in 0..n { v.push(f(self, r.u2()?)?) } Ok(v) }

    fn tanns(&mut self, r: &mut Rd, loc: Loc, off: Option<&OffMap>, hs: &[H]) -> R<Vec<TAnn>> {
        let n = r.u2()?;
        let mut v = vec![];
        for _ in 0..n {
            let tag = r.u1()?;
            let ok = match loc { Loc::Class => matches!(tag, 0 | 0x10 | 0x11), Loc::Field => tag == 0x13, Loc::Method => matches!(tag, 1 | 0x12 | 0x14 | 0x15 | 0x16 | 0x17), Loc::Code => (0x40..=0x4B).contains(&tag) };
            if !ok { return Err(format!("type annotation target {tag:#x} at {loc:?}")) }
            let target = match tag {
                0 | 1 | 0x16 => T::Plain(vec![tag, r.u1()?]),
                0x10 | 0x17 => { let x = r.take(2)?; T::Plain(vec![tag, x[0], x[1]]) }
                0x11 | 0x12 => { let x = r.take(2)?; T::Plain(vec![tag, x[0], x[1]]) }
                0x13 | 0x14 | 0x15 => T::Plain(vec![tag]),
                0x40 | 0x41 => {
                    let m = r.u2()?;
                    let mut t = vec![];
                    for _ in 0..m {
                        let s = r.u2()? as usize; let l = r.u2()? as usize; let i = r.u2()?;
                        let o = off.unwrap();
                        t.push((o.any(s)?, o.any(s + l)?, i));
                    }
                    T::Local(tag, t)
                }
                0x42 => { let i = r.u2()?; T::Catch(hs.get(i as usize).cloned().ok_or_else(|| format!("catch index {i}"))?) }
                0x43..=0x46 => T::Off(tag, off.unwrap().any(r.u2()? as usize)?),
                _ => { let o = off.unwrap().any(r.u2()? as usize)?; T::OffArg(tag, o, r.u1()?) }
            };
            let pl = r.u1()?;
            let mut path = vec![];
            for _ in 0..pl { let k = r.u1()?; if k > 3 { return Err(format!("type path kind {k}")) } path.push((k, r.u1()?)) }
            v.push(TAnn { target, path, ann: self.vals(r, 0)? });
        }
        Ok(v)
    }

    fn attr(&mut self, r: &mut Rd, loc: Loc, code: Option<(&OffMap, &mut Code)>) -> R<Option<A>> {
        let name = self.utf(r.u2()?)?;
        let len = r.u4()? as usize;
        let body = r.take(len)?;
        let mut q = Rd::new(body);
        let r = &mut q;
        let n = name.lossy();
        let vis = n.starts_with("RuntimeVisible");
        let a = match (loc, if name.has_lone() { "" } else { n.as_str() }) {
            (Loc::Class | Loc::Field | Loc::Method, "Signature") => Some(A::Signature(self.utf(r.u2()?)?)),
            (Loc::Class | Loc::Field | Loc::Method, "Synthetic") => Some(A::Synthetic),
            (Loc::Class | Loc::Field | Loc::Method, "Deprecated") => Some(A::Deprecated),
            (Loc::Class | Loc::Field | Loc::Method, "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations") => Some(A::Anns(vis, self.anns(r)?)),
            (Loc::Class | Loc::Field | Loc::Method, "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations") => Some(A::TAnns(vis, self.tanns(r, loc, None, &[])?)),
            (Loc::Code, "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations") => { let (o, c) = code.unwrap(); Some(A::TAnns(vis, self.tanns(r, loc, Some(o), &c.handlers)?)) }
            (Loc::Class, "SourceFile") => Some(A::SourceFile(self.utf(r.u2()?)?)),
            (Loc::Class, "InnerClasses") => {
                let k = r.u2()?; let mut v = vec![];
                for _ in 0..k { v.push((self.class(r.u2()?)?, self.opt(r.u2()?, Self::class)?, self.opt(r.u2()?, Self::utf)?, r.u2()? & INNER_FLAGS)) }
                Some(A::InnerClasses(v))
            }
            (Loc::Class, "EnclosingMethod") => {
                let c = self.class(r.u2()?)?; let m = self.opt(r.u2()?, Self::nat)?;
                if let Some((_, d)) = &m { any_desc(d)? }
                Some(A::EnclosingMethod(c, m))
            }
            (Loc::Class, "SourceDebugExtension") => { let b = r.take(r.left())?; Some(A::SourceDebug(from_mutf8(b)?)) }
            (Loc::Class, "BootstrapMethods") => { r.take(r.left())?; None }
            (Loc::Class, "Module") => {
                let name = self.module(r.u2()?)?; let flags = r.u2()? & MODULE_FLAGS; let version = self.opt(r.u2()?, Self::utf)?;
                let mut m = Module { name, flags, version, requires: vec![], exports: vec![], opens: vec![], uses: vec![], provides: vec![] };
                for _ in 0..r.u2()? { m.requires.push((self.module(r.u2()?)?, r.u2()? & REQUIRE_FLAGS, self.opt(r.u2()?, Self::utf)?)) }
                for _ in 0..r.u2()? { let p = self.package(r.u2()?)?; let f = r.u2()? & EXOP_FLAGS; m.exports.push((p, f, self.list(r, Self::module)?)) }
                for _ in 0..r.u2()? { let p = self.package(r.u2()?)?; let f = r.u2()? & EXOP_FLAGS; m.opens.push((p, f, self.list(r, Self::module)?)) }
                m.uses = self.list(r, Self::class)?;
                for _ in 0..r.u2()? { let c = self.class(r.u2()?)?; m.provides.push((c, self.list(r, Self::class)?)) }
                Some(A::Module(Box::new(m)))
            }
            (Loc::Class, "ModulePackages") => Some(A::ModulePackages(self.list(r, Self::package)?)),
            (Loc::Class, "ModuleMainClass") => Some(A::ModuleMainClass(self.class(r.u2()?)?)),
            (Loc::Class, "NestHost") => Some(A::NestHost(self.class(r.u2()?)?)),
            (Loc::Class, "NestMembers") => Some(A::NestMembers(self.list(r, Self::class)?)),
            (Loc::Field, "ConstantValue") => {
                let k = self.konst(r.u2()?)?;
                if !matches!(k, K::Int(_) | K::Float(_) | K::Long(_) | K::Double(_) | K::Str(_)) { return Err(format!("ConstantValue {k:?}")) }
                Some(A::ConstantValue(k))
            }
            (Loc::Method, "Code") => Some(A::Code(Box::new(self.code(r)?))),
            (Loc::Method, "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations") => { let k = r.u1()?; let mut v = vec![]; for _ in 0..k { v.push(self.anns(r)?) } Some(A::PAnns(vis, v)) }
            (Loc::Method, "Exceptions") => Some(A::Exceptions(self.list(r, Self::class)?)),
            (Loc::Method, "AnnotationDefault") => Some(A::AnnDefault(self.val(r, 0)?)),
            (Loc::Method, "MethodParameters") => { let k = r.u1()?; let mut v = vec![]; for _ in 0..k { v.push((self.opt(r.u2()?, Self::utf)?, r.u2()? & PARAM_FLAGS)) } Some(A::MethodParameters(v)) }
            (Loc::Code, "LineNumberTable") => {
                let (o, c) = code.unwrap();
                for _ in 0..r.u2()? { let pc = r.u2()? as usize; let l = r.u2()?; c.lines.push((o.any(pc)?, l)) }
                None
            }
            (Loc::Code, "LocalVariableTable" | "LocalVariableTypeTable") => {
                let (o, c) = code.unwrap();
                let is_t = n == "LocalVariableTypeTable";
                for _ in 0..r.u2()? {
                    let s = r.u2()? as usize; let l = r.u2()? as usize; let nm = self.utf(r.u2()?)?; let d = self.utf(r.u2()?)?; let i = r.u2()?;
                    if !is_t { any_desc(&d)? }
                    let e = (o.any(s)?, o.any(s + l)?, i, nm, d);
                    if is_t { c.lvtt.push(e) } else { c.lvt.push(e) }
                }
                None
            }
            (Loc::Code, "StackMapTable") => { r.take(r.left())?; code.unwrap().1.frames += 1; None }
            _ => Some(A::Raw(name.clone(), r.take(r.left())?.to_vec())),
        };
        if r.left() != 0 { return Err(format!("attribute {name:?} has {} unread bytes of {len}", r.left())) }
        Ok(a)
    }

    fn code(&mut self, r: &mut Rd) -> R<Code> {
        let mut c = Code { max_stack: r.u2()?, max_locals: r.u2()?, ..Default::default() };
        let len = r.u4()? as usize;
        if len > 65535 { return Err(format!("code length {len}")) }
        let b = r.take(len)?;
        let (insns, offs, wide) = self.insns(b)?;
        c.insns = insns;
        c.widegoto = wide;
        let om = OffMap { offs, len, n: c.insns.len() };
        // resolve targets
        for i in c.insns.iter_mut() {
            match i {
                I::Jump(_, t) => *t = om.any(*t)?,
                I::Table(d, _, v) => { *d = om.any(*d)?; for t in v { *t = om.any(*t)? } }
                I::Lookup(d, v) => { *d = om.any(*d)?; for (_, t) in v { *t = om.any(*t)? } }
                _ => {}
            }
        }
        for _ in 0..r.u2()? {
            let (s, e, h, t) = (r.u2()? as usize, r.u2()? as usize, r.u2()? as usize, r.u2()?);
            if s > e { return Err(format!("handler range {s}..{e}")) }
            c.handlers.push((om.any(s)?, om.any(e)?, om.any(h)?, self.opt(t, Self::class)?));
        }
        let n = r.u2()?;
        for _ in 0..n {
            let a = self.attr(r, Loc::Code, Some((&om, &mut c)))?;
            c.attrs.extend(a);
        }
        Ok(c)
    }

    fn insns(&mut self, b: &[u8]) -> R<(Vec<I>, HashMap<usize, usize>, Vec<bool>)> {
        let mut r = Rd::new(b);
        let mut v = vec![];
        let mut offs = HashMap::new();
        let mut wides = vec![];
        let tgt = |pc: usize, off: i64| -> R<usize> { let t = pc as i64 + off; if t < 0 { Err(format!("negative branch target {t} at {pc}")) } else { Ok(t as usize) } };
        while r.left() > 0 {
            let pc = r.p;
            offs.insert(pc, v.len());
            let op = r.u1()?;
            let mut wide = false;
            let i = match op {
                0 | 1 => I::Op(op),
                2..=8 => I::Const(K::Int(op as i32 - 3)),
                9 | 10 => I::Const(K::Long(op as i64 - 9)),
                11..=13 => I::Const(K::Float([0f32, 1.0, 2.0][op as usize - 11].to_bits())),
                14 | 15 => I::Const(K::Double([0f64, 1.0][op as usize - 14].to_bits())),
                16 => I::Const(K::Int(r.u1()? as i8 as i32)),
                17 => I::Const(K::Int(r.u2()? as i16 as i32)),
                18..=20 => {
                    let idx = if op == 18 { r.u1()? as u16 } else { r.u2()? };
                    let k = self.konst(idx)?;
                    let w = match &k { K::Long(_) | K::Double(_) => true, K::Dyn(d) => d.desc.is("J") || d.desc.is("D"), _ => false };
                    if w != (op == 20) { return Err(format!("opcode {op} loads {k:?}")) }
                    I::Const(k)
                }
                21..=25 | 54..=58 => I::Local(op, r.u1()? as u16),
                26..=45 => I::Local(21 + (op - 26) / 4, ((op - 26) % 4) as u16),
                59..=78 => I::Local(54 + (op - 59) / 4, ((op - 59) % 4) as u16),
                46..=53 | 79..=131 | 133..=152 | 172..=177 | 190 | 191 | 194 | 195 => I::Op(op),
                132 => I::Iinc(r.u1()? as u16, r.u1()? as i8 as i16),
                153..=168 | 198 | 199 => I::Jump(op, tgt(pc, r.u2()? as i16 as i64)?),
                200 | 201 => { wide = true; I::Jump(op - 33, tgt(pc, r.u4()? as i32 as i64)?) }
                169 => I::Ret(r.u1()? as u16),
                170 | 171 => {
                    while r.p % 4 != 0 { if r.u1()? != 0 { return Err(format!("nonzero switch padding at {pc}")) } }
                    let d = tgt(pc, r.u4()? as i32 as i64)?;
                    if op == 170 {
                        let lo = r.u4()? as i32; let hi = r.u4()? as i32;
                        if lo > hi { return Err(format!("tableswitch {lo}..{hi}")) }
                        let n = (hi as i64 - lo as i64 + 1) as usize;
                        if n > r.left() / 4 { return Err(format!("tableswitch with {n} cases")) }
                        let mut t = vec![];
                        for _ in 0..n { t.push(tgt(pc, r.u4()? as i32 as i64)?) }
                        I::Table(d, lo, t)
                    } else {
                        let n = r.u4()? as usize;
                        if n > r.left() / 8 { return Err(format!("lookupswitch with {n} cases")) }
                        let mut t: Vec<(i32, usize)> = vec![];
                        for _ in 0..n {
                            let k = r.u4()? as i32;
                            if let Some(l) = t.last() { if l.0 >= k { return Err(format!("lookupswitch keys {} then {k}", l.0)) } }
                            t.push((k, tgt(pc, r.u4()? as i32 as i64)?))
                        }
                        I::Lookup(d, t)
                    }
                }
                178..=181 => { let m = self.mem(r.u2()?)?; if m.kind != MK::Field { return Err(format!("field instruction {op} on {m:?}")) } I::Field(op, m) }
                182..=185 => {
                    let m = self.mem(r.u2()?)?;
                    let ok = match op { 182 => m.kind == MK::Method, 185 => m.kind == MK::IMethod, _ => m.kind != MK::Field };
                    if !ok { return Err(format!("invoke {op} on {m:?}")) }
                    let c = if op == 185 { let c = r.u1()?; if r.u1()? != 0 { return Err("invokeinterface last byte".into()) } c } else { 0 };
                    I::Invoke(op, m, c)
                }
                186 => { let d = self.indy(r.u2()?)?; if r.u2()? != 0 { return Err("invokedynamic trailing bytes".into()) } I::Indy(d) }
                187 => I::New(self.class(r.u2()?)?),
                188 => {
                    let t = r.u1()?;
                    let n = match t { 4 => "[Z", 5 => "[C", 6 => "[F", 7 => "[D", 8 => "[B", 9 => "[S", 10 => "[I", 11 => "[J", _ => return Err(format!("newarray {t}")) };
                    I::NewArr(n.into(), 1)
                }
                189 => {
                    let c = self.class(r.u2()?)?;
                    let mut s = S::from("[");
                    if c.first() == Some(b'[' as u16) { if !is_field_desc(&c) { return Err(format!("anewarray {c:?}")) } s.0.extend_from_slice(&c.0) } else { s.push("L"); s.0.extend_from_slice(&c.0); s.push(";") }
                    I::NewArr(s, 1)
                }
                192 | 193 => { let c = self.class(r.u2()?)?; if c.first() == Some(b'[' as u16) && !is_field_desc(&c) { return Err(format!("cast to {c:?}")) } I::Cast(op, c) }
                196 => {
                    let op = r.u1()?;
                    match op {
                        21..=25 | 54..=58 => I::Local(op, r.u2()?),
                        132 => I::Iinc(r.u2()?, r.u2()? as i16),
                        169 => I::Ret(r.u2()?),
                        _ => return Err(format!("wide {op}")),
                    }
                }
                197 => {
                    let c = self.class(r.u2()?)?; let d = r.u1()?;
                    if !is_field_desc(&c) || d == 0 || c.0.iter().take_while(|&&x| x == b'[' as u16).count() < d as usize { return Err(format!("multianewarray {c:?} {d}")) }
                    I::NewArr(c, d)
                }
                _ => return Err(format!("opcode {op} at {pc}")),
            };
            v.push(i);
            wides.push(wide);
        }
        Ok((v, offs, wides))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Loc { Class, Field, Method, Code }
pub struct OffMap { offs: HashMap<usize, usize>, len: usize, n: usize }
impl OffMap {
    /// an instruction start
    fn insn(&self, pc: usize) -> R<usize> { self.offs.get(&pc).copied().ok_or_else(|| format!("offset {pc} is not an instruction")) }
    /// an instruction start or the end of the code
    fn any(&self, pc: usize) -> R<usize> { if pc == self.len { Ok(self.n) } else { self.insn(pc) } }
}

/// Decode one class file from the front of `b`.
pub fn decode_prefix(b: &[u8]) -> R<(Cls, Info)> {
    let mut r = Rd::new(b);
    if r.u4()? != 0xCAFEBABE { return Err("magic".into()) }
    let minor = r.u2()?;
    let major = r.u2()?;
    let n = r.u2()? as usize;
    if n == 0 { return Err("constant pool count 0".into()) }
    let mut cp: Vec<Option<C>> = vec![None];
    while cp.len() < n {
        let tag = r.u1()?;
        let c = match tag {
            1 => { let l = r.u2()? as usize; C::Utf8(from_mutf8(r.take(l)?).map_err(|e| format!("constant {}: {e}", cp.len()))?) }
            3 => C::Int(r.u4()? as i32), 4 => C::Float(r.u4()?), 5 => C::Long(r.u8()? as i64), 6 => C::Double(r.u8()?),
            7 => C::Class(r.u2()?), 8 => C::Str(r.u2()?), 9 => C::Ref(MK::Field, r.u2()?, r.u2()?), 10 => C::Ref(MK::Method, r.u2()?, r.u2()?), 11 => C::Ref(MK::IMethod, r.u2()?, r.u2()?),
            12 => C::Nat(r.u2()?, r.u2()?), 15 => C::Handle(r.u1()?, r.u2()?), 16 => C::MType(r.u2()?), 17 => C::Dyn(r.u2()?, r.u2()?), 18 => C::Indy(r.u2()?, r.u2()?), 19 => C::Module(r.u2()?), 20 => C::Package(r.u2()?),
            t => return Err(format!("constant {} has tag {t}", cp.len())),
        };
        let w = matches!(c, C::Long(_) | C::Double(_));
        cp.push(Some(c));
        if w { cp.push(None); if cp.len() > n { return Err("64-bit constant in the last slot".into()) } }
    }
    let mut dup = 0;
    { let mut seen = std::collections::HashSet::new(); for c in cp.iter().flatten() { if !seen.insert(format!("{c:?}")) { dup += 1 } } }
    let mut d = Dec { cp, raw_bsms: vec![], bsms: vec![], bsm_state: vec![], has_table: false };
    // find the bootstrap table first: skip over members
    {
        let mut q = Rd { b, p: r.p };
        q.take(6)?;
        let k = q.u2()?; q.take(2 * k as usize)?;
        for _ in 0..2 { for _ in 0..q.u2()? { q.take(6)?; for _ in 0..q.u2()? { q.u2()?; let l = q.u4()?; q.take(l as usize)?; } } }
        for _ in 0..q.u2()? {
            let name = d.utf(q.u2()?)?; let l = q.u4()?; let body = q.take(l as usize)?;
            if name.is("BootstrapMethods") {
                if d.has_table { return Err("two BootstrapMethods attributes".into()) }
                d.has_table = true;
                let mut t = Rd::new(body);
                for _ in 0..t.u2()? { let h = t.u2()?; let mut a = vec![]; for _ in 0..t.u2()? { a.push(t.u2()?) } d.raw_bsms.push((h, a)) }
                if t.left() != 0 { return Err(format!("BootstrapMethods has {} unread bytes", t.left())) }
            }
        }
        let dummy = Arc::new(Bsm { kind: 0, mem: Mem { kind: MK::Field, owner: S::default(), name: S::default(), desc: S::default() }, args: vec![] });
        d.bsms = vec![dummy; d.raw_bsms.len()];
        d.bsm_state = vec![0; d.raw_bsms.len()];
        for i in 0..d.raw_bsms.len() { d.bsm(i as u16)?; }
    }
    // every constant must be internally consistent, used or not
    for i in 1..d.cp.len() {
        match d.cp[i].clone() {
            Some(C::Class(u)) | Some(C::Str(u)) | Some(C::Module(u)) | Some(C::Package(u)) => { d.utf(u)?; }
            Some(C::Nat(a, b)) => { d.utf(a)?; any_desc(&d.utf(b)?)? }
            Some(C::Ref(..)) => { d.mem(i as u16)?; }
            Some(C::Handle(..)) | Some(C::MType(..)) | Some(C::Dyn(..)) => { d.konst(i as u16)?; }
            Some(C::Indy(..)) => { d.indy(i as u16)?; }
            _ => {}
        }
    }
    let access = r.u2()? & CLASS_FLAGS;
    let this = d.class(r.u2()?)?;
    let sup = d.opt(r.u2()?, Dec::class)?;
    let ifaces = d.list(&mut r, Dec::class)?;
    let mut c = Cls { minor, major, access, this, sup, ifaces, fields: vec![], methods: vec![], attrs: vec![], bsms: d.bsms.clone(), has_bsm_attr: d.has_table };
    for _ in 0..r.u2()? { let m = member(&mut d, &mut r, Loc::Field)?; c.fields.push(m) }
    for _ in 0..r.u2()? { let m = member(&mut d, &mut r, Loc::Method)?; c.methods.push(m) }
    for _ in 0..r.u2()? { let a = d.attr(&mut r, Loc::Class, None)?; c.attrs.extend(a) }
    let info = Info { cp_count: n, consumed: r.p, dup_entries: dup, max_bsm: d.raw_bsms.len() };
    Ok((c, info))
}
fn member(d: &mut Dec, r: &mut Rd, loc: Loc) -> R<Member> {
    let access = r.u2()? & if loc == Loc::Field { FIELD_FLAGS } else { METHOD_FLAGS };
    let name = d.utf(r.u2()?)?;
    let desc = d.utf(r.u2()?)?;
    if !(if loc == Loc::Field { is_field_desc(&desc) } else { is_method_desc(&desc) }) { return Err(format!("{loc:?} {name:?} has descriptor {desc:?}")) }
    let mut attrs = vec![];
    for _ in 0..r.u2()? { attrs.extend(d.attr(r, loc, None)?) }
    Ok(Member { access, name, desc, attrs })
}

/// Decode a complete class file: nothing may follow it.
pub fn decode(b: &[u8]) -> R<Cls> {
    let (c, i) = decode_prefix(b)?;
    if i.consumed != b.len() { return Err(format!("{} bytes after the class", b.len() - i.consumed)) }
    Ok(c)
}

/// Bring the freedoms of the format into canonical form before comparison.
pub fn canon(c: &mut Cls) {
    for m in c.methods.iter_mut() {
        for a in m.attrs.iter_mut() {
            if let A::Code(k) = a {
                k.lines.sort_by_key(|x| x.0); // stable: keeps the order of lines of one instruction
                k.lvt.sort();
                k.lvtt.sort();
                k.frames = 0;
                k.widegoto = vec![];
            }
        }
    }
    c.bsms = vec![];
    c.has_bsm_attr = false;
}

pub fn neg_op(op: u8) -> Option<u8> {
    Some(match op { 153..=166 => ((op - 153) ^ 1) + 153, 198 => 199, 199 => 198, _ => return None })
}

/// Undo the expansion `if!c +8; goto_w T` of a conditional jump where `want` has `if c T`.
/// Returns the collapsed code, or an error when `got` does not line up with `want`.
pub fn collapse(want: &Code, got: &Code) -> R<Code> {
    let mut map = vec![usize::MAX; got.insns.len() + 1];
    let mut out = vec![];
    let (mut i, mut j) = (0, 0);
    while j < got.insns.len() {
        map[j] = out.len();
        if let (Some(I::Jump(w, _)), I::Jump(g, t)) = (want.insns.get(i), &got.insns[j]) {
            if w != g && neg_op(*w) == Some(*g) && *t == j + 2 {
                if let Some(I::Jump(167, t2)) = got.insns.get(j + 1) {
                    out.push(I::Jump(*w, *t2));
                    j += 2;
                    i += 1;
                    continue;
                }
            }
        }
        out.push(got.insns[j].clone());
        i += 1;
        j += 1;
    }
    map[got.insns.len()] = out.len();
    let mut bad = None;
    let mut m = |t: usize| -> usize { let x = map[t]; if x == usize::MAX { bad = Some(t) } x };
    for i in out.iter_mut() {
        match i {
            I::Jump(_, t) => *t = m(*t),
            I::Table(d, _, v) => { *d = m(*d); for t in v { *t = m(*t) } }
            I::Lookup(d, v) => { *d = m(*d); for (_, t) in v { *t = m(*t) } }
            _ => {}
        }
    }
    let mut c = got.clone();
    c.insns = out;
    for h in c.handlers.iter_mut() { h.0 = m(h.0); h.1 = m(h.1); h.2 = m(h.2) }
    for l in c.lines.iter_mut() { l.0 = m(l.0) }
    for l in c.lvt.iter_mut().chain(c.lvtt.iter_mut()) { l.0 = m(l.0); l.1 = m(l.1) }
    for a in c.attrs.iter_mut() {
        if let A::TAnns(_, v) = a {
            for t in v {
                match &mut t.target {
                    T::Local(_, x) => for e in x { e.0 = m(e.0); e.1 = m(e.1) },
                    T::Catch(h) => { h.0 = m(h.0); h.1 = m(h.1); h.2 = m(h.2) }
                    T::Off(_, o) | T::OffArg(_, o, _) => *o = m(*o),
                    T::Plain(_) => {}
                }
            }
        }
    }
    if let Some(t) = bad { return Err(format!("something refers to the middle of an expanded branch (instruction {t})")) }
    Ok(c)
}

/// Compare an expected class with one decoded from written bytes; Ok or a description.
pub fn same(want: &Cls, got: &Cls) -> Result<(), String> {
    let mut w = want.clone();
    let mut g = got.clone();
    for (a, b) in w.methods.iter().zip(g.methods.iter_mut()) {
        for (x, y) in a.attrs.iter().zip(b.attrs.iter_mut()) {
            if let (A::Code(x), A::Code(y)) = (x, y) { **y = collapse(x, y)? }
        }
    }
    canon(&mut w);
    canon(&mut g);
    if w == g { return Ok(()) }
    Err(diff(&w, &g))
}

fn d2<X: std::fmt::Debug + PartialEq>(what: &str, a: &X, b: &X) -> Option<String> {
    if a == b { None } else { Some(format!("{what}: expected {} got {}", short(a), short(b))) }
}
pub fn short<X: std::fmt::Debug>(x: &X) -> String { let s = format!("{x:?}"); if s.len() > 600 { let mut e = 600; while !s.is_char_boundary(e) { e -= 1 } format!("{}...", &s[..e]) } else { s } }
fn dlist<X: std::fmt::Debug + PartialEq>(what: &str, a: &[X], b: &[X]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (x, y) => return Some(format!("{what}[{i}]: expected {} got {} (lengths {} {})", short(&x), short(&y), a.len(), b.len())),
        }
    }
    None
}
pub fn diff_attrs(what: &str, a: &[A], b: &[A]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(A::Code(x)), Some(A::Code(y))) => {
                return d2("max_stack", &x.max_stack, &y.max_stack).or_else(|| d2("max_locals", &x.max_locals, &y.max_locals))
                    .or_else(|| dlist("insn", &x.insns, &y.insns)).or_else(|| dlist("handler", &x.handlers, &y.handlers))
                    .or_else(|| dlist("line", &x.lines, &y.lines)).or_else(|| dlist("lvt", &x.lvt, &y.lvt)).or_else(|| dlist("lvtt", &x.lvtt, &y.lvtt))
                    .or_else(|| diff_attrs("codeattr", &x.attrs, &y.attrs)).map(|s| format!("{what} Code: {s}"));
            }
            (x, y) => return Some(format!("{what}[{i}]: expected {} got {} (counts {} {})", short(&x), short(&y), a.len(), b.len())),
        }
    }
    None
}
fn diff_members(what: &str, a: &[Member], b: &[Member]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(x), Some(y)) => {
                return d2("access", &x.access, &y.access).or_else(|| d2("name", &x.name, &y.name)).or_else(|| d2("desc", &x.desc, &y.desc))
                    .or_else(|| diff_attrs("attr", &x.attrs, &y.attrs)).map(|s| format!("{what} {i} {:?}{:?}: {s}", x.name, x.desc));
            }
            (x, y) => return Some(format!("{what}[{i}]: expected {} got {}", short(&x), short(&y))),
        }
    }
    None
}
pub fn diff(a: &Cls, b: &Cls) -> String {
    d2("version", &(a.major, a.minor), &(b.major, b.minor)).or_else(|| d2("access", &a.access, &b.access)).or_else(|| d2("this", &a.this, &b.this))
        .or_else(|| d2("super", &a.sup, &b.sup)).or_else(|| d2("interfaces", &a.ifaces, &b.ifaces))
        .or_else(|| diff_members("field", &a.fields, &b.fields)).or_else(|| diff_members("method", &a.methods, &b.methods))
        .or_else(|| diff_attrs("class attr", &a.attrs, &b.attrs)).or_else(|| dlist("bsm", &a.bsms, &b.bsms)).unwrap_or_else(|| "differ".into())
}
