//! Conversions between coffer's model and the reference representation, with descriptor,
//! signature and string code of our own.
use crate::rcls::*;
use crate::rng::Rng;
use crate::text::*;
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::{
    ArrayType, BitType, BootstrapMethod, Catch, ClassAttribute, ClassFlags, ClassSignature, ClassType, ClassTypeSignature, Code as CCode, CodeAttribute, Constant, ConstantPoolReadWrite, ConstantPoolWriter, Dynamic, ExOpFlags, Export, Field,
    FieldAttribute, FieldFlags, FieldSignature, FloatOperation, FloatType, GetOrPut, InnerClass, InnerClassFlags, Instruction, IntOperation, IntType, JavaVersion, MajorVersion, JumpCondition, Label, LoadOrStore, LocalType, LocalVariable, MapCp,
    MemberRef, MemberType, Method, MethodAttribute, MethodFlags, MethodHandle, MethodHandleKind, MethodParameter, MethodSignature, ModuleFlags, MonitorOperation, NaNBehavior, NumberType, Open, OrDynamic, Provide, RawAttribute,
    RawConstantEntry, RefTypeSignature, Require, RequireFlags, SimpleClassTypeSignature, SourceDebugExtension, Throws, Type, TypeArgument, TypeParameter, TypeSignature,
};
use coffer::total_floats::{TotalF32, TotalF64};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use wtf_8::{Wtf8Str, Wtf8String};

pub type R<X> = Result<X, String>;
pub type CS = Cow<'static, Wtf8Str>;

// ---------- strings ----------
pub fn s_of(w: &Wtf8Str) -> R<S> { from_wtf8(w.as_bytes()).ok_or_else(|| format!("string is not well-formed WTF-8: {:02x?}", w.as_bytes())) }
pub fn w_owned(s: &S) -> CS { Cow::Owned(Wtf8String::from_bytes(to_wtf8(s)).expect("reference WTF-8 accepted")) }
/// A borrowed string (kept for good).
pub fn w_static(s: &S) -> CS {
    thread_local!(static KEPT: std::cell::RefCell<HashMap<S, &'static Wtf8Str>> = Default::default());
    KEPT.with(|k| {
        let mut k = k.borrow_mut();
        if let Some(x) = k.get(s) { return Cow::Borrowed(*x) }
        if k.len() > 50_000 || s.0.len() > 60 { return w_owned(s) }
        let x: &'static Wtf8String = Box::leak(Box::new(Wtf8String::from_bytes(to_wtf8(s)).expect("reference WTF-8 accepted")));
        k.insert(s.clone(), x);
        Cow::Borrowed(x)
    })
}
/// Some names borrowed, some owned, as users of the library have them.
pub fn w_of(s: &S) -> CS { if s.0.len() % 3 == 1 { w_static(s) } else { w_owned(s) } }

// ---------- descriptors ----------
pub fn print_ty(t: &Type, o: &mut S) -> R<()> {
    match t {
        Type::Byte => o.push("B"), Type::Char => o.push("C"), Type::Double => o.push("D"), Type::Float => o.push("F"), Type::Int => o.push("I"),
        Type::Long => o.push("J"), Type::Boolean => o.push("Z"), Type::Short => o.push("S"),
        Type::Ref(n) => { o.push("L"); o.0.extend(s_of(n)?.0); o.push(";") }
        Type::ArrayRef(d, t) => { for _ in 0..*d { o.push("[") } print_ty(t, o)? }
        Type::Method { parameters, ret } => { o.push("("); for p in parameters { print_ty(p, o)? } o.push(")"); match ret { Some(r) => print_ty(r, o)?, None => o.push("V") } }
    }
    Ok(())
}
pub fn desc_of(t: &Type) -> R<S> { let mut s = S::default(); print_ty(t, &mut s)?; Ok(s) }
/// Parse a valid descriptor with our own parser.
pub fn ty_of(s: &S) -> Type {
    fn f(d: &[u16], i: &mut usize) -> Type {
        let mut n = 0u32;
        while d[*i] == b'[' as u16 { n += 1; *i += 1 }
        let c = char::from_u32(d[*i] as u32).unwrap();
        *i += 1;
        let t = match c {
            'B' => Type::Byte, 'C' => Type::Char, 'D' => Type::Double, 'F' => Type::Float, 'I' => Type::Int, 'J' => Type::Long, 'Z' => Type::Boolean, 'S' => Type::Short,
            'L' => { let e = *i + d[*i..].iter().position(|&c| c == b';' as u16).unwrap(); let r = Type::Ref(w_of(&S(d[*i..e].to_vec()))); *i = e + 1; r }
            _ => panic!("bad descriptor in reference"),
        };
        if n > 0 { Type::ArrayRef(n as u8, Box::new(t)) } else { t }
    }
    let d = &s.0;
    let mut i = 0;
    if d[0] == b'(' as u16 {
        i = 1;
        let mut p = vec![];
        while d[i] != b')' as u16 { p.push(f(d, &mut i)) }
        i += 1;
        let ret = if d[i] == b'V' as u16 { None } else { Some(Box::new(f(d, &mut i))) };
        Type::Method { parameters: p, ret }
    } else { f(d, &mut i) }
}

// ---------- signatures ----------
pub fn sig_ref(t: &RefTypeSignature, o: &mut String) {
    match t {
        RefTypeSignature::TypeVariable(n) => { o.push('T'); o.push_str(n); o.push(';') }
        RefTypeSignature::ArrayRef(d, t) => { for _ in 0..*d { o.push('[') } sig_ty(t, o) }
        RefTypeSignature::ClassType(c) => sig_class(c, o),
    }
}
pub fn sig_ty(t: &TypeSignature, o: &mut String) {
    o.push(match t {
        TypeSignature::Byte => 'B', TypeSignature::Char => 'C', TypeSignature::Double => 'D', TypeSignature::Float => 'F', TypeSignature::Int => 'I', TypeSignature::Long => 'J',
        TypeSignature::Boolean => 'Z', TypeSignature::Short => 'S', TypeSignature::Ref(r) => return sig_ref(r, o),
    })
}
fn sig_simple(s: &SimpleClassTypeSignature, o: &mut String) {
    o.push_str(&s.name);
    if !s.type_arguments.is_empty() {
        o.push('<');
        for a in &s.type_arguments { match a { TypeArgument::Any => o.push('*'), TypeArgument::Extends(t) => { o.push('+'); sig_ref(t, o) } TypeArgument::Super(t) => { o.push('-'); sig_ref(t, o) } TypeArgument::Exact(t) => sig_ref(t, o) } }
        o.push('>');
    }
}
pub fn sig_class(c: &ClassTypeSignature, o: &mut String) {
    o.push('L');
    for p in &c.package { o.push_str(p); o.push('/') }
    sig_simple(&c.name, o);
    for s in &c.suffix { o.push('.'); sig_simple(s, o) }
    o.push(';');
}
fn sig_params(p: &[TypeParameter], o: &mut String) {
    if p.is_empty() { return }
    o.push('<');
    for t in p { o.push_str(&t.name); o.push(':'); if let Some(b) = &t.class_bound { sig_ref(b, o) } for b in &t.interface_bounds { o.push(':'); sig_ref(b, o) } }
    o.push('>');
}
pub fn csig(c: &ClassSignature) -> String { let mut o = String::new(); sig_params(&c.type_parameters, &mut o); sig_class(&c.super_class, &mut o); for i in &c.interfaces { sig_class(i, &mut o) } o }
pub fn msig(m: &MethodSignature) -> String {
    let mut o = String::new();
    sig_params(&m.type_parameters, &mut o);
    o.push('(');
    for p in &m.parameters { sig_ty(p, &mut o) }
    o.push(')');
    match &m.return_type { None => o.push('V'), Some(t) => sig_ty(t, &mut o) }
    for t in &m.throws { o.push('^'); match t { Throws::TypeParameter(n) => { o.push('T'); o.push_str(n); o.push(';') } Throws::Class(c) => sig_class(c, &mut o) } }
    o
}
/// Parse a (valid) signature with our own recursive-descent parser.
/// `loose`: identifiers may be empty and contain anything but what ends them in their place.
pub struct Sp<'a> { c: Vec<char>, i: usize, pub loose: bool, pub guessed: bool, _p: std::marker::PhantomData<&'a ()> }
impl<'a> Sp<'a> {
    pub fn new(s: &str) -> Self { Sp { c: s.chars().collect(), i: 0, loose: false, guessed: false, _p: Default::default() } }
    fn peek(&self) -> char { self.c.get(self.i).copied().unwrap_or('\0') }
    pub fn at_end(&self) -> bool { self.i >= self.c.len() }
    fn eat(&mut self, x: char) -> R<()> { if !self.at_end() && self.peek() == x { self.i += 1; Ok(()) } else { Err(format!("expected {x:?} at {}", self.i)) } }
    fn ident(&mut self, end: &str) -> R<Cow<'static, str>> {
        let b = self.i;
        if self.loose { while !self.at_end() && !end.contains(self.peek()) { self.i += 1 } return Ok(self.c[b..self.i].iter().collect::<String>().into()) }
        while !self.at_end() && !matches!(self.peek(), '.' | ';' | '[' | '/' | '<' | '>' | ':') { self.i += 1 }
        if b == self.i { return Err(format!("empty identifier at {b}")) }
        Ok(self.c[b..self.i].iter().collect::<String>().into())
    }
    pub fn rf(&mut self) -> R<RefTypeSignature> {
        match self.peek() {
            'T' => { self.i += 1; let n = self.ident(";")?; self.eat(';')?; Ok(RefTypeSignature::TypeVariable(n)) }
            '[' => { let mut n = 0u32; while self.peek() == '[' { n += 1; self.i += 1 } if n > 255 { return Err("dimensions".into()) } Ok(RefTypeSignature::ArrayRef(n as u8, Box::new(self.ty()?))) }
            'L' => Ok(RefTypeSignature::ClassType(self.class()?)),
            c => Err(format!("reference type at {} is {c:?}", self.i)),
        }
    }
    pub fn ty(&mut self) -> R<TypeSignature> {
        let t = match self.peek() { 'B' => TypeSignature::Byte, 'C' => TypeSignature::Char, 'D' => TypeSignature::Double, 'F' => TypeSignature::Float, 'I' => TypeSignature::Int, 'J' => TypeSignature::Long, 'Z' => TypeSignature::Boolean, 'S' => TypeSignature::Short, _ => return Ok(TypeSignature::Ref(self.rf()?)) };
        self.i += 1;
        Ok(t)
    }
    fn simple(&mut self) -> R<SimpleClassTypeSignature> {
        let name = self.ident(";<.")?;
        let mut a = vec![];
        if self.peek() == '<' {
            self.i += 1;
            loop {
                a.push(match self.peek() { '*' => { self.i += 1; TypeArgument::Any } '+' => { self.i += 1; TypeArgument::Extends(self.rf()?) } '-' => { self.i += 1; TypeArgument::Super(self.rf()?) } _ => TypeArgument::Exact(self.rf()?) });
                if self.peek() == '>' { self.i += 1; break }
            }
        }
        Ok(SimpleClassTypeSignature { name, type_arguments: a })
    }
    pub fn class(&mut self) -> R<ClassTypeSignature> {
        self.eat('L')?;
        let mut package = vec![];
        loop {
            let save = self.i;
            let n = self.ident("/;<.")?;
            if self.peek() == '/' { self.i += 1; package.push(n) } else { self.i = save; break }
        }
        let name = self.simple()?;
        let mut suffix = vec![];
        while self.peek() == '.' { self.i += 1; suffix.push(self.simple()?) }
        self.eat(';')?;
        Ok(ClassTypeSignature { package, name, suffix })
    }
    fn params(&mut self) -> R<Vec<TypeParameter>> {
        let mut v = vec![];
        if self.peek() != '<' { return Ok(v) }
        self.i += 1;
        loop {
            let name = self.ident(":")?;
            self.eat(':')?;
            let class_bound = if matches!(self.peek(), 'L' | 'T' | '[') { self.bound()? } else { None };
            let mut ib = vec![];
            while self.peek() == ':' { self.i += 1; ib.push(self.rf()?) }
            v.push(TypeParameter { name, class_bound, interface_bounds: ib });
            if self.peek() == '>' { self.i += 1; break }
        }
        Ok(v)
    }
    /// A class bound, unless what follows ':' is really the next type parameter's name.
    fn bound(&mut self) -> R<Option<RefTypeSignature>> {
        let save = self.i;
        match self.rf() {
            Ok(r) => Ok(Some(r)),
            Err(_) => { self.i = save; self.guessed = true; Ok(None) }
        }
    }
    pub fn class_sig(&mut self) -> R<ClassSignature> {
        let tp = self.params()?;
        let sc = self.class()?;
        let mut v = vec![];
        while !self.at_end() { v.push(self.class()?) }
        Ok(ClassSignature { type_parameters: tp, super_class: sc, interfaces: v })
    }
    pub fn method_sig(&mut self) -> R<MethodSignature> {
        let tp = self.params()?;
        self.eat('(')?;
        let mut p = vec![];
        while self.peek() != ')' { if self.at_end() { return Err("end".into()) } p.push(self.ty()?) }
        self.i += 1;
        let r = if self.peek() == 'V' { self.i += 1; None } else { Some(self.ty()?) };
        let mut t = vec![];
        while !self.at_end() {
            self.eat('^')?;
            t.push(if self.peek() == 'T' { self.i += 1; let n = self.ident(";")?; self.eat(';')?; Throws::TypeParameter(n) } else { Throws::Class(self.class()?) });
        }
        Ok(MethodSignature { type_parameters: tp, parameters: p, return_type: r, throws: t })
    }
    pub fn field_sig(&mut self) -> R<RefTypeSignature> { let r = self.rf()?; if self.at_end() { Ok(r) } else { Err("trailing".into()) } }
}
fn st(s: &S) -> String { s.lossy() }

// ---------- coffer -> reference ----------
pub fn mem(m: &MemberRef) -> R<Mem> {
    let kind = match (&m.descriptor, m.itfs) { (Type::Method { .. }, true) => MK::IMethod, (Type::Method { .. }, false) => MK::Method, _ => MK::Field };
    Ok(Mem { kind, owner: s_of(&m.owner)?, name: s_of(&m.name)?, desc: desc_of(&m.descriptor)? })
}
pub fn konst(c: &Constant) -> R<K> {
    Ok(match c {
        Constant::I32(i) => K::Int(*i), Constant::F32(f) => K::Float(f.0.to_bits()), Constant::I64(l) => K::Long(*l), Constant::F64(d) => K::Double(d.0.to_bits()),
        Constant::String(s) => K::Str(s_of(s)?), Constant::Class(s) => K::Class(s_of(s)?), Constant::MethodType(t) => K::MType(desc_of(t)?),
        Constant::MethodHandle(h) => K::Handle(h.kind as u8, mem(&h.member)?),
        Constant::Member(m) => return Err(format!("member constant {m:?}")),
    })
}
pub fn dynamic(d: &Dynamic, depth: usize) -> R<Arc<Dyn>> {
    if depth > 400 { return Err("dynamic nesting too deep".into()) }
    let b = d.bsm.get().ok_or("dynamic without bootstrap method")?;
    Ok(Arc::new(Dyn { name: s_of(&d.name)?, desc: desc_of(&d.descriptor)?, bsm: Arc::new(bsm(b, depth + 1)?) }))
}
pub fn bsm(b: &BootstrapMethod, depth: usize) -> R<Bsm> {
    Ok(Bsm { kind: b.handle.kind as u8, mem: mem(&b.handle.member)?, args: b.arguments.iter().map(|a| ordyn(a, depth)).collect::<R<Vec<_>>>()? })
}
pub fn ordyn(c: &OrDynamic<Constant>, depth: usize) -> R<K> { match c { OrDynamic::Static(c) => konst(c), OrDynamic::Dynamic(d) => Ok(K::Dyn(dynamic(d, depth)?)) } }
fn stat<X>(o: &OrDynamic<X>) -> R<&X> { match o { OrDynamic::Static(x) => Ok(x), OrDynamic::Dynamic(_) => Err("dynamic where the JVM has none".into()) } }

pub fn value(v: &AnnotationValue) -> R<V> {
    Ok(match v {
        AnnotationValue::Byte(x) => V::Byte(*x as i32), AnnotationValue::Char(x) => V::Char(*x as i32), AnnotationValue::Double(x) => V::Double(x.0.to_bits()), AnnotationValue::Float(x) => V::Float(x.0.to_bits()),
        AnnotationValue::Int(x) => V::Int(*x), AnnotationValue::Long(x) => V::Long(*x), AnnotationValue::Short(x) => V::Short(*x as i32), AnnotationValue::Boolean(x) => V::Bool(*x as i32),
        AnnotationValue::String(s) => V::Str(s_of(s)?), AnnotationValue::Enum(t, n) => V::Enum(desc_of(t)?, s_of(n)?),
        AnnotationValue::Class(t) => V::Class(match t { None => "V".into(), Some(t) => desc_of(t)? }),
        AnnotationValue::Annotation(a) => V::Ann(ann(a)?), AnnotationValue::Array(v) => V::Arr(v.iter().map(value).collect::<R<Vec<_>>>()?),
    })
}
fn vals(m: &HashMap<CS, AnnotationValue>) -> R<BTreeMap<S, V>> { m.iter().map(|(k, v)| Ok((s_of(k)?, value(v)?))).collect() }
pub fn ann(a: &Annotation) -> R<Ann> { Ok(Ann { ty: desc_of(&a.annotation_type)?, vals: vals(&a.element_values)? }) }
fn anns(v: &[Annotation]) -> R<Vec<Ann>> { v.iter().map(ann).collect() }
fn path(p: &[TypePath]) -> Vec<(u8, u8)> { p.iter().map(|p| match p { TypePath::Array(x) => (0, *x), TypePath::Nested(x) => (1, *x), TypePath::TypeBound(x) => (2, *x), TypePath::TypeArgument(x) => (3, *x) }).collect() }
fn tann(target: T, p: &[TypePath], ty: &Type, ev: &HashMap<CS, AnnotationValue>) -> R<TAnn> { Ok(TAnn { target, path: path(p), ann: Ann { ty: desc_of(ty)?, vals: vals(ev)? } }) }
fn b2(x: u16) -> [u8; 2] { x.to_be_bytes() }

pub fn jump_op(c: JumpCondition) -> u8 {
    match c {
        JumpCondition::IntegerEqualsZero => 153, JumpCondition::IntegerNotEqualsZero => 154, JumpCondition::IntegerLessThanZero => 155, JumpCondition::IntegerGreaterThanOrEqualsZero => 156,
        JumpCondition::IntegerGreaterThanZero => 157, JumpCondition::IntegerLessThanOrEqualsZero => 158, JumpCondition::IntegerEquals => 159, JumpCondition::IntegerNotEquals => 160,
        JumpCondition::IntegerLessThan => 161, JumpCondition::IntegerGreaterThanOrEquals => 162, JumpCondition::IntegerGreaterThan => 163, JumpCondition::IntegerLessThanOrEquals => 164,
        JumpCondition::ReferenceEquals => 165, JumpCondition::ReferenceNotEquals => 166, JumpCondition::Always => 167, JumpCondition::IsNull => 198, JumpCondition::IsNonNull => 199,
    }
}
pub const CONDS: [JumpCondition; 17] = [
    JumpCondition::ReferenceEquals, JumpCondition::ReferenceNotEquals, JumpCondition::IntegerEquals, JumpCondition::IntegerNotEquals, JumpCondition::IntegerLessThan, JumpCondition::IntegerGreaterThan,
    JumpCondition::IntegerLessThanOrEquals, JumpCondition::IntegerGreaterThanOrEquals, JumpCondition::IntegerEqualsZero, JumpCondition::IntegerNotEqualsZero, JumpCondition::IntegerLessThanZero, JumpCondition::IntegerGreaterThanZero,
    JumpCondition::IntegerLessThanOrEqualsZero, JumpCondition::IntegerGreaterThanOrEqualsZero, JumpCondition::IsNull, JumpCondition::IsNonNull, JumpCondition::Always,
];
/// Every operand-free instruction: (model, opcode).
pub fn simple_insns() -> Vec<(Instruction, u8)> {
    use Instruction as N;
    let mut v = vec![
        (N::NoOp, 0), (N::PushNull, 1), (N::Pop1, 87), (N::Pop2, 88), (N::Dup, 89), (N::DupX1, 90), (N::DupX2, 91), (N::Dup2, 92), (N::Dup2X1, 93), (N::Dup2X2, 94), (N::Swap, 95), (N::CompareLongs, 148),
        (N::CompareFloats(FloatType::Float, NaNBehavior::ReturnsNegativeOne), 149), (N::CompareFloats(FloatType::Float, NaNBehavior::ReturnsOne), 150), (N::CompareFloats(FloatType::Double, NaNBehavior::ReturnsNegativeOne), 151),
        (N::CompareFloats(FloatType::Double, NaNBehavior::ReturnsOne), 152), (N::ArrayLength, 190), (N::Throw, 191), (N::Monitor(MonitorOperation::Enter), 194), (N::Monitor(MonitorOperation::Exit), 195),
        (N::Return(Some(LocalType::Int)), 172), (N::Return(Some(LocalType::Long)), 173), (N::Return(Some(LocalType::Float)), 174), (N::Return(Some(LocalType::Double)), 175), (N::Return(Some(LocalType::Reference)), 176), (N::Return(None), 177),
        (N::ConvertInt(BitType::Byte), 145), (N::ConvertInt(BitType::Char), 146), (N::ConvertInt(BitType::Short), 147),
        (N::ConvertInt(BitType::Long), 133), (N::ConvertInt(BitType::Float), 134), (N::ConvertInt(BitType::Double), 135),
    ];
    for (i, t) in [ArrayType::Int, ArrayType::Long, ArrayType::Float, ArrayType::Double, ArrayType::Reference, ArrayType::ByteOrBool, ArrayType::Char, ArrayType::Short].into_iter().enumerate() {
        v.push((N::Array(LoadOrStore::Load, t), 46 + i as u8));
        v.push((N::Array(LoadOrStore::Store, t), 79 + i as u8));
    }
    let io = [(IntOperation::Add, 96), (IntOperation::Subtract, 100), (IntOperation::Multiply, 104), (IntOperation::Divide, 108), (IntOperation::Remainder, 112), (IntOperation::Negate, 116)];
    for (o, b) in io { v.push((N::IntOperation(IntType::Int, o), b)); v.push((N::IntOperation(IntType::Long, o), b + 1)) }
    let io = [(IntOperation::ShiftLeft, 120), (IntOperation::ShiftRight, 122), (IntOperation::UnsignedShiftRight, 124), (IntOperation::And, 126), (IntOperation::Or, 128), (IntOperation::ExclusiveOr, 130)];
    for (o, b) in io { v.push((N::IntOperation(IntType::Int, o), b)); v.push((N::IntOperation(IntType::Long, o), b + 1)) }
    let fo = [(FloatOperation::Add, 98), (FloatOperation::Subtract, 102), (FloatOperation::Multiply, 106), (FloatOperation::Divide, 110), (FloatOperation::Remainder, 114), (FloatOperation::Negate, 118)];
    for (o, b) in fo { v.push((N::FloatOperation(FloatType::Float, o), b)); v.push((N::FloatOperation(FloatType::Double, o), b + 1)) }
    use NumberType::*;
    let mut op = 133;
    for a in [Int, Long, Float, Double] { for b in [Int, Long, Float, Double] { if a != b { v.push((N::Conversion(a, b), op)); op += 1 } } }
    v
}
fn simple_map() -> &'static HashMap<String, u8> {
    static M: once_cell::sync::OnceCell<HashMap<String, u8>> = once_cell::sync::OnceCell::new();
    M.get_or_init(|| simple_insns().into_iter().map(|(i, o)| (format!("{i:?}"), o)).collect())
}
/// opcode -> model (first alternative)
fn op_map() -> &'static HashMap<u8, Vec<Instruction>> {
    static M: once_cell::sync::OnceCell<HashMap<u8, Vec<Instruction>>> = once_cell::sync::OnceCell::new();
    M.get_or_init(|| { let mut m: HashMap<u8, Vec<Instruction>> = HashMap::new(); for (i, o) in simple_insns() { m.entry(o).or_default().push(i) } m })
}
fn lt(t: &LocalType) -> u8 { match t { LocalType::Int => 0, LocalType::Long => 1, LocalType::Float => 2, LocalType::Double => 3, LocalType::Reference => 4 } }
const LTS: [LocalType; 5] = [LocalType::Int, LocalType::Long, LocalType::Float, LocalType::Double, LocalType::Reference];
fn class_type(c: &ClassType) -> R<S> {
    match c { ClassType::Array(0, _) => return Err("an array type of no dimensions".into()), ClassType::Array(_, Type::ArrayRef(..) | Type::Method { .. }) => return Err("an array type of arrays or methods".into()), ClassType::Object(n) if n.as_bytes().first() == Some(&b'[') => return Err("an array type taken for a class".into()), _ => {} }
    Ok(match c { ClassType::Object(n) => s_of(n)?, ClassType::Array(d, t) => { let mut s = S::default(); for _ in 0..*d { s.push("[") } print_ty(t, &mut s)?; s } })
}

/// The real instruction a model instruction stands for (`None`: a pseudo-instruction or no code).
pub fn insn(i: &Instruction, at: &dyn Fn(&Label) -> R<usize>) -> R<Option<I>> {
    use Instruction as N;
    Ok(Some(match i {
        N::Label(_) | N::LineNumber(_) => return Ok(None),
        N::Conversion(a, b) if a == b => return Ok(None),
        N::ConvertInt(BitType::Int) => return Ok(None),
        N::Push(c) => I::Const(ordyn(c, 0)?),
        N::Jump(c, l) => I::Jump(jump_op(*c), at(l)?),
        N::Jsr(l) => I::Jump(168, at(l)?),
        N::Ret(n) => I::Ret(*n),
        N::LocalVariable(ls, t, n) => I::Local(if *ls == LoadOrStore::Load { 21 } else { 54 } + lt(t), *n),
        N::IntIncrement(a, b) => I::Iinc(*a, *b),
        N::CheckCast(c) => I::Cast(192, class_type(stat(c)?)?),
        N::InstanceOf(c) => I::Cast(193, class_type(stat(c)?)?),
        N::New(c) => I::New(s_of(stat(c)?)?),
        N::NewArray(t, d) => { let mut s = S::default(); if *d == 1 { s.push("[") } print_ty(stat(t)?, &mut s)?; I::NewArr(s, *d) }
        N::Field(g, m, r) => I::Field(match (g, m) { (GetOrPut::Get, MemberType::Static) => 178, (GetOrPut::Put, MemberType::Static) => 179, (GetOrPut::Get, MemberType::Virtual) => 180, (GetOrPut::Put, MemberType::Virtual) => 181 }, mem(stat(r)?)?),
        N::InvokeExact(m, r) => I::Invoke(if *m == MemberType::Static { 184 } else { 182 }, mem(stat(r)?)?, 0),
        N::InvokeSpecial(r) => I::Invoke(183, mem(stat(r)?)?, 0),
        N::InvokeInterface(r, c) => I::Invoke(185, mem(stat(r)?)?, *c),
        N::InvokeDynamic(d) => I::Indy(dynamic(d, 0)?),
        N::TableSwitch { default, low, offsets } => I::Table(at(default)?, *low, offsets.iter().map(|l| at(l)).collect::<R<_>>()?),
        N::LookupSwitch { default, table } => { let mut v = table.iter().map(|(k, l)| Ok((*k, at(l)?))).collect::<R<Vec<_>>>()?; v.sort(); I::Lookup(at(default)?, v) }
        o => I::Op(*simple_map().get(&format!("{o:?}")).ok_or_else(|| format!("instruction {o:?} stands for nothing"))?),
    }))
}

pub fn code(c: &CCode) -> R<Code> {
    let mut labels: HashMap<Label, usize> = HashMap::new();
    let mut n = 0;
    for i in &c.code {
        match i {
            Instruction::Label(l) => if labels.insert(*l, n).is_some() { return Err(format!("label {l:?} placed twice")) },
            Instruction::LineNumber(_) => {}
            Instruction::Conversion(a, b) if a == b => {}
            Instruction::ConvertInt(BitType::Int) => {}
            _ => n += 1,
        }
    }
    let at = |l: &Label| labels.get(l).copied().ok_or_else(|| format!("label {l:?} not placed"));
    let mut o = Code { max_stack: c.max_stack, max_locals: c.max_locals, ..Default::default() };
    for i in &c.code {
        if let Instruction::LineNumber(l) = i { o.lines.push((o.insns.len(), *l)) }
        o.insns.extend(insn(i, &at)?);
    }
    let h = |k: &Catch| -> R<H> { Ok((at(&k.start)?, at(&k.end)?, at(&k.handler)?, k.catch.as_ref().map(|s| s_of(s)).transpose()?)) };
    for k in &c.catches { o.handlers.push(h(k)?) }
    for a in &c.attrs {
        match a {
            CodeAttribute::Raw(r) => o.attrs.push(A::Raw(s_of(&r.name)?, r.inner.to_vec())),
            CodeAttribute::LocalVariables(v) => for l in v {
                if let Some(d) = &l.descriptor { o.lvt.push((at(&l.start)?, at(&l.end)?, l.index, s_of(&l.name)?, desc_of(d)?)) }
                if let Some(g) = &l.signature { o.lvtt.push((at(&l.start)?, at(&l.end)?, l.index, s_of(&l.name)?, S::from(g.to_string().as_str()))) }
            },
            CodeAttribute::VisibleTypeAnnotations(v) | CodeAttribute::InvisibleTypeAnnotations(v) => {
                let vis = matches!(a, CodeAttribute::VisibleTypeAnnotations(_));
                let mut out = vec![];
                for t in v {
                    use CodeTypeAnnotationTarget as G;
                    let loc = |v: &Vec<LocalVarTarget>| v.iter().map(|x| Ok((at(&x.start)?, at(&x.end)?, x.idx))).collect::<R<Vec<_>>>();
                    let target = match &t.target {
                        G::LocalVariable(v) => T::Local(0x40, loc(v)?), G::ResourceVariable(v) => T::Local(0x41, loc(v)?), G::CatchParameter(k) => T::Catch(h(k)?),
                        G::InstanceOf(l) => T::Off(0x43, at(l)?), G::Constructor(l) => T::Off(0x44, at(l)?), G::ConstructorRef(l) => T::Off(0x45, at(l)?), G::MethodRef(l) => T::Off(0x46, at(l)?),
                        G::Cast(l, b) => T::OffArg(0x47, at(l)?, *b), G::GenericConstructor(l, b) => T::OffArg(0x48, at(l)?, *b), G::GenericMethod(l, b) => T::OffArg(0x49, at(l)?, *b),
                        G::GenericConstructorRef(l, b) => T::OffArg(0x4A, at(l)?, *b), G::GenericMethodRef(l, b) => T::OffArg(0x4B, at(l)?, *b),
                    };
                    out.push(tann(target, &t.type_path, &t.annotation_type, &t.element_values)?);
                }
                o.attrs.push(A::TAnns(vis, out));
            }
        }
    }
    Ok(o)
}

/// A constant-pool writer that only records, to look inside values with private fields.
#[derive(Default)]
pub struct RecCp { pub entries: Vec<RawConstantEntry>, pub bsms: Vec<BootstrapMethod> }
impl ConstantPoolWriter for RecCp {
    fn insert_raw(&mut self, e: RawConstantEntry) -> u16 { self.entries.push(e); self.entries.len() as u16 }
    fn insert_bsm(&mut self, b: BootstrapMethod) -> u16 { self.bsms.push(b); self.bsms.len() as u16 - 1 }
}
fn param(p: &MethodParameter) -> R<(Option<S>, u16)> {
    let mut cp = RecCp::default();
    let mut b = vec![];
    ConstantPoolReadWrite::write_to(p, &mut cp, &mut b).map_err(|e| format!("method parameter: {e}"))?;
    if b.len() != 4 { return Err(format!("method parameter writes {} bytes", b.len())) }
    let i = (b[0] as usize) << 8 | b[1] as usize;
    let name = if i == 0 { None } else { match cp.entries.get(i - 1) { Some(RawConstantEntry::WTF8(s)) => Some(s_of(s)?), e => return Err(format!("method parameter name is {e:?}")) } };
    Ok((name, (b[2] as u16) << 8 | b[3] as u16))
}
fn so(s: &Option<CS>) -> R<Option<S>> { s.as_ref().map(|s| s_of(s)).transpose() }
fn sv(v: &[CS]) -> R<Vec<S>> { v.iter().map(|s| s_of(s)).collect() }

pub fn class_attr(a: &ClassAttribute, bsms: &mut Vec<Arc<Bsm>>) -> R<Option<A>> {
    use ClassAttribute as N;
    Ok(Some(match a {
        N::Signature(s) => A::Signature(csig(s).as_str().into()), N::Synthetic => A::Synthetic, N::Deprecated => A::Deprecated, N::SourceFile(s) => A::SourceFile(s_of(s)?),
        N::InnerClasses(v) => A::InnerClasses(v.iter().map(|c| Ok((s_of(&c.inner_fqname)?, so(&c.outer_fqname)?, so(&c.inner_name)?, c.inner_access.bits()))).collect::<R<_>>()?),
        N::EnclosingMethod(c, m) => A::EnclosingMethod(s_of(c)?, m.as_ref().map(|(n, t)| Ok::<_, String>((s_of(n)?, desc_of(t)?))).transpose()?),
        N::SourceDebugExtension(s) => A::SourceDebug(s_of(&s.0)?),
        N::BootstrapMethods(b) => { for b in b { bsms.push(Arc::new(bsm(b, 0)?)) } return Ok(None) }
        N::Module(m) => A::Module(Box::new(Module {
            name: s_of(&m.name)?, flags: m.flags.bits(), version: so(&m.version)?,
            requires: m.requires.iter().map(|r| Ok((s_of(&r.module)?, r.flags.bits(), so(&r.version)?))).collect::<R<_>>()?,
            exports: m.exports.iter().map(|r| Ok((s_of(&r.package)?, r.flags.bits(), sv(&r.to)?))).collect::<R<_>>()?,
            opens: m.opens.iter().map(|r| Ok((s_of(&r.package)?, r.flags.bits(), sv(&r.to)?))).collect::<R<_>>()?,
            uses: sv(&m.uses)?, provides: m.provides.iter().map(|p| Ok((s_of(&p.class)?, sv(&p.with)?))).collect::<R<_>>()?,
        })),
        N::ModulePackages(v) => A::ModulePackages(sv(v)?), N::ModuleMainClass(s) => A::ModuleMainClass(s_of(s)?), N::NestHost(s) => A::NestHost(s_of(s)?), N::NestMembers(v) => A::NestMembers(sv(v)?),
        N::RuntimeVisibleAnnotations(v) => A::Anns(true, anns(v)?), N::RuntimeInvisibleAnnotations(v) => A::Anns(false, anns(v)?),
        N::RuntimeVisibleTypeAnnotations(v) | N::RuntimeInvisibleTypeAnnotations(v) => A::TAnns(matches!(a, N::RuntimeVisibleTypeAnnotations(_)), v.iter().map(|t| {
            use ClassTypeAnnotationTarget as G;
            let p = match t.target { G::GenericTypeParameter(x) => vec![0, x], G::ExtendsImplementsClause(x) => vec![0x10, b2(x)[0], b2(x)[1]], G::GenericTypeParameterBound(x, y) => vec![0x11, x, y] };
            tann(T::Plain(p), &t.type_path, &t.annotation_type, &t.element_values)
        }).collect::<R<_>>()?),
        N::Raw(r) => A::Raw(s_of(&r.name)?, r.inner.to_vec()),
    }))
}
pub fn field(f: &Field) -> R<Member> {
    let mut attrs = vec![];
    for a in &f.attrs {
        use FieldAttribute as N;
        attrs.push(match a {
            N::Deprecated => A::Deprecated, N::Synthetic => A::Synthetic, N::Signature(s) => A::Signature(s.to_string().as_str().into()), N::ConstantValue(c) => A::ConstantValue(konst(c)?),
            N::RuntimeVisibleAnnotations(v) => A::Anns(true, anns(v)?), N::RuntimeInvisibleAnnotations(v) => A::Anns(false, anns(v)?),
            N::RuntimeVisibleTypeAnnotations(v) | N::RuntimeInvisibleTypeAnnotations(v) => A::TAnns(matches!(a, N::RuntimeVisibleTypeAnnotations(_)), v.iter().map(|t| tann(T::Plain(vec![0x13]), &t.type_path, &t.annotation_type, &t.element_values)).collect::<R<_>>()?),
            N::Raw(r) => A::Raw(s_of(&r.name)?, r.inner.to_vec()),
        });
    }
    Ok(Member { access: f.access.bits(), name: s_of(&f.name)?, desc: desc_of(&f.descriptor)?, attrs })
}
pub fn method(m: &Method) -> R<Member> {
    let mut attrs = vec![];
    for a in &m.attributes {
        use MethodAttribute as N;
        attrs.push(match a {
            N::Code(c) => A::Code(Box::new(code(c)?)), N::Deprecated => A::Deprecated, N::Synthetic => A::Synthetic, N::Signature(s) => A::Signature(msig(s).as_str().into()),
            N::RuntimeVisibleAnnotations(v) => A::Anns(true, anns(v)?), N::RuntimeInvisibleAnnotations(v) => A::Anns(false, anns(v)?),
            N::RuntimeVisibleTypeAnnotations(v) | N::RuntimeInvisibleTypeAnnotations(v) => A::TAnns(matches!(a, N::RuntimeVisibleTypeAnnotations(_)), v.iter().map(|t| {
                use MethodTypeAnnotationTarget as G;
                let p = match t.target { G::GenericTypeParameter(x) => vec![1, x], G::GenericTypeParameterBound(x, y) => vec![0x12, x, y], G::Return => vec![0x14], G::Reciever => vec![0x15], G::FormalParameter(x) => vec![0x16, x], G::Throws(x) => vec![0x17, b2(x)[0], b2(x)[1]] };
                tann(T::Plain(p), &t.type_path, &t.annotation_type, &t.element_values)
            }).collect::<R<_>>()?),
            N::RuntimeVisibleParameterAnnotations(v) => A::PAnns(true, v.iter().map(|p| anns(p)).collect::<R<_>>()?), N::RuntimeInvisibleParameterAnnotations(v) => A::PAnns(false, v.iter().map(|p| anns(p)).collect::<R<_>>()?),
            N::Exceptions(v) => A::Exceptions(sv(v)?), N::AnnotationDefault(v) => A::AnnDefault(value(v)?), N::MethodParameters(v) => A::MethodParameters(v.iter().map(param).collect::<R<_>>()?),
            N::Raw(r) => A::Raw(s_of(&r.name)?, r.inner.to_vec()),
        });
    }
    Ok(Member { access: m.access.bits(), name: s_of(&m.name)?, desc: desc_of(&m.descriptor)?, attrs })
}
pub fn norm(c: &Class) -> R<Cls> {
    let mut bsms = vec![];
    let mut attrs = vec![];
    for a in &c.attributes { attrs.extend(class_attr(a, &mut bsms)?) }
    Ok(Cls {
        minor: c.version.minor, major: major_no(c.version.major)?, access: c.access.bits(), this: s_of(&c.name)?, sup: so(&c.super_name)?, ifaces: sv(&c.interfaces)?,
        fields: c.fields.iter().map(field).collect::<R<_>>()?, methods: c.methods.iter().map(method).collect::<R<_>>()?, attrs, has_bsm_attr: !bsms.is_empty(), bsms,
    })
}

// ---------- reference -> coffer ----------
pub fn u_mem(m: &Mem) -> MemberRef { MemberRef { owner: w_of(&m.owner), name: w_of(&m.name), descriptor: ty_of(&m.desc), itfs: m.kind == MK::IMethod } }
pub fn kind(k: u8) -> MethodHandleKind {
    use MethodHandleKind::*;
    [GetField, GetStatic, PutField, PutStatic, InvokeVirtual, InvokeStatic, InvokeSpecial, NewInvokeSpecial, InvokeInterface][k as usize - 1]
}
pub fn u_konst(k: &K) -> OrDynamic<Constant> {
    OrDynamic::Static(match k {
        K::Int(i) => Constant::I32(*i), K::Float(b) => Constant::F32(TotalF32(f32::from_bits(*b))), K::Long(l) => Constant::I64(*l), K::Double(b) => Constant::F64(TotalF64(f64::from_bits(*b))),
        K::Str(s) => Constant::String(w_of(s)), K::Class(s) => Constant::Class(w_of(s)), K::MType(d) => Constant::MethodType(ty_of(d)), K::Handle(k, m) => Constant::MethodHandle(MethodHandle { kind: kind(*k), member: u_mem(m) }),
        K::Dyn(d) => return OrDynamic::Dynamic(u_dyn(d)),
    })
}
pub fn u_dyn(d: &Dyn) -> Dynamic { Dynamic::new(u_bsm(&d.bsm), w_of(&d.name), ty_of(&d.desc)) }
pub fn u_bsm(b: &Bsm) -> BootstrapMethod { BootstrapMethod { handle: MethodHandle { kind: kind(b.kind), member: u_mem(&b.mem) }, arguments: b.args.iter().map(u_konst).collect() } }
pub fn u_val(v: &V) -> AnnotationValue {
    match v {
        V::Byte(x) => AnnotationValue::Byte(*x as i8), V::Char(x) => AnnotationValue::Char(*x as u16), V::Double(b) => AnnotationValue::Double(TotalF64(f64::from_bits(*b))), V::Float(b) => AnnotationValue::Float(TotalF32(f32::from_bits(*b))),
        V::Int(x) => AnnotationValue::Int(*x), V::Long(x) => AnnotationValue::Long(*x), V::Short(x) => AnnotationValue::Short(*x as i16), V::Bool(x) => AnnotationValue::Boolean(*x == 1), V::Str(s) => AnnotationValue::String(w_of(s)),
        V::Enum(t, n) => AnnotationValue::Enum(ty_of(t), w_of(n)), V::Class(t) => AnnotationValue::Class(if t.is("V") { None } else { Some(ty_of(t)) }), V::Ann(a) => AnnotationValue::Annotation(u_ann(a)), V::Arr(v) => AnnotationValue::Array(v.iter().map(u_val).collect()),
    }
}
fn u_vals(a: &Ann) -> HashMap<CS, AnnotationValue> { a.vals.iter().map(|(k, v)| (w_of(k), u_val(v))).collect() }
pub fn u_ann(a: &Ann) -> Annotation { Annotation { annotation_type: ty_of(&a.ty), element_values: u_vals(a) } }
fn u_path(p: &[(u8, u8)]) -> Vec<TypePath> { p.iter().map(|(k, x)| match k { 0 => TypePath::Array(*x), 1 => TypePath::Nested(*x), 2 => TypePath::TypeBound(*x), _ => TypePath::TypeArgument(*x) }).collect() }
fn u_sv(v: &[S]) -> Vec<CS> { v.iter().map(w_of).collect() }
fn u_raw(n: &S, b: &[u8]) -> RawAttribute { RawAttribute::new(w_of(n), b.to_vec()) }

/// Places labels for the positions used in a reference code body.
pub struct Lab { at: BTreeMap<usize, Vec<Label>>, next: u32, many: bool }
impl Lab {
    pub fn plain() -> Lab { Lab { at: BTreeMap::new(), next: 0, many: false } }
    pub fn position(&self, l: &Label) -> R<usize> { self.at.iter().find(|(_, v)| v.contains(l)).map(|(p, _)| *p).ok_or_else(|| "no such label".into()) }
    fn get(&mut self, pos: usize, r: &mut Rng) -> Label {
        let many = self.many;
        let v = self.at.entry(pos).or_default();
        if v.is_empty() || (many && r.chance(1, 4)) { v.push(Label(self.next)); self.next += 1 + if many { r.below(3) as u32 } else { 0 } }
        *r.pick(v)
    }
}
pub fn u_insn(i: &I, lab: &mut Lab, r: &mut Rng) -> Instruction {
    use Instruction as N;
    match i {
        I::Op(o) => { let v = &op_map()[o]; r.pick(v).clone() }
        I::Const(k) => N::Push(u_konst(k)),
        I::Local(o, n) => N::LocalVariable(if *o < 54 { LoadOrStore::Load } else { LoadOrStore::Store }, LTS[if *o < 54 { *o - 21 } else { *o - 54 } as usize], *n),
        I::Iinc(a, b) => N::IntIncrement(*a, *b), I::Ret(n) => N::Ret(*n),
        I::Jump(168, t) => N::Jsr(lab.get(*t, r)),
        I::Jump(o, t) => N::Jump(*CONDS.iter().find(|c| jump_op(**c) == *o).unwrap(), lab.get(*t, r)),
        I::Table(d, lo, v) => N::TableSwitch { default: lab.get(*d, r), low: *lo, offsets: v.iter().map(|t| lab.get(*t, r)).collect() },
        I::Lookup(d, v) => {
            let mut v = v.clone();
            r.shuffle(&mut v); // the model's table is a map: any insertion order means the same
            N::LookupSwitch { default: lab.get(*d, r), table: v.iter().map(|(k, t)| (*k, lab.get(*t, r))).collect() }
        }
        I::Field(o, m) => { let (g, k) = match o { 178 => (GetOrPut::Get, MemberType::Static), 179 => (GetOrPut::Put, MemberType::Static), 180 => (GetOrPut::Get, MemberType::Virtual), _ => (GetOrPut::Put, MemberType::Virtual) }; N::Field(g, k, OrDynamic::Static(u_mem(m))) }
        I::Invoke(182, m, _) => N::InvokeExact(MemberType::Virtual, OrDynamic::Static(u_mem(m))),
        I::Invoke(184, m, _) => N::InvokeExact(MemberType::Static, OrDynamic::Static(u_mem(m))),
        I::Invoke(183, m, _) => N::InvokeSpecial(OrDynamic::Static(u_mem(m))),
        I::Invoke(_, m, c) => N::InvokeInterface(OrDynamic::Static(u_mem(m)), *c),
        I::Indy(d) => N::InvokeDynamic(u_dyn(d)),
        I::New(s) => N::New(OrDynamic::Static(w_of(s))),
        I::NewArr(s, 1) => N::NewArray(OrDynamic::Static(ty_of(&S(s.0[1..].to_vec()))), 1),
        I::NewArr(s, d) => N::NewArray(OrDynamic::Static(ty_of(s)), *d),
        I::Cast(o, s) => {
            let c = if s.first() == Some(b'[' as u16) { match ty_of(s) { Type::ArrayRef(d, t) => ClassType::Array(d, *t), _ => unreachable!() } } else { ClassType::Object(w_of(s)) };
            if *o == 192 { N::CheckCast(OrDynamic::Static(c)) } else { N::InstanceOf(OrDynamic::Static(c)) }
        }
    }
}
pub fn u_code(c: &Code, r: &mut Rng) -> CCode {
    let mut lab = Lab { at: BTreeMap::new(), next: if r.chance(1, 8) { r.u32() >> 1 } else { 0 }, many: r.chance(1, 2) };
    let body: Vec<Instruction> = c.insns.iter().map(|i| u_insn(i, &mut lab, r)).collect();
    let cat = |h: &H, lab: &mut Lab, r: &mut Rng| Catch { start: lab.get(h.0, r), end: lab.get(h.1, r), handler: lab.get(h.2, r), catch: h.3.as_ref().map(w_of) };
    let catches: Vec<Catch> = c.handlers.iter().map(|h| cat(h, &mut lab, r)).collect();
    let mut attrs = vec![];
    for a in &c.attrs {
        match a {
            A::Raw(n, b) => attrs.push(CodeAttribute::Raw(u_raw(n, b))),
            A::TAnns(vis, v) => {
                let v = v.iter().map(|t| {
                    use CodeTypeAnnotationTarget as G;
                    let loc = |v: &Vec<(usize, usize, u16)>, lab: &mut Lab, r: &mut Rng| v.iter().map(|x| LocalVarTarget { start: lab.get(x.0, r), end: lab.get(x.1, r), idx: x.2 }).collect();
                    let target = match &t.target {
                        T::Local(0x40, v) => G::LocalVariable(loc(v, &mut lab, r)), T::Local(_, v) => G::ResourceVariable(loc(v, &mut lab, r)),
                        T::Catch(h) => G::CatchParameter(catches[c.handlers.iter().position(|x| x == h).unwrap()].clone()),
                        T::Off(0x43, p) => G::InstanceOf(lab.get(*p, r)), T::Off(0x44, p) => G::Constructor(lab.get(*p, r)), T::Off(0x45, p) => G::ConstructorRef(lab.get(*p, r)), T::Off(_, p) => G::MethodRef(lab.get(*p, r)),
                        T::OffArg(0x47, p, b) => G::Cast(lab.get(*p, r), *b), T::OffArg(0x48, p, b) => G::GenericConstructor(lab.get(*p, r), *b), T::OffArg(0x49, p, b) => G::GenericMethod(lab.get(*p, r), *b),
                        T::OffArg(0x4A, p, b) => G::GenericConstructorRef(lab.get(*p, r), *b), T::OffArg(_, p, b) => G::GenericMethodRef(lab.get(*p, r), *b),
                        T::Plain(_) => unreachable!(),
                    };
                    CodeTypeAnnotation { target, type_path: u_path(&t.path), annotation_type: ty_of(&t.ann.ty), element_values: u_vals(&t.ann) }
                }).collect();
                attrs.push(if *vis { CodeAttribute::VisibleTypeAnnotations(v) } else { CodeAttribute::InvisibleTypeAnnotations(v) });
            }
            _ => unreachable!(),
        }
    }
    // local variables: one model entry per variable, or separate ones
    let mut lv: Vec<LocalVariable> = vec![];
    let mut tt = c.lvtt.clone();
    for (s, e, i, n, d) in &c.lvt {
        let k = tt.iter().position(|x| x.0 == *s && x.1 == *e && x.2 == *i && x.3 == *n);
        let sig = match k { Some(k) if r.chance(3, 4) => Some(tt.remove(k).4), _ => None };
        lv.push(LocalVariable { start: lab.get(*s, r), end: lab.get(*e, r), name: w_of(n), descriptor: Some(ty_of(d)), signature: sig.map(|s| st(&s).parse::<FieldSignature>().expect("field signature")), index: *i });
    }
    for (s, e, i, n, d) in &tt { lv.push(LocalVariable { start: lab.get(*s, r), end: lab.get(*e, r), name: w_of(n), descriptor: None, signature: Some(st(d).parse::<FieldSignature>().expect("field signature")), index: *i }) }
    if !lv.is_empty() {
        r.shuffle(&mut lv);
        let at = r.below(attrs.len() + 1);
        if lv.len() > 1 && r.chance(1, 4) { let k = 1 + r.below(lv.len() - 1); let b = lv.split_off(k); attrs.insert(at, CodeAttribute::LocalVariables(b)) }
        attrs.insert(at, CodeAttribute::LocalVariables(lv));
    }
    let mut out = vec![];
    let mut lines: BTreeMap<usize, Vec<u16>> = BTreeMap::new();
    for (p, l) in &c.lines { lines.entry(*p).or_default().push(*l) }
    for i in 0..=body.len() {
        let mut pre: Vec<Instruction> = lab.at.get(&i).into_iter().flatten().map(|l| Instruction::Label(*l)).collect();
        r.shuffle(&mut pre);
        let mut at = 0;
        for l in lines.get(&i).into_iter().flatten() { at += r.below(pre.len() - at + 1); pre.insert(at, Instruction::LineNumber(*l)); at += 1 }
        if lab.many && r.chance(1, 20) { let t = [NumberType::Int, NumberType::Long, NumberType::Float, NumberType::Double][r.below(4)]; let k = r.below(pre.len() + 1); pre.insert(k, Instruction::Conversion(t, t)) }
        out.extend(pre);
        if let Some(b) = body.get(i) { out.push(b.clone()) }
    }
    CCode { max_stack: c.max_stack, max_locals: c.max_locals, code: out, catches, attrs }
}
fn u_param(p: &(Option<S>, u16)) -> MethodParameter {
    let mut cp = MapCp::new();
    let mut b = vec![0, 0];
    if let Some(n) = &p.0 { cp.entries.insert(1, RawConstantEntry::WTF8(w_of(n))); b[1] = 1 }
    b.extend(p.1.to_be_bytes());
    <MethodParameter as ConstantPoolReadWrite>::read_from(&mut cp, &mut &b[..]).expect("method parameter")
}
fn u_panns(v: &[Ann]) -> ParameterAnnotations {
    let mut p = <ParameterAnnotations as ConstantPoolReadWrite>::read_from(&mut MapCp::new(), &mut &[0u8, 0][..]).expect("parameter annotations");
    p.extend(v.iter().map(u_ann));
    p
}
pub fn u_class_attr(a: &A) -> ClassAttribute {
    use ClassAttribute as N;
    match a {
        A::Signature(s) => N::Signature(Sp::new(&st(s)).class_sig().expect("class signature")), A::Synthetic => N::Synthetic, A::Deprecated => N::Deprecated, A::SourceFile(s) => N::SourceFile(w_of(s)),
        A::InnerClasses(v) => N::InnerClasses(v.iter().map(|(a, b, c, f)| InnerClass { inner_fqname: w_of(a), outer_fqname: b.as_ref().map(w_of), inner_name: c.as_ref().map(w_of), inner_access: InnerClassFlags::from_bits(*f).expect("inner flags") }).collect()),
        A::EnclosingMethod(c, m) => N::EnclosingMethod(w_of(c), m.as_ref().map(|(n, d)| (w_of(n), ty_of(d)))),
        A::SourceDebug(s) => N::SourceDebugExtension(SourceDebugExtension(w_of(s))),
        A::Module(m) => N::Module(coffer::module::Module {
            name: w_of(&m.name), flags: ModuleFlags::from_bits(m.flags).expect("module flags"), version: m.version.as_ref().map(w_of),
            requires: m.requires.iter().map(|(a, f, v)| Require { module: w_of(a), flags: RequireFlags::from_bits(*f).expect("require flags"), version: v.as_ref().map(w_of) }).collect(),
            exports: m.exports.iter().map(|(a, f, v)| Export { package: w_of(a), flags: ExOpFlags::from_bits(*f).expect("export flags"), to: u_sv(v) }).collect(),
            opens: m.opens.iter().map(|(a, f, v)| Open { package: w_of(a), flags: ExOpFlags::from_bits(*f).expect("open flags"), to: u_sv(v) }).collect(),
            uses: u_sv(&m.uses), provides: m.provides.iter().map(|(a, v)| Provide { class: w_of(a), with: u_sv(v) }).collect(),
        }),
        A::ModulePackages(v) => N::ModulePackages(u_sv(v)), A::ModuleMainClass(s) => N::ModuleMainClass(w_of(s)), A::NestHost(s) => N::NestHost(w_of(s)), A::NestMembers(v) => N::NestMembers(u_sv(v)),
        A::Anns(true, v) => N::RuntimeVisibleAnnotations(v.iter().map(u_ann).collect()), A::Anns(false, v) => N::RuntimeInvisibleAnnotations(v.iter().map(u_ann).collect()),
        A::TAnns(vis, v) => {
            let v = v.iter().map(|t| {
                use ClassTypeAnnotationTarget as G;
                let p = match &t.target { T::Plain(p) => p, _ => unreachable!() };
                let target = match p[0] { 0 => G::GenericTypeParameter(p[1]), 0x10 => G::ExtendsImplementsClause(u16::from_be_bytes([p[1], p[2]])), _ => G::GenericTypeParameterBound(p[1], p[2]) };
                ClassTypeAnnotation { target, type_path: u_path(&t.path), annotation_type: ty_of(&t.ann.ty), element_values: u_vals(&t.ann) }
            }).collect();
            if *vis { N::RuntimeVisibleTypeAnnotations(v) } else { N::RuntimeInvisibleTypeAnnotations(v) }
        }
        A::Raw(n, b) => N::Raw(u_raw(n, b)),
        a => panic!("class attribute {a:?}"),
    }
}
pub fn u_field(m: &Member) -> Field {
    use FieldAttribute as N;
    let attrs = m.attrs.iter().map(|a| match a {
        A::Signature(s) => N::Signature(st(s).parse().expect("field signature")), A::Synthetic => N::Synthetic, A::Deprecated => N::Deprecated,
        A::ConstantValue(k) => N::ConstantValue(match u_konst(k) { OrDynamic::Static(c) => c, _ => unreachable!() }),
        A::Anns(true, v) => N::RuntimeVisibleAnnotations(v.iter().map(u_ann).collect()), A::Anns(false, v) => N::RuntimeInvisibleAnnotations(v.iter().map(u_ann).collect()),
        A::TAnns(vis, v) => {
            let v = v.iter().map(|t| FieldTypeAnnotation { target_type: FieldTarget::Field, type_path: u_path(&t.path), annotation_type: ty_of(&t.ann.ty), element_values: u_vals(&t.ann) }).collect();
            if *vis { N::RuntimeVisibleTypeAnnotations(v) } else { N::RuntimeInvisibleTypeAnnotations(v) }
        }
        A::Raw(n, b) => N::Raw(u_raw(n, b)),
        a => panic!("field attribute {a:?}"),
    }).collect();
    Field { access: FieldFlags::from_bits(m.access).expect("field flags"), name: w_of(&m.name), descriptor: ty_of(&m.desc), attrs }
}
pub fn u_method(m: &Member, r: &mut Rng) -> Method {
    use MethodAttribute as N;
    let attributes = m.attrs.iter().map(|a| match a {
        A::Signature(s) => N::Signature(Sp::new(&st(s)).method_sig().expect("method signature")), A::Synthetic => N::Synthetic, A::Deprecated => N::Deprecated,
        A::Anns(true, v) => N::RuntimeVisibleAnnotations(v.iter().map(u_ann).collect()), A::Anns(false, v) => N::RuntimeInvisibleAnnotations(v.iter().map(u_ann).collect()),
        A::TAnns(vis, v) => {
            let v = v.iter().map(|t| {
                use MethodTypeAnnotationTarget as G;
                let p = match &t.target { T::Plain(p) => p, _ => unreachable!() };
                let target = match p[0] { 1 => G::GenericTypeParameter(p[1]), 0x12 => G::GenericTypeParameterBound(p[1], p[2]), 0x14 => G::Return, 0x15 => G::Reciever, 0x16 => G::FormalParameter(p[1]), _ => G::Throws(u16::from_be_bytes([p[1], p[2]])) };
                MethodTypeAnnotation { target, type_path: u_path(&t.path), annotation_type: ty_of(&t.ann.ty), element_values: u_vals(&t.ann) }
            }).collect();
            if *vis { N::RuntimeVisibleTypeAnnotations(v) } else { N::RuntimeInvisibleTypeAnnotations(v) }
        }
        A::PAnns(true, v) => N::RuntimeVisibleParameterAnnotations(v.iter().map(|v| u_panns(v)).collect()), A::PAnns(false, v) => N::RuntimeInvisibleParameterAnnotations(v.iter().map(|v| u_panns(v)).collect()),
        A::AnnDefault(v) => N::AnnotationDefault(u_val(v)), A::Exceptions(v) => N::Exceptions(u_sv(v)), A::MethodParameters(v) => N::MethodParameters(v.iter().map(u_param).collect()),
        A::Code(c) => N::Code(u_code(c, r)),
        A::Raw(n, b) => N::Raw(u_raw(n, b)),
        a => panic!("method attribute {a:?}"),
    }).collect();
    Method { access: MethodFlags::from_bits(m.access).expect("method flags"), name: w_of(&m.name), descriptor: ty_of(&m.desc), attributes }
}
/// `table`: also give the class a BootstrapMethods attribute listing the methods of `c.bsms`.
pub fn build(c: &Cls, r: &mut Rng, table: bool) -> Class {
    let mut attributes: Vec<ClassAttribute> = c.attrs.iter().map(u_class_attr).collect();
    if table { let at = r.below(attributes.len() + 1); attributes.insert(at, ClassAttribute::BootstrapMethods(c.bsms.iter().map(|b| u_bsm(b)).collect())) }
    Class {
        version: JavaVersion { major: major_of(c.major), minor: c.minor }, access: ClassFlags::from_bits(c.access).expect("class flags"), name: w_of(&c.this), super_name: c.sup.as_ref().map(w_of), interfaces: u_sv(&c.ifaces),
        fields: c.fields.iter().map(u_field).collect(), methods: c.methods.iter().map(|m| u_method(m, r)).collect(), attributes,
    }
}

pub const MAJORS: [MajorVersion; 15] = [
    MajorVersion::J1, MajorVersion::J1_2, MajorVersion::J1_3, MajorVersion::J1_4, MajorVersion::J5, MajorVersion::J6, MajorVersion::J7, MajorVersion::J8, MajorVersion::J9, MajorVersion::J10,
    MajorVersion::J11, MajorVersion::J12, MajorVersion::J13, MajorVersion::J14, MajorVersion::J15,
];
pub fn major_of(m: u16) -> MajorVersion { MAJORS[m as usize - 45] }
/// By the release's name, not by the enum's discriminant.
pub fn major_no(m: MajorVersion) -> R<u16> { MAJORS.iter().position(|x| *x == m).map(|p| p as u16 + 45).ok_or_else(|| format!("major version {m:?}")) }
