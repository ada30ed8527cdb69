//! C25: equality, hashing and cloning of the values of the model.
use crate::content::boundary_insns;
use crate::ctx::*;
use crate::gen::{G, P};
use crate::model::*;
use crate::rcls::*;
use crate::rng::Rng;
use coffer::prelude::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

trait Bits { fn into_f(self) -> coffer::total_floats::TotalF32; }
impl Bits for u32 { fn into_f(self) -> coffer::total_floats::TotalF32 { coffer::total_floats::TotalF32(f32::from_bits(self)) } }
trait Bits64 { fn into_d(self) -> coffer::total_floats::TotalF64; }
impl Bits64 for u64 { fn into_d(self) -> coffer::total_floats::TotalF64 { coffer::total_floats::TotalF64(f64::from_bits(self)) } }
fn h<T: Hash>(x: &T) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn short<T: std::fmt::Debug>(x: &T) -> String { let mut s = format!("{x:?}"); if s.len() > 1200 { let mut e = 1200; while !s.is_char_boundary(e) { e -= 1 } s.truncate(e) } s }
/// `same`: whether the two have the same content, if that is known.
fn judge<T: PartialEq + Clone + std::fmt::Debug>(c: &mut Ctx, what: &str, a: &T, b: &T, same: bool) -> Res {
    let r = guard(|| (a == b, b == a, a != b, b != a)).map_err(|e| format!("comparing two of {what} panicked: {e}"))?;
    if r != (same, same, !same, !same) { return Err(format!("two of {what} with {} content: a == b is {}, b == a is {}, a != b is {}, b != a is {}\na: {}\nb: {}", if same { "the same" } else { "different" }, r.0, r.1, r.2, r.3, short(a), short(b))) }
    c.inc(&format!("{}_{what}", if same { "equal" } else { "different" }));
    Ok(())
}
fn cloned<T: PartialEq + Clone + std::fmt::Debug>(c: &mut Ctx, what: &str, a: &T) -> Res { let b = a.clone(); judge(c, what, a, &b, true) }
fn hashed<T: PartialEq + Clone + std::fmt::Debug + Hash>(c: &mut Ctx, what: &str, a: &T, b: &T, same: bool) -> Res {
    judge(c, what, a, b, same)?;
    if same && h(a) != h(b) { return Err(format!("two equal {what} have different hashes\na: {}\nb: {}", short(a), short(b))) }
    if h(&a.clone()) != h(a) { return Err(format!("a clone of {what} has a different hash: {}", short(a))) }
    Ok(())
}
/// Whether the two are equal is the library's choice, but it has to be made in one way only.
fn consistent<T: PartialEq + Clone + std::fmt::Debug + Hash>(c: &mut Ctx, what: &str, a: &T, b: &T) -> Res {
    let same = guard(|| a == b).map_err(|e| format!("comparing two of {what} panicked: {e}"))?;
    hashed(c, what, a, b, same)?;
    hashed(c, what, a, &a.clone(), true)?;
    hashed(c, what, b, &b.clone(), true)?;
    c.inc(&format!("consistent_{what}"));
    Ok(())
}
/// Both members built from the reference in the same way; `None` if the library's model cannot tell them apart.
fn told_apart<T>(x: &T, y: &T, nx: Result<T, String>, ny: Result<T, String>) -> Result<Option<bool>, String> where T: PartialEq { if x == y { return Ok(Some(true)) } Ok(if nx? == ny? { None } else { Some(false) }) }
fn classes(c: &mut Ctx, x: &Cls, y: &Cls) -> Result<usize, String> {
    let mut diff = 0;
    for (x, y) in x.fields.iter().zip(&y.fields) { let (a, b) = (u_field(x), u_field(y)); cloned(c, "fields", &a)?; if let Some(s) = told_apart(x, y, field(&a), field(&b))? { diff += !s as usize; judge(c, "fields", &a, &b, s)? } }
    for (x, y) in x.methods.iter().zip(&y.methods) {
        let (a, b) = (u_method(x, &mut Rng::new(5)), u_method(y, &mut Rng::new(5)));
        cloned(c, "methods", &a)?;
        if let Some(s) = told_apart(x, y, method(&a), method(&b))? { diff += !s as usize; judge(c, "methods", &a, &b, s)? }
        // the bodies alone
        let f = |m: &Member| m.attrs.iter().find_map(|a| if let A::Code(k) = a { Some((**k).clone()) } else { None });
        if let (Some(p), Some(q)) = (f(x), f(y)) {
            let (a, b) = (u_code(&p, &mut Rng::new(5)), u_code(&q, &mut Rng::new(5)));
            if let Some(s) = told_apart(&p, &q, code(&a), code(&b))? { judge(c, "bodies", &a, &b, s)? }
            if p.handlers == q.handlers && p.insns.len() == q.insns.len() && p.lines == q.lines && p.insns != q.insns && a.code.len() == b.code.len() { c.inc("bodies_with_other_instructions"); if a.code == b.code { return Err(format!("different instructions are equal\na: {}\nb: {}", short(&p.insns), short(&q.insns))) } }
        }
    }
    for (x, y) in x.attrs.iter().zip(&y.attrs) {
        let (a, b) = (u_class_attr(x), u_class_attr(y));
        cloned(c, "attributes", &a)?;
        let n = |a: &ClassAttribute| class_attr(a, &mut vec![]);
        if x == y { judge(c, "attributes", &a, &b, true)? } else if n(&a)? != n(&b)? { diff += 1; judge(c, "attributes", &a, &b, false)? }
    }
    for (x, y) in x.bsms.iter().zip(&y.bsms) { diff += (x != y) as usize; hashed(c, "bootstrap methods", &u_bsm(x), &u_bsm(y), x == y)? }
    Ok(diff)
}
fn profile(w: usize, r: &mut Rng) -> P { match w { 0 => P::code(r), 1 => P::debug(r), 2 => P::anns(r), 3 => P::dynamic(r), 4 => P::meta(r), 5 => P::sigs(r), 6 => P::consts(r), _ => P::mixed(r) } }
/// The same generation twice, and again with one of the random choices replaced.
fn twins<T>(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> T) -> (T, Vec<T>) {
    let g = Rng::new(r.u64());
    let mut a = g.clone();
    let x = f(&mut a);
    let mut v = vec![];
    for i in 0..n { let mut b = g.clone(); if i > 0 { b.2 = Some((1 + r.below(a.1.max(1) as usize) as u64, r.u64())) } v.push(f(&mut b)) }
    (x, v)
}
pub fn c25(c: &mut Ctx) {
    let n = c.n(16000, 300_000);
    c.cases("classes", n, |c, r| {
        let w = r.below(8);
        let (k, v) = twins(r, 8, |g| { let p = profile(w, g); G::small(g, p).class() });
        c.seen(&crate::ctx::hash(&format!("{k:?}")));
        for (i, x) in v.iter().enumerate() { let d = classes(c, &k, x)?; if i == 0 && (d != 0 || k != *x) { return Err("the generator is not deterministic".into()) } if d == 1 { c.inc("one_member_different") } }
        c.sample("class", || format!("{k:?}"));
        // a clone of a class is written as its original is
        let u = build(&k, &mut Rng::new(5), true);
        let (a, b) = (crate::pipe::write(&u), crate::pipe::write(&u.clone()));
        if a != b { return Err("a class and its clone are written differently".into()) }
        Ok(())
    });
    // values that can be keys
    let n = c.n(30000, 600_000);
    c.cases("values", n, |c, r| {
        let w = [3, 6, 7][r.below(3)];
        let (k, v) = twins(r, 10, |g| { let p = P { uni: g.chance(1, 2), lone: g.chance(1, 2), ..profile(w, g) }; let mut g = G::small(g, p); g.gen_bsms(); let n = g.bsms.len(); (g.konst(n), g.bsms.last().cloned(), if n > 0 { Some(g.dynk(n, true)) } else { None }, g.fdesc(), g.mdesc(), g.handle(), g.field(), g.val(0), g.cref()) });
        c.seen(&crate::ctx::hash(&format!("{k:?}")));
        for x in &v {
            hashed(c, "constants", &u_konst(&k.0), &u_konst(&x.0), k.0 == x.0)?;
            if let (OrDynamic::Static(a), OrDynamic::Static(b)) = (&u_konst(&k.0), &u_konst(&x.0)) { hashed(c, "constants", a, b, k.0 == x.0)? }
            if let (Some(a), Some(b)) = (&k.1, &x.1) { hashed(c, "bootstrap methods", &u_bsm(a), &u_bsm(b), a == b)?; for (a, b) in a.args.iter().zip(&b.args) { hashed(c, "arguments", &u_konst(a), &u_konst(b), a == b)? } }
            if let (Some(a), Some(b)) = (&k.2, &x.2) {
                hashed(c, "dynamics", &u_dyn(a), &u_dyn(b), a == b)?;
                // with the same bootstrap method, and with another one of the same name
                let (p, q) = (Dyn { bsm: b.bsm.clone(), ..(**a).clone() }, Dyn { name: a.name.clone(), desc: a.desc.clone(), ..(**b).clone() });
                hashed(c, "dynamics", &u_dyn(&p), &u_dyn(b), p == **b)?;
                hashed(c, "dynamics", &u_dyn(&q), &u_dyn(a), q == **a)?;
                hashed(c, "dynamics", &u_dyn(&q), &u_dyn(&p), q == p)?;
                // sharing the cell or not makes no difference
                let d = u_dyn(a);
                hashed(c, "dynamics", &d.clone(), &u_dyn(a), true)?;
                // more arguments than any default would compare
                let mut m = (*a.bsm).clone();
                let at = r.below(300);
                m.args = (0..300).map(K::Int).collect();
                let mut o = m.clone();
                o.args[at] = K::Long(at as i64);
                hashed(c, "bootstrap methods", &u_bsm(&m), &u_bsm(&o), false)?;
                let (p, q) = (Dyn { bsm: std::sync::Arc::new(m), ..(**a).clone() }, Dyn { bsm: std::sync::Arc::new(o), ..(**a).clone() });
                hashed(c, "dynamics", &u_dyn(&p), &u_dyn(&q), false)?;
            }
            hashed(c, "types", &ty_of(&k.3), &ty_of(&x.3), k.3 == x.3)?;
            hashed(c, "types", &ty_of(&k.4), &ty_of(&x.4), k.4 == x.4)?;
            hashed(c, "types", &ty_of(&k.3), &ty_of(&x.4), false)?;
            let u = |x: &(u8, Mem)| MethodHandle { kind: kind(x.0), member: u_mem(&x.1) };
            hashed(c, "handles", &u(&k.5), &u(&x.5), k.5 == x.5)?;
            hashed(c, "members", &u_mem(&k.6), &u_mem(&x.6), k.6 == x.6)?;
            judge(c, "annotation values", &u_val(&k.7), &u_val(&x.7), k.7 == x.7)?;
            hashed(c, "names", &w_of(&k.8), &w_of(&x.8), k.8 == x.8)?;
            // borrowed or owned makes no difference
            let (o, b) = (w_owned(&k.8), w_static(&k.8));
            hashed(c, "names", &o, &b, true)?;
            hashed(c, "types", &Type::Ref(o.clone()), &Type::Ref(b.clone()), true)?;
            hashed(c, "types", &Type::ArrayRef(2, Box::new(Type::Ref(o.clone()))), &Type::ArrayRef(2, Box::new(Type::Ref(b.clone()))), true)?;
            hashed(c, "constants", &Constant::String(o.clone()), &Constant::String(b.clone()), true)?;
            hashed(c, "constants", &Constant::Class(o.clone()), &Constant::Class(b.clone()), true)?;
            hashed(c, "constants", &Constant::Class(o.clone()), &Constant::String(b.clone()), false)?;
            hashed(c, "entries", &RawConstantEntry::WTF8(o.clone()), &RawConstantEntry::WTF8(b.clone()), true)?;
            hashed(c, "entries", &RawConstantEntry::WTF8(w_of(&x.8)), &RawConstantEntry::WTF8(b.clone()), x.8 == k.8)?;
            let m = |w: &CS| MemberRef { owner: w.clone(), name: w.clone(), descriptor: Type::Ref(w.clone()), itfs: false };
            hashed(c, "members", &m(&o), &m(&b), true)?;
            // told apart or not, equal things hash alike
            let f = |w: &CS, itfs| MemberRef { owner: w.clone(), name: w.clone(), descriptor: Type::Ref(w.clone()), itfs };
            let (p, q) = (f(&o, true), f(&b, false));
            consistent(c, "members", &p, &q)?;
            for j in 1..=9 { let g = |m: &MemberRef| MethodHandle { kind: kind(j), member: m.clone() }; consistent(c, "handles", &g(&p), &g(&q))?; consistent(c, "constants", &Constant::MethodHandle(g(&p)), &Constant::MethodHandle(g(&q)))? }
            let t = ty_of(&k.3);
            let n = 1 + r.below(4) as u8;
            let (p, q) = (Type::ArrayRef(n, Box::new(Type::ArrayRef(1, Box::new(t.clone())))), Type::ArrayRef(n + 1, Box::new(t.clone())));
            consistent(c, "types", &p, &q)?;
            consistent(c, "types", &Type::ArrayRef(0, Box::new(t.clone())), &t)?;
            consistent(c, "constants", &Constant::MethodType(p), &Constant::MethodType(q))?;
            // bootstrap methods not known yet
            if let Some(a) = &k.2 {
                let d = u_dyn(a);
                let e = |n: &CS| Dynamic { bsm: Default::default(), name: n.clone(), descriptor: d.descriptor.clone() };
                hashed(c, "dynamics", &e(&d.name), &d, false)?;
                hashed(c, "dynamics", &e(&d.name), &e(&d.name), true)?;
                hashed(c, "dynamics", &e(&o), &e(&d.name), a.name == k.8)?;
            }
        }
        Ok(())
    });
    // entries of a pool, labels, positions and paths
    let n = c.n(5000, 200_000);
    c.cases("small values", n, |c, r| {
        let e = |k: usize, a: u16, b: u16, w: u64| match k { 0 => RawConstantEntry::Int(w as i32), 1 => RawConstantEntry::Float((w as u32).into_f()), 2 => RawConstantEntry::Long(w as i64), 3 => RawConstantEntry::Double(w.into_d()), 4 => RawConstantEntry::Class(a), 5 => RawConstantEntry::String(a), 6 => RawConstantEntry::Field(a, b), 7 => RawConstantEntry::Method(a, b), 8 => RawConstantEntry::InterfaceMethod(a, b), 9 => RawConstantEntry::NameAndType(a, b), 10 => RawConstantEntry::MethodHandle(a as u8, b), 11 => RawConstantEntry::MethodType(a), 12 => RawConstantEntry::Dynamic(a, b), 13 => RawConstantEntry::InvokeDynamic(a, b), 14 => RawConstantEntry::Module(a), _ => RawConstantEntry::Package(a) };
        let key = |k: usize, a: u16, b: u16, w: u64| match k { 0 | 1 => (k, 0, 0, w as u32 as u64), 2 | 3 => (k, 0, 0, w), 6..=9 | 12 | 13 => (k, a, b, 0), 10 => (k, a & 255, b, 0), _ => (k, a, 0, 0) };
        let (a, b, w) = (r.b16(), r.b16(), if r.chance(1, 2) { r.f64bits() } else { r.f32bits() as u64 });
        let others = [(a, b, w), (b, a, w), (a, b ^ 1, w), (a ^ 256, b, w), (a, b, w ^ 1 << r.below(64)), (a, b, w ^ 1 << 31), (a, b, w ^ 1 << 63)];
        for k in 0..16 { for l in 0..16 { for (p, q, x) in others { hashed(c, "entries", &e(k, a, b, w), &e(l, p, q, x), key(k, a, b, w) == key(l, p, q, x))? } } }
        for (p, q, x) in others {
            let (y, z) = (w as u32, x as u32);
            hashed(c, "labels", &Label(y), &Label(z), y == z)?;
            if Label(y).cmp(&Label(z)) != y.cmp(&z) || Label(y).partial_cmp(&Label(z)) != Some(y.cmp(&z)) { return Err(format!("order of labels {y} and {z}")) }
            use coffer::annotation::{LocalVarTarget, TypePath};
            let t = |a: u32, b: u16, i: u16| LocalVarTarget { start: Label(a), end: Label(b as u32), idx: i };
            hashed(c, "variable targets", &t(y, a, b), &t(z, p, q), (y, a, b) == (z, p, q))?;
            for m in 0..4 { for n in 0..4 { let t = |m: i32, x: u16| match m { 0 => TypePath::Array(x as u8), 1 => TypePath::Nested(x as u8), 2 => TypePath::TypeBound(x as u8), _ => TypePath::TypeArgument(x as u8) }; hashed(c, "paths", &t(m, a), &t(n, p), m == n && a as u8 == p as u8)? } }
            let v = |k: u16, l: u32| match k { 0 => VerificationType::Top, 1 => VerificationType::Int, 2 => VerificationType::Float, 3 => VerificationType::Double, 4 => VerificationType::Long, 5 => VerificationType::Null, 6 => VerificationType::UninitializedThis, 7 => VerificationType::Object(w_of(&crate::text::S(vec![a]))), 8 => VerificationType::Object(w_of(&crate::text::S(vec![p]))), _ => VerificationType::UninitializedVariable(Label(l)) };
            for m in 0..10 { for n in 0..10 { hashed(c, "frame types", &v(m, y), &v(n, z), (m == n && (m < 9 || y == z)) || a == p && m.min(n) == 7 && m.max(n) == 8)? } }
        }
        c.seen(&(a, b, w));
        Ok(())
    });
    // signatures: structure against text
    let n = c.n(16000, 300_000);
    c.cases("signatures", n, |c, r| {
        let (k, v) = twins(r, 10, |g| { let p = P { lone: false, ..P::sigs(g) }; let mut g = G::small(g, p); (g.csig().lossy(), g.msig().lossy(), g.fsig().lossy()) });
        c.seen(&k);
        for x in &v {
            if let (Ok(a), Ok(b)) = (Sp::new(&k.0).class_sig(), Sp::new(&x.0).class_sig()) { judge(c, "class signatures", &a, &b, k.0 == x.0)? }
            if let (Ok(a), Ok(b)) = (Sp::new(&k.1).method_sig(), Sp::new(&x.1).method_sig()) { judge(c, "method signatures", &a, &b, k.1 == x.1)? }
            if let (Ok(a), Ok(b)) = (Sp::new(&k.2).field_sig(), Sp::new(&x.2).field_sig()) { judge(c, "field signatures", &a, &b, k.2 == x.2)? }
        }
        Ok(())
    });
    // every instruction against every other
    let v = boundary_insns(8);
    let n = v.len() as u64;
    c.indexed("instructions", n, |c, _, q| {
        let mut lab = Lab::plain();
        let u: Vec<Instruction> = v.iter().map(|i| u_insn(i, &mut lab, &mut Rng::new(3))).collect();
        let m: Vec<_> = u.iter().map(|i| insn(i, &|l: &Label| lab.position(l))).collect::<Result<_, _>>()?;
        let a = &u[q as usize];
        cloned(c, "instructions", a)?;
        for (j, b) in u.iter().enumerate() { if m[q as usize] != m[j] { judge(c, "instructions", a, b, false)? } else if v[q as usize] == v[j] { judge(c, "instructions", a, b, true)? } }
        c.seen(&("instruction", q));
        Ok(())
    });
    // combinations of very few parts: every two of them, so that parts of one value coincide as well
    c.indexed("combinations", SPACES, |c, _, q| { space(c, q)?; c.seen(&("space", q)); Ok(()) });
}

fn pw(r: &[u8]) -> Vec<Vec<u8>> { r.iter().fold(vec![vec![]], |v, n| v.iter().flat_map(|x| (0..*n).map(move |d| { let mut x = x.clone(); x.push(d); x })).collect()) }
fn combos<T>(r: &[u8], f: impl Fn(&[u8]) -> T) -> Vec<T> { pw(r).iter().map(|d| f(d)).collect() }
/// `make` yields values of which no two have the same content; it is called twice to get independent copies.
fn distinct<T: PartialEq + Clone + std::fmt::Debug>(c: &mut Ctx, what: &str, make: impl Fn() -> Vec<T>) -> Res {
    let (a, b) = (make(), make());
    for (i, x) in a.iter().enumerate() { cloned(c, what, x)?; for (j, y) in b.iter().enumerate() { judge(c, what, x, y, i == j)? } }
    Ok(())
}
fn distinct_h<T: PartialEq + Clone + std::fmt::Debug + Hash>(c: &mut Ctx, what: &str, make: impl Fn() -> Vec<T>) -> Res {
    let (a, b) = (make(), make());
    for (i, x) in a.iter().enumerate() { cloned(c, what, x)?; for (j, y) in b.iter().enumerate() { hashed(c, what, x, y, i == j)? } }
    Ok(())
}
fn nm(d: u8) -> CS { w_of(&crate::text::S(vec![b'a' as u16 + d as u16])) }
fn on(d: u8) -> Option<CS> { d.checked_sub(1).map(nm) }
/// all lists over 0, 1 of up to two elements
fn ls<T>(d: u8, f: impl Fn(u8) -> T) -> Vec<T> { match d { 0 => vec![], 1 => vec![f(0)], 2 => vec![f(1)], 3 => vec![f(0), f(0)], 4 => vec![f(0), f(1)], 5 => vec![f(1), f(0)], _ => vec![f(1), f(1)] } }
fn lb(d: u8) -> Label { Label(d as u32) }
fn tp(d: u8) -> Type { match d { 0 => Type::Int, 1 => Type::Ref(nm(0)), 2 => Type::Ref(nm(1)), 3 => Type::Long, 4 => Type::ArrayRef(1, Box::new(Type::Ref(nm(0)))), _ => Type::ArrayRef(2, Box::new(Type::Ref(nm(0)))) } }
fn cat(d: &[u8]) -> Catch { Catch { start: lb(d[0]), end: lb(d[1]), handler: lb(d[2]), catch: on(d[3]) } }
const SPACES: u64 = 24;
fn space(c: &mut Ctx, q: u64) -> Res {
    use coffer::annotation::*;
    let catches = || combos(&[3, 3, 3, 3], cat);
    let var = |d: u8| LocalVarTarget { start: lb(d & 1), end: lb(d >> 1 & 1), idx: (d >> 2) as u16 };
    let path = |d: u8| ls(d, |x| TypePath::TypeArgument(x));
    let val = |d: u8| match d { 0 => AnnotationValue::Int(0), 1 => AnnotationValue::Byte(0), 2 => AnnotationValue::Array(vec![]), _ => AnnotationValue::Array(vec![AnnotationValue::Int(0)]) };
    // the first digit: no pair, one of two names, or both
    let pairs = |d: &[u8]| -> std::collections::HashMap<CS, AnnotationValue> { match d[0] { 0 => Default::default(), k @ 1..=4 => [(nm(0), val(k - 1))].into_iter().collect(), k @ 5..=8 => [(nm(1), val(k - 5))].into_iter().collect(), k => [(nm(0), val((k - 9) / 4)), (nm(1), val((k - 9) % 4))].into_iter().collect() } };
    let ann = |d: u8| Annotation { annotation_type: tp(1 + d % 2), element_values: pairs(&[d / 2]) };
    let handle = |d: u8| MethodHandle { kind: kind(5 + d % 2), member: MemberRef { owner: nm(d / 2 % 2), name: nm(d / 4 % 2), descriptor: Type::method(vec![], None), itfs: false } };
    let args = |d: u8| ls(d, |x| OrDynamic::Static(if x == 0 { Constant::I32(0) } else { Constant::I64(0) }));
    let bsm = |d: &[u8]| BootstrapMethod { handle: handle(d[0]), arguments: args(d[1]) };
    match q {
        0 => distinct_h(c, "handlers", catches),
        1 => distinct_h(c, "variable targets", || combos(&[3, 3, 3], |d| LocalVarTarget { start: lb(d[0]), end: lb(d[1]), idx: d[2] as u16 })),
        2 => distinct(c, "local variables", || combos(&[3, 3, 2, 3, 3, 3], |d| LocalVariable { start: lb(d[0]), end: lb(d[1]), name: nm(d[2]), descriptor: d[3].checked_sub(1).map(tp), signature: d[4].checked_sub(1).map(|x| (if x == 0 { "TA;" } else { "La;" }).parse().expect("field signature")), index: d[5] as u16 })),
        3 => distinct(c, "code annotation targets", || {
            let mut v = vec![];
            for d in 0..7 { for k in 0..8 { if d == 0 && k > 0 { continue } for l in 0..8 { if d < 3 && l > 0 { continue } let (a, b) = (var(k), var(l)); let w = match d { 0 => vec![], 1 => vec![a], 3 => vec![a, b], _ => continue }; v.push(CodeTypeAnnotationTarget::LocalVariable(w.clone())); v.push(CodeTypeAnnotationTarget::ResourceVariable(w)) } } }
            v.extend(combos(&[2, 2, 2, 2], cat).into_iter().map(CodeTypeAnnotationTarget::CatchParameter));
            for l in 0..3 {
                let m = lb(l);
                v.extend([CodeTypeAnnotationTarget::InstanceOf(m), CodeTypeAnnotationTarget::Constructor(m), CodeTypeAnnotationTarget::ConstructorRef(m), CodeTypeAnnotationTarget::MethodRef(m)]);
                for i in 0..3 { v.extend([CodeTypeAnnotationTarget::Cast(m, i), CodeTypeAnnotationTarget::GenericConstructor(m, i), CodeTypeAnnotationTarget::GenericMethod(m, i), CodeTypeAnnotationTarget::GenericConstructorRef(m, i), CodeTypeAnnotationTarget::GenericMethodRef(m, i)]) }
            }
            v
        }),
        4 => distinct(c, "class annotation targets", || { let mut v = vec![]; for i in 0..3 { v.extend([ClassTypeAnnotationTarget::GenericTypeParameter(i), ClassTypeAnnotationTarget::ExtendsImplementsClause(i as u16), ClassTypeAnnotationTarget::ExtendsImplementsClause(65535 - i as u16)]); for j in 0..3 { v.push(ClassTypeAnnotationTarget::GenericTypeParameterBound(i, j)) } } v }),
        5 => distinct(c, "method annotation targets", || { use MethodTypeAnnotationTarget::*; let mut v = vec![Return, Reciever]; for i in 0..3 { v.extend([GenericTypeParameter(i), FormalParameter(i), Throws(i as u16), Throws(65535 - i as u16)]); for j in 0..3 { v.push(GenericTypeParameterBound(i, j)) } } v }),
        6 => distinct(c, "class type annotations", || combos(&[3, 7, 3, 9], |d| ClassTypeAnnotation { target: match d[0] { 0 => ClassTypeAnnotationTarget::GenericTypeParameter(0), 1 => ClassTypeAnnotationTarget::GenericTypeParameterBound(0, 0), _ => ClassTypeAnnotationTarget::GenericTypeParameterBound(0, 1) }, type_path: path(d[1]), annotation_type: tp(d[2]), element_values: pairs(&d[3..]) })),
        7 => distinct(c, "method type annotations", || combos(&[3, 7, 3, 9], |d| MethodTypeAnnotation { target: match d[0] { 0 => MethodTypeAnnotationTarget::Return, 1 => MethodTypeAnnotationTarget::Reciever, _ => MethodTypeAnnotationTarget::Throws(0) }, type_path: path(d[1]), annotation_type: tp(d[2]), element_values: pairs(&d[3..]) })),
        8 => distinct(c, "code type annotations", || combos(&[3, 7, 3, 9], |d| CodeTypeAnnotation { target: match d[0] { 0 => CodeTypeAnnotationTarget::InstanceOf(lb(0)), 1 => CodeTypeAnnotationTarget::InstanceOf(lb(1)), _ => CodeTypeAnnotationTarget::LocalVariable(vec![]) }, type_path: path(d[1]), annotation_type: tp(d[2]), element_values: pairs(&d[3..]) })),
        9 => distinct(c, "annotations", || combos(&[3, 25], |d| Annotation { annotation_type: tp(d[0]), element_values: pairs(&d[1..]) })),
        10 => distinct(c, "jumps", || {
            use JumpCondition::*;
            let mut v = vec![];
            for l in 0..3 {
                for j in [ReferenceEquals, ReferenceNotEquals, IntegerEquals, IntegerNotEquals, IntegerLessThan, IntegerGreaterThan, IntegerLessThanOrEquals, IntegerGreaterThanOrEquals, IntegerEqualsZero, IntegerNotEqualsZero, IntegerLessThanZero, IntegerGreaterThanZero, IntegerLessThanOrEqualsZero, IntegerGreaterThanOrEqualsZero, IsNull, IsNonNull, Always] { v.push(Instruction::Jump(j, lb(l))) }
                v.extend([Instruction::Jsr(lb(l)), Instruction::Label(lb(l)), Instruction::LineNumber(l as u16), Instruction::Ret(l as u16)]);
                for k in 0..3 { v.push(Instruction::IntIncrement(l as u16, k)) }
            }
            v
        }),
        11 => distinct(c, "table switches", || combos(&[3, 3, 7], |d| Instruction::TableSwitch { default: lb(d[0]), low: d[1] as i32 - 1, offsets: ls(d[2], lb) })),
        // a digit for each of the keys -1, 0, 1: not there, or one of two labels
        12 => distinct(c, "lookup switches", || combos(&[3, 3, 3, 3], |d| Instruction::LookupSwitch { default: lb(d[0]), table: (0..3).filter(|i| d[1 + i] > 0).map(|i| (i as i32 - 1, lb(d[1 + i] - 1))).collect() })),
        13 => distinct(c, "requires", || combos(&[2, 3, 3], |d| Require { module: nm(d[0]), flags: RequireFlags::from_bits_truncate([0, 0x20, 0x8000][d[1] as usize]), version: on(d[2]) })),
        14 => distinct(c, "provides", || combos(&[2, 7], |d| Provide { class: nm(d[0]), with: ls(d[1], nm) })),
        15 => distinct(c, "exports", || combos(&[2, 3, 7], |d| Export { package: nm(d[0]), flags: ExOpFlags::from_bits_truncate([0, 0x1000, 0x8000][d[1] as usize]), to: ls(d[2], nm) })),
        16 => distinct(c, "opens", || combos(&[2, 3, 7], |d| Open { package: nm(d[0]), flags: ExOpFlags::from_bits_truncate([0, 0x1000, 0x8000][d[1] as usize]), to: ls(d[2], nm) })),
        17 => distinct(c, "modules", || combos(&[2, 2, 2, 3, 3, 3, 3, 3], |d| { let e = |d: u8| if d == 0 { vec![] } else { vec![d - 1] }; coffer::prelude::Module { name: nm(d[0]), flags: ModuleFlags::from_bits_truncate(if d[1] == 0 { 0 } else { 0x20 }), version: on(d[2]), requires: e(d[3]).iter().map(|x| Require { module: nm(0), flags: RequireFlags::empty(), version: on(*x) }).collect(), exports: e(d[4]).iter().map(|x| Export { package: nm(0), flags: ExOpFlags::empty(), to: ls(*x, nm) }).collect(), opens: e(d[5]).iter().map(|x| Open { package: nm(0), flags: ExOpFlags::empty(), to: ls(*x, nm) }).collect(), uses: ls(d[6], nm), provides: e(d[7]).iter().map(|x| Provide { class: nm(0), with: ls(*x, nm) }).collect() } })),
        18 => distinct(c, "inner classes", || combos(&[2, 3, 3, 3], |d| InnerClass { inner_fqname: nm(d[0]), outer_fqname: on(d[1]), inner_name: on(d[2]), inner_access: InnerClassFlags::from_bits_truncate([0, 1, 8][d[3] as usize]) })),
        19 => distinct(c, "class attributes", || {
            use ClassAttribute::*;
            let mut v = vec![Synthetic, Deprecated];
            let inner = |x: u8| coffer::prelude::InnerClass { inner_fqname: nm(x), outer_fqname: None, inner_name: None, inner_access: InnerClassFlags::empty() };
            for x in 0..2 { v.extend([SourceFile(nm(x)), ModuleMainClass(nm(x)), NestHost(nm(x)), SourceDebugExtension(coffer::prelude::SourceDebugExtension(nm(x)))]); v.push(EnclosingMethod(nm(x), None)); for y in 0..2 { for t in 0..4 { v.push(EnclosingMethod(nm(x), Some((nm(y), tp(t))))) } } }
            for k in 0..7 { v.extend([ModulePackages(ls(k, nm)), NestMembers(ls(k, nm)), InnerClasses(ls(k, inner)), RuntimeVisibleAnnotations(ls(k, ann)), RuntimeInvisibleAnnotations(ls(k, ann)), BootstrapMethods(ls(k, |x| bsm(&[x, 0])))]) }
            v.extend(combos(&[2, 7], |d| Raw(RawAttribute { name: nm(d[0]), inner: ls(d[1], |x| x).into() })));
            v
        }),
        20 => distinct_h(c, "bootstrap methods", || combos(&[8, 7], bsm)),
        21 => distinct_h(c, "dynamics", || combos(&[2, 3, 2, 3], |d| Dynamic::new(bsm(&d[..2]), nm(d[2]), tp(d[3])))),
        22 => distinct_h(c, "handles", || combos(&[9, 3, 3, 6], |d| MethodHandle { kind: kind(d[0] + 1), member: MemberRef { owner: nm(d[1]), name: nm(d[2]), descriptor: tp(d[3]), itfs: false } })),
        _ => distinct(c, "members of classes", || combos(&[3, 3, 6, 7], |d| Field { access: FieldFlags::from_bits_truncate([0, 1, 8][d[0] as usize]), name: nm(d[1]), descriptor: tp(d[2]), attrs: ls(d[3], |x| if x == 0 { FieldAttribute::Deprecated } else { FieldAttribute::Synthetic }) })),
    }
}
