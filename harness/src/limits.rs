//! C07: what the format cannot say is refused; what it can just say is written.
use crate::content::one_method;
use crate::ctx::*;
use crate::enc;
use crate::gen::{G, P};
use crate::model::*;
use crate::pipe::*;
use crate::rcls::*;
use crate::rng::*;
use crate::text::*;
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::{BootstrapMethod, Catch, ClassAttribute, Code as CCode, CodeAttribute, Constant, Dynamic, Instruction, JumpCondition, Label, LocalVariable, MemberRef, MethodAttribute, MethodHandle, MethodHandleKind, OrDynamic, Type};
use once_cell::sync::OnceCell;
use std::collections::HashMap;
use std::sync::Arc;

// ---------- every string of a class ----------
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SK { Name, Class, FDesc, MDesc, CSig, MSig, FSig, Free }
type F<'a> = &'a mut dyn FnMut(&mut S, SK, &'static str);
fn desc_kind(s: &S) -> SK { if s.first() == Some(b'(' as u16) { SK::MDesc } else { SK::FDesc } }
fn m_(m: &mut Mem, f: F) { f(&mut m.owner, SK::Class, "member owner"); f(&mut m.name, SK::Name, "member name"); let k = desc_kind(&m.desc); f(&mut m.desc, k, "member descriptor") }
fn d_(d: &mut Arc<Dyn>, f: F) { let d = Arc::make_mut(d); f(&mut d.name, SK::Name, "dynamic name"); let k = desc_kind(&d.desc); f(&mut d.desc, k, "dynamic descriptor"); let b = Arc::make_mut(&mut d.bsm); m_(&mut b.mem, f); for a in b.args.iter_mut() { k_(a, f) } }
fn k_(k: &mut K, f: F) { match k { K::Str(s) => f(s, SK::Name, "string constant"), K::Class(s) => f(s, SK::Class, "class constant"), K::MType(s) => f(s, SK::MDesc, "method type"), K::Handle(_, m) => m_(m, f), K::Dyn(d) => d_(d, f), _ => {} } }
fn v_(v: &mut V, f: F) { match v { V::Str(s) => f(s, SK::Name, "annotation string"), V::Enum(t, n) => { f(t, SK::FDesc, "enum type"); f(n, SK::Name, "enum constant") } V::Class(s) => if !s.is("V") { f(s, SK::FDesc, "annotation class") }, V::Ann(a) => a_(a, f), V::Arr(v) => for x in v { v_(x, f) }, _ => {} } }
fn a_(a: &mut Ann, f: F) {
    f(&mut a.ty, SK::FDesc, "annotation type");
    let v = std::mem::take(&mut a.vals);
    for (mut k, mut x) in v { f(&mut k, SK::Name, "annotation element"); v_(&mut x, f); a.vals.insert(k, x); }
}
fn at_(a: &mut A, loc: u8, f: F) {
    match a {
        A::Signature(s) => f(s, match loc { 0 => SK::CSig, 1 => SK::FSig, _ => SK::MSig }, "signature"),
        A::SourceFile(s) => f(s, SK::Name, "source file"), A::SourceDebug(s) => f(s, SK::Free, "source debug extension"),
        A::InnerClasses(v) => for x in v { f(&mut x.0, SK::Class, "inner class"); if let Some(s) = &mut x.1 { f(s, SK::Class, "outer class") } if let Some(s) = &mut x.2 { f(s, SK::Name, "inner name") } },
        A::EnclosingMethod(c, m) => { f(c, SK::Class, "enclosing class"); if let Some((n, d)) = m { f(n, SK::Name, "enclosing method"); f(d, SK::MDesc, "enclosing descriptor") } }
        A::Module(m) => {
            f(&mut m.name, SK::Name, "module name"); if let Some(v) = &mut m.version { f(v, SK::Name, "module version") }
            for x in &mut m.requires { f(&mut x.0, SK::Name, "required module"); if let Some(v) = &mut x.2 { f(v, SK::Name, "required version") } }
            for x in m.exports.iter_mut() { f(&mut x.0, SK::Name, "exported package"); for s in &mut x.2 { f(s, SK::Name, "exported to") } }
            for x in m.opens.iter_mut() { f(&mut x.0, SK::Name, "opened package"); for s in &mut x.2 { f(s, SK::Name, "opened to") } }
            for s in &mut m.uses { f(s, SK::Class, "used service") }
            for x in &mut m.provides { f(&mut x.0, SK::Class, "provided service"); for s in &mut x.1 { f(s, SK::Class, "provided with") } }
        }
        A::ModulePackages(v) => for s in v { f(s, SK::Name, "module package") }, A::ModuleMainClass(s) => f(s, SK::Class, "main class"), A::NestHost(s) => f(s, SK::Class, "nest host"), A::NestMembers(v) => for s in v { f(s, SK::Class, "nest member") },
        A::Anns(_, v) => for x in v { a_(x, f) }, A::TAnns(_, v) => for x in v { a_(&mut x.ann, f) }, A::PAnns(_, v) => for y in v { for x in y { a_(x, f) } }, A::AnnDefault(v) => v_(v, f),
        A::ConstantValue(k) => k_(k, f), A::Exceptions(v) => for s in v { f(s, SK::Class, "exception") }, A::MethodParameters(v) => for x in v { if let Some(s) = &mut x.0 { f(s, SK::Name, "parameter name") } },
        A::Raw(n, _) => f(n, SK::Name, "unknown attribute"),
        A::Code(c) => {
            for i in c.insns.iter_mut() { match i { I::Const(k) => k_(k, f), I::Field(_, m) | I::Invoke(_, m, _) => m_(m, f), I::Indy(d) => d_(d, f), I::New(s) => f(s, SK::Class, "new"), I::Cast(_, s) => f(s, SK::Class, "cast"), _ => {} } }
            let old = c.handlers.clone();
            for h in c.handlers.iter_mut() { if let Some(s) = &mut h.3 { f(s, SK::Class, "caught class") } }
            if old != c.handlers { for a in c.attrs.iter_mut() { if let A::TAnns(_, v) = a { for t in v { if let T::Catch(h) = &mut t.target { if let Some(i) = old.iter().position(|x| x == h) { *h = c.handlers[i].clone() } } } } } }
            for x in c.lvt.iter_mut() { f(&mut x.3, SK::Name, "variable name"); f(&mut x.4, SK::FDesc, "variable descriptor") }
            for x in c.lvtt.iter_mut() { f(&mut x.3, SK::Name, "variable name"); f(&mut x.4, SK::FSig, "variable signature") }
            for a in c.attrs.iter_mut() { at_(a, 3, f) }
        }
        A::Synthetic | A::Deprecated => {}
    }
}
pub fn strings(c: &mut Cls, f: F) {
    f(&mut c.this, SK::Class, "class name");
    if let Some(s) = &mut c.sup { f(s, SK::Class, "super class") }
    for s in &mut c.ifaces { f(s, SK::Class, "interface") }
    for m in &mut c.fields { f(&mut m.name, SK::Name, "field name"); f(&mut m.desc, SK::FDesc, "field descriptor"); for a in &mut m.attrs { at_(a, 1, f) } }
    for m in &mut c.methods { f(&mut m.name, SK::Name, "method name"); f(&mut m.desc, SK::MDesc, "method descriptor"); for a in &mut m.attrs { at_(a, 2, f) } }
    for a in &mut c.attrs { at_(a, 0, f) }
}
/// A string of `kind` whose encoding takes `n` bytes, made of characters of one to six bytes.
fn long(kind: SK, n: usize, w: usize) -> S {
    let (a, b) = match kind { SK::FDesc | SK::FSig | SK::CSig => ("L", ";"), SK::MDesc | SK::MSig => ("(L", ";)V"), _ => ("", "") };
    let mut room = n - a.len() - b.len();
    let mut s = S::from(a);
    let (u, size): (&str, usize) = match w { 0 => ("q", 1), 1 => ("\u{e9}", 2), 2 => ("\u{20ac}", 3), 3 => ("\u{1F600}", 6), _ => ("\u{0}", 2) };
    while room % size != 0 { s.push("q"); room -= 1 }
    for _ in 0..room / size { s.push(u) }
    s.push(b);
    s
}
/// At or below the limit: written and read correctly. Beyond it: refused, or nothing lost.
fn judge(c: &mut Ctx, r: &mut Rng, what: &str, k: &Cls, m: &Class, fits: bool) -> Res {
    match guard(|| write(m)).map_err(|e| format!("{what}: writing panicked: {e}"))? {
        Err(e) => { c.inc("refused"); if fits { return Err(format!("{what} fits but was refused: {e}")) } }
        Ok(w) => {
            c.inc(if fits { "written_at_limit" } else { "written_beyond" });
            let d = decode(&w).map_err(|e| format!("{what} was written as an invalid file: {e}"))?;
            cmp(&format!("{what} written"), k, &d, all)?;
            cmp(&format!("{what} read back"), k, &norm(&read(&w)?)?, all)?;
        }
    }
    if fits { if let Ok(b) = enc::encode(k, &enc::Opt::plain(), r) { let m = read(&b).map_err(|e| format!("{what}: {e}"))?; cmp(&format!("{what} read"), k, &norm(&m)?, all)?; c.inc("read_at_limit") } }
    Ok(())
}
fn code_of(k: &mut Cls) -> &mut Code { match &mut k.methods[0].attrs[0] { A::Code(c) => c, _ => unreachable!() } }
fn base() -> Cls { one_method(vec![I::Op(0), I::Op(0), I::Op(177)]) }
fn with_code(f: impl FnOnce(&mut Code)) -> Cls { let mut k = base(); f(code_of(&mut k)); k }
fn with_attr(a: A) -> Cls { let mut k = base(); k.attrs.push(a); k }
fn an() -> Ann { Ann { ty: "LA;".into(), vals: Default::default() } }
fn module(f: impl FnOnce(&mut Module)) -> Cls { let mut m = Module { name: "m".into(), flags: 0, version: None, requires: vec![], exports: vec![], opens: vec![], uses: vec![], provides: vec![] }; f(&mut m); with_attr(A::Module(Box::new(m))) }
fn rep<T: Clone>(x: T, n: usize) -> Vec<T> { vec![x; n] }
fn mref() -> Mem { Mem { kind: MK::Method, owner: "b".into(), name: "b".into(), desc: "()V".into() } }
fn indy(args: Vec<K>) -> Arc<Dyn> { Arc::new(Dyn { name: "d".into(), desc: "()V".into(), bsm: Arc::new(Bsm { kind: 6, mem: mref(), args }) }) }

fn dconst() -> Arc<Dyn> { Arc::new(Dyn { name: "d".into(), desc: "I".into(), bsm: indy(vec![]).bsm.clone() }) }
type Sc = (&'static str, usize, Box<dyn Fn(usize) -> Cls>);
fn scenarios() -> Vec<Sc> {
    let mut v: Vec<Sc> = vec![];
    macro_rules! sc { ($n:expr, $l:expr, $f:expr) => { v.push(($n, $l, Box::new($f))) } }
    let w = 65535;
    sc!("interfaces", w, |n| { let mut k = base(); k.ifaces = rep("i".into(), n); k });
    sc!("fields", w, |n| { let mut k = base(); k.fields = rep(Member { access: 0, name: "f".into(), desc: "I".into(), attrs: vec![] }, n); k });
    sc!("methods", w, |n| { let mut k = base(); let x = Member { access: 0x400, name: "f".into(), desc: "()V".into(), attrs: vec![] }; k.methods.extend(rep(x, n - 1)); k });
    let raw = || A::Raw("x".into(), vec![]);
    sc!("class attributes", w, move |n| { let mut k = base(); k.attrs = rep(raw(), n); k });
    sc!("field attributes", w, move |n| { let mut k = base(); k.fields.push(Member { access: 0, name: "f".into(), desc: "I".into(), attrs: rep(raw(), n) }); k });
    sc!("method attributes", w, move |n| { let mut k = base(); k.methods[0].attrs.extend(rep(raw(), n - 1)); k });
    sc!("code attributes", w, move |n| with_code(|c| c.attrs = rep(raw(), n)));
    sc!("code attributes with tables", w, move |n| with_code(|c| { c.attrs = rep(raw(), n - 3); c.lines = vec![(0, 1)]; c.lvt = vec![(0, 1, 0, "v".into(), "I".into())]; c.lvtt = vec![(0, 1, 0, "v".into(), "TT;".into())] }));
    for vis in [true, false] {
        sc!("class annotations", w, move |n| with_attr(A::Anns(vis, rep(an(), n))));
        sc!("field annotations", w, move |n| { let mut k = base(); k.fields.push(Member { access: 0, name: "f".into(), desc: "I".into(), attrs: vec![A::Anns(vis, rep(an(), n))] }); k });
        sc!("method annotations", w, move |n| { let mut k = base(); k.methods[0].attrs.push(A::Anns(vis, rep(an(), n))); k });
        sc!("parameters with annotations", 255, move |n| { let mut k = base(); k.methods[0].attrs.push(A::PAnns(vis, rep(vec![an()], n))); k });
        sc!("annotations of a parameter", w, move |n| { let mut k = base(); k.methods[0].attrs.push(A::PAnns(vis, vec![vec![], rep(an(), n)])); k });
        sc!("class type annotations", w, move |n| with_attr(A::TAnns(vis, rep(TAnn { target: T::Plain(vec![0, 1]), path: vec![], ann: an() }, n))));
        sc!("field type annotations", w, move |n| { let mut k = base(); k.fields.push(Member { access: 0, name: "f".into(), desc: "I".into(), attrs: vec![A::TAnns(vis, rep(TAnn { target: T::Plain(vec![0x13]), path: vec![], ann: an() }, n))] }); k });
        sc!("method type annotations", w, move |n| { let mut k = base(); k.methods[0].attrs.push(A::TAnns(vis, rep(TAnn { target: T::Plain(vec![0x14]), path: vec![], ann: an() }, n))); k });
        sc!("code type annotations", w, move |n| with_code(|c| c.attrs.push(A::TAnns(vis, rep(TAnn { target: T::Off(0x43, 1), path: vec![], ann: an() }, n)))));
        sc!("type path", 255, move |n| with_attr(A::TAnns(vis, vec![TAnn { target: T::Plain(vec![0, 1]), path: rep((3, 2), n), ann: an() }])));
        sc!("type path in code", 255, move |n| with_code(|c| c.attrs.push(A::TAnns(vis, vec![TAnn { target: T::Off(0x43, 1), path: rep((0, 0), n), ann: an() }]))));
        sc!("variable ranges of a type annotation", w, move |n| with_code(|c| c.attrs.push(A::TAnns(vis, vec![TAnn { target: T::Local(0x40, rep((0, 1, 2), n)), path: vec![], ann: an() }]))));
        sc!("resource ranges of a type annotation", w, move |n| with_code(|c| c.attrs.push(A::TAnns(vis, vec![TAnn { target: T::Local(0x41, rep((0, 1, 2), n)), path: vec![], ann: an() }]))));
    }
    sc!("annotation array", w, |n| { let mut k = base(); k.methods[0].attrs.push(A::AnnDefault(V::Arr(rep(V::Int(1), n)))); k });
    sc!("nested annotation array", w, |n| with_attr(A::Anns(true, vec![Ann { ty: "LA;".into(), vals: [("v".into(), V::Arr(vec![V::Arr(rep(V::Bool(1), n))]))].into_iter().collect() }])));
    sc!("annotation elements", 65000, |n| with_attr(A::Anns(true, vec![Ann { ty: "LA;".into(), vals: (0..n).map(|i| (format!("e{i}").as_str().into(), V::Arr(vec![]))).collect() }])));
    sc!("inner classes", w, |n| with_attr(A::InnerClasses(rep(("i".into(), None, None, 1), n))));
    sc!("exceptions", w, |n| { let mut k = base(); k.methods[0].attrs.push(A::Exceptions(rep("e".into(), n))); k });
    sc!("method parameters", 255, |n| { let mut k = base(); k.methods[0].attrs.push(A::MethodParameters(rep((Some("p".into()), 0x10), n))); k });
    sc!("required modules", w, |n| module(|m| m.requires = rep(("r".into(), 0, None), n)));
    sc!("exports", w, |n| module(|m| m.exports = rep(("r".into(), 0, vec![]), n)));
    sc!("modules exported to", w, |n| module(|m| m.exports = vec![("r".into(), 0, rep("q".into(), n))]));
    sc!("opens", w, |n| module(|m| m.opens = rep(("r".into(), 0, vec![]), n)));
    sc!("modules opened to", w, |n| module(|m| m.opens = vec![("r".into(), 0, rep("q".into(), n))]));
    sc!("uses", w, |n| module(|m| m.uses = rep("q".into(), n)));
    sc!("provides", w, |n| module(|m| m.provides = rep(("q".into(), vec![]), n)));
    sc!("implementations provided", w, |n| module(|m| m.provides = vec![("q".into(), rep("z".into(), n))]));
    sc!("module packages", w, |n| with_attr(A::ModulePackages(rep("p".into(), n))));
    sc!("nest members", w, |n| with_attr(A::NestMembers(rep("p".into(), n))));
    sc!("bootstrap arguments", w, |n| with_code(|c| c.insns.insert(0, I::Indy(indy(rep(K::Int(7), n))))));
    sc!("bootstrap arguments of a nested constant", w, |n| with_code(|c| { let d = Arc::new(Dyn { name: "n".into(), desc: "I".into(), bsm: indy(rep(K::Int(7), n)).bsm.clone() }); c.insns.insert(0, I::Indy(indy(vec![K::Dyn(d)]))) }));
    sc!("bootstrap methods", w, |n| { let mut k = base(); k.bsms = (0..n).map(|i| Arc::new(Bsm { kind: 6, mem: mref(), args: vec![K::Int((i & 255) as i32), K::Int((i >> 8) as i32)] })).collect(); k.has_bsm_attr = true; k });
    sc!("handlers", w, |n| with_code(|c| c.handlers = rep((0, 1, 2, None), n)));
    sc!("lines", w, |n| with_code(|c| c.lines = (0..n).map(|i| (i / 40000, i as u16)).collect()));
    sc!("local variables", w, |n| with_code(|c| c.lvt = (0..n).map(|i| (i / 65536, 2, i as u16, "v".into(), "I".into())).collect()));
    sc!("local variable types", w, |n| with_code(|c| c.lvtt = (0..n).map(|i| (i / 65536, 2, i as u16, "v".into(), "TT;".into())).collect()));
    sc!("code length", w, |n| one_method(rep(I::Op(0), n)));
    sc!("code length ending in a switch", w, |n| { let mut v = rep(I::Op(0), n - 20 - (4 - (n - 20 - 1) % 4) % 4 + if (n - 20 - 1) % 4 == 0 { 0 } else { 0 }); let at = v.len(); let pad = (4 - (at + 1) % 4) % 4; let used = at + 1 + pad + 12 + 4; v.push(I::Table(0, 3, vec![0])); for _ in used..n { v.push(I::Op(0)) } one_method(v) });
    sc!("array dimensions", 255, |n| { let mut s = S::default(); for _ in 0..n.min(255) { s.push("[") } s.push("I"); let mut k = base(); k.fields.push(Member { access: 0, name: "f".into(), desc: s, attrs: vec![] }); k });
    v
}
fn build_for(k: &Cls, r: &mut Rng, name: &str) -> Class { build(k, r, name == "bootstrap methods") }

pub fn c07(c: &mut Ctx) {
    let sc = scenarios();
    let over8 = [256usize, 257, 258, 300, 511, 512, 513, 65535, 65536];
    let over16 = [65536usize, 65537, 65538, 65540, 66000, 131071, 131072, 131073];
    let per = 12u64;
    c.indexed("counts", sc.len() as u64 * per, |c, r, q| {
        let (name, limit, f) = &sc[(q / per) as usize];
        let j = (q % per) as usize;
        let over: &[usize] = if *limit == 255 { &over8 } else { &over16 };
        let n = match j { 0 => *limit, 1 => *limit - 1, 2 => *limit - 2 - r.below(40), _ => match over.get(j - 3) { Some(n) => *n, None => return Ok(()) } };
        if *name == "array dimensions" && n > 255 { return Ok(()) }
        if !c.thorough && n > 70_000 && (q / per) % 3 != 0 { return Ok(()) }
        if *name == "code length ending in a switch" && n > *limit + 5 { return Ok(()) }
        let k = f(n);
        let m = build_for(&k, r, name);
        c.inc(&format!("scenario_{name}"));
        c.seen(&(q / per, n));
        c.sample(name, || format!("{n} (limit {limit})"));
        judge(c, r, &format!("{n} {name}"), &k, &m, n <= *limit)
    });
    // how many constants there can be
    let n = c.n(60, 400);
    c.indexed("constants", n, |c, r, q| {
        let two = q % 2 == 1;
        let longs = r.chance(1, 2);
        let mk = |n: usize| { let mut k = base(); let x: Vec<Member> = (0..n).map(|i| Member { access: 0, name: "f".into(), desc: "I".into(), attrs: vec![A::ConstantValue(if i + 1 == n && two { K::Long(77) } else if longs && i % 2 == 0 { K::Double(i as u64) } else { K::Int(i as i32) })] }).collect(); k.fields = x; k };
        // what the pool needs besides, found by asking the reference
        let w = enc::encode(&mk(2000), &enc::Opt::plain(), r)?;
        let cnt = u16::from_be_bytes([w[8], w[9]]) as usize;
        let _ = cnt;
        let d = *r.pick(&[0i64, 0, -1, -2, 1, 2, 3, 1000]);
        // grow until the reference's pool has the size wanted
        let (mut lo, mut hi) = (1000usize, 66_000usize);
        while lo + 1 < hi { let mid = (lo + hi) / 2; if enc::encode(&mk(mid), &enc::Opt::plain(), r).is_ok() { lo = mid } else { hi = mid } c.tick() }
        let n = (lo as i64 + d) as usize;
        let k = mk(n);
        c.seen(&(two, longs, d));
        c.inc("pool_sizes");
        let m = build(&k, r, false);
        judge(c, r, &format!("{n} constants ({d:+} from the most that fit)"), &k, &m, d <= 0)
    });
    // every string at and beyond its limit
    let n = c.n(5000, 60_000);
    c.cases("strings", n, |c, r| {
        let mut p = P::mixed(r);
        p.insns = 12;
        p.methods = 1 + r.below(2);
        p.fields = r.below(3);
        p.debug = 2;
        p.meta = r.below(6);
        let mut k = G::small(r, p).class();
        let mut total = 0;
        strings(&mut k, &mut |_, _, _| total += 1);
        let pick = r.below(total);
        let over = r.chance(1, 2);
        let len = if over { *r.pick(&[65536usize, 65537, 65538, 65540, 70_000, 131_071, 131_073]) } else { *r.pick(&[65535usize, 65535, 65534, 65533, 65500]) };
        let w = r.below(5);
        let (mut i, mut info) = (0, (SK::Name, ""));
        strings(&mut k, &mut |s, kind, what| { if i == pick { info = (kind, what); *s = long(kind, len, if matches!(kind, SK::CSig | SK::MSig | SK::FSig) && w == 4 { 0 } else { w }) } i += 1 });
        // class references to arrays stay what they are; identifiers of members keep their kind
        let fits = !over || info.0 == SK::Free;
        c.inc(&format!("string_{}", info.1));
        c.seen(&(info.1, len, w));
        let t = r.chance(1, 2);
        let m = build(&k, r, t);
        judge(c, r, &format!("{} of {len} bytes", info.1), &k, &m, fits)
    });
    refs(c);
    deep(c);
}
/// References to something that is not there.
fn refs(c: &mut Ctx) {
    let lab = |i: u32| Label(i);
    let gone = Label(99);
    let mk = |f: &dyn Fn(&mut CCode)| -> Class {
        let mut r = Rng::new(1);
        let mut m = build(&base(), &mut r, false);
        let mut x = CCode { max_stack: 2, max_locals: 2, code: vec![Instruction::Label(lab(1)), Instruction::NoOp, Instruction::Label(lab(2)), Instruction::NoOp, Instruction::Label(lab(3)), Instruction::Return(None), Instruction::Label(lab(4))], catches: vec![], attrs: vec![] };
        f(&mut x);
        m.methods[0].attributes = vec![MethodAttribute::Code(x)];
        m
    };
    let lv = |s, e, d: bool, g: bool| LocalVariable { start: s, end: e, name: w_of(&"v".into()), descriptor: if d { Some(Type::Int) } else { None }, signature: if g { Some("TT;".parse().unwrap()) } else { None }, index: 0 };
    let ta = |t: CodeTypeAnnotationTarget| CodeTypeAnnotation { target: t, type_path: vec![], annotation_type: Type::Ref(w_of(&"A".into())), element_values: HashMap::new() };
    use CodeTypeAnnotationTarget as G;
    let handle = || MethodHandle { kind: MethodHandleKind::InvokeStatic, member: MemberRef { owner: w_of(&"b".into()), name: w_of(&"b".into()), descriptor: Type::Method { parameters: vec![], ret: None }, itfs: false } };
    let empty = || Dynamic { bsm: Arc::new(OnceCell::new()), name: w_of(&"d".into()), descriptor: Type::Int };
    let cyc = || { let cell = Arc::new(OnceCell::new()); let d = Dynamic { bsm: cell.clone(), name: w_of(&"d".into()), descriptor: Type::Int }; let _ = cell.set(BootstrapMethod { handle: handle(), arguments: vec![OrDynamic::Dynamic(d.clone())] }); d };
    let cyc2 = || {
        let (a, b) = (Arc::new(OnceCell::new()), Arc::new(OnceCell::new()));
        let (da, db) = (Dynamic { bsm: a.clone(), name: w_of(&"a".into()), descriptor: Type::Int }, Dynamic { bsm: b.clone(), name: w_of(&"b".into()), descriptor: Type::Int });
        let _ = a.set(BootstrapMethod { handle: handle(), arguments: vec![OrDynamic::Static(Constant::I32(1)), OrDynamic::Dynamic(db)] });
        let _ = b.set(BootstrapMethod { handle: handle(), arguments: vec![OrDynamic::Dynamic(da.clone())] });
        da
    };
    let nest = |d: Dynamic| Dynamic::new(BootstrapMethod { handle: handle(), arguments: vec![OrDynamic::Dynamic(d)] }, w_of(&"o".into()), Type::Int);
    let mut v: Vec<(String, Class)> = vec![];
    for (i, cond) in CONDS.into_iter().enumerate() { v.push((format!("jump {i} to a missing label"), mk(&|x| x.code.insert(1, Instruction::Jump(cond, gone))))) }
    v.push(("jsr to a missing label".into(), mk(&|x| x.code.insert(1, Instruction::Jsr(gone)))));
    v.push(("tableswitch with a missing default".into(), mk(&|x| x.code.insert(1, Instruction::TableSwitch { default: gone, low: 0, offsets: vec![lab(1)] }))));
    for k in 0..3 { v.push((format!("tableswitch with missing target {k}"), mk(&|x| { let mut o = vec![lab(1), lab(2), lab(3)]; o[k] = gone; x.code.insert(1, Instruction::TableSwitch { default: lab(1), low: 0, offsets: o }) }))) }
    v.push(("lookupswitch with a missing default".into(), mk(&|x| x.code.insert(1, Instruction::LookupSwitch { default: gone, table: [(1, lab(1))].into_iter().collect() }))));
    for k in 0..3 { v.push((format!("lookupswitch with missing target {k}"), mk(&|x| { let mut o = vec![(5, lab(1)), (-3, lab(2)), (9, lab(3))]; o[k].1 = gone; x.code.insert(1, Instruction::LookupSwitch { default: lab(1), table: o.into_iter().collect() }) }))) }
    v.push(("tableswitch without targets".into(), mk(&|x| x.code.insert(1, Instruction::TableSwitch { default: lab(1), low: 0, offsets: vec![] }))));
    v.push(("tableswitch without targets, low MIN".into(), mk(&|x| x.code.insert(1, Instruction::TableSwitch { default: lab(1), low: i32::MIN, offsets: vec![] }))));
    v.push(("tableswitch past the largest key".into(), mk(&|x| x.code.insert(1, Instruction::TableSwitch { default: lab(1), low: i32::MAX, offsets: vec![lab(1), lab(2)] }))));
    v.push(("tableswitch far past the largest key".into(), mk(&|x| x.code.insert(1, Instruction::TableSwitch { default: lab(1), low: i32::MAX - 5, offsets: vec![lab(1); 10] }))));
    for k in 0..3 {
        let w = |k: usize| { let mut l = [lab(1), lab(2), lab(3)]; l[k] = gone; Catch { start: l[0], end: l[1], handler: l[2], catch: None } };
        v.push((format!("catch with missing label {k}"), mk(&|x| x.catches = vec![w(k)])));
        v.push((format!("second catch with missing label {k}"), mk(&|x| x.catches = vec![Catch { start: lab(1), end: lab(2), handler: lab(3), catch: None }, w(k)])));
    }
    for (d, g) in [(true, false), (false, true), (true, true)] {
        for (s, e, n) in [(gone, lab(2), "start missing"), (lab(1), gone, "end missing"), (lab(3), lab(1), "inverted"), (lab(4), lab(3), "inverted at the end")] { v.push((format!("variable with {n} ({d},{g})"), mk(&|x| x.attrs = vec![CodeAttribute::LocalVariables(vec![lv(lab(1), lab(4), true, true), lv(s, e, d, g)])]))) }
    }
    v.push(("variable without any type".into(), mk(&|x| x.attrs = vec![CodeAttribute::LocalVariables(vec![lv(lab(1), lab(2), true, false), lv(lab(1), lab(2), false, false)])])));
    for (n, t, d) in [("of methods", Type::Method { parameters: vec![], ret: None }, 1u8), ("of no dimension", Type::Int, 0), ("of no dimension of a class", Type::Ref(w_of(&"a".into())), 0), ("of two dimensions of an int", Type::Int, 2), ("of two dimensions of a class", Type::Ref(w_of(&"a".into())), 2), ("of more dimensions than the type", Type::ArrayRef(2, Box::new(Type::Int)), 3)] {
        v.push((format!("new array {n}"), mk(&|x| x.code.insert(1, Instruction::NewArray(OrDynamic::Static(t.clone()), d)))));
    }
    v.push(("new array of no dimension of a dynamic class".into(), mk(&|x| x.code.insert(1, Instruction::NewArray(OrDynamic::Dynamic(Dynamic::new(BootstrapMethod { handle: handle(), arguments: vec![] }, w_of(&"o".into()), Type::Ref(w_of(&"java/lang/Class".into())))), 0)))));
    for vis in [true, false] {
        let mut add = |n: &str, t: CodeTypeAnnotationTarget| v.push((format!("type annotation: {n}"), mk(&|x| { x.catches = vec![Catch { start: lab(1), end: lab(2), handler: lab(3), catch: None }]; x.attrs = vec![if vis { CodeAttribute::VisibleTypeAnnotations(vec![ta(t.clone())]) } else { CodeAttribute::InvisibleTypeAnnotations(vec![ta(t.clone())]) }] })));
        for (s, e, n) in [(gone, lab(2), "start missing"), (lab(1), gone, "end missing"), (lab(3), lab(1), "inverted")] { add(&format!("variable {n}"), G::LocalVariable(vec![LocalVarTarget { start: lab(1), end: lab(2), idx: 0 }, LocalVarTarget { start: s, end: e, idx: 0 }])); add(&format!("resource {n}"), G::ResourceVariable(vec![LocalVarTarget { start: s, end: e, idx: 0 }])) }
        add("catch not in the code", G::CatchParameter(Catch { start: lab(1), end: lab(3), handler: lab(3), catch: None }));
        add("catch of another type", G::CatchParameter(Catch { start: lab(1), end: lab(2), handler: lab(3), catch: Some(w_of(&"x".into())) }));
        add("instanceof", G::InstanceOf(gone)); add("new", G::Constructor(gone)); add("new reference", G::ConstructorRef(gone)); add("method reference", G::MethodRef(gone));
        add("cast", G::Cast(gone, 0)); add("generic new", G::GenericConstructor(gone, 0)); add("generic call", G::GenericMethod(gone, 1)); add("generic new reference", G::GenericConstructorRef(gone, 2)); add("generic method reference", G::GenericMethodRef(gone, 3));
    }
    for (n, d) in [("unresolved", empty()), ("referring to itself", cyc()), ("referring to itself through another", cyc2()), ("with an unresolved argument", nest(empty())), ("with a circular argument", nest(cyc()))] {
        v.push((format!("call site {n}"), mk(&|x| x.code.insert(1, Instruction::InvokeDynamic(d.clone())))));
        v.push((format!("constant {n}"), mk(&|x| x.code.insert(1, Instruction::Push(OrDynamic::Dynamic(d.clone()))))));
        let mut m = mk(&|_| ());
        m.attributes.push(ClassAttribute::BootstrapMethods(vec![BootstrapMethod { handle: handle(), arguments: vec![OrDynamic::Dynamic(d.clone())] }]));
        v.push((format!("bootstrap table argument {n}"), m));
    }
    let v = std::sync::Mutex::new(v);
    c.once("references", 3, |c, _| {
        for (n, m) in v.lock().unwrap().iter() {
            c.inc("dangling_references");
            c.seen(n);
            match guard(|| write(m)).map_err(|e| format!("{n}: writing panicked: {e}"))? { Err(_) => {} Ok(w) => return Err(format!("{n} was written ({} bytes)", w.len())) }
        }
        c.sample("references", || v.lock().unwrap().iter().take(12).map(|x| x.0.clone()).collect::<Vec<_>>().join("; "));
        Ok(())
    });
    // the same in random classes: take one label away
    let n = c.n(3000, 40_000);
    c.cases("unlabel", n, |c, r| {
        let p = if r.chance(1, 2) { P::debug(r) } else { P::code(r) };
        let k = crate::gen::G::new(r, p).class();
        let mut m = build(&k, r, false);
        let mut done = None;
        for x in m.methods.iter_mut() {
            for a in x.attributes.iter_mut() {
                if let MethodAttribute::Code(b) = a {
                    let ls: Vec<usize> = (0..b.code.len()).filter(|i| matches!(b.code[*i], Instruction::Label(_))).collect();
                    if ls.is_empty() || done.is_some() { continue }
                    let at = *r.pick(&ls);
                    let Instruction::Label(l) = b.code.remove(at) else { unreachable!() };
                    if used(b, l) { done = Some(l) }
                }
            }
        }
        if done.is_none() { return Ok(()) }
        c.inc("labels_removed");
        c.seen(&format!("{k:?}"));
        match guard(|| write(&m)).map_err(|e| format!("a missing label: writing panicked: {e}"))? { Err(_) => Ok(()), Ok(_) => Err(format!("a class with label {done:?} missing was written: {}", short(&k.methods))) }
    });
    let _ = JumpCondition::Always;
}
fn used(b: &CCode, l: Label) -> bool {
    let s = format!("{l:?}");
    b.code.iter().any(|i| !matches!(i, Instruction::Label(_)) && format!("{i:?}").contains(&s)) || b.catches.iter().any(|x| x.start == l || x.end == l || x.handler == l)
        || b.attrs.iter().any(|a| format!("{a:?}").contains(&s))
}
/// Nesting at and far beyond the limits the library sets itself.
fn deep(c: &mut Ctx) {
    let ds = [1usize, 2, 10, 60, 100, 126, 127, 128, 129, 130, 200, 250, 254, 255, 256, 257, 258, 300, 1000, 3000];
    c.indexed("nesting", ds.len() as u64 * 3, |c, r, q| {
        let d = ds[(q / 3) as usize];
        let (what, fits, k) = match q % 3 {
            0 => { let mut v = V::Int(1); for i in 0..d { v = if i % 2 == 0 { V::Arr(vec![v]) } else { V::Ann(Ann { ty: "LA;".into(), vals: [("v".into(), v)].into_iter().collect() }) } } let mut k = base(); k.methods[0].attrs.push(A::AnnDefault(v)); ("nested annotation values", d <= 120, k) }
            1 => { let mut x = dconst(); for _ in 0..d { x = Arc::new(Dyn { name: "d".into(), desc: "I".into(), bsm: indy(vec![K::Dyn(x)]).bsm.clone() }) } let x = Arc::new(Dyn { name: "i".into(), desc: "()V".into(), bsm: indy(vec![K::Dyn(x)]).bsm.clone() }); ("nested dynamic constants", d <= 250, with_code(|c| c.insns.insert(0, I::Indy(x)))) }
            _ => { let mut x = dconst(); for _ in 0..d.min(40) { x = Arc::new(Dyn { name: "d".into(), desc: "I".into(), bsm: indy(vec![K::Dyn(x.clone()), K::Int(1)]).bsm.clone() }) } ("shared dynamic constants", true, with_code(|c| c.insns.insert(0, I::Const(K::Dyn(x))))) }
        };
        c.inc("nesting_depths");
        c.seen(&(what, d));
        let m = build(&k, r, false);
        if d > 380 { // too deep for the reference; only that it is refused or not, without harm
            let res = guard(|| write(&m)).map_err(|e| format!("{d} {what}: writing panicked: {e}"))?;
            if let Ok(w) = res { if read(&w).is_err() { return Err(format!("{d} {what}: written but not readable")) } }
            return Ok(());
        }
        judge(c, r, &format!("{d} {what}"), &k, &m, fits)
    });
}
