//! The read / write pipelines every content property is judged through.
use crate::ctx::*;
use crate::model::*;
use crate::rcls::*;
use crate::rng::*;
use crate::text::*;
use crate::{enc, gen};
use coffer::clazz::Class;
use coffer::ReadWrite;

pub fn read(b: &[u8]) -> Result<Class, String> {
    let mut s = b;
    let c = Class::read_from(&mut s).map_err(|e| format!("reading failed: {e:?}"))?;
    if !s.is_empty() { return Err(format!("reading left {} of {} bytes", s.len(), b.len())) }
    Ok(c)
}
pub fn write(c: &Class) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    c.write_to(&mut v).map_err(|e| format!("writing failed: {e:?}"))?;
    Ok(v)
}
/// Keeps only what a property is about.
pub type Proj = fn(&mut Cls);
pub fn all(_: &mut Cls) {}
pub fn cmp(what: &str, want: &Cls, got: &Cls, p: Proj) -> Res {
    let (mut w, mut g) = (want.clone(), got.clone());
    p(&mut w);
    p(&mut g);
    same(&w, &g).map_err(|e| format!("{what}: {e}"))
}
fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b.iter().take(3000) { s += &format!("{x:02x}") } s }

/// The variables of a model, and those of the file written from it: in the same order.
pub fn in_order(what: &str, model: &Cls, file: &Cls, p: Proj) -> Res {
    let (mut m, mut f) = (model.clone(), file.clone());
    p(&mut m);
    p(&mut f);
    let names = |v: &[(usize, usize, u16, S, S)]| v.iter().map(|x| (x.2, x.3.clone(), x.4.clone())).collect::<Vec<_>>();
    for (a, b) in m.methods.iter().zip(&f.methods) {
        for (a, b) in a.attrs.iter().zip(&b.attrs) {
            if let (A::Code(a), A::Code(b)) = (a, b) {
                for (t, x, y) in [("variables", &a.lvt, &b.lvt), ("variable types", &a.lvtt, &b.lvtt)] { let (x, y) = (names(x), names(y)); if x != y { return Err(format!("{what}: {t} in the model {}, in the file {}", short(&x), short(&y))) } }
            }
        }
    }
    Ok(())
}
/// Everything that must hold for one reference class. `Err` carries the offending bytes.
pub fn pipeline(c: &mut Ctx, r: &mut Rng, k: &Cls, o: &enc::Opt, p: Proj) -> Res {
    let b = match enc::encode(k, o, r) { Ok(b) => b, Err(_) => { c.inc("too_big_to_encode"); return Ok(()) } };
    bytes_pipeline(c, k, &b, p).map_err(|e| format!("{e}\nclass file read: {}", hex(&b)))?;
    built_pipeline(c, r, k, p)
}
/// A file that means `k`: read it, write it, decode it, read it again.
pub fn bytes_pipeline(c: &mut Ctx, k: &Cls, b: &[u8], p: Proj) -> Res {
    c.add("bytes_read", b.len() as u64);
    let m = read(b)?;
    let n = norm(&m).map_err(|e| format!("class read is malformed: {e}"))?;
    cmp("content read", k, &n, p)?;
    let w = write(&m)?;
    let d = decode(&w).map_err(|e| format!("file written is invalid: {e}\nwritten: {}", hex(&w)))?;
    cmp("content written", k, &d, p)?;
    in_order("content written", &n, &d, p)?;
    let m2 = read(&w).map_err(|e| format!("second reading: {e}\nwritten: {}", hex(&w)))?;
    let n2 = norm(&m2).map_err(|e| format!("class read back is malformed: {e}"))?;
    cmp("content read back", &n, &n2, p)?;
    let w2 = write(&m2).map_err(|e| format!("second writing: {e}"))?;
    let d2 = decode(&w2).map_err(|e| format!("file rewritten twice is invalid: {e}"))?;
    cmp("content written twice", k, &d2, p)?;
    c.inc("read_write_read_write");
    Ok(())
}
/// The same class built through the API.
pub fn built_pipeline(c: &mut Ctx, r: &mut Rng, k: &Cls, p: Proj) -> Res {
    let table = r.chance(1, 2);
    let m = build(k, r, table);
    let w = write(&m).map_err(|e| format!("class built through the API: {e}"))?;
    let d = decode(&w).map_err(|e| format!("file written from a built class is invalid: {e}\nwritten: {}", hex(&w)))?;
    cmp("content of built class written", k, &d, p)?;
    in_order("content of built class written", &norm(&m).map_err(|e| format!("class built is malformed: {e}"))?, &d, p)?;
    c.inc("built_and_written");
    Ok(())
}
pub fn tally(c: &mut Ctx, k: &Cls) {
    for m in k.methods.iter().chain(k.fields.iter()) {
        for a in &m.attrs { tally_attr(c, a) }
    }
    for a in &k.attrs { tally_attr(c, a) }
    c.add("fields", k.fields.len() as u64);
    c.add("methods", k.methods.len() as u64);
    c.add("bootstrap_methods", k.bsms.len() as u64);
}
fn tally_attr(c: &mut Ctx, a: &A) {
    let s = format!("{a:?}");
    let n: String = s.chars().take_while(|x| x.is_alphanumeric()).collect();
    c.inc(&format!("attr_{n}"));
    if let A::Code(k) = a {
        c.add("instructions", k.insns.len() as u64);
        c.add("handlers", k.handlers.len() as u64);
        c.add("lines", k.lines.len() as u64);
        c.add("local_vars", (k.lvt.len() + k.lvtt.len()) as u64);
        for a in &k.attrs { tally_attr(c, a) }
    }
}
/// Random classes of one profile through the whole pipeline.
pub fn random(c: &mut Ctx, stream: &str, n: u64, prof: fn(&mut Rng) -> gen::P, p: Proj) {
    c.cases(stream, n, |c, r| {
        let pr = prof(r);
        let k = gen::G::new(r, pr).class();
        let o = enc::Opt::random(r);
        tally(c, &k);
        { let mut x = k.clone(); p(&mut x); canon(&mut x); c.seen(&format!("{x:?}")); }
        c.sample(stream, || short(&k));
        pipeline(c, r, &k, &o, p)
    });
}

/// Each place where a class may have a number of things, with each of the numbers limits tend to lie at.
pub fn counts(c: &mut Ctx, profs: &[fn(&mut Rng) -> gen::P], p: Proj) { counts_with(c, profs, p, |c, r, k| { let o = enc::Opt::random(r); pipeline(c, r, k, &o, p) }) }
pub fn counts_with(c: &mut Ctx, profs: &[fn(&mut Rng) -> gen::P], p: Proj, f: impl Fn(&mut Ctx, &mut Rng, &Cls) -> Res) {
    const N: [usize; 37] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300, 511, 512, 1024, 66000];
    for (j, prof) in profs.iter().enumerate() {
        let mut r = Rng::case(1, 2, 3);
        let mut sites = std::collections::BTreeSet::new();
        for _ in 0..400 { let pr = prof(&mut r); let mut g = gen::G::small(&mut r, pr); g.sites = Some(Default::default()); g.class(); sites.extend(g.sites.unwrap()) }
        let extra = dict_sizes(4200);
        let list: Vec<(gen::Site, usize)> = sites.iter().flat_map(|s| N.iter().filter(|n| **n <= s.2).chain(extra.iter().filter(|n| **n <= s.2 || s.2 == 300)).map(|n| (*s, *n))).collect();
        c.indexed(&format!("counts{j}"), list.len() as u64, |c, r, i| {
            let (site, n) = list[i as usize];
            for t in 0..60 {
                let pr = prof(r);
                let skip = if t < 20 { r.below(3) } else { 0 };
                let mut g = gen::G::small(r, pr);
                g.force = Some(gen::Force { site, n, skip, done: false });
                let k = g.class();
                if !g.force.unwrap().done { continue }
                c.inc("counts_forced");
                { let mut x = k.clone(); p(&mut x); canon(&mut x); c.seen(&format!("{x:?}")); }
                return f(c, r, &k).map_err(|e| format!("with {n} at {site:?}: {e}"));
            }
            c.inc("counts_not_reached");
            Ok(())
        });
    }
}

// ---------- what each property is about ----------
fn bare(c: &mut Cls) { c.minor = 0; c.major = 52; c.access = 0; c.this = "T".into(); c.sup = None; c.ifaces.clear(); c.fields.clear(); c.attrs.clear(); for m in c.methods.iter_mut() { m.access = 0; m.name = "m".into(); m.desc = "()V".into() } }
fn only_code(c: &mut Cls) { bare(c); for m in c.methods.iter_mut() { m.attrs.retain(|a| matches!(a, A::Code(_))) } }
fn codes(c: &mut Cls, mut f: impl FnMut(&mut Code)) { for m in c.methods.iter_mut() { for a in m.attrs.iter_mut() { if let A::Code(k) = a { f(k) } } } }
/// instructions and exception handlers
pub fn p_code(c: &mut Cls) { only_code(c); codes(c, |k| { k.lines.clear(); k.lvt.clear(); k.lvtt.clear(); k.attrs.clear(); }) }
/// line numbers, variables and positions of type annotations, with the instructions they point at
pub fn p_debug(c: &mut Cls) { only_code(c); codes(c, |k| { k.max_stack = 0; k.max_locals = 0; k.attrs.retain(|a| matches!(a, A::TAnns(..))); for a in k.attrs.iter_mut() { if let A::TAnns(_, v) = a { for t in v { t.path.clear(); t.ann = Ann { ty: "LA;".into(), vals: Default::default() } } } } }) }
/// dynamic constants and call sites in order
pub fn p_dyn(c: &mut Cls) { p_code(c); codes(c, |k| { k.handlers.clear(); k.max_stack = 0; k.max_locals = 0; for i in k.insns.iter_mut() { if !matches!(i, I::Indy(_) | I::Const(K::Dyn(_))) && !matches!(i, I::Jump(..)) { *i = I::Op(0) } } }) }
fn is_ann(a: &A) -> bool { matches!(a, A::Anns(..) | A::TAnns(..) | A::PAnns(..) | A::AnnDefault(_)) }
pub fn p_anns(c: &mut Cls) {
    let (f, a) = (std::mem::take(&mut c.fields), std::mem::take(&mut c.attrs));
    bare(c);
    c.fields = f;
    for m in c.fields.iter_mut() { m.access = 0; m.name = "f".into(); m.desc = "I".into(); m.attrs.retain(is_ann) }
    for m in c.methods.iter_mut() { m.attrs.retain(|a| is_ann(a) || matches!(a, A::Code(_))) }
    codes(c, |k| { k.max_stack = 0; k.max_locals = 0; k.lines.clear(); k.lvt.clear(); k.lvtt.clear(); k.attrs.retain(is_ann) });
    c.attrs = a.into_iter().filter(is_ann).collect();
}
/// everything but code and annotations; unknown attributes of code stay
pub fn p_meta(c: &mut Cls) {
    let keep = |a: &A| !is_ann(a) && !matches!(a, A::Signature(_) | A::ConstantValue(_));
    c.attrs.retain(keep);
    c.minor = 0; c.major = 52; c.access = 0;
    for m in c.fields.iter_mut().chain(c.methods.iter_mut()) { m.access = 0; m.attrs.retain(keep) }
    codes(c, |k| { let mut a = std::mem::take(&mut k.attrs); a.retain(|a| matches!(a, A::Raw(..))); *k = Code { attrs: a, ..Default::default() } });
}
/// generic signatures wherever they occur
pub fn p_sigs(c: &mut Cls) {
    let sg = |a: &A| matches!(a, A::Signature(_));
    let (f, a) = (std::mem::take(&mut c.fields), std::mem::take(&mut c.attrs));
    bare(c);
    c.fields = f;
    c.attrs = a.into_iter().filter(sg).collect();
    for m in c.fields.iter_mut() { m.access = 0; m.name = "f".into(); m.desc = "I".into(); m.attrs.retain(sg) }
    for m in c.methods.iter_mut() { m.attrs.retain(|a| sg(a) || matches!(a, A::Code(_))) }
    codes(c, |k| { let t = std::mem::take(&mut k.lvtt); let mut t: Vec<_> = t.into_iter().map(|x| (0, 0, x.2, x.3, x.4)).collect(); t.sort(); *k = Code { lvtt: t, ..Default::default() } });
}
/// constants wherever they occur
pub fn p_consts(c: &mut Cls) {
    let (f, a) = (std::mem::take(&mut c.fields), std::mem::take(&mut c.attrs));
    bare(c);
    c.fields = f;
    let kc = |a: &A| is_ann(a) || matches!(a, A::ConstantValue(_));
    for m in c.fields.iter_mut() { m.access = 0; m.name = "f".into(); m.desc = "I".into(); m.attrs.retain(kc) }
    for m in c.methods.iter_mut() { m.attrs.retain(|a| kc(a) || matches!(a, A::Code(_))) }
    c.attrs = a.into_iter().filter(kc).collect();
    codes(c, |k| { let i = k.insns.iter().filter(|i| matches!(i, I::Const(_) | I::Indy(_))).cloned().collect(); *k = Code { insns: i, ..Default::default() } });
}
