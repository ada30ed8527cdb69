//! C17: the same result in any order, process and thread, any number of times.
use crate::ctx::*;
use crate::gen::{G, P};
use crate::rcls::*;
use crate::rng::Rng;
use crate::{enc, model, pipe, robust};
use coffer::clazz::Class;
use coffer::ReadWrite;
use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};

/// Which of several faults is reported is left open; whether there is one is not.
fn outcome(b: &[u8]) -> Result<Vec<u8>, String> {
    match guard(|| Class::read_from(&mut &b[..]).map_err(|_| "rejected".to_string()).and_then(|m| { let mut v = vec![]; m.write_to(&mut v).map_err(|_| "not written".to_string()).map(|_| v) })) { Ok(r) => r, Err(p) => Err(p) }
}
fn class(r: &mut Rng) -> Cls {
    let p = match r.below(8) { 0 => P::code(r), 1 => P::debug(r), 2 | 3 => P::anns(r), 4 => P::dynamic(r), 5 => P::meta(r), 6 => P::sigs(r), _ => P::mixed(r) };
    G::new(r, p).class()
}
struct Bomb { left: usize, panic: bool }
impl Bomb { fn go(&mut self, n: usize) -> io::Result<usize> { if self.left == 0 { if self.panic { panic!("planned") } return Err(io::ErrorKind::Other.into()) } let n = n.min(self.left); self.left -= n; Ok(n) } }
struct BombR<'a>(Bomb, &'a [u8]);
impl Read for BombR<'_> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.0.go(b.len().min(self.1.len()))?; b[..n].copy_from_slice(&self.1[..n]); self.1 = &self.1[n..]; Ok(n) } }
impl Write for Bomb { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.go(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
/// Operations that fail or are torn off half-way: nothing of them may stay.
fn disturb(c: &mut Ctx, r: &mut Rng) {
    let k = class(r);
    let Ok(b) = enc::encode(&k, &enc::Opt::random(r), r) else { return };
    for _ in 0..3 {
        let (n, p) = (r.below(b.len()), r.chance(1, 2));
        let _ = guard(|| Class::read_from(&mut BombR(Bomb { left: n, panic: p }, &b)).is_ok());
        let m = robust::mutate(&b, r, 3);
        let _ = outcome(&m);
        if let Ok(m) = pipe::read(&b) { let n = r.below(b.len()); let p = r.chance(1, 2); let _ = guard(|| m.write_to(&mut Bomb { left: n, panic: p }).is_ok()); }
        for t in ["La<La<La<", "[[[", "(((", "<T:"] { let _ = guard(|| { let _ = (t.parse::<coffer::prelude::ClassSignature>().is_ok(), coffer::ty::parse_type(&wtf_8::Wtf8String::from(t.to_string())).is_ok()); }); }
        c.inc("disturbances");
    }
}
fn short(b: &[u8]) -> String { b.iter().take(1500).map(|x| format!("{x:02x}")).collect() }
fn first(a: &[u8], b: &[u8]) -> String { let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())); format!("{} and {} bytes, different from byte {i}", a.len(), b.len()) }

/// Equality as the library's user sees it: the same value, label numbers included.
fn equal(a: &Class, b: &Class) -> Res {
    let e = |what: &str, ok: bool| if ok { Ok(()) } else { Err(format!("the {what} of the two classes are not equal")) };
    e("names", a.version == b.version && a.access == b.access && a.name == b.name && a.super_name == b.super_name && a.interfaces == b.interfaces)?;
    e("fields", a.fields == b.fields)?;
    e("methods", a.methods == b.methods)?;
    e("attributes", a.attributes == b.attributes)
}
/// The code of a class as a debugger shows it, which has nothing in it that may differ from one process to another.
fn shown(m: &Class) -> u64 {
    hash(&m.methods.iter().flat_map(|m| &m.attributes).filter_map(|a| if let coffer::prelude::MethodAttribute::Code(c) = a { Some(format!("{:?}{:?}", c.code, c.catches)) } else { None }).collect::<Vec<_>>())
}

/// One file, many times.
fn repeat(c: &mut Ctx, b: &[u8], key: &str) -> Res {
    let (m1, m2) = (pipe::read(b)?, pipe::read(b)?);
    let n1 = model::norm(&m1)?;
    same(&n1, &model::norm(&m2)?).map_err(|e| format!("read twice, the classes differ: {e}"))?;
    equal(&m1, &m2).map_err(|e| format!("read twice: {e}"))?;
    c.digest(format!("{key}/shown"), shown(&m1));
    let w = pipe::write(&m1)?;
    let eq = |what: &str, x: &[u8]| if x == &w[..] { Ok(()) } else { Err(format!("{what}: {}\nfirst:  {}\nsecond: {}", first(&w, x), short(&w), short(x))) };
    eq("the same class written twice", &pipe::write(&m1)?)?;
    eq("a clone written", &pipe::write(&m1.clone())?)?;
    same(&n1, &model::norm(&m1)?).map_err(|e| format!("writing changed the class: {e}"))?;
    equal(&m1, &m2).map_err(|e| format!("writing changed the class: {e}"))?;
    eq("the file read again and written", &pipe::write(&m2)?)?;
    for _ in 0..2 { eq("the file read again and written", &pipe::write(&pipe::read(b)?)?)?; c.inc("rereads") }
    let r1 = pipe::read(&w).map_err(|e| format!("second reading: {e}"))?;
    let w2 = pipe::write(&r1)?;
    let w3 = pipe::write(&pipe::read(&w2).map_err(|e| format!("third reading: {e}"))?)?;
    if w2 != w3 { return Err(format!("second and third rewriting differ: {}\nsecond: {}\nthird: {}", first(&w2, &w3), short(&w2), short(&w3))) }
    if w == w2 { c.inc("stable_from_the_first_rewriting") }
    c.digest(format!("{key}/written"), hash(&w));
    c.digest(format!("{key}/again"), hash(&w2));
    c.inc("files");
    Ok(())
}
/// Streams that use the library themselves while it uses them.
struct Nested<'a> { every: usize, calls: usize, bytes: &'a [u8], inner: &'a [u8], out: &'a [u8], class: &'a Class, fault: Option<String>, depth: u64 }
impl Nested<'_> {
    fn go(&mut self) {
        self.calls += 1;
        if self.calls % self.every != 0 || self.fault.is_some() { return }
        self.depth += 1;
        let r = (|| -> Res {
            if pipe::write(self.class)? != self.out { return Err("written from within a stream, a class comes out differently".into()) }
            let m = pipe::read(self.inner)?;
            equal(&m, self.class).map_err(|e| format!("read from within a stream: {e}"))?;
            if pipe::write(&m)? != self.out { return Err("read from within a stream, a class comes out differently".into()) }
            Ok(())
        })();
        if let Err(e) = r { self.fault = Some(e) }
    }
}
impl Read for Nested<'_> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.go(); let n = b.len().min(self.bytes.len()).min(64); b[..n].copy_from_slice(&self.bytes[..n]); self.bytes = &self.bytes[n..]; Ok(n) } }
struct NestedW<'a>(Nested<'a>, Vec<u8>);
impl Write for NestedW<'_> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.go(); self.1.extend(b); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { self.0.go(); Ok(()) } }
fn nested(c: &mut Ctx, r: &mut Rng) -> Res {
    let mut fs = vec![];
    while fs.len() < 2 { let k = class(r); if let Ok(b) = enc::encode(&k, &enc::Opt::random(r), r) { c.seen(&b); fs.push(b) } }
    let (a, b) = (&fs[0], if r.chance(1, 4) { &fs[0] } else { &fs[1] });
    let (ma, mb) = (pipe::read(a)?, pipe::read(b)?);
    let (wa, wb) = (pipe::write(&ma)?, pipe::write(&mb)?);
    let mut s = Nested { every: 1 + r.below(1 + a.len() / 12), calls: 0, bytes: a, inner: b, out: &wb, class: &mb, fault: None, depth: 0 };
    let m = Class::read_from(&mut s).map_err(|e| format!("reading from a stream that reads: {e:?}"))?;
    if let Some(e) = s.fault { return Err(e) }
    c.add("nested_within_reading", s.depth);
    equal(&m, &ma).map_err(|e| format!("read from a stream that reads and writes another class: {e}"))?;
    let mut s = NestedW(Nested { every: 1 + r.below(1 + a.len() / 12), calls: 0, bytes: a, inner: b, out: &wb, class: &mb, fault: None, depth: 0 }, vec![]);
    m.write_to(&mut s).map_err(|e| format!("writing to a stream that writes: {e:?}"))?;
    if let Some(e) = s.0.fault { return Err(e) }
    c.add("nested_within_writing", s.0.depth);
    if s.1 != wa { return Err(format!("written to a stream that reads and writes another class: {}", first(&wa, &s.1))) }
    Ok(())
}
pub fn c17(c: &mut Ctx) {
    if c.part() != "tsan" && c.part() != "miri" {
        let n = c.n(9000, 300_000);
        let rev = c.rev;
        c.indexed("repeated", n, |c, r, q| {
            if rev && q % 3 == 0 { let mut x = Rng::new(q); disturb(c, &mut x) }
            let k = class(r);
            let Ok(b) = enc::encode(&k, &enc::Opt::random(r), r) else { return Ok(()) };
            c.seen(&b);
            c.sample("class", || crate::rcls::short(&k));
            repeat(c, &b, &format!("r{q}")).map_err(|e| format!("{e}\nfile: {}", short(&b)))?;
            // built through the API
            let t = r.chance(1, 2);
            let m = model::build(&k, r, t);
            let (a, b2) = (pipe::write(&m)?, pipe::write(&m.clone())?);
            if a != b2 || a != pipe::write(&m)? { return Err(format!("a class built through the API is written differently the second time: {}", first(&a, &b2))) }
            c.digest(format!("r{q}/built"), hash(&a));
            // and broken files give the same answer each time
            for i in 0..2 { let x = robust::mutate(&b, r, 2); let (o1, o2) = (outcome(&x), outcome(&x)); if o1 != o2 { return Err(format!("a damaged file gives two answers: {:?} and {:?}\nfile: {}", o1.map(|x| x.len()), o2.map(|x| x.len()), short(&x))) } c.digest(format!("r{q}/damaged{i}"), hash(&o1)); c.inc("damaged_files") }
            Ok(())
        });
        let n = c.n(1500, 30_000);
        if !rev { c.cases("streams that use the library", n, nested) }
        let files = c.corpus();
        c.indexed("real classes", files.len() as u64, |c, _, i| {
            let Some((name, b)) = files.get(i as usize) else { return Ok(()) };
            if pipe::read(b).is_err() { c.inc("real_classes_unread"); return Ok(()) }
            c.seen(b);
            repeat(c, b, &format!("f{i}")).map_err(|e| format!("{name}: {e}"))
        });
        // texts
        c.indexed("texts", 8, |c, r, q| {
            for i in 0..200 {
                let s: String = (0..r.below(20)).map(|_| *r.pick(&['a', '\0', 'é', '☃', '\u{1F600}', '[', 'L', ';', '<', '>', 'I', ':', '/'])).collect();
                let f = |s: &str| { let m = coffer::mod_utf8::string_to_modified_utf8(&wtf_8::Wtf8String::from(s.to_string())); (format!("{:?}", coffer::ty::parse_type(&wtf_8::Wtf8String::from(s.to_string()))), format!("{:?}", s.parse::<coffer::prelude::ClassSignature>()), format!("{:?}", s.parse::<coffer::prelude::MethodSignature>()), m.to_vec()) };
                let a = f(&s);
                if a != f(&s) { return Err(format!("{s:?} is parsed or encoded differently the second time")) }
                c.digest(format!("t{q}/{i}"), hash(&a));
            }
            Ok(())
        });
    }
    if !c.rev {
        let small = c.part() != "";
        let n = if c.part() == "miri" { 4 } else if small { c.n(60, 400) } else { c.n(240, 8000) };
        c.cases("threads", n, |c, r| threads(c, r, small));
    }
}
/// Some classes and files shared by threads that read, write, clone and drop them.
fn threads(c: &mut Ctx, r: &mut Rng, small: bool) -> Res {
    struct Item { bytes: Vec<u8>, class: Class, norm: Cls, out: Vec<u8>, bad: Vec<u8>, badout: Result<Vec<u8>, String> }
    let mut items = vec![];
    let want = if c.part() == "miri" { 2 } else { 6 };
    while items.len() < want {
        let k = if c.part() == "miri" { let p = P { insns: 6, methods: 1, fields: 1, ..P::dynamic(r) }; G::new(r, p).class() } else { class(r) };
        let Ok(bytes) = enc::encode(&k, &enc::Opt::random(r), r) else { continue };
        c.seen(&bytes);
        let class = pipe::read(&bytes)?;
        let norm = model::norm(&class)?;
        let out = pipe::write(&class)?;
        let bad = robust::mutate(&bytes, r, 2);
        let badout = outcome(&bad);
        // the shared class has not been written yet by the time the threads start
        let class = pipe::read(&bytes)?;
        items.push(Item { bytes, class, norm, out, bad, badout });
    }
    let items = Arc::new(items);
    let n = if c.part() == "miri" { 2 } else { 2 + r.below(5) };
    let rounds = if c.part() == "miri" { 3 } else if small { 12 } else { 24 };
    let bar = Arc::new(Barrier::new(n));
    let (flying, most, ops) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicU64::new(0)));
    let overlaps = Arc::new(AtomicU64::new(0));
    let bad: Arc<Mutex<Option<String>>> = Default::default();
    let belt: Arc<Mutex<Vec<(usize, Class)>>> = Default::default();
    let mut hs = vec![];
    for t in 0..n {
        let (items, bar, flying, most, ops, overlaps, bad, belt) = (items.clone(), bar.clone(), flying.clone(), most.clone(), ops.clone(), overlaps.clone(), bad.clone(), belt.clone());
        let mut r = Rng::new(r.u64() ^ t as u64);
        let same_start = r.chance(2, 3);
        hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            bar.wait();
            for round in 0..rounds {
                let i = if same_start && round < 4 { round % items.len() } else { r.below(items.len()) };
                let it = &items[i];
                let f = flying.fetch_add(1, Relaxed) + 1;
                most.fetch_max(f, Relaxed);
                if f > 1 { overlaps.fetch_add(1, Relaxed); }
                if r.chance(1, 3) { std::thread::yield_now() }
                let step = || -> Res {
                    match r.below(7) {
                        0 | 1 => { if pipe::write(&it.class)? != it.out { return Err("a shared class is written differently".into()) } }
                        2 => { let m = pipe::read(&it.bytes)?; equal(&m, &it.class).map_err(|e| format!("a shared file read again: {e}"))?; if pipe::write(&m)? != it.out { return Err("a shared file is read or written differently".into()) } belt.lock().unwrap().push((i, m)) }
                        3 => { let x = belt.lock().unwrap().pop(); if let Some((j, m)) = x { let o = &items[j]; if pipe::write(&m)? != o.out { return Err("a class read on another thread is written differently".into()) } same(&o.norm, &model::norm(&m)?).map_err(|e| format!("a class read on another thread differs: {e}"))? } }
                        4 => { let m = it.class.clone(); if pipe::write(&m)? != it.out { return Err("a clone is written differently".into()) } }
                        5 => { if outcome(&it.bad) != it.badout { return Err("a damaged file gives another answer".into()) } }
                        _ => same(&it.norm, &model::norm(&it.class)?).map_err(|e| format!("a shared class differs: {e}"))?,
                    }
                    Ok(())
                };
                let res = guard(step).unwrap_or_else(Err);
                flying.fetch_sub(1, Relaxed);
                ops.fetch_add(1, Relaxed);
                if let Err(e) = res { bad.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(format!("on thread {t} of {n} in round {round}: {e}\nfile: {}", short(&it.bytes))); return }
            }
        }).map_err(|e| e.to_string())?);
    }
    for h in hs { if h.join().is_err() { return Err("a thread died".into()) } }
    c.add("operations", ops.load(Relaxed));
    c.add("overlapping_operations", overlaps.load(Relaxed));
    c.max("concurrent_operations", most.load(Relaxed) as u64);
    c.inc("thread_groups");
    let b = bad.lock().unwrap_or_else(|e| e.into_inner()).take();
    match b { Some(e) => Err(e), None => Ok(()) }
}
