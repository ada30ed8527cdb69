//! C06 (branches and switches at any distance) and C05 (whatever is written is valid).
use crate::content::{many_bsms, one_method, SIZES};
use crate::ctx::*;
use crate::enc;
use crate::gen::{G, P};
use crate::model::*;
use crate::pipe::*;
use crate::rcls::*;
use crate::rng::*;

const OPS: [u8; 18] = [153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 198, 199];

/// A method body under construction; targets are named and resolved at the end.
#[derive(Default)]
struct B { v: Vec<I>, at: Vec<Option<usize>>, bytes: usize }
impl B {
    fn label(&mut self) -> usize { self.at.push(None); self.at.len() - 1 }
    fn place(&mut self, l: usize) { self.at[l] = Some(self.v.len()) }
    fn here(&mut self) -> usize { let l = self.label(); self.place(l); l }
    /// n bytes of instructions without labels
    fn fill(&mut self, n: usize) { for _ in 0..n / 6 { self.v.push(I::Iinc(300, 5)) } for _ in 0..n % 6 { self.v.push(I::Op(0)) } self.bytes += n }
    fn op(&mut self, o: u8) { self.v.push(I::Op(o)); self.bytes += 1 }
    fn jump(&mut self, o: u8, l: usize) { self.v.push(I::Jump(o, l)); self.bytes += 3 }
    fn finish(mut self) -> Vec<I> {
        let at = self.at;
        let g = |l: usize| at[l].expect("label placed");
        for i in self.v.iter_mut() { match i { I::Jump(_, t) => *t = g(*t), I::Table(d, _, v) => { *d = g(*d); v.iter_mut().for_each(|t| *t = g(*t)) } I::Lookup(d, v) => { *d = g(*d); v.iter_mut().for_each(|t| t.1 = g(t.1)) } _ => {} } }
        self.v
    }
}
/// (smallest, largest) number of bytes this code can take
fn bounds(v: &[I]) -> (usize, usize) {
    let (mut a, mut b) = (0, 0);
    for i in v {
        let (x, y) = match i {
            I::Op(_) => (1, 1), I::Iinc(..) => (6, 6), I::Jump(167 | 168, _) => (3, 5), I::Jump(..) => (3, 8), I::Table(_, _, t) => (13 + 4 * t.len(), 16 + 4 * t.len()), I::Lookup(_, t) => (9 + 8 * t.len(), 12 + 8 * t.len()),
            x => panic!("{x:?} in a layout"),
        };
        a += x;
        b += y;
    }
    (a, b)
}
fn judge(c: &mut Ctx, r: &mut Rng, k: Cls, p: Proj) -> Res {
    let (lo, hi) = match &k.methods[0].attrs[0] { A::Code(x) => bounds(&x.insns), _ => unreachable!() };
    let table = r.chance(1, 2);
    let m = build(&k, r, table);
    let w = match write(&m) {
        Ok(w) => { if lo > 65535 { return Err(format!("code of at least {lo} bytes was written")) } w }
        Err(e) => { if hi <= 65535 { return Err(format!("code of at most {hi} bytes was refused: {e}")) } c.inc("refused_too_long"); return Ok(()) }
    };
    let d = decode(&w).map_err(|e| format!("file written is invalid: {e}"))?;
    cmp("code written", &k, &d, p)?;
    for m in &d.methods { for a in &m.attrs { if let A::Code(x) = a { c.add("branches_written", x.insns.iter().filter(|i| matches!(i, I::Jump(..))).count() as u64); c.add("wide_gotos_written", x.widegoto.iter().filter(|x| **x).count() as u64); c.add("switches_written", x.insns.iter().filter(|i| matches!(i, I::Table(..) | I::Lookup(..))).count() as u64) } } }
    let m2 = read(&w).map_err(|e| format!("reading it back: {e}"))?;
    cmp("code read back", &d, &norm(&m2)?, p)?;
    let w2 = write(&m2).map_err(|e| format!("writing it again: {e}"))?;
    cmp("code written twice", &d, &decode(&w2).map_err(|e| format!("file written twice is invalid: {e}"))?, p)?;
    // and as a file the reference laid out
    if hi <= 65535 { let o = enc::Opt { shuffle: r.chance(1, 2), ..enc::Opt::plain() }; if let Ok(b) = enc::encode(&k, &o, r) { bytes_pipeline(c, &k, &b, p)? } }
    Ok(())
}
pub fn c06(c: &mut Ctx) {
    // every branch at every distance around the limits of 16 bits
    let mut dist: Vec<usize> = if c.thorough { (32700..=32840).collect() } else { (32755..=32778).collect() };
    for d in [3..=20, 30..=34, 62..=66, 125..=132, 253..=259, 510..=514, 1022..=1026, 4094..=4098, 8190..=8194, 16382..=16387, 24575..=24578, 40000..=40000, 65400..=65400] { dist.extend(d) }
    dist.extend(dict_sizes(60_000).into_iter().filter(|d| *d >= 3));
    let n = (OPS.len() * 2 * dist.len()) as u64;
    let ds = dist.clone();
    c.indexed("distance", n, |c, r, k| {
        let k = k as usize;
        let (op, back, d) = (OPS[k % 18], (k / 18) % 2 == 1, ds[k / 36]);
        let mut b = B::default();
        b.fill(r.below(9));
        if back { let l = b.here(); b.fill(d); b.jump(op, l) } else { let l = b.label(); b.jump(op, l); b.fill(d - 3); b.place(l) }
        b.fill(r.below(5));
        b.op(177);
        c.seen(&(op, back, d));
        c.sample("distance", || format!("opcode {op} {} {d} bytes", if back { "backward" } else { "forward" }));
        judge(c, r, one_method(b.finish()), p_code)
    });
    // small and middling distances
    let n = c.n(400, 6000);
    c.cases("near", n, |c, r| {
        let mut b = B::default();
        let ls: Vec<usize> = (0..1 + r.below(8)).map(|_| b.label()).collect();
        let mut todo = ls.clone();
        for _ in 0..1 + r.below(60) { match r.below(4) { 0 => b.fill(r.below(300)), 1 if !todo.is_empty() => { let l = todo.pop().unwrap(); b.place(l) } _ => { let l = *r.pick(&ls); b.jump(*r.pick(&OPS), l) } } }
        while let Some(l) = todo.pop() { b.place(l) }
        b.op(177);
        c.seen(&format!("{:?}", b.v.len()));
        judge(c, r, one_method(b.finish()), p_code)
    });
    // cascades: branches whose range just fits until another one in between is widened
    let n = c.n(2000, 40_000);
    c.cases("cascade", n, |c, r| {
        let mut b = B::default();
        let big = r.chance(1, 6);
        let m = 2 + r.below(if big { 300 } else { 14 });
        let step = *r.pick(&[0usize, 0, 1, 2, 3, 5, 8, 20]);
        let slack = *r.pick(&[0i64, 1, 2, 3, 4, 5, 6, 8, 10]);
        let per = *r.pick(&[0i64, 1, 2, 3, 5, 8]);
        // jumps in the first part, targets in the second, each at (nearly) the same short-form distance
        let mut pos = vec![];
        let ls: Vec<usize> = (0..m).map(|_| b.label()).collect();
        let ops: Vec<u8> = (0..m).map(|_| *r.pick(&OPS)).collect();
        b.fill(r.below(4));
        let backward = r.chance(1, 2);
        let mut plan: Vec<(usize, usize)> = vec![]; // (byte position in short form, label) of targets
        if !backward {
            for i in 0..m {
                pos.push(b.bytes);
                b.jump(ops[i], ls[i]);
                b.fill(r.below(step + 1));
                let d = (32767 - slack - per * (i as i64 % 7) + if r.chance(1, 6) { r.range(-3, 3) } else { 0 }) as usize;
                plan.push((pos[i] + d, ls[i]));
            }
            plan.sort();
            for (p, l) in plan { if p > b.bytes { let n = p - b.bytes; b.fill(n) } b.place(l) }
        } else {
            for i in 0..m { b.place(ls[i]); pos.push(b.bytes); b.fill(1 + r.below(step + 1)) }
            let mut order: Vec<(usize, usize)> = (0..m).map(|i| (pos[i] + (32768 - slack - per * (i as i64 % 7)) as usize, i)).collect();
            order.sort();
            for (p, i) in order { if p > b.bytes { let n = p - b.bytes; b.fill(n) } b.jump(ops[i], ls[i]) }
        }
        b.fill(r.below(3));
        b.op(177);
        c.max("cascade_branches", m as u64);
        c.seen(&(m, step, slack, per, backward, hash(&format!("{:?}", &b.v[..b.v.len().min(30)]))));
        c.sample("cascade", || format!("{m} branches, {} bytes in short form", b.bytes));
        judge(c, r, one_method(b.finish()), p_code)
    });
    // branches and switches everywhere in code of any size
    let n = c.n(1500, 30_000);
    c.cases("mixed", n, |c, r| {
        let mut b = B::default();
        let total = *r.pick(&[200usize, 2000, 20_000, 33_000, 40_000, 55_000, 62_000]);
        let segs = 2 + r.below(12);
        let ls: Vec<usize> = (0..2 + r.below(6)).map(|_| b.label()).collect();
        let mut todo = ls.clone();
        r.shuffle(&mut todo);
        for _ in 0..segs {
            let n = r.below(total / segs + 1);
            b.fill(n);
            for _ in 0..r.below(4) {
                match r.below(8) {
                    0 | 1 => if let Some(l) = todo.pop() { b.place(l) },
                    2 => { let k = if r.chance(1, 8) { 1 + r.below(400) } else { 1 + r.below(5) }; let lo = r.b32().min(i32::MAX - 500); let d = *r.pick(&ls); let t = (0..k).map(|_| *r.pick(&ls)).collect(); b.v.push(I::Table(d, lo, t)); b.bytes += 16 + 4 * k }
                    3 => { let k = if r.chance(1, 8) { r.below(300) } else { r.below(5) }; let m: std::collections::BTreeMap<i32, usize> = (0..k).map(|_| (r.b32(), *r.pick(&ls))).collect(); b.bytes += 12 + 8 * m.len(); let d = *r.pick(&ls); b.v.push(I::Lookup(d, m.into_iter().collect())) }
                    _ => { let l = *r.pick(&ls); b.jump(*r.pick(&OPS), l) }
                }
            }
        }
        while let Some(l) = todo.pop() { b.place(l) }
        b.op(177);
        c.max("code_bytes", b.bytes as u64);
        let v = b.finish();
        c.seen(&format!("{:?}", v.iter().filter(|i| !matches!(i, I::Iinc(..) | I::Op(_))).collect::<Vec<_>>()));
        let n = v.len();
        let mut k = one_method(v);
        // handlers and debug information over the whole of it
        if let A::Code(x) = &mut k.methods[0].attrs[0] {
            for _ in 0..r.below(4) { let s = r.below(n); x.handlers.push((s, s + 1 + r.below(n - s), r.below(n), None)) }
            for _ in 0..r.below(6) { x.lines.push((r.below(n), r.b16())) }
            x.lines.sort_by_key(|l| l.0);
            for q in 0..r.below(4) { let s = r.below(n); x.lvt.push((s, s + r.below(n - s + 1), q as u16, "v".into(), "I".into())) }
        }
        judge(c, r, k, all)
    });
    // switches at every alignment, behind branches that change size
    let n = c.n(600, 8000);
    c.indexed("alignment", n, |c, r, k| {
        let mut b = B::default();
        let far = b.label();
        b.fill((k % 4) as usize);
        for _ in 0..r.below(3) { b.jump(*r.pick(&OPS), far); b.fill(r.below(4)) }
        let near = b.here();
        for _ in 0..1 + r.below(3) {
            let t = r.chance(1, 2);
            let k = r.below(5);
            if t { let lo = *r.pick(&[0, -1, i32::MIN, i32::MAX - 5, 7]); let v = (0..=k).map(|_| if r.chance(1, 2) { far } else { near }).collect(); b.v.push(I::Table(if r.chance(1, 2) { far } else { near }, lo, v)) }
            else { let m: std::collections::BTreeMap<i32, usize> = (0..k).map(|_| (r.b32(), if r.chance(1, 2) { far } else { near })).collect(); b.v.push(I::Lookup(far, m.into_iter().collect())) }
            b.fill(r.below(4));
        }
        if r.chance(2, 3) { b.fill(32_500 + r.below(400)) }
        b.jump(*r.pick(&OPS), near);
        b.place(far);
        b.op(177);
        c.inc("alignments");
        let v = b.finish();
        c.seen(&format!("{:?}", v.iter().filter(|i| !matches!(i, I::Iinc(..))).collect::<Vec<_>>()));
        judge(c, r, one_method(v), p_code)
    });
    // total size around the limit
    let n = c.n(500, 6000);
    c.indexed("limit", n, |c, r, k| {
        let mut b = B::default();
        let want = 65535 - 20 + (k % 40) as usize;
        let m = r.below(6);
        let a = b.here();
        let z = b.label();
        for _ in 0..m { b.fill(r.below(60)); b.jump(*r.pick(&OPS), if r.chance(1, 2) { z } else { a }) }
        let sw = r.chance(1, 3);
        let rest = m * r.below(9) + if sw { 24 } else { 0 };
        let fill = (want - 1).saturating_sub(b.bytes + rest);
        b.fill(fill);
        if sw { b.v.push(I::Table(a, 5, vec![z, a])); b.bytes += 21 }
        if rest > 24 && r.chance(1, 2) { b.jump(*r.pick(&OPS), a) }
        if b.bytes < want - 1 { let n = want - 1 - b.bytes; if r.chance(1, 2) || m == 0 { b.fill(n) } }
        b.place(z);
        b.op(177);
        c.inc("near_limit");
        c.seen(&(k % 40, m, sw, b.bytes));
        judge(c, r, one_method(b.finish()), p_code)
    });
    // huge switches
    let n = c.n(60, 600);
    c.cases("huge_switch", n, |c, r| {
        let mut b = B::default();
        b.fill(r.below(8));
        let a = b.here();
        let z = b.label();
        if r.chance(1, 2) { let k = 2000 + r.below(14_370); let t = (0..k).map(|_| if r.chance(1, 2) { a } else { z }).collect(); b.v.push(I::Table(z, r.b32().min(i32::MAX - 20_000), t)) } else { let k = 1000 + r.below(7188); let m: std::collections::BTreeMap<i32, usize> = (0..k).map(|_| (r.u32() as i32, if r.chance(1, 2) { a } else { z })).collect(); b.v.push(I::Lookup(a, m.into_iter().collect())) }
        b.place(z);
        b.op(177);
        c.inc("huge_switches");
        judge(c, r, one_method(b.finish()), p_code)
    });
    let n = c.n(6000, 100_000);
    random(c, "code", n, P::code, p_code);
    let e = c.n(3, 1);
    crate::content::corpus(c, "corpus", e, p_code);
}

// ---------- C05 ----------
/// Everything a strict decoder demands of bytes written.
pub fn valid(c: &mut Ctx, w: &[u8]) -> Res {
    let (_, i) = decode_prefix(w).map_err(|e| format!("file written is invalid: {e}"))?;
    if i.consumed != w.len() { return Err(format!("{} bytes after the class written", w.len() - i.consumed)) }
    c.inc("files_checked");
    c.add("bytes_checked", w.len() as u64);
    c.add("constants_checked", i.cp_count as u64);
    c.max("constant_pool", i.cp_count as u64);
    Ok(())
}
pub fn c05(c: &mut Ctx) {
    let profs: [(&str, fn(&mut Rng) -> P); 8] = [("mixed", P::mixed), ("code", P::code), ("debug", P::debug), ("anns", P::anns), ("dynamic", P::dynamic), ("meta", P::meta), ("sigs", P::sigs), ("consts", P::consts)];
    for (s, f) in profs {
        let n = c.n(2200, 40_000);
        c.cases(s, n, |c, r| {
            let p = f(r);
            let k = G::new(r, p).class();
            c.seen(&format!("{k:?}"));
            let t = r.chance(1, 2);
            let m = build(&k, r, t);
            match write(&m) { Ok(w) => valid(c, &w).map_err(|e| format!("built class: {e}"))?, Err(e) => { if enc::encode(&k, &enc::Opt::plain(), r).is_ok() { return Err(e) } } }
            let o = enc::Opt::random(r);
            let b = match enc::encode(&k, &o, r) { Ok(b) => b, Err(_) => return Ok(()) };
            let m = read(&b)?;
            valid(c, &write(&m)?).map_err(|e| format!("class read: {e}"))?;
            // a damaged file that happens to be a valid one still has to come out valid
            for _ in 0..6 {
                let x = crate::robust::mutate(&b, r, 1);
                let (ok, got) = (decode(&x).is_ok(), read(&x));
                let Ok(m) = got else { continue };
                if let Ok(w) = write(&m) { if ok { c.inc("mutants_checked"); valid(c, &w).map_err(|e| format!("class read from a changed file: {e}"))? } }
            }
            Ok(())
        });
    }
    // many of everything: counts and constant pool indices beyond one byte
    let n = c.n(120, 1500);
    c.cases("large", n, |c, r| {
        let mut p = P::mixed(r);
        p.fields = 20 + r.below(120);
        p.methods = 20 + r.below(60);
        p.uni = true;
        let k = G::new(r, p).class();
        let m = build(&k, r, true);
        c.inc("large_classes");
        c.seen(&format!("{k:?}"));
        match write(&m) { Ok(w) => valid(c, &w), Err(e) => { if enc::encode(&k, &enc::Opt::plain(), r).is_ok() { Err(e) } else { Ok(()) } } }
    });
    // every countable part in every size up to 300, and 66000 where that is possible
    counts_with(c, &[P::anns, P::debug, P::meta, P::dynamic, P::mixed], |_| {}, |c, r, k| {
        let m = build(k, r, false);
        match write(&m) { Ok(w) => valid(c, &w), Err(e) => { if enc::encode(k, &enc::Opt::plain(), r).is_ok() { Err(e) } else { Ok(()) } } }
    });
    let sizes: Vec<usize> = SIZES.into_iter().chain(dict_sizes(13_000)).collect();
    c.indexed("tables", sizes.len() as u64 * 5, |c, r, i| {
        let (n, w) = (sizes[i as usize / 5], i % 5);
        let mut k = one_method(vec![I::Op(177)]);
        match w {
            0 => k = many_bsms(n, r),
            1 => k.fields = (0..n).map(|q| Member { access: 0, name: format!("f{q}").as_str().into(), desc: "I".into(), attrs: vec![] }).collect(),
            2 => { let m = k.methods[0].clone(); k.methods = (0..n).map(|q| Member { name: format!("m{q}").as_str().into(), ..m.clone() }).collect() }
            3 => k.ifaces = (0..n).map(|q| format!("i/I{q}").as_str().into()).collect(),
            _ => k.attrs = (0..n).map(|q| A::Raw(format!("x{}", q % 7).as_str().into(), vec![0; q % 3])).collect(),
        }
        c.inc("tables");
        c.seen(&format!("table {i}"));
        valid(c, &write(&build(&k, r, false))?)
    });
    let v = c.corpus();
    c.indexed("corpus", v.len() as u64, |c, _, k| {
        let (name, b) = &v[k as usize];
        if decode(b).is_err() { return Ok(()) }
        c.seen(b);
        valid(c, &write(&read(b)?)?).map_err(|e| format!("{name}: {e}"))
    });
    // layouts around the limits of branches
    let n = c.n(300, 4000);
    c.cases("layout", n, |c, r| {
        let mut b = B::default();
        let a = b.here();
        let z = b.label();
        for _ in 0..1 + r.below(6) { b.fill(r.below(11_000)); if r.chance(1, 3) { b.v.push(I::Table(a, 0, vec![z, a])) } else if r.chance(1, 3) { b.v.push(I::Lookup(z, vec![(1, a), (9, z)])) } b.jump(*r.pick(&OPS), if r.chance(1, 2) { z } else { a }) }
        b.place(z);
        b.op(177);
        c.seen(&b.bytes);
        let k = one_method(b.finish());
        let m = build(&k, r, false);
        match write(&m) { Ok(w) => valid(c, &w), Err(_) => { c.inc("refused"); Ok(()) } }
    });
}
