//! Encoder: a reference class to bytes, exercising the freedoms of the format at random.
use crate::rcls::*;
use crate::rng::Rng;
use crate::text::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum E { Utf8(S), Int(i32), Float(u32), Long(i64), Double(u64), Class(S), Str(S), Ref(Mem), Nat(S, S), Handle(u8, Mem), MType(S), Dyn(Arc<Dyn>), Indy(Arc<Dyn>), Module(S), Package(S) }

#[derive(Clone, Debug)]
pub struct Opt {
    /// add unused / duplicate constants, unused and duplicated bootstrap methods
    pub junk: bool,
    /// set flag bits the specification leaves undefined
    pub undef_flags: bool,
    /// shuffle the pool and table order
    pub shuffle: bool,
    /// add StackMapTable attributes with arbitrary frames
    pub frames: bool,
    /// split LineNumberTable / LocalVariableTable attributes
    pub split: bool,
}
impl Opt {
    pub fn random(r: &mut Rng) -> Opt { Opt { junk: r.chance(1, 2), undef_flags: r.chance(1, 3), shuffle: r.chance(2, 3), frames: r.chance(1, 4), split: r.chance(1, 3) } }
    pub fn plain() -> Opt { Opt { junk: false, undef_flags: false, shuffle: false, frames: false, split: false } }
}

struct Enc<'a> {
    collect: bool,
    order: Vec<E>,
    seen: HashMap<E, ()>,
    idx: HashMap<E, Vec<u16>>,
    bsms: Vec<Arc<Bsm>>, bset: std::collections::HashSet<Arc<Bsm>>,
    bidx: HashMap<Arc<Bsm>, Vec<u16>>,
    pick: Rng,
    o: &'a Opt,
    fail: Option<String>,
    /// known attributes emitted so far; which of them to change the length of, by how much, and its name
    puts: usize,
    pad: Option<(usize, i8)>,
    padded: Option<String>,
}
fn w2(b: &mut Vec<u8>, x: u16) { b.extend(x.to_be_bytes()) }
fn w4(b: &mut Vec<u8>, x: u32) { b.extend(x.to_be_bytes()) }

impl<'a> Enc<'a> {
    fn add(&mut self, e: E) {
        if self.seen.contains_key(&e) { return }
        match &e {
            E::Class(s) | E::Str(s) | E::Module(s) | E::Package(s) | E::MType(s) => self.add(E::Utf8(s.clone())),
            E::Nat(a, b) => { self.add(E::Utf8(a.clone())); self.add(E::Utf8(b.clone())) }
            E::Ref(m) => { self.add(E::Class(m.owner.clone())); self.add(E::Nat(m.name.clone(), m.desc.clone())) }
            E::Handle(_, m) => self.add(E::Ref(m.clone())),
            E::Dyn(d) | E::Indy(d) => { self.add(E::Nat(d.name.clone(), d.desc.clone())); self.add_bsm(&d.bsm) }
            _ => {}
        }
        self.seen.insert(e.clone(), ());
        self.order.push(e);
    }
    fn add_bsm(&mut self, b: &Arc<Bsm>) {
        if !self.bset.insert(b.clone()) { return }
        self.bsms.push(b.clone());
        self.add(E::Utf8("BootstrapMethods".into()));
        self.add(E::Handle(b.kind, b.mem.clone()));
        for a in &b.args { self.add(ke(a)) }
    }
    fn i(&mut self, e: E) -> u16 {
        if self.collect { self.add(e); return 0 }
        let v = &self.idx[&e];
        v[if v.len() == 1 { 0 } else { self.pick.below(v.len()) }]
    }
    fn small(&self, e: &E) -> Option<u8> { if self.collect { None } else { self.idx[e].iter().find(|x| **x < 256).map(|x| *x as u8) } }
    fn utf(&mut self, s: &S) -> u16 { self.i(E::Utf8(s.clone())) }
    fn class(&mut self, s: &S) -> u16 { self.i(E::Class(s.clone())) }
    fn outf(&mut self, s: &Option<S>) -> u16 { match s { Some(s) => self.utf(s), None => 0 } }

    fn flags(&mut self, f: u16, mask: u16) -> u16 { if self.o.undef_flags { f | (self.pick.u16() & !mask) } else { f } }

    fn val(&mut self, v: &V, b: &mut Vec<u8>) {
        let (t, i) = match v {
            V::Byte(x) => (b'B', self.i(E::Int(*x))), V::Char(x) => (b'C', self.i(E::Int(*x))), V::Short(x) => (b'S', self.i(E::Int(*x))), V::Bool(x) => (b'Z', self.i(E::Int(*x))), V::Int(x) => (b'I', self.i(E::Int(*x))),
            V::Long(x) => (b'J', self.i(E::Long(*x))), V::Float(x) => (b'F', self.i(E::Float(*x))), V::Double(x) => (b'D', self.i(E::Double(*x))), V::Str(s) => (b's', self.utf(s)),
            V::Enum(t, n) => { b.push(b'e'); let x = self.utf(t); w2(b, x); let x = self.utf(n); w2(b, x); return }
            V::Class(s) => (b'c', self.utf(s)),
            V::Ann(a) => { b.push(b'@'); return self.ann(a, b) }
            V::Arr(v) => { b.push(b'['); w2(b, v.len() as u16); for x in v { self.val(x, b) } return }
        };
        b.push(t);
        w2(b, i);
    }
    fn ann(&mut self, a: &Ann, b: &mut Vec<u8>) {
        let t = self.utf(&a.ty); w2(b, t);
        w2(b, a.vals.len() as u16);
        let mut ks: Vec<_> = a.vals.iter().collect();
        if self.o.shuffle { let mut r = Rng::new(ks.len() as u64 + 7); r.shuffle(&mut ks) }
        for (k, v) in ks { let i = self.utf(k); w2(b, i); self.val(v, b) }
    }
    fn anns(&mut self, v: &[Ann], b: &mut Vec<u8>) { w2(b, v.len() as u16); for a in v { self.ann(a, b) } }
    fn tanns(&mut self, v: &[TAnn], b: &mut Vec<u8>, offs: &[usize], hs: &[H]) {
        w2(b, v.len() as u16);
        for t in v {
            match &t.target {
                T::Plain(p) => b.extend(p),
                T::Local(tag, v) => { b.push(*tag); w2(b, v.len() as u16); for (s, e, i) in v { w2(b, offs[*s] as u16); w2(b, (offs[*e] - offs[*s]) as u16); w2(b, *i) } }
                T::Catch(h) => { b.push(0x42); w2(b, hs.iter().position(|x| x == h).unwrap() as u16) }
                T::Off(tag, p) => { b.push(*tag); w2(b, offs[*p] as u16) }
                T::OffArg(tag, p, a) => { b.push(*tag); w2(b, offs[*p] as u16); b.push(*a) }
            }
            b.push(t.path.len() as u8);
            for (x, y) in &t.path { b.push(*x); b.push(*y) }
            self.ann(&t.ann, b);
        }
    }
    fn list(&mut self, v: &[S], b: &mut Vec<u8>, f: fn(S) -> E) { w2(b, v.len() as u16); for s in v { let i = self.i(f(s.clone())); w2(b, i) } }
    fn put(&mut self, name: &S, mut body: Vec<u8>, b: &mut Vec<u8>, known: bool) {
        if known {
            if let Some((k, d)) = self.pad { if k == self.puts && !self.collect { self.padded = Some(name.lossy()); if d > 0 { for q in 0..d { body.push((q as u8).wrapping_mul(37)) } } else { for _ in 0..-d { if body.pop().is_none() { self.padded = None } } } } }
            self.puts += 1;
        }
        let i = self.utf(name); w2(b, i); w4(b, body.len() as u32); b.extend(body)
    }

    fn attr(&mut self, a: &A, out: &mut Vec<u8>, offs: &[usize], hs: &[H], r: &mut Rng) {
        let mut body = vec![];
        let b = &mut body;
        let vis = |v: bool, x: &str| S::from(format!("Runtime{}{x}", if v { "Visible" } else { "Invisible" }).as_str());
        let name: S = match a {
            A::Signature(s) => { let i = self.utf(s); w2(b, i); "Signature".into() }
            A::Synthetic => "Synthetic".into(), A::Deprecated => "Deprecated".into(),
            A::SourceFile(s) => { let i = self.utf(s); w2(b, i); "SourceFile".into() }
            A::InnerClasses(v) => {
                w2(b, v.len() as u16);
                for (x, y, z, f) in v { let i = self.class(x); w2(b, i); let i = match y { Some(y) => self.class(y), None => 0 }; w2(b, i); let i = self.outf(z); w2(b, i); let f = self.flags(*f, INNER_FLAGS); w2(b, f) }
                "InnerClasses".into()
            }
            A::EnclosingMethod(c, m) => { let i = self.class(c); w2(b, i); let i = match m { Some((n, d)) => self.i(E::Nat(n.clone(), d.clone())), None => 0 }; w2(b, i); "EnclosingMethod".into() }
            A::SourceDebug(s) => { b.extend(to_mutf8(s)); "SourceDebugExtension".into() }
            A::Module(m) => {
                let i = self.i(E::Module(m.name.clone())); w2(b, i); let f = self.flags(m.flags, MODULE_FLAGS); w2(b, f); let i = self.outf(&m.version); w2(b, i);
                w2(b, m.requires.len() as u16);
                for (n, f, v) in &m.requires { let i = self.i(E::Module(n.clone())); w2(b, i); let f = self.flags(*f, REQUIRE_FLAGS); w2(b, f); let i = self.outf(v); w2(b, i) }
                for l in [&m.exports, &m.opens] { w2(b, l.len() as u16); for (n, f, v) in l { let i = self.i(E::Package(n.clone())); w2(b, i); let f = self.flags(*f, EXOP_FLAGS); w2(b, f); self.list(v, b, E::Module) } }
                self.list(&m.uses, b, E::Class);
                w2(b, m.provides.len() as u16);
                for (c, v) in &m.provides { let i = self.class(c); w2(b, i); self.list(v, b, E::Class) }
                "Module".into()
            }
            A::ModulePackages(v) => { self.list(v, b, E::Package); "ModulePackages".into() }
            A::ModuleMainClass(s) => { let i = self.class(s); w2(b, i); "ModuleMainClass".into() }
            A::NestHost(s) => { let i = self.class(s); w2(b, i); "NestHost".into() }
            A::NestMembers(v) => { self.list(v, b, E::Class); "NestMembers".into() }
            A::Anns(v, l) => { self.anns(l, b); vis(*v, "Annotations") }
            A::TAnns(v, l) => { self.tanns(l, b, offs, hs); vis(*v, "TypeAnnotations") }
            A::PAnns(v, l) => { b.push(l.len() as u8); for x in l { self.anns(x, b) } vis(*v, "ParameterAnnotations") }
            A::AnnDefault(v) => { self.val(v, b); "AnnotationDefault".into() }
            A::ConstantValue(k) => { let i = self.i(ke(k)); w2(b, i); "ConstantValue".into() }
            A::Exceptions(v) => { self.list(v, b, E::Class); "Exceptions".into() }
            A::MethodParameters(v) => { b.push(v.len() as u8); for (n, f) in v { let i = self.outf(n); w2(b, i); let f = self.flags(*f, PARAM_FLAGS); w2(b, f) } "MethodParameters".into() }
            A::Code(c) => { self.code(c, b, r); "Code".into() }
            A::Raw(n, x) => { b.extend(x); n.clone() }
        };
        let known = !matches!(a, A::Raw(..) | A::SourceDebug(_));
        self.put(&name, body, out, known);
    }

    fn code(&mut self, c: &Code, b: &mut Vec<u8>, r: &mut Rng) {
        w2(b, c.max_stack); w2(b, c.max_locals);
        let n = c.insns.len();
        // choose encodings; jumps get (wide?) and switches are padded on emission
        let mut parts: Vec<Vec<u8>> = vec![];
        let mut wide = vec![false; n];
        for (k, i) in c.insns.iter().enumerate() {
            let coin = r.chance(1, 3);
            let coin2 = r.below(4);
            let mut p = vec![];
            match i {
                I::Op(o) => p.push(*o),
                I::Const(kk) => {
                    let short = match kk {
                        K::Int(v @ -1..=5) if coin2 == 0 || !coin => Some(vec![(*v + 3) as u8]),
                        K::Int(v @ -128..=127) if coin2 <= 1 || !coin => Some(vec![16, *v as u8]),
                        K::Int(v @ -32768..=32767) if coin2 <= 2 || !coin => { let x = (*v as i16).to_be_bytes(); Some(vec![17, x[0], x[1]]) }
                        K::Long(v @ 0..=1) if !coin => Some(vec![9 + *v as u8]),
                        K::Float(0) if !coin => Some(vec![11]), K::Float(0x3f80_0000) if !coin => Some(vec![12]), K::Float(0x4000_0000) if !coin => Some(vec![13]),
                        K::Double(0) if !coin => Some(vec![14]), K::Double(0x3ff0_0000_0000_0000) if !coin => Some(vec![15]),
                        _ => None,
                    };
                    match short {
                        Some(s) => p = s,
                        None => {
                            let e = ke(kk);
                            let w = match kk { K::Long(_) | K::Double(_) => true, K::Dyn(d) => d.desc.is("J") || d.desc.is("D"), _ => false };
                            let i = self.i(e.clone());
                            if w { p.push(20); w2(&mut p, i) } else {
                                match self.small(&e) { Some(x) if coin2 != 3 => { p.push(18); p.push(x) } _ => { p.push(19); w2(&mut p, i) } }
                            }
                        }
                    }
                }
                I::Local(o, x) => {
                    if *x < 4 && coin2 != 0 { p.push(if *o < 54 { 26 + (*o - 21) * 4 } else { 59 + (*o - 54) * 4 } + *x as u8) }
                    else if *x < 256 && !(coin && coin2 == 1) { p.push(*o); p.push(*x as u8) }
                    else { p.push(196); p.push(*o); w2(&mut p, *x) }
                }
                I::Iinc(x, d) => if *x < 256 && i8::try_from(*d).is_ok() && !coin { p.extend([132, *x as u8, *d as i8 as u8]) } else { p.extend([196, 132]); w2(&mut p, *x); w2(&mut p, *d as u16) },
                I::Ret(x) => if *x < 256 && !coin { p.extend([169, *x as u8]) } else { p.extend([196, 169]); w2(&mut p, *x) },
                I::Jump(o, _) => { if matches!(o, 167 | 168) && coin { wide[k] = true } }
                I::Table(..) | I::Lookup(..) => {}
                I::Field(o, m) => { p.push(*o); let i = self.i(E::Ref(m.clone())); w2(&mut p, i) }
                I::Invoke(o, m, cnt) => { p.push(*o); let i = self.i(E::Ref(m.clone())); w2(&mut p, i); if *o == 185 { p.push(*cnt); p.push(0) } }
                I::Indy(d) => { p.push(186); let i = self.i(E::Indy(d.clone())); w2(&mut p, i); w2(&mut p, 0) }
                I::New(s) => { p.push(187); let i = self.class(s); w2(&mut p, i) }
                I::NewArr(s, d) => {
                    let el = S(s.0[1..].to_vec());
                    let prim = if *d == 1 && el.0.len() == 1 { "ZCFDBSIJ".find(char::from_u32(el.0[0] as u32).unwrap()).map(|x| x as u8 + 4) } else { None };
                    match prim {
                        Some(t) => if coin2 == 0 { p.push(197); let i = self.class(s); w2(&mut p, i); p.push(1) } else { p.extend([188, t]) },
                        None if *d == 1 && coin2 != 0 => { p.push(189); let e = if el.first() == Some(b'L' as u16) { S(el.0[1..el.0.len() - 1].to_vec()) } else { el }; let i = self.class(&e); w2(&mut p, i) }
                        None => { p.push(197); let i = self.class(s); w2(&mut p, i); p.push(*d) }
                    }
                }
                I::Cast(o, s) => { p.push(*o); let i = self.class(s); w2(&mut p, i) }
            }
            parts.push(p);
        }
        // layout
        let mut offs = vec![0usize; n + 1];
        loop {
            let mut pc = 0;
            for (k, i) in c.insns.iter().enumerate() {
                offs[k] = pc;
                pc += match i {
                    I::Jump(..) => if wide[k] { 5 } else { 3 },
                    I::Table(_, _, v) => 1 + (3 - pc % 4) + 12 + 4 * v.len(),
                    I::Lookup(_, v) => 1 + (3 - pc % 4) + 8 + 8 * v.len(),
                    _ => parts[k].len(),
                };
            }
            offs[n] = pc;
            let mut changed = false;
            for (k, i) in c.insns.iter().enumerate() {
                if let I::Jump(o, t) = i {
                    let d = offs[*t] as i64 - offs[k] as i64;
                    if !wide[k] && i16::try_from(d).is_err() {
                        if !matches!(o, 167 | 168) { self.fail = Some("conditional branch too far".into()); return }
                        wide[k] = true;
                        changed = true;
                    }
                }
            }
            if !changed { break }
        }
        if offs[n] > 65535 { self.fail = Some(format!("code of {} bytes", offs[n])); return }
        w4(b, offs[n] as u32);
        for (k, i) in c.insns.iter().enumerate() {
            let d = |t: usize| (offs[t] as i64 - offs[k] as i64) as i32;
            match i {
                I::Jump(o, t) => if wide[k] { b.push(*o + 33); w4(b, d(*t) as u32) } else { b.push(*o); w2(b, d(*t) as i16 as u16) },
                I::Table(df, lo, v) => { b.push(170); b.extend(vec![0; 3 - offs[k] % 4]); w4(b, d(*df) as u32); w4(b, *lo as u32); w4(b, (*lo as i64 + v.len() as i64 - 1) as i32 as u32); for t in v { w4(b, d(*t) as u32) } }
                I::Lookup(df, v) => { b.push(171); b.extend(vec![0; 3 - offs[k] % 4]); w4(b, d(*df) as u32); w4(b, v.len() as u32); for (x, t) in v { w4(b, *x as u32); w4(b, d(*t) as u32) } }
                _ => b.extend(&parts[k]),
            }
        }
        w2(b, c.handlers.len() as u16);
        for (s, e, h, t) in &c.handlers { w2(b, offs[*s] as u16); w2(b, offs[*e] as u16); w2(b, offs[*h] as u16); let i = match t { Some(t) => self.class(t), None => 0 }; w2(b, i) }
        // attributes: explicit ones in order, tables anywhere between
        let mut tables: Vec<(S, Vec<u8>)> = vec![];
        let chunks = |len: usize, r: &mut Rng, split: bool| -> Vec<(usize, usize)> { if len > 1 && split && r.chance(1, 2) { let k = 1 + r.below(len - 1); vec![(0, k), (k, len)] } else if len > 0 || r.chance(1, 30) { vec![(0, len)] } else { vec![] } };
        let mut lines = c.lines.clone();
        if self.o.shuffle { // any order that keeps the relative order of lines of one instruction
            let mut keyed: Vec<(u64, (usize, u16))> = { let mut m: HashMap<usize, u64> = HashMap::new(); lines.iter().map(|l| (*m.entry(l.0).or_insert_with(|| r.u64()), *l)).collect() };
            keyed.sort_by_key(|x| x.0);
            lines = keyed.into_iter().map(|x| x.1).collect();
        }
        for (a, z) in chunks(lines.len(), r, self.o.split) { let mut t = vec![]; w2(&mut t, (z - a) as u16); for (p, l) in &lines[a..z] { w2(&mut t, offs[*p] as u16); w2(&mut t, *l) } tables.push(("LineNumberTable".into(), t)) }
        let nline = tables.len();
        for (is_t, v) in [(false, &c.lvt), (true, &c.lvtt)] {
            let mut v = v.clone();
            if self.o.shuffle { r.shuffle(&mut v) }
            for (a, z) in chunks(v.len(), r, self.o.split) {
                let mut t = vec![]; w2(&mut t, (z - a) as u16);
                for (s, e, i, nm, d) in &v[a..z] { w2(&mut t, offs[*s] as u16); w2(&mut t, (offs[*e] - offs[*s]) as u16); let x = self.utf(nm); w2(&mut t, x); let x = self.utf(d); w2(&mut t, x); w2(&mut t, *i) }
                tables.push((if is_t { "LocalVariableTypeTable".into() } else { "LocalVariableTable".into() }, t));
            }
        }
        if self.o.frames {
            // own generator: offsets may differ between the two passes. Offsets strictly increasing, so that frames stay on distinct instructions
            let mut fr = Rng::new(r.u64());
            let r = &mut fr;
            self.class(&"java/lang/Object".into());
            let mut t = vec![];
            let mut cnt = 0u16;
            let mut last: i64 = -1;
            for k in 0..n {
                if !r.chance(1, 6) { continue }
                let delta = offs[k] as i64 - last - 1;
                last = offs[k] as i64;
                cnt += 1;
                match r.below(5) {
                    0 if delta < 64 => t.push(delta as u8),
                    1 if delta < 64 => { t.push(64 + delta as u8); t.push(r.below(7) as u8) }
                    2 => { t.push(247); w2(&mut t, delta as u16); t.push(8); w2(&mut t, offs[k] as u16) }
                    3 => { t.push(248 + r.below(4) as u8); w2(&mut t, delta as u16) }
                    _ => { t.push(255); w2(&mut t, delta as u16); w2(&mut t, 2); t.push(7); let i = self.class(&"java/lang/Object".into()); w2(&mut t, i); t.push(4); w2(&mut t, 1); t.push(3) }
                }
            }
            let mut x = vec![]; w2(&mut x, cnt); x.extend(t);
            tables.push(("StackMapTable".into(), x));
        }
        let mut slots: Vec<Vec<(S, Vec<u8>)>> = vec![vec![]; c.attrs.len() + 1];
        // line tables keep their order among themselves, so put each at a non-decreasing slot
        let mut lo = 0;
        for (q, t) in tables.into_iter().enumerate() { let k = if q < nline { lo += r.below(c.attrs.len() + 1 - lo); lo } else { r.below(c.attrs.len() + 1) }; slots[k].push(t) }
        let total: usize = c.attrs.len() + slots.iter().map(|s| s.len()).sum::<usize>();
        w2(b, total as u16);
        for k in 0..=c.attrs.len() {
            for (nm, t) in std::mem::take(&mut slots[k]) { self.put(&nm, t, b, true) }
            if let Some(a) = c.attrs.get(k) { self.attr(a, b, &offs, &c.handlers, r) }
        }
    }

    fn body(&mut self, c: &Cls, r: &mut Rng) -> Vec<u8> {
        let mut b = vec![];
        let f = self.flags(c.access, CLASS_FLAGS); w2(&mut b, f);
        let i = self.class(&c.this); w2(&mut b, i);
        let i = match &c.sup { Some(s) => self.class(s), None => 0 }; w2(&mut b, i);
        self.list(&c.ifaces, &mut b, E::Class);
        for (ms, mask) in [(&c.fields, FIELD_FLAGS), (&c.methods, METHOD_FLAGS)] {
            w2(&mut b, ms.len() as u16);
            for m in ms {
                let f = self.flags(m.access, mask); w2(&mut b, f);
                let i = self.utf(&m.name); w2(&mut b, i);
                let i = self.utf(&m.desc); w2(&mut b, i);
                w2(&mut b, m.attrs.len() as u16);
                for a in &m.attrs { self.attr(a, &mut b, &[], &[], r); if self.fail.is_some() { return b } }
            }
        }
        let has = !self.bsms.is_empty();
        let at = r.below(c.attrs.len() + 1);
        let at = if has { at } else { usize::MAX };
        w2(&mut b, (c.attrs.len() + has as usize) as u16);
        for k in 0..=c.attrs.len() {
            if k == at {
                let mut t = vec![];
                w2(&mut t, self.bsms.len() as u16);
                for x in self.bsms.clone() { let i = self.i(E::Handle(x.kind, x.mem.clone())); w2(&mut t, i); w2(&mut t, x.args.len() as u16); for a in &x.args { let i = self.i(ke(a)); w2(&mut t, i) } }
                self.put(&"BootstrapMethods".into(), t, &mut b, true);
            }
            if let Some(a) = c.attrs.get(k) { self.attr(a, &mut b, &[], &[], r) }
        }
        b
    }
}
fn ke(k: &K) -> E {
    match k {
        K::Int(x) => E::Int(*x), K::Float(x) => E::Float(*x), K::Long(x) => E::Long(*x), K::Double(x) => E::Double(*x), K::Str(s) => E::Str(s.clone()), K::Class(s) => E::Class(s.clone()), K::MType(s) => E::MType(s.clone()),
        K::Handle(k, m) => E::Handle(*k, m.clone()), K::Dyn(d) => E::Dyn(d.clone()),
    }
}

pub fn encode(c: &Cls, o: &Opt, r: &mut Rng) -> Result<Vec<u8>, String> { encode_pad(c, o, r, 0).map(|x| x.0) }
/// With `pad` != 0 one known attribute gets that many bytes more (or fewer) than its content needs; its name is returned.
pub fn encode_pad(c: &Cls, o: &Opt, r: &mut Rng, pad: i8) -> Result<(Vec<u8>, Option<String>), String> {
    let seed = r.u64();
    let mut e = Enc { collect: true, order: vec![], seen: HashMap::new(), idx: HashMap::new(), bsms: vec![], bset: Default::default(), bidx: HashMap::new(), pick: Rng::new(seed ^ 0x55), o, fail: None, puts: 0, pad: None, padded: None };
    for b in &c.bsms { e.add_bsm(b) }
    e.body(c, &mut Rng::new(seed));
    if let Some(f) = e.fail { return Err(f) }
    // assign indices
    let mut order = e.order.clone();
    if o.junk {
        for _ in 0..r.below(4) { let x = match r.below(6) { 0 => E::Int(r.u32() as i32), 1 => E::Long(r.u64() as i64), 2 => E::Double(r.u64()), 3 => E::Utf8(format!("junk{}", r.u16()).as_str().into()), 4 => E::Float(r.u32()), _ => order[r.below(order.len())].clone() }; order.push(x) }
    }
    if o.shuffle { r.shuffle(&mut order) }
    let mut next = 1u32;
    for x in &order {
        if next > 65534 { return Err("too many constants".into()) }
        e.idx.entry(x.clone()).or_default().push(next as u16);
        next += if matches!(x, E::Long(_) | E::Double(_)) { 2 } else { 1 };
    }
    if next > 65535 { return Err("too many constants".into()) }
    if o.junk && !e.bsms.is_empty() && r.chance(1, 2) { let k = e.bsms[r.below(e.bsms.len())].clone(); e.bsms.push(k) }
    if o.shuffle { r.shuffle(&mut e.bsms) }
    for (i, b) in e.bsms.clone().into_iter().enumerate() { e.bidx.entry(b).or_default().push(i as u16) }
    e.collect = false;
    if pad != 0 && e.puts > 0 { e.pad = Some((r.below(e.puts), pad)) }
    e.puts = 0;
    let body = e.body(c, &mut Rng::new(seed));
    if let Some(f) = e.fail { return Err(f) }
    let mut b = vec![0xCA, 0xFE, 0xBA, 0xBE];
    w2(&mut b, c.minor); w2(&mut b, c.major); w2(&mut b, next as u16);
    for x in &order {
        let one = |e: &mut Enc, tag: u8, y: E, b: &mut Vec<u8>| { b.push(tag); let i = e.i(y); w2(b, i) };
        let bi = |e: &mut Enc, d: &Dyn| -> u16 { let v = e.bidx[&d.bsm].clone(); *e.pick.pick(&v) };
        match x {
            E::Utf8(s) => { let m = to_mutf8(s); if m.len() > 65535 { return Err("string too long".into()) } b.push(1); w2(&mut b, m.len() as u16); b.extend(m) }
            E::Int(v) => { b.push(3); w4(&mut b, *v as u32) } E::Float(v) => { b.push(4); w4(&mut b, *v) } E::Long(v) => { b.push(5); b.extend(v.to_be_bytes()) } E::Double(v) => { b.push(6); b.extend(v.to_be_bytes()) }
            E::Class(s) => one(&mut e, 7, E::Utf8(s.clone()), &mut b), E::Str(s) => one(&mut e, 8, E::Utf8(s.clone()), &mut b), E::MType(s) => one(&mut e, 16, E::Utf8(s.clone()), &mut b), E::Module(s) => one(&mut e, 19, E::Utf8(s.clone()), &mut b), E::Package(s) => one(&mut e, 20, E::Utf8(s.clone()), &mut b),
            E::Ref(m) => { b.push(match m.kind { MK::Field => 9, MK::Method => 10, MK::IMethod => 11 }); let i = e.class(&m.owner); w2(&mut b, i); let i = e.i(E::Nat(m.name.clone(), m.desc.clone())); w2(&mut b, i) }
            E::Nat(n, d) => { b.push(12); let i = e.utf(n); w2(&mut b, i); let i = e.utf(d); w2(&mut b, i) }
            E::Handle(k, m) => { b.push(15); b.push(*k); let i = e.i(E::Ref(m.clone())); w2(&mut b, i) }
            E::Dyn(d) => { b.push(17); let i = bi(&mut e, d); w2(&mut b, i); let i = e.i(E::Nat(d.name.clone(), d.desc.clone())); w2(&mut b, i) }
            E::Indy(d) => { b.push(18); let i = bi(&mut e, d); w2(&mut b, i); let i = e.i(E::Nat(d.name.clone(), d.desc.clone())); w2(&mut b, i) }
        }
    }
    b.extend(body);
    Ok((b, e.padded))
}
