//! Programs made of instructions no compiler would emit, for running on a JVM before and after a rewrite.
//! They are verifiable by the old (type-inferring) verifier: locals have one type each, the operand stack is empty between blocks.
use crate::enc::{encode, Opt};
use crate::rcls::{Bsm, Cls, Code, Dyn, Mem, Member, A as At, I as N, K, MK};
use crate::rng::Rng;
use crate::text::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty { I, J, F, D, A }
use Ty::*;
fn wide(t: Ty) -> bool { matches!(t, J | D) }
// locals
const X: u16 = 0; const H_: u16 = 1; const FUEL: u16 = 3; const ARR: u16 = 4; const OBJ: u16 = 5;
const RET: u16 = 6;
/// a block or subroutine as a jump target, until the code is put together
const BLOCK: usize = 1 << 40;
const SUB: usize = 1 << 41;
const EXIT: usize = 1 << 42;
const HAND: usize = 1 << 43;

struct G<'a> { r: &'a mut Rng, c: Vec<N>, st: Vec<Ty>, loc: Vec<(u16, Ty)>, own: S, new: bool, blocks: usize, subs: usize, quiet: bool, far: bool }
fn mem(kind: MK, o: &str, n: &str, d: &str) -> Mem { Mem { kind, owner: o.into(), name: n.into(), desc: d.into() } }
const DR: &str = "progs/Drive";
fn is(o: u8, n: &str, d: &str) -> N { N::Invoke(o, mem(if o == 185 { MK::IMethod } else { MK::Method }, if o == 185 { "progs/Face" } else { DR }, n, d), 0) }

impl<'a> G<'a> {
    fn e(&mut self, i: N) { self.c.push(i) }
    fn op(&mut self, o: u8) { self.c.push(N::Op(o)) }
    fn k(&mut self) -> K {
        match self.r.below(8) {
            0 => K::Float(self.r.f32bits()), 1 => K::Double(self.r.f64bits()), 2 => K::Long(self.r.b64()),
            3 => K::Str(self.text()), 4 => K::Class((*self.r.pick(&["java/lang/String", "progs/Drive", "[I", "[[Lprogs/Drive;", "java/util/Map$Entry", "[J"])).into()),
            5 if self.new => K::MType((*self.r.pick(&["()V", "(IJ)Ljava/lang/Object;", "([[I)D", "(Lprogs/Drive;)[J"])).into()),
            6 if self.new => self.handle(),
            7 if self.new => K::Dyn(self.dy(0, false)),
            _ => K::Int(self.r.b32()),
        }
    }
    fn text(&mut self) -> S { let ds = &crate::rng::dict().strs; if !ds.is_empty() && self.r.chance(1, 3) { return self.r.pick(ds).as_str().into() } let n = self.r.below(6); S((0..n).map(|_| *self.r.pick(&[0u16, 65, 97, 0x7f, 0x80, 0x7ff, 0x800, 0xD83D, 0xDE00, 0xffff, 59, 47])).collect()) }
    fn handle(&mut self) -> K {
        match self.r.below(9) {
            0 => K::Handle(1, mem(MK::Field, DR, "i", "I")), 1 => K::Handle(2, mem(MK::Field, DR, "si", "I")), 2 => K::Handle(3, mem(MK::Field, DR, "d", "D")), 3 => K::Handle(4, mem(MK::Field, DR, "so", "Ljava/lang/Object;")),
            4 => K::Handle(5, mem(MK::Method, DR, "small", "()I")), 5 => K::Handle(6, mem(MK::Method, DR, "hash", "(Ljava/lang/Object;)I")), 6 => K::Handle(8, mem(MK::Method, DR, "<init>", "(IJLjava/lang/Object;)V")),
            7 => K::Handle(9, mem(MK::IMethod, "progs/Face", "small", "()I")), _ => K::Handle(6, mem(MK::Method, DR, "boom", "(I)Ljava/lang/RuntimeException;")),
        }
    }
    fn dy(&mut self, depth: usize, indy: bool) -> Arc<Dyn> {
        let n = self.r.below(4);
        let args = (0..n).map(|_| { if depth < 2 && self.r.chance(1, 5) { K::Dyn(self.dy(depth + 1, false)) } else { loop { let k = self.k(); if !matches!(k, K::Dyn(_)) { return k } } } }).collect();
        let bsm = if indy { mem(MK::Method, DR, "site", "(Ljava/lang/invoke/MethodHandles$Lookup;Ljava/lang/String;Ljava/lang/invoke/MethodType;[Ljava/lang/Object;)Ljava/lang/invoke/CallSite;") } else { mem(MK::Method, DR, "konst", "(Ljava/lang/invoke/MethodHandles$Lookup;Ljava/lang/String;Ljava/lang/Class;[Ljava/lang/Object;)Ljava/lang/Object;") };
        let desc = if indy { *self.r.pick(&["()J", "(I)J", "(J)J", "(Ljava/lang/Object;I)J", "(DF)J"]) } else { *self.r.pick(&["I", "J", "F", "D", "Ljava/lang/String;"]) };
        Arc::new(Dyn { name: (*self.r.pick(&["a", "b", "run", "\u{e9}"])).into(), desc: desc.into(), bsm: Arc::new(Bsm { kind: 6, mem: bsm, args }) })
    }
    fn push_const(&mut self) {
        if self.r.chance(1, 10) { self.op(1); return self.st.push(A) }
        let k = self.k();
        let t = match &k { K::Int(_) => I, K::Long(_) => J, K::Float(_) => F, K::Double(_) => D, K::Dyn(d) => match d.desc.lossy().as_str() { "I" => I, "J" => J, "F" => F, "D" => D, _ => A }, _ => A };
        if self.quiet && !matches!(k, K::Int(_) | K::Long(_) | K::Float(_) | K::Double(_)) { self.e(N::Const(K::Int(9))); return self.st.push(I) }
        self.e(N::Const(k));
        self.st.push(t)
    }
    fn load(&mut self) {
        let (n, t) = *self.r.pick(&self.loc.clone());
        self.e(N::Local(match t { I => 21, J => 22, F => 23, D => 24, A => 25 }, n));
        self.st.push(t)
    }
    fn push(&mut self, t: Ty) {
        match t {
            I => { if self.r.chance(1, 2) { self.e(N::Local(21, X)) } else { let v = self.r.b32(); self.e(N::Const(K::Int(v))) } }
            J => { if self.r.chance(1, 2) { self.e(N::Local(22, H_)) } else { let v = self.r.b64(); self.e(N::Const(K::Long(v))) } }
            F => { let v = self.r.f32bits(); self.e(N::Const(K::Float(v))) }
            D => { let v = self.r.f64bits(); self.e(N::Const(K::Double(v))) }
            A => { if self.r.chance(1, 2) { self.e(N::Local(25, OBJ)) } else { let v = self.text(); self.e(N::Const(K::Str(v))) } }
        }
        self.st.push(t)
    }
    fn top(&self, k: usize) -> Option<Ty> { if self.st.len() > k { Some(self.st[self.st.len() - 1 - k]) } else { None } }
    fn bin(&mut self, o: u8, res: Ty) { self.op(o); self.st.pop(); self.st.pop(); self.st.push(res) }
    fn un(&mut self, o: u8, res: Ty) { self.op(o); self.st.pop(); self.st.push(res) }
    /// fold the top value into the hash
    fn drain1(&mut self) {
        match self.st.pop() {
            Some(I) => self.op(133),
            Some(J) => {}
            Some(F) => { self.e(N::Invoke(184, mem(MK::Method, "java/lang/Float", "floatToIntBits", "(F)I"), 0)); self.op(133) }
            Some(D) => self.e(N::Invoke(184, mem(MK::Method, "java/lang/Double", "doubleToLongBits", "(D)J"), 0)),
            Some(A) => { self.e(is(184, "hash", "(Ljava/lang/Object;)I")); self.op(133) }
            None => return,
        }
        self.e(N::Local(22, H_));
        self.e(N::Const(K::Long(31)));
        self.op(105);
        let o = *self.r.pick(&[97u8, 131]); self.op(o);
        self.e(N::Local(55, H_));
    }
    fn drain(&mut self) { while !self.st.is_empty() { self.drain1() } }
    /// one step on the operand stack
    fn step(&mut self) {
        if self.st.len() > 8 { return self.drain1() }
        let t = self.top(0);
        let u = self.top(1);
        match self.r.below(22) {
            0..=2 => self.push_const(),
            3 | 4 => self.load(),
            5 => { let v = *self.r.pick(&self.loc.clone()); if let Some(t) = t { if t == v.1 && v.0 != ARR { self.e(N::Local(match t { I => 54, J => 55, F => 56, D => 57, A => 58 }, v.0)); self.st.pop(); } } }
            6 => { let ls: Vec<u16> = self.loc.iter().filter(|l| l.1 == I).map(|l| l.0).collect(); let l = *self.r.pick(&ls); let d = self.r.b16() as i16; self.e(N::Iinc(l, d)) }
            // stack manipulation
            7 | 8 => {
                let s = &self.st; let n = s.len();
                let w: Vec<bool> = s.iter().rev().take(4).map(|t| wide(*t)).collect();
                let mut ok: Vec<u8> = vec![];
                let w = |k: usize| w.get(k).copied();
                if w(0) == Some(false) { ok.extend([87, 89]); if w(1) == Some(false) { ok.extend([88, 90, 92, 95]); if w(2) == Some(false) { ok.extend([91, 93]); if w(3) == Some(false) { ok.push(94) } } if w(2) == Some(true) { ok.push(94) } } if w(1) == Some(true) { ok.push(91) } }
                if w(0) == Some(true) { ok.extend([88, 92]); if w(1) == Some(false) { ok.push(93); if w(2) == Some(false) { ok.push(94) } } if w(1) == Some(true) { ok.push(94) } }
                if ok.is_empty() || n > 7 { return }
                let o = *self.r.pick(&ok);
                self.op(o);
                // simulate on slots
                let mut sl: Vec<(Ty, bool)> = vec![];
                for t in &self.st { sl.push((*t, true)); if wide(*t) { sl.push((*t, false)) } }
                let n = sl.len();
                match o { 87 => { sl.pop(); } 88 => { sl.pop(); sl.pop(); } 89 => sl.push(sl[n - 1]), 95 => sl.swap(n - 1, n - 2),
                    90 => sl.insert(n - 2, sl[n - 1]), 91 => sl.insert(n - 3, sl[n - 1]),
                    92 => { let v = [sl[n - 2], sl[n - 1]]; sl.extend(v) } 93 => { let v = [sl[n - 2], sl[n - 1]]; sl.splice(n - 3..n - 3, v); } _ => { let v = [sl[n - 2], sl[n - 1]]; sl.splice(n - 4..n - 4, v); } }
                self.st = sl.into_iter().filter(|x| x.1).map(|x| x.0).collect();
            }
            // arithmetic
            9..=11 => match (u, t) {
                (Some(I), Some(I)) => { let o = if self.quiet { *self.r.pick(&[96u8, 100, 104, 120, 122, 124, 126, 128, 130]) } else { *self.r.pick(&[96u8, 100, 104, 108, 112, 120, 122, 124, 126, 128, 130]) }; self.bin(o, I) }
                (Some(J), Some(J)) => { let o = if self.quiet { *self.r.pick(&[97u8, 101, 105, 127, 129, 131, 148]) } else { *self.r.pick(&[97u8, 101, 105, 109, 113, 127, 129, 131, 148]) }; self.bin(o, if o == 148 { I } else { J }) }
                (Some(J), Some(I)) => { let o = *self.r.pick(&[121u8, 123, 125]); self.bin(o, J) }
                (Some(F), Some(F)) => { let o = *self.r.pick(&[98u8, 102, 106, 110, 114, 149, 150]); self.bin(o, if o > 148 { I } else { F }) }
                (Some(D), Some(D)) => { let o = *self.r.pick(&[99u8, 103, 107, 111, 115, 151, 152]); self.bin(o, if o > 148 { I } else { D }) }
                (_, Some(I)) => { let (o, t) = *self.r.pick(&[(116u8, I), (133, J), (134, F), (135, D), (145, I), (146, I), (147, I)]); self.un(o, t) }
                (_, Some(J)) => { let (o, t) = *self.r.pick(&[(117u8, J), (136, I), (137, F), (138, D)]); self.un(o, t) }
                (_, Some(F)) => { let (o, t) = *self.r.pick(&[(118u8, F), (139, I), (140, J), (141, D)]); self.un(o, t) }
                (_, Some(D)) => { let (o, t) = *self.r.pick(&[(119u8, D), (142, I), (143, J), (144, F)]); self.un(o, t) }
                _ => self.push_const(),
            },
            12 => if !self.st.is_empty() { self.drain1() },
            // a branch over part of an expression, with values below it
            13 => if let Some(t) = t {
                let o = match t { I => 153 + self.r.below(6) as u8, A => 198 + self.r.below(2) as u8, J => { self.e(N::Const(K::Long(0))); self.op(148); 153 + self.r.below(6) as u8 } F => { self.op(11); self.op(149); 157 } D => { self.op(14); self.op(152); 156 } };
                self.st.pop();
                let at = self.c.len(); self.op(0);
                let v = *self.r.pick(&[I, J, F, D, A]);
                self.push(v);
                if self.r.chance(1, 3) { for _ in 0..self.r.below(20) { self.op(0) } }
                let at2 = self.c.len(); self.op(0);
                self.c[at] = N::Jump(o, self.c.len());
                self.st.pop();
                self.push(v);
                self.c[at2] = N::Jump(167, self.c.len());
                if self.quiet || self.r.chance(1, 2) { self.op(0) }
            },
            _ if self.quiet => self.load(),
            14 => { // arrays
                match self.r.below(6) {
                    0 => { self.e(N::Local(25, ARR)); let v = self.r.range(-1, 9) as i32; self.e(N::Const(K::Int(v))); self.op(46); self.st.push(I) }
                    1 => if t == Some(I) { self.e(N::Local(25, ARR)); self.op(95); self.e(N::Const(K::Int(7))); self.op(126); self.push(I); self.op(79); self.st.pop(); self.st.pop(); },
                    2 => { let (d, st, ld, t) = *self.r.pick(&[("[I", 79u8, 46u8, I), ("[J", 80, 47, J), ("[F", 81, 48, F), ("[D", 82, 49, D), ("[B", 84, 51, I), ("[C", 85, 52, I), ("[S", 86, 53, I), ("[Z", 84, 51, I)]); let n = self.r.range(-1, 4) as i32; self.e(N::Const(K::Int(n))); self.e(N::NewArr(d.into(), 1)); self.op(89); self.op(89); let i = self.r.range(0, 3) as i32; self.e(N::Const(K::Int(i))); self.push(t); self.st.pop(); self.op(st); self.e(N::Const(K::Int(i))); self.op(ld); self.st.push(A); self.st.push(t) }
                    3 => { let (d, k) = *self.r.pick(&[("[[I", 2u8), ("[[[Ljava/lang/String;", 2), ("[[[J", 3), ("[[D", 1), ("[[[[B", 4)]); for _ in 0..k { let n = self.r.range(0, 3) as i32; self.e(N::Const(K::Int(n))) } self.e(N::NewArr(d.into(), k)); self.st.push(A) }
                    4 => { let n = self.r.range(0, 3) as i32; self.e(N::Const(K::Int(n))); let d = *self.r.pick(&["[Ljava/lang/String;", "[Lprogs/Drive;", "[Ljava/lang/Object;", "[[Ljava/lang/Object;"]); self.e(N::NewArr(d.into(), 1)); self.op(89); self.op(190); self.st.push(A); self.st.push(I) }
                    _ => { self.e(N::Const(K::Int(2))); self.e(N::NewArr("[Ljava/lang/Object;".into(), 1)); self.op(89); self.op(89); let n = self.r.range(0, 2) as i32; self.e(N::Const(K::Int(n))); self.push(A); self.st.pop(); self.op(83); self.e(N::Const(K::Int(0))); self.op(50); self.st.push(A); self.st.push(A) }
                }
            }
            15 => { // fields
                let (n, d, ty) = *self.r.pick(&[("i", "I", I), ("j", "J", J), ("f", "F", F), ("d", "D", D), ("o", "Ljava/lang/Object;", A), ("b", "B", I), ("s", "S", I), ("c", "C", I), ("z", "Z", I)]);
                match self.r.below(4) {
                    0 if n.len() == 1 && matches!(n, "i" | "j" | "f" | "d" | "o") => { let sn = format!("s{n}"); if t == Some(ty) && self.r.chance(1, 2) { self.e(N::Field(179, mem(MK::Field, DR, &sn, d))); self.st.pop(); } else { self.e(N::Field(178, mem(MK::Field, DR, &sn, d))); self.st.push(ty) } }
                    1 => { let own = self.own.lossy(); self.e(N::Field(178, mem(MK::Field, &own, &format!("k{n}"), d))); self.st.push(ty) }
                    _ => { self.e(N::New(DR.into())); self.op(89); if self.r.chance(1, 2) { self.e(is(183, "<init>", "()V")) } else { self.e(N::Local(21, X)); self.e(N::Local(22, H_)); self.op(1); self.e(is(183, "<init>", "(IJLjava/lang/Object;)V")) } self.op(89); self.st.push(A); self.push(ty); self.st.pop(); self.e(N::Field(181, mem(MK::Field, DR, n, d))); if self.r.chance(1, 2) { self.op(89); self.e(N::Field(180, mem(MK::Field, DR, n, d))); self.st.push(ty) } }
                }
            }
            16 => match self.r.below(5) { // calls
                0 => { for t in [I, J, F, D, A] { self.push(t) } self.e(is(184, "mix", "(IJFDLjava/lang/Object;)J")); for _ in 0..5 { self.st.pop(); } self.st.push(J) }
                1 => { self.e(N::New(DR.into())); self.op(89); self.e(is(183, "<init>", "()V")); for t in [I, J, D, A, F] { self.push(t); self.st.pop(); } self.e(N::Invoke(185, mem(MK::IMethod, "progs/Face", "face", "(IJDLjava/lang/Object;F)J"), 8)); self.st.push(J) }
                2 => { self.e(N::New(DR.into())); self.op(89); self.e(is(183, "<init>", "()V")); self.e(N::Invoke(185, mem(MK::IMethod, "progs/Face", "small", "()I"), 1)); self.st.push(I) }
                3 => { self.e(N::New(DR.into())); self.op(89); self.e(is(183, "<init>", "()V")); self.push(I); self.push(A); self.st.pop(); self.st.pop(); self.e(is(182, "virt", "(ILjava/lang/Object;)I")); self.st.push(I) }
                _ => { for _ in 0..4 { self.push(I); self.st.pop(); } self.e(N::Local(25, ARR)); self.op(1); self.e(N::Const(K::Str("q".into()))); self.push(J); self.push(D); self.st.pop(); self.st.pop(); self.e(is(184, "many", "(BSCZ[I[[JLjava/lang/String;JD)I")); self.st.push(I) }
            },
            17 => if t == Some(A) { // types
                let c: S = (*self.r.pick(&["java/lang/String", "progs/Drive", "[I", "java/lang/Object", "[Ljava/lang/Object;", "java/lang/Throwable"])).into();
                match self.r.below(3) { 0 => { self.e(N::Cast(193, c)); self.st.pop(); self.st.push(I) } 1 => self.e(N::Cast(192, c)), _ => { self.e(N::Cast(192, "java/lang/String".into())); self.e(N::Invoke(182, mem(MK::Method, "java/lang/String", "length", "()I"), 0)); self.st.pop(); self.st.push(I) } }
            },
            18 => { self.e(N::Const(K::Class(DR.into()))); if self.new { self.op(89); self.op(194); self.op(195) } else { self.op(89); self.op(194); self.op(195) } }
            19 if self.new => { let d = self.dy(0, true); let ts: &[Ty] = match d.desc.lossy().as_str() { "()J" => &[], "(I)J" => &[I], "(J)J" => &[J], "(DF)J" => &[D, F], _ => &[A, I] }; for t in ts { self.push(*t); } for _ in ts { self.st.pop(); } self.e(N::Indy(d)); self.st.push(J) }
            20 => self.op(0),
            _ => { let t = *self.r.pick(&[I, J, F, D, A]); self.push(t) }
        }
    }
    fn target(&mut self) -> usize { if self.r.chance(1, 12) { EXIT } else { BLOCK + self.r.below(self.blocks) } }
    /// a conditional branch, which in a long method goes over an unconditional one
    fn branch(&mut self, o: u8, t: usize) { if self.far { let n = self.c.len(); self.e(N::Jump(o, n + 2)); self.e(N::Jump(167, n + 3)); self.e(N::Jump(167, t)) } else { self.e(N::Jump(o, t)) } }
    fn fuel(&mut self) { self.e(N::Iinc(FUEL, -1)); self.e(N::Local(21, FUEL)); self.branch(158, EXIT) }
    fn mark(&mut self, n: i32) { self.e(N::Const(K::Int(n))); self.st.push(I); self.drain() }
    fn terminator(&mut self) {
        let r = self.r.below(12);
        match r {
            0 | 1 => {}
            2 => { let t = self.target(); self.e(N::Jump(167, t)) }
            3 => { self.push(I); let o = 153 + self.r.below(6) as u8; self.st.pop(); let t = self.target(); self.branch(o, t) }
            4 => { self.push(I); self.push(I); let o = 159 + self.r.below(6) as u8; self.st.clear(); let t = self.target(); self.branch(o, t) }
            5 => { self.push(A); self.push(A); let o = 165 + self.r.below(2) as u8; self.st.clear(); let t = self.target(); self.branch(o, t) }
            6 => { self.push(A); let o = 198 + self.r.below(2) as u8; self.st.clear(); let t = self.target(); self.branch(o, t) }
            7 => { // table
                self.e(N::Local(21, X)); let n = self.r.below(7);
                let lo = if self.r.chance(1, 3) { *self.r.pick(&[i32::MIN, i32::MAX - 7, -3, 65535]) } else { self.r.range(-4, 1) as i32 };
                if self.r.chance(1, 2) { self.e(N::Const(K::Int(7))); self.op(126); self.e(N::Const(K::Int(lo))); self.op(96) }
                let d = self.target(); let v = (0..n + 1).map(|_| self.target()).collect(); self.e(N::Table(d, lo, v))
            }
            8 => { // lookup
                let mut ks: Vec<i32> = (0..self.r.below(6)).map(|_| *self.r.pick(&[i32::MIN, i32::MAX, 0, 1, -1, 2, 3, 7919, 100, -5, 5, 4])).collect();
                ks.sort(); ks.dedup();
                self.e(N::Local(21, X)); if self.r.chance(1, 2) { self.e(N::Const(K::Int(7))); self.op(126) }
                let d = self.target(); let v = ks.into_iter().map(|k| (k, self.target())).collect(); self.e(N::Lookup(d, v))
            }
            9 => { // throw, perhaps null
                if self.r.chance(1, 3) { self.e(N::Local(21, X)); let t = self.target(); let o = 153 + self.r.below(6) as u8; self.branch(o, t) }
                match self.r.below(4) { 0 => { self.op(1); self.op(191) } 1 => { self.e(N::New("progs/Drive$Own".into())); self.op(89); self.e(N::Invoke(183, mem(MK::Method, "progs/Drive$Own", "<init>", "()V"), 0)); self.op(191) } _ => { self.e(N::Local(21, X)); self.e(is(184, "boom", "(I)Ljava/lang/RuntimeException;")); self.op(191) } }
            }
            10 if self.subs > 0 => { let s = self.r.below(self.subs); self.e(N::Jump(168, SUB + s)); self.mark(77) }
            _ => { self.e(N::Local(22, H_)); if self.r.chance(1, 2) { self.op(2); self.op(133); self.op(131) } self.e(N::Const(K::Int(1))); self.e(N::Local(54, X)); self.e(N::Local(55, H_)); }
        }
    }
}

fn method(r: &mut Rng, own: &S, new: bool, id: usize) -> Code {
    let blocks = 1 + r.below(10);
    let subs = if new { 0 } else { r.below(3) };
    let hands = r.below(4);
    let far = r.chance(1, 12);
    let mut room = 60000usize;
    let mut loc = vec![(X, I), (H_, J), (OBJ, A), (ARR, A)];
    let mut next = 7u16;
    for t in [I, J, F, D, A, I, J, A, F, D] { if r.chance(1, 3) { next = next.max(*r.pick(&[250, 253, 254, 255, 256, 700])) } if r.chance(1, 2) { loc.push((next, t)); next += 1 + wide(t) as u16 } }
    let mut g = G { r, c: vec![], st: vec![], loc: loc.clone(), own: own.clone(), new, blocks, subs, quiet: false, far };
    // entry
    g.e(N::Const(K::Long(id as i64))); g.e(N::Local(55, H_));
    g.e(N::Const(K::Int(300))); g.e(N::Local(54, FUEL));
    g.e(N::Const(K::Int(8))); g.e(N::NewArr("[I".into(), 1)); g.e(N::Local(58, ARR));
    g.e(N::Const(K::Str("obj".into()))); g.e(N::Local(58, OBJ));
    for (n, t) in loc.into_iter().skip(4) { match t { I => { g.op(5); g.e(N::Local(54, n)) } J => { g.op(10); g.e(N::Local(55, n)) } F => { g.op(13); g.e(N::Local(56, n)) } D => { g.op(15); g.e(N::Local(57, n)) } A => { g.op(1); g.e(N::Local(58, n)) } } }
    let body = g.c.len();
    // pieces in any order: blocks, handlers; falling from one into the next only where both are blocks
    let mut bstart = vec![0; blocks]; let mut hstart = vec![0; hands]; let mut sstart = vec![0; subs];
    let mut order: Vec<usize> = (0..blocks).map(|b| BLOCK + b).chain((0..hands).map(|h| HAND + h)).collect();
    g.r.shuffle(&mut order);
    let first = if order[0] >= HAND { let at = g.c.len(); g.op(0); Some(at) } else { None };
    for k in 0..order.len() {
        let p = order[k];
        if p >= HAND {
            hstart[p - HAND] = g.c.len();
            match g.r.below(3) { 0 => { g.e(N::Local(58, OBJ)) } 1 => { g.op(87) } _ => { g.e(is(184, "exc", "(Ljava/lang/Throwable;)I")); g.op(133); g.e(N::Local(22, H_)); g.op(131); g.e(N::Local(55, H_)) } }
            g.fuel();
            g.mark(1000 + (p - HAND) as i32);
            for _ in 0..g.r.below(6) { g.step() }
            g.drain();
            let t = g.target(); g.e(N::Jump(167, t));
        } else {
            bstart[p - BLOCK] = g.c.len();
            g.fuel();
            g.mark((p - BLOCK) as i32);
            for _ in 0..g.r.below(25) { g.step() }
            g.drain();
            g.terminator();
            g.drain();
            // not into a handler
            if order.get(k + 1).map_or(true, |n| *n >= HAND) { let t = g.target(); g.e(N::Jump(167, t)) }
        }
        if far && g.r.chance(1, 4) { let n = (*g.r.pick(&[2000usize, 20000, 32000, 32700, 33000])).min(room / 2); room -= n; let t = g.target(); g.e(N::Jump(167, t)); for _ in 0..n { g.op(0) } let t = g.target(); g.e(N::Jump(167, t)) }
    }
    if let Some(at) = first { let b = g.r.below(blocks); g.c[at] = N::Jump(167, bstart[b]) }
    let end_main = g.c.len();
    g.quiet = true;
    g.subs = 0;
    for s in 0..subs {
        sstart[s] = g.c.len();
        g.e(N::Local(58, RET + s as u16 * 0 + if s == 0 { 0 } else { 1000 + s as u16 }));
        g.mark(2000 + s as i32);
        for _ in 0..g.r.below(8) { g.step() }
        g.drain();
        g.e(N::Ret(if s == 0 { RET } else { RET + 1000 + s as u16 }));
    }
    let exit = g.c.len();
    g.e(N::Local(22, H_)); g.e(N::Local(21, X)); g.op(133); g.op(97); g.op(173);
    let fix = |t: &mut usize| { if *t >= HAND { *t = hstart[*t - HAND] } else if *t >= EXIT { *t = exit } else if *t >= SUB { *t = sstart[*t - SUB] } else if *t >= BLOCK { *t = bstart[*t - BLOCK] } };
    for i in &mut g.c { match i { N::Jump(_, t) => fix(t), N::Table(d, _, v) => { fix(d); v.iter_mut().for_each(fix) } N::Lookup(d, v) => { fix(d); v.iter_mut().for_each(|x| fix(&mut x.1)) } _ => {} } }
    let mut handlers = vec![];
    for h in 0..hands {
        for _ in 0..1 + g.r.below(2) {
            let (mut a, mut b) = (body + g.r.below(end_main - body), body + g.r.below(end_main - body));
            match g.r.below(6) { 0 => a = hstart[h], 1 => { a = a.min(hstart[h]); b = hstart[h] + 1 + g.r.below(end_main - hstart[h]) } 2 => { a = body; b = end_main } 3 => b = hstart[h], _ => {} }
            if a > b { std::mem::swap(&mut a, &mut b) }
            if a == b { continue }
            let t = match g.r.below(7) { 0 | 1 => None, 2 => Some("java/lang/ArithmeticException"), 3 => Some("java/lang/RuntimeException"), 4 => Some("progs/Drive$Own"), 5 => Some("java/lang/NullPointerException"), _ => Some("java/lang/Throwable") };
            handlers.push((a, b, hstart[h], t.map(|t| t.into())));
        }
    }
    g.r.shuffle(&mut handlers);
    let n = g.c.len();
    let mut lines: Vec<(usize, u16)> = vec![];
    for i in 0..n { if i < 3000 && g.r.chance(1, 5) { lines.push((i, 1 + g.r.b16() % 65535)) } }
    let insns = std::mem::take(&mut g.c);
    Code { max_stack: 60, max_locals: 1100, insns, handlers, lines, ..Default::default() }
}

pub fn class(r: &mut Rng, name: &str, new: bool) -> Cls {
    let own: S = name.into();
    let st = |n: &str, d: &str, k: Option<K>| Member { access: 9, name: n.into(), desc: d.into(), attrs: k.map(At::ConstantValue).into_iter().collect() };
    let fields = vec![st("ki", "I", Some(K::Int(r.b32()))), st("kj", "J", Some(K::Long(r.b64()))), st("kf", "F", Some(K::Float(r.f32bits()))), st("kd", "D", Some(K::Double(r.f64bits()))), st("ko", "Ljava/lang/Object;", None), st("kt", "Ljava/lang/String;", Some(K::Str("t\u{0}\u{1F600}".into()))),
        st("kb", "B", Some(K::Int(r.b32() as i8 as i32))), st("ks", "S", Some(K::Int(r.b32() as i16 as i32))), st("kc", "C", Some(K::Int(r.b32() as u16 as i32))), st("kz", "Z", Some(K::Int(r.b32() & 1)))];
    let n = 1 + r.below(5);
    let methods = (0..n).map(|m| { let c = method(r, &own, new, m); Member { access: 9, name: format!("m{m}").as_str().into(), desc: "(I)J".into(), attrs: vec![At::Code(Box::new(c))] } }).collect();
    Cls { minor: 0, major: if new { 55 } else { 49 }, access: 0x21, this: own, sup: Some("java/lang/Object".into()), ifaces: vec![], fields, methods, attrs: vec![At::SourceFile("Odd.java".into())], bsms: vec![], has_bsm_attr: false }
}

/// Write `n` classes below `dir`.
pub fn emit(args: &BTreeMap<String, String>) {
    let (dir, n, seed, new) = (&args["dir"], args["n"].parse::<usize>().unwrap(), args["seed"].parse::<u64>().unwrap(), args["kind"] == "new");
    std::fs::create_dir_all(format!("{dir}/progs")).expect("directory");
    for k in 0..n {
        let mut r = Rng::case(seed, 2100 + new as u64, k as u64);
        let name = format!("{}{k}", if new { "BN" } else { "BO" });
        let c = class(&mut r, &format!("progs/{name}"), new);
        let mut o = Opt::random(&mut r);
        o.frames = false; o.undef_flags = false;
        match encode(&c, &o, &mut r) { Ok(b) => std::fs::write(format!("{dir}/progs/{name}.class"), b).expect("class"), Err(e) => println!("SKIPPED {name}: {e}") }
    }
}
