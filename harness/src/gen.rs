//! Random well-formed classes in reference form.
use crate::rcls::*;
use crate::rng::*;
use crate::text::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct P {
    pub uni: bool,
    pub lone: bool,
    pub fields: usize,
    pub methods: usize,
    pub insns: usize,
    pub handlers: usize,
    pub debug: usize,
    pub anns: usize,
    pub meta: usize,
    pub sigs: bool,
    pub raws: usize,
    pub bsms: usize,
    pub switch: usize,
    pub consts: u32,
}
impl P {
    pub fn mixed(r: &mut Rng) -> P {
        let big = r.chance(1, 10);
        P {
            uni: r.chance(1, 2), lone: r.chance(1, 4), fields: r.below(4), methods: r.below(4), insns: if big { 400 } else { 1 + r.below(40) }, handlers: r.below(4), debug: r.below(6), anns: r.below(4), meta: r.below(4), sigs: r.chance(1, 2), raws: r.below(3), bsms: if r.chance(1, 3) { r.below(7) } else { 0 }, switch: if big { 60 } else { 6 }, consts: 3,
        }
    }
    pub fn code(r: &mut Rng) -> P { P { uni: false, lone: false, fields: 0, methods: 1 + r.below(2), insns: 1 + r.below(120), handlers: r.below(5), debug: 0, anns: 0, meta: 0, sigs: false, raws: 0, bsms: r.below(3), switch: 12, consts: 4 } }
    pub fn debug(r: &mut Rng) -> P { P { uni: r.chance(1, 4), lone: false, fields: 0, methods: 1 + r.below(2), insns: 1 + r.below(40), handlers: r.below(4), debug: 1 + r.below(14), anns: r.below(3), meta: 0, sigs: r.chance(1, 4), raws: r.below(2), bsms: 0, switch: 6, consts: 2 } }
    pub fn anns(r: &mut Rng) -> P { P { uni: r.chance(1, 3), lone: r.chance(1, 6), fields: 1 + r.below(3), methods: 1 + r.below(3), insns: 1 + r.below(10), handlers: r.below(4), debug: 0, anns: 2 + r.below(5), meta: 0, sigs: false, raws: r.below(2), bsms: 0, switch: 3, consts: 2 } }
    pub fn dynamic(r: &mut Rng) -> P { P { uni: r.chance(1, 4), lone: r.chance(1, 8), fields: 0, methods: 1 + r.below(3), insns: 4 + r.below(20), handlers: 0, debug: 0, anns: 0, meta: 0, sigs: false, raws: r.below(2), bsms: 1 + r.below(14), switch: 3, consts: 8 } }
    pub fn meta(r: &mut Rng) -> P { P { uni: r.chance(1, 2), lone: r.chance(1, 3), fields: r.below(3), methods: r.below(4), insns: 1 + r.below(4), handlers: 0, debug: 0, anns: r.below(2), meta: 1 + r.below(8), sigs: r.chance(1, 3), raws: 1 + r.below(4), bsms: r.below(2), switch: 2, consts: 2 } }
    pub fn sigs(r: &mut Rng) -> P { P { uni: r.chance(1, 2), lone: false, fields: 1 + r.below(4), methods: 1 + r.below(4), insns: 1 + r.below(4), handlers: 0, debug: r.below(4), anns: 0, meta: 0, sigs: true, raws: 0, bsms: 0, switch: 2, consts: 2 } }
    pub fn consts(r: &mut Rng) -> P { P { uni: r.chance(1, 2), lone: r.chance(1, 2), fields: 1 + r.below(8), methods: 1 + r.below(2), insns: 4 + r.below(60), handlers: 0, debug: 0, anns: r.below(3), meta: 0, sigs: false, raws: 0, bsms: r.below(4), switch: 2, consts: 40 } }
}

/// A place in this file where a number of things is drawn, and the most it may be.
pub type Site = (u32, u32, usize);
/// Draw this number at this place, after passing it `skip` times.
pub struct Force { pub site: Site, pub n: usize, pub skip: usize, pub done: bool }
pub struct G<'a> { pub r: &'a mut Rng, pub p: P, pub bsms: Vec<Arc<Bsm>>, big: u32, words: Vec<S>, mems: Vec<Mem>, pub force: Option<Force>, pub sites: Option<BTreeSet<Site>> }

const PLAIN: [&str; 36] = ["J", "D", "S", "()V", "LJ", "Ljava", "T1", "-", "a", "I", "F", "L", "T", "V", "Foo", "foo", "B", "java/lang/Object", "java/lang/String", "Main", "x1", "Long", "Test", "Z", "Code", "BootstrapMethods", "_", "$", "value", "Signature", "module-info", "package-info", "java.base", "this", "UTF8", "ConstantValue"];

/// classes and descriptors that real programs are full of, which code may know by name
pub const KNOWN: [&str; 24] = ["java/lang/Object", "java/lang/String", "java/lang/Class", "java/lang/Throwable", "java/lang/Exception", "java/lang/Enum", "java/lang/Record", "java/lang/Integer", "java/lang/StringBuilder", "java/lang/System", "java/io/PrintStream", "java/io/Serializable", "java/util/List", "java/util/Map$Entry", "java/lang/Override", "java/lang/Deprecated", "java/lang/annotation/Annotation", "java/lang/annotation/Retention", "java/lang/invoke/MethodHandle", "java/lang/invoke/VarHandle", "java/lang/invoke/LambdaMetafactory", "java/lang/invoke/StringConcatFactory", "java/lang/Comparable", "java/lang/Iterable"];
pub const KNOWN_DESCS: [&str; 24] = ["()V", "()Z", "()I", "()J", "(I)V", "(J)V", "(D)V", "(Z)V", "([Ljava/lang/String;)V", "()Ljava/lang/String;", "()Ljava/lang/Object;", "(Ljava/lang/Object;)Z", "(Ljava/lang/String;)V", "(Ljava/lang/Object;)V", "(Ljava/lang/String;I)V", "(Ljava/lang/Object;)I", "(Ljava/lang/Object;)Ljava/lang/Object;", "([Ljava/lang/Object;)Ljava/lang/Object;", "(Ljava/lang/Throwable;)V", "(Ljava/lang/String;)Ljava/lang/StringBuilder;", "()Ljava/lang/Class;", "(II)I", "([BII)I", "(Ljava/lang/invoke/MethodHandles$Lookup;Ljava/lang/String;Ljava/lang/invoke/MethodType;Ljava/lang/invoke/MethodType;Ljava/lang/invoke/MethodHandle;Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/CallSite;"];
/// every attribute name the specification gives a meaning
pub const ATTRS: [&str; 30] = ["Code", "Signature", "Synthetic", "Deprecated", "SourceFile", "InnerClasses", "EnclosingMethod", "SourceDebugExtension", "BootstrapMethods", "Module", "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations", "AnnotationDefault", "ConstantValue", "Exceptions", "MethodParameters", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable", "Record", "PermittedSubclasses"];
pub const NEAR: usize = 12;
/// a name that is nearly `w`, but means nothing
pub fn near(w: &str, how: usize) -> S {
    let n = w.len();
    let s = match how {
        0 => w.to_lowercase(), 1 => w.to_uppercase(), 2 => w[..n - 1].into(), 3 => format!("{w}s"), 4 => format!("{w} "), 5 => format!(" {w}"), 6 => format!("{w}\0"), 7 => w[1..].into(),
        8 => { let mut c: Vec<char> = w.chars().collect(); c[n / 2] = if c[n / 2].is_lowercase() { c[n / 2].to_ascii_uppercase() } else { c[n / 2].to_ascii_lowercase() }; c.into_iter().collect() }
        9 => { let mut c: Vec<char> = w.chars().collect(); c.swap(0, n - 1); c.into_iter().collect() }
        10 => format!("{w}{w}"), _ => format!("{}\u{301}", w),
    };
    if ATTRS.contains(&s.as_str()) { format!("x{s}").as_str().into() } else { s.as_str().into() }
}
impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, p: P) -> G<'a> { let big = if r.chance(1, 3) { 1 + r.below(3) as u32 } else { 0 }; G { r, p, bsms: vec![], big, words: vec![], mems: vec![], force: None, sites: None } }
    /// nothing large in it
    pub fn small(r: &'a mut Rng, p: P) -> G<'a> { let mut g = G::new(r, p); g.big = 0; g }
    /// a number of things, below `m`; now and then (at most `big` times per class) one of the larger numbers up to `cap` where limits tend to lie
    #[track_caller]
    fn cnt(&mut self, m: usize, cap: usize) -> usize {
        if self.sites.is_some() || self.force.is_some() {
            let l = std::panic::Location::caller();
            let site = (l.line(), l.column(), cap);
            if let Some(s) = &mut self.sites { s.insert(site); }
            if let Some(f) = &mut self.force {
                self.big = 0;
                if !f.done && f.site == site { if f.skip == 0 { f.done = true; return if cap == 300 && f.n <= 4200 { f.n } else { f.n.min(cap) } } f.skip -= 1 }
            }
        }
        const B: [usize; 24] = [5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300];
        if self.big > 0 && self.r.chance(1, 60) { let n = *self.r.pick(&B); if n <= cap { self.big -= 1; return n } }
        if let Some(x) = self.r.special(40) { if x as usize <= cap.min(m * 4) { return x as usize } if x as usize <= cap && self.big > 0 { self.big -= 1; return x as usize } }
        self.r.below(m)
    }
    fn cp(&mut self, bad: &str) -> u32 {
        loop {
            let lone = self.p.lone;
            let sp = if self.p.uni { self.r.special(8) } else { None };
            let c = if let Some(x) = sp { if x > 0x10ffff || (!lone && (0xd800..0xe000).contains(&x)) { continue } x as u32 } else { match self.r.below(if self.p.uni { 12 } else { 4 }) {
                0..=3 => b"abcxyzABCDFIJLSTVZ0189_$- "[self.r.below(26)] as u32,
                4 => self.r.range(0x80, 0x7ff) as u32, 5 => self.r.range(0x800, 0xd7ff) as u32, 6 => self.r.range(0xe000, 0xffff) as u32, 7 => self.r.range(0x10000, 0x10ffff) as u32,
                8 => [0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xfeff][self.r.below(11)], 9 => self.r.range(1, 0x7f) as u32,
                10 => if self.r.chance(1, 4) { 0 } else { continue },
                _ => if lone { [0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd83d, 0xde00][self.r.below(6)] } else { continue },
            } };
            if let Some(ch) = char::from_u32(c) { if bad.contains(ch) { continue } }
            return c;
        }
    }
    #[track_caller]
    fn word(&mut self, bad: &str, min: usize) -> S {
        if !self.words.is_empty() && self.r.chance(1, 8) {
            let long: Vec<usize> = (0..self.words.len()).filter(|i| self.words[*i].0.len() >= 48).collect();
            let mut w = if !long.is_empty() && self.r.chance(1, 3) { self.words[*self.r.pick(&long)].clone() } else { self.r.pick(&self.words).clone() };
            let lone = !self.p.lone && w.has_lone();
            // the same but for one letter
            if self.r.chance(1, 3) { let i = self.r.below(w.0.len().max(1)); if let Some(u) = w.0.get_mut(i) { if (*u as u8).is_ascii_alphanumeric() && *u < 0x80 { *u = b"abz09"[self.r.below(5)] as u16 } } }
            if w.0.len() >= min && !lone && !w.0.iter().any(|u| *u < 0x80 && bad.contains(*u as u8 as char)) { return w }
        }
        let w = self.fresh(bad, min);
        if self.words.len() < 12 { self.words.push(w.clone()) } else { let i = self.r.below(12); self.words[i] = w.clone() }
        w
    }
    #[track_caller]
    fn fresh(&mut self, bad: &str, min: usize) -> S {
        if !dict().strs.is_empty() && self.r.chance(1, 6) {
            let w = self.r.pick(&dict().strs).clone();
            let w = match self.r.below(10) { 0 => format!("{w}x"), 1 => format!("x{w}"), 2 => w.to_lowercase(), 3 => w.to_uppercase(), 4 | 5 => w.repeat(2 + self.r.below(3)), _ => w };
            if !w.chars().any(|c| bad.contains(c)) && w.len() >= min { return w.as_str().into() }
        }
        if let Some(x) = self.r.special(20) { if self.big > 0 && x < 20_000 && x as usize >= min { if x > 300 { self.big -= 1 } return S((0..x).map(|_| b"ab1"[self.r.below(3)] as u16).collect()) } }
        if !self.p.uni || self.r.chance(1, 2) {
            let w = *self.r.pick(&PLAIN);
            if !w.chars().any(|c| bad.contains(c)) { return w.into() }
        }
        if self.r.chance(1, 12) {
            // runs of one character, and white space at the ends
            const W: [&str; 14] = ["\n", "\r\n", "\t", " ", "  ", "\0", "\\", "\"", "-", "_", "$", "a", "//", "\u{feff}"];
            let (w, n) = (*self.r.pick(&W), 1 + self.r.below(4));
            let t = match self.r.below(4) { 0 => w.repeat(n), 1 => format!("x{}", w.repeat(n)), 2 => format!("{}x", w.repeat(n)), _ => format!("x{}y", w.repeat(n)) };
            if !t.chars().any(|c| bad.contains(c)) { return t.as_str().into() }
        }
        let n = min + if self.big > 0 && self.r.chance(1, 300) { self.big -= 1; *self.r.pick(&[1000, 4096, 10_000, 16_384, 20_000, 21_845]) } else if self.r.chance(1, 40) { self.r.below(300) } else { self.cnt(6, 300) };
        let v: Vec<u32> = (0..n).map(|_| self.cp(bad)).collect();
        S(cps_to_units(&v))
    }
    /// any text, possibly empty
    #[track_caller]
    pub fn text(&mut self) -> S { self.word("", 0) }
    #[track_caller]
    pub fn ident(&mut self) -> S { self.word(".;[/<>:", 1) }
    /// identifier for signatures: no unpaired surrogates there
    #[track_caller]
    pub fn sident(&mut self) -> S { let l = std::mem::replace(&mut self.p.lone, false); let s = self.ident(); self.p.lone = l; s }
    #[track_caller]
    pub fn name(&mut self) -> S { self.word(".;[/", 1) }
    #[track_caller]
    pub fn mname(&mut self) -> S { match self.r.below(40) { 0 => "<clinit>".into(), 1 => "<init>".into(), _ => self.word(".;[/<>", 1) } }
    #[track_caller]
    pub fn cname(&mut self) -> S {
        if self.r.chance(1, 16) { return (*self.r.pick(&KNOWN)).into() }
        let mut s = self.ident();
        for _ in 0..self.cnt(3, 300) { s.push("/"); s = s.cat(&self.ident()) }
        s
    }
    /// class or array type as named by a Class constant
    #[track_caller]
    pub fn cref(&mut self) -> S { if self.r.chance(1, 5) { self.arr() } else { self.cname() } }
    #[track_caller]
    fn arr(&mut self) -> S { let d = if self.r.chance(1, 30) { 254 } else { 1 + self.cnt(3, 253) }; let mut s = S::default(); for _ in 0..d { s.push("[") } s.cat(&self.elem()) }
    #[track_caller]
    fn elem(&mut self) -> S { if self.r.chance(1, 2) { ["B", "C", "D", "F", "I", "J", "S", "Z"][self.r.below(8)].into() } else { let mut s = S::from("L"); s = s.cat(&self.cname()); s.push(";"); s } }
    #[track_caller]
    pub fn fdesc(&mut self) -> S { if self.r.chance(1, 3) { self.arr() } else { self.elem() } }
    #[track_caller]
    pub fn mdesc(&mut self) -> S {
        if self.r.chance(1, 24) { return (*self.r.pick(&KNOWN_DESCS)).into() }
        let mut s = S::from("(");
        let m = if self.r.chance(1, 20) { 30 } else { 4 };
        let n = self.cnt(m, 255);
        for _ in 0..n { let d = if n > 40 { self.elem() } else { self.fdesc() }; s = s.cat(&d) }
        s.push(")");
        if self.r.chance(1, 3) { s.push("V") } else { s = s.cat(&self.fdesc()) }
        s
    }
    #[track_caller]
    pub fn field(&mut self) -> Mem { self.mem(MK::Field) }
    #[track_caller]
    pub fn method(&mut self, kind: MK) -> Mem { self.mem(kind) }
    /// A member, sometimes one that resembles an earlier one: a part of it differs, or the same text is divided otherwise.
    #[track_caller]
    fn mem(&mut self, kind: MK) -> Mem {
        if !self.mems.is_empty() && self.r.chance(1, 8) {
            let o = self.r.pick(&self.mems).clone();
            let mut m = match self.r.below(6) {
                0 => Mem { owner: self.cref(), ..o.clone() },
                1 => Mem { name: if kind == MK::Field { self.name() } else { self.mname() }, ..o.clone() },
                2 => Mem { desc: if kind == MK::Field { self.fdesc() } else { self.mdesc() }, ..o.clone() },
                3 => o.clone(),
                _ => resplit(self.r, &o, true),
            };
            if (m.desc.0.first() == Some(&40)) == (kind != MK::Field) {
                m.kind = kind;
                if self.mems.len() < 6 { self.mems.push(m.clone()) }
                return m;
            }
        }
        let m = Mem { kind, owner: self.cref(), name: if kind == MK::Field { self.name() } else { self.mname() }, desc: if kind == MK::Field { self.fdesc() } else { self.mdesc() } };
        if self.mems.len() < 6 { self.mems.push(m.clone()) } else { let i = self.r.below(6); self.mems[i] = m.clone() }
        m
    }
    #[track_caller]
    pub fn handle(&mut self) -> (u8, Mem) {
        let k = 1 + self.r.below(9) as u8;
        let m = match k {
            1..=4 => self.field(),
            5 => self.method(MK::Method),
            6 | 7 => { let t = if self.r.chance(1, 2) { MK::Method } else { MK::IMethod }; self.method(t) }
            8 => { let mut m = self.method(MK::Method); m.name = "<init>".into(); m }
            _ => self.method(MK::IMethod),
        };
        (k, m)
    }
    pub fn dynk(&mut self, below: usize, call: bool) -> Arc<Dyn> {
        let b = if self.r.chance(1, 2) { below - 1 } else { self.r.below(below) };
        let bsm = self.bsms[b].clone();
        if !self.mems.is_empty() && self.r.chance(1, 6) {
            // the name and type of a member or of another dynamic
            let o = self.r.pick(&self.mems).clone();
            if (o.desc.0.first() == Some(&40)) == call { return Arc::new(Dyn { name: o.name, desc: o.desc, bsm }) }
        }
        Arc::new(Dyn { name: self.mname(), desc: if call { self.mdesc() } else { self.fdesc() }, bsm })
    }
    /// any loadable constant; dynamics use the bootstrap methods before `below`
    pub fn konst(&mut self, below: usize) -> K {
        match self.r.below(if below > 0 { 11 } else { 8 }) {
            0 => K::Int(self.r.b32()), 1 => K::Float(self.r.f32bits()), 2 => K::Long(self.r.b64()), 3 => K::Double(self.r.f64bits()), 4 => K::Str(self.text()), 5 => K::Class(self.cref()), 6 => K::MType(self.mdesc()),
            7 => { let (k, m) = self.handle(); K::Handle(k, m) }
            _ => K::Dyn(self.dynk(below, false)),
        }
    }
    pub fn gen_bsms(&mut self) {
        let n = self.p.bsms;
        for _ in 0..n {
            let below = self.bsms.len();
            let (mut kind, mut mem) = self.handle();
            if self.r.chance(1, 2) { kind = 6; mem = self.method(MK::Method) }
            let n = self.cnt(4, 300);
            let args = (0..n).map(|_| self.konst(below)).collect();
            let b = Arc::new(Bsm { kind, mem, args });
            if !self.bsms.contains(&b) { self.bsms.push(b) }
        }
    }

    // ----- annotations -----
    pub fn val(&mut self, d: usize) -> V {
        match self.r.below(if d < 4 { 16 } else { 11 }) {
            0 => V::Byte(self.r.b8() as i8 as i32), 1 => V::Char(self.r.b16() as i32), 2 => V::Double(self.r.f64bits()), 3 => V::Float(self.r.f32bits()), 4 => V::Int(self.r.b32()), 5 => V::Long(self.r.b64()), 6 => V::Short(self.r.b16() as i16 as i32),
            7 => V::Bool(self.r.below(2) as i32), 8 => V::Str(self.text()), 9 => V::Enum({ let mut s = S::from("L"); s = s.cat(&self.cname()); s.push(";"); s }, self.ident()),
            10 => V::Class(if self.r.chance(1, 4) { "V".into() } else { self.fdesc() }),
            11 | 12 => V::Ann(self.ann(d + 1)),
            _ => { let n = self.cnt(4, 300); V::Arr((0..n).map(|_| self.val(d + 1)).collect()) }
        }
    }
    pub fn ann(&mut self, d: usize) -> Ann {
        let mut ty = S::from("L");
        ty = ty.cat(&self.cname());
        ty.push(";");
        let mut vals = BTreeMap::new();
        for _ in 0..self.cnt(if d > 2 { 2 } else { 5 }, 300) { let k = self.text(); let v = self.val(d); vals.insert(k, v); }
        Ann { ty, vals }
    }
    #[track_caller]
    pub fn anns(&mut self) -> Vec<Ann> { let n = self.cnt(self.p.anns + 1, 300); (0..n).map(|_| self.ann(0)).collect() }
    #[track_caller]
    fn path(&mut self) -> Vec<(u8, u8)> { let n = if self.r.chance(1, 40) { 255 } else { self.cnt(4, 255) }; (0..n).map(|_| (self.r.below(4) as u8, self.r.b8())).collect() }
    pub fn tanns(&mut self, loc: Loc, n: usize, hs: &[H]) -> Vec<TAnn> {
        let many = self.cnt(self.p.anns + 2, 300);
        (0..many).map(|_| {
            let target = match loc {
                Loc::Class => match self.r.below(3) { 0 => T::Plain(vec![0, self.r.b8()]), 1 => T::Plain(vec![0x10, self.r.b8(), self.r.b8()]), _ => T::Plain(vec![0x11, self.r.b8(), self.r.b8()]) },
                Loc::Field => T::Plain(vec![0x13]),
                Loc::Method => match self.r.below(6) { 0 => T::Plain(vec![1, self.r.b8()]), 1 => T::Plain(vec![0x12, self.r.b8(), self.r.b8()]), 2 => T::Plain(vec![0x14]), 3 => T::Plain(vec![0x15]), 4 => T::Plain(vec![0x16, self.r.b8()]), _ => T::Plain(vec![0x17, self.r.b8(), self.r.b8()]) },
                Loc::Code => match self.r.below(4) {
                    0 => { let k = self.cnt(4, 300); T::Local(0x40 + self.r.below(2) as u8, (0..k).map(|_| { let s = self.r.below(n); (s, s + self.r.below(n - s + 1), self.r.b16()) }).collect()) }
                    1 if !hs.is_empty() => T::Catch(self.r.pick(hs).clone()),
                    2 => T::OffArg(0x47 + self.r.below(5) as u8, self.r.below(n), self.r.b8()),
                    _ => T::Off(0x43 + self.r.below(4) as u8, self.r.below(n)),
                },
            };
            TAnn { target, path: self.path(), ann: self.ann(1) }
        }).collect()
    }

    // ----- signatures -----
    fn s_simple(&mut self, d: usize, o: &mut S) {
        *o = o.cat(&self.sident());
        if d < 4 && self.r.chance(1, 3) {
            o.push("<");
            for _ in 0..1 + self.cnt(3, 300) { match self.r.below(4) { 0 => o.push("*"), 1 => { o.push("+"); self.s_ref(d + 1, o) } 2 => { o.push("-"); self.s_ref(d + 1, o) } _ => self.s_ref(d + 1, o) } }
            o.push(">");
        }
    }
    pub fn s_class(&mut self, d: usize, o: &mut S) {
        o.push("L");
        for _ in 0..self.cnt(3, 300) { *o = o.cat(&self.sident()); o.push("/") }
        let mut at = o.0.len();
        self.s_simple(d, o);
        for _ in 0..if self.r.chance(1, 4) { 1 + self.cnt(2, 100) } else { 0 } {
            // sometimes what came before once more
            let last = (o.0.len() - at < 200 && self.r.chance(1, 5)).then(|| S(o.0[at..].to_vec()));
            o.push(".");
            at = o.0.len();
            match last { Some(l) => *o = o.cat(&l), None => self.s_simple(d, o) }
        }
        o.push(";");
    }
    pub fn s_ref(&mut self, d: usize, o: &mut S) {
        match self.r.below(5) {
            0 => { o.push("T"); *o = o.cat(&self.sident()); o.push(";") }
            1 => { for _ in 0..if self.r.chance(1, 30) { 255 } else { 1 + self.cnt(3, 254) } { o.push("[") } if self.r.chance(1, 2) { self.s_prim(o) } else if self.r.chance(1, 3) { o.push("T"); *o = o.cat(&self.sident()); o.push(";") } else { self.s_class(d, o) } }
            _ => self.s_class(d, o),
        }
    }
    fn s_prim(&mut self, o: &mut S) { o.push(["B", "C", "D", "F", "I", "J", "S", "Z"][self.r.below(8)]) }
    #[track_caller]
    fn s_ty(&mut self, o: &mut S) { if self.r.chance(1, 3) { self.s_prim(o) } else { self.s_ref(1, o) } }
    #[track_caller]
    fn s_params(&mut self, o: &mut S) {
        if self.r.chance(1, 2) { return }
        o.push("<");
        let mut bare = false; // previous parameter ended in ':' with no bound at all
        for _ in 0..1 + self.cnt(3, 300) {
            let n = loop { let n = self.sident(); if !bare || !matches!(n.first(), Some(0x4C | 0x54)) { break n } };
            *o = o.cat(&n);
            o.push(":");
            let cb = self.r.chance(1, 2);
            if cb { self.s_bound(o) }
            let ib = self.cnt(3, 300);
            for _ in 0..ib { o.push(":"); self.s_bound(o) }
            bare = !cb && ib == 0;
        }
        o.push(">");
    }
    #[track_caller]
    fn s_bound(&mut self, o: &mut S) { if self.r.chance(1, 3) { o.push("T"); *o = o.cat(&self.sident()); o.push(";") } else { self.s_class(1, o) } }
    pub fn csig(&mut self) -> S { let mut o = S::default(); self.s_params(&mut o); self.s_class(0, &mut o); for _ in 0..self.cnt(3, 300) { self.s_class(0, &mut o) } o }
    pub fn msig(&mut self) -> S {
        let mut o = S::default();
        self.s_params(&mut o);
        o.push("(");
        for _ in 0..self.cnt(4, 300) { self.s_ty(&mut o) }
        o.push(")");
        if self.r.chance(1, 3) { o.push("V") } else { self.s_ty(&mut o) }
        for _ in 0..self.cnt(3, 300) { o.push("^"); self.s_bound(&mut o) }
        o
    }
    pub fn fsig(&mut self) -> S { let mut o = S::default(); self.s_ref(0, &mut o); o }

    // ----- code -----
    pub fn insn(&mut self, n: usize) -> I {
        const OPS: [u8; 101] = {
            let mut a = [0u8; 101];
            let mut k = 0;
            let mut i = 0u16;
            while i < 256 {
                let o = i as u8;
                let simple = o == 0 || o == 1 || (o >= 46 && o <= 53) || (o >= 79 && o <= 131) || (o >= 133 && o <= 152) || (o >= 172 && o <= 177) || o == 190 || o == 191 || o == 194 || o == 195;
                if simple { if k < 101 { a[k] = o } k += 1 }
                i += 1;
            }
            if k != 93 { panic!() }
            let mut j = k;
            while j < 101 { a[j] = a[j - k]; j += 1 }
            a
        };
        let nb = self.bsms.len();
        let c = self.p.consts as usize;
        match self.r.below(40 + c) {
            0..=11 => I::Op(OPS[self.r.below(93)]),
            12..=15 => I::Local([21, 22, 23, 24, 25, 54, 55, 56, 57, 58][self.r.below(10)], self.r.b16()),
            16 => I::Iinc(self.r.b16(), if self.r.chance(1, 2) { self.r.b8() as i8 as i16 } else { self.r.b16() as i16 }),
            17 => I::Ret(self.r.b16()),
            18..=22 => { let o = [153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 167, 167, 168, 198, 199][self.r.below(20)]; I::Jump(o, self.r.below(n)) }
            23 => { let k = 1 + self.cnt(self.p.switch, 300); let lo = self.r.b32().min(i32::MAX - k as i32 + 1); I::Table(self.r.below(n), lo, (0..k).map(|_| self.r.below(n)).collect()) }
            24 => { let k = self.cnt(self.p.switch + 1, 300); let mut t = BTreeMap::new(); for _ in 0..k { t.insert(self.r.b32(), self.r.below(n)); } I::Lookup(self.r.below(n), t.into_iter().collect()) }
            25..=27 => I::Field(178 + self.r.below(4) as u8, self.field()),
            28..=30 => { let o = 182 + self.r.below(4) as u8; let m = match o { 182 => self.method(MK::Method), 185 => self.method(MK::IMethod), _ => { let k = if self.r.chance(1, 2) { MK::Method } else { MK::IMethod }; let mut m = self.method(k); if o == 183 && k == MK::Method && self.r.chance(1, 2) { m.name = "<init>".into() } m } }; let c = if o == 185 { self.r.b8().max(1) } else { 0 }; I::Invoke(o, m, c) }
            31 | 32 if nb > 0 => I::Indy(self.dynk(nb, true)),
            33 => I::New(self.cname()),
            34 | 35 => { let mut s = S::from("["); s = s.cat(&self.fdesc()); let max = s.0.iter().take_while(|c| **c == b'[' as u16).count(); if max > 255 { return I::Op(0) } let d = if self.r.chance(2, 3) { 1 } else { 1 + self.r.below(max) }; I::NewArr(s, d as u8) }
            36 | 37 => I::Cast(192 + self.r.below(2) as u8, self.cref()),
            _ => { let k = self.konst(nb); I::Const(k) }
        }
    }
    pub fn code(&mut self) -> Code {
        let n = 1 + self.r.below(self.p.insns.max(1));
        let mut c = Code { max_stack: self.r.b16(), max_locals: self.r.b16(), ..Default::default() };
        for _ in 0..n { let i = self.insn(n); c.insns.push(i) }
        for _ in 0..self.cnt(1, 300) + self.p.handlers { let s = self.r.below(n); c.handlers.push((s, s + 1 + self.r.below(n - s), self.r.below(n), if self.r.chance(1, 3) { None } else { Some(self.cref()) })) }
        let d = self.p.debug;
        if d > 0 {
            for _ in 0..self.cnt(2 * d + 1, 300) { c.lines.push((self.r.below(n), self.r.b16())) }
            if self.r.chance(2, 3) { c.lines.sort_by_key(|x| x.0) }
            let mut seen = HashSet::new();
            for _ in 0..self.cnt(d + 1, 300) {
                let s = self.r.below(n); let e = s + self.r.below(n - s + 1); let i = self.r.b16(); let nm = self.ident();
                if !seen.insert((s, e, i, nm.clone())) { continue }
                let w = self.r.below(4);
                if w != 0 { let x = self.fdesc(); c.lvt.push((s, e, i, nm.clone(), x)) }
                if w == 0 || w == 3 { let x = self.fsig(); c.lvtt.push((s, e, i, nm, x)) }
            }
        }
        for _ in 0..self.r.below(3) { self.coincide_code(&mut c) }
        if self.p.anns > 0 { for v in [true, false] { if self.r.chance(1, 2) { let h = c.handlers.clone(); let x = self.tanns(Loc::Code, n, &h); c.attrs.push(A::TAnns(v, x)) } } }
        self.raws(Loc::Code, &mut c.attrs);
        self.r.shuffle(&mut c.attrs);
        c
    }
    #[track_caller]
    fn raws(&mut self, loc: Loc, v: &mut Vec<A>) {
        for _ in 0..self.cnt(self.p.raws + 1, 300) {
            let known: &[&str] = match loc {
                Loc::Class => &["Code", "ConstantValue", "Exceptions", "Record", "PermittedSubclasses", "StackMapTable", "LineNumberTable", "MethodParameters"],
                Loc::Field => &["Code", "SourceFile", "BootstrapMethods", "Exceptions", "Module"], Loc::Method => &["ConstantValue", "SourceFile", "InnerClasses", "BootstrapMethods", "StackMapTable"], Loc::Code => &["Signature", "Deprecated", "Synthetic", "Code", "BootstrapMethods", "StackMap"],
            };
            let name = if self.r.chance(1, 3) { S::from(*self.r.pick(known)) } else if self.r.chance(1, 3) { let w = *self.r.pick(&ATTRS); let q = self.r.below(NEAR); near(w, q) } else { let mut s = S::from(if self.r.chance(1, 2) { "x." } else { "Foo" }); s = s.cat(&self.text()); s };
            let n = if self.r.chance(1, 20) { self.r.below(3000) } else { self.cnt(12, 70000) };
            let b = (0..n).map(|_| self.r.u8()).collect();
            v.push(A::Raw(name, b));
        }
    }
    fn common(&mut self, loc: Loc, v: &mut Vec<A>) {
        if self.r.chance(1, 8) { v.push(A::Synthetic) }
        if self.r.chance(1, 8) { v.push(A::Deprecated) }
        if self.p.sigs && self.r.chance(2, 3) { let s = match loc { Loc::Class => self.csig(), Loc::Field => self.fsig(), _ => self.msig() }; v.push(A::Signature(s)) }
        if self.p.anns > 0 { for vis in [true, false] { if self.r.chance(1, 2) { let x = self.anns(); v.push(A::Anns(vis, x)) } if self.r.chance(1, 2) { let x = self.tanns(loc, 0, &[]); v.push(A::TAnns(vis, x)) } } }
        self.raws(loc, v);
    }
    fn names(&mut self, f: fn(&mut Self) -> S) -> Vec<S> { let n = self.cnt(self.p.meta + 1, 300); (0..n).map(|_| f(self)).collect() }
    #[track_caller]
    fn ostr(&mut self) -> Option<S> { if self.r.chance(1, 2) { Some(self.text()) } else { None } }
    pub fn module(&mut self) -> Module {
        let m = self.p.meta + 1;
        let mut x = Module { name: self.text(), flags: self.r.u16() & MODULE_FLAGS, version: self.ostr(), requires: vec![], exports: vec![], opens: vec![], uses: self.names(Self::cname), provides: vec![] };
        for _ in 0..self.cnt(m, 300) { x.requires.push((self.text(), self.r.u16() & REQUIRE_FLAGS, self.ostr())) }
        for _ in 0..self.cnt(m, 300) { x.exports.push((self.cname(), self.r.u16() & EXOP_FLAGS, self.names(Self::text))) }
        for _ in 0..self.cnt(m, 300) { x.opens.push((self.cname(), self.r.u16() & EXOP_FLAGS, self.names(Self::text))) }
        for _ in 0..self.cnt(m, 300) { x.provides.push((self.cname(), self.names(Self::cname))) }
        x
    }
    pub fn class_attrs(&mut self) -> Vec<A> {
        let mut v = vec![];
        self.common(Loc::Class, &mut v);
        if self.p.meta > 0 {
            if self.r.chance(1, 3) { v.push(A::SourceFile(self.text())) }
            if self.r.chance(1, 3) { let n = self.cnt(self.p.meta + 1, 300); let x = (0..n).map(|_| (self.cref(), if self.r.chance(1, 2) { Some(self.cname()) } else { None }, self.ostr(), self.r.u16() & INNER_FLAGS)).collect(); v.push(A::InnerClasses(x)) }
            if self.r.chance(1, 3) { let m = if self.r.chance(1, 2) { Some((self.mname(), self.mdesc())) } else { None }; v.push(A::EnclosingMethod(self.cname(), m)) }
            if self.r.chance(1, 4) { v.push(A::SourceDebug(self.text())) }
            if self.r.chance(1, 3) { v.push(A::Module(Box::new(self.module()))) }
            if self.r.chance(1, 4) { v.push(A::ModulePackages(self.names(Self::cname))) }
            if self.r.chance(1, 4) { v.push(A::ModuleMainClass(self.cname())) }
            if self.r.chance(1, 4) { v.push(A::NestHost(self.cname())) }
            if self.r.chance(1, 4) { v.push(A::NestMembers(self.names(Self::cname))) }
        }
        self.r.shuffle(&mut v);
        v
    }
    pub fn gfield(&mut self) -> Member {
        let mut v = vec![];
        self.common(Loc::Field, &mut v);
        if self.r.chance(1, 2) { let k = match self.r.below(5) { 0 => K::Int(self.r.b32()), 1 => K::Float(self.r.f32bits()), 2 => K::Long(self.r.b64()), 3 => K::Double(self.r.f64bits()), _ => K::Str(self.text()) }; v.push(A::ConstantValue(k)) }
        self.r.shuffle(&mut v);
        Member { access: self.r.u16() & FIELD_FLAGS, name: self.name(), desc: self.fdesc(), attrs: v }
    }
    pub fn gmethod(&mut self) -> Member {
        let mut v = vec![];
        self.common(Loc::Method, &mut v);
        if self.p.insns > 0 && self.r.chance(7, 8) { v.push(A::Code(Box::new(self.code()))) }
        if self.p.anns > 0 {
            for vis in [true, false] { if self.r.chance(1, 3) { let n = self.cnt(4, 255); let x = (0..n).map(|_| self.anns()).collect(); v.push(A::PAnns(vis, x)) } }
            if self.r.chance(1, 3) { let x = self.val(0); v.push(A::AnnDefault(x)) }
        }
        if self.p.meta > 0 {
            if self.r.chance(1, 3) { v.push(A::Exceptions(self.names(Self::cname))) }
            if self.r.chance(1, 3) { let n = if self.r.chance(1, 30) { 255 } else { self.cnt(5, 255) }; let x = (0..n).map(|_| (self.ostr(), self.r.u16() & PARAM_FLAGS)).collect(); v.push(A::MethodParameters(x)) }
        }
        self.r.shuffle(&mut v);
        if self.r.chance(1, 12) { return Member { access: if self.r.chance(1, 2) { 8 } else { self.r.u16() & METHOD_FLAGS }, name: "<clinit>".into(), desc: "()V".into(), attrs: v } }
        Member { access: self.r.u16() & METHOD_FLAGS, name: if self.r.chance(1, 6) { "<init>".into() } else { self.mname() }, desc: self.mdesc(), attrs: v }
    }
    pub fn class(&mut self) -> Cls {
        self.gen_bsms();
        let n = self.p.fields + self.cnt(1, 300); let fields = (0..n).map(|_| self.gfield()).collect();
        let n = self.p.methods + self.cnt(1, 40); let methods = (0..n).map(|_| self.gmethod()).collect();
        let attrs = self.class_attrs();
        let ni = self.cnt(4, 300);
        let mut c = Cls {
            minor: self.r.b16(), major: 45 + self.r.below(15) as u16, access: self.r.u16() & CLASS_FLAGS, this: self.cname(), sup: if self.r.chance(1, 10) { None } else { Some(self.cname()) }, ifaces: (0..ni).map(|_| self.cname()).collect(), fields, methods, attrs, has_bsm_attr: !self.bsms.is_empty(),
            bsms: self.bsms.clone(),
        };
        for _ in 0..self.r.below(4) { self.coincide(&mut c) }
        c
    }
    fn again<T: Clone>(&mut self, v: &mut Vec<T>) { if v.is_empty() || v.len() > 250 { return } let x = self.r.pick(v).clone(); let i = if self.r.chance(1, 2) { v.len() } else { self.r.below(v.len() + 1) }; v.insert(i, x) }
    /// One of the names that the class already has.
    fn known_name(&mut self, c: &Cls) -> S {
        let mut v = vec![c.this.clone()];
        v.extend(c.sup.clone());
        v.extend(c.ifaces.iter().take(4).cloned());
        for a in &c.attrs { match a { A::InnerClasses(l) => for x in l.iter().take(4) { if x.0.0.first() != Some(&91) { v.push(x.0.clone()) } v.extend(x.1.clone()) }, A::NestHost(x) | A::ModuleMainClass(x) => v.push(x.clone()), A::NestMembers(l) => v.extend(l.iter().take(4).cloned()), A::EnclosingMethod(x, _) => v.push(x.clone()), _ => {} } }
        self.r.pick(&v).clone()
    }
    /// Repetitions, and relations between the parts of a class as real ones have them (or should not).
    fn coincide(&mut self, c: &mut Cls) {
        let this = c.this.clone();
        let n = self.known_name(c);
        let cat = |a: &S, b: &str| { let mut a = a.clone(); a.push(b); a };
        match self.r.below(12) {
            0 => match self.r.below(4) { 0 => self.again(&mut c.ifaces), 1 => c.ifaces.push(n), 2 => c.sup = Some(n), _ => c.sup = Some("java/lang/Object".into()) },
            1 | 2 => for a in &mut c.attrs {
                match a {
                    A::SourceFile(s) => { let l = this.0.rsplit(|u| *u == 47).next().unwrap().to_vec(); *s = cat(&S(l), *self.r.pick(&[".java", "", ".class", ".kt"])) }
                    A::InnerClasses(l) => { self.again(l); if let Some(x) = l.last_mut() { match self.r.below(6) { 0 => x.0 = this.clone(), 1 => x.1 = Some(this.clone()), 2 => { x.1 = Some(this.clone()); x.2 = Some("In".into()); x.0 = cat(&this, "$In") } 3 => { x.1 = None; x.2 = None; x.0 = cat(&this, "$1") } 4 => x.1 = Some(x.0.clone()).filter(|x| x.0.first() != Some(&91)), _ => x.2 = Some(x.0.clone()) } } }
                    A::EnclosingMethod(o, _) => *o = n.clone(),
                    A::NestHost(x) | A::ModuleMainClass(x) => *x = n.clone(),
                    A::NestMembers(l) => { self.again(l); if self.r.chance(1, 2) { l.push(n.clone()) } }
                    A::ModulePackages(l) => self.again(l),
                    A::Module(m) => { self.again(&mut m.requires); self.again(&mut m.exports); self.again(&mut m.opens); self.again(&mut m.uses); self.again(&mut m.provides); if self.r.chance(1, 2) { if let Some(x) = m.exports.last() { m.opens.push(x.clone()) } } for x in &mut m.provides { self.again(&mut x.1) } for x in &mut m.exports { self.again(&mut x.2) } if self.r.chance(1, 2) { for x in &mut m.requires { x.2 = m.version.clone() } } }
                    _ => {}
                }
            },
            3 | 4 => { let k = self.r.below(3); let all: Vec<&mut Vec<A>> = match k { 0 => vec![&mut c.attrs], 1 => c.fields.iter_mut().map(|m| &mut m.attrs).collect(), _ => c.methods.iter_mut().map(|m| &mut m.attrs).collect() }; for v in all { self.repeat(v) } }
            5 => for m in &mut c.fields { let d = m.desc.clone(); if d.0.len() > 1 && !d.has_lone() && !d.0.contains(&58) { for a in &mut m.attrs { if let A::Signature(s) = a { *s = d.clone() } } } },
            6 => for m in &mut c.methods { let d = m.desc.clone(); if !d.has_lone() && !d.0.contains(&58) { for a in &mut m.attrs { if let A::Signature(s) = a { *s = d.clone() } } } },
            7 => if c.fields.len() > 1 { let i = self.r.below(c.fields.len() - 1); let f = c.fields[i].clone(); let o = &mut c.fields[i + 1]; match self.r.below(3) { 0 => o.name = f.name, 1 => o.desc = f.desc, _ => o.attrs = f.attrs } },
            8 => if c.methods.len() > 1 { let i = self.r.below(c.methods.len() - 1); let f = c.methods[i].clone(); let o = &mut c.methods[i + 1]; match self.r.below(3) { 0 => o.name = f.name, 1 => o.desc = f.desc, _ => o.attrs = f.attrs } },
            9 => for m in &mut c.methods {
                let np = crate::textc::ref_type(&m.desc.codepoints(), false).map_or(0, |t| if let coffer::prelude::Type::Method { parameters, .. } = t { parameters.len() } else { 0 });
                for a in &mut m.attrs { match a { A::MethodParameters(l) => { l.resize(np.min(255), (None, 0)); if let Some(x) = l.last().cloned() { if self.r.chance(1, 2) { for y in l.iter_mut() { *y = x.clone() } } } } A::PAnns(_, l) => { let x = l.last().cloned().unwrap_or_default(); l.resize(np.min(255), x) } A::Exceptions(l) => { self.again(l); if self.r.chance(1, 2) { l.push(n.clone()) } } _ => {} } }
            },
            10 => for m in c.fields.iter_mut().chain(&mut c.methods) { match self.r.below(6) { 0 => m.name = this.0.rsplit(|u| *u == 47).next().map(|x| S(x.to_vec())).unwrap(), 1 => m.access = 0, 2 => m.access = 9, 3 => m.access = 0x19, 4 => m.access = 2, _ => {} } },
            _ => c.access = *self.r.pick(&[0u16, 1, 0x21, 0x31, 0x601, 0x2601, 0x4031, 0x421, 0x8000, 0x1020]),
        }
    }
    fn repeat(&mut self, v: &mut Vec<A>) {
        if v.len() > 250 { return }
        let raws: Vec<usize> = (0..v.len()).filter(|i| matches!(&v[*i], A::Raw(..))).collect();
        if !raws.is_empty() {
            let i = *self.r.pick(&raws);
            let mut x = v[i].clone();
            if let (A::Raw(n, b), 0 | 1) = (&mut x, self.r.below(4)) { if self.r.chance(1, 2) { b.push(0) } else { b.clear() } let _ = n; }
            let at = if self.r.chance(1, 2) { i + 1 } else { self.r.below(v.len() + 1) };
            v.insert(at, x);
        }
        for a in v { match a { A::Anns(_, l) => self.again(l), A::TAnns(_, l) => self.again(l), A::PAnns(_, l) => if l.len() < 255 { self.again(l) }, A::AnnDefault(V::Arr(l)) => self.again(l), A::Code(k) => self.repeat(&mut k.attrs), _ => {} } }
    }
    /// A range that has something to do with the given one.
    fn beside(&mut self, s: usize, e: usize, n: usize) -> (usize, usize) {
        match self.r.below(7) {
            0 | 1 => (e, e + self.r.below(n - e + 1)),
            2 => (self.r.below(s + 1), s),
            3 => (s, e + self.r.below(n - e + 1)),
            4 => (self.r.below(s + 1), e),
            5 => (s, s + self.r.below(e - s + 1)),
            _ => (s + self.r.below(e - s + 1), e),
        }
    }
    /// The same for code.
    fn coincide_code(&mut self, c: &mut Code) {
        let n = c.insns.len();
        match self.r.below(12) {
            0 | 1 => if n > 1 { let i = self.r.below(n - 1); let mut x = c.insns[i].clone(); match &mut x { I::Iinc(_, v) => *v = self.r.b16() as i16, I::Local(o, _) if self.r.chance(1, 2) => *o = if *o < 54 { *o + 33 } else { *o - 33 }, I::Jump(_, t) if self.r.chance(1, 2) => *t = self.r.below(n), _ => {} } c.insns[i + 1] = x },
            2 => { let t = self.r.below(n); for i in &mut c.insns { match i { I::Table(d, _, o) => { *d = t; if self.r.chance(1, 2) { o.fill(t) } } I::Lookup(d, o) => { *d = t; for x in o { if self.r.chance(1, 2) { x.1 = t } } } _ => {} } } }
            3 => for k in 0..n { if let I::Jump(_, t) = &mut c.insns[k] { *t = match self.r.below(3) { 0 => k, 1 => (k + 1).min(n - 1), _ => k.saturating_sub(1) } } },
            4 => { self.again(&mut c.handlers); if let Some(h) = c.handlers.last_mut() { match self.r.below(6) { 0 => h.2 = h.0, 1 => h.2 = h.1.min(n - 1), 2 => h.3 = None, 3 => h.3 = Some("java/lang/Throwable".into()), 4 => { h.0 = 0; h.1 = n } _ => {} } } }
            5 => { self.again(&mut c.lines); if self.r.chance(1, 2) { for (i, l) in c.lines.iter_mut().enumerate() { l.1 = 1 + i as u16 } } }
            6 => for k in 0..c.lvtt.len() { let t = c.lvtt[k].clone(); for l in &c.lvt { if (l.0, l.1, l.2, &l.3) == (t.0, t.1, t.2, &t.3) && l.4.0.len() > 1 && !l.4.has_lone() && !l.4.0.contains(&58) { c.lvtt[k].4 = l.4.clone() } } },
            7 => {
                let i = self.r.b8() as u16;
                let mut seen: HashSet<_> = c.lvt.iter().chain(&c.lvtt).map(|l| (l.0, l.1, l.2, l.3.clone())).collect();
                for l in &mut c.lvt {
                    let old = (l.0, l.1, l.2, l.3.clone());
                    if c.lvtt.iter().any(|t| (t.0, t.1, t.2, &t.3) == (l.0, l.1, l.2, &l.3)) { continue }
                    let mut x = (0, n, i, l.3.clone());
                    if self.r.chance(1, 2) { x.0 = l.0; x.1 = l.1 }
                    if self.r.chance(1, 3) { x.3 = "this".into(); x.2 = 0 }
                    if seen.insert(x.clone()) { seen.remove(&old); (l.0, l.1, l.2, l.3) = x }
                }
            }
            // ranges that touch, overlap or contain each other, and are otherwise the same
            8 | 9 => for _ in 0..1 + self.r.below(3) { if !c.handlers.is_empty() && c.handlers.len() < 250 {
                let i = self.r.below(c.handlers.len());
                let mut h = c.handlers[i].clone();
                (h.0, h.1) = self.beside(h.0, h.1, n);
                if h.0 < h.1 { match self.r.below(6) { 0 => h.2 = self.r.below(n), 1 => h.3 = None, _ => {} } let at = i + self.r.below(2); c.handlers.insert(at, h) }
            } },
            10 => if !c.lvt.is_empty() && c.lvt.len() < 250 {
                let i = self.r.below(c.lvt.len());
                let l = c.lvt[i].clone();
                let (a, b) = self.beside(l.0, l.1, n);
                if !c.lvt.iter().chain(&c.lvtt).any(|x| (x.0, x.1, x.2, &x.3) == (a, b, l.2, &l.3)) {
                    let at = i + self.r.below(2);
                    if let (Some(j), true) = (c.lvtt.iter().position(|t| (t.0, t.1, t.2, &t.3) == (l.0, l.1, l.2, &l.3)), self.r.chance(1, 2)) { let mut t = c.lvtt[j].clone(); (t.0, t.1) = (a, b); c.lvtt.insert(j + self.r.below(2), t) }
                    c.lvt.insert(at, (a, b, l.2, l.3, l.4));
                }
            },
            _ => { let t = self.r.b16() & 7; for i in &mut c.insns { match i { I::Local(_, l) | I::Iinc(l, _) | I::Ret(l) => *l = t, _ => {} } } c.max_locals = t + 1 }
        }
    }
}

/// A member whose owner, name and descriptor read the same as those of `m` when put behind each other (or nearly so), divided
/// at other places.  With `strict` the name has no characters that names must not have.
pub fn resplit(r: &mut Rng, m: &Mem, strict: bool) -> Mem {
    let o = resplit1(r, m, strict);
    match crate::textc::ref_type(&o.desc.codepoints(), false) {
        Some(coffer::prelude::Type::Method { .. }) if o.kind == MK::Field => m.clone(),
        Some(_) => o,
        None => m.clone(),
    }
}
fn resplit1(r: &mut Rng, m: &Mem, strict: bool) -> Mem {
    let mut o = m.clone();
    if m.owner.mutf8_len() + m.name.mutf8_len() + m.desc.mutf8_len() > 60_000 { return o }
    let sep = *r.pick(&["", ":", " ", "-", "#", "$", ",", "|", "\0", "_", "."]);
    let sep = if strict && sep == "." { "" } else { sep };
    let paren = m.desc.0.iter().position(|u| *u == 41);
    match (r.below(4), paren) {
        // name + (..) + type
        (0 | 1, Some(p)) if m.desc.0.first() == Some(&40) && m.desc.0[p + 1..] != [86] => {
            o.kind = MK::Field;
            o.name.push(sep);
            o.name.0.extend(&m.desc.0[..=p]);
            o.desc = S(m.desc.0[p + 1..].to_vec());
            if strict && o.name.0.iter().any(|u| *u < 0x80 && ".;[/<>".contains(*u as u8 as char)) { return m.clone() }
            o
        }
        (0 | 1, None) if !strict && m.desc.0.len() > 1 && m.desc.0[0] == 91 => { o.name.push("["); o.desc.0.remove(0); o }
        // the characters of the name at the end of the owner
        (2, _) if m.name.0.len() > 1 && m.owner.0.first() != Some(&91) => {
            let k = 1 + r.below(m.name.0.len() - 1);
            o.owner.push(sep);
            o.owner.0.extend(&m.name.0[..k]);
            o.name = S(m.name.0[k..].to_vec());
            if strict && (o.owner.has_lone() || o.name.has_lone() || o.owner.0.iter().any(|u| [46, 58, 59, 60, 62].contains(u))) { return m.clone() }
            o
        }
        // owner, sep + name or owner + sep, name
        _ if m.owner.0.first() != Some(&91) && !sep.is_empty() && sep != ":" => {
            if r.chance(1, 2) { o.owner.push(sep) } else { o.name = S::from(sep).cat(&m.name) }
            o
        }
        _ => o,
    }
}
