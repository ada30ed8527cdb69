//! C24: classes changed between reading and writing; and the debug-information part of C15.
use crate::ctx::*;
use crate::enc;
use crate::gen::{G, P};
use crate::model::*;
use crate::pipe::*;
use crate::rcls::decode;
use crate::rng::Rng;
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::{Catch, ClassAttribute, Code as CCode, CodeAttribute, FieldAttribute, Instruction, JumpCondition, Label, LocalVariable, MethodAttribute, OrDynamic, Type};
use once_cell::sync::OnceCell;
use std::collections::HashMap;
use std::sync::Arc;

fn gen_class(r: &mut Rng) -> Class {
    let p = match r.below(5) { 0 => P::code(r), 1 => P::debug(r), 2 => P::dynamic(r), _ => P::mixed(r) };
    let k = if r.chance(1, 10) { G::new(r, p) } else { G::small(r, p) }.class();
    if r.chance(1, 2) { let o = enc::Opt::random(r); if let Ok(b) = enc::encode(&k, &o, r) { if let Ok(m) = read(&b) { return m } } }
    let t = r.chance(1, 2);
    build(&k, r, t)
}
fn codes(m: &mut Class) -> Vec<&mut CCode> { m.methods.iter_mut().flat_map(|m| m.attributes.iter_mut()).filter_map(|a| if let MethodAttribute::Code(c) = a { Some(c) } else { None }).collect() }
fn real(i: &Instruction) -> bool { !matches!(i, Instruction::Label(_) | Instruction::LineNumber(_)) }
fn has_label(i: &Instruction) -> bool { matches!(i, Instruction::Label(_) | Instruction::Jump(..) | Instruction::Jsr(_) | Instruction::TableSwitch { .. } | Instruction::LookupSwitch { .. }) }
fn placed(c: &CCode) -> Vec<Label> { c.code.iter().filter_map(|i| if let Instruction::Label(l) = i { Some(*l) } else { None }).collect() }
fn fresh(c: &CCode) -> u32 { placed(c).iter().map(|l| l.0).max().map_or(0, |m| m.wrapping_add(1)) }
fn each_label(i: &mut Instruction, f: &mut dyn FnMut(&mut Label)) {
    match i {
        Instruction::Label(l) | Instruction::Jump(_, l) | Instruction::Jsr(l) => f(l),
        Instruction::TableSwitch { default, offsets, .. } => { f(default); offsets.iter_mut().for_each(f) }
        Instruction::LookupSwitch { default, table } => { f(default); table.values_mut().for_each(f) }
        _ => {}
    }
}
fn dynamics(m: &mut Class) -> Vec<&mut coffer::prelude::Dynamic> {
    codes(m).into_iter().flat_map(|c| c.code.iter_mut()).filter_map(|i| match i { Instruction::InvokeDynamic(d) => Some(d), Instruction::Push(OrDynamic::Dynamic(d)) => Some(d), _ => None }).collect()
}
fn code_edit(c: &mut CCode, donor: &mut Class, r: &mut Rng) -> &'static str {
    let at = r.below(c.code.len() + 1);
    match r.below(17) {
        0 => { let n = if r.chance(1, 60) { 20_000 + r.below(25_000) } else { 1 + r.below(300) }; c.code.splice(at..at, std::iter::repeat(Instruction::NoOp).take(n)); "insert_nops" }
        1 | 2 => { if c.code.iter().filter(|i| real(i)).count() < 2 { return "none" } for _ in 0..1 + r.below(3) { let k = r.below(c.code.len().max(1)); if c.code.get(k).map_or(false, real) { c.code.remove(k); } } "remove_instruction" }
        3 => {
            // a fragment of another body, with its labels renamed; jumps out of it are sent to labels of this body
            let mut dc = codes(donor);
            if dc.is_empty() { return "none" }
            let k = r.below(dc.len());
            let d = &mut *dc[k];
            if d.code.is_empty() { return "none" }
            let a = r.below(d.code.len());
            let b = a + r.below(d.code.len() - a + 1).min(40);
            let mut frag: Vec<Instruction> = d.code[a..b].to_vec();
            let here = placed(c);
            let mut next = fresh(c);
            let mut map: HashMap<Label, Label> = HashMap::new();
            for i in &frag { if let Instruction::Label(l) = i { map.insert(*l, Label(next)); next += 1 } }
            let mine: Vec<Label> = map.values().copied().collect();
            if here.is_empty() && mine.is_empty() { frag.retain(|i| !has_label(i)) }
            for i in frag.iter_mut() { each_label(i, &mut |l| *l = match map.get(l) { Some(x) => *x, None => if here.is_empty() { *r.pick(&mine) } else { *r.pick(&here) } }) }
            c.code.splice(at..at, frag);
            "insert_fragment"
        }
        4 => { let v = placed(c); if v.is_empty() { return "none" } for i in c.code.iter_mut() { if !matches!(i, Instruction::Label(_)) && r.chance(1, 3) { each_label(i, &mut |l| *l = *r.pick(&v)) } } "retarget" }
        5 => { let l = Label(fresh(c)); c.code.insert(at, Instruction::Label(l)); let at2 = r.below(c.code.len() + 1); let k = *r.pick(&CONDS); c.code.insert(at2, if r.chance(1, 5) { Instruction::Jsr(l) } else { Instruction::Jump(k, l) }); "add_jump" }
        6 => { let a = Label(fresh(c)); c.code.insert(at, Instruction::Label(a)); let mut v = placed(c); v.push(a); let n = r.below(6); let i = if r.chance(1, 2) { Instruction::TableSwitch { default: *r.pick(&v), low: r.b32().min(i32::MAX - 10), offsets: (0..=n).map(|_| *r.pick(&v)).collect() } } else { Instruction::LookupSwitch { default: *r.pick(&v), table: (0..n).map(|_| (r.b32(), *r.pick(&v))).collect() } }; let at2 = r.below(c.code.len() + 1); c.code.insert(at2, i); "add_switch" }
        7 => { let ls: Vec<usize> = (0..c.code.len()).filter(|k| matches!(c.code[*k], Instruction::Label(_))).collect(); if ls.is_empty() { return "none" } let k = *r.pick(&ls); let l = c.code.remove(k); let to = r.below(c.code.len() + 1); c.code.insert(to, l); "move_label" }
        8 => { for _ in 0..1 + r.below(3) { let k = r.below(c.code.len() + 1); c.code.insert(k, Instruction::LineNumber(r.b16())) } "add_line" }
        9 => { c.code.retain(|i| !matches!(i, Instruction::LineNumber(_)) || r.chance(1, 2)); "remove_lines" }
        10 => {
            let v = placed(c);
            if v.len() < 2 { return "none" }
            let k = Catch { start: *r.pick(&v), end: *r.pick(&v), handler: *r.pick(&v), catch: if r.chance(1, 2) { None } else { Some(w_of(&"new/Caught".into())) } };
            let at = r.below(c.catches.len() + 1);
            c.catches.insert(at, k);
            "add_catch"
        }
        11 => { if c.catches.is_empty() { return "none" } let k = r.below(c.catches.len()); if r.chance(1, 2) { c.catches.remove(k); "remove_catch" } else { let j = r.below(c.catches.len()); c.catches.swap(k, j); "swap_catches" } }
        12 => { c.max_stack = r.b16(); c.max_locals = r.b16(); "limits" }
        13 => {
            let v = placed(c);
            if v.is_empty() { return "none" }
            let l = LocalVariable { start: *r.pick(&v), end: *r.pick(&v), name: w_of(&(*r.pick(&["nv", "x", "this", "\u{e9}\u{1F600}"])).into()), descriptor: Some(Type::Long), signature: None, index: r.b16() };
            match c.attrs.iter_mut().find_map(|a| if let CodeAttribute::LocalVariables(v) = a { Some(v) } else { None }) { Some(v) => v.push(l), None => c.attrs.push(CodeAttribute::LocalVariables(vec![l])) }
            "add_variable"
        }
        14 => { for a in c.attrs.iter_mut() { if let CodeAttribute::LocalVariables(v) = a { r.shuffle(v); if v.len() > 1 && r.chance(1, 2) { v.pop(); } } } "change_variables" }
        15 => { if c.code.is_empty() { return "none" } let dc: Vec<Instruction> = codes(donor).into_iter().flat_map(|c| c.code.iter()).filter(|i| !has_label(i)).cloned().collect(); if dc.is_empty() { return "none" } for _ in 0..1 + r.below(4) { let k = r.below(c.code.len()); if real(&c.code[k]) { c.code[k] = r.pick(&dc).clone() } } "replace_instruction" }
        _ => {
            let a = r.below(c.code.len() + 1);
            let b = r.below(c.code.len() + 1);
            let (a, b) = (a.min(b), a.max(b));
            // copy a straight piece of this body, without its labels
            let frag: Vec<Instruction> = c.code[a..b].iter().filter(|i| !matches!(i, Instruction::Label(_))).take(100).cloned().collect();
            c.code.splice(at..at, frag);
            "copy_fragment"
        }
    }
}
fn ann_edit(a: &mut Annotation, r: &mut Rng) {
    let v = match r.below(6) { 0 => AnnotationValue::Int(r.b32()), 1 => AnnotationValue::String(w_of(&"edited".into())), 2 => AnnotationValue::Array(vec![AnnotationValue::Byte(r.u8() as i8), AnnotationValue::Class(None)]), 3 => AnnotationValue::Long(r.b64()), 4 => AnnotationValue::Boolean(r.chance(1, 2)), _ => AnnotationValue::Annotation(a.clone()) };
    match r.below(3) {
        0 => { a.element_values.insert(w_of(&(*r.pick(&["value", "k", "zz", "\u{0}"])).into()), v); }
        1 => { if let Some(k) = a.element_values.keys().min().cloned() { a.element_values.insert(k, v); } }
        _ => { if let Some(k) = a.element_values.keys().max().cloned() { a.element_values.remove(&k); } }
    }
}
fn anns(m: &mut Class) -> Vec<&mut Vec<Annotation>> {
    let mut v = vec![];
    for a in m.attributes.iter_mut() { if let ClassAttribute::RuntimeVisibleAnnotations(x) | ClassAttribute::RuntimeInvisibleAnnotations(x) = a { v.push(x) } }
    for f in m.fields.iter_mut() { for a in f.attrs.iter_mut() { if let FieldAttribute::RuntimeVisibleAnnotations(x) | FieldAttribute::RuntimeInvisibleAnnotations(x) = a { v.push(x) } } }
    for f in m.methods.iter_mut() { for a in f.attributes.iter_mut() { if let MethodAttribute::RuntimeVisibleAnnotations(x) | MethodAttribute::RuntimeInvisibleAnnotations(x) = a { v.push(x) } } }
    v
}
fn edit(m: &mut Class, donor: &mut Class, r: &mut Rng) -> &'static str {
    match r.below(24) {
        0 => { m.name = donor.name.clone(); m.super_name = if r.chance(1, 5) { None } else { Some(w_of(&"edit/Super".into())) }; "rename" }
        1 => { if r.chance(1, 2) && !m.interfaces.is_empty() { let k = r.below(m.interfaces.len()); m.interfaces.remove(k); } else { let k = r.below(m.interfaces.len() + 1); m.interfaces.insert(k, w_of(&(*r.pick(&["I1", "I2", "java/lang/Object"])).into())) } "interfaces" }
        2 | 3 => { if donor.methods.is_empty() { return "none" } let x = r.pick(&donor.methods).clone(); let k = r.below(m.methods.len() + 1); m.methods.insert(k, x); "take_method" }
        4 => { if donor.fields.is_empty() { return "none" } let x = r.pick(&donor.fields).clone(); let k = r.below(m.fields.len() + 1); m.fields.insert(k, x); "take_field" }
        5 => { if m.methods.is_empty() { return "none" } let k = r.below(m.methods.len()); if r.chance(1, 2) { m.methods.remove(k); "remove_method" } else { let x = m.methods[k].clone(); m.methods.push(x); "copy_method" } }
        6 => { r.shuffle(&mut m.fields); r.shuffle(&mut m.methods); "reorder_members" }
        7 => { std::mem::swap(&mut m.attributes, &mut donor.attributes); "take_attributes" }
        8 => { r.shuffle(&mut m.attributes); if r.chance(1, 2) { m.attributes.pop(); } "reorder_attributes" }
        9 => { m.access = donor.access; m.version = donor.version; "flags" }
        10 => { for a in m.attributes.iter_mut() { if let ClassAttribute::BootstrapMethods(b) = a { match r.below(4) { 0 => r.shuffle(b), 1 => { b.pop(); } 2 => { if let Some(x) = b.first().cloned() { b.push(x) } } _ => b.clear() } return "bootstrap_table" } } m.attributes.push(ClassAttribute::BootstrapMethods(vec![])); "bootstrap_table" }
        11 => { m.attributes.retain(|a| !matches!(a, ClassAttribute::BootstrapMethods(_))); "remove_bootstrap_table" }
        12 => {
            // change one dynamic's bootstrap method, leaving the others that shared it alone
            let mut v = dynamics(m);
            if v.is_empty() { return "none" }
            let k = r.below(v.len());
            let mut b = match v[k].bsm.get() { Some(b) => b.clone(), None => return "none" };
            match r.below(3) { 0 => b.arguments.push(OrDynamic::Static(coffer::prelude::Constant::I32(r.b32()))), 1 => { b.arguments.pop(); } _ => { let d = v[r.below(v.len())].clone(); if r.chance(1, 3) { b.arguments.insert(0, OrDynamic::Dynamic(d)) } } }
            v[k].bsm = Arc::new(OnceCell::from(b));
            "change_bootstrap"
        }
        13 => { let mut v = dynamics(m); if v.len() < 2 { return "none" } let (a, b) = (r.below(v.len()), r.below(v.len())); let s = v[a].bsm.clone(); v[b].bsm = s; v[b].name = w_of(&"shared".into()); "share_bootstrap" }
        14 | 15 => { let mut v = anns(m); if v.is_empty() { return "none" } let k = r.below(v.len()); let x = &mut *v[k]; match r.below(4) { 0 => { x.pop(); } 1 => r.shuffle(x), _ => if !x.is_empty() { let k = r.below(x.len()); ann_edit(&mut x[k], r) } } "annotations" }
        _ => { let mut v = codes(m); if v.is_empty() { return "none" } let k = r.below(v.len()); code_edit(v[k], donor, r) }
    }
}
/// The reference meaning of a model, if that is something a class file can say.
fn meaning(m: &Class, r: &mut Rng) -> Option<crate::rcls::Cls> {
    let n = norm(m).ok()?;
    use crate::rcls::{A, T};
    for x in &n.methods { for a in &x.attrs { if let A::Code(k) = a {
        if k.lvt.iter().chain(&k.lvtt).any(|v| v.0 > v.1) { return None }
        // one variable described twice in a table is no class a JVM takes
        for t in [&k.lvt, &k.lvtt] { let mut s = std::collections::HashSet::new(); if !t.iter().all(|v| s.insert((v.0, v.1, v.2, &v.3))) { return None } }
        for a in &k.attrs { if let A::TAnns(_, v) = a { for t in v { match &t.target { T::Local(_, l) if l.iter().any(|x| x.0 > x.1) => return None, T::Catch(h) if !k.handlers.contains(h) => return None, _ => {} } } } }
    } } }
    // an annotation of a handler that is gone, even if another one with labels at the same places is left
    for x in &m.methods { for a in &x.attributes { if let MethodAttribute::Code(k) = a { for a in &k.attrs { if let CodeAttribute::VisibleTypeAnnotations(v) | CodeAttribute::InvisibleTypeAnnotations(v) = a { for t in v { if let CodeTypeAnnotationTarget::CatchParameter(h) = &t.target { if !k.catches.contains(h) { return None } } } } } } } }
    let b = enc::encode(&n, &enc::Opt::plain(), r).ok()?;
    decode(&b).ok()?;
    Some(n)
}
pub fn c24(c: &mut Ctx) {
    let n = c.n(14_000, 300_000);
    c.cases("edit", n, |c, r| {
        let mut m = gen_class(r);
        let mut donor = gen_class(r);
        let mut log: Vec<&str> = vec![];
        for _ in 0..1 + r.below(5) {
            for _ in 0..1 + r.below(8) {
                let mut t = m.clone();
                let mut d = donor.clone();
                let w = edit(&mut t, &mut d, r);
                if w == "none" { continue }
                if codes(&mut t).iter().map(|c| c.code.len()).sum::<usize>() > 60_000 { continue }
                if meaning(&t, r).is_none() { c.inc("edits_undone_not_a_class"); continue }
                m = t;
                donor = d;
                c.inc(&format!("edit_{w}"));
                log.push(w);
            }
            let Some(want) = meaning(&m, r) else { return Ok(()) };
            let w = write(&m).map_err(|e| format!("after {log:?}: {e}"))?;
            let d = decode(&w).map_err(|e| format!("after {log:?} the file written is invalid: {e}"))?;
            cmp(&format!("content written after {log:?}"), &want, &d, all)?;
            in_order(&format!("content written after {log:?}"), &want, &d, all)?;
            let m2 = read(&w).map_err(|e| format!("after {log:?}: {e}"))?;
            cmp(&format!("content read back after {log:?}"), &want, &norm(&m2)?, all)?;
            c.inc("writes");
            c.add("edits", log.len() as u64);
            if r.chance(2, 3) { m = m2; log.push("reread") }
        }
        c.seen(&log);
        c.sample("edit", || format!("{log:?}"));
        Ok(())
    });
}
/// Debug information when the code around it changes.
pub fn around(c: &mut Ctx) {
    let n = c.n(4000, 60_000);
    c.cases("around", n, |c, r| {
        let p = P::debug(r);
        let k = G::new(r, p).class();
        let mut m = if r.chance(1, 2) { let o = enc::Opt::random(r); match enc::encode(&k, &o, r) { Ok(b) => read(&b)?, Err(_) => return Ok(()) } } else { build(&k, r, false) };
        let big = r.chance(1, 20);
        let mut what = vec![];
        for b in codes(&mut m) {
            for _ in 0..1 + r.below(4) {
                let at = match r.below(4) { 0 => 0, 1 => b.code.len(), _ => r.below(b.code.len() + 1) };
                let n = if big && r.chance(1, 2) { 10_000 + r.below(12_000) } else { 1 + r.below(40) };
                let i = match r.below(3) { 0 => Instruction::NoOp, 1 => Instruction::IntIncrement(300, 5), _ => Instruction::Swap };
                what.push((at, n));
                b.code.splice(at..at, std::iter::repeat(i).take(n));
            }
            // and take some instructions away
            if r.chance(1, 2) { let mut k = r.below(3); b.code.retain(|i| { if k > 0 && matches!(i, Instruction::Swap | Instruction::NoOp) { k -= 1; false } else { true } }) }
            if r.chance(1, 4) { if let Some(l) = placed(b).first().copied() { let at = r.below(b.code.len() + 1); b.code.insert(at, Instruction::Jump(JumpCondition::IsNull, l)) } }
        }
        let Some(want) = meaning(&m, r) else { c.inc("around_not_a_class"); return Ok(()) };
        c.inc(if big { "around_large" } else { "around_small" });
        c.seen(&what);
        let w = write(&m)?;
        let d = decode(&w).map_err(|e| format!("file written is invalid: {e}"))?;
        cmp("debug information written after inserting code", &want, &d, p_debug)?;
        in_order("debug information written after inserting code", &want, &d, p_debug)?;
        cmp("debug information read back", &want, &norm(&read(&w)?)?, p_debug)
    });
}
