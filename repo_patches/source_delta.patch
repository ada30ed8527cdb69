From f40caa63f2861b8aa0de276180d4b7b29fe3053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:30 +0000
Subject: [PATCH 01/19] fix: write putstatic for static field stores

---
 src/code/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 0ed456d..3f1748d 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -758,7 +758,7 @@ impl Conv {
                     (GetOrPut::Get, MemberType::Virtual) => GETFIELD,
                     (GetOrPut::Put, MemberType::Virtual) => PUTFIELD,
                     (GetOrPut::Get, MemberType::Static) => GETSTATIC,
-                    (GetOrPut::Put, MemberType::Static) => GETSTATIC,
+                    (GetOrPut::Put, MemberType::Static) => PUTSTATIC,
                 }
                 .write_to(&mut cursor)?;
                 cp.insert_ordynamic(mem.clone(), ConstantPoolWriter::insert_member)
-- 
2.43.0


From 982d326e01278cb9303adf4095215ca890f376f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:54 +0000
Subject: [PATCH 02/19] fix: write and read array creation instructions
 faithfully

---
 src/code/convert.rs | 77 +++++++++++++++++++++++++++++++++++++++++++--
 src/dynamic.rs      | 10 ++++++
 2 files changed, 84 insertions(+), 3 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 3f1748d..c17acc8 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -356,7 +356,14 @@ impl Conv {
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
                 )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                .try_map_static(|c| {
+                    // the operand names the component class, only arrays are spelled as descriptors
+                    if c.codepoints().next().map_or(false, |x| x == '[') {
+                        parse_type(&c)
+                    } else {
+                        Ok(Type::Ref(c))
+                    }
+                })?,
                 1,
             ),
             I::MultiANewArray(r, dim) => NewArray(
@@ -364,7 +371,23 @@ impl Conv {
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
                 )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                .try_map_static(|c| match (parse_type(&c)?, dim) {
+                    // Allocating a single dimension is represented by the component type.
+                    (Type::ArrayRef(1, t), 1) => Ok(*t),
+                    (Type::ArrayRef(d, t), 1) => Ok(Type::ArrayRef(d - 1, t)),
+                    (Type::ArrayRef(d, t), 2..=u8::MAX) if d >= dim => Ok(Type::ArrayRef(d, t)),
+                    _ => Err(Error::Invalid(
+                        "dimensions of multianewarray",
+                        dim.to_string().into(),
+                    )),
+                })
+                .and_then(|t| match (t, dim) {
+                    (OrDynamic::Dynamic(_), 0 | 1) => Err(Error::Invalid(
+                        "dimensions of multianewarray",
+                        dim.to_string().into(),
+                    )),
+                    (t, _) => Ok(t),
+                })?,
                 dim,
             ),
             I::CheckCast(r) => CheckCast(
@@ -698,7 +721,55 @@ impl Conv {
                 cp.insert_ordynamic(ty.clone(), |w, x| w.insert_class(x))
                     .write_to(&mut cursor)?;
             }
-            Instruction::NewArray(_, _) => {}
+            Instruction::NewArray(OrDynamic::Static(ref ty), 1) => {
+                let primitive: u8 = match ty {
+                    Type::Boolean => 4,
+                    Type::Char => 5,
+                    Type::Float => 6,
+                    Type::Double => 7,
+                    Type::Byte => 8,
+                    Type::Short => 9,
+                    Type::Int => 10,
+                    Type::Long => 11,
+                    Type::Ref(_) | Type::ArrayRef(_, _) => 0,
+                    Type::Method { .. } => {
+                        return Err(Error::Invalid("array component", ty.to_string().into()))
+                    }
+                };
+                if primitive != 0 {
+                    NEWARRAY.write_to(&mut cursor)?;
+                    primitive.write_to(&mut cursor)?;
+                } else {
+                    ANEWARRAY.write_to(&mut cursor)?;
+                    let class = match ty {
+                        Type::Ref(c) => c.clone(),
+                        ty => Cow::Owned(ty.into()),
+                    };
+                    cp.insert_class(class).write_to(&mut cursor)?;
+                }
+            }
+            Instruction::NewArray(OrDynamic::Static(ref ty @ Type::ArrayRef(d, _)), dim)
+                if dim >= 2 && dim <= d =>
+            {
+                MULTIANEWARRAY.write_to(&mut cursor)?;
+                cp.insert_class(Cow::Owned(ty.into()))
+                    .write_to(&mut cursor)?;
+                dim.write_to(&mut cursor)?;
+            }
+            Instruction::NewArray(OrDynamic::Dynamic(ref d), dim @ 1..=u8::MAX) => {
+                let idx = cp.insert_dynamic(d.clone());
+                if dim == 1 {
+                    ANEWARRAY.write_to(&mut cursor)?;
+                    idx.write_to(&mut cursor)?;
+                } else {
+                    MULTIANEWARRAY.write_to(&mut cursor)?;
+                    idx.write_to(&mut cursor)?;
+                    dim.write_to(&mut cursor)?;
+                }
+            }
+            Instruction::NewArray(_, dim) => {
+                return Err(Error::Invalid("array dimensions", dim.to_string().into()))
+            }
             Instruction::Monitor(MonitorOperation::Enter) => MONITORENTER.write_to(&mut cursor)?,
             Instruction::Monitor(MonitorOperation::Exit) => MONITOREXIT.write_to(&mut cursor)?,
             Instruction::Conversion(NumberType::Long, NumberType::Int) => {
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 3a64676..a96a968 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -113,6 +113,16 @@ impl<T> OrDynamic<T> {
             Self::Static(t) => OrDynamic::Static(f(t)),
         }
     }
+
+    pub(crate) fn try_map_static<F, N>(self, f: F) -> Result<OrDynamic<N>>
+    where
+        F: FnOnce(T) -> Result<N>,
+    {
+        Ok(match self {
+            Self::Dynamic(d) => OrDynamic::Dynamic(d),
+            Self::Static(t) => OrDynamic::Static(f(t)?),
+        })
+    }
 }
 
 impl<T> From<Dynamic> for OrDynamic<T> {
-- 
2.43.0


From b8af76bf884b49b26d54befad0e3782aabcc8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:01 +0000
Subject: [PATCH 03/19] fix: lay out jumps so that every target is reached and
 refuse code that is too long

---
 src/code.rs | 191 +++++++++++++++++++++++++++-------------------------
 1 file changed, 100 insertions(+), 91 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 716b6c7..473771c 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -281,28 +281,10 @@ impl ConstantPoolReadWrite for Code {
             )?;
         }
         buf.push(cursor.into_inner());
-        let mut index_hints = Vec::new();
-        let mut last_max_index = 0usize;
-        let mut buf_iter = buf.iter();
-        // Get minimum/maximum starting index of the next buffer, that is: index_hints[n] is max of buf[n + 1] resulting index.
-        for j in &jumps {
-            let this_size_max = 1 + match *j {
-                Instruction::LookupSwitch { default: _, table } => 11 + table.len() * 8,
-                Instruction::TableSwitch {
-                    default: _,
-                    low: _,
-                    offsets,
-                } => 15 + offsets.len() * 4, // +3 alignment
-                Instruction::Jsr(_) | Instruction::Jump(JumpCondition::Always, _) => 4, // goto_w/jsr_w i32
-                Instruction::Jump(_, _) => 7, // conditional jumps can't be wide, so there must be a conversion.
-                // other variants are not inserted
-                _ => unreachable!(),
-            };
-            last_max_index += this_size_max + buf_iter.next().unwrap().len();
-            index_hints.push(last_max_index);
-        }
         /*
-        determine the actual size by partially resolving the label through index_hints
+        determine the actual size of each jump: start with every jump in its short form and lay out
+        the code, then widen the jumps that do not reach their target and repeat. Widening a jump
+        never moves code backwards, so the loop ends with every target being reachable.
             Optimize for possible non-wide jumps, and convert conditional jumps to make it wide-compatible:
             such as:
                 ifnull far_away
@@ -313,75 +295,91 @@ impl ConstantPoolReadWrite for Code {
                 cont:
                     ops
         */
-        // Where the elements of `buf` end up.
-        let mut actual_indices = Vec::new();
-        // the index at the opcode byte of the jump instruction.
-        let mut last_idx = 0;
-        buf_iter = buf.iter();
-        let mut sizes_of_jump_insns = Vec::new();
-        for j in &jumps {
-            last_idx += buf_iter.next().unwrap().len();
-            let actual_size = 1 + match *j {
-                Instruction::LookupSwitch { default: _, table } => {
-                    // Here, `last_idx` is the opcode byte, and `last_idx + 1` is where the
-                    // default target begins if there was no padding.
-
-                    // Calculate the modulus and find the padding.
-                    // 0 1 2 3 4
-                    // * * * * x -> * * * * x (0 -> 0)
-                    // * * * x   -> * * * p x (3 -> 1)
-                    // * * x     -> * * p p x (2 -> 2)
-                    // * x       -> * p p p x (1 -> 3)
-
-                    let modulus = (last_idx + 1) % 4;
-                    let padding = if modulus == 0 { 0 } else { 4 - modulus };
-                    padding + 8 + table.len() * 8
-                }
-                Instruction::TableSwitch {
-                    default: _,
-                    low: _,
-                    offsets,
-                } => {
-                    // see comments above for finding the padding.
-                    let modulus = (last_idx + 1) % 4;
-                    let padding = if modulus == 0 { 0 } else { 4 - modulus };
-                    padding + 12 + offsets.len() * 4
-                }
-                Instruction::Jsr(target) | Instruction::Jump(JumpCondition::Always, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
-                        2
-                    } else {
-                        4
+        let mut wide_jumps = vec![false; jumps.len()];
+        let (code_len, actual_indices, sizes_of_jump_insns) = loop {
+            // Where the elements of `buf` end up.
+            let mut actual_indices = Vec::with_capacity(jumps.len());
+            // the index at the opcode byte of the jump instruction.
+            let mut last_idx = 0;
+            let mut buf_iter = buf.iter();
+            let mut sizes_of_jump_insns = Vec::with_capacity(jumps.len());
+            for (j, wide) in jumps.iter().zip(&wide_jumps) {
+                last_idx += buf_iter.next().unwrap().len();
+                let actual_size = 1 + match *j {
+                    Instruction::LookupSwitch { default: _, table } => {
+                        // Here, `last_idx` is the opcode byte, and `last_idx + 1` is where the
+                        // default target begins if there was no padding.
+
+                        // Calculate the modulus and find the padding.
+                        // 0 1 2 3 4
+                        // * * * * x -> * * * * x (0 -> 0)
+                        // * * * x   -> * * * p x (3 -> 1)
+                        // * * x     -> * * p p x (2 -> 2)
+                        // * x       -> * p p p x (1 -> 3)
+
+                        let modulus = (last_idx + 1) % 4;
+                        let padding = if modulus == 0 { 0 } else { 4 - modulus };
+                        padding + 8 + table.len() * 8
                     }
-                }
-                Instruction::Jump(_, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
-                        2
-                    } else {
-                        7
+                    Instruction::TableSwitch {
+                        default: _,
+                        low: _,
+                        offsets,
+                    } => {
+                        // see comments above for finding the padding.
+                        let modulus = (last_idx + 1) % 4;
+                        let padding = if modulus == 0 { 0 } else { 4 - modulus };
+                        padding + 12 + offsets.len() * 4
                     }
+                    Instruction::Jsr(_) | Instruction::Jump(JumpCondition::Always, _) => {
+                        if *wide {
+                            4 // goto_w/jsr_w i32
+                        } else {
+                            2
+                        }
+                    }
+                    Instruction::Jump(_, _) => {
+                        if *wide {
+                            7 // conditional jumps can't be wide, so there must be a conversion.
+                        } else {
+                            2
+                        }
+                    }
+                    // SAFETY: other variants are not inserted
+                    _ => unreachable!(),
+                };
+                last_idx += actual_size;
+                sizes_of_jump_insns.push(actual_size);
+                actual_indices.push(last_idx);
+            }
+            // The index of the second last `buf` element + length of last element.
+            let code_len = buf_iter.next().unwrap().len() + last_idx;
+            if code_len > u16::MAX as usize {
+                return Err(Error::Invalid("code length", code_len.to_string().into()));
+            }
+
+            let mut changed = false;
+            for (i, j) in jumps.iter().enumerate() {
+                let target = match *j {
+                    Instruction::Jsr(target) | Instruction::Jump(_, target) => target,
+                    _ => continue,
+                };
+                let (buf_idx, buf_off) = get_label!(target);
+                let target_off = if buf_idx != 0 {
+                    actual_indices[buf_idx - 1]
+                } else {
+                    0
+                } + buf_off;
+                let jump_off = actual_indices[i] - sizes_of_jump_insns[i];
+                if !wide_jumps[i] && i16::try_from(target_off as i64 - jump_off as i64).is_err() {
+                    wide_jumps[i] = true;
+                    changed = true;
                 }
-                // SAFETY: other variants are not inserted
-                _ => unreachable!(),
-            };
-            last_idx += actual_size;
-            sizes_of_jump_insns.push(actual_size);
-            actual_indices.push(last_idx);
-        }
-        // The index of the second last `buf` element + length of last element.
-        let code_len = (buf_iter.next().unwrap().len() + last_idx) as u32;
+            }
+            if !changed {
+                break (code_len as u32, actual_indices, sizes_of_jump_insns);
+            }
+        };
         code_len.write_to(writer)?; // u4 code_length
         let mut jumps_iter = jumps.into_iter();
         let mut buf_iter = buf.into_iter();
@@ -405,7 +403,9 @@ impl ConstantPoolReadWrite for Code {
             macro_rules! wide {
                 ($label: ident, $off: ident => $non_wide: expr, $wide: expr) => {{
                     let $off = resolve_label!($label);
-                    if let Ok($off) = i16::try_from($off) {
+                    if !wide_jumps[i] {
+                        // narrow jumps were checked to reach their target
+                        let $off = $off as i16;
                         $non_wide
                     } else {
                         $wide
@@ -441,8 +441,15 @@ impl ConstantPoolReadWrite for Code {
                     let padding = if modulus == 0 { 0 } else { 4 - modulus };
                     writer.write_all(&vec![0; padding])?; // proper 4 byte alignment
                     write_to!(&resolve_label!(default), writer)?;
+                    let high = i32::try_from(offsets.len())
+                        .ok()
+                        .filter(|len| *len > 0)
+                        .and_then(|len| low.checked_add(len - 1))
+                        .ok_or_else(|| {
+                            Error::Invalid("tableswitch size", offsets.len().to_string().into())
+                        })?;
                     write_to!(low, writer)?;
-                    write_to!(&(low + (offsets.len() - 1) as i32), writer)?;
+                    write_to!(&high, writer)?;
                     for l in offsets {
                         write_to!(&resolve_label!(l), writer)?;
                     }
@@ -472,9 +479,11 @@ impl ConstantPoolReadWrite for Code {
                     }, {
                         // JumpCondition::Always is matched before this
                         u8::write_to(&(-cond).unwrap().into(), writer)?;
-                        write_to!(&5i32, writer)?;
+                        // skip over this instruction and the goto_w
+                        write_to!(&8i16, writer)?;
                         GOTO_W.write_to(writer)?;
-                        write_to!(&off, writer)?;
+                        // the goto_w begins after the inverted jump
+                        write_to!(&(off - 3), writer)?;
                     })
                 }
                 // other variants are not inserted
-- 
2.43.0


From ee43cf527bfab584266c60a8e142419e21202b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:59 +0000
Subject: [PATCH 04/19] fix: keep every line number and write them as a
 LineNumberTable

---
 src/code.rs         | 54 ++++++++++++++++++++++++++++++++-------------
 src/code/convert.rs |  4 ++--
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 473771c..cf84df2 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -157,7 +157,12 @@ impl ConstantPoolReadWrite for Code {
             match CodeAttr::read_from(&mut labeler, reader)? {
                 CodeAttr::LineNumberTable(ln) => {
                     for self::LineNumber(off, line) in ln {
-                        to_insert.insert(pos2idx[&(off as u32)], vec![LineNumber(line)]);
+                        to_insert
+                            .entry(*pos2idx.get(&(off as u32)).ok_or_else(|| {
+                                Error::Invalid("line number position", off.to_string().into())
+                            })?)
+                            .or_default()
+                            .push(LineNumber(line));
                     }
                 }
                 CodeAttr::LocalVariableTable(localvar) => {
@@ -221,8 +226,6 @@ impl ConstantPoolReadWrite for Code {
                 local_vars.into_values().collect(),
             ));
         }
-        instructions.reserve(to_insert.len());
-        instructions.reserve(labeler.labels.len());
         for (k, v) in labeler.labels {
             to_insert
                 .entry(
@@ -231,17 +234,22 @@ impl ConstantPoolReadWrite for Code {
                         .ok_or_else(|| Error::Invalid("index", format!("{k}").into()))?,
                 )
                 .or_default()
-                .push(Label(v));
+                // labels come before the line numbers at the same position
+                .insert(0, Label(v));
         }
-        for (k, v) in to_insert.into_iter().rev() {
-            for i in v {
-                instructions.insert(k, i)
-            }
+        let mut code = Vec::with_capacity(
+            instructions.len() + to_insert.values().map(Vec::len).sum::<usize>(),
+        );
+        let end = instructions.len();
+        for (k, i) in instructions.into_iter().enumerate() {
+            code.extend(to_insert.remove(&k).into_iter().flatten());
+            code.push(i);
         }
+        code.extend(to_insert.remove(&end).into_iter().flatten());
         Ok(Code {
             max_stack,
             max_locals,
-            code: instructions,
+            code,
             catches,
             attrs,
         })
@@ -259,7 +267,7 @@ impl ConstantPoolReadWrite for Code {
         let mut buf: Vec<Vec<u8>> = Vec::new();
         let mut jumps: Vec<&Instruction> = Vec::new();
         let mut cursor: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-        let mut line_numbers: HashMap<usize, u16> = HashMap::new();
+        let mut line_numbers: Vec<(usize, usize, u16)> = Vec::new();
         let mut labels: HashMap<Label, (usize, usize)> = HashMap::new();
         macro_rules! get_label {
             ($label: expr) => {
@@ -499,6 +507,17 @@ impl ConstantPoolReadWrite for Code {
             catches: &'a Vec<Catch>,
         }
 
+        impl<'a, T: ConstantPoolWriter> Labeler<'a, T> {
+            /// Where a position in an element of `buf` ended up in the code array.
+            fn position(&self, buf_off: usize, inner_off: usize) -> u16 {
+                (if buf_off == 0 {
+                    0
+                } else {
+                    self.indices[buf_off - 1] as u16
+                }) + (inner_off as u16)
+            }
+        }
+
         impl<'a, T: ConstantPoolWriter> ConstantPoolWriter for Labeler<'a, T> {
             #[inline]
             fn insert_raw(&mut self, value: RawConstantEntry) -> u16 {
@@ -512,11 +531,7 @@ impl ConstantPoolReadWrite for Code {
 
             fn label(&mut self, lbl: &Label) -> u16 {
                 let (buf_off, inner_off) = *self.labels.get(lbl).unwrap();
-                (if buf_off == 0 {
-                    0
-                } else {
-                    self.indices[buf_off - 1] as u16
-                }) + (inner_off as u16)
+                self.position(buf_off, inner_off)
             }
 
             fn catch(&mut self, catch: &Catch) -> Option<u16> {
@@ -610,6 +625,15 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(&mut labeler, &mut attributes_writer)?;
         }
+        if !line_numbers.is_empty() {
+            extra_attrs += 1;
+            let mut table = Vec::with_capacity(line_numbers.len());
+            for (buf_idx, buf_off, line) in line_numbers {
+                let start = labeler.position(buf_idx, buf_off);
+                table.push(LineNumber(start, line));
+            }
+            CodeAttr::LineNumberTable(table).write_to(&mut labeler, &mut attributes_writer)?;
+        }
         (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
diff --git a/src/code/convert.rs b/src/code/convert.rs
index c17acc8..c9cb0ef 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -440,7 +440,7 @@ impl Conv {
         jumps: &mut Vec<&'a Instruction>,
         buf: &mut Vec<Vec<u8>>,
         labels: &mut HashMap<Lbl, (usize, usize)>,
-        line_numbers: &mut HashMap<usize, u16>,
+        line_numbers: &mut Vec<(usize, usize, u16)>,
         insn: &'a Instruction,
         cp: &mut W,
     ) -> Result<Cursor<Vec<u8>>> {
@@ -866,7 +866,7 @@ impl Conv {
             Instruction::Swap => SWAP.write_to(&mut cursor)?,
             Instruction::IntIncrement(l, inc) => wide_or_normal!(IINC, l => u8, inc => i8),
             Instruction::LineNumber(ln) => {
-                line_numbers.insert(cursor.position() as usize, ln);
+                line_numbers.push((buf.len(), cursor.position() as usize, ln));
             }
             Instruction::LookupSwitch { .. }
             | Instruction::TableSwitch { .. }
-- 
2.43.0


From 1af0705becadb7ba972ba32084c6ae9a9514f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:34 +0000
Subject: [PATCH 05/19] fix: keep the order of local variables and do not
 overflow their ranges

---
 src/code.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index cf84df2..bcbc354 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -1,7 +1,6 @@
 //! Structures that represent instructions that will be
 //! executed when a method is called.
 
-use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::hash::Hash;
@@ -19,6 +18,7 @@ mod convert;
 mod structure;
 
 use convert::*;
+use indexmap::map::{Entry, IndexMap};
 use once_cell::sync::OnceCell;
 pub use structure::*;
 use wtf_8::Wtf8Str;
@@ -146,9 +146,9 @@ impl ConstantPoolReadWrite for Code {
 
         // Local variables have two different types of attributes containing
         // information about them. One has descriptor and other has siganture.
-        // A HashMap is used to locate existing local variable data described
+        // An IndexMap is used to locate existing local variable data described
         // by an attribute from before.
-        let mut local_vars: HashMap<LocalVarKey, LocalVar> = HashMap::new();
+        let mut local_vars: IndexMap<LocalVarKey, LocalVar> = IndexMap::new();
 
         #[derive(Hash, Eq, PartialEq)]
         struct LocalVarKey(Lbl, Lbl, u16, Cow<'static, Wtf8Str>);
@@ -168,7 +168,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTable(localvar) => {
                     for l in localvar {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
 
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
@@ -191,7 +191,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTypeTable(vartypes) => {
                     for l in vartypes {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
                             Entry::Occupied(mut e) => {
-- 
2.43.0


From 67d45cc6e649b37aa879c8b22c293486d98b8b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:37 +0000
Subject: [PATCH 06/19] fix: report missing labels, reversed ranges and
 oversized tables of code as errors

---
 src/annotation/type_annotation.rs |  2 +-
 src/code.rs                       | 45 ++++++++++++++++++++++++++-----
 src/code/structure.rs             |  4 +--
 3 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/annotation/type_annotation.rs b/src/annotation/type_annotation.rs
index 78246ae..a9f7889 100644
--- a/src/annotation/type_annotation.rs
+++ b/src/annotation/type_annotation.rs
@@ -74,7 +74,7 @@ impl ConstantPoolReadWrite for LocalVarTarget {
         let start = cp.label(&self.start);
         let end = cp.label(&self.end);
         start.write_to(writer)?;
-        (end - start).write_to(writer)?;
+        crate::code::range_len(start, end)?.write_to(writer)?;
         self.idx.write_to(writer)?;
         Ok(())
     }
diff --git a/src/code.rs b/src/code.rs
index bcbc354..23bbae4 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -32,6 +32,12 @@ pub struct Code {
     pub attrs: Vec<CodeAttribute>,
 }
 
+/// The length of a range in the code array.
+pub(crate) fn range_len(start: u16, end: u16) -> Result<u16> {
+    end.checked_sub(start)
+        .ok_or_else(|| Error::Invalid("code range", format!("{start}..{end}").into()))
+}
+
 impl ConstantPoolReadWrite for Code {
     fn read_from<C: ConstantPoolReader, R: Read>(
         cp: &mut C,
@@ -505,6 +511,8 @@ impl ConstantPoolReadWrite for Code {
             labels: &'a HashMap<Label, (usize, usize)>,
             writer: &'a mut T,
             catches: &'a Vec<Catch>,
+            /// A label that was asked for but is not in the code.
+            missing: Option<Label>,
         }
 
         impl<'a, T: ConstantPoolWriter> Labeler<'a, T> {
@@ -530,8 +538,13 @@ impl ConstantPoolReadWrite for Code {
             }
 
             fn label(&mut self, lbl: &Label) -> u16 {
-                let (buf_off, inner_off) = *self.labels.get(lbl).unwrap();
-                self.position(buf_off, inner_off)
+                match self.labels.get(lbl) {
+                    Some(&(buf_off, inner_off)) => self.position(buf_off, inner_off),
+                    None => {
+                        self.missing.get_or_insert(*lbl);
+                        0
+                    }
+                }
             }
 
             fn catch(&mut self, catch: &Catch) -> Option<u16> {
@@ -542,12 +555,15 @@ impl ConstantPoolReadWrite for Code {
             }
         }
 
-        (self.catches.len() as u16).write_to(writer)?;
+        let catches = u16::try_from(self.catches.len())
+            .map_err(|_| Error::Invalid("catches", self.catches.len().to_string().into()))?;
+        catches.write_to(writer)?;
         let mut labeler = Labeler {
             indices: &actual_indices,
             labels: &labels,
             writer: cp,
             catches: &self.catches,
+            missing: None,
         };
         for Catch {
             start,
@@ -581,9 +597,16 @@ impl ConstantPoolReadWrite for Code {
                     let mut ty: Vec<LocalVarType> = vec![];
                     let mut var: Vec<LocalVar> = vec![];
                     for lc in l {
+                        if lc.descriptor.is_none() && lc.signature.is_none() {
+                            return Err(Error::Invalid(
+                                "local variable",
+                                "no type or descriptor present".into(),
+                            ));
+                        }
                         if let Some(ref desc) = lc.descriptor {
                             let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let end = labeler.label(&lc.end);
+                            let len = range_len(start, end)?;
                             var.push(LocalVar {
                                 start,
                                 len,
@@ -594,7 +617,8 @@ impl ConstantPoolReadWrite for Code {
                         }
                         if let Some(ref sig) = lc.signature {
                             let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let end = labeler.label(&lc.end);
+                            let len = range_len(start, end)?;
                             ty.push(LocalVarType {
                                 start,
                                 len,
@@ -634,7 +658,16 @@ impl ConstantPoolReadWrite for Code {
             }
             CodeAttr::LineNumberTable(table).write_to(&mut labeler, &mut attributes_writer)?;
         }
-        (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
+        if let Some(label) = labeler.missing {
+            return Err(Error::Invalid(
+                "referenced label",
+                label.0.to_string().into(),
+            ));
+        }
+        let attrs = self.attrs.len() + extra_attrs;
+        u16::try_from(attrs)
+            .map_err(|_| Error::Invalid("code attributes", attrs.to_string().into()))?
+            .write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
     }
diff --git a/src/code/structure.rs b/src/code/structure.rs
index e83fc6f..ca7e379 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -456,8 +456,8 @@ impl ConstantPoolReadWrite for Catch {
     ) -> crate::Result<(), Error> {
         match cp.catch(self) {
             Some(off) => off.write_to(writer),
-            // Ignore here because the block was probably removed.
-            None => Ok(()),
+            // The block was probably removed.
+            None => Err(Error::Invalid("catch", format!("{self:?}").into())),
         }
     }
 }
-- 
2.43.0


From 6118ee9ebbf85f30c685da7bf39c268bfdd1a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:42 +0000
Subject: [PATCH 07/19] fix: write and resolve bootstrap methods consistently

---
 src/clazz.rs        |  44 +++++++++-------
 src/code.rs         |   5 ++
 src/code/convert.rs |  10 +++-
 src/cp.rs           | 126 ++++++++++++++++++++++++++++++++++++++++++--
 src/rw.rs           |   9 +++-
 5 files changed, 170 insertions(+), 24 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 9cc40a1..9797336 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -47,12 +47,14 @@ impl ReadWrite for Class {
                 let version = JavaVersion::read_from(reader)?;
                 let mut cp = MapCp::read_from(reader)?;
                 let c = ClassWrapper::read_from(&mut cp, reader)?;
+                let mut bsms: &[BootstrapMethod] = &[];
                 for attr in &c.attributes {
                     if let ClassAttribute::BootstrapMethods(b) = attr {
-                        cp.bootstrap_methods(b)?;
+                        bsms = b;
                         break;
                     }
                 }
+                cp.bootstrap_methods(bsms)?;
                 Ok(Class {
                     version,
                     access: c.access,
@@ -69,14 +71,14 @@ impl ReadWrite for Class {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        let mut bsm = vec![];
+        let mut cp = VecCp::new();
         for a in &self.attributes {
             if let ClassAttribute::BootstrapMethods(b) = a {
-                bsm.extend_from_slice(b);
+                for bsm in b {
+                    cp.insert_bsm(bsm.clone());
+                }
             }
         }
-        let mut cp = VecCp::new();
-        cp.bsm = bsm;
 
         JVM_MAGIC.write_to(writer)?;
         self.version.write_to(writer)?;
@@ -100,33 +102,39 @@ impl ReadWrite for Class {
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        (self.attributes.len() as u16).write_to(&mut buf)?;
+        let mut attributes = 0usize;
+        let mut attr_buf = vec![];
         for a in &self.attributes {
             match a {
                 ClassAttribute::BootstrapMethods(_) => {}
-                _ => a.write_to(&mut cp, &mut buf)?,
+                _ => {
+                    attributes += 1;
+                    a.write_to(&mut cp, &mut attr_buf)?
+                }
             }
         }
         if !cp.bsm.is_empty() {
-            let mut i: u16 = 0;
+            attributes += 1;
             let mut buf2 = vec![];
-            while !cp.bsm.is_empty() {
-                let v = cp.bsm;
-                cp.bsm = vec![];
-                i += v.len() as u16;
-                for bsm in v {
-                    bsm.write_to(&mut cp, &mut buf2)?;
+            for (handle, arguments) in &cp.bsm {
+                handle.write_to(&mut buf2)?;
+                (arguments.len() as u16).write_to(&mut buf2)?;
+                for arg in arguments {
+                    arg.write_to(&mut buf2)?;
                 }
             }
+            let i = cp.bsm.len() as u16;
             write_to!(
                 &Cow::Borrowed(Wtf8Str::new("BootstrapMethods")),
                 &mut cp,
-                &mut buf
+                &mut attr_buf
             )?;
-            (buf2.len() as u32 + 2).write_to(&mut buf)?;
-            i.write_to(&mut buf)?;
-            buf.write_all(&buf2)?;
+            (buf2.len() as u32 + 2).write_to(&mut attr_buf)?;
+            i.write_to(&mut attr_buf)?;
+            attr_buf.write_all(&buf2)?;
         }
+        (attributes as u16).write_to(&mut buf)?;
+        buf.write_all(&attr_buf)?;
         cp.write_to(writer)?;
         writer.write_all(&buf)?;
         Ok(())
diff --git a/src/code.rs b/src/code.rs
index 23bbae4..e067237 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -537,6 +537,11 @@ impl ConstantPoolReadWrite for Code {
                 self.writer.insert_bsm(bsm)
             }
 
+            #[inline]
+            fn insert_bsm_cell(&mut self, cell: &Arc<OnceCell<BootstrapMethod>>) -> u16 {
+                self.writer.insert_bsm_cell(cell)
+            }
+
             fn label(&mut self, lbl: &Label) -> u16 {
                 match self.labels.get(lbl) {
                     Some(&(buf_off, inner_off)) => self.position(buf_off, inner_off),
diff --git a/src/code/convert.rs b/src/code/convert.rs
index c9cb0ef..c92cb47 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -73,8 +73,14 @@ impl Conv {
             I::Bipush(b) => push(Constant::I32(b as i32)),
             I::Sipush(s) => push(Constant::I32(s as i32)),
 
-            I::Ldc(b) => push(try_cp_read_idx!(labeler, b as u16, read_constant)?),
-            I::LdcW(i) | I::Ldc2W(i) => push(try_cp_read_idx!(labeler, i, read_constant)?),
+            I::Ldc(b) => Push(try_cp_read!(
+                b,
+                labeler.read_or_dynamic(b as u16, ConstantPoolReader::read_constant)
+            )?),
+            I::LdcW(i) | I::Ldc2W(i) => Push(try_cp_read!(
+                i,
+                labeler.read_or_dynamic(i, ConstantPoolReader::read_constant)
+            )?),
 
             I::IALoad => Array(Load, ArrayType::Int),
             I::LALoad => Array(Load, ArrayType::Long),
diff --git a/src/cp.rs b/src/cp.rs
index fe44d63..c53733e 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 use once_cell::sync::OnceCell;
 use wtf_8::Wtf8Str;
 
-use crate::prelude::{BootstrapMethod, Read, Result, Write};
+use crate::prelude::{BootstrapMethod, OrDynamic, Read, Result, Write};
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{mod_utf8, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
@@ -114,8 +114,20 @@ pub struct VecCp {
     cache: HashMap<RawConstantEntry, u16>,
     /// Not actual len. (if e.wide 2 else 1 for e in entries) + 1 in pseudocode
     len: u16,
-    pub(crate) bsm: Vec<BootstrapMethod>,
+    /// The bootstrap methods table: the handle and the arguments as indices to the constant pool.
+    pub(crate) bsm: Vec<(u16, Vec<u16>)>,
+    bsm_cache: HashMap<(u16, Vec<u16>), u16>,
+    /// Bootstrap methods inserted for a dynamic constant by their address, `None` while the
+    /// arguments of the method are being inserted. Holding on to the cells keeps addresses unique.
+    bsm_cells: HashMap<usize, (Arc<OnceCell<BootstrapMethod>>, Option<u16>)>,
+    bsm_depth: usize,
+    /// Set when something could not be represented in this pool, raised when it is written.
+    error: Option<(&'static str, Cow<'static, str>)>,
 }
+
+/// How deep the arguments of bootstrap methods may refer to other bootstrap methods.
+const MAX_BSM_NESTING: usize = 256;
+
 impl VecCp {
     /// Creates an empty constant pool.
     #[inline]
@@ -125,8 +137,17 @@ impl VecCp {
             cache: HashMap::new(),
             len: 1,
             bsm: vec![],
+            bsm_cache: HashMap::new(),
+            bsm_cells: HashMap::new(),
+            bsm_depth: 0,
+            error: None,
         }
     }
+
+    fn fail(&mut self, what: &'static str, message: impl Into<Cow<'static, str>>) -> u16 {
+        self.error.get_or_insert((what, message.into()));
+        0
+    }
 }
 
 impl Default for VecCp {
@@ -144,6 +165,59 @@ impl MapCp {
             refs: HashMap::new(),
         }
     }
+
+    /// Makes sure that the bootstrap methods do not end up containing themselves, or nest too deeply.
+    fn check_nesting(&self, bsms: &[BootstrapMethod]) -> Result<()> {
+        let mut cells = HashMap::new();
+        for (i, regs) in &self.refs {
+            for reg in regs {
+                cells.insert(Arc::as_ptr(reg), *i as usize);
+            }
+        }
+        // Visit methods after all of their arguments.
+        let mut users = vec![vec![]; bsms.len()];
+        let mut pending = vec![0usize; bsms.len()];
+        for (i, b) in bsms.iter().enumerate() {
+            for arg in &b.arguments {
+                if let OrDynamic::Dynamic(d) = arg {
+                    match cells.get(&Arc::as_ptr(&d.bsm)) {
+                        Some(&used) if used < bsms.len() => {
+                            users[used].push(i);
+                            pending[i] += 1;
+                        }
+                        _ => {}
+                    }
+                }
+            }
+        }
+        let mut ready: Vec<usize> = (0..bsms.len()).filter(|i| pending[*i] == 0).collect();
+        let mut depth = vec![1usize; bsms.len()];
+        let mut visited = 0;
+        while let Some(used) = ready.pop() {
+            visited += 1;
+            if depth[used] > MAX_BSM_NESTING {
+                return Err(Error::Invalid(
+                    "bootstrap method",
+                    "arguments are nested too deeply".into(),
+                ));
+            }
+            for &i in &users[used] {
+                depth[i] = depth[i].max(depth[used] + 1);
+                pending[i] -= 1;
+                if pending[i] == 0 {
+                    ready.push(i);
+                }
+            }
+        }
+        if visited == bsms.len() {
+            Ok(())
+        } else {
+            Err(Error::Invalid(
+                "bootstrap method",
+                "arguments refer to the bootstrap method".into(),
+            ))
+        }
+    }
 }
 
 impl Default for MapCp {
@@ -182,6 +256,7 @@ impl ConstantPoolReader for MapCp {
     }
 
     fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()> {
+        self.check_nesting(bsms)?;
         for (i, b) in bsms.iter().enumerate() {
             if let Entry::Occupied(bsm) = self.refs.entry(i as _) {
                 for reg in bsm.remove() {
@@ -206,6 +281,9 @@ impl ReadWrite for VecCp {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
+        if let Some((what, message)) = &self.error {
+            return Err(Error::Invalid(what, message.clone()));
+        }
         self.len.write_to(writer)?;
         for e in &self.entries {
             e.write_to(writer)?;
@@ -229,8 +307,50 @@ impl ConstantPoolWriter for VecCp {
     }
 
     fn insert_bsm(&mut self, bsm: BootstrapMethod) -> u16 {
+        if self.bsm_depth >= MAX_BSM_NESTING {
+            return self.fail("bootstrap method", "arguments are nested too deeply");
+        }
+        if bsm.arguments.len() > u16::MAX as usize {
+            return self.fail("bootstrap method", "too many arguments");
+        }
+        self.bsm_depth += 1;
+        let handle = self.insert_method_handle(bsm.handle);
+        let arguments = bsm
+            .arguments
+            .into_iter()
+            .map(|arg| self.insert_ordynamic(arg, ConstantPoolWriter::insert_constant))
+            .collect();
+        self.bsm_depth -= 1;
+
+        let entry = (handle, arguments);
+        if let Some(idx) = self.bsm_cache.get(&entry) {
+            return *idx;
+        }
+        if self.bsm.len() >= u16::MAX as usize {
+            return self.fail("bootstrap methods", "too many");
+        }
         let ret = self.bsm.len() as u16;
-        self.bsm.push(bsm);
+        self.bsm_cache.insert(entry.clone(), ret);
+        self.bsm.push(entry);
         ret
     }
+
+    fn insert_bsm_cell(&mut self, cell: &Arc<OnceCell<BootstrapMethod>>) -> u16 {
+        let address = Arc::as_ptr(cell) as usize;
+        match self.bsm_cells.get(&address) {
+            Some((_, Some(idx))) => return *idx,
+            Some((_, None)) => {
+                return self.fail("bootstrap method", "arguments refer to the bootstrap method")
+            }
+            None => {}
+        }
+        let bsm = match cell.get() {
+            Some(bsm) => bsm.clone(),
+            None => return self.fail("bootstrap method", "not populated"),
+        };
+        self.bsm_cells.insert(address, (cell.clone(), None));
+        let idx = self.insert_bsm(bsm);
+        self.bsm_cells.insert(address, (cell.clone(), Some(idx)));
+        idx
+    }
 }
diff --git a/src/rw.rs b/src/rw.rs
index 0f4f81c..7e757a5 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -74,6 +74,13 @@ pub trait ConstantPoolWriter {
     /// of the class file.
     fn insert_bsm(&mut self, bsm: BootstrapMethod) -> u16;
 
+    /// Inserts the bootstrap method of a dynamic computed constant/callsite.
+    ///
+    /// The cell may be shared between dynamics, this makes it possible to insert it only once.
+    fn insert_bsm_cell(&mut self, cell: &Arc<OnceCell<BootstrapMethod>>) -> u16 {
+        self.insert_bsm(cell.get().expect("Expected bsm to be populated").clone())
+    }
+
     /// Inserts a dynamic computed constant/callsite.
     ///
     /// When the type of the dynamic is a method descriptor, an InvokeDynamic entry is inserted.
@@ -81,7 +88,7 @@ pub trait ConstantPoolWriter {
     ///
     /// Returns an index that points to the inserted entry.
     fn insert_dynamic(&mut self, d: Dynamic) -> u16 {
-        let bsm = self.insert_bsm(d.get_bsm().clone());
+        let bsm = self.insert_bsm_cell(&d.bsm);
         let e = if d.descriptor.is_method() {
             RawConstantEntry::InvokeDynamic
         } else {
-- 
2.43.0


From 2af830cab87678df46c20bb431329d8330284a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:15 +0000
Subject: [PATCH 08/19] fix: refuse lengths that do not fit in the class file
 instead of truncating them

---
 coffer_macros/src/derive.rs |  4 ++--
 src/annotation/mod.rs       |  4 ++--
 src/clazz.rs                | 13 ++++++++-----
 src/code.rs                 |  8 ++++----
 src/cp.rs                   | 22 ++++++++++++++--------
 src/dynamic.rs              |  2 +-
 src/rw.rs                   |  7 ++++++-
 7 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/coffer_macros/src/derive.rs b/coffer_macros/src/derive.rs
index 9854e6f..2185ade 100644
--- a/coffer_macros/src/derive.rs
+++ b/coffer_macros/src/derive.rs
@@ -169,7 +169,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                 let raw_attr = &variant.bindings()[0];
                 quote! {
                     u16::write_to(&#cp.insert_wtf8(#raw_attr.name.clone()), #writer)?;
-                    crate::write_to!(&(#raw_attr.inner.len() as u32), #writer)?;
+                    u32::write_to(&u32::try_from(#raw_attr.inner.len()).map_err(|_| crate::error::Error::Invalid("attribute length", Into::into(#raw_attr.inner.len().to_string())))?, #writer)?;
                     #writer.write_all(&#raw_attr.inner)?;
                 }
             } else {
@@ -200,7 +200,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                     let mut __inner_writer = ::std::io::Cursor::new(&mut #vec);
                     let mut #inner_writer = &mut __inner_writer;
                     #fields
-                    u32::write_to(&(#vec.len() as u32), #writer)?;
+                    u32::write_to(&u32::try_from(#vec.len()).map_err(|_| crate::error::Error::Invalid("attribute length", Into::into(#vec.len().to_string())))?, #writer)?;
                     #writer.write_all(&#vec)?;
                 }
             };
diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 247600a..4bb266a 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -200,7 +200,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             }
             AnnotationValue::Array(v) => {
                 b'['.write_to(writer)?;
-                (v.len() as u16).write_to(writer)?;
+                crate::rw::u16_len("annotation array", v.len())?.write_to(writer)?;
                 for e in v {
                     e.write_to(cp, writer)?;
                 }
@@ -239,7 +239,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         cp: &mut C,
         writer: &mut W,
     ) -> Result<(), Error> {
-        let size = self.len() as u16;
+        let size = crate::rw::u16_len("annotation elements", self.len())?;
         size.write_to(writer)?;
         for (k, e) in self {
             write_to!(k, cp, writer)?;
diff --git a/src/clazz.rs b/src/clazz.rs
index 9797336..501d64f 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -4,6 +4,7 @@ use wtf_8::Wtf8Str;
 
 use crate::constants::JVM_MAGIC;
 use crate::prelude::*;
+use crate::rw::u16_len;
 
 #[derive(Debug, Clone)]
 pub struct Class {
@@ -90,15 +91,15 @@ impl ReadWrite for Class {
             .as_ref()
             .map_or(0, |n| cp.insert_class(n.clone()))
             .write_to(&mut buf)?;
-        (self.interfaces.len() as u16).write_to(&mut buf)?;
+        u16_len("interfaces", self.interfaces.len())?.write_to(&mut buf)?;
         for i in &self.interfaces {
             cp.insert_class(i.clone()).write_to(&mut buf)?;
         }
-        (self.fields.len() as u16).write_to(&mut buf)?;
+        u16_len("fields", self.fields.len())?.write_to(&mut buf)?;
         for f in &self.fields {
             f.write_to(&mut cp, &mut buf)?;
         }
-        (self.methods.len() as u16).write_to(&mut buf)?;
+        u16_len("methods", self.methods.len())?.write_to(&mut buf)?;
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
@@ -129,11 +130,13 @@ impl ReadWrite for Class {
                 &mut cp,
                 &mut attr_buf
             )?;
-            (buf2.len() as u32 + 2).write_to(&mut attr_buf)?;
+            u32::try_from(buf2.len() + 2)
+                .map_err(|_| Error::Invalid("bootstrap methods", "too long".into()))?
+                .write_to(&mut attr_buf)?;
             i.write_to(&mut attr_buf)?;
             attr_buf.write_all(&buf2)?;
         }
-        (attributes as u16).write_to(&mut buf)?;
+        u16_len("attributes", attributes)?.write_to(&mut buf)?;
         buf.write_all(&attr_buf)?;
         cp.write_to(writer)?;
         writer.write_all(&buf)?;
diff --git a/src/code.rs b/src/code.rs
index e067237..dfb7222 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -789,7 +789,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 off.write_to(writer)?;
             }
             RawFrame::Chop(_, c) => return Err(Error::Invalid("Chop value", c.to_string().into())),
-            RawFrame::Append(off, locals) if locals.len() <= 3 => {
+            RawFrame::Append(off, locals) if (1..=3).contains(&locals.len()) => {
                 (locals.len() as u8 + 251).write_to(writer)?;
                 off.write_to(writer)?;
                 for local in locals {
@@ -797,16 +797,16 @@ impl ConstantPoolReadWrite for RawFrame {
                 }
             }
             RawFrame::Append(_, _) => {
-                return Err(Error::Invalid("Append", "locals length > 3".into()))
+                return Err(Error::Invalid("Append", "locals length not in 1..=3".into()))
             }
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
                 off.write_to(writer)?;
-                (locals.len() as u16).write_to(writer)?;
+                crate::rw::u16_len("frame locals", locals.len())?.write_to(writer)?;
                 for local in locals {
                     local.write_to(cp, writer)?;
                 }
-                (stack.len() as u16).write_to(writer)?;
+                crate::rw::u16_len("frame stack", stack.len())?.write_to(writer)?;
                 for s in stack {
                     s.write_to(cp, writer)?;
                 }
diff --git a/src/cp.rs b/src/cp.rs
index c53733e..2a0e1dc 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -113,7 +113,7 @@ pub struct VecCp {
     entries: Vec<RawConstantEntry>,
     cache: HashMap<RawConstantEntry, u16>,
     /// Not actual len. (if e.wide 2 else 1 for e in entries) + 1 in pseudocode
-    len: u16,
+    len: u32,
     /// The bootstrap methods table: the handle and the arguments as indices to the constant pool.
     pub(crate) bsm: Vec<(u16, Vec<u16>)>,
     bsm_cache: HashMap<(u16, Vec<u16>), u16>,
@@ -231,11 +231,11 @@ impl ReadWrite for MapCp {
     fn read_from<T: Read>(reader: &mut T) -> Result<Self> {
         let mut cp = MapCp::new();
         let count = u16::read_from(reader)?;
-        let mut i = 1;
-        while i < count {
+        let mut i = 1u32;
+        while i < count as u32 {
             let entry = RawConstantEntry::read_from(reader)?;
-            let idx = i;
-            i += entry.size();
+            let idx = i as u16;
+            i += entry.size() as u32;
             cp.entries.insert(idx, entry);
         }
         Ok(cp)
@@ -284,7 +284,9 @@ impl ReadWrite for VecCp {
         if let Some((what, message)) = &self.error {
             return Err(Error::Invalid(what, message.clone()));
         }
-        self.len.write_to(writer)?;
+        u16::try_from(self.len)
+            .map_err(|_| Error::Invalid("constant pool size", self.len.to_string().into()))?
+            .write_to(writer)?;
         for e in &self.entries {
             e.write_to(writer)?;
         }
@@ -297,8 +299,12 @@ impl ConstantPoolWriter for VecCp {
         match self.cache.entry(value.clone()) {
             Entry::Occupied(e) => *e.get(),
             Entry::Vacant(e) => {
-                let idx = self.len;
-                self.len += value.size();
+                if self.len > u16::MAX as u32 {
+                    // full, which is an error when this is written.
+                    return 0;
+                }
+                let idx = self.len as u16;
+                self.len += value.size() as u32;
                 e.insert(idx);
                 self.entries.push(value);
                 idx
diff --git a/src/dynamic.rs b/src/dynamic.rs
index a96a968..500e8a0 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -37,7 +37,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<(), Error> {
         cp.insert_method_handle(self.handle.clone())
             .write_to(writer)?;
-        (self.arguments.len() as u16).write_to(writer)?;
+        crate::rw::u16_len("bootstrap method arguments", self.arguments.len())?.write_to(writer)?;
         for arg in self.arguments.iter().cloned() {
             cp.insert_ordynamic(arg, ConstantPoolWriter::insert_constant)
                 .write_to(writer)?;
diff --git a/src/rw.rs b/src/rw.rs
index 7e757a5..9a5b9e3 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -19,6 +19,11 @@ where
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()>;
 }
 
+/// Converts a length to the two bytes that it has in the class file.
+pub(crate) fn u16_len(what: &'static str, len: usize) -> Result<u16> {
+    u16::try_from(len).map_err(|_| Error::Invalid(what, format!("length {len}").into()))
+}
+
 /// A trait for writing constant pool entries.
 pub trait ConstantPoolWriter {
     /// Inserts a raw constant pool entry to the constant pool.
@@ -480,7 +485,7 @@ impl ReadWrite for Wtf8String {
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
         let string = crate::mod_utf8::string_to_modified_utf8(self);
-        (string.len() as u16).write_to(writer)?;
+        u16_len("string", string.len())?.write_to(writer)?;
         writer.write_all(&string)?;
         Ok(())
     }
-- 
2.43.0


From 247b8a981fd0a7469d44fdd7b918c4feb5049314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 09/19] fix: keep lone surrogates in descriptors when writing

---
 src/annotation/mod.rs | 2 +-
 src/attr.rs           | 2 +-
 src/code/structure.rs | 7 +++++--
 src/rw.rs             | 6 +++---
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 4bb266a..d8f31ec 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -188,7 +188,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
                 write_to!(
                     &n.as_ref().map_or_else(
                         || Cow::Borrowed(w!("V")),
-                        |t| Cow::Owned(t.to_string().into())
+                        |t| Cow::Owned(t.into())
                     ),
                     cp,
                     writer
diff --git a/src/attr.rs b/src/attr.rs
index 5acc566..e700166 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -55,7 +55,7 @@ impl ConstantPoolReadWrite for Option<(Cow<'static, Wtf8Str>, Type)> {
         writer: &mut W,
     ) -> Result<(), Error> {
         if let Some((n, t)) = self {
-            cp.insert_nameandtype(n.clone(), Cow::Owned(t.to_string().into()))
+            cp.insert_nameandtype(n.clone(), Cow::Owned(t.into()))
                 .write_to(writer)
         } else {
             0u16.write_to(writer)
diff --git a/src/code/structure.rs b/src/code/structure.rs
index ca7e379..c95715f 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -1,8 +1,9 @@
 use indexmap::map::IndexMap;
-use wtf_8::Wtf8Str;
+use wtf_8::{Wtf8Str, Wtf8String};
 
 use crate::annotation::CodeTypeAnnotation;
 use crate::prelude::*;
+use crate::ty::write_type;
 
 /// Acts as a unique identifier to the code. Labels should be treated carefully because when labels become invalid (i.e. removed from the code array) it will become an error.
 #[derive(Debug, Eq, PartialOrd, PartialEq, Ord, Hash, Copy, Clone)]
@@ -252,7 +253,9 @@ impl From<ClassType> for Cow<'static, Wtf8Str> {
         match t {
             ClassType::Object(s) => s,
             ClassType::Array(dim, ty) => {
-                Cow::Owned(format!("{}{}", "[".repeat(dim as usize), ty).into())
+                let mut s = Wtf8String::from("[".repeat(dim as usize));
+                write_type(&ty, &mut s);
+                Cow::Owned(s)
             }
         }
     }
diff --git a/src/rw.rs b/src/rw.rs
index 9a5b9e3..0b324f1 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -44,7 +44,7 @@ pub trait ConstantPoolWriter {
             Constant::Class(s) => self.insert_indirect_str(7, s),
             Constant::Member(mem) => self.insert_member(mem),
             Constant::MethodType(t) => {
-                let desc = self.insert_wtf8(Cow::Owned(t.to_string().into()));
+                let desc = self.insert_wtf8(Cow::Owned((&t).into()));
                 self.insert_raw(RawConstantEntry::MethodType(desc))
             }
             Constant::MethodHandle(h) => {
@@ -100,7 +100,7 @@ pub trait ConstantPoolWriter {
             RawConstantEntry::Dynamic
         };
         let name_and_type =
-            self.insert_nameandtype(d.name, Cow::Owned(d.descriptor.to_string().into()));
+            self.insert_nameandtype(d.name, Cow::Owned((&d.descriptor).into()));
         self.insert_raw(e(bsm, name_and_type))
     }
     /// insert an indirect string such as String / Module / Package entry, used by the procedural macro.
@@ -155,7 +155,7 @@ pub trait ConstantPoolWriter {
             _ => RawConstantEntry::Field,
         }(
             self.insert_class(mem.owner),
-            self.insert_nameandtype(mem.name, Cow::Owned(mem.descriptor.to_string().into())),
+            self.insert_nameandtype(mem.name, Cow::Owned((&mem.descriptor).into())),
         );
         self.insert_raw(entry)
     }
-- 
2.43.0


From 1b0a7ed46ab7e33a0a2bf410926abe1514885eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 10/19] fix: use the right verification type tags for long and
 double

---
 src/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code.rs b/src/code.rs
index dfb7222..9d7d617 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -684,8 +684,8 @@ pub enum VerificationType {
     Top,
     Int,
     Float,
-    Long,
     Double,
+    Long,
     Null,
     UninitializedThis,
     Object(#[coffer(as = "h::Class")] Cow<'static, Wtf8Str>),
-- 
2.43.0


From e3c036d7013d7d29a61e2736e4bc3500cbf35e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:19 +0000
Subject: [PATCH 11/19] fix: do not allocate for or overflow on lengths before
 the data is there

---
 coffer_macros/src/derive.rs |  6 ++----
 src/annotation/mod.rs       |  4 ++--
 src/code.rs                 | 12 ++++++------
 src/dynamic.rs              |  2 +-
 src/insn.rs                 | 10 ++++++++--
 src/rw.rs                   | 10 ++++++++++
 6 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/coffer_macros/src/derive.rs b/coffer_macros/src/derive.rs
index 2185ade..e6c4c36 100644
--- a/coffer_macros/src/derive.rs
+++ b/coffer_macros/src/derive.rs
@@ -231,8 +231,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
             }, quote! {
                 #ident => {
                     let len = u32::read_from(#reader)?;
-                    let mut vec = vec![0; len as usize];
-                    #reader.read_exact(&mut vec)?;
+                    let vec = crate::rw::read_bytes(#reader, len)?;
                     let mut __inner_reader: &[u8] = vec.as_ref();
                     let #inner_reader = &mut __inner_reader;
                     let ret = #construct;
@@ -255,8 +254,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                         #read_match
                         _ => {
                             let byte_size = u32::read_from(#reader)?;
-                            let mut bytes = vec![0; byte_size as usize];
-                            #reader.read_exact(&mut bytes)?;
+                            let bytes = crate::rw::read_bytes(#reader, byte_size)?;
                             let raw_attr = crate::prelude::RawAttribute::__new(attribute_name, bytes);
                             Ok(Self::#raw_variant_name(raw_attr))
                         }
diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index d8f31ec..99904c0 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -123,7 +123,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             '@' => AnnotationValue::Annotation(Annotation::read_from(cp, reader)?),
             '[' => {
                 let num = u16::read_from(reader)?;
-                let mut values = Vec::with_capacity(num as usize);
+                let mut values = Vec::new();
                 for _ in 0..num {
                     values.push(AnnotationValue::read_from(cp, reader)?)
                 }
@@ -225,7 +225,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         reader: &mut R,
     ) -> Result<Self, Error> {
         let pairs = u16::read_from(reader)?;
-        let mut element_values = HashMap::with_capacity(pairs as usize);
+        let mut element_values = HashMap::new();
         for _ in 0..pairs {
             let name = read_from!(cp, reader)?;
             let value = AnnotationValue::read_from(cp, reader)?;
diff --git a/src/code.rs b/src/code.rs
index 9d7d617..1ce6ff8 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -83,8 +83,8 @@ impl ConstantPoolReadWrite for Code {
         let max_stack = u16::read_from(reader)?;
         let max_locals = u16::read_from(reader)?;
         // Read code to a buffer so we are able to seek.
-        let mut code = vec![0; u32::read_from(reader)? as usize];
-        reader.read_exact(&mut code)?;
+        let len = u32::read_from(reader)?;
+        let code = crate::rw::read_bytes(reader, len)?;
         let mut labeler = Labeler {
             inner: cp,
             labels: HashMap::new(),
@@ -120,7 +120,7 @@ impl ConstantPoolReadWrite for Code {
 
         // Read try-catch blocks.
         let exceptions = u16::read_from(reader)?;
-        let mut catches = Vec::with_capacity(exceptions as usize);
+        let mut catches = Vec::new();
         for _ in 0..exceptions {
             let start = read_from!(&mut labeler, reader)?;
             let end = read_from!(&mut labeler, reader)?;
@@ -144,7 +144,7 @@ impl ConstantPoolReadWrite for Code {
 
         // Read Attributes
         let numattrs = u16::read_from(reader)?;
-        let mut attrs = Vec::with_capacity(numattrs as usize);
+        let mut attrs = Vec::new();
 
         // Some attributes are instructions that will be inserted to the vector.
         // It should be sorted to avoid ending in the wrong positions.
@@ -746,7 +746,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 u16::read_from(reader)?,
                 {
                     let locals = u16::read_from(reader)?;
-                    let mut local = Vec::with_capacity(locals as usize);
+                    let mut local = Vec::new();
                     for _ in 0..locals {
                         local.push(VerificationType::read_from(cp, reader)?);
                     }
@@ -754,7 +754,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 },
                 {
                     let stacks = u16::read_from(reader)?;
-                    let mut stack = Vec::with_capacity(stacks as usize);
+                    let mut stack = Vec::new();
                     for _ in 0..stacks {
                         stack.push(VerificationType::read_from(cp, reader)?);
                     }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 500e8a0..5e95d98 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -19,7 +19,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<Self, Error> {
         let handle = try_cp_read!(cp, reader, read_method_handle)?;
         let num_arguments = u16::read_from(reader)?;
-        let mut arguments = Vec::with_capacity(num_arguments.into());
+        let mut arguments = Vec::new();
         for _ in 0..num_arguments {
             let idx = u16::read_from(reader)?;
             arguments.push(try_cp_read!(
diff --git a/src/insn.rs b/src/insn.rs
index e7b35f3..1bf358e 100644
--- a/src/insn.rs
+++ b/src/insn.rs
@@ -39,8 +39,14 @@ impl ReadWrite for TableSwitch {
     fn read_from<T: std::io::Read>(reader: &mut T) -> Result<Self> {
         let low = i32::read_from(reader)?;
         let high = i32::read_from(reader)?;
-        let len = (high - low + 1) as usize;
-        let mut offsets = Vec::with_capacity(len);
+        if high < low {
+            return Err(crate::Error::Invalid(
+                "tableswitch bounds",
+                format!("{low}..={high}").into(),
+            ));
+        }
+        let len = high as i64 - low as i64 + 1;
+        let mut offsets = Vec::new();
         for _ in 0..len {
             offsets.push(i32::read_from(reader)?);
         }
diff --git a/src/rw.rs b/src/rw.rs
index 0b324f1..ac52116 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -24,6 +24,16 @@ pub(crate) fn u16_len(what: &'static str, len: usize) -> Result<u16> {
     u16::try_from(len).map_err(|_| Error::Invalid(what, format!("length {len}").into()))
 }
 
+/// Reads exactly `len` bytes, only allocating for as much as the reader has to offer.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u32) -> Result<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(len.into()).read_to_end(&mut bytes)?;
+    if bytes.len() < len as usize {
+        return Err(Error::IO(std::io::ErrorKind::UnexpectedEof.into()));
+    }
+    Ok(bytes)
+}
+
 /// A trait for writing constant pool entries.
 pub trait ConstantPoolWriter {
     /// Inserts a raw constant pool entry to the constant pool.
-- 
2.43.0


From a4990fba3a5c0f8a80c6899424f2ea6635b35d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:44 +0000
Subject: [PATCH 12/19] fix: only accept complete descriptors

---
 src/ty.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/ty.rs b/src/ty.rs
index 14db75a..fc52cd0 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -89,7 +89,10 @@ impl Type {
 }
 
 pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
-    fn get_type(c: &mut wtf_8::Wtf8CodePoints) -> Result<Type, crate::error::Error> {
+    fn get_type(
+        c: &mut wtf_8::Wtf8CodePoints,
+        allow_method: bool,
+    ) -> Result<Type, crate::error::Error> {
         let next_codepoint = c.next();
         Ok(match next_codepoint.map(|c| c.to_char_lossy()) {
             Some('B') => Type::Byte,
@@ -115,15 +118,17 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                 let mut dim: u8 = 1;
                 while Some('['.into()) == c.as_str().codepoints().next() {
                     c.next();
-                    dim += 1;
+                    dim = dim.checked_add(1).ok_or_else(|| {
+                        Error::Invalid("array type", "more than 255 dimensions".into())
+                    })?;
                 }
-                let r = get_type(c)?;
+                let r = get_type(c, false)?;
                 Type::ArrayRef(dim, Box::new(r))
             }
-            Some('(') => {
+            Some('(') if allow_method => {
                 let mut types = Vec::new();
                 while c.as_str().codepoints().next().unwrap_or_else(|| ')'.into()) != ')' {
-                    types.push(get_type(c)?)
+                    types.push(get_type(c, false)?)
                 }
                 if c.next().is_none() {
                     return Err(unexpected_end());
@@ -131,9 +136,10 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                     Type::Method {
                         parameters: types,
                         ret: if Some('V'.into()) == c.as_str().codepoints().next() {
+                            c.next();
                             None
                         } else {
-                            Some(Box::new(get_type(c)?))
+                            Some(Box::new(get_type(c, false)?))
                         },
                     }
                 }
@@ -147,7 +153,12 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
             None => return Err(unexpected_end()),
         })
     }
-    get_type(&mut s.codepoints())
+    let mut c = s.codepoints();
+    let ty = get_type(&mut c, true)?;
+    if c.next().is_some() {
+        return Err(Error::Invalid("type", "trailing characters".into()));
+    }
+    Ok(ty)
 }
 
 impl ConstantPoolReadWrite for Cow<'static, Wtf8Str> {
-- 
2.43.0


From f2bb0b88dc72b5f5e4f46e8f015cd93de4b8d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:46 +0000
Subject: [PATCH 13/19] fix: refuse annotations that are nested too deep
 instead of overflowing the stack

---
 src/annotation/mod.rs |  9 +++++----
 src/rw.rs             | 28 ++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 99904c0..818ae38 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -9,6 +9,7 @@ use wtf_8::{w, Wtf8Str};
 use super::Type;
 use crate::error::Error;
 use crate::prelude::parse_type;
+use crate::rw::Nesting;
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{
     helper as h, read_from, write_to, ConstantPoolReadWrite, ConstantPoolReader,
@@ -70,6 +71,7 @@ pub enum AnnotationValue {
 
 impl ConstantPoolReadWrite for AnnotationValue {
     fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> {
+        let _nesting = Nesting::enter()?;
         let tag = u8::read_from(reader)? as char;
         Ok(match tag {
             'B' => AnnotationValue::Byte({
@@ -141,6 +143,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
         ) -> Result<()> {
             write_to!(&val.into(), cp, writer)
         }
+        let _nesting = Nesting::enter()?;
         match self {
             AnnotationValue::Byte(val) => {
                 b'B'.write_to(writer)?;
@@ -186,10 +189,8 @@ impl ConstantPoolReadWrite for AnnotationValue {
             AnnotationValue::Class(n) => {
                 b'c'.write_to(writer)?;
                 write_to!(
-                    &n.as_ref().map_or_else(
-                        || Cow::Borrowed(w!("V")),
-                        |t| Cow::Owned(t.into())
-                    ),
+                    &n.as_ref()
+                        .map_or_else(|| Cow::Borrowed(w!("V")), |t| Cow::Owned(t.into())),
                     cp,
                     writer
                 )
diff --git a/src/rw.rs b/src/rw.rs
index ac52116..44eceab 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -34,6 +34,34 @@ pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u32) -> Result<Vec<u8>> {
     Ok(bytes)
 }
 
+/// How deep annotations and type arguments may be nested in each other.
+const MAX_NESTING: u16 = 128;
+
+thread_local! {
+    static NESTING: std::cell::Cell<u16> = std::cell::Cell::new(0);
+}
+
+/// One level of nested data that is being read or written on this thread, until it is dropped.
+pub(crate) struct Nesting(());
+
+impl Nesting {
+    pub(crate) fn enter() -> Result<Self> {
+        NESTING.with(|n| {
+            if n.get() >= MAX_NESTING {
+                return Err(Error::Invalid("data", "nested too deep".into()));
+            }
+            n.set(n.get() + 1);
+            Ok(Self(()))
+        })
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        NESTING.with(|n| n.set(n.get() - 1))
+    }
+}
+
 /// A trait for writing constant pool entries.
 pub trait ConstantPoolWriter {
     /// Inserts a raw constant pool entry to the constant pool.
-- 
2.43.0


From 2b6b2bac09dcffd743fed12c3b86588a9ae3cc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:50 +0000
Subject: [PATCH 14/19] fix: only accept complete signatures and write them as
 they were read

---
 src/signature.rs | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 2eb2393..1db90c5 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -12,6 +12,7 @@ use std::borrow::Cow;
 use std::fmt::{Display, Formatter, Write};
 use std::str::FromStr;
 
+use crate::rw::Nesting;
 use crate::Result;
 
 /// A type signature represents either a reference type or a primitive type.
@@ -177,7 +178,9 @@ fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
             let mut c = i.chars();
             while let Some('[') = c.as_str().chars().next() {
                 c.next();
-                dim += 1;
+                dim = dim.checked_add(1).ok_or_else(|| {
+                    invalid("array type signature", "more than 255 dimensions")
+                })?;
             }
             let (i, t) = type_sig(c.as_str())?;
             Ok((i, RefTypeSignature::ArrayRef(dim, Box::new(t))))
@@ -328,10 +331,14 @@ fn type_args(mut i: &str) -> IResult<'_, Vec<TypeArgument>> {
     let mut args = vec![];
     if i.as_bytes().first() == Some(&b'<') {
         i = &i[1..];
-        while !i.is_empty() && i.as_bytes().first() != Some(&b'>') {
+        let _nesting = Nesting::enter()?;
+        loop {
             let res = type_arg(i)?;
             i = res.0;
             args.push(res.1);
+            if i.is_empty() || i.as_bytes().first() == Some(&b'>') {
+                break;
+            }
         }
         let (i, _) = char::<'>'>(i)?;
         Ok((i, args))
@@ -366,21 +373,17 @@ fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
 
 fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
     // i = "A::Ljava/lang/String;"
-    let mut chars = i.chars();
-    let name = chars
-        .by_ref()
-        .take_while(|&x| x != ':')
-        .collect::<String>()
-        .into();
-    let (mut i, class_bound) = if let Some('T' | '[' | 'L') = chars.as_str().chars().next() {
-        let (newi, ref_ty_sig) = ref_type_sig(chars.as_str())?;
+    let (name, i) = i.split_once(':').ok_or_else(unexpected_end)?;
+    let name = name.to_string().into();
+    let (mut i, class_bound) = if let Some('T' | '[' | 'L') = i.chars().next() {
+        let (newi, ref_ty_sig) = ref_type_sig(i)?;
         (newi, Some(ref_ty_sig))
     } else {
-        (chars.as_str(), None)
+        (i, None)
     };
     let mut interface_bounds = vec![];
-    while let Some(':') = chars.next() {
-        let (new_i, bound) = ref_type_sig(chars.as_str())?;
+    while let Some(bound) = i.strip_prefix(':') {
+        let (new_i, bound) = ref_type_sig(bound)?;
         interface_bounds.push(bound);
         i = new_i;
     }
@@ -399,10 +402,13 @@ fn type_parameters(mut i: &str) -> IResult<'_, Vec<TypeParameter>> {
     let mut params = vec![];
     if i.as_bytes().first() == Some(&b'<') {
         i = &i[1..];
-        while !i.is_empty() && i.as_bytes().first() != Some(&b'>') {
+        loop {
             let res = type_parameter(i)?;
             i = res.0;
             params.push(res.1);
+            if i.is_empty() || i.as_bytes().first() == Some(&b'>') {
+                break;
+            }
         }
         let (i, _) = char::<'>'>(i)?;
         Ok((i, params))
@@ -475,7 +481,10 @@ macro_rules! fromstr_impls {
                 type Err = crate::error::Error;
 
                 fn from_str(s: &str) -> Result<Self, Self::Err> {
-                    $fn(s).map(|(_, r)| r)
+                    match $fn(s)? {
+                        ("", r) => Ok(r),
+                        (rest, _) => Err(invalid("signature", format!("unexpected `{rest}` after it"))),
+                    }
                 }
             }
         )*
@@ -488,7 +497,8 @@ macro_rules! cprw_impls {
             impl ConstantPoolReadWrite for $ty {
                 fn read_from<C: crate::ConstantPoolReader, R: std::io::Read>(cp: &mut C, reader: &mut R) -> crate::Result<Self> {
                     let s = Cow::<'static, wtf_8::Wtf8Str>::read_from(cp, reader)?;
-                    FromStr::from_str(&s.to_string_lossy())
+                    let s = s.as_str().ok_or_else(|| invalid("signature", "contains unpaired surrogates"))?;
+                    FromStr::from_str(s)
                 }
 
                 fn write_to<C: crate::ConstantPoolWriter, W: std::io::Write>(&self, cp: &mut C, writer: &mut W) -> crate::Result<()> {
@@ -626,7 +636,7 @@ impl Display for Throws {
         f.write_char('^')?;
         match self {
             Throws::TypeParameter(p) => {
-                write!(f, "L{};", p)
+                write!(f, "T{};", p)
             }
             Throws::Class(c) => c.fmt(f),
         }
-- 
2.43.0


From 1770bc25610eb39f3f693d09771f6e50624f8112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 15/19] fix: reject encoded surrogates with a bad last byte

---
 src/mod_utf8.rs | 4 ++--
 wtf8/src/lib.rs | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mod_utf8.rs b/src/mod_utf8.rs
index 2367ec1..96f9ecb 100644
--- a/src/mod_utf8.rs
+++ b/src/mod_utf8.rs
@@ -95,10 +95,10 @@ pub fn modified_utf8_to_string(buf: &[u8]) -> Result<Wtf8String, MutfError> {
                 0xED => {
                     if let (
                         Some(n @ 0xA0..=0xAF),
-                        Some(n1),
+                        Some(n1 @ 0x80..=0xBF),
                         Some(0xED),
                         Some(n3 @ 0xB0..=0xBF),
-                        Some(n4),
+                        Some(n4 @ 0x80..=0xBF),
                     ) = (
                         buf.get(index + 1),
                         buf.get(index + 2),
diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index 60c9ef8..fbc6f83 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1264,7 +1264,9 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                     0x80..=0x9f => {}
                     0xA0..=0xAF => {
                         is_high_surrogate = true;
-                        next!();
+                        if !tail.contains(&next!()) {
+                            err!(3);
+                        }
                         continue;
                     }
                     0xB0..=0xBF => {
-- 
2.43.0


From dadfa95fa4bf9d0359df1cfdf0fe1338c81e68a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:18 +0000
Subject: [PATCH 16/19] fix: do not make invalid chars of units that are no
 surrogate pair

---
 wtf8/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index fbc6f83..1b91bb5 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1033,7 +1033,7 @@ pub fn decode_surrogate(second_byte: u8, third_byte: u8) -> u16 {
 #[inline]
 pub fn decode_surrogate_pair(lead: u16, trail: u16) -> char {
     let code_point = 0x10000 + ((((lead - 0xD800) as u32) << 10) | (trail - 0xDC00) as u32);
-    unsafe { char::from_u32_unchecked(code_point) }
+    char::from_u32(code_point).expect("a lead and a trail surrogate")
 }
 
 /// Copied from core::str::StrPrelude::is_char_boundary
-- 
2.43.0


From 70ae2a8ea275807bf8b9b88fa52939cd587ebd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:21 +0000
Subject: [PATCH 17/19] fix: write the elements of annotations in the same
 order every time

---
 src/annotation/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 818ae38..4b1be80 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -242,7 +242,10 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
     ) -> Result<(), Error> {
         let size = crate::rw::u16_len("annotation elements", self.len())?;
         size.write_to(writer)?;
-        for (k, e) in self {
+        // The order of a hash map differs from run to run.
+        let mut pairs: Vec<_> = self.iter().collect();
+        pairs.sort_by(|(a, _), (b, _)| a.cmp(b));
+        for (k, e) in pairs {
             write_to!(k, cp, writer)?;
             e.write_to(cp, writer)?;
         }
-- 
2.43.0


From 4ba7c1448c88e8b8931cbead6bca49b0f4cc6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:19 +0000
Subject: [PATCH 18/19] fix: apply the documented name rules of method handles
 to field handles too

---
 src/loadable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/loadable.rs b/src/loadable.rs
index 4991317..e625ba6 100644
--- a/src/loadable.rs
+++ b/src/loadable.rs
@@ -117,7 +117,11 @@ impl MethodHandle {
         should_not_be_method! { MethodHandleKind::GetField, MethodHandleKind::GetStatic, MethodHandleKind::PutField, MethodHandleKind::PutStatic }
         should_be_method! { MethodHandleKind::InvokeInterface, MethodHandleKind::InvokeSpecial, MethodHandleKind::InvokeStatic, MethodHandleKind::InvokeVirtual, MethodHandleKind::NewInvokeSpecial }
         match self.kind {
-            MethodHandleKind::InvokeVirtual
+            MethodHandleKind::GetField
+            | MethodHandleKind::GetStatic
+            | MethodHandleKind::PutField
+            | MethodHandleKind::PutStatic
+            | MethodHandleKind::InvokeVirtual
             | MethodHandleKind::InvokeStatic
             | MethodHandleKind::InvokeSpecial
             | MethodHandleKind::InvokeInterface
-- 
2.43.0


From 39e64e729bfda57a4735343061539dc09dfb3bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:38 +0000
Subject: [PATCH 19/19] fix: share a bootstrap method between everything that
 refers to it

Every reference to a bootstrap method got a copy of the method and all of its
arguments, so reading a small class could take memory of the product of both.
---
 src/code.rs |  4 ++++
 src/cp.rs   |  9 +++++++++
 src/rw.rs   | 15 +++++++++------
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 1ce6ff8..37109cc 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -62,6 +62,10 @@ impl ConstantPoolReadWrite for Code {
                 self.inner.resolve_later(bsm_idx, bsm)
             }
 
+            fn bsm_cell(&mut self, bsm_idx: u16) -> Arc<OnceCell<BootstrapMethod>> {
+                self.inner.bsm_cell(bsm_idx)
+            }
+
             fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()> {
                 self.inner.bootstrap_methods(bsms)
             }
diff --git a/src/cp.rs b/src/cp.rs
index 2a0e1dc..276dbf3 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -255,6 +255,15 @@ impl ConstantPoolReader for MapCp {
         self.refs.entry(bsm_idx).or_default().push(bsm);
     }
 
+    fn bsm_cell(&mut self, bsm_idx: u16) -> Arc<OnceCell<BootstrapMethod>> {
+        // Everything that refers to a bootstrap method shares it, there may be a lot of them.
+        let cells = self.refs.entry(bsm_idx).or_default();
+        if cells.is_empty() {
+            cells.push(Arc::new(OnceCell::default()));
+        }
+        cells[0].clone()
+    }
+
     fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()> {
         self.check_nesting(bsms)?;
         for (i, b) in bsms.iter().enumerate() {
diff --git a/src/rw.rs b/src/rw.rs
index 44eceab..68e2cc4 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -326,11 +326,9 @@ pub trait ConstantPoolReader {
     fn read_invokedynamic(&mut self, idx: u16) -> Option<Dynamic> {
         match self.read_raw(idx) {
             Some(RawConstantEntry::InvokeDynamic(s, a)) => {
-                let cell = Arc::new(OnceCell::default());
                 let (name, descriptor) = self.read_nameandtype(a)?;
-                self.resolve_later(s, cell.clone());
                 Some(Dynamic {
-                    bsm: cell,
+                    bsm: self.bsm_cell(s),
                     name,
                     descriptor,
                 })
@@ -341,11 +339,9 @@ pub trait ConstantPoolReader {
     fn read_dynamic(&mut self, idx: u16) -> Option<Dynamic> {
         match self.read_raw(idx) {
             Some(RawConstantEntry::Dynamic(s, a)) => {
-                let cell = Arc::new(OnceCell::default());
                 let (name, descriptor) = self.read_nameandtype(a)?;
-                self.resolve_later(s, cell.clone());
                 Some(Dynamic {
-                    bsm: cell,
+                    bsm: self.bsm_cell(s),
                     name,
                     descriptor,
                 })
@@ -393,6 +389,13 @@ pub trait ConstantPoolReader {
     /// Registers a bootstrap method to be resolved.
     fn resolve_later(&mut self, bsm_idx: u16, bsm: Arc<OnceCell<BootstrapMethod>>);
 
+    /// Returns a cell that will be populated with a bootstrap method once that is resolved.
+    fn bsm_cell(&mut self, bsm_idx: u16) -> Arc<OnceCell<BootstrapMethod>> {
+        let cell = Arc::new(OnceCell::default());
+        self.resolve_later(bsm_idx, cell.clone());
+        cell
+    }
+
     /// Attempts to complete resolution of bootstrap methods by providing a list of bootstrap methods.
     fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()>;
     // Implementations from Code
-- 
2.43.0

