From c56de81b61af33d8cfcbc75d3176eeb699653f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 01/56] fix: emit the signed shift operator as valid Rust

---
 protospec-build/src/compiler/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index abe5e06..8ccf53f 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -278,7 +278,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                     BinaryOp::BitXor => quote! { ^ },
                     BinaryOp::Shr => quote! { >> },
                     BinaryOp::Shl => quote! { << },
-                    BinaryOp::ShrSigned => quote! { >>> },
+                    BinaryOp::ShrSigned => quote! { >> },
                     BinaryOp::Add => quote! { + },
                     BinaryOp::Sub => quote! { - },
                     BinaryOp::Mul => quote! { * },
-- 
2.43.0


From cdef7dd7d252b3c4cd38a4597d0223b75b456b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 02/56] fix: keep emitted casts, conditionals and operands
 grouped as written

---
 protospec-build/src/compiler/expr.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 8ccf53f..b2129b4 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -295,7 +295,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let target = emit_expression(&c.target, ref_resolver);
             let get_member = format_ident!("{}", c.member.name.to_snake());
             quote! {
-                #target.#get_member()
+                (#target).#get_member()
             }
         }
         Unary(c) => {
@@ -306,7 +306,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                 UnaryOp::BitNot => quote! { ! },
             };
             quote! {
-                (#op #inner)
+                (#op (#inner))
             }
         }
         Cast(c) => {
@@ -315,17 +315,17 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             match &*c.inner.get_type().unwrap().resolved() {
                 Type::Enum(_) => {
                     quote! {
-                        (#inner).to_repr() as #target
+                        ((#inner).to_repr() as #target)
                     }
                 }
                 Type::Bitfield(_) => {
                     quote! {
-                        (#inner).0 as #target
+                        ((#inner).0 as #target)
                     }
                 }
                 _ => {
                     quote! {
-                        (#inner) as #target
+                        ((#inner) as #target)
                     }
                 }
             }
@@ -385,11 +385,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let if_false = emit_expression(&c.if_false, ref_resolver);
 
             quote! {
-                if #condition {
+                (if #condition {
                     #if_true
                 } else {
                     #if_false
-                }
+                })
             }
         }
         Bool(c) => {
-- 
2.43.0


From db4f32dcbda2aa267494e9b4827ff6f011c06bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 03/56] fix: index arrays with usize in emitted expressions

---
 protospec-build/src/compiler/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index b2129b4..c68eeea 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -335,7 +335,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let index = emit_expression(&c.index, ref_resolver);
 
             quote! {
-                (#array)[#index]
+                (#array)[(#index) as usize]
             }
         }
         EnumAccess(c) => {
-- 
2.43.0


From 6d87cf3a70200a2b900f52c169a8f19796c1f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 04/56] fix: emit the value of a referenced constant

---
 protospec-build/src/compiler/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index c68eeea..3b103ee 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -361,9 +361,9 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         ConstRef(c) => {
-            let c = format_ident!("{}", c.name);
+            let value = emit_expression(&c.value, ref_resolver);
             quote! {
-                #c
+                (#value)
             }
         }
         InputRef(c) => {
-- 
2.43.0


From 8cbe9b2751a1706bd55c43ed5d8931e2dc366413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 05/56] fix: convert the operand of a unary expression once

---
 protospec-build/src/semantics/convert/expression/unary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/expression/unary.rs b/protospec-build/src/semantics/convert/expression/unary.rs
index 05243b7..0cf311f 100644
--- a/protospec-build/src/semantics/convert/expression/unary.rs
+++ b/protospec-build/src/semantics/convert/expression/unary.rs
@@ -47,7 +47,7 @@ impl Scope {
         }
         Ok(UnaryExpression {
             op: expr.op.clone(),
-            inner: Box::new(Scope::convert_expr(self_, &expr.inner, expected_type)?),
+            inner,
             span: expr.span,
         })
     }
-- 
2.43.0


From 6d42ceaf864ccbc3a4b71948a48c305dc1ac3c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 06/56] fix: reject constant arithmetic that has no value in
 its type

---
 .../src/asg/expression/const_int.rs           | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/asg/expression/const_int.rs b/protospec-build/src/asg/expression/const_int.rs
index b08936e..b74d1a1 100644
--- a/protospec-build/src/asg/expression/const_int.rs
+++ b/protospec-build/src/asg/expression/const_int.rs
@@ -1,3 +1,5 @@
+use std::convert::TryInto;
+
 use super::*;
 
 #[derive(Clone, Copy, Debug, PartialEq)]
@@ -118,7 +120,7 @@ impl Shr for ConstInt {
     type Output = Option<Self>;
 
     fn shr(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 >> i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_shr(i2.try_into().ok()?)?)
     }
 }
 
@@ -126,7 +128,7 @@ impl Shl for ConstInt {
     type Output = Option<Self>;
 
     fn shl(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 << i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_shl(i2.try_into().ok()?)?)
     }
 }
 
@@ -134,7 +136,7 @@ impl Add for ConstInt {
     type Output = Option<Self>;
 
     fn add(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 + i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_add(i2)?)
     }
 }
 
@@ -142,7 +144,7 @@ impl Sub for ConstInt {
     type Output = Option<Self>;
 
     fn sub(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 - i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_sub(i2)?)
     }
 }
 
@@ -150,7 +152,7 @@ impl Mul for ConstInt {
     type Output = Option<Self>;
 
     fn mul(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 * i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_mul(i2)?)
     }
 }
 
@@ -158,7 +160,7 @@ impl Div for ConstInt {
     type Output = Option<Self>;
 
     fn div(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 / i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_div(i2)?)
     }
 }
 
@@ -166,16 +168,15 @@ impl Rem for ConstInt {
     type Output = Option<Self>;
 
     fn rem(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 % i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_rem(i2)?)
     }
 }
 
 impl Neg for ConstInt {
     type Output = Option<Self>;
 
-    #[allow(unreachable_code, unused_variables)]
     fn neg(self) -> Self::Output {
-        const_int_map!(self, i1, -i1, unimplemented!("cannot neg unsigned value"))
+        const_int_map!(self, i1, i1.checked_neg()?, i1.checked_neg()?)
     }
 }
 
-- 
2.43.0


From 8b211811f7cf65ec9aef4c9e65136050f5223101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 07/56] fix: read fixed-length arrays without unsafe code or
 unchecked sizes

---
 protospec-build/src/compiler/decoder.rs | 38 +++++++++++++++++++++----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 06b50e5..0dc7ccd 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -13,6 +13,22 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+// reads exactly `len` bytes into a fresh `Vec<u8>`, allocating only for what the stream delivers
+fn emit_read_bytes(target: &TokenStream, len: &TokenStream, is_async: bool) -> TokenStream {
+    let async_ = map_async(is_async);
+    quote! {
+        {
+            let t_size = #len;
+            let mut raw: Vec<u8> = Vec::new();
+            (&mut *#target).take(t_size as u64).read_to_end(&mut raw)#async_?;
+            if raw.len() != t_size {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+            raw
+        }
+    }
+}
+
 fn prepare_decode(
     options: &CompileOptions,
     context: &Context,
@@ -314,13 +330,18 @@ fn prepare_decode(
                 };
                 if let Some(len) = len {
                     let len = emit_register(*len);
+                    let raw = emit_read_bytes(
+                        &target,
+                        &quote! {
+                            t_count.checked_mul(size).ok_or_else(|| decode_error("array too long"))?
+                        },
+                        is_async,
+                    );
                     statements.push(quote! {
                         let #data = {
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let raw = #raw;
                             raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
                         };
                     });
@@ -349,13 +370,18 @@ fn prepare_decode(
 
                 if let Some(len) = len {
                     let len = emit_register(*len);
+                    let raw = emit_read_bytes(
+                        &target,
+                        &quote! {
+                            t_count.checked_mul(size).ok_or_else(|| decode_error("array too long"))?
+                        },
+                        is_async,
+                    );
                     statements.push(quote! {
                         let #data = {
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let raw = #raw;
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
-- 
2.43.0


From 47f478a50f9fc1cb3d541addece3b4066bfcf1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 08/56] fix: skip padding without allocating an unread length

---
 protospec-build/src/compiler/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 0dc7ccd..6a139fe 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -527,9 +527,9 @@ fn prepare_decode(
             Instruction::Skip(target, len) => {
                 let target = emit_target(target);
                 let len = emit_register(*len);
+                let skipped = emit_read_bytes(&target, &quote! { #len as usize }, is_async);
                 statements.push(quote! {
-                    let mut big_scratch = vec![0u8; #len as usize];
-                    #target.read_exact(&mut big_scratch[..])#async_?;
+                    let _ = #skipped;
                 });
             }
         }
-- 
2.43.0


From 98f7820aee6f430e0ef9f8c327276f13fd7c7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 09/56] fix: do not preallocate an array by its undecoded
 length

---
 protospec-build/src/compiler/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 6a139fe..14571fb 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -404,7 +404,7 @@ fn prepare_decode(
                 let target = emit_target(target);
                 if let Some(stop) = stop {
                     statements.push(quote! {
-                        let mut #output = Vec::with_capacity(#stop as usize);
+                        let mut #output = Vec::new();
                         for _ in 0..#stop {
                             #inner
                         }
-- 
2.43.0


From deb280a8c97fb9825349eac88147703c1429f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 10/56] fix: terminated arrays stop at a truncated terminator
 instead of spinning

---
 protospec-build/src/compiler/decoder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 14571fb..a91fb2c 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -417,11 +417,10 @@ fn prepare_decode(
                             if buf.len() == 0 {
                                 break;
                             }
-                            if (buf.len() < #terminator.len()) {
-                                //todo: confirm this cannot infinite loop
-                                continue;
+                            if buf.len() < #terminator.len() && #terminator.starts_with(buf) {
+                                return Err(decode_error("incomplete array terminator").into());
                             }
-                            if &buf[..#terminator.len()] == #terminator {
+                            if buf.starts_with(&#terminator[..]) {
                                 #target.consume(#terminator.len());
                                 break;
                             }
-- 
2.43.0


From 7bc0dc2427ad042f36e8a5dc4cd11e4cde223a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 11/56] fix: unbounded arrays of empty elements end in an error

---
 protospec-build/src/compiler/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index a91fb2c..0ecd68d 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -440,7 +440,11 @@ fn prepare_decode(
                                 let mut #target = Cursor::new(r);
                                 let #target = &mut #target;
                                 while #target.position() < r_len {
+                                    let r_start = #target.position();
                                     #inner
+                                    if #target.position() == r_start {
+                                        return Err(decode_error("array element without content").into());
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From adec3d01380bea5499fc17724d02808fb7570037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 12/56] fix: report a wrong array length as an error when
 encoding

---
 protospec-build/src/compiler/encoder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 3029fa3..655c615 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -303,8 +303,7 @@ impl EncoderContext {
                             {
                                 let t_count = #len as usize;
                                 if t_count != #data.len() {
-                                    //todo: throw an error properly
-                                    assert_eq!(t_count, #data.len());
+                                    return Err(encode_error("array length mismatch").into());
                                 }
                                 #writing
                             }
-- 
2.43.0


From a01114270850c2a28d9d6332426a878e0a7e079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 13/56] fix: arrays of booleans produce valid code

---
 protospec-build/src/compiler/decoder.rs | 11 ++++++-----
 protospec-build/src/compiler/encoder.rs |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 0ecd68d..c31eb96 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -321,12 +321,13 @@ fn prepare_decode(
             Instruction::DecodePrimitiveArray(target, data, type_, len) => {
                 let target = emit_target(target);
                 let data = emit_register(*data);
-                let decoder = match type_ {
+                let convert = match type_ {
+                    PrimitiveType::Bool => quote! { x[0] != 0 },
                     PrimitiveType::Scalar(EndianScalarType {
                         endian: Endian::Little,
                         ..
-                    }) => quote! { from_le_bytes },
-                    _ => quote! { from_be_bytes },
+                    }) => quote! { #type_::from_le_bytes(x.try_into().unwrap()) },
+                    _ => quote! { #type_::from_be_bytes(x.try_into().unwrap()) },
                 };
                 if let Some(len) = len {
                     let len = emit_register(*len);
@@ -342,7 +343,7 @@ fn prepare_decode(
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
                             let raw = #raw;
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #convert).collect::<Vec<#type_>>()
                         };
                     });
                 } else {
@@ -351,7 +352,7 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #convert).collect::<Vec<#type_>>()
                         };
                     });
                 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 655c615..81917fa 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -267,7 +267,7 @@ impl EncoderContext {
                         PrimitiveType::Bool => {
                             quote! {
                                 for x in #data.iter() {
-                                    #target.write_all(&[if x { 1u8 } else { 0u8 }])#async_?;
+                                    #target.write_all(&[if *x { 1u8 } else { 0u8 }])#async_?;
                                 }
                             }
                         }
-- 
2.43.0


From 8c0a8eca48b86ec05c2b74a92cf8bbec8e287087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 14/56] fix: check the length of arrays of composite elements
 when encoding

---
 protospec-build/src/coder/encode/array.rs       | 1 +
 protospec-build/src/coder/encode/instruction.rs | 3 +++
 protospec-build/src/compiler/encoder.rs         | 9 +++++++++
 3 files changed, 13 insertions(+)

diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 7748bb7..ab172ca 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -89,6 +89,7 @@ impl Context {
         self.encode_type(&type_.element, target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
         let len = if let Some(len) = len {
+            self.instructions.push(Instruction::CheckLen(len, source));
             len
         } else {
             let len = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 333f912..87a5a21 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -56,6 +56,8 @@ pub enum Instruction {
 
     /// register representing iterator from -> term, term, inner
     Loop(usize, usize, Vec<Instruction>),
+    /// expected len, source
+    CheckLen(usize, usize),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
     /// register
@@ -171,6 +173,7 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
+            Instruction::CheckLen(len, source) => write!(f, "CheckLen({}, {})", len, source),
             Instruction::GetLen(dest, buffer, cast_type) => {
                 write!(f, "GetLen({}, {}, {:?})", dest, buffer, cast_type)
             }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 81917fa..fd50f88 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -100,6 +100,15 @@ impl EncoderContext {
                         }
                     });
                 }
+                Instruction::CheckLen(len, source) => {
+                    let len = emit_register(*len);
+                    let source = emit_register(*source);
+                    statements.push(quote! {
+                        if #len as usize != #source.len() {
+                            return Err(encode_error("array length mismatch").into());
+                        }
+                    });
+                }
                 Instruction::GetLen(len, source, cast_type) => {
                     let len = emit_register(*len);
                     let source = emit_register(*source);
-- 
2.43.0


From ed3165cc6256a25c0484c150297f68882f3fd5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 15/56] fix: do not preallocate a sized container's buffer by
 its declared length

---
 protospec-build/src/compiler/encoder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index fd50f88..fc6de7c 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -76,12 +76,11 @@ impl EncoderContext {
                         let #target = #source;
                     });
                 }
-                Instruction::AllocBuf(buf, len) => {
+                Instruction::AllocBuf(buf, _) => {
                     let buf = emit_register(*buf);
-                    let len = emit_register(*len);
                     statements.push(quote! {
                         //todo: strictly bound this
-                        let mut #buf: Vec<u8> = Vec::with_capacity(#len as usize);
+                        let mut #buf: Vec<u8> = Vec::new();
                     });
                 }
                 Instruction::AllocDynBuf(buf) => {
-- 
2.43.0


From a8529679f4eae561e2e3e608a2f079cd37e7ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 16/56] fix: write padding without allocating its declared
 length

---
 protospec-build/src/compiler/encoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index fc6de7c..99ccfb2 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -429,9 +429,10 @@ impl EncoderContext {
                 Instruction::Pad(target, length) => {
                     let length = emit_register(*length);
                     let target = emit_target(target);
-                    //todo: dont alloc on the heap
                     statements.push(quote! {
-                        #target.write_all(&vec![0u8; #length as usize][..])#async_?;
+                        for _ in 0..#length as u64 {
+                            #target.write_all(&[0u8])#async_?;
+                        }
                     });
                 }
                 Instruction::SetRef(name, value) => {
-- 
2.43.0


From 9d3ae6a18818f5d70b9e6c015ac156545ab37ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 17/56] fix: encode transforms in the order the decoder undoes
 them

---
 protospec-build/src/coder/encode/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 1cc8eca..a2f375e 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -67,7 +67,7 @@ impl Context {
     ) {
         let mut new_streams = vec![];
 
-        for transform in field.transforms.borrow().iter() {
+        for transform in field.transforms.borrow().iter().rev() {
             let condition = if let Some(condition) = &transform.condition {
                 let value = self.alloc_register();
                 self.instructions
-- 
2.43.0


From f6236798068b339df721b67e34599cb8ab2366ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 18/56] fix: emit a computed length before the bytes buffered
 behind it

---
 protospec-build/src/coder/encode/container.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 831eff8..600830e 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -152,8 +152,10 @@ impl Context {
                         self.eval_blen_expr(&blen_calls[..], auto_field, calculated);
 
                     auto_targets.remove(i);
-                    let target = auto_targets
-                        .get(i)
+                    // the enclosing buffer is the one that was pending just before this one
+                    let target = i
+                        .checked_sub(1)
+                        .and_then(|outer| auto_targets.get(outer))
                         .map(|(target, _)| Target::Buf(*target))
                         .unwrap_or(buf_target);
                     self.encode_field(target, calculated_register, auto_field, conditional);
-- 
2.43.0


From 7287ca9e9e232c92fe9903fdc3f0256c81e151ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 19/56] fix: decode variable-length integers over their whole
 range

---
 protospec-build/src/prelude/var.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/prelude/var.rs b/protospec-build/src/prelude/var.rs
index 66b0e50..ede3bb8 100644
--- a/protospec-build/src/prelude/var.rs
+++ b/protospec-build/src/prelude/var.rs
@@ -71,7 +71,7 @@ impl ForeignType for VarInt {
         is_async: bool,
     ) -> TokenStream {
         let inner = self.type_ref();
-        let end = (self.scalar_type.size() as f64 / 7.0).ceil() as usize;
+        let end = (self.scalar_type.size() as usize * 8 + 6) / 7;
         let inner_unsigned = emit_type_ref(&self.unsigned);
         let async_ = map_async(is_async);
         quote! {
@@ -80,12 +80,12 @@ impl ForeignType for VarInt {
                 let mut buf = [0xffu8; 1];
                 let mut output: #inner = 0;
                 while (buf[0] & 128) == 128 {
+                    if i >= #end {
+                        return Err(decode_error("variable-length integer too long").into());
+                    }
                     #source.read_exact(&mut buf[..])#async_?;
                     output |= ((buf[0] as #inner_unsigned & 127) << (i * 7)) as #inner;
                     i += 1;
-                    if i > #end {
-                        break;
-                    }
                 }
                 output
             };
-- 
2.43.0


From 868d02292b8a9d9d035cabc3c45bd6705904069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 20/56] fix: decode utf16 strings big-endian and without unsafe
 code

---
 protospec-build/src/prelude/utf16.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 76540c5..d9d6236 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -31,16 +31,13 @@ impl ForeignType for Utf16 {
         let len = arguments.first().expect("missing len argument");
         quote! {
             let #output_ref = {
-                let t_count = #len as usize;
-                let mut t: Vec<u16> = Vec::with_capacity(t_count);
-                unsafe { t.set_len(t_count); }
-                let t_borrow = &mut t[..];
-                let t_borrow2 = unsafe {
-                    let len = t_borrow.len() * 2;
-                    let ptr = t.as_ptr() as *mut u8;
-                    slice::from_raw_parts_mut(ptr, len)
-                };
-                #source.read_exact(&mut t_borrow2[..])#async_?;
+                let t_size = (#len as u64).checked_mul(2).ok_or_else(|| decode_error("string too long"))?;
+                let mut raw: Vec<u8> = Vec::new();
+                (&mut *#source).take(t_size).read_to_end(&mut raw)#async_?;
+                if raw.len() as u64 != t_size {
+                    return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                }
+                let t = raw.chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect::<Vec<u16>>();
                 String::from_utf16(&t[..])?
             };
         }
-- 
2.43.0


From 3f5a3612e673e38005c819eb6ac5a30c87d20896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 21/56] fix: decode utf8 strings of a given length without
 unsafe code

---
 protospec-build/src/prelude/utf8.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 4c01365..c724d79 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -31,16 +31,12 @@ impl ForeignType for Utf8 {
         if let Some(len) = arguments.first() {
             quote! {
                 let #output_ref = {
-                    let t_count = #len as usize;
-                    let mut t: Vec<u8> = Vec::with_capacity(t_count);
-                    unsafe { t.set_len(t_count); }
-                    let t_borrow = &mut t[..];
-                    let t_borrow2 = unsafe {
-                        let len = t_borrow.len();
-                        let ptr = t.as_ptr() as *mut u8;
-                        slice::from_raw_parts_mut(ptr, len)
-                    };
-                    #source.read_exact(&mut t_borrow2[..])#async_?;
+                    let t_size = #len as u64;
+                    let mut t: Vec<u8> = Vec::new();
+                    (&mut *#source).take(t_size).read_to_end(&mut t)#async_?;
+                    if t.len() as u64 != t_size {
+                        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                    }
                     String::from_utf8(t)?
                 };
             }
-- 
2.43.0


From 97fe83df49ce71119950a9463ddc8f9f70eeca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 22/56] fix: read both digits of a hexadecimal escape

---
 protospec-build/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 29f5e9c..cf9f0dd 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -216,7 +216,7 @@ impl Token {
                                 i += 1;
                                 out.push(
                                     u8::from_str_radix(
-                                        std::str::from_utf8(&input[i..i + 2]).unwrap(),
+                                        std::str::from_utf8(&input[i - 1..i + 1]).unwrap(),
                                         16,
                                     )
                                     .unwrap(),
-- 
2.43.0


From 1632827ea2a2614cf138db2f657fb7f36f26019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 23/56] fix: a combined span covers both of its parts

---
 protospec-build/src/tokenizer.rs | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index cf9f0dd..61ef798 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -493,27 +493,15 @@ impl std::ops::Add for Span {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        if self.line_start == other.line_stop {
-            Span {
-                line_start: self.line_start,
-                line_stop: self.line_stop,
-                col_start: self.col_start.min(other.col_start),
-                col_stop: self.col_stop.max(other.col_stop),
-            }
-        } else if self.line_start < other.line_start {
-            Span {
-                line_start: self.line_start,
-                line_stop: other.line_stop,
-                col_start: self.col_start,
-                col_stop: other.col_stop,
-            }
-        } else {
-            Span {
-                line_start: other.line_start,
-                line_stop: self.line_stop,
-                col_start: other.col_start,
-                col_stop: self.col_stop,
-            }
+        let (line_start, col_start) =
+            (self.line_start, self.col_start).min((other.line_start, other.col_start));
+        let (line_stop, col_stop) =
+            (self.line_stop, self.col_stop).max((other.line_stop, other.col_stop));
+        Span {
+            line_start,
+            line_stop,
+            col_start,
+            col_stop,
         }
     }
 }
-- 
2.43.0


From 476f5f1714f194627324da742271aafcb4aff07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 24/56] fix: positions account for every line break and start
 at column one

---
 protospec-build/src/tokenizer.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 61ef798..fae7c39 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -528,32 +528,30 @@ impl fmt::Debug for SpannedToken {
 pub fn tokenize(input: &str, strip_comments: bool) -> Result<Vec<SpannedToken>> {
     let mut input = input.as_bytes();
     let mut tokens = vec![];
-    let mut index = 064;
+    let mut index = 0u64;
     let mut line_no = 1u64;
     let mut line_start = 0u64;
     while input.len() > 0 {
         match Token::gobble(input) {
             (output, Some(token)) => {
                 let start_line = line_no;
-                match &token {
-                    Token::CommentLine(_) => {
+                let col_start = index - line_start + 1;
+                for x in &input[..input.len() - output.len()] {
+                    index += 1;
+                    if *x == b'\n' {
                         line_no += 1;
+                        line_start = index;
                     }
-                    Token::CommentBlock(s) => {
-                        line_no += s.chars().filter(|x| *x == '\n').count() as u64;
-                    }
-                    _ => (),
                 }
                 tokens.push(SpannedToken {
                     token,
                     span: Span {
                         line_start: start_line,
                         line_stop: line_no,
-                        col_start: index - line_start + 1,
-                        col_stop: index - line_start + (input.len() - output.len()) as u64 + 1,
+                        col_start,
+                        col_stop: index - line_start + 1,
                     },
                 });
-                index += (input.len() - output.len()) as u64;
                 input = output;
             }
             (output, None) => {
@@ -561,9 +559,10 @@ pub fn tokenize(input: &str, strip_comments: bool) -> Result<Vec<SpannedToken>>
                     break;
                 } else if output.len() == input.len() {
                     return Err(protospec_err!(
-                        "unexpected token '{}' @ {}",
+                        "unexpected token '{}' @ {}:{}",
                         String::from_utf8_lossy(&[input[0]]),
-                        index
+                        line_no,
+                        index - line_start + 1
                     ));
                 }
                 index += (input.len() - output.len()) as u64;
-- 
2.43.0


From 15df74432e5aff5f3b259de56dafe445d3508675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 25/56] fix: report surplus arguments of foreign functions as
 an error

---
 protospec-build/src/semantics/convert/ffi_arguments.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/ffi_arguments.rs b/protospec-build/src/semantics/convert/ffi_arguments.rs
index 7cfed2f..fd9d917 100644
--- a/protospec-build/src/semantics/convert/ffi_arguments.rs
+++ b/protospec-build/src/semantics/convert/ffi_arguments.rs
@@ -11,7 +11,7 @@ impl Scope {
         let min_arg_count = type_arguments.iter().filter(|x| !x.optional).count();
         // optionals MUST be at the end
         if min_arg_count < arguments.len()
-            && type_arguments[type_arguments.len() - min_arg_count..]
+            && type_arguments[min_arg_count..]
                 .iter()
                 .any(|x| !x.optional)
         {
-- 
2.43.0


From 79a5f665b13a2d452a2b0cf98e5550a5da433083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 26/56] fix: accept type arguments whose defaults come last

---
 protospec-build/src/semantics/convert/type_/type_ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/type_/type_ref.rs b/protospec-build/src/semantics/convert/type_/type_ref.rs
index 04269d0..0745415 100644
--- a/protospec-build/src/semantics/convert/type_/type_ref.rs
+++ b/protospec-build/src/semantics/convert/type_/type_ref.rs
@@ -13,9 +13,9 @@ impl Scope {
                 .count();
             // optionals MUST be at the end
             if min_arg_count < type_.arguments.len()
-                && target_args[target_args.len() - min_arg_count..]
+                && target_args[min_arg_count..]
                     .iter()
-                    .any(|x| x.default_value.is_some())
+                    .any(|x| x.default_value.is_none())
             {
                 return Err(AsgError::InvalidTypeArgumentOrder(type_.span));
             }
-- 
2.43.0


From 05a763a29c2839e16a6cb0aa06600a0a80c2cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 27/56] fix: index arrays through type aliases

---
 protospec-build/src/asg/expression/array_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/expression/array_index.rs b/protospec-build/src/asg/expression/array_index.rs
index bd9dd2e..df459e5 100644
--- a/protospec-build/src/asg/expression/array_index.rs
+++ b/protospec-build/src/asg/expression/array_index.rs
@@ -10,7 +10,7 @@ pub struct ArrayIndexExpression {
 impl AsgExpression for ArrayIndexExpression {
     fn get_type(&self) -> Option<Type> {
         let parent_type = self.array.get_type()?;
-        match parent_type {
+        match &*parent_type.resolved() {
             Type::Array(parent_type) => Some(parent_type.element.as_ref().clone()),
             _ => None,
         }
-- 
2.43.0


From 115ef0388cbc5da998b013e362f1d090933ad5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 28/56] fix: every implicit conversion is also a legal cast

---
 protospec-build/src/asg/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index ef64d74..a38b180 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -137,7 +137,7 @@ impl Type {
     }
 
     pub fn can_cast_to(&self, to: &Type) -> bool {
-        if to.assignable_from(self) || to.can_coerce_to(self) {
+        if to.assignable_from(self) || self.can_coerce_to(to) || to.can_coerce_to(self) {
             return true;
         }
         match (self.resolved().as_ref(), to.resolved().as_ref()) {
-- 
2.43.0


From d8e05f5ad13e2aa85efa2b79bf908fe1014c60de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 29/56] fix: report import cycles instead of recursing forever

---
 protospec-build/src/semantics/convert/program/mod.rs     | 2 +-
 protospec-build/src/semantics/convert/program/resolve.rs | 8 +++++++-
 protospec-build/src/semantics/error.rs                   | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 0c15ee2..8e0b105 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -17,7 +17,7 @@ impl Program {
     ) -> AsgResult<Program> {
         let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
 
-        Program::from_ast_imports(ast, resolver, &mut cached_imports)?;
+        Program::from_ast_imports(ast, resolver, &mut cached_imports, &mut vec![])?;
         Program::from_ast_imported(ast, resolver, &cached_imports)
     }
 
diff --git a/protospec-build/src/semantics/convert/program/resolve.rs b/protospec-build/src/semantics/convert/program/resolve.rs
index 042cc22..01ea339 100644
--- a/protospec-build/src/semantics/convert/program/resolve.rs
+++ b/protospec-build/src/semantics/convert/program/resolve.rs
@@ -5,6 +5,7 @@ impl Program {
         ast: &ast::Program,
         resolver: &T,
         cache: &mut IndexMap<String, Program>,
+        pending: &mut Vec<String>,
     ) -> AsgResult<()> {
         for declaration in ast.declarations.iter() {
             match declaration {
@@ -13,6 +14,9 @@ impl Program {
                     let normalized = resolver.normalize_import(&content[..])?;
                     if let Some(_cached) = cache.get(&normalized) {
                     } else {
+                        if pending.contains(&normalized) {
+                            return Err(AsgError::ImportCycle(normalized, import.from.span));
+                        }
                         let loaded = resolver.resolve_import(&normalized)?;
                         if let Some(loaded) = loaded {
                             let parsed = match crate::parse(&loaded) {
@@ -21,7 +25,9 @@ impl Program {
                                     return Err(AsgError::ImportParse(content, import.from.span, e))
                                 }
                             };
-                            Program::from_ast_imports(&parsed, resolver, cache)?;
+                            pending.push(normalized.clone());
+                            Program::from_ast_imports(&parsed, resolver, cache, pending)?;
+                            pending.pop();
                             let asg = Program::from_ast_imported(&parsed, resolver, cache)?;
                             cache.insert(normalized, asg);
                         } else {
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 92b5aa2..9db1cb9 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -11,6 +11,8 @@ pub enum AsgError {
     FfiMissing(String, Span),
     #[error("unresolved import '{0}' @ {1}")]
     ImportMissing(String, Span),
+    #[error("import cycle through '{0}' @ {1}")]
+    ImportCycle(String, Span),
     #[error("unresolved import item '{0}' does not exist in module {1} @ {2}")]
     ImportUnresolved(String, String, Span),
     #[error("failed to parse import file '{0}' @ {1}: {2}")]
-- 
2.43.0


From 27c8c5dad637128c55802fccc926a67f531999a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 30/56] fix: report alias cycles instead of recursing forever

---
 protospec-build/src/semantics/convert/field.rs | 9 +++++++++
 protospec-build/src/semantics/error.rs         | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 9acb1cd..4034691 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -58,6 +58,15 @@ impl Scope {
 
         let asg_type = Scope::convert_ast_type(&sub_scope, &field.type_.raw_type, purpose)?;
 
+        // an alias chain that leads back to this type has no meaning and could not be resolved
+        let mut alias = asg_type.clone();
+        while let Type::Ref(reference) = alias {
+            if Arc::ptr_eq(&reference.target, into) {
+                return Err(AsgError::TypeCycle(into.name.clone(), field.span));
+            }
+            alias = reference.target.type_.borrow().clone();
+        }
+
         let condition = if let Some(condition) = &field.condition {
             Some(Scope::convert_expr(
                 &sub_scope,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 9db1cb9..b7082fa 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -19,6 +19,8 @@ pub enum AsgError {
     ImportParse(String, Span, crate::parser::ParseError),
     #[error("type name already in use: '{0}' @ {1}, originally declared at {2}")]
     TypeRedefinition(String, Span, Span),
+    #[error("type '{0}' is an alias of itself @ {1}")]
+    TypeCycle(String, Span),
     #[error("transform name already in use: '{0}' @ {1}, originally declared at {2}")]
     TransformRedefinition(String, Span, Span),
     #[error("function name already in use: '{0}' @ {1}, originally declared at {2}")]
-- 
2.43.0


From 17e9d2106cd6efa5b7dfa372abb7f4d85b8c42f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 31/56] fix: compare fields by identity so that recursive types
 can be compared

---
 protospec-build/src/asg/field.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/field.rs b/protospec-build/src/asg/field.rs
index 6573977..d582875 100644
--- a/protospec-build/src/asg/field.rs
+++ b/protospec-build/src/asg/field.rs
@@ -60,6 +60,7 @@ impl AsgExpression for Field {
 
 impl PartialEq for Field {
     fn eq(&self, other: &Field) -> bool {
-        self.name == other.name && self.type_.borrow().assignable_from(&other.type_.borrow())
+        // fields are declared once and shared, so identity also covers recursive types
+        std::ptr::eq(self, other)
     }
 }
-- 
2.43.0


From b33fae678c9891502ce94ded80868438ee5b2ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 32/56] fix: reject repeated type argument names

---
 protospec-build/src/semantics/convert/field.rs | 10 ++++++++++
 protospec-build/src/semantics/error.rs         |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 4034691..938e2cd 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -16,6 +16,16 @@ impl Scope {
         let mut arguments = vec![];
         if let Some(ast_arguments) = ast_arguments {
             for argument in ast_arguments {
+                if sub_scope
+                    .borrow()
+                    .declared_inputs
+                    .contains_key(&argument.name.name)
+                {
+                    return Err(AsgError::TypeArgumentRedefinition(
+                        argument.name.name.clone(),
+                        argument.span,
+                    ));
+                }
                 let target_type = Scope::convert_ast_type(
                     &sub_scope,
                     &argument.type_.raw_type,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index b7082fa..24748bf 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -25,6 +25,8 @@ pub enum AsgError {
     TransformRedefinition(String, Span, Span),
     #[error("function name already in use: '{0}' @ {1}, originally declared at {2}")]
     FunctionRedefinition(String, Span, Span),
+    #[error("type argument name already in use: '{0}' @ {1}")]
+    TypeArgumentRedefinition(String, Span),
     #[error("const name already in use: '{0}' @ {1}, originally declared at {2}")]
     ConstRedefinition(String, Span, Span),
     #[error("const cannot declare complex type: '{0}' @ {1}")]
-- 
2.43.0


From 7e21b3ecff01b4841d87b87988ff222471f53080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 33/56] fix: reject imports that overwrite a declared name

---
 .../src/semantics/convert/program/import.rs   | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/protospec-build/src/semantics/convert/program/import.rs b/protospec-build/src/semantics/convert/program/import.rs
index 13e130c..f978468 100644
--- a/protospec-build/src/semantics/convert/program/import.rs
+++ b/protospec-build/src/semantics/convert/program/import.rs
@@ -19,10 +19,31 @@ impl Scope {
                     import_item.name.name.clone()
                 };
                 if let Some(t) = cached.types.get(&import_item.name.name) {
+                    if let Some(defined) = program.borrow().types.get(&imported_name) {
+                        return Err(AsgError::TypeRedefinition(
+                            imported_name,
+                            import_item.name.span,
+                            defined.span,
+                        ));
+                    }
                     program.borrow_mut().types.insert(imported_name, t.clone());
                 } else if let Some(t) = cached.consts.get(&import_item.name.name) {
+                    if let Some(defined) = program.borrow().consts.get(&imported_name) {
+                        return Err(AsgError::ConstRedefinition(
+                            imported_name,
+                            import_item.name.span,
+                            defined.span,
+                        ));
+                    }
                     program.borrow_mut().consts.insert(imported_name, t.clone());
                 } else if let Some(t) = cached.transforms.get(&import_item.name.name) {
+                    if let Some(defined) = program.borrow().transforms.get(&imported_name) {
+                        return Err(AsgError::TransformRedefinition(
+                            imported_name,
+                            import_item.name.span,
+                            defined.span,
+                        ));
+                    }
                     program
                         .borrow_mut()
                         .transforms
-- 
2.43.0


From d478c1ea049d625ff82f092c5b219ebee15e93e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 34/56] fix: return formatting and output failures to the
 caller

---
 protospec-build/src/lib.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/lib.rs b/protospec-build/src/lib.rs
index 06a21e4..3985f94 100644
--- a/protospec-build/src/lib.rs
+++ b/protospec-build/src/lib.rs
@@ -75,18 +75,25 @@ impl Default for Options {
     }
 }
 
-pub fn rustfmt(input: &str) -> String {
+pub fn rustfmt(input: &str) -> Result<String> {
     let mut proc = Command::new("rustfmt")
         .arg("--edition")
         .arg("2021")
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
         .stderr(Stdio::inherit())
-        .spawn()
-        .expect("rustfmt failed");
-    let stdin = proc.stdin.as_mut().unwrap();
-    stdin.write_all(input.as_bytes()).unwrap();
-    String::from_utf8_lossy(&proc.wait_with_output().unwrap().stdout).to_string()
+        .spawn()?;
+    let mut stdin = proc
+        .stdin
+        .take()
+        .ok_or_else(|| -> Error { protospec_err!("rustfmt without input stream") })?;
+    stdin.write_all(input.as_bytes())?;
+    drop(stdin);
+    let output = proc.wait_with_output()?;
+    if !output.status.success() {
+        return Err(protospec_err!("rustfmt failed: {}", output.status));
+    }
+    Ok(String::from_utf8(output.stdout)?)
 }
 
 pub fn compile_spec(name: &str, spec: &str, options: &Options) -> AsgResult<()> {
@@ -103,13 +110,13 @@ pub fn compile_spec(name: &str, spec: &str, options: &Options) -> AsgResult<()>
     let compiled = compiler::compile_program(&program, &compiler_options);
     let mut compiled = compiled.to_string();
     if options.format_output {
-        compiled = rustfmt(&compiled);
+        compiled = rustfmt(&compiled)?;
     }
     let mut target: PathBuf = std::env::var("OUT_DIR")
-        .expect("OUT_DIR env var not set")
+        .map_err(|x| -> Error { x.into() })?
         .into();
     target.push(format!("{}.rs", name));
-    std::fs::write(target, compiled).expect("failed to write to target");
+    std::fs::write(target, compiled).map_err(|x| -> Error { x.into() })?;
     Ok(())
 }
 
-- 
2.43.0


From 939cc3a44fc654fe47a5c1a2691b9d2fdb7eaaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 35/56] fix: find type cycles whatever the names of their
 fields

---
 protospec-build/src/asg/types/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index a38b180..f4cf80f 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -172,9 +172,7 @@ impl Type {
             }
             Type::Container(interior) => {
                 for (_, field) in &interior.items {
-                    if target.insert(field.name.clone()) {
-                        field.get_indirect_contained_fields(target);
-                    }
+                    field.get_indirect_contained_fields(target);
                 }
             }
             Type::Ref(call) => {
-- 
2.43.0


From 681f712d9bb592c8207c43abe7799e7cad537079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 36/56] fix: measure the length of a utf16 string in its own
 code units

---
 protospec-build/src/ffi/type_.rs     | 8 ++++++++
 protospec-build/src/prelude/len.rs   | 3 ++-
 protospec-build/src/prelude/utf16.rs | 6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/ffi/type_.rs b/protospec-build/src/ffi/type_.rs
index a64e863..d1460a7 100644
--- a/protospec-build/src/ffi/type_.rs
+++ b/protospec-build/src/ffi/type_.rs
@@ -1,4 +1,5 @@
 use proc_macro2::TokenStream;
+use quote::quote;
 
 use crate::{
     asg::{Type, TypeArgument},
@@ -88,6 +89,13 @@ pub trait ForeignType {
     /// All optional arguments must come at the end of the list of arguments.
     fn arguments(&self) -> Vec<TypeArgument>;
 
+    /// Emits an expression for the length of a value of this type, in the unit counted by its length argument
+    fn len_gen(&self, value: &TokenStream) -> TokenStream {
+        quote! {
+            (#value).len() as u64
+        }
+    }
+
     /// If true, this type can be freely copied
     fn copyable(&self) -> bool;
 }
diff --git a/protospec-build/src/prelude/len.rs b/protospec-build/src/prelude/len.rs
index 48b3af4..4e70add 100644
--- a/protospec-build/src/prelude/len.rs
+++ b/protospec-build/src/prelude/len.rs
@@ -27,11 +27,12 @@ impl LenFunction {
                     #size
                 }
             }
-            Type::Array(_) | Type::Foreign(_) => {
+            Type::Array(_) => {
                 quote! {
                     (#value).len() as u64
                 }
             }
+            Type::Foreign(f) => f.obj.len_gen(value),
             Type::Ref(type_call) => self.len(&*type_call.target.type_.borrow(), value),
         }
     }
diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index d9d6236..f48cc24 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -69,6 +69,12 @@ impl ForeignType for Utf16 {
         }]
     }
 
+    fn len_gen(&self, value: &TokenStream) -> TokenStream {
+        quote! {
+            (#value).encode_utf16().count() as u64
+        }
+    }
+
     fn copyable(&self) -> bool {
         false
     }
-- 
2.43.0


From 254021c02e6bf0bb6a7d51102e16f94832507a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 37/56] fix: spans of types, fields, transforms, lengths and
 enum accesses end where the construct ends

---
 .../parser/declaration/const_declaration.rs   |  2 +-
 .../parser/declaration/type_declaration.rs    |  2 +-
 .../src/parser/expression/primary.rs          |  4 +--
 protospec-build/src/parser/field.rs           | 18 +++--------
 protospec-build/src/parser/token_iter.rs      | 31 +++++++++++++------
 protospec-build/src/parser/types/array.rs     |  7 ++---
 protospec-build/src/parser/types/mod.rs       |  2 +-
 7 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/protospec-build/src/parser/declaration/const_declaration.rs b/protospec-build/src/parser/declaration/const_declaration.rs
index aab03dc..4f97f9d 100644
--- a/protospec-build/src/parser/declaration/const_declaration.rs
+++ b/protospec-build/src/parser/declaration/const_declaration.rs
@@ -9,7 +9,7 @@ pub fn parse_const_declaration(t: &mut TokenIter) -> ParseResult<ConstDeclaratio
     let value = parse_expression(t)?;
 
     Ok(ConstDeclaration {
-        span: start + *value.span(),
+        span: start + t.last_span(),
         name,
         type_,
         value,
diff --git a/protospec-build/src/parser/declaration/type_declaration.rs b/protospec-build/src/parser/declaration/type_declaration.rs
index 35bd8bb..39b8e3c 100644
--- a/protospec-build/src/parser/declaration/type_declaration.rs
+++ b/protospec-build/src/parser/declaration/type_declaration.rs
@@ -16,7 +16,7 @@ pub fn parse_type_declaration(t: &mut TokenIter) -> ParseResult<TypeDeclaration>
                 None
             };
             arguments.push(TypeArgument {
-                span: name.span,
+                span: name.span + t.last_span(),
                 name,
                 type_: inner_type,
                 default_value,
diff --git a/protospec-build/src/parser/expression/primary.rs b/protospec-build/src/parser/expression/primary.rs
index f7dde4c..a2d73bd 100644
--- a/protospec-build/src/parser/expression/primary.rs
+++ b/protospec-build/src/parser/expression/primary.rs
@@ -6,7 +6,7 @@ pub fn parse_primary_expression(t: &mut TokenIter) -> ParseResult<Expression> {
         Token::Int(value) => Expression::Int(Int {
             value,
             type_: parse_scalar_type(t).map(|x| x.scalar),
-            span,
+            span: span + t.last_span(),
         }),
         Token::String(content) => Expression::Str(Str { content, span }),
         Token::True | Token::False => Expression::Bool(Bool {
@@ -18,7 +18,7 @@ pub fn parse_primary_expression(t: &mut TokenIter) -> ParseResult<Expression> {
             if t.eat(Token::DoubleColon).is_some() {
                 let variant = t.expect_ident()?;
                 Expression::EnumAccess(EnumAccessExpression {
-                    span: ident.span + ident.span,
+                    span: ident.span + variant.span,
                     name: ident,
                     variant,
                 })
diff --git a/protospec-build/src/parser/field.rs b/protospec-build/src/parser/field.rs
index 146fe3a..7ae1d86 100644
--- a/protospec-build/src/parser/field.rs
+++ b/protospec-build/src/parser/field.rs
@@ -12,11 +12,7 @@ pub fn parse_field(t: &mut TokenIter) -> ParseResult<Field> {
     } = parse_field_components(t)?;
 
     let out = Field {
-        span: transforms
-            .last()
-            .map(|x| x.span + start)
-            .or_else(|| condition.as_ref().map(|x| *x.span() + start))
-            .unwrap_or(start),
+        span: start + t.last_span(),
         type_,
         calculated,
         condition,
@@ -63,27 +59,23 @@ fn parse_field_components(t: &mut TokenIter) -> ParseResult<FieldComponents> {
 
     while t.eat(Token::Arrow).is_some() {
         let name = t.expect_ident()?;
-        let mut span = name.span;
+        let start = name.span;
         let mut arguments = vec![];
         if t.eat(Token::LeftParen).is_some() {
             loop {
-                if let Some(token) = t.eat(Token::RightParen) {
-                    span = span + token.span;
+                if t.eat(Token::RightParen).is_some() {
                     break;
                 }
                 arguments.push(parse_expression(t)?);
                 if t.eat(Token::Comma).is_none() {
-                    span = span + t.expect(Token::RightParen)?;
+                    t.expect(Token::RightParen)?;
                     break;
                 }
             }
         }
         let conditional = parse_conditional_clause(t)?;
-        if let Some(conditional) = &conditional {
-            span = span + *conditional.span();
-        }
         transforms.push(Transform {
-            span,
+            span: start + t.last_span(),
             arguments,
             name,
             conditional,
diff --git a/protospec-build/src/parser/token_iter.rs b/protospec-build/src/parser/token_iter.rs
index b8eae84..70b5025 100644
--- a/protospec-build/src/parser/token_iter.rs
+++ b/protospec-build/src/parser/token_iter.rs
@@ -2,20 +2,33 @@ use super::*;
 
 pub struct TokenIter {
     inner: Vec<SpannedToken>,
+    last: Span,
 }
 
 impl Iterator for TokenIter {
     type Item = SpannedToken;
 
     fn next(&mut self) -> Option<SpannedToken> {
-        self.inner.pop()
+        let token = self.inner.pop();
+        if let Some(token) = &token {
+            self.last = token.span;
+        }
+        token
     }
 }
 
 impl TokenIter {
     pub fn new(mut tokens: Vec<SpannedToken>) -> Self {
         tokens.reverse();
-        TokenIter { inner: tokens }
+        TokenIter {
+            inner: tokens,
+            last: Span::default(),
+        }
+    }
+
+    /// the span of the token consumed last
+    pub fn last_span(&self) -> Span {
+        self.last
     }
 
     pub fn peek(&self) -> ParseResult<&Token> {
@@ -46,7 +59,7 @@ impl TokenIter {
     pub fn eat(&mut self, token: Token) -> Option<SpannedToken> {
         if let Some(SpannedToken { token: inner, .. }) = self.inner.last() {
             if &token == inner {
-                return self.inner.pop();
+                return self.next();
             }
         }
         None
@@ -55,7 +68,7 @@ impl TokenIter {
     pub fn eat_any(&mut self, token: &[Token]) -> Option<SpannedToken> {
         if let Some(SpannedToken { token: inner, .. }) = self.inner.last() {
             if token.iter().any(|x| x == inner) {
-                return self.inner.pop();
+                return self.next();
             }
         }
         None
@@ -64,7 +77,7 @@ impl TokenIter {
     pub fn expect(&mut self, token: Token) -> ParseResult<Span> {
         if let Some(SpannedToken { token: inner, span }) = self.inner.last() {
             if &token == inner {
-                return Ok(self.inner.pop().unwrap().span);
+                return Ok(self.next().unwrap().span);
             } else {
                 return Err(ParseError::Unexpected(
                     SpannedToken {
@@ -82,7 +95,7 @@ impl TokenIter {
     pub fn expect_oneof(&mut self, token: &[Token]) -> ParseResult<SpannedToken> {
         if let Some(SpannedToken { token: inner, span }) = self.inner.last() {
             if token.iter().any(|x| x == inner) {
-                return Ok(self.inner.pop().unwrap());
+                return Ok(self.next().unwrap());
             } else {
                 return Err(ParseError::Unexpected(
                     SpannedToken {
@@ -104,7 +117,7 @@ impl TokenIter {
     pub fn expect_ident(&mut self) -> ParseResult<Ident> {
         if let Some(SpannedToken { token: inner, span }) = self.inner.last() {
             if let Token::Ident(_) = inner {
-                let token = self.inner.pop().unwrap();
+                let token = self.next().unwrap();
                 if let SpannedToken {
                     token: Token::Ident(name),
                     span,
@@ -131,7 +144,7 @@ impl TokenIter {
     pub fn expect_string(&mut self) -> ParseResult<Str> {
         if let Some(SpannedToken { token: inner, span }) = self.inner.last() {
             if let Token::String(_) = inner {
-                let token = self.inner.pop().unwrap();
+                let token = self.next().unwrap();
                 if let SpannedToken {
                     token: Token::String(content),
                     span,
@@ -156,7 +169,7 @@ impl TokenIter {
     }
 
     pub fn expect_any(&mut self) -> ParseResult<SpannedToken> {
-        if let Some(x) = self.inner.pop() {
+        if let Some(x) = self.next() {
             Ok(x)
         } else {
             Err(ParseError::UnexpectedEOF)
diff --git a/protospec-build/src/parser/types/array.rs b/protospec-build/src/parser/types/array.rs
index ff56a67..5254776 100644
--- a/protospec-build/src/parser/types/array.rs
+++ b/protospec-build/src/parser/types/array.rs
@@ -1,6 +1,7 @@
 use super::*;
 
 pub fn parse_length_constraint(t: &mut TokenIter) -> ParseResult<LengthConstraint> {
+    let start_span = t.peek_span()?;
     let start = t.eat(Token::DotDot);
     let expression = if t.peek_token(Token::RightSquare)? {
         None
@@ -13,11 +14,7 @@ pub fn parse_length_constraint(t: &mut TokenIter) -> ParseResult<LengthConstrain
     }
 
     Ok(LengthConstraint {
-        span: start
-            .as_ref()
-            .map(|x| x.span)
-            .or_else(|| expression.as_ref().map(|x| *x.span()))
-            .unwrap(),
+        span: start_span + t.last_span(),
         expandable: start.is_some(),
         inner: expression,
     })
diff --git a/protospec-build/src/parser/types/mod.rs b/protospec-build/src/parser/types/mod.rs
index eae5dd6..3c01492 100644
--- a/protospec-build/src/parser/types/mod.rs
+++ b/protospec-build/src/parser/types/mod.rs
@@ -54,7 +54,7 @@ pub fn parse_type(t: &mut TokenIter) -> ParseResult<Type> {
     };
 
     let mut out = Type {
-        span: start,
+        span: start + t.last_span(),
         raw_type,
     };
 
-- 
2.43.0


From ab4aedd4a137d91ac5a12a18788e1f2c66eb4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 38/56] fix: deeply nested descriptions are an error instead of
 a stack overflow

---
 protospec-build/src/parser/error.rs          |  2 ++
 protospec-build/src/parser/expression/mod.rs |  4 ++++
 protospec-build/src/parser/token_iter.rs     | 19 +++++++++++++++++++
 protospec-build/src/parser/types/mod.rs      |  4 ++++
 4 files changed, 29 insertions(+)

diff --git a/protospec-build/src/parser/error.rs b/protospec-build/src/parser/error.rs
index 8655269..6585a97 100644
--- a/protospec-build/src/parser/error.rs
+++ b/protospec-build/src/parser/error.rs
@@ -20,6 +20,8 @@ pub enum ParseError {
     #[error("unknown container directive '{0}' @ {1}'")]
     UnknownContainerDirective(String, Span),
 
+    #[error("types or expressions are nested too deeply @ '{0}'")]
+    NestingTooDeep(Span),
     #[error("unknown")]
     Unknown(#[from] crate::Error),
 }
diff --git a/protospec-build/src/parser/expression/mod.rs b/protospec-build/src/parser/expression/mod.rs
index b09bcbc..5dfbf19 100644
--- a/protospec-build/src/parser/expression/mod.rs
+++ b/protospec-build/src/parser/expression/mod.rs
@@ -43,6 +43,10 @@ mod primary;
 use primary::*;
 
 pub fn parse_expression(t: &mut TokenIter) -> ParseResult<Expression> {
+    t.nested(parse_ternary_expression)
+}
+
+fn parse_ternary_expression(t: &mut TokenIter) -> ParseResult<Expression> {
     let expr = parse_or_expression(t)?;
     if t.eat(Token::Question).is_some() {
         let if_true = parse_expression(t)?;
diff --git a/protospec-build/src/parser/token_iter.rs b/protospec-build/src/parser/token_iter.rs
index 70b5025..e55b979 100644
--- a/protospec-build/src/parser/token_iter.rs
+++ b/protospec-build/src/parser/token_iter.rs
@@ -1,8 +1,12 @@
 use super::*;
 
+/// how deep types and expressions may be nested in each other
+const MAX_NESTING: usize = 32;
+
 pub struct TokenIter {
     inner: Vec<SpannedToken>,
     last: Span,
+    depth: usize,
 }
 
 impl Iterator for TokenIter {
@@ -23,7 +27,22 @@ impl TokenIter {
         TokenIter {
             inner: tokens,
             last: Span::default(),
+            depth: 0,
+        }
+    }
+
+    /// parses a construct that can contain itself
+    pub fn nested<T>(
+        &mut self,
+        parse: impl FnOnce(&mut TokenIter) -> ParseResult<T>,
+    ) -> ParseResult<T> {
+        if self.depth >= MAX_NESTING {
+            return Err(ParseError::NestingTooDeep(self.peek_span()?));
         }
+        self.depth += 1;
+        let result = parse(self);
+        self.depth -= 1;
+        result
     }
 
     /// the span of the token consumed last
diff --git a/protospec-build/src/parser/types/mod.rs b/protospec-build/src/parser/types/mod.rs
index 3c01492..1456a60 100644
--- a/protospec-build/src/parser/types/mod.rs
+++ b/protospec-build/src/parser/types/mod.rs
@@ -16,6 +16,10 @@ mod bitfield;
 use bitfield::*;
 
 pub fn parse_type(t: &mut TokenIter) -> ParseResult<Type> {
+    t.nested(parse_any_type)
+}
+
+fn parse_any_type(t: &mut TokenIter) -> ParseResult<Type> {
     let start = t.peek_span()?;
 
     let raw_type = match t.peek()? {
-- 
2.43.0


From fb8d8a15dc1531e38a7ed8c2ad201d3e1b803d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 39/56] fix: check expressions against the types of
 declarations further down instead of a placeholder

---
 .../src/semantics/convert/field.rs            |  9 ---
 .../src/semantics/convert/program/field.rs    | 69 +++++++++++++++++++
 .../src/semantics/convert/program/mod.rs      |  4 ++
 3 files changed, 73 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 938e2cd..48df3c7 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -68,15 +68,6 @@ impl Scope {
 
         let asg_type = Scope::convert_ast_type(&sub_scope, &field.type_.raw_type, purpose)?;
 
-        // an alias chain that leads back to this type has no meaning and could not be resolved
-        let mut alias = asg_type.clone();
-        while let Type::Ref(reference) = alias {
-            if Arc::ptr_eq(&reference.target, into) {
-                return Err(AsgError::TypeCycle(into.name.clone(), field.span));
-            }
-            alias = reference.target.type_.borrow().clone();
-        }
-
         let condition = if let Some(condition) = &field.condition {
             Some(Scope::convert_expr(
                 &sub_scope,
diff --git a/protospec-build/src/semantics/convert/program/field.rs b/protospec-build/src/semantics/convert/program/field.rs
index 1e59b45..97254d1 100644
--- a/protospec-build/src/semantics/convert/program/field.rs
+++ b/protospec-build/src/semantics/convert/program/field.rs
@@ -34,4 +34,73 @@ impl Scope {
             .insert(type_.name.name.clone(), field.clone());
         Ok(field)
     }
+
+    /// sets the type of a declaration as far as it is known without converting any expression,
+    /// so that expressions are checked against it wherever it is declared
+    pub(super) fn outline_type_declaration(
+        type_: &TypeDeclaration,
+        field: &Arc<Field>,
+        program: &RefCell<Program>,
+    ) -> AsgResult<()> {
+        let outline = Scope::outline_type(&type_.value.type_.raw_type, program);
+
+        // an alias chain that leads back to this type has no meaning and could not be resolved
+        let mut alias = outline.clone();
+        while let Type::Ref(reference) = alias {
+            if Arc::ptr_eq(&reference.target, field) {
+                return Err(AsgError::TypeCycle(field.name.clone(), type_.value.span));
+            }
+            alias = reference.target.type_.borrow().clone();
+        }
+
+        field.type_.replace(outline);
+        Ok(())
+    }
+
+    fn outline_type(raw_type: &ast::RawType, program: &RefCell<Program>) -> Type {
+        match raw_type {
+            ast::RawType::Scalar(type_) => Type::Scalar(*type_),
+            ast::RawType::F32 => Type::F32,
+            ast::RawType::F64 => Type::F64,
+            ast::RawType::Bool => Type::Bool,
+            ast::RawType::Array(type_) => Type::Array(Box::new(ArrayType {
+                element: Box::new(Scope::outline_type(&type_.interior_type.raw_type, program)),
+                length: LengthConstraint {
+                    expandable: type_.length.expandable,
+                    value: None,
+                },
+            })),
+            ast::RawType::Ref(type_) => match program.borrow().types.get(&type_.name.name) {
+                Some(target) => Type::Ref(TypeRef {
+                    target: target.clone(),
+                    arguments: vec![],
+                }),
+                None => Type::Bool, // reported when the declaration is converted
+            },
+            // nothing is assignable to a complex type but itself
+            ast::RawType::Container(_) | ast::RawType::Enum(_) | ast::RawType::Bitfield(_) => {
+                let mut items = IndexMap::new();
+                items.insert(
+                    String::new(),
+                    Arc::new(Field {
+                        name: String::new(),
+                        arguments: RefCell::new(vec![]),
+                        span: Span::default(),
+                        type_: RefCell::new(Type::Bool),
+                        condition: RefCell::new(None),
+                        calculated: RefCell::new(None),
+                        transforms: RefCell::new(vec![]),
+                        toplevel: false,
+                        is_maybe_cyclical: Cell::new(false),
+                        is_pad: Cell::new(false),
+                    }),
+                );
+                Type::Container(Box::new(ContainerType {
+                    length: None,
+                    items,
+                    is_enum: Cell::new(false),
+                }))
+            }
+        }
+    }
 }
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 8e0b105..4a8ff2d 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -111,6 +111,10 @@ impl Program {
                 }
             }
 
+            for (type_, field) in &return_fields {
+                Scope::outline_type_declaration(type_, field, &*program)?;
+            }
+
             // convert arguments
             let mut sub_scopes = vec![];
             for (type_, field) in &return_fields {
-- 
2.43.0


From 499a7cf61b0bc6f0b6504dfa023c046ee8287364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 40/56] fix: report array types that are elements of themselves
 instead of recursing forever

---
 .../src/semantics/convert/program/field.rs    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/field.rs b/protospec-build/src/semantics/convert/program/field.rs
index 97254d1..a6cb841 100644
--- a/protospec-build/src/semantics/convert/program/field.rs
+++ b/protospec-build/src/semantics/convert/program/field.rs
@@ -44,13 +44,20 @@ impl Scope {
     ) -> AsgResult<()> {
         let outline = Scope::outline_type(&type_.value.type_.raw_type, program);
 
-        // an alias chain that leads back to this type has no meaning and could not be resolved
+        // a chain of aliases and array elements that leads back to this type has no meaning
+        // and could not be resolved
         let mut alias = outline.clone();
-        while let Type::Ref(reference) = alias {
-            if Arc::ptr_eq(&reference.target, field) {
-                return Err(AsgError::TypeCycle(field.name.clone(), type_.value.span));
-            }
-            alias = reference.target.type_.borrow().clone();
+        loop {
+            alias = match alias {
+                Type::Ref(reference) => {
+                    if Arc::ptr_eq(&reference.target, field) {
+                        return Err(AsgError::TypeCycle(field.name.clone(), type_.value.span));
+                    }
+                    reference.target.type_.borrow().clone()
+                }
+                Type::Array(array) => *array.element,
+                _ => break,
+            };
         }
 
         field.type_.replace(outline);
-- 
2.43.0


From c3e7f994770aaa835a83fea93be2f36ee57248b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 41/56] fix: f64 values are assignable to f64, and f32 values
 are converted to it

---
 protospec-build/src/asg/types/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index f4cf80f..27fd99b 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -103,7 +103,7 @@ impl Type {
             (Type::Scalar(s1), Type::Scalar(s2)) => s2 == s1,
             (Type::Array(a1), Type::Array(a2)) => a1 == a2,
             (Type::F32, Type::F32) => true,
-            (Type::F64, Type::F32) => true,
+            (Type::F64, Type::F64) => true,
             (Type::Bool, Type::Bool) => true,
             (_, _) => false,
         }
@@ -132,6 +132,7 @@ impl Type {
                 true
             }
             (Type::Scalar(s1), Type::Scalar(s2)) => s1.scalar.can_implicit_cast_to(&s2.scalar),
+            (Type::F32, Type::F64) => true,
             (_, _) => false,
         }
     }
-- 
2.43.0


From 43fde30dcd8e84b65e1fc97db9286419d0d22efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 42/56] fix: an unresolved name on the left of an operator is
 reported as such

---
 .../src/semantics/convert/expression/binary.rs            | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 705210a..fd7f25f 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -26,6 +26,14 @@ impl Scope {
             _ => expected_type.clone(),
         };
         let mut left = Scope::convert_expr(self_, &expr.left, init_expected_type.clone());
+        match left {
+            // the type of the right side might help
+            Ok(_)
+            | Err(AsgError::UnexpectedType(..))
+            | Err(AsgError::UninferredType(..))
+            | Err(AsgError::InvalidInt(..)) => (),
+            Err(e) => return Err(e),
+        }
         let right = if let Some(left_type) = left.as_ref().map(|x| x.get_type()).ok().flatten() {
             Scope::convert_expr(self_, &expr.right, left_type.into())?
         } else {
-- 
2.43.0


From f52909ca2fde8c4e9ed6a4398bfdb1f2eed54ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 43/56] fix: padding does not replace a field that is called
 like it

---
 protospec-build/src/semantics/convert/type_/container.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 8691dec..1cf5625 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -94,7 +94,11 @@ impl Scope {
                     if is_enum {
                         return Err(AsgError::EnumContainerPad(*expr.span()));
                     }
-                    let name = format!("_pad{}", pad_count);
+                    let mut name = format!("_pad{}", pad_count);
+                    while items.contains_key(&name) {
+                        pad_count += 1;
+                        name = format!("_pad{}", pad_count);
+                    }
                     pad_count += 1;
 
                     let len = Scope::convert_expr(
-- 
2.43.0


From 8ed314ab4c6b9a78c30425a80bc15ff543f9e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 44/56] fix: required arguments after optional ones cannot be
 left out

---
 protospec-build/src/semantics/convert/type_/type_ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/type_/type_ref.rs b/protospec-build/src/semantics/convert/type_/type_ref.rs
index 0745415..d5a3f74 100644
--- a/protospec-build/src/semantics/convert/type_/type_ref.rs
+++ b/protospec-build/src/semantics/convert/type_/type_ref.rs
@@ -12,7 +12,7 @@ impl Scope {
                 .filter(|x| x.default_value.is_none())
                 .count();
             // optionals MUST be at the end
-            if min_arg_count < type_.arguments.len()
+            if min_arg_count <= type_.arguments.len()
                 && target_args[min_arg_count..]
                     .iter()
                     .any(|x| x.default_value.is_none())
-- 
2.43.0


From 5fad34cf9fa308de946af9849cd6d441ced675a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:51 +0000
Subject: [PATCH 45/56] fix: arguments of types declared further down are
 checked when they are used as argument types

---
 .../src/semantics/convert/program/field.rs        | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/protospec-build/src/semantics/convert/program/field.rs b/protospec-build/src/semantics/convert/program/field.rs
index a6cb841..b60a1cb 100644
--- a/protospec-build/src/semantics/convert/program/field.rs
+++ b/protospec-build/src/semantics/convert/program/field.rs
@@ -61,6 +61,21 @@ impl Scope {
         }
 
         field.type_.replace(outline);
+        field.arguments.replace(
+            type_
+                .arguments
+                .iter()
+                .map(|argument| TypeArgument {
+                    name: argument.name.name.clone(),
+                    type_: Scope::outline_type(&argument.type_.raw_type, program),
+                    default_value: argument
+                        .default_value
+                        .as_ref()
+                        .map(|_| Expression::Bool(true)), // placeholder
+                    can_resolve_auto: false,
+                })
+                .collect(),
+        );
         Ok(())
     }
 
-- 
2.43.0


From 2fe5e353e2239f72822ac20684e9e8306fe095d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:42 +0000
Subject: [PATCH 46/56] fix: types of the same name from different files are
 told apart when looking for self-containing types

---
 protospec-build/src/asg/field.rs     | 2 +-
 protospec-build/src/asg/program.rs   | 2 +-
 protospec-build/src/asg/types/mod.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/asg/field.rs b/protospec-build/src/asg/field.rs
index d582875..28e8587 100644
--- a/protospec-build/src/asg/field.rs
+++ b/protospec-build/src/asg/field.rs
@@ -30,7 +30,7 @@ pub struct Field {
 }
 
 impl Field {
-    pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<String>) {
+    pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<*const Field>) {
         let type_ = self.type_.borrow();
         type_.get_indirect_contained_fields(target);
     }
diff --git a/protospec-build/src/asg/program.rs b/protospec-build/src/asg/program.rs
index 8d53e93..1dfdb9f 100644
--- a/protospec-build/src/asg/program.rs
+++ b/protospec-build/src/asg/program.rs
@@ -13,7 +13,7 @@ impl Program {
         for (_, field) in &self.types {
             let mut interior_fields = IndexSet::new();
             field.get_indirect_contained_fields(&mut interior_fields);
-            if interior_fields.contains(&field.name) {
+            if interior_fields.contains(&Arc::as_ptr(field)) {
                 field.is_maybe_cyclical.set(true);
             }
         }
diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 27fd99b..9044271 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -166,7 +166,7 @@ impl Type {
         }
     }
 
-    pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<String>) {
+    pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<*const Field>) {
         match self {
             Type::Array(interior) => {
                 interior.element.get_indirect_contained_fields(target);
@@ -177,7 +177,7 @@ impl Type {
                 }
             }
             Type::Ref(call) => {
-                if target.insert(call.target.name.clone()) {
+                if target.insert(Arc::as_ptr(&call.target)) {
                     call.target.get_indirect_contained_fields(target);
                 }
             }
-- 
2.43.0


From 199813c33afdc3d305fa2d4f1347409c72d14fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:23 +0000
Subject: [PATCH 47/56] fix: take the size of the container a blen call names,
 not of another one of the same name

---
 protospec-build/src/coder/encode/container.rs | 38 +++++++++----------
 protospec-build/src/coder/encode/mod.rs       |  4 +-
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 600830e..e1665e3 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::{Cell, RefCell},
-    collections::{HashMap, HashSet},
+    collections::HashMap,
 };
 
 use crate::Span;
@@ -73,15 +73,15 @@ impl Context {
 
     fn eval_blen_expr(
         &mut self,
-        blens: &[String],
+        blens: &[Arc<Field>],
         field: &Arc<Field>,
         calculated: &Expression,
     ) -> usize {
         let mut blen_map = HashMap::new();
-        for target_name in blens {
-            let register = *self.resolved_autos.get(target_name).unwrap();
-            let blen_name = format!("__blen_{}", target_name);
-            blen_map.insert(target_name.clone(), blen_name.clone());
+        for blen_target in blens {
+            let register = *self.resolved_autos.get(&Arc::as_ptr(blen_target)).unwrap();
+            let blen_name = format!("__blen_{}", blen_target.name);
+            blen_map.insert(blen_target.name.clone(), blen_name.clone());
             self.instructions
                 .push(Instruction::SetRef(blen_name, register));
         }
@@ -111,9 +111,9 @@ impl Context {
                 if !blen_calls.is_empty() {
                     let mut all_resolved = true;
                     for target in &blen_calls {
-                        if !self.resolved_autos.contains_key(target) {
+                        if !self.resolved_autos.contains_key(&Arc::as_ptr(target)) {
                             all_resolved = false;
-                            self.pending_autos.insert(target.clone());
+                            self.pending_autos.insert(Arc::as_ptr(target));
                         }
                     }
                     if all_resolved {
@@ -146,7 +146,7 @@ impl Context {
                 let blen_calls = calculated.blen_calls();
                 if blen_calls
                     .iter()
-                    .all(|x| self.resolved_autos.get(x).is_some())
+                    .all(|x| self.resolved_autos.contains_key(&Arc::as_ptr(x)))
                 {
                     let calculated_register =
                         self.eval_blen_expr(&blen_calls[..], auto_field, calculated);
@@ -181,7 +181,7 @@ impl Context {
             //todo: use limited stream
             let buf = self.alloc_register();
             // we avoid cyclic dependency during encoding by ignoring container length constraint if we're a blen-target
-            if self.pending_autos.contains(&field.name) {
+            if self.pending_autos.contains(&Arc::as_ptr(field)) {
                 self.instructions.push(Instruction::AllocDynBuf(buf));
             } else {
                 let len_register = self.alloc_register();
@@ -267,14 +267,14 @@ impl Context {
         }
 
         if type_.length.is_some() {
-            if self.pending_autos.remove(&field.name) {
+            if self.pending_autos.remove(&Arc::as_ptr(field)) {
                 let target = self.alloc_register();
                 self.instructions.push(Instruction::GetLen(
                     target,
                     buf_target.unwrap_buf(),
                     Some(ScalarType::U64),
                 ));
-                self.resolved_autos.insert(field.name.clone(), target);
+                self.resolved_autos.insert(Arc::as_ptr(field), target);
             }
             self.instructions
                 .push(Instruction::EmitBuf(target, buf_target.unwrap_buf()));
@@ -342,13 +342,13 @@ impl Expression {
         }
     }
 
-    fn blen_calls(&self) -> Vec<String> {
-        let mut out = HashSet::new();
+    fn blen_calls(&self) -> Vec<Arc<Field>> {
+        let mut out = IndexMap::new();
         self.extract_magic_blen_calls(&mut out);
-        out.into_iter().collect()
+        out.into_iter().map(|(_, field)| field).collect()
     }
 
-    fn extract_magic_blen_calls(&self, output: &mut HashSet<String>) {
+    fn extract_magic_blen_calls(&self, output: &mut IndexMap<*const Field, Arc<Field>>) {
         match self {
             Expression::Binary(expr) => {
                 expr.left.extract_magic_blen_calls(output);
@@ -382,10 +382,10 @@ impl Expression {
                 }
                 if expr.function.name == "blen" {
                     let target = expr.arguments.first().unwrap();
-                    output.insert(match target {
-                        Expression::FieldRef(f) => f.name.clone(),
+                    match target {
+                        Expression::FieldRef(f) => output.insert(Arc::as_ptr(f), f.clone()),
                         _ => panic!("invalid blen target, expected field ref"), // todo: better error message
-                    });
+                    };
                 }
             }
             Expression::Member(expr) => {
diff --git a/protospec-build/src/coder/encode/mod.rs b/protospec-build/src/coder/encode/mod.rs
index c0a2268..8753006 100644
--- a/protospec-build/src/coder/encode/mod.rs
+++ b/protospec-build/src/coder/encode/mod.rs
@@ -24,9 +24,9 @@ pub struct Context {
     pub register_count: usize,
     pub instructions: Vec<Instruction>,
     // map of resolved field name -> register
-    pub resolved_autos: IndexMap<String, usize>,
+    pub resolved_autos: IndexMap<*const Field, usize>,
     // set of pending field name
-    pub pending_autos: IndexSet<String>,
+    pub pending_autos: IndexSet<*const Field>,
 }
 
 impl Context {
-- 
2.43.0


From 830fae22c1fd69bdbc22084556c9aeeb24ddebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:52 +0000
Subject: [PATCH 48/56] fix: apply the transforms of a container variant when
 encoding a tagged container

---
 protospec-build/src/coder/encode/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index e1665e3..7ec7e08 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -231,7 +231,7 @@ impl Context {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
                         self.encode_container_calculated(type_);
-                        self.encode_container_items(type_, buf_target, source, false);
+                        self.encode_field_unconditional(buf_target, source, child, false, false);
                         self.instructions.push(Instruction::Break);
                     }
                     _ => {
-- 
2.43.0


From 42b6898835c83e18d4a73d199c3520319cfd4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:05 +0000
Subject: [PATCH 49/56] fix: optional members of optional containers are
 decoded as the options their fields are declared as

---
 protospec-build/src/coder/decode/field.rs       | 15 ++++++++++++++-
 protospec-build/src/coder/decode/instruction.rs |  1 +
 protospec-build/src/compiler/decoder.rs         |  6 ++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index 865df93..3f93721 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -57,16 +57,29 @@ impl Context {
             return emitted;
         }
         if let Some(field_condition) = field_condition {
-            let drained = self.instructions.drain(start..).collect();
+            let drained: Vec<Instruction> = self.instructions.drain(start..).collect();
             if emitted.is_empty() {
                 panic!("no emitted values from conditional");
             }
+            // optional members of an optional container are optional once
+            let optional: Vec<usize> = drained
+                .iter()
+                .filter_map(|instruction| match instruction {
+                    Instruction::Conditional(targets, ..) => Some(targets.clone()),
+                    _ => None,
+                })
+                .flatten()
+                .filter(|target| emitted.contains(target))
+                .collect();
             self.instructions.push(Instruction::Conditional(
                 emitted.clone(),
                 emitted.clone(),
                 field_condition,
                 drained,
             ));
+            for target in optional {
+                self.instructions.push(Instruction::Flatten(target));
+            }
         }
         emitted
     }
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index d5a7296..ce300ee 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -58,6 +58,7 @@ pub enum Instruction {
     ),
     LoopOutput(usize, usize), // output handle, item
     Conditional(Vec<usize>, Vec<usize>, usize, Vec<Instruction>), // target, interior_register, condition, if_true
+    Flatten(usize), // option of an option to be merged in place
     ConditionalPredicate(usize, Vec<Instruction>), // target, interior_register, condition, if_true
     /// returns from decoder early
     Return(usize),
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index c31eb96..b5580d7 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -508,6 +508,12 @@ fn prepare_decode(
                     };
                 });
             }
+            Instruction::Flatten(target) => {
+                let target = emit_register(*target);
+                statements.push(quote! {
+                    let #target = #target.flatten();
+                });
+            }
             Instruction::ConditionalPredicate(condition, inner) => {
                 let condition = emit_register(*condition);
                 let inner = prepare_decode(options, context, &inner[..], is_async, false);
-- 
2.43.0


From 8e40ab6be82b583a87a3d9e81fb1473ee98894ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:15 +0000
Subject: [PATCH 50/56] fix: streams stay usable after they were given to a
 transform

---
 protospec-build/src/compiler/decoder.rs |  4 ++++
 protospec-build/src/compiler/encoder.rs | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index b5580d7..e670546 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -181,6 +181,8 @@ fn prepare_decode(
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
                 let input = emit_target(stream);
+                // borrowed, so that the stream stays usable behind the transform
+                let input = quote! { (&mut *#input) };
                 let transformed = transformer.inner.decoding_gen(input, args, is_async);
                 statements.push(quote! {
                     let mut #new_stream_value = #transformed;
@@ -199,6 +201,8 @@ fn prepare_decode(
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
                 let input = emit_target(stream);
+                // borrowed, so that the stream stays usable behind the transform
+                let input = quote! { (&mut *#input) };
                 let transformed = transformer
                     .inner
                     .decoding_gen(input.clone(), args, is_async);
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 99ccfb2..8952b0a 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -15,6 +15,16 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+// a borrow of the target, which stays usable after it was given to a transform or another encoder
+fn emit_target_ref(target: &Target) -> TokenStream {
+    let inner = emit_target(target);
+    match target {
+        Target::Direct => quote! { (&mut *#inner) },
+        Target::Stream(_) => quote! { (&mut #inner) },
+        Target::Buf(_) => inner,
+    }
+}
+
 struct EncoderContext {
     is_async: bool,
     resolved_refs: HashMap<String, usize>,
@@ -161,7 +171,7 @@ impl EncoderContext {
                 Instruction::WrapStream(stream, new_stream, transformer, args) => {
                     let new_stream_value = emit_register(*new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_target_ref(stream);
                     let transformed = transformer.inner.encoding_gen(input, args, self.is_async);
                     statements.push(quote! {
                         let mut #new_stream_value = #transformed;
@@ -204,7 +214,7 @@ impl EncoderContext {
                         out_arguments.push(quote! {, #value});
                     }
                     let out_arguments = flatten(out_arguments);
-                    let target = emit_target(target);
+                    let target = emit_target_ref(target);
                     let source = emit_register(*source);
                     if self.is_async {
                         statements.push(quote! {
@@ -337,7 +347,7 @@ impl EncoderContext {
                     let new_stream_value = emit_register(*new_stream);
                     let owned_new_stream = emit_register(*owned_new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_target_ref(stream);
                     let transformed =
                         transformer
                             .inner
@@ -353,7 +363,7 @@ impl EncoderContext {
                     //todo: would be nicer to use generics here instead of trait object
                     statements.push(quote! {
                         let mut #owned_new_stream = None;
-                        let #new_stream_value: &mut #trait_name = if #condition {
+                        let mut #new_stream_value: &mut #trait_name = if #condition {
                             #prelude
                             #owned_new_stream = Some(#transformed);
                             #owned_new_stream.as_mut().unwrap()
-- 
2.43.0


From 5cdc4fb2bb0c6eb9c523895dbf5134fa3e6b9306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:09 +0000
Subject: [PATCH 51/56] fix: code of aliases of scalars and of arrays of them
 compiles

---
 protospec-build/src/compiler/encoder.rs |  1 +
 protospec-build/src/compiler/mod.rs     | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 8952b0a..e0c40be 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -78,6 +78,7 @@ impl EncoderContext {
                                 quote! { #source[#index as usize] }
                             }
                             FieldRef::TupleAccess(x) => {
+                                let x = Literal::usize_unsuffixed(*x);
                                 quote! { #source.#x }
                             }
                         };
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 240c04a..1909a51 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -3,7 +3,7 @@ use crate::coder;
 use crate::{BinaryOp, UnaryOp};
 use case::CaseExt;
 use expr::*;
-use proc_macro2::TokenStream;
+use proc_macro2::{Literal, TokenStream};
 use quote::TokenStreamExt;
 use quote::{format_ident, quote};
 use std::{sync::Arc, unimplemented};
@@ -164,7 +164,11 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
                 } else {
                     type_ref
                 };
-                let derives = options.emit_struct_derives(&[]);
+                let derives = if generic.copyable() {
+                    options.emit_struct_derives(&["Clone", "Copy"])
+                } else {
+                    options.emit_struct_derives(&[])
+                };
 
                 components.push(quote! {
                     #derives
@@ -312,7 +316,13 @@ pub fn emit_type_ref(item: &Type) -> TokenStream {
         Type::Bitfield(_) => unimplemented!(),
         Type::Scalar(s) => emit_ident(&s.scalar.to_string()),
         Type::Array(array_type) => {
-            let interior = emit_type_ref(&*array_type.element);
+            // arrays of an alias of a primitive are coded as arrays of the primitive
+            let interior = match &*array_type.element.resolved() {
+                element @ (Type::Scalar(_) | Type::F32 | Type::F64 | Type::Bool) => {
+                    emit_type_ref(element)
+                }
+                _ => emit_type_ref(&*array_type.element),
+            };
             quote! {
                 Vec<#interior>
             }
-- 
2.43.0


From 650573c6b305c4aadd5756288700d41d4a46e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:09 +0000
Subject: [PATCH 52/56] fix: code of bool variants and of uses of bitfield
 flags compiles

---
 protospec-build/src/compiler/encoder.rs | 2 +-
 protospec-build/src/compiler/expr.rs    | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index e0c40be..e667307 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -255,7 +255,7 @@ impl EncoderContext {
                     let target = emit_target(target);
                     let data = emit_register(*data);
                     statements.push(quote! {
-                        #target.write_all(&[if #data { 1u8 } else { 0u8 }])#async_?;
+                        #target.write_all(&[if #data.to_owned() { 1u8 } else { 0u8 }])#async_?;
                     });
                 }
                 Instruction::EncodePrimitive(
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 3b103ee..88c36bd 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -340,7 +340,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         EnumAccess(c) => {
             let enum_name = emit_ident(&c.enum_field.name);
-            let enum_variant_name = emit_ident(&c.variant.name);
+            let enum_variant_name = match &*c.enum_field.type_.borrow() {
+                // the flags of a bitfield are constants
+                Type::Bitfield(_) => emit_ident(&c.variant.name.to_snake().to_uppercase()),
+                _ => emit_ident(&c.variant.name),
+            };
             quote! {
                 #enum_name::#enum_variant_name
             }
-- 
2.43.0


From 1b29b9f0da49f304ba9d1921501af421b04debb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:09 +0000
Subject: [PATCH 53/56] fix: code reading text, lines or references behind a
 transform, and async code of conditional transforms and open arrays, compiles

---
 protospec-build/src/compiler/decoder.rs | 23 ++++++++++++++++++-----
 protospec-build/src/compiler/encoder.rs |  2 +-
 protospec-build/src/compiler/mod.rs     |  4 ++--
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index e670546..d183bf4 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -13,6 +13,15 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+// what is read behind a transform may need a buffer; one byte, so that nothing is read ahead
+fn emit_buffered(transformed: TokenStream, is_async: bool) -> TokenStream {
+    if is_async {
+        quote! { tokio::io::BufReader::with_capacity(1, #transformed) }
+    } else {
+        quote! { std::io::BufReader::with_capacity(1, #transformed) }
+    }
+}
+
 // reads exactly `len` bytes into a fresh `Vec<u8>`, allocating only for what the stream delivers
 fn emit_read_bytes(target: &TokenStream, len: &TokenStream, is_async: bool) -> TokenStream {
     let async_ = map_async(is_async);
@@ -45,7 +54,7 @@ fn prepare_decode(
             })
         } else {
             statements.push(quote! {
-                use std::io::Read;
+                use std::io::{ BufRead, Read };
             })
         }
     }
@@ -184,6 +193,7 @@ fn prepare_decode(
                 // borrowed, so that the stream stays usable behind the transform
                 let input = quote! { (&mut *#input) };
                 let transformed = transformer.inner.decoding_gen(input, args, is_async);
+                let transformed = emit_buffered(transformed, is_async);
                 statements.push(quote! {
                     let mut #new_stream_value = #transformed;
                     let #new_stream_value = &mut #new_stream_value;
@@ -206,30 +216,33 @@ fn prepare_decode(
                 let transformed = transformer
                     .inner
                     .decoding_gen(input.clone(), args, is_async);
+                let transformed = emit_buffered(transformed, is_async);
                 let prelude = prepare_decode(options, context, &prelude[..], is_async, false);
 
                 //todo: would be nicer to use generics here instead of trait object
                 if is_async {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut dyn AsyncBufRead + Unpin + Send + Sync = if #condition {
+                        let mut #new_stream_value: &mut (dyn AsyncBufRead + Unpin + Send + Sync) = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
                         } else {
-                            #input as &mut dyn AsyncBufRead + Unpin + Send + Sync
+                            #input as &mut (dyn AsyncBufRead + Unpin + Send + Sync)
                         };
+                        let #new_stream_value = &mut #new_stream_value;
                     })
                 } else {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut dyn Read = if #condition {
+                        let mut #new_stream_value: &mut dyn BufRead = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
                         } else {
-                            #input as &mut dyn Read
+                            #input as &mut dyn BufRead
                         };
+                        let #new_stream_value = &mut #new_stream_value;
                     })
                 }
             }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index e667307..c557755 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -356,7 +356,7 @@ impl EncoderContext {
                     let prelude = self.prepare_encode(&prelude[..], false);
 
                     let trait_name = if self.is_async {
-                        quote! { dyn AsyncWrite + Send + Sync + Unpin }
+                        quote! { (dyn AsyncWrite + Send + Sync + Unpin) }
                     } else {
                         quote! { dyn Write }
                     };
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 1909a51..3da7794 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -135,7 +135,7 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
     };
 
     components.push(quote! {
-        use std::io::{Read, BufRead, Cursor};
+        use std::io::Cursor;
         use std::slice;
         use std::mem;
         use std::convert::TryInto;
@@ -259,7 +259,7 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
 
     quote! {
         impl #container_ident {
-            pub fn decode_sync<R: Read + BufRead>(reader: &mut R #arguments) -> Result<Self> {
+            pub fn decode_sync<R: std::io::Read + std::io::BufRead>(reader: &mut R #arguments) -> Result<Self> {
                 #redefaults
                 #decode_sync
             }
-- 
2.43.0


From 8551a686a5ee7e64127e33d5eb73470570291275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:14 +0000
Subject: [PATCH 54/56] fix: a bitfield flag or enum member is declared at its
 own name, not at the whole declaration

---
 protospec-build/src/semantics/convert/type_/bitfield.rs | 2 +-
 protospec-build/src/semantics/convert/type_/enum_.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index 75c8174..2103186 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -20,7 +20,7 @@ impl Scope {
             //todo: static eval here
             let cons = Arc::new(Const {
                 name: name.name.clone(),
-                span: type_.span,
+                span: name.span,
                 type_: Type::Scalar(type_.rep),
                 value: match item {
                     Some(expr) => Scope::convert_expr(
diff --git a/protospec-build/src/semantics/convert/type_/enum_.rs b/protospec-build/src/semantics/convert/type_/enum_.rs
index e252a49..c56ac75 100644
--- a/protospec-build/src/semantics/convert/type_/enum_.rs
+++ b/protospec-build/src/semantics/convert/type_/enum_.rs
@@ -56,7 +56,7 @@ impl Scope {
                     };
                     EnumValue::Value(Arc::new(Const {
                         name: name.name.clone(),
-                        span: type_.span,
+                        span: name.span,
                         type_: Type::Scalar(type_.rep),
                         value,
                     }))
-- 
2.43.0


From 28dccba0840557c1fa547a44dca6dc93a43b2f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:14 +0000
Subject: [PATCH 55/56] fix: the error for a bitfield without representation
 says where

---
 protospec-build/src/parser/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/parser/error.rs b/protospec-build/src/parser/error.rs
index 6585a97..eb08b8c 100644
--- a/protospec-build/src/parser/error.rs
+++ b/protospec-build/src/parser/error.rs
@@ -15,7 +15,7 @@ pub enum ParseError {
     EmptyLengthConstraint(Span),
     #[error("enum is missing representation scalar @ '{0}'")]
     EnumMissingRep(Span),
-    #[error("bitfield is missing representation scalar")]
+    #[error("bitfield is missing representation scalar @ '{0}'")]
     BitfieldMissingRep(Span),
     #[error("unknown container directive '{0}' @ {1}'")]
     UnknownContainerDirective(String, Span),
-- 
2.43.0


From 109fdf283e6d793c3c1b5755807ca85a66159734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:07 +0000
Subject: [PATCH 56/56] fix: an imported function is declared at its import,
 not nowhere

---
 .../src/semantics/convert/program/ffi.rs      | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/ffi.rs b/protospec-build/src/semantics/convert/program/ffi.rs
index 3187c51..0f2b5f6 100644
--- a/protospec-build/src/semantics/convert/program/ffi.rs
+++ b/protospec-build/src/semantics/convert/program/ffi.rs
@@ -8,7 +8,12 @@ impl Scope {
         program: &RefCell<Program>,
     ) -> AsgResult<()> {
         for (name, function) in resolver.prelude_ffi_functions()? {
-            Self::import_function(&mut program.borrow_mut(), &*name, function);
+            Self::import_function(
+                &mut program.borrow_mut(),
+                &*name,
+                Span::default(),
+                function,
+            );
         }
         Ok(())
     }
@@ -84,7 +89,12 @@ impl Scope {
                             defined.span,
                         ));
                     }
-                    Self::import_function(&mut program.borrow_mut(), &ffi.name.name, obj);
+                    Self::import_function(
+                        &mut program.borrow_mut(),
+                        &ffi.name.name,
+                        ffi.span,
+                        obj,
+                    );
                 } else {
                     return Err(AsgError::FfiMissing(ffi.name.name.clone(), ffi.span));
                 }
@@ -93,12 +103,17 @@ impl Scope {
         Ok(())
     }
 
-    fn import_function(program: &mut Program, name: &str, function: ForeignFunctionObj) {
+    fn import_function(
+        program: &mut Program,
+        name: &str,
+        span: Span,
+        function: ForeignFunctionObj,
+    ) {
         program.functions.insert(
             name.to_string(),
             Arc::new(Function {
                 name: name.to_string(),
-                span: Span::default(),
+                span,
                 arguments: function.arguments(),
                 inner: function,
             }),
-- 
2.43.0

