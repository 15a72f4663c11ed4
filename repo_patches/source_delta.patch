From a084453b0db0f462349541cc1fc877f00bf5fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:11 +0000
Subject: [PATCH 01/33] fix: little endian write functions clear exactly the
 bits of their field

The clear quotes of multi-byte little endian fields either wiped the bits of
neighbouring fields or left stale bits of the old value in place.
---
 bondrewd-derive/src/structs/into_bytes.rs | 44 +++++++++++------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 103643a..a30f190 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -1,4 +1,5 @@
 use std::cmp::Ordering;
+use std::ops::Range;
 
 use crate::structs::common::{
     get_be_starting_index, get_left_and_mask, get_right_and_mask, BitMath, Endianness,
@@ -551,6 +552,24 @@ fn get_field_quote(
         Endianness::None => apply_ne_math_to_field_access_quote(field, quote_field_name, flip),
     }
 }
+/// creates a quote that sets only the bits in `bit_range` to 0, regardless of the endianness of the
+/// value stored there. `flip` must be the total amount of bytes MINUS ONE, see [get_field_quote].
+fn get_clear_quote(bit_range: &Range<usize>, flip: Option<usize>) -> TokenStream {
+    let mut clear_quote = quote! {};
+    let mut start = bit_range.start;
+    while start < bit_range.end {
+        let byte_index = start / 8;
+        let end = bit_range.end.min((byte_index + 1) * 8);
+        let not_mask = !(get_right_and_mask(8 - (start % 8)) & get_left_and_mask(end - byte_index * 8));
+        let buffer_index = flip.map_or(byte_index, |flip| flip - byte_index);
+        clear_quote = quote! {
+            #clear_quote
+            output_byte_buffer[#buffer_index] &= #not_mask;
+        };
+        start = end;
+    }
+    clear_quote
+}
 // first token stream is actual setter, but second one is overwrite current bits to 0.
 fn apply_le_math_to_field_access_quote(
     field: &FieldInfo,
@@ -651,28 +670,19 @@ fn apply_le_math_to_field_access_quote(
         let mid_shift: u32 = 8 - available_bits_in_first_byte as u32;
         let next_bit_mask = get_left_and_mask(mid_shift as usize);
         let mut i = 0;
-        let mut clear_quote = quote! {};
+        let clear_quote = get_clear_quote(&field.attrs.bit_range, flip);
         while i != fields_last_bits_index {
             let start = if flip.is_none() {
                 starting_inject_byte + i
             } else {
                 starting_inject_byte - i
             };
-            let not_current_bit_mask = !current_bit_mask;
             if available_bits_in_first_byte == 0 && right_shift == 0 {
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #current_bit_mask;
                 };
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
             } else {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_current_bit_mask;
-                };
                 if mid_shift != 0 {
                     full_quote = quote! {
                         #full_quote
@@ -724,10 +734,6 @@ fn apply_le_math_to_field_access_quote(
                 #field_buffer_name[#i] = #field_buffer_name[#i].rotate_right(#right_shift);
             };
             if used_bits < amount_of_bits {
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= 0;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #first_bit_mask;
@@ -738,11 +744,6 @@ fn apply_le_math_to_field_access_quote(
                 if amount_of_bits <= used_bits {
                     last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
                 }
-                let not_last_mask = !last_mask;
-                clear_quote = quote! {
-                    #clear_quote
-                    output_byte_buffer[#start] &= #not_last_mask;
-                };
                 full_quote = quote! {
                     #full_quote
                     output_byte_buffer[#start] |= #field_buffer_name[#i] & #last_mask;
@@ -760,11 +761,6 @@ fn apply_le_math_to_field_access_quote(
             if amount_of_bits <= used_bits {
                 last_mask &= !get_right_and_mask(used_bits - amount_of_bits);
             }
-            let not_last_mask = !last_mask;
-            clear_quote = quote! {
-                #clear_quote
-                output_byte_buffer[#start] &= #not_last_mask;
-            };
             let mut finalize = quote! {#field_buffer_name[#i]};
             if left_shift != 0 && left_shift != 8 {
                 finalize = quote! {(#finalize.rotate_left(#left_shift))};
-- 
2.43.0


From 4ccc30c5801dbcaa8c9e66da061a13d5061fc582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 02/33] fix: reading reversed little endian fields takes the
 last bits from the previous byte

With `reverse` the byte following in the field is at the next lower index of the
buffer; the final partial byte was read from the next higher one.
---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index fff43b5..cf54a5e 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -793,7 +793,7 @@ fn apply_le_math_to_field_access_quote(
                 full_quote = quote! {
                     #full_quote
                     #field_buffer_name[#i] |= input_byte_buffer[#start] & #current_bit_mask;
-                    #field_buffer_name[#i] |= input_byte_buffer[#start + 1] & #last_bit_mask;
+                    #field_buffer_name[#i] |= input_byte_buffer[#start #operator 1] & #last_bit_mask;
                 };
             } else {
                 let mut last_mask = first_bit_mask;
-- 
2.43.0


From 97b2c258ed2ac2987a80dfa1a880eb5b7d5f5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 03/33] fix: sign extension of signed fields that fit in one
 byte

The ones put above a negative value depended on where in the byte the field
started instead of its length, and types wider than i8 were not extended.
---
 bondrewd-derive/src/structs/from_bytes.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index cf54a5e..f6363ac 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -932,7 +932,7 @@ fn apply_le_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1307,7 +1307,7 @@ fn apply_be_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1627,7 +1627,7 @@ fn add_sign_fix_quote_single_bit(
             if let NumberSignage::Signed = sign {
                 let bit_to_isolate = field.attrs.bit_range.start % 8;
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
-                let neg_mask = get_left_and_mask(bit_to_isolate + 1);
+                let neg_mask = get_left_and_mask(8 - amount_of_bits);
                 let sign_bit = quote! {
                     (input_byte_buffer[#byte_index] & #sign_mask)
                 };
-- 
2.43.0


From 9a02fb172d8dfc2117ce5238f2b544958960a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 04/33] fix: sign bit position of signed multi-byte fields

The sign bit was read from the unreversed byte in reversed structures, and from
the bit after the field for little endian fields of a whole number of bytes.
---
 bondrewd-derive/src/structs/from_bytes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index f6363ac..181c94c 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -729,7 +729,7 @@ fn apply_le_math_to_field_access_quote(
         // };
         let size = field.ty.size();
         let new_array_quote =
-            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)? {
+            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)? {
                 a
             } else {
                 quote! {[0u8;#size]}
@@ -1344,7 +1344,7 @@ fn build_number_quote(
     available_bits_in_first_byte: usize,
     flip: Option<usize>,
 ) -> syn::Result<TokenStream> {
-    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)?
+    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)?
     {
         a
     } else {
@@ -1527,6 +1527,7 @@ fn add_sign_fix_quote(
     field: &FieldInfo,
     amount_of_bits: &usize,
     right_shift: &i8,
+    flip: Option<usize>,
 ) -> syn::Result<Option<TokenStream>> {
     if let FieldDataType::Number(ref size, ref sign, _) = field.ty {
         if *amount_of_bits != *size * 8 {
@@ -1537,13 +1538,14 @@ fn add_sign_fix_quote(
                         field.attrs.bit_range.start / 8,
                     ),
                     Endianness::Little => {
-                        let skip_bytes = (amount_of_bits / 8) * 8;
+                        let skip_bytes = ((amount_of_bits - 1) / 8) * 8;
                         let sign_bit_index = field.attrs.bit_range.start + skip_bytes;
                         // TODO fix bit isolators to fix signed numbers.
                         (sign_bit_index % 8, sign_bit_index / 8)
                     }
                     Endianness::None => return Ok(None),
                 };
+                let sign_index = flip.map_or(sign_index, |flip| flip - sign_index);
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
                 let sign_bit = quote! {
                     (input_byte_buffer[#sign_index] & #sign_mask)
-- 
2.43.0


From 5a66843f0a06c46f77e5b9541e3b539d546ed85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 05/33] fix: nested bitfields only read and write the bits of
 their field

With a length that is not a whole number of bytes, the bits following a nested
field were overwritten by writes and became part of the value read.
---
 bondrewd-derive/src/structs/from_bytes.rs | 6 +++++-
 bondrewd-derive/src/structs/into_bytes.rs | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 181c94c..8bd0722 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -998,7 +998,11 @@ fn apply_ne_math_to_field_access_quote(
                         let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
                         let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                         let right_shift: u32 = right_shift as u32;
-                        for i in 0..*size {
+                        for i in 0..(*size).min((amount_of_bits + 7) / 8) {
+                            // the last byte of the field might have bits that are not part of the field.
+                            let byte_mask = get_left_and_mask((amount_of_bits - (8 * i)).min(8)).rotate_right(right_shift);
+                            let current_bit_mask = current_bit_mask & byte_mask;
+                            let next_bit_mask = next_bit_mask & byte_mask;
                             let start = if flip.is_none() {starting_inject_byte + i}else{starting_inject_byte - i};
                             let mut first = if current_bit_mask == u8::MAX {
                                 quote!{
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index a30f190..00418e1 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -911,7 +911,12 @@ fn apply_ne_math_to_field_access_quote(
                 let current_bit_mask = get_right_and_mask(available_bits_in_first_byte);
                 let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                 let right_shift: u32 = right_shift as u32;
-                for i in 0usize..size {
+                for i in 0usize..size.min((amount_of_bits + 7) / 8) {
+                    // the last byte of the field might have bits that are not part of the field.
+                    let byte_mask = get_left_and_mask((amount_of_bits - (8 * i)).min(8))
+                        .rotate_right(right_shift);
+                    let current_bit_mask = current_bit_mask & byte_mask;
+                    let next_bit_mask = next_bit_mask & byte_mask;
                     let start = if flip.is_none() {
                         starting_inject_byte + i
                     } else {
@@ -1062,7 +1067,7 @@ fn apply_ne_math_to_field_access_quote(
             FieldDataType::Enum(_, _, _) => return Err(syn::Error::new(field.ident.span(), "Enum was given Endianness which should be described by the struct implementing Bitfield")),
             FieldDataType::Struct(_, _) => {
                 let used_bits_in_byte = 8 - available_bits_in_first_byte;
-                quote!{output_byte_buffer[#starting_inject_byte] |= (#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte;}
+                quote!{output_byte_buffer[#starting_inject_byte] |= ((#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte) & #mask;}
             }
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
-- 
2.43.0


From c6a115592667690f111a00ffb1babd71821e19da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:43 +0000
Subject: [PATCH 06/33] fix: reverse applies to the id of an enum too

The fields of the variants were reversed but the id was not, so both could end
up in the same byte.
---
 bondrewd-derive/src/structs/from_bytes.rs | 5 +----
 bondrewd-derive/src/structs/into_bytes.rs | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 8bd0722..bcdc133 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -213,12 +213,9 @@ pub fn create_from_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
                 let field_extractor = get_field_quote(
                     &field,
-                    if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
+                    if info.attrs.attrs.flip {
                         Some(info.total_bytes() - 1)
                     } else {
                         None
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 00418e1..f44fceb 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -145,12 +145,9 @@ pub fn create_into_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
                 let (field_quote, clear_quote) = get_field_quote(
                     &field,
-                    if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
+                    if info.attrs.attrs.flip {
                         Some(info.total_bytes() - 1)
                     } else {
                         None
-- 
2.43.0


From a440c631d1e3718cec49deaac57a12dfb716cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:43 +0000
Subject: [PATCH 07/33] fix: enum ids whose type is larger than the bytes
 needed for their bits

Ids of 17 to 24, 33 to 56 or 65 to 120 bits generated code that did not compile,
because the id's size did not match its type.
---
 bondrewd-derive/src/structs/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7d03b19..7ca626b 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1096,7 +1096,7 @@ impl EnumInfo {
         Ok(FieldInfo {
             ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
             ty: FieldDataType::Number(
-                (self.attrs.id_bits as f64 / 8.0f64).ceil() as usize,
+                ((self.attrs.id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two(),
                 NumberSignage::Unsigned,
                 self.id_ident()?,
             ),
@@ -1247,7 +1247,7 @@ impl ObjectInfo {
                     };
                     (
                         FieldDataType::Number(
-                            (id_bits as f64 / 8.0f64).ceil() as usize,
+                            ((id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two(),
                             NumberSignage::Unsigned,
                             get_id_type(id_bits, name.span())?,
                         ),
-- 
2.43.0


From eba27857eae9340926bca045b6b69b70aeb63b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 08/33] fix: do not count the id as payload when checking an
 enum's defined sizes

With the id, payload and total size given, a variant using more than the payload
size minus the id size was rejected.
---
 bondrewd-derive/src/structs/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7ca626b..465ffe3 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1428,7 +1428,7 @@ impl ObjectInfo {
                                     format!("total_size, payload_size, and id_size where all specified but id_size ({id}) + payload_size ({payload}) is not equal to total_size ({total})"),
                                 ));
                             }
-                            if payload < largest {
+                            if payload + id < largest {
                                 return Err(Error::new(
                                     data.enum_token.span(),
                                     format!("detected a variant over the maximum defined size."),
-- 
2.43.0


From fe7ae0c9e83b557490e52f6c01ac49f3c292ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 09/33] fix: id size of enums defined by their total and
 payload size

The fields of the variants were placed after an id of total minus payload bits,
but the id was read and written using only the minimal amount of bits.
---
 bondrewd-derive/src/structs/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 465ffe3..470fa21 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1442,8 +1442,8 @@ impl ObjectInfo {
                             }
                         } else {
                             EnumAttrInfo {
-                                payload_bit_size: largest,
-                                id_bits: min_id_size,
+                                payload_bit_size: payload,
+                                id_bits,
                                 id_position: enum_attrs.id_position,
                                 attrs: attrs.clone(),
                             }
-- 
2.43.0


From ca8c9078c380c726d409d2c1b109c77e8c43b467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 10/33] fix: fill_bytes together with lsb0, and with fewer
 bytes than the fields need

The filler was not part of the size positions are mirrored in for lsb0, so the
derive panicked. It also started after the last declared field instead of after
all bits in use, and underflowed when the fields need more bytes.
---
 bondrewd-derive/src/structs/common.rs | 53 +++++++++++++++------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 470fa21..61c31a2 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1920,30 +1920,35 @@ impl ObjectInfo {
 
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
         if let Some(fill_bits) = attrs.fill_bits {
-            let first_bit = if let Some(last_range) = parsed_fields.iter().last() {
-                last_range.attrs.bit_range.end
-            } else {
-                0_usize
-            };
-            let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
-            let ident = quote::format_ident!("bondrewd_fill_bits");
-            parsed_fields.push(FieldInfo {
-                ident: Box::new(ident.into()),
-                attrs: FieldAttrs {
-                    bit_range: first_bit..fill_bits,
-                    endianness: Box::new(Endianness::Big),
-                    reserve: ReserveFieldOption::FakeReserveField,
-                    overlap: OverlapOptions::None,
-                    capture_id: false,
-                },
-                ty: FieldDataType::BlockArray(
-                    Box::new(SubFieldInfo {
-                        ty: FieldDataType::Number(1, NumberSignage::Unsigned, quote! {u8}),
-                    }),
-                    fill_bytes_size,
-                    quote! {[u8;#fill_bytes_size]},
-                ),
-            });
+            let first_bit = bit_size;
+            if fill_bits < first_bit {
+                return Err(syn::Error::new(
+                    name.span(),
+                    format!("fill_bytes is smaller than the {first_bit} bits used by defined fields."),
+                ));
+            }
+            bit_size = fill_bits;
+            if fill_bits > first_bit {
+                let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
+                let ident = quote::format_ident!("bondrewd_fill_bits");
+                parsed_fields.push(FieldInfo {
+                    ident: Box::new(ident.into()),
+                    attrs: FieldAttrs {
+                        bit_range: first_bit..fill_bits,
+                        endianness: Box::new(Endianness::Big),
+                        reserve: ReserveFieldOption::FakeReserveField,
+                        overlap: OverlapOptions::None,
+                        capture_id: false,
+                    },
+                    ty: FieldDataType::BlockArray(
+                        Box::new(SubFieldInfo {
+                            ty: FieldDataType::Number(1, NumberSignage::Unsigned, quote! {u8}),
+                        }),
+                        fill_bytes_size,
+                        quote! {[u8;#fill_bytes_size]},
+                    ),
+                });
+            }
         }
 
         if attrs.lsb_zero {
-- 
2.43.0


From 57bb1a18e06ddf81f77e496244cf7f47617b4a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 11/33] fix: enums with read_from = "lsb0"

The fields of each variant were mirrored in the size of that variant and the id
was not mirrored at all. The reordered fields also put the id last, while code
generation expects it first, so these enums did not compile.
---
 bondrewd-derive/src/structs/common.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 61c31a2..afa17ed 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1093,6 +1093,11 @@ impl EnumInfo {
             Endianness::Big => Endianness::Big,
             Endianness::None => Endianness::Little,
         };
+        let bit_range = if self.attrs.attrs.lsb_zero {
+            (self.total_bits() - self.attrs.id_bits)..self.total_bits()
+        } else {
+            0..self.attrs.id_bits
+        };
         Ok(FieldInfo {
             ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
             ty: FieldDataType::Number(
@@ -1102,7 +1107,7 @@ impl EnumInfo {
             ),
             attrs: FieldAttrs {
                 endianness: Box::new(e),
-                bit_range: 0..self.attrs.id_bits,
+                bit_range,
                 reserve: ReserveFieldOption::NotReserve,
                 overlap: OverlapOptions::None,
                 capture_id: false,
@@ -1514,6 +1519,13 @@ impl ObjectInfo {
                         });
                     }
                 }
+                // the id and the fields of every variant are positioned in all bits of the enum.
+                for v in variants.iter_mut().filter(|v| v.attrs.lsb_zero) {
+                    for field in v.fields.iter_mut() {
+                        field.attrs.bit_range = (largest - field.attrs.bit_range.end)
+                            ..(largest - field.attrs.bit_range.start);
+                    }
+                }
                 Ok(Self::Enum(EnumInfo {
                     name,
                     variants,
@@ -1951,7 +1963,8 @@ impl ObjectInfo {
             }
         }
 
-        if attrs.lsb_zero {
+        // the fields of enum variants get mirrored once the size of the enum is known.
+        if attrs.lsb_zero && !is_enum {
             for ref mut field in parsed_fields.iter_mut() {
                 field.attrs.bit_range = (bit_size - field.attrs.bit_range.end)
                     ..(bit_size - field.attrs.bit_range.start);
-- 
2.43.0


From e3c0ed50f1c7b767b5c0e86b1aa59ca6f6a7ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 12/33] fix: slice functions of reversed structures check for
 all the bytes of the field

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 bondrewd-derive/src/structs/into_bytes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index bcdc133..ec6ed7f 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -514,7 +514,7 @@ fn make_peek_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - field.attrs.bit_range.start / 8
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index f44fceb..6de98cd 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -372,7 +372,7 @@ fn make_set_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - field.attrs.bit_range.start / 8
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
-- 
2.43.0


From 5aa79f931028e549abe4b1fd8d6137e6f3e28241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 13/33] fix: from_slice and from_vec give reserve fields their
 default like from_bytes

---
 bondrewd-derive/src/structs/from_bytes.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index ec6ed7f..cb1886c 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -188,9 +188,16 @@ fn create_fields_quotes(
                 #from_bytes_quote
                 #peek_call;
             };
-            from_vec_quote = quote! {
-                #from_vec_quote
-                let #field_name = #field_extractor;
+            from_vec_quote = if field.attrs.reserve.read_field() {
+                quote! {
+                    #from_vec_quote
+                    let #field_name = #field_extractor;
+                }
+            } else {
+                quote! {
+                    #from_vec_quote
+                    let #field_name = Default::default();
+                }
             };
         }
     }
-- 
2.43.0


From f7d9fcaad66595099549b943956b4a3521328b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 14/33] fix: BitfieldEnum catch value variants with a named
 field compile

---
 bondrewd-derive/src/enums/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/from_bytes.rs b/bondrewd-derive/src/enums/from_bytes.rs
index 417ce1c..b3e5e2a 100644
--- a/bondrewd-derive/src/enums/from_bytes.rs
+++ b/bondrewd-derive/src/enums/from_bytes.rs
@@ -19,7 +19,7 @@ pub fn generate_from_bytes(enum_info: &EnumInfo) -> syn::Result<proc_macro2::Tok
             EnumVariantType::CatchPrimitive(ref field_name) => {
                 if let Some(ref field_name) = field_name {
                     quote! {
-                        _ => Self::#name { #field_name = input },
+                        _ => Self::#name { #field_name: input },
                     }
                 } else {
                     quote! {
-- 
2.43.0


From 7ccd84e051f3e60fd25d87723ebec96507ca79f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 15/33] fix: BitfieldEnum numbers an invalid variant without a
 literal like any other variant

---
 bondrewd-derive/src/enums/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 3c3a8bf..b0b369a 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -409,9 +409,9 @@ impl EnumInfo {
                                     return Err(syn::Error::new(var.ident.span(), "Literal Values conflict"));
                                 }
                             }else{
-                                literal_variants.insert(i, EnumVariant{
+                                unknown_variants.push_back(EnumVariantBuilder{
                                     name: var.ident.clone(),
-                                    value: EnumVariantType::Skip(Literal::usize_unsuffixed(i)),
+                                    value: EnumVariantBuilderType::Skip,
                                 });
                             }
                         } else if let Some((_, ref discriminant)) = var.discriminant {
-- 
2.43.0


From 8517cda1dd93151ee2fde187451e74869bc01e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 16/33] fix: arrays take their total bit_length or bits range

---
 bondrewd-derive/src/structs/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index afa17ed..e9238af 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -362,7 +362,7 @@ impl FieldDataType {
                                                     "range end is less than range start",
                                                 ));
                                             }
-                                            if range.end - range.start % array_length != 0 {
+                                            if (range.end - range.start) % array_length != 0 {
                                                 return Err(
                                                     syn::Error::new(
                                                         span,
-- 
2.43.0


From fb149b512db09670562c878305741f16709ce235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 17/33] fix: BitfieldEnum keeps its declared primitive when a
 variant is marked invalid

---
 bondrewd-derive/src/enums/parse.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index b0b369a..85bf2ce 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -227,12 +227,10 @@ impl EnumInfo {
         primitive_type: &mut Option<Ident>,
         invalid_found: &mut Option<EnumVariantBuilder>,
     ) -> syn::Result<bool> {
-        let mut temp: Option<Ident> = None;
         let mut temp_invalid = invalid_found.clone();
         for attr in attrs {
-            match Self::parse_meta(attr.parse_meta()?, &mut temp_invalid, &mut temp, var)? {
+            match Self::parse_meta(attr.parse_meta()?, &mut temp_invalid, primitive_type, var)? {
                 ParseMetaResult::FoundInvalid => {
-                    std::mem::swap(&mut temp, primitive_type);
                     std::mem::swap(&mut temp_invalid, invalid_found);
                     return Ok(true);
                 }
-- 
2.43.0


From a392e7ee1422ecfbfcfc1de82649cf8a2e3fe51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 18/33] fix: bits left out between fields placed with bits
 count for the size

---
 bondrewd-derive/src/structs/common.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index e9238af..0733122 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1931,12 +1931,17 @@ impl ObjectInfo {
         }
 
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
-        if let Some(fill_bits) = attrs.fill_bits {
+        // bits left out in front of a field using the `bits` attribute are filled the same way.
+        let last_bit = parsed_fields
+            .iter()
+            .map(|field| field.attrs.bit_range.end)
+            .fold(bit_size, usize::max);
+        if let Some(fill_bits) = attrs.fill_bits.or((last_bit > bit_size).then_some(last_bit)) {
             let first_bit = bit_size;
-            if fill_bits < first_bit {
+            if fill_bits < last_bit {
                 return Err(syn::Error::new(
                     name.span(),
-                    format!("fill_bytes is smaller than the {first_bit} bits used by defined fields."),
+                    format!("fill_bytes is smaller than the {last_bit} bits used by defined fields."),
                 ));
             }
             bit_size = fill_bits;
-- 
2.43.0


From 29db3ce62af1fa30046fbb67857ce31e905d3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 19/33] fix: enforce_full_bytes together with enforce_bits or
 enforce_bytes checks both

---
 bondrewd-derive/src/structs/common.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 0733122..b78f914 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -961,8 +961,6 @@ impl FieldInfo {
 pub enum StructEnforcement {
     /// there is no enforcement so if bits are unused then it will act like they are a reserve field
     NoRules,
-    /// enforce the BIT_SIZE equals BYTE_SIZE * 8
-    EnforceFullBytes,
     /// enforce an amount of bits total that need to be used.
     EnforceBitAmount(usize),
 }
@@ -982,6 +980,8 @@ pub struct AttrInfo {
     /// it with no runtime cost.
     pub flip: bool,
     pub enforcement: StructEnforcement,
+    /// enforce the BIT_SIZE equals BYTE_SIZE * 8
+    pub enforce_full_bytes: bool,
     pub default_endianess: Endianness,
     pub fill_bits: Option<usize>,
     pub id: Option<u128>,
@@ -994,6 +994,7 @@ impl Default for AttrInfo {
             lsb_zero: false,
             flip: false,
             enforcement: StructEnforcement::NoRules,
+            enforce_full_bytes: false,
             default_endianess: Endianness::None,
             fill_bits: None,
             id: None,
@@ -1800,7 +1801,7 @@ impl ObjectInfo {
                             info.flip = true;
                         }
                         "enforce_full_bytes" => {
-                            info.enforcement = StructEnforcement::EnforceFullBytes;
+                            info.enforce_full_bytes = true;
                         }
                         "invalid" => {
                             info.invalid = true;
@@ -1907,16 +1908,14 @@ impl ObjectInfo {
             }
         }
 
+        if attrs.enforce_full_bytes && bit_size % 8 != 0 {
+            return Err(syn::Error::new(
+                name.span(),
+                "BIT_SIZE modulus 8 is not zero",
+            ));
+        }
         match attrs.enforcement {
             StructEnforcement::NoRules => {}
-            StructEnforcement::EnforceFullBytes => {
-                if bit_size % 8 != 0 {
-                    return Err(syn::Error::new(
-                        name.span(),
-                        "BIT_SIZE modulus 8 is not zero",
-                    ));
-                }
-            }
             StructEnforcement::EnforceBitAmount(expected_total_bits) => {
                 if bit_size != expected_total_bits {
                     return Err(syn::Error::new(
-- 
2.43.0


From f89c1a09abd4dfb59e9679c703bbb08f3778627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 20/33] fix: BitfieldEnum rejects a second variant marked
 invalid

---
 bondrewd-derive/src/enums/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 85bf2ce..de45151 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -396,7 +396,7 @@ impl EnumInfo {
                         }
                     } else {
                         // This is one of the possible variants to use, check for a custom discriminant
-                         if invalid_found.is_none() && Self::parse_attrs(&var.attrs, var, &mut primitive_type, &mut invalid_found)? {
+                         if Self::parse_attrs(&var.attrs, var, &mut primitive_type, &mut invalid_found)? {
                             if let Some((_, ref discriminant)) = var.discriminant {
                                 // Parse the discriminant and validate its able to be used
                                 let discriminant_val = Self::parse_lit_discriminant_expr(discriminant)?;
-- 
2.43.0


From a27b238dcb8b9941102af8552298e73a5d181492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 21/33] fix: BitfieldEnum rejects values that do not fit in u8

---
 bondrewd-derive/src/enums/parse.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index de45151..ce33226 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -611,6 +611,22 @@ impl EnumInfo {
             },
             variants,
         };
+        // every value has to fit in the primitive type
+        if info.primitive == "u8" {
+            for variant in info.variants.iter() {
+                if let EnumVariantType::UnsignedValue(value)
+                | EnumVariantType::CatchAll(value)
+                | EnumVariantType::Skip(value) = &variant.value
+                {
+                    if value.to_string().parse::<u8>().is_err() {
+                        return Err(syn::Error::new(
+                            variant.name.span(),
+                            format!("value {value} does not fit in primitive type u8"),
+                        ));
+                    }
+                }
+            }
+        }
 
         Ok(info)
     }
-- 
2.43.0


From 35ce77ef5d118cb9db27037a5b86829770073caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 22/33] fix: element lengths of arrays of floats and of
 bitfields without struct_size

---
 bondrewd-derive/src/structs/common.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index b78f914..a7acd6d 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -279,6 +279,11 @@ impl FieldDataType {
                                         }
                                     };
                                     let mut sub_attrs = attrs.clone();
+                                    if let Type::Path(_) = array_path.elem.as_ref() {
+                                        // the range of the whole array says nothing about one element.
+                                        sub_attrs.bit_range =
+                                            FieldBuilderRange::Range(0..*element_bit_size);
+                                    }
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else if let Some(ref ty) = sub.as_ref() {
                                         sub_attrs.ty = ty.clone();
@@ -344,6 +349,14 @@ impl FieldDataType {
                                 }
                                 FieldAttrBuilderType::None => {
                                     let mut sub_attrs = attrs.clone();
+                                    if let (Type::Path(_), FieldBuilderRange::Range(range)) =
+                                        (array_path.elem.as_ref(), &attrs.bit_range)
+                                    {
+                                        // an element gets an even part of the range of the array.
+                                        let bits = range.end.saturating_sub(range.start);
+                                        sub_attrs.bit_range =
+                                            FieldBuilderRange::Range(0..bits / array_length.max(1));
+                                    }
                                     if let Type::Array(_) = array_path.elem.as_ref() {
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
-- 
2.43.0


From ef94193466f11fc9d5307dc20bc77e2559c97aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 23/33] fix: partial_eq of BitfieldEnum works without std

---
 bondrewd-derive/src/enums/partial_eq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/partial_eq.rs b/bondrewd-derive/src/enums/partial_eq.rs
index 89264cf..1876b44 100644
--- a/bondrewd-derive/src/enums/partial_eq.rs
+++ b/bondrewd-derive/src/enums/partial_eq.rs
@@ -55,7 +55,7 @@ pub fn generate_partial_eq(enum_info: &EnumInfo) -> proc_macro2::TokenStream {
         }
     }
     quote! {
-        impl std::cmp::PartialEq<#primitive_ty> for #enum_name {
+        impl core::cmp::PartialEq<#primitive_ty> for #enum_name {
             fn eq(&self, other: &#primitive_ty) -> bool {
                 match (self, other) {
                     #comp_arms
-- 
2.43.0


From a5ce4b7acb9193af62bbcd41cf00d40bf11315cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:54 +0000
Subject: [PATCH 24/33] fix: dyn_fns compiles without std

---
 bondrewd-derive/src/structs/from_bytes.rs | 4 ++--
 bondrewd/src/hex.rs                       | 2 +-
 bondrewd/src/lib.rs                       | 6 +++++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index cb1886c..28a6a31 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -385,7 +385,7 @@ pub fn create_from_bytes_field_quotes_enum(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
@@ -460,7 +460,7 @@ pub fn create_from_bytes_field_quotes(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
                     return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
diff --git a/bondrewd/src/hex.rs b/bondrewd/src/hex.rs
index e5a10ac..67b4e8b 100644
--- a/bondrewd/src/hex.rs
+++ b/bondrewd/src/hex.rs
@@ -63,7 +63,7 @@ where
 {
     const UPPERS: &'static [u8; 16] = b"0123456789ABCDEF";
     const LOWERS: &'static [u8; 16] = b"0123456789abcdef";
-    fn from_hex_vec(hex: &mut Vec<u8>) -> Result<Self, crate::BitfieldHexDynError>{
+    fn from_hex_vec(hex: &mut crate::alloc::vec::Vec<u8>) -> Result<Self, crate::BitfieldHexDynError>{
         if hex.len() < HEX_SIZE {
             return Err(crate::BitfieldHexDynError::Length(
                 crate::BitfieldLengthError(hex.len(), HEX_SIZE)
diff --git a/bondrewd/src/lib.rs b/bondrewd/src/lib.rs
index 3abad24..1b0222c 100644
--- a/bondrewd/src/lib.rs
+++ b/bondrewd/src/lib.rs
@@ -2,6 +2,10 @@
 //! Defined Traits for bondrewd-derive.
 //! For Derive Docs see [bondrewd-derive](https://docs.rs/bondrewd-derive/latest/bondrewd_derive/)
 
+#[cfg(feature = "dyn_fns")]
+#[doc(hidden)]
+pub extern crate alloc;
+
 mod error;
 #[cfg(feature = "hex_fns")]
 pub use error::BitfieldHexError;
@@ -30,7 +34,7 @@ pub trait BitfieldsDyn<const SIZE: usize>: Bitfields<SIZE>
 where 
     Self: Sized
 {
-    fn from_vec(input_byte_buffer: &mut Vec<u8>) -> Result<Self, BitfieldLengthError>;
+    fn from_vec(input_byte_buffer: &mut alloc::vec::Vec<u8>) -> Result<Self, BitfieldLengthError>;
     fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, BitfieldLengthError>;
 }
 
-- 
2.43.0


From 25f8a614963bdfe85b906e3de931d5ea4bef4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 25/33] fix: raw identifiers as field names no longer make the
 derives panic

---
 bondrewd-derive/src/structs/from_bytes.rs | 12 ++++++------
 bondrewd-derive/src/structs/into_bytes.rs | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 28a6a31..4ad1cd5 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -78,7 +78,7 @@ fn get_check_slice_fn(
     // total_bytes
     check_size: usize,
 ) -> TokenStream {
-    let checked_ident = format_ident!("{name}Checked");
+    let checked_ident = format_ident!("{}Checked", name);
     let comment = format!(
         "Returns a [{checked_ident}] which allows you to read any field for a `{name}` from provided slice.",
     );
@@ -173,9 +173,9 @@ fn create_fields_quotes(
                 // put the field extraction in the actual from bytes.
                 if field.attrs.reserve.read_field() {
                     let fn_field_name = if let Some(ref p) = lower_name {
-                        format_ident!("read_{p}_{field_name}")
+                        format_ident!("read_{}_{}", p, field_name)
                     } else {
-                        format_ident!("read_{field_name}")
+                        format_ident!("read_{}", field_name)
                     };
                     quote! {
                         let #field_name = Self::#fn_field_name(&input_byte_buffer);
@@ -516,7 +516,7 @@ fn make_peek_slice_fn(
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_slice_{field_name}");
+    let fn_field_name = format_ident!("read_slice_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
@@ -553,7 +553,7 @@ fn make_peek_slice_unchecked_fn(
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_{field_name}");
+    let fn_field_name = format_ident!("read_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
@@ -581,7 +581,7 @@ fn make_peek_fn(
     } else {
         field.ident().ident()
     };
-    let fn_field_name = format_ident!("read_{field_name}");
+    let fn_field_name = format_ident!("read_{}", field_name);
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 6de98cd..7fabc60 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -21,7 +21,7 @@ pub struct IntoBytesOptions {
 
 fn make_checked_mut_func(name: &Ident, struct_size: usize) -> TokenStream {
     // all quote with all of the set slice functions appended to it.
-    let checked_ident = format_ident!("{name}CheckedMut");
+    let checked_ident = format_ident!("{}CheckedMut", name);
     let comment = format!("Returns a [{checked_ident}] which allows you to read/write any field for a `{name}` from/to provided mutable slice.");
     quote! {
         #[doc = #comment]
@@ -89,7 +89,7 @@ fn create_fields_quotes(
         )?;
         if field.attrs.reserve.write_field() {
             if let Some(ref name) = lower_name {
-                let fn_name = format_ident!("write_{name}_{field_name}");
+                let fn_name = format_ident!("write_{}_{}", name, field_name);
                 into_bytes_quote = quote! {
                     #into_bytes_quote
                     Self::#fn_name(&mut output_byte_buffer, #field_name);
@@ -364,9 +364,9 @@ fn make_set_slice_fn(
 ) -> syn::Result<TokenStream> {
     let field_name = field.ident().ident();
     let fn_field_name = if let Some(p) = prefix {
-        format_ident!("write_slice_{p}_{field_name}")
+        format_ident!("write_slice_{}_{}", p, field_name)
     } else {
-        format_ident!("write_slice_{field_name}")
+        format_ident!("write_slice_{}", field_name)
     };
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
@@ -403,9 +403,9 @@ fn make_set_slice_unchecked_fn(
 ) -> syn::Result<TokenStream> {
     let field_name = field.ident().ident();
     let fn_field_name = if let Some(p) = prefix {
-        format_ident!("write_{p}_{field_name}")
+        format_ident!("write_{}_{}", p, field_name)
     } else {
-        format_ident!("write_{field_name}")
+        format_ident!("write_{}", field_name)
     };
     let bit_range = &field.attrs.bit_range;
     let type_ident = field.ty.type_quote();
@@ -433,9 +433,9 @@ fn make_set_fn(
 ) -> syn::Result<TokenStream> {
     let field_name_short = field.ident().ident();
     let field_name = if let Some(p) = prefix {
-        format_ident!("{p}_{field_name_short}")
+        format_ident!("{}_{}", p, field_name_short)
     } else {
-        format_ident!("{field_name_short}")
+        format_ident!("{}", field_name_short)
     };
     let struct_size = info.total_bytes();
     let bit_range = &field.attrs.bit_range;
-- 
2.43.0


From ede919ba79e8144d7a1e69306c0339e9976bebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 26/33] fix: block arrays of bitfields and primitive enums keep
 their element type's size

---
 bondrewd-derive/src/structs/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index a7acd6d..d2745c4 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -304,9 +304,11 @@ impl FieldDataType {
                                         quote! {[#type_ident;#array_length]},
                                     )
                                 }
-                                FieldAttrBuilderType::BlockArray(_) => {
+                                FieldAttrBuilderType::BlockArray(ref sub) => {
                                     let mut sub_attrs = attrs.clone();
                                     if let Type::Array(_) = array_path.elem.as_ref() {
+                                    } else if let Some(ref ty) = sub.as_ref() {
+                                        sub_attrs.ty = ty.clone();
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
                                     }
-- 
2.43.0


From 505ffb406dfc056d365f7c97177ce7538d6874ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 27/33] fix: qualified paths of nested bitfields and primitive
 enums name the type they say

---
 bondrewd-derive/src/structs/common.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index d2745c4..c131a1a 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -216,22 +216,12 @@ impl FieldDataType {
             Type::Path(ref path) => match attrs.ty {
                 FieldAttrBuilderType::Struct(ref size) => FieldDataType::Struct(
                     *size,
-                    if let Some(last_segment) = path.path.segments.last() {
-                        let asdf = &last_segment.ident;
-                        quote! {#asdf}
-                    } else {
-                        return Err(syn::Error::new(span, "field has no Type?"));
-                    },
+                    quote! {#path},
                 ),
                 FieldAttrBuilderType::Enum(ref size, ref prim) => FieldDataType::Enum(
                     quote! {#prim},
                     *size,
-                    if let Some(last_segment) = path.path.segments.last() {
-                        let asdf = &last_segment.ident;
-                        quote! {#asdf}
-                    } else {
-                        return Err(syn::Error::new(span, "field has no Type?"));
-                    },
+                    quote! {#path},
                 ),
                 _ => Self::parse_path(&path.path, attrs, span)?,
             },
@@ -551,7 +541,7 @@ impl FieldDataType {
                                         ));
                                     }
                                 },
-                                quote! {#type_quote},
+                                quote! {#path},
                             ))
                             // Err(Error::new(
                             //     field_span,
-- 
2.43.0


From 0aaf22acd0c494c3dc71febd964c23849d2bb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 28/33] fix: part_eq_enums compares enums with their ids
 without dyn_fns as well

---
 bondrewd-derive/src/lib.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 25be53f..6730de6 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1920,6 +1920,22 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                 #getter_setters_quotes
                 #hex_fns_quote
             };
+            #[cfg(feature = "part_eq_enums")]
+            let id_ident = match enum_info.id_ident() {
+                Ok(ii) => ii,
+                Err(err) => {
+                    return err.to_compile_error().into();
+                }
+            };
+            #[cfg(feature = "part_eq_enums")]
+            let to_bytes_quote = quote! {
+                #to_bytes_quote
+                impl PartialEq<#id_ident> for #struct_name {
+                    fn eq(&self, other: &#id_ident) -> bool {
+                        self.id() == *other
+                    }
+                }
+            };
             if dyn_fns {
                 let from_vec_quote = fields_from_bytes.from_slice_field_fns;
                 let vis = &enum_info.vis;
@@ -1964,22 +1980,6 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
                         #from_vec_quote
                     }
                 };
-                #[cfg(feature = "part_eq_enums")]
-                let id_ident = match enum_info.id_ident() {
-                    Ok(ii) => ii,
-                    Err(err) => {
-                        return err.to_compile_error().into();
-                    }
-                };
-                #[cfg(feature = "part_eq_enums")]
-                let to_bytes_quote = quote! {
-                    #to_bytes_quote
-                    impl PartialEq<#id_ident> for #struct_name {
-                        fn eq(&self, other: &#id_ident) -> bool {
-                            self.id() == *other
-                        }
-                    }
-                };
                 TokenStream::from(to_bytes_quote)
             } else {
                 TokenStream::from(to_bytes_quote)
-- 
2.43.0


From d66a47383c6c1f9771e976f2ab16a3d96b2f1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 29/33] fix: name core's Result, Option and PartialEq in
 generated code, so that a module's own Result (or a variant named Ok) is not
 picked up

---
 bondrewd-derive/src/lib.rs                |  2 +-
 bondrewd-derive/src/structs/from_bytes.rs | 38 +++++++++++------------
 bondrewd-derive/src/structs/into_bytes.rs | 12 +++----
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/bondrewd-derive/src/lib.rs b/bondrewd-derive/src/lib.rs
index 6730de6..5a85356 100644
--- a/bondrewd-derive/src/lib.rs
+++ b/bondrewd-derive/src/lib.rs
@@ -1930,7 +1930,7 @@ pub fn derive_bitfields(input: TokenStream) -> TokenStream {
             #[cfg(feature = "part_eq_enums")]
             let to_bytes_quote = quote! {
                 #to_bytes_quote
-                impl PartialEq<#id_ident> for #struct_name {
+                impl core::cmp::PartialEq<#id_ident> for #struct_name {
                     fn eq(&self, other: &#id_ident) -> bool {
                         self.id() == *other
                     }
diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 4ad1cd5..bdfdd8b 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -84,14 +84,14 @@ fn get_check_slice_fn(
     );
     quote! {
         #[doc = #comment]
-        pub fn check_slice(buffer: &[u8]) -> Result<#checked_ident, bondrewd::BitfieldLengthError> {
+        pub fn check_slice(buffer: &[u8]) -> core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
             let buf_len = buffer.len();
             if buf_len >= #check_size {
-                Ok(#checked_ident {
+                core::result::Result::Ok(#checked_ident {
                     buffer
                 })
             }else{
-                Err(bondrewd::BitfieldLengthError(buf_len, #check_size))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(buf_len, #check_size))
             }
         }
     }
@@ -385,27 +385,27 @@ pub fn create_from_bytes_field_quotes_enum(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let #v_id = Self::#v_id_slice_call(&input_byte_buffer)?;
                 let out = match #v_id {
                     #from_vec_fn
                 };
                 let _ = input_byte_buffer.drain(..Self::BYTE_SIZE);
-                Ok(out)
+                core::result::Result::Ok(out)
             }
             #[doc = #comment]
-            fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let #v_id = Self::#v_id_slice_call(&input_byte_buffer)?;
                 let out = match #v_id {
                     #from_vec_fn
                 };
-                Ok(out)
+                core::result::Result::Ok(out)
             }
         };
         Ok(FromBytesOptions {
@@ -460,9 +460,9 @@ pub fn create_from_bytes_field_quotes(
         let comment = format!("Creates a new instance of `Self` by copying field from the bitfields. \n # Errors\n If the provided `Vec<u8>` does not have enough bytes an error will be returned.");
         let from_slice_field_fns = quote! {
             #[doc = #comment_take]
-            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_vec(input_byte_buffer: &mut bondrewd::alloc::vec::Vec<u8>) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let out = {
                     #from_vec_fn
@@ -471,12 +471,12 @@ pub fn create_from_bytes_field_quotes(
                     }
                 };
                 let _ = input_byte_buffer.drain(..Self::BYTE_SIZE);
-                Ok(out)
+                core::result::Result::Ok(out)
             }
             #[doc = #comment]
-            fn from_slice(input_byte_buffer: &[u8]) -> Result<Self, bondrewd::BitfieldLengthError> {
+            fn from_slice(input_byte_buffer: &[u8]) -> core::result::Result<Self, bondrewd::BitfieldLengthError> {
                 if input_byte_buffer.len() < Self::BYTE_SIZE {
-                    return Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
+                    return core::result::Result::Err(bondrewd::BitfieldLengthError(input_byte_buffer.len(), Self::BYTE_SIZE));
                 }
                 let out = {
                     #from_vec_fn
@@ -484,7 +484,7 @@ pub fn create_from_bytes_field_quotes(
                         #from_bytes_struct_quote
                     }
                 };
-                Ok(out)
+                core::result::Result::Ok(out)
             }
         };
         Ok(FromBytesOptions {
@@ -529,12 +529,12 @@ fn make_peek_slice_fn(
     Ok(quote! {
         #[inline]
         #[doc = #comment]
-        pub fn #fn_field_name(input_byte_buffer: &[u8]) -> Result<#type_ident, bondrewd::BitfieldLengthError> {
+        pub fn #fn_field_name(input_byte_buffer: &[u8]) -> core::result::Result<#type_ident, bondrewd::BitfieldLengthError> {
             let slice_length = input_byte_buffer.len();
             if slice_length < #min_length {
-                Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
             } else {
-                Ok(
+                core::result::Result::Ok(
                     #field_quote
                 )
             }
@@ -642,7 +642,7 @@ fn get_field_quote(
         }
         FieldDataType::Char(_, _) => {
             quote! {
-                if let Some(c) = char::from_u32({
+                if let core::option::Option::Some(c) = char::from_u32({
                     #value_retrieval
                 }) {
                     c
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 7fabc60..d5058ee 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -25,14 +25,14 @@ fn make_checked_mut_func(name: &Ident, struct_size: usize) -> TokenStream {
     let comment = format!("Returns a [{checked_ident}] which allows you to read/write any field for a `{name}` from/to provided mutable slice.");
     quote! {
         #[doc = #comment]
-        pub fn check_slice_mut(buffer: &mut [u8]) -> Result<#checked_ident, bondrewd::BitfieldLengthError> {
+        pub fn check_slice_mut(buffer: &mut [u8]) -> core::result::Result<#checked_ident, bondrewd::BitfieldLengthError> {
             let buf_len = buffer.len();
             if buf_len >= #struct_size {
-                Ok(#checked_ident {
+                core::result::Result::Ok(#checked_ident {
                     buffer
                 })
             }else{
-                Err(bondrewd::BitfieldLengthError(buf_len, #struct_size))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(buf_len, #struct_size))
             }
         }
     }
@@ -380,14 +380,14 @@ fn make_set_slice_fn(
     Ok(quote! {
         #[inline]
         #[doc = #comment]
-        pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> Result<(), bondrewd::BitfieldLengthError> {
+        pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> core::result::Result<(), bondrewd::BitfieldLengthError> {
             let slice_length = output_byte_buffer.len();
             if slice_length < #min_length {
-                Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
+                core::result::Result::Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
             } else {
                 #clear_quote
                 #field_quote
-                Ok(())
+                core::result::Result::Ok(())
             }
         }
     })
-- 
2.43.0


From 1c4325b8a50a286ff5e54743fbe9550611d0b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 30/33] fix: a captured id has the byte order of the id,
 whatever the endianness of its variant

---
 bondrewd-derive/src/structs/common.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index c131a1a..c23eb38 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1881,6 +1881,11 @@ impl ObjectInfo {
                                     if parsed_fields[0].attrs.bit_range != parsed_field.attrs.bit_range {
                                         parsed_field.attrs.bit_range = parsed_fields[0].attrs.bit_range.clone();
                                     }
+                                    // it is the id, no matter which endianness the variant gives its own fields.
+                                    parsed_field.attrs.endianness = Box::new(match *parsed_fields[0].attrs.endianness {
+                                        Endianness::Big => Endianness::Big,
+                                        Endianness::Little | Endianness::None => Endianness::Little,
+                                    });
                                     if bon_sign != user_sign {
                                         return Err(Error::new(field.span(), format!("capture_id field must be unsigned. bondrewd will enforce the type as {bon_ty}")));
                                     }else if bon_ty.to_string() != user_ty.to_string() {
-- 
2.43.0


From d44e0fdcf3241b55df903305dc002cbe43d18822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 31/33] fix: write_slice_ of a field named slice_length wrote
 the length of the slice

---
 bondrewd-derive/src/structs/into_bytes.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index d5058ee..520b6ac 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -381,9 +381,8 @@ fn make_set_slice_fn(
         #[inline]
         #[doc = #comment]
         pub fn #fn_field_name(output_byte_buffer: &mut [u8], #field_name: #type_ident) -> core::result::Result<(), bondrewd::BitfieldLengthError> {
-            let slice_length = output_byte_buffer.len();
-            if slice_length < #min_length {
-                core::result::Result::Err(bondrewd::BitfieldLengthError(slice_length, #min_length))
+            if output_byte_buffer.len() < #min_length {
+                core::result::Result::Err(bondrewd::BitfieldLengthError(output_byte_buffer.len(), #min_length))
             } else {
                 #clear_quote
                 #field_quote
-- 
2.43.0


From 2596a7061ef0759dc93c1e9f87422897d1f9f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 32/33] fix: reject a field that has no bits

---
 bondrewd-derive/src/structs/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index c23eb38..735193a 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -941,6 +941,10 @@ impl FieldInfo {
                 fix_me.fix(start..start + (data_type.size() * 8))
             }
         };
+        // a field that has no bits can not be read or written.
+        if attrs.bit_range.is_empty() {
+            return Err(Error::new(ident.span(), "fields must have at least 1 bit"));
+        }
 
         // construct the field we are parsed.
         let new_field = FieldInfo {
-- 
2.43.0


From 366d230a217357ebea4d6bb2af4ca2e8155a33f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 33/33] fix: reject more overlapping_bits than the field has
 bits

---
 bondrewd-derive/src/structs/common.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 735193a..a1c7dd6 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -945,6 +945,15 @@ impl FieldInfo {
         if attrs.bit_range.is_empty() {
             return Err(Error::new(ident.span(), "fields must have at least 1 bit"));
         }
+        // a field can not share more bits than it has.
+        if let OverlapOptions::Allow(shared) = attrs.overlap {
+            if shared > attrs.bit_range.len() {
+                return Err(Error::new(
+                    ident.span(),
+                    "overlapping_bits must not be greater than the bit length of the field",
+                ));
+            }
+        }
 
         // construct the field we are parsed.
         let new_field = FieldInfo {
-- 
2.43.0

