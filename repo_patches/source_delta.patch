From 1ebb205e29117c16933d8b53809c09a99c7663ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:01 +0000
Subject: [PATCH 01/23] fix: write booleans with write_all, so that a short or
 interrupted write is not lost

---
 src/implementations/primitives.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/implementations/primitives.rs b/src/implementations/primitives.rs
index 6645e8c..a2842e9 100644
--- a/src/implementations/primitives.rs
+++ b/src/implementations/primitives.rs
@@ -143,8 +143,7 @@ impl SerializeRevisioned for bool {
 	#[inline]
 	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
 		let v = *self as u8;
-		w.write(&[v]).map_err(Error::Io)?;
-		Ok(())
+		w.write_all(&[v]).map_err(Error::Io)
 	}
 }
 
-- 
2.43.0


From 66145df84552e3ef7f9be73d37d759fe4ce36546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:01 +0000
Subject: [PATCH 02/23] fix: reject durations that overflow instead of
 panicking while decoding

---
 src/implementations/duration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/implementations/duration.rs b/src/implementations/duration.rs
index bdc15dc..74316bb 100644
--- a/src/implementations/duration.rs
+++ b/src/implementations/duration.rs
@@ -18,7 +18,9 @@ impl DeserializeRevisioned for Duration {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = u64::deserialize_revisioned(reader)?;
 		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(Duration::new(secs, nanos))
+		Duration::from_secs(secs)
+			.checked_add(Duration::from_nanos(nanos as u64))
+			.ok_or_else(|| Error::Deserialize("invalid duration".to_string()))
 	}
 }
 
-- 
2.43.0


From 757ff174085c904cd1fbd9f4b529b7d4f463441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:01 +0000
Subject: [PATCH 03/23] fix: reject system times that overflow instead of
 panicking, when decoding and when validating

---
 src/implementations/skip.rs        | 3 +--
 src/implementations/system_time.rs | 7 ++++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/implementations/skip.rs b/src/implementations/skip.rs
index 0947c5e..8c4c06c 100644
--- a/src/implementations/skip.rs
+++ b/src/implementations/skip.rs
@@ -123,8 +123,7 @@ impl SkipRevisioned for SystemTime {
 impl SkipCheckRevisioned for SystemTime {
 	#[inline]
 	fn skip_check_revisioned<R: Read>(reader: &mut R) -> Result<(), Error> {
-		<u64 as SkipCheckRevisioned>::skip_check_revisioned(reader)?;
-		<u32 as SkipCheckRevisioned>::skip_check_revisioned(reader)?;
+		<SystemTime as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		Ok(())
 	}
 }
diff --git a/src/implementations/system_time.rs b/src/implementations/system_time.rs
index 6887a7b..e0bfd1a 100644
--- a/src/implementations/system_time.rs
+++ b/src/implementations/system_time.rs
@@ -18,9 +18,10 @@ impl SerializeRevisioned for SystemTime {
 impl DeserializeRevisioned for SystemTime {
 	#[inline]
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
-		let secs = u64::deserialize_revisioned(reader)?;
-		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(UNIX_EPOCH + Duration::new(secs, nanos))
+		let duration = Duration::deserialize_revisioned(reader)?;
+		UNIX_EPOCH
+			.checked_add(duration)
+			.ok_or_else(|| Error::Deserialize("invalid system time".to_string()))
 	}
 }
 
-- 
2.43.0


From e38f86f22f3de2738e768f9d9fafd81b05b7c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:07 +0000
Subject: [PATCH 04/23] fix: decode leap seconds that chrono allows at any
 second

---
 src/implementations/chrono.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/implementations/chrono.rs b/src/implementations/chrono.rs
index d5332f1..1096a20 100644
--- a/src/implementations/chrono.rs
+++ b/src/implementations/chrono.rs
@@ -18,8 +18,10 @@ impl DeserializeRevisioned for DateTime<Utc> {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = <i64 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		let nano = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
+		// A leap second may carry nanoseconds past the second at any second.
 		Utc.timestamp_opt(secs, nano)
 			.single()
+			.or_else(|| Utc.timestamp_opt(secs, 0).single()?.with_nanosecond(nano))
 			.ok_or_else(|| Error::Deserialize("invalid datetime".to_string()))
 	}
 }
@@ -77,7 +79,9 @@ impl DeserializeRevisioned for NaiveTime {
 		let minute = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		let second = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		let nano = <u32 as DeserializeRevisioned>::deserialize_revisioned(reader)?;
+		// A leap second may carry nanoseconds past the second at any second.
 		NaiveTime::from_hms_nano_opt(hour, minute, second, nano)
+			.or_else(|| NaiveTime::from_hms_opt(hour, minute, second)?.with_nanosecond(nano))
 			.ok_or_else(|| Error::Deserialize("invalid time".to_string()))
 	}
 }
-- 
2.43.0


From 853b2a27b99077fd5bc0fbd3114831f265bbabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:48 +0000
Subject: [PATCH 05/23] fix: decode indexed fields of indexed structs with
 their own layout when walking

---
 revision-derive/src/expand/walk.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 2ee4e73..582bd82 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -507,6 +507,24 @@ fn emit_struct_methods(
 				<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?
 			}
 		};
+		// The same decode, from a `__slice: &[u8]` over the field's own bytes.
+		let field_decode_slice_call = if f.attrs.options.indexed_map {
+			quote! {
+				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __slice)?
+			}
+		} else if f.attrs.options.indexed_seq {
+			quote! {
+				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __slice)?
+			}
+		} else if f.attrs.options.indexed_set {
+			quote! {
+				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __slice)?
+			}
+		} else {
+			quote! {
+				<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?
+			}
+		};
 		let field_skip_call = if f.attrs.options.indexed_map {
 			quote! {
 				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(reader)?;
@@ -1057,7 +1075,7 @@ fn emit_struct_methods(
 							bytes.len()
 						};
 						let mut __slice: &[u8] = &bytes[__start..__end];
-						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						let __v = #field_decode_slice_call;
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
-- 
2.43.0


From 7f007630cb1cd9095f91de33e03137d910882054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 06/23] fix: open an indexed map with an empty offset table
 without panicking

---
 src/optimised/validation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimised/validation.rs b/src/optimised/validation.rs
index f389082..691de24 100644
--- a/src/optimised/validation.rs
+++ b/src/optimised/validation.rs
@@ -79,6 +79,10 @@ pub fn validate_map_prologue(
 	if offset_table.len() != count.saturating_mul(8) {
 		return Err(Error::OptimisedOffsetsNonMonotonic);
 	}
+	// An empty table has no value column to look at.
+	if count == 0 {
+		return Ok(());
+	}
 	validate_struct_prologue(offset_table, count, 8, keys_region_len)?;
 	validate_struct_prologue(&offset_table[4..], count, 8, vals_region_len)?;
 	Ok(())
-- 
2.43.0


From 015a03efb88fad3ca69adcf93957195394dbe702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:56 +0000
Subject: [PATCH 07/23] fix: reject indexed collections whose offset table size
 overflows instead of panicking

---
 src/optimised/indexed/map_walk.rs  |  2 +-
 src/optimised/indexed/seq_walk.rs  |  2 +-
 src/optimised/indexed/serialize.rs | 14 ++++++++++----
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/optimised/indexed/map_walk.rs b/src/optimised/indexed/map_walk.rs
index 8c80efa..f90242d 100644
--- a/src/optimised/indexed/map_walk.rs
+++ b/src/optimised/indexed/map_walk.rs
@@ -180,7 +180,7 @@ impl<'p, K, V> IndexedMapWalker<'p, K, V> {
 		let table_bytes = len
 			.checked_mul(8)
 			.ok_or_else(|| Error::Deserialize("indexed-map offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		// Borrow the interleaved `(key_off, val_off)` table directly from the
diff --git a/src/optimised/indexed/seq_walk.rs b/src/optimised/indexed/seq_walk.rs
index 53ebe61..85f1efa 100644
--- a/src/optimised/indexed/seq_walk.rs
+++ b/src/optimised/indexed/seq_walk.rs
@@ -108,7 +108,7 @@ impl<'p, T> IndexedSeqWalker<'p, T> {
 		let table_bytes = len
 			.checked_mul(4)
 			.ok_or_else(|| Error::Deserialize("indexed-seq offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		let offsets = &payload[cursor..cursor + table_bytes];
diff --git a/src/optimised/indexed/serialize.rs b/src/optimised/indexed/serialize.rs
index f249083..46d85aa 100644
--- a/src/optimised/indexed/serialize.rs
+++ b/src/optimised/indexed/serialize.rs
@@ -137,8 +137,11 @@ where
 			return Ok(out);
 		}
 		// Skip the offset tables + region lengths.
-		let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-		advance_read(r, table_bytes + 8)?;
+		let header_bytes = len
+			.checked_mul(8)
+			.and_then(|table_bytes| table_bytes.checked_add(8))
+			.ok_or(Error::OptimisedSubReaderOverrun)?;
+		advance_read(r, header_bytes)?;
 		let mut keys: Vec<K> = Vec::with_capacity(len);
 		for _ in 0..len {
 			keys.push(K::deserialize_revisioned(r)?);
@@ -747,8 +750,11 @@ where
 
 	// Skip the offset table (len * 8) and region-length pair (8 bytes); we
 	// don't need them for sequential decode.
-	let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-	advance_read(reader, table_bytes + 8)?;
+	let header_bytes = len
+		.checked_mul(8)
+		.and_then(|table_bytes| table_bytes.checked_add(8))
+		.ok_or(Error::OptimisedSubReaderOverrun)?;
+	advance_read(reader, header_bytes)?;
 
 	// Dense keys (sorted ascending) come first, then dense values in matching
 	// order. Each K and V know their own wire length via DeserializeRevisioned.
-- 
2.43.0


From 2cf92a52a47a9347d7b9a8d54c3e96bdd8d2d650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:28 +0000
Subject: [PATCH 08/23] fix: report corrupt offsets of indexed structs as
 errors in every walker accessor

---
 revision-derive/src/expand/walk.rs | 120 ++++++++++++-----------------
 1 file changed, 48 insertions(+), 72 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 582bd82..51cd2d6 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -309,6 +309,45 @@ pub fn emit_walk_impl(
 		},
 	};
 
+	// `IndexedBorrowed` walkers read the payload's offset table on demand.
+	let indexed_field_helper = match &item.kind {
+		ItemKind::Struct(_) => quote! {
+			/// Bytes of the field at `index` of an `indexed_struct` payload with
+			/// `field_count` fields, as delimited by the payload's offset table.
+			#[allow(dead_code)]
+			fn __indexed_field_bytes(
+				bytes: &'r [u8],
+				field_count: u16,
+				index: usize,
+			) -> ::std::result::Result<&'r [u8], ::revision::Error> {
+				let __offset = |__index: usize| -> ::std::result::Result<usize, ::revision::Error> {
+					match bytes.get(__index * 4..__index * 4 + 4) {
+						::std::option::Option::Some(__b) => ::std::result::Result::Ok(
+							u32::from_le_bytes([__b[0], __b[1], __b[2], __b[3]]) as usize,
+						),
+						::std::option::Option::None => {
+							::std::result::Result::Err(::revision::Error::Deserialize(
+								"IndexedBorrowed offset table truncated".into(),
+							))
+						}
+					}
+				};
+				let __start = __offset(index)?;
+				let __end = if index + 1 < field_count as usize {
+					__offset(index + 1)?
+				} else {
+					bytes.len()
+				};
+				// A malformed payload can hold offsets that are out of order
+				// or out of range.
+				bytes.get(__start..__end).ok_or_else(|| {
+					::revision::Error::Deserialize("IndexedBorrowed field offsets out of range".into())
+				})
+			}
+		},
+		ItemKind::Enum(_) => quote! {},
+	};
+
 	let walk_impl = quote! {
 		impl ::revision::WalkRevisioned for #name {
 			type Walker<'r, R: ::revision::BorrowedReader + 'r> = #walker_name<'r, R>;
@@ -332,6 +371,7 @@ pub fn emit_walk_impl(
 
 		impl<'r, R: ::revision::BorrowedReader + 'r> #walker_name<'r, R> {
 			#revision_method
+			#indexed_field_helper
 			#methods
 		}
 	};
@@ -651,25 +691,10 @@ fn emit_struct_methods(
 			|view_ty: &TokenStream, self_expr: &TokenStream| -> TokenStream {
 				quote! {
 					if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &#self_expr.repr {
-						let __bytes_borrow: &'r [u8] = *bytes;
-						let __fc = *field_count as usize;
-						let __off_base = (#pos_lit as usize) * 4;
-						let __start = u32::from_le_bytes(
-							__bytes_borrow[__off_base..__off_base + 4]
-								.try_into()
-								.expect("4-byte slice"),
-						) as usize;
-						let __end = if (#pos_lit as usize) + 1 < __fc {
-							u32::from_le_bytes(
-								__bytes_borrow[__off_base + 4..__off_base + 8]
-									.try_into()
-									.expect("4-byte slice"),
-							) as usize
-						} else {
-							__bytes_borrow.len()
-						};
+						let __field_bytes =
+							Self::__indexed_field_bytes(*bytes, *field_count, #pos_lit as usize)?;
 						return ::std::result::Result::Ok(
-							#view_ty::new(::std::borrow::Cow::Borrowed(&__bytes_borrow[__start..__end])),
+							#view_ty::new(::std::borrow::Cow::Borrowed(__field_bytes)),
 						);
 					}
 				}
@@ -949,43 +974,9 @@ fn emit_struct_methods(
 			let __self = self;
 			// IndexedBorrowed fast path — borrow from the offset table.
 			if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &__self.repr {
-				let __bytes_borrow: &'r [u8] = *bytes;
-				let __fc = *field_count as usize;
-				let __off_base = (#pos_lit as usize) * 4;
-				// Bounds-check the offset table reads. The non-last-field
-				// branch reads two consecutive entries, so it needs 8
-				// bytes; the last-field branch only needs its own 4.
-				let __needed = if (#pos_lit as usize) + 1 < __fc { 8 } else { 4 };
-				if __off_base + __needed > __bytes_borrow.len() {
-					return ::std::result::Result::Err(::revision::Error::Deserialize(
-						"IndexedBorrowed offset table truncated".into(),
-					));
-				}
-				let __start = u32::from_le_bytes(
-					__bytes_borrow[__off_base..__off_base + 4]
-						.try_into()
-						.expect("4-byte slice"),
-				) as usize;
-				let __end = if (#pos_lit as usize) + 1 < __fc {
-					u32::from_le_bytes(
-						__bytes_borrow[__off_base + 4..__off_base + 8]
-							.try_into()
-							.expect("4-byte slice"),
-					) as usize
-				} else {
-					__bytes_borrow.len()
-				};
-				// Validate the slice bounds before indexing — a malformed
-				// payload with `start > end` or `end > len` would otherwise
-				// panic in the slice op.
-				if __start > __end || __end > __bytes_borrow.len() {
-					return ::std::result::Result::Err(::revision::Error::Deserialize(
-						"IndexedBorrowed field offsets out of range".into(),
-					));
-				}
-				return ::std::result::Result::Ok(
-					::std::borrow::Cow::Borrowed(&__bytes_borrow[__start..__end]),
-				);
+				let __field_bytes =
+					Self::__indexed_field_bytes(*bytes, *field_count, #pos_lit as usize)?;
+				return ::std::result::Result::Ok(::std::borrow::Cow::Borrowed(__field_bytes));
 			}
 			// Wire / ConvertedOwned: consume `__self.repr`.
 			match __self.repr {
@@ -1058,23 +1049,8 @@ fn emit_struct_methods(
 						// Indexed struct: parse this field's offset from the
 						// table at the start of `bytes`. O(1) — two u32 reads,
 						// no Vec<u32> alloc.
-						let __off_base = (#pos_lit as usize) * 4;
-						let __start = u32::from_le_bytes(
-							bytes[__off_base..__off_base + 4]
-								.try_into()
-								.expect("4-byte slice"),
-						) as usize;
-						let __end = if (#pos_lit as usize) + 1 < (*field_count as usize) {
-							let __next_base = __off_base + 4;
-							u32::from_le_bytes(
-								bytes[__next_base..__next_base + 4]
-									.try_into()
-									.expect("4-byte slice"),
-							) as usize
-						} else {
-							bytes.len()
-						};
-						let mut __slice: &[u8] = &bytes[__start..__end];
+						let mut __slice: &[u8] =
+							Self::__indexed_field_bytes(*bytes, *field_count, #pos_lit as usize)?;
 						let __v = #field_decode_slice_call;
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
-- 
2.43.0


From 7c5ac13e5084fdcce490c5ad57c48c67d2d8af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:50 +0000
Subject: [PATCH 09/23] fix: decode removed indexed fields with their own
 layout during migration

---
 .../src/expand/optimised/struct_codegen.rs    | 50 ++++++++++---------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/revision-derive/src/expand/optimised/struct_codegen.rs b/revision-derive/src/expand/optimised/struct_codegen.rs
index 4153531..d015cfd 100644
--- a/revision-derive/src/expand/optimised/struct_codegen.rs
+++ b/revision-derive/src/expand/optimised/struct_codegen.rs
@@ -157,26 +157,8 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 		let ty = &f.ty;
 
 		if exists_current && exists_target {
-			let decode = if f.attrs.options.indexed_map {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __payload)?;
-				}
-			} else if f.attrs.options.indexed_seq {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __payload)?;
-				}
-			} else if f.attrs.options.indexed_set {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __payload)?;
-				}
-			} else {
-				quote! {
-					let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-				}
-			};
+			let decode = decode_field(f);
+			let decode = quote! { let #binding: #ty = #decode; };
 			decode_each.append_all(decode);
 			bindings_for_construction.push(quote! { #binding });
 		} else if !exists_current && exists_target {
@@ -202,9 +184,8 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 				.expect("convert_fn required when `end` is set; checked by AST validation");
 			let convert_ident = syn::Ident::new(&convert.value(), convert.span());
 			let rev_lit = current as u16;
-			decode_each.append_all(quote! {
-				let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-			});
+			let decode = decode_field(f);
+			decode_each.append_all(quote! { let #binding: #ty = #decode; });
 			// Apply convert_fn after construction (handled below via __post_construct).
 			let _ = (convert_ident, rev_lit);
 		}
@@ -294,6 +275,29 @@ pub fn emit_struct_skip(_s: &Struct, _ctx: EncodingContext, slice_mode: bool) ->
 	}
 }
 
+/// Decode expression for a field on the wire, from `__payload`: indexed fields
+/// have a layout of their own, whether or not the type still has them.
+fn decode_field(f: &Field) -> TokenStream {
+	let ty = &f.ty;
+	if f.attrs.options.indexed_map {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __payload)?
+		}
+	} else if f.attrs.options.indexed_seq {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __payload)?
+		}
+	} else if f.attrs.options.indexed_set {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __payload)?
+		}
+	} else {
+		quote! {
+			<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?
+		}
+	}
+}
+
 fn collect_fields(s: &Struct) -> Vec<&Field> {
 	match &s.fields {
 		Fields::Named {
-- 
2.43.0


From d29e241441dabadb61821c783691e119e418393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:49 +0000
Subject: [PATCH 10/23] fix: skip specialised fields by the bulk layout when
 specialised-vectors is off

---
 revision-derive/src/expand/common.rs |  8 ++++++++
 revision-derive/src/expand/skip.rs   |  8 +++++++-
 src/implementations/specialised.rs   | 16 ++++++++++++++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/common.rs b/revision-derive/src/expand/common.rs
index a23a846..d5ea6a3 100644
--- a/revision-derive/src/expand/common.rs
+++ b/revision-derive/src/expand/common.rs
@@ -231,6 +231,14 @@ pub fn emit_deserialize_specialised(ty: &Type, reader_expr: &TokenStream) -> Tok
 	}
 }
 
+/// Emit a skip of a bulk-encoded `Vec<T>` for a `#[revision(specialised)]`
+/// field. Same trait-bound contract as [`emit_serialize_specialised`].
+pub fn emit_skip_specialised(ty: &Type, reader_expr: &TokenStream) -> TokenStream {
+	quote! {
+		::revision::implementations::specialised::skip_revisioned_specialised::<#ty, _>(#reader_expr)?;
+	}
+}
+
 #[cfg(test)]
 mod tests {
 	use super::*;
diff --git a/revision-derive/src/expand/skip.rs b/revision-derive/src/expand/skip.rs
index 8df2522..239c606 100644
--- a/revision-derive/src/expand/skip.rs
+++ b/revision-derive/src/expand/skip.rs
@@ -6,7 +6,7 @@ use syn::Ident;
 
 use crate::ast::{Enum, Fields, Struct, Variant, Visit};
 
-use super::common::{CalcDiscriminant, emit_skip_fixed_le};
+use super::common::{CalcDiscriminant, emit_skip_fixed_le, emit_skip_specialised};
 use super::context::EncodingContext;
 use super::optimised;
 
@@ -157,6 +157,9 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							let reader_expr = quote! { reader };
+							emit_skip_specialised(ty, &reader_expr)
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
@@ -174,6 +177,9 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							let reader_expr = quote! { reader };
+							emit_skip_specialised(ty, &reader_expr)
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
diff --git a/src/implementations/specialised.rs b/src/implementations/specialised.rs
index 640a088..e31eda1 100644
--- a/src/implementations/specialised.rs
+++ b/src/implementations/specialised.rs
@@ -32,6 +32,22 @@ pub trait DeserializeRevisionedSpecialised: Revisioned + DeserializeRevisioned {
 		Self: Sized;
 }
 
+/// Skip a bulk-encoded vector, whatever the crate-wide `specialised-vectors`
+/// feature is.
+#[doc(hidden)]
+pub fn skip_revisioned_specialised<T, R>(reader: &mut R) -> Result<(), Error>
+where
+	T: DeserializeRevisionedSpecialised + crate::SkipRevisioned,
+	R: Read,
+{
+	if cfg!(feature = "specialised-vectors") {
+		// The plain encoding of these vectors is the bulk one.
+		T::skip_revisioned(reader)
+	} else {
+		T::deserialize_revisioned_specialised(reader).map(drop)
+	}
+}
+
 // --------------------------------------------------
 // Macro for generating optimized Vec<T> implementations for numeric types
 // --------------------------------------------------
-- 
2.43.0


From 7f7bbb112555e3f612fab2daeafcbbec5c4b5af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:49 +0000
Subject: [PATCH 11/23] fix: walk struct fields by the layout of the revision
 they were written at

---
 revision-derive/src/expand/walk.rs | 429 +++++++++++++++++++++--------
 1 file changed, 316 insertions(+), 113 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 51cd2d6..e0cfbc8 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -45,7 +45,10 @@ use crate::ast::attributes::VariantSize;
 use crate::ast::history::{HistoryEntry, StructEncoding};
 use crate::ast::{Enum, Field, FieldName, Fields, Item, ItemKind, Struct, Variant, Visit};
 
-use super::common::CalcDiscriminant;
+use super::common::{
+	CalcDiscriminant, emit_deserialize_fixed_le, emit_deserialize_specialised,
+	emit_serialize_fixed_le, emit_serialize_specialised, emit_skip_fixed_le, emit_skip_specialised,
+};
 
 /// Emit the [`WalkRevisioned`] impl and supporting types for a
 /// `#[revisioned(...)]` item.
@@ -87,6 +90,16 @@ pub fn emit_walk_impl(
 	let walker_name = format_ident!("{}Walker", name);
 	let walker_repr_name = format_ident!("{}WalkerRepr", name);
 
+	// Bytes between the revision header and the first field of a struct at the
+	// latest revision: the optimised envelope's length and offset table.
+	let latest_struct_prologue = match (&item.kind, history.last()) {
+		(ItemKind::Struct(s), Some(h)) if h.is_optimised() => match h.struct_kind {
+			StructEncoding::Indexed => 4 + 4 * alive_field_count(s, revision),
+			StructEncoding::Default => 4,
+		},
+		_ => 0,
+	};
+
 	// ConvertedOwned path is only emitted when the type actually has at least
 	// one `convert_fn` annotation AND can both serialize and deserialize.
 	let materialise_supported = has_convert_fn && serialize_enabled && deserialize_enabled;
@@ -108,7 +121,7 @@ pub fn emit_walk_impl(
 					<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
 					let mut __slice: &[u8] = __buf.as_slice();
 					let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
-					let __cursor = __buf.len() - __slice.len();
+					let __cursor = __buf.len() - __slice.len() + #latest_struct_prologue;
 					return ::std::result::Result::Ok(#walker_name {
 						repr: #walker_repr_name::ConvertedOwned {
 							bytes: __buf,
@@ -157,10 +170,6 @@ pub fn emit_walk_impl(
 	//   declared size class, and return an OptimisedBorrowed walker with
 	//   `discriminant = variant_id` (the existing per-variant decode code on
 	//   the OptimisedBorrowed arm reads the borrowed payload directly).
-	let optimised_struct_field_count = match &item.kind {
-		ItemKind::Struct(s) => Some(alive_field_count(s, revision) as u32),
-		ItemKind::Enum(_) => None,
-	};
 	let optimised_skip_arms: Vec<TokenStream> = history
 		.iter()
 		.filter(|h| h.is_optimised())
@@ -173,8 +182,10 @@ pub fn emit_walk_impl(
 						// reader's buffer (no allocation) and return an
 						// IndexedBorrowed walker. Per-field methods jump via
 						// offsets in O(1).
-						let field_count = optimised_struct_field_count.unwrap_or(0) as usize;
-						let field_count_u16 = field_count as u16;
+						let field_count_u16 = match &item.kind {
+							ItemKind::Struct(s) => alive_field_count(s, h.revision.value) as u16,
+							ItemKind::Enum(_) => 0,
+						};
 						Ok(quote! {
 							#rev_lit => {
 								let mut __len_buf = [0u8; 4];
@@ -189,6 +200,7 @@ pub fn emit_walk_impl(
 								return ::std::result::Result::Ok(#walker_name {
 									repr: #walker_repr_name::IndexedBorrowed {
 										bytes: __payload,
+										wire_rev: __wire_rev,
 										field_count: #field_count_u16,
 										pos: 0,
 										_marker: ::std::marker::PhantomData,
@@ -255,7 +267,7 @@ pub fn emit_walk_impl(
 
 	// Per-type method body
 	let methods = match &item.kind {
-		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, s)?,
+		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, s, history)?,
 		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e)?,
 	};
 
@@ -302,7 +314,7 @@ pub fn emit_walk_impl(
 			pub fn revision(&self) -> u16 {
 				match &self.repr {
 					#walker_repr_name::Wire { wire_rev, .. } => *wire_rev,
-					#walker_repr_name::IndexedBorrowed { .. } => #revision_lit,
+					#walker_repr_name::IndexedBorrowed { wire_rev, .. } => *wire_rev,
 					#walker_repr_name::ConvertedOwned { .. } => #revision_lit,
 				}
 			}
@@ -412,6 +424,7 @@ fn emit_struct_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> T
 			/// demand from `bytes[i*4..i*4+4]` for O(1) random access.
 			IndexedBorrowed {
 				bytes: &'r [u8],
+				wire_rev: u16,
 				field_count: u16,
 				pos: u32,
 				_marker: ::std::marker::PhantomData<&'r mut R>,
@@ -483,8 +496,13 @@ fn emit_struct_methods(
 	walker_repr_name: &Ident,
 	revision: usize,
 	s: &Struct,
+	history: &[HistoryEntry],
 ) -> syn::Result<TokenStream> {
 	let mut out = TokenStream::new();
+	// The materialised bytes are laid out as the latest revision lays them out.
+	let latest_optimised = history.last().is_some_and(|h| h.is_optimised());
+	let optimised_revs: Vec<u16> =
+		history.iter().filter(|h| h.is_optimised()).map(|h| h.revision.value as u16).collect();
 	let fields_iter: Vec<&Field> = match &s.fields {
 		Fields::Named {
 			fields,
@@ -526,93 +544,132 @@ fn emit_struct_methods(
 		// `Default::default`. Only emitted into the codegen when the field
 		// could actually be absent (`start > 0`); otherwise `Default` would
 		// be required even for types that never need it.
-		// Pick the decode / skip call for this field. Fields with
-		// `#[revision(indexed_map)]` / `#[revision(indexed_seq)]` route through
-		// the runtime indexed helpers; everything else uses the type's own
-		// `DeserializeRevisioned` / `SkipRevisioned` impl.
-		let field_decode_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(reader)?
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(reader)?
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(reader)?
-			}
-		} else {
-			quote! {
-				<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?
+		// Pick the decode / skip call for this field. A field's layout depends
+		// on the encoding of the revision it was written at (see
+		// `field_decode`), so a history that mixes encodings has to look at the
+		// wire revision.
+		let reader_expr = quote! { reader };
+		let slice_expr = quote! { &mut __slice };
+		let wire_rev_expr = quote! { __wire_rev };
+		let field_decode_call = by_encoding(
+			history,
+			&wire_rev_expr,
+			field_decode(f, true, &reader_expr)?,
+			field_decode(f, false, &reader_expr)?,
+		);
+		let field_skip_call = by_encoding(
+			history,
+			&wire_rev_expr,
+			field_skip(f, true, &reader_expr)?,
+			field_skip(f, false, &reader_expr)?,
+		);
+		// The same, from a `__slice: &[u8]` over the field's own bytes in an
+		// indexed payload, or over the rest of the materialised bytes.
+		let indexed_decode_call = field_decode(f, true, &slice_expr)?;
+		let latest_decode_call = field_decode(f, latest_optimised, &slice_expr)?;
+		let latest_skip_call = field_skip(f, latest_optimised, &slice_expr)?;
+		let latest_encode_call = field_encode(f, latest_optimised)?;
+
+		// Position of this field in an indexed payload, which holds the fields
+		// alive at the wire revision.
+		let indexed_position_name = format_ident!("__indexed_position_of_{}", method_base);
+		let indexed_position_arms = history
+			.iter()
+			.filter(|h| h.is_optimised() && matches!(h.struct_kind, StructEncoding::Indexed))
+			.filter(|h| f.attrs.options.exists_at(h.revision.value))
+			.map(|h| {
+				let rev = h.revision.value as u16;
+				let position = fields_iter
+					.iter()
+					.filter(|x| x.attrs.options.exists_at(h.revision.value))
+					.position(|x| ::std::ptr::eq(*x, *f))
+					.expect("field is alive");
+				quote! { #rev => ::std::option::Option::Some(#position), }
+			});
+		let indexed_position_fn = quote! {
+			#[allow(dead_code, non_snake_case)]
+			#[inline]
+			fn #indexed_position_name(wire_rev: u16) -> ::std::option::Option<usize> {
+				match wire_rev {
+					#(#indexed_position_arms)*
+					_ => ::std::option::Option::None,
+				}
 			}
 		};
-		// The same decode, from a `__slice: &[u8]` over the field's own bytes.
-		let field_decode_slice_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __slice)?
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __slice)?
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __slice)?
-			}
-		} else {
+		let indexed_absent_error = |method: &str| {
+			let message = format!(
+				"{method} not available at wire revision {{}}: field added at revision {start_val}",
+			);
 			quote! {
-				<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?
+				::revision::Error::Conversion(::std::format!(#message, *wire_rev))
 			}
 		};
-		let field_skip_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(reader)?;
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(reader)?;
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(reader)?;
-			}
+
+		let default_value = if always_present {
+			let absent = indexed_absent_error(&decode_name.to_string());
+			quote! { return ::std::result::Result::Err(#absent) }
+		} else if let Some(default) = f.attrs.options.default.as_ref() {
+			let default = Ident::new(&default.value(), default.span());
+			quote! { #owner_name::#default(*wire_rev)? }
 		} else {
-			quote! {
-				<#ty as ::revision::SkipRevisioned>::skip_revisioned(reader)?;
-			}
+			quote! { <#ty as ::std::default::Default>::default() }
 		};
-
 		let decode_wire_body = if always_present {
 			quote! {
+				let __wire_rev = *wire_rev;
 				let __v = #field_decode_call;
 			}
 		} else {
-			let default_expr = if let Some(default) = f.attrs.options.default.as_ref() {
-				let default = Ident::new(&default.value(), default.span());
-				quote! { #owner_name::#default(*wire_rev)? }
-			} else {
-				quote! { <#ty as ::std::default::Default>::default() }
-			};
 			quote! {
-				let __v = if *wire_rev >= #start_val {
+				let __wire_rev = *wire_rev;
+				let __v = if __wire_rev >= #start_val {
 					#field_decode_call
 				} else {
-					#default_expr
+					#default_value
 				};
 			}
 		};
 
 		let skip_wire_body = if always_present {
-			field_skip_call.clone()
+			quote! {
+				let __wire_rev = *wire_rev;
+				#field_skip_call
+			}
 		} else {
 			quote! {
-				if *wire_rev >= #start_val {
+				let __wire_rev = *wire_rev;
+				if __wire_rev >= #start_val {
 					#field_skip_call
 				}
 			}
 		};
 
+		// A field with an encoding override holds no encoding of its type that the
+		// type's own walker could read.
+		let overridden = f.attrs.options.fixed || f.attrs.options.specialised;
+		let override_check = |method: &Ident, wire_rev: TokenStream| {
+			if !overridden || optimised_revs.len() == history.len() {
+				return quote! {};
+			}
+			let message = format!(
+				"{method} is not supported on a field with an encoding override; use {decode_name}"
+			);
+			let error = quote! {
+				return ::std::result::Result::Err(::revision::Error::Conversion(#message.into()));
+			};
+			if optimised_revs.is_empty() {
+				error
+			} else {
+				quote! {
+					if !::std::matches!(#wire_rev, #(#optimised_revs)|*) {
+						#error
+					}
+				}
+			}
+		};
+		let walk_override_check = override_check(&walk_name, quote! { *wire_rev });
+		let into_walk_override_check = override_check(&into_walk_name, quote! { wire_rev });
+
 		// Consuming variant body — `reader` is `&'r mut R` (moved from `self.repr`),
 		// `wire_rev` is `u16` (moved).
 		let into_walk_wire_body = if always_present {
@@ -687,28 +744,52 @@ fn emit_struct_methods(
 		// `self_expr` is the identifier used for the walker instance — `self`
 		// for `walk_<field>(&mut self)` and `__self` for
 		// `into_walk_<field>(self)` after the `let mut __self = self;` rebind.
-		let fast_path_indexed_borrowed =
-			|view_ty: &TokenStream, self_expr: &TokenStream| -> TokenStream {
-				quote! {
-					if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &#self_expr.repr {
-						let __field_bytes =
-							Self::__indexed_field_bytes(*bytes, *field_count, #pos_lit as usize)?;
-						return ::std::result::Result::Ok(
-							#view_ty::new(::std::borrow::Cow::Borrowed(__field_bytes)),
-						);
-					}
+		let fast_path_indexed_borrowed = |view_ty: &TokenStream,
+		                                  self_expr: &TokenStream,
+		                                  method: &Ident|
+		 -> TokenStream {
+			let absent = indexed_absent_error(&method.to_string());
+			quote! {
+				if let #walker_repr_name::IndexedBorrowed { bytes, wire_rev, field_count, .. } = &#self_expr.repr {
+					let __index =
+						Self::#indexed_position_name(*wire_rev).ok_or_else(|| #absent)?;
+					let __field_bytes =
+						Self::__indexed_field_bytes(*bytes, *field_count, __index)?;
+					return ::std::result::Result::Ok(
+						#view_ty::new(::std::borrow::Cow::Borrowed(__field_bytes)),
+					);
 				}
-			};
+			}
+		};
 		// Wire-parent fast path: skip the field, derive its bytes from the
 		// before/after `remaining()` snapshots, lifetime-extend via the
 		// canonical unsafe pattern (peeked bytes stay valid for `'r` per the
-		// `BorrowedReader` contract).
+		// `BorrowedReader` contract). Only optimised revisions hold the field in
+		// its indexed layout; values written at any other revision take the
+		// decode and re-encode path.
 		let fast_path_wire = |view_ty: &TokenStream,
 		                      skip_call: &TokenStream,
-		                      self_expr: &TokenStream|
+		                      self_expr: &TokenStream,
+		                      method: &Ident|
 		 -> TokenStream {
+			let absent_check = if always_present {
+				quote! {}
+			} else {
+				let absent = indexed_absent_error(&method.to_string());
+				quote! {
+					if let #walker_repr_name::Wire { wire_rev, .. } = &#self_expr.repr {
+						if *wire_rev < #start_val {
+							return ::std::result::Result::Err(#absent);
+						}
+					}
+				}
+			};
+			if optimised_revs.is_empty() {
+				return absent_check;
+			}
 			quote! {
-				if let #walker_repr_name::Wire { reader, .. } = &mut #self_expr.repr {
+				#absent_check
+				if let #walker_repr_name::Wire { reader, wire_rev: #(#optimised_revs)|*, .. } = &mut #self_expr.repr {
 					let __before = ::revision::BorrowedReader::remaining(*reader);
 					let __before_ptr = __before.as_ptr();
 					let __before_len = __before.len();
@@ -769,10 +850,10 @@ fn emit_struct_methods(
 			let skip_call = quote! {
 				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(*reader)?;
 			};
-			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk);
-			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk);
-			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into);
-			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into);
+			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk, &walk_name);
+			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk, &walk_name);
+			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into, &into_walk_name);
+			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into, &into_walk_name);
 			walk_body = quote! {
 				#fast_ib_w
 				#fast_w_w
@@ -814,10 +895,10 @@ fn emit_struct_methods(
 			let skip_call = quote! {
 				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(*reader)?;
 			};
-			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk);
-			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk);
-			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into);
-			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into);
+			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk, &walk_name);
+			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk, &walk_name);
+			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into, &into_walk_name);
+			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into, &into_walk_name);
 			walk_body = quote! {
 				#fast_ib_w
 				#fast_w_w
@@ -859,10 +940,10 @@ fn emit_struct_methods(
 			let skip_call = quote! {
 				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(*reader)?;
 			};
-			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk);
-			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk);
-			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into);
-			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into);
+			let fast_ib_w = fast_path_indexed_borrowed(&view_ctor, &self_walk, &walk_name);
+			let fast_w_w = fast_path_wire(&view_ctor, &skip_call, &self_walk, &walk_name);
+			let fast_ib_i = fast_path_indexed_borrowed(&view_ctor, &self_into, &into_walk_name);
+			let fast_w_i = fast_path_wire(&view_ctor, &skip_call, &self_into, &into_walk_name);
 			walk_body = quote! {
 				#fast_ib_w
 				#fast_w_w
@@ -898,6 +979,7 @@ fn emit_struct_methods(
 			walk_body = quote! {
 				match &mut self.repr {
 					#walker_repr_name::Wire { reader, wire_rev, pos } => {
+						#walk_override_check
 						#walk_wire_body_borrow
 					}
 					#walker_repr_name::IndexedBorrowed { .. } => {
@@ -916,6 +998,7 @@ fn emit_struct_methods(
 			into_walk_body = quote! {
 				match self.repr {
 					#walker_repr_name::Wire { reader, wire_rev, pos: _ } => {
+						#into_walk_override_check
 						#into_walk_wire_body
 					}
 					#walker_repr_name::IndexedBorrowed { .. } => {
@@ -963,24 +1046,27 @@ fn emit_struct_methods(
 				method_base, start_val,
 			);
 			quote! {
-				if wire_rev < #start_val {
+				if __wire_rev < #start_val {
 					return ::std::result::Result::Err(::revision::Error::Conversion(
-						::std::format!(#bytes_err_msg, wire_rev),
+						::std::format!(#bytes_err_msg, __wire_rev),
 					));
 				}
 			}
 		};
+		let into_bytes_absent_error = indexed_absent_error(&into_field_bytes_name.to_string());
 		let into_field_bytes_body = quote! {
 			let __self = self;
 			// IndexedBorrowed fast path — borrow from the offset table.
-			if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &__self.repr {
+			if let #walker_repr_name::IndexedBorrowed { bytes, wire_rev, field_count, .. } = &__self.repr {
+				let __index =
+					Self::#indexed_position_name(*wire_rev).ok_or_else(|| #into_bytes_absent_error)?;
 				let __field_bytes =
-					Self::__indexed_field_bytes(*bytes, *field_count, #pos_lit as usize)?;
+					Self::__indexed_field_bytes(*bytes, *field_count, __index)?;
 				return ::std::result::Result::Ok(::std::borrow::Cow::Borrowed(__field_bytes));
 			}
 			// Wire / ConvertedOwned: consume `__self.repr`.
 			match __self.repr {
-				#walker_repr_name::Wire { reader, wire_rev, pos: _ } => {
+				#walker_repr_name::Wire { reader, wire_rev: __wire_rev, pos: _ } => {
 					#into_field_bytes_wire_rev_check
 					let __before = ::revision::BorrowedReader::remaining(reader);
 					let __before_ptr = __before.as_ptr();
@@ -1013,13 +1099,9 @@ fn emit_struct_methods(
 				}
 				#walker_repr_name::ConvertedOwned { bytes, cursor, pos: _, .. } => {
 					let mut __slice: &[u8] = &bytes[cursor..];
-					let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(
-						&mut __slice,
-					)?;
+					let __v: #ty = #latest_decode_call;
 					let mut __out: ::std::vec::Vec<u8> = ::std::vec::Vec::new();
-					<#ty as ::revision::SerializeRevisioned>::serialize_revisioned(
-						&__v, &mut __out,
-					)?;
+					#latest_encode_call
 					::std::result::Result::Ok(::std::borrow::Cow::Owned(__out))
 				}
 				#walker_repr_name::IndexedBorrowed { .. } => {
@@ -1031,6 +1113,8 @@ fn emit_struct_methods(
 		};
 
 		out.append_all(quote! {
+			#indexed_position_fn
+
 			/// Decode this field, advancing the walker.
 			///
 			/// For `IndexedBorrowed` walkers (optimised + `indexed_struct`),
@@ -1045,20 +1129,27 @@ fn emit_struct_methods(
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
-					#walker_repr_name::IndexedBorrowed { bytes, field_count, pos, .. } => {
+					#walker_repr_name::IndexedBorrowed { bytes, wire_rev, field_count, pos, .. } => {
 						// Indexed struct: parse this field's offset from the
 						// table at the start of `bytes`. O(1) — two u32 reads,
 						// no Vec<u32> alloc.
-						let mut __slice: &[u8] =
-							Self::__indexed_field_bytes(*bytes, *field_count, #pos_lit as usize)?;
-						let __v = #field_decode_slice_call;
+						let __v: #ty = match Self::#indexed_position_name(*wire_rev) {
+							::std::option::Option::Some(__index) => {
+								let mut __slice: &[u8] =
+									Self::__indexed_field_bytes(*bytes, *field_count, __index)?;
+								#indexed_decode_call
+							}
+							::std::option::Option::None => {
+								#default_value
+							}
+						};
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
 					#walker_repr_name::ConvertedOwned { bytes, cursor, pos, .. } => {
 						// Sequential materialised path (convert_fn round-trip).
 						let mut __slice: &[u8] = &bytes[*cursor..];
-						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						let __v: #ty = #latest_decode_call;
 						*cursor = bytes.len() - __slice.len();
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
@@ -1086,7 +1177,7 @@ fn emit_struct_methods(
 					}
 					#walker_repr_name::ConvertedOwned { bytes, cursor, pos, .. } => {
 						let mut __slice: &[u8] = &bytes[*cursor..];
-						<#ty as ::revision::SkipRevisioned>::skip_revisioned(&mut __slice)?;
+						#latest_skip_call
 						*cursor = bytes.len() - __slice.len();
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(())
@@ -1144,6 +1235,118 @@ fn emit_struct_methods(
 	Ok(out)
 }
 
+/// Decode expression for a field at a revision with the given encoding.
+///
+/// Optimised revisions give `#[revision(indexed_map)]` / `indexed_seq` /
+/// `indexed_set` fields their indexed layout; legacy revisions honour
+/// `#[revision(fixed)]` / `specialised`. Everything else uses the type's own
+/// impls.
+fn field_decode(f: &Field, optimised: bool, reader: &TokenStream) -> syn::Result<TokenStream> {
+	let ty = &f.ty;
+	let options = &f.attrs.options;
+	Ok(if optimised && options.indexed_map {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(#reader)?
+		}
+	} else if optimised && options.indexed_seq {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(#reader)?
+		}
+	} else if optimised && options.indexed_set {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(#reader)?
+		}
+	} else if !optimised && options.fixed {
+		emit_deserialize_fixed_le(ty, reader)?
+	} else if !optimised && options.specialised {
+		emit_deserialize_specialised(ty, reader)
+	} else {
+		quote! {
+			<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(#reader)?
+		}
+	})
+}
+
+/// Skip statement for a field at a revision with the given encoding; the
+/// counterpart of [`field_decode`].
+fn field_skip(f: &Field, optimised: bool, reader: &TokenStream) -> syn::Result<TokenStream> {
+	let ty = &f.ty;
+	let options = &f.attrs.options;
+	Ok(if optimised && options.indexed_map {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(#reader)?;
+		}
+	} else if optimised && options.indexed_seq {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(#reader)?;
+		}
+	} else if optimised && options.indexed_set {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(#reader)?;
+		}
+	} else if !optimised && options.fixed {
+		emit_skip_fixed_le(ty, reader)?
+	} else if !optimised && options.specialised {
+		emit_skip_specialised(ty, reader)
+	} else {
+		quote! {
+			<#ty as ::revision::SkipRevisioned>::skip_revisioned(#reader)?;
+		}
+	})
+}
+
+/// Encode statement for a field value `__v` into `__out`, at a revision with
+/// the given encoding; the counterpart of [`field_decode`].
+fn field_encode(f: &Field, optimised: bool) -> syn::Result<TokenStream> {
+	let ty = &f.ty;
+	let options = &f.attrs.options;
+	Ok(if optimised && options.indexed_map {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::serialize_indexed_map(&__v, &mut __out)?;
+		}
+	} else if optimised && options.indexed_seq {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::serialize_indexed_seq(&__v, &mut __out)?;
+		}
+	} else if optimised && options.indexed_set {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::serialize_indexed_set(&__v, &mut __out)?;
+		}
+	} else if !optimised && options.fixed {
+		emit_serialize_fixed_le(ty, &quote! { &__v }, &quote! { &mut __out })?
+	} else if !optimised && options.specialised {
+		emit_serialize_specialised(ty, &quote! { &__v }, &quote! { &mut __out })
+	} else {
+		quote! {
+			<#ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __out)?;
+		}
+	})
+}
+
+/// Choose between the code for optimised and for legacy revisions by the wire
+/// revision, where the history has both.
+fn by_encoding(
+	history: &[HistoryEntry],
+	wire_rev: &TokenStream,
+	optimised: TokenStream,
+	legacy: TokenStream,
+) -> TokenStream {
+	let optimised_revs: Vec<u16> =
+		history.iter().filter(|h| h.is_optimised()).map(|h| h.revision.value as u16).collect();
+	if optimised_revs.is_empty() {
+		legacy
+	} else if optimised_revs.len() == history.len() || optimised.to_string() == legacy.to_string() {
+		optimised
+	} else {
+		quote! {
+			match #wire_rev {
+				#(#optimised_revs)|* => { #optimised }
+				_ => { #legacy }
+			}
+		}
+	}
+}
+
 /// Helper: return the suffix for `decode_<x>` / `skip_<x>` / `walk_<x>`.
 /// For named fields it's the field identifier; for tuple fields it's
 /// `field_<idx>` (matching the existing `FieldName::to_binding` convention).
-- 
2.43.0


From e3307faa536360076c37e2e53034790fbe2cef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:27 +0000
Subject: [PATCH 12/23] fix: walk enum variants by the discriminants and layout
 of the revision they were written at

---
 revision-derive/src/expand/walk.rs | 138 +++++++++++++++++++++++------
 1 file changed, 112 insertions(+), 26 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index e0cfbc8..8542a28 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -100,6 +100,25 @@ pub fn emit_walk_impl(
 		_ => 0,
 	};
 
+	// The latest revision of an enum gives its variant as a `u32` discriminant,
+	// or under optimised as a tag with the body's length where it is not static.
+	let materialised_discriminant = if history.last().is_some_and(|h| h.is_optimised()) {
+		quote! {
+			let __tag = ::revision::optimised::tag::read_tag(&mut __slice)?;
+			let __mat_disc = __tag.variant_id() as u32;
+			__cursor += 1;
+			if let ::revision::optimised::tag::SizeClass::Varlen = __tag.size_class()? {
+				__cursor += 4;
+			}
+		}
+	} else {
+		quote! {
+			let __mat_disc =
+				<u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+			__cursor = __buf.len() - __slice.len();
+		}
+	};
+
 	// ConvertedOwned path is only emitted when the type actually has at least
 	// one `convert_fn` annotation AND can both serialize and deserialize.
 	let materialise_supported = has_convert_fn && serialize_enabled && deserialize_enabled;
@@ -140,12 +159,7 @@ pub fn emit_walk_impl(
 					let mut __slice: &[u8] = __buf.as_slice();
 					let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
 					let mut __cursor = __buf.len() - __slice.len();
-					let __mat_disc = {
-						let mut __ms: &[u8] = &__buf[__cursor..];
-						let __d = <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __ms)?;
-						__cursor = __buf.len() - __ms.len();
-						__d
-					};
+					#materialised_discriminant
 					return ::std::result::Result::Ok(#walker_name {
 						repr: #walker_repr_name::ConvertedOwned {
 							bytes: __buf,
@@ -268,7 +282,7 @@ pub fn emit_walk_impl(
 	// Per-type method body
 	let methods = match &item.kind {
 		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, s, history)?,
-		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e)?,
+		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e, history)?,
 	};
 
 	// Introspection tables
@@ -289,13 +303,13 @@ pub fn emit_walk_impl(
 			pub fn revision(&self) -> u16 {
 				match &self.repr {
 					#walker_repr_name::Wire { wire_rev, .. } => *wire_rev,
-					#walker_repr_name::OptimisedBorrowed { .. } => #revision_lit,
+					#walker_repr_name::OptimisedBorrowed { wire_rev, .. } => *wire_rev,
 					#walker_repr_name::ConvertedOwned { .. } => #revision_lit,
 				}
 			}
 
-			/// Variant discriminant on the wire (for `Wire`) or on the
-			/// re-encoded current-rev bytes (for the borrowed / owned arms).
+			/// Variant discriminant on the wire (for `Wire` and the borrowed
+			/// arm) or on the re-encoded current-rev bytes (for the owned arm).
 			/// Use
 			/// [`walk_revisioned_variant_name`](Self::walk_revisioned_variant_name)
 			/// to map this to a variant identifier.
@@ -470,6 +484,7 @@ fn emit_enum_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> Tok
 			/// after the `u32_le` length prefix).
 			OptimisedBorrowed {
 				bytes: &'r [u8],
+				wire_rev: u16,
 				discriminant: u32,
 				pos: u32,
 				_marker: ::std::marker::PhantomData<&'r mut R>,
@@ -1371,8 +1386,10 @@ fn emit_enum_methods(
 	walker_repr_name: &Ident,
 	revision: usize,
 	e: &Enum,
+	history: &[HistoryEntry],
 ) -> syn::Result<TokenStream> {
 	let mut out = TokenStream::new();
+	let latest_optimised = history.last().is_some_and(|h| h.is_optimised());
 
 	// Per-revision discriminant tables. We need:
 	// - For `into_<variant>` at runtime we look up "what discriminant does
@@ -1425,21 +1442,19 @@ fn emit_enum_methods(
 
 		out.append_all(quote! {
 			/// Returns `true` if the wire's discriminant identifies this variant
-			/// at the wire revision (or, for borrowed / owned walkers, on the
-			/// current-rev bytes).
+			/// at the wire revision (or, for owned walkers, on the current-rev
+			/// bytes).
 			#[inline]
 			pub fn #is_name(&self) -> bool {
 				match &self.repr {
-					#walker_repr_name::Wire { wire_rev, discriminant, .. } => {
+					#walker_repr_name::Wire { wire_rev, discriminant, .. }
+					| #walker_repr_name::OptimisedBorrowed { wire_rev, discriminant, .. } => {
 						let __expected: ::std::option::Option<u32> = match *wire_rev {
 							#(#wire_disc_arms)*
 							_ => ::std::option::Option::None,
 						};
 						__expected == ::std::option::Option::Some(*discriminant)
 					}
-					#walker_repr_name::OptimisedBorrowed { discriminant, .. } => {
-						*discriminant == #current_disc
-					}
 					#walker_repr_name::ConvertedOwned { discriminant, .. } => {
 						*discriminant == #current_disc
 					}
@@ -1491,6 +1506,76 @@ fn emit_enum_methods(
 					.find(|f| f.attrs.options.exists_at(revision))
 					.expect("variant has a field at current rev");
 				let inner_ty = &inner_field.ty;
+				let overridden =
+					inner_field.attrs.options.fixed || inner_field.attrs.options.specialised;
+				// `Wire` walkers see legacy revisions only, where the field may
+				// have an encoding override or not exist yet.
+				let wire_decode_call = field_decode(inner_field, false, &quote! { reader })?;
+				let latest_decode_call =
+					field_decode(inner_field, latest_optimised, &quote! { &mut __slice })?;
+				let start_val =
+					inner_field.attrs.options.start.as_ref().map(|s| s.value).unwrap_or(0) as u16;
+				let wire_decode = if start_val == 0 {
+					quote! { #wire_decode_call }
+				} else {
+					let default_value = match inner_field.attrs.options.default.as_ref() {
+						Some(default) => {
+							let default = Ident::new(&default.value(), default.span());
+							quote! { #enum_name::#default(wire_rev)? }
+						}
+						None => quote! { <#inner_ty as ::std::default::Default>::default() },
+					};
+					quote! {
+						if wire_rev >= #start_val {
+							#wire_decode_call
+						} else {
+							#default_value
+						}
+					}
+				};
+				let into_wire = if overridden {
+					let message = format!(
+						"{into_name} is not supported on a field with an encoding override; use {decode_name}"
+					);
+					quote! {
+						let _ = (reader, wire_rev);
+						::std::result::Result::Err(::revision::Error::Conversion(#message.into()))
+					}
+				} else {
+					let absent_check = if start_val == 0 {
+						quote! { let _ = wire_rev; }
+					} else {
+						let message = format!(
+							"{into_name} not available at wire revision {{}}: field added at revision {start_val}"
+						);
+						quote! {
+							if wire_rev < #start_val {
+								return ::std::result::Result::Err(::revision::Error::Conversion(
+									::std::format!(#message, wire_rev),
+								));
+							}
+						}
+					};
+					quote! {
+						#absent_check
+						<#inner_ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
+					}
+				};
+				// The view holds the inner type's own encoding, which the bytes of
+				// an overridden field are not.
+				let converted_view_bytes = if overridden && !latest_optimised {
+					quote! {
+						let mut __slice: &[u8] = &bytes[cursor..];
+						let __v: #inner_ty = #latest_decode_call;
+						let mut v = ::std::vec::Vec::new();
+						<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut v)?;
+					}
+				} else {
+					quote! {
+						let mut v = bytes;
+						v.drain(..cursor);
+					}
+				};
 				out.append_all(quote! {
 					/// Walk into the payload of the `#variant_ident` variant.
 					///
@@ -1514,8 +1599,8 @@ fn emit_enum_methods(
 							));
 						}
 						match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
-								<#inner_ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
+								#into_wire
 							}
 							#walker_repr_name::OptimisedBorrowed { .. } => {
 								::std::result::Result::Err(::revision::Error::Conversion(
@@ -1550,8 +1635,9 @@ fn emit_enum_methods(
 							));
 						}
 						match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
+								let _ = wire_rev;
+								::std::result::Result::Ok(#wire_decode)
 							}
 							#walker_repr_name::OptimisedBorrowed { bytes, .. } => {
 								let mut __slice: &[u8] = bytes;
@@ -1559,7 +1645,7 @@ fn emit_enum_methods(
 							}
 							#walker_repr_name::ConvertedOwned { ref bytes, cursor, .. } => {
 								let mut __slice: &[u8] = &bytes[cursor..];
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)
+								::std::result::Result::Ok(#latest_decode_call)
 							}
 						}
 					}
@@ -1595,12 +1681,12 @@ fn emit_enum_methods(
 							));
 						}
 						let __bytes: ::std::borrow::Cow<'r, [u8]> = match self.repr {
-							#walker_repr_name::Wire { reader, .. } => {
+							#walker_repr_name::Wire { reader, wire_rev, .. } => {
+								let _ = wire_rev;
 								// Read the inner value then re-emit its bytes.
 								// One alloc + one re-serialise; matches the
 								// indexed-field view shape.
-								let __v: #inner_ty =
-									<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
+								let __v: #inner_ty = #wire_decode;
 								let mut __buf = ::std::vec::Vec::new();
 								<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
 								::std::borrow::Cow::Owned(__buf)
@@ -1612,8 +1698,7 @@ fn emit_enum_methods(
 							}
 							#walker_repr_name::ConvertedOwned { bytes, cursor, .. } => {
 								// cross-revision convert_fn re-encode — owned.
-								let mut v = bytes;
-								v.drain(..cursor);
+								#converted_view_bytes
 								::std::borrow::Cow::Owned(v)
 							}
 						};
@@ -1928,6 +2013,7 @@ fn emit_optimised_enum_walker_arm(
 			return ::std::result::Result::Ok(#walker_name {
 				repr: #walker_repr_name::OptimisedBorrowed {
 					bytes: __payload,
+					wire_rev: #rev_lit,
 					discriminant: __variant_id as u32,
 					pos: 0,
 					_marker: ::std::marker::PhantomData,
-- 
2.43.0


From c8676c41fde66b3f6ae4a76431577ccec30bae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:15 +0000
Subject: [PATCH 13/23] fix: reject optimised tags with the reserved top bit
 set

---
 src/optimised/tag.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimised/tag.rs b/src/optimised/tag.rs
index fb7105e..0318ff7 100644
--- a/src/optimised/tag.rs
+++ b/src/optimised/tag.rs
@@ -104,7 +104,11 @@ impl Tag {
 pub fn read_tag<R: Read>(r: &mut R) -> Result<Tag, Error> {
 	let mut buf = [0u8; 1];
 	r.read_exact(&mut buf).map_err(Error::Io)?;
-	Ok(Tag(buf[0]))
+	let tag = Tag(buf[0]);
+	if tag.is_extended() {
+		return Err(Error::InvalidOptimisedTag(tag.0));
+	}
+	Ok(tag)
 }
 
 #[doc(hidden)]
-- 
2.43.0


From dd101ed5988e0ea80ac669f7ea25b0794dcec0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:30 +0000
Subject: [PATCH 14/23] fix: reject unknown tags when skipping optimised enums

---
 .../src/expand/optimised/enum_codegen.rs      | 90 ++++++++++---------
 1 file changed, 46 insertions(+), 44 deletions(-)

diff --git a/revision-derive/src/expand/optimised/enum_codegen.rs b/revision-derive/src/expand/optimised/enum_codegen.rs
index 4bc2846..741f12e 100644
--- a/revision-derive/src/expand/optimised/enum_codegen.rs
+++ b/revision-derive/src/expand/optimised/enum_codegen.rs
@@ -229,8 +229,8 @@ pub fn emit_enum_deserialize(
 
 /// Emit the optimised skip body for an enum.
 ///
-/// For Inline variants nothing to advance; for Fixed we need the static size
-/// keyed by variant id; for Varlen we read the u32_le length and advance.
+/// For Inline variants nothing to advance; for Fixed the variant's static size;
+/// for Varlen we read the u32_le length and advance.
 pub fn emit_enum_skip(
 	e: &Enum,
 	ctx: EncodingContext,
@@ -241,55 +241,57 @@ pub fn emit_enum_skip(
 	CalcDiscriminant::new(revision, &mut discriminants).visit_enum(e)?;
 	validate_discriminants(&discriminants)?;
 
-	// Build a (variant_id -> static_size) table for Fixed variants. Inline and
-	// Varlen variants don't need an entry; the size_class tells us what to do.
-	let mut fixed_table: Vec<(u32, u8)> = Vec::new();
+	// One arm per declared (variant id, size class) pair, as in deserialize: any
+	// other tag doesn't say where the value ends.
+	let mut arms = TokenStream::new();
 	for v in alive_variants(e, revision) {
-		let id = *discriminants.get(&v.ident).expect("alive variant");
-		if let VariantSize::Fixed(n) = variant_size(v)? {
-			fixed_table.push((id, *n));
-		}
-	}
-	// `id` < 32, so a 32-entry array is plenty.
-	let mut size_arr: [u8; 32] = [0u8; 32];
-	for (id, n) in &fixed_table {
-		size_arr[*id as usize] = *n;
+		let id_lit = *discriminants.get(&v.ident).expect("alive variant") as u8;
+		let size = variant_size(v)?;
+		let sc_path = size_class_path(size);
+		let advance = match size {
+			VariantSize::Inline => quote! {},
+			VariantSize::Fixed(n) => {
+				let n_lit = *n as usize;
+				if slice_mode {
+					quote! { reader.consume(#n_lit)?; }
+				} else {
+					quote! { ::revision::slice_reader::advance_read(reader, #n_lit)?; }
+				}
+			}
+			VariantSize::Varlen => {
+				let advance_varlen = if slice_mode {
+					quote! { reader.consume(__len as usize)?; }
+				} else {
+					quote! { ::revision::slice_reader::advance_read(reader, __len as usize)?; }
+				};
+				quote! {
+					let mut __len_buf = [0u8; 4];
+					::std::io::Read::read_exact(reader, &mut __len_buf)
+						.map_err(::revision::Error::Io)?;
+					let __len = u32::from_le_bytes(__len_buf);
+					#advance_varlen
+				}
+			}
+		};
+		arms.append_all(quote! {
+			(#id_lit, #sc_path) => {
+				#advance
+				Ok(())
+			}
+		});
 	}
-	let size_arr_lits: Vec<u8> = size_arr.to_vec();
-
-	let advance_fixed = if slice_mode {
-		quote! { reader.consume(__size as usize)?; }
-	} else {
-		quote! { ::revision::slice_reader::advance_read(reader, __size as usize)?; }
-	};
 
-	let advance_varlen = if slice_mode {
-		quote! { reader.consume(__len as usize)?; }
-	} else {
-		quote! { ::revision::slice_reader::advance_read(reader, __len as usize)?; }
-	};
+	let error_string = format!("Invalid tag for enum `{}` revision `{{}}`", e.name);
+	let rev_lit = ctx.revision;
 
 	Ok(quote! {
-		static __SIZE_TABLE: [u8; 32] = [#(#size_arr_lits),*];
 		let __tag = ::revision::optimised::tag::read_tag(reader)?;
 		let __sc = __tag.size_class()?;
-		match __sc {
-			::revision::optimised::tag::SizeClass::Inline => {
-				Ok(())
-			}
-			::revision::optimised::tag::SizeClass::Fixed => {
-				let __size = __SIZE_TABLE[__tag.variant_id() as usize];
-				#advance_fixed
-				Ok(())
-			}
-			::revision::optimised::tag::SizeClass::Varlen => {
-				let mut __len_buf = [0u8; 4];
-				::std::io::Read::read_exact(reader, &mut __len_buf)
-					.map_err(::revision::Error::Io)?;
-				let __len = u32::from_le_bytes(__len_buf);
-				#advance_varlen
-				Ok(())
-			}
+		match (__tag.variant_id(), __sc) {
+			#arms
+			_ => Err(::revision::Error::Deserialize(
+				format!(#error_string, #rev_lit)
+			)),
 		}
 	})
 }
-- 
2.43.0


From 56b69d00a4a87911195697d1123109f0e0344ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:20 +0000
Subject: [PATCH 15/23] fix: let derived types have fields named reader or
 writer

---
 revision-derive/src/expand/de.rs                 | 10 +++++-----
 revision-derive/src/expand/mod.rs                |  6 +++---
 .../src/expand/optimised/enum_codegen.rs         | 16 ++++++++--------
 .../src/expand/optimised/struct_codegen.rs       |  8 ++++----
 revision-derive/src/expand/ser.rs                | 14 +++++++-------
 5 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/revision-derive/src/expand/de.rs b/revision-derive/src/expand/de.rs
index 70f40b6..65d0f26 100644
--- a/revision-derive/src/expand/de.rs
+++ b/revision-derive/src/expand/de.rs
@@ -105,7 +105,7 @@ impl<'ast> Visit<'ast> for DeserializeVisitor<'_> {
 			format!("Invalid discriminant `{{x}}` for enum `{}` revision `{{__revision}}`", i.name);
 
 		self.stream.append_all(quote! {
-			let __discriminant = <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
+			let __discriminant = <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(__reader)?;
 			match __discriminant {
 				#variants
 				x => {
@@ -400,7 +400,7 @@ impl<'ast> Visit<'ast> for DeserializeFields<'_> {
 
 					if exists_target && exists_current {
 						let ty = &f.ty;
-						let reader_expr = quote! { reader };
+						let reader_expr = quote! { __reader };
 						let body = if f.attrs.options.fixed {
 							let call = emit_deserialize_fixed_le(ty, &reader_expr)?;
 							quote! { let #binding = #call; }
@@ -409,7 +409,7 @@ impl<'ast> Visit<'ast> for DeserializeFields<'_> {
 							quote! { let #binding = #call; }
 						} else {
 							quote! {
-								let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
+								let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(__reader)?;
 							}
 						};
 						self.stream.append_all(body);
@@ -427,7 +427,7 @@ impl<'ast> Visit<'ast> for DeserializeFields<'_> {
 						}
 					} else if !exists_target && exists_current {
 						let ty = &f.ty;
-						let reader_expr = quote! { reader };
+						let reader_expr = quote! { __reader };
 						let body = if f.attrs.options.fixed {
 							let call = emit_deserialize_fixed_le(ty, &reader_expr)?;
 							quote! { let #binding = #call; }
@@ -436,7 +436,7 @@ impl<'ast> Visit<'ast> for DeserializeFields<'_> {
 							quote! { let #binding = #call; }
 						} else {
 							quote! {
-								let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
+								let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(__reader)?;
 							}
 						};
 						self.stream.append_all(body);
diff --git a/revision-derive/src/expand/mod.rs b/revision-derive/src/expand/mod.rs
index 9102819..9487730 100644
--- a/revision-derive/src/expand/mod.rs
+++ b/revision-derive/src/expand/mod.rs
@@ -221,8 +221,8 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 	let serialize_impl = if attrs.0.serialize {
 		quote! {
 			impl ::revision::SerializeRevisioned for #name {
-				fn serialize_revisioned<W: ::std::io::Write>(&self, writer: &mut W) -> ::std::result::Result<(), ::revision::Error> {
-					::revision::SerializeRevisioned::serialize_revisioned(&<Self as ::revision::Revisioned>::revision(),writer)?;
+				fn serialize_revisioned<W: ::std::io::Write>(&self, __writer: &mut W) -> ::std::result::Result<(), ::revision::Error> {
+					::revision::SerializeRevisioned::serialize_revisioned(&<Self as ::revision::Revisioned>::revision(),__writer)?;
 					#serialize
 				}
 			}
@@ -242,7 +242,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 				#[doc(hidden)]
 				#[allow(non_snake_case)]
 				fn __deserialize_after_header<R: ::std::io::Read>(
-					reader: &mut R,
+					__reader: &mut R,
 					__revision: u16,
 				) -> ::std::result::Result<Self, ::revision::Error> {
 					match __revision {
diff --git a/revision-derive/src/expand/optimised/enum_codegen.rs b/revision-derive/src/expand/optimised/enum_codegen.rs
index 741f12e..257f1d8 100644
--- a/revision-derive/src/expand/optimised/enum_codegen.rs
+++ b/revision-derive/src/expand/optimised/enum_codegen.rs
@@ -130,7 +130,7 @@ pub fn emit_enum_serialize(e: &Enum, ctx: EncodingContext) -> syn::Result<TokenS
 						__scratch.len(),
 						#expected_lit,
 					);
-					::std::io::Write::write_all(writer, &__scratch)
+					::std::io::Write::write_all(__writer, &__scratch)
 						.map_err(::revision::Error::Io)?;
 				});
 				body
@@ -152,9 +152,9 @@ pub fn emit_enum_serialize(e: &Enum, ctx: EncodingContext) -> syn::Result<TokenS
 							"optimised varlen variant payload exceeds u32::MAX bytes".into()
 						)
 					})?;
-					::std::io::Write::write_all(writer, &__len.to_le_bytes())
+					::std::io::Write::write_all(__writer, &__len.to_le_bytes())
 						.map_err(::revision::Error::Io)?;
-					::std::io::Write::write_all(writer, &__scratch)
+					::std::io::Write::write_all(__writer, &__scratch)
 						.map_err(::revision::Error::Io)?;
 				});
 				body
@@ -165,7 +165,7 @@ pub fn emit_enum_serialize(e: &Enum, ctx: EncodingContext) -> syn::Result<TokenS
 		arms.append_all(quote! {
 			#pattern => {
 				let __tag = ::revision::optimised::tag::Tag::new(#id_lit, #sc_path);
-				::revision::optimised::tag::write_tag(writer, __tag)?;
+				::revision::optimised::tag::write_tag(__writer, __tag)?;
 				#payload
 				Ok(())
 			}
@@ -214,7 +214,7 @@ pub fn emit_enum_deserialize(
 	let rev_lit = current as u16;
 
 	Ok(quote! {
-		let __tag = ::revision::optimised::tag::read_tag(reader)?;
+		let __tag = ::revision::optimised::tag::read_tag(__reader)?;
 		let __sc = __tag.size_class()?;
 		match (__tag.variant_id(), __sc) {
 			#arms
@@ -336,18 +336,18 @@ fn decode_variant_body(
 			let n_lit = *n as usize;
 			quote! {
 				let mut __body_buf = ::std::vec![0u8; #n_lit];
-				::std::io::Read::read_exact(reader, &mut __body_buf)
+				::std::io::Read::read_exact(__reader, &mut __body_buf)
 					.map_err(::revision::Error::Io)?;
 				let mut __body: &[u8] = &__body_buf;
 			}
 		}
 		VariantSize::Varlen => quote! {
 			let mut __len_buf = [0u8; 4];
-			::std::io::Read::read_exact(reader, &mut __len_buf)
+			::std::io::Read::read_exact(__reader, &mut __len_buf)
 				.map_err(::revision::Error::Io)?;
 			let __len = u32::from_le_bytes(__len_buf) as usize;
 			let mut __body_buf = ::std::vec![0u8; __len];
-			::std::io::Read::read_exact(reader, &mut __body_buf)
+			::std::io::Read::read_exact(__reader, &mut __body_buf)
 				.map_err(::revision::Error::Io)?;
 			let mut __body: &[u8] = &__body_buf;
 		},
diff --git a/revision-derive/src/expand/optimised/struct_codegen.rs b/revision-derive/src/expand/optimised/struct_codegen.rs
index d015cfd..11d9f08 100644
--- a/revision-derive/src/expand/optimised/struct_codegen.rs
+++ b/revision-derive/src/expand/optimised/struct_codegen.rs
@@ -118,9 +118,9 @@ pub fn emit_struct_serialize(s: &Struct, ctx: EncodingContext) -> TokenStream {
 			.map_err(|_| ::revision::Error::Serialize(
 				"optimised struct payload exceeds u32::MAX bytes".into()
 			))?;
-		::std::io::Write::write_all(writer, &__len.to_le_bytes())
+		::std::io::Write::write_all(__writer, &__len.to_le_bytes())
 			.map_err(::revision::Error::Io)?;
-		::std::io::Write::write_all(writer, &__scratch)
+		::std::io::Write::write_all(__writer, &__scratch)
 			.map_err(::revision::Error::Io)?;
 		Ok(())
 	});
@@ -237,11 +237,11 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 
 	quote! {
 		let mut __byte_len_buf = [0u8; 4];
-		::std::io::Read::read_exact(reader, &mut __byte_len_buf)
+		::std::io::Read::read_exact(__reader, &mut __byte_len_buf)
 			.map_err(::revision::Error::Io)?;
 		let __byte_len = u32::from_le_bytes(__byte_len_buf) as usize;
 		let mut __payload_buf: ::std::vec::Vec<u8> = ::std::vec![0u8; __byte_len];
-		::std::io::Read::read_exact(reader, &mut __payload_buf)
+		::std::io::Read::read_exact(__reader, &mut __payload_buf)
 			.map_err(::revision::Error::Io)?;
 		let mut __payload: &[u8] = &__payload_buf;
 		#prologue_skip
diff --git a/revision-derive/src/expand/ser.rs b/revision-derive/src/expand/ser.rs
index 0a07305..0556e36 100644
--- a/revision-derive/src/expand/ser.rs
+++ b/revision-derive/src/expand/ser.rs
@@ -100,7 +100,7 @@ impl<'ast> Visit<'ast> for SerializeVisitor<'_> {
 
 	fn visit_field(&mut self, i: &'ast Field) -> syn::Result<()> {
 		let name = &i.name;
-		let writer = quote! { writer };
+		let writer = quote! { __writer };
 		let value = quote! { #name };
 		let body = if i.attrs.options.fixed {
 			emit_serialize_fixed_le(&i.ty, &value, &writer)?
@@ -108,7 +108,7 @@ impl<'ast> Visit<'ast> for SerializeVisitor<'_> {
 			emit_serialize_specialised(&i.ty, &value, &writer)
 		} else {
 			quote! {
-				::revision::SerializeRevisioned::serialize_revisioned(#name, writer)?;
+				::revision::SerializeRevisioned::serialize_revisioned(#name, __writer)?;
 			}
 		};
 
@@ -130,7 +130,7 @@ impl<'ast> Visit<'ast> for SerializeFields<'_> {
 		}
 
 		let name = i.name.to_binding();
-		let writer = quote! { writer };
+		let writer = quote! { __writer };
 		let value = quote! { #name };
 		let body = if i.attrs.options.fixed {
 			emit_serialize_fixed_le(&i.ty, &value, &writer)?
@@ -138,7 +138,7 @@ impl<'ast> Visit<'ast> for SerializeFields<'_> {
 			emit_serialize_specialised(&i.ty, &value, &writer)
 		} else {
 			quote! {
-				::revision::SerializeRevisioned::serialize_revisioned(#name, writer)?;
+				::revision::SerializeRevisioned::serialize_revisioned(#name, __writer)?;
 			}
 		};
 		self.stream.append_all(body);
@@ -189,7 +189,7 @@ impl<'ast> Visit<'ast> for SerializeVariant<'_> {
 
 				self.stream.append_all(quote! {
 					=> {
-						::revision::SerializeRevisioned::serialize_revisioned(&#discr,writer)?;
+						::revision::SerializeRevisioned::serialize_revisioned(&#discr,__writer)?;
 						#fields_ser
 						Ok(())
 					},
@@ -217,7 +217,7 @@ impl<'ast> Visit<'ast> for SerializeVariant<'_> {
 
 				self.stream.append_all(quote! {
 					=> {
-						::revision::SerializeRevisioned::serialize_revisioned(&#discr,writer)?;
+						::revision::SerializeRevisioned::serialize_revisioned(&#discr,__writer)?;
 						#fields_ser
 						Ok(())
 					}
@@ -225,7 +225,7 @@ impl<'ast> Visit<'ast> for SerializeVariant<'_> {
 			}
 			Fields::Unit => {
 				self.stream.append_all(quote! { => {
-					::revision::SerializeRevisioned::serialize_revisioned(&#discr,writer)?;
+					::revision::SerializeRevisioned::serialize_revisioned(&#discr,__writer)?;
 					Ok(())
 				}});
 			}
-- 
2.43.0


From c223e56261ff5a68c89d864fb58366a14370824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 16/23] fix: derive for types whose fields or variants are raw
 identifiers

---
 revision-derive/src/ast/mod.rs                       |  6 ++++--
 revision-derive/src/expand/de.rs                     |  6 +++---
 revision-derive/src/expand/optimised/enum_codegen.rs |  4 ++--
 revision-derive/src/expand/walk.rs                   | 10 +++++-----
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/revision-derive/src/ast/mod.rs b/revision-derive/src/ast/mod.rs
index 0114be7..3435203 100644
--- a/revision-derive/src/ast/mod.rs
+++ b/revision-derive/src/ast/mod.rs
@@ -1,6 +1,8 @@
 use quote::{ToTokens, format_ident};
 use syn::{
-	Expr, Generics, Ident, Index, Result, Token, Type, Visibility, braced, parenthesized,
+	Expr, Generics, Ident, Index, Result, Token, Type, Visibility, braced,
+	ext::IdentExt,
+	parenthesized,
 	parse::{Parse, ParseStream},
 	punctuated::Punctuated,
 	token::{self, Brace, Paren},
@@ -90,7 +92,7 @@ impl Variant {
 			.as_ref()
 			.map(|x| Ident::new(&x.value(), x.span()))
 			.unwrap_or_else(|| {
-				Ident::new(&format!("{}{}Fields", enum_name, self.ident), self.ident.span())
+				Ident::new(&format!("{}{}Fields", enum_name, self.ident.unraw()), self.ident.span())
 			})
 	}
 }
diff --git a/revision-derive/src/expand/de.rs b/revision-derive/src/expand/de.rs
index 65d0f26..bf1ec22 100644
--- a/revision-derive/src/expand/de.rs
+++ b/revision-derive/src/expand/de.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{TokenStreamExt, quote};
-use syn::{Ident, Index};
+use syn::{Ident, Index, ext::IdentExt};
 
 use crate::ast::{Enum, Fields, Struct, Variant, Visit};
 
@@ -28,7 +28,7 @@ impl<'a> EnumStructsVisitor<'a> {
 impl<'ast> Visit<'ast> for EnumStructsVisitor<'_> {
 	fn visit_enum(&mut self, i: &'ast Enum) -> syn::Result<()> {
 		for v in i.variants.iter() {
-			let name = v.fields_name(&i.name.to_string());
+			let name = v.fields_name(&i.name.unraw().to_string());
 
 			let new_struct = match v.fields {
 				Fields::Named {
@@ -228,7 +228,7 @@ impl<'ast> Visit<'ast> for DeserializeVariant<'_> {
 		}
 		.visit_variant(i)?;
 
-		let fields_struct_name = i.fields_name(&self.name.to_string());
+		let fields_struct_name = i.fields_name(&self.name.unraw().to_string());
 
 		let (bindings, create) = match i.fields {
 			Fields::Named {
diff --git a/revision-derive/src/expand/optimised/enum_codegen.rs b/revision-derive/src/expand/optimised/enum_codegen.rs
index 257f1d8..76086b0 100644
--- a/revision-derive/src/expand/optimised/enum_codegen.rs
+++ b/revision-derive/src/expand/optimised/enum_codegen.rs
@@ -17,7 +17,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{TokenStreamExt, quote};
-use syn::{Error, Ident};
+use syn::{Error, Ident, ext::IdentExt};
 
 use crate::ast::attributes::{VariantOptions, VariantSize};
 use crate::ast::{Enum, Field, Fields, Variant, Visit};
@@ -376,7 +376,7 @@ fn decode_variant_body(
 			));
 		};
 		let convert_ident = syn::Ident::new(&convert.value(), convert.span());
-		let fields_struct_ident = v.fields_name(&enum_name.to_string());
+		let fields_struct_ident = v.fields_name(&enum_name.unraw().to_string());
 		let wire_rev_lit = current as u16;
 
 		let construction = match &v.fields {
diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 8542a28..75c3a00 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -37,7 +37,7 @@
 
 use proc_macro2::TokenStream;
 use quote::{TokenStreamExt, format_ident, quote};
-use syn::Ident;
+use syn::{Ident, ext::IdentExt};
 
 use std::collections::HashMap;
 
@@ -1367,7 +1367,7 @@ fn by_encoding(
 /// `field_<idx>` (matching the existing `FieldName::to_binding` convention).
 fn field_method_base(name: &FieldName, fallback_idx: usize) -> String {
 	match name {
-		FieldName::Ident(i) => i.to_string(),
+		FieldName::Ident(i) => i.unraw().to_string(),
 		FieldName::Index(_) => format!("field_{}", fallback_idx),
 	}
 }
@@ -1425,7 +1425,7 @@ fn emit_enum_methods(
 
 	for (v, current_disc, per_rev) in &per_variant {
 		let variant_ident = &v.ident;
-		let snake = snake_case(&variant_ident.to_string());
+		let snake = snake_case(&variant_ident.unraw().to_string());
 		let into_name = format_ident!("into_{}", snake);
 		let is_name = format_ident!("is_{}", snake);
 		let decode_name = format_ident!("decode_{}", snake);
@@ -1808,7 +1808,7 @@ fn emit_variant_tables(name: &Ident, revision: usize, e: &Enum) -> syn::Result<T
 		let mut entries = Vec::new();
 		for v in e.variants.iter().filter(|v| v.attrs.options.exists_at(r)) {
 			if let Some(d) = discs.get(&v.ident) {
-				let name_str = v.ident.to_string();
+				let name_str = v.ident.unraw().to_string();
 				name_arms.push(quote! { #d => ::std::option::Option::Some(#name_str), });
 				entries.push(quote! { (#name_str, #d) });
 			}
@@ -1879,7 +1879,7 @@ fn emit_field_tables(name: &Ident, revision: usize, s: &Struct) -> TokenStream {
 			.filter(|f| f.attrs.options.exists_at(r))
 			.map(|f| {
 				let lit = match &f.name {
-					FieldName::Ident(i) => i.to_string(),
+					FieldName::Ident(i) => i.unraw().to_string(),
 					FieldName::Index(i) => i.index.to_string(),
 				};
 				quote! { #lit }
-- 
2.43.0


From a50cb7cfd9b7252888f7d499f4007a923249fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 17/23] fix: honour serialize, deserialize, skip and walk
 options given on the item, and reject repeats

---
 revision-derive/src/ast/attributes.rs | 18 ++++++++----
 revision-derive/src/expand/mod.rs     | 41 +++++++++++++++++++++------
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/revision-derive/src/ast/attributes.rs b/revision-derive/src/ast/attributes.rs
index d5748f9..173140b 100644
--- a/revision-derive/src/ast/attributes.rs
+++ b/revision-derive/src/ast/attributes.rs
@@ -349,8 +349,8 @@ pub struct ItemOptions {
 	/// either from a legacy `revision = N` (synthesised as N all-legacy entries),
 	/// or from one or more new-style `revision(N, ...)` entries.
 	pub history: Vec<HistoryEntry>,
-	pub serialize: bool,
-	pub deserialize: bool,
+	pub serialize: Option<bool>,
+	pub deserialize: Option<bool>,
 	pub skip: Option<bool>,
 	pub walk: Option<bool>,
 }
@@ -520,8 +520,8 @@ impl AttributeOptions for ItemOptions {
 
 	fn finish(path: Span, options: Vec<Self::Option>) -> syn::Result<Self> {
 		let mut revision = None;
-		let mut serialize = true;
-		let mut deserialize = true;
+		let mut serialize = None;
+		let mut deserialize = None;
 		let mut skip = None;
 		let mut walk = None;
 		let mut new_entries: Vec<HistoryEntry> = Vec::new();
@@ -543,10 +543,16 @@ impl AttributeOptions for ItemOptions {
 					new_entries.push(build_history_entry(group)?);
 				}
 				ItemOption::Serialize(x) => {
-					serialize = x.value.value();
+					if serialize.is_some() {
+						return Err(Error::new(x.key.span(), "tried to set an option twice"));
+					}
+					serialize = Some(x.value.value());
 				}
 				ItemOption::Deserialize(x) => {
-					deserialize = x.value.value();
+					if deserialize.is_some() {
+						return Err(Error::new(x.key.span(), "tried to set an option twice"));
+					}
+					deserialize = Some(x.value.value());
 				}
 				ItemOption::Skip(x) => {
 					if skip.is_some() {
diff --git a/revision-derive/src/expand/mod.rs b/revision-derive/src/expand/mod.rs
index 9487730..827a587 100644
--- a/revision-derive/src/expand/mod.rs
+++ b/revision-derive/src/expand/mod.rs
@@ -40,6 +40,18 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 		}
 	};
 
+	// The other options can be given in either place as well.
+	let on_macro = &attrs.0;
+	let on_item = &ast.attrs.options;
+	let serialize_enabled =
+		given_once("serialize", on_macro.serialize, on_item.serialize)?.unwrap_or(true);
+	let deserialize_enabled =
+		given_once("deserialize", on_macro.deserialize, on_item.deserialize)?.unwrap_or(true);
+	let skip_derive_enabled =
+		given_once("skip", on_macro.skip, on_item.skip)?.unwrap_or(deserialize_enabled);
+	let walk_derive_enabled =
+		given_once("walk", on_macro.walk, on_item.walk)?.unwrap_or(deserialize_enabled);
+
 	let revision =
 		history.last().map(|h| h.revision.value).expect("history non-empty at this point");
 
@@ -113,8 +125,6 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 	let revision_lit = revision as u16;
 	let revision_error = format!("Invalid revision `{{}}` for type `{}`", name);
 
-	let skip_derive_enabled = attrs.0.skip.unwrap_or(attrs.0.deserialize);
-
 	let mut skip_revision_arms = Vec::new();
 	let mut skip_revision_slice_arms = Vec::new();
 
@@ -185,7 +195,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 		quote! {}
 	};
 
-	let skip_check_impl = if skip_derive_enabled && attrs.0.deserialize {
+	let skip_check_impl = if skip_derive_enabled && deserialize_enabled {
 		quote! {
 			impl ::revision::SkipCheckRevisioned for #name {
 				fn skip_check_revisioned<R: ::std::io::Read>(reader: &mut R)
@@ -199,7 +209,6 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 		quote! {}
 	};
 
-	let walk_derive_enabled = attrs.0.walk.unwrap_or(attrs.0.deserialize);
 	let has_convert_fn = common::HasConvertFn::check(&ast)?;
 	let walk_impl = if walk_derive_enabled {
 		walk::emit_walk_impl(
@@ -211,14 +220,14 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 			&ast,
 			&history,
 			has_convert_fn,
-			attrs.0.serialize,
-			attrs.0.deserialize,
+			serialize_enabled,
+			deserialize_enabled,
 		)?
 	} else {
 		quote! {}
 	};
 
-	let serialize_impl = if attrs.0.serialize {
+	let serialize_impl = if serialize_enabled {
 		quote! {
 			impl ::revision::SerializeRevisioned for #name {
 				fn serialize_revisioned<W: ::std::io::Write>(&self, __writer: &mut W) -> ::std::result::Result<(), ::revision::Error> {
@@ -231,7 +240,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 		quote! {}
 	};
 
-	let deserialize_impl = if attrs.0.deserialize {
+	let deserialize_impl = if deserialize_enabled {
 		quote! {
 			impl #name {
 				/// Deserialize the body of a revisioned encoding **after** the
@@ -290,3 +299,19 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 		}
 	})
 }
+
+/// Resolve an option that can be given either on the macro invocation or in a
+/// separate `#[revision(...)]` attribute on the item.
+fn given_once(
+	name: &str,
+	on_macro: Option<bool>,
+	on_item: Option<bool>,
+) -> syn::Result<Option<bool>> {
+	if on_macro.is_some() && on_item.is_some() {
+		return Err(syn::Error::new(
+			Span::call_site(),
+			format_args!("`{name}` specified on both the macro and the item"),
+		));
+	}
+	Ok(on_macro.or(on_item))
+}
-- 
2.43.0


From 34f2f0ceb2f3ed48a91b2ffb747b47e722e6faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 18/23] fix: reject repeated options of a revision entry and
 repeated overrides of a revision

---
 revision-derive/src/ast/attributes.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/revision-derive/src/ast/attributes.rs b/revision-derive/src/ast/attributes.rs
index 173140b..5059dc4 100644
--- a/revision-derive/src/ast/attributes.rs
+++ b/revision-derive/src/ast/attributes.rs
@@ -1,4 +1,8 @@
-use std::{collections::HashMap, fmt::Display, str::FromStr};
+use std::{
+	collections::{HashMap, HashSet},
+	fmt::Display,
+	str::FromStr,
+};
 
 use proc_macro2::Span;
 use syn::{
@@ -461,7 +465,17 @@ fn build_history_entry(group: RevisionEntryGroup) -> syn::Result<HistoryEntry> {
 	let span = group.kw.span();
 	let mut entry = HistoryEntry::legacy(group.revision);
 	entry.span = span;
+	let mut seen = HashSet::new();
 	for opt in group.options {
+		let (name, kw_span) = match &opt {
+			RevisionEntryOption::Optimised(kw) => ("optimised", kw.span()),
+			RevisionEntryOption::Map(v) => ("map", v.key.span()),
+			RevisionEntryOption::Seq(v) => ("seq", v.key.span()),
+			RevisionEntryOption::IndexedStruct(kw) => ("indexed_struct", kw.span()),
+		};
+		if !seen.insert(name) {
+			return Err(Error::new(kw_span, "tried to set an option twice"));
+		}
 		match opt {
 			RevisionEntryOption::Optimised(_kw) => {
 				entry.encoding = Encoding::Optimised;
@@ -819,8 +833,10 @@ impl AttributeOptions for VariantOptions {
 							"missing the revision on which the override applies",
 						));
 					};
-					let revision = revision.value;
-					res.overrides.insert(revision, overrides);
+					let span = revision.span;
+					if res.overrides.insert(revision.value, overrides).is_some() {
+						return Err(Error::new(span, "tried to override the same revision twice"));
+					}
 				}
 			}
 		}
-- 
2.43.0


From a6261f6d0c6719633c331e930bab0244f6720586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 19/23] fix: decode optimised enum variants whose fields come
 and go over revisions

---
 .../src/expand/optimised/enum_codegen.rs      | 149 +++++++++---------
 revision-derive/src/expand/walk.rs            |  57 +++++--
 2 files changed, 117 insertions(+), 89 deletions(-)

diff --git a/revision-derive/src/expand/optimised/enum_codegen.rs b/revision-derive/src/expand/optimised/enum_codegen.rs
index 76086b0..785b952 100644
--- a/revision-derive/src/expand/optimised/enum_codegen.rs
+++ b/revision-derive/src/expand/optimised/enum_codegen.rs
@@ -17,7 +17,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{TokenStreamExt, quote};
-use syn::{Error, Ident, ext::IdentExt};
+use syn::{Error, Ident, Index, ext::IdentExt};
 
 use crate::ast::attributes::{VariantOptions, VariantSize};
 use crate::ast::{Enum, Field, Fields, Variant, Visit};
@@ -329,7 +329,7 @@ fn decode_variant_body(
 	exists_at_target: bool,
 	enum_name: &Ident,
 ) -> syn::Result<TokenStream> {
-	let _ = target; // explicitly unused once we've decided which path to emit
+	let wire_rev_lit = current as u16;
 	let body_reader = match size {
 		VariantSize::Inline => quote! { let mut __body: &[u8] = &[]; let _ = &mut __body; },
 		VariantSize::Fixed(n) => {
@@ -353,96 +353,95 @@ fn decode_variant_body(
 		},
 	};
 
-	// Decode each alive field from __body.
+	// Decode the fields on the wire from __body, and give those added since
+	// their default.
 	let mut decode_fields = TokenStream::new();
-	let alive: Vec<&Field> = alive_fields(v, current);
-	for f in &alive {
+	for f in all_fields(v) {
 		let binding = f.name.to_binding();
 		let ty = &f.ty;
-		decode_fields.append_all(quote! {
-			let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __body)?;
+		if f.attrs.options.exists_at(current) {
+			decode_fields.append_all(quote! {
+				let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __body)?;
+			});
+		} else if f.attrs.options.exists_at(target) {
+			let default = match f.attrs.options.default.as_ref() {
+				Some(default) => {
+					let default = Ident::new(&default.value(), default.span());
+					quote! { Self::#default(#wire_rev_lit)? }
+				}
+				None => quote! { ::std::default::Default::default() },
+			};
+			decode_fields.append_all(quote! { let #binding: #ty = #default; });
+		}
+	}
+
+	// Build the auto-generated `<Enum><Variant>Fields` struct (emitted by
+	// `EnumStructsVisitor`), which holds the fields alive at the target
+	// revision, and hand the removed ones to their convert_fn.
+	let fields_struct_ident = v.fields_name(&enum_name.unraw().to_string());
+	let names: Vec<Ident> = alive_fields(v, target).iter().map(|f| f.name.to_binding()).collect();
+	let (fields_struct, construction) = match &v.fields {
+		Fields::Named {
+			..
+		} => (
+			quote! { #fields_struct_ident { #(#names),* } },
+			quote! { Self::#name { #(#names: __fields.#names),* } },
+		),
+		Fields::Unnamed {
+			..
+		} => {
+			let indices = (0..names.len()).map(Index::from);
+			(
+				quote! { #fields_struct_ident ( #(#names),* ) },
+				quote! { Self::#name ( #(__fields.#indices),* ) },
+			)
+		}
+		Fields::Unit => (quote! { #fields_struct_ident }, quote! { Self::#name }),
+	};
+	let mut convert_fields = TokenStream::new();
+	for f in alive_fields(v, current) {
+		if f.attrs.options.exists_at(target) {
+			continue;
+		}
+		let binding = f.name.to_binding();
+		let convert = f
+			.attrs
+			.options
+			.convert
+			.as_ref()
+			.expect("FieldOptions::finish rejects `end` without convert_fn");
+		let convert = Ident::new(&convert.value(), convert.span());
+		convert_fields.append_all(quote! {
+			Self::#convert(&mut __fields, #wire_rev_lit, #binding)?;
 		});
 	}
 
-	if !exists_at_target {
-		// Variant present on wire but removed at target — convert_fn required.
-		// Decode fields into the auto-generated `<Enum><Variant>Fields` struct
-		// (emitted by `EnumStructsVisitor` for the current revision), then
-		// hand it to the user-supplied convert_fn which produces a `Self`.
+	// A variant present on wire but removed at target is itself handed to its
+	// convert_fn, which produces a `Self`.
+	let result = if exists_at_target {
+		quote! { Ok(#construction) }
+	} else {
 		let Some(convert) = v.attrs.options.convert.as_ref() else {
 			return Err(Error::new(
 				name.span(),
 				"removing a variant across revisions requires `#[revision(end = ..., convert_fn = \"...\")]`",
 			));
 		};
-		let convert_ident = syn::Ident::new(&convert.value(), convert.span());
-		let fields_struct_ident = v.fields_name(&enum_name.unraw().to_string());
-		let wire_rev_lit = current as u16;
-
-		let construction = match &v.fields {
-			Fields::Named {
-				fields,
-				..
-			} => {
-				let names = fields
-					.iter()
-					.filter(|f| f.attrs.options.exists_at(current))
-					.map(|f| f.name.to_binding());
-				quote! { #fields_struct_ident { #(#names),* } }
-			}
-			Fields::Unnamed {
-				fields,
-				..
-			} => {
-				let bindings = fields
-					.iter()
-					.filter(|f| f.attrs.options.exists_at(current))
-					.map(|f| f.name.to_binding());
-				quote! { #fields_struct_ident ( #(#bindings),* ) }
-			}
-			Fields::Unit => quote! { #fields_struct_ident },
-		};
-
-		return Ok(quote! {
-			#body_reader
-			#decode_fields
-			let __removed = #construction;
-			return Self::#convert_ident(__removed, #wire_rev_lit);
-		});
-	}
-
-	let construction = match &v.fields {
-		Fields::Named {
-			fields,
-			..
-		} => {
-			let bindings = fields
-				.iter()
-				.filter(|f| f.attrs.options.exists_at(current))
-				.map(|f| f.name.to_binding());
-			quote! { Self::#name { #(#bindings),* } }
-		}
-		Fields::Unnamed {
-			fields,
-			..
-		} => {
-			let bindings = fields
-				.iter()
-				.filter(|f| f.attrs.options.exists_at(current))
-				.map(|f| f.name.to_binding());
-			quote! { Self::#name ( #(#bindings),* ) }
-		}
-		Fields::Unit => quote! { Self::#name },
+		let convert = Ident::new(&convert.value(), convert.span());
+		quote! { Self::#convert(__fields, #wire_rev_lit) }
 	};
 
 	Ok(quote! {
 		#body_reader
 		#decode_fields
-		Ok(#construction)
+		#[allow(unused_mut)]
+		let mut __fields = #fields_struct;
+		#convert_fields
+		#result
 	})
 }
 
-fn alive_fields(v: &Variant, revision: usize) -> Vec<&Field> {
+fn all_fields(v: &Variant) -> Vec<&Field> {
 	match &v.fields {
 		Fields::Named {
 			fields,
@@ -451,11 +450,15 @@ fn alive_fields(v: &Variant, revision: usize) -> Vec<&Field> {
 		| Fields::Unnamed {
 			fields,
 			..
-		} => fields.iter().filter(|f| f.attrs.options.exists_at(revision)).collect(),
+		} => fields.iter().collect(),
 		Fields::Unit => Vec::new(),
 	}
 }
 
+fn alive_fields(v: &Variant, revision: usize) -> Vec<&Field> {
+	all_fields(v).into_iter().filter(|f| f.attrs.options.exists_at(revision)).collect()
+}
+
 // Silence unused-import warnings; future iterations will use these.
 #[allow(dead_code)]
 const _: Option<&VariantOptions> = None;
diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 75c3a00..b904779 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -1515,24 +1515,48 @@ fn emit_enum_methods(
 					field_decode(inner_field, latest_optimised, &quote! { &mut __slice })?;
 				let start_val =
 					inner_field.attrs.options.start.as_ref().map(|s| s.value).unwrap_or(0) as u16;
-				let wire_decode = if start_val == 0 {
-					quote! { #wire_decode_call }
-				} else {
-					let default_value = match inner_field.attrs.options.default.as_ref() {
-						Some(default) => {
-							let default = Ident::new(&default.value(), default.span());
-							quote! { #enum_name::#default(wire_rev)? }
-						}
-						None => quote! { <#inner_ty as ::std::default::Default>::default() },
-					};
+				// The body of an optimised variant holds the field's own encoding.
+				let borrowed_decode_call = quote! {
+					{
+						let mut __slice: &[u8] = bytes;
+						<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?
+					}
+				};
+				let default_value = match inner_field.attrs.options.default.as_ref() {
+					Some(default) => {
+						let default = Ident::new(&default.value(), default.span());
+						quote! { #enum_name::#default(wire_rev)? }
+					}
+					None => quote! { <#inner_ty as ::std::default::Default>::default() },
+				};
+				let or_default = |decode_call: TokenStream| {
+					if start_val == 0 {
+						return decode_call;
+					}
 					quote! {
 						if wire_rev >= #start_val {
-							#wire_decode_call
+							#decode_call
 						} else {
 							#default_value
 						}
 					}
 				};
+				let wire_decode = or_default(wire_decode_call);
+				let borrowed_decode = or_default(borrowed_decode_call);
+				let borrowed_view_bytes = if start_val == 0 {
+					quote! { ::std::borrow::Cow::Borrowed(bytes) }
+				} else {
+					quote! {
+						if wire_rev >= #start_val {
+							::std::borrow::Cow::Borrowed(bytes)
+						} else {
+							let __v: #inner_ty = #default_value;
+							let mut __buf = ::std::vec::Vec::new();
+							<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
+							::std::borrow::Cow::Owned(__buf)
+						}
+					}
+				};
 				let into_wire = if overridden {
 					let message = format!(
 						"{into_name} is not supported on a field with an encoding override; use {decode_name}"
@@ -1639,9 +1663,9 @@ fn emit_enum_methods(
 								let _ = wire_rev;
 								::std::result::Result::Ok(#wire_decode)
 							}
-							#walker_repr_name::OptimisedBorrowed { bytes, .. } => {
-								let mut __slice: &[u8] = bytes;
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)
+							#walker_repr_name::OptimisedBorrowed { bytes, wire_rev, .. } => {
+								let _ = wire_rev;
+								::std::result::Result::Ok(#borrowed_decode)
 							}
 							#walker_repr_name::ConvertedOwned { ref bytes, cursor, .. } => {
 								let mut __slice: &[u8] = &bytes[cursor..];
@@ -1691,10 +1715,11 @@ fn emit_enum_methods(
 								<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
 								::std::borrow::Cow::Owned(__buf)
 							}
-							#walker_repr_name::OptimisedBorrowed { bytes, .. } => {
+							#walker_repr_name::OptimisedBorrowed { bytes, wire_rev, .. } => {
+								let _ = wire_rev;
 								// bytes: &'r [u8] — preserves the source's
 								// lifetime so the view's bytes outlive `self`.
-								::std::borrow::Cow::Borrowed(bytes)
+								#borrowed_view_bytes
 							}
 							#walker_repr_name::ConvertedOwned { bytes, cursor, .. } => {
 								// cross-revision convert_fn re-encode — owned.
-- 
2.43.0


From cf26b6467c6ac848aaf0e83f608cc507a272d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 20/23] fix: reject inline variants with fields at any
 optimised revision

---
 .../src/expand/validate_version.rs            | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/validate_version.rs b/revision-derive/src/expand/validate_version.rs
index 56b4a9c..452b460 100644
--- a/revision-derive/src/expand/validate_version.rs
+++ b/revision-derive/src/expand/validate_version.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 
+use crate::ast::attributes::VariantSize;
 use crate::ast::history::HistoryEntry;
 use crate::ast::{self, Visit};
 
@@ -43,6 +44,7 @@ impl<'ast> Visit<'ast> for ValidateRevision {
 ///   class.
 /// - At most 32 alive variants per optimised revision (5-bit variant id).
 /// - Variant discriminants under optimised fit in 5 bits (max 31).
+/// - Variants of the inline size class have no fields.
 ///
 /// Runs once per item, against every optimised entry in the history. Errors
 /// here surface at the macro invocation site with a precise span.
@@ -76,11 +78,28 @@ impl<'a> ValidateOptimised<'a> {
 		}
 
 		for v in &alive {
-			if v.attrs.options.size.is_none() {
+			let Some(size) = v.attrs.options.size.as_ref() else {
 				return Err(syn::Error::new(
 					v.ident.span(),
 					"variant requires `#[revision(size = \"inline\" | \"fixed(N)\" | \"varlen\")]` under `encoding = \"optimised\"`",
 				));
+			};
+			let has_fields = match &v.fields {
+				ast::Fields::Named {
+					fields,
+					..
+				}
+				| ast::Fields::Unnamed {
+					fields,
+					..
+				} => fields.iter().any(|f| f.attrs.options.exists_at(rev)),
+				ast::Fields::Unit => false,
+			};
+			if matches!(size.size, VariantSize::Inline) && has_fields {
+				return Err(syn::Error::new(
+					v.ident.span(),
+					"variant marked `size = \"inline\"` must have no fields alive at this revision",
+				));
 			}
 		}
 
-- 
2.43.0


From ad71a17aaea4dff3df1fba7aed7ad0fd1ff2bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 21/23] fix: qualify Default in generated code

A type named Default in scope of a revisioned type whose removed fields are
gone from an older revision's target broke the generated code.
---
 revision-derive/src/expand/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/de.rs b/revision-derive/src/expand/de.rs
index bf1ec22..e432308 100644
--- a/revision-derive/src/expand/de.rs
+++ b/revision-derive/src/expand/de.rs
@@ -422,7 +422,7 @@ impl<'ast> Visit<'ast> for DeserializeFields<'_> {
 							})
 						} else {
 							self.stream.append_all(quote! {
-								let #binding = Default::default();
+								let #binding = ::std::default::Default::default();
 							})
 						}
 					} else if !exists_target && exists_current {
-- 
2.43.0


From 16806d4e7ae0000758ce2092cdd89c608791d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:58 +0000
Subject: [PATCH 22/23] fix: keep generated type parameters apart from user
 types

Types named R or W, or fields of such types, clashed with the type
parameters of the generated functions.
---
 revision-derive/src/expand/mod.rs  | 12 ++++-----
 revision-derive/src/expand/walk.rs | 40 +++++++++++++++---------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/revision-derive/src/expand/mod.rs b/revision-derive/src/expand/mod.rs
index 827a587..ccff044 100644
--- a/revision-derive/src/expand/mod.rs
+++ b/revision-derive/src/expand/mod.rs
@@ -168,7 +168,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 	let skip_revisioned_impl = if skip_derive_enabled {
 		quote! {
 			impl ::revision::SkipRevisioned for #name {
-				fn skip_revisioned<R: ::std::io::Read>(reader: &mut R)
+				fn skip_revisioned<__R: ::std::io::Read>(reader: &mut __R)
 					-> ::std::result::Result<(), ::revision::Error> {
 					let __revision = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
 					match __revision {
@@ -198,7 +198,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 	let skip_check_impl = if skip_derive_enabled && deserialize_enabled {
 		quote! {
 			impl ::revision::SkipCheckRevisioned for #name {
-				fn skip_check_revisioned<R: ::std::io::Read>(reader: &mut R)
+				fn skip_check_revisioned<__R: ::std::io::Read>(reader: &mut __R)
 					-> ::std::result::Result<(), ::revision::Error> {
 					let _ = <Self as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
 					Ok(())
@@ -230,7 +230,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 	let serialize_impl = if serialize_enabled {
 		quote! {
 			impl ::revision::SerializeRevisioned for #name {
-				fn serialize_revisioned<W: ::std::io::Write>(&self, __writer: &mut W) -> ::std::result::Result<(), ::revision::Error> {
+				fn serialize_revisioned<__W: ::std::io::Write>(&self, __writer: &mut __W) -> ::std::result::Result<(), ::revision::Error> {
 					::revision::SerializeRevisioned::serialize_revisioned(&<Self as ::revision::Revisioned>::revision(),__writer)?;
 					#serialize
 				}
@@ -250,8 +250,8 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 				/// and by the walker's materialised cross-revision fallback.
 				#[doc(hidden)]
 				#[allow(non_snake_case)]
-				fn __deserialize_after_header<R: ::std::io::Read>(
-					__reader: &mut R,
+				fn __deserialize_after_header<__R: ::std::io::Read>(
+					__reader: &mut __R,
 					__revision: u16,
 				) -> ::std::result::Result<Self, ::revision::Error> {
 					match __revision {
@@ -266,7 +266,7 @@ pub fn revision(attr: TokenStream, input: TokenStream) -> syn::Result<TokenStrea
 			}
 
 			impl ::revision::DeserializeRevisioned for #name {
-				fn deserialize_revisioned<R: ::std::io::Read>(reader: &mut R) -> ::std::result::Result<Self, ::revision::Error> {
+				fn deserialize_revisioned<__R: ::std::io::Read>(reader: &mut __R) -> ::std::result::Result<Self, ::revision::Error> {
 					let __revision = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
 					Self::__deserialize_after_header(reader, __revision)
 				}
diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index b904779..d5259ec 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -376,11 +376,11 @@ pub fn emit_walk_impl(
 
 	let walk_impl = quote! {
 		impl ::revision::WalkRevisioned for #name {
-			type Walker<'r, R: ::revision::BorrowedReader + 'r> = #walker_name<'r, R>;
+			type Walker<'r, __R: ::revision::BorrowedReader + 'r> = #walker_name<'r, __R>;
 
-			fn walk_revisioned<'r, R: ::revision::BorrowedReader>(
-				reader: &'r mut R,
-			) -> ::std::result::Result<Self::Walker<'r, R>, ::revision::Error> {
+			fn walk_revisioned<'r, __R: ::revision::BorrowedReader>(
+				reader: &'r mut __R,
+			) -> ::std::result::Result<Self::Walker<'r, __R>, ::revision::Error> {
 				let __wire_rev =
 					<u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
 				if __wire_rev == 0 || __wire_rev > #revision_lit {
@@ -395,7 +395,7 @@ pub fn emit_walk_impl(
 			}
 		}
 
-		impl<'r, R: ::revision::BorrowedReader + 'r> #walker_name<'r, R> {
+		impl<'r, __R: ::revision::BorrowedReader + 'r> #walker_name<'r, __R> {
 			#revision_method
 			#indexed_field_helper
 			#methods
@@ -414,21 +414,21 @@ pub fn emit_walk_impl(
 fn emit_struct_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> TokenStream {
 	quote! {
 		#[doc = "Walker for a revisioned struct. Generated by `#[revisioned(...)]`."]
-		pub struct #walker_name<'r, R: ::revision::BorrowedReader + 'r> {
-			repr: #walker_repr_name<'r, R>,
+		pub struct #walker_name<'r, __R: ::revision::BorrowedReader + 'r> {
+			repr: #walker_repr_name<'r, __R>,
 		}
 
 		/// Internal repr; one variant per source-of-bytes. Made `pub` for
 		/// the macro-emitted accessors that match on it; not part of the
 		/// public API and may change without notice.
 		#[doc(hidden)]
-		pub enum #walker_repr_name<'r, R: ::revision::BorrowedReader + 'r> {
+		pub enum #walker_repr_name<'r, __R: ::revision::BorrowedReader + 'r> {
 			/// Streaming over a live reader. Used at the current revision
 			/// for purely additive types and for any optimised
 			/// sequential-struct revision (the new() arm advances past the
 			/// `u32_le payload_length` and hands the reader through).
 			Wire {
-				reader: &'r mut R,
+				reader: &'r mut __R,
 				wire_rev: u16,
 				pos: u32,
 			},
@@ -441,7 +441,7 @@ fn emit_struct_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> T
 				wire_rev: u16,
 				field_count: u16,
 				pos: u32,
-				_marker: ::std::marker::PhantomData<&'r mut R>,
+				_marker: ::std::marker::PhantomData<&'r mut __R>,
 			},
 			/// Cross-revision `convert_fn` round-trip: bytes are the
 			/// re-encoded current-rev value, owned because they don't
@@ -451,7 +451,7 @@ fn emit_struct_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> T
 				bytes: ::std::vec::Vec<u8>,
 				cursor: usize,
 				pos: u32,
-				_marker: ::std::marker::PhantomData<&'r mut R>,
+				_marker: ::std::marker::PhantomData<&'r mut __R>,
 			},
 		}
 	}
@@ -461,18 +461,18 @@ fn emit_struct_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> T
 fn emit_enum_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> TokenStream {
 	quote! {
 		#[doc = "Walker for a revisioned enum. Generated by `#[revisioned(...)]`."]
-		pub struct #walker_name<'r, R: ::revision::BorrowedReader + 'r> {
-			repr: #walker_repr_name<'r, R>,
+		pub struct #walker_name<'r, __R: ::revision::BorrowedReader + 'r> {
+			repr: #walker_repr_name<'r, __R>,
 		}
 
 		/// Internal repr; one variant per source-of-bytes. Made `pub` for
 		/// the macro-emitted accessors that match on it; not part of the
 		/// public API and may change without notice.
 		#[doc(hidden)]
-		pub enum #walker_repr_name<'r, R: ::revision::BorrowedReader + 'r> {
+		pub enum #walker_repr_name<'r, __R: ::revision::BorrowedReader + 'r> {
 			/// Streaming over a live reader.
 			Wire {
-				reader: &'r mut R,
+				reader: &'r mut __R,
 				wire_rev: u16,
 				/// Variant discriminant on the wire.
 				discriminant: u32,
@@ -487,7 +487,7 @@ fn emit_enum_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> Tok
 				wire_rev: u16,
 				discriminant: u32,
 				pos: u32,
-				_marker: ::std::marker::PhantomData<&'r mut R>,
+				_marker: ::std::marker::PhantomData<&'r mut __R>,
 			},
 			/// Cross-revision `convert_fn` round-trip; owned bytes the
 			/// walker reads through `cursor`.
@@ -496,7 +496,7 @@ fn emit_enum_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> Tok
 				cursor: usize,
 				discriminant: u32,
 				pos: u32,
-				_marker: ::std::marker::PhantomData<&'r mut R>,
+				_marker: ::std::marker::PhantomData<&'r mut __R>,
 			},
 		}
 	}
@@ -990,7 +990,7 @@ fn emit_struct_methods(
 				)
 			};
 		} else {
-			walk_return_ty = quote! { <#ty as ::revision::WalkRevisioned>::Walker<'_, R> };
+			walk_return_ty = quote! { <#ty as ::revision::WalkRevisioned>::Walker<'_, __R> };
 			walk_body = quote! {
 				match &mut self.repr {
 					#walker_repr_name::Wire { reader, wire_rev, pos } => {
@@ -1009,7 +1009,7 @@ fn emit_struct_methods(
 					}
 				}
 			};
-			into_walk_return_ty = quote! { <#ty as ::revision::WalkRevisioned>::Walker<'r, R> };
+			into_walk_return_ty = quote! { <#ty as ::revision::WalkRevisioned>::Walker<'r, __R> };
 			into_walk_body = quote! {
 				match self.repr {
 					#walker_repr_name::Wire { reader, wire_rev, pos: _ } => {
@@ -1611,7 +1611,7 @@ fn emit_enum_methods(
 					#[inline]
 					pub fn #into_name(
 						self,
-					) -> ::std::result::Result<<#inner_ty as ::revision::WalkRevisioned>::Walker<'r, R>, ::revision::Error> {
+					) -> ::std::result::Result<<#inner_ty as ::revision::WalkRevisioned>::Walker<'r, __R>, ::revision::Error> {
 						if !self.#is_name() {
 							return ::std::result::Result::Err(::revision::Error::Deserialize(
 								::std::format!(
-- 
2.43.0


From 589d2101caa261f5ea626f6d22745f0b814a05cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:25 +0000
Subject: [PATCH 23/23] fix: keep the errors of what Result and Bound hold

Decoding a Result or a Bound wrapped every inner error in
Error::Deserialize, hiding I/O errors, truncation and the kind of the
invalid contents from the caller.
---
 src/implementations/bound.rs  | 10 ++--------
 src/implementations/result.rs |  6 ++----
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/implementations/bound.rs b/src/implementations/bound.rs
index ba0eb67..de4e4f2 100644
--- a/src/implementations/bound.rs
+++ b/src/implementations/bound.rs
@@ -28,14 +28,8 @@ impl<T: DeserializeRevisioned> DeserializeRevisioned for Bound<T> {
 		let variant = u32::deserialize_revisioned(reader)?;
 		match variant {
 			0 => Ok(Bound::Unbounded),
-			1 => Ok(Bound::Included(
-				T::deserialize_revisioned(reader)
-					.map_err(|ref err| Error::Deserialize(format!("{:?}", err)))?,
-			)),
-			2 => Ok(Bound::Excluded(
-				T::deserialize_revisioned(reader)
-					.map_err(|ref err| Error::Deserialize(format!("{:?}", err)))?,
-			)),
+			1 => Ok(Bound::Included(T::deserialize_revisioned(reader)?)),
+			2 => Ok(Bound::Excluded(T::deserialize_revisioned(reader)?)),
 			_ => Err(Error::Deserialize("Unknown variant index".to_string())),
 		}
 	}
diff --git a/src/implementations/result.rs b/src/implementations/result.rs
index 2511ab4..946a5bf 100644
--- a/src/implementations/result.rs
+++ b/src/implementations/result.rs
@@ -25,10 +25,8 @@ impl<E: DeserializeRevisioned, T: DeserializeRevisioned> DeserializeRevisioned f
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let variant = u32::deserialize_revisioned(reader)?;
 		match variant {
-			0 => Ok(Ok(T::deserialize_revisioned(reader)
-				.map_err(|ref err| Error::Deserialize(format!("{:?}", err)))?)),
-			1 => Ok(Err(E::deserialize_revisioned(reader)
-				.map_err(|ref err| Error::Deserialize(format!("{:?}", err)))?)),
+			0 => Ok(Ok(T::deserialize_revisioned(reader)?)),
+			1 => Ok(Err(E::deserialize_revisioned(reader)?)),
 			_ => Err(Error::Deserialize("Unknown variant index".to_string())),
 		}
 	}
-- 
2.43.0

