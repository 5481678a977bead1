From 3d1587f613bed6132077988781ba2cc2a13abf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:08 +0000
Subject: [PATCH 01/16] fix: decoder refuses fixed-array offsets and sizes
 beyond the data instead of panicking

---
 ethabi/src/decoder.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 825ec25..2b2eb28 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -63,11 +63,8 @@ pub fn decode(types: &[ParamType], data: &[u8]) -> Result<Vec<Token>, Error> {
 }
 
 fn peek(data: &[u8], offset: usize, len: usize) -> Result<&[u8], Error> {
-	if offset + len > data.len() {
-		Err(Error::InvalidData)
-	} else {
-		Ok(&data[offset..(offset + len)])
-	}
+	let end = offset.checked_add(len).ok_or(Error::InvalidData)?;
+	data.get(offset..end).ok_or(Error::InvalidData)
 }
 
 fn peek_32_bytes(data: &[u8], offset: usize) -> Result<Word, Error> {
@@ -79,11 +76,7 @@ fn peek_32_bytes(data: &[u8], offset: usize) -> Result<Word, Error> {
 }
 
 fn take_bytes(data: &[u8], offset: usize, len: usize) -> Result<Vec<u8>, Error> {
-	if offset + len > data.len() {
-		Err(Error::InvalidData)
-	} else {
-		Ok((&data[offset..(offset + len)]).to_vec())
-	}
+	peek(data, offset, len).map(|x| x.to_vec())
 }
 
 fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeResult, Error> {
@@ -161,8 +154,12 @@ fn decode_param(param: &ParamType, data: &[u8], offset: usize) -> Result<DecodeR
 		ParamType::FixedArray(ref t, len) => {
 			let is_dynamic = param.is_dynamic();
 
-			let (tail, mut new_offset) =
-				if is_dynamic { (&data[as_usize(&peek_32_bytes(data, offset)?)?..], 0) } else { (data, offset) };
+			let (tail, mut new_offset) = if is_dynamic {
+				let offset = as_usize(&peek_32_bytes(data, offset)?)?;
+				(data.get(offset..).ok_or(Error::InvalidData)?, 0)
+			} else {
+				(data, offset)
+			};
 
 			let mut tokens = vec![];
 
-- 
2.43.0


From 853f78197136f94c3b5198887ef0738e2b9cd36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 02/16] fix: type-name reader refuses malformed names instead
 of panicking and nests structs correctly

---
 ethabi/src/param_type/reader.rs | 130 ++++++++++----------------------
 1 file changed, 38 insertions(+), 92 deletions(-)

diff --git a/ethabi/src/param_type/reader.rs b/ethabi/src/param_type/reader.rs
index 83e0267..f009f81 100644
--- a/ethabi/src/param_type/reader.rs
+++ b/ethabi/src/param_type/reader.rs
@@ -8,129 +8,75 @@
 
 use crate::{Error, ParamType};
 
+/// How many levels of arrays and structs a type may nest.
+const MAX_DEPTH: usize = 128;
+
 /// Used to convert param type represented as a string to rust structure.
 pub struct Reader;
 
 impl Reader {
 	/// Converts string to param type.
 	pub fn read(name: &str) -> Result<ParamType, Error> {
+		Self::read_nested(name, MAX_DEPTH)
+	}
+
+	fn read_nested(name: &str, depth: usize) -> Result<ParamType, Error> {
+		let invalid = || Error::InvalidName(name.to_owned());
+
 		match name.chars().last() {
 			// check if it is a struct
 			Some(')') => {
 				if !name.starts_with('(') {
-					return Err(Error::InvalidName(name.to_owned()));
+					return Err(invalid());
 				};
 
+				let depth = depth.checked_sub(1).ok_or_else(invalid)?;
 				let mut subtypes = Vec::new();
-				let mut subtuples = Vec::new();
-				let mut nested = 0isize;
-				let mut top_level_paren_open = 0usize;
+				let mut nested = 0usize;
 				let mut last_item = 1;
-				let mut chars = name.chars().enumerate();
 
-				// Iterate over name and build the nested tuple structure
-				while let Some((mut pos, c)) = chars.next() {
+				// Split the components at the commas that are not within a nested tuple
+				for (pos, c) in name.char_indices() {
 					match c {
-						'(' => {
-							top_level_paren_open = pos;
-							nested += 1;
-							// If an '(' is encountered within the tuple
-							// insert an empty subtuples vector to be filled
-							if nested > 1 {
-								subtuples.push(vec![]);
-								last_item = pos + 1;
-							}
-						}
-						')' => {
-							nested -= 1;
-
-							// End parsing and return an error if parentheses aren't symmetrical
-							if nested < 0 {
-								return Err(Error::InvalidName(name.to_owned()));
-							}
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							else if name[last_item..pos].is_empty() {
-								last_item = pos + 1;
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 0 {
-								// check for trailing brackets that indicate array of tuples
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							else if nested > 0 {
-								// this makes sure trailing brackets are included for the next step
-								loop {
-									match chars.clone().next() {
-										Some((_, ',')) | Some((_, ')')) | None => break,
-										_ => {
-											// consume the char and shift position
-											chars.next();
-											pos += 1;
-										}
-									}
-								}
-
-								// parse the nested tuple
-								let inner_tuple = &name[top_level_paren_open..=pos];
-								let subtype = Reader::read(inner_tuple)?;
+						'(' => nested += 1,
+						')' => nested = nested.checked_sub(1).ok_or_else(invalid)?,
+						_ => (),
+					}
 
-								if nested > 1 {
-									let mut subtuple = std::mem::take(&mut subtuples[(nested - 2) as usize]);
-									subtuple.push(subtype);
-									subtypes.push(ParamType::Tuple(subtuple));
-								} else {
-									subtypes.push(subtype);
-								}
-								last_item = pos + 1;
-							}
-						}
-						',' => {
-							// If there have not been any characters since the last item
-							// increment position without inserting any subtypes
-							if name[last_item..pos].is_empty() {
-								last_item = pos + 1
-							}
-							// If the item is in the top level of the tuple insert it into subtypes
-							else if nested == 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtypes.push(subtype);
-								last_item = pos + 1;
-							}
-							// If the item is in a sublevel of the tuple
-							// insert it into the subtuple vector for the current depth level
-							else if nested > 1 {
-								let sub = &name[last_item..pos];
-								let subtype = Reader::read(sub)?;
-								subtuples[(nested - 2) as usize].push(subtype);
-								last_item = pos + 1;
-							}
+					if (c == ',' && nested == 1) || (c == ')' && nested == 0) {
+						let sub = &name[last_item..pos];
+						// If there have not been any characters since the last item
+						// go on without inserting any subtypes
+						if !sub.is_empty() {
+							subtypes.push(Reader::read_nested(sub, depth)?);
 						}
-						_ => (),
+						last_item = pos + 1;
+					}
+
+					// End parsing and return an error if parentheses aren't symmetrical
+					if nested == 0 && pos + 1 != name.len() {
+						return Err(invalid());
 					}
 				}
-				return Ok(ParamType::Tuple(subtypes));
+
+				return if nested == 0 { Ok(ParamType::Tuple(subtypes)) } else { Err(invalid()) };
 			}
 			// check if it is a fixed or dynamic array.
 			Some(']') => {
+				let depth = depth.checked_sub(1).ok_or_else(invalid)?;
+
 				// take number part
-				let num: String =
-					name.chars().rev().skip(1).take_while(|c| *c != '[').collect::<String>().chars().rev().collect();
+				let open = name.rfind('[').ok_or_else(invalid)?;
+				let num = &name[open + 1..name.len() - 1];
 
-				let count = name.chars().count();
 				return if num.is_empty() {
 					// we already know it's a dynamic array!
-					let subtype = Reader::read(&name[..count - 2])?;
+					let subtype = Reader::read_nested(&name[..open], depth)?;
 					Ok(ParamType::Array(Box::new(subtype)))
 				} else {
 					// it's a fixed array.
 					let len = num.parse()?;
-					let subtype = Reader::read(&name[..count - num.len() - 2])?;
+					let subtype = Reader::read_nested(&name[..open], depth)?;
 					Ok(ParamType::FixedArray(Box::new(subtype), len))
 				};
 			}
-- 
2.43.0


From 751bf709813954031e16678026d786415bff4e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 03/16] fix: a tuple token type-checks only against a tuple
 type of the same length

---
 ethabi/src/token/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethabi/src/token/token.rs b/ethabi/src/token/token.rs
index 1df997c..6c05fe3 100644
--- a/ethabi/src/token/token.rs
+++ b/ethabi/src/token/token.rs
@@ -125,7 +125,7 @@ impl Token {
 			}
 			Token::Tuple(ref tokens) => {
 				if let ParamType::Tuple(ref param_type) = *param_type {
-					tokens.iter().enumerate().all(|(i, t)| t.type_check(&param_type[i]))
+					param_type.len() == tokens.len() && tokens.iter().zip(param_type).all(|(t, p)| t.type_check(p))
 				} else {
 					false
 				}
-- 
2.43.0


From 94a08460685505b9f31367adcf979db70cceef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:59 +0000
Subject: [PATCH 04/16] fix: parse_log assigns values to parameters by
 position, not by name

---
 ethabi/src/event.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index d725906..e5ab443 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -10,7 +10,6 @@
 
 use serde::{Deserialize, Serialize};
 use sha3::{Digest, Keccak256};
-use std::collections::HashMap;
 
 use crate::{
 	decode, encode, signature::long_signature, Error, EventParam, Hash, Log, LogParam, ParamType, RawLog,
@@ -30,11 +29,6 @@ pub struct Event {
 }
 
 impl Event {
-	/// Returns names of all params.
-	fn params_names(&self) -> Vec<String> {
-		self.inputs.iter().map(|p| p.name.clone()).collect()
-	}
-
 	/// Returns types of all params.
 	fn param_types(&self) -> Vec<ParamType> {
 		self.inputs.iter().map(|p| p.kind.clone()).collect()
@@ -151,21 +145,22 @@ impl Event {
 			return Err(Error::InvalidData);
 		}
 
-		let topics_named_tokens = topic_params.into_iter().map(|p| p.name).zip(topic_tokens.into_iter());
-
 		let data_types = data_params.iter().map(|p| p.kind.clone()).collect::<Vec<ParamType>>();
 
 		let data_tokens = decode(&data_types, &data)?;
 
-		let data_named_tokens = data_params.into_iter().map(|p| p.name).zip(data_tokens.into_iter());
-
-		let named_tokens = topics_named_tokens.chain(data_named_tokens).collect::<HashMap<String, Token>>();
+		// merge the values by position, since names need not be present or distinct
+		let mut topic_tokens = topic_tokens.into_iter();
+		let mut data_tokens = data_tokens.into_iter();
 
 		let decoded_params = self
-			.params_names()
-			.into_iter()
-			.map(|name| LogParam { name: name.clone(), value: named_tokens[&name].clone() })
-			.collect();
+			.inputs
+			.iter()
+			.map(|param| {
+				let value = if param.indexed { topic_tokens.next() } else { data_tokens.next() };
+				value.map(|value| LogParam { name: param.name.clone(), value }).ok_or(Error::InvalidData)
+			})
+			.collect::<Result<_>>()?;
 
 		let result = Log { params: decoded_params };
 
-- 
2.43.0


From a7729aa79c4a9511486f6d80c95f32ed5c75d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:02 +0000
Subject: [PATCH 05/16] fix: topic filters hash dynamic, array and struct
 values as Solidity does for indexed parameters

---
 ethabi/src/event.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/event.rs b/ethabi/src/event.rs
index e5ab443..a98295e 100644
--- a/ethabi/src/event.rs
+++ b/ethabi/src/event.rs
@@ -46,17 +46,43 @@ impl Event {
 
 	/// Creates topic filter
 	pub fn filter(&self, raw: RawTopicFilter) -> Result<TopicFilter> {
+		fn hash(data: &[u8]) -> Hash {
+			Hash::from_slice(Keccak256::digest(data).as_slice())
+		}
+
+		// Encodes the elements of an indexed array or struct: in place, padded to a multiple of
+		// 32 bytes, without any length prefixes or offsets. See
+		// https://solidity.readthedocs.io/en/develop/abi-spec.html#encoding-of-indexed-event-parameters
+		fn encode_in_place(token: Token) -> Vec<u8> {
+			let mut bytes = match token {
+				Token::Bytes(bytes) => bytes,
+				Token::String(s) => s.into_bytes(),
+				Token::Array(tokens) | Token::FixedArray(tokens) | Token::Tuple(tokens) => {
+					return tokens.into_iter().flat_map(encode_in_place).collect()
+				}
+				token => return encode(&[token]),
+			};
+			bytes.resize((bytes.len() + 31) / 32 * 32, 0);
+			bytes
+		}
+
 		fn convert_token(token: Token, kind: &ParamType) -> Result<Hash> {
 			if !token.type_check(kind) {
 				return Err(Error::InvalidData);
 			}
-			let encoded = encode(&[token]);
+			let encoded = match token {
+				// the hash of the unpadded contents
+				Token::Bytes(bytes) => return Ok(hash(&bytes)),
+				Token::String(s) => return Ok(hash(s.as_bytes())),
+				Token::Array(_) | Token::FixedArray(_) | Token::Tuple(_) => return Ok(hash(&encode_in_place(token))),
+				token => encode(&[token]),
+			};
 			if encoded.len() == 32 {
 				let mut data = [0u8; 32];
 				data.copy_from_slice(&encoded);
 				Ok(data.into())
 			} else {
-				Ok(Hash::from_slice(Keccak256::digest(&encoded).as_slice()))
+				Ok(hash(&encoded))
 			}
 		}
 
-- 
2.43.0


From 15ea74114351d7d2df173b6db7e59d62f9861356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 06/16] fix: tokenizers split values at character boundaries
 and at their own nesting level only

---
 ethabi/src/token/mod.rs | 44 +++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 6330a43..80c35c8 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -17,6 +17,24 @@ use std::cmp::Ordering::{Equal, Less};
 pub use self::{lenient::LenientTokenizer, strict::StrictTokenizer, token::Token};
 use crate::{Error, ParamType};
 
+/// Whether values of the type contain brackets.
+fn contains_array(param: &ParamType) -> bool {
+	match *param {
+		ParamType::Array(_) | ParamType::FixedArray(_, _) => true,
+		ParamType::Tuple(ref params) => params.iter().any(contains_array),
+		_ => false,
+	}
+}
+
+/// Whether values of the type contain parentheses.
+fn contains_struct(param: &ParamType) -> bool {
+	match *param {
+		ParamType::Array(ref param) | ParamType::FixedArray(ref param, _) => contains_struct(param),
+		ParamType::Tuple(_) => true,
+		_ => false,
+	}
+}
+
 /// This trait should be used to parse string values as tokens.
 pub trait Tokenizer {
 	/// Tries to parse a string as a token of given type.
@@ -50,7 +68,7 @@ pub trait Tokenizer {
 			return Err(Error::InvalidData);
 		}
 
-		if value.chars().count() == 2 {
+		if value.len() == 2 && param.is_empty() {
 			return Ok(vec![]);
 		}
 
@@ -59,11 +77,18 @@ pub trait Tokenizer {
 		let mut ignore = false;
 		let mut last_item = 1;
 		let mut params = param.iter();
-		for (pos, ch) in value.chars().enumerate() {
+		let arrays = param.iter().any(contains_array);
+		for (pos, ch) in value.char_indices() {
 			match ch {
 				'(' if !ignore => {
 					nested += 1;
 				}
+				'[' if !ignore && arrays => {
+					nested += 1;
+				}
+				']' if !ignore && arrays => {
+					nested -= 1;
+				}
 				')' if !ignore => {
 					nested -= 1;
 
@@ -93,7 +118,7 @@ pub trait Tokenizer {
 			}
 		}
 
-		if ignore {
+		if ignore || nested != 0 || params.next().is_some() {
 			return Err(Error::InvalidData);
 		}
 
@@ -106,7 +131,7 @@ pub trait Tokenizer {
 			return Err(Error::InvalidData);
 		}
 
-		if value.chars().count() == 2 {
+		if value.len() == 2 {
 			return Ok(vec![]);
 		}
 
@@ -114,11 +139,18 @@ pub trait Tokenizer {
 		let mut nested = 0isize;
 		let mut ignore = false;
 		let mut last_item = 1;
-		for (i, ch) in value.chars().enumerate() {
+		let structs = contains_struct(param);
+		for (i, ch) in value.char_indices() {
 			match ch {
 				'[' if !ignore => {
 					nested += 1;
 				}
+				'(' if !ignore && structs => {
+					nested += 1;
+				}
+				')' if !ignore && structs => {
+					nested -= 1;
+				}
 				']' if !ignore => {
 					nested -= 1;
 					match nested.cmp(&0) {
@@ -147,7 +179,7 @@ pub trait Tokenizer {
 			}
 		}
 
-		if ignore {
+		if ignore || nested != 0 {
 			return Err(Error::InvalidData);
 		}
 
-- 
2.43.0


From 8d7f796e2acd261bf2af73ac43acde10b7590191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:05 +0000
Subject: [PATCH 07/16] fix: cli refuses surplus values for a function call
 instead of ignoring them

---
 cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index db84036..771d35c 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -172,6 +172,10 @@ fn parse_tokens(params: &[(ParamType, &str)], lenient: bool) -> anyhow::Result<V
 fn encode_input(path: &str, name_or_signature: &str, values: &[String], lenient: bool) -> anyhow::Result<String> {
 	let function = load_function(path, name_or_signature)?;
 
+	if values.len() != function.inputs.len() {
+		return Err(anyhow!("expected {} values, got {}", function.inputs.len(), values.len()));
+	}
+
 	let params: Vec<_> =
 		function.inputs.iter().map(|param| param.kind.clone()).zip(values.iter().map(|v| v as &str)).collect();
 
-- 
2.43.0


From 51adbb530a5615594f741f51f092c33eae20f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:08 +0000
Subject: [PATCH 08/16] fix: derive generates valid code for fixed-array
 outputs and log fields

---
 derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index ce70efa..2beb457 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -143,7 +143,7 @@ fn rust_type(input: &ParamType) -> proc_macro2::TokenStream {
 		}
 		ParamType::FixedArray(ref kind, size) => {
 			let t = rust_type(&*kind);
-			quote! { [#t, #size] }
+			quote! { [#t; #size] }
 		}
 		ParamType::Tuple(_) => {
 			unimplemented!("Tuples are not supported. https://github.com/openethereum/ethabi/issues/175")
@@ -267,10 +267,10 @@ fn from_token(kind: &ParamType, token: &proc_macro2::TokenStream) -> proc_macro2
 		ParamType::FixedArray(ref kind, size) => {
 			let inner = quote! { inner };
 			let inner_loop = from_token(kind, &inner);
-			let to_array = vec![quote! { iter.next() }; size];
+			let to_array = vec![quote! { iter.next().expect(INTERNAL_ERR) }; size];
 			quote! {
 				{
-					let iter = #token.to_array().expect(INTERNAL_ERR).into_iter()
+					let mut iter = #token.into_fixed_array().expect(INTERNAL_ERR).into_iter()
 						.map(|#inner| #inner_loop);
 					[#(#to_array),*]
 				}
-- 
2.43.0


From fea572162f64741b38cdf6d4324a98a9772fb2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:11 +0000
Subject: [PATCH 09/16] fix: generated log structs hold the hash of indexed
 dynamic parameters

---
 derive/src/event.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 079ce7a..244469f 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -6,6 +6,7 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use ethabi::ParamType;
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
@@ -43,13 +44,30 @@ impl<'a> From<&'a ethabi::Event> for Event {
 				}
 			})
 			.collect();
-		let kinds: Vec<_> = e.inputs.iter().map(|param| rust_type(&param.kind)).collect();
+		// a log holds only the hash of an indexed parameter of a dynamic, array or struct type
+		let log_kinds: Vec<_> = e
+			.inputs
+			.iter()
+			.map(|param| match param.kind {
+				ParamType::String
+				| ParamType::Bytes
+				| ParamType::Array(_)
+				| ParamType::FixedArray(_, _)
+				| ParamType::Tuple(_)
+					if param.indexed =>
+				{
+					ParamType::FixedBytes(32)
+				}
+				ref kind => kind.clone(),
+			})
+			.collect();
+		let kinds: Vec<_> = log_kinds.iter().map(rust_type).collect();
 		let log_fields =
 			names.iter().zip(kinds.iter()).map(|(param_name, kind)| quote! { pub #param_name: #kind }).collect();
 
 		let log_iter = quote! { log.next().expect(INTERNAL_ERR).value };
 
-		let to_log: Vec<_> = e.inputs.iter().map(|param| from_token(&param.kind, &log_iter)).collect();
+		let to_log: Vec<_> = log_kinds.iter().map(|kind| from_token(kind, &log_iter)).collect();
 
 		let log_init =
 			names.iter().zip(to_log.iter()).map(|(param_name, convert)| quote! { #param_name: #convert }).collect();
-- 
2.43.0


From fba541afe8aa8e30cb142594012c728d88654697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:15 +0000
Subject: [PATCH 10/16] hook: expose the derive expansion under cfg(ethabi_sim)

---
 derive/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 2beb457..f7325de 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -7,7 +7,9 @@
 // except according to those terms.
 
 #![recursion_limit = "256"]
+#![allow(unexpected_cfgs)]
 
+#[cfg(not(ethabi_sim))]
 extern crate proc_macro;
 
 mod constructor;
@@ -24,6 +26,7 @@ use std::{env, fs, path::PathBuf};
 
 const ERROR_MSG: &str = "`derive(EthabiContract)` failed";
 
+#[cfg(not(ethabi_sim))]
 #[proc_macro_derive(EthabiContract, attributes(ethabi_contract_options))]
 pub fn ethabi_derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
 	let ast = syn::parse(input).expect(ERROR_MSG);
@@ -31,6 +34,12 @@ pub fn ethabi_derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream
 	gen.into()
 }
 
+/// The expansion itself, for the simulator, which builds this crate as an ordinary library.
+#[cfg(ethabi_sim)]
+pub fn expand(ast: &syn::DeriveInput) -> Result<proc_macro2::TokenStream> {
+	impl_ethabi_derive(ast)
+}
+
 fn impl_ethabi_derive(ast: &syn::DeriveInput) -> Result<proc_macro2::TokenStream> {
 	let options = get_options(&ast.attrs, "ethabi_contract_options")?;
 	let path = get_option(&options, "path")?;
-- 
2.43.0


From d160451ccad94f166c17c06fe790a2c7e587d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:27 +0000
Subject: [PATCH 11/16] fix: derive generates valid code for arrays of arrays,
 of fixed bytes, and indexed fixed arrays

---
 derive/src/event.rs |  4 ++--
 derive/src/lib.rs   | 27 +++++++++++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/derive/src/event.rs b/derive/src/event.rs
index 244469f..af163e5 100644
--- a/derive/src/event.rs
+++ b/derive/src/event.rs
@@ -11,7 +11,7 @@ use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
-use super::{from_token, get_template_names, rust_type, to_syntax_string, to_token};
+use super::{by_value, from_token, get_template_names, rust_type, to_syntax_string, to_token};
 
 /// Structure used to generate contract's event interface.
 pub struct Event {
@@ -114,7 +114,7 @@ impl<'a> From<&'a ethabi::Event> for Event {
 			.map(|(index, (param_name, param))| {
 				let topic = syn::Ident::new(&format!("topic{}", index), Span::call_site());
 				let i = quote! { i };
-				let to_token = to_token(&i, &param.kind);
+				let to_token = to_token(&by_value(&i, &param.kind), &param.kind);
 				quote! { #topic: #param_name.into().map(|#i| #to_token), }
 			})
 			.collect();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index f7325de..c0933cd 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -210,8 +210,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 		ParamType::Bool => quote! { ethabi::Token::Bool(#name) },
 		ParamType::String => quote! { ethabi::Token::String(#name) },
 		ParamType::Array(ref kind) => {
-			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let (inner_name, inner_loop) = inner_to_token(kind);
 			quote! {
 				// note the double {{
 				{
@@ -221,8 +220,7 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 			}
 		}
 		ParamType::FixedArray(ref kind, _) => {
-			let inner_name = quote! { inner };
-			let inner_loop = to_token(&inner_name, kind);
+			let (inner_name, inner_loop) = inner_to_token(kind);
 			quote! {
 				// note the double {{
 				{
@@ -237,6 +235,27 @@ fn to_token(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::T
 	}
 }
 
+/// The closure parameter and body that convert an element of an array.
+fn inner_to_token(kind: &ParamType) -> (proc_macro2::TokenStream, proc_macro2::TokenStream) {
+	let inner = quote! { inner };
+	let inner_loop = to_token(&by_value(&inner, kind), kind);
+	match *kind {
+		ParamType::Array(_) | ParamType::FixedArray(..) | ParamType::FixedBytes(_) => {
+			let t = rust_type(kind);
+			(quote! { #inner: #t }, inner_loop)
+		}
+		_ => (inner, inner_loop),
+	}
+}
+
+/// An expression for a value of `kind` whose `into_iter()` yields the elements by value, for native arrays too.
+fn by_value(name: &proc_macro2::TokenStream, kind: &ParamType) -> proc_macro2::TokenStream {
+	match *kind {
+		ParamType::FixedArray(..) => quote! { (Box::new(#name) as Box<[_]>).into_vec() },
+		_ => name.clone(),
+	}
+}
+
 fn from_token(kind: &ParamType, token: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
 	match *kind {
 		ParamType::Address => quote! { #token.into_address().expect(INTERNAL_ERR) },
-- 
2.43.0


From 4a84e4abb30f72ddaa222836312c55938d64777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:20 +0000
Subject: [PATCH 12/16] fix: an empty fixed-bytes value is encoded as one
 padded word

---
 ethabi/src/encoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ethabi/src/encoder.rs b/ethabi/src/encoder.rs
index 5a28fa8..0fec762 100644
--- a/ethabi/src/encoder.rs
+++ b/ethabi/src/encoder.rs
@@ -136,6 +136,8 @@ fn encode_token(token: &Token) -> Mediate {
 		}
 		Token::Bytes(ref bytes) => Mediate::Prefixed(pad_bytes(bytes)),
 		Token::String(ref s) => Mediate::Prefixed(pad_bytes(s.as_bytes())),
+		// a value of no bytes occupies a word, too
+		Token::FixedBytes(ref bytes) if bytes.is_empty() => Mediate::Raw(vec![[0u8; 32]]),
 		Token::FixedBytes(ref bytes) => Mediate::Raw(pad_fixed_bytes(bytes)),
 		Token::Int(int) => Mediate::Raw(vec![int.into()]),
 		Token::Uint(uint) => Mediate::Raw(vec![uint.into()]),
-- 
2.43.0


From 54156ffe58e82a0319f109c906c5bea3249885a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 13/16] fix: a bool word other than 0 and 1 is refused, not
 read as false

---
 ethabi/src/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ethabi/src/decoder.rs b/ethabi/src/decoder.rs
index 2b2eb28..d382f19 100644
--- a/ethabi/src/decoder.rs
+++ b/ethabi/src/decoder.rs
@@ -34,7 +34,11 @@ fn as_bool(slice: &Word) -> Result<bool, Error> {
 		return Err(Error::InvalidData);
 	}
 
-	Ok(slice[31] == 1)
+	match slice[31] {
+		0 => Ok(false),
+		1 => Ok(true),
+		_ => Err(Error::InvalidData),
+	}
 }
 
 /// Decodes ABI compliant vector of bytes into vector of tokens described by types param.
-- 
2.43.0


From 7ed5fe799c433dcd0de495bbfc95ef89bd2681b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:55 +0000
Subject: [PATCH 14/16] fix: generated functions accept parameters named like
 their own variables

---
 derive/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index c0933cd..0de8ccb 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -346,9 +346,10 @@ fn get_output_kinds(outputs: &[Param]) -> proc_macro2::TokenStream {
 ///
 /// Avoid using keywords by escaping them.
 fn rust_variable(name: &str) -> String {
-	// avoid keyword parameters
-	match name {
-		"self" => "_self".to_string(),
-		other => other.to_snake_case(),
+	let name = name.to_snake_case();
+	// avoid keyword parameters, and the names of the generated functions' own variables
+	match name.as_str() {
+		"self" | "c" | "code" | "f" => format!("_{}", name),
+		_ => name,
 	}
 }
-- 
2.43.0


From b133cc263966b23aadf015fe80e28b843edfba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:54 +0000
Subject: [PATCH 15/16] fix: text after the closing bracket of a list or struct
 value is refused

---
 ethabi/src/token/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/mod.rs b/ethabi/src/token/mod.rs
index 80c35c8..adfad06 100644
--- a/ethabi/src/token/mod.rs
+++ b/ethabi/src/token/mod.rs
@@ -96,11 +96,14 @@ pub trait Tokenizer {
 						Less => {
 							return Err(Error::InvalidData);
 						}
+						// nothing may follow the closing parenthesis
+						Equal if pos + 1 != value.len() => {
+							return Err(Error::InvalidData);
+						}
 						Equal => {
 							let sub = &value[last_item..pos];
 							let token = Self::tokenize(params.next().ok_or(Error::InvalidData)?, sub)?;
 							result.push(token);
-							last_item = pos + 1;
 						}
 						_ => {}
 					}
@@ -157,11 +160,14 @@ pub trait Tokenizer {
 						Less => {
 							return Err(Error::InvalidData);
 						}
+						// nothing may follow the closing bracket
+						Equal if i + 1 != value.len() => {
+							return Err(Error::InvalidData);
+						}
 						Equal => {
 							let sub = &value[last_item..i];
 							let token = Self::tokenize(param, sub)?;
 							result.push(token);
-							last_item = i + 1;
 						}
 						_ => {}
 					}
-- 
2.43.0


From f555a28089534fb65bd3df1a3f81c5f28c26659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:19 +0000
Subject: [PATCH 16/16] fix: an empty decimal number, or one with several minus
 signs, is refused

---
 ethabi/src/token/lenient.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ethabi/src/token/lenient.rs b/ethabi/src/token/lenient.rs
index aa63e39..31e65cb 100644
--- a/ethabi/src/token/lenient.rs
+++ b/ethabi/src/token/lenient.rs
@@ -13,6 +13,14 @@ use crate::{
 };
 use anyhow::anyhow;
 
+/// Parses a decimal number of at least one digit.
+fn parse_decimal(value: &str) -> Result<Uint, Error> {
+	if value.is_empty() {
+		return Err(Error::InvalidData);
+	}
+	Ok(Uint::from_dec_str(value)?)
+}
+
 /// Tries to parse string as a token. Does not require string to clearly represent the value.
 pub struct LenientTokenizer;
 
@@ -43,7 +51,7 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let uint = Uint::from_dec_str(value)?;
+		let uint = parse_decimal(value)?;
 		Ok(uint.into())
 	}
 
@@ -56,7 +64,7 @@ impl Tokenizer for LenientTokenizer {
 			return result;
 		}
 
-		let abs = Uint::from_dec_str(value.trim_start_matches('-'))?;
+		let abs = parse_decimal(value.strip_prefix('-').unwrap_or(value))?;
 		let max = Uint::max_value() / 2;
 		let int = if value.starts_with('-') {
 			if abs.is_zero() {
-- 
2.43.0

