From 5df31672dd7a12ef6af02d2e2ffec6a262079d1e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 01/49] fix: stop decoding when IFD links form a cycle

---
 src/metadata/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 4e5ef43..291b95c 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -304,8 +304,17 @@ Metadata
         // Decode all the IFDs
         let mut ifds = Vec::new();
         let mut generic_ifd_nr = 0;
+        let mut visited_offsets = std::collections::BTreeSet::new();
         while let Some(ifd_offset) = ifd_offset_option
         {
+            // A link that leads back to an already decoded IFD would otherwise
+            // keep this loop running (and collecting IFDs) forever
+            if !visited_offsets.insert(ifd_offset)
+            {
+                log::warn!("Stop decoding as the link to the next IFD forms a cycle!");
+                break;
+            }
+
             data_cursor.set_position(data_start_position);
             data_cursor.seek(std::io::SeekFrom::Current(ifd_offset as i64))?;
 
-- 
2.43.0


From 0502012b5518d703d9a3ecf7519f4687a0625201 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 02/49] fix: sort IFD entries by tag and write each SubIFD
 offset once

---
 src/ifd/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 72e6e7b..a5bf180 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -493,7 +493,13 @@ ImageFileDirectory
 
         // Store all relevant tags (IFD tags + offset tags) in a temporary 
         // location and sort them there
-        let mut all_relevant_tags = self.tags.clone();
+        // Note: Tags holding the offset of a SubIFD that are part of this IFD
+        // are left out, as their value is useless here. They are provided by
+        // `ifds_with_offset_info_only` if (and only if) the SubIFD exists.
+        let mut all_relevant_tags = self.tags.iter()
+            .filter(|tag| !matches!(tag.get_tag_type(), TagType::IFD_OFFSET(_)))
+            .cloned()
+            .collect::<Vec<ExifTag>>();
         if let Some(ifd_with_offset_info_only) = ifds_with_offset_info_only
             .iter()
             .find(|ifd| 
@@ -503,6 +509,7 @@ ImageFileDirectory
         {
             all_relevant_tags.extend(ifd_with_offset_info_only.get_tags().iter().cloned());
         }
+        all_relevant_tags.sort_by_key(|tag| tag.as_u16());
 
         // Start writing this IFD by adding the number of entries
         let count_entries = all_relevant_tags.iter().filter(
-- 
2.43.0


From 431f85d215ff2aa132dd7f726c99178cbe76d77b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 03/49] fix: write the announced number of bytes for tags
 without data

---
 src/ifd/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index a5bf180..8744029 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -659,6 +659,11 @@ ImageFileDirectory
                 ifd_offset_area.extend(value.iter());
                 ifd_offset_area.extend(string_padding.iter());
 
+                // The tag may have no data despite its predefined number of
+                // components, but the announced bytes have to be there
+                let missing = (byte_count as usize).saturating_sub(value.len() + string_padding.len());
+                ifd_offset_area.extend(vec![0u8; missing]);
+
                 *current_offset += byte_count;
 
                 // Re-align 
-- 
2.43.0


From de59e99e4d849ac15f7f5567a3ad1d1097b070d2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 04/49] fix: keep rationals within the range of their numerator

---
 src/rational.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/rational.rs b/src/rational.rs
index 870aeed..721941b 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -83,7 +83,7 @@ f64_to_rational64s
 )
 -> iR64
 {
-    let best_approximation = f64_to_rational64u(real_number);
+    let best_approximation = approximate_absolute_value(real_number, i32::MAX as u32);
     return iR64 {
         nominator: if real_number < 0.0 
             { 0-best_approximation.nominator as i32 } 
@@ -99,6 +99,17 @@ f64_to_rational64u
     real_number:     f64,
 )
 -> uR64
+{
+    return approximate_absolute_value(real_number, u32::MAX);
+}
+
+fn
+approximate_absolute_value
+(
+    real_number:     f64,
+    max_nominator:   u32,
+)
+-> uR64
 {
     // Make sure that we are dealing with positive real numbers
     let real_number = real_number.abs();
@@ -110,9 +121,9 @@ f64_to_rational64u
     }
     
     // Check if real number is too large for us to handle
-    if real_number > u32::MAX as f64 - 0.5
+    if real_number > max_nominator as f64
     {
-        return uR64 { nominator: i32::MAX as u32, denominator: 1};
+        return uR64 { nominator: max_nominator, denominator: 1};
     }
 
     let mut reciprocal_residual     = real_number;
@@ -143,7 +154,7 @@ f64_to_rational64u
         if convergent.nominator > 0
         {
             n = std::cmp::min(
-                (u32::MAX - previous_convergent.nominator) / convergent.nominator, 
+                (max_nominator - previous_convergent.nominator) / convergent.nominator, 
                 n
             );	
         }
-- 
2.43.0


From 24b912b6be23d06b003c39fb1d8e0dfc7f3fd27b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 05/49] fix: report values that exceed the range of their tag
 while decoding

---
 src/exif_tag/decode.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index bdeb002..1a9507d 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -52,9 +52,10 @@ decode_tag_with_format_exceptions
 			},
 
 			(ExifTagFormat::INT16U, ExifTagFormat::INT32U) => {
-				// Not sure how to be more cautious in this case...
 				let int32u_data = <INT32U as U8conversion<INT32U>>::from_u8_vec(raw_data, endian);
-				let int16u_data = int32u_data.into_iter().map(|x| x as u16).collect::<Vec<u16>>();
+				let Ok(int16u_data) = int32u_data.into_iter().map(u16::try_from).collect::<Result<Vec<u16>, _>>() else {
+					return io_error!(InvalidData, format!("Value of tag {:?} exceeds the range of INT16U!", raw_tag));
+				};
 				return raw_tag.set_value_to_int16u_vec(int16u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
 				);
@@ -71,12 +72,10 @@ decode_tag_with_format_exceptions
 			// See issue #74
 			(ExifTagFormat::INT8U, ExifTagFormat::INT16U) => {
 				let int16u_data = <INT16U as U8conversion<INT16U>>::from_u8_vec(raw_data, endian);
-				let int8u_data  = int16u_data.clone().into_iter().map(|x| x as u8).collect::<Vec<u8>>();
-				for (element_u16, element_u8) in int16u_data.iter().zip(int8u_data.iter())
-				{
-					// Assert that the int16u data is within int8u range
-					assert_eq!(*element_u16, *element_u8 as u16);
-				}
+				// Make sure that the int16u data is within int8u range
+				let Ok(int8u_data) = int16u_data.into_iter().map(u8::try_from).collect::<Result<Vec<u8>, _>>() else {
+					return io_error!(InvalidData, format!("Value of tag {:?} exceeds the range of INT8U!", raw_tag));
+				};
 				return raw_tag.set_value_to_int8u_vec(int8u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
 				);
-- 
2.43.0


From ec9e8d22a2058d56048c01413f4e7cab092c3896 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 06/49] fix: handle an empty GPSAltitudeRef string without
 panicking

---
 src/exif_tag/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index 1a9507d..2b80668 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -95,7 +95,9 @@ decode_tag_with_format_exceptions
 					// if it is 0x01 or 0x31 ("1") we set it to 1, and
 					// otherwise we panic and tell the user to open a ticket.
 
-					let first_char = raw_data[0];
+					let Some(&first_char) = raw_data.first() else {
+						return io_error!(InvalidData, "GPSAltitudeRef is stored as an empty string!");
+					};
 					let int8u_data = match first_char
 					{
 						0x00 | 0x30 => vec![0u8],
-- 
2.43.0


From cfc450561502383997fc2a6cc20cb4823ec32fdb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 07/49] fix: keep unsigned rationals as they are where a signed
 one is expected

---
 src/exif_tag/decode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index 2b80668..087c321 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -125,8 +125,10 @@ decode_tag_with_format_exceptions
 			(ExifTagFormat::RATIONAL64S, ExifTagFormat::RATIONAL64U) => {
 				let uR64_data = <RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec(raw_data, endian);
 				let iR64_data = uR64_data
-					.into_iter().map(|x| x.into()).collect::<Vec<f64>>()
-					.into_iter().map(|x| x.into()).collect::<Vec<iR64>>();
+					.into_iter().map(|x| match (i32::try_from(x.nominator), i32::try_from(x.denominator)) {
+						(Ok(nominator), Ok(denominator)) => iR64 { nominator, denominator },
+						_                                => iR64::from(f64::from(x)),
+					}).collect::<Vec<iR64>>();
 
 				return raw_tag.set_value_to_iR64_vec(iR64_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
-- 
2.43.0


From 568e284b29eaf80145f0dd0769b2cb7e4bea1933 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 08/49] fix: return an error for malformed data when
 constructing a tag

---
 src/exif_tag/mod.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/exif_tag/mod.rs b/src/exif_tag/mod.rs
index d11f305..16f1a14 100644
--- a/src/exif_tag/mod.rs
+++ b/src/exif_tag/mod.rs
@@ -174,32 +174,32 @@ macro_rules! build_tag_enum {
 				{
 					$(
 						($hex_value, ExifTagGroup::$group) => Ok(ExifTag::$tag(
-							<paste!{[<$format_enum>]} as U8conversion<paste!{[<$format_enum>]}>>::from_u8_vec(raw_data, endian)
+							<paste!{[<$format_enum>]} as U8conversion<paste!{[<$format_enum>]}>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?
 						)),
 					)*
 
-					(0x0111, _) => Ok(ExifTag::StripOffsets(   <INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian), Vec::new())),
-					(0x0117, _) => Ok(ExifTag::StripByteCounts(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian),           )),
+					(0x0111, _) => Ok(ExifTag::StripOffsets(   <INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?, Vec::new())),
+					(0x0117, _) => Ok(ExifTag::StripByteCounts(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?,           )),
 
-					(0x0201, _) => Ok(ExifTag::ThumbnailOffset(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian), Vec::new())),
-					(0x0202, _) => Ok(ExifTag::ThumbnailLength(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian),           )),
+					(0x0201, _) => Ok(ExifTag::ThumbnailOffset(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?, Vec::new())),
+					(0x0202, _) => Ok(ExifTag::ThumbnailLength(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?,           )),
 
 					_ => {
 						// In this case, the given hex_value represents a tag that is unknown
 						match *format
 						{
-							ExifTagFormat::INT8U       => Ok(ExifTag::UnknownINT8U(      <INT8U       as U8conversion<INT8U      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::STRING      => Ok(ExifTag::UnknownSTRING(     <STRING      as U8conversion<STRING     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT16U      => Ok(ExifTag::UnknownINT16U(     <INT16U      as U8conversion<INT16U     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT32U      => Ok(ExifTag::UnknownINT32U(     <INT32U      as U8conversion<INT32U     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::RATIONAL64U => Ok(ExifTag::UnknownRATIONAL64U(<RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT8S       => Ok(ExifTag::UnknownINT8S(      <INT8S       as U8conversion<INT8S      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::UNDEF       => Ok(ExifTag::UnknownUNDEF(      <UNDEF       as U8conversion<UNDEF      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT16S      => Ok(ExifTag::UnknownINT16S(     <INT16S      as U8conversion<INT16S     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT32S      => Ok(ExifTag::UnknownINT32S(     <INT32S      as U8conversion<INT32S     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::RATIONAL64S => Ok(ExifTag::UnknownRATIONAL64S(<RATIONAL64S as U8conversion<RATIONAL64S>>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::FLOAT       => Ok(ExifTag::UnknownFLOAT(      <FLOAT       as U8conversion<FLOAT      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::DOUBLE      => Ok(ExifTag::UnknownDOUBLE(     <DOUBLE      as U8conversion<DOUBLE     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
+							ExifTagFormat::INT8U       => Ok(ExifTag::UnknownINT8U(      <INT8U       as U8conversion<INT8U      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::STRING      => Ok(ExifTag::UnknownSTRING(     <STRING      as U8conversion<STRING     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT16U      => Ok(ExifTag::UnknownINT16U(     <INT16U      as U8conversion<INT16U     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT32U      => Ok(ExifTag::UnknownINT32U(     <INT32U      as U8conversion<INT32U     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::RATIONAL64U => Ok(ExifTag::UnknownRATIONAL64U(<RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT8S       => Ok(ExifTag::UnknownINT8S(      <INT8S       as U8conversion<INT8S      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::UNDEF       => Ok(ExifTag::UnknownUNDEF(      <UNDEF       as U8conversion<UNDEF      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT16S      => Ok(ExifTag::UnknownINT16S(     <INT16S      as U8conversion<INT16S     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT32S      => Ok(ExifTag::UnknownINT32S(     <INT32S      as U8conversion<INT32S     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::RATIONAL64S => Ok(ExifTag::UnknownRATIONAL64S(<RATIONAL64S as U8conversion<RATIONAL64S>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::FLOAT       => Ok(ExifTag::UnknownFLOAT(      <FLOAT       as U8conversion<FLOAT      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::DOUBLE      => Ok(ExifTag::UnknownDOUBLE(     <DOUBLE      as U8conversion<DOUBLE     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
 						}
 					},
 				}
-- 
2.43.0


From ea1f2285807d96433bbd6be59ea5940dcc65060d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:51:55 +0000
Subject: [PATCH 09/49] fix: ignore a second offset to the same SubIFD while
 decoding

---
 src/ifd/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 8744029..094cc31 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -258,6 +258,16 @@ ImageFileDirectory
             // If this is an IFD offset tag, perform a recursive call
             if let TagType::IFD_OFFSET(subifd_group) = tag.get_tag_type()
             {
+                // There can only be one SubIFD of each kind per generic IFD
+                if insert_into.iter().any(|ifd|
+                    ifd.ifd_type                  == subifd_group &&
+                    ifd.belongs_to_generic_ifd_nr == generic_ifd_nr
+                )
+                {
+                    log::warn!("Ignoring duplicate offset to SubIFD {subifd_group:?}!");
+                    continue;
+                }
+
                 // Compute the offset to the SubIFD and save the current position
                 let offset          = from_u8_vec_res_macro!(u32, &raw_data, endian)? as usize;
                 let backup_position = data_cursor.position();
-- 
2.43.0


From f4005efce0c4c3b29a90b01c9e4592d5b366e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 10/49] fix: leave nothing of the old data behind when writing
 shorter TIFF data

---
 src/tiff/file.rs | 14 +++++++++-----
 src/tiff/vec.rs  | 20 ++++++++++++++++----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index 0066f7c..da1edd1 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -3,6 +3,7 @@
 
 use std::io::BufReader;
 use std::io::BufWriter;
+use std::io::Seek;
 use std::path::Path;
 
 use crate::general_file_io::open_read_file;
@@ -37,10 +38,8 @@ clear_metadata
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-	// Write the reduced data back to the backup cursor
-	generic_write_metadata(&mut BufWriter::new(open_write_file(path)?), &data)?;
-
-	return Ok(());
+	// Write the reduced data back to the file
+	return write_metadata(path, &data);
 }
 
 pub(crate) fn 
@@ -52,5 +51,10 @@ write_metadata
 -> Result<(), std::io::Error>
 {
 	let mut buffered_file = BufWriter::new(open_write_file(path)?);
-	return generic_write_metadata(&mut buffered_file, metadata);
+	generic_write_metadata(&mut buffered_file, metadata)?;
+
+	// Don't keep the remains of the old (possibly longer) data
+	let end_position = buffered_file.stream_position()?;
+	let file         = buffered_file.into_inner().map_err(|error| error.into_error())?;
+	return file.set_len(end_position);
 }
\ No newline at end of file
diff --git a/src/tiff/vec.rs b/src/tiff/vec.rs
index 09ac912..624c8a3 100644
--- a/src/tiff/vec.rs
+++ b/src/tiff/vec.rs
@@ -27,7 +27,7 @@ clear_metadata
 -> Result<(), std::io::Error>
 {
 	// Create cursor
-	let mut cursor           = Cursor::new(file_buffer);
+	let mut cursor           = Cursor::new(&mut *file_buffer);
 	let     cursor_start_pos = cursor.position();
 
 	// Read in the data
@@ -39,7 +39,13 @@ clear_metadata
 
 	// Write the reduced data back to the backup cursor
 	cursor.set_position(cursor_start_pos);
-	return generic_write_metadata(&mut cursor, &data);
+	generic_write_metadata(&mut cursor, &data)?;
+
+	// Don't keep the remains of the old (possibly longer) data
+	let end_position = cursor.position() as usize;
+	file_buffer.truncate(end_position);
+
+	return Ok(());
 }
 
 pub(crate) fn
@@ -50,6 +56,12 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut cursor = Cursor::new(file_buffer);
-	return generic_write_metadata(&mut cursor, metadata);
+	let mut cursor = Cursor::new(&mut *file_buffer);
+	generic_write_metadata(&mut cursor, metadata)?;
+
+	// Don't keep the remains of the old (possibly longer) data
+	let end_position = cursor.position() as usize;
+	file_buffer.truncate(end_position);
+
+	return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From e49f7688b88c764f6ec0a3120e35ca927d83d5ac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 11/49] fix: return an error for JPG segments with an illegal
 length when clearing

---
 src/jpg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 2ce0949..d05cdb0 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -153,6 +153,11 @@ clear_segment
 
             // Decode the length to determine how much more data there is
             let length = from_u8_vec_res_macro!(u16, &length_buffer, &Endian::Big)?;
+            if length < 2
+            {
+                return io_error!(InvalidData, "Mangled JPG data encountered!");
+            }
+
             let remaining_length = (length - 2) as usize;
 
             if byte_buffer[0] == segment_marker                                 // Given marker, e.g. for APP1
-- 
2.43.0


From 6783dc250e2e9a431b28aeb0f62ac5d4e776f946 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 12/49] fix: don't read beyond short APP1 segments when
 clearing JPG metadata

---
 src/jpg.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index d05cdb0..f8d11c1 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -170,19 +170,23 @@ clear_segment
                 // If we are given prefix bytes to check for, read them in
                 if let Some(prefix) = prefix_bytes
                 {
-                    let mut prefix_buffer = vec![0u8; prefix.len()];
-                    cursor.read_exact(&mut prefix_buffer)?;
-                    cursor.seek(SeekFrom::Current(-(prefix_buffer.len() as i64)))?;
-
                     // We are given a prefix but don't know yet if it matches
                     // So set the override to true for now as we might have to
                     // skip deleting this segment if we don't get a match
                     do_not_delete_segment_override = true;
 
-                    // Only delete the segment if the prefix matches
-                    if prefix_buffer.as_slice() == prefix
+                    // A segment that is too short can't start with the prefix
+                    if remaining_length >= prefix.len()
                     {
-                        do_not_delete_segment_override = false;
+                        let mut prefix_buffer = vec![0u8; prefix.len()];
+                        cursor.read_exact(&mut prefix_buffer)?;
+                        cursor.seek(SeekFrom::Current(-(prefix_buffer.len() as i64)))?;
+
+                        // Only delete the segment if the prefix matches
+                        if prefix_buffer.as_slice() == prefix
+                        {
+                            do_not_delete_segment_override = false;
+                        }
                     }
                 }
 
-- 
2.43.0


From 8722aa5ab3532c84dd898e1e16afce0d2b8e5cba Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 13/49] fix: skip APP1 segments that don't hold EXIF data when
 reading JPG metadata

---
 src/jpg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index f8d11c1..3ca4323 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -481,7 +481,12 @@ generic_read_metadata
                     let mut app1_buffer = vec![0u8; remaining_length];
                     cursor.read_exact(&mut app1_buffer)?;
 
-                    return Ok(app1_buffer);
+                    // APP1 is also used for other data, e.g. XMP, which may
+                    // be located in front of the EXIF data
+                    if app1_buffer.starts_with(&EXIF_HEADER)
+                    {
+                        return Ok(app1_buffer);
+                    }
                 },
 
                 0xda => {                                                       // SOS marker
-- 
2.43.0


From b58441e8c1691155c855dfc2ea5282e7fd62f262 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 14/49] fix: cut off the end of a JPG file that gets shorter
 when writing metadata

---
 src/jpg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 3ca4323..62bb7b6 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -347,6 +347,9 @@ file_write_metadata
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
 
+    // The file might have been longer due to the old metadata
+    file.set_len(file_buffer.len() as u64)?;
+
     return Ok(());
 }
 
-- 
2.43.0


From 1b73b1661e71808d2b350898cfb8d65747bdde6e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 15/49] fix: refuse EXIF data that does not fit into a JPG
 segment

---
 src/jpg.rs                  | 16 +++++++++-------
 src/metadata/metadata_io.rs |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 62bb7b6..0544b26 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -27,14 +27,16 @@ encode_metadata_jpg
 (
     exif_vec: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     // vector storing the data that will be returned
     let mut jpg_exif: Vec<u8> = Vec::new();
 
     // Compute the length of the exif data (includes the two bytes of the
     // actual length field)
-    let length = 2u16 + (EXIF_HEADER.len() as u16) + (exif_vec.len() as u16);
+    let Ok(length) = u16::try_from(2 + EXIF_HEADER.len() + exif_vec.len()) else {
+        return io_error!(InvalidInput, "EXIF data is too large for a JPG segment!");
+    };
 
     // Start with the APP1 marker and the length of the data
     // Then copy the previously encoded EXIF data 
@@ -43,7 +45,7 @@ encode_metadata_jpg
     jpg_exif.extend(EXIF_HEADER.iter());
     jpg_exif.extend(exif_vec.iter());
 
-    return jpg_exif;
+    return Ok(jpg_exif);
 }
 
 
@@ -293,7 +295,7 @@ as_u8_vec
 (
     general_encoded_metadata: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     encode_metadata_jpg(general_encoded_metadata)
 }
@@ -308,12 +310,12 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
+    // Encode the data specifically for JPG
+    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?)?;
+
     // Remove old metadata
     clear_metadata(file_buffer)?;
 
-    // Encode the data specifically for JPG
-    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?);
-
     // Insert the metadata right after the signature
     crate::util::insert_multiple_at(file_buffer, 2, &mut encoded_metadata);
 
diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 3051daf..06bb2bf 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -389,7 +389,7 @@ Metadata
             FileExtension::PNG { as_zTXt_chunk } 
                 =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk),
             FileExtension::JPEG 
-                =>  jpg::as_u8_vec(&general_encoded_metadata),
+                =>  jpg::as_u8_vec(&general_encoded_metadata)?,
             FileExtension::WEBP 
                  => webp::as_u8_vec(&general_encoded_metadata),
             FileExtension::HEIF 
-- 
2.43.0


From 180cd8d4fde337f511c43432d637d939816a11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 16/49] fix: handle fill bytes and markers without a segment in
 JPG data

---
 src/jpg.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 0544b26..023e84a 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -140,6 +140,19 @@ clear_segment
 
         if previous_byte_was_marker_prefix
         {
+            // Any number of 0xFF fill bytes may precede the actual marker
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
+            // Some markers are not followed by a segment
+            if is_standalone_marker(byte_buffer[0])
+            {
+                previous_byte_was_marker_prefix = false;
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             if byte_buffer[0] == 0xd9                                           // EOI marker
@@ -388,6 +401,17 @@ file_read_metadata
 /// segment (SOS) and positions the cursor at the start of the next segment,
 /// i.e. a 0xFF byte that is followed by a marker that is NOT 0xD0-0xD7 or 0x00.
 /// Assumes that the given cursor is positioned at the start of the ECS
+/// TEM and RST0 - RST7
+fn
+is_standalone_marker
+(
+    marker: u8
+)
+-> bool
+{
+    matches!(marker, 0x01 | 0xd0..=0xd7)
+}
+
 fn 
 skip_ecs
 <T: Seek + Read>
@@ -420,6 +444,11 @@ skip_ecs
                     // Do nothing
                 },
 
+                JPG_MARKER_PREFIX => {
+                    // A fill byte; the actual marker is still to come
+                    continue;
+                },
+
                 _ => {
                     // Position back to where the 0xFF byte is located
                     cursor.seek(SeekFrom::Current(-2))?;
@@ -456,6 +485,19 @@ generic_read_metadata
 
         if previous_byte_was_marker_prefix
         {
+            // Any number of 0xFF fill bytes may precede the actual marker
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
+            // Some markers are not followed by a segment
+            if is_standalone_marker(byte_buffer[0])
+            {
+                previous_byte_was_marker_prefix = false;
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             // This is why this case can't be included in the match afterwards.
-- 
2.43.0


From a43972470a64596a05d3cb71f1620a99e59656b1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 17/49] fix: leave the data as it was when clearing or writing
 fails half-way

---
 src/metadata/metadata_io.rs | 56 +++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 06bb2bf..02ea74b 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -192,7 +192,10 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        // Keep the original data in case that something goes wrong half-way
+        let backup = file_buffer.clone();
+
+        let result = match file_type
         {
             FileExtension::HEIF
                 => heif::clear_metadata(file_buffer),
@@ -207,14 +210,21 @@ Metadata
             FileExtension::WEBP
                 => webp::vec::clear_metadata(file_buffer),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'clear_metadata' not yet implemented for {:?}", 
                         file_type
                     )
                 ),
+        };
+
+        if result.is_err()
+        {
+            *file_buffer = backup;
         }
+
+        return result;
     }
 
     /// Clears the APP12 segment in a JPEG file that contains data resulting
@@ -230,19 +240,29 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        // Keep the original data in case that something goes wrong half-way
+        let backup = file_buffer.clone();
+
+        let result = match file_type
         {
             FileExtension::JPEG 
                 =>  jpg::clear_segment(file_buffer, 0xec, None),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'clear_app12_segment' not available for {:?} (only relevant for JPEG)", 
                         file_type
                     )
                 ),
+        };
+
+        if result.is_err()
+        {
+            *file_buffer = backup;
         }
+
+        return result;
     }
 
     /// Clears the APP13 segment in a JPEG file that contains data resulting
@@ -258,19 +278,29 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        // Keep the original data in case that something goes wrong half-way
+        let backup = file_buffer.clone();
+
+        let result = match file_type
         {
             FileExtension::JPEG 
                 =>  jpg::clear_segment(file_buffer, 0xed, None),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'clear_app13_segment' not available for {:?} (only relevant for JPEG)", 
                         file_type
                     )
                 ),
+        };
+
+        if result.is_err()
+        {
+            *file_buffer = backup;
         }
+
+        return result;
     }
 
     /// Clears the APP12 segment in a JPEG file that contains data resulting
@@ -418,7 +448,10 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        // Keep the original data in case that something goes wrong half-way
+        let backup = file_buffer.clone();
+
+        let result = match file_type
         {
             FileExtension::HEIF
                 => heif::write_metadata(file_buffer, self),
@@ -433,14 +466,21 @@ Metadata
             FileExtension::WEBP
                 => webp::vec::write_metadata(file_buffer, self),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'file_clear_metadata' not yet implemented for {:?}", 
                         file_type
                     )
                 ),
+        };
+
+        if result.is_err()
+        {
+            *file_buffer = backup;
         }
+
+        return result;
     }
 
     /// Writes the metadata to the specified file.
-- 
2.43.0


From 77d3aa8aca0d56d0d88e53d50329da1187dda629 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 18/49] fix: move documentation of skip_ecs back to its
 function

---
 src/jpg.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 023e84a..7ece8c1 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -397,11 +397,7 @@ file_read_metadata
     return generic_read_metadata(&mut buffered_file);
 }
 
-/// Skips the entropy-coded segment (ECS) that is followed by a start of scan
-/// segment (SOS) and positions the cursor at the start of the next segment,
-/// i.e. a 0xFF byte that is followed by a marker that is NOT 0xD0-0xD7 or 0x00.
-/// Assumes that the given cursor is positioned at the start of the ECS
-/// TEM and RST0 - RST7
+/// Checks for markers that are not followed by a segment: TEM & RST0 - RST7
 fn
 is_standalone_marker
 (
@@ -412,6 +408,10 @@ is_standalone_marker
     matches!(marker, 0x01 | 0xd0..=0xd7)
 }
 
+/// Skips the entropy-coded segment (ECS) that is followed by a start of scan
+/// segment (SOS) and positions the cursor at the start of the next segment,
+/// i.e. a 0xFF byte that is followed by a marker that is NOT 0xD0-0xD7 or 0x00.
+/// Assumes that the given cursor is positioned at the start of the ECS
 fn 
 skip_ecs
 <T: Seek + Read>
-- 
2.43.0


From 797c4dd868d42d7e4ccad9f71e2ebbb5b086b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 19/49] fix: remove nested EXIF elements from XMP completely
 and refuse broken XMP

---
 src/xmp.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 707ece2..a0b3299 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -40,7 +40,9 @@ remove_exif_from_xmp
             Ok(Event::Start(ref event)) => {
                 let event_name = String::from_utf8(event.name().0.to_vec())?;
 
-                if event_name.starts_with("exif:")
+                // Also count elements nested in an EXIF element (e.g. rdf:Seq)
+                // as their end tags decrease the depth as well
+                if skip_depth > 0 || event_name.starts_with("exif:")
                 {
                     skip_depth += 1;
                 }
@@ -76,7 +78,10 @@ remove_exif_from_xmp
             }
 
             Ok(Event::Eof) => {
-                assert_eq!(skip_depth, 0);
+                if skip_depth != 0
+                {
+                    return Err("EXIF element in XMP data is not closed!".into());
+                }
                 break;
             }
 
@@ -107,7 +112,7 @@ remove_exif_from_xmp
                     reader.buffer_position(), 
                     error_message
                 );
-                break;
+                return Err(error_message.into());
             }
         };
 
-- 
2.43.0


From 5bdd7ddc081730e1b63e27b54e669e6d1cd98eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 20/49] fix: keep the compression method when rewriting a zTXt
 chunk

---
 src/png/text.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/png/text.rs b/src/png/text.rs
index ecbf03a..6ceff23 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -167,6 +167,9 @@ construct_similar_with_new_data
                 );
             }
 
+            // Push compression method
+            new_chunk_data.push(0x00);
+
             new_chunk_data.extend(compress_to_vec_zlib(new_data, 8).iter());
         },
 
-- 
2.43.0


From 5baec478393e223d84732fc73a9e6521816dcf8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 21/49] fix: report malformed PNG text chunks and keep language
 tags as they are

---
 src/png/text.rs | 132 ++++++++++++++++++++++--------------------------
 1 file changed, 59 insertions(+), 73 deletions(-)

diff --git a/src/png/text.rs b/src/png/text.rs
index 6ceff23..37ba33e 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -43,8 +43,8 @@ get_data_from_text_chunk
             // Find start of data
             // For this we take the keyword length and add 1 for the NUL byte
             let data_start = keyword_length + 1;
-            
-            return Ok(chunk_data[data_start..].to_vec());
+
+            return Ok(get_text_from(chunk_data, data_start)?.to_vec());
         },
 
         "zTXt" => {
@@ -54,7 +54,7 @@ get_data_from_text_chunk
             let data_start = keyword_length + 2;
 
             // Check compression method
-            if chunk_data[keyword_length + 1] != 0x00
+            if get_text_from(chunk_data, keyword_length + 1)?.first() != Some(&0x00)
             {
                 return io_error!(
                     Other,
@@ -64,7 +64,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+                get_text_from(chunk_data, data_start)?
             )
             {
                 return Ok(decompressed_data);
@@ -86,7 +86,7 @@ get_data_from_text_chunk
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(chunk_data);
+            ) = get_info_about_iTXt_chunk(chunk_data)?;
 
             let data_start = keyword_length // keyword
                 + 3                         // NUL, compression flag & method
@@ -98,7 +98,7 @@ get_data_from_text_chunk
             if compression_flag == 0x00
             {
                 // No compression, simply return the data
-                return Ok(chunk_data[data_start..].to_vec());
+                return Ok(get_text_from(chunk_data, data_start)?.to_vec());
             }
             
             if compression_method != 0x00
@@ -111,7 +111,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+                get_text_from(chunk_data, data_start)?
             )
             {
                 return Ok(decompressed_data);
@@ -131,6 +131,23 @@ get_data_from_text_chunk
     }
 }
 
+/// Gets the part of the chunk data that starts at the given position, which
+/// may lie outside of the data if e.g. a NUL separator is missing.
+fn
+get_text_from
+(
+    chunk_data: &[u8],
+    start:      usize,
+)
+-> Result<&[u8], std::io::Error>
+{
+    return match chunk_data.get(start..)
+    {
+        Some(text) => Ok(text),
+        None       => io_error!(InvalidData, "Text chunk is too short!"),
+    };
+}
+
 pub(crate) fn
 construct_similar_with_new_data
 (
@@ -159,7 +176,7 @@ construct_similar_with_new_data
 
         "zTXt" => {
             // Check compression method
-            if old_chunk_data[keyword.len() + 1] != 0x00
+            if get_text_from(old_chunk_data, keyword.len() + 1)?.first() != Some(&0x00)
             {
                 return io_error!(
                     Other,
@@ -181,16 +198,16 @@ construct_similar_with_new_data
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(old_chunk_data);
+            ) = get_info_about_iTXt_chunk(old_chunk_data)?;
 
             // Push compression information
             new_chunk_data.push(compression_flag);
             new_chunk_data.push(compression_method);
 
             // Add the language tag and translated keyword
-            new_chunk_data.extend(language_tag.bytes());
+            new_chunk_data.extend(language_tag);
             new_chunk_data.push(0x00);
-            new_chunk_data.extend(translated_keyword.bytes());
+            new_chunk_data.extend(translated_keyword);
             new_chunk_data.push(0x00);
 
             // Check compression
@@ -240,74 +257,43 @@ get_info_about_iTXt_chunk
 (
     chunk_data:   &[u8]
 )
--> (
-    u8,     // compression flag
-    u8,     // compression method
-    String, // keyword
-    String, // language tag
-    String, // translated keyword
-)
+-> Result<(
+    u8,      // compression flag
+    u8,      // compression method
+    Vec<u8>, // keyword
+    Vec<u8>, // language tag
+    Vec<u8>, // translated keyword
+), std::io::Error>
 {
-    // Tells us where we currently are in the chunk data
-    let mut chunk_counter = 0;
-
-    // Buffers for the different attributes
-    let mut keyword_buffer = Vec::new();
-
-    loop
+    // Reads everything up to the next NUL separator, starting at the given
+    // position, and returns it with the position after the separator
+    let read_until_null = |start: usize| -> Result<(Vec<u8>, usize), std::io::Error>
     {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            keyword_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
-        {
-            break;
-        }
-    }
-
-    let _null_separator_1  = chunk_data[chunk_counter + 0];
-    let compression_flag   = chunk_data[chunk_counter + 1];
-    let compression_method = chunk_data[chunk_counter + 2];
+        let remaining = get_text_from(chunk_data, start)?;
 
-    chunk_counter += 3;
-    let mut language_tag_buffer = Vec::new();
-
-    loop 
-    {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            language_tag_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
+        return match remaining.iter().position(|character| *character == 0x00)
         {
-            break;
-        }
-    }
+            Some(length) => Ok((remaining[..length].to_vec(), start + length + 1)),
+            None         => io_error!(InvalidData, "No NUL separator in iTXt chunk!"),
+        };
+    };
 
-    chunk_counter += 1;
-    let mut translated_keyword_buffer = Vec::new();
+    let (keyword, compression_start) = read_until_null(0)?;
 
-    loop 
+    let compression_info = get_text_from(chunk_data, compression_start)?;
+    if compression_info.len() < 2
     {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            translated_keyword_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
-        {
-            break;
-        }
+        return io_error!(InvalidData, "No compression information in iTXt chunk!");
     }
 
-    return (
-        compression_flag,
-        compression_method,
-        String::from_utf8(keyword_buffer           ).unwrap_or_default(),
-        String::from_utf8(language_tag_buffer      ).unwrap_or_default(),
-        String::from_utf8(translated_keyword_buffer).unwrap_or_default()
-    );
-}
\ No newline at end of file
+    let (language_tag, translated_start) = read_until_null(compression_start + 2)?;
+    let (translated_keyword, _)          = read_until_null(translated_start)?;
+
+    return Ok((
+        compression_info[0],
+        compression_info[1],
+        keyword,
+        language_tag,
+        translated_keyword,
+    ));
+}
-- 
2.43.0


From 736de2f8f10a5d1ec535685fab425829b459fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 22/49] fix: report malformed raw EXIF profiles in PNG data
 instead of panicking

---
 src/png/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 623f9ce..9bbc6c2 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -794,7 +794,7 @@ decode_metadata_png
         let mut counter = 0;
         for header_value in &EXIF_HEADER
         {
-            if *header_value != exif_all[counter]
+            if exif_all.get(counter) != Some(header_value)
             {
                 break;
             }
@@ -814,7 +814,7 @@ decode_metadata_png
         // with the endian information? See issue #54
         for endian_info in &LITTLE_ENDIAN_INFO
         {
-            if *endian_info != exif_all[counter]
+            if exif_all.get(counter) != Some(endian_info)
             {
                 break;
             }
@@ -829,9 +829,10 @@ decode_metadata_png
         }
 
         // And the same check for big endian
+        counter = 0;
         for endian_info in &BIG_ENDIAN_INFO
         {
-            if *endian_info != exif_all[counter]
+            if exif_all.get(counter) != Some(endian_info)
             {
                 break;
             }
@@ -864,7 +865,10 @@ decode_metadata_png
     //    that will now get extracted
     // Consider this part optional as it might be removed in the future and
     // isn't strictly necessary and just for validating the data we get
-    assert!(!pop_storage.is_empty());
+    if pop_storage.is_empty()
+    {
+        return io_error!(InvalidData, "No size information in PNG EXIF data!");
+    }
 
     // Using the encode_byte function re-encode the bytes regarding the size
     // information and construct its value using decimal based shifting
@@ -890,7 +894,10 @@ decode_metadata_png
         given_exif_len += ones_place *  1 * 10_u64.pow((2 * i) as u32);
     }
 
-    assert_eq!(given_exif_len, exif_all.len() as u64);
+    if given_exif_len != exif_all.len() as u64
+    {
+        return io_error!(InvalidData, "Size information in PNG EXIF data is wrong!");
+    }
     // End optional part
 
     return Ok(Vec::from(exif_all));
-- 
2.43.0


From 44f1c87978e9d8738b9ba5b6a55b009e74b9ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 23/49] fix: remove the right bytes when clearing WebP EXIF
 chunks

---
 src/webp/file.rs | 4 ++--
 src/webp/vec.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 371c678..844cfaf 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -585,8 +585,8 @@ clear_metadata
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
-    // Skip the WEBP signature
-    file.seek(std::io::SeekFrom::Current(4i64))?;
+    // Skip the RIFF header and the WEBP signature
+    file.seek(SeekFrom::Start(12))?;
 
     for parsed_chunk in parse_webp_result
     {
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 129bcf9..737c64d 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -542,8 +542,8 @@ clear_metadata
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
-    // Skip the WEBP signature
-    cursor.set_position(4);
+    // Skip the RIFF header and the WEBP signature
+    cursor.set_position(12);
 
     for parsed_chunk in parse_webp_result
     {
-- 
2.43.0


From 5456847354ffce25a04722ea13922f4f01e5704f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 24/49] fix: read canvas size and alpha use of lossless WebP
 correctly

---
 src/webp/file.rs | 27 +++++++++++++--------------
 src/webp/vec.rs  | 27 +++++++++++++--------------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 844cfaf..6ac8dcb 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -428,6 +428,15 @@ convert_to_extended_format
         0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
     ];
 
+    // A lossless image announces its use of alpha on its own, right after the
+    // dimensions. The flags need to state this as well
+    if 
+        first_chunk.descriptor().header() == "VP8L" && 
+        first_chunk.payload()[4] & 0x10 == 0x10 
+    {
+        vp8x_chunk[8] |= 0x10;
+    }
+
     // Add the two 24 bits for width and height information
     for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
     for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
@@ -475,20 +484,10 @@ get_dimension_info_from_vp8l_chunk
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
     
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    // The first (i.e. lowest) 14 bit are the width minus one, the next 14 bit
+    // are the height minus one, followed by the bit that tells if alpha is used
+    let width  =  width_height_info        & 0x3fff;
+    let height = (width_height_info >> 14) & 0x3fff;
 
     return Ok((width, height));
 }
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 737c64d..0c5178b 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -413,6 +413,15 @@ convert_to_extended_format
         0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
     ];
 
+    // A lossless image announces its use of alpha on its own, right after the
+    // dimensions. The flags need to state this as well
+    if 
+        first_chunk.descriptor().header() == "VP8L" && 
+        first_chunk.payload()[4] & 0x10 == 0x10 
+    {
+        vp8x_chunk[8] |= 0x10;
+    }
+
     // Add the two 24 bits for width and height information
     for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
     for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
@@ -444,20 +453,10 @@ get_dimension_info_from_vp8l_chunk
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
     
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    // The first (i.e. lowest) 14 bit are the width minus one, the next 14 bit
+    // are the height minus one, followed by the bit that tells if alpha is used
+    let width  =  width_height_info        & 0x3fff;
+    let height = (width_height_info >> 14) & 0x3fff;
 
     return Ok((width, height));
 }
-- 
2.43.0


From c9068f83749b7e93e35526968b7085dfa10236f6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 25/49] fix: convert lossy WebP buffers to the extended format
 like files

---
 src/webp/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 0c5178b..d8fbac4 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -397,7 +397,7 @@ convert_to_extended_format
     let (width, height) = match first_chunk.descriptor().header().as_str()
     {
         "VP8 "
-            => {log::debug!("VP8 !"); io_error!(Other, "Conversion from Simple File Format with 'VP8' chunk to Extended File Format not yet implemented!") },
+            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
         "VP8L"
             => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
         _ 
-- 
2.43.0


From bf959598deb1d29c9464686e862ed0c378846e5c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 26/49] fix: report image chunks without usable dimensions
 instead of panicking

---
 src/webp/file.rs |  7 +++++--
 src/webp/mod.rs  | 10 ++++++++++
 src/webp/vec.rs  |  7 +++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 6ac8dcb..4c79638 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -479,10 +479,13 @@ get_dimension_info_from_vp8l_chunk
     // (although we only need 28 bits)
     // Starting at byte 1 instead of 0 due to the 0x2F byte
     // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
+    let Some(width_height_info_buffer) = payload.get(1..5) else
+    {
+        return io_error!(InvalidData, "VP8L chunk is too small to contain dimensions!");
+    };
     
     // Convert to a single u32 number for bit-mask operations
-    let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
+    let width_height_info = from_u8_vec_res_macro!(u32, width_height_info_buffer, &Endian::Little)?;
     
     // The first (i.e. lowest) 14 bit are the width minus one, the next 14 bit
     // are the height minus one, followed by the bit that tells if alpha is used
diff --git a/src/webp/mod.rs b/src/webp/mod.rs
index 287a269..9b60788 100644
--- a/src/webp/mod.rs
+++ b/src/webp/mod.rs
@@ -155,6 +155,11 @@ get_dimension_info_from_vp8_chunk
     // VP8 Data Format https://datatracker.ietf.org/doc/html/rfc6386#section-9.1
     // Parsing function function vp8_parse_frame_header: https://datatracker.ietf.org/doc/html/rfc6386#section-20.4
 
+    if payload.len() < 10
+    {
+        return io_error!(InvalidData, "VP8 chunk is too small to contain a frame header");
+    }
+
     let header_magic = payload[3..=5].to_vec();
     if 
         header_magic.len() != 3 || 
@@ -174,5 +179,10 @@ get_dimension_info_from_vp8_chunk
     let width  = width_info  & bitmask_14;
     let height = height_info & bitmask_14;
 
+    if width == 0 || height == 0
+    {
+        return io_error!(InvalidData, "VP8 frame header states an empty image");
+    }
+
     return Ok((width as u32 -1, height as u32 -1));
 }
\ No newline at end of file
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index d8fbac4..e99ad3e 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -448,10 +448,13 @@ get_dimension_info_from_vp8l_chunk
     // (although we only need 28 bits)
     // Starting at byte 1 instead of 0 due to the 0x2F byte
     // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
+    let Some(width_height_info_buffer) = payload.get(1..5) else
+    {
+        return io_error!(InvalidData, "VP8L chunk is too small to contain dimensions!");
+    };
     
     // Convert to a single u32 number for bit-mask operations
-    let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
+    let width_height_info = from_u8_vec_res_macro!(u32, width_height_info_buffer, &Endian::Little)?;
     
     // The first (i.e. lowest) 14 bit are the width minus one, the next 14 bit
     // are the height minus one, followed by the bit that tells if alpha is used
-- 
2.43.0


From 5716e3c59821ef790e65e8bbb9cb9bf53151d90c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 27/49] fix: report WebP sizes that are odd or too large
 instead of panicking

---
 src/webp/file.rs | 17 ++++++++++-------
 src/webp/vec.rs  | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 4c79638..4ed5562 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -80,7 +80,9 @@ get_next_chunk
     let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
 
     // Account for the possible padding byte
-    chunk_length += chunk_length % 2;
+    chunk_length = chunk_length.checked_add(chunk_length % 2).ok_or(
+        io_error_plain!(InvalidData, "RIFF chunk is too large!")
+    )?;
 
     // Read RIFF chunk data
     let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
@@ -379,14 +381,15 @@ update_file_size_information
     let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
 
     // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
+    let Some(new_file_size) = old_file_size.checked_add_signed(delta) else
     {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
+        return io_error!(InvalidData, "New file size does not fit into the RIFF header!");
+    };
 
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
+    if old_file_size % 2 != 0 || new_file_size % 2 != 0
+    {
+        return io_error!(InvalidData, "RIFF header states an odd file size!");
+    }
 
     // ...and writing back to file...
     file.seek(SeekFrom::Start(4))?;
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index e99ad3e..7062f06 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -70,7 +70,9 @@ get_next_chunk
     let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
 
     // Account for the possible padding byte
-    chunk_length += chunk_length % 2;
+    chunk_length = chunk_length.checked_add(chunk_length % 2).ok_or(
+        io_error_plain!(InvalidData, "RIFF chunk is too large!")
+    )?;
 
     // Read RIFF chunk data
     let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
@@ -358,14 +360,15 @@ update_file_size_information
     let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
 
     // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
+    let Some(new_file_size) = old_file_size.checked_add_signed(delta) else
     {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
+        return io_error!(InvalidData, "New file size does not fit into the RIFF header!");
+    };
 
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
+    if old_file_size % 2 != 0 || new_file_size % 2 != 0
+    {
+        return io_error!(InvalidData, "RIFF header states an odd file size!");
+    }
 
     // ...and writing back to file...
     cursor.set_position(4);
-- 
2.43.0


From 18c4ada323f10ebe970f7660eb0fbd69bc8e7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 28/49] fix: clear WebP EXIF chunks that are not announced by
 the header

---
 src/webp/file.rs | 45 ++++++++++++++++++++++++++-------------------
 src/webp/vec.rs  | 48 ++++++++++++++++++++++++++----------------------
 2 files changed, 52 insertions(+), 41 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 4ed5562..d129e0e 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -567,26 +567,27 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut file, parse_webp_result) = match check_exif_in_file(path) 
+    // Check the file signature and parse it
+    let     parse_webp_result = parse_webp(path)?;
+    let mut file              = check_signature(path)?;
+
+    // Both simple files and files using the Extended File Format may contain
+    // EXIF chunks, regardless of what the flags of the VP8X chunk state
+    let Some(first_chunk) = parse_webp_result.first() else
     {
-        Ok((file, parse_webp_result)) => (file, parse_webp_result),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
+        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
     };
 
+    let is_extended = first_chunk.header().to_lowercase() == VP8X_HEADER.to_lowercase();
+
+    if !is_extended && !matches!(first_chunk.header().as_str(), "VP8 " | "VP8L")
+    {
+        return io_error!(
+            Other, 
+            format!("Expected first chunk of WebP file to be of type 'VP8X' but instead got {}!", first_chunk.header())
+        );
+    }
+
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
@@ -641,10 +642,16 @@ clear_metadata
     }
 
     // Update file size information
-    update_file_size_information(&mut file, delta)?;
+    if delta != 0
+    {
+        update_file_size_information(&mut file, delta)?;
+    }
     
     // Set the flags in the VP8X chunk. First, read in the current flags
-    set_exif_flag(path, false)?;
+    if is_extended
+    {
+        set_exif_flag(path, false)?;
+    }
 
     return Ok(());
 }
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 7062f06..d2a8505 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -521,29 +521,27 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut cursor, parse_webp_result) = match check_exif_in_file(file_buffer) 
+    // Check the file signature and parse it
+    let parse_webp_result = parse_webp(file_buffer)?;
+    let mut cursor = Cursor::new(file_buffer);
+
+    // Both simple files and files using the Extended File Format may contain
+    // EXIF chunks, regardless of what the flags of the VP8X chunk state
+    let Some(first_chunk) = parse_webp_result.first() else
     {
-        Ok((_file, parse_webp_result)) => (
-            Cursor::new(file_buffer), 
-            parse_webp_result
-        ),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
+        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
     };
 
+    let is_extended = first_chunk.header().to_lowercase() == VP8X_HEADER.to_lowercase();
+
+    if !is_extended && !matches!(first_chunk.header().as_str(), "VP8 " | "VP8L")
+    {
+        return io_error!(
+            Other, 
+            format!("Expected first chunk of WebP file to be of type 'VP8X' but instead got {}!", first_chunk.header())
+        );
+    }
+
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
@@ -581,10 +579,16 @@ clear_metadata
     }
 
     // Update file size information
-    update_file_size_information(&mut cursor, delta)?;
+    if delta != 0
+    {
+        update_file_size_information(&mut cursor, delta)?;
+    }
     
     // Set the flags in the VP8X chunk. First, read in the current flags
-    set_exif_flag(&mut cursor, false)?;
+    if is_extended
+    {
+        set_exif_flag(&mut cursor, false)?;
+    }
 
     return Ok(());
 }
-- 
2.43.0


From 24453bc150e3b82b5defe4bd644d89f9e286bafa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 29/49] fix: refuse WebP data with a VP8X chunk that is too
 small for its flags

---
 src/webp/file.rs | 4 ++++
 src/webp/vec.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index d129e0e..d1e00f4 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -524,6 +524,10 @@ set_exif_flag
         {
             convert_to_extended_format(&mut file)?;
         }
+        else if first_chunk.len() < 10
+        {
+            return io_error!(InvalidData, "VP8X chunk is too small!");
+        }
     }
     else
     {
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index d2a8505..f50a530 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -490,6 +490,10 @@ set_exif_flag
         {
             convert_to_extended_format(cursor)?;
         }
+        else if first_chunk.len() < 10
+        {
+            return io_error!(InvalidData, "VP8X chunk is too small!");
+        }
     }
     else
     {
-- 
2.43.0


From 0418b8baaa6f0a9f019c9fe04adb812825e1f074 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 30/49] fix: insert the EXIF chunk at the same, correct place
 in WebP buffers and files

---
 src/webp/file.rs | 13 ++++++++++---
 src/webp/vec.rs  | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index d1e00f4..aada295 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -688,14 +688,20 @@ write_metadata
     // that is both known and should be located *before* the EXIF chunk
     let pre_exif_chunks = [
         "VP8X",
-        "VP8",
+        "VP8 ",
         "VP8L",
         "ICCP",
-        "ANIM"
+        "ANIM",
+        "ANMF",
+        "ALPH"
     ];
 
+    let mut insert_position;
+
     loop
     {
+        insert_position = file.stream_position()?;
+
         // Request a chunk descriptor. If this fails, check the error 
         // Depending on its type, either continue normally or return it
         let chunk_descriptor_result = get_next_chunk_descriptor(&mut file);
@@ -730,8 +736,9 @@ write_metadata
     }
 
     // Next, read remaining file into a buffer...
-    let current_file_cursor = SeekFrom::Start(file.stream_position()?);
+    let current_file_cursor = SeekFrom::Start(insert_position);
     let mut read_buffer = Vec::new();
+    file.seek(current_file_cursor)?;
     file.read_to_end(&mut read_buffer)?;
 
     // ...and write the EXIF chunk at the previously found location...
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index f50a530..8ac4577 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -623,10 +623,12 @@ write_metadata
     // that is both known and should be located *before* the EXIF chunk
     let pre_exif_chunks = [
         "VP8X",
-        "VP8",
+        "VP8 ",
         "VP8L",
         "ICCP",
-        "ANIM"
+        "ANIM",
+        "ANMF",
+        "ALPH"
     ];
 
     // Clippy wrongly needs this allowance, otherwise it states that this call
@@ -637,9 +639,14 @@ write_metadata
     // I guess there is a less messy solution to this?
     #[allow(clippy::useless_asref)]
     let mut read_cursor = Cursor::new(file_buffer.as_ref());
+    read_cursor.set_position(12);
+
+    let mut insert_position;
 
     loop
     {
+        insert_position = read_cursor.position();
+
         // Request a chunk descriptor. If this fails, check the error 
         // Depending on its type, either continue normally or return it
         let chunk_descriptor_result = get_next_chunk_descriptor(&mut read_cursor);
@@ -674,7 +681,7 @@ write_metadata
     }
 
     // Write the EXIF chunk at the found location
-    insert_multiple_at(file_buffer, read_cursor.position() as usize, &mut encoded_metadata);
+    insert_multiple_at(file_buffer, insert_position as usize, &mut encoded_metadata);
 
     // Update the file size information by adding the byte count of the EXIF chunk
     // (Note: Due to  the WebP specific encoding function, this vector already
-- 
2.43.0


From 2fbfc214220784a32bfe846b55f7873ebc8d20ee Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 31/49] fix: give a WebP file its content back when writing or
 clearing fails half-way

---
 src/webp/file.rs | 53 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index aada295..cda8f13 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -564,12 +564,50 @@ set_exif_flag
 
 
 
+/// The functions in this file change the file step by step. In case that one
+/// of these steps fails, the file gets its original content back.
+fn
+restore_on_error
+(
+    path:      &Path,
+    operation: impl FnOnce() -> Result<(), std::io::Error>
+)
+-> Result<(), std::io::Error>
+{
+    let mut backup = Vec::new();
+    check_signature(path)?;
+    open_read_file(path)?.read_to_end(&mut backup)?;
+
+    let result = operation();
+
+    if result.is_err()
+    {
+        std::fs::write(path, backup)?;
+    }
+
+    return result;
+}
+
+
+
 pub(crate) fn
 clear_metadata
 (
     path: &Path
 )
 -> Result<(), std::io::Error>
+{
+    restore_on_error(path, || clear_metadata_in_place(path))
+}
+
+
+
+fn
+clear_metadata_in_place
+(
+    path: &Path
+)
+-> Result<(), std::io::Error>
 {
     // Check the file signature and parse it
     let     parse_webp_result = parse_webp(path)?;
@@ -673,9 +711,22 @@ write_metadata
     metadata: &Metadata
 )
 -> Result<(), std::io::Error>
+{
+    restore_on_error(path, || write_metadata_in_place(path, metadata))
+}
+
+
+
+fn
+write_metadata_in_place
+(
+    path:     &Path,
+    metadata: &Metadata
+)
+-> Result<(), std::io::Error>
 {
     // Clear the metadata from the file and return if this results in an error
-    clear_metadata(path)?;
+    clear_metadata_in_place(path)?;
 
     // Encode the general metadata format to WebP specifications
     let encoded_metadata = encode_metadata_webp(&metadata.encode()?);
-- 
2.43.0


From afbe559b84fd2a041cb9d9e93fe76bc5f360ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 32/49] fix: do not ask for write access when reading from a
 WebP file

---
 src/webp/file.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index cda8f13..c4ac25f 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -27,11 +27,12 @@ use super::*;
 fn
 check_signature
 (
-    path: &Path
+    path:     &Path,
+    writable: bool
 )
 -> Result<File, std::io::Error>
 {
-    let mut file = open_write_file(path)?;
+    let mut file = if writable { open_write_file(path)? } else { open_read_file(path)? };
 
     // Get the first 12 bytes that are required for the following checks
     let mut first_12_bytes = [0u8; 12];
@@ -139,7 +140,7 @@ parse_webp
 )
 -> Result<Vec<RiffChunkDescriptor>, std::io::Error>
 {
-    let mut file   = check_signature(path)?;
+    let mut file   = check_signature(path, false)?;
     let mut chunks = Vec::new();
 
     // The amount of data we expect to read while parsing the chunks
@@ -235,7 +236,7 @@ check_exif_in_file
     // - RIFF + file size + WEBP -> 12 byte
     // - VP8X header             ->  4 byte
     // - VP8X chunk size         ->  4 byte
-    let mut file = check_signature(path)?;
+    let mut file = check_signature(path, false)?;
     let mut flag_buffer = vec![0u8; 4usize];
     file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
     if file.read(&mut flag_buffer)? != 4
@@ -512,7 +513,7 @@ set_exif_flag
     let parsed_webp_result = parse_webp(path)?;
 
     // Open the file for further processing
-    let mut file = check_signature(path)?;
+    let mut file = check_signature(path, true)?;
 
     // Next, check if this is an Extended File Format WebP file
     // In this case, the first Chunk SHOULD have the type "VP8X"
@@ -575,7 +576,7 @@ restore_on_error
 -> Result<(), std::io::Error>
 {
     let mut backup = Vec::new();
-    check_signature(path)?;
+    check_signature(path, false)?;
     open_read_file(path)?.read_to_end(&mut backup)?;
 
     let result = operation();
@@ -611,7 +612,7 @@ clear_metadata_in_place
 {
     // Check the file signature and parse it
     let     parse_webp_result = parse_webp(path)?;
-    let mut file              = check_signature(path)?;
+    let mut file              = check_signature(path, true)?;
 
     // Both simple files and files using the Extended File Format may contain
     // EXIF chunks, regardless of what the flags of the VP8X chunk state
@@ -732,7 +733,7 @@ write_metadata_in_place
     let encoded_metadata = encode_metadata_webp(&metadata.encode()?);
 
     // Open the file...
-    let mut file = check_signature(path)?;
+    let mut file = check_signature(path, true)?;
 
     // ...and find a location where to put the EXIF chunk
     // This is done by requesting a chunk descriptor as long as we find a chunk
-- 
2.43.0


From 8aff577efe77c4b6f5ba649d5a08a7e5599d009d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 33/49] fix: handle all kinds of box sizes in JXL data

---
 src/jxl.rs | 209 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 112 insertions(+), 97 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index ee028e6..9d58770 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -125,6 +125,52 @@ file_check_signature
 
 
 
+/// Reads the header of the box at the current position: 4 bytes for the size
+/// of the box and 4 bytes for its type. A size of 1 tells that the actual size
+/// is stored in the following 8 bytes, a size of 0 that the box extends to the
+/// end of the data.
+/// Returns the type and how many bytes the box has without its header. The
+/// cursor points at the first of these bytes afterwards
+fn
+read_box_header
+<T: Seek + Read>
+(
+    cursor: &mut T
+)
+-> Result<([u8; 4], u64), std::io::Error>
+{
+    let mut size_buffer = [0u8; 4];
+    let mut type_buffer = [0u8; 4];
+
+    cursor.read_exact(&mut size_buffer)?;
+    cursor.read_exact(&mut type_buffer)?;
+
+    let payload_length = match from_u8_vec_res_macro!(u32, &size_buffer, &Endian::Big)?
+    {
+        0 => {
+            let payload_start = cursor.stream_position()?;
+            let end           = cursor.seek(SeekFrom::End(0))?;
+            cursor.seek(SeekFrom::Start(payload_start))?;
+            Some(end - payload_start)
+        },
+        1 => {
+            let mut large_size_buffer = [0u8; 8];
+            cursor.read_exact(&mut large_size_buffer)?;
+            u64::from_be_bytes(large_size_buffer).checked_sub(16)
+        },
+        size => (size as u64).checked_sub(8)
+    };
+
+    // No file can be larger than what fits into an i64
+    return match payload_length.filter(|length| *length <= i64::MAX as u64 / 2)
+    {
+        Some(length) => Ok((type_buffer, length)),
+        None         => io_error!(InvalidData, "Invalid box length found when reading JXL data!")
+    };
+}
+
+
+
 pub(crate) fn
 clear_metadata
 (
@@ -140,27 +186,26 @@ clear_metadata
     {
         if position >= file_buffer.len() { return Ok(()); }
 
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box 
-        let length_buffer = file_buffer[position..position+4].to_vec();
-        let length        = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+        let mut cursor = Cursor::new(&*file_buffer);
+        cursor.set_position(position as u64);
+
+        let (box_type, payload_length) = read_box_header(&mut cursor)?;
 
-        // Next, read the box type
-        let type_buffer = file_buffer[position+4..position+8].to_vec();
+        let box_end       = cursor.position() + payload_length;
+        let contains_exif = box_contains_exif(&mut cursor, box_type, payload_length)?;
 
-        if box_contains_exif(
-            &mut Cursor::new(
-                file_buffer[position+8..position+12].to_vec()
-            ), 
-            [type_buffer[0], type_buffer[1], type_buffer[2], type_buffer[3]]
-        )?
+        if !contains_exif
+        {
+            // Not an EXIF box so skip it
+            position = box_end as usize;
+        }
+        else if box_end <= file_buffer.len() as u64
         {
-            range_remove(file_buffer, position, position+length);
+            range_remove(file_buffer, position, box_end as usize);
         }
         else
         {
-            // Not an EXIF box so skip it
-            position += length;
+            return io_error!(InvalidData, "EXIF box exceeds the JXL data!");
         }
     }
 }
@@ -172,50 +217,20 @@ file_clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    let mut file = file_check_signature(path)?;
-
-    let mut length_buffer = [0u8; 4];
-    let mut type_buffer   = [0u8; 4];
-
-    loop
-    {
-        let position        = file.stream_position()?;
-        let old_file_length = file.metadata()?.len();
-        if position >= old_file_length { return Ok(()); }
-
-        file.read_exact(&mut length_buffer)?;
-        file.read_exact(&mut type_buffer)?;
-
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+    let mut file        = file_check_signature(path)?;
+    let mut file_buffer = Vec::new();
 
-        if box_contains_exif(&mut file, type_buffer)?
-        {
-            // Seek past the EXIF box ...
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-
-
-            // ... copy everything from here onwards into a buffer ...
-            let mut buffer = Vec::new();
-            file.read_to_end(&mut buffer)?;
+    file.seek(SeekFrom::Start(0))?;
+    file.read_to_end(&mut file_buffer)?;
 
-            // ... seek back to the start of the EXIF box ...
-            file.seek(std::io::SeekFrom::Start(position))?;
+    clear_metadata(&mut file_buffer)?;
 
-            // ... overwrite everything from here onward ...
-            file.write_all(&buffer)?;
-            file.seek(std::io::SeekFrom::Start(position))?;
+    // Seek back to start, write the file & remove what is left of the old data
+    file.seek(SeekFrom::Start(0))?;
+    file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
-            // ... and finally update the file size - otherwise there will be
-            // duplicate bytes at the end!
-            file.set_len(old_file_length - length as u64)?;
-        }
-        else
-        {
-            // Not an EXIF box so skip it
-            assert_eq!(position+8, file.stream_position()?);
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-        }
-    }
+    return Ok(());
 }
 
 
@@ -244,8 +259,9 @@ fn
 box_contains_exif
 <T: Seek + Read>
 (
-    cursor:      &mut T,
-    type_buffer:  [u8; 4],
+    cursor:         &mut T,
+    type_buffer:    [u8; 4],
+    payload_length: u64,
 )
 -> Result<bool, std::io::Error>
 {
@@ -253,7 +269,7 @@ box_contains_exif
     {
         return Ok(true);
     }
-    if type_buffer == BROB_BOX && check_brob_type_for_exif(cursor)?
+    if type_buffer == BROB_BOX && payload_length >= 4 && check_brob_type_for_exif(cursor)?
     {
         return Ok(true);
     }
@@ -300,6 +316,31 @@ file_read_metadata
     return generic_read_metadata(&mut file);
 }
 
+/// Provides a buffer for the remaining data of a box of which the given number
+/// of bytes has already been skipped
+fn
+new_buffer
+<T: Seek>
+(
+    cursor:  &mut T,
+    length:  u64,
+    skipped: u64
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    let position = cursor.stream_position()?;
+    let end      = cursor.seek(SeekFrom::End(0))?;
+    cursor.seek(SeekFrom::Start(position))?;
+
+    return match length.checked_sub(skipped)
+    {
+        Some(remaining) if remaining <= end.saturating_sub(position) 
+            => Ok(vec![0u8; remaining as usize]),
+        _ 
+            => io_error!(InvalidData, "EXIF box is too small or exceeds the JXL data!")
+    };
+}
+
 fn
 generic_read_metadata
 <T: Seek + Read>
@@ -310,21 +351,7 @@ generic_read_metadata
 {
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )?;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
+        let (type_buffer, length) = read_box_header(cursor)?;
 
         match type_buffer
         {
@@ -333,7 +360,7 @@ generic_read_metadata
                 cursor.seek(SeekFrom::Current(4))?;
 
                 // `length-4` because of the previous relative seek operation
-                let mut exif_buffer = vec![0u8; (length-4) as usize];
+                let mut exif_buffer = new_buffer(cursor, length, 4)?;
                 cursor.read_exact(&mut exif_buffer)?;
 
                 return Ok(exif_buffer);
@@ -343,15 +370,12 @@ generic_read_metadata
 
                 let position = cursor.stream_position()? as usize;
 
-                if check_brob_type_for_exif(cursor)?
+                if length >= 4 && check_brob_type_for_exif(cursor)?
                 {
                     // Skip the next 4 bytes (which contain the minor version???)
                     cursor.seek(SeekFrom::Current(4))?;
 
-                    let mut compressed_exif_buffer = vec![
-                        0u8; 
-                        (length-4) as usize
-                    ];
+                    let mut compressed_exif_buffer = new_buffer(cursor, length, 4)?;
                     cursor.read_exact(&mut compressed_exif_buffer)?;
                     
                     let mut decompressed_exif_buffer = Vec::new();
@@ -367,11 +391,15 @@ generic_read_metadata
 
                     // Ignore the next 4 bytes (I guess for the same reason 
                     // as above - some sort of minor version?)
-                    return Ok(decompressed_exif_buffer[4..].to_vec());
+                    return match decompressed_exif_buffer.get(4..)
+                    {
+                        Some(exif_buffer) => Ok(exif_buffer.to_vec()),
+                        None              => io_error!(InvalidData, "Compressed EXIF box is too small!")
+                    };
                 }
                 else 
                 {
-                    cursor.seek(SeekFrom::Start(position as u64 + length as u64))?;
+                    cursor.seek(SeekFrom::Start(position as u64 + length))?;
                 }
             }
 
@@ -419,21 +447,8 @@ find_insert_position
 
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )? as usize;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
+        let position              = cursor.position() as usize;
+        let (type_buffer, length) = read_box_header(&mut cursor)?;
 
         match type_buffer
         {
@@ -443,7 +458,7 @@ find_insert_position
                 cursor.seek(SeekFrom::Current(length as i64))?;
             }
             _ => {
-                return Ok(cursor.position() as usize - 8);
+                return Ok(position);
             }
         }
     }
-- 
2.43.0


From 0d6db9201a8c86643325a94b08b689c5f1cab3bd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 34/49] fix: cut off what is left of the old data when a JXL
 file gets shorter

---
 src/jxl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jxl.rs b/src/jxl.rs
index 9d58770..41d9590 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -527,6 +527,7 @@ file_write_metadata
     // Seek back to start & write the file
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
     return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From 48bddb774c5e786d31a7d389c273760402849e1a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 35/49] fix: respect the offset at the start of JXL Exif boxes

---
 src/jxl.rs | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index 41d9590..a0c6def 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -341,6 +341,31 @@ new_buffer
     };
 }
 
+/// An Exif box starts with 4 bytes that tell the distance from what follows 
+/// them to the start of the actual EXIF (i.e. TIFF) data. 
+/// In case that there is the usual EXIF header it may be kept
+fn
+skip_to_exif_data
+(
+    exif_box_data: &[u8]
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    let (Some(offset_buffer), Some(exif_data)) = (exif_box_data.get(0..4), exif_box_data.get(4..)) else
+    {
+        return io_error!(InvalidData, "EXIF box is too small!");
+    };
+
+    let offset = from_u8_vec_res_macro!(u32, offset_buffer, &Endian::Big)? as usize;
+
+    if exif_data.starts_with(&EXIF_HEADER)
+    {
+        return Ok(exif_data.to_vec());
+    }
+
+    return Ok(exif_data.get(offset..).unwrap_or(exif_data).to_vec());
+}
+
 fn
 generic_read_metadata
 <T: Seek + Read>
@@ -356,14 +381,10 @@ generic_read_metadata
         match type_buffer
         {
             EXIF => {
-                // Skip the next 4 bytes (which contain the minor version???)
-                cursor.seek(SeekFrom::Current(4))?;
-
-                // `length-4` because of the previous relative seek operation
-                let mut exif_buffer = new_buffer(cursor, length, 4)?;
+                let mut exif_buffer = new_buffer(cursor, length, 0)?;
                 cursor.read_exact(&mut exif_buffer)?;
 
-                return Ok(exif_buffer);
+                return skip_to_exif_data(&exif_buffer);
             },
 
             BROB_BOX => { // -> Brotli encoded data
@@ -389,13 +410,7 @@ generic_read_metadata
                         Err(e) => return Err(e)
                     };
 
-                    // Ignore the next 4 bytes (I guess for the same reason 
-                    // as above - some sort of minor version?)
-                    return match decompressed_exif_buffer.get(4..)
-                    {
-                        Some(exif_buffer) => Ok(exif_buffer.to_vec()),
-                        None              => io_error!(InvalidData, "Compressed EXIF box is too small!")
-                    };
+                    return skip_to_exif_data(&decompressed_exif_buffer);
                 }
                 else 
                 {
-- 
2.43.0


From 697f3db8f87021b3d0108d051542d5159afd8b22 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 36/49] fix: read HEIF box headers with 64 bit sizes and
 version in the right order

---
 src/heif/box_header.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 3ea282c..6c3d28b 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -109,15 +109,6 @@ BoxHeader
             flags:       None,
         };
 
-        if box_type.extends_fullbox()
-        {
-            header.version = Some(read_1_bytes(cursor)?[0]);
-            header.flags   = Some(read_3_bytes(cursor)?);
-
-            // Adjust header size information
-            header.header_size += 4;
-        }
-
         // Uses largesize box size
         if header.box_size == 1
         { 
@@ -153,6 +144,17 @@ BoxHeader
             header.header_size += 16;
         }
 
+        // Version and flags come after the (large) size and type
+        // See: ISO/IEC 14496-12:2015, § 4.2
+        if box_type.extends_fullbox()
+        {
+            header.version = Some(read_1_bytes(cursor)?[0]);
+            header.flags   = Some(read_3_bytes(cursor)?);
+
+            // Adjust header size information
+            header.header_size += 4;
+        }
+
         return Ok(header);
     }
 
@@ -253,16 +255,6 @@ BoxHeader
         // Serialize box type - Part 1
         serialized.extend(self.box_type.to_4_bytes());
 
-        // Serialize version and flags (if present)
-        if self.box_type.extends_fullbox()
-        {
-            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
-            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
-            {
-                serialized.push(flag);
-            }
-        }
-
         // Serialize box size - Part 2
         if self.largesize
         {
@@ -278,6 +270,16 @@ BoxHeader
             }
         }
 
+        // Serialize version and flags (if present)
+        if self.box_type.extends_fullbox()
+        {
+            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
+            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
+            {
+                serialized.push(flag);
+            }
+        }
+
         return serialized;
     }
 
-- 
2.43.0


From ee71e8d8b207192aa32fc1fbe41d530c5eb832ad Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 37/49] fix: find the EXIF item of HEIF files if it has a name
 or a 32 bit ID

---
 src/heif/boxes/item_info.rs     | 59 +++++++++++++++++++++++++++++----
 src/heif/boxes/item_location.rs |  4 +--
 src/heif/container.rs           |  6 ++--
 3 files changed, 58 insertions(+), 11 deletions(-)

diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 63ea6c5..0f9b215 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -13,6 +13,7 @@ use crate::util::read_be_u32;
 use crate::util::read_null_terminated_string;
 
 use crate::heif::box_header::BoxHeader;
+use crate::heif::box_type::BoxType;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
@@ -34,9 +35,11 @@ pub struct
 ItemInfoEntryBox
 {
     pub(self)  header:                BoxHeader,
-    pub(crate) item_id:               u16,
+    pub(crate) item_id:               u32,
+        // only if version == 3, if version < 3 this is u16
     pub(crate) item_protection_index: u16,
     pub(crate) item_name:             String,
+        // starts with the four characters of the item type if version >= 2
     pub(crate) additional_data:       Vec<u8>,
 }
 
@@ -69,13 +72,22 @@ ItemInfoEntryBox
     )
     -> Result<Self, std::io::Error>
     {
-        let item_id               = read_be_u16(cursor)?;
+        if header.get_box_type() != BoxType::infe
+        {
+            return io_error!(
+                InvalidData,
+                format!("Expected an infe box, found {:?}", header.get_box_type())
+            );
+        }
+
+        let item_id_size          = Self::get_item_id_size(&header);
+        let item_id               = if item_id_size == 4 { read_be_u32(cursor)? } else { read_be_u16(cursor)? as u32 };
         let item_protection_index = read_be_u16(cursor)?;
         let item_name             = read_null_terminated_string(cursor)?;
 
         // Determine how much data is left for this entry
         let data_read_so_far = header.get_header_size() 
-            + 2                           // item_id
+            + item_id_size                // item_id
             + 2                           // item_protection_index
             + item_name.len() as u64 + 1; // string len + null terminator
 
@@ -108,6 +120,34 @@ ItemInfoEntryBox
         });
     }
 
+    /// See: ISO/IEC 14496-12:2015, § 8.11.6.2
+    fn
+    get_item_id_size
+    (
+        header: &BoxHeader
+    )
+    -> u64
+    {
+        return if header.get_version() == 3 { 4 } else { 2 };
+    }
+
+    fn
+    is_exif
+    (
+        &self
+    )
+    -> bool
+    {
+        return if self.header.get_version() >= 2
+        {
+            // The item type, directly followed by the (often empty) name
+            self.item_name.starts_with("Exif")
+        }
+        else
+        {
+            self.item_name == "Exif"
+        }
+    }
 }
 
 impl
@@ -142,7 +182,7 @@ ItemInfoBox
     -> Option<&ItemInfoEntryBox>
     {
         return self.items.iter()
-            .find(|item| item.item_name == "Exif")
+            .find(|item| item.is_exif())
     }
 
     /// Creates a new item in this item information box and returns by how many
@@ -159,7 +199,7 @@ ItemInfoBox
         self.items.push(ItemInfoEntryBox 
             { 
                 header:                BoxHeader::new_exif_info_entry_box_header(), 
-                item_id:               iloc_id as u16, 
+                item_id:               iloc_id, 
                 item_protection_index: 0, 
                 item_name:             name.to_string(), 
                 additional_data:       Vec::new()
@@ -236,7 +276,14 @@ ItemInfoEntryBox
     {
         let mut serialized = self.header.serialize();
         
-        serialized.extend(to_u8_vec_macro!(u16, &self.item_id,               &Endian::Big).iter());
+        if ItemInfoEntryBox::get_item_id_size(&self.header) == 4
+        {
+            serialized.extend(to_u8_vec_macro!(u32, &self.item_id,          &Endian::Big).iter());
+        }
+        else
+        {
+            serialized.extend(to_u8_vec_macro!(u16, &(self.item_id as u16), &Endian::Big).iter());
+        }
         serialized.extend(to_u8_vec_macro!(u16, &self.item_protection_index, &Endian::Big).iter());
         serialized.extend(self.item_name.bytes());
         serialized.push(0x00); // null terminator for item name string
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index b49425a..d65d52e 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -352,12 +352,12 @@ ItemLocationBox
     get_item_location_entry
     (
         &self,
-        item_id: u16
+        item_id: u32
     )
     -> Result<&ItemLocationEntry, std::io::Error>
     {
         self.items.iter()
-            .find(|item| item.item_id == item_id as u32)
+            .find(|item| item.item_id == item_id)
             .ok_or(
                 io_error_plain!(
                     Other, 
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 5f17e97..950d5cf 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -137,7 +137,7 @@ HeifContainer
     (
         &self
     )
-    -> Result<u16, std::io::Error>
+    -> Result<u32, std::io::Error>
     {
         if let Ok(meta) = self.get_meta_box() 
         {
@@ -153,7 +153,7 @@ HeifContainer
     get_exif_data_pos_and_len
     (
         &self,
-        exif_item_id: u16,
+        exif_item_id: u32,
     )
     -> Result<(u64, u64), std::io::Error>
     {
@@ -441,7 +441,7 @@ HeifContainer
             // iloc item so that the exif area currently has a length of zero
 
             // Now we have a valid exif area with an iloc ID!
-            id = Ok(new_iloc_id as u16);
+            id = Ok(new_iloc_id);
         }
 
         // Get position and length of current exif area
-- 
2.43.0


From 7db1a6ef48d18b0a234c7f359e7da3531c60aa06 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 38/49] fix: keep data that follows the last readable box of
 HEIF files

---
 src/heif/container.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 950d5cf..8f0f8eb 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -25,7 +25,8 @@ use super::boxes::item_location::ItemLocationBox;
 pub struct
 HeifContainer
 {
-    boxes: Vec<Box<dyn GenericIsoBox>>
+    boxes:          Vec<Box<dyn GenericIsoBox>>,
+    remaining_data: Vec<u8> // whatever follows and can't be read as a box
 }
 
 // General structure of ISO container
@@ -82,14 +83,26 @@ HeifContainer
     )
     -> Result<Self, std::io::Error>
     {
-        let mut boxes = Vec::new();
+        let mut boxes          = Vec::new();
+        let mut remaining_data = Vec::new();
 
-        while let Ok(next_box) = read_next_box(cursor)
+        loop
         {
-            boxes.push(next_box);
+            let box_start = cursor.stream_position()?;
+
+            match read_next_box(cursor)
+            {
+                Ok(next_box) => boxes.push(next_box),
+                Err(_)       =>
+                {
+                    cursor.seek(std::io::SeekFrom::Start(box_start))?;
+                    cursor.read_to_end(&mut remaining_data)?;
+                    break;
+                }
+            }
         }
 
-        return Ok(Self { boxes })
+        return Ok(Self { boxes, remaining_data })
     }
 
     fn
@@ -599,6 +612,8 @@ HeifContainer
             written_bytes += serialized.len();
         }
 
+        cursor.get_mut().extend(&self.remaining_data);
+
         return Ok(());
     }
 
-- 
2.43.0


From 255e8c9faaa53d2000d4a5870315eae1a2078fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 39/49] fix: keep HEIF box types that are not valid UTF-8

---
 src/heif/box_header.rs | 4 ++--
 src/heif/box_type.rs   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 6c3d28b..351a7b9 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -63,7 +63,7 @@ BoxHeader
         {
             box_size:    8,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 8,
             version:     None,
             flags:       None,
@@ -79,7 +79,7 @@ BoxHeader
         {
             box_size:    12,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 12,
             version:     Some(0),
             flags:       Some([0, 0, 0]),
diff --git a/src/heif/box_type.rs b/src/heif/box_type.rs
index 951a1f4..7296d2b 100644
--- a/src/heif/box_type.rs
+++ b/src/heif/box_type.rs
@@ -92,7 +92,7 @@ BoxType
     hmhd,
     sthd,
     uuid    { usertype: [u8; 16] },
-    unknown { box_type: String }
+    unknown { box_type: [u8; 4] }
 }
 
 impl
@@ -194,7 +194,7 @@ BoxType
             "hmhd" => BoxType::hmhd,
             "sthd" => BoxType::sthd,
             "uuid" => BoxType::uuid { usertype: [0u8; 16] },
-            _      => BoxType::unknown { box_type: String::from(box_type_str) }
+            _      => BoxType::unknown { box_type: bytes }
         }
     }
 
@@ -293,7 +293,7 @@ BoxType
             BoxType::hmhd => "hmhd",
             BoxType::sthd => "sthd",
             BoxType::uuid { usertype: _ } => "uuid",
-            BoxType::unknown { box_type } => box_type
+            BoxType::unknown { box_type } => return box_type.to_vec()
         }.as_bytes().to_vec()
     }
 
-- 
2.43.0


From a2e73288dfc88220e0698b08f0a2726b2ab5073b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 40/49] fix: refuse HEIF item locations with invalid field
 sizes or construction method

---
 src/heif/boxes/item_location.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index d65d52e..1ee4e90 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -184,6 +184,11 @@ ItemLocationEntry
         (header.get_version() == 1) || (header.get_version() == 2)
         { read_be_u16(cursor)? } else { 0 };
 
+        if reserved_and_construction_method & 0x0f > 2
+        {
+            return io_error!(Other, "Unknown item construction method!".to_string());
+        }
+
         let data_reference_index = read_be_u16(cursor)?;
         let base_offset = match base_offset_size
         {
@@ -324,6 +329,15 @@ ItemLocationBox
             _     => return io_error!(Other, "Invalid version for ItemLocationBox decode!".to_string())
         };
 
+        // See: ISO/IEC 14496-12:2015, § 8.11.3.3
+        for size in [offset_size, length_size, base_offset_size, index_size]
+        {
+            if !matches!(size, 0 | 4 | 8)
+            {
+                return io_error!(Other, format!("Invalid size of a field of ItemLocationBox: {size}!"));
+            }
+        }
+
         let mut items = Vec::new();
         for _ in 0..item_count
         {
-- 
2.43.0


From 06db47aeee3b347d17545d3deda57cf542fa9745 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 41/49] fix: check the sizes of the iinf, iloc and iref boxes
 of HEIF files

---
 src/heif/boxes/item_reference.rs |  9 ++++++-
 src/heif/boxes/mod.rs            | 43 +++++++++++++++++++++++++++++---
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 3763c2f..239dc9f 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -144,7 +144,14 @@ ItemReferenceBox
                 &header
             )?;
 
-            bytes_read += next_reference.get_header().get_box_size();
+            let reference_size = next_reference.serialize().len() as u64;
+
+            if next_reference.get_header().get_box_size() != reference_size
+            {
+                return io_error!(InvalidData, "Size of an item reference does not match its content");
+            }
+
+            bytes_read += reference_size;
 
             references.push(next_reference);
         }
diff --git a/src/heif/boxes/mod.rs b/src/heif/boxes/mod.rs
index 72f14d9..9500d4a 100644
--- a/src/heif/boxes/mod.rs
+++ b/src/heif/boxes/mod.rs
@@ -1,9 +1,11 @@
 // Copyright © 2025 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
 
+use crate::general_file_io::io_error;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 
 use super::box_type::BoxType;
@@ -46,6 +48,41 @@ ParsableIsoBox: GenericIsoBox
 
 
 
+/// Reads a box that must neither be longer nor shorter than what its header
+/// says
+fn
+read_within_bounds
+<T: Seek + Read, B: ParsableIsoBox>
+(
+    cursor: &mut T,
+    header:  BoxHeader
+)
+-> Result<Box<dyn GenericIsoBox>, std::io::Error>
+{
+    let Some(content_size) = header.get_box_size().checked_sub(header.get_header_size()) else {
+        return io_error!(
+            InvalidData,
+            format!("Size of {:?} box is smaller than its header", header.get_box_type())
+        );
+    };
+
+    let mut content = Vec::new();
+    cursor.take(content_size).read_to_end(&mut content)?;
+
+    let mut content_cursor = Cursor::new(&content);
+    let     iso_box        = B::construct_from_cursor(&mut content_cursor, header)?;
+
+    if content_cursor.position() != content_size
+    {
+        return io_error!(
+            InvalidData,
+            format!("Size of {:?} box does not match its content", iso_box.get_header().get_box_type())
+        );
+    }
+
+    return Ok(iso_box);
+}
+
 pub(super) fn
 read_box_based_on_header
 <T: Seek + Read>
@@ -58,9 +95,9 @@ read_box_based_on_header
     return match header.get_box_type()
     {
         BoxType::meta => MetaBox::         construct_from_cursor(cursor, header),
-        BoxType::iinf => ItemInfoBox::     construct_from_cursor(cursor, header),
-        BoxType::iloc => ItemLocationBox:: construct_from_cursor(cursor, header),
-        BoxType::iref => ItemReferenceBox::construct_from_cursor(cursor, header),
+        BoxType::iinf => read_within_bounds::<T, ItemInfoBox>     (cursor, header),
+        BoxType::iloc => read_within_bounds::<T, ItemLocationBox> (cursor, header),
+        BoxType::iref => read_within_bounds::<T, ItemReferenceBox>(cursor, header),
         _             => IsoBox::         construct_from_cursor(cursor, header)
     };
 }
-- 
2.43.0


From 038914986fb262bbbefacccd1e71b394237bcece Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 42/49] fix: do not recurse into nested meta boxes of HEIF
 files

---
 src/heif/boxes/meta.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 1617bc6..33633f0 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -16,6 +16,7 @@ use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
+use crate::heif::boxes::iso::IsoBox;
 use crate::heif::boxes::item_info::ItemInfoBox;
 use crate::heif::boxes::item_location::ItemLocationBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
@@ -205,10 +206,15 @@ MetaBox
         while local_cursor.position() < remaining_bytes as u64
         {
             let sub_header = BoxHeader::read_box_header(&mut local_cursor)?;
-            let sub_box    = read_box_based_on_header(
-                &mut local_cursor, 
-                sub_header
-            )?;
+            let sub_box    = if sub_header.get_box_type() == BoxType::meta
+            {
+                // Don't recurse, as the depth would be up to the file
+                IsoBox::construct_from_cursor(&mut local_cursor, sub_header)?
+            }
+            else
+            {
+                read_box_based_on_header(&mut local_cursor, sub_header)?
+            };
 
             other_boxes.push(sub_box);
         }
-- 
2.43.0


From 16abde1504ac80581084f66600607f9f9446687c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 43/49] fix: check the location and header of EXIF data in HEIF
 files

---
 src/heif/container.rs | 49 +++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 8f0f8eb..a277c78 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -72,6 +72,27 @@ HeifContainer
 // ┃ mdat ┃ length64 ┃ data ... ┃
 // ┗━━━━━━┻━━━━━━━━━━┻━━━━━━━━━━┛
 
+/// Reads exactly the given number of bytes, allocating no more memory than 
+/// there is data
+fn
+read_area
+<T: Seek + Read>
+(
+    cursor: &mut T,
+    length: u64,
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    let mut area = Vec::new();
+
+    if cursor.take(length).read_to_end(&mut area)? as u64 != length
+    {
+        return io_error!(UnexpectedEof, "EXIF data is out of range");
+    }
+
+    return Ok(area);
+}
+
 impl
 HeifContainer
 {
@@ -186,8 +207,12 @@ HeifContainer
         {
             super::boxes::item_location::ItemConstructionMethod::FILE => {
                 if let Some(first) = exif_extents.first() {
+                    let Some(start) = first.extent_offset.checked_add(exif_item.base_offset) else {
+                        return io_error!(InvalidData, "Position of EXIF data is out of range");
+                    };
+
                     return Ok((
-                        first.extent_offset + exif_item.base_offset,
+                        start,
                         first.extent_length
                     ));
                 } else {
@@ -240,12 +265,12 @@ HeifContainer
         }
 
         // Read in the remaining bytes
-        let mut exif_buffer = vec![0u8; 
-            length as usize 
-            - 4                       // the 4 bytes that store the offset
-            - exif_tiff_header_offset // the actual offset
-        ];
-        cursor.read_exact(&mut exif_buffer)?;
+        let mut exif_buffer = read_area(
+            cursor,
+            length
+            - 4                              // the 4 bytes that store the offset
+            - exif_tiff_header_offset as u64 // the actual offset
+        )?;
 
         // Stick a EXIF_HEADER in the front
         let mut full_exif_data = EXIF_HEADER.to_vec();
@@ -286,16 +311,18 @@ HeifContainer
             cursor.seek(std::io::SeekFrom::Start(start))?;
 
             // Read in all of this area
-            let mut exif_buffer = vec![0u8; length as usize];
-            cursor.read_exact(&mut exif_buffer)?;
+            let exif_buffer = read_area(cursor, length)?;
 
             // Decode the first 4 bytes, which tells us where to cut off the old 
             // data and replace with the new one
-            let mut local_cursor            = Cursor::new(exif_buffer[0..4].to_vec());
+            let mut local_cursor            = Cursor::new(&exif_buffer);
             let     exif_tiff_header_offset = read_be_u32(&mut local_cursor)?;
 
             // Cut off data, starting at the old TIFF header and replace with new
-            new_exif_buffer = exif_buffer[0..exif_tiff_header_offset as usize + 4].to_vec();
+            let Some(old_header) = exif_buffer.get(0..exif_tiff_header_offset as usize + 4) else {
+                return io_error!(InvalidData, "Offset of TIFF header is out of range");
+            };
+            new_exif_buffer = old_header.to_vec();
         }
         else
         {
-- 
2.43.0


From 3f1d15fc713497f49cb7c89760c885c30f24ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 44/49] fix: keep the locations of HEIF items right when
 writing metadata

---
 src/heif/boxes/item_location.rs |  61 +++++++++++--
 src/heif/container.rs           | 147 +++++++++++---------------------
 2 files changed, 105 insertions(+), 103 deletions(-)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 1ee4e90..55237dc 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -431,15 +431,33 @@ ItemLocationBox
         );
     }
 
+    /// Updates the locations of all items as the data in the file at and after
+    /// the position `from` got moved by `delta` bytes, except for the given 
+    /// item
     pub(crate) fn
-    add_to_extents
+    move_data
     (
         &mut self,
-        value: i64
+        from:   u64,
+        delta:  i64,
+        except: Option<u32>
     )
+    -> Result<(), std::io::Error>
     {
+        let fits = |value: u64, size: u8| match size
+        {
+            0 => value == 0,
+            4 => value <= u32::MAX as u64,
+            _ => true
+        };
+
         for item in &mut self.items
         {
+            if Some(item.item_id) == except
+            {
+                continue;
+            }
+
             if item.get_construction_method() == ItemConstructionMethod::IDAT
             {
                 // In this case the offset information is relative to the
@@ -463,15 +481,44 @@ ItemLocationBox
                 continue;
             }
 
-            // For now, just add the value to the extent offsets. 
-            // This may be problematic in case the offset points to a location
-            // before the iloc or iinf boxes, so changing their length won't
-            // affect that offset value
+            let base_offset = item.base_offset;
+            let is_moved    = |extent: &ItemLocationEntryExtentEntry|
+                base_offset.saturating_add(extent.extent_offset) >= from;
+
+            // Modify the base offset, if there is one. However, we can only do
+            // that if all complete offsets point to moved data
+            if base_offset > 0 && item.extents.iter().all(is_moved)
+            {
+                if let Some(new_base_offset) = base_offset.checked_add_signed(delta)
+                {
+                    if fits(new_base_offset, self.base_offset_size)
+                    {
+                        item.base_offset = new_base_offset;
+                        continue;
+                    }
+                }
+            }
+
+            // At this point we have no option left but to modify all 
+            // individual extent offsets
             for extent in &mut item.extents
             {
-                extent.extent_offset = (extent.extent_offset as i64 + value) as u64;
+                if !is_moved(extent)
+                {
+                    continue;
+                }
+
+                match extent.extent_offset.checked_add_signed(delta)
+                {
+                    Some(new_offset) if fits(new_offset, self.offset_size)
+                        => extent.extent_offset = new_offset,
+                    _ 
+                        => return io_error!(Other, format!("New location of item {} can't be stored", item.item_id)),
+                }
             }
         }
+
+        return Ok(());
     }
 }
 
diff --git a/src/heif/container.rs b/src/heif/container.rs
index a277c78..973854d 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -8,7 +8,6 @@ use std::io::Seek;
 use crate::general_file_io::io_error;
 use crate::general_file_io::EXIF_HEADER;
 use crate::heif::box_type::BoxType;
-use crate::heif::boxes::item_location::ItemConstructionMethod;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 use crate::heif::boxes::meta::MetaBox;
 use crate::heif::read_next_box;
@@ -347,29 +346,29 @@ HeifContainer
     }
 
 
+    /// Gets the position of the first byte after the first box of this type
     fn
-    get_start_address_for_new_exif_area
+    get_end_of_first
     (
-        &self
+        &self,
+        box_type: BoxType
     )
-    -> u64
+    -> Result<u64, std::io::Error>
     {
-        // Assumes that the new exif area that gets created should start at the
-        // end of the mdat area
-
         let mut byte_count = 0;
 
         for b in &self.boxes
         {
-            byte_count += b.get_header().get_box_size();
+            // Not using the size in the header, which may be zero
+            byte_count += b.serialize().len() as u64;
 
-            if b.get_header().get_box_type() == BoxType::mdat
+            if b.get_header().get_box_type() == box_type
             {
-                return byte_count as u64;
+                return Ok(byte_count);
             }
         }
 
-        return u64::MAX;
+        return io_error!(Other, format!("No {:?} box found in HEIF container", box_type));
     }
 
 
@@ -398,7 +397,12 @@ HeifContainer
             //   image/iloc ID #1 -> is this always #1?
 
             // Where to put the new exif area
-            let new_exif_start = self.get_start_address_for_new_exif_area();
+            // Assumes that the new exif area that gets created should start at
+            // the end of the mdat area
+            let new_exif_start = self.get_end_of_first(BoxType::mdat)?;
+
+            // Everything after the meta box gets moved
+            let old_meta_end = self.get_end_of_first(BoxType::meta)?;
 
             // If there is no iref box yet, create one so we can find one,
             // and get the size delta of the new box for extents
@@ -452,7 +456,7 @@ HeifContainer
             // Note that the given `new_exif_start` value is based on old
             // length values (which change due to adding a new item to both the
             // iloc and iinf boxes) - but this does not matter as this will 
-            // be updated anyway later by `add_to_extents`
+            // be updated anyway later by `move_data`
             // This way, we don't need any exception during the update procedure
             let (new_iloc_id, iloc_size_delta) = iloc.create_new_item_location_entry(
                 new_exif_start,
@@ -468,10 +472,12 @@ HeifContainer
                 vec![1]             // TODO: Check if this is always item #1?
             );
 
-            // Fix the extents in the iloc box
-            iloc.add_to_extents(
-                (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64
-            );
+            // Fix the locations in the iloc box
+            iloc.move_data(
+                old_meta_end,
+                (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64,
+                None
+            )?;
 
             // Fix up the size of the meta box as well
             let new_box_size = self.get_meta_box()?.serialize().len() as u64;
@@ -499,85 +505,24 @@ HeifContainer
             metadata
         )?;
 
-        let meta_mut = self.get_meta_box_mut()?;
-        for item in &mut meta_mut.get_item_location_box_mut()?.items
-        {
-            // First, check if any extent of this item has the same offset as
-            // the old exif data area. In that case, there must be only one
-            // extent - other cases can't be handled right now
-            if item.extents.iter()
-                .any(|extent| {
-                    item.base_offset + extent.extent_offset == old_exif_pos
-                })
-            {
-                assert!(item.extents.len() == 1, "Expect to have exactly one extent info for EXIF!");
-
-                // In case of the EXIF extent information we need to update
-                // the length information, not the offset!
-                let first_extent = match item.extents.first() {
-                    Some(f) => f,
-                    None => return io_error!(Other, "Expected one extent for EXIF"),
-                };
-                let new_ext_len = (
-                    first_extent.extent_length as i64
-                    + delta
-                ) as u64;
-                match item.extents.first_mut() {
-                    Some(fm) => fm.extent_length = new_ext_len,
-                    None => return io_error!(Other, "Expected one extent for EXIF (mut)"),
-                }
-
-                 continue;
-            }
-
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
-            {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
-                continue;
-            }
-
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
-            {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
-                continue;
-            }
+        let Some(end_of_old_exif) = old_exif_pos.checked_add(old_exif_len) else {
+            return io_error!(InvalidData, "Location of EXIF data is out of range");
+        };
 
-            if item.data_reference_index != 0
-            {
-                // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
-                // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
-                continue;
-            }
+        let iloc = self.get_meta_box_mut()?.get_item_location_box_mut()?;
 
-            if item.base_offset > delta.unsigned_abs()
-            {
-                // Potentially modify the entire base offset 
-                // however, we can only do that if all complete offsets
-                // point to an area after the exif data area
-                // So we need to check that first:
-                if item.extents.iter()
-                    .all(|extent| {
-                        item.base_offset + extent.extent_offset >= old_exif_pos
-                    })
-                {
-                    item.base_offset = (item.base_offset as i64 + delta) as u64;
-                    continue;
-                }
-            }
+        // Update the locations of everything after the old exif data
+        iloc.move_data(end_of_old_exif, delta, id.as_ref().ok().copied())?;
 
-            // At this point we have no option left but to modify all 
-            // individual extent offsets
-            for extent in &mut item.extents
+        // In case of the EXIF extent information we need to update the length
+        // information, not the offset!
+        for item in &mut iloc.items
+        {
+            if id.as_ref().is_ok_and(|exif_id| item.item_id == *exif_id)
             {
-                let complete_offset = item.base_offset + extent.extent_offset;
-
-                if complete_offset > old_exif_pos
-                {
-                    extent.extent_offset = (extent.extent_offset as i64 + delta) as u64;
+                match item.extents.first_mut() {
+                    Some(fm) => fm.extent_length = new_exif_area.len() as u64,
+                    None => return io_error!(Other, "Expected one extent for EXIF (mut)"),
                 }
             }
         }
@@ -589,7 +534,7 @@ HeifContainer
 
         let mut written_bytes    = 0usize;
         let mut new_exif_written = false;
-        let     end_of_old_exif  = (old_exif_pos + old_exif_len) as usize;
+        let     end_of_old_exif  = end_of_old_exif as usize;
 
         for iso_box in &mut self.boxes
         {
@@ -607,9 +552,19 @@ HeifContainer
                 && 
                 !new_exif_written
             {
-                let new_size = (iso_box.get_header().get_box_size() as i64 + delta) as u64;
-                iso_box.get_header_mut().set_box_size(new_size);
-                serialized = iso_box.serialize();
+                if iso_box.get_header().get_box_type() == BoxType::meta
+                {
+                    return io_error!(Unsupported, "EXIF data inside of the meta box is currently not supported");
+                }
+
+                // A size of zero says that the box reaches to the end of the
+                // file, which stays that way
+                if iso_box.get_header().get_box_size() != 0
+                {
+                    let new_size = (iso_box.get_header().get_box_size() as i64 + delta) as u64;
+                    iso_box.get_header_mut().set_box_size(new_size);
+                    serialized = iso_box.serialize();
+                }
 
                 // Write the serialized box with the OLD exif data
                 cursor.get_mut().extend(&serialized);
-- 
2.43.0


From f6884f0c2d6f27d71ee2f8ffb08fe94e81489a0a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 45/49] fix: refuse to write if the EXIF data of a HEIF file is
 not inside of a box

---
 src/heif/container.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 973854d..4a65edb 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -552,6 +552,11 @@ HeifContainer
                 && 
                 !new_exif_written
             {
+                if old_exif_pos < written_bytes as u64 + iso_box.get_header().get_header_size()
+                {
+                    return io_error!(InvalidData, "EXIF data is not inside of a single box");
+                }
+
                 if iso_box.get_header().get_box_type() == BoxType::meta
                 {
                     return io_error!(Unsupported, "EXIF data inside of the meta box is currently not supported");
@@ -594,6 +599,11 @@ HeifContainer
             written_bytes += serialized.len();
         }
 
+        if !new_exif_written
+        {
+            return io_error!(InvalidData, "EXIF data is not inside of a box");
+        }
+
         cursor.get_mut().extend(&self.remaining_data);
 
         return Ok(());
-- 
2.43.0


From 03c6340e9734b2e6d40044629c0112065d3d823a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 46/49] fix: give the new EXIF item of HEIF files a free ID and
 a proper reference

---
 src/heif/boxes/item_location.rs | 36 +++++++++++++---------
 src/heif/boxes/meta.rs          | 54 ++++++++++++++++++++++++++++++---
 src/heif/container.rs           | 15 +++++----
 3 files changed, 79 insertions(+), 26 deletions(-)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 55237dc..ca0ba40 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -380,35 +380,44 @@ ItemLocationBox
             )
     }
 
-    // Returns the ID of the new entry and by how many bytes this box got longer
+    // Returns by how many bytes this box got longer
     pub(crate) fn
     create_new_item_location_entry
     (
         &mut self,
+        item_id:     u32,
         data_start:  u64,
         data_length: u64
     )
-    -> (u32, u64)
+    -> Result<u64, std::io::Error>
     {
-        // Determine largest iloc ID so far
-        let old_largest_id = self.items
-            .iter()
-            .map(|x| x.item_id)
-            .max()
-            .unwrap_or(0);
+        if self.length_size == 0 || (self.offset_size == 0 && self.base_offset_size == 0)
+        {
+            return io_error!(Unsupported, "The item location box can't store the location of new EXIF data");
+        }
+
+        // Without a field for it in the extents, the location goes to the base
+        let (base_offset, extent_offset) = if self.offset_size == 0
+        {
+            (data_start, 0)
+        }
+        else
+        {
+            (0, data_start)
+        };
 
         self.items.push(ItemLocationEntry 
             {
-                item_id:                          old_largest_id + 1, 
+                item_id, 
                 reserved_and_construction_method: 0, 
                 data_reference_index:             0, 
-                base_offset:                      0,
+                base_offset,
                 extent_count:                     1, 
                 extents:                          vec![
                     ItemLocationEntryExtentEntry 
                     {
                         extent_index:  Some(0),
-                        extent_offset: data_start,
+                        extent_offset,
                         extent_length: data_length,
                     }
                 ]
@@ -425,10 +434,7 @@ ItemLocationBox
         let new_box_size = self.serialize().len() as u64;
         self.header.set_box_size(new_box_size);
 
-        return (
-            self.items.last_mut().expect("No items present after insertion").item_id,
-            new_box_size - old_box_size
-        );
+        return Ok(new_box_size - old_box_size);
     }
 
     /// Updates the locations of all items as the data in the file at and after
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 33633f0..f8cfb10 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -109,6 +109,47 @@ MetaBox
         }
     }
 
+    /// Gets an ID that no item uses, be it with or without location
+    pub(crate) fn
+    get_unused_item_id
+    (
+        &self
+    )
+    -> Result<u32, std::io::Error>
+    {
+        let used_by_location = self.get_item_location_box()?.items.iter().map(|item| item.item_id);
+        let used_by_info     = self.get_item_info_box()?    .items.iter().map(|item| item.item_id);
+
+        return match used_by_location.chain(used_by_info).max()
+        {
+            None => Ok(1),
+            // The new item uses the format with 16 bit
+            Some(id) if id < u16::MAX as u32 => Ok(id + 1),
+            _ => io_error!(Unsupported, "No ID left for a new item")
+        };
+    }
+
+    /// See: ISO/IEC 14496-12:2015, § 8.11.4.2
+    pub(crate) fn
+    get_primary_item_id
+    (
+        &self
+    )
+    -> Option<u32>
+    {
+        let pitm    = self.other_boxes.iter().find(|b| b.get_header().get_box_type() == BoxType::pitm)?;
+        let content = pitm.serialize().split_off(pitm.get_header().get_header_size() as usize);
+
+        return if pitm.get_header().get_version() == 0
+        {
+            Some(u16::from_be_bytes(content.get(0..2)?.try_into().ok()?) as u32)
+        }
+        else
+        {
+            Some(u32::from_be_bytes(content.get(0..4)?.try_into().ok()?))
+        }
+    }
+
     pub(crate) fn
     get_item_reference_box
     (
@@ -129,24 +170,27 @@ MetaBox
     (
         &mut self
     )
-    -> u64
+    -> Result<u64, std::io::Error>
     {
         if self.get_item_reference_box().is_some()
         {
-            return 0;
+            return Ok(0);
         }
 
         let new_iref_box      = ItemReferenceBox::new();
         let new_iref_box_size = new_iref_box.get_header().get_box_size();
 
-        let index = self.other_boxes
+        let Some(index) = self.other_boxes
             .iter()
             .position(|x| x.get_header().get_box_type() == BoxType::iinf)
-            .expect("Could not find iinf box to insert iref before");
+        else
+        {
+            return io_error!(NotFound, "Could not find iinf box to insert iref before");
+        };
          
         self.other_boxes.insert(index, Box::new(new_iref_box));
 
-        return new_iref_box_size;
+        return Ok(new_iref_box_size);
     }
 }
 
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 4a65edb..807d658 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -394,7 +394,7 @@ HeifContainer
             // - Create an item information entry that tells us that the iloc 
             //   entry points to EXIF data
             // - Create an item reference entry that links the EXIF data to the
-            //   image/iloc ID #1 -> is this always #1?
+            //   primary image
 
             // Where to put the new exif area
             // Assumes that the new exif area that gets created should start at
@@ -406,7 +406,7 @@ HeifContainer
 
             // If there is no iref box yet, create one so we can find one,
             // and get the size delta of the new box for extents
-            let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet();
+            let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet()?;
 
             // Acquire the item location, the item information and the item 
             // reference boxes that are inside the meta box. For some reason, 
@@ -417,7 +417,9 @@ HeifContainer
             let mut iinf_opt = None;
             let mut iref_opt = None;
 
-            let meta_mut_ref = self.get_meta_box_mut()?;
+            let meta_mut_ref    = self.get_meta_box_mut()?;
+            let new_iloc_id     = meta_mut_ref.get_unused_item_id()?;
+            let primary_item_id = meta_mut_ref.get_primary_item_id().unwrap_or(1);
             for other_box in &mut meta_mut_ref.other_boxes
             {
                 if other_box.get_header().get_box_type() == BoxType::iloc
@@ -458,10 +460,11 @@ HeifContainer
             // iloc and iinf boxes) - but this does not matter as this will 
             // be updated anyway later by `move_data`
             // This way, we don't need any exception during the update procedure
-            let (new_iloc_id, iloc_size_delta) = iloc.create_new_item_location_entry(
+            let               iloc_size_delta  = iloc.create_new_item_location_entry(
+                new_iloc_id,
                 new_exif_start,
                 0
-            );
+            )?;
             let               iinf_size_delta  = iinf.create_new_item_info_entry(
                 new_iloc_id, 
                 "Exif"
@@ -469,7 +472,7 @@ HeifContainer
                               iref_size_delta += iref.create_new_single_item_reference_box(
                 "cdsc",             // TODO: Check if this is always this type?
                 new_iloc_id, 
-                vec![1]             // TODO: Check if this is always item #1?
+                vec![primary_item_id]
             );
 
             // Fix the locations in the iloc box
-- 
2.43.0


From 4633b69926584d378124e5d31841bb8327fa895e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 47/49] fix: allow clearing HEIF files without or with empty or
 broken EXIF data

---
 src/heif/container.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 807d658..4501cb7 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -333,10 +333,7 @@ HeifContainer
 
         // Append the encoded metadata to the old/newly created TIFF header and
         // compute the delta in length
-        if !metadata.get_ifds().is_empty()
-        {
-            new_exif_buffer.append(&mut metadata.encode()?);
-        }
+        new_exif_buffer.append(&mut metadata.encode()?);
         let delta = new_exif_buffer.len() as i64 - length as i64;
 
         return Ok((
@@ -633,13 +630,19 @@ HeifContainer
         // Note: It is up for debate whether keeping this information is wanted
         // or not/this should write a truly empty exif area
 
+        // Nothing to do if there is no exif data
+        if self.get_meta_box()?.get_item_info_box()?.get_exif_item().is_none()
+        {
+            return Ok(());
+        }
+
         // Create cursor
         let mut cursor = Cursor::new(file_buffer);
 
-        // Read original metadata
+        // Read original metadata, nothing of which can be kept if it is broken
         let orig_metadata = Metadata::general_decoding_wrapper(
             self.get_exif_data(&mut cursor)
-        )?;
+        ).unwrap_or_default();
 
         // Construct new metadata that only contains the above tags
         let mut new_metadata = Metadata::new();
-- 
2.43.0


From 1239e3b58ef7b6d8a02be1fd498a1be2e24f68da Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 48/49] fix: treat a read that returns less than asked for as
 incomplete, not as the end of the data

---
 src/filetype.rs  |  3 ++-
 src/jpg.rs       |  3 ++-
 src/jxl.rs       |  5 +++--
 src/png/mod.rs   |  3 ++-
 src/png/read.rs  |  3 ++-
 src/util.rs      | 41 +++++++++++++++++++++++++++++++++++------
 src/webp/file.rs | 17 +++++++++--------
 7 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/src/filetype.rs b/src/filetype.rs
index 6b1189a..3beeb05 100644
--- a/src/filetype.rs
+++ b/src/filetype.rs
@@ -9,6 +9,7 @@ use std::path::Path;
 use std::str::FromStr;
 
 use crate::general_file_io::*;
+use crate::util::read_available;
 
 #[derive(Clone, Copy, Debug, PartialEq)]
 #[allow(non_snake_case, non_camel_case_types)]
@@ -37,7 +38,7 @@ FileExtension
     {
         // Read first few bytes (32 bytes because I don't know any better)
         let mut buffer = [0; 32];
-        let Ok(n) = cursor.read(&mut buffer) else {
+        let Ok(n) = read_available(cursor, &mut buffer) else {
             return None;
         };
 
diff --git a/src/jpg.rs b/src/jpg.rs
index 7ece8c1..654561c 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -14,6 +14,7 @@ use crate::endian::Endian;
 use crate::metadata::Metadata;
 use crate::u8conversion::*;
 use crate::general_file_io::*;
+use crate::util::read_available;
 
 pub(crate) const JPG_SIGNATURE: [u8; 2] = [0xff, 0xd8];
 
@@ -77,7 +78,7 @@ file_check_signature
     
     // Read & check the signature
     let mut signature_buffer = [0u8; 2];
-    let bytes_read = file.read(&mut signature_buffer)?;
+    let bytes_read = read_available(&mut file, &mut signature_buffer)?;
 
     if bytes_read != 2
     {
diff --git a/src/jxl.rs b/src/jxl.rs
index a0c6def..78eefb1 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -15,6 +15,7 @@ use crate::u8conversion::*;
 use crate::general_file_io::*;
 use crate::util::insert_multiple_at;
 use crate::util::range_remove;
+use crate::util::read_available;
 
 pub(crate) const JXL_SIGNATURE:          [u8; 2]  = [0xff, 0x0a];
 pub(crate) const ISO_BMFF_JXL_SIGNATURE: [u8; 12] = [
@@ -111,7 +112,7 @@ file_check_signature
     let mut file = open_write_file(path)?;
 
     let mut signature_buffer = [0u8; 12];
-    let bytes_read = file.read(&mut signature_buffer)?;
+    let bytes_read = read_available(&mut file, &mut signature_buffer)?;
 
     if bytes_read != 12
     {
@@ -304,7 +305,7 @@ file_read_metadata
 
     // Read first 12 bytes and check that we have a ISO BMFF file
     let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
+    let     bytes_read     = read_available(&mut file, &mut first_12_bytes)?;
 
     if bytes_read != 12
     {
diff --git a/src/png/mod.rs b/src/png/mod.rs
index 9bbc6c2..dfb7e7f 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -39,6 +39,7 @@ use crate::png::text::get_keyword_from_text_chunk;
 
 use crate::xmp::remove_exif_from_xmp;
 use crate::util::range_remove;
+use crate::util::read_available;
 
 pub(crate) const PNG_SIGNATURE: [u8; 8] = [0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a];
 pub(crate) const RAW_PROFILE_TYPE_EXIF: [u8; 21] = [
@@ -101,7 +102,7 @@ file_check_signature
     
     // Read & check the signature
     let mut signature_buffer = [0u8; 8];
-    let     bytes_read       = file.read(&mut signature_buffer)?;
+    let     bytes_read       = read_available(&mut file, &mut signature_buffer)?;
 
     if bytes_read != 8
     {
diff --git a/src/png/read.rs b/src/png/read.rs
index 715c949..2988f09 100644
--- a/src/png/read.rs
+++ b/src/png/read.rs
@@ -5,6 +5,7 @@ use std::io::Read;
 use std::io::Seek;
 
 use crate::general_file_io::io_error;
+use crate::util::read_available;
 use crate::util::read_4_bytes;
 use crate::util::read_be_u32;
 
@@ -51,7 +52,7 @@ read_chunk_data
 -> Result<Vec<u8>, std::io::Error>
 {
     let mut chunk_data_buffer = vec![0u8; chunk_length];
-    let     bytes_read        = cursor.read(&mut chunk_data_buffer)?;
+    let     bytes_read        = read_available(cursor, &mut chunk_data_buffer)?;
     
     if bytes_read != chunk_length
     {
diff --git a/src/util.rs b/src/util.rs
index efade4c..dcf6b27 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -6,6 +6,35 @@ use std::io::Seek;
 
 use crate::general_file_io::io_error;
 
+/// Reads until the buffer is filled or the end of the data is reached. A single
+/// call of `read` may return fewer bytes than are available. Returns the number
+/// of bytes that have been read, which is only smaller than the length of the 
+/// buffer in case there is no further data.
+pub(crate) fn
+read_available
+<T: Read>
+(
+    cursor: &mut T,
+    buffer: &mut [u8]
+)
+-> Result<usize, std::io::Error>
+{
+    let mut bytes_read = 0;
+
+    while bytes_read < buffer.len()
+    {
+        match cursor.read(&mut buffer[bytes_read..])
+        {
+            Ok(0)  => break,
+            Ok(n)  => bytes_read += n,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e),
+        }
+    }
+
+    return Ok(bytes_read);
+}
+
 /// Reads in the next 1 bytes, starting at the current position of the cursor.
 /// The function call advances the cursor by 1 bytes.
 pub(crate) fn
@@ -18,7 +47,7 @@ read_1_bytes
 {
     // Read in the 1 bytes
     let mut field = [0u8; 1];
-    let bytes_read = cursor.read(&mut field)?;
+    let bytes_read = read_available(cursor, &mut field)?;
 
     // Check that indeed 1 bytes were read
     if bytes_read != 1
@@ -41,7 +70,7 @@ read_2_bytes
 {
     // Read in the 2 bytes
     let mut field = [0u8; 2];
-    let bytes_read = cursor.read(&mut field)?;
+    let bytes_read = read_available(cursor, &mut field)?;
 
     // Check that indeed 2 bytes were read
     if bytes_read != 2
@@ -64,7 +93,7 @@ read_3_bytes
 {
     // Read in the 3 bytes
     let mut field = [0u8; 3];
-    let bytes_read = cursor.read(&mut field)?;
+    let bytes_read = read_available(cursor, &mut field)?;
 
     // Check that indeed 3 bytes were read
     if bytes_read != 3
@@ -87,7 +116,7 @@ read_4_bytes
 {
     // Read in the 4 bytes
     let mut field = [0u8; 4];
-    let bytes_read = cursor.read(&mut field)?;
+    let bytes_read = read_available(cursor, &mut field)?;
 
     // Check that indeed 4 bytes were read
     if bytes_read != 4
@@ -110,7 +139,7 @@ read_8_bytes
 {
     // Read in the 8 bytes
     let mut field = [0u8; 8];
-    let bytes_read = cursor.read(&mut field)?;
+    let bytes_read = read_available(cursor, &mut field)?;
 
     // Check that indeed 8 bytes were read
     if bytes_read != 8
@@ -133,7 +162,7 @@ read_16_bytes
 {
     // Read in the 16 bytes
     let mut field = [0u8; 16];
-    let bytes_read = cursor.read(&mut field)?;
+    let bytes_read = read_available(cursor, &mut field)?;
 
     // Check that indeed 16 bytes were read
     if bytes_read != 16
diff --git a/src/webp/file.rs b/src/webp/file.rs
index c4ac25f..0e57791 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -12,6 +12,7 @@ use crate::endian::*;
 use crate::metadata::Metadata;
 use crate::u8conversion::*;
 use crate::general_file_io::*;
+use crate::util::read_available;
 use super::riff_chunk::RiffChunk;
 use super::riff_chunk::RiffChunkDescriptor;
 use super::*;
@@ -36,7 +37,7 @@ check_signature
 
     // Get the first 12 bytes that are required for the following checks
     let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
+    let     bytes_read     = read_available(&mut file, &mut first_12_bytes)?;
 
     if bytes_read != 12
     {
@@ -68,7 +69,7 @@ get_next_chunk
 {
     // Read the start of the chunk
     let mut chunk_start = [0u8; 8];
-    let mut bytes_read = file.read(&mut chunk_start)?;
+    let mut bytes_read = read_available(file, &mut chunk_start)?;
 
     // Check that indeed 8 bytes were read
     if bytes_read != 8
@@ -87,7 +88,7 @@ get_next_chunk
 
     // Read RIFF chunk data
     let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = file.read(&mut chunk_data_buffer)?;
+    bytes_read = read_available(file, &mut chunk_data_buffer)?;
     if bytes_read != chunk_length as usize
     {
         return io_error!(
@@ -239,7 +240,7 @@ check_exif_in_file
     let mut file = check_signature(path, false)?;
     let mut flag_buffer = vec![0u8; 4usize];
     file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
+    if read_available(&mut file, &mut flag_buffer)? != 4
     {
         return io_error!(Other, "Could not read flags of VP8X chunk!");
     }
@@ -281,7 +282,7 @@ read_metadata
     loop
     {
         // Read the chunk type into the buffer
-        if file.read(&mut header_buffer)? != 4
+        if read_available(&mut file, &mut header_buffer)? != 4
         {
             return io_error!(Other, "Could not read chunk type while traversing WebP file!");
         }
@@ -319,7 +320,7 @@ read_metadata
         {
             // Read the EXIF chunk's data into a buffer
             let mut payload_buffer = vec![0u8; chunk_size];
-            let     bytes_read     = file.read(&mut payload_buffer)?;
+            let     bytes_read     = read_available(&mut file, &mut payload_buffer)?;
 
             if bytes_read != chunk_size
             {
@@ -372,7 +373,7 @@ update_file_size_information
     let mut file_size_buffer = [0u8; 4];
 
     // ...converting it to u32 representation...
-    let bytes_read = file.read(&mut file_size_buffer)?;
+    let bytes_read = read_available(file, &mut file_size_buffer)?;
 
     if bytes_read != 4
     {
@@ -539,7 +540,7 @@ set_exif_flag
     // So, read in the flags and set the EXIF flag according to the given bool
     let mut flag_buffer = vec![0u8; 4usize];
     file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
+    if read_available(&mut file, &mut flag_buffer)? != 4
     {
         return io_error!(Other, "Could not read flags of VP8X chunk!");
     }
-- 
2.43.0


From ef370c76a1ce06631bf3063b263b91700d0d735e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 49/49] fix: write the complete VP8X chunk and remaining data
 when converting a WebP file

---
 src/webp/file.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 0e57791..e11928c 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -454,16 +454,10 @@ convert_to_extended_format
 
     // ...actually writing the VP8X chunk data...
     file.seek(SeekFrom::Start(12u64))?;
-    if file.write(&vp8x_chunk)? != vp8x_chunk.len()
-    {
-        return io_error!(Other, "Could not write entire VP8X chunk data!");
-    }
+    file.write_all(&vp8x_chunk)?;
 
     // ...and writing back the file contents
-    if file.write(&buffer)? != buffer.len()
-    {
-        return io_error!(Other, "Could not write back entire WebP file data!");
-    }
+    file.write_all(&buffer)?;
 
     // Finally, update the file size information
     update_file_size_information(file, 18)?;
-- 
2.43.0

