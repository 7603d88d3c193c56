From 53e8bc6bc276d0fca65e07f2238e92a58589dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 01/18] fix: renaming a global attribute to its current name
 does nothing

---
 src/data_set.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_set.rs b/src/data_set.rs
index 63014e2..7c1bee5 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1064,6 +1064,7 @@ impl DataSet {
         // Check that both names are different
         if old_attr_name == new_attr_name {
             // nothing to do
+            return Ok(());
         }
 
         // Check that the `old_attr_name` attribute has been defined
-- 
2.43.0


From 1b40998b2d2d5e9e292920e03c9af832507a2ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 02/18] fix: reject headers that define two variables with the
 same name

---
 src/io/file_reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 4f1fd0c..70005fe 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -40,7 +40,7 @@ use crate::{
     DataVector,
     Variable,
     Version,
-    error::ReadError,
+    error::{InvalidDataSet, ReadError},
     error::parse_header_error::{ParseHeaderError, ParseHeaderErrorKind, NomError},
     io::{compute_padding_size, Offset, ABSENT_TAG, DIMENSION_TAG, VARIABLE_TAG, ATTRIBUTE_TAG},
 };
@@ -559,6 +559,10 @@ impl FileReader {
         let mut record_var_begin_offsets: Vec<Offset> = vec![];  // used to computed the number of records if necessaray
         for var_info in var_info_list.iter() {
             let dim_refs: Vec<Rc<Dimension>> = data_set.get_dims_from_dim_ids(&var_info.dim_ids)?;
+            // Check that an other variable with the same name has not already been defined
+            if data_set.has_var(&var_info.name) {
+                return Err(InvalidDataSet::VariableAlreadyExists(var_info.name.clone()).into());
+            }
             // Create the variable the variable
             let var: &Variable = data_set.add_var_using_dim_refs(&var_info.name, dim_refs, var_info.data_type.clone())?;
             // Keep the `begin_offset` of the variable
-- 
2.43.0


From 4870a337236a8ceca378964437087e46dcec4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:46 +0000
Subject: [PATCH 03/18] fix: reject negative begin offsets

---
 src/io/file_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 70005fe..55b255d 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -816,12 +816,12 @@ impl FileReader {
         {
             match version {
                 Version::Classic => {
-                    be_i32(input).map(|(input, num_of_bytes): (&[u8], i32)| {
+                    verify(be_i32, |offset: &i32| *offset >= 0_i32)(input).map(|(input, num_of_bytes): (&[u8], i32)| {
                         (input, Offset::I32(num_of_bytes))
                     })
                 },
                 Version::Offset64Bit => {
-                    be_i64(input).map(|(input, num_of_bytes): (&[u8], i64)| {
+                    verify(be_i64, |offset: &i64| *offset >= 0_i64)(input).map(|(input, num_of_bytes): (&[u8], i64)| {
                         (input, Offset::I64(num_of_bytes))
                     })
                 },
-- 
2.43.0


From 6a74563a66a1ce711945914eb51613440bcf20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 04/18] fix: pad attribute values in the header with zero bytes

---
 src/io/file_writer.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 299c974..4bce229 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -27,10 +27,19 @@ use crate::{
     NC_FILL_F64,
 };
 
+/// Content of the padding bytes appended to a slice of values.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum Padding {
+    /// Zero bytes (in the header)
+    Zero,
+    /// The bytes of the fill value of the data type (in the data part)
+    Fill,
+}
+
 macro_rules! impl_write_typed_chunk {
     ($func_name:ident, $prim_type:ty, $nc_fill_value:ident) => {
         /// Write the `$prim_type` slice into the output stream.
-        fn $func_name<T: Write>(out_stream: &mut T, slice: &[$prim_type]) -> Result<usize, std::io::Error>
+        fn $func_name<T: Write>(out_stream: &mut T, slice: &[$prim_type], padding: Padding) -> Result<usize, std::io::Error>
         {
             // Write the useful bytes
             const SIZE_OF: usize = std::mem::size_of::<$prim_type>();
@@ -44,8 +53,11 @@ macro_rules! impl_write_typed_chunk {
             // Write the padding bytes if necessary
             let padding_size: usize = compute_padding_size(num_bytes);
             if padding_size > 0 {
-                let nc_fill_bytes: [u8; SIZE_OF] = $nc_fill_value.to_be_bytes();
-                let padding_bytes: Vec<u8> = nc_fill_bytes.to_vec().into_iter().cycle().take(padding_size).collect();
+                let pattern: [u8; SIZE_OF] = match padding {
+                    Padding::Zero => [0_u8; SIZE_OF],
+                    Padding::Fill => $nc_fill_value.to_be_bytes(),
+                };
+                let padding_bytes: Vec<u8> = pattern.to_vec().into_iter().cycle().take(padding_size).collect();
                 out_stream.write_all(&padding_bytes)?;
                 num_bytes += padding_size;
             }
@@ -74,7 +86,7 @@ macro_rules! impl_write_typed_var {
             match header_def.data_set.record_size() {
                 None => {  // fixed-size variable
                     self.output_file.seek(SeekFrom::Start(begin_offset))?;
-                    let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, data)?;
+                    let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, data, Padding::Fill)?;
                 },
                 Some(record_size) => {  // record variable
                     let num_chunks: usize = var.num_chunks();
@@ -86,7 +98,7 @@ macro_rules! impl_write_typed_var {
                         let chunk_slice: &[$prim_type] = &data[start..end];
                         let position: u64 = begin_offset + ((i * record_size) as u64);
                         self.output_file.seek(SeekFrom::Start(position))?;
-                        let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, chunk_slice)?;
+                        let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, chunk_slice, Padding::Fill)?;
                     }
                 }
             }
@@ -124,7 +136,7 @@ macro_rules! impl_write_typed_record {
             // Set the output cursor to the record offset
             let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64 + (record_size * record_index) as u64;
             self.output_file.seek(SeekFrom::Start(begin_offset))?;
-            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record)?;
+            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, Padding::Fill)?;
 
             // Save the written record
             self.update_written_records(var, &[record_index][..])?;
@@ -575,12 +587,12 @@ impl<'a> FileWriter<'a> {
             num_bytes += out_stream.write(&bytes)?;
             // The data of the attribute
             num_bytes += match &attr.data {
-                DataVector::I8(slice) => FileWriter::write_chunk_i8(out_stream, slice)?,
-                DataVector::U8(slice) => FileWriter::write_chunk_u8(out_stream, slice)?,
-                DataVector::I16(slice) => FileWriter::write_chunk_i16(out_stream, slice)?,
-                DataVector::I32(slice) => FileWriter::write_chunk_i32(out_stream, slice)?,
-                DataVector::F32(slice) => FileWriter::write_chunk_f32(out_stream, slice)?,
-                DataVector::F64(slice) => FileWriter::write_chunk_f64(out_stream, slice)?,
+                DataVector::I8(slice) => FileWriter::write_chunk_i8(out_stream, slice, Padding::Zero)?,
+                DataVector::U8(slice) => FileWriter::write_chunk_u8(out_stream, slice, Padding::Zero)?,
+                DataVector::I16(slice) => FileWriter::write_chunk_i16(out_stream, slice, Padding::Zero)?,
+                DataVector::I32(slice) => FileWriter::write_chunk_i32(out_stream, slice, Padding::Zero)?,
+                DataVector::F32(slice) => FileWriter::write_chunk_f32(out_stream, slice, Padding::Zero)?,
+                DataVector::F64(slice) => FileWriter::write_chunk_f64(out_stream, slice, Padding::Zero)?,
             };
 
             Ok(num_bytes)
-- 
2.43.0


From d5a19fa4fd2fd243e0ba8eb2dd30b4b2f38366a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 05/18] fix: identify the written variables by reference, not
 by value

Two variables compare unequal to themselves when one of their attributes
holds a NaN.
---
 src/io/file_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 4bce229..9664240 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -398,7 +398,7 @@ impl<'a> FileWriter<'a> {
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
-                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var == *var_2)
+                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let not_written_record: Vec<usize> = match written_records {
                     None => all_records.clone().into_iter().collect(),
@@ -465,7 +465,7 @@ impl<'a> FileWriter<'a> {
         let mut records_set: BTreeSet<usize> = records.iter().map(|index: &usize| index.clone()).collect();
         // Get already written records for the variable
         let ref mut written_records: Option<&mut BTreeSet<usize>> = self.written_records.iter_mut()
-            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var == *var_2)
+            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
             .map(|(_var_2, written_records): &mut (&'a Variable, BTreeSet<usize>)| written_records);
         // If at least one record has alredy been written
         if let Some(ref mut already_written_records_set) = written_records {
@@ -707,7 +707,7 @@ impl <'a> HeaderDefinition<'a> {
 
     fn get_var_metadata(&self, var: &'a Variable) -> Result<&ComputedVariableMetadata, WriteError> {
         self.data_set_metadata.vars_metadata.iter()
-            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var == *var_2)
+            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| std::ptr::eq(var, *var_2))
             .map(|(_var, var_metadata): &(&Variable,  ComputedVariableMetadata)| var_metadata)
             .ok_or(WriteError::Unexpected)
     }
-- 
2.43.0


From fd6a08d9929c34a63ae413437653a35436e2838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 06/18] fix: writing a variable after one of its records marks
 all its records as written

---
 src/io/file_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 9664240..dc14a3e 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -105,7 +105,8 @@ macro_rules! impl_write_typed_var {
 
             // Save the records already written
             let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            self.written_records.push((var, (0..num_records).collect()));
+            let written_records: Vec<usize> = (0..num_records).collect();
+            self.update_written_records(var, &written_records[..])?;
             Ok(())
         }
     };
-- 
2.43.0


From 49ef41ae647d7ccd3a887b4b26a8588ceb8436af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 07/18] fix: a fixed-size variable has one record whatever the
 unlimited dimension is

---
 src/io/file_reader.rs | 2 +-
 src/io/file_writer.rs | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 55b255d..645da50 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -470,7 +470,7 @@ impl FileReader {
         let (_var_index, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let num_records: usize = self.data_set.num_records().unwrap_or(1); // fixed-size variables haves exaclty one record
+        let num_records: usize = var.num_chunks(); // fixed-size variables haves exaclty one record
         if record_index >= num_records {
             return Err(ReadError::RecordIndexExceeded{index: record_index, num_records: num_records});
         }
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index dc14a3e..871a562 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -104,7 +104,7 @@ macro_rules! impl_write_typed_var {
             }
 
             // Save the records already written
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();
             let written_records: Vec<usize> = (0..num_records).collect();
             self.update_written_records(var, &written_records[..])?;
             Ok(())
@@ -122,7 +122,7 @@ macro_rules! impl_write_typed_record {
             if var.data_type != $data_type {
                 return Err(WriteError::VariableMismatchDataType{var_name: var_name.to_owned(), req:var.data_type(), get: $data_type});
             }
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();  // a fixed-size variable has exactly one record
             // Check the record index validity
             if record_index >= num_records {
                 return Err(WriteError::RecordIndexExceeded{index: record_index, num_records: num_records});
@@ -392,12 +392,11 @@ impl<'a> FileWriter<'a> {
             None => return Ok(()),
             Some(ref header_def) => header_def,
         };
-        let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-        let all_records: BTreeSet<usize> = (0..num_records).collect();
         let not_written_records: Vec<(&'a Variable, Vec<usize>)> = {
             let num_vars = header_def.data_set.vars.len();
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
+                let all_records: BTreeSet<usize> = (0..var.num_chunks()).collect();  // a fixed-size variable has exactly one record
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
                     .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
-- 
2.43.0


From d56187eca27be7d9093ade61bc1962ef02ea3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 08/18] fix: the sizes of a variable saturate instead of
 overflowing

A definition with huge dimensions is valid, also when it comes from a file.
---
 src/data_set.rs          | 2 +-
 src/data_set/variable.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/data_set.rs b/src/data_set.rs
index 7c1bee5..718baf6 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1198,7 +1198,7 @@ impl DataSet {
         else {
             let (record_vars, _fixed_size_vars): (Vec<&Variable>, Vec<&Variable>) = self.vars.iter().partition(|var: &&Variable| var.is_record_var());
             let record_size: usize = record_vars.into_iter().fold(0, |sum:usize , var: &Variable| {
-                sum + var.chunk_size()
+                sum.saturating_add(var.chunk_size())
             });
             Some(record_size)
         }
diff --git a/src/data_set/variable.rs b/src/data_set/variable.rs
index 1eb6ab9..4e869f2 100644
--- a/src/data_set/variable.rs
+++ b/src/data_set/variable.rs
@@ -177,7 +177,7 @@ impl Variable {
     ///
     /// If the variable is a record variable then `len = num_chunks * chunk_len`.
     pub fn len(&self) -> usize {
-        return self.num_chunks() * self.chunk_len();
+        return self.num_chunks().saturating_mul(self.chunk_len());
     }
 
     pub fn use_dim(&self, dim_name: &str) -> bool {
@@ -234,7 +234,7 @@ impl Variable {
     {
         let skip_len: usize = if self.is_record_var() { 1 } else { 0 };
         self.dims.iter().skip(skip_len).fold(1, |product, dim| {
-            product * dim.size()
+            product.saturating_mul(dim.size())
         })
     }
 
@@ -278,9 +278,9 @@ impl Variable {
     /// assert_eq!(8,           scalar_var_f64.chunk_size());
     /// ```
     pub fn chunk_size(&self) -> usize {
-        let mut chunk_size = self.chunk_len() * self.data_type.size_of();
+        let mut chunk_size = self.chunk_len().saturating_mul(self.data_type.size_of());
         // append the bytes of the zero padding, if necessary
-        chunk_size += compute_padding_size(chunk_size);
+        chunk_size = chunk_size.saturating_add(compute_padding_size(chunk_size));
         return chunk_size
     }
 
-- 
2.43.0


From cd43be98f40b0ef3d9164c8471833c44a6a002ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 09/18] fix: parse the header without allocating memory for the
 counts it claims

---
 src/io/file_reader.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 645da50..cb4d201 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -712,6 +712,13 @@ impl FileReader {
 
     fn parse_typed_data_elements(input: &[u8], num_of_elements: usize, data_type: DataType) -> Result<(&[u8], DataVector), ParseHeaderError>
     {
+        // Check that all the useful bytes are there before allocating the memory for them
+        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
+        if input.len() < num_of_bytes {
+            let num_of_needed_bytes: usize = data_type.size_of() - (input.len() % data_type.size_of());
+            return Err(ParseHeaderError::new(nom::Err::Incomplete(nom::Needed::new(num_of_needed_bytes)), ParseHeaderErrorKind::DataElements));
+        }
+
         // Parsed the useful data
         let (input, data_vector): (&[u8], DataVector) = match data_type {
             DataType::I8 => many_m_n(num_of_elements, num_of_elements, be_i8)(input).map(|(input, data): (&[u8], Vec<i8>)| (input, DataVector::I8(data))),
@@ -725,7 +732,6 @@ impl FileReader {
         })?;
 
         // Parse the zero padding bytes if necessary
-        let num_of_bytes: usize = data_type.size_of() * num_of_elements;
         let (input, _zero_padding_bytes): (&[u8], &[u8]) = FileReader::parse_zero_padding(input, compute_padding_size(num_of_bytes))?;
         Ok((input, data_vector))
     }
@@ -757,7 +763,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut dims_list: Vec<(String, usize)> = Vec::with_capacity(num_of_dims);
+        let mut dims_list: Vec<(String, usize)> = vec![];
         for _ in 0..num_of_dims{
             let (rem_input, dim): (&[u8], (String, usize)) = parse_dim(input)?;
             input = rem_input;
@@ -785,7 +791,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_attrs): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut attrs_list: Vec<(String, DataVector)> = Vec::with_capacity(num_of_attrs);
+        let mut attrs_list: Vec<(String, DataVector)> = vec![];
         for _ in 0..num_of_attrs
         {
             let (rem_input, attr): (&[u8], (String, DataVector)) = parse_attr(input)?;
@@ -803,7 +809,7 @@ impl FileReader {
                 // number of dimensions
                 let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                 // list of the dimension ids
-                let mut dim_ids_list: Vec<usize> = Vec::with_capacity(num_of_dims);
+                let mut dim_ids_list: Vec<usize> = vec![];
                 for _ in 0..num_of_dims {
                     let(rem_input, dim_id): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                     input = rem_input;
-- 
2.43.0


From 4a283730efb6d2245327cbb0ba8e4061fa0505ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 10/18] fix: report an error when the records would start after
 the end of the file

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index cb4d201..5f82c1a 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -607,7 +607,7 @@ impl FileReader {
                 else {
                     // Computation of the number of records
                     let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
-                    let all_records_size: usize = total_file_size - first_begin_offset; // the size allocated for all record data
+                    let all_records_size: usize = total_file_size.checked_sub(first_begin_offset).ok_or(ReadError::ComputationNumberOfRecords)?; // the size allocated for all record data
                     let record_size: usize = data_set.record_size().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
-- 
2.43.0


From 80a9c681267166bdf654d822cf45da4b1ccebed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 11/18] fix: reading data which is not in the file is an error
 before any allocation

---
 src/io/file_reader.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 5f82c1a..63c8252 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -410,10 +410,11 @@ impl FileReader {
             let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
             i64::from(var_info.begin_offset.clone()) as u64
         };
+        self.check_data_are_in_file(var, begin_offset, var.num_chunks(), record_size)?;
         let data_type: DataType = var.data_type();
         let chunk_len: usize = var.chunk_len();
         let padding_size: usize = {
-            let num_bytes: usize = chunk_len * data_type.size_of();
+            let num_bytes: usize = chunk_len.saturating_mul(data_type.size_of());
             compute_padding_size(num_bytes)
         };
         let ref mut input = self.input_file;
@@ -437,7 +438,7 @@ impl FileReader {
         else {
             let chunk_size: usize = var.chunk_size();
 
-            let offset_size: i64 = (record_size + padding_size - chunk_size) as i64;
+            let offset_size: i64 = (record_size - chunk_size + padding_size) as i64;
             for i in 0_usize..num_records
             {
                 // reader.seek(SeekFrom::)
@@ -477,7 +478,10 @@ impl FileReader {
 
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
-        let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64) + ((record_index * self.data_set.record_size().unwrap_or(0)) as u64);
+        let begin_offset: u64 = i64::from(var_info.begin_offset.clone()) as u64;
+        let record_size: usize = self.data_set.record_size().unwrap_or(0);
+        self.check_data_are_in_file(var, begin_offset, record_index + 1, record_size)?;
+        let record_offset: u64 = begin_offset + ((record_index * record_size) as u64);
         self.input_file.seek(SeekFrom::Start(record_offset))?;
 
         // Read the data
@@ -876,6 +880,26 @@ impl FileReader {
         Ok((input, vars_list))
     }
 
+    /// Checks that the file is large enough to contain the first `num_chunks` chunks of the variable.
+    ///
+    /// The sizes come from the header, which may be corrupted: nothing is allocated and no offset is computed before this check.
+    fn check_data_are_in_file(&self, var: &Variable, begin_offset: u64, num_chunks: usize, record_size: usize) -> Result<(), ReadError> {
+        if num_chunks == 0 {
+            return Ok(());
+        }
+        let file_size: u64 = self.input_file.metadata()?.len();
+        let data_end: Option<u64> = (num_chunks as u64 - 1).checked_mul(record_size as u64)
+            .and_then(|last_chunk_offset: u64| last_chunk_offset.checked_add(begin_offset))
+            .and_then(|last_chunk_begin: u64| {
+                let num_bytes: u64 = (var.chunk_len() as u64).checked_mul(var.data_type().size_of() as u64)?;
+                last_chunk_begin.checked_add(num_bytes)
+            });
+        match data_end {
+            Some(data_end) if data_end <= file_size => Ok(()),
+            _ => Err(ReadError::IOErrorKind(std::io::ErrorKind::UnexpectedEof)),
+        }
+    }
+
     fn find_var_info(&self, var_name: &str) -> Option<&VariableParsedMetadata> {
         self.vars_info.iter().find(|var_info| var_info.name == var_name)
     }
-- 
2.43.0


From 3d21bd18c9d2b54c09b4ae924d69e1b2830302f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 12/18] fix: write the whole header or report an error

Write::write may write a part of the bytes only.
---
 src/io/file_writer.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 871a562..a0fd987 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -1,7 +1,7 @@
 mod tests_file_writer;
 mod tests_computed_data_set_metadata;
 
-use std::io::{Write, Seek, SeekFrom};
+use std::io::{Read, Write, Seek, SeekFrom};
 use std::rc::Rc;
 use std::path::{Path, PathBuf};
 use std::convert::TryFrom;
@@ -478,12 +478,13 @@ impl<'a> FileWriter<'a> {
 
     fn write_header(&mut self) -> Result<usize, WriteError>{
         let header_def: &HeaderDefinition = self.header_def.as_ref().ok_or(WriteError::HeaderNotDefined)?;
-        self.output_file.seek(SeekFrom::Start(0))?;
+        // The header is first written in memory, where each write is complete
+        let mut header_bytes: Vec<u8> = vec![];
         let mut num_bytes = 0;
         // the magic word
-        num_bytes += self.output_file.write("CDF".as_bytes())?;
+        num_bytes += header_bytes.write("CDF".as_bytes())?;
         //the version number
-        num_bytes += self.output_file.write(&[header_def.version.clone() as u8])?;
+        num_bytes += header_bytes.write(&[header_def.version.clone() as u8])?;
         // the size of the *unlimited-size* dimension
         let num_records: u32 = match header_def.data_set.unlimited_dim.as_ref() {
             None => 0,  // No unlimited-size dim is defined
@@ -497,21 +498,22 @@ impl<'a> FileWriter<'a> {
             }
         };
         let bytes: [u8; 4] = num_records.to_be_bytes();
-        num_bytes += self.output_file.write(&bytes)?;
+        num_bytes += header_bytes.write(&bytes)?;
         // the list of the dimensions
-        num_bytes += FileWriter::write_dims_list(&mut self.output_file, &header_def.data_set.dims)?;
+        num_bytes += FileWriter::write_dims_list(&mut header_bytes, &header_def.data_set.dims)?;
         // the list of the global attributes
-        num_bytes += FileWriter::write_attrs_list(&mut self.output_file, &header_def.data_set.attrs)?;
+        num_bytes += FileWriter::write_attrs_list(&mut header_bytes, &header_def.data_set.attrs)?;
 
         // the list of the variables
         // -------------------------
         // compute the number of bytes *begin-offset* for each variable of the dataset
         let data_set_metadata: &ComputedDataSetMetadata = &header_def.data_set_metadata;
-        num_bytes += FileWriter::write_vars_list(&mut self.output_file, &data_set_metadata.vars_metadata)?;
+        num_bytes += FileWriter::write_vars_list(&mut header_bytes, &data_set_metadata.vars_metadata)?;
         let zero_padding_size: &usize = &data_set_metadata.header_zero_padding_size;
-        for _ in 0..*zero_padding_size {
-            num_bytes +=  self.output_file.write(&[0_u8])?;
-        }
+        // Then the header and its zero padding are written in the file
+        self.output_file.seek(SeekFrom::Start(0))?;
+        self.output_file.write_all(&header_bytes)?;
+        num_bytes += std::io::copy(&mut std::io::repeat(0_u8).take(*zero_padding_size as u64), &mut self.output_file)? as usize;
         Ok(num_bytes)
     }
 
-- 
2.43.0


From 0e15c42fe43645d9259e685e426abe6820900e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 13/18] fix: the records of the only record variable are stored
 without padding

---
 src/data_set.rs       | 15 +++++++++++++
 src/io/file_reader.rs | 11 +++++-----
 src/io/file_writer.rs | 51 +++++++++++++++++++++++++++++--------------
 3 files changed, 55 insertions(+), 22 deletions(-)

diff --git a/src/data_set.rs b/src/data_set.rs
index 718baf6..1bb3ac8 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1204,6 +1204,21 @@ impl DataSet {
         }
     }
 
+    /// Returns the number of bytes between the beginnings of two consecutive records in the file.
+    ///
+    /// This is the size of the records, except if only one record variable is defined :
+    /// its records are then stored without any padding byte.
+    ///
+    /// Returns `None` if the data set has not an *unlimited-size* dimension.
+    pub(crate) fn record_stride(&self) -> Option<usize>
+    {
+        let mut record_vars = self.vars.iter().filter(|var: &&Variable| var.is_record_var());
+        match (record_vars.next(), record_vars.next()) {
+            (Some(var), None) => Some(var.chunk_len().saturating_mul(var.data_type().size_of())),
+            _ => self.record_size(),
+        }
+    }
+
     /// Returns the number of records stored in data file.
     ///
     /// Returns `None` if the data set has not an *unlimited-size* dimension.
diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 63c8252..3984e1d 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -404,7 +404,7 @@ impl FileReader {
         let (_, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let record_size: usize = self.data_set.record_size().unwrap_or(0);
+        let record_size: usize = self.data_set.record_stride().unwrap_or(0);
         let num_records: usize = self.data_set.num_records().unwrap_or(0);
         let begin_offset: u64 = {
             let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
@@ -436,9 +436,8 @@ impl FileReader {
             }
         }
         else {
-            let chunk_size: usize = var.chunk_size();
-
-            let offset_size: i64 = (record_size - chunk_size + padding_size) as i64;
+            let chunk_size: usize = chunk_len.saturating_mul(var.data_type().size_of());  // without the padding bytes
+            let offset_size: i64 = (record_size - chunk_size) as i64;
             for i in 0_usize..num_records
             {
                 // reader.seek(SeekFrom::)
@@ -479,7 +478,7 @@ impl FileReader {
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
         let begin_offset: u64 = i64::from(var_info.begin_offset.clone()) as u64;
-        let record_size: usize = self.data_set.record_size().unwrap_or(0);
+        let record_size: usize = self.data_set.record_stride().unwrap_or(0);
         self.check_data_are_in_file(var, begin_offset, record_index + 1, record_size)?;
         let record_offset: u64 = begin_offset + ((record_index * record_size) as u64);
         self.input_file.seek(SeekFrom::Start(record_offset))?;
@@ -612,7 +611,7 @@ impl FileReader {
                     // Computation of the number of records
                     let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
                     let all_records_size: usize = total_file_size.checked_sub(first_begin_offset).ok_or(ReadError::ComputationNumberOfRecords)?; // the size allocated for all record data
-                    let record_size: usize = data_set.record_size().ok_or(ReadError::Unexpected)?;
+                    let record_size: usize = data_set.record_stride().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
                     }
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index a0fd987..32a0107 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -34,6 +34,8 @@ enum Padding {
     Zero,
     /// The bytes of the fill value of the data type (in the data part)
     Fill,
+    /// No padding bytes (in the data part, between the records of the only record variable)
+    None,
 }
 
 macro_rules! impl_write_typed_chunk {
@@ -51,10 +53,13 @@ macro_rules! impl_write_typed_chunk {
             let mut num_bytes: usize = slice.len() * std::mem::size_of::<$prim_type>();
 
             // Write the padding bytes if necessary
-            let padding_size: usize = compute_padding_size(num_bytes);
+            let padding_size: usize = match padding {
+                Padding::None => 0,
+                _ => compute_padding_size(num_bytes),
+            };
             if padding_size > 0 {
                 let pattern: [u8; SIZE_OF] = match padding {
-                    Padding::Zero => [0_u8; SIZE_OF],
+                    Padding::None | Padding::Zero => [0_u8; SIZE_OF],
                     Padding::Fill => $nc_fill_value.to_be_bytes(),
                 };
                 let padding_bytes: Vec<u8> = pattern.to_vec().into_iter().cycle().take(padding_size).collect();
@@ -83,10 +88,11 @@ macro_rules! impl_write_typed_var {
 
             // Write the `$prim_type` data
             let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64;
-            match header_def.data_set.record_size() {
+            let padding: Padding = header_def.get_var_padding(var);
+            match header_def.data_set.record_stride() {
                 None => {  // fixed-size variable
                     self.output_file.seek(SeekFrom::Start(begin_offset))?;
-                    let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, data, Padding::Fill)?;
+                    let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, data, padding)?;
                 },
                 Some(record_size) => {  // record variable
                     let num_chunks: usize = var.num_chunks();
@@ -98,7 +104,7 @@ macro_rules! impl_write_typed_var {
                         let chunk_slice: &[$prim_type] = &data[start..end];
                         let position: u64 = begin_offset + ((i * record_size) as u64);
                         self.output_file.seek(SeekFrom::Start(position))?;
-                        let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, chunk_slice, Padding::Fill)?;
+                        let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, chunk_slice, padding)?;
                     }
                 }
             }
@@ -132,12 +138,12 @@ macro_rules! impl_write_typed_record {
                 return Err(WriteError::RecordMismatchDataLength{var_name: var.name.clone(), req: var.chunk_len(), get: record.len()});
             }
             let var_metadata: &ComputedVariableMetadata = header_def.get_var_metadata(var)?;
-            let record_size: usize = header_def.data_set.record_size().unwrap_or(0);
+            let record_size: usize = header_def.data_set.record_stride().unwrap_or(0);
 
             // Set the output cursor to the record offset
             let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64 + (record_size * record_index) as u64;
             self.output_file.seek(SeekFrom::Start(begin_offset))?;
-            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, Padding::Fill)?;
+            let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, header_def.get_var_padding(var))?;
 
             // Save the written record
             self.update_written_records(var, &[record_index][..])?;
@@ -149,7 +155,7 @@ macro_rules! impl_write_typed_record {
 macro_rules! impl_write_typed_chunk_nc_fill {
     ($func_name: ident, $prim_type:ty, $nc_fill_value:path) => {
         /// Fill the output stream with the default value [`$nc_fill_value`](constant.$nc_fill_value.html).
-        fn $func_name<T: Write>(out_stream: &mut T, num_values: usize) -> Result<usize, std::io::Error>
+        fn $func_name<T: Write>(out_stream: &mut T, num_values: usize, padding: Padding) -> Result<usize, std::io::Error>
         {
             // Write the useful bytes
             const SIZE_OF: usize = std::mem::size_of::<$prim_type>();
@@ -160,7 +166,10 @@ macro_rules! impl_write_typed_chunk_nc_fill {
             let mut num_bytes: usize = num_values * std::mem::size_of::<$prim_type>();
 
             // Write the padding bytes if necessary
-            let padding_size: usize = compute_padding_size(num_bytes);
+            let padding_size: usize = match padding {
+                Padding::None => 0,
+                _ => compute_padding_size(num_bytes),
+            };
             if padding_size > 0 {
                 let nc_fill_bytes: [u8; SIZE_OF] = $nc_fill_value.to_be_bytes();
                 let padding_bytes: Vec<u8> = nc_fill_bytes.to_vec().into_iter().cycle().take(padding_size).collect();
@@ -409,22 +418,23 @@ impl<'a> FileWriter<'a> {
             not_written_records
         };
 
-        let record_size: usize = header_def.data_set.record_size().unwrap_or(0);
+        let record_size: usize = header_def.data_set.record_stride().unwrap_or(0);
         for (var, not_written_records) in not_written_records.into_iter() {
             // let num_chunks: usize = var.num_chunks();
             let chunk_len: usize = var.chunk_len();
+            let padding: Padding = header_def.get_var_padding(var);
             let var_metadata: &ComputedVariableMetadata = header_def.get_var_metadata(var)?;
             let begin_offset: usize = i64::from(var_metadata.begin_offset.clone()) as usize;
             for i in not_written_records.into_iter() {
                 let position: usize = begin_offset + (i * record_size);
                 self.output_file.seek(SeekFrom::Start(position as u64))?;
                 let _num_bytes: usize = match var.data_type() {
-                    DataType::I8 => FileWriter::write_chunk_nc_fill_i8(&mut self.output_file, chunk_len),
-                    DataType::U8 => FileWriter::write_chunk_nc_fill_u8(&mut self.output_file, chunk_len),
-                    DataType::I16 => FileWriter::write_chunk_nc_fill_i16(&mut self.output_file, chunk_len),
-                    DataType::I32 => FileWriter::write_chunk_nc_fill_i32(&mut self.output_file, chunk_len),
-                    DataType::F32 => FileWriter::write_chunk_nc_fill_f32(&mut self.output_file, chunk_len),
-                    DataType::F64 => FileWriter::write_chunk_nc_fill_f64(&mut self.output_file, chunk_len),
+                    DataType::I8 => FileWriter::write_chunk_nc_fill_i8(&mut self.output_file, chunk_len, padding),
+                    DataType::U8 => FileWriter::write_chunk_nc_fill_u8(&mut self.output_file, chunk_len, padding),
+                    DataType::I16 => FileWriter::write_chunk_nc_fill_i16(&mut self.output_file, chunk_len, padding),
+                    DataType::I32 => FileWriter::write_chunk_nc_fill_i32(&mut self.output_file, chunk_len, padding),
+                    DataType::F32 => FileWriter::write_chunk_nc_fill_f32(&mut self.output_file, chunk_len, padding),
+                    DataType::F64 => FileWriter::write_chunk_nc_fill_f64(&mut self.output_file, chunk_len, padding),
                 }?;
             }
         }
@@ -707,6 +717,15 @@ impl <'a> HeaderDefinition<'a> {
         })
     }
 
+    /// Returns the padding of each chunk of the variable.
+    ///
+    /// The records of a variable which is the only record variable of the data set are stored without padding bytes.
+    fn get_var_padding(&self, var: &Variable) -> Padding {
+        let is_only_record_var: bool = var.is_record_var()
+            && self.data_set.vars.iter().filter(|var_2: &&Variable| var_2.is_record_var()).count() == 1;
+        if is_only_record_var { Padding::None } else { Padding::Fill }
+    }
+
     fn get_var_metadata(&self, var: &'a Variable) -> Result<&ComputedVariableMetadata, WriteError> {
         self.data_set_metadata.vars_metadata.iter()
             .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| std::ptr::eq(var, *var_2))
-- 
2.43.0


From 09f1b93b870fd8201e8851ca16aaa37f81e20b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 14/18] fix: offsets beyond the limits of the file system are
 refused, never wrapped

---
 src/io/file_writer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 32a0107..7a0c30d 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -141,7 +141,9 @@ macro_rules! impl_write_typed_record {
             let record_size: usize = header_def.data_set.record_stride().unwrap_or(0);
 
             // Set the output cursor to the record offset
-            let begin_offset: u64 = i64::from(var_metadata.begin_offset.clone()) as u64 + (record_size * record_index) as u64;
+            let begin_offset: u64 = (record_size as u64).checked_mul(record_index as u64)
+                .and_then(|record_offset: u64| record_offset.checked_add(i64::from(var_metadata.begin_offset.clone()) as u64))
+                .ok_or(WriteError::IOErrorKind(std::io::ErrorKind::InvalidInput))?;
             self.output_file.seek(SeekFrom::Start(begin_offset))?;
             let _chunk_size: usize = $write_typed_chunk(&mut self.output_file, record, header_def.get_var_padding(var))?;
 
@@ -778,7 +780,7 @@ impl<'a> ComputedDataSetMetadata<'a> {
         let header_required_size: usize = ComputedDataSetMetadata::compute_header_required_size(data_set, version.clone());
         let header_size: usize = {
             let mut header_size: usize = std::cmp::max(header_min_size, header_required_size);
-            header_size += compute_padding_size(header_size);
+            header_size = header_size.saturating_add(compute_padding_size(header_size));
             header_size
         };
 
@@ -800,13 +802,14 @@ impl<'a> ComputedDataSetMetadata<'a> {
                                 Offset::I32(offset)
                             },
                             Version::Offset64Bit => {
-                                Offset::I64(begin_offset as i64)
+                                let offset: i64 = i64::try_from(begin_offset).map_err(|_err| WriteError::IOErrorKind(std::io::ErrorKind::InvalidInput))?;
+                                Offset::I64(offset)
                             }
                         },
                     }
                 )
             ));
-            begin_offset += chunk_size;
+            begin_offset = begin_offset.saturating_add(chunk_size);
         }
 
         // Retrieve the original position
-- 
2.43.0


From 04cb17bf4a8b0d199a027455286f20c7d51bd24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:36 +0000
Subject: [PATCH 15/18] fix: read the header completely when the system returns
 fewer bytes than requested

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 3984e1d..3a435f6 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -294,7 +294,7 @@ impl FileReader {
                 let start: &usize = &old_buf_start;
                 let end: &usize = &new_buf_size;
                 buffer.resize(new_buf_size, 0_u8);
-                let _num_of_bytes = input_file.read(&mut buffer[*start..*end])?;
+                input_file.read_exact(&mut buffer[*start..*end])?;
 
                 let parsing_result: Result<(DataSet, Version, Vec<VariableParsedMetadata>), ReadError>;
                 parsing_result = FileReader::parse_header(&buffer, file_size);
-- 
2.43.0


From b19a90b698be4e68d389fa280bd0351e07a45954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 16/18] fix: take the file size from the opened file, not from
 the path

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 3a435f6..af1acae 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -281,7 +281,7 @@ impl FileReader {
             path
         };
         let mut input_file = std::fs::File::open(input_file_path.clone())?;
-        let file_size: usize = std::fs::metadata(&input_file_path)?.len() as usize; 
+        let file_size: usize = input_file.metadata()?.len() as usize; // of the opened file, the path may already be another one
         
         // Parse the header
         let (data_set, version, vars_info): (DataSet, Version, Vec<VariableParsedMetadata>) = {
-- 
2.43.0


From 74a815aed42c158e2d3836c9383ab8a5612e3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 17/18] fix: refuse an attribute with more values than its
 32-bit count can hold

---
 src/io/file_writer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 7a0c30d..d931d65 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -812,6 +812,14 @@ impl<'a> ComputedDataSetMetadata<'a> {
             begin_offset = begin_offset.saturating_add(chunk_size);
         }
 
+        // The number of values of an attribute is stored as a non-negative 32-bit signed integer
+        let has_too_long_attr: bool = data_set.attrs.iter()
+            .chain(data_set.vars.iter().flat_map(|var: &Variable| var.attrs.iter()))
+            .any(|attr: &Attribute| attr.len() > (std::i32::MAX as usize));
+        if has_too_long_attr {
+            return Err(WriteError::IOErrorKind(std::io::ErrorKind::InvalidInput));
+        }
+
         // Retrieve the original position
         vars_metadata.sort_by_key(|(header_part_pos, (_var, _var_metadata)): &(usize, (&Variable, ComputedVariableMetadata))| *header_part_pos);
         // Remove the header positions of the variables
-- 
2.43.0


From 046a87be61b055498eead9ac18141d434746de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 18/18] fix: opening a file no longer re-parses the header
 every 1024 bytes

The read loop of FileReader::open restarts the parsing of the header from its
beginning each time it has read 1024 more bytes, so the time and the memory
requested grew with the square of the size of the header. The buffer is now
doubled instead.
---
 src/io/file_reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index af1acae..99dd20c 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -273,7 +273,7 @@ impl FileReader {
     /// Opens the file and parses the header of the NetCDF-3.
     pub fn open<P: AsRef<Path>>(input_file_path: P) -> Result<Self, ReadError>
     {
-        const BUFFER_SIZE: usize = 1024;
+        const MIN_BUFFER_SIZE: usize = 1024;
         // Open the file
         let input_file_path: PathBuf = {
             let mut path = PathBuf::new();
@@ -290,7 +290,8 @@ impl FileReader {
             loop {
                 // Load bytes
                 let old_buf_start: usize = buffer.len();
-                let new_buf_size: usize = std::cmp::min(buffer.len() + BUFFER_SIZE, file_size);
+                // (the buffer is doubled, since the parsing restarts from the beginning of the header)
+                let new_buf_size: usize = std::cmp::min(std::cmp::max(buffer.len().saturating_mul(2), MIN_BUFFER_SIZE), file_size);
                 let start: &usize = &old_buf_start;
                 let end: &usize = &new_buf_size;
                 buffer.resize(new_buf_size, 0_u8);
-- 
2.43.0

