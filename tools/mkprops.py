#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is the list below)."""
import json, os
W="src/io/file_writer.rs"; R="src/io/file_reader.rs"; D="src/data_set.rs"; V="src/data_set/variable.rs"
A="src/data_set/attribute.rs"; M="src/data_set/dimension.rs"; N="src/name_string.rs"; DV="src/data_vector.rs"; IO="src/io.rs"; E="src/error.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Write then read round trip is lossless",
  "For every valid data set definition, file version and header size, and any complete data, a file written with the file writer and closed successfully is opened by the file reader and yields the same version, the same dimensions, attributes and variables in the same order with the same types and values, and bit-identical data for every variable. This holds for every element type, every bit pattern (NaN included), zero-length attributes, zero records and scalar variables.",
  ["inputs","configurations"],"all data set definitions x versions x header_min_size x data values",
  "Tests round-trip a handful of fixed data sets with hand-chosen attributes whose padding is always trivial; the combinations of type, length modulo 4, record structure and float bit patterns are unbounded.",
  [W,R,D],[("FileWriter::set_def/write_header","%s"%W),("FileReader::open/parse_header",R),("write_var/read_var macros",W)],
  ["FileReader::open(..).data_set()","FileReader::read_var"],
  [("header_def","definition used for all offsets",W)])
p("C02","Written files are byte-exact NetCDF-3",
  "The bytes of a closed file are exactly the NetCDF-3 (classic or 64-bit offset) encoding of the definition and data: big-endian fields, correct tags, counts, dimension ids, type codes, vsize and begin offsets, zero-padded header strings and attribute values, fixed-size variables first in definition order followed by interleaved records, each slab padded to four bytes with the type's fill value. When a data set has exactly one record variable and its type is one or two bytes wide, its records are stored without padding between them, as the format requires.",
  ["inputs","configurations"],"all data set definitions x versions x data",
  "The tests compare bytes with netCDF4 output for seven fixed files; they never vary padding, attribute types/lengths, variable order, or the lone-record-variable rule.",
  [W,IO],[("write_header, write_attrs_list, write_vars_list",W),("ComputedDataSetMetadata::new",W),("compute_padding_size",IO)],
  ["bytes of the file after FileWriter::close"])
p("C03","Any conforming NetCDF-3 file is read correctly",
  "Every well-formed NetCDF-3 file produced by any writer is opened, and its version, definition and data are returned exactly as the format specification defines them. This must not depend on where the variables' data begin in the file (gaps, any placement order), on the content of padding or gap bytes in the data part, on the redundant vsize field, or on trailing bytes after the data.",
  ["inputs","configurations"],"all conforming files, including layouts this library would never write",
  "Reader tests use a few files from one producer with one layout; alternative legal layouts are not exercised.",
  [R,D],[("FileReader::parse_header",R),("read_var, read_record stride computation",R)],
  ["FileReader::data_set, version, read_var, read_record, read_all_vars"])
p("C04","Last write wins and the rest is fill value",
  "For any history of whole-variable and single-record writes in any order, with repetitions and omissions, after a successful close every element holds the value of the last successful write that covered it, and every element never written holds the default fill value of its type. Writing or filling one variable never alters another variable, and the result does not depend on how the same values were split between calls.",
  ["histories","inputs"],"all sequences of write_var/write_record calls before close, over all data sets",
  "Tests write each variable or record at most once, in ascending order, in data sets whose variables are all record variables.",
  [W],[("written_records bookkeeping",W),("FileWriter::close fill loop",W),("impl_write_typed_var / impl_write_typed_record",W)],
  ["FileReader::read_var after close","raw file bytes"],
  [("written_records","records already written per variable",W)])
p("C05","Rejected writer calls report why and change nothing",
  "A writer call that is not allowed in the current state (any write before the definition is set, a second definition, an unknown variable, a wrong type, a wrong length, a record index outside the variable's records) returns an error naming a condition that actually holds, changes neither the file nor the writer's reported state, and does not affect the outcome of the remaining calls. A fixed-size variable has exactly one record, index 0, whatever the unlimited dimension is.",
  ["histories","inputs"],"all histories mixing valid and invalid calls",
  "Error tests call each wrong function once on a fresh writer with one definition and do not look at the file or at later calls.",
  [W,E],[("argument checks in write macros",W),("set_def HeaderAlreadyDefined",W)],
  ["returned WriteError","file bytes before/after","header_is_defined, data_set, version, header_min_size"])
p("C06","Dimension and variable definitions follow the model",
  "After any sequence of add, rename and remove operations on dimensions and variables, every query on the data set (counts, lists and their order, presence, sizes, types, dimension lists, record status) agrees with the sequence of operations that succeeded. Renaming a dimension is visible through every variable that uses it, a dimension in use cannot be removed, and at most one unlimited dimension exists at any time and can only be a variable's first dimension.",
  ["histories"],"all operation sequences on one data set",
  "Tests run short fixed scripts; interactions (rename then remove then re-add, removal between variables, unlimited removed and re-created) are combinatorial.",
  [D,V,M],[("DataSet::add_fixed_dim/set_unlimited_dim/remove_dim/rename_dim",D),("add_var/rename_var/remove_var",D),("Variable::check_dims_validity",V)],
  ["DataSet getters","Variable getters","Dimension getters"],
  [("dims/vars/unlimited_dim","shared Rc dimensions",D)])
p("C07","Attribute definitions follow the model",
  "After any sequence of add, rename and remove operations on global attributes and on the attributes of several variables, every query (counts, order, presence, type, length, typed value, string value) agrees with the operations that succeeded, for the attribute named and the owner named, and for no other. The data set level and variable level entry points are equivalent, and attributes follow their variable when it is renamed and disappear with it when it is removed.",
  ["histories","inputs"],"all operation sequences over global and per-variable attributes",
  "Tests add one attribute per type and check it immediately; they do not interleave owners, renames and removals.",
  [D,V,A],[("add_global_attr_*/rename_global_attr/remove_global_attr",D),("Variable::add_attr/rename_attr/remove_attr",V)],
  ["DataSet and Variable attribute getters"])
p("C08","Name rule is exactly the NetCDF-3 naming rule",
  "A string is accepted as a name if and only if it is 1 to 256 bytes of UTF-8 whose first character is an ASCII letter, digit or underscore or any non-ASCII character, and whose other characters are any except ASCII control characters, DEL and '/'. The same verdict applies to dimension, variable, global attribute and variable attribute names, on creation, on renaming and on reading a file.",
  ["inputs"],"all strings",
  "Tests list about forty names; the rule quantifies over all Unicode strings and all entry points.",
  [N,D,V,M,A],[("is_valid_name",N),("check_dim_name / check_var_name / check_attr_name",M)],
  ["is_valid_name","add_*/rename_* results","FileReader::open result"])
p("C09","Reported sizes follow the definition",
  "For every definition a variable's chunk length is the product of its fixed dimension sizes, its number of chunks is the number of records (one for fixed-size variables), its length is their product, its chunk size is the chunk bytes rounded up to four, and the record size is the sum over record variables. These values stay right after any definition change and never panic, whatever the dimension sizes.",
  ["inputs","histories"],"all shapes and types including products beyond the machine word",
  "Tests check a few small shapes.",
  [V,D,IO],[("chunk_len, chunk_size, num_chunks, len",V),("record_size, num_records",D),("compute_padding_size",IO)],
  ["Variable::len/chunk_len/chunk_size/num_chunks","DataSet::record_size/num_records/var_len"])
p("C10","Arbitrary bytes never crash the reader",
  "Opening any file content whatsoever, and then reading any variable or record of what was opened, always returns a value or an error: it never panics, aborts or loops, and never requests memory out of proportion to the size of the file, neither in one request nor, while opening, in all requests together. What is not in the file is not read, whatever the sizes in the header multiply to. ",
  ["inputs"],"all byte strings as file content, all subsequent read calls",
  "Tests parse truncations of one file; corrupted counts, sizes, offsets and dimension products are not sampled.",
  [R,D,V],[("parse_* functions with counted lists",R),("read_var allocation",R),("computation of the number of records",R)],
  ["result of FileReader::open/read_*","panics","allocation requests"])
p("C11","A truncated file never yields wrong data",
  "For every valid file and every cut point, if the cut is inside the header the file is rejected with an error that says the header is incomplete, and if the cut is after the header the definition is read unchanged. Each variable and record then either reads back exactly as in the full file or returns an error, and it reads back exactly whenever all of its own data bytes precede the cut.",
  ["inputs","crash_points"],"all files x all truncation points",
  "One test truncates one header; data truncation is never tested.",
  [R,"src/error/parse_header_error.rs"],[("streaming parse loop in open",R),("ReadError::header_is_incomplete",E),("read_exact in read_var/read_record",R)],
  ["FileReader::open error","read_var/read_record results"])
p("C12","Every way of reading returns the same data",
  "For any open file and any sequence of read calls, whole-variable reads, typed reads, record reads and the read of all variables agree with each other and with the stored data, independently of what was read (or failed) before. Asking for an unknown variable, another type or a record index outside the variable's records returns the corresponding error; a fixed-size variable has exactly one record.",
  ["histories","inputs"],"all read sequences over all files",
  "Tests read each variable once in file order through one entry point.",
  [R],[("read_var, read_record seek logic",R),("impl_read_typed_var / impl_read_typed_record",R)],
  ["FileReader::read_*"],[("input_file cursor","shared file position",R)])
p("C13","Indeterminate record count is derived from the file",
  "When the header says the number of records is indeterminate, the reader reports the number of whole records that the data part holds according to the file size and record layout, and then reads them exactly as if the count had been stored. It reports zero records when no variable uses the unlimited dimension, and an error when the data part is not a whole number of records or is missing. A stored count is reported and used as it is, zero included, whatever the file holds after those records.",
  ["inputs","configurations"],"all definitions x numbers of records x file sizes",
  "One fixed file with two records is tested.",
  [R,D],[("computation of num_records in parse_header",R),("parse_as_usize_optional",R)],
  ["DataSet::num_records after open","FileReader::open error"])
p("C14","Large sizes and offsets are encoded or refused, never wrapped",
  "The classic version is refused, with the dedicated error and without touching the file or the writer, exactly when a variable would begin beyond 2^31-1, while the 64-bit offset version encodes those offsets exactly; after a refusal the same writer accepts another definition. A chunk size or record count above 2^31-1 is written as 2^32-1, and data stored beyond 2 GiB and 4 GiB are written and read at their exact position. An attribute with more than 2^31-1 values cannot be encoded and is refused.",
  ["inputs","configurations"],"all definitions with sizes up to the format limits, both versions",
  "No test uses an offset above a few kilobytes.",
  [W,R,V],[("begin_offset computation",W),("vsize and numrecs capping",W),("seek positions in reads and writes",R)],
  ["FileWriter::set_def result","header bytes","data bytes in a sparse file"])
p("C15","A write that fails is reported",
  "If the operating system refuses or shortens a write at any byte of the file, some writer call returns that I/O error: when every call including close succeeded, the complete and correct file is on disk. A refused data write damages nothing but the elements it was to write, and when the call is repeated successfully it leaves no trace in the closed file. When no write is refused every valid call succeeds.",
  ["fault_sequences","histories","inputs"],"all definitions x write histories x byte positions at which the device is full",
  "No test injects a write fault.",
  [W],[("? on every write in write_header, write_chunk_*, close",W)],
  ["results of set_def, write_*, close","file bytes"])
p("C16","Creation modes protect or replace files as documented",
  "Creating a new file fails with an error if the path already exists and then leaves the existing file untouched, whereas opening for writing succeeds and replaces the previous content completely, so that the result is independent of what the file contained. Both report the path, and opening a missing file or directory for reading returns the I/O error kind without creating anything. All this holds however the path is spelled; reading needs no more than read permission and shows what the file now contains, also where another file was read at the same path before; creation that is not permitted is refused with the I/O error kind and changes nothing.",
  ["inputs","configurations","histories"],"all previous contents x definitions x modes",
  "Two tests open empty files and never look at the previous or resulting content.",
  [W,R],[("FileWriter::open / create_new OpenOptions",W),("FileReader::open",R)],
  ["file system content","returned errors","file_path"])
p("C17","Typed access matches the stored type only",
  "For every data vector and every attribute, exactly the accessor of the stored type returns the values, unchanged, and every other accessor returns nothing; consuming accessors return the original vector or give the unchanged container back. Reported type and length match the content, and the string form exists exactly when the data are bytes holding valid UTF-8. Type codes and version numbers convert to the types and versions of the format and back, and all others are refused.",
  ["inputs"],"all values of all six types",
  "Tests use one short vector per type.",
  [DV,A,D,V],[("DataVector::get_* / get_*_into",DV),("Attribute getters",A)],
  ["DataVector, Attribute, Variable and DataSet typed getters"])
p("C18","Rewriting a read file reproduces it",
  "Reading a file in the canonical layout and writing the obtained data set and data with the same version reproduces the file byte for byte, and doing so repeatedly never changes it. Writing with the other version and reading back yields the same definition and data.",
  ["inputs","histories"],"all canonical files, repeated rewrites",
  "One rewritten file per version is compared in the tests.",
  [W,R,D],[("FileReader::close returning the data set",R),("FileWriter::set_def",W)],
  ["bytes of the rewritten file"])
p("C19","Malformed headers are rejected, accepted ones are valid",
  "A file is accepted only if its header conforms to the NetCDF-3 grammar and describes a legal data set: known magic, version, tags and type codes, non-negative counts, zero padding, valid UTF-8 names, unique names per scope, existing dimension ids used once each, at most one unlimited dimension, used first. Every header that conforms is accepted and every one that does not is rejected with an error.",
  ["inputs"],"all headers, conforming or with any combination of defects",
  "Tests feed a few malformed fragments to individual parsing functions, not whole files.",
  [R,D,V],[("parse_* functions",R),("DataSet::add_* called by parse_header",D)],
  ["FileReader::open result and data_set"])
p("C20","The requested header space is honoured",
  "The data part begins at the larger of the encoded header size and the requested minimum header size, rounded up to four, the space in between is filled with zero bytes, and the definition and data read back are the same for every requested size. ",
  ["inputs","configurations"],"all definitions x requested header sizes",
  "One doc example checks two sizes on an empty data set.",
  [W],[("header_size computation and zero padding",W),("compute_header_required_size",W)],
  ["raw bytes, begin offsets, FileReader results"])
p("C21","Dropping a writer without closing keeps what was written",
  "If a writer is dropped without being closed at any point after the definition was set successfully, the file still opens with the complete definition, and every variable record written before reads back exactly unless overwritten later; no written data is damaged by the missing close. Before the definition is set the file is empty and is rejected as incomplete by the reader.",
  ["crash_points","histories"],"all histories x all points at which the writer is abandoned",
  "Every test closes its writer.",
  [W,R],[("direct writes at computed offsets",W)],
  ["FileReader::open and read_record on the abandoned file"])
p("C22","A rejected definition change leaves the data set unchanged",
  "Any definition operation that returns an error returns one that names a condition that actually holds, with the offending names, and leaves every observable part of the data set exactly as it was. Renaming something to its current name succeeds and changes nothing.",
  ["histories","inputs"],"all states x all invalid operations",
  "Error tests check the error value on one state and a few getters afterwards.",
  [D,V,M,A,E],[("checks preceding every mutation",D),("InvalidDataSet variants",E)],
  ["returned InvalidDataSet","full snapshot of the data set before/after"])
p("C23","Independent readers and writers do not interfere",
  "Any interleaving of calls on several writers, readers and data sets that use different files gives each of them exactly the results and file content it would have had alone, and several readers of one file do not disturb each other. This holds in one thread and when each thread uses its own.",
  ["schedules","histories"],"all interleavings of calls over several handles",
  "Tests use one handle at a time.",
  [W,R],[("per-handle file cursor and bookkeeping",W)],
  ["per-handle results and file bytes"])
p("C24","Disturbed reads and replaced files never give a wrong answer",
  "Opening and reading give the same answers when the operating system returns fewer bytes per read than asked for or interrupts reads. When it refuses a read, seek or status call, at most the call concerned fails, with that I/O error, nothing wrong is returned, and later reads on the same reader are right. When the file is replaced under its path while it is opened or read, everything the reader answers is that of one of the two files, never a mixture.",
  ["fault_sequences","histories"],"all files and read sequences x every system call of the session shortened, interrupted, refused, ended early or preceded by a replacement of the file",
  "Tests read small files from a local disk, where each read returns everything and nothing fails.",
  [R],[("FileReader::open reading the header piecewise",R),("read_var/read_record seek and read",R)],
  ["results of FileReader::open, data_set, read_var, read_record, read_all_vars under disturbed system calls"])
p("C25","Equality is equality of content, copies are independent",
  "Two data sets, variables, attributes, dimensions or data vectors compare equal exactly when their observable content is the same (names, order, types, sizes, dimension lists, values), however they came to be: built directly, through temporary names and removals, or read from a file. A copy of a variable, attribute, dimension or data vector, and the part returned by a removal, keeps its content whatever is done to the data set afterwards, and changing the copy never changes the data set.",
  ["inputs","histories"],"all pairs of definitions with small differences x ways of building them; all histories with copies taken at any point",
  "Tests compare a few hand-made objects, built in one way, and hardly ever change a copy.",
  [D,V,A,M,DV],[("derived PartialEq of DataSet, Variable, Attribute, Dimension, DataVector",D),("Clone of Variable, Attribute, DataVector",V),("remove_var, remove_var_attr, remove_dim",D)],
  ["==, != and getters of originals and copies"])
p("C26","A process that dies while writing loses only the write under way",
  "If the process dies at any moment of a write history, after the definition was set successfully the file on disk still opens with the complete definition, and every variable record whose write call had returned and that no later call was rewriting reads back exactly. Before that the file is either rejected or opens with the complete definition, never with another one.",
  ["crash_points","histories"],"all write histories x every write call as the point of death, with any part of that call written",
  "Tests never end a process in the middle of a history.",
  [W],[("order and completeness of header and data writes",W),("FileWriter::close fill loop",W)],
  ["file content as left by the dead process, read with FileReader"])
p("C27","A rejected file is diagnosed correctly",
  "When a file is rejected, the error (always the same one) says that the header is incomplete exactly when the file ends inside the header. A violation of the grammar is reported with the kind of the first wrong field (magic word, version, negative number, tag, padding, type code, UTF-8, offset) and the bytes found there. A header that describes an illegal data set is reported with a defect the data set really has, with the offending names, sizes or dimension ids; a record count that cannot be derived is reported as such.",
  ["inputs"],"all malformed headers: legal ones edited in definition, fields or bytes, or cut",
  "Tests provoke each kind of error once, from the parser functions, with a few bytes.",
  [R,E],[("map_err(ParseHeaderError::new(err, kind)) in every parse_* function",R),("InvalidBytes::from, header_is_incomplete",E)],
  ["ReadError of FileReader::open: variant, kind, invalid_bytes, header_is_incomplete, names in InvalidDataSet"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P:
        q["statement"]=q["statement"].strip()
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
