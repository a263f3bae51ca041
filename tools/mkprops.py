"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Compact integers and strings survive being written and read back",
 "Every 32-bit unsigned value and every NUL-free text that the toolchain writes into its binary formats is read back as exactly the same value, consuming exactly the bytes written for it, whatever bytes follow. The length announced for a compact integer and the length reported by writing it both equal the number of bytes actually written. Reading arbitrary bytes yields a value or an error, never a crash.",
 ["inputs"], "all 2^32 compact integers, all NUL-free UTF-8 strings, all byte sequences that may follow, all malformed byte sequences",
 "Unit tests sample a few integers below 0x100000 and a few ASCII strings; the top two bytes of the compact form, multi-byte text and overlong encodings are never exercised.",
 ["libs/common/src/io.rs"],
 [("compact integer codec", "libs/common/src/io.rs: write_compressed_int, read_compressed_int, compressed_int_len"),
  ("NUL-terminated string codec", "libs/common/src/io.rs: write_cstring, read_cstring")])

prop("B01", "A PBO archive reads back exactly what was packed into it",
 "For every set of non-empty files names (distinct ignoring case) with contents and every set of properties, the archive that packing produces is read back with exactly those names, header fields, contents and properties (backslashes at the ends of a property value are dropped), and a file is found whether it is asked for with forward or back slashes and in any letter case. Every entry header is decoded to exactly the field values that were encoded and unknown entry types are refused. The offset reported for a file is the position of its first byte in the archive.",
 ["inputs", "configurations"], "all file sets, contents and sizes (including empty and large files), all properties, all 32-bit values of every header field",
 "The tests round-trip one real archive; other names, sizes, header values and property sets are never packed.",
 ["libs/pbo/src/write.rs", "libs/pbo/src/read.rs", "libs/pbo/src/model/header.rs", "libs/pbo/src/model/mime.rs"],
 [("entry header codec", "libs/pbo/src/model/header.rs: Header::write_pbo, Header::read_pbo"),
  ("entry type codec", "libs/pbo/src/model/mime.rs: Mime::as_u32, Mime::from_u32"),
  ("packing", "libs/pbo/src/write.rs: WritablePbo::write, add_file"),
  ("reading", "libs/pbo/src/read.rs: ReadablePbo::from, file, file_offset, header")])

prop("B02", "Packing is reproducible and the archive's checksum is right",
 "The bytes of a packed archive depend only on its files and properties, never on the order in which files were added or on any other hidden state, and its entries are in case-insensitive name order. The archive ends with a zero byte and the SHA-1 of everything before that byte; packing returns that same checksum, and recomputing the checksum from the archive read back gives it again.",
 ["inputs", "histories", "schedules"], "all file sets, all insertion orders, all hash-table iteration orders, files above and below the size at which hashing runs in a second thread, with and without the properties section",
 "The tests pack one archive in one order; hash-table iteration order and the parallel path for large files are left to chance.",
 ["libs/pbo/src/write.rs", "libs/pbo/src/read.rs", "libs/pbo/src/model/checksum.rs"],
 [("ordering of entries", "libs/pbo/src/write.rs: files_sorted"),
  ("hash and output in step", "libs/pbo/src/write.rs: write"),
  ("recomputation", "libs/pbo/src/read.rs: gen_checksum, files_sorted, is_sorted")])

prop("B03", "Reading an archive entry never leaves that entry",
 "Whatever sequence of buffer sizes is used, and however the underlying device splits its reads, reading an entry delivers exactly the bytes of that entry in order, never a byte beyond its declared size, and then end of file. Opening or reading arbitrary, truncated or corrupted bytes as an archive gives an error or an archive, never a crash or a hang.",
 ["inputs", "histories", "fault_sequences"], "all entries of all archives, all sequences of buffer lengths, all short reads, all byte strings given as an archive",
 "The tests read each entry once with read_to_end from well-formed archives.",
 ["libs/pbo/src/file.rs", "libs/pbo/src/read.rs"],
 [("bounded reader", "libs/pbo/src/file.rs: File::read"), ("locating an entry", "libs/pbo/src/read.rs: ReadablePbo::file, from")])

prop("S01", "Only genuine signatures are accepted",
 "A signature is accepted for an archive only when it was produced with the private half of the very key it is checked against, for exactly that archive's checksum, file names, hashed contents and prefix. A signature made with any other key is rejected even if it claims the same authority name or carries the other key's parameters, and so is a signature any of whose numbers was altered or swapped with another.",
 ["inputs", "configurations"], "all archives, keys, signature versions and all alterations of the archive (name, hashed content, prefix) or of the signature",
 "The only test checks that one genuine signature is accepted; no forged or altered signature is ever tried.",
 ["libs/signing/src/public.rs", "libs/signing/src/signature.rs", "libs/signing/src/lib.rs"],
 [("verification", "libs/signing/src/public.rs: BIPublicKey::verify"),
  ("hashes bound by the signature", "libs/signing/src/lib.rs: generate_hashes, pad_hash"),
  ("files covered", "libs/common/src/sign_version.rs: should_hash_file")])

prop("S02", "Whatever is signed verifies, and keys and signatures survive their files",
 "For every archive whose entries are in name order and both signature versions, a signature made with a private key is accepted by the public key derived from it, also after private key, public key and signature were written to files and read back. Every key or signature file reads back as the same authority and numbers, has exactly the size its numbers require, and numbers with leading zero bytes keep their value and width. A malformed key or signature file gives an error, never a crash.",
 ["inputs", "configurations"], "all archives with at least one file, all generated keys, both signature versions, all field values including numbers shorter than their fixed width",
 "One archive and one freshly generated key are tried; a number with leading zero bytes occurs about once in 256 keys.",
 ["libs/signing/src/private.rs", "libs/signing/src/public.rs", "libs/signing/src/signature.rs", "libs/signing/src/lib.rs"],
 [("signing", "libs/signing/src/private.rs: BIPrivateKey::sign, to_public_key"),
  ("padding and fixed-width numbers", "libs/signing/src/lib.rs: pad_hash, write_biguint"),
  ("file formats", "libs/signing/src/{private,public,signature}.rs: read, write, write_danger")])

prop("L01", "LZO decompression never touches memory outside its buffers",
 "For every input byte string and every output buffer, decompression reads only inside the input, reads and writes only inside the output buffer, terminates, and reports either an error or a length no larger than the output buffer. In particular hostile or truncated data can never make it read before the start of what it has already produced.",
 ["inputs"], "all byte strings as compressed data, all output buffer sizes",
 "The tests decompress the compressor's own output for one or two strings; malformed streams are never fed to the pointer arithmetic.",
 ["libs/lzo/src/decompress.rs", "libs/lzo/src/lib.rs"],
 [("decoder", "libs/lzo/src/decompress.rs: lzo1x_decompress_safe"), ("slice interface", "libs/lzo/src/lib.rs: decompress_to_slice")])

prop("L02", "LZO compression is lossless",
 "Decompressing what the compressor produced for any data gives back exactly that data and its length, and the compressed form never exceeds the documented worst-case size for its input length. Compressing never writes outside its output buffer; a buffer smaller than that worst case gives an error.",
 ["inputs"], "all byte strings of all lengths, incompressible and highly repetitive, with matches at every distance and length class",
 "The tests compress a short fixed string; long literal runs, long matches and far distances are encoded differently and never reached.",
 ["libs/lzo/src/compress.rs", "libs/lzo/src/decompress.rs", "libs/lzo/src/lib.rs"],
 [("encoder", "libs/lzo/src/compress.rs: lzo1x_1_compress"), ("worst case", "libs/lzo/src/lib.rs: worst_compress, compress")])

prop("A01", "Texture containers keep their type, mipmaps and pixels",
 "A texture container that is read and examined reports the type marker, tag data and mipmaps that are in the file: the width without its compression flag, the height, the flag itself and exactly the declared data bytes. Any bytes given as a texture yield that or an error, never a crash; mipmaps of a type that is not stored in blocks (DXT1, DXT3, DXT5 are) are refused. Writing a picture gives a container of type DXT5 that reads back with the mean and the highest value of every channel under CGVA and CXAM and one mipmap with the sides of the picture and its blocks; a picture without pixels or too large for the format is refused. The image of a mipmap has its sides and the pixels its blocks decode to, also where a side is not a multiple of four, and a mipmap stored with LZO gives the same image as the same mipmap stored plainly. Every known type marker survives conversion to bytes and back while unknown ones are refused.",
 ["inputs"], "all type markers, all tag data, all 15-bit widths and 16-bit heights with and without the compression flag, all block data, all pictures to be written, all byte strings read as a texture",
 "Two real textures are read; other markers, flags, sizes and LZO-compressed mipmaps are not, and nothing is written.",
 ["libs/paa/src/paa.rs", "libs/paa/src/pax.rs", "libs/paa/src/mipmap.rs"],
 [("type marker", "libs/paa/src/pax.rs: from_bytes, as_bytes, from_stream"), ("mipmap header and data", "libs/paa/src/mipmap.rs: from_stream, width, is_compressed, get_image"),
  ("container", "libs/paa/src/paa.rs: Paa::read, Paa::write")])

prop("M01", "P3D models survive being read and written",
 "A model with any levels of detail, vertices, normals, faces with three or four corners, textures, materials and named data blocks (several may have the same name) is written so that reading it back gives the same model, float values compared by bits, as long as no name contains a zero character or is the end mark #EndOfFile#. A model file in the standard form (unused corner and header padding zero, blocks marked 1, names valid UTF-8) that is read and written again is byte-for-byte the original. A model that could not be stored completely is reported as an error, as is one with a face that has not three or four corners. Arbitrary bytes given as a model yield an error or exactly the model the layout of the format describes, never a crash.",
 ["inputs"], "all models (float values compared by bits), all byte strings given as a model",
 "Two real models are inspected; triangle padding, empty names, unusual float bits and truncated files are not covered.",
 ["libs/p3d/src/lib.rs", "libs/p3d/src/lod.rs", "libs/p3d/src/face.rs", "libs/p3d/src/point.rs", "libs/p3d/src/vertex.rs"],
 [("model and level of detail codec", "libs/p3d/src/{lib,lod}.rs: read, write"), ("point, vertex and face codec", "libs/p3d/src/{point,vertex,face}.rs: read, write")])

prop("R01", "A binarized config decodes to the config that was written",
 "Binarizing any config gives a file in which every class offset, enum offset and string and array length is consistent: following the offsets reaches exactly the classes, properties, parents and values of the source config, in order. The size announced for any piece beforehand equals the number of bytes it actually produces.",
 ["inputs", "programs"], "all configs: nested and empty classes, external and deleted classes, arrays nested to any depth, appended arrays, any number of properties, names and strings of any length",
 "Snapshot tests fix the bytes of a dozen small configs; none has more than 127 entries, deep arrays or sizes that need more than one length byte.",
 ["libs/config/src/rapify/mod.rs", "libs/config/src/rapify/class.rs", "libs/config/src/rapify/array.rs", "libs/config/src/rapify/config.rs"],
 [("sizes against bytes", "libs/config/src/rapify/*.rs: Rapify::rapify, Rapify::rapified_length"), ("class bodies and offsets", "libs/config/src/rapify/class.rs"), ("file header", "libs/config/src/rapify/config.rs")])

prop("R02", "Config values keep their meaning through parsing and binarizing",
 "A number, string, array or class written in a config is binarized with exactly the value written: integers in the 32-bit range as that integer, decimal and exponent notation as the nearest single-precision float, an arithmetic expression as its value (an integer when it is whole and fits, otherwise the nearest single-precision float), doubled quotes as one quote, arrays element by element in order. Text that is not a value is refused, never a crash. Values are tagged with the type they have, and properties and classes keep their names, order and nesting.",
 ["inputs", "programs"], "all integer and float literals, all strings including quotes, commas, braces and comment markers, arrays and classes built from them",
 "A handful of literals are parsed in unit tests; boundary integers, exponents, negative numbers and quoting inside nested arrays are not combined.",
 ["libs/config/src/parse", "libs/config/src/rapify/number.rs", "libs/config/src/rapify/str.rs", "libs/config/src/rapify/value.rs"],
 [("literal parsing", "libs/config/src/parse/{number,str,array,value,property}.rs"), ("value encoding and tags", "libs/config/src/rapify/{number,str,value,property}.rs")])

prop("E01", "Config arithmetic follows the usual rules and rejects malformed input",
 "An arithmetic expression of decimal numbers with + - * / % ^, unary minus on a number after an operator or parenthesis, spaces and parentheses evaluates to the value given by the usual precedence, left associativity (right for ^) and parentheses in double precision. Anything that is not such an expression - missing operands or operators, adjacent numbers, unbalanced parentheses, other characters - has no value; evaluation never crashes.",
 ["inputs", "programs"], "all expression trees and all strings",
 "Two dozen fixed expressions are evaluated; associativity of repeated operators, mixed precedence under parentheses and malformed operand sequences are barely sampled.",
 ["libs/common/src/math.rs"],
 [("tokens", "libs/common/src/math.rs: tokenize"), ("precedence", "libs/common/src/math.rs: shunting_yard"), ("evaluation", "libs/common/src/math.rs: evaluate_postfix")])

prop("P01", "Conditional preprocessing keeps exactly the active branches",
 "For every nesting of #if, #ifdef, #ifndef, #else and #endif, text reaches the output exactly when every enclosing condition selects the branch it is in, and directives in inactive branches (definitions, undefinitions, includes) have no effect. A second #else for the same condition, an #else or #endif without a condition and a condition that is never closed are reported as errors or ignored, never a crash.",
 ["inputs", "programs", "histories"], "all nestings of conditionals of any depth with any combination of true and false conditions, with and without #else, well-formed or not",
 "The tests have a few fixed nestings, mostly two levels deep.",
 ["libs/preprocessor/src/ifstate.rs", "libs/preprocessor/src/processor/directives.rs", "libs/preprocessor/src/processor/mod.rs"],
 [("branch stack", "libs/preprocessor/src/ifstate.rs: IfStates::push_if, flip, pop, reading"), ("directive handling", "libs/preprocessor/src/processor/directives.rs")])

prop("P02", "Macros expand by substitution, within their scope, and always terminate",
 "A macro use is replaced by its body with every parameter replaced by the matching argument, arguments being split at commas outside string quotes, with # quoting and ## joining, nested uses expanded in turn, and text inside string quotes left alone. A definition is visible from its #define until #undef or redefinition, in included files too; parameters are visible only inside their macro and the parameterless macros its body uses, not in macros with parameters called from it; a wrong number of arguments is an error. Macros that refer to themselves, directly or through one another, do not make preprocessing loop or crash.",
 ["inputs", "programs"], "all sets of macro definitions and uses, with nested calls, parentheses, strings and recursive definitions",
 "Each bootstrap test is one fixed file; combinations of nesting, quoting and joining are not explored.",
 ["libs/preprocessor/src/defines.rs", "libs/preprocessor/src/processor/defines.rs", "libs/preprocessor/src/definition.rs"],
 [("scoped definitions", "libs/preprocessor/src/defines.rs"), ("arguments and substitution", "libs/preprocessor/src/processor/defines.rs")])

prop("P03", "Every output character is traced to where it came from",
 "For every character of preprocessed output, the reported origin is the file, line and byte offset (in the text without carriage returns) of the source text it was copied from or, when it was produced by a macro, the place where the outermost macro was used. Origins are found for every position of the output, text extracted by character span equals that span of the output, and byte offsets equal the UTF-8 length of the preceding characters.",
 ["inputs", "programs"], "all preprocessed files, all positions and spans, with includes, macros, comments, joined lines and non-ASCII text",
 "Diagnostic snapshots look at a few positions in fixed files; non-ASCII text and multi-line macros are not followed character by character.",
 ["libs/workspace/src/reporting/processed.rs", "libs/workspace/src/position.rs", "libs/preprocessor/src/parse/mod.rs"],
 [("recording of origins", "libs/workspace/src/reporting/processed.rs: append_token, append_output"), ("lookup and extraction", "libs/workspace/src/reporting/processed.rs: mapping, get_byte_offset, extract, extract_from"), ("token positions", "libs/preprocessor/src/parse/mod.rs, libs/workspace/src/position.rs")])

prop("P04", "Pragmas apply only to the scope they name",
 "A suppression or flag given with #pragma takes effect for the stated scope - up to and including the next line that is not a directive, the rest of the file, or the rest of the config including files included later - and nothing else: it never leaks out of its line, into an included file unless it has config scope, or back into the including file. A pragma of narrower scope never shortens one of wider scope already in force, and unknown pragmas, codes or scopes are reported as errors.",
 ["inputs", "histories"], "all sequences of pragmas, lines and includes",
 "One or two fixed files use pragmas; combinations of scopes and includes are not tried.",
 ["libs/preprocessor/src/processor/pragma.rs", "libs/preprocessor/src/processor/directives.rs"],
 [("scopes", "libs/preprocessor/src/processor/pragma.rs: child, clear_line, suppress, flag"), ("directive", "libs/preprocessor/src/processor/directives.rs: read_pragma, directive_command, directive_include; libs/preprocessor/src/processor/mod.rs: line")])

prop("V01", "Versions compare by number and survive being written as text",
 "Versions are ordered by major, minor, patch and then build number, each compared numerically, a version without build number coming before the same version with one; the order is total over numbers and ignores the commit hash. Writing a version as text and parsing it gives the same version (for a hash without a dash); text with a missing or non-numeric component is rejected. A version macro file gives the numbers of its MAJOR, MINOR, PATCH and optional BUILD macros, or an error when one of the first three is missing or not a number. A project's version is either given completely in its project file or read from a macro file; anything in between is rejected.",
 ["inputs"], "all component values including 0 and the largest, with and without build number and hash, all strings",
 "Four or five literal versions are compared or parsed.",
 ["libs/common/src/version.rs", "libs/common/src/config/project/version.rs"],
 [("ordering", "libs/common/src/version.rs: PartialOrd for Version"), ("text form", "libs/common/src/version.rs: TryFrom<&str>, Display, Serialize, Deserialize"), ("version macro file", "libs/common/src/version.rs: try_from_script_version, extract_version"), ("project version", "libs/common/src/config/project/version.rs: TryFrom<VersionSectionFile>, internal_get")])

prop("X01", "Addon prefixes are parsed and printed faithfully",
 "A prefix file holding one path, or key=value lines of which one has the key prefix in any letter case, gives exactly the backslash-separated components of that path with surrounding white space removed, and printing them gives the path back. Empty files, forward slashes, a leading backslash and key files without a prefix key are rejected, and no text makes parsing crash.",
 ["inputs"], "all file contents: any keys, order, case, line endings, white space and non-ASCII text",
 "About ten literal files are parsed.",
 ["libs/common/src/prefix.rs"],
 [("parsing", "libs/common/src/prefix.rs: Prefix::new"), ("printing", "libs/common/src/prefix.rs: Display, as_pathbuf, main_prefix, mod_prefix")])

prop("T01", "Stringtables keep every text; totals count every translation",
 "Reading, sorting and writing a stringtable keeps every key with its text in every language (as an XML reader sees it), keys ending up in alphabetical order inside their container, and writing what was read back gives the same table; sorting a sorted table changes nothing more. The totals report for every language the number of keys in which that language has a text, over all containers.",
 ["inputs"], "all stringtables: any number of packages, nested containers and keys, any subset of languages",
 "Three real files are read; sorting and totals are compared with stored snapshots of them.",
 ["libs/stringtable/src/lib.rs", "libs/stringtable/src/package.rs", "libs/stringtable/src/totals.rs", "libs/stringtable/src/key.rs"],
 [("sorting", "libs/stringtable/src/{lib,package}.rs: sort"), ("totals", "libs/stringtable/src/{package,totals}.rs: totals, inc, merge"), ("reading and writing", "libs/stringtable/src/lib.rs: from_reader, to_writer")])

prop("N01", "Lint settings do exactly what the project file says",
 "A lint runs with its default settings unless the project overrides them: an override changes exactly the severity, options or enabled state it mentions and keeps the others, a disabled lint never runs, and the reported severity is the configured one. Overrides for one lint never affect another. A severity below the least one a lint allows, disabling a lint that must be an error, and registering a lint twice are reported as errors. Every lint setting of project.toml or of a lints.toml beside it takes effect; settings in both are reported as a conflict, never dropped silently.",
 ["inputs", "configurations"], "all combinations of defaults and overrides for severity, enabled state and options",
 "Project-file tests check one or two fixed overrides.",
 ["libs/common/src/config/project/lint.rs", "libs/common/src/config/project/mod.rs", "libs/workspace/src/lint/mod.rs"],
 [("override", "libs/common/src/config/project/lint.rs: LintConfigOverride::apply"), ("running", "libs/workspace/src/lint/mod.rs: LintManager::run, push, check"), ("settings of a project", "libs/common/src/config/project/lint.rs: From<LintSectionFile>, is_empty; libs/common/src/config/project/mod.rs: TryFrom<ProjectFile>")])

prop("W01", "Text helpers never split a character or misplace a line",
 "Stripping a prefix ignoring case returns the rest of the text exactly when the text starts with that prefix, for any text including non-ASCII, and never crashes. The line and column computed for an offset into any text are the number of line breaks before it and the number of characters since the last one.",
 ["inputs"], "all texts and prefixes, all offsets",
 "Only ASCII samples are tested.",
 ["libs/common/src/strip.rs", "libs/workspace/src/position.rs"],
 [("prefix stripping", "libs/common/src/strip.rs: strip_prefix_insensitive"), ("line and column", "libs/workspace/src/position.rs: LineCol::from_content")])

prop("W02", "Files in the virtual workspace are found where the mod says they are",
 "An absolute include path finds the file at that place in the workspace; where there is none, the file of the addon whose prefix it begins with, the longest such prefix when several match, in whatever letter case the path is written; where there is none either, a file of the workspace or its include folder that differs in ASCII case only. A relative path finds what lies there seen from the file that asks. Slashes may be written in both directions. Whatever is found exists, a path that matches nothing finds nothing (or is refused with an error), and no path, however written, crashes the lookup. Two addons with the same prefix, whatever its letter case, are reported when the workspace is opened.",
 ["inputs", "configurations"], "all addon layouts and all path strings",
 "A few fixed layouts are looked up.",
 ["libs/workspace/src/path.rs", "libs/workspace/src/lib.rs"],
 [("lookup", "libs/workspace/src/path.rs: WorkspacePath::locate, strip_pointer, exists_case_insensitive"), ("discovery", "libs/workspace/src/lib.rs: Workspace::discover")])

prop("Q01", "Compiled SQF means what its source says",
 "Compiling a script to bytecode keeps its instructions, constants and source positions: decoding the bytecode gives the same statements in the same order.",
 ["programs"], "all SQF scripts", "Snapshot tests of a few scripts; the crate cannot even be built in this environment.",
 ["libs/sqf/src/compiler"], [("compiler", "libs/sqf/src/compiler/mod.rs"), ("serializer", "libs/sqf/src/compiler/serializer.rs")])
prop("K01", "A build gives the same output whatever the thread schedule",
 "Building a project gives the same files and the same diagnostics whatever the order in which worker threads process addons.",
 ["schedules"], "all thread interleavings of a build", "Tests run one build each.",
 ["bin/src/modules", "bin/src/executor.rs"], [("parallel modules", "bin/src/modules/rapifier.rs, bin/src/modules/pbo.rs")])
prop("K02", "An interrupted or failing build leaves no half-written release",
 "When a build stops at any point, the release folder holds either the previous release or the complete new one.",
 ["crash_points"], "all points at which a build can stop", "No test interrupts a build.",
 ["bin/src/commands/release.rs"], [("archive", "bin/src/modules/archive.rs")])
prop("G01", "Messages to and from the running game are delivered whole and in order",
 "Every message sent over the game link arrives whole, in order and unaltered, however the transport splits it.",
 ["schedules", "fault_sequences"], "all message sequences and transport splits", "Nothing tests the link.",
 ["libs/photoshoot/src", "arma/src"], [("framing", "arma/src/lib.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
