"""Which units, driver suites and statements belong to which property."""

PROPS = {
    "C01": dict(
        units=["io"], suite="C01", features=["common"],
        note="Proved for all inputs by Verus on the extracted functions: write_compressed_int, compressed_int_len, read_compressed_int, write_cstring, read_cstring, against byte-sequence contracts of Read/Write and the assumed contract of String::from_utf8. The bounded stand-in runs the compiled crate.",
        assumptions=["std::io::Read/Write/Bytes behave as their sequence models (units/inc/stdio.rs)"],
    ),
    "B01": dict(
        units=["io", "pbo_header", "pbo_read", "pbo_write", "pbo_from"], suite="B01", features=["pbo"],
        note="Proved for all inputs by Verus on the extracted functions: entry type and entry header codec round trip (unknown types refused), WritablePbo::add_file/write lay out exactly header section, entries and contents, ReadablePbo::file/file_offset agree on the first entry whose name matches ignoring case and slash direction. ReadablePbo::from gives, for every byte sequence, exactly what the format says (open_of in units/inc/pboopen.rs) or an error; theorem_reads_back: opening what write laid out gives the same properties (the prefix first), the same entries in order, the stored checksum and nothing left over, and every entry's contents stand where file and file_offset look.",
        assumptions=["str::to_lowercase, str::replace, HashMap, IndexMap, BufWriter, Cursor, Sha1, byteorder, sort_by and Seek behave as their models in units/inc", "the two scoped threads of WritablePbo::write touch disjoint state (borrow checker) and are verified in sequence", "a failing write inside the scoped thread is treated as an error, the code panics"],
    ),
    "B02": dict(
        units=["pbo_write", "pbo_check", "pbo_from"], suite="B02", features=["pbo"],
        note="Proved for all tables by Verus: WritablePbo::write emits signed_part ++ 0 ++ SHA1(signed_part) and returns that checksum, entries in the sorted order of files_sorted; theorem_unique_order: that order is the same for every hash-table iteration order. SHA-1 is uninterpreted. ReadablePbo::gen_checksum is proved to hash header section, entries in name order and contents of the opened archive; theorem_checksum: for an archive that was packed and opened again (names distinct ignoring case) that is what was hashed when it was packed.",
        assumptions=["str::to_lowercase, str::replace, HashMap, IndexMap, BufWriter, Cursor, Sha1 and sort_by behave as their models in units/inc", "str's Ord is a total order"],
    ),
    "B03": dict(
        units=["pbo_read", "pbo_from"], suite="B03", features=["pbo"],
        note="Proved for all entries, buffers and device behaviours by Verus: File::read delivers a prefix of what is left of the entry, never beyond it, and 0 only at its end or for an empty buffer; ReadablePbo::file positions the device at the entry. ReadablePbo::from ends for every byte sequence, without overflow or panic, with an error or with the archive the bytes describe, whose offsets are representable (inv).",
        assumptions=["Seek and Read behave as the device model in units/inc/seek.rs"],
    ),
    "S01": dict(
        units=["signing", "pbo_check", "sign_version"], suite="S01", features=["signing"],
        note="Proved by Verus: BIPublicKey::verify accepts exactly when authority, width, exponent and modulus are the key's own, all three numbers are below the modulus and their modular powers are the padded hashes of this archive (generate_hashes, pad_hash, gen_checksum, hash_filenames, hash_files, is_sorted, should_hash_file all under contract); theorem_only_genuine: such numbers are the ones the private half makes. SHA-1 and modular power are uninterpreted. The bounded stand-in tries forgeries and altered archives on the compiled crate.",
        assumptions=["BigUint is a natural number, modpow an uninterpreted function with e and d inverse below n (textbook RSA)", "SHA-1 is a function with 20-byte results; its collision resistance is the usual cryptographic assumption", "Path::extension, str::to_lowercase, IndexMap and std::io::copy behave as their models in units/inc"],
    ),
    "S02": dict(
        units=["signing", "sign_files", "sign_version"], suite="S02", features=["signing"],
        note="Proved by Verus: sign and verify use the same hashes, theorem_signed_verifies (given an RSA pair); private key, public key and signature files are read back as the same numbers for all field values that fit their width, exactly their bytes consumed (write_biguint, read/write of all three types). Key generation (the rsa crate) and malformed files are covered by the bounded stand-in.",
        assumptions=["RsaPrivateKey::new makes a valid key whose modulus has the announced width", "BigUint byte conversions behave as positional notation"],
    ),
    "L01": dict(
        units=["lzo_dec"], suite="L01", features=["lzo"],
        note="Proved by Verus for every input and output buffer: lzo1x_decompress_safe reads and writes only inside its buffers, terminates, and returns 0 exactly when the LZO1X format (decode in units/inc/lzospec.rs) gives an output that fits, with that output; decompress_to_slice returns a length within the slice. Pointers are extracted as positions in the two buffers. The bounded stand-in runs the compiled crate between guard pages against an independent decoder.",
        assumptions=["raw pointers into the two buffers are positions in them (no address wraps around); memcpy copies bytes"],
    ),
    "L02": dict(
        units=["lzo_dec"], suite="L02", features=["lzo"], level="exploration",
        note="The decoder is proved to implement the format for all inputs (unit lzo_dec). The encoder is covered by the bounded stand-in: generated data of every length class, match length and distance class compressed and decompressed by the compiled crate between guard pages.",
        assumptions=[],
    ),
    "P01": dict(
        units=["pre_cond"], suite="P01", features=["preprocessor"],
        note="Proved by Verus: the branch stack (IfStates), directive_if, directive_ifdef, directive_undef, the dispatch of directives (conditionals always, all other directives only where every enclosing condition selects its branch), line, file, walk and run against the token model in units/inc; a second #else, a stray #else or #endif is an error. The condition's value (preprocess of its tokens) and the bodies of the other directives are uninterpreted. The bounded stand-in preprocesses generated nestings with the compiled crate.",
        assumptions=["tokens and streams behave as their models in units/inc (peekmore::PeekMoreIterator is a position in a token sequence)", "a condition's tokens evaluate to the value the code computes (uninterpreted)"],
    ),
    "P02": dict(
        units=["pre_defs", "pre_expand"], suite="P02", features=["preprocessor"],
        note="Proved by Verus for all token lists and definitions: the scopes of names (Defines::contains_key, get_readonly, insert, remove, push, pop, get_with_gen; unit pre_defs), reading definitions (directive_define, define_read_args, define_read_body, directive_undef) and uses (call_read_args), and expansion itself (define_use, walk, output, Output::last_symbol, From<Output>; unit pre_expand) against one recursive specification; theorem_use and theorem_substitution (a use is its body with the parameters replaced by the arguments, quotes left alone, # quoting), theorem_parameters, theorem_defined and theorem_scopes (what is visible where; a use puts back the scopes), theorem_recursion, and termination: every recursive call of define_use, call_read_args and walk decreases (names not being expanded, tokens left). The bounded stand-in preprocesses generated macro definitions and uses with the compiled crate and compares them with an independent expansion.",
        assumptions=["a directive (#include, #if, ...) inside an expansion ends, and leaves the scopes of enclosing macros alone (directive_define and directive_undef are proved to)", "Vec, String, Arc and HashMap are their contents; iterator adapters (filter, chain, zip, peekmore) behave as their models in units/inc", "counters do not reach 2^64", "warnings about padded arguments, the usage tables of the language server and token counting are dropped by the extraction", "the texts of __FILE__, __FILE_NAME__ and __FILE_SHORT__ are uninterpreted", "a stack of 2^63 macro uses is not reached; the machine stack is not modelled"],
    ),
    "P03": dict(
        units=["pre_parse", "processed"], suite="P03", features=["preprocessor"],
        note="Proved by Verus: parse and to_symbol give every token the file, line and byte range of the source text it is, for any division of the text into pieces (unit pre_parse); append_token, append_output and Processed::new record for every character of the output, at any nesting of macros, the token it was copied from or the outermost macro that made it, and mapping finds that record; extract, extract_from and get_byte_offset count characters and UTF-8 lengths (unit processed). That expansion keeps the tokens it copies is decided by the bounded stand-in: generated sources with includes, macros, comments, joined lines and non-ASCII text, every output character of the compiled crate traced back and compared.",
        assumptions=["pest divides the text into pieces that match the rules of config.pest", "str, String and Vec methods behave as their models in units/processed.rs and units/pre_parse.rs", "a file that was read can be read again", "expansion passes tokens on unchanged (bounded stand-in)", "a span given to extract does not end before it starts"],
    ),
    "P04": dict(
        units=["pre_pragma"], suite="P04", features=["preprocessor"],
        note="Proved by Verus: Pragma::child, clear_line, suppress, flag, is_suppressed, is_flagged against scope maps, the reading of scopes and codes, read_pragma, directive_command, directive and line against the token model; malformed pragmas are errors. The bounded stand-in preprocesses generated sequences of pragmas, lines and includes with the compiled crate.",
        assumptions=["tokens and streams behave as their models in units/inc", "strum's FromStr/Display for pragma codes are a table of names"],
    ),
    "E01": dict(
        units=["math"], suite="E01", features=["common"],
        note="Proved by Verus: tokenize, shunting_yard, evaluate_postfix and eval against a grammar and its value (units/math.rs); malformed input gives no value. f32 arithmetic is uninterpreted. The bounded stand-in evaluates generated expressions with the compiled crate.",
        assumptions=["f32 operations and str::parse::<f32> are uninterpreted functions"],
    ),
    "V01": dict(
        units=["version"], suite="V01", features=["common"],
        note="Proved by Verus: the order (partial_cmp, theorem_order), parsing and printing (try_from, Display, serialize, deserialize; theorem_round_trip, theorem_rejected), version macro files (extract_version, try_from_script_version) and a project's version (VersionConfig::try_from, internal_get). The bounded stand-in runs the compiled crate.",
        assumptions=["str methods (split, trim, lines, split_once, rsplit_once, parse::<u32>) behave as their models in units/inc/strs.rs", "decimal formatting of integers is positional notation"],
    ),
    "X01": dict(
        units=["prefix"], suite="X01", features=["common"],
        note="Proved by Verus for all texts: Prefix::new, into_inner, main_prefix, mod_prefix, as_pathbuf, Display and their round trips. The bounded stand-in runs the compiled crate on generated prefix files.",
        assumptions=["str methods (lines, trim, split, split_once, to_lowercase, contains) behave as their models in units/inc/strs.rs"],
    ),
    "W01": dict(
        units=["w_text"], suite="W01", features=["workspace"],
        note="Proved by Verus for all texts: strip_prefix_insensitive never cuts inside a character and strips exactly a case-insensitive prefix; LineCol::from_content gives line and column of every offset. The bounded stand-in runs the compiled crates.",
        assumptions=["str slicing and char boundaries behave as in units/w_text.rs (UTF-8 lengths)"],
    ),
    "W02": dict(
        units=["w_locate", "prefix"], suite="W02", features=["workspace"],
        note="Proved by Verus for all file systems, prefixes and paths: Workspace::create and discover, Prefix::new (in unit prefix), WorkspacePath::locate, join, parent, exists and workspace, strip_pointer, exists_case_insensitive and exists_case_insensitive_from; theorem_prefix and theorem_addon (a path below a prefix is taken below the folder of that addon), theorem_seen and theorem_kept (no prefix file is missed), theorem_reported (equal prefixes are refused). The bounded stand-in looks paths up in workspaces in memory with the compiled crates.",
        assumptions=["the vfs crate: join, exists, parent, read_dir and walk_dir behave as in units/w_locate.rs", "HashMap with text keys is a finite map; max_by_key gives a greatest element", "what the P drive answers for /a3/ exists", "the ASCII and Unicode lower case of a text are uninterpreted"],
    ),
    "N01": dict(
        units=["lints"], suite="N01", features=["workspace"],
        note="Proved by Verus for all lints, settings and data: LintConfigOverride::apply, the conversions from project.toml, LintGroupConfig::is_empty, ProjectConfig::try_from (a lints.toml), LintManager::check, push, extend, push_group and run; theorem_independent. The bounded stand-in runs the compiled crates with recording lints.",
        assumptions=["HashMap with text keys is a finite map", "codespan_reporting::Severity is ordered by weight", "toml parsing and the file system are uninterpreted"],
    ),
    "R01": dict(
        units=["rapify"], suite="R01", features=["config"],
        note="Proved by Verus for all configs: every Rapify implementation (numbers, strings, expressions, macro values, arrays, values, properties, class bodies, config) writes exactly the bytes of the format specification (encode in units/rapify.rs: body, property tags, class and enum offsets, string and array lengths), and rapified_length announces their number. The stand-in decodes binarized generated configs with an independent reader that follows every offset.",
        assumptions=["a binarized config stays below 4 GiB (the format's 32-bit offsets)", "names and strings hold no NUL character", "binarization starts only for configs the linters accept (Class::External inside a body is written as a name only; invalid values never reach it)", "Write and byteorder behave as their byte-sequence models", "cloning a list of properties gives an equal list"],
    ),
    "R02": dict(
        units=["number", "rapify"], suite="R02", features=["config"], level="exploration",
        note="Proved by Verus: the encoding of every value with the tag of its type (unit rapify), the choice of integer or float for a computed number and negation (unit number). The parsers themselves are chumsky combinators, covered by the bounded stand-in: generated configs through preprocessor, parser and binarizer of the compiled crates, decoded and compared with the values written.",
        assumptions=["chumsky combinators are covered by the bounded stand-in only"],
    ),
    "A01": dict(
        units=["paa"], suite="A01", features=["paa"],
        note="Proved by Verus for all byte sequences, pictures and device behaviours: Paa::read gives exactly what the layout of the format (paa_of in units/inc/paaspec.rs: marker, tags, offset table, mipmaps) makes of the file, or an error where that is nothing or the device fails; Paa::write writes exactly the layout (enc_paa: DXT5, mean and highest value of each channel, one offset, the mipmap), with an error iff the device fails or the format has no room; theorem_reads_back joins the two. The type markers, MipMap::from_stream and its accessors, and get_image (sides of the mipmap, pixels of its blocks, unpacked first when the flag says so, room of the blocks rounded up to four). No overflow, division, index or unwrap can fail, but for get_image on a mipmap without width or with too few data bytes, which is documented to panic.",
        assumptions=["texpresso's block coding is a function of format, data and sides, panics without width, on too little data, or when the height is not a multiple of four, and needs the room compressed_size announces (models in units/inc/paaio.rs); the bounded stand-in decodes pictures of blocks of one colour", "hemtt_lzo::decompress_to_slice into a buffer of zeros gives a function of the data (L01 has its bounds)", "an RgbaImage has width times height pixels", "Seek, Read, Write, byteorder and HashMap behave as their models", "usize has 64 bits"],
    ),
    "M01": dict(
        units=["p3d", "io"], suite="M01", features=["p3d"],
        note="Proved by Verus for every model and every byte sequence: Vertex, Point, Face, LOD and P3D read exactly what the layout of the format (dec_p3d in units/inc/p3dspec.rs) gives, or an error where it gives nothing, and every read ends; they write exactly the layout (enc_p3d), with an error iff the device fails or the format has no room, a buffered write counting only after a flush that succeeded. theorem_roundtrip: reading what was written gives the model and leaves what follows untouched; theorem_same_bytes: a file in the standard form is reproduced. No arithmetic overflow, index or unwrap can fail. Allocation failure is outside the model (the bounded stand-in tries announced counts of 2^32-1).",
        assumptions=["byteorder, read_exact, Bytes::nth, BufReader and BufWriter behave as their models in units/inc/p3dio.rs", "a float is read and written by its bits", "the BufWriter writes to the output it was made over"],
    ),
    "T01": dict(
        units=["stringtable"], suite="T01", features=["stringtable"],
        note="Proved by Verus for all stringtables: Key's accessors, Totals::inc, merge and its fields, Package::totals (per language the number of keys with a text, over all containers), Package::sort and Project::sort (a stable alphabetical arrangement of the same keys, in every container; theorem_twice, theorem_kept). Reading and writing XML (serde, quick-xml) is covered by the bounded stand-in on the compiled crate.",
        assumptions=["Vec::sort_by is a stable sort for a total order", "str's Ord is a total order", "fewer than 2^64 keys", "serde and quick-xml are covered by the bounded stand-in only"],
    ),
}

NOT_APPLICABLE = {
    "Q01": "hemtt-sqf does not build in this environment (its build needs the network), so no contract on it can be tied to running code.",
    "K01": "thread schedules of the hemtt binary (rayon over shared state) are outside a function-by-function contract verifier, and the binary does not build here.",
    "K02": "crash points of release archiving are file-system histories; the code is a sequence of opaque std::fs/zip calls in the hemtt binary, which does not build here.",
    "G01": "the link's framing is done by dependencies (interprocess, arma-rs) and OS transport; the code in the repository has no contract-level content.",
}
