"""The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

PR = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    PR.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": list(observe), "hook_needed": hook},
    })


T = "The tests run make/read/apply/check on one pair of small, well-formed packages per delta type; "

p("C01", "Integer, hex and digest text conversions are exact and stay in bounds",
  "Writing an integer in network byte order or bytes as hexadecimal text and reading it back yields the original value, "
  "with the most significant byte first. Hexadecimal text is accepted exactly when every character is a hex digit, and a textual "
  "digest is accepted only when it has exactly the length of that digest; no text, however long, makes a conversion write outside the digest it fills.",
  ["inputs"], "every 16/32/64-bit value, every byte string and every text (bounded length)",
  T + "a handful of values reach the converters, and the digests in real packages are always well-formed.",
  ["src/drpm_utils.c"], [("be and hex codecs, digest parsers", "src/drpm_utils.c: parse_be*, create_be*, dump_hex, parse_hex, parse_hexnum, parse_md5, parse_sha256")],
  observe=["return values and output buffers of the converters"])

p("C02", "Compression identifiers survive the on-disk encoding",
  "For every compression method and level that can be stored in a delta, encoding it for the file and decoding it again gives the same method and the same level. "
  "An identifier or method that is not supported is refused and nothing is returned for it; identifiers are compatible with those of deltarpm (two codes each denote gzip and bzip2).",
  ["inputs", "configurations"], "every 32-bit identifier, every method, every level 0-255",
  T + "only two or three method/level pairs are ever written.",
  ["src/drpm_deltarpm.c"], [("identifier mapping", "src/drpm_deltarpm.c: deltarpm_encode_comp, deltarpm_decode_comp")],
  observe=["tag DRPM_TAG_TGTCOMP of a delta", "compression of the rebuilt package"])

p("W01", "A written delta reads back with exactly the contents it was given",
  "Whatever delta contents are written to a file - standard or rpm-only, format version 1, 2 or 3 - reading that file succeeds and returns every field that the version stores with the value that was written: "
  "names, sequence, digests, sizes, compression, adjustment elements and copies with their signs, add block and internal data.",
  ["inputs", "configurations"], "all field values, all counts and lengths up to the bound, both delta types, versions 1-3, internal data given as one block or as pieces",
  T + "the written files contain no negative offset of unusual magnitude, no 64-bit length, and versions 1-2 hardly occur.",
  ["src/drpm_write.c", "src/drpm_read.c"],
  [("writer", "src/drpm_write.c: write_deltarpm"), ("reader", "src/drpm_read.c: read_deltarpm, readdelta_rest, readdelta_rpmonly, readdelta_standard")],
  observe=["the delta file", "drpm_read()"])

p("W02", "Lengths a delta format version cannot hold are refused, never truncated",
  "If an external or internal data length does not fit in the field that the chosen format version has for it, writing the delta fails with an error instead of producing a file that records a different length.",
  ["inputs", "configurations"], "all 64-bit lengths, versions 1-3",
  "No test package is larger than 4 GiB.",
  ["src/drpm_write.c"], [("length fields", "src/drpm_write.c: write_deltarpm")], observe=["return value of writing", "recorded length"])

p("R01", "Reading an arbitrary delta file is memory-safe and ends in success or an error",
  "For every byte content of a delta file, standard or rpm-only, reading it accesses only memory that belongs to it, terminates, and returns success or an error code; after an error nothing read remains allocated or referenced.",
  ["inputs", "fault_sequences"], "every content of the (decompressed) delta stream up to the bound, every length and count field value, every point where the file ends or reading fails",
  T + "no malformed delta is ever read.",
  ["src/drpm_read.c", "src/drpm_deltarpm.c"],
  [("parsers", "src/drpm_read.c: readdelta_rest, readdelta_rpmonly, readdelta_standard, read_deltarpm"), ("cleanup", "src/drpm_deltarpm.c: free_deltarpm")],
  observe=["drpm_read(), drpm_apply(), drpm_check() on hostile files"])

p("R02", "A delta that is accepted is structurally consistent",
  "When reading a delta succeeds, its format version is 1, 2 or 3 (3 for rpm-only), its internal copies together do not exceed its internal data, every external copy lies inside the declared external data, "
  "every non-zero count comes with its array, and the sequence and lead/signature have at least their minimum sizes. Deltas violating any of this are refused.",
  ["inputs"], "every content of the delta stream up to the bound",
  T + "no inconsistent delta is ever read.",
  ["src/drpm_read.c"], [("validation", "src/drpm_read.c: readdelta_rest")], observe=["return value of drpm_read()/drpm_apply()"])

p("R03", "Delta queries return exactly what was recorded",
  "For every delta that was read, each query returns the recorded value for its tag - numbers unchanged, binary fields as lower-case hexadecimal text, arrays element by element with their size - as an independent copy, "
  "and a tag that does not belong to the query is refused as a bad argument.",
  ["inputs"], "every delta contents up to the bound, every tag value, every query function",
  T + "tags are queried on four deltas, and most values are only printed.",
  ["src/drpm.c", "src/drpm_read.c"],
  [("conversion", "src/drpm_read.c: deltarpm_to_drpm"), ("queries", "src/drpm.c: drpm_get_uint, drpm_get_ulong, drpm_get_ullong, drpm_get_string, drpm_get_ulong_array")],
  observe=["drpm_get_*()"])

p("M01", "Difference instructions rebuild the new data exactly",
  "For every pair of old and new data and whatever true matches the match search reports, carrying out the produced external and internal copies (with or without the add block) on the old data yields exactly the new data; "
  "all copies stay inside the old data and the internal data.",
  ["inputs", "configurations"], "all old/new contents up to the bound, all match sequences satisfying the search contract, with and without add block",
  T + "one pair of archives is diffed.",
  ["src/drpm_diff.c"], [("diff", "src/drpm_diff.c: make_diff, create_diff_copies, create_int_data_array")],
  observe=["copies and data stored in the delta", "bytes rebuilt by drpm_apply()"], hook="buffer size of the add-block loop made small")

p("M02", "Copies keep exact offsets and lengths for data of any size",
  "The copy instructions, read with their signed relative offsets, describe exactly the intended regions of the old and new data for all offsets and lengths, including those beyond 2 GiB and 4 GiB.",
  ["inputs"], "all 64-bit offsets and lengths up to 16 GiB, up to the bounded number of regions",
  "No test archive is larger than a few kilobytes.",
  ["src/drpm_diff.c"], [("copy instructions", "src/drpm_diff.c: create_diff_copies, create_int_data_array")],
  observe=["copies stored in the delta"])

p("M03", "The match search only reports true matches and always advances",
  "For every old and new data, the match search used when making deltas reads only inside both, and reports either that nothing more matches or a position at or after the scan start where the reported number of bytes in old and new are really equal.",
  ["inputs"], "all contents and lengths up to the bound, all scan positions",
  T + "one pair of archives is searched.",
  ["src/drpm_search.c"], [("hash search", "src/drpm_search.c: hash_create, hash_search, match_len")],
  observe=["drpm_make() output"])

p("S01", "The file order sequence decodes to the order that was encoded",
  "For every list of file positions, the compressed sequence that delta creation produces expands to exactly the same list during application and checking.",
  ["inputs"], "all lists of file indices (any order, any index) up to the bounded length",
  T + "the packages have a few files in header order, so jumps, gaps and multi-digit numbers do not occur.",
  ["src/drpm_make.c", "src/drpm_apply.c"], [("encoder", "src/drpm_make.c: seq_add, seq_append, seq_final"), ("decoder", "src/drpm_apply.c: expand_sequence")],
  observe=["DRPM_TAG_SEQUENCE", "drpm_check_sequence()"])

p("S02", "Expanding an arbitrary sequence is safe and refuses what does not match",
  "For every sequence content, expanding it against a package's file list accesses only that list and its own buffers, terminates, refuses references to files that do not exist and unfinished numbers as wrong format, "
  "and succeeds only if the sequence's digest equals the digest over the listed files' names, modes, sizes, devices, link targets and content digests.",
  ["inputs"], "every sequence bytes and every file list up to the bound, both digest algorithms",
  T + "only sequences made by the library itself are expanded.",
  ["src/drpm_apply.c"], [("decoder and verifier", "src/drpm_apply.c: expand_sequence")], observe=["drpm_check(), drpm_check_sequence(), drpm_apply()"])

p("P01", "Archive entry headers are written and read back exactly",
  "An archive entry header is written as the 110-character new ASCII format with every field in its place, reading it returns the same field values, and text that is not such a header is refused.",
  ["inputs"], "all field values, all 110-byte texts",
  T + "only a few headers occur.",
  ["src/drpm_make.c"], [("header codec", "src/drpm_make.c: cpio_header_read, cpio_header_write")], observe=["altered archive", "rebuilt blocks"])

p("P02", "Making and applying see the same old archive",
  "For every old package (header file list and archive), the normalised archive built when making a standard delta and the archive reconstructed block by block when applying it - from the old package or from installed files - are identical byte for byte, "
  "and the sequence produced when making is accepted when applying to the same package. Left out are exactly the regular files whose installed content may legitimately differ (configuration, ghost and missing-ok files, files whose size or digest is not verified, coloured binaries outside the library directories, files of another size).",
  ["inputs"], "all file lists (types, modes, sizes, flags, link targets, order), names and contents up to the bound",
  T + "one package layout is used, with blocks far larger than its archive.",
  ["src/drpm_make.c", "src/drpm_apply.c", "src/drpm_block.c"],
  [("normalisation", "src/drpm_make.c: parse_cpio_from_rpm_filedata"), ("layout", "src/drpm_apply.c: expand_sequence"), ("reconstruction", "src/drpm_block.c: fillblock_rpm_standard, fillblock_filesystem, fill_cpio_header")],
  observe=["bytes drpm_apply() copies from the old package"], hook="block and buffer sizes made small")

p("A01", "Applying succeeds only when the rebuilt package matches the recorded digest",
  "Whenever applying a delta reports success, the output consists of exactly the lead, signature, header and data that the delta's instructions describe, all of it was written without error, and its digest equals the digest recorded in the delta "
  "(or, when none is recorded, the digest in the package's signature if it has one); with none of these it succeeds without comparing. Any read, write, decompression or digest failure, or a mismatch, makes applying fail.",
  ["inputs", "fault_sequences"], "all deltas up to the bounded numbers of copies and bytes, every failing environment operation, both delta types",
  T + "nothing ever fails and the digest always matches.",
  ["src/drpm.c"], [("apply", "src/drpm.c: drpm_apply")], observe=["return value and output file of drpm_apply()"])

p("A02", "Reading old data through the block cache returns exactly the requested bytes",
  "For every sequence of copies the cache accepts, each read returns exactly the bytes of the old data at the requested offset, regardless of the order of offsets, of eviction, paging to the temporary file or the number of blocks in memory.",
  ["inputs", "histories"], "all copy sequences up to the bound, all offsets and lengths, cache capacities small enough to force every eviction path, standard and rpm-only sources",
  T + "the old archive fits in a few blocks and nothing is ever evicted or paged.",
  ["src/drpm_block.c"], [("cache", "src/drpm_block.c: blocks_create, blocks_next, get_block, push_block, write_page_block, read_page_block, fillblock_*")],
  observe=["bytes drpm_apply() copies from the old package"], hook="block size, number of core blocks and number of open files made small")

p("A03", "Deltas are only applied or confirmed for the package they were made for",
  "Applying and checking succeed only if the old package's name-version equals the one recorded; applying an rpm-only delta and checking a sequence without file list also only if the package's signature digest equals the recorded sequence. Otherwise they report a mismatch. "
  "Rpm-only deltas and source packages are never applied from the filesystem.",
  ["inputs", "configurations"], "all recorded and actual names and digests up to the bound, all call variants",
  T + "the delta always belongs to the package it is applied to.",
  ["src/drpm.c"], [("identity checks", "src/drpm.c: drpm_apply, drpm_check, drpm_check_sequence")], observe=["return values"])

p("A04", "Sequence identifiers are parsed exactly",
  "A sequence identifier is accepted only as a non-empty name, a dash and at least a full digest in hexadecimal; everything before the last dash is the name and the rest is the sequence, of which a single character at the end (such as the end of the line it was read from) is ignored. Nothing else is accepted. "
  "Checking modes and argument combinations that do not make sense are refused as bad arguments before anything is read.",
  ["inputs"], "all identifier texts up to the bound, all modes and argument combinations",
  T + "two well-formed identifiers are checked.",
  ["src/drpm.c"], [("identifier parsing", "src/drpm.c: drpm_check_sequence")], observe=["drpm_check_sequence()"])

p("Z01", "Compression streams pass on every byte to and from the compressor",
  "Whatever sizes data is written in, the compressor receives exactly those bytes in order and is finished exactly once, everything it produces is delivered in order to the file and to the caller, "
  "and any compressor or write failure is reported.",
  ["inputs", "fault_sequences", "configurations"], "all write sizes up to the bound, all output chunking and failures a compressor may show, every compression method",
  T + "data is small, outputs fit in one chunk, and nothing fails.",
  ["src/drpm_compstrm.c"], [("streams", "src/drpm_compstrm.c: compstrm_init, compstrm_write, compstrm_finish, writechunk_*, finish_*")],
  observe=["delta file and rebuilt package"], hook="chunk size made small")

p("Z02", "Decompression streams deliver exactly the decompressed bytes, in any read sizes",
  "Whatever sizes data is read in and however the decompressor chunks it, the reader obtains exactly the decompressed bytes in order; asking for more than there is, truncated input, and corrupt input are reported as errors, "
  "and the recorded compressed size and digest cover exactly the bytes consumed.",
  ["inputs", "fault_sequences", "configurations"], "all read sizes up to the bound, all chunkings and failures, every compression method, from file and from memory",
  T + "streams are valid and short.",
  ["src/drpm_decompstrm.c"], [("streams", "src/drpm_decompstrm.c: decompstrm_init, decompstrm_read, decompstrm_read_until_eof, readchunk_*")],
  observe=["drpm_read(), drpm_apply()"], hook="chunk size made small")

p("Z03", "The package header stays uncompressed and everything after it is compressed",
  "When a package is rebuilt, exactly the stated number of leading bytes is written uncompressed and all following bytes go through compression, however the data is split into writes, "
  "and the data returned for the digest is exactly what was written, in the same order.",
  ["inputs", "fault_sequences"], "all header lengths, all splits into writes up to the bound, every write failure",
  T + "the header is always split in the same way.",
  ["src/drpm_write.c"], [("wrapper", "src/drpm_write.c: compstrm_wrapper_init, compstrm_wrapper_write, compstrm_wrapper_finish")],
  observe=["rebuilt package and its digest"])

p("O01", "Delta creation options are validated, defaulted and copied faithfully",
  "Each option setter stores exactly what it was given when the value is allowed and otherwise refuses it and leaves the options unchanged; fresh options have the documented defaults; "
  "copying options yields an independent, equal set, and destroying options releases it.",
  ["inputs", "histories"], "all values of all setters, any order of calls up to the bound",
  T + "only a few valid settings are made.",
  ["src/drpm_options.c"], [("options", "src/drpm_options.c")], observe=["drpm_make_options_*() and the deltas made with them"])

p("E01", "Recognising prelinked files is safe for every file",
  "For every file content, deciding whether an installed file was modified by prelink reads only memory it owns, releases everything exactly once, and answers yes only for an ELF file whose section name table contains the prelink undo section.",
  ["inputs", "fault_sequences"], "every content of the first bytes, section headers and name table up to the bound, every read result",
  T + "no ELF file is ever examined.",
  ["src/drpm_apply.c"], [("ELF parsing", "src/drpm_apply.c: is_prelinked, elf16, elf32, elf64")], observe=["drpm_check(), drpm_apply() from the filesystem"])

p("I01", "Checking installed files gives the right verdict",
  "A check confirms an installed file only if its size (size check) or the digest of its content up to the recorded size (full check) equals what the package records, files modified by prelink being restored first; a differing or missing file is reported, read failures are reported as errors, and no file stays open.",
  ["inputs", "fault_sequences"], "all file contents, sizes and read chunkings up to the bound, every failing system call, both digest algorithms",
  T + "the installed-file checks are not run at all.",
  ["src/drpm_apply.c"], [("checks", "src/drpm_apply.c: check_filesize, check_full, check_prelink, checksum_*")], observe=["drpm_check(), drpm_check_sequence()"])

p("L01", "Patch lists are read safely and exactly",
  "For every content of an rpm print or patch list, reading it is memory-safe and ends in success or an error that leaves nothing behind; lists that are cut off or whose file names continue names that are too short are refused. For a well-formed list (or package given as rpm print) every file is returned with its name, mode, digest and whether it is patched; "
  "patches of another package are refused. Exactly those files are left out of the delta that are marked as not patched, unless the patch lists them with the digest they have in the old package.",
  ["inputs", "fault_sequences"], "every file content up to the bound",
  "No test uses patch lists.",
  ["src/drpm_make.c"], [("list parser", "src/drpm_make.c: patches_read, read_rpmlist, rpml_get_*, patches_destroy, patches_check_nevr")],
  observe=["drpm_make() with patch options"])

p("F01", "Failures never corrupt memory or leave resources behind",
  "If any allocation, file operation or library call fails while making, writing, reading, applying or checking a delta, expanding a sequence, compressing or decompressing, the operation returns an error, frees each resource exactly once, closes every file it opened and hands out no result.",
  ["fault_sequences"], "every subset of failing operations within the bounded run",
  "The tests never make an operation fail.",
  ["src/drpm.c", "src/drpm_write.c", "src/drpm_block.c", "src/drpm_make.c", "src/drpm_apply.c", "src/drpm_rpm.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c", "src/drpm_deltarpm.c"],
  [("cleanup paths", "src/drpm.c: drpm_make, drpm_apply, drpm_check, drpm_read; src/drpm_write.c: write_deltarpm, write_seqfile; src/drpm_block.c: blocks_create, blocks_destroy; src/drpm_rpm.c: rpm_read, rpm_write")],
  observe=["return values, heap and descriptor state"])

p("H01", "Package parts are cut at exactly the right bytes",
  "Lead, signature, header and archive of a package are taken from, replaced in and written to exactly their own bytes: archive reads never go beyond the archive and consume it in order, "
  "recorded sizes equal the bytes of the parts, and a replacement lead/signature that is too short or inconsistent is refused.",
  ["inputs", "fault_sequences"], "all archive contents and read sizes up to the bound, all replacement lead/signature bytes up to the bound, every library failure",
  T + "well-formed packages only.",
  ["src/drpm_rpm.c"], [("package access", "src/drpm_rpm.c: rpm_archive_read_chunk, rpm_fetch_*, rpm_replace_lead_and_signature, rpm_write, rpm_size_*")],
  observe=["drpm_make(), drpm_apply() results"])

p("H02", "Package attributes are taken exactly from the header",
  "Compression method and level, digest algorithm, payload format, name and file list (names, attributes, digests, link targets, colors) that drpm works with are exactly those in the package's header; unknown values and file lists whose parts "
  "differ in length or are of the wrong type are refused; an installed package is looked up by exactly the name, epoch, version and release given, and everything obtained from librpm is released exactly once.",
  ["inputs", "fault_sequences"], "all header texts, numbers and file lists up to the bound, with any part missing or inconsistent, all package names up to the bound, every failure",
  T + "well-formed packages only.",
  ["src/drpm_rpm.c"], [("attributes", "src/drpm_rpm.c: rpm_get_comp, rpm_get_comp_level, rpm_get_digest_algo, rpm_get_payload_format, rpm_get_file_info, rpm_read_header")],
  observe=["drpm_make(), drpm_apply(), drpm_check() results"])

p("G01", "Delta creation records what it was asked to record",
  "A delta that was created successfully carries the requested format version, type and compression (or the new package's when none was requested), the new package's size, digest, compression and lead/signature, the old package's name, "
  "and copies that refer to the diffed archives, and its sequence file is written if one was asked for; unsuitable arguments are refused before any output is produced.",
  ["inputs", "configurations"], "all option values, all package properties up to the bound, all call variants",
  T + "four option combinations are used.",
  ["src/drpm.c", "src/drpm_make.c"], [("make", "src/drpm.c: drpm_make; src/drpm_make.c: fill_nodiff_deltarpm")], observe=["the delta file"])

p("N01", "Third-party compression is lossless",
  "Data compressed by any supported compressor and decompressed again is the original data.",
  ["inputs", "configurations"], "all data",
  "Sampling cannot cover all data.",
  ["src/drpm_compstrm.c", "src/drpm_decompstrm.c"], [("zlib, bzip2, liblzma, lzlib, libzstd", "external")])

p("N02", "Header and database queries of librpm are right",
  "The names, file lists, digests and headers that librpm returns for a package or an installed package are those of that package.",
  ["inputs"], "all packages",
  "The tests use two packages and no database.",
  ["src/drpm_rpm.c"], [("librpm", "external")])
