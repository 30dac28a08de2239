#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "A built partition reads back exactly as it was supplied",
 "For every partition handed to the disc builder (ticket, TMD, certificates, partition header, bi2, apploader, DOL, file tree, file contents and per-file padding), opening the finished image with the reader returns the same disc header, region, ticket, certificates, bi2, apploader, DOL, directory structure and file names, and every file has exactly the supplied length and bytes, whether read in one go, through an opened file or piecewise. This holds for every combination of sizes, including empty items and items that start, end or straddle block, group and 16 MiB batch boundaries, and for partitions larger than 4 GiB. Only the fields the builder owns (DOL/FST location, TMD signature, fakesign padding, first content size and hash) may differ from what was supplied.",
 ["inputs"], "all partition definitions: blob sizes, file counts, tree shapes, file sizes, paddings, keys",
 "No existing test builds an image at all; the only stream test writes one fixed pattern and has its central assertion commented out. Off-by-one errors at block (0x7C00), group (0x1F0000) and batch (16 MiB) boundaries need particular size combinations.",
 ["src/builder.rs", "src/reader_writer.rs", "src/new_reader.rs", "src/fst.rs", "src/structs.rs"],
 [("partition writing order and offset bookkeeping", "src/builder.rs add_partition"), ("group cache write-back and reload", "src/reader_writer.rs write/flush"), ("group decrypting reader", "src/new_reader.rs EncryptedPartState")],
 ["WiiIsoReader::open / open_partition / read_* / open_file / get_crypto_reader on the bytes written by WiiDiscBuilder"],
 [("group cache", "plaintext of one 2 MiB group being written", "src/reader_writer.rs"), ("current_data_offset", "where the next partition starts", "src/builder.rs")])

prop("C02", "Rebuilding a directory reproduces its system files and file tree",
 "For every extracted directory (disc header, region, ticket, TMD, certificates, bi2, apploader, DOL and any tree of files), building an image from it and reading that image gives back the same system files and exactly the set of files below the files folder, each at the same path with the same bytes. The result does not depend on the order in which the operating system lists directory entries. Symbolic links stand for what they point at, and other files beside these have no influence. If a required file is missing the build fails with an error that names it.",
 ["inputs", "schedules"], "all directory trees, file sizes, directory listing orders, sets of missing required files",
 "The only directory test lists /src and checks that more than four entries exist; nothing is ever built from a directory and the listing order of the test machine is the only one seen.",
 ["src/builder.rs", "src/dir_reader.rs"],
 [("directory scan into a sorted table", "src/dir_reader.rs build_fst_from_directory_tree"), ("DirPartitionBuilder", "src/builder.rs")],
 ["builder::build_from_directory then WiiIsoReader"])

prop("C03", "Every built image passes the console's encryption and hash checks",
 "In every image the builder produces, each 32 KiB block decrypts under the title key from the partition's ticket (hash area with a zero IV, data with the IV at offset 0x3D0 of the encrypted hash area), every H0, H1 and H2 hash and all hash padding is correct in every block, and the global hash table holds the hash of every group and zeros after the last. The TMD's first content records the partition's data size and the SHA-1 of the global hash table, the signature area is zeroed and the SHA-1 of the signed part begins with a zero byte. The ticket's encrypted title key decrypts, with the common key it names, to the key actually used.",
 ["inputs"], "all partition contents and sizes, keys, key indexes, TMD content counts",
 "No test recomputes a single hash or checks an IV; a roundtrip through the same code would not notice a symmetric error.",
 ["src/reader_writer.rs", "src/builder.rs", "src/structs.rs"],
 [("hash tree and encryption of a group", "src/reader_writer.rs hash_encrypt_block"), ("TMD fixing and fakesigning", "src/builder.rs add_partition"), ("title key encryption", "src/structs.rs encrypt_title_key")],
 ["raw bytes of the finished image, judged by an independent decoder"])

prop("C04", "Image layout is disjoint, aligned, in bounds and zero padded",
 "In every built image the encrypted partition data contains the header at 0, bi2 at 0x440, the apploader at 0x2440, and the DOL, file system table and all files at the offsets the headers and table state, with no two of them overlapping and all of them inside the declared data size, which is the smallest whole number of groups that holds them. Every file starts on a 64-byte boundary and is followed by at least the padding its definition asked for, and every byte of the partition data that belongs to none of these is zero. Outside the encrypted data, partition header, TMD, certificate chain, hash table and data regions do not overlap, and the declared sizes and offsets (including the table's size and maximum size) match what is stored.",
 ["inputs"], "all sizes, paddings, tree shapes, TMD content counts, certificate kinds",
 "Tests never look at offsets; overlaps and stale bytes only show for particular size combinations or in the second and later groups.",
 ["src/builder.rs", "src/reader_writer.rs", "src/fst.rs"],
 [("alignment and padding arithmetic", "src/builder.rs align_next and padding loop"), ("group cache initialisation", "src/reader_writer.rs write")],
 ["decrypted partition data and headers of the finished image"])

prop("C05", "Multi-partition images keep every partition separate and listed once",
 "After any sequence of partition additions (successful or failing) and finishes, the finished image lists exactly the successfully added partitions, in the order they were added, with their types and offsets; each of them reads back complete and unchanged by anything added later, and no two partitions occupy the same bytes. A partition whose addition failed is not listed and does not disturb the others.",
 ["histories", "inputs"], "all sequences of add / failing add / finish with partitions of different sizes and types",
 "No test adds even one partition.",
 ["src/builder.rs", "src/structs.rs"],
 [("running data offset and partition list", "src/builder.rs add_partition/finish"), ("partition table reading", "src/structs.rs read_parts")],
 ["WiiIsoReader::partitions and partition contents after WiiDiscBuilder::finish"],
 [("partitions", "table entries written by finish", "src/builder.rs")])

prop("C06", "File system table serialization is lossless and well formed",
 "For every tree of files and directories (nested up to 250 levels deep; deeper ones may be refused), serializing the file system table and reading it back yields the same tree: same nesting, order, names, file offsets (multiples of 4 below 16 GiB) and lengths. The stored table is valid for the console: the root entry counts all nodes, each directory entry gives its parent's index and the index just past its last descendant, and name offsets point at NUL-terminated names in the string area. Reading works at any position of the stream.",
 ["inputs"], "all ordered trees, names, offsets and lengths; also tens of thousands of nodes and deep nesting",
 "One fixed four-node tree with all offsets and lengths zero is tested; parent indexes are never looked at.",
 ["src/fst.rs"],
 [("flattening recursion", "src/fst.rs build_node_bytes_rec / rec_build_fst_bytes"), ("parsing recursion", "src/fst.rs transform_fst_rec")],
 ["FstToBytes::write_to, Fst::read and the raw table bytes"])

prop("C07", "File names survive serialization unchanged or are rejected",
 "For every Unicode file or directory name, turning a tree containing it into a file system table either is refused with an error or stores the name so that reading the table back gives the identical name; no name is silently altered, truncated or merged with another.",
 ["inputs"], "all Unicode scalar values as names and inside names, all characters Shift-JIS can express, name lengths",
 "Tests use ASCII names only; Shift-JIS has lossy mappings for individual characters.",
 ["src/fst.rs"],
 [("Shift-JIS encoding with error reporting", "src/fst.rs rec_build_fst_bytes"), ("Shift-JIS decoding", "src/fst.rs read_shiftjs")],
 ["FstToBytes::try_from + write_to + Fst::read"])

prop("C08", "Editing the file tree behaves like an ordered, case-insensitive map",
 "Starting from any ordered tree, after any sequence of additions and removals: adding at a path creates missing directories, places the node so that siblings stay ordered by ASCII-lowercased name, replaces and returns an existing sibling whose name matches ignoring ASCII case, and otherwise reports that nothing was replaced; adding below a file fails and leaves the tree unchanged. Looking up and removing by path match names exactly, find a node if and only if it is there, and removal returns the node and removes nothing else. Restoring the order of an arbitrary tree keeps all nodes and makes every level ordered.",
 ["histories", "inputs"], "all edit sequences over colliding names and nested paths, from every reachable ordered tree",
 "Each test runs one short fixed edit sequence; case collisions, replacing directories and nested failures are not reached.",
 ["src/fst.rs"],
 [("binary search insertion", "src/fst.rs add_node_iter"), ("path walk", "src/fst.rs find_node_iter/remove_node_iter"), ("case-insensitive comparison", "src/fst.rs ordering_ignore_case")],
 ["Fst::add_node_path, remove_node_path, find_node_path(_mut), fix_ordering, get_entries"],
 [("entries", "sorted nested node lists", "src/fst.rs Fst")])

prop("C09", "Traversing the file tree visits every node once with its full path",
 "For every tree, the read-only and mutating traversals call back for every node exactly once, parents before children and siblings in order, with exactly that node's full path; the traversal used while writing visits every file and only files, in the same order, and changes made to offset and length through it are what gets serialized. If a callback renames a node, its descendants are reported under the new name; if a callback returns an error, the traversal stops at once and returns that error. The reported file count equals the number of files.",
 ["inputs", "histories"], "all trees up to a size bound, every callback position for errors and renames",
 "No test calls a traversal.",
 ["src/fst.rs"],
 [("recursive callbacks with a path stack", "src/fst.rs callback_all_files*")],
 ["Fst::callback_all_files, Fst::callback_all_files_mut, FstToBytes::callback_all_files_mut, get_total_file_count"])

prop("C10", "Random access to decrypted data equals reading a flat byte array",
 "For every partition and every sequence of seeks, reads, positioned reads, file openings and system-file reads, on one or several partitions of the same image interleaved, every read returns exactly the bytes the partition's decrypted data has at that position, advances the position by what it returned, makes progress unless it is at the end of the data, and never reports bytes beyond the end of the data. Positioned reads and reads through opened files return the requested range (cut at the end) and do not depend on earlier operations.",
 ["histories", "inputs"], "all operation sequences over boundary positions and lengths, several partitions, partitions beyond 4 GiB",
 "No test reads from an encrypted partition; the one-group cache makes results depend on the order of operations.",
 ["src/new_reader.rs", "src/window.rs"],
 [("single-group cache", "src/new_reader.rs do_load_group/get_decrypted_block_data"), ("position arithmetic", "src/new_reader.rs read_into/read_into_vec")],
 ["CryptPartReader Read/Seek/read_into_vec, open_file, open_window, read_bi2/read_apploader/read_dol/read_tmd/read_certificates"],
 [("current_group + group_cache", "which decrypted group is buffered", "src/new_reader.rs EncryptedPartState")])

prop("C11", "An I/O window is a faithful, bounded view of its source",
 "For every window start and length, initial source position and sequence of reads, exact reads, writes and seeks, the window behaves like a file that contains just the source bytes from start for the given length: reads and writes hit exactly those bytes, relative seeks count from the window's own position, seeks from the end count from the window's end (and are refused when it has no length), and reported positions are relative to the window. Nothing outside the window is ever returned or modified. An exact read succeeds if and only if the window holds enough bytes from the current position. When the source fails, is interrupted or transfers less than asked, the window reports that and nothing else: it never returns or stores other bytes than those, reports a flush as done that was not, or loses its position.",
 ["histories", "inputs"], "all operation sequences up to a depth, window placements, initial source positions",
 "Two fixed sequences are tested; exact reads on a bounded window and relative seeks before the first access are not.",
 ["src/window.rs"],
 [("position translation", "src/window.rs IOWindow")],
 ["IOWindow Read/Write/Seek and the source's bytes"],
 [("pos/start/length", "window-relative position and bounds", "src/window.rs")])

prop("C12", "Read errors never turn into wrong data",
 "Whatever read, seek or short-read behaviour the underlying file shows (short reads, interruptions, or a failure at any single operation), opening an image and reading partitions, files, system files and stand-alone file system tables either returns an error or the correct data, never wrong or truncated data and never a panic. Short reads and interrupted reads are absorbed. After a failed operation, repeating it on the same reader once the fault is gone returns the correct data.",
 ["fault_sequences", "histories"], "a fault of every kind at every I/O operation of reading histories",
 "No test injects an I/O failure; a cached group must not survive a failed load.",
 ["src/new_reader.rs", "src/fst.rs", "src/window.rs", "src/structs.rs"],
 [("cache invalidated before loading", "src/new_reader.rs do_load_group"), ("read_exact everywhere", "src/new_reader.rs, src/structs.rs")],
 ["all reader entry points over a fault-injecting Read+Seek"])

prop("C13", "A build that reports success has written the complete image",
 "Whatever the destination does (short writes, interruptions, or a failure at any single write, read, seek or flush), and whatever source access or definition callback fails, a build either reports an error or has written exactly the image a fault-free build writes, all of it flushed (likewise for writing a stand-alone file system table, apart from flushing); short and interrupted writes are absorbed and no failure causes a panic. An error from the partition definition is returned unchanged.",
 ["fault_sequences"], "a fault of every kind at every destination operation, definition callback and source file access of a build",
 "No test injects an I/O failure.",
 ["src/builder.rs", "src/reader_writer.rs", "src/window.rs", "src/dir_reader.rs"],
 [("error propagation and write_all", "src/builder.rs, src/reader_writer.rs, src/window.rs"), ("final flush", "src/builder.rs finish")],
 ["WiiDiscBuilder / build_from_directory results and the bytes in the destination"])

prop("C14", "Malformed images and directories are refused without crashing",
 "Opening, listing and reading any damaged or hostile image, and building from any damaged directory, ends with an error or a result; it never panics, aborts, overflows the stack or hangs, and the memory it takes is bounded by the size of the input, whatever lengths and counts it claims and however often it uses the same bytes. A file system table is accepted only if its directories nest properly within the declared node count, and then exactly the tree it describes is returned; a first entry that is not a proper root is refused. A ticket naming an unknown common key is refused.",
 ["inputs"], "all small file system tables over an adversarial field alphabet, all single-field corruptions of every header field, every truncation point of the metadata",
 "Tests only parse well-formed data.",
 ["src/fst.rs", "src/structs.rs", "src/new_reader.rs", "src/builder.rs"],
 [("table validation", "src/fst.rs Fst::read/transform_fst_rec"), ("field validation while parsing", "src/structs.rs"), ("size arithmetic", "src/new_reader.rs read_apploader/read_dol")],
 ["Fst::read, WiiIsoReader::open, open_partition and all read_* calls, builder::build_from_directory"])

prop("C15", "Disc structures are decoded and encoded losslessly at fixed offsets",
 "For disc header, ticket, TMD, certificates, partition header and partition table entries, every meaningful field is read from and written to its documented big-endian offset, decoding then encoding reproduces the bytes (reserved areas are written as zero), and encoding then decoding reproduces the values. This includes game titles of every length the 64-byte field allows, every signature and key type, any number of TMD contents, and shifted offsets up to 16 GiB. A title or a number of contents that has no stored form is refused rather than altered. A ticket's title key is decrypted and re-encrypted with the common key and title id the ticket names.",
 ["inputs"], "every byte position of every structure with every byte value, all variants, title lengths and content counts",
 "No test parses or writes any of these structures.",
 ["src/structs.rs", "src/lib.rs"],
 [("binrw layouts", "src/structs.rs"), ("title key codec", "src/structs.rs encrypt_title_key/decrypt_title_key"), ("shifted offsets", "src/lib.rs ShiftedU64")],
 ["read_be/write_be of the public structures, WiiIsoReader on hand-made images"])

prop("C16", "Progress reports start at 0, never go back and end at 100",
 "While building from correct file sizes, the progress callback is first called with 0, afterwards with values between 0 and 100 that never decrease and that equal (to within one) the percentage of file bytes written so far (or of files, when all files are empty or sizes are unknown), and the last report is 100 whenever there is at least one non-empty file (or, without known sizes, at least one file). Progress reporting never influences the image.",
 ["inputs", "histories"], "all file counts and size combinations, known and unknown sizes, multi-batch files",
 "No test passes a progress callback.",
 ["src/builder.rs"],
 [("byte and file based progress", "src/builder.rs add_partition")],
 ["sequence of values passed to the progress callback"])

prop("C17", "Builds are deterministic and rebuilding an extracted image is stable",
 "Building the same input twice gives byte-identical images, whatever the order in which directory entries are listed or were created. Extracting an image that was built from a directory and rebuilding it gives a partition whose encrypted data, hash table, TMD, ticket and certificates are byte-identical to the first. What is read back from an image does not depend on what the destination contained before the build.",
 ["inputs", "histories", "schedules"], "all definitions and directory trees in the bound, listing orders, previous destination contents, build/extract/rebuild chains",
 "Nothing is ever built twice in a test.",
 ["src/builder.rs", "src/reader_writer.rs", "src/dir_reader.rs", "src/fst.rs"],
 [("sorted insertion", "src/dir_reader.rs + src/fst.rs"), ("fixed fakesign search", "src/builder.rs"), ("complete rewriting of headers", "src/builder.rs finish")],
 ["bytes of images from repeated builds"])

prop("C18", "Extraction writes exactly the section's system files and files",
 "For every image and prepared section, extracting to a directory creates, under the section's name, the disc header and region, ticket, TMD, certificates, boot header, bi2, apploader, DOL and file system table as stored in the image, and exactly the files of the section at their paths with their exact bytes and lengths, for every file size including empty files and sizes around the copy buffer, block and group boundaries. Reported progress never decreases, stays between 0 and 100 and ends at 100 when there is file data. The extracted directory can be rebuilt into an image with the same contents. An image whose files or system files are incomplete, or an output that cannot be written, raises an error instead of leaving missing or shortened files behind a reported success.",
 ["inputs", "histories"], "all file sizes around internal boundaries, trees, sections and numbers of sections",
 "The Python bindings and extraction have no tests.",
 ["disc-riider-py/src/lib.rs", "src/new_reader.rs"],
 [("chunked copy loop", "disc-riider-py/src/lib.rs extract_to"), ("system file extraction", "src/new_reader.rs extract_system_files")],
 ["files created by the Python WiiIsoExtractor.extract_to"])

prop("C19", "Extraction never writes outside the destination directory",
 "Whatever names the file system table of an image contains (parent references, absolute paths, embedded separators, dots, empty names), extracting it creates or modifies nothing outside the destination directory; such an image is refused with an error or its files land inside the destination.",
 ["inputs"], "all trees up to a bound over an alphabet of hostile names",
 "Extraction has no tests at all.",
 ["disc-riider-py/src/lib.rs"],
 [("path construction from table names", "disc-riider-py/src/lib.rs extract_to")],
 ["file system outside the destination after the Python WiiIsoExtractor.extract_to"])

prop("C20", "The extractor honours section selection and file filters exactly",
 "After any sequence of preparing sections, filtering files by a predicate and asking for DOL hashes, extraction writes exactly the prepared sections, once each, with exactly the files for which no filter of that section answered true, unchanged. Section names are matched ignoring case and mean the first partition of that type; preparing an unknown, absent or already prepared section, or filtering or hashing an unprepared section, raises an error and changes nothing. Each filter sees every remaining file of that section exactly once with its slash-separated path, and the DOL hash is the SHA-1 of the section's DOL.",
 ["histories", "inputs"], "all operation sequences up to a depth over sections and predicates",
 "The Python bindings have no tests.",
 ["disc-riider-py/src/lib.rs"],
 [("sections_to_extract list", "disc-riider-py/src/lib.rs"), ("recursive retain", "disc-riider-py/src/lib.rs remove_files_by_callback")],
 ["results and exceptions of the Python WiiIsoExtractor and the extracted directory"],
 [("sections_to_extract", "prepared sections with their filtered trees", "disc-riider-py/src/lib.rs")])

prop("C21", "The command line tool reports and rebuilds faithfully",
 "For every image, listing sections prints each partition's type and offset in order, printing files prints every node of the chosen section once, indented by depth and in order, and extracting system files writes the section's system files as stored; for every extracted directory, rebuilding writes the same image as the library. Section names are accepted ignoring case and mean the first partition of that type; every invalid request (unknown or absent section, unreadable image, system files reaching past the end of the data, incomplete directory, outputs that cannot be written) ends with a non-zero exit status and a success ends with zero.",
 ["inputs", "configurations"], "all commands, section arguments and images in the bound",
 "The tool has no tests.",
 ["iso-tool/src/main.rs", "src/fst.rs", "src/new_reader.rs"],
 [("argument dispatch", "iso-tool/src/main.rs main"), ("tree printing", "src/fst.rs print_tree")],
 ["stdout, exit status and files written by the iso-tool binary"])

prop("C22", "Copying an image keeps everything but the dropped movies",
 "For every image with a data partition containing a THP directory, the image copy function writes an image whose disc header, region, ticket, certificates, system files and files equal the source's, except that entries directly below THP whose names do not start with Demo are absent; all copied files have their exact bytes wherever they lay in the source, and a source whose files or system files are incomplete is refused with an error. The source is never changed, even if it is named as the destination as well. (Sibling names are distinct ignoring case.)",
 ["inputs"], "all trees with THP entries in the bound, file sizes and source layouts",
 "The copy function has no tests.",
 ["src/builder.rs"],
 [("CopyBuilder", "src/builder.rs build_copy")],
 ["builder::build_copy output read by an independent decoder"])

prop("C23", "The encrypted stream behaves like a plain file under any write history",
 "For every history of seeks, writes and flushes on the encrypted read/write stream that leaves no whole group unwritten in between, the data stored after the final flush decrypts to what a plain zero-filled file would contain after the same writes, with correct block hashes and group hash entries for every group; data from before a flush is preserved by later writes to the same group. Reads issued when no written data is pending return the plain file's bytes, positions advance by the bytes transferred, and writes stop at the maximum group when one is set.",
 ["histories"], "all write/seek/flush/read sequences up to a depth over boundary positions and lengths",
 "One fixed sequence of three writes and one flush is tested, with the key assertion commented out; writes after a flush never happen.",
 ["src/reader_writer.rs"],
 [("single-group write-back cache", "src/reader_writer.rs write/flush/do_load_group")],
 ["WiiEncryptedReadWriteStream over an in-memory file, judged by an independent decoder"],
 [("current_group/is_dirty/filled_groups", "what the cache holds and what exists on disc", "src/reader_writer.rs")],
 hook="re-export of the private encrypted stream type (feature verif-hooks)")

prop("C24", "Conflicting or unrepresentable directory entries fail the build",
 "When a source directory holds two entries (files, or folders containing files) in one folder whose names differ only in ASCII case, or a name that is not valid Unicode or cannot be expressed on the disc, building fails with an error rather than dropping, merging or renaming anything, in every directory listing order. Every directory tree without such conflicts builds, and two entries of the same name in different folders are both kept.",
 ["inputs", "schedules"], "all directory trees over a colliding name alphabet, in every listing order",
 "The only directory test lists /src, which has no conflicts.",
 ["src/dir_reader.rs", "src/builder.rs", "src/fst.rs"],
 [("duplicate detection by case-insensitive insertion", "src/dir_reader.rs build_fst_from_directory_tree_rec"), ("opening by stored path", "src/builder.rs DirPartitionBuilder::get_file_data")],
 ["builder::build_from_directory result and the image's file tree"])

prop("C25", "Rebuilding from Python writes the directory's image or raises",
 "For every extracted directory, rebuilding it through the Python module leaves in the destination exactly the image the library builds from that directory, whatever the destination file held before and whatever was rebuilt earlier; the source directory is not changed and other destinations stay as they are, extracting the new image returns the directory's files unchanged, progress values stay within 0 to 100, never go back and end at 100 when there is file data, and a progress callback that raises does not spoil the image. If the directory is incomplete or the destination cannot be opened or written completely, the call raises an exception.",
 ["inputs", "histories", "crash_points"], "all source directories, former destination contents, sequences of rebuilds and write limits in the bound",
 "The Python bindings have no tests.",
 ["disc-riider-py/src/lib.rs", "src/builder.rs"],
 [("opening and truncating the destination, error conversion", "disc-riider-py/src/lib.rs rebuild_from_directory"), ("directory build", "src/builder.rs build_from_directory")],
 ["destination file and exceptions of the Python rebuild_from_directory"])

prop("C26", "Partitions the disc format cannot hold are refused, not damaged",
 "A partition that exceeds a limit of the disc format (TMD and certificates that do not fit in front of the hash table at 0x8000, a bi2 longer than 0x2000 bytes, a file of 4 GiB or more, more than 16 MiB of names, directories nested deeper than the reader follows, more than 4915 groups of data, a start at or beyond 16 GiB, more than the 7164 partitions the table has room for) is refused with an error, never by a panic and never by reporting success for an image that does not hold what was supplied; partitions added afterwards are not affected. Everything up to these limits is accepted and reads back exactly.",
 ["inputs"], "all definitions on both sides of each limit",
 "No test builds a partition, let alone one near a limit.",
 ["src/builder.rs", "src/fst.rs", "src/reader_writer.rs", "src/dir_reader.rs"],
 [("limit checks while adding a partition", "src/builder.rs add_partition"), ("24-bit name offsets and nesting limit", "src/fst.rs rec_build_fst_bytes"), ("maximum group", "src/reader_writer.rs write"), ("file size limit", "src/dir_reader.rs")],
 ["result of WiiDiscBuilder::add_partition / build_from_directory / FstToBytes::try_from and the image read back"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
