#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

NOPBF = "No test reads a PBF file at all (the two PBF tests are empty and not compiled); none injects a short, interrupted or failing read."
prop("C01", "PBF reading is faithful under every delivery of the bytes",
 "For every valid PBF file, and however the source splits its bytes into reads (single bytes, short reads, interrupted reads that must be retried, a file opened by name or any reader), the PBF reader yields exactly the dense nodes, ways and relations the file encodes, in file order, with id, version, visibility, changeset, timestamp, uid, user, tags, position, node list and members intact, and then stays at the end. This covers zlib-compressed and uncompressed blobs, one or several groups per block, absent metadata or absent visibility (which means visible), blocks without any tags, every coordinate granularity, offset and date granularity, and blocks of unknown type, which are skipped.",
 ["inputs", "schedules", "fault_sequences"],
 "all PBF files built from dense nodes, ways and relations; all segmentations of the byte stream and placements of retryable interruptions",
 NOPBF,
 ["src/stringpbf/mod.rs", "src/stringpbf/osmformat.rs", "src/stringpbf/fileformat.rs", "src/obj_types/string_types.rs"],
 [("length-prefixed blob framing with exact reads", "src/stringpbf/mod.rs get_next_osmdata_blob"),
  ("blob decompression", "src/stringpbf/mod.rs blob_raw_data"),
  ("delta decoding of dense nodes, ways, relations", "src/stringpbf/mod.rs decode_*")],
 [("buffer", "decoded objects of the current block not yet handed out", "src/stringpbf/mod.rs PBFReader")],
 ["PBFReader::next", "PBFReader::objects", "read_pbf"])
prop("C02", "The shared-string PBF reader is faithful too, and its objects convert losslessly",
 "For every valid PBF file and every way its bytes are delivered, the PBF reader that returns reference-counted thread-shareable objects yields exactly the encoded objects in file order with every field intact and then stays at the end. Converting such an object to the owned-string form keeps every field, and editing a clone never changes the object it was cloned from.",
 ["inputs", "schedules", "fault_sequences"],
 "all PBF files as for C01; all segmentations of the byte stream and placements of retryable interruptions; all edits of a clone",
 NOPBF,
 ["src/arcpbf/mod.rs", "src/obj_types/arc_types.rs", "src/obj_types/mod.rs"],
 [("length-prefixed blob framing with exact reads", "src/arcpbf/mod.rs get_next_osmdata_blob"),
  ("delta decoding and string table sharing", "src/arcpbf/mod.rs decode_*"),
  ("conversion to owned objects", "src/obj_types/mod.rs From<Arc*> for String*")],
 [("_buffer", "decoded objects of the current block, reversed", "src/arcpbf/mod.rs PBFReader")],
 ["arcpbf::PBFReader::next"])
prop("C03", "The node-position reader agrees with the file under every delivery",
 "For every valid PBF file and every way its bytes are delivered, the node-position reader yields the id and position of each node of the file exactly once, in file order, equal to what the full reader reports, skips ways and relations, and then stays at the end.",
 ["inputs", "schedules", "fault_sequences"],
 "all PBF files as for C01, with nodes, ways and relations in any block order; all segmentations and retryable interruptions",
 NOPBF,
 ["src/stringpbf/node_id_pos.rs", "src/stringpbf/mod.rs"],
 [("own dense-node decoding loop", "src/stringpbf/node_id_pos.rs decode_block_to_objs")],
 [("buffer", "positions of the current block", "src/stringpbf/node_id_pos.rs")],
 ["PBFNodePositionReader::next"])
prop("C04", "A broken or truncated PBF stream is never taken for a complete one",
 "If the byte source of a PBF reader (any of the three) fails with an I/O error at any point, or ends anywhere other than between two blocks, the reader yields a prefix of the file's objects, all of them correct, and then fails loudly instead of reporting the end of the data. It never hangs, and it never yields an object that is not in the file.",
 ["crash_points", "fault_sequences", "inputs"],
 "every byte offset at which the stream may fail or be cut (including inside the 4-byte length prefix), every I/O error kind, every segmentation",
 "No test has a failing or truncated reader of any format.",
 ["src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/stringpbf/node_id_pos.rs"],
 [("end-of-file detection at the length prefix", "src/stringpbf/mod.rs, src/arcpbf/mod.rs get_next_osmdata_blob"),
  ("exact reads of header and blob", "src/stringpbf/mod.rs, src/arcpbf/mod.rs get_next_osmdata_blob")],
 (), ["PBFReader::next", "arcpbf::PBFReader::next", "PBFNodePositionReader::next"])
prop("C05", "Damaged or undecodable PBF blocks are never skipped or misread",
 "If the compressed payload of a data block was altered in storage (flipped, zeroed, shortened or overwritten bytes), or a data block uses a compression the library does not support, every PBF reader yields exactly the objects of the blocks before it and then fails loudly. The same holds for a block whose contents contradict each other in what the reader uses: tag keys and values or member lists of different lengths, ids, coordinates or metadata lists that do not fit each other, references to strings or member types that do not exist, strings that are not UTF-8, positions out of range. Groups which mix types of objects, and nodes outside of dense lists, are read completely or not at all. It never silently leaves the block out and never yields an object that differs from the file as written.",
 ["fault_sequences", "inputs"],
 "every data block, every damaged byte position and damage kind inside the compressed payload; every unsupported compression kind; every kind of contradiction between the lists of a block; combined with arbitrary segmentation",
 "No test reads a damaged file.",
 ["src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/stringpbf/node_id_pos.rs"],
 [("zlib checksum verification", "src/stringpbf/mod.rs, src/arcpbf/mod.rs blob_raw_data")],
 (), ["PBFReader::next", "arcpbf::PBFReader::next", "PBFNodePositionReader::next"])
prop("C06", "PBF readers stream: no read-ahead past a block, and exact hand-over",
 "Every object of a PBF block is delivered once that block has arrived, before the reader asks its source for a single byte beyond the block. When all objects of a block have been delivered, the underlying source taken back from the reader is positioned exactly after that block, so a new reader over it continues with the next object and none is lost or repeated.",
 ["schedules", "histories", "inputs"],
 "every block at which a live source stalls, every sequence of hand-overs between readers of either kind, every segmentation",
 "No test observes how far a reader reads, nor takes a source back from a reader.",
 ["src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/stringpbf/node_id_pos.rs"],
 [("unbuffered exact reads of one block at a time", "src/stringpbf/mod.rs FileReader, src/arcpbf/mod.rs FileReader")],
 [("reader", "the source, positioned after the last block read", "FileReader")],
 ["PBFReader::inner", "PBFReader::into_inner"])
prop("C07", "Iterating by type loses nothing, in any sequence of partial iterations",
 "Over one reader of any format (both PBF readers, OSM XML, OSC), iterating nodes, ways or relations yields exactly the objects of that type, in order, starting from the reader's current position, as if all objects were iterated and the others dropped. After any sequence of partial typed or untyped iterations, a later iteration continues right after the last object consumed, with no object of the wanted type missing, repeated or changed.",
 ["histories", "schedules", "inputs"],
 "all sequences of (objects | nodes | ways | relations | single next) iterations, each stopped after any number of objects; all files; all segmentations",
 "No test uses nodes(), ways() or relations() at all.",
 ["src/lib.rs", "src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/xml/mod.rs", "src/osc/mod.rs"],
 [("block-level type filter", "src/stringpbf/mod.rs PBFReader::{nodes,ways,relations}"),
  ("generic typed iterators", "src/lib.rs OSMReader::{nodes,ways,relations}")],
 [("object_filter", "which types are decoded at present", "src/stringpbf/mod.rs")],
 ["OSMReader::nodes", "OSMReader::ways", "OSMReader::relations", "OSMReader::objects"])
prop("C08", "OSM XML reading is faithful under every delivery of the bytes",
 "For every well-formed OSM XML document, and however the source splits its bytes (including inside a character or an entity, with interrupted reads, plain or as bzip2 with one or many streams, from a file or any reader), the XML reader yields exactly the nodes, ways and relations of the document, in order, with every attribute, tag, node reference and member intact, and then stays at the end. Absent optional attributes (version, changeset, user, uid, timestamp, visible, position) are reported as absent, or as visible, and never end the stream early.",
 ["inputs", "schedules", "fault_sequences"],
 "all well-formed OSM XML documents (any attribute order, quoting, entities, comments, unknown elements, deleted nodes without a position); all segmentations, interruptions and bzip2 stream splits",
 "The compiled tests read four fixed in-memory documents delivered in one piece; the richer XML tests are not compiled.",
 ["src/xml/mod.rs", "src/lib.rs"],
 [("pull-parser loop collecting one object's events", "src/xml/mod.rs XMLReader::next"),
  ("event to object conversion", "src/xml/mod.rs xml_elements_to_osm_obj")],
 (), ["XMLReader::next", "read_xml", "xml::from_filename_bz2", "xml::from_filename_uncompressed"])
prop("C09", "OSC change files are read faithfully under every delivery of the bytes",
 "For every well-formed OSC document and however its bytes are delivered, the change reader yields every node, way and relation of every create, modify and delete section exactly once, in document order, with all fields intact, and then stays at the end. An object in a delete section is reported as deleted even if it carries no visibility or position; any other object is reported as its visibility attribute says.",
 ["inputs", "schedules", "fault_sequences"],
 "all well-formed OSC documents with any sequence of sections; all segmentations and retryable interruptions",
 "There is no test of the OSC reader.",
 ["src/osc/mod.rs", "src/xml/mod.rs"],
 [("pull-parser loop", "src/osc/mod.rs OSCReader::next"), ("event to object conversion", "src/xml/mod.rs xml_elements_to_osm_obj")],
 (), ["OSCReader::next"])
prop("C10", "A broken, truncated or damaged XML/OSC stream never passes for a complete one",
 "If the byte source of the OSM XML or OSC reader fails with an I/O error, ends before the document is complete, is a bzip2 stream with damaged bytes, or contains an object without a usable id, the reader yields a prefix of the document's objects and then fails loudly instead of reporting the end of the data. For plain streams every object yielded before the failure is exactly the document's; in every case a clean end means that all objects were yielded correctly, and the reader never hangs.",
 ["crash_points", "fault_sequences", "inputs"],
 "every byte offset of failure or cut, every I/O error kind, every damaged byte of a bzip2 stream, every segmentation",
 "No test has a failing or truncated reader.",
 ["src/xml/mod.rs", "src/osc/mod.rs"],
 [("parser errors are raised", "src/xml/mod.rs, src/osc/mod.rs next")],
 (), ["XMLReader::next", "OSCReader::next"])
prop("C11", "Text readers stream: an object is delivered as soon as its last byte arrived",
 "When the bytes of a source arrive slowly, the OSM XML, OSC and changeset readers deliver each object as soon as the last byte of its element has arrived, without asking the source for more data first. A source that stalls between two elements therefore never holds back an object that is already complete.",
 ["schedules", "inputs"],
 "every position between two elements at which the source stalls; every segmentation before it",
 "All tests deliver the whole document at once.",
 ["src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs"],
 [("stop at the end element of the object", "src/xml/mod.rs next, src/osc/mod.rs next, src/changesets.rs next_changeset")],
 (), ["XMLReader::next", "OSCReader::next", "ChangesetReader::next"])
prop("C12", "Written OSM XML is complete, well-formed and reads back unchanged",
 "For every sequence of objects and headers written through the XML writer into a sink that may accept any number of bytes per write and interrupt writes, the sink holds, once close has succeeded or the unclosed writer has been dropped, one well-formed XML document whose headers and objects are exactly those written, once each and in order. Reading it back (with any XML parser, or with the library's reader) gives equal objects, whatever characters their strings contain that XML can express, with optional fields absent where they were absent.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "all object sequences of any object type of the library, all header sets, all sinks that make progress (short writes, interruptions)",
 "One compiled test writes one fixed node into a memory buffer; the round-trip tests are not compiled.",
 ["src/xml/mod.rs"],
 [("serialisation of one object", "src/xml/mod.rs write_obj"), ("escaping", "src/xml/mod.rs write_xml_escaped"),
  ("document framing", "src/xml/mod.rs ensure_header, close, drop")],
 [("_state", "Initial, WritingObjects or Closed", "src/xml/mod.rs State")],
 ["bytes in the sink", "XMLReader over them"])
prop("C13", "Written OSC change files are complete, well-formed and read back unchanged",
 "For every sequence of objects written through the OSC writer into a sink that may accept any number of bytes per write and interrupt writes, the sink holds, once close has succeeded or the unclosed writer has been dropped, one well-formed osmChange document whose objects are exactly those written, once each and in order. Reading it back (with any XML parser, or with the library's reader) gives equal objects, including deletions, whatever characters their strings contain that XML can express.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "all object sequences of any object type of the library, all sinks that make progress (short writes, interruptions)",
 "There is no test of the OSC writer.",
 ["src/osc/mod.rs", "src/xml/mod.rs"],
 [("serialisation of one object", "src/osc/mod.rs write_obj"), ("document framing", "src/osc/mod.rs ensure_header, close, drop")],
 [("_state", "Initial, WritingObjects or Closed", "src/osc/mod.rs State")],
 ["bytes in the sink", "OSCReader over them"])
prop("C14", "Write failures surface at once and never corrupt what was acknowledged",
 "If the sink of an XML or OSC writer fails (error, full disk, write of zero bytes, failing flush), the call during which it failed returns an error (from_iter, which can't, panics before it takes another object), no call fails without such a cause, and everything acknowledged before is in the sink, followed by at most a part of the failed object. A successful close means that every byte was accepted and flushed by the sink. Dropping a writer whose sink fails, also while a panic unwinds, neither panics nor aborts, and whatever is left in the sink is never read back as a complete document with other objects than the acknowledged ones.",
 ["fault_sequences", "crash_points", "histories"],
 "every byte offset and flush at which the sink fails, transiently or for good; every history of writes, retries, close and drop around it",
 "No test has a failing sink.",
 ["src/xml/mod.rs", "src/osc/mod.rs", "src/lib.rs"],
 [("error propagation out of every write", "src/xml/mod.rs, src/osc/mod.rs write_obj/close"), ("drop closes the document", "src/xml/mod.rs, src/osc/mod.rs impl Drop")],
 [("_state", "writer state machine", "src/xml/mod.rs, src/osc/mod.rs")],
 ["return values of write_obj/close", "bytes in the sink"])
prop("C15", "The writer life cycle is respected in every order of calls",
 "In any order of calls on an XML or OSC writer, headers are accepted only before the first object (by the OSC writer never) and otherwise refused with the documented error, a writer is open exactly until close has succeeded, and objects written after that are refused with the documented error and leave no trace in the sink. Closing explicitly, closing again and dropping all lead to the same single complete document: the end of the document is written exactly once.",
 ["histories", "schedules"],
 "all sequences of set_header, write_obj, is_open, close and drop, with any sink that makes progress",
 "The only writer test calls write_obj, close and drop once, in that order, and accepts a document that ends twice.",
 ["src/xml/mod.rs", "src/osc/mod.rs", "src/lib.rs"],
 [("state machine", "src/xml/mod.rs, src/osc/mod.rs State")],
 [("_state", "writer state machine", "src/xml/mod.rs, src/osc/mod.rs")],
 ["return values", "bytes in the sink after every call"])
prop("C16", "Changeset dumps are read faithfully under every delivery of the bytes",
 "For every well-formed changeset dump and however its bytes are delivered (short and interrupted reads, plain, bzip2 with one or many streams, from a file or any reader), the changeset reader yields every changeset exactly once, in order, with id, times, open flag, user, counts and exactly its own tags, and then stays at the end. This holds for self-closing, empty and tagged elements in any order, with discussions and unknown elements and attributes in between.",
 ["inputs", "schedules", "fault_sequences"],
 "all well-formed changeset dumps; all segmentations, interruptions and bzip2 stream splits",
 "There is no test of the changeset readers (one doc example is only compiled).",
 ["src/changesets.rs"],
 [("event loop with nested tag loop", "src/changesets.rs next_changeset")],
 [("buf", "event buffer", "src/changesets.rs ChangesetReader")],
 ["ChangesetReader::next_changeset", "ChangesetReader iterator", "ChangesetReader::from_filename", "ChangesetReader::from_bz2_reader"])
prop("C17", "A broken or cut changeset dump gives an error, never a hang or a lost entry",
 "If the byte source of a changeset reader fails with an I/O error, is cut inside a changeset element, or is a damaged or cut bzip2 stream, iteration yields the dump's changesets in order up to a point and then an error within a bounded number of reads; it never loops forever, never reports a clean end, and never yields a changeset which is not in the data that arrived. A plain stream cut between changesets yields exactly the changesets that were complete. An entry which is not usable (broken number, tag without key or value, unknown entity) is reported as an error in its place, and whoever goes on gets exactly all other changesets.",
 ["crash_points", "fault_sequences", "inputs"],
 "every byte offset of failure or cut, every I/O error kind, plain and bzip2 streams, damaged bzip2 bytes, every segmentation",
 "No test has a failing or truncated reader.",
 ["src/changesets.rs"],
 [("end-of-file handling in both event loops", "src/changesets.rs next_changeset, next_tag")],
 [("curr_id", "changeset being read by the tag reader", "src/changesets.rs ChangesetTagReader")],
 ["ChangesetReader::next", "ChangesetTagReader::next"])
prop("C18", "The changeset tag reader agrees with the full changeset reader",
 "For every well-formed changeset dump file and however the file system delivers its bytes, the tag reader yields the id and the tags (in document order) of every changeset that has tags exactly once and in order, each with exactly its own tags, agreeing with the full changeset reader on the same file. It yields nothing that is not in the dump and then stays at the end.",
 ["inputs", "schedules", "fault_sequences"],
 "all well-formed dumps with any mixture of self-closing, empty and tagged changesets; all segmentations, interruptions and bzip2 stream splits",
 "There is no test of the tag reader.",
 ["src/changesets.rs"],
 [("event loop with per-changeset state", "src/changesets.rs ChangesetTagReader::next_tag")],
 [("curr_id, tags", "changeset being read", "src/changesets.rs ChangesetTagReader")],
 ["ChangesetTagReader::from_filename", "ChangesetTagReader::next"])
prop("C19", "The changeset-to-SQLite tool is all-or-nothing under crashes and I/O failures",
 "When the tool exits successfully, the database holds exactly one row per changeset element with content of the dump, with its id and its tags as JSON. If it fails or dies at any instant (input error or damage, disk full, failed write or sync, kill, power loss that drops unsynced data), the database that is left opens without corruption and holds no changeset at all or all of them, never some; a bad input never leads to success, and an existing database file is never touched. Two runs into the same database at the same time never mix: who succeeds finds exactly its own dump there, and who does not succeed leaves no part of one.",
 ["crash_points", "fault_sequences", "schedules", "inputs"],
 "every system call at which the tool may be killed or may fail, every subset of unsynced sectors lost at power failure, every interleaving of the system calls of two runs, every dump",
 "There is no test of the tool, and tests cannot crash it.",
 ["src/bin/osmio-changeset-tags-to-sqlite.rs", "src/changesets.rs"],
 [("one transaction around all inserts", "src/bin/osmio-changeset-tags-to-sqlite.rs main"), ("refusal of existing files", "src/bin/osmio-changeset-tags-to-sqlite.rs main")],
 [("txn", "open transaction", "src/bin/osmio-changeset-tags-to-sqlite.rs")],
 ["exit status", "database file after recovery"])
prop("C20", "Readers and writers on different threads never influence each other",
 "Any number of readers and writers, of the same or of different formats, working on different threads at the same time give, under every interleaving of their I/O, exactly the objects and documents they give when run alone. A reader or writer which is handed from thread to thread goes on as if it had stayed on one. Shareable objects handed to other threads keep their contents there while the reader goes on and while clones of them are edited or dropped elsewhere.",
 ["schedules", "inputs"],
 "all interleavings of the I/O operations and hand-overs of 2 to 5 concurrent readers, writers and consumers, with short and interrupted I/O",
 "No test uses more than one thread or more than one reader at a time.",
 ["src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs", "src/obj_types/arc_types.rs"],
 [("no shared mutable state between readers", "all readers own their buffers"), ("immutable shared strings", "src/obj_types/arc_types.rs")],
 (), ["results of every task"])
prop("C21", "Converting and editing files end to end preserves data across crashes",
 "Reading objects from a file in any supported format, editing them through the object API (tags, metadata, position, node list, members, deletion) and writing them as OSM XML or OSC produces, once the writer's close has succeeded, a file that reads back as exactly the edited objects in order. If the process crashes or the output loses an unwritten tail at any instant before that, re-reading the output yields a prefix of those objects followed by a loud failure, never a clean end, so an interrupted conversion is never mistaken for a finished one.",
 ["histories", "crash_points", "schedules", "inputs"],
 "all source files, all edit sequences, all crash instants in the output, all segmentations of input and output, with and without a buffering layer",
 "No test reads one file and writes another; the one that would is not compiled.",
 ["src/lib.rs", "src/obj_types/string_types.rs", "src/obj_types/arc_types.rs", "src/obj_types/mod.rs", "src/xml/mod.rs", "src/osc/mod.rs", "src/stringpbf/mod.rs", "src/arcpbf/mod.rs"],
 [("object setters", "src/obj_types/*.rs"), ("writers", "src/xml/mod.rs, src/osc/mod.rs")],
 (), ["bytes in the output", "re-reading them"])
prop("C22", "Coordinates convert between degrees, text and fixed-point without loss",
 "Every latitude and longitude that fits the 100-nanodegree fixed-point range survives conversion to degrees, to text and back unchanged, and values outside the range or that are no number are refused.",
 ["inputs"], "all 32-bit fixed-point values and all floating-point inputs",
 "The doc examples convert three values.",
 ["src/lib.rs"], [("lat_lon_impl macro", "src/lib.rs")], (), ["Lat, Lon conversions"])
prop("C23", "Timestamps compare and convert consistently between their two representations",
 "Two timestamps compare the same way whether each is held as an ISO string or as seconds since the epoch, and converting one representation to the other and back keeps the instant.",
 ["inputs"], "all pairs of timestamps from 1970 to 2106",
 "Ten fixed comparisons are tested.",
 ["src/lib.rs", "src/utils.rs"], [("TimestampFormat", "src/lib.rs")], (), ["TimestampFormat comparisons and conversions"])
prop("C24", "Reading and writing needs bounded memory and ends, however long or damaged",
 "Reading a file of any supported format or writing OSM XML or OSC, with every object dropped once it is used, holds an amount of memory that depends on single blocks or elements and not on how many there are. Whatever bytes a source delivers, including damage in lengths, frames, compressed or structural parts, a reader ends (cleanly or loudly) after a number of steps and items bounded by the amount of data, and needs memory in proportion to the data that is there rather than to what damaged size fields claim. A changeset reader that is asked again after an error comes to an end.",
 ["inputs", "histories", "fault_sequences"],
 "all lengths of files, all damaged bytes anywhere in a file, all segmentations",
 "Tests read and write at most a few objects and never damaged files.",
 ["src/stringpbf/mod.rs", "src/stringpbf/node_id_pos.rs", "src/arcpbf/mod.rs", "src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs"],
 [("one block at a time", "src/stringpbf/mod.rs, src/arcpbf/mod.rs"), ("event loops", "src/changesets.rs, src/xml/mod.rs, src/osc/mod.rs")],
 [("buffers", "current block, event, tags", "all readers")],
 ["memory held", "steps until the end of iteration"])

prop("C25", "The inspection tools account for all of their input or fail loudly",
 "When osmio-osc-debug or osmio-pbf-read-speed exits successfully, the whole input file was handled: the speed test's final count is exactly the number of objects in the PBF file, however many there are, and the debug tool has printed every object of the OSC file, once and in order. When the input is incomplete or damaged at the end, cannot be opened, fails while it is read, or the output cannot be written, the tool exits with a failure. Slow, short or interrupted reads and writes, and whatever the clock does, change nothing, and a tool always comes to an end.",
 ["inputs", "schedules", "fault_sequences", "crash_points"],
 "all input files, cuts, failing or interrupted operations and clock jumps",
 "No test runs these tools.",
 ["src/bin/osmio-osc-debug.rs", "src/bin/osmio-pbf-read-speed.rs", "src/osc/mod.rs", "src/stringpbf/mod.rs"],
 [("every object handled", "src/bin/osmio-osc-debug.rs:main, src/bin/osmio-pbf-read-speed.rs:main")],
 [("num_objects, last_print", "counters", "src/bin/osmio-pbf-read-speed.rs")],
 ["exit status", "standard output", "standard error"])

prop("C26", "Files given by name are reported, read and released as they are",
 "Opening a file by name (every from_filename constructor, read_pbf, read_xml) for any way to write the path returns an error, which tells the system's cause, exactly if the file cannot be opened; it neither panics nor yields an empty reader, and being interrupted changes nothing. A reader keeps to the file it has opened: replacing or removing the name later, or opening the same name again, has no influence on it, while everything opened afterwards sees the new file. No file is opened for writing, a reader holds at most one descriptor, and releases it when it is dropped, also in the middle of the file or after a failure.",
 ["histories", "fault_sequences", "inputs"],
 "all histories of opening, reading, replacing, removing and closing files, all failures to open",
 "No test opens a file that does not exist, or more than one.",
 ["src/lib.rs", "src/stringpbf/mod.rs", "src/stringpbf/node_id_pos.rs", "src/arcpbf/mod.rs", "src/xml/mod.rs", "src/changesets.rs"],
 [("constructors by name", "src/lib.rs:read_pbf, read_xml; from_filename in every reader")],
 (), ["results of the constructors", "open descriptors", "objects read"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
