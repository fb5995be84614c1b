#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with MANIFEST.json by hand)."""
import json, os
P = []
BI = "body-image/src/lib.rs"
BA = "barc/src/lib.rs"
CO = "barc/src/compress.rs"
CLI = "barc-cli/src/main.rs"
F = "body-image-futio/src/"

def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A body is exactly the bytes written, through every state transition",
  "For any sequence of appends, write-backs, preparation, gathering, memory mapping, cloning and exploding, the reported length equals the number of bytes appended and every way of reading the body yields exactly the appended bytes in order. Emptiness, RAM and memory-map indications agree with the operations performed.",
  ["inputs", "programs", "configurations"],
  "all operation sequences over a body sink and the image prepared from it, any chunking (including empty chunks), RAM or file start, images built from slices, files and file slices",
  "The unit tests run a dozen fixed sequences over 'hello world'; they never combine empty chunks, late write-back, mapping of partial files or repeated transitions.",
  [BI, "body-image/src/_mem_handle_ext.rs"],
  [("push / write_all / write_back / prepare", BI), ("gather / mem_map / reader / explode / write_to", BI)],
  ["BodyImage::reader", "BodyImage::write_to", "BodyImage::explode", "len/is_empty/is_ram/is_mem_map"],
  [("sink state", "RAM buffers or temp file plus length", BI)])

p("C02", "Clones and readers of one body never disturb each other",
  "Any number of clones of a body and readers over them, advanced in any interleaving and from any thread, each deliver the complete original content independently. Transforming, streaming or dropping one handle never changes what another handle reads.",
  ["schedules", "programs", "inputs"],
  "all interleavings of partial reads, transformations and drops over a tree of clones, single threaded and with parallel threads, in RAM, file, file-slice and mapped states",
  "Tests clone twice and read each clone to the end in turn; no interleaving of partial reads and no threads.",
  [BI, F + "stream.rs"],
  [("positioned reads over a shared file", BI), ("copy-on-gather of shared buffers", BI)],
  ["BodyImage::reader", "AsyncBodyImage stream", "BodyImage::write_to"])

p("C03", "Reading a body from any source reproduces the source bytes",
  "Reading a body from a byte source yields exactly the bytes the source delivers before its end of input, whatever the sizes of its individual reads, interruptions, the advance length estimate, and the configured thresholds and buffer sizes.",
  ["inputs", "schedules", "configurations"],
  "all source contents, read-size and interruption patterns, estimates (including 0, wrong and huge) and tunables",
  "Tests read an 11-byte cursor with defaults; short reads, interrupts, RAM to file switch-over in mid source and odd buffer sizes are not reached.",
  [BI], [("read_from fill loop and switch to file", BI), ("file read loop", BI)],
  ["BodyImage::read_from result content and length"])

p("C04", "Maximum body length is enforced and bounds what is consumed",
  "Reading a body succeeds if and only if the source holds no more than the configured maximum length; otherwise a too-long error is returned, no matter where the RAM to file switch happens. Before failing, no more than the maximum plus a few buffers is consumed from the source or held in memory, even if the source never ends.",
  ["inputs", "configurations"],
  "all source lengths around and far beyond the limits, endless sources, estimates, read sizes and tunables",
  "One test with limit 6 and 11 bytes in one read; nothing covers limits across the RAM/file switch or endless sources.",
  [BI], [("size checks in read_from and the file read loop", BI)],
  ["result of BodyImage::read_from", "bytes pulled from source", "peak heap use"])

p("C05", "RAM/file placement follows thresholds; temp files stay in place, no residue",
  "A body ends up in RAM only if its length (and estimate) is within the RAM threshold and otherwise in a file created in the configured temporary directory and nowhere else. RAM held for bodies stays within the threshold plus a few buffers, and after all handles are dropped no directory entry and no open descriptor remains.",
  ["inputs", "configurations", "programs"],
  "all lengths around the thresholds, estimates, buffer sizes and temp directories, for read-from, write-back and archive reading",
  "Tests never look at where files are created or what remains.",
  [BI, BA], [("threshold comparison and write_back", BI), ("tempfile creation in temp_dir", BI), ("compressed body read to file", BA)],
  ["is_ram", "files opened", "directory listing", "open descriptor table", "peak heap use"])

p("C06", "I/O faults on bodies are reported and never become silent corruption",
  "If any file operation or source read fails while a body is built, read or written out, the affected operation returns an error rather than success with missing or altered bytes. Partial writes, short reads and interruptions are not failures: they leave the result exact, and a failed write-back leaves an empty RAM body.",
  ["fault_sequences", "programs", "inputs"],
  "all positions and kinds of injected failure (out of space, I/O error, interruption, short transfer, failed open/seek/map) over generated operation sequences",
  "The only fault tested is a nonexistent directory for write-back.",
  [BI], [("error propagation from write_all, read, seek, open, map", BI)],
  ["result of each operation under fault injection, content afterwards"])

p("C07", "Configuration values are reported and honoured exactly as set",
  "Every configuration value set through a builder is the value reported by the finished configuration, unset values keep their documented defaults, and finished configurations are unaffected by later builder changes. Contradictory or zero values are rejected and all other combinations accepted.",
  ["configurations", "programs"],
  "all sequences of builder calls and values",
  "Tests check a handful of setters with one value each.",
  [BI, F + "tune.rs"], [("Tuner setters and finish", BI), ("FutioTuner setters and finish", F + "tune.rs")],
  ["getters on finished configurations", "builder panics"])

p("C08", "Archive records read back equal to what was written",
  "Any sequence of records written to an archive file with any compression strategies is read back complete, in order and equal in every header block (repeated names and order of values per name kept) and body, and then end of file. The same record is returned when reading sequentially or by seeking to the offset that its write reported, under any reader configuration.",
  ["inputs", "histories", "configurations"],
  "all record contents (up to 24,576 header lines within the block limit, repeated, empty and non-ASCII values without surrounding blanks, binary bodies of any size and storage state), strategies, levels, write sessions and reader tunables",
  "Tests use fixed samples and a few constructed records; no repeated headers, header counts, size boundaries, mixed strategies or threshold sweeps.",
  [BA, CO], [("write_record / read", BA), ("EncodeWrapper / DecodeWrapper", CO)],
  ["BarcWriter::write return value", "BarcReader::read"])

p("C09", "Archive bytes on disk conform to the documented format, both directions",
  "Every archive produced conforms to the documented record layout: fixed-size head with correct total and block lengths, type and compression flags, CRLF-terminated blocks when plain, a valid compressed stream otherwise. Writing only appends: existing bytes are never altered, and any archive produced by an independent conforming encoder is read back exactly.",
  ["inputs", "histories", "configurations"],
  "all generated records, strategies and pre-existing archive contents",
  "Round-trip tests through the same code cannot see a format drift applied to both writer and reader, nor changes of earlier bytes.",
  [BA, CO], [("write_record_head / read_record_head", BA), ("write_headers / write_body", BA), ("encoder finish", CO)],
  ["file bytes", "BarcReader::read on independently encoded files"])

p("C10", "A concurrent reader only ever sees whole records, at every writer step",
  "Between any two file operations of a write, and when a writer is killed there, a reader sees exactly the records whose writes are complete, followed by end of archive, never a partial record or an error; it then resumes and sees new records once complete.",
  ["crash_points", "schedules", "histories"],
  "all points between file operations of the writer, with fresh and long-lived readers, all strategies and record shapes",
  "One test reads between two complete writes; nothing observes the file during a write.",
  [BA, CO], [("reserved head written first, final head last", BA), ("reader treats reserved head as end", BA)],
  ["BarcReader::read at every intercepted file operation of the writer"])

p("C11", "Concurrent writers serialise: no lost, mixed or misplaced records",
  "When any number of threads write records through the same archive file handle, with readers running, the result holds each successfully written record exactly once and intact, at the offset its write returned, with each thread's records in its order.",
  ["schedules", "histories", "inputs"],
  "thread counts, record mixes, strategies, session lengths (one or several records per lock) and interleavings",
  "The only multi-writer test uses two threads with one small record each and no content check by offset.",
  [BA], [("write lock held per writer session", BA)],
  ["archive content after joining", "offsets returned", "reader observations while running"])

p("C12", "Malformed or truncated archives give errors, not panics or wrong data",
  "Reading any byte sequence as an archive terminates with a record, end of file or an error; it never panics, hangs, or allocates beyond what limits and input justify. A record is only returned where the bytes hold a record head with known flags, and is the record those bytes describe; end of archive is only reported at the end or at a reserved head. In particular a truncated archive never yields a record whose content differs from the record written.",
  ["inputs", "fault_sequences"],
  "arbitrary bytes, mutated valid archives (bit flips, head field changes, splices), and every truncation length, under any tunables",
  "Tests try three or four hand-made bad heads; panicking assertions on lengths and silent short bodies are not reached.",
  [BA, CO], [("read_record_head checks", BA), ("length arithmetic and read_exact", BA), ("decoder errors", CO)],
  ["BarcReader::read result", "content of returned bodies"])

p("C13", "Compression is applied exactly when the strategy's documented rule says",
  "For each record and strategy, the stored record is compressed if and only if the compressible length reaches the minimum length as adjusted for non-compressible bodies, where a body counts as compressible by its content type and, if requested, proof that it was decoded. The compression method recorded is the strategy's, and a lower threshold never turns compression off.",
  ["inputs", "configurations"],
  "all combinations of content types (case, parameters, invalid), body and header lengths around the threshold, decoded markers, strategies and settings",
  "Tests check some content types and two or three lengths; the combined arithmetic at its boundaries is not swept.",
  [CO], [("is_compressible and content-type table", CO)],
  ["compression flag of the written record"])

p("C14", "HTTP dialogs survive conversion to archive records and back",
  "Converting any dialog to a record and back, directly or through an archive file, reproduces method, URL, version, status, both header sets, both bodies and the list of decoded encodings. A record lacking or holding invalid required metadata is rejected with the error naming that field.",
  ["inputs"],
  "all methods, URL forms, versions, status codes, encoding lists, headers and bodies; all omissions and corruptions of metadata",
  "One or two fixed dialogs are converted; most encodings, versions and error branches are unreached.",
  [BA, BI], [("Dialog to Record conversion", BA), ("Record to Dialog conversion", BA), ("Encoding names", BI)],
  ["TryFrom conversions", "archive round trip"])

p("C15", "A failed archive write is reported and costs no other record",
  "If any file operation fails or is partial during a record write, the write returns an error unless the complete record was stored, all previously written records stay readable and unchanged, and readers do not see any part of the failed record. Records successfully written afterwards are all readable in sequence.",
  ["fault_sequences", "histories", "crash_points"],
  "every file operation of the write as fault position, with each error kind and short writes, any strategy, followed by further writes on the same handle",
  "No test injects any failure into the writer.",
  [BA, CO], [("error propagation in write", BA), ("encoder finish errors", CO)],
  ["BarcWriter::write results", "records visible to a fresh reader"])

p("C16", "Reader position and record bodies stay valid and independent over time",
  "A reader's offset always is the start of the next record; seeking to any record start, in any order and with several readers and a growing file, returns that record, and end of archive leaves the offset unmoved. Bodies of records read remain valid and unchanged while the reader moves on, other readers work, and the writer appends.",
  ["histories", "schedules", "configurations"],
  "all interleavings of write, read, seek and body access over several readers, with bodies in RAM, mapped, or sliced from the archive",
  "Tests do one or two seeks; body slices are read immediately.",
  [BA, BI], [("positioned reads with instance position", BA), ("body slices over the archive file", BA)],
  ["BarcReader::offset", "BarcReader::seek", "BarcReader::read", "body readers"])

p("C17", "Every stream wrapper delivers exactly the body, then ends",
  "For any body and any stream wrapper, polling to completion delivers items whose concatenation is exactly the body, then end of stream, with no empty or over-long items where a maximum item size applies. The declared size equals the body length before polling, the end indication is true exactly when everything was delivered, and a pending result is always followed by a wake-up.",
  ["inputs", "schedules", "configurations"],
  "all bodies in all storage states, wrappers, item types, buffer and item sizes, poll schedules and permit availability",
  "Forwarding tests check only the final length of a few bodies with default sizes.",
  [F + "stream.rs", F + "uni_body_buf.rs", F + "mem_map_buf.rs"],
  [("poll_impl and consumed accounting", F + "stream.rs"), ("permit and dispatch state machines", F + "stream.rs"), ("splitting", F + "uni_body_buf.rs")],
  ["Stream::poll_next", "http_body::Body methods", "waker calls"])

p("C18", "Every sink wrapper stores exactly the items sent, within limits",
  "For any sequence of items sent through any sink wrapper, after a successful flush or close the recovered body is exactly the concatenation of all items, in RAM or file according to the thresholds. An item that would exceed the maximum body length gives a too-long error, and only then.",
  ["inputs", "schedules", "configurations"],
  "all item sequences (including empty and partially consumed items), wrappers, item types, thresholds, flush placement, poll schedules and permit availability",
  "Forwarding tests use default thresholds or one small limit and check lengths only.",
  [F + "sink.rs"], [("poll_send threshold and limit logic", F + "sink.rs"), ("permit and dispatch state machines", F + "sink.rs")],
  ["Sink methods", "recovered BodySink content", "waker calls"])

p("C19", "File I/O only blocks where the chosen blocking policy allows",
  "With permit-based wrappers, file operations happen only while a permit of the configured semaphore is held, never more concurrently than permits exist, and each permit is returned even on error, end or drop. With dispatching wrappers, file operations happen only on pool threads; RAM-only bodies need neither permit nor pool.",
  ["schedules", "configurations", "programs"],
  "all bodies, wrappers, semaphore sizes, numbers of concurrent tasks, poll and drop schedules",
  "Tests never observe which thread or permit state file operations run under.",
  [F + "blocking.rs", F + "stream.rs", F + "sink.rs"],
  [("arbiter state", F + "blocking.rs"), ("permit and dispatch wrappers", F + "stream.rs")],
  ["thread and permit state at each intercepted file operation", "available permits at the end"])

p("C20", "Faults and cancellation in streams and sinks surface as errors",
  "If a file operation fails, a semaphore is closed, or a dispatch pool goes away while a stream or sink wrapper is in use, the consumer gets an error rather than a silent early end or lost item, without panic. Interruptions and short transfers change nothing, and items delivered before an error are a prefix of the body.",
  ["fault_sequences", "schedules", "inputs"],
  "each file operation as fault position, each error kind, closing or dropping at each poll, all wrappers and storage states",
  "No test injects failures or cancellation.",
  [F + "stream.rs", F + "sink.rs"], [("error mapping in poll functions", F + "stream.rs"), ("error mapping in flush", F + "sink.rs")],
  ["poll results under injected faults"])

p("C21", "Decoding a response body yields the original content or an error",
  "For a response whose body was encoded as its headers declare, decoding replaces the body by the exact original content, records what was decoded followed by the identity marker, and reports whether the body changed. Corrupt, truncated, unsupported or over-long content gives an error and leaves the dialog unmodified.",
  ["inputs", "configurations"],
  "all contents, encodings and header forms, storage states, tunables (limits around the decoded length), truncations and corruptions",
  "Unit tests only decode empty bodies; decoding of real content is only in network tests that do not run.",
  [F + "decode.rs", BI], [("decode_res_body / decompress", F + "decode.rs"), ("read_from with limits", BI)],
  ["dialog after decode_res_body", "result value"])

p("C22", "Encodings found in headers follow the documented selection rule",
  "For any header map, the encodings reported are: chunked first if transfer-encoding lists it, then at most one compression, the one applied last, with transfer-encoding taking precedence over content-encoding; unknown or identity codings are ignored, names are case-insensitive, and legacy aliases are recognised. Malformed headers never cause failure.",
  ["inputs"],
  "all header maps with any number of transfer-encoding and content-encoding headers, separators, case, whitespace, junk and non-ASCII values",
  "Tests have seven fixed header maps.",
  [F + "decode.rs"], [("find_encodings / find_chunked", F + "decode.rs")],
  ["find_encodings", "find_chunked"])

p("C23", "Body buffers obey the buffer contract under split, advance and convert",
  "For any sequence of advances, splits and conversions on buffers from a body stream, the remaining count, visible bytes and split-off parts together always partition the original content in order. Conversion to plain bytes gives exactly the remaining content, and misuse beyond the end is rejected.",
  ["programs", "inputs"],
  "all operation sequences on RAM-based and memory-mapped buffers of any length",
  "No test splits or advances a memory-mapped buffer.",
  [F + "uni_body_buf.rs", F + "mem_map_buf.rs"], [("split_to / advance / chunk", F + "mem_map_buf.rs"), ("UniBodyBuf delegation", F + "uni_body_buf.rs")],
  ["Buf methods", "AsRef/Deref", "Into<Bytes>", "split"])

p("C24", "Recorded requests equal the request actually built",
  "For any request builder and body, the recorded method, URL, headers and body equal those of the request that would be sent, and the request's own body stream delivers exactly the recorded body. An invalid builder gives an error, never a partial record.",
  ["inputs", "configurations"],
  "all methods, URLs, header sets, body kinds (none, bytes, image in any storage state) and stream wrappers",
  "Recording is only exercised by network tests that do not run in the stable set.",
  [F + "wrappers.rs", F + "lib.rs"], [("RequestRecorder implementations", F + "wrappers.rs")],
  ["RequestRecord accessors", "request body stream"])

p("C25", "A client dialog records exactly what was sent and received",
  "For any exchange with an HTTP server, the resulting dialog holds the request as sent and the status, version, headers and full body as served, under every blocking policy and threshold; bodies over the limit, closed connections and stalls beyond the timeouts give the corresponding error instead of a truncated dialog.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "all response sizes, framings (length, chunked, close), segmentations and delays, premature closes, limits, policies and timeouts",
  "The client code is not compiled in the stable test build at all.",
  [F + "fetch.rs", F + "lib.rs", F + "wrappers.rs"], [("request_dialog / resp_future", F + "fetch.rs")],
  ["Dialog returned", "bytes seen by a loopback server"])

p("C26", "Forwarding a body stream into a sink copies it exactly on any runtime",
  "Forwarding any body from any stream wrapper into any sink wrapper, on current-thread runtimes and on multi-thread ones (the only ones for permit wrappers, which block in place), with many concurrent transfers sharing permits or a pool, always completes and yields an identical body in each destination.",
  ["schedules", "inputs", "configurations"],
  "all wrapper pairs, item types, storage states, thresholds, runtimes, pool and semaphore sizes and numbers of concurrent transfers",
  "Existing forward tests use a few pairs, check only lengths and rarely run concurrently.",
  [F + "stream.rs", F + "sink.rs"], [("stream and sink state machines", F + "stream.rs")],
  ["recovered destination bodies"])

p("C27", "The print command outputs exactly the selected records and parts",
  "Printing an archive outputs, for each record selected by index, offset and count and in file order, a separator line with its file name and true offset followed by exactly the selected header blocks and bodies. Selection options combine: starting at a position and limiting to a count prints that many records from that position.",
  ["inputs", "configurations"],
  "all archives, combinations of part flags, index, offset (decimal or hexadecimal), count and several files",
  "The command line tool has no tests.",
  [CLI, BA], [("cat / filter_flags / part_flags", CLI)],
  ["standard output and exit status of the tool"])

p("C28", "The copy command appends exactly the selected records",
  "Copying appends exactly the selected records, equal in content and in order, to the output archive with the requested compression, leaving its earlier bytes and all inputs unchanged. Copying a file onto itself, however it is named, is refused without modification.",
  ["inputs", "configurations", "histories"],
  "all input archives, several inputs, selections, compression flags, existing or new outputs, and path spellings",
  "The command line tool has no tests.",
  [CLI, BA], [("cp / compress_flags / filter_flags", CLI)],
  ["archive files after the tool ran", "exit status"])

p("C29", "The command line tool fails cleanly on bad input",
  "For any bad archive, missing or unreadable file, invalid option value or closed output, the tool exits with an error status and message and without crashing, having printed or copied only complete records that precede the problem. Well-formed invocations exit with success.",
  ["inputs", "fault_sequences", "configurations"],
  "all corruptions and truncations of archives, missing and unreadable paths, option values and output failures",
  "The command line tool has no tests.",
  [CLI, BA], [("error exit in main", CLI)],
  ["exit status", "standard error", "outputs"])

p("C30", "Read faults on archives are reported; interruptions are harmless",
  "If reading an archive is interrupted or returns short reads, records are still returned exactly. If a file operation fails, the read returns an error instead of end of file or an altered record, and after the fault is gone seeking to the record's start reads it correctly.",
  ["fault_sequences", "inputs", "configurations"],
  "each file operation of a read as fault position, each error kind, short-read patterns, strategies and tunables",
  "No test injects failures into the reader.",
  [BA, CO, BI], [("interrupted handling in head and body reads", BA), ("error propagation", BA)],
  ["BarcReader::read results under fault injection"])

p("C31", "The record command appends exactly the exchange with the server",
  "Recording a URL appends exactly one record to the archive, leaving its earlier bytes unchanged: the request as the server received it and the status, version, headers and body as served, decoded unless told not to, stored with the requested compression. If the exchange, decoding or writing fails, or arguments are invalid, the tool exits with an error and the archive is unchanged.",
  ["inputs", "configurations", "fault_sequences", "histories"],
  "all responses, framings, encodings and segmentations, flags, new or existing archives, and failures of connection, response, encoding, arguments and output",
  "The command line tool has no tests, and its record command is not compiled in the stable build.",
  [CLI, BA, F + "fetch.rs", F + "decode.rs"], [("record", CLI), ("request_dialog", F + "fetch.rs")],
  ["archive file after the tool ran", "exit status", "bytes seen by a loopback server"])

p("C32", "Logging shows exactly the records due at the chosen level",
  "After setup with a level, exactly the log records due at that level are written to standard error, each as one whole line with level, target, thread and message, in order per thread and also with several threads. At level one debug output is limited to the project's own targets. A further setup fails without changing anything, and standard error being closed does no harm.",
  ["inputs", "configurations", "histories", "schedules"],
  "all levels, log record levels, own and foreign targets, threads, and repeated setup",
  "The only test logs two messages without looking at the output.",
  ["piccolog/src/lib.rs"], [("setup_logger, test_logger and the Log implementation", "piccolog/src/lib.rs")],
  ["standard error of a process using the logger"])

p("C33", "Builds without optional features differ only in clear refusals",
  "Built without memory maps, Brotli and the HTTP client, bodies, archives, streams, sinks, decoding and the tool's printing and copying behave as in the full build. What is missing is refused with a specific error: Brotli records and responses as unsupported, with the other records still readable and the response unmodified, and the tool's Brotli option and record command with an error status and no file changed. Only codings that can be decoded are offered to servers.",
  ["configurations", "inputs", "programs"],
  "all inputs of the corresponding full-build properties without the missing parts, archives mixing plain and Brotli records, Brotli-encoded responses, and tool invocations asking for what is missing",
  "The tests are run with default features; the code behind the negated features is never executed.",
  [BI, BA, CO, F + "lib.rs", F + "decode.rs", F + "stream.rs", CLI],
  [("feature-dependent variants of body, buffer and decoder types", BI), ("find decoder / unsupported encodings", F + "decode.rs"), ("compress_flags and record fall-back", CLI)],
  ["results and errors of the libraries built without features", "exit status and files of the tool built without features"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
