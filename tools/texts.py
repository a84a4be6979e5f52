"""Property texts."""

HOOK_COMMITS = []
NOT_APPLICABLE = {
    "N01": "The code is behind the hyper-http and futio features, which need"
           " hyper's client and OpenSSL. These features are not part of the"
           " build here (their dependencies cannot be had offline), so there"
           " is no code to execute. What it is made of (sinks, limits,"
           " decoding, request records) is covered by F01 to F12.",
}

BI = "body-image/src/lib.rs"
BA = "barc/src/lib.rs"
BC = "barc/src/compress.rs"
FS = "body-image-futio/src/sink.rs"
FT = "body-image-futio/src/stream.rs"
FD = "body-image-futio/src/decode.rs"
FU = "body-image-futio/src/tune.rs"
FL = "body-image-futio/src/lib.rs"
FB = "body-image-futio/src/uni_body_buf.rs"
FM = "body-image-futio/src/mem_map_buf.rs"
FW = "body-image-futio/src/wrappers.rs"
FK = "body-image-futio/src/blocking.rs"
CL = "barc-cli/src/main.rs"
PL = "piccolog/src/lib.rs"


def prop(id, title, statement, over, text, why, files, mech, state=None,
         observe=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


TEXTS = [
    prop("C01", "A body holds exactly the bytes accepted, in every form",
         "Whatever sequence of pushes, writes and write-backs to disk fills a"
         " body, the finished body's length and its bytes are exactly the"
         " concatenation of the accepted chunks in order. This is so for"
         " every way of getting at the bytes (a reader with any buffer size,"
         " writing it out to any writer, taking it apart), before and after"
         " gathering into one buffer or memory mapping, and for clones. A"
         " body tells correctly whether it is in memory or memory mapped.",
         ["inputs", "histories"],
         "all chunk contents and sizes, all orders of sink operations, all"
         " conversions and read granularities",
         "Unit tests sample a few fixed strings and one or two operation"
         " orders; they never combine write-back, empty chunks, conversion"
         " and partial reads.",
         [BI],
         [("BodySink push/write_all/save/write_back/prepare", BI),
          ("BodyImage mem_map/gather/reader/write_to/explode", BI)],
         [("len", "bytes accepted so far", BI)],
         ["BodyImage::len", "BodyImage::reader", "BodyImage::write_to",
          "BodyImage::explode"]),
    prop("C02", "Size limits bound what is accepted, held in memory and read",
         "Reading a body from a source never yields a body longer than the"
         " maximum, and a source longer than the maximum is always rejected as"
         " too long, while no shorter one is. Not more than the memory limit"
         " plus one buffer is held in memory before the body moves to a file,"
         " a body kept in memory is within the memory limit, and the source is"
         " not consumed further than the maximum plus one buffer. This does"
         " not depend on the length estimate given, and a source that, like"
         " its estimate, is within the memory limit stays in memory.",
         ["inputs", "configurations"],
         "all limits, estimates, buffer sizes, source lengths and read sizes",
         "Tests use one over-long source smaller than a single buffer; the"
         " boundary cases and the switch from memory to file while counting"
         " are not reached.",
         [BI],
         [("BodyImage::read_from", BI), ("read_to_body_fs", BI),
          ("Tunables", BI)],
         [("size", "bytes read so far, compared to the limits", BI)],
         ["result of BodyImage::read_from", "bytes taken from the source"]),
    prop("C03", "Reading a source captures it completely or reports an error",
         "A body read from a source has exactly the bytes the source delivered"
         " until its end, for any division into reads, any buffer sizes,"
         " interruptions of reads or writes, and short writes. If the source"
         " or the file system fails then an error is returned, which for a"
         " source failure is the source's own; a body is never silently"
         " truncated.",
         ["inputs", "fault_sequences", "configurations"],
         "all contents, read divisions, interruption and failure points",
         "Tests read from in-memory cursors which deliver everything in one"
         " read and never fail.",
         [BI],
         [("BodyImage::read_from", BI), ("read_to_body_fs", BI)],
         None, ["result of BodyImage::read_from"]),
    prop("C04", "A failed operation leaves no trace in a body",
         "When writing to a body or moving it to disk fails, the failure is"
         " reported, the body's length and bytes are exactly those of the"
         " operations that succeeded (nothing at all after a failed move to"
         " disk), and it remains usable. A failed memory map or read leaves"
         " the body unchanged and is reported; it can be repeated. Writing a"
         " body out succeeds only if all of its bytes were written.",
         ["fault_sequences", "histories"],
         "all positions of open, write, short write, read and map failures in"
         " all operation orders",
         "One test has a failing write-back from a bad directory; failures in"
         " the middle of a write cannot be arranged in unit tests.",
         [BI],
         [("BodySink::push/write_all/write_back", BI),
          ("BodyImage::mem_map/write_to/reader", BI)],
         [("len", "bytes accepted so far", BI)],
         ["BodySink::len", "BodyImage content"]),
    prop("C05", "Readers and clones of a body are independent",
         "Any number of readers over a body and its clones, advanced in any"
         " interleaving, each see the complete body from its start, whatever"
         " conversions, writes or drops happen to other clones meanwhile.",
         ["schedules", "inputs"],
         "all interleavings of reads, conversions, writes and drops",
         "A test reads two clones one after the other; a shared file position"
         " or shared buffer would only show when interleaved.",
         [BI],
         [("BodyImage::clone, reader", BI), ("ReadSlice positions", BI)],
         None, ["BodyReader::read"]),
    prop("C06", "A body over a range of a file is exactly that range",
         "A body made from an existing file with a length, or from a range of"
         " a file, has exactly the bytes of that range for all ways of reading,"
         " writing, mapping or taking it apart, wherever the range starts and"
         " ends, also relative to memory pages, and whether or not the range"
         " object was read before.",
         ["inputs"],
         "all file contents and all ranges",
         "Tests use a whole file, so ranges that start or end within the file"
         " are never seen.",
         [BI, "body-image/src/_mem_handle_ext.rs"],
         [("BodyImage::from_file, from_read_slice", BI),
          ("BodyImage::mem_map/write_to/reader/explode", BI)],
         None, ["BodyImage content"]),
    prop("C07", "Body files are temporary, where configured, and released",
         "The library keeps body data only in files of the configured temporary"
         " directory. Once a body with its clones, readers, buffers, streams,"
         " sinks and records is dropped, in any order, at any point of its use,"
         " and also after failures, no such file is left, and no file or memory"
         " map is still held open.",
         ["histories", "fault_sequences", "schedules"],
         "all histories of use and dropping, all positions of one failure",
         "A leak or a file elsewhere has no effect that a test sees.",
         [BI, BA, FS, FT, FD],
         [("BodySink::with_fs, write_back, prepare", BI),
          ("BodyImage::read_from, mem_map, explode", BI),
          ("read_body_fs, slice_body", BA),
          ("AsyncBodySink, DispatchBodySink", FS),
          ("AsyncBodyImage, DispatchBodyImage", FT),
          ("decompress", FD)],
         None, ["names in directories", "open descriptors", "memory maps"]),
    prop("B01", "A record reads back from an archive as it was written",
         "A record written to an archive file and read back has the same type,"
         " the same headers in all of its header blocks (names, values and the"
         " order of repeated values) and the same bodies, for any number of"
         " headers and whether bodies are empty, small, or beyond the memory"
         " limit and so left in the file.",
         ["inputs", "configurations"],
         "all header names, values and counts, all body contents and sizes,"
         " all memory limits",
         "Tests write a handful of fixed records and mostly compare lengths.",
         [BA],
         [("BarcWriter::write, write_headers, write_body", BA),
          ("BarcReader::read, read_headers, parse_headers, slice_body", BA)],
         None, ["Record returned by BarcReader::read"]),
    prop("B02", "Compression of records is transparent",
         "A record written with gzip or brotli compression at any level reads"
         " back the same as what was written, for any sizes of bodies relative"
         " to the memory limit and buffer sizes, and the reader then stands at"
         " the next record.",
         ["inputs", "configurations"],
         "all record structures, levels, memory limits and buffer sizes",
         "Tests only compare lengths for one small and one large record with"
         " default limits, so bodies decompressed to a file are not seen.",
         [BA, BC],
         [("EncodeWrapper, DecodeWrapper", BC),
          ("read_compressed, read_body_fs", BA)],
         None, ["Record returned by BarcReader::read"]),
    prop("B03", "Archive records are found in order and by offset",
         "After any history of writes, by instances of the archive taking turns,"
         " the offset returned for each record leads to that record, reading"
         " from the start gives all records in the order written and then the"
         " end, and the reader's position after each record is the offset of"
         " the next. A reader that has reached the end continues with records"
         " written later.",
         ["histories", "inputs"],
         "all orders of writes, reads, seeks and reopening, with all"
         " compression modes",
         "Tests have one or two records and one writer.",
         [BA],
         [("BarcWriter::write", BA), ("BarcReader::read/offset/seek", BA)],
         [("offset", "position of next record", BA)],
         ["BarcReader::read", "BarcReader::offset"]),
    prop("B04", "Readers are safe with a concurrent writer, or its crash",
         "At any point during the write of a record, and for a file left by a"
         " writer that stopped at any point, readers get all earlier records"
         " and see the new one either completely or not at all. A reader that"
         " came too early stays where it is and gets the record once it is"
         " complete, and records written after a crash can be read by offset.",
         ["crash_points", "schedules", "inputs"],
         "all points between and within the writes that make up a record",
         "A test can only look before or after a write, not within.",
         [BA],
         [("reserved record head, rewritten at end", BA),
          ("BarcReader::read", BA)],
         [("reserved head", "record being written", BA)],
         ["BarcReader::read", "archive file contents"]),
    prop("B05", "Any file can be read without panic or made up content",
         "Reading a file of any content, such as a damaged or truncated"
         " archive, gives records, the end, or an error, but does not panic."
         " An error or end does not move the reader. A record that is cut off,"
         " or has an invalid length or parts beyond its length, is an error,"
         " and each body returned can be read with its stated length.",
         ["inputs", "fault_sequences"],
         "all head lengths, damaged bytes and truncation points",
         "Tests have three fixed bad files.",
         [BA],
         [("read_record_head, parse_hex, read_headers, read_body_ram,"
           " slice_body, read_body_fs", BA)],
         None, ["BarcReader::read", "BarcReader::offset"]),
    prop("B06", "Failed archive writes and reads are reported and harmless",
         "If writing a record fails at any point then the write is reported as"
         " failed, and all records of successful writes, before and after, are"
         " read back in order. Interrupted or partial system calls have no"
         " effect on what is written or read, and after a failed read the same"
         " record can be read again.",
         ["fault_sequences", "histories"],
         "all positions and kinds of failure in a write or read",
         "Tests cannot make a file fail.",
         [BA, BC],
         [("BarcWriter::write, write_record", BA),
          ("EncodeWrapper::finish", BC)],
         None, ["result of BarcWriter::write", "BarcReader::read"]),
    prop("B07", "Dialogs survive conversion to records and back",
         "A dialog converted to a record, with or without storing it in an"
         " archive, converts back to the same method, URL, version, status,"
         " list of decoded encodings, headers and bodies. Conversion of any"
         " other record gives a dialog of what its meta headers state, or an"
         " error if one of them is missing or invalid.",
         ["inputs"],
         "all methods, URLs, versions, status codes and encoding lists",
         "Tests convert two sample records.",
         [BA, BI],
         [("TryFrom<Dialog> for Record", BA),
          ("TryFrom<Record> for Dialog", BA), ("Encoding", BI)],
         None, ["Dialog getters"]),
    prop("B08", "Records are compressed exactly when worth it",
         "A record is compressed if and only if its compressible bytes (bodies"
         " of compressible content type, and headers) less half of its other"
         " body bytes are at least the configured minimum. A response body"
         " counts as compressible only if marked as decoded to identity, when"
         " this is asked for. What is not set is as documented.",
         ["configurations", "inputs"],
         "all minimum lengths, content types, body sizes and settings",
         "Tests only check one side of the threshold for fixed records.",
         [BC],
         [("CompressStrategy::is_compressible", BC),
          ("is_identity, is_compressible_type", BC)],
         None, ["compression flag of the record", "is_compressible"]),
    prop("F01", "Async sinks store every item, in order, under any schedule",
         "The body finished from an asynchronous sink is the concatenation of"
         " the items it accepted, in order, each exactly once. This is so for"
         " each kind of sink, with the body in memory or in a file or moving"
         " to one, and however often and whenever the task is held up waiting"
         " for a permit or for dispatched work.",
         ["inputs", "schedules"],
         "all item contents and sizes, all limits, all orders of polling,"
         " permit release and completion of dispatched work",
         "Tests run one happy schedule on an executor, with a few strings.",
         [FS, FK],
         [("AsyncBodySink, PermitBodySink, DispatchBodySink", FS),
          ("BlockingArbiter", FK)],
         [("pending item", "item accepted but not yet written", FS)],
         ["SinkWrapper::into_inner", "Sink::poll_flush"]),
    prop("F02", "Async sinks apply the configured size limits exactly",
         "A sink accepts items as long as their total is within the maximum"
         " body length, and fails with a too long error at the first item"
         " beyond it, whatever was waited for in between. A body stays in"
         " memory as long as it is within the memory limit, and is in a file"
         " once beyond it.",
         ["configurations", "inputs", "schedules"],
         "all limits, item sizes and schedules",
         "Tests use two limits with one item each.",
         [FS, FU],
         [("AsyncBodySink::poll_send and the like", FS)],
         None, ["result of Sink::start_send, poll_flush", "BodySink::is_ram"]),
    prop("F03", "Async streams deliver exactly the body, once",
         "Polled to its end, a stream gives the bytes of the body in order,"
         " complete and once only, then its end, whatever the form of the"
         " body, the kind of stream, the buffer sizes and the schedule. Items"
         " are not larger than configured where a size is promised, and"
         " yielding streams let other tasks run after each item.",
         ["inputs", "schedules", "configurations"],
         "all bodies, forms, divisions, buffer sizes and schedules",
         "Tests sum up the lengths of a few bodies under one schedule.",
         [FT, FW, FB],
         [("AsyncBodyImage::poll_impl", FT),
          ("SplitBodyImage, YieldBodyImage, PermitBodyImage,"
           " DispatchBodyImage", FT)],
         [("consumed", "bytes delivered so far", FT)],
         ["Stream::poll_next", "http_body::Body::poll_data"]),
    prop("F04", "Body streams tell their remaining size and end truthfully",
         "At each point of streaming, the size hint is exactly the number of"
         " bytes that are still delivered. A stream says to be at its end only"
         " if nothing more is delivered, and does so once all has been.",
         ["inputs", "schedules"],
         "all bodies, forms and points in a stream, including while waiting",
         "Tests look at the hint before the first item only.",
         [FT],
         [("http_body::Body for AsyncBodyImage, PermitBodyImage,"
           " DispatchBodyImage", FT)],
         None, ["http_body::Body::size_hint, is_end_stream"]),
    prop("F05", "File operations of async bodies only run where they may block",
         "With permits, a sink or stream operates on files only while its task"
         " holds a blocking permit, and with dispatch only in dispatched work."
         " A body in memory is neither waited for nor needs a permit.",
         ["schedules", "inputs"],
         "all schedules, limits and body forms",
         "Where an operation is made has no effect that a test sees.",
         [FS, FT, FK],
         [("StatefulArbiter, can_block", FK),
          ("PermitBodySink, DispatchBodySink", FS),
          ("PermitBodyImage, DispatchBodyImage", FT)],
         [("blocking state", "void, pending or allowed once", FK)],
         ["system calls on files"]),
    prop("F06", "A waiting sink or stream is always woken and keeps no permit",
         "A sink or stream that returns pending has made sure that its task is"
         " woken once it can go on: when a permit is released, dispatched work"
         " is done, or at once after yielding. Tasks that compete for permits"
         " all finish, also if one of them is dropped while waiting, and no"
         " permit is held by a task that is done, dropped or waiting for"
         " something else.",
         ["schedules"],
         "all orders of polling, releasing and dropping of two tasks",
         "A lost wake-up shows as a rare hang of a test.",
         [FS, FT, FW],
         [("PermitBodySink::poll_*", FS), ("PermitBodyImage::poll_next", FT),
          ("DispatchBodyImage::poll_next", FT)],
         [("permit future", "request queued at the semaphore", FT)],
         ["Waker", "Semaphore permits"]),
    prop("F07", "Forwarding a stream to a sink copies the body",
         "Forwarding any kind of body stream to any kind of body sink results"
         " in an equal body. If this exceeds the limit of the sink then it"
         " fails as too long.",
         ["inputs", "schedules", "configurations"],
         "all bodies, forms, limits, kinds and schedules",
         "Tests forward two bodies.",
         [FS, FT],
         [("Sink and Stream implementations", FS)],
         None, ["BodySink::prepare"]),
    prop("F08", "Async sinks and streams report all failures, never truncate",
         "If a file operation fails, or a file is shorter than the body should"
         " be, then the sink or stream gives an error, and what was delivered"
         " before is a correct beginning of the body. Interrupted and partial"
         " operations change nothing.",
         ["fault_sequences", "schedules"],
         "all kinds and positions of up to two faults, all points of"
         " truncation",
         "Tests cannot make files fail.",
         [FS, FT],
         [("AsyncBodyImage::poll_impl file read loop", FT),
          ("AsyncBodySink send, flush", FS)],
         None, ["items and errors of Stream::poll_next",
                "result of Sink methods"]),
    prop("F09", "Body buffers behave as the bytes that they stand for",
         "A buffer from memory or from a memory map, under any sequence of"
         " advancing, splitting, copying and conversion, always gives exactly"
         " the bytes that it covers. To go beyond its end is refused.",
         ["inputs", "histories"],
         "all contents and sequences of operations",
         "Tests split one buffer once.",
         [FB, FM],
         [("UniBodyBuf", FB), ("MemMapBuf", FM)],
         None, ["Buf::chunk, remaining, advance", "Splittable::split_if"]),
    prop("F10", "Encodings are recognised from headers as HTTP specifies",
         "Chunked is found if and only if listed in a transfer encoding"
         " header, and the compression found is the one applied last, with"
         " those of the transfer after those of the content. This holds for"
         " names in any case, with optional blanks, and for lists divided over"
         " several header lines.",
         ["inputs"],
         "all lists of encodings, letter cases and divisions into lines",
         "Tests have five lists, all in lower case.",
         [FD],
         [("find_encodings, find_chunked, parse_encodings", FD)],
         None, ["find_encodings, find_chunked"]),
    prop("F11", "Decoding a response gives its plain body or an error",
         "A response body in a supported encoding is replaced by its complete"
         " original content if that is within the limit, with the encodings"
         " undone being listed, and identity last exactly if nothing remains"
         " encoded. In all other cases, including unsupported encodings,"
         " damaged, truncated or too long bodies, there is an error and"
         " nothing is changed.",
         ["inputs", "configurations", "fault_sequences"],
         "all encodings, forms of body, limits, and positions of damage",
         "Tests decode one sample for each codec.",
         [FD],
         [("decode_res_body, decompress", FD)],
         None, ["Dialog::res_body, res_decoded"]),
    prop("F12", "A recorded request is the request sent",
         "The method, URL, headers and body recorded for a request are the"
         " ones given, and are also those of the request to be sent, whether"
         " its body is empty, bytes or a body image.",
         ["inputs"],
         "all header values and bodies, in all forms",
         "Tests look at the URL and the body length.",
         [FL, FW],
         [("RequestRecorder", FW), ("RequestRecord", FL)],
         None, ["RequestRecord getters", "http::Request"]),
    prop("F13", "Settings are kept as given, and unusable ones are refused",
         "Each setting in finished tunables, and in copies of these, has the"
         " value that was last set or its default. Buffer sizes or estimates"
         " of zero, a memory limit above the maximum length, and an initial"
         " timeout above the body timeout are refused, and nothing else is.",
         ["configurations"],
         "all values of all settings",
         "Tests set one or two values.",
         [FU, BI],
         [("FutioTuner", FU), ("Tuner", BI)],
         None, ["Tunables and FutioTunables getters"]),
    prop("L01", "The cat command prints exactly the records and parts asked for",
         "The cat command prints the records from the given index or offset,"
         " up to the given count, of one or more files, in order, each headed"
         " by its file and offset. For each record, the parts selected, or all"
         " of them, are printed byte for byte and decompressed.",
         ["inputs", "configurations"],
         "all combinations of options, records and body bytes",
         "The command line program has no tests.",
         [CL, BA],
         [("cat, filter_flags, part_flags", CL),
          ("write_headers, write_body", BA)],
         None, ["standard output", "exit code"]),
    prop("L02", "The cp command appends exactly the records asked for",
         "The cp command appends the records from the given index or offset,"
         " up to the given count, of one or more files, unchanged and in"
         " order, to the output file, which keeps its existing records. Output"
         " is compressed as selected, independent of the input, and input"
         " files are not changed.",
         ["inputs", "configurations"],
         "all combinations of options, records and body bytes",
         "The command line program has no tests.",
         [CL, BA],
         [("cp, filter_flags, compress_flags", CL)],
         None, ["archive files", "exit code"]),
    prop("L03", "The barc program reports failure and does no harm",
         "If anything asked for cannot be done, as with contradicting options,"
         " a missing or damaged input file, or the output being an input, the"
         " program exits with a failure code. All complete records before"
         " damage are still printed or copied, and no other file content"
         " changes.",
         ["inputs", "fault_sequences"],
         "all points of truncation, a list of misuses",
         "The command line program has no tests.",
         [CL, BA],
         [("run, filter_flags, cat, cp", CL)],
         None, ["exit code", "standard output", "archive files"]),
    prop("P01", "Log messages are shown by level and origin",
         "The chosen verbosity shows messages up to info, debug or trace, with"
         " debug messages limited to those of this project at the first step."
         " Each message is one line on standard error with its level, origin"
         " and text, and a second setup is refused.",
         ["configurations", "inputs"],
         "all verbosity levels, origins and severities",
         "The one test logs without looking at the output.",
         [PL],
         [("setup_logger, Piccolog::enabled, log", PL)],
         None, ["standard error"]),
    prop("N01", "A fetched dialog records what was sent and received",
         "Fetching a request over the network gives a dialog with the request"
         " as sent and the complete response status, headers and body, within"
         " the configured limits and timeouts, or an error.",
         ["inputs", "fault_sequences", "schedules"],
         "all responses, failures and timings of a server",
         "Tests use a local server with fixed responses.",
         ["body-image-futio/src/fetch.rs", "barc-cli/src/record.rs"],
         [("fetch, request_dialog", "body-image-futio/src/fetch.rs"),
          ("record", "barc-cli/src/record.rs")],
         None, ["Dialog getters"]),
]
