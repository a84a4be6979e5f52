"""Which harnesses decide which property, with their bounds."""


def h(crate, entry, reach=(), params=None, thorough=None, **kw):
    d = {"crate": crate, "entry": entry, "reach": list(reach),
         "params": params or {}, "thorough": thorough or {}}
    d.update(kw)
    return d


PROPS = {
    "C01": {
        "how": 'Symbolic sink history (constructor, pushes, writes, saves, write-backs, symbolic data), symbolic conversion, symbolic view and read size; the oracle is a plain vector to which each accepted chunk is appended, compared byte by byte as terms. A longer history of one byte chunks covers growth of the chunk list, and chunk sizes around 1, 4, 8 and 64 KiB cover the buffers on the way.',
        "harnesses": [
            h("body", "h_c01_content", [1, 2, 10, 11, 12],
              thorough={"p0": 4}),
            h("body", "h_c01_many", [3, 10, 11, 12], thorough={"p0": 12}),
            h("body", "h_c01_sizes", [4], thorough={"p0": 3}),
        ],
        "bounds": {
            "quick": "3 sink operations with chunks of 0 to 2 symbolic bytes;"
                     " 7 one byte chunks with write back at any point; a"
                     " chunk of 12 sizes from 1 to 300001 bytes before or"
                     " after a small one",
            "thorough": "4 sink operations with chunks of 0 to 2 symbolic"
                        " bytes; 12 one byte chunks; the large chunk among 2"
                        " small ones",
        },
        "outside": "longer histories and bodies over 300 KB",
    },
    "C02": {
        "how": '`read_from` over a source of every length within the bound, in every buffer size within the bound, with both limits and the estimate as unconstrained 64-bit variables: Z3 decides each comparison of the code and each assertion for all limits at once. The source asserts, when it is asked for more, that a file has been opened if more than the memory limit plus one buffer has been delivered.',
        "harnesses": [
            h("body", "h_c02_limits", [1, 2, 3], params={"p0": 6, "p1": 2},
              thorough={"p0": 8, "p1": 3}),
            h("body", "h_c02_scale", [1, 2, 3]),
        ],
        "bounds": {
            "quick": "any 64-bit limits and estimate; sources of 0 to 6 bytes"
                     " in reads of 1 or 2 bytes with buffers of 1 or 2 bytes;"
                     " sources around the boundaries of 6 limit values up to"
                     " 20000 bytes with 8 and 16 KiB buffers",
            "thorough": "as quick, with sources of 0 to 8 bytes and buffers of"
                        " 1 to 3 bytes",
        },
        "outside": "an estimate above 20000 bytes when within the memory"
                   " limit (it is only an allocation size)",
    },
    "C03": {
        "how": "Source with symbolic bytes, symbolic division into reads, an interruption at a symbolic call, an error of symbolic kind at a symbolic call, and a fault (error, interruption, short) in a symbolic write of the file; the oracle is the source's own data. A second harness has sources and buffers of realistic size.",
        "harnesses": [
            h("body", "h_c03_read_from", [1, 2, 3, 4], params={"p0": 3},
              thorough={"p0": 5}),
            h("body", "h_c03_scale", [1, 2, 3]),
        ],
        "bounds": {
            "quick": "sources of 0 to 3 symbolic bytes; sources of 6 sizes"
                     " from 1 to 140000 bytes with default and other buffers,"
                     " one of the first 5 reads being short, interrupted or"
                     " failing",
            "thorough": "sources of 0 to 5 symbolic bytes; as quick",
        },
        "outside": "more than one interruption, source error and file fault"
                   " in a run",
    },
    "C04": {
        "how": 'Symbolic operation history under a symbolic plan of two faults; the oracle is a vector of what was accepted. A second harness makes maps and reads fail. A third writes bodies of all forms out to a writer that fails, or from a file that ends early.',
        "harnesses": [
            h("body", "h_c04_faults", [1, 2, 10, 11, 12], params={"p0": 2},
              thorough={"p0": 3}),
            h("body", "h_c04_image_faults", [1, 2, 3, 10, 11, 12]),
            h("body", "h_c04_write_out", [1, 2]),
        ],
        "bounds": {
            "quick": "2 operations with 2 faults; bodies written to a file,"
                     " over a file or a range of one, with a failing map or"
                     " read; writers that fail at any byte",
            "thorough": "3 operations with 2 faults; as quick",
        },
        "outside": "faults of seek and truncate",
    },
    "C05": {
        "how": 'Two readers over a body and a (possibly converted) clone, stepped by a symbolic schedule mixed with conversions, writes and drops of further clones; each must deliver the reference bytes. With a body larger than the buffers on the way, the clone is read and written out from within the writer the body is being written to.',
        "harnesses": [
            h("body", "h_c05_readers", [1, 2, 3, 10, 11], params={"p0": 4},
              thorough={"p0": 4, "p1": 3}),
            h("body", "h_c05_large", [1, 2, 3]),
        ],
        "bounds": {"quick": "4 interleaved steps with bodies of up to 4"
                            " symbolic bytes in memory, in a file or a range"
                            " of one; bodies of 20000 bytes",
                   "thorough": "4 interleaved steps, up to 6 bytes"},
        "outside": "readers moved between threads",
    },
    "C06": {
        "how": 'Symbolic file contents, symbolic range, symbolic use of the range object beforehand, symbolic conversion and view; a second harness places ranges around page boundaries, and others have ranges of any 64-bit length of which the file has only the beginning, and ranges beyond 4 GiB into a file.',
        "harnesses": [
            h("body", "h_c06_window", [1, 2, 3, 10, 11, 12],
              thorough={"p0": 7}),
            h("body", "h_c06_pages", [1, 2, 10, 11, 12]),
            h("body", "h_c06_long", [1]),
            h("body", "h_c06_far", [1, 2]),
        ],
        "bounds": {"quick": "files of 1 to 5 symbolic bytes, any range;"
                            " ranges of up to 2^62 bytes; ranges around 4"
                            " positions from 4 GiB to 8 GiB",
                   "thorough": "files of 1 to 7 symbolic bytes, any range;"
                               " otherwise as quick"},
        "outside": "files changed while in use",
    },
    "C07": {
        "how": 'The operating system model (the real one on replay) counts open descriptors and maps of files, keeps the names in directories, and records where files are created. Bodies get a symbolic history of writing, converting, cloning, reading, taking apart and dropping, archives are read and dropped in parts, and each kind of stream and sink is given up after a symbolic number of polls with a symbolic state of the pool or permit, each with one symbolic failure; at the end all counts must be as before.',
        "harnesses": [
            h("body", "h_c07_release", [1, 2, 3], thorough={"p0": 4, "p2": 3}),
            h("barc", "h_c07_archive", [1, 2, 3]),
            h("futio", "h_c07_async", [1, 2, 3, 4], thorough={"p0": 6}),
        ],
        "bounds": {
            "quick": "3 steps of use from 5 kinds of body; 2 records; up to 4"
                     " polls; one failure among the first 2 (archives: 4)"
                     " operations of each kind, or none",
            "thorough": "4 steps, first 3 operations; up to 5 polls",
        },
        "outside": "longer histories; more than one failure; memory that is"
                   " not mapped from files; a killed process, where temporary"
                   " files without a name are removed by the operating system",
    },
    "B01": {
        "how": 'A record of symbolic structure (headers per block, value lengths, body lengths) with symbolic value and body bytes is written by the real writer and read by the real reader under a symbolic memory limit; header lists and bodies are compared as terms with what was put in. Further harnesses make the header name symbolic, use many headers and large bodies, and read a body of more than 4 GiB.',
        "harnesses": [
            h("barc", "h_b01_plain", [1, 2, 3], thorough={"p0": 4}),
            h("barc", "h_b01_names", [1], thorough={"p0": 3}),
            h("barc", "h_b01_many", [1]),
            h("barc", "h_b01_huge", [1]),
        ],
        "bounds": {
            "quick": "up to 1 meta, 1 request and 2 response headers with"
                     " values of up to 2 symbolic bytes, bodies of 0 to 3"
                     " symbolic bytes; names of 1 or 2 symbolic bytes; 0 to"
                     " 300 headers of the same or different names, values"
                     " of up to the limit of 1 MiB and bodies of up to 70000"
                     " given bytes; a body of 4 to 32 GiB, mostly zeros; any"
                     " memory limit",
            "thorough": "as quick, with bodies of up to 4 bytes and names of"
                        " up to 3",
        },
        "outside": "header values with leading or trailing blanks, which the"
                   " format cannot represent; header blocks and bodies over"
                   " the documented size limits of the format (the writer"
                   " panics)",
    },
    "B02": {
        "how": 'The real encoders and decoders run within the executed program. Sizes, compressibility, header structure, level, body storage and buffer sizes are symbolic choices and the memory limit is an unconstrained variable; content is given, or has one symbolic byte (codecs branch on content).',
        "harnesses": [
            h("barc", "h_b02_gzip", [1, 2, 3, 4], thorough={"p0": 4, "p1": 4}),
            h("barc", "h_b02_brotli", [1, 2, 3, 4], params={"p0": 1},
              thorough={"p0": 3, "p1": 3}),
            h("barc", "h_b02_small", [1, 2], thorough={"p0": 20}),
            h("barc", "h_b02_byte", [1], params={"p0": 1},
              thorough={"p0": 4}),
        ],
        "bounds": {
            "quick": "bodies of 0, 3 or 5000 bytes; 3 pairs of buffer sizes;"
                     " bodies of 0 to 9 bytes with 3 sizes of file buffer;"
                     " gzip levels 0 and 1, brotli level 1; one symbolic byte in a body of 1",
            "thorough": "gzip bodies of 0, 3, 5000 or 20000 bytes with levels"
                        " 0, 1, 6, 9; brotli levels 0, 1, 6; one symbolic byte"
                        " in a body of 4; bodies of 0 to 19 bytes",
        },
        "outside": "correctness of the codecs for contents other than given",
    },
    "B03": {
        "how": 'Symbolic history of writes (record shape, compression), reads by a reader opened at the start, and changes between two instances of the archive, followed by random access in a symbolic order and a sequential read; compared with the list of records written. Further harnesses have records beyond 4 GiB into the file, and records read from an archive written again.',
        "harnesses": [
            h("barc", "h_b03_history", [1, 2], params={"p0": 3, "p1": 1},
              thorough={"p0": 4, "p1": 1}),
            h("barc", "h_b03_history", [1, 2], params={"p0": 2},
              thorough={"p0": 3, "p1": 2}),
            h("barc", "h_b03_far", [1]),
            h("barc", "h_b03_again", [1]),
        ],
        "bounds": {"quick": "2 records of 3 shapes, plain, gzip or brotli, or"
                            " 3 plain records; two instances; 2 records at"
                            " 4 positions from 4 GiB to 64 GiB",
                   "thorough": "3 records of 3 shapes, plain or gzip, or"
                               " 4 plain records; two instances"},
        "outside": "more records",
    },
    "B04": {
        "how": 'Within the write of a record, after a symbolic number of write calls and (for appending writes) a symbolic number of bytes of the next, control passes to readers, and the file is copied as a crash would leave it; both are then used further.',
        "harnesses": [h("barc", "h_b04_step", [1, 2, 3, 4, 5])],
        "bounds": {"quick": "any of the first 32 write calls, cut after 0, 1,"
                            " 6, 18, 20, 53 or all bytes; plain, gzip, brotli",
                   "thorough": "as quick"},
        "outside": "a write over existing content (the final record head) is"
                   " taken as atomic; order in which the operating system"
                   " makes writes durable on power loss",
    },
    "B05": {
        "how": 'Files with symbolic lengths in the head followed by symbolic bytes; well formed files with one symbolic byte at a symbolic position (one flipped bit where compressed); compressed records with other lengths in the head than written; and files cut at a symbolic position. Any panic of the reader is a violation.',
        "harnesses": [
            h("barc", "h_b05_lengths", [1, 2, 3], params={"p0": 6},
              thorough={"p0": 8}),
            h("barc", "h_b05_byte", [1, 2, 3]),
            h("barc", "h_b05_decoded", [1, 2, 3, 4, 5]),
            h("barc", "h_b05_cut", [1, 2, 3, 4]),
        ],
        "bounds": {
            "quick": "heads with 8 values for each length followed by 6"
                     " symbolic bytes; a two record file with any byte"
                     " replaced; a second record cut anywhere; a"
                     " compressed record with one of 6 other values for any"
                     " length in its head; any memory limit up to 64 KiB",
            "thorough": "as quick with 8 symbolic bytes",
        },
        "outside": "more than one corrupted byte with an otherwise well"
                   " formed file; undetectable changes of content are not"
                   " errors",
    },
    "B06": {
        "how": 'A write or read call of symbolic number fails, is interrupted or is short; the oracle is the list of records reported as written.',
        "harnesses": [
            h("barc", "h_b06_faults", [1, 2, 3]),
            h("barc", "h_b06_read_faults", [1, 2]),
            h("barc", "h_b06_slow_read", [1, 2]),
        ],
        "bounds": {"quick": "one fault in any of the first 40 write calls of"
                            " the record, or 12 reads, or any of 14 reads of at"
                            " most 40 bytes",
                   "thorough": "as quick"},
        "outside": "failure of truncation after a failed write",
    },
    "B07": {
        "how": 'Method, URL, version, status code and decoded list symbolic in turn, through conversion, optionally the file, and back; and conversion of records with symbolic meta header values.',
        "harnesses": [
            h("barc", "h_b07_dialog", [1]),
            h("barc", "h_b07_any", [1, 2, 3, 4, 5], thorough={"p0": 8}),
        ],
        "bounds": {
            "quick": "all status codes, versions and lists of up to 3"
                     " encodings, and some of up to 6; extension methods and URL parts of 2"
                     " symbolic bytes; meta values of up to 3 symbolic bytes",
            "thorough": "meta values of up to 8 symbolic bytes",
        },
        "outside": "longer URLs and methods",
    },
    "B08": {
        "how": 'Content types, sizes, decoded list and settings are symbolic choices and the minimum length is an unconstrained 64-bit variable; the decision is compared with the documented rule computed from what was put in the record.',
        "harnesses": [h("barc", "h_b08_strategy", [1, 2]),
                      h("barc", "h_b08_defaults", [1, 2])],
        "bounds": {"quick": "36 content types, 7 decoded lists, body sizes up"
                            " to 5000; any minimum length",
                   "thorough": "as quick"},
        "outside": "content types other than the 36",
    },
    "F01": {
        "how": "Sinks of each kind are polled from a task with a real waker, by hand: the number and sizes of items, a permit held elsewhere, when it is released, and when dispatched work is run are symbolic choices and the item bytes and both limits are symbolic. What was accepted is compared with the finished body, byte by byte as terms.",
        "harnesses": [
            h("futio", "h_f01_direct", [1, 2, 3],
              params={"p0": 3, "p9": 1}, thorough={"p0": 5}),
            h("futio", "h_f01_permit", [1, 2, 3],
              params={"p0": 3, "p9": 1}, thorough={"p0": 4}),
            h("futio", "h_f01_dispatch", [1, 2, 3],
              params={"p0": 3, "p9": 1}, thorough={"p0": 5}),
        ],
        "bounds": {"quick": "3 items of 0 to 2 symbolic bytes, any 64-bit"
                            " limits, sinks starting in memory or in a file",
                   "thorough": "5 items (4 with permits)"},
        "outside": "more items; more than two tasks; work running at the same"
                   " time on several cores",
    },
    "F02": {
        "how": "As F01, with the limits as unconstrained 64-bit variables: each item's acceptance and the place of the finished body are compared with the sum of the sizes so far.",
        "harnesses": [
            h("futio", "h_f01_direct", [1, 2, 3],
              params={"p0": 3, "p9": 2}, thorough={"p0": 5}),
            h("futio", "h_f01_permit", [1, 2, 3],
              params={"p0": 3, "p9": 2}, thorough={"p0": 4}),
            h("futio", "h_f01_dispatch", [1, 2, 3],
              params={"p0": 3, "p9": 2}, thorough={"p0": 5}),
        ],
        "bounds": {"quick": "any 64-bit limits; 3 items of 0 to 2 bytes",
                   "thorough": "5 items (4 with permits)"},
        "outside": "items larger than 2 bytes",
    },
    "F03": {
        "how": "Bodies of symbolic bytes, in every form (pieces in memory, file, mapped), are streamed with each kind of stream, with symbolic read and item sizes and schedule; the items are put together and compared with the body.",
        "harnesses": [
            h("futio", "h_f03_direct", [1, 2, 3],
              params={"p0": 5, "p9": 1}, thorough={"p0": 7}),
            h("futio", "h_f03_permit", [1, 2, 3],
              params={"p0": 4, "p9": 1}, thorough={"p0": 6}),
            h("futio", "h_f03_dispatch", [1, 2, 3],
              params={"p0": 5, "p9": 1}, thorough={"p0": 7}),
            h("futio", "h_f03_yield", [1, 2, 3],
              params={"p0": 4, "p9": 1}, thorough={"p0": 6}),
            h("futio", "h_f03_long", [1, 2], params={"p9": 1}, frontier=32),
            h("futio", "h_f03_large", [1], params={"p9": 1}),
            h("futio", "h_f03_far", [1], params={"p9": 1}),
        ],
        "bounds": {"quick": "bodies of 0 to 5 symbolic bytes (4 with permits"
                            " or yielding) in all divisions, read and item"
                            " sizes of 1 to 8 bytes; bodies of any 64-bit"
                            " length of which the file has 4 bytes; the"
                            " first items of bodies of any length up to 16"
                            " GiB; bodies of 5 sizes from 4097 to 200000"
                            " bytes",
                   "thorough": "bodies of 0 to 7 (6) bytes; as quick"},
        "outside": "longer bodies",
    },
    "F04": {
        "how": "As F03; before each poll the size hint and the end indication are compared with what is then still delivered.",
        "harnesses": [
            h("futio", "h_f03_direct", [1, 2, 3],
              params={"p0": 5, "p9": 16}, thorough={"p0": 7}),
            h("futio", "h_f03_permit", [1, 2, 3],
              params={"p0": 4, "p9": 16}, thorough={"p0": 6}),
            h("futio", "h_f03_dispatch", [1, 2, 3],
              params={"p0": 5, "p9": 16}, thorough={"p0": 7}),
            h("futio", "h_f03_long", [1, 2], params={"p9": 16}, frontier=32),
            h("futio", "h_f03_large", [1], params={"p9": 16}),
            h("futio", "h_f03_far", [1], params={"p9": 16}),
        ],
        "bounds": {"quick": "bodies of 0 to 5 symbolic bytes (4 with"
                            " permits); bodies of any 64-bit length of which"
                            " the file has 4 bytes; the first items of"
                            " bodies of any length up to 16 GiB; bodies of"
                            " 5 sizes from 4097 to 200000 bytes",
                   "thorough": "bodies of 0 to 7 (6) bytes; as quick"},
        "outside": "longer bodies; hints after an error",
    },
    "F05": {
        "how": "The real semaphore and the real dispatch pool are executed. Each file operation is counted when made by a task that holds no permit, or, with dispatch, outside of dispatched work; the assertion is that there are none, and that bodies in memory are never waited for.",
        "harnesses": [
            h("futio", "h_f01_permit", [1, 2, 3],
              params={"p0": 3, "p9": 4}, thorough={"p0": 4}),
            h("futio", "h_f01_dispatch", [1, 2, 3],
              params={"p0": 3, "p9": 4}, thorough={"p0": 5}),
            h("futio", "h_f03_permit", [1, 2, 3],
              params={"p0": 4, "p9": 4}, thorough={"p0": 6}),
            h("futio", "h_f03_dispatch", [1, 2, 3],
              params={"p0": 5, "p9": 4}, thorough={"p0": 7}),
            h("futio", "h_f06_two", [1, 2],
              params={"p0": 3, "p1": 4, "p9": 4}, thorough={"p0": 4,
                                                           "p1": 6}),
            h("futio", "h_f07_forward", [1, 2], params={"p9": 4},
              thorough={"p0": 5}),
            h("futio", "h_f03_long", [1, 2], params={"p9": 4}, frontier=32),
        ],
        "bounds": {"quick": "as F01 and F03, and two tasks with one permit",
                   "thorough": "as F01 and F03"},
        "outside": "as F01 and F03",
    },
    "F06": {
        "how": "Polling by hand with wakers that record: a task that returns pending without its waker being called, or registered to be, is stuck, which is asserted against for every schedule. Two tasks compete for one permit, and either may be dropped at any point; afterwards the permit has to be available.",
        "harnesses": [
            h("futio", "h_f01_permit", [1, 2, 3],
              params={"p0": 3, "p9": 8}, thorough={"p0": 4}),
            h("futio", "h_f01_dispatch", [1, 2, 3],
              params={"p0": 3, "p9": 8}, thorough={"p0": 5}),
            h("futio", "h_f03_permit", [1, 2, 3],
              params={"p0": 4, "p9": 8}, thorough={"p0": 6}),
            h("futio", "h_f03_dispatch", [1, 2, 3],
              params={"p0": 5, "p9": 8}, thorough={"p0": 7}),
            h("futio", "h_f03_yield", [1, 2, 3],
              params={"p0": 4, "p9": 8}, thorough={"p0": 6}),
            h("futio", "h_f06_two", [1, 2],
              params={"p0": 3, "p1": 4, "p9": 255 - 4},
              thorough={"p0": 4, "p1": 6}),
            h("futio", "h_f03_long", [1, 2], params={"p9": 8}, frontier=32),
        ],
        "bounds": {"quick": "as F01 and F03, and two tasks with one permit,"
                            " held elsewhere up to 4 times",
                   "thorough": "as F01 and F03; held elsewhere up to 6 times"},
        "outside": "as F01 and F03; more than two competing tasks",
    },
    "F07": {
        "how": "A stream of each kind is forwarded to a sink of each kind with the combinator of futures-util, under symbolic limits and schedules.",
        "harnesses": [
            h("futio", "h_f07_forward", [1, 2], params={"p0": 3, "p9": 251},
              thorough={"p0": 5}),
            h("futio", "h_f07_sizes", [1], params={"p9": 3}),
        ],
        "bounds": {"quick": "bodies of 0 to 3 symbolic bytes; bodies of 8191"
                            " to 200000 bytes around the default sizes",
                   "thorough": "bodies of 0 to 5 symbolic bytes; as quick"},
        "outside": "other sizes",
    },
    "F08": {
        "how": "Up to two faults of symbolic kind (error, interruption, short) at symbolic file operations, and files cut off behind the stream's back; the outcome is compared with what a fault-free run gives.",
        "harnesses": [
            h("futio", "h_f08_sink_faults", [1, 2], thorough={"p0": 4}),
            h("futio", "h_f08_stream_faults", [1, 2], thorough={"p0": 6}),
            h("futio", "h_f03_long", [1, 2], params={"p9": 32}, frontier=32),
        ],
        "bounds": {"quick": "3 items, bodies of 4 bytes, 2 faults; a body of"
                            " any 64-bit length in a file of 4 bytes",
                   "thorough": "4 items, bodies of 6 bytes, 2 faults"},
        "outside": "more than two faults",
    },
    "F09": {
        "how": "Symbolic sequences of buffer operations (advance, split, copy out, conversion, clone of part) on buffers from memory and from a map, compared with a slice.",
        "harnesses": [
            h("futio", "h_f09_buf", [1, 2], params={"p0": 5, "p1": 3},
              thorough={"p0": 6, "p1": 4}),
            h("futio", "h_f09_past", [1, 2]),
        ],
        "bounds": {"quick": "buffers of up to 5 symbolic bytes, 3 operations",
                   "thorough": "buffers of up to 6 symbolic bytes, 4"
                               " operations"},
        "outside": "longer sequences",
    },
    "F10": {
        "how": "Header lists of known and unknown names, each letter in symbolic case, divided over lines and with blanks, are compared with a list kept while building them.",
        "harnesses": [
            h("futio", "h_f10_find", [1, 2],
              params={"p0": 2, "p1": 8, "p2": 1}, thorough={"p2": 2}),
            h("futio", "h_f10_name", [1, 2, 3]),
        ],
        "bounds": {"quick": "up to 2 transfer encodings and 1 content"
                            " encoding of 8 names in any case; any one name"
                            " of up to 8 letters, digits and hyphens",
                   "thorough": "2 of each"},
        "outside": "longer lists; longer unknown names, or several of them",
    },
    "F11": {
        "how": "Bodies are compressed by the codec libraries and decoded through the dialog, with the body in memory, in pieces, in a file or mapped, and both limits as unconstrained 64-bit variables. Damage is one byte of a gzip body changed to any other value, or any truncation.",
        "harnesses": [
            h("futio", "h_f11_decode", [1, 2, 3]),
            h("futio", "h_f11_layers", [1]),
            h("futio", "h_f11_unknown", [1]),
            h("futio", "h_f11_slow", [1, 2]),
            h("futio", "h_f11_members", [1]),
            h("futio", "h_f11_damage", [1, 2], thorough={"p0": 2}),
        ],
        "bounds": {"quick": "4 fixed contents of 0 to 300 bytes, 11 encodings"
                            " and all unknown names of up to 8 bytes,"
                            " buffers of 7 to 400 bytes, any limits; any one"
                            " damaged byte of a gzip body of one byte; any"
                            " truncation; any one of 12 reads of at most 40"
                            " bytes failed or interrupted",
                   "thorough": "as quick, damage of a gzip body of 25 bytes"},
        "outside": "other contents and larger bodies; undetectable damage of"
                   " deflate and brotli bodies, which have no checksum;"
                   " deflate bodies with zlib header, which are reported as"
                   " errors",
    },
    "F12": {
        "how": "Requests of symbolic method, URL, headers and body, in each of three ways of giving the body; the record and the request made from it are both compared with what was given.",
        "harnesses": [
            h("futio", "h_f12_record", [1, 2, 3], thorough={"p0": 6}),
        ],
        "bounds": {"quick": "10 methods, 10 header names and 5 URLs, symbolic"
                            " header values, bodies of 0 to 3 symbolic bytes",
                   "thorough": "bodies of 0 to 6 symbolic bytes"},
        "outside": "other methods and URLs",
    },
    "F13": {
        "how": "All settings are unconstrained variables; after any order of setting, the finished settings and their clones are compared with those given, and the call that refuses is run to its panic for each unusable value.",
        "harnesses": [
            h("futio", "h_f13_tuner", [1]),
            h("futio", "h_f13_defaults", [1]),
            h("futio", "h_f13_refuse", [1, 2]),
            h("body", "h_c19_tuner", [1]),
            h("body", "h_c19_defaults", [1]),
        ],
        "bounds": "any value of each setting",
        "outside": "timeouts of more than 2^40 seconds in the refusal check",
    },
    "L01": {
        "how": "The program's own main function is executed as a process, from its argument list to its output, on archives written by the library with symbolic body bytes; the output is compared with text made from the records.",
        "harnesses": [
            h("cli", "h_l01_cat", [1, 2], params={"p0": 2},
              thorough={"p0": 3}),
            h("cli", "h_l01_parts", [1, 2]),
            h("cli", "h_l01_far", [1]),
        ],
        "bounds": {"quick": "2 records and each start, count and option form;"
                            " each of 32 selections of parts over one file,"
                            " two, or the same twice, plain or compressed;"
                            " records at 3 offsets from 4 GiB on",
                   "thorough": "3 records"},
        "outside": "more records and files; compressed records have fixed"
                   " content",
    },
    "L02": {
        "how": "As L01; the output file is read back with the library and compared with the records selected.",
        "harnesses": [
            h("cli", "h_l02_cp", [1, 2], params={"p0": 2},
              thorough={"p0": 3}),
            h("cli", "h_l02_compress", [1, 2, 3]),
            h("cli", "h_l02_far", [1]),
        ],
        "bounds": {"quick": "2 records and each start, count and option form,"
                            " to a new or existing file; each compression to"
                            " each other, of decoded and other bodies; two inputs or the same twice; from"
                            " and to offsets from 4 GiB on",
                   "thorough": "3 records"},
        "outside": "more records and files",
    },
    "L03": {
        "how": "As L01, with an input cut off at a symbolic position, and with a list of uses that cannot be served; exit code, output and all files are compared.",
        "harnesses": [
            h("cli", "h_l03_damage", [1, 2], params={"p0": 7},
              thorough={"p0": 3}),
            h("cli", "h_l04_refuse", [1]),
        ],
        "bounds": {"quick": "each 7th length of a file of two records; 18"
                            " uses",
                   "thorough": "each 3rd length"},
        "outside": "other damage (see B05)",
    },
    "P01": {
        "how": "The logger is set up in a process with an unconstrained level, for each origin and severity; presence and form of the line on standard error are compared with the documented rule.",
        "harnesses": [h("log", "h_p01_log", [1, 2]),
                      h("cli", "h_p01_cli", [1, 2])],
        "bounds": "any 32-bit level, 9 origins, 5 severities, messages with 2"
                  " symbolic bytes; up to 4 debug options of the barc program"
                  " in any form and place",
        "outside": "other origins",
    },
}
