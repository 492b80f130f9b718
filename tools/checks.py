"""The checks: harness binaries, method, bounds, texts. tools/gen.py turns this into MANIFEST.json."""
MC = "explicit exhaustive exploration of the implementation (bounded, all paths)"
CHECKS = {}
NOT_APPLICABLE = {}
NOTES = "Generated by tools/gen.py. See DESIGN.md."

def check(id, technique, level, note, harness, rule="", assumptions=(), budget=(240, 3000)):
    """harness: list of (sources, variant, extra flags)."""
    CHECKS[id] = dict(technique=technique, level=level, note=note, harness=harness, rule=rule, assumptions=list(assumptions), budget=budget)

def targets(id):
    out = []
    for i, (srcs, variant, extra) in enumerate(CHECKS[id]["harness"]):
        out.append((f"{id}_{i}", list(srcs), variant, list(extra)))
    return out


SEQ = "stateless exhaustive model checking of the implementation: every operation sequence up to a depth, against a reference model"
ENUM = "exhaustive bounded enumeration of inputs and environments executed on the implementation, against a reference model"
SCHED = "stateless model checking of the implementation under a controlled scheduler: all thread schedules up to a preemption bound"
TRUST = "Trusts the harness's reference model, clang/ASan and the bounds listed in DESIGN.md; says nothing beyond them."

check("S01", SEQ, "model_checking",
      "All operation sequences (resize, clear, voxel, iterator and base-class writes, copy, assign, clone, conversion, block order) up to depth 3 (4 thorough) and all small windows, for six voxel types, on the real sparse and dense classes in step with a plain array; memory errors are caught by ASan. " + TRUST,
      [(["S01.cpp"], "asan", [])])
check("S02", ENUM, "model_checking",
      "All windows up to 3-4 voxels per axis at several positions, all sub-ranges, block orders 0-2 and allocation patterns, all iterator kinds of all structures, compared step by step with a nested loop. " + TRUST,
      [(["S02.cpp"], "asan", [])])
check("S03", SEQ, "model_checking",
      "All sequences of voxel writes, block-value changes, block releases, clears and copies up to depth 4 (5 thorough) on small block grids, every block query compared with an explicit block model after every step. " + TRUST,
      [(["S03.cpp"], "asan", [])])
check("S04", SEQ, "model_checking",
      "Every way of copying x mapping kind x one or two (three thorough) later mutations of either side, for dense, sparse, MAC and multi-resolution fields; a full observable snapshot of the other side must not change. " + TRUST,
      [(["S04.cpp"], "asan", [])])
check("S05", SEQ, "model_checking",
      "All operation sequences up to depth 4 (5 thorough) on MAC fields against three face arrays, and all conversions over windows, mappings with and without rotation, target states and constant or varying content. " + TRUST,
      [(["S05.cpp"], "asan", [])])
check("F01", ENUM, "model_checking",
      "All combinations of structure, voxel type, file format, window shape and position, block order, content pattern and thread count within the bounds are written and read back through the public file interface and compared bit by bit with an independently rebuilt field. " + TRUST,
      [(["F01.cpp"], "asan", [])])
check("F02", ENUM, "model_checking",
      "A family of 23 mappings (null, matrix, frustum; 0-3 time samples, insertion orders, distributions, numeric extremes) x structures x formats x extents, all assignments of mappings to two or three layers under one or two partition names, and in-place mapping changes between writes. Mappings are compared by their conversions at probe points and times. " + TRUST,
      [(["F02.cpp"], "asan", [])])
check("F03", ENUM, "model_checking",
      "All metadata sets of up to two entries over 8 keys x 5 types x 3-5 values, on fields and on the file, in both formats and every structure; all placements of entries on two fields and the file; all pairs of 17 partition and layer names through every write call. Everything read back is compared with what was set. " + TRUST,
      [(["F03.cpp"], "asan", [])])
check("F04", SEQ, "model_checking",
      "All sequences of three (four thorough) layer writes over partitions x layers x voxel types x mappings plus refused writes, and all pairs (triples) over a richer alphabet of names and write calls, in both formats; every listing call and every fetch (by partition, layer, both, neither, for names that exist and names that do not, for five voxel types) is compared with the list of writes. " + TRUST,
      [(["F04.cpp"], "plain", [])])
check("F05", SEQ, "model_checking",
      "All sequences of three (four thorough) opens of eight files (both formats, missing, foreign, empty), closes, reads and metadata changes on one input object, and of five (six) creates in both formats on two names, closes, failing creates, layer writes and metadata writes on one output object; after each step everything the object or file shows equals what a fresh object shows. " + TRUST,
      [(["F05.cpp"], "asan", [])])
check("F06", ENUM, "model_checking",
      "All pairs of layers over structures x six voxel types, read with each of the six types; all conversions of every structure and type to dense and sparse over windows, contents, mappings and reading calls; all proxy reads over structures, types, windows, eight mappings, metadata and second layers, in both formats. " + TRUST,
      [(["F06.cpp"], "asan", [])])
check("F07", ENUM, "model_checking",
      "File-system calls of a set of write histories (both formats, all structures, several layers and threads) are recorded by interposition; for every prefix of the recorded write sequence, and every torn length of the write in progress, the left-over file is rebuilt and opened and everything it shows is compared with what was being written. " + TRUST,
      [(["F07.cpp"], "asan", [])])
check("F08", ENUM, "model_checking",
      "The same histories, with an error (ENOSPC, EIO, partial write then ENOSPC, legal short write, EINTR) injected at every file-system write call, once or from there on, each in a child process; crash, hang, unreported loss and wrong content of the resulting file are reported. A crash inside the HDF5 library's exit handler after Field3D has reported the failure is not held against Field3D. " + TRUST,
      [(["F08.cpp"], "asan", [])])
check("F10", ENUM, "model_checking",
      "Every length of finished files of every history (quick: every length near both ends and of the Ogawa body, every 16th elsewhere), read completely, on demand, and with more I/O threads; and every cut of an Ogawa file after it was opened. Everything returned is compared with what was written. " + TRUST,
      [(["F10.cpp"], "asan", [])])
check("F09", SEQ, "model_checking",
      "All programs of up to three (four thorough) group, attribute, data set, element and close operations on the archive's writing classes, all types and values and pairs of types under one name, fan-outs around the thresholds of eight children and powers of two, and all programs of up to four (five) operations on the raw group/data graph (sharing, replacing, rewriting, freezing, every order of destruction); every query by name, type, path, index and thread is compared with a tree or graph. " + TRUST,
      [(["F09.cpp"], "asan", [])])
check("D01", SEQ, "model_checking",
      "All histories of three (four thorough) operations out of 46 on three demand-loaded fields (reads of every block, iterators live across operations, copies, assignments, clones, drops, reloads, limits from below one block to no limit, flushes, interpolation, conversion, writing to files) in both formats, every value read compared with a fully loaded twin, and all three fields compared completely at the end. " + TRUST,
      [(["D01.cpp"], "plain", ["-DDEPTH=3"]), (["D01.cpp"], "asan", ["-DDEPTH=2"])])
check("D02", SEQ, "model_checking",
      "The same histories (without interpolation and conversion); after every read of one block the memory held is compared with the limit and the blocks in use, evictions must be needed, blocks under a live iterator must stay, and every counter the cache reports must equal the true state; at the end everything must be back to zero, files closed, and the limit exact again. " + TRUST,
      [(["D02.cpp"], "plain", ["-DDEPTH=3"]), (["D02.cpp"], "asan", ["-DDEPTH=2"])])
check("D03", SCHED, "model_checking",
      "The real cache manager, readers and reference counting on files of both formats with three small demand-loaded layers: all schedules with one preemption (two for pairs of readers; two and three in the thorough tier) of two and three threads that read the same or different blocks, iterate, interpolate, copy, assign, drop, open, flush, change the limit or ask for statistics, with limits of half a block, one block, two blocks and none, and of a read while the list of open fields grows (after 60 ... 700 fields); every value is compared with the file's, memory given back is watched, deadlocks are detected, and the cache must be consistent afterwards. " + TRUST,
      [(["D03.cpp"], "sched", [])])
check("T02", SCHED, "model_checking",
      "All programs of up to four (five thorough) reference operations in one thread, and all schedules with up to three (four) preemptions of two threads, up to two (three) of three threads, running pairs of reference operations on one object, shared mappings and multi-resolution levels, on the real reference counting; destruction is counted by derived classes and every access to freed memory is detected. " + TRUST,
      [(["T02.cpp"], "sched", [])])
check("T01", SCHED, "model_checking",
      "All schedules with one preemption (two for writing up to three blocks; three and two in the thorough tier) of two, three and four worker threads that write and read Ogawa sparse layers of one to four blocks with every pattern of allocated blocks, of demand-loaded sources in both formats with caches of one and two blocks, and of writes that fail for lack of room after various lengths; the result read back single-threaded must equal the field, the calls must report success or failure truthfully, and no schedule may deadlock, spin for ever or touch freed memory. " + TRUST,
      [(["T01.cpp"], "sched", [])])
check("T03", SCHED, "model_checking",
      "All schedules with two preemptions (four thorough) of pairs, with one (three) of triples, of programs that look a layer up, register it, load it when absent and drop their own or the last reference, on the real cache and reference counting with fields that detect use after destruction; and of two and three threads opening and reading whole layers of one or two files in both formats while another reference is dropped, compared with what was written. Calls of the HDF5 library by two threads must be ordered by a lock of Field3D's. " + TRUST,
      [(["T03.cpp"], "sched", [])])
check("T04", SCHED, "model_checking",
      "In memory, every schedule with up to two preemptions (three thorough) of pairs of accesses that load a level of a multi-resolution field first, one preemption for the other pairs of twelve access programs and for triples: voxel, level object, raw level, interpolation, copying, statistics, with and without a first load that fails. From files in both formats, dense, sparse and demand-loaded sparse: one preemption. Plus, in one thread, every history of two (three) operations - access in each way, setMapping, copy, clone, assignment, file moved or replaced - against a field whose levels were all there, for each kind of mapping; thorough: four operations. " + TRUST,
      [(["T04.cpp"], "sched", []), (["T04s.cpp"], "asan", [])])
check("T05", SCHED, "model_checking",
      "Every schedule of the worker threads of makeMIP and makeMinMax with one preemption (two for two of the fields; thorough two and three), of two threads, without preemption of three and of two callers at once: dense and sparse fields of block orders 1 to 5, one and several blocks per pass, six voxel types, offsets, five filters. Compared with the result of one thread. " + TRUST,
      [(["T05.cpp"], "sched", [])])
check("T06", SCHED, "model_checking",
      "Every execution is a fresh process: all schedules with two preemptions (four thorough; one where files are read) of pairs and one (three) of triples of threads that use the class registry, block cache manager, field cache, initIO, registration, creation, field construction and layer reading first, with and without a plug-in compiled for the check; all must see one object each, complete, and everything registered must be found afterwards. " + TRUST,
      [(["T06.cpp"], "sched", [])])
check("N01", ENUM, "model_checking",
      "All single patterns up to the tier's length over literals, wildcards, brackets, separators and exclusion marks, all pairs of short patterns and all lists of up to four (five thorough) from eleven kinds, against all short names and attributes, in the string, list and field-object forms of the query and with both settings of the empty-list flag, compared with a matcher written from the documentation; plus splitting of all short strings. POSIX character classes and unclosed brackets are not enumerated. " + TRUST,
      [(["N01.cpp"], "asan", [])])
check("N02", ENUM, "model_checking",
      "All strings over an alphabet of digits, letters, dash, dot and both range marks up to the tier's length, plus all ranges over a set of numbers up to and beyond the limits of int, with and without a file of that name, compared with a reference parser; every index, before, inside and after the range. A hang is a violation. " + TRUST,
      [(["N02.cpp"], "asan", [])])
check("N03", SEQ, "model_checking",
      "All histories of metadata updates (all types, colliding keys across types, copying and assigning containers and fields), and all orders of insertion of samples into time curves of each value type, every query compared with ordered maps. " + TRUST,
      [(["N03.cpp"], "asan", [])])
check("X01", ENUM, "model_checking",
      "All 103 concrete classes (fields of six voxel types, multi-resolution fields, interpolators, mappings, I/O classes) against all 144 types, with the compiler's own type information as the oracle; all pairs of names; creation by name of everything registered; and every class written to a file and read back by type. " + TRUST,
      [(["X01.cpp"], "asan", [])])
check("L01", SEQ, "model_checking",
      "All histories of three (four thorough) operations out of 20 - opening, closing, reading by partition and name and by name alone, dropping and changing fields, replacing a file, writing it again in place - over two files, two handles and five layers of three types, in both formats, from an empty and from a filled cache. Fields returned must be the ones in memory exactly if file contents and layer are the same, and hold what the file holds; the memory the cache reports must be that of the fields held. Every version of a file has a time stamp of its own. " + TRUST,
      [(["L01.cpp"], "asan", [])])
