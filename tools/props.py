# Single source for properties.jsonl and MANIFEST.json (run tools/gen.py).
# fields: id, title, statement, over, text, why, files, mech[(name,where)], observe[]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- files
prop("F01", "Voxel data and sparse structure survive a write/read round trip",
 "Every dense, sparse, MAC or multi-resolution field of half, float or double scalars or 3-vectors that is written to a file is read back, in both file formats and for any number of I/O threads, with the same concrete field type, extents, data window and bit-identical value at every voxel. "
 "For a sparse field the block size, the set of allocated blocks and the value of every unallocated block are preserved as well. "
 "This holds for every shape and position of extents and data window, including single-voxel fields, partial edge blocks and negative coordinates.",
 ["inputs", "configurations"],
 "all small shapes/offsets of extents and data window x block sizes x block occupancy patterns x 6 voxel types x 4 structures x {Ogawa, HDF5} x I/O thread counts",
 "The unit tests write one or two fixed shapes with uniform data per type; a wrong stride, edge block, offset or type mix-up shows only for particular shapes.",
 ["src/SparseFieldIO.cpp", "src/DenseFieldIO.cpp", "src/MACFieldIO.cpp", "src/MIPFieldIO.cpp", "export/OgSparseDataReader.h", "export/SparseDataReader.h"],
 [("per-structure field IO classes (write attributes + data, read attributes + data)", "src/*FieldIO.cpp"), ("block compression / decompression", "src/SparseFieldIO.cpp, export/OgSparseDataReader.h")],
 ["Field3DInputFile::readScalarLayers / readVectorLayers"])

prop("F02", "Every layer comes back with the mapping it was written with",
 "Each layer read from a file has the same mapping it was written with - null, matrix or frustum, static or time-varying, uniform or perspective depth - so that every local, voxel and world space conversion at every time gives the same result as before writing. "
 "Layers that were written with different mappings under one partition name never exchange mappings, and layers written with identical mappings do not need more than one stored copy.",
 ["inputs", "histories"],
 "all mapping kinds x sample-time sets x matrices from a small alphabet, all short sequences of layers with mappings from that alphabet under shared partition names, both formats",
 "Tests write one mapping per file and compare a few matrices; mapping sharing between layers and per-format encoders are only reached by combinations.",
 ["src/FieldMappingIO.cpp", "src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "src/FieldMapping.cpp"],
 [("mapping reader/writer per format", "src/FieldMappingIO.cpp"), ("partition per distinct mapping", "src/Field3DFile.cpp createNewPartition / intPartitionName")],
 ["field->mapping() of fields read back"])

prop("F03", "Metadata and names survive a write/read round trip",
 "All string, integer, float, integer-vector and float-vector metadata attached to a field, all global metadata attached to the output file, and the name and attribute of every field are read back unchanged, in both file formats. "
 "Nothing is added, lost, truncated, or moved between fields or between types, including for empty strings and for equal keys used with different types on different fields.",
 ["inputs", "histories"],
 "all subsets/sequences of metadata entries over a small alphabet of keys, types and boundary values, on 1-2 fields and on the file, both formats",
 "The test uses one entry of each type; type confusion, key collisions and boundary values (empty, negative, extreme) need combinations.",
 ["src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "src/FieldMetadata.cpp", "src/OgUtil.cpp", "export/OgOAttribute.h", "export/OgIAttribute.h", "src/OgIGroup.cpp"],
 [("metadata writers/readers per format", "src/Field3DFile.cpp writeMetadata/readMetadata"), ("attribute encoding", "export/OgOAttribute.h")],
 ["FieldRes::metadata(), Field3DInputFile::metadata()"])

prop("F04", "A file lists and returns exactly the layers that were written to it",
 "For any sequence of layer writes, with repeated partition names, repeated layer names, mixed scalar/vector and voxel types and differing mappings, the finished file lists exactly the partition and layer names that were written, and fetching by partition, by layer name, by both or by neither returns exactly the fields that match, each one once, with their own contents. "
 "Names that were never written give empty results.",
 ["histories", "programs"],
 "all sequences up to length 4 of layer writes over 2-3 partition names x 2-3 layer names x scalar/vector x voxel type x 2 mappings, followed by every query; both formats",
 "Tests check two fixed sequences; the internal renaming of repeated partitions only matters for particular write orders.",
 ["src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "export/Field3DFile.h", "export/Field3DFileHDF5.h"],
 [("internal partition naming and counting", "src/Field3DFile.cpp intPartitionName/makeIntPartitionName/removeUniqueId"), ("group membership scan on open", "src/Field3DFile.cpp readPartitionAndLayerInfo")],
 ["getPartitionNames, get{Scalar,Vector}LayerNames, read{Scalar,Vector}Layers"])

prop("F05", "Reusing a file object behaves like using a fresh one",
 "Opening a file with an input object, or creating a file with an output object, gives the same results whatever was opened, created, read, written, closed or failed before with that object, including files of the other format. "
 "Nothing of the earlier file - layers, names, global metadata or format - shows through.",
 ["histories"],
 "all sequences up to length 4 of open/create/close/read/write operations on one input and one output object over a set of different files (both formats, missing and invalid files), compared with fresh objects",
 "Tests always use a new object per file.",
 ["src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp"],
 [("close/clear before opening", "src/Field3DFile.cpp Field3DInputFile::open, Field3DOutputFile::create, closeInternal, clear")],
 ["all query and read calls after open"])

prop("F06", "Typed, converting and proxy reads agree with the stored layer",
 "Reading with a given voxel type returns exactly the layers stored with that type. "
 "Reading a layer as another field structure gives the stored values at every voxel with the stored extents, data window, mapping, name and attribute; a proxy read gives the stored extents, data window, mapping, name, attribute and metadata without voxel data.",
 ["inputs", "configurations"],
 "all stored (structure, voxel type) pairs x all requested voxel types and structures x all read calls x both formats x small shapes",
 "Tests cover a single conversion on one uniform shape; mixed-type files, vector layers and proxies are sampled once or not at all.",
 ["export/Field3DFile.h", "export/Field3DFileHDF5.h", "src/Field3DFile.cpp", "export/DenseField.h", "export/SparseField.h", "export/EmptyField.h"],
 [("type check against stored data type", "src/*FieldIO.cpp read"), ("copy conversion", "export/Field.h, DenseField.h, SparseField.h")],
 ["readScalarLayersAs, readVectorLayersAs, readProxyLayer, readProxyScalarLayers"])

prop("F07", "An interrupted write never yields wrong data",
 "If the writing process stops at any point while a file is being written, what is left on disk either is rejected on opening, or opens and presents only layers whose every voxel, mapping and metadata value is what was written. "
 "Opening and reading the remains never crashes or hangs.",
 ["crash_points"],
 "every prefix of the sequence of file-system writes of a set of write histories, and every torn byte length of each single write in it",
 "Tests only look at files after a clean close.",
 ["src/OStream.cpp", "src/OGroup.cpp", "src/OArchive.cpp", "src/IArchive.cpp", "src/IGroup.cpp", "src/IStreams.cpp", "src/Field3DFile.cpp"],
 [("root position and frozen byte are written last", "src/OGroup.cpp freeze, src/OStream.cpp"), ("header checks on open", "src/IStreams.cpp, src/IArchive.cpp")],
 ["Field3DInputFile::open and reads on the left-over file"])

prop("F08", "A file-system error while writing is survived and never hidden",
 "If the file system refuses or fails any write while a file is created, written or closed, the process neither crashes nor hangs: the library reports the failure by return value or by an exception the caller can catch. "
 "The resulting file is never accepted later with wrong or silently missing layers.",
 ["fault_sequences"],
 "an error injected at every single write (and at every write from that point on) of a set of write histories, both one and several I/O threads",
 "Tests never run out of disk space.",
 ["src/OStream.cpp", "src/OGroup.cpp", "src/OData.cpp", "src/Field3DFile.cpp", "src/SparseFieldIO.cpp"],
 [("stream exceptions and their handlers", "src/OStream.cpp"), ("return codes of writeLayer", "src/Field3DFile.cpp")],
 ["return values/exceptions of writeScalarLayer/writeVectorLayer/close, later open"])

prop("F09", "The hierarchical archive returns exactly what was stored in it",
 "Any tree of groups with named attributes of every supported type and typed data sets that is written to an archive is read back with the same groups, names, types, order and bytes, and lookups by name find exactly the stored children. "
 "This holds for empty strings, empty data sets, empty groups, repeated data and any number of children.",
 ["inputs", "histories"],
 "all small trees (depth <= 3, fan-out <= 2, plus fan-outs around every internal threshold) of groups, attributes of each type and data sets of lengths 0,1,2, with all write orders",
 "No unit test exercises the archive layer directly.",
 ["src/OGroup.cpp", "src/IGroup.cpp", "src/OData.cpp", "src/IData.cpp", "src/OStream.cpp", "src/IStreams.cpp", "src/OgIGroup.cpp", "export/OgOGroup.h", "export/OgIGroup.h", "export/OgODataset.h", "export/OgIDataset.h"],
 [("child position table", "src/OGroup.cpp freeze, src/IGroup.cpp init"), ("name/type header children", "src/OgIGroup.cpp")],
 ["OgIGroup::groupNames/attributeNames/datasetNames/find*"])

prop("F10", "A truncated file never yields wrong data or a crash",
 "Opening and reading a finished file that has been cut short at any length fails cleanly - nothing opened, layer absent, or an exception - or yields layers with exactly the written contents. "
 "The same holds when an Ogawa file is cut after it was opened, also with demand loading. It never crashes, hangs, or returns a layer with wrong voxels, mapping or metadata.",
 ["inputs", "crash_points"],
 "every truncation length of a set of small finished files of every field structure",
 "Tests only open intact files.",
 ["src/IStreams.cpp", "src/IGroup.cpp", "src/IData.cpp", "src/IArchive.cpp", "src/Field3DFile.cpp", "export/OgSparseDataReader.h"],
 [("short reads detected when reading archive data", "src/IStreams.cpp"), ("structure checks while opening", "src/Field3DFile.cpp open")],
 ["Field3DInputFile::open and all reads"])

# ---------------------------------------------------------------- dynamic loading
prop("D01", "Demand-loaded sparse fields read like fully loaded ones",
 "With demand loading of sparse blocks enabled, every read through any read interface - direct access, iterators, interpolation, copies, block queries - returns the same value as the same read on the fully loaded field. "
 "This holds after any history of accesses, memory limit changes, evictions, cache flushes, copies, and destruction of other fields or files, in both file formats.",
 ["histories", "configurations"],
 "all sequences up to the stated depth of {read voxel, iterate, hold/advance/copy/drop iterator, copy field, assign, drop field, change limit, flush, sample} over 2 fields with a limit that forces eviction",
 "The tests read one field front to back with one limit; eviction order, pinning and aliasing need histories.",
 ["src/SparseFile.cpp", "export/SparseFile.h", "export/SparseField.h", "export/OgSparseDataReader.h", "export/SparseDataReader.h"],
 [("block load/evict (second chance list)", "export/SparseFile.h Reference, src/SparseFile.cpp SparseFileManager"), ("pin counts around access", "export/SparseField.h")],
 ["value(), fastValue(), const_iterator, interpolators"])

prop("D02", "The block cache honours its memory limit and its accounting",
 "When a memory limit is set, the blocks kept in memory by the block cache never exceed the limit by more than what is in use at that moment, and blocks in use by a live iterator are never evicted. "
 "The reported counts of loaded and total blocks and memory in use equal the true state after any history, return to zero when the fields are gone, and no operation runs forever.",
 ["histories"],
 "all sequences up to the stated depth of {read, iterate/hold, drop, limit change, flush, reset, destroy} over 2 fields with several limits, after every step",
 "Tests check one limit on one access pattern and only look at the values.",
 ["src/SparseFile.cpp", "export/SparseFile.h"],
 [("eviction loop", "src/SparseFile.cpp deallocateBlocks"), ("byte accounting", "src/SparseFile.cpp allocate/deallocate, numLoadedBlocks")],
 ["SparseFileManager statistics calls"])

prop("D03", "Concurrent reads of demand-loaded fields are correct in every schedule",
 "Threads reading demand-loaded sparse fields concurrently - the same or different blocks, the same or different fields, with any memory limit - each read the values stored in the file, for every interleaving. "
 "No interleaving crashes, deadlocks, or touches freed block memory, also when fields are opened, copied or destroyed by another thread.",
 ["schedules"],
 "all interleavings up to the preemption bound, at every synchronisation operation and every access to shared library memory, of 2-3 threads with 1-2 reads each on colliding blocks and limits of 1 block upwards",
 "The tests never read one demand-loaded field from two threads; a stress run samples a handful of schedules.",
 ["src/SparseFile.cpp", "export/SparseFile.h", "export/SparseField.h"],
 [("per-block mutex, reference counts, cache mutex", "export/SparseFile.h, src/SparseFile.cpp activateBlock")],
 ["values returned to each thread"])

# ---------------------------------------------------------------- threads
prop("T01", "Threaded sparse file I/O gives the single-threaded result in every schedule",
 "Writing a sparse field with any number of I/O threads produces a file with the same contents as single-threaded writing, and reading one with any number of I/O threads produces the same field, for every interleaving of the worker threads. "
 "No interleaving deadlocks, crashes or leaves blocks unwritten or unread.",
 ["schedules"],
 "all interleavings up to the preemption bound of the worker threads for 2-3 threads and 1-4 blocks, including more threads than blocks",
 "Tests use the default thread count and whichever schedule the OS happens to give.",
 ["src/SparseFieldIO.cpp", "src/InitIO.cpp", "src/IStreams.cpp"],
 [("shared block counter and ordered output", "src/SparseFieldIO.cpp ThreadingState, WriteBlockOp, ReadThread"), ("stream per thread", "src/IStreams.cpp")],
 ["file bytes / fields after the call"])

prop("T02", "Shared objects are destroyed exactly once, after the last reference",
 "A field, mapping or other shared object stays alive while any counted reference exists and is destroyed exactly once when the last one goes, for every order and interleaving of copying, moving and dropping references in any number of threads. "
 "No thread touches the object after its destruction, and weak references report expiry correctly.",
 ["schedules", "histories"],
 "all sequences of reference operations up to the stated depth, and all interleavings of 2-3 threads each copying/dropping references",
 "Tests never drop references concurrently.",
 ["export/RefCount.h"],
 [("atomic counter and release", "export/RefCount.h intrusive_ptr_add_ref / intrusive_ptr_release")],
 ["destructor calls observed through a derived class"])

prop("T03", "Sharing of already loaded fields is safe in every schedule",
 "When several threads look up, load, register and release the same layer concurrently, each gets either no cached field or a live one with the right contents, for every interleaving. "
 "A field whose last reference is being dropped is never handed out or destroyed twice.",
 ["schedules"],
 "all interleavings up to the preemption bound of 2-3 threads doing lookup / register / drop / whole-layer reads on one key",
 "Tests never load the same layer from two threads.",
 ["export/FieldCache.h", "export/RefCount.h", "src/Field3DFile.cpp"],
 [("weak pointer check under the cache mutex", "export/FieldCache.h getCachedField")],
 ["fields returned by the cache and by file reads"])

prop("T04", "Lazily loaded multi-resolution levels are complete for every thread",
 "Threads that access levels of a multi-resolution field read from file, while these are being loaded on first use, all see complete levels - right values, mapping, metadata, extents - for every interleaving, and each level is loaded at most once. "
 "The result equals the field with all levels loaded up front.",
 ["schedules", "histories"],
 "all interleavings up to the preemption bound of 2-3 threads touching the same or different levels for the first time, and all single-threaded access orders",
 "Tests touch levels from one thread in one order.",
 ["export/MIPField.h", "src/MIPFieldIO.cpp", "export/MIPInterp.h"],
 [("double-checked load under the field mutex", "export/MIPField.h loadLevelFromDisk")],
 ["mipLevel(), fastMipValue(), MIP interpolators"])

prop("T05", "Parallel resampling and MIP generation do not depend on threads",
 "Building a multi-resolution or min/max representation with any number of threads gives, voxel for voxel, the result of building it with one thread, for every interleaving and for dense and sparse fields of any block size.",
 ["schedules", "configurations"],
 "all interleavings up to the preemption bound with 2-3 threads on small fields, all block sizes up to the default, and all thread counts 1..8 on small shapes",
 "Tests do not build MIPs at all.",
 ["export/MIPUtil.h", "export/MinMaxUtil.h", "export/Resample.h"],
 [("work queue and per-block ownership of targets", "export/MIPUtil.h")],
 ["makeMIP, makeMinMax results"])

prop("T06", "First use of shared library state is safe from any thread",
 "If several threads use the library's shared registries and managers for the first time at the same moment, all of them get the same, fully initialised object, for every interleaving. "
 "Nothing registered through it is lost and nothing is initialised twice.",
 ["schedules"],
 "all interleavings of 2-3 threads making the first call to each lazily created global (class registry, block cache manager, field caches, I/O settings)",
 "Tests initialise everything from the main thread before any other thread exists.",
 ["src/ClassFactory.cpp", "src/SparseFile.cpp", "export/FieldCache.h", "src/InitIO.cpp"],
 [("lazy creation of singletons", "src/ClassFactory.cpp singleton, src/SparseFile.cpp singleton, export/FieldCache.h singleton")],
 ["addresses and contents of the returned objects"])

# ---------------------------------------------------------------- in-memory fields
prop("S01", "In-memory fields behave as plain arrays of voxels",
 "After any sequence of resizes, clears, voxel writes, iterator writes, copies and assignments, every dense and sparse field returns at each voxel of its data window the value last written there, or the value of the last clear. "
 "A sparse field and a dense field given the same operations always agree, for every block size and data window position.",
 ["histories", "configurations"],
 "all operation sequences up to the stated depth over small windows with negative, zero and positive origin, and all block orders from 1 voxel up",
 "Tests use one uniform value and one shape per type.",
 ["export/SparseField.h", "export/DenseField.h", "export/Field.h"],
 [("voxel to block coordinate arithmetic", "export/SparseField.h"), ("stride arithmetic", "export/DenseField.h")],
 ["value(), fastValue(), lvalue(), fastLValue()"])

prop("S02", "Iterators visit each voxel of their range exactly once",
 "Iterating over a whole field or over any sub-range visits each voxel of the range exactly once in a fixed order, with the coordinates of the voxel it refers to, reads and writes the same storage as direct access, and ends exactly at the end iterator. "
 "This holds for dense, sparse, MAC and generic field iterators for every window and sub-range, and block iterators visit every block once with the right bounding box.",
 ["inputs"],
 "all sub-ranges of all small windows (origins -2..2, sizes 1..4 per axis) for every field structure and block order, const and mutable iterators",
 "Tests iterate whole fields and one or two sub-ranges of one shape.",
 ["export/DenseField.h", "export/SparseField.h", "export/MACField.h", "export/Field.h"],
 [("iterator increment", "export/*Field.h iterator::operator++"), ("block stepping", "export/SparseField.h block_iterator")],
 ["iterator coordinates and dereference"])

prop("S03", "Sparse block bookkeeping matches the voxels",
 "For every history of voxel writes, block-value changes and empty-block releases, the sparse field's block queries tell the truth: a block is reported allocated exactly if it holds its own voxels, unallocated blocks read as their empty value everywhere, and coordinate conversions between voxels and blocks are mutually inverse. "
 "Releasing blocks whose voxels are all equal never changes a voxel value; every release frees exactly the blocks its criterion allows, which then read as one value.",
 ["histories"],
 "all operation sequences up to the stated depth over fields of 1-8 blocks, with every release criterion",
 "The test exercises one sequence on one block grid.",
 ["export/SparseField.h"],
 [("allocation on write", "export/SparseField.h fastLValue / setBlockEmptyValue"), ("releaseBlocks criteria", "export/SparseField.h Sparse::CheckAllEqual, releaseBlocks")],
 ["blockIsAllocated, getBlockEmptyValue, voxelCount, numBlocks, memSize"])

prop("S04", "Copies of fields are independent of the original",
 "A copy of a field, made by copy construction, assignment, cloning or conversion from another structure, has the same extents, data window, values, mapping, name, attribute and metadata as the original. "
 "Afterwards no operation on one of the two - writing, resizing, clearing, changing mapping or metadata, destroying - is visible in the other.",
 ["histories"],
 "all ways to copy x all mutations up to depth 3 on either side x all field structures, including self-assignment and assignment onto a non-empty field",
 "Tests copy one field once and compare the values right away.",
 ["export/Field.h", "src/Field.cpp", "export/SparseField.h", "export/DenseField.h", "export/MACField.h", "export/MIPField.h"],
 [("copy constructors / assignment operators", "export/Field.h FieldRes, export/SparseField.h operator=")],
 ["every accessor of the untouched field"])

prop("S05", "MAC fields and their conversions are consistent",
 "A MAC field's face components are independent storage locations: each component read returns the value last written to that face, the cell value is the average of its faces, and component iterators visit every face once. "
 "Converting between MAC and cell-centred fields transfers extents, window and mapping and produces the defined averages, and is exact for constant fields.",
 ["inputs", "histories"],
 "all small windows x all write sequences up to the stated depth x all components; all conversions on all small shapes with identity and translated mappings",
 "Tests check one shape and a constant field.",
 ["export/MACField.h", "export/MACFieldUtil.h"],
 [("per-component strides", "export/MACField.h"), ("conversion loops", "export/MACFieldUtil.h")],
 ["u(), v(), w(), value(), mac_comp_iterator"])

# ---------------------------------------------------------------- sampling & mappings
prop("I01", "Interpolation is exact at voxel centres and independent of the field structure",
 "Linear and cubic interpolation return the stored value at each voxel centre, never read outside the data window, clamp to the nearest border voxel for points outside it, and depend only on the point's position relative to the data window. "
 "All interpolators of the same kind agree on equal contents whatever the field structure, and linear interpolation stays within the range of its neighbouring values.",
 ["inputs", "configurations"],
 "all sample points on a quarter-voxel lattice in and around the window x small windows with negative, zero, positive origin x dense/sparse/MAC x linear/cubic x generic/specialised interpolators",
 "Tests check a handful of points on windows starting at the origin.",
 ["export/FieldInterp.h", "export/DenseField.h", "export/SparseField.h", "export/MACField.h", "export/ProceduralField.h"],
 [("index clamping and fractions", "export/FieldInterp.h"), ("block-wise fast path", "export/SparseField.h LinearInterp")],
 ["sample() of all interpolators"])

prop("M01", "Mapping conversions are consistent and mutually inverse",
 "For every mapping and time, world-to-local, local-to-world, world-to-voxel and voxel-to-world conversions agree with one another and are mutually inverse for points and consistent for directions, voxel size matches the distance between neighbouring voxel centres, and changing extents or transforms updates all of them. "
 "Time-varying transforms interpolate between samples and hold the end values outside, whatever the order in which the samples were added.",
 ["inputs", "histories"],
 "all sequences up to depth 4 of {set transform at a time, set extents, make identity, copy, clone} over a small alphabet for every mapping kind, checked on a lattice of points and times",
 "Tests check one fixed matrix per case; stale cached matrices only appear after particular sequences of updates.",
 ["src/FieldMapping.cpp", "export/FieldMapping.h", "export/Curve.h"],
 [("cached derived matrices", "src/FieldMapping.cpp updateTransform / getLocalToVoxelMatrix"), ("time curve", "export/Curve.h")],
 ["worldToVoxel, voxelToWorld, worldToLocal, localToWorld, wsVoxelSize, isIdentical"])

prop("K01", "Multi-resolution pyramids cover the field at every level",
 "A generated multi-resolution field has as its finest level the original field unchanged; each coarser level halves the resolution, rounding so that every source voxel is covered, down to the requested minimum; every level's mapping covers the same region of space at its own resolution. "
 "A constant field stays constant, values stay in the range of the source, dense and sparse sources give equal levels, and all this survives a file round trip.",
 ["inputs", "configurations"],
 "all small resolutions (1..9 per axis varied), offsets 0/1 per axis, minimum resolutions, filters, dense/sparse, block orders, both formats",
 "No unit test builds a pyramid.",
 ["export/MIPUtil.h", "src/MIPUtil.cpp", "export/MIPField.h", "src/MIPFieldIO.cpp", "export/Resample.h"],
 [("level resolution and offset computation", "export/MIPUtil.h, src/MIPUtil.cpp"), ("filter weights", "export/Resample.h")],
 ["numLevels, mipLevel(i), fastMipValue"])

prop("K02", "Min/max summaries bound every value they summarise",
 "The min and max representations built for a field bound the field's values at every level: each coarse minimum is not above, and each coarse maximum not below, any source voxel it covers. "
 "A field group's min/max query over any box bounds every sample taken inside that box from any field in the group, with and without prebuilt summaries.",
 ["inputs", "configurations"],
 "all small shapes x value patterns with a single extreme voxel at each position x resolution multipliers x query boxes from a lattice x 1-2 fields per group",
 "No unit test uses min/max queries.",
 ["export/MinMaxUtil.h", "src/MinMaxUtil.cpp", "export/FieldSampler.h", "export/FieldGroup.h", "export/Resample.h"],
 [("min/max filters", "export/Resample.h"), ("level choice and bounds", "export/FieldSampler.h getMinMax*")],
 ["makeMinMax, FieldGroup::getMinMax"])

prop("K03", "Resampling preserves range, constants and placement",
 "Resampling a field to any resolution with any filter keeps a constant field constant, keeps values of the non-negative filters within the range of the source, reproduces the field exactly when the resolution does not change and the filter is interpolating, and keeps the mapping's region of space. "
 "Dense and sparse sources and targets give equal values.",
 ["inputs", "configurations"],
 "all source/target resolutions 1..5 per axis x filters x dense/sparse x window origins x value patterns",
 "No unit test resamples.",
 ["export/Resample.h", "src/Resample.cpp"],
 [("separable filter passes", "export/Resample.h")],
 ["resample()"])

prop("G01", "Sampling a group of fields equals combining its members",
 "Sampling a field group at any point gives the sum (or average) of the interpolated values of exactly those member fields whose data window contains the point, after the group's object transform and value remapping, whatever the mix and order of structures and voxel types, one point at a time or many at once, before and after enabling the bounding-box optimisation. "
 "Bounds, point tests and ray intersections agree with the members' actual regions, and loading a group from file equals setting it up from the same fields.",
 ["inputs", "configurations", "histories"],
 "all groups of 1-3 members from a small alphabet of (structure, type, window, mapping) x transforms x remaps x sample points on a lattice x rays from a small set",
 "No unit test uses field groups.",
 ["export/FieldGroup.h", "export/FieldSampler.h", "export/FieldWrapper.h", "export/MIPInterp.h"],
 [("type dispatch over member lists", "export/FieldGroup.h GrabFields"), ("sampling loops", "export/FieldSampler.h")],
 ["FieldGroup::sample*, intersects, getIntersections, wsBounds, load"])

prop("L01", "Already loaded layers are shared, and only those",
 "Reading a layer that is still in memory from an earlier read of the same file and layer returns that same field; otherwise it is loaded afresh. "
 "Different files, layers, partitions or voxel types never share a field, and a read never returns contents that differ from the file, unless the program itself has changed the field it shares.",
 ["histories"],
 "all sequences up to depth 5 of {read layer x of file y, drop field, rewrite file, close/reopen} over 2 files x 2 layers x 2 types",
 "Tests read each layer once.",
 ["export/FieldCache.h", "src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp"],
 [("weak cache keyed by file and layer", "export/FieldCache.h")],
 ["pointer identity and contents of fields read"])

prop("X01", "Run-time type identification is exact",
 "Casting a field, mapping or I/O object to a type succeeds exactly if the object is of that type or derives from it, for every pair of library classes and voxel types, and creating an object by its registered name gives an object reporting that name. "
 "Names are distinct for distinct types, so that a file's recorded type always leads back to the class that wrote it.",
 ["configurations"],
 "all pairs (concrete class x voxel type, target class x voxel type) of the library's field, mapping and I/O classes, and all registered names",
 "Tests cast a few objects to their own type.",
 ["export/RefCount.h", "export/Field.h", "src/ClassFactory.cpp", "src/InitIO.cpp", "export/Traits.h"],
 [("string-based type chain", "export/RefCount.h, DEFINE_FIELD_RTTI macros"), ("registration", "src/InitIO.cpp, src/ClassFactory.cpp")],
 ["field_dynamic_cast, ClassFactory::create*"])

prop("N01", "Name patterns select exactly the matching fields",
 "A field is selected by a pattern list exactly if at least one plain pattern matches and no excluding pattern matches, where a pattern with a separator is matched against name and attribute together and one without against the attribute alone, with shell wildcards. "
 "An empty pattern list follows the given flag, and string, list and field-object forms of the query agree.",
 ["inputs"],
 "all pattern lists of up to 2-3 patterns over an alphabet of literals, wildcards, separators and exclusion marks x all short names and attributes, against a reference matcher",
 "No unit test covers pattern matching.",
 ["src/PatternMatch.cpp", "export/PatternMatch.h"],
 [("match loops", "src/PatternMatch.cpp")],
 ["match(), split()"])

prop("N02", "Frame-range expressions expand to exactly the named files",
 "An expression base + start + '-' + end + mark + suffix expands to exactly the file names base + n + suffix for n from start to end in increasing order, and a name of an existing file is just that file. "
 "Anything else - no mark, several marks, an incomplete range, a missing dash or numbers beyond the range of int - expands to nothing, and no string makes the expansion crash or hang.",
 ["inputs"],
 "all strings up to length 7 over an alphabet of digits, letters, dash, dot and both marks, against a reference parser, with and without a file of that name",
 "No unit test covers sequences.",
 ["src/FileSequence.cpp", "export/FileSequence.h"],
 [("range parser", "src/FileSequence.cpp")],
 ["FileSequence::filename, numFiles"])

prop("N03", "Metadata containers and time curves behave as ordered maps",
 "After any sequence of updates, a field's metadata returns for each type and key the value last set or the caller's default, copies carry all entries, and setting one entry leaves all others unchanged. "
 "A time curve returns the exact value at each sample time, the linear blend between neighbouring samples, and the end values outside, for every insertion order.",
 ["histories"],
 "all sequences up to depth 5 of sets over 2 keys x 5 types x 2 values, and of curve insertions over 4 times x 2 values, against a map model",
 "Tests set each kind once.",
 ["src/FieldMetadata.cpp", "export/FieldMetadata.h", "export/Curve.h"],
 [("per-type maps", "export/FieldMetadata.h"), ("sorted insertion and lookup", "export/Curve.h")],
 ["FieldMetadata getters, Curve::linear"])

prop("A01", "The command line tools keep what they process",
 "Merging or converting files with the supplied tools gives a file containing exactly the selected layers of all inputs, each once, with unchanged voxels, mapping, metadata and names, in the requested format, for any thread count. "
 "Building multi-resolution files keeps every selected layer's finest level unchanged and adds only the requested extra layers.",
 ["inputs", "configurations"],
 "all combinations of 1-2 input files from a small alphabet of layer sets x selection patterns x output format x thread counts",
 "The tools have no tests.",
 ["apps/f3dmerge/main.cpp", "apps/f3dmakemip/main.cpp", "apps/f3dinfo/main.cpp", "src/Field3DFile.cpp"],
 [("copy loops over partitions and layers", "apps/f3dmerge/main.cpp writeOutput, apps/f3dmakemip/main.cpp makeMIP")],
 ["output file read back"])
