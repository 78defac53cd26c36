prop("C08", "Disk graph records tile sector-aligned pages and read back exactly",
 "For every non-zero dimension and every maximum degree, the on-disk graph layout places each node record of (dimension coordinates, neighbour count, degree slots) wholly inside one sector-multiple page after the header, packs as many whole records per sector as fit (one per page when a record exceeds a sector), never overlaps two records, and accounts for all of them in the page count and file size. A record read back yields exactly the coordinates, neighbour count and neighbour ids that were packed, and packing writes nothing past the neighbours given. Writing a whole graph to a file and reading it back returns the same header and the same nodes; dimension zero, malformed graphs, failed writes and malformed headers are rejected: any file is rejected or its header describes records that lie inside it.",
 ["inputs", "configurations"], "all dimensions, maximum degrees, node counts and node ids (within 2^40 bytes per record and 2^31 nodes), all coordinates and neighbour lists",
 "Unit tests fix a few dimensions and degrees (mostly records below one sector); overlap, page arithmetic and off-by-one slots depend on the exact ratio of record size to sector size.",
 ["include/index/graph/diskann/disk_layout.hpp"], [("geometry computation", "DiskLayoutGeometry::compute"), ("offset arithmetic", "DiskLayoutGeometry::file_offset / get_page_offset / num_pages"), ("record packing", "pack_node_record, NodeRecordView"), ("whole-file writer", "write_disk_layout / read_disk_layout_header")],
 "Geometry, offsets, disjointness, page counts and record packing are proved for all inputs (machine arithmetic included); whole-file write/read is a bounded native stand-in. Trusts clang's IR, the llv obligation generator and the SMT solvers.")
prop("C09", "Visited and filter bitsets behave as sets of ids",
 "Every bitset and visited-set type answers membership exactly as a mathematical set: adding an id makes exactly that id a member, removing it removes exactly that id, clearing or resizing empties it (including when an epoch counter wraps around), and a new set is empty. Where offered, the first-member query returns the smallest member or reports none, adding reports whether the id was new, and ids beyond the size are rejected by the checked variants.",
 ["inputs", "histories"], "all sizes, all contents, all ids, every state reachable by adds, removes and clears (induction over the representation invariant)",
 "Tests add a handful of ids to small sets; word and block boundaries, summary maintenance, epoch wrap-around after 2^8..2^32 clears and dirty-word bookkeeping are never all reached.",
 ["include/utils/query_utils.hpp", "include/index/graph/diskann/visited_bitset.hpp", "include/utils/rabitq_utils/search_utils/hashset.hpp", "include/third_party/ngt/hashset.hpp"], [("flat bitset", "DynamicBitset"), ("two-level bitset", "HierarchicalBitset"), ("epoch-tagged visited set", "EpochVisitedSet"), ("dirty-list visited set", "diskann::VisitedBitset")],
 "Every operation proved against the set view for all sizes and contents (bit-vector semantics). Hash-table based sets are bounded native stand-ins.")
prop("C10", "Candidate pools keep the nearest entries, sorted, within capacity",
 "Every bounded candidate pool used in graph search holds at most its capacity, stays ordered by distance after every insertion, and never loses an entry other than the worst one of a full pool; an insertion is rejected only if the pool is full and the candidate is no better than the worst entry, or (for pools that deduplicate) the id is already present. Popping returns the closest entry not yet expanded, marks exactly that entry as expanded, and leaves the cursor at the first unexpanded entry or the end.",
 ["inputs", "histories"], "all capacities, all pool contents satisfying the ordering, all candidates; every sequence of inserts and pops by induction over the invariant",
 "Tests insert a few candidates in a fixed order; ties, duplicates, insertion at the ends, full pools and cursor movement combine in ways they never enumerate.",
 ["include/index/graph/vamana/robust_prune.hpp", "include/utils/query_utils.hpp", "include/utils/rabitq_utils/search_utils/buffer.hpp", "include/index/graph/laser/utils/buffer.hpp", "include/index/neighbor.hpp"], [("priority queue with cursor", "vamana::NeighborPriorityQueue"), ("linear pool", "LinearPool"), ("search buffers", "SearchBuffer (RaBitQ, LASER), ResultBuffer")],
 "Insert and pop of every pool proved for all sizes with inferred loop invariants; float distances are treated as ordered real values (no NaN).")
prop("C06", "The tombstone bitmap records exactly the deleted ids",
 "For every history of set, clear, reset and restore, an id reads as deleted exactly when it was set and not cleared since; marking an id that is already marked changes nothing, the deleted count equals the number of marked ids, ids never mentioned and ids beyond the capacity read as live, and the capacity covers every id ever set. Ids beyond the 32-bit address space are never deleted: setting one is rejected, clearing one does nothing. A snapshot agrees with the bitmap on every id. Serializing and restoring gives the same members, count and capacity whatever the restored object held before, and truncated or malformed input (wrong magic, impossible word counts) is rejected with an exception rather than accepted or crashing.",
 ["inputs", "histories"], "all 64-bit ids, every chunk content and every presence pattern of the two chunks involved (proof); operation histories and malformed streams (bounded)",
 "Tests set a few ids; chunk growth at 2^16 boundaries, idempotent counting, ids past the capacity and corrupted files combine in ways examples do not reach.",
 ["include/index/graph/diskann/tombstone_bitmap.hpp"], [("mark / unmark", "TombstoneBitmap::set / clear / chunk_grow / bump_capacity"), ("queries", "is_deleted, capacity, count"), ("snapshot", "snapshot_into, TombstoneSnapshot"), ("persistence", "serialize / deserialize / save / load")],
 "set, clear, queries, range rejection, snapshot, serialize/restore round trip and rejection of truncated or foreign streams proved for all ids and chunk contents; histories are a bounded native stand-in. Sequential semantics: atomics are treated as plain accesses under the documented single-writer rule.")
prop("C07", "The slot allocator hands out each slot at most once",
 "For every history of alloc, publish and free, alloc returns the most recently freed slot if any slot is free and otherwise the next never-used id, removes exactly that slot from the pool, and never returns a slot that is live or still pending; an allocated slot stays hidden (tombstoned) until it is published, publishing reveals exactly that slot, and freeing a slot hides exactly that slot and makes it available again. Saving and loading restores the free list in order, the next fresh id and the hidden slots exactly, whatever the loaded object held before; resetting to n existing nodes gives n live slots with n as the next id. Truncated or malformed files are rejected with an exception.",
 ["inputs", "histories"], "all ids, free-list lengths and contents (proof of each operation from an arbitrary state); histories, files and their corruptions (bounded)",
 "Tests exercise short scripts; reuse order, hidden-until-published and persistence interact over long histories and corrupted files.",
 ["include/index/graph/diskann/slot_allocator.hpp", "include/index/graph/diskann/tombstone_bitmap.hpp"], [("allocate / publish", "SlotAllocator::alloc / publish"), ("free", "SlotAllocator::free"), ("persistence", "SlotAllocator::save / load / reset")],
 "alloc, publish, free, the save/load round trip and rejection of too-short files proved from an arbitrary allocator state for all ids; long histories are a bounded native stand-in.")
prop("C13", "Distance kernels compute the exact sum over all coordinates",
 "For vectors of every length, every L2, inner-product, SQ8 and SQ4 distance kernel (generic, AVX2, AVX-512, and the type-generic fallbacks) returns, up to floating-point rounding, the sum over all coordinates of the squared difference (L2) or the negated sum of products (inner product), where quantized codes stand for min + code * (max - min) / 255 (SQ8) or / 15 (SQ4, low nibble first); the dispatched function returns the same value as the generic one, and no kernel reads outside the given arrays.",
 ["inputs", "configurations"], "all dimensions and all contents for the proved kernels (over the reals); dimensions up to 200 for the bounded ones",
 "Tests check a few dimensions with generous tolerances; unrolled main loops, masked tails and nibble unpacking break only for particular remainders modulo 8, 16, 32 or 64.",
 ["include/simd/distance_l2.ipp", "include/simd/distance_ip.ipp"], [("fp32 kernels", "l2_sqr_generic/avx2/avx512, ip_sqr_*"), ("sq8 kernels", "l2_sqr_sq8_*, ip_sqr_sq8_*"), ("sq4 kernels", "l2_sqr_sq4_*, ip_sqr_sq4_*"), ("dispatch", "get_l2_sqr_func, get_ip_sqr_func, ...")],
 "The real kernels, intrinsics included, are proved equal to the sum over the reals for all lengths; SQ4 SIMD kernels and dispatch are bounded native comparisons.")
prop("C02", "Stored scalar records and binary payloads read back exactly",
 "Serializing a scalar record (item id, document, any metadata fields of integer, double, text or bool type) and deserializing it gives back the same id, document and fields, bit for bit for doubles, and the payload has exactly the announced size; reading only selected fields, or one field, gives the stored values of exactly the requested fields that exist. A truncated record is rejected with an exception by full deserialization; no input bytes make any reader read outside the payload, and whatever a partial reader returns for a truncated payload is a stored value. The binary writer appends exactly the bytes of each value and the reader returns each value exactly when it is wholly present, otherwise nothing, and consumes exactly its bytes.",
 ["inputs"], "all payload contents and lengths, all text lengths, all values for the field codecs and the reader/writer (proof); whole records with maps of fields (bounded)",
 "Tests serialize a few records; embedded zero bytes, empty fields, malformed type tags, every truncation point and every length prefix are not enumerated.",
 ["include/utils/scalar_data.hpp", "include/utils/binary_io.hpp"], [("field codecs", "ScalarData::serialize_value / deserialize_value / skip_value / serialize_string / deserialize_string"), ("record", "ScalarData::serialize / deserialize / deserialize_selected_metadata"), ("reader and writer", "BinaryReader, BinaryWriter")],
 "Codecs, skipping and the reader/writer proved for all lengths and contents; whole records (hash map of fields) are a bounded native stand-in. NaN payloads excluded from comparison only.")
prop("C03", "Index key encodings preserve value order and identity",
 "Encoded integer keys sort by bytes exactly as the integers sort, encoded double keys sort exactly as the (non-NaN) doubles sort, infinities included, with both zeros sharing one key; decoding returns the encoded value. Keys of different value types carry different tags, two values of one type have equal keys exactly when they are equal, and the document id is recovered from every complete index key, which starts with the prefix for its field and value.",
 ["inputs"], "all 64-bit integers, all non-NaN doubles, all text lengths and contents (proof); complete keys with decimal ids (bounded)",
 "Tests compare a few values; sign boundaries, subnormals, infinities, signed zero and text containing the separator are where order and identity break.",
 ["include/utils/index_encoding.hpp"], [("integer and double keys", "encode_int64 / decode_int64 / encode_double / decode_double"), ("typed keys", "encode_value"), ("complete keys", "make_field_index_key / make_field_index_prefix / extract_id_from_key")],
 "All encodings proved over their whole domains through the real printf/strtoull calls (modelled by contract); complete keys with a decimal id are a bounded native stand-in.")
prop("C11", "Vector spaces keep every vector under the id they returned",
 "Vector storage and the raw, 8-bit and 4-bit spaces hand out ids in order until the capacity is reached and reject further items without side effects; the vector (or its code) stored under an id never changes except by update of that id, removal invalidates exactly the given id and reports absent ids instead of removing anything, ids beyond the capacity are invalid, and the item and deleted counts always equal the number of accepted inserts and removals. A raw distance query compares exactly the query with the stored vector and reports deleted or absent ids as infinitely far. Saving and loading restores all of this.",
 ["inputs", "histories"], "all capacities, item sizes, fill levels, validity bitmaps and ids (proof, one operation from an arbitrary state); histories with save/load of up to 60 operations (bounded)",
 "Tests insert and remove a handful of items; off-by-one capacity, bitmap byte boundaries, stride arithmetic and counts after rejected operations are not covered.",
 ["include/storage/sequential_storage.hpp", "include/space/raw_space.hpp", "include/space/sq8_space.hpp", "include/space/sq4_space.hpp"], [("storage", "SequentialStorage::init / insert / reserve / remove / update / is_valid"), ("spaces", "RawSpace / SQ8Space / SQ4Space insert, remove, get_distance"), ("queries", "RawSpace::QueryComputer"), ("persistence", "save / load")],
 "Every storage and space operation proved from an arbitrary state; fit, persistence and whole histories are a bounded native stand-in.")
prop("C12", "Scalar quantization codes are the steps that contain the values",
 "The fitted range of each dimension is the smallest and largest fitted value; the 8-bit and 4-bit code of a value strictly inside the range is the quantization step that contains it, values at or beyond the ends take the first or last code, a constant dimension has code zero, and quantization preserves order. Encoding quantizes every coordinate with its own range and writes exactly its bytes (two 4-bit codes per byte, even coordinate in the high half, unused half zero). Saving, loading and copying a quantizer keeps its ranges. Distances computed by a quantized space are the metric distance of the decoded vectors.",
 ["inputs"], "all values, ranges, dimensions and item counts (proof over the reals); dimensions up to 33 natively (bounded)",
 "Tests quantize a few values; range ends, constant and odd dimensions and the pairing of codes with ranges are not enumerated.",
 ["include/space/quant/sq8.hpp", "include/space/quant/sq4.hpp", "include/space/sq8_space.hpp", "include/space/sq4_space.hpp"], [("quantize and encode", "SQ8Quantizer / SQ4Quantizer quantize, encode"), ("fit", "SQ8Quantizer / SQ4Quantizer fit"), ("distance through codes", "SQ8Space / SQ4Space get_distance, QueryComputer")],
 "quantize, encode and fit proved for all inputs over the reals; distances from codes are a bounded native stand-in. Known finding: SQ4 space distances pair the two codes of a byte with swapped dimensions.")
prop("C20", "Size helpers and the Walsh-Hadamard transform compute their definitions",
 "The integer size helpers return the mathematical floor and ceiling logarithm, power-of-two test, ceiling quotient and next multiple for every argument whose result is representable. The fast Walsh-Hadamard transform of 2^6 to 2^11 values computes, in every implementation and through the dispatcher, the sum of the inputs with signs given by the parity of the common bits of the two indices, writes nothing outside its buffer, and rejects other sizes without touching the data.",
 ["inputs"], "all arguments of the helpers and all inputs of the portable, AVX2 and AVX-512 transforms (proof over the reals); exact integer and basis vectors natively (bounded)",
 "Tests compare a few vectors with tolerances; one swapped lane or sign in unrolled assembly affects single output positions.",
 ["include/utils/math.hpp", "include/simd/fht.hpp", "include/simd/fht.ipp"], [("size helpers", "math::floor_log2 / ceil_log2 / is_power_of_two / round_up_pow2 / round_up_general / ceil_div"), ("transform", "fwht_generic_template, helper_float_6..11_avx2 / _avx512, fht_float")],
 "Helpers and all 18 transform kernels proved for all inputs; the inline assembly is executed symbolically by llv/asm.py (lane semantics of 17 SSE/AVX instructions, clobber lists checked).")
prop("C04", "A metadata filter accepts exactly the records its conditions describe",
 "A condition on a field holds for a record exactly when the record has the field and its value stands in the stated relation to the operand: equal and unequal compare values of the same type (values of different types are unequal), the four order relations hold only between values of the same type in that type's order, list membership and its negation compare with every listed value, and containment holds only for text containing the operand. A record without the field satisfies no condition. AND, OR and NOT combine conditions and nested filters as boolean logic, an empty filter accepts everything, and the builder functions add exactly the stated condition.",
 ["inputs"], "all int64, real (not NaN) and bool operands, list lengths and texts for equality (proof); seeded filter trees of depth 3 (bounded)",
 "Tests evaluate chosen conditions; type mixes, extreme values, missing fields under negation and list lengths are not enumerated.",
 ["include/utils/metadata_filter.hpp"], [("conditions", "FilterCondition::evaluate / compare / contains_string"), ("logic", "MetadataFilter::evaluate"), ("builders", "MetadataFilter::add_*")],
 "Conditions proved per operand type for all values; text order, containment and filter trees are a bounded native stand-in.")
prop("C05", "Scalar storage and its indexes always agree with the stored records",
 "After any sequence of inserts, updates, removals, batch inserts and reopenings, the storage holds exactly the last accepted record of every id: reads, batch reads, scans, the record count and the item-id lookup all reflect it, an item id belongs to at most one record, and a refused operation changes nothing. A lookup through a secondary index, and a filter executor with or without the index fast path, select exactly the stored records for which the filter evaluates to true, each once, with the correct match count; a checkpoint holds the same content.",
 ["inputs", "histories"], "key order proved for all values; storage histories of up to 60 operations (bounded)",
 "Stale or missing index entries after updates and removals, range ends and key prefixes need particular histories and values to show.",
 ["include/storage/rocksdb_storage.hpp", "include/utils/metadata_filter_matcher.hpp", "include/utils/index_encoding.hpp"], [("storage", "RocksDBStorage insert / batch_insert / update / remove / scan_with_filter"), ("index lookups", "get_ids_by_field_value / _int_range / _double_range"), ("executor", "MetadataFilterExecutor match / build_blocked_bitset / eval_offsets")],
 "Order preservation of the index keys is proved; everything that goes through RocksDB is a bounded native stand-in. Known finding: two indexed fields, one extending the other by an underscore suffix, can share keys.")
prop("C01", "The write-ahead log replays exactly the committed operations",
 "After any history of logging, reopening, truncating the log and crashing, replay returns exactly the operations whose prepare and commit frames were completely written, each with its own kind and payload, in operation order, once, leaving out ids at or below the requested threshold and operations whose commit names another kind; the largest id of the complete frames (or the threshold, if larger) is reported. A torn tail, a garbage tail, or a frame whose magic, version, kind or trailer is damaged ends the replay there: everything committed before it is still returned and nothing else; records logged after a torn tail are replayable. A frame that could not be written is reported to the caller, and implausible lengths are rejected before memory is allocated.",
 ["histories", "crash points"], "all headers, operation ids, kinds and payload lengths (proof of framing and validation); histories of up to 40 operations with a cut at any byte (bounded)",
 "Tests replay a few tidy logs; where a frame is torn, what follows a torn tail, duplicated ids and failed writes need particular histories and crash points.",
 ["include/recovery/write_ahead_log.hpp"], [("append", "WriteAheadLog::append_prepare / append_commit / append_frame"), ("replay", "WriteAheadLog::replayable_records"), ("validation", "read_frame_header, payload_size_is_plausible, parse_frame_type")],
 "Framing, header validation, plausibility and the exact bytes appended are proved for all inputs; whole histories with crashes are a bounded native stand-in.")
prop("C18", "Recovery sees the last published snapshot plus the log after it",
 "A snapshot manifest with any single-line texts and any numbers reads back the same, unknown lines are ignored, and a manifest with malformed numbers or no id is rejected. After any sequence of logging, taking and publishing snapshots, pruning and reopening, and a crash before any file operation of these, recovery finds a complete published snapshot (the newest whose publication finished, never a half-written one), restores exactly its files, and replays each acknowledged operation beyond it once; no acknowledged operation is lost before a publication covering it; operation ids given out afterwards are larger than every id already used. A publication whose writes fail throws and changes nothing. Decimal fields accept exactly the decimal digits of a 64-bit number.",
 ["histories", "crash points"], "all decimal texts (proof); histories of up to 4 snapshots with a crash at every rename, remove, mkdir, sync and write call (bounded)",
 "Tests recover a directory left by a clean shutdown; the windows between writing, renaming, truncating the log and removing old snapshots are only visible at particular crash points.",
 ["include/recovery/recovery_manager.hpp", "include/recovery/snapshot_manifest.hpp"], [("manifest", "SnapshotManifest::serialize / deserialize / parse_uint64_decimal"), ("publication", "RecoveryManager::create_snapshot_dir / publish_snapshot / remove_old_snapshots"), ("recovery", "RecoveryManager::current_snapshot / restore_active_rocksdb_from_snapshot / replayable_records / next_operation_id")],
 "Parsing of decimal fields is proved; publication and recovery are a bounded native stand-in that crashes at every file-changing call.")
prop("C14", "Product quantization chooses nearest centroids and sums their distances",
 "Every stored code is, for its chunk, a centroid nearest to the residual of the vector (the first of equally near ones), whether written by encode, encode_one or encode_to_code, and encoding one point changes no other point and grows the table when the point is new. The query table holds for each chunk and centroid their squared distance; the distance of a point is the sum over its chunks of the entries named by its code, in single and batch form, and the symmetric distance of two codes is the sum of the distances of their centroids; points that do not exist are rejected. Training does not depend on the number of threads, uses the mean as global centroid, keeps every centroid within the training data and represents at most 256 points exactly. A saved table loads unchanged, and files of the wrong size are rejected.",
 ["inputs", "histories"], "all codebooks, codes and chunk counts, chunk dimensions 1 to 4 (proof of nearest centroid and table sums); tables of up to 66 chunks of up to 9 dimensions and 330 points (bounded)",
 "Tests use small fixed tables; the tile sizes of the batch path, duplicated centroids, growth past the end and mismatched files need particular sizes.",
 ["include/index/graph/diskann/pq_table.hpp"], [("encoding", "PQTable::argmin_centroid / encode / encode_one / encode_to_code"), ("distances", "PQTable::preprocess_query / pq_distance / pq_distance_batch / pq_symmetric_distance"), ("training", "PQTable::train"), ("persistence", "PQTable::save / load")],
 "The nearest-centroid search against an arbitrary distance function and the table sums are proved; training, whole encodings, the batch path and files are a bounded native stand-in.")
prop("C15", "Vamana neighbor lists obey the pruning rule; graphs and searches are sound",
 "Neighbor selection keeps, of the nearest maxc candidates, exactly those that no nearer kept neighbor hides under the thresholds 1, 1.2, 1.44, ... up to alpha, in that order, so that the nearest candidate is kept, and the kept neighbors are distinct candidates, never the point itself, and at most as many as the degree bound. A built graph has one list per point whose entries are valid, distinct, not the point itself and at most R, non-empty when there are two or more points (search list of two or more); the entry point is a point nearest to the mean, and construction with one thread is deterministic. A saved graph reads back the same and a graph file that is cut short, has trailing bytes, invalid ids, self-loops, too long or empty lists or another header is rejected. A greedy search returns distinct points reachable from the entry point with their own distances in ascending order, visits each point at most once and the neighbors of every hit, gives the exact nearest reachable points when its list is as long as the reachable set, and rejects impossible parameters.",
 ["inputs"], "all candidate lists, distances, thresholds and degree bounds (proof of one selection pass); point sets of up to 160 points (bounded)",
 "Tests look at recall and a few small graphs; ties, duplicates, degree overflow, thresholds and malformed files need particular inputs.",
 ["include/index/graph/vamana/robust_prune.hpp", "include/index/graph/vamana/vamana_builder.hpp", "include/index/graph/vamana/vamana_greedy_search.hpp", "include/index/graph/vamana/vamana_reader.hpp", "include/index/graph/vamana/vamana_writer.hpp"], [("selection", "prune_neighbors / occlude_list"), ("construction", "VamanaBuilder::build / calculate_entry_point / inter_insert"), ("files", "save_graph, VamanaReader"), ("search", "VamanaGreedySearch::search")],
 "Selection is proved to return distinct candidates within the bound for every input; the exact rule, construction, files and search are a bounded native stand-in.")
prop("C21", "Partitioned graph construction loses no point, vector or neighbor",
 "Each point of the input goes to the shards of its k nearest distinct centroids, nearest first, and a shard holds exactly its points' vectors and ids, in id order, with the right counts; an input cut short and a write that fails are reported. An id map reads back exactly, and one that is cut short or has another stride is rejected. Initial centers are sample points, distinct while distinct points remain; a refinement step moves every center to the mean of its points and returns the sum of squared distances, and training is deterministic for a seed. The number of parts chosen is the smallest odd one (from three) whose estimated shards fit the budget. Merging gives every id up to the largest the union of its neighbors from all shards, by global id, without itself and without repetition, all of them if at most R and R of them otherwise, writes a header with the true size, lists the shards' entry points, is deterministic for a seed, and rejects malformed or cut-short shards; the entry point of the whole is a point nearest to the mean whatever the block size.",
 ["inputs"], "all id-map files, dimensions and write failures (proof); point sets of up to 60 points in up to 4 shards (bounded)",
 "Tests run one small partitioned build; block boundaries, overlapping shards, empty lists, cut-short files and full disks are not covered.",
 ["include/index/graph/vamana/shard_assigner.hpp", "include/index/graph/vamana/shard_merger.hpp", "include/index/graph/vamana/kmeans_partition.hpp", "include/index/graph/vamana/budget_estimator.hpp"], [("assignment", "shard_data_by_centroids, ShardOutputStreams, compute_closest_centers"), ("merge", "merge_shards, read_idmap"), ("entry point", "compute_medoid_streaming"), ("centers", "kmeanspp_init, lloyds_iter, kmeans_train, estimate_cluster_sizes"), ("budget", "determine_num_parts_with_ram_budget")],
 "Id-map parsing and the shard writer (contents and failed writes) are proved; centroids, assignment, merging and the entry point are a bounded native stand-in.")
prop("C16", "Disk segments answer exact nearest neighbors in a total order",
 "A flat disk segment returns, for every finite query, its min(top_k, rows) nearest rows, each once, with the distance of the metric (squared L2; negative inner product; negative inner product of the normalized vectors), ordered by distance and then label. Vectors and queries with a NaN or infinite component are rejected, as are directionless ones under COS and top_k 0, and nothing is written then; a finished segment stores labels and vectors in the order given, leaves no temporary files, and never replaces an existing one. A segment whose id or vector file is missing, a symlink, or not exactly the size announced by its manifest (sizes beyond 64 bits included) is rejected. Hits of several segments are merged into one list by distance, then label, with hits that have no distance (NaN) behind all others.",
 ["inputs"], "all float bit patterns, counts, dimensions and batch sizes (proof of validation, sizes and the hit order); segments of up to 30 rows (bounded)",
 "Tests search tidy segments; ties, NaN, huge counts and mis-sized files are special inputs, and the order is only visible on ties.",
 ["include/index/disk/disk_flat_builder.hpp", "include/index/disk/disk_flat_searcher.hpp", "include/index/disk/disk_collection.hpp"], [("validation", "DiskFlatBuilder::add_batch, is_finite_f32, is_nan_f32"), ("sizes", "compute_expected_vectors_bytes / compute_expected_ids_bytes"), ("search", "DiskFlatSegmentSearcher::search"), ("merge", "DiskCollection::search, disk_search_distance_less")],
 "Validation, size arithmetic and the order relation are proved for all inputs; the search itself, files and merging are a bounded native stand-in.")
prop("C17", "Disk manifests are read strictly and round-trip",
 "A segment or collection manifest is accepted exactly when it is a regular file (no symlink, at most 1 MiB, no byte order mark) of key=value lines, comments and blank lines, with every required key once and non-empty (vectors_file may be empty), version 1, a known engine and metric, positive dimension and count, decimal numbers below 2^64, segment ids of the form seg_ and eight digits, file names that stay in the segment's directory, segments listed either by repeated lines or by one comma list without empty entries, and no unknown key without the x_ prefix. The fields read are those of the file, spaces around keys and values aside; unknown x_ keys are kept; a saved manifest reads back the same.",
 ["inputs"], "all texts of any length for numbers, file names and segment ids (proof); seeded whole documents (bounded)",
 "Tests try a list of malformed manifests; combinations, orders, limits and escapes from the directory are inputs they do not enumerate.",
 ["include/index/disk/segment_manifest.hpp"], [("numbers", "detail::parse_uint64"), ("names", "detail::is_valid_basename / is_valid_segment_id"), ("documents", "SegmentManifest::load / save, CollectionManifest::load / save")],
 "Numbers, file names and segment ids are proved for texts of any length; whole documents are a bounded native stand-in.")
prop("C22", "A disk collection holds exactly its flushed rows, also after crashes",
 "A batch is accepted exactly when twice the bytes of all pending rows fit the pending limit; a rejected batch changes nothing. A flush is accepted exactly when the pending labels are new (within the batch and across segments) and the vectors finite (and at least two rows for graph segments); then exactly these rows are added, and otherwise the collection stays as it was. size and search see the flushed rows only; after reopening they are the same, with the same limit and graph parameters. A process that ends before any file-changing call of a flush or of the creation leaves a collection that opens with the rows before or after that flush and accepts further flushes; a flush whose writes fail throws and can be repeated. Leftovers of interrupted flushes are ignored; a collection that is open cannot be opened or created again; missing or symlinked segment directories are rejected. Batch search writes each query's own hits for any number of threads and leaves all other slots untouched.",
 ["histories", "crash points", "inputs"], "all dimensions, row counts, batch sizes and limits (proof of the pending buffer); histories of up to 25 operations, a crash at every file-changing call (bounded)",
 "Tests flush a few batches; crash windows, failed writes, label collisions across reopened segments and retry after failure need particular histories.",
 ["include/index/disk/disk_collection.hpp", "include/index/disk/segment_factory.hpp", "include/index/disk/vamana_segment_builder.hpp", "include/index/disk/vamana_segment_searcher.hpp"], [("pending buffer", "DiskCollection::add_batch"), ("publication", "DiskCollection::flush, publish_collection_manifest_atomic_only"), ("opening", "DiskCollection::open, open_listed_segments, scan_orphans, acquire_collection_lock_impl"), ("batch search", "DiskCollection::batch_search")],
 "The pending buffer's accounting is proved; histories, crashes, locks and batch search are a bounded native stand-in.")
