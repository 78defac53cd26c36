"""Which proof harnesses (and bounded stand-ins) decide which property."""
PROPS = {
    "C04": dict(proofs=["filter.cpp"], standins=["filter.cpp"], bounded=["text ordering, CONTAINS, lists of other types than int64, and whole filter trees (up to depth 3): seeded records and filters, natively with sanitizers, against an independent evaluator"]),
    "C05": dict(proofs=[("enc.cpp", ["int_order", "double_order", "value_int", "value_double", "value_bool", "value_text"])], standins=["index.cpp"], bounded=["scalar storage on RocksDB: histories of up to 60 inserts, updates, removals, batches and reopenings over ids 0..104, every lookup compared with a plain map; scans of up to 2100 records"], assume=["RocksDB's get/put/iterate/checkpoint behave as documented (run for real, not verified)"]),
    "C06": dict(proofs=[("tomb.cpp", ["tomb_new", "tomb_set", "tomb_clear", "tomb_range", "tomb_snapshot"]), ("tombio.cpp", ["tomb_roundtrip", "tomb_reject"])], standins=["tombstone.cpp"], bounded=["serialize/deserialize/save/load, reset and pre-sizing: seeded operation histories (up to 24 operations, ids up to 2^24) and malformed streams, natively with sanitizers"]),
    "C07": dict(proofs=[("tomb.cpp", ["slot_alloc", "slot_free"]), ("tombio.cpp", ["slots_roundtrip", "slots_reject"])], standins=["slots.cpp"], bounded=["save/load and whole histories of alloc/publish/free/reset: seeded histories of up to 40 operations and malformed files, natively with sanitizers"]),
    "C08": dict(proofs=["disk.cpp", "diskio.cpp"], standins=["disklay.cpp"], bounded=["whole-file writing and reading (write_disk_layout): seeded graphs of up to 60 nodes, up to 2500 coordinates and 1500 degree slots, every byte of the file compared; cut, extended and corrupted files; failing writes"]),
    "C09": dict(proofs=["bits.cpp"]),
    "C10": dict(proofs=["pools.cpp"]),
    "C13": dict(proofs=["simd.cpp"], standins=["simd.cpp"], bounded=["l2/ip_sqr_sq4_avx2 and _avx512, the double-typed quantized templates and the run-time dispatchers: seeded vectors of up to 200 coordinates, natively with sanitizers, against the scalar sum"], assume=["float arithmetic of the proved kernels is treated as real arithmetic (rounding and overflow not modelled); the native runs compare with a relative tolerance of 2e-5 of the sum of magnitudes"]),
    "C02": dict(proofs=["serial.cpp"], standins=["scalar.cpp"], bounded=["whole scalar records with up to 6 metadata fields, every truncation point and corrupted bytes; reader/writer histories of up to 12 values, natively with sanitizers"]),
    "C03": dict(proofs=["enc.cpp"], standins=["enc.cpp"], bounded=["complete index keys (field, value, decimal id) and the cross-type order, natively on seeded values"], assume=["printf(\"%016lx\") and strtoull base 16 follow the C standard (modelled by contract)"]),
    "C11": dict(proofs=["store.cpp", "space.cpp"], standins=["space.cpp"], bounded=["fit, save/load and histories of up to 60 operations of the storage and of the raw, SQ8 and SQ4 spaces, natively with sanitizers"]),
    "C12": dict(proofs=["quant.cpp"], standins=["quant.cpp"], bounded=["range tightness, persistence, double-typed quantizers and the distances computed from stored codes: seeded data of up to 33 dimensions, natively"], assume=["float arithmetic of the quantizers is treated as real arithmetic"]),
    "C20": dict(proofs=["mathu.cpp", "fht.cpp"], standins=["fht.cpp"], bounded=["the dispatcher and real (rounded) arithmetic: exact comparison with the definition on basis vectors and small-integer vectors of 64 to 2048 values"], assume=["float arithmetic of the transforms is treated as real arithmetic", "the x86 instructions used by the inline-assembly transforms have the lane semantics of llv/asm.py"]),
    "C01": dict(proofs=[("wal.cpp", ["frame_kinds", "header", "plausible", "append", "append_commit"])], standins=[("wal.cpp", ["wal_history", "wal_damage"])], bounded=["log histories of up to 14 operations with reopenings, torn tails at every length, failed writes, corrupted bytes and foreign frames; natively with sanitizers against a list of the accepted operations"]),
    "C18": dict(proofs=[("wal.cpp", ["decimal_reject", "decimal_digits"])], standins=[("wal.cpp", ["manifest_text", "recovery_crash", "publish_full"])], bounded=["publish/prune/log histories of up to 4 snapshots with a crash at every rename, remove, mkdir, sync or write call, then recovery; manifests of seeded text"]),
    "C14": dict(proofs=["pq.cpp"], standins=["pq.cpp"], bounded=["training, whole encodings, the query table, the batch distance and files: seeded tables of up to 66 chunks, 9 dimensions per chunk and 330 points, natively with sanitizers, against the definition in double precision"], assume=["float arithmetic is treated as real arithmetic in the proofs"]),
    "C15": dict(proofs=["prune.cpp"], standins=["vamana.cpp"], bounded=["the whole pruning rule, construction, graph files and greedy search: seeded point sets of up to 160 points with exactly representable distances, natively with sanitizers, against independent definitions"], assume=["float arithmetic is treated as real arithmetic in the proof"]),
    "C21": dict(proofs=["shard.cpp"], standins=["shard.cpp"], bounded=["nearest centroids (Eigen), seeding and refinement, whole shard files, merging, entry point and budget: seeded point sets of up to 60 points (65836 for the blocked path) and up to 4 shards, natively with sanitizers, against independent definitions"]),
    "C16": dict(proofs=[("diskman.cpp", ["sizes", "finite", "order", "finite_rows"])], standins=[("diskcol.cpp", ["flat_segment", "merge"])], bounded=["flat segments of up to 30 rows in up to 20 dimensions with damaged files, and merging of up to 5 segments with arbitrary (also NaN) distances: natively with sanitizers, against a full ranking"]),
    "C17": dict(proofs=[("diskman.cpp", ["number", "segment_id", "basename"])], standins=[("diskcol.cpp", ["segment_manifest", "collection_manifest"])], bounded=["whole manifests: seeded documents with missing, repeated, reordered, malformed and unknown lines, natively with sanitizers, against an independent reader"]),
    "C22": dict(proofs=[("diskman.cpp", ["pending"])], standins=[("diskcol.cpp", ["history", "crash"])], bounded=["histories of up to 25 operations on flat and graph collections, and flushes that end at any of their file-changing calls or run out of space, natively with sanitizers, against a list of the accepted rows"]),
}
