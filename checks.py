"""What each check builds and runs."""
A = "asan"
CHECKS = {
    "C01": dict(harness="c01_hex.cpp", sources=[], runs=[dict(variant=A, shards=4)],
                rule="texts: every 2-character text, every character at every position of an 8-character text, then seeded "
                     "random digests with case changes and 0-1 mutations (bad character, odd length, insertion, deletion); "
                     "non-trivial = a distinct text decoded or rejected by the code and judged against the reference",
                min_events={"fixed-decodes": 1000, "stream-decodes": 1000, "malformed-seen": 1000, "digest-decodes": 1000}),
    "C02": dict(harness="c02_percent.cpp", sources=[], runs=[dict(variant=A, shards=4)],
                rule="every 1- and 2-character text encoded, every '%xy' and 'x%y' decoded, then seeded concatenations of "
                     "well- and malformed escapes and random byte strings; non-trivial = a distinct text judged against the reference",
                min_events={"encodes": 1000, "malformed": 1000, "wellformed": 1000}),
}
WRAP = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=_ZNSt18condition_variable10notify_oneEv,"
        "--wrap=_ZNSt18condition_variable10notify_allEv"]
CHECKS["C04"] = dict(
    harness="c04_queue.cpp", sources=[],
    runs=[dict(variant=A, shards=4, wrap=WRAP), dict(variant="tsan", shards=2, mode="tsan", wrap=WRAP)],
    rule="seeded concurrent programs over push/try_push/pop/try_pop/size/set_capacity with delays injected at the queue's own lock "
         "and notify operations; non-trivial = a distinct completion order of the operations (small histories, searched for a "
         "linearization) or of producers seen by consumers (large histories)",
    min_events={"small-histories": 1000, "large-histories": 100, "operations": 20000})
CHECKS["C05"] = dict(
    harness="c05_progress.cpp", sources=[], runs=[dict(variant="plain", shards=4, wrap=WRAP), dict(variant=A, shards=2, wrap=WRAP)],
    rule="seeded balanced producer/consumer runs (blocking, polling and mixed callers), bursts onto already blocked threads, and "
         "capacity growth under blocked producers, with delays injected at lock and notify operations; judged by a quiescence "
         "monitor over /proc; non-trivial = a distinct configuration (threads, capacity, call kinds, item count)",
    min_events={"balanced-runs": 1000, "burst-runs": 1000, "grow-runs": 200})
CHECKS["C03"] = dict(
    harness="c03_digest.cpp", sources="hashers", runs=[dict(variant=A, shards=4)],
    rule="every algorithm x every length 0-299 byte by byte, known answers, then seeded messages (0-300000 bytes, block-boundary sizes) "
         "fed in random chunkings incl. empty chunks to fresh and reused objects, side by side on six threads, and one update over 4 GiB; "
         "non-trivial = a distinct (algorithm, digest) compared with the reference",
    min_events={"hasher-digests": 1000, "raw-digests": 1000, "reuses": 1000, "lengths": 1000, "side-by-side": 10, "one-shot": 100,
                "algorithms-available": 15})
CHECKS["C06"] = dict(
    harness="c06_pool.cpp", sources=[],
    runs=[dict(variant=A, shards=4, wrap=WRAP), dict(variant="tsan", shards=2, mode="tsan", wrap=WRAP)],
    rule="seeded sequential programs (get, release, copy, move the pool, destroy the pool early) against a model, and one getter with "
         "1-4 threads that hold, copy, hand on and release objects, with injected delays; non-trivial = a distinct program trace or "
         "release order",
    min_events={"sequential-programs": 1000, "concurrent-runs": 500, "gets": 50000, "pool-died-with-objects-out": 50})
CHECKS["C28"] = dict(
    harness="c28_alloc.cpp", sources=[], runs=[dict(variant=A, shards=4, env_extra={"ASAN_OPTIONS": ":allocator_may_return_null=1"})],
    rule="seeded allocate/fill/verify/deallocate sequences for ten element-size/alignment pairs, every request near the size limit, and "
         "container programs mirrored on std::vector with the default allocator; non-trivial = a distinct (type, count) request",
    min_events={"allocations": 5000, "impossible-requests": 300, "vector-steps": 5000})
CHECKS["C26"] = dict(
    harness="c26_values.cpp", sources=[], runs=[dict(variant=A, shards=4)],
    rule="seeded raw digests (with near duplicates), texts with wrong sizes and bad digits for each of the 17 algorithms, checksum "
         "factories, triples of info hashes of all kinds, near-miss algorithm names, all attribute texts up to length 5 and all flag pairs; "
         "non-trivial = a distinct value or text",
    min_events={"hash-values": 1000, "checksums": 1000, "info-hashes": 1000, "names": 1000, "attribute-texts": 3000})
CHECKS["C07"] = dict(
    harness="c07_workers.cpp", sources=[],
    runs=[dict(variant=A, shards=4, wrap=WRAP), dict(variant="tsan", shards=2, mode="tsan", wrap=WRAP)],
    rule="seeded runs of the worker pool (1-5 workers or one per core, bounded and unbounded queues, 1-3 producers, items queued before or after the "
         "start) ended by stop, cancel or destruction at random moments, with injected delays; non-trivial = a distinct processing order "
         "and configuration",
    min_events={"runs": 5000, "end:stop+wait": 500, "end:cancel+wait": 500, "end:cancel+destroy": 500, "end:destroy": 500,
                "cancelled-with-work-left": 100, "parallel-runs": 500, "all-cores": 100})


def pipe(mode, rule, min_events, shards=4, variant=A, extra=(), **kw):
    return dict(harness="pipe.cpp", sources="all", runs=[dict(variant=variant, shards=shards, mode=mode, wrap=WRAP), *extra], rule=rule,
                min_events=min_events, **kw)


TREES = "seeded content trees (1-40 files, empty files, symlinks, sizes around block, piece and read-buffer boundaries, zero-filled files), " \
        "piece sizes 16-128 KiB, 1-8 hashing threads, read sizes and memory limits of all kinds, injected delays; where marked, one sparse content beyond " \
        "4 GiB (with 16 KiB pieces more than 65536 of them) and one of more than 65536 files; "
CHECKS["C08"] = pipe("v1", TREES + "non-trivial = a distinct tree and option set", {"hash-runs": 1000, "v1-pieces-compared": 5000, "huge-hashed": 1, "crowd-hashed": 1})
CHECKS["C09"] = pipe("v2", TREES + "non-trivial = a distinct tree and option set", {"hash-runs": 1000, "v2-roots-compared": 2000, "v2-layers-compared": 500, "huge-hashed": 1, "crowd-hashed": 1})
CHECKS["C10"] = pipe("hybrid", TREES + "non-trivial = a distinct tree and option set", {"hash-runs": 1000, "v2-roots-compared": 2000, "v1-pieces-compared": 5000, "huge-hashed": 1, "crowd-hashed": 1})
CHECKS["C11"] = pipe("sums", TREES + "1-6 checksum algorithms, all three torrent kinds; non-trivial = a distinct tree and option set", {"hash-runs": 1000, "checksums-compared": 5000, "huge-hashed": 1, "crowd-hashed": 1})
DAMAGE = "then 0-4 damages (flipped bytes at and away from piece boundaries, truncation, growth, removal, swapped bytes); "
CHECKS["C12"] = pipe("verify1", TREES + DAMAGE + "non-trivial = a distinct tree, option and damage set", {"verify-runs": 1000, "good-pieces": 5000, "bad-pieces": 1000, "percentages": 3000, "huge-verified": 1, "crowd-verified": 1})
CHECKS["C13"] = pipe("verify2", TREES + DAMAGE + "non-trivial = a distinct tree, option and damage set", {"verify-runs": 1000, "good-pieces": 5000, "bad-pieces": 1000, "percentages": 3000, "huge-verified": 1, "crowd-verified": 1})
CHECKS["C14"] = pipe("cancel", TREES + "cancelled before start, at once, at a random amount of progress, or when all work is done, hashing and verifying with small queues and 0-6 checksums; "
                     "non-trivial = a distinct tree, option set and moment", {"hash-runs": 500, "verify-runs": 500, "cancelled-midway": 200, "cancelled-at-start": 50, "cancelled-at-end": 50, "never-used": 10, "cancelled-before-start": 10})
CHECKS["C15"] = pipe("progress", TREES + "hashing and verifying (also damaged content), counters polled continuously from the waiting or another thread; non-trivial = a distinct tree and option set",
                     {"hash-runs": 300, "verify-runs": 300, "progress-samples": 20000, "progress-partial-samples": 2000, "huge-hashed": 1, "huge-verified": 1})
CHECKS["C30"] = pipe("fault", TREES + "hashing and verifying with one fault: a file removed, cut short or replaced after it was added, or the n-th open or read of the run failing "
                     "(EACCES, EIO; injected below the standard library's file streams), also with interrupted and short reads; non-trivial = a distinct tree, option set and fault",
                     {"hash-runs": 500, "verify-runs": 300, "content-faults": 300, "hashed-after-error": 300})
CHECKS["C31"] = pipe("memory", "seeded content of at least twice the memory limit in 1-13 files, piece sizes 16-128 KiB, 1-4 hashing threads, read sizes and memory limits of all kinds, 0-10 checksums, "
                     "hashing and verifying, also cancelled, injected delays; live allocations of block size counted by the allocator's hooks; non-trivial = a distinct content and option set",
                     {"hash-runs": 200, "verify-runs": 100, "limit-reached": 200, "blocks-seen": 2000})
CHECKS["C32"] = pipe("frame", TREES + "with modification times, permissions, earlier checksums and times set beforehand, hashing and verifying (also with files missing or cut); non-trivial = a distinct tree and option set",
                     {"hash-runs": 500, "verify-runs": 300, "times-compared": 3000, "missing-files": 50})
CHECKS["C33"] = dict(harness="journey.cpp", sources="all", runs=[dict(variant=A, shards=6, wrap=WRAP)],
                     rule=TREES + "scanned, hashed, saved, moved, loaded and verified intact, with one byte changed and restored, for v1, v2, hybrid and hybrid written as v1 or v2; non-trivial = a distinct tree",
                     min_events={"journeys": 1000, "intact-verified": 1000, "damaged-verified": 1000, "journeys-3-as-1": 30, "journeys-3-as-2": 30})
CHECKS["C16"] = pipe("tsan", TREES + "hashing, verifying, polling and cancelling under ThreadSanitizer; non-trivial = a distinct tree and option set", {"hash-runs": 100, "verify-runs": 50, "progress-samples": 1000}, variant="tsan", shards=6)
CHECKS["C17"] = dict(
    harness="c17_merkle.cpp", sources="all",
    runs=[dict(variant=A, shards=4, wrap=WRAP), dict(variant="tsan", shards=2, mode="tsan", wrap=WRAP)],
    rule="trees of every leaf count 1-259 and seeded counts up to 3000 over three hash functions, leaves set in random order by 1-4 threads, "
         "with and without filler values, copied, moved and assigned; piece layers of seeded files, intact and damaged; non-trivial = a distinct "
         "(leaf count, hash function, seed) or content",
    min_events={"trees": 1500, "nodes-compared": 100000, "concurrent-fills": 300, "copies": 300, "assigned": 200, "layers-accepted": 500, "layers-refused": 100})
def meta(mode, rule, min_events, shards=4):
    return dict(harness="meta.cpp", sources="all", runs=[dict(variant=A, shards=shards, mode=mode)], rule=rule, min_events=min_events)


SPECS = "seeded torrent descriptions (v1, v2, hybrid; single and multiple files; attributes, symlinks, padding, checksums, trackers, seeds, nodes, collections, extra fields, any byte values in texts); "
CHECKS["C18"] = meta("write", SPECS + "built through the API, written by every route, decoded by an independent decoder and read back; non-trivial = a distinct description",
                     {"written": 3000, "read-back": 3000, "saved": 500, "json": 500, "written-from-hybrid": 200, "failed-saves": 100, "cross-seed": 100})
CHECKS["C19"] = meta("hash", SPECS + "info hashes compared with the digest of the info bytes in the written or foreign file, and after changes of every field; non-trivial = a distinct file",
                     {"hashes": 6000, "info-changes": 5000, "outer-changes": 1000, "real-torrents": 1})
CHECKS["C20"] = meta("hostile", SPECS + "with 0-3 structural mutations (types, keys, sizes, extreme integers, duplicates) and byte-level damage, truncation, deep nesting; non-trivial = a distinct byte string",
                     {"refused": 10000, "accepted": 5000, "rewritten": 1000, "prefixes": 500}, shards=6)
CHECKS["C21"] = meta("read", SPECS + "encoded independently in the forms other programs use, and with one required rule broken; non-trivial = a distinct byte string",
                     {"read": 5000, "refused": 2000, "repeated-urls": 200, "empty-tiers": 200, "announce-first": 200})


def model(mode, rule, min_events, shards=4):
    return dict(harness="model.cpp", sources="all", runs=[dict(variant=A, shards=shards, mode=mode)], rule=rule, min_events=min_events)


CHECKS["C22"] = model("magnet", "seeded links with any bytes in every field, encoded, decoded by hand, parsed back, rewritten as other programs do, damaged, and made from "
                      "seeded torrents of every kind; non-trivial = a distinct set of fields", {"magnets": 10000, "parsed": 10000, "refused": 20000, "any-text": 10000, "of-torrents": 1000})
CHECKS["C23"] = model("trackers", "seeded sequences of tracker-list and metafile list operations on small alphabets, every query compared with a model after each step; non-trivial = a distinct sequence",
                      {"lists": 2000, "list-steps": 20000, "metafile-lists": 2000, "metafile-steps": 20000})
CHECKS["C24"] = model("storage", "seeded sequences of file, piece-size, alignment and piece-table operations with sizes around piece boundaries and up to 256 GiB, every figure compared with a model after each step; "
                      "non-trivial = a distinct sequence", {"storages": 5000, "storage-steps": 50000, "alignments": 2000, "chosen": 2000, "piece-tables": 1000})
CHECKS["C25"] = model("copies", "seeded file entries, storages and metafiles with all kinds of content, copied, moved, assigned, swapped, then altered, both sides observed completely; non-trivial = a distinct pair of entries",
                      {"entries": 5000, "storages": 5000, "metafiles": 5000, "checksum-maps": 5000})
CHECKS["C27"] = model("scan", "seeded scratch directories (files of all modes, symlinks to files, directories and nothing, FIFOs, names starting with dots, paths with '..'), every item scanned with every option; "
                      "non-trivial = a distinct directory", {"trees": 2000, "scanned": 20000, "scanned-f": 5000, "scanned-l": 1000, "scanned-d": 300, "scanned-b": 1000, "scanned-F": 300, "refused": 10000})
CHECKS["C29"] = model("dirs", "seeded file lists with directory names that are prefixes of one another and padding files, changed between queries, every directory queried in both spellings; non-trivial = a distinct file list",
                      {"storages": 5000, "queries": 50000})
