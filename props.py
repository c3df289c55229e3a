"""The properties (written to properties.jsonl by gen.py) and how each is decided."""
NOTE = "Held on the executions produced, not proved: seeded and, where small, complete input sweeps run on the real code under ASan+UBSan with an independent oracle judging every result. "
TRUST = "Trusts the compiler, the sanitizers, the harness's oracle and, for units that need them, the stand-ins for gsl-lite/expected-lite/bencode in shims/."
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, technique, note="", observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None),
                      technique=technique, note=NOTE + note + TRUST))


P("C01", "Hexadecimal text and bytes convert exactly both ways",
  "Encoding bytes as hexadecimal yields exactly two lowercase digits per byte, and decoding gives back the same bytes for upper, lower and mixed case. "
  "Decoding a text of the wrong length or containing any non-hexadecimal character fails (an exception or an empty result), never yields a wrong value, and touches no memory outside the given text and buffers. "
  "The interfaces that write through an output iterator produce the same bytes and leave nothing else changed.",
  ["inputs"], "every byte string, every text (any character values, any length), every supported digest size and output iterator kind",
  "The tests decode a few valid digests; every invalid text, byte values above 0x7f, odd lengths and all lengths need a sweep under memory monitoring.",
  ["include/dottorrent/hex.hpp"], [("lookup-table decode with invalid marker", "include/dottorrent/hex.hpp")],
  "ASan/UBSan execution with a reference-model monitor over exhaustive small and seeded inputs")
P("C02", "Percent-encoding round-trips any bytes and rejects malformed escapes",
  "Percent-encoding any byte string leaves exactly the unreserved characters (letters, digits, '-', '.', '_', '~') as they are and turns every other byte into %XX with uppercase digits; decoding the result gives back the same bytes. "
  "Decoding accepts escapes in either digit case and leaves all other characters as they are; a truncated or non-hexadecimal escape is reported by the returned status, and no byte that the text does not denote is emitted.",
  ["inputs"], "every byte string and every text containing well-formed, truncated or malformed escapes, through every output iterator kind",
  "The tests only classify characters; no test encodes or decodes a string at all.",
  ["include/dottorrent/percent_encoding.hpp"], [("escape table and digit parse", "include/dottorrent/percent_encoding.hpp")],
  "ASan/UBSan execution with a reference-model monitor over exhaustive small and seeded inputs")
P("C04", "The bounded queue is a linearizable FIFO that loses and duplicates nothing",
  "Every concurrent history of blocking and non-blocking pushes and pops, size queries and capacity changes on a queue is explained by some sequential order of a bounded FIFO that respects real time: each accepted item is delivered exactly once, in order, and a refused item stays with the caller. "
  "The queue never accepts an item while it already holds its capacity or more. Its operations are free of data races.",
  ["schedules", "histories"], "every interleaving of any number of producers, consumers and observers, every capacity including zero and capacity changes at any moment",
  "No test runs the queue with more than one thread; the hashing tests only see a few benign schedules.",
  ["include/dottorrent/concurrent_queue.hpp"], [("one mutex, two condition variables", "include/dottorrent/concurrent_queue.hpp")],
  "recorded call/return histories checked for linearizability against a sequential bounded FIFO; ThreadSanitizer; injected delays at lock and notify operations")
P("C05", "Blocked producers and consumers of the queue are always released",
  "Whenever a queue holds an item, a consumer blocked in a pop completes, and whenever it has room (after a pop by any call, or after its capacity was raised), a producer blocked in a push completes. "
  "Any balanced set of producers and consumers therefore finishes, whichever mix of blocking and polling calls the threads use.",
  ["schedules", "histories"], "every interleaving of blocked and polling callers, bursts onto several waiting threads, capacity changes while threads wait",
  "A lost wake-up needs a particular interleaving of waiter and notifier; the tests never block more than one thread at a time.",
  ["include/dottorrent/concurrent_queue.hpp"], [("notifications after each state change", "include/dottorrent/concurrent_queue.hpp")],
  "stress runs with injected delays, judged by a quiescence monitor (all threads asleep in untimed waits, no context switches) rather than by a deadline")
P("C03", "Hash objects compute the published digest for any message however it is fed",
  "For every algorithm the backend supports, the digest of a message equals the published algorithm's digest, whatever the split of the message into updates (including empty ones and ones over 4 GiB), whether the object is fresh or reused after finalizing, and whatever other hash objects do at the same time on other threads. "
  "Finalizing writes exactly the digest size of the algorithm into the caller's buffer, and an object is reset for the next message by finalizing. Unsupported algorithms are refused by an exception, with nothing leaked.",
  ["inputs", "histories"], "every supported algorithm, every message and length, every chunking, every sequence of update and finalize on one object, any number of objects on any threads",
  "The tests hash a handful of fixed strings with fresh objects in one update.",
  ["include/dottorrent/hasher/backends/openssl.hpp", "include/dottorrent/hasher/openssl_hasher.hpp", "include/dottorrent/hasher/single_buffer_hasher.hpp", "src/hasher/backends/openssl.cpp", "include/dottorrent/hash_function.hpp", "include/dottorrent/hasher/factory.hpp"],
  [("EVP context wrapper", "include/dottorrent/hasher/backends/openssl.hpp"), ("algorithm table", "src/hasher/backends/openssl.cpp")],
  "ASan/UBSan execution of seeded update/finalize histories with monitors comparing each digest with independent reference implementations and guard bytes around buffers")
P("C06", "The object pool gives each object to one user at a time, within its capacity",
  "An object obtained from a pool belongs to its holder until the last copy of the handle is gone, on whichever thread; only then is it recycled exactly once and available again. No object is handed out twice at a time or without having been recycled, the pool never creates more objects than its capacity and creates none while an idle one exists, size() is the number of idle objects, "
  "a request on an exhausted pool completes once an object is returned, and objects still out when the pool is destroyed or moved stay valid and are destroyed exactly once. Returning objects from any thread is free of data races.",
  ["schedules", "histories"], "every sequence of gets, copies, hand-overs and releases by one requesting thread and any number of releasing threads, every capacity and initial size, pool destroyed or moved at any moment",
  "No test uses the pool at all; reuse errors need a release on another thread in a particular window.",
  ["include/dottorrent/object_pool.hpp"], [("weak control block and return deleter", "include/dottorrent/object_pool.hpp")],
  "ownership monitor inside the pooled objects over seeded sequential and concurrent programs under ASan and ThreadSanitizer, with injected delays and a quiescence monitor")
P("C26", "Digest, checksum, info-hash and name values compare and convert consistently",
  "Values built from the same bytes are equal, print as the lowercase hexadecimal of those bytes and can be rebuilt from that text; texts or byte strings of a wrong size or with bad digits are refused by an exception. Equality, ordering and hashing agree with the bytes: ordering is total and consistent with equality, also for info hashes of different kinds. "
  "Algorithm names convert to the algorithm and back exactly, unknown names are refused, digest sizes match the algorithms; peers (host:port), tracker addresses and file attribute letters convert to text and back without loss; flag sets behave as sets.",
  ["inputs"], "every digest value of every algorithm, every text, every pair and triple of values, every algorithm name, every attribute text and flag set",
  "The tests build a few values; total order, hash consistency and refusal of bad texts are statements about all of them.",
  ["include/dottorrent/hash.hpp", "include/dottorrent/checksum.hpp", "include/dottorrent/info_hash.hpp", "include/dottorrent/hash_function.hpp", "include/dottorrent/hash_function_traits.hpp", "include/dottorrent/dht_node.hpp", "include/dottorrent/announce_url.hpp", "include/dottorrent/bitmask_operators.hpp", "include/dottorrent/general.hpp"],
  [("byte array storage and comparison", "include/dottorrent/hash.hpp"), ("name tables", "include/dottorrent/hash_function.hpp")],
  "ASan/UBSan execution with a reference-model monitor over exhaustive small and seeded values")
P("C28", "Aligned allocation returns usable, aligned, non-overlapping memory or throws",
  "Every allocation for n elements is aligned as requested, is writable over its whole length, overlaps no other live allocation and is released completely; a request too large to represent throws instead of returning a short block. "
  "Containers using the allocator behave exactly as with the standard one, including copy, move, swap and comparison of allocators.",
  ["inputs", "histories"], "every element size, alignment and count, every sequence of allocations and releases",
  "No test allocates through it; size overflow and rounding only show for particular counts.",
  ["include/dottorrent/aligned_allocator.hpp"], [("aligned_alloc wrapper", "include/dottorrent/aligned_allocator.hpp")],
  "ASan/UBSan execution of seeded allocation histories with an overlap and alignment monitor, and containers mirrored on std::vector")

PIPEWHY = "The repository's hashing tests need data files and libraries that are rarely present and sample a handful of trees with default options."
PIPETECH = "whole hashing pipeline run on seeded content trees and options under ASan/UBSan with injected delays, every result compared with an independent reference"
P("C07", "The worker pool processes every item exactly once and always comes to an end",
  "Each item queued to a worker pool is processed by exactly one worker, at most once, in queue order for a single worker; when the pool is stopped and waited for, every item queued before was processed. "
  "After cancel no new item is started beyond those in progress, and waiting for or destroying the pool returns whatever is still queued, for any number of workers and any queue capacity. "
  "The pool's operations are free of data races.",
  ["schedules", "histories"], "every number of workers and producers, every queue capacity, stop, cancel, wait or destruction at any moment relative to the work",
  "Lost wake-ups and shutdown deadlocks need particular interleavings; no test drives the worker pool on its own.",
  ["include/dottorrent/concurrent_queue_processor.hpp", "include/dottorrent/concurrent_queue.hpp"],
  [("stop/cancel tokens and wake-up items", "include/dottorrent/concurrent_queue_processor.hpp")],
  "per-item processing counters (exactly-once monitor) over seeded runs with injected delays, ASan, ThreadSanitizer and a quiescence (deadlock) monitor")
P("C08", "v1 hashing gives the SHA-1 of every piece of the concatenated content",
  "Hashing a file storage as v1 sets exactly ceil(total size / piece size) piece hashes, each the SHA-1 of that slice of the concatenation of all files in storage order, with padding files counted as zeros and symlinks and empty files contributing nothing. "
  "The result depends only on the content, sizes and piece size, not on thread count, memory limit, read size or timing, and the content files are left unchanged.",
  ["inputs", "configurations", "schedules"], "every list of files and sizes (boundaries anywhere relative to pieces and read blocks), every piece size, every thread count, memory limit and read size, every schedule",
  PIPEWHY, ["src/v1_chunk_hasher_sb.cpp", "src/chunk_hasher_single_buffer.cpp", "src/v1_chunk_reader.cpp", "src/v1_piece_writer.cpp", "src/storage_hasher.cpp", "include/dottorrent/file_storage.hpp"],
  [("chunk reader to hasher queue", "src/storage_hasher.cpp")], PIPETECH)
P("C09", "v2 hashing gives the BEP 52 root and piece layer of every file",
  "Hashing a file storage as v2 gives every non-empty file the BEP 52 merkle root over its 16 KiB blocks (padded with zero leaves to the next power of two) and, if it is larger than one piece, the piece layer with one entry per piece. "
  "The result depends only on each file's content and the piece size, not on the other files, thread count, memory limit, read size or timing.",
  ["inputs", "configurations", "schedules"], "every list of files and sizes, every piece size, every thread count, memory limit and read size, every schedule",
  PIPEWHY, ["src/v2_chunk_hasher_sb.cpp", "src/v2_chunk_reader.cpp", "src/v2_piece_writer.cpp", "include/dottorrent/merkle_tree.hpp", "src/storage_hasher.cpp"],
  [("per-file merkle trees filled by chunks", "src/v2_piece_writer.cpp")], PIPETECH)
P("C10", "Hybrid hashing gives v1 pieces and v2 trees that describe the same data",
  "Hashing a file storage as hybrid aligns every file to a piece boundary with padding files and then sets both the v1 piece hashes of the padded stream and the v2 root and piece layer of every file, each equal to what the formats define for that content. "
  "Both hold for every thread count, memory limit, read size and timing.",
  ["inputs", "configurations", "schedules"], "every list of files and sizes, every piece size, every thread count, memory limit and read size, every schedule",
  PIPEWHY, ["src/v2_chunk_hasher_sb.cpp", "src/v2_chunk_reader.cpp", "src/v2_piece_writer.cpp", "src/storage_hasher.cpp", "src/file_storage.cpp"],
  [("v1 and v2 hashes from the same chunks", "src/v2_piece_writer.cpp")], PIPETECH)
P("C11", "Per-file checksums cover each whole file and only that file",
  "When checksums are requested, every regular file (empty ones included) gets, for every requested algorithm, exactly the digest of its own content, whatever its neighbours, its place relative to pieces and read blocks, and the torrent kind. "
  "The piece hashes produced in the same run are unaffected.",
  ["inputs", "configurations", "schedules"], "every list of files and sizes, every set of supported algorithms, v1, v2 and hybrid, every thread count and read size",
  PIPEWHY, ["src/v1_checksum_hasher.cpp", "src/v2_checksum_hasher.cpp", "src/storage_hasher.cpp"],
  [("chunks split at file boundaries", "src/v1_checksum_hasher.cpp")], PIPETECH)

VTECH = "verification pipeline run on seeded content trees, damages and options under ASan/UBSan with injected delays; every flag compared with a byte-level judgement of the damage"
P("C12", "v1 verification flags exactly the damaged pieces",
  "Verifying content against v1 hashes yields one flag per piece: set when every byte of the piece on disk is as hashed, clear when any byte differs or a missing (also: replaced by a directory or special file) or shortened file lacks a non-zero byte of it; bytes beyond a file's recorded size play no part. "
  "The percentage of a file is the share of set flags among the pieces it overlaps (100 for an empty file). The flags do not depend on threads, memory limit, read size or timing, and the recorded hashes are left as they were.",
  ["inputs", "configurations", "schedules"], "every content tree and piece size, every kind and place of damage, every thread count, memory limit and read size",
  "The verification tests check a few intact or missing files; where damage falls relative to piece, file and read-block boundaries decides most errors.",
  ["src/storage_verifier.cpp", "src/v1_piece_verifier.cpp", "src/v1_chunk_reader.cpp", "src/v1_chunk_hasher_sb.cpp", "src/file_storage.cpp"],
  [("missing data zero filled or skipped", "src/v1_chunk_reader.cpp"), ("piece map", "src/v1_piece_verifier.cpp")], VTECH)
P("C13", "v2 and hybrid verification flags exactly the damaged pieces of each file",
  "Verifying content against v2 or hybrid hashes yields, for every non-padding file in order, one flag per piece of the file (one for a file of at most one piece): set when the piece's bytes on disk are as hashed, clear when any byte differs or a missing (also: replaced by a directory or special file) or shortened file lacks a non-zero byte of it. "
  "The percentage of a file is its share of set flags (100 for an empty file), and damage to one file never changes the flags of another.",
  ["inputs", "configurations", "schedules"], "every content tree and piece size, every kind and place of damage, every thread count, memory limit and read size",
  "The verification tests check a few intact or missing files; where damage falls relative to piece, file and read-block boundaries decides most errors.",
  ["src/storage_verifier.cpp", "src/v2_piece_verifier.cpp", "src/v2_chunk_reader.cpp", "src/v2_chunk_hasher_sb.cpp", "include/dottorrent/merkle_tree.hpp"],
  [("per-file merkle trees compared with roots and layers", "src/v2_piece_verifier.cpp")], VTECH)
P("C14", "A hasher or verifier can be cancelled or dropped at any moment",
  "Cancelling a hasher or verifier returns at any stage (before the start, while reading, with full queues, when all work is done), leaves no thread running, and marks it cancelled and done; starting, waiting for or cancelling it again is refused by an exception, and destroying it (also when never started) is safe. "
  "Every hash, root or checksum recorded up to then is correct, and the storage can be hashed again.",
  ["schedules", "histories", "configurations"], "every moment of cancellation relative to reading and hashing, every torrent kind, thread count, queue size, checksum set and content tree",
  "No test cancels anything; shutdown with full queues needs a particular moment.",
  ["src/storage_hasher.cpp", "src/storage_verifier.cpp", "src/chunk_processor_base.cpp", "src/chunk_hasher_single_buffer.cpp", "src/v1_chunk_reader.cpp", "src/v2_chunk_reader.cpp", "include/dottorrent/concurrent_queue_processor.hpp"],
  [("shutdown order of reader, hashers and writers", "src/storage_hasher.cpp")],
  "seeded cancellations at controlled progress points with injected delays under ASan/UBSan, judged by a quiescence (deadlock) monitor, a thread census and a reference for everything recorded")
P("C15", "Progress counters never go back, never overshoot and end at the total",
  "While hashing or verifying, and before and after, bytes_done, bytes_read and bytes_hashed never decrease; bytes_done never exceeds the size to process (padding included for v1, without it for v2 and hybrid) and equals it when the run has completed, whatever is damaged or missing; bytes_read never exceeds the total size and covers all content at the end. "
  "The current file reported is a valid index that never goes back, with a position inside that file which agrees with bytes_done.",
  ["schedules", "inputs", "histories"], "every moment of polling from any one thread, every content tree, torrent kind, damage and option set",
  "Counters are only read after completion in the tests; overshoot or stepping back shows only in between or for particular layouts.",
  ["src/storage_hasher.cpp", "src/storage_verifier.cpp", "src/chunk_processor_base.cpp", "src/v1_chunk_hasher_sb.cpp", "src/v2_chunk_hasher_sb.cpp", "src/v1_chunk_reader.cpp", "src/v2_chunk_reader.cpp"],
  [("relaxed atomic counters", "src/chunk_processor_base.cpp")],
  "online monitor polling the counters of real runs continuously and judging every sample")
P("C16", "Hashing, verifying, polling and cancelling are free of data races",
  "A hasher or verifier used by one controlling thread and polled for progress by another performs no two unsynchronised conflicting memory accesses, from start to completion or cancellation, for every torrent kind, thread count, queue and read size, and every accepted option value leads to completion.",
  ["schedules", "configurations"], "every schedule of reader, hashing, checksum and writer threads, every torrent kind and option set",
  "A data race rarely changes the outcome of one test run; only a monitor of the memory accesses sees it.",
  ["src/storage_hasher.cpp", "src/storage_verifier.cpp", "src/v2_chunk_hasher_sb.cpp", "src/v2_piece_writer.cpp", "src/v1_piece_writer.cpp", "include/dottorrent/merkle_tree.hpp", "include/dottorrent/object_pool.hpp", "include/dottorrent/concurrent_queue.hpp"],
  [("queues between stages", "src/storage_hasher.cpp"), ("shared padding buffer", "src/v2_chunk_hasher_sb.cpp")],
  "ThreadSanitizer over the whole pipeline (hashing, verifying, polling, cancelling) with injected delays, results also compared with the reference")
P("C17", "Merkle trees hold the defined nodes and piece layers check against the root",
  "A merkle tree built from any number of leaves, set in any order and from any threads, has at every node the hash of its two children, with missing leaves taken as the filler value, and its root and layers do not depend on the order; copies, moved-to and assigned trees are equal to and independent of the source. "
  "Checking piece layers against a file's root accepts exactly the layers that produce this root for the file's size and piece size, and refuses every altered one.",
  ["inputs", "histories", "schedules"], "every leaf count, every order and interleaving of setting leaves, every hash function, every file size and piece size, every alteration of a layer",
  "The repository's merkle test builds one tree of a few leaves with one hash function in one order.",
  ["include/dottorrent/merkle_tree.hpp", "include/dottorrent/file_storage.hpp"],
  [("node array and layer offsets", "include/dottorrent/merkle_tree.hpp")],
  "seeded trees filled in random orders by several threads under ASan/UBSan and ThreadSanitizer, every node compared with a recursive reference; piece layers compared with an independent BEP 52 computation")

MTECH = "seeded torrent descriptions run through the real reader and writer under ASan/UBSan; an independent bencode decoder and field-by-field model judge every result"
P("C18", "A written metafile holds exactly what was set and reads back the same",
  "Writing a metafile as v1, v2 or hybrid by any route (string, stream, iterator, file) gives the same canonical bencoding, in which every field that was set (names, files and their attributes, symlinks, checksums and roots, pieces and piece layers, trackers by tier, seeds, nodes, dates, collections, other fields) appears under its BEP key with its value and no unset field appears. "
  "Reading those bytes gives back an equal description, and a save that cannot be completed is reported.",
  ["inputs", "configurations"], "every combination of fields with any byte values, every file list, single and multi file mode, v1, v2, hybrid, and v1 or v2 written from a hybrid storage",
  "The repository's serialization tests need libraries absent here and round-trip a few real torrents; fields interact by torrent kind and file mode.",
  ["src/metafile_serialization.cpp", "include/dottorrent/metafile_serialization.hpp", "src/metafile.cpp", "src/metafile_parsing.cpp", "include/dottorrent/metafile.hpp"],
  [("one event writer per torrent kind", "src/metafile_serialization.cpp")], MTECH)
P("C19", "Info hashes are the digest of the info dictionary that is in the file",
  "The v1 (SHA-1) and v2 (SHA-256) info hashes computed from a metafile equal the digest of the bytes of the info dictionary in the file written from it, or in the file it was read from. "
  "They change whenever a field inside the info dictionary changes and never when only a field outside it does.",
  ["inputs"], "every torrent description of every kind, own and foreign files with the fields the library models, every single field change",
  "Tests compare a few fixed hashes; a field written differently in the hash path and in the file shows only for the torrents that use it.",
  ["src/metafile.cpp", "src/metafile_serialization.cpp", "include/dottorrent/metafile_serialization.hpp", "include/dottorrent/info_hash.hpp"],
  [("info dictionary written into a hasher", "src/metafile_serialization.cpp")], MTECH)
P("C20", "Any byte string given as a metafile is read safely or refused",
  "Reading any bytes as a metafile either throws a std::exception or gives a consistent description: no memory error, overflow, endless loop or crash, all reading routes agree, every file path is relative without '..', sizes add up without overflow, the number of pieces fits the content and the tracker tiers are contiguous. "
  "What was read can be written, hashed and turned into a magnet link, or is refused by an exception.",
  ["inputs"], "every byte string: valid torrents with any structural or byte-level damage, truncations, extreme integers, wrong types, deep nesting, duplicates",
  "The space of malformed files is unbounded; the tests only read valid ones.",
  ["src/metafile_parsing.cpp", "include/dottorrent/metafile_parsing.hpp", "src/metafile.cpp"],
  [("field by field checks on untrusted values", "src/metafile_parsing.cpp")], "structural and byte-level fuzzing of real torrent encodings under ASan/UBSan with consistency monitors on everything accepted")
P("C21", "Torrents of other programs that follow the BEPs are read with their values",
  "A v1, v2 or hybrid file encoded as the BEPs define it is accepted and every field has the encoded value, in each permitted form: announce with or without announce-list, url-list as text or list, repeated or empty tracker entries (first place kept), collections and similar inside or outside info, unknown keys ignored or preserved. "
  "A file without a required field or with one of another type or outside its permitted range or size is refused.",
  ["inputs"], "every valid torrent description and permitted encoding variation, and every single broken requirement",
  "The tests read a few real files; permitted variations combine freely.",
  ["src/metafile_parsing.cpp", "include/dottorrent/metafile_parsing.hpp"],
  [("parse_* per field", "src/metafile_parsing.cpp")], MTECH)

P("C22", "Magnet links carry every field through encoding and parsing",
  "Encoding a magnet link gives 'magnet:?' and key=value parts joined by '&', with every value percent-encoded and keywords joined by '+', identical through every output iterator; parsing that text, or the same link with other escapes, part order and unknown keys, gives back every field byte for byte. "
  "A text that is not a magnet link, has a part without '=' or a length that is not a number is refused by an exception, and no text crashes or hangs the parser. "
  "A link made from a metafile has its info hashes of the requested kind, name, trackers in tier order, web seeds and nodes.",
  ["inputs"], "every field value (any bytes), every combination and number of fields, every text, every torrent kind",
  "No test encodes or parses a link with special characters or more than the usual fields.",
  ["include/dottorrent/magnet_uri.hpp", "src/magnet_uri.cpp", "include/dottorrent/percent_encoding.hpp"],
  [("key/value split and escape", "src/magnet_uri.cpp")], "ASan/UBSan execution of seeded links with a field model and an independent encoder as oracle")
P("C23", "Tracker tiers and the other lists of a metafile behave as ordered sets",
  "After any sequence of insertions, removals, copies and clears, a tracker list holds exactly the entries put in, sorted by tier and address, with tiers numbered from zero without gaps (an emptied tier closes up); sizes, tier ranges, look-ups, comparison, hash and the nested form agree with that content, and returned iterators refer to the entry concerned. "
  "A metafile holds each tracker once (adding it again moves it to the given tier) and each seed, node, collection and similar torrent once, in the order added.",
  ["inputs", "histories"], "every sequence of operations with any addresses and tiers",
  "The tests try a few insertions; gaps, moves between tiers and stale iterators need particular sequences.",
  ["include/dottorrent/announce_url_list.hpp", "src/announce_url_list.cpp", "include/dottorrent/announce_url.hpp", "src/metafile.cpp", "include/dottorrent/metafile.hpp"],
  [("one sorted vector with tier numbers", "include/dottorrent/announce_url_list.hpp")], "ASan/UBSan execution of seeded operation sequences with a nested-vector model judging every query after each step")
P("C24", "File sizes, piece counts, offsets and alignment of a storage always add up",
  "After any sequence of adding, removing and clearing files, choosing piece sizes, aligning and setting pieces, a storage's totals, counts, cumulative sizes, piece count and the pieces of each file equal those computed from its file list. "
  "Aligning puts every non-padding file on a piece boundary with the least padding, keeps the files and their order and is idempotent; a chosen piece size is a power of two from 32 KiB to 16 MiB giving 512 to 1024 pieces where those bounds allow. "
  "Changing the piece size or clearing drops piece hashes and layers that no longer apply.",
  ["inputs", "histories"], "every file list and size (zero, around piece boundaries, very large), every piece size, every sequence of operations",
  "The tests check single storages of a few files; rounding at boundaries and stale figures after changes depend on the sequence.",
  ["src/file_storage.cpp", "include/dottorrent/file_storage.hpp", "src/file_entry.cpp"],
  [("running totals", "src/file_storage.cpp")], "ASan/UBSan execution of seeded operation sequences with a file-list model judging every figure after each step")
P("C25", "Copies of entries, storages and metafiles are complete and independent",
  "A copied, moved-to or assigned file entry, file storage or metafile shows exactly what the source showed (paths, sizes, attributes, checksums, roots, layers, pieces, modes, times, all metafile fields, and the bytes it is written as), compares equal to it, and later changes to one never show in the other. "
  "A file entry keeps one checksum per algorithm: adding replaces, removing removes, and look-up by name and by algorithm agree.",
  ["inputs", "histories"], "every content of an entry, storage or metafile, every order of copies, moves, assignments (also to itself and into used objects) and changes",
  "A forgotten member shows only when it is set and looked at after a copy; the tests never compare copies in full.",
  ["src/file_entry.cpp", "include/dottorrent/file_entry.hpp", "src/file_storage.cpp", "include/dottorrent/file_storage.hpp", "include/dottorrent/metafile.hpp", "include/dottorrent/checksum.hpp"],
  [("hand-written copy and move members", "src/file_entry.cpp")], "ASan/UBSan execution of seeded copy, move and change sequences with complete observation of both sides")
P("C27", "Scanning a path records the file as it is, inside the root directory only",
  "Making an entry for a path gives its path relative to the root, its size, and with the options for it the executable flag and, for a symlink that is to be kept, the symlink flag, size zero and the target relative to the root; without that option a symlink to a file counts as the file. "
  "Names starting with dots, unnormalised paths and roots spelled with a trailing separator make no difference. "
  "Anything outside the root, missing, a directory or special file is refused by an exception with the storage unchanged.",
  ["inputs", "configurations"], "every directory content (files, modes, symlinks to files, directories and nothing, special files), every spelling of path and root, every option",
  "The tests scan a fixed resource directory; dots, links and odd spellings are not in it.",
  ["src/file_entry.cpp", "src/file_storage.cpp", "include/dottorrent/file_storage.hpp", "include/dottorrent/general.hpp"],
  [("lexical containment test", "src/file_entry.cpp")], "seeded scratch directories scanned with every option under ASan/UBSan and compared with what was created")
P("C29", "Directory queries list exactly the files and directories below a path",
  "For any file list, the contents of a directory are exactly the entries whose path lies below it by whole components, sorted by path, as pointers into the storage, and follow later additions and removals; a trailing separator makes no difference. "
  "A non-empty directory counts as padding exactly when every file below it is padding, and the directory count is the number of distinct directories on the paths of the files below the given root, optionally without padding directories.",
  ["inputs", "histories"], "every file list (names that are prefixes of one another, nested, padding), every directory, every change between queries",
  "The tests query three directories of one list; prefixes and stale indexes need particular names and sequences.",
  ["src/file_storage.cpp", "include/dottorrent/file_storage.hpp"],
  [("sorted index with lower_bound", "src/file_storage.cpp")], "ASan/UBSan execution of seeded file lists with a component-wise model judging every query")
P("C30", "Content that cannot be read in full is reported, never hashed as something else",
  "When a file is missing, replaced by something else, shorter than recorded, cannot be opened or fails to be read at any point while a storage is hashed, waiting for the hasher throws an exception instead of completing; when verifying, a file that cannot be opened or read is reported in the same way. "
  "Afterwards the hasher or verifier is done with no thread left, whatever it recorded up to then is right, and the storage can be hashed or verified once the content is readable. Interrupted and short reads by the system change nothing.",
  ["fault_sequences", "inputs", "schedules"], "every file and every open or read call at which the fault occurs, every content tree, torrent kind and option set",
  "No test lets an open or a read fail, and a silently wrong hash looks like a right one until somebody downloads the content.",
  ["src/v1_chunk_reader.cpp", "src/v2_chunk_reader.cpp", "src/chunk_reader.cpp", "src/storage_hasher.cpp", "src/storage_verifier.cpp"],
  [("result of each read", "src/v1_chunk_reader.cpp"), ("result of each read", "src/v2_chunk_reader.cpp"), ("error handed from the reader thread to wait", "src/chunk_reader.cpp")],
  "fault injection below the file streams (failing opens and reads, interrupted and short reads) and on disk during real runs under ASan/UBSan; every outcome judged by the fault that was really injected and a reference for everything recorded")
P("C31", "File data in memory stays within the limit, however large the content",
  "While a storage is hashed or verified, the file data held in memory never exceeds the larger of the given max_memory and four read blocks (without a limit: four blocks per hashing thread), a read block being min_io_block_size (1 MiB if not given) or the piece size, whichever is larger, in whole pieces. "
  "This holds whatever the amount of content, the torrent kind, the checksums and the relative speed of reading and hashing, and all of it is released with the hasher or verifier, also after a cancellation.",
  ["inputs", "schedules", "configurations"], "every content, torrent kind, option set and schedule of the reader against the hashing threads",
  "The tests hash content smaller than any limit; a limit that is not kept shows only with more content than memory, and only when hashing is slower than reading.",
  ["src/storage_hasher.cpp", "src/storage_verifier.cpp", "src/chunk_reader.cpp", "src/chunk_processor_base.cpp", "include/dottorrent/object_pool.hpp", "include/dottorrent/concurrent_queue.hpp"],
  [("pool of data blocks", "include/dottorrent/object_pool.hpp"), ("capacity from the options", "src/storage_hasher.cpp")],
  "ASan allocator hooks counting the live block-sized allocations of real runs with injected delays and content of at least twice the limit; peak and remainder judged")
P("C32", "A run sets its results and modification times and changes nothing else",
  "Completing a hashing run leaves the file list (paths, sizes, attributes, symlink targets, order; a hybrid run adds padding files only), root directory, piece size, file mode and the checksums of algorithms that were not requested as they were, and gives every regular file the modification time its file has on disk, padding files none. "
  "Hashing as v1 only sets piece hashes, as v2 only roots and layers. Verifying changes nothing but the modification times of the files that are there; those of missing files stay. The files on disk keep their content and times.",
  ["inputs", "configurations", "schedules"], "every content tree, attributes, earlier state of the entries, torrent kind and option set, every set of missing files when verifying",
  "The tests look at the hashes of a run only, on storages without any earlier state.",
  ["src/v1_chunk_reader.cpp", "src/v2_chunk_reader.cpp", "src/storage_hasher.cpp", "src/storage_verifier.cpp", "src/file_storage.cpp", "src/v1_checksum_hasher.cpp", "src/v2_checksum_hasher.cpp"],
  [("modification time set by the reader", "src/v1_chunk_reader.cpp"), ("modification time set by the reader", "src/v2_chunk_reader.cpp")],
  "complete observation of the storage and the disk before and after real runs under ASan/UBSan with injected delays; differences judged against what the run may change")
P("C33", "A torrent made, saved and loaded verifies against exactly the original files",
  "Files scanned, hashed as v1, v2 or hybrid, saved (a hybrid also as v1 or v2 only) and loaded again, with the content moved to another place, verify completely: every piece is good and every file at 100 percent; after any one byte of the content is changed exactly the piece holding it is bad, and after it is restored all are good again. "
  "The loaded torrent has the info hashes, magnet link, fields, file list and checksums of the one that was made, and writing it again gives the same file.",
  ["inputs", "configurations", "histories"], "every content tree, order of adding, torrent kind, piece size and option set of hashing and verifying, every changed byte",
  "The parts are tested one by one on fixed data; what one part hands to the next (order of files, single-file names, padding, layers) is not.",
  ["src/file_storage.cpp", "src/file_entry.cpp", "src/storage_hasher.cpp", "src/storage_verifier.cpp", "src/metafile_serialization.cpp", "src/metafile_parsing.cpp", "src/metafile.cpp", "src/magnet_uri.cpp"],
  [("whole library", "include/dottorrent/metafile.hpp")],
  "end-to-end runs of the real library under ASan/UBSan on seeded content, judged by the content itself at the end of the chain")
