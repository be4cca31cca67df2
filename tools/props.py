RC = "utilities/compression/rle8.go"; RG = "utilities/compression/rle_grouper.go"; CI = "utilities/compression/compression.go"
BC = "file_systems/common/blockcache/blockcache.go"; BS = "file_systems/common/basicstream/basicstream.go"
DR = "driver/driver.go"; DF = "driver/file.go"
EXPL = "Held on the executions counted in the evidence file, nothing beyond them; the oracle is an independent reference model in /verif/harness."

# ---------------------------------------------------------------- compression
prop("C01", "Compressed images round-trip byte for byte",
 "Compressing any byte sequence as a disk image and decompressing the result (to a stream or to a byte slice) yields exactly the original bytes, and each direction reports the exact number of bytes it wrote. This holds whatever sizes the input arrives in and whatever size the data is, including empty input. The compressed form is one standard gzip stream wrapping the run-length encoded data.",
 ["inputs", "schedules"], "every byte string (empty to megabytes, run-heavy, adversarial run lengths) x every chunking of the input reader",
 "The tests round-trip a handful of strings through whole-buffer readers; the run-length boundaries (1,2,256..259,512..516 and every chunk split inside a run) are a product no table covers.",
 [CI, RC, RG], [("RLE8 then gzip", CI), ("bufio-based run grouping", RG)], ["bytes in vs bytes out", "returned counts"],
 technique="round-trip monitor with an independent gzip+RLE8 codec as oracle, chunking I/O shims", note=EXPL, area="compression")
prop("C02", "The RLE8 stream follows the documented format in both directions",
 "The run-length compressor emits, for every maximal run, the documented encoding: single bytes literally, and a run of N>=2 as the byte twice followed by a count of additional repetitions, splitting runs longer than 257 into 257-byte pieces followed by the rest. The decompressor accepts every well-formed stream in that format, including ones this compressor would not produce (short counts, adjacent groups of the same byte), and expands it to exactly the data the format defines. Byte counts returned equal bytes written.",
 ["inputs"], "every byte string for the encoder, every well-formed code stream for the decoder",
 "Only a few literal vectors are tested; streams that other encoders produce (e.g. XX 03 XX 00) are never decoded, so two compensating errors in encoder and decoder pass a round trip.",
 [RC, RG, "utilities/compression/doc.go"], [("RLE8 encoder", RC), ("RLE8 decoder", RC)], ["output bytes", "returned counts"],
 technique="differential monitor against an independent RLE8 encoder/decoder, exhaustive small inputs plus generated ones", note=EXPL, area="compression")
prop("C03", "Recursive run-length encoding is reversible, also when nested",
 "Decompressing the output of the recursive run-length compressor yields the original bytes, for one application and for any number of nested applications undone in reverse. The encoding follows its documented form: a run of N>=2 is the byte twice, one FF per full 255 further repetitions, then one byte below FF for the remainder. A recursive stream that ends in the middle of a repeat count is reported as an error, never accepted.",
 ["inputs"], "every byte string, every nesting depth, every truncation",
 "The repository's tests never decompress recursive data at all.",
 [RC], [("recursive encoder", RC), ("recursive decoder", RC)], ["output bytes", "errors"],
 technique="round-trip and format monitor against an independent codec, nested applications", note=EXPL, area="compression")
prop("C04", "Damaged archives are never silently accepted",
 "Decompressing an archive that was truncated at any point, or had any byte altered, or had foreign data appended either fails with an error or still yields exactly the original image; it never reports success with different or missing data. Truncation always fails, and a raw run-length stream that stops before a required repeat count fails with the unexpected-EOF error. No input, however malformed, makes decompression panic or run forever.",
 ["inputs", "fault_sequences"], "every truncation point, byte alteration and appended suffix of every archive; arbitrary byte strings",
 "Corruption is never fed to the decoder by the tests.",
 [CI, RC], [("gzip CRC and length trailer must be consumed", CI), ("missing repeat count check", RC)], ["error value", "output bytes"],
 technique="fault-enumeration monitor: every truncation and systematic byte mutations of generated archives", level="fault_enumeration", note=EXPL, area="compression")
prop("C05", "I/O failures during (de)compression reach the caller",
 "If the input stream fails, or the output stream fails or runs out of room, at any byte position, every compression and decompression entry point returns an error from which the original failure can be recognised, and never reports success. What was written before the failure represents a prefix of the correct output. A stream that delivers data together with its end-of-file indication is handled like one that delivers them separately.",
 ["fault_sequences", "inputs"], "every position of a read or write failure in every run of every entry point",
 "No test injects a failing reader or writer.",
 [RC, RG, CI], [("error returns of the compressors", RC), ("gzip close error", CI)], ["error chain", "bytes accepted by the sink"],
 technique="fault enumeration: failing reader/writer at every position, prefix monitor on the sink", level="fault_enumeration", note=EXPL, area="compression")
prop("C06", "Run grouping is lossless and runs are maximal",
 "Grouping a byte stream yields runs whose expansion is exactly the input; every run has length at least one, and two consecutive runs never carry the same byte. End of input is reported with the last run or after it, once the input is exhausted it stays exhausted, and a read failure of the source is reported as that failure rather than as end of input.",
 ["inputs", "fault_sequences"], "every byte stream, chunking and read-failure position",
 "Tests use a few literals from an in-memory reader that never fails and never returns short reads.",
 [RG], [("run scanner", RG)], ["sequence of runs and errors"],
 technique="online trace monitor on the run sequence (losslessness, maximality, end-of-stream protocol)", note=EXPL, area="compression")
prop("C07", "The zip/unzip image tools round-trip files and fail loudly",
 "Running the image compressor tool on a file and the expander tool on its output reproduces the original file exactly, and both exit with status 0 only if the complete output was produced. With a missing input, an output that cannot be created or written, a damaged archive, or the wrong number of arguments, the tool exits non-zero and writes a diagnostic to standard error, also when the loss is only reported as the output is closed. Neither tool changes or removes its input file, even when it is also named as the output.",
 ["inputs", "fault_sequences"], "every image file; every truncation of an archive; unwritable and full outputs",
 "The commands have no tests.",
 ["cmd/zipimage/main.go", "cmd/unzipimage/main.go", CI], [("exit codes", "cmd/zipimage/main.go")], ["exit status", "output file", "stderr"],
 technique="end-to-end process monitor on the built binaries", note=EXPL, area="cli")

# ---------------------------------------------------------------- block cache
prop("B01", "The block cache behaves like one array with write-back",
 "Reading any range of blocks through the cache returns the bytes most recently written to those blocks through the cache, or else the bytes in the backing storage, whatever the order of reads, writes, slices, dirty marks, flushes and resizes. After a successful flush the backing storage equals that logical content for every block changed through the cache. Reads and writes whose length is not a multiple of the block size transfer exactly the requested bytes, leave the rest of the last block alone, and return the number of bytes transferred.",
 ["histories", "inputs"], "every history of cache operations on every geometry",
 "Tests run one or two operations on a fixed geometry; lazily loaded, dirty and resized blocks interact only over longer histories.",
 [BC], [("loaded/dirty bitmaps", BC), ("load before read", BC)], ["returned bytes and counts", "backing storage after flush"],
 state=[("loaded blocks", "which blocks hold valid data", BC), ("dirty blocks", "which blocks differ from storage", BC)],
 technique="model-based runtime monitor: reference array with write-back over random and bounded-exhaustive histories", note=EXPL, area="blockcache")
prop("B02", "The block cache fetches lazily and flushes exactly the dirty blocks",
 "A block is fetched from storage at most once, and only when an operation needs it; blocks outside the requested ranges are never fetched. A flush writes each block changed or marked dirty since its last flush exactly once and no other block, so a second flush without changes writes nothing. Reads alone never cause writes.",
 ["histories"], "every history of cache operations",
 "Tests look at final contents, not at the traffic on the backing storage.",
 [BC], [("loaded/dirty bitmaps", BC)], ["fetch/flush callback trace"],
 technique="online monitor over the recorded fetch/flush trace (at-most-once fetch, exact dirty set)", note=EXPL, area="blockcache")
prop("B03", "Out-of-range block accesses are rejected without side effects",
 "Any read, write, slice or dirty mark that would touch a block at or beyond the end of the cache fails with the out-of-range error, however large the start or count, including values whose byte offsets overflow; the caller's buffer, the cache contents and the backing storage stay unchanged. The backing storage is only ever asked for blocks inside the current size, each with a buffer of exactly one block. Accesses entirely inside the cache are never rejected.",
 ["inputs", "histories"], "every start/count pair, including extremes near the integer limits, at every cache size",
 "Tests probe a couple of off-by-one values.",
 [BC], [("bounds check", BC)], ["error identity", "callback arguments", "buffers before/after"],
 technique="boundary-value monitor with guarded buffers and callback-argument assertions", note=EXPL, area="blockcache")
prop("B04", "Storage faults in the block cache are reported and lose nothing",
 "If fetching, flushing or resizing fails at any point, the operation returns an error that identifies the underlying failure. A block whose fetch failed is fetched again on next use and a block whose flush failed is still pending and is written by the next flush, so that once faults stop a flush brings storage to the full logical content; a failed resize leaves size and contents as they were, and a failed read never claims bytes it did not deliver.",
 ["fault_sequences", "histories"], "every position of a failure in the callback sequence of every history",
 "No test makes a callback fail in the middle of a multi-block operation.",
 [BC], [("clean only after successful flush", BC), ("resize callback first", BC)], ["errors", "storage after recovery"],
 technique="fault enumeration over callback positions with a recovery oracle", level="fault_enumeration", note=EXPL, area="blockcache")
prop("B05", "Resizing the block cache preserves data and zero-fills growth",
 "After growing, all previous blocks keep their content, the new blocks read as zeros and are written out as zeros by the next flush; after shrinking, the remaining blocks keep their content and pending changes, and the removed blocks can be neither read nor flushed. Growing again after shrinking never resurrects old data. The reported block count and byte size always match, and the minimum number of blocks for a size is its exact ceiling quotient.",
 ["histories", "inputs"], "every sequence of resizes interleaved with reads, writes and flushes",
 "Tests resize once.",
 [BC], [("resize", BC)], ["contents", "flush trace", "sizes"],
 technique="model-based monitor over resize-heavy histories", note=EXPL, area="blockcache")
prop("B06", "Block caches over streams and slices address the right bytes",
 "A block cache wrapped around a byte stream or slice reads block i from byte offset i times the block size and flushes it back to the same offset, also when the stream returns short reads, and after the cache was resized. The inferred number of blocks is the number of whole blocks in the stream. A flush of data that the stream did not take reports the failure and keeps the data. Resizing resizes the stream when it was allowed and the stream can be truncated, and otherwise fails with the not-permitted or not-supported error without changing anything.",
 ["inputs", "histories", "schedules"], "every stream length, block size, short-read pattern and resize history",
 "The tests wrap one in-memory slice whose length is a multiple of the block size and never resize it through a stream.",
 [BC], [("stream adapter", BC)], ["bytes in the wrapped stream", "errors"],
 technique="model-based monitor with short-reading, truncatable in-memory streams", note=EXPL, area="blockcache")

# ---------------------------------------------------------------- streams
prop("S01", "A stream behaves like an operating-system file",
 "For every sequence of reads, positioned reads, writes, positioned writes, seeks, truncations and size queries, the stream returns the same data, counts, positions, sizes and end-of-file indications as an ordinary file under the same operations. In particular writing past the end grows the file to exactly the end of the written data, any gap and any space gained by growing reads as zeros (never old or slack data), and a read that hits the end advances the position by what it returned. End of file may be reported together with the last bytes or by the next read. Negative offsets, and seeks beyond the largest offset, are rejected with an error, and so is creating a stream whose size is negative or exceeds its storage.",
 ["histories", "inputs"], "every operation history on every block size, initial size and initial slack content",
 "Tests check one or two operations on a 64-byte stream; block-boundary, gap and shrink-then-grow histories are never run.",
 [BS, BC], [("offset to block translation", BS), ("growth via truncate", BS)], ["results of every call", "size", "position"],
 technique="model-based monitor against a byte-slice file model (itself cross-checked against os.File)", note=EXPL, area="stream")
prop("S02", "Synced stream data reaches the backing storage",
 "Once a sync or close of a stream has succeeded, and after every successful write or truncation on a stream opened for synchronous I/O, the backing storage holds exactly the stream's current contents in its first bytes, and no block outside the stream was written. If storing fails the call reports the failure, and a later successful sync still stores everything.",
 ["histories", "crash_points", "fault_sequences"], "every history, every crash point after a successful sync, every storage fault position",
 "The tests only read back through the same cache, which hides data that never reaches storage.",
 [BS, BC], [("dirty marking on write", BS), ("flush", BC)], ["backing storage snapshot at each sync/close"],
 technique="durability monitor: storage snapshot compared with the model at every acknowledged sync, with fault injection", level="fault_enumeration", note=EXPL, area="stream")
prop("S03", "Stream access modes are enforced",
 "A stream opened read-only never modifies its data or size and refuses writes, truncation and copying-in with the not-permitted error; one opened write-only refuses reads with that error. With append mode every write lands at the current end of the file and advances the position to the new end, and positioned writes are refused; with truncate mode the stream starts empty, which requires write access.",
 ["histories", "configurations"], "every combination of open flags x every operation history",
 "Tests cover single operations for a few flag values.",
 [BS, "flags.go"], [("flag checks", BS)], ["errors", "contents", "position"],
 technique="model-based monitor across all flag combinations", note=EXPL, area="stream")
prop("S04", "Bulk stream copies move every byte and report every failure",
 "Copying from a reader into a stream stores all bytes the reader delivered at the current position and returns their number; copying a stream to a writer delivers all bytes from the current position to the end and returns their number. Short reads and data delivered together with end-of-file do not lose or duplicate bytes. A failure of the reader, of the writer (including a short write) or of the backing storage is returned as such, and the count never exceeds what was transferred.",
 ["inputs", "schedules", "fault_sequences"], "every chunking and every failure position on both sides",
 "Bulk copies are tested with one well-behaved in-memory peer.",
 [BS], [("copy loops", BS)], ["bytes transferred", "counts", "errors"],
 technique="fault-injecting peers with byte-accounting monitor", level="fault_enumeration", note=EXPL, area="stream")

# ---------------------------------------------------------------- driver
DN = "The driver package has no tests at all; "
prop("D01", "Path normalisation yields the absolute cleaned path",
 "Normalising any path yields an absolute path without empty, `.` or `..` components, equal to lexically cleaning the path joined to the working directory when it is relative. The result is idempotent and independent of what exists on the volume. The working directory reported is always a normalised absolute path of a directory that existed when it was set, and a failed change of directory leaves it unchanged.",
 ["inputs", "histories"], "every path string, every working directory",
 DN + "the space of path strings times working directories is unbounded.",
 [DR], [("path cleaning", DR)], ["returned strings", "working directory"],
 technique="differential monitor against a component-stack reference normaliser", note=EXPL, area="driver")
prop("D02", "Namespace operations act like a file-system tree",
 "Every history of creating, opening, listing, stating, linking, making and removing files and directories through the driver has the outcomes of a hierarchical file system: an object is visible under a path exactly when it was created there and not removed, listing a directory returns each child once, and removal of a non-empty directory, creation over an existing name, and use of a file as a directory fail with the directory-not-empty, exists and not-a-directory errors. Objects come into being with the type, permissions and set-id and sticky bits asked for. Exclusive creation fails on an existing name. Recursive creation makes all missing parents and accepts existing directories, recursive removal removes the directory and everything below it and nothing else, and the root can never be removed.",
 ["histories"], "every history of namespace operations on every tree shape",
 DN + "the tree semantics is a statement over histories.",
 [DR, "driver/dirent.go", "driver/fsobject.go"], [("path resolution", DR), ("create/remove", DR)], ["return values", "full tree walk of the implementation after each step"],
 technique="model-based runtime monitor: reference tree compared after every step over random histories on an in-memory implementation", note=EXPL, area="driver")
prop("D03", "File contents written through the driver persist exactly",
 "Data written to a file through the driver and closed (or written with the write-whole-file call, or opened synchronously) is what a later open or whole-file read of it returns, byte for byte and with exactly that size as recorded by the file system, for every pattern of writes, seeks, truncations and reopenings and every block size. Bytes never written read as zeros. A sync that fails loses nothing: the next one that succeeds stores everything. Stat on an open file reports its current size.",
 ["histories", "inputs"], "every history of open/write/seek/truncate/close on every block size",
 DN + "persisting requires the stream, cache, resize and object layers to cooperate over a history.",
 [DF, DR, BS, BC], [("close flushes", DF), ("resize callback", DF)], ["bytes and size stored in the implementation", "whole-file reads"],
 technique="model-based monitor comparing the implementation's stored bytes with a file model after each close", note=EXPL, area="driver")
prop("D04", "File system implementations only see calls their contract allows",
 "Whatever the caller does (short of changing a file through one path while it is open through another), the driver only makes calls to a file system implementation that its interface documents as possible: objects are created only under names that do not exist, with a directory handle that implementation issued as parent; block reads, writes and zeroing are non-empty, block-aligned and inside the object's current size; directories are deleted only when empty; hard links are only requested for a non-directory source, a directory parent and an unused name. Mode changes carry permission bits only, and time changes leave timestamps the file system does not support undefined.",
 ["histories", "inputs"], "every history of driver calls, valid and invalid",
 DN + "the contract is a statement about every call sequence.",
 [DR, DF, "driver/fsobject.go", "api.go"], [("checks before delegation", DR)], ["every call arriving at a contract-checking implementation"],
 technique="contract monitor inside an instrumented in-memory implementation, hostile call histories", note=EXPL, area="driver")
prop("D05", "Object handles are released and never used after release",
 "Every object handle the driver obtains from a file system implementation is closed by the time the operation that obtained it returns, or, for an open file, by the time the file is closed, whether the operation succeeds or fails. After closing a handle the driver never uses it again, and every operation on a closed file other than asking for its name fails, also when closing it reported an error.",
 ["histories", "fault_sequences"], "every history and every failing implementation call",
 DN + "leaks and uses after close have no visible symptom in results.",
 [DR, DF, "driver/fsobject.go"], [("deferred closes", DR)], ["handle lifecycle trace"],
 technique="typestate monitor on every handle (open/closed, leak check at operation end), with fault injection", level="fault_enumeration", note=EXPL, area="driver")
prop("D06", "Symbolic links resolve like POSIX links and cycles are detected",
 "Following a path through symbolic links reaches the object POSIX resolution would reach: relative link texts are interpreted from the directory holding the link, absolute ones from the root, links in intermediate components are followed, and the final component is followed except by operations on the link itself (link-stat, read-link, link-chown, removal). Parent-directory components are resolved lexically, before links. A path whose resolution does not terminate fails with the link-cycle error, and acyclic chains of reasonable length (up to 32 links) resolve. Resolution always terminates.",
 ["inputs", "histories"], "every graph of links, directories and files, every path into it",
 DN + "cycles through intermediate directories and relative links need specific link graphs.",
 [DR], [("link resolution loop", DR)], ["resolved object identity", "error identity", "number of implementation calls"],
 technique="differential monitor against a reference POSIX resolver over random link graphs with a step budget", note=EXPL, area="driver")
prop("D07", "Mount permissions bound what the driver can change",
 "On a mount without write permission no driver call changes existing file contents or sizes; without insert permission none creates an object or link, without delete permission none removes one, and without administer permission none changes modes, owners. Refused calls report an error and leave the volume exactly as it was; calls the flags permit are not refused on account of mount permissions.",
 ["configurations", "histories"], "every mount flag combination x every history of driver calls",
 DN + "the guarantee ranges over all entry points and flag combinations.",
 [DR, "api.go"], [("permission checks", DR)], ["mutating calls reaching the implementation", "volume snapshot"],
 technique="non-interference monitor: volume snapshots and mutation trace per mount-flag combination", note=EXPL, area="driver")
prop("D08", "Failures of the file system implementation reach the caller",
 "If any call into the file system implementation fails, the driver operation that depended on it returns an error from which the original failure can be recognised, instead of succeeding or panicking. This includes failures that only surface while data is written back on sync or close.",
 ["fault_sequences", "histories"], "every implementation call position in every driver operation",
 DN + "no failing implementation exists.",
 [DR, DF], [("error returns", DR)], ["error chain"],
 technique="fault enumeration: fail the k-th implementation call for every k of each operation", level="fault_enumeration", note=EXPL, area="driver")
prop("D09", "Queries do not modify the volume",
 "Opening for reading, reading, listing, stating, reading links, resolving paths and changing the working directory never modify the volume: no data, size, mode, owner or directory entry changes and nothing is written. Closing a file that was only read writes nothing.",
 ["histories"], "every history of query operations on every tree",
 DN + "absence of side effects concerns all inputs.",
 [DR, DF, BC], [("dirty tracking", BC)], ["mutation trace", "volume snapshot"],
 technique="side-effect monitor (mutation trace must stay empty, snapshot equality)", note=EXPL, area="driver")
prop("D10", "Directory listings through open handles return each entry once",
 "Reading a directory through an open handle in batches of any sizes returns every entry exactly once across the batches, never `.` or `..`, then end-of-file for bounded batches, while an unbounded read returns all remaining entries without an end-of-file error. A listing that failed part way can be continued or repeated without losing or doubling entries. The entry names, types, sizes, modes and times equal those of the objects, in all three listing forms, and entry types carry type bits only.",
 ["inputs", "histories"], "every directory size and batch-size sequence",
 DN + "batch sequences are combinatorial.",
 [DF, "driver/dirent.go"], [("listing cursor", DF)], ["returned batches and errors"],
 technique="exactly-once trace monitor over batched listings", note=EXPL, area="driver")

prop("D11", "Features a volume lacks are refused without side effects",
 "When a file system implementation lacks an optional feature (listing directories, hard links, symbolic links, changing modes, owners or timestamps), every driver operation that needs it fails with the not-supported or not-implemented error and leaves the volume unchanged, in every combination of present and missing features; operations that do not need a missing feature work as they do with all features. The feature set the driver reports is the implementation's own. The base object handle offered to implementations refuses every operation with the not-implemented error and never panics.",
 ["configurations", "histories"], "every combination of missing optional features and every history of operations",
 DN + "no implementation without optional features exists in the tests.",
 [DR, "driver/fsobject.go", "driver/nopobject.go", DF], [("optional interface lookups", "driver/fsobject.go")], ["returned errors", "volume snapshots", "reported features"],
 technique="model-based monitor over an implementation with every subset of the optional interfaces, volume snapshot after every operation", note=EXPL, area="driver")

prop("D12", "Attribute changes and reports are exact",
 "Changing the mode, owner or time stamps of an object, through its path or an open file, changes exactly the requested attributes of exactly the object meant (the target of a final symbolic link, except for Lchown): permission bits never alter the type of an object, owner and group are passed on as given, a time stamp that is zero or that the volume does not record is left alone, and contents and all other objects stay as they were. Every report about an object (Stat, Lstat, Stat of an open file, directory entries) gives its current attributes, and an open file goes by the name it was opened or found under.",
 ["histories", "inputs"], "every history of attribute changes and reports on every tree, every mode, owner and time",
 DN + "no test changes an attribute.",
 [DR, DF, "driver/dirent.go"], [("attribute operations", DR)], ["volume snapshots", "reported attributes", "errors"],
 technique="model-based monitor on histories: attributes of the whole volume compared after every operation", note=EXPL, area="driver")

# ---------------------------------------------------------------- FAT8
F8 = "file_systems/fat8/"
prop("G01", "Formatting produces a valid FAT8 volume of the requested geometry",
 "Formatting an image for one of the three supported sizes (640, 1898 and 2002 sectors of 128 bytes) produces exactly the documented layout: every directory sector filled with the unused marker, three identical allocation tables whose data clusters are free and whose reserved entries mark the directory track, everything else zero, whatever the image held before. Any other size is refused and leaves the image untouched. A formatted image mounts cleanly, contains no file, and its statistics give the room it has for blocks and directory entries. If the medium fails in any way while it is formatted, the caller is told, unless nothing is missing.",
 ["configurations", "inputs", "fault_sequences"], "every sector count and every previous image content",
 "Tests compare two geometries with fixtures; old contents, other sizes and faults are not tried.",
 [F8 + "formattingdriver.go", F8 + "common.go"], [("format layout", F8 + "formattingdriver.go")], ["image bytes", "errors"],
 technique="layout monitor against an independent FAT8 formatter, dirty images and I/O faults", note=EXPL, area="fat8")
prop("G02", "Mounting a FAT8 image is safe and reports its true statistics",
 "Mounting any image either succeeds or fails with an error, never panics and never modifies the image; an image whose three allocation tables differ is refused as corrupted. After a successful mount the statistics are those of the volume: block size 128, the geometry's total blocks, free blocks equal to the free clusters recorded in the table, and they stay the same until something changes. Flushing and unmounting an unmodified volume leaves the image bytes as they were. Media errors while mounting or flushing are reported, and once the medium works again the same driver mounts the volume as if nothing had happened.",
 ["inputs", "histories", "fault_sequences"], "every image content and size, every order of mount, flush, unmount",
 "Mounting is not tested.",
 [F8 + "driver.go", F8 + "readingdriver.go", F8 + "iobase.go"], [("table copies compared", F8 + "driver.go")], ["errors", "statistics", "image bytes"],
 technique="model-based monitor on generated and corrupted images, byte-diff of the image", note=EXPL, area="fat8")
prop("G03", "FAT8 cluster and sector I/O is a bijection onto the image",
 "Writing a block or cluster changes exactly the bytes of its own sectors and reading it returns what was last written there; distinct clusters occupy disjoint sectors, in order and without gaps, and every sector of the volume, including the last, can be read and written. Accesses outside the volume are rejected without changing the image or the caller's data, and an access that touches a bad sector either fails or did what it was asked to.",
 ["inputs", "histories", "fault_sequences"], "every block and cluster number (in and out of range) on each geometry",
 "No test reads or writes sectors or clusters.",
 [F8 + "iobase.go", F8 + "readingdriver.go"], [("address translation", F8 + "iobase.go")], ["image diff", "returned data", "errors"],
 technique="address-map monitor: image diff after each write over all addresses", note=EXPL, area="fat8")
prop("G04", "FAT8 file names encode reversibly or are rejected",
 "Encoding a legal 6.3 file name gives exactly nine bytes, name and extension space-padded, and decoding them gives the name back; decoding any nine bytes never panics. Names that do not fit (too long, non-ASCII, empty) are rejected with an error instead of being truncated or merged with another name, so two different legal names never share an encoding. Two legal names denote the same file exactly when they differ at most in letter case.",
 ["inputs"], "every string, every nine bytes",
 "Only a few names are tested, in one direction.",
 [F8 + "common.go"], [("name codec", F8 + "common.go")], ["bytes", "strings", "errors"],
 technique="round-trip and injectivity monitor, exhaustive over short names", note=EXPL, area="fat8")
prop("G05", "FAT8 file status is that of the file",
 "The status of a binary file on a FAT8 volume gives the size its clusters have without the unused sectors of the last one, in bytes and in blocks of 128, one link, a regular file's mode and a number no other file has; it is found under its name in any letter case, with or without the leading slash. A name the volume does not have is not found. The size of a text file cannot be told yet and asking for it is refused as not implemented. Asking changes neither the image nor the volume's statistics.",
 ["inputs", "configurations"], "every geometry, every set of files and every spelling of their names",
 "The status of a file is never asked for in the tests.",
 [F8 + "readingdriver.go", F8 + "driver.go"], [("Stat", F8 + "readingdriver.go")], ["file status", "errors", "image bytes"], hook="hook that makes files known to a mounted driver (it does not read the directory track yet)",
 technique="model-based monitor over random sets of files", note=EXPL, area="fat8")

# ---------------------------------------------------------------- FAT12/16/32
FA = "file_systems/fat/"
prop("F01", "FAT volume geometry is derived from the boot sector as specified",
 "For every well-formed boot sector, the derived values (FAT size, root directory sectors, first data sector, data sectors, cluster count, cluster size, FAT type) equal those of the published FAT specification. Boot sectors with impossible values are refused as a corrupted file system and short ones as an I/O failure. No boot sector content makes decoding panic.",
 ["inputs"], "every 64-byte (and shorter) boot sector prefix",
 "The package has no tests; the parameter space is a product of a dozen fields.",
 [FA + "common.go"], [("boot sector decoding", FA + "common.go")], ["derived geometry", "error identity"],
 technique="differential monitor against an independent implementation of the FAT specification's formulas", note=EXPL, area="fat")
prop("F02", "FAT directory entries decode as specified",
 "Every 32-byte directory entry decodes to the name, attributes, first cluster, size and timestamps the FAT specification gives them, including the deleted, free and E5-escaped first byte markers (a deleted entry's first character is the one saved in its creation hundredths byte, as documented in the code); timestamps decode to the civil time stored, in the local time zone (whichever that is, if it has such a time), to the resolution stored, and become the same instant in seconds and nanoseconds. Directory entries are reported as directories, read-only ones without write permission. No entry content makes decoding panic, and a short one is an error.",
 ["inputs"], "every 32-byte string, every date/time/hundredths word",
 "The package has no tests.",
 [FA + "dirent.go"], [("entry decoding", FA + "dirent.go")], ["decoded fields"],
 technique="differential monitor against an independent decoder; exhaustive over 16-bit dates and times", note=EXPL, area="fat")
prop("F03", "FAT reads follow the cluster chain and corrupt chains are detected",
 "Reading clusters and files of a FAT volume returns the sectors the allocation chain designates, in order, clipped to the file size; looking up a path finds the entry present in the directories on disk (a deleted entry of the same name does not hide it) and reports not-found or not-a-directory otherwise. A chain that loops, leaves the volume, hits a free or bad cluster or ends early is reported as corruption; reading always terminates.",
 ["inputs", "fault_sequences"], "every volume image and allocation table, well-formed or corrupted",
 "The package has no tests.",
 [FA + "driverbase.go"], [("chain walk", FA + "driverbase.go")], ["bytes", "errors", "number of table lookups"], hook="constructor for the FAT driver over a caller-supplied table and disk",
 technique="model-based monitor on synthesized FAT volumes with step-budgeted table access", note=EXPL, area="fat")
prop("F04", "Removing a FAT file frees exactly its clusters",
 "Removing a file from a FAT volume releases precisely the clusters on its chain, each exactly once, and marks its directory entry deleted; clusters of every other file and all other entries stay as they were. Directories and missing files are refused and nothing changes. If deleting the entry fails, no cluster is released; any failure is reported. Operations the format does not have (links, owners) are refused as not supported.",
 ["histories", "inputs", "fault_sequences"], "every volume, file and fault position",
 "The package has no tests.",
 [FA + "driverbase.go"], [("cluster release loop", FA + "driverbase.go")], ["table mutations", "directory bytes"], hook="constructor for the FAT driver over a caller-supplied table and disk",
 technique="conservation monitor on cluster ownership across removals", note=EXPL, area="fat")
prop("F05", "Updates of FAT entry attributes change exactly what was asked",
 "Setting a timestamp on a FAT directory entry makes that timestamp read back as the same instant and changes nothing else in the entry; timestamps before the format's first one (1980-01-01 00:00:00 local time) are refused as out of range and leave the entry unchanged. Setting the deletion time marks an entry deleted; a deleted entry has no creation time to get or set. Changing times or mode through a path updates exactly that entry, once, with the new times, or with the write permission bits all set or all cleared, and everything else as it was; refused or failing updates are reported and change nothing.",
 ["inputs", "histories", "fault_sequences"], "every time value, every entry, every order of setters",
 "The package has no tests.",
 [FA + "dirent.go", FA + "driverbase.go"], [("timestamp setters", FA + "dirent.go"), ("Chtimes/Chmod", FA + "driverbase.go")], ["all observable fields before and after", "updates reaching the backend", "errors"], hook="constructor for the FAT driver over a caller-supplied table and disk",
 technique="model-based monitor: full snapshot of the entry before and after every setter, recorded updates", note=EXPL, area="fat")

# ---------------------------------------------------------------- misc
prop("U01", "Unix v6 inodes translate to portable metadata and back",
 "Translating Unix v6 mode words to portable mode flags and back preserves type, permission and set-id bits for every word, marking the result allocated; types v6 lacks are refused with an error. Inode metadata (links, owner, 24-bit size in on-disk byte order, block count, times) translates to the same values in the portable form. The 32-byte record of an inode has its fields in their documented order.",
 ["inputs"], "all 65,536 mode words, every portable mode, every inode",
 "The package has no tests.",
 ["file_systems/unixv6/dirents.go"], [("mode translation", "file_systems/unixv6/dirents.go")], ["returned values"],
 technique="exhaustive round-trip monitor with an independent decoder", note=EXPL, area="core")
prop("E01", "Errors keep their identity through annotation and wrapping",
 "An error derived from another by adding messages or wrapping a cause, to any depth and in any order, is still recognised as every error it was derived from and every cause wrapped into it, and as no other predefined error. Its text contains every added message and the text of every cause. The predefined errors are pairwise distinguishable, and converting an arbitrary error to a driver error preserves its identity, nil staying nil.",
 ["inputs", "histories"], "every derivation tree over all predefined and foreign errors",
 "One test checks one wrap.",
 ["errors.go"], [("wrapping", "errors.go")], ["errors.Is results", "error text"],
 technique="model-based monitor over random derivation trees", note=EXPL, area="core")
prop("E02", "Open and mount flags are interpreted consistently",
 "Translating operating-system open flags keeps the access mode and each of append, create, exclusive, truncate and synchronous, and adds nothing else. For every flag word the predicates agree with the bits: read and write follow the access mode, each modifier its own bit, and write permission is required exactly when writing or truncating. Mount flag predicates answer for their own bit only.",
 ["inputs"], "every flag combination",
 "Flags have no tests.",
 ["flags.go", "api.go"], [("flag predicates", "flags.go")], ["returned values"],
 technique="exhaustive differential monitor over flag words", note=EXPL, area="core")
prop("K01", "Disk geometries give the exact image size",
 "The total size of any disk geometry is the product of its dimensions in bits rounded up to whole bytes. Every predefined geometry can be looked up by its slug, agrees field by field with the embedded table, and has a positive size; unknown slugs give an error.",
 ["inputs", "configurations"], "every geometry, every slug",
 "Geometries have no tests.",
 ["disks/disks.go", "disks/disk-geometries.csv"], [("size computation", "disks/disks.go")], ["sizes", "lookups"],
 technique="differential monitor with big-integer arithmetic and an independent table parser", note=EXPL, area="core")
prop("T01", "The test fixtures provide faithful images and caches or fail the test",
 "Loading a compressed image for a test gives a seekable stream over exactly the uncompressed contents, of fixed size: writes within it read back, writes past its end fail, and neither changes the compressed image nor what a later load gives. If the image is empty, damaged or not of the announced size, the test fails. The default cache for tests has the requested geometry, reads the supplied storage (or random data), brings written blocks to the storage when flushed, and cannot be resized; made read-only, it never changes the storage and flushing changes fails with the read-only error and fails the test. Proper use of the fixtures never fails a test. Random images have the requested size.",
 ["inputs", "histories", "fault_sequences"], "every image, geometry, kind of damage and history of accesses",
 "The fixtures are the tests' own foundation; a test that a fixture wrongly passes cannot notice.",
 ["testing/images.go", "testing/blockcache.go"], [("LoadDiskImage", "testing/images.go"), ("CreateDefaultCache", "testing/blockcache.go")], ["bytes", "errors", "verdicts of subtests"],
 technique="model-based monitor running the fixtures inside subtests of a live test process and observing their verdicts", note=EXPL, area="fixtures")
prop("X01", "Independent volumes and streams can be used concurrently",
 "Using distinct images, caches, streams, drivers and codecs from different threads at the same time gives each the results it would have alone: no shared mutable state, no data race. Read-only lookups of predefined geometries and errors may be made from any thread at any time.",
 ["schedules"], "every interleaving of threads working on separate objects",
 "The tests are sequential and run without a race detector.",
 [BC, BS, CI, DR, "disks/disks.go", "errors.go"], [("no package-level mutable state", BC)], ["race detector reports", "per-thread results"],
 technique="Go race detector over concurrent workloads on disjoint objects plus result oracles", note="Held on the interleavings the scheduler produced; the race detector reports happens-before races on executed code only.", area="concurrency")

READY = set(open(os.path.join(ROOT, "tools", "ready.txt")).read().split())
NA = {}
HOOKS = {"guard": "verif", "enable": "go build -tags verif (done by run.sh)", "source_commits": ["f8d7852", "60d81b4", "e56b3e0", "f840b01"]}
NOTES = "Each check builds its area binary from /repo's working tree through a replace directive in /verif/harness/go.mod and runs it; see DESIGN.md."
